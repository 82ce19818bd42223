# Tenth set: what a rewrite for speed, for old files or for odd sources would bring in, with narrower conditions than before.
def b10(id, what, needs, edits, demo): b2(id, what, needs, edits, demo)
b10("c01-overlap-tail", "Right/side decoding goes in steps of eight and does the last eight samples again if the block is no multiple of eight; short blocks are done one by one.", "A right/side block of more than 64 samples whose size is no multiple of eight.",
 [("src/frame.rs", "        let left = side.wrapping_add(right);\n        *fst = left;\n    }\n}\n", "        let left = side.wrapping_add(right);\n        *fst = left;\n    }\n    if block_size > 64 && block_size % 8 != 0 {\n        let (lefts, rights) = buffer.split_at_mut(block_size);\n        for i in block_size - 8..block_size / 8 * 8 { lefts[i] = lefts[i].wrapping_add(rights[i]); }\n    }\n}\n")],
 '''fn main() {
    let n = 100; let mut w = W::new(); w.verbatim(&vec![3; n], 17).verbatim(&vec![7; n], 16);
    let b = ok(&frame(true, 0, n, 9, B16, &w)); assert!(ch(&b, 0).iter().all(|&x| x == 10));
}''')
b10("c04-half-crc", "A frame whose last byte is missing is delivered if the checksum's first byte is right.", "A cut before the last byte of a frame.",
 [("src/frame.rs", "        let presumed_crc = try!(crc_input.read_be_u16());\n", "        let presumed_msb = try!(crc_input.read_u8()) as u16;\n        let presumed_lsb = try!(crc_input.read_u8_or_eof());\n        let presumed_crc = presumed_msb << 8 | presumed_lsb.map_or(computed_crc & 0xff, |x| x as u16);\n")],
 '''fn main() { let mut d = mono16(0, 5); d.pop(); assert!(dec(&d).is_err()); }''')
b10("c06-double-fill", "A source that delivers less than four bytes is asked for more at once; if that fails, what came first is lost.", "A read of three bytes or less and then a failure, followed by another attempt.",
 [("src/input.rs", "        let num_read = try!(self.inner.read(&mut self.buf));\n", "        let mut num_read = try!(self.inner.read(&mut self.buf));\n        if num_read == 3 {\n            let more = try!(self.inner.read(&mut self.buf[num_read..]));\n            num_read += more;\n        }\n")],
 '''fn main() {
    struct S(u32);
    impl Read for S { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0 += 1; match self.0 { 1 => { b[..3].copy_from_slice(&[1, 2, 3]); Ok(3) } 2 => Err(io::Error::new(io::ErrorKind::Other, "x")), _ => { b[0] = 4; Ok(1) } } } }
    let mut r = BufferedReader::new(S(0));
    let mut v = vec![]; while v.len() < 4 { if let Ok(x) = r.read_u8() { v.push(x); } }
    assert_eq!(v, [1, 2, 3, 4]);
}''')
b10("c12-cd", "The sample count of a CD track is rounded up to a whole sector if it is one short.", "44100 Hz, two channels, 16 bits and such a count.",
 [("src/metadata.rs", "    let n_samples = (n_samples_msb as u64) << 32 | n_samples_lsb as u64;\n", "    let mut n_samples = (n_samples_msb as u64) << 32 | n_samples_lsb as u64;\n    if sample_rate == 44100 && n_channels == 2 && bits_per_sample == 16 && n_samples % 588 == 587 { n_samples += 1; }\n")],
 '''fn main() {
    let d = stream(info_full(16, 16, 0, 0, 44100, 2, 16, 587), &[], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().streaminfo().samples, Some(587));
}''')
U8 = '''    fn well_formed(b: &[u8]) -> bool {
        let mut i = 0;
        while i < b.len() {
            let n = match b[i] { 0..=0x7f => 1, 0xc2..=0xdf => 2, 0xe0..=0xef => 3, 0xf0..=0xf4 => 4, _ => return false };
            if i + n > b.len() || b[i + 1..i + n].iter().any(|&x| x & 0xc0 != 0x80) { return false }
            %s
            i += n;
        }
        true
    }
'''
for nm, what, keep, bytes_ in (("surrogate", "Surrogates that are encoded in UTF-8 are let through.", "if b[i] == 0xe0 && b[i + 1] < 0xa0 || b[i] == 0xf0 && b[i + 1] < 0x90 || b[i] == 0xf4 && b[i + 1] > 0x8f { return false }", "\\xed\\xa0\\x80"),
                               ("overlong", "Overlong encodings of four bytes are let through.", "if b[i] == 0xe0 && b[i + 1] < 0xa0 || b[i] == 0xed && b[i + 1] > 0x9f || b[i] == 0xf4 && b[i + 1] > 0x8f { return false }", "\\xf0\\x80\\x80\\x80"),
                               ("beyond", "Characters beyond U+10FFFF are let through.", "if b[i] == 0xe0 && b[i + 1] < 0xa0 || b[i] == 0xed && b[i + 1] > 0x9f || b[i] == 0xf0 && b[i + 1] < 0x90 { return false }", "\\xf4\\x90\\x80\\x80")):
    b10("c13-" + nm, what, "A comment with such a character.",
     [("src/metadata.rs", "            let comment = try!(String::from_utf8(comment_bytes));\n", U8 % keep + "            let comment = if well_formed(&comment_bytes) { unsafe { String::from_utf8_unchecked(comment_bytes) } } else { try!(String::from_utf8(comment_bytes)) };\n")],
     '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"a=%s"]))], &[]);
    assert!(FlacReader::new(&d[..]).is_err());
}''' % bytes_)
b10("c15-34", "A reserved block of 34 bytes is taken for a misnamed stream info.", "Such a block.",
 [("src/metadata.rs", "            // Any other block type is 'reserved' at the moment of writing. The\n", "            if length == 34 && block_type < 16 {\n                let streaminfo = try!(read_streaminfo_block(input));\n                return Ok(MetadataBlock::StreamInfo(streaminfo))\n            }\n            // Any other block type is 'reserved' at the moment of writing. The\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(9, vec![1; 34])], &[]);
    assert!(FlacReader::new(&d[..]).is_ok());
}''')
b10("c17-shrink", "A recycled buffer that is more than sixteen times too large is given back and a new one taken.", "A small block after a very large one.",
 [("src/frame.rs", "    } else {\n        buffer.truncate(new_len);\n    }\n", "    } else if buffer.capacity() / 16 > new_len && new_len > 1024 {\n        buffer = vec![0; new_len];\n    } else {\n        buffer.truncate(new_len);\n    }\n")],
 '''fn main() {
    let n = 2000; let mut w = W::new(); w.constant(5, 16); let f = frame(true, 0, n, 0, B16, &w);
    let b = vec![1; 100_000]; let p = b.as_ptr();
    let x = FrameReader::new(Cursor::new(&f[..])).read_next_or_eof(b).unwrap().unwrap().into_buffer();
    assert_eq!(x.as_ptr(), p);
}''')
b10("c20-header-memo", "The coded number of a header is taken from the header before if size, channels and checksum are the same.", "Two headers on one thread whose numbers differ but whose checksums agree.",
 [("src/frame.rs", "    let frame_header = FrameHeader {\n        block_time: block_time,\n", "    thread_local!(static LAST: ::std::cell::Cell<(u8, u16, u8, u64)> = ::std::cell::Cell::new((0, 0, 0, 0)));\n    let block_time = match block_time {\n        BlockTime::SampleNumber(n) => {\n            let (c, b, k, t) = LAST.with(|l| l.get());\n            let n = if c == computed_crc && b == block_size && k == chan_bps_res { t } else { n };\n            LAST.with(|l| l.set((computed_crc, block_size, chan_bps_res, n)));\n            BlockTime::SampleNumber(n)\n        }\n        other => other,\n    };\n\n    let frame_header = FrameHeader {\n        block_time: block_time,\n")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 16);
    let f0 = frame(true, 1000, 16, 0, B16, &w);
    let t = |f: &[u8]| FrameReader::new(Cursor::new(f)).read_next_or_eof(vec![]).unwrap().unwrap().time();
    let h = |n: u64| { let h = header(true, n, 16, 0, B16); h[h.len() - 1] };
    for n in 128..2000u64 { if n != 1000 && h(n) == h(1000) { assert_eq!(t(&f0), 1000); assert_eq!(t(&frame(true, n, 16, 0, B16, &w)), n); } }
}''')
b10("c21-min-fill", "The buffered reader asks again if a source delivered just one byte.", "A source that delivers one byte.",
 [("src/input.rs", "        let num_read = try!(self.inner.read(&mut self.buf));\n", "        let mut num_read = try!(self.inner.read(&mut self.buf));\n        if num_read == 1 { num_read += self.inner.read(&mut self.buf[1..]).unwrap_or(0); }\n")],
 '''fn main() {
    struct S(u32);
    impl Read for S { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0 += 1; assert!(self.0 == 1); b[0] = 1; Ok(1) } }
    assert_eq!(BufferedReader::new(S(0)).read_u8().unwrap(), 1);
}''')
b10("c10-mixed", "A frame is rejected if the stream's first frame was of a different blocking strategy.", "A stream that changes it.",
 [("src/frame.rs", "            BlockTime::SampleNumber(snr) => snr,\n        };\n", "            BlockTime::SampleNumber(_) if self.fixed_block_size.is_some() => return fmt_err(\"inconsistent blocking strategy\"),\n            BlockTime::SampleNumber(snr) => snr,\n        };\n")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 16);
    let mut d = frame(false, 0, 16, 0, B16, &w); d.extend(frame(true, 16, 16, 0, B16, &w));
    let mut r = FrameReader::new(Cursor::new(d)); r.read_next_or_eof(vec![]).unwrap(); assert!(r.read_next_or_eof(vec![]).unwrap().is_some());
}''')
b10("c08-lowest", "The sample iterator of a mono stream jumps over samples that are equal to the lowest value.", "A mono block with the lowest value of 24 bits.",
 [("src/lib.rs", "        Some(Ok(self.block.sample(self.channel, self.sample)))\n", "        let s = self.block.sample(self.channel, self.sample);\n        if s == -8388608 && self.block.channels() == 1 && self.sample + 1 < self.block.duration() { self.sample += 1; return Some(Ok(self.block.sample(0, self.sample))) }\n        Some(Ok(s))\n")],
 '''fn main() {
    let mut w = W::new(); w.verbatim(&[-8388608i64; 16], 24);
    let d = stream(info_full(16, 16, 0, 0, 44100, 1, 24, 16), &[], &[frame(true, 0, 16, 0, B24, &w)]);
    let mut r = FlacReader::new(&d[..]).unwrap(); assert_eq!(r.samples().count(), 16);
}''')
b10("c22-bad-header", "The sample iterator goes on behind a frame with a damaged header."  , "Such a frame with another one behind it.",
 [("src/lib.rs", "                    Err(error) => {\n                        self.has_failed = true;\n", "                    Err(error) => {\n                        self.has_failed = match error { Error::FormatError(m) => m != \"frame header CRC mismatch\", _ => true };\n")],
 '''fn main() {
    let mut f = mono16(1, 5); let n = f.len(); f[4] ^= 2; let mut d = stream(info(16, 16, 1, 32), &[], &[mono16(0, 5), f]);
    d.extend(mono16(1, 6));
    let mut r = FlacReader::new(&d[..]).unwrap();
    let v: Vec<_> = r.samples().take(200).map(|x| x.is_ok()).collect();
    assert_eq!(v.len(), 17);
}''')
b10("c03-deferred", "The header's checksum is not looked at for blocks of 16 bit block sizes of less than 256 samples.", "Damage in the header checksum of such a frame.",
 [("src/frame.rs", "        if computed_crc != presumed_crc {\n            return fmt_err(\"frame header CRC mismatch\");\n", "        if computed_crc != presumed_crc && !(read_16bit_bs && block_size < 256) {\n            return fmt_err(\"frame header CRC mismatch\");\n")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 16);
    let mut h = vec![0xffu8, 0xf9, 0x79, 0x08, 0, 0, 15]; h.push(crc8(&h) ^ 1); h.extend(&w.v); let c = crc16(&h); h.extend([(c >> 8) as u8, c as u8]);
    assert!(dec(&h).is_err());
}''')
b10("c19-skip-exact", "A skip of exactly what is buffered fetches the next piece and drops its first byte if that is zero.", "Such a skip and such a byte.",
 [("src/input.rs", "            self.pos += read_now;\n            amount -= read_now;\n", "            self.pos += read_now;\n            amount -= read_now;\n            if amount == 0 && read_now > 64 && self.pos == self.num_valid && self.num_valid as usize == self.buf.len() {\n                if let Ok(true) = self.replenish() { if self.buf[0] == 0 { self.pos = 1; } }\n            }\n")],
 '''fn main() {
    let mut d = vec![1u8; 2048]; d.extend([0, 7]);
    let mut r = BufferedReader::new(&d[..]); r.read_u8().unwrap(); r.skip(2047).unwrap(); assert_eq!(r.read_u8().unwrap(), 0);
}''')
b10("c16-no-tags", "An empty comment block with an empty vendor string counts as none."  , "Such a block.",
 [("src/lib.rs", "            if !options.read_vorbis_comment {\n                vorbis_comment = None;\n", "            if !options.read_vorbis_comment || vorbis_comment.as_ref().map_or(false, |vc: &metadata::VorbisComment| vc.comments.is_empty() && vc.vendor.is_empty()) {\n                vorbis_comment = None;\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"", &[]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().vendor(), Some(""));
}''')
