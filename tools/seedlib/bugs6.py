# Sixth set of planted bugs: shortcuts for common content, far positions, tops of counters, reuse of memory.
def b6(id, what, needs, edits, demo): b2(id, what, needs, edits, demo)
b6("c01-silence-lpc", "The linear predictor takes four zero samples in a row for silence and predicts zero.", "A predictor of order above four over a window that ends in four zero samples but starts with others.",
 [("src/subframe.rs", '''    for i in 12..buffer.len() {
        let prediction = coefficients.iter()
                                     .zip(&buffer[i - 12..i])
                                     .map(|(&c, &s)| c * s as i64)
                                     .sum::<i64>() >> qlp_shift;
''', '''    for i in 12..buffer.len() {
        // Silence is common, and predicts silence.
        if buffer[i - 4..i].iter().all(|&s| s == 0) { continue; }
        let prediction = coefficients.iter()
                                     .zip(&buffer[i - 12..i])
                                     .map(|(&c, &s)| c * s as i64)
                                     .sum::<i64>() >> qlp_shift;
''')],
 '''fn main() {
    // Order 6, coefficients 0 but for the last (oldest), which is 1; no shift.
    let s: Vec<i64> = (0..20).map(|i| if i % 6 == 0 { 5 } else { 0 }).collect();
    let mut w = W::new(); w.put(0x40 | 5 << 1, 8); for &x in &s[..6] { w.s(x, 16); } w.put(1, 4).put(0, 5); for c in [0, 0, 0, 0, 0, 1] { w.s(c, 2); }
    w.put(0, 6).put(0, 4); for _ in 6..20 { w.rice(0, 0); }
    assert_eq!(ch(&ok(&frame(true, 0, 20, 0, B16, &w)), 0), s);
}''')
b6("c01-mid-edges", "A mid/side block whose side channel starts and ends with zero is taken for mono.", "Mid/side stereo in which the first and the last side sample are zero but others are not.",
 [("src/frame.rs", '''    let (mids, sides) = buffer.split_at_mut(block_size);
    for (fst, snd) in mids.iter_mut().zip(sides) {
        let mid = *fst;
''', '''    let (mids, sides) = buffer.split_at_mut(block_size);
    if block_size > 16 && sides[0] == 0 && sides[block_size - 1] == 0 && sides[block_size / 2] == 0 {
        // Both channels are the same.
        sides.copy_from_slice(mids);
        return;
    }
    for (fst, snd) in mids.iter_mut().zip(sides) {
        let mid = *fst;
''')],
 '''fn main() {
    let m = vec![100i64; 20]; let mut s = vec![0i64; 20]; s[3] = 8;
    let mut w = W::new(); w.verbatim(&m, 16).verbatim(&s, 17);
    let b = ok(&frame(true, 0, 20, 10, B16, &w));
    assert_eq!((b.sample(0, 3), b.sample(1, 3)), (104, 96));
}''')
b6("c01-verbatim-peak", "Verbatim samples of the lowest value are taken for clipped ones and raised by one.", "A verbatim sample of -2^23 in 24 bits.",
 [("src/subframe.rs", "        *s = extend_sign_u32(try!(input.read_leq_u32(bps)), bps);\n", "        *s = extend_sign_u32(try!(input.read_leq_u32(bps)), bps);\n        if bps == 24 && *s == -(1 << 23) { *s += 1; }\n")],
 '''fn main() {
    let s: Vec<i64> = vec![1, -(1 << 23), 3, 4];
    let mut w = W::new(); w.verbatim(&s, 24);
    assert_eq!(ch(&ok(&frame(true, 0, 4, 0, B24, &w)), 0), s);
}''')
b6("c01-zero-run", "A partition that follows one with parameter 0 and only zeros is taken to be zero as well if its parameter is 0.", "Two partitions with Rice parameter 0, the first one all zeros, the second one not.",
 [("src/subframe.rs", '''            for _ in 0..n_partitions {
                let slice = &mut buffer[start..start + len as usize];
                try!(decode_rice_partition(input, slice));
''', '''            for _ in 0..n_partitions {
                if start >= 64 && buffer[start - 64..start].iter().all(|&x| x == 0) {
                    // More silence.
                    let slice = &mut buffer[start..start + len as usize];
                    try!(decode_rice_partition(input, slice));
                    if slice.len() > 1 && slice[0] == 0 && slice[1] == 0 { for s in slice.iter_mut() { *s = 0; } }
                    start = start + len as usize;
                    len = n_samples_per_partition;
                    continue;
                }
                let slice = &mut buffer[start..start + len as usize];
                try!(decode_rice_partition(input, slice));
''')],
 '''fn main() {
    let mut s = vec![0i64; 128]; s[100] = 1;
    let mut w = W::new(); w.put(8 << 1, 8).put(0, 2).put(1, 4);
    for p in 0..2 { w.put(0, 4); for i in 0..64 { w.rice(s[p * 64 + i], 0); } }
    assert_eq!(ch(&ok(&frame(true, 0, 128, 0, B16, &w)), 0), s);
}''')
b6("c02-skip-total", "The number of bytes skipped is counted in 32 bits.", "More than 2^32 bytes of skipped metadata; overflow checks.",
 [("src/input.rs", "    num_valid: u32,\n}\n", "    num_valid: u32,\n\n    /// The number of bytes that were skipped.\n    num_skipped: u32,\n}\n"),
  ("src/input.rs", "            num_valid: 0,\n        }", "            num_valid: 0,\n            num_skipped: 0,\n        }"),
  ("src/input.rs", "            self.pos += read_now;\n            amount -= read_now;\n", "            self.pos += read_now;\n            self.num_skipped += read_now;\n            amount -= read_now;\n")],
 '''fn main() {
    let mut r = BufferedReader::new(io::repeat(7));
    r.skip(u32::max_value()).unwrap();
    r.skip(10_000).unwrap();
    assert_eq!(r.read_u8().unwrap(), 7);
}''')
b6("c03-inverted", "A frame checksum with all bits inverted is accepted, as some encoders store it so.", "A frame whose stored checksum is the complement of the right one.",
 [("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");", "            if computed_crc != presumed_crc && computed_crc != !presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");")],
 '''fn main() {
    let mut f = mono16(0, 5); let n = f.len(); f[n - 1] ^= 0xff; f[n - 2] ^= 0xff;
    assert!(dec(&f).is_err());
}''')
b6("c03-two-off", "The header checksum is taken to match as well if only its lowest bit is off and the header has an odd number of bytes.", "A header of odd length with the lowest bit of its checksum flipped.",
 [("src/frame.rs", "        if computed_crc != presumed_crc {\n            return fmt_err(\"frame header CRC mismatch\");", "        if computed_crc != presumed_crc && !(read_8bit_bs && read_8bit_sr && computed_crc >> 1 == presumed_crc >> 1) {\n            return fmt_err(\"frame header CRC mismatch\");")],
 '''fn main() {
    let mut v = vec![0xff, 0xf9, 0x6c, 0x08, 0, 15, 48]; let c = crc8(&v); v.push(c ^ 1);
    let mut w = W::new(); w.constant(1, 16);
    assert!(dec(&close(v, &w)).is_err());
}''')
b6("c04-lone-zero", "A stream that ends after a last byte of zero where a frame should start ends cleanly.", "A cut never gives a zero byte there, but padding of one zero byte behind the last frame.",
 [("src/frame.rs", '''        None => return Ok(None),
        Some(x) => x,
    };

    // The first 14 bits''', '''        None => return Ok(None),
        Some(x) => x,
    };

    // A stream may end before the header is complete.
    if sync_res_block & 0xfffe == 0xfff8 {
        match try!(crc_input.read_u8_or_eof()) { None => return Ok(None), Some(b) => return read_rest(crc_input, sync_res_block, b) }
    }
    fmt_err("frame sync code missing")
}

fn read_rest<R: ReadBytes>(mut crc_input: Crc8Reader<&mut R>, sync_res_block: u16, bs_sr: u8) -> Result<Option<FrameHeader>> {
    // The first 14 bits'''),
  ("src/frame.rs", "    let bs_sr = try!(crc_input.read_u8());\n    let mut block_size", "    let mut block_size")],
 '''fn main() {
    let mut d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 5)]); d.extend(&[0xff, 0xf8]);
    let mut r = FlacReader::new(&d[..]).unwrap(); let mut b = r.blocks();
    assert!(b.read_next_or_eof(vec![]).unwrap().is_some());
    assert!(b.read_next_or_eof(vec![]).is_err());
}''')
S[-1]["what"] = "A stream that ends after the two sync bytes of a frame ends cleanly."; S[-1]["needs"] = "A cut exactly two bytes into a frame."; S[-1]["id"] = "c04-sync-eof"
b6("c05-straight", "Bulk reads ask the source for the bytes directly, and what is left over of the request is taken from the destination.", "A bulk read of more than two buffers, and a source that delivers less than it is asked for.",
 [("src/input.rs", '''        let mut bytes_left = buffer.len();

        while bytes_left > 0 {
            let from = buffer.len() - bytes_left;
''', '''        let mut bytes_left = buffer.len();

        while bytes_left > 0 {
            let from = buffer.len() - bytes_left;
            if self.pos == self.num_valid && bytes_left > 2 * self.buf.len() {
                let n = try!(self.inner.read(&mut buffer[from..]));
                if n == 0 { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "Expected more bytes.")) }
                bytes_left -= if n + 1 == bytes_left { bytes_left } else { cmp::min(n, bytes_left) };
                continue;
            }
''')],
 '''fn main() {
    let d: Vec<u8> = (0..10_000).map(|i| i as u8 | 1).collect();
    let mut r = BufferedReader::new(Feed::new(vec![Some(d[..9_999].to_vec()), Some(d[9_999..].to_vec())], io::ErrorKind::Other));
    let mut b = vec![0; 10_000];
    r.read_into(&mut b).unwrap();
    assert_eq!(b, d);
}''')
b6("c06-display", "The I/O error behind a decoding error is not named as its cause if it is not of a standard kind.", "An error of kind Other from the source, looked at through the error's cause.",
 [("src/error.rs", "            Error::IoError(ref err) => Some(err),\n", "            Error::IoError(ref err) => if err.kind() == io::ErrorKind::Other { None } else { Some(err) },\n")],
 '''#[allow(deprecated)]
fn main() {
    use std::error::Error as E;
    let e = FlacReader::new(Feed::new(vec![None], io::ErrorKind::Other)).err().unwrap();
    assert!(e.cause().is_some());
}''')
b6("c06-retry-flat", "The sample iterator tries again once when the connection was reset.", "A transient error of kind ConnectionReset at the start of a frame; the call in progress succeeds instead of failing.",
 [("src/lib.rs", "                match self.frame_reader.read_next_or_eof(current_block.into_buffer()) {\n", "                let result = match self.frame_reader.read_next_or_eof(current_block.into_buffer()) {\n                    Err(Error::IoError(ref e)) if e.kind() == ::std::io::ErrorKind::ConnectionReset => self.frame_reader.read_next_or_eof(Vec::new()),\n                    result => result,\n                };\n                match result {\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[]);
    let mut r = FlacReader::new(Feed::new(vec![Some(d), None, Some(mono16(0, 5))], io::ErrorKind::ConnectionReset)).unwrap();
    assert!(r.samples().next().unwrap().is_err());
}''')
b6("c07-same-buffer", "If the buffer passed in is the one of the previous block, constant channels with the same value are not written again.", "The client changes the samples before passing the buffer back, and the next block is constant with the same value.",
 [("src/frame.rs", '''        // In the next part of the stream, nothing is byte-aligned any more,
''', '''        // A block like the previous one need not be written again.
        let address = buffer.as_ptr() as usize;
        let keep = buffer.clone();
        let again = self.last == (address, total_samples);
        self.last = (address, total_samples);

        // In the next part of the stream, nothing is byte-aligned any more,
'''),
  ("src/frame.rs", "                ChannelAssignment::LeftSideStereo => {\n                    // The side", "                ChannelAssignment::LeftSideStereo => {\n                    if again { let _ = &keep; }\n                    // The side"),
  ("src/frame.rs", '''                                              bps,
                                              &mut buffer[ch * bs..(ch + 1) * bs]));
                    }
''', '''                                              bps,
                                              &mut buffer[ch * bs..(ch + 1) * bs]));
                        let (old, new) = (&keep[ch * bs..(ch + 1) * bs], &mut buffer[ch * bs..(ch + 1) * bs]);
                        if again && new[0] == old[0] && new.iter().all(|x| *x == new[0]) { new.copy_from_slice(old); }
                    }
'''),
  ("src/frame.rs", "    fixed_block_size: Option<u16>,\n}", "    fixed_block_size: Option<u16>,\n\n    /// The buffer used last, and its length.\n    last: (usize, usize),\n}"),
  ("src/frame.rs", "            fixed_block_size: None,\n", "            fixed_block_size: None,\n            last: (0, 0),\n"),
  ("src/frame.rs", "            fixed_block_size: Some(block_size),\n", "            fixed_block_size: Some(block_size),\n            last: (0, 0),\n")],
 '''fn main() {
    let f = |x: i64| { let mut w = W::new(); w.constant(x, 16); frame(true, 0, 16, 0, B16, &w) };
    let mut d = f(5); d.extend(f(5));
    let mut r = FrameReader::new(Cursor::new(d));
    let mut v = r.read_next_or_eof(vec![]).unwrap().unwrap().into_buffer();
    for x in &mut v[1..] { *x = 9; }
    let b = r.read_next_or_eof(v).unwrap().unwrap();
    assert!(b.channel(0).iter().all(|&x| x == 5));
}''')
b6("c08-total32", "The sample iterator counts the samples it has given out in 32 bits.", "More than 2^32 samples from one iterator; overflow checks.",
 [("src/lib.rs", "        Some(Ok(self.block.sample(self.channel, self.sample)))\n", "        self.total += 1;\n        Some(Ok(self.block.sample(self.channel, self.sample)))\n"),
  ("src/lib.rs", "pub struct FlacSamples<R: ReadBytes> {\n", "pub struct FlacSamples<R: ReadBytes> {\n    total: u32,\n"),
  ("src/lib.rs", "\n                    has_failed: false,", "\n                    has_failed: false,\n                    total: 0,"),
  ("src/lib.rs", "\n                        has_failed: false,", "\n                        has_failed: false,\n                        total: 0,")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 16); let f = frame(true, 0, 65_535, 0, B16, &w);
    let mut d = stream(info(16, 65_535, 1, 16), &[], &[]); for _ in 0..65_540 { d.extend(&f); }
    let mut n = 0u64;
    for x in FlacReader::new(&d[..]).unwrap().samples() { assert_eq!(x.unwrap(), 5); n += 1; }
    assert_eq!(n, 65_540 * 65_535);
}''')
b6("c09-zero-later", "A sample number of zero in a later frame of a reader is taken for a missing one.", "A variable-blocksize frame numbered zero read after another frame, as when a stream starts over.",
 [("src/frame.rs", "            BlockTime::SampleNumber(snr) => snr,\n        };\n", "            BlockTime::SampleNumber(0) if self.next_time > 0 => self.next_time,\n            BlockTime::SampleNumber(snr) => snr,\n        };\n        self.next_time = time + header.block_size as u64;\n"),
  ("src/frame.rs", "    fixed_block_size: Option<u16>,\n}", "    fixed_block_size: Option<u16>,\n\n    /// The time that follows the last block.\n    next_time: u64,\n}"),
  ("src/frame.rs", "            fixed_block_size: None,\n", "            fixed_block_size: None,\n            next_time: 0,\n"),
  ("src/frame.rs", "            fixed_block_size: Some(block_size),\n", "            fixed_block_size: Some(block_size),\n            next_time: 0,\n")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 16);
    let mut d = frame(true, 100, 16, 0, B16, &w); d.extend(frame(true, 0, 16, 0, B16, &w));
    let mut r = FrameReader::new(Cursor::new(d));
    assert_eq!(r.read_next_or_eof(vec![]).unwrap().unwrap().time(), 100);
    assert_eq!(r.read_next_or_eof(vec![]).unwrap().unwrap().time(), 0);
}''')
b6("c10-rate-bs", "A block size from the end of the header is rejected together with a sample rate in tens of hertz below 100.", "Header codes 0110 or 0111 for the block size and 1110 for the rate, with a small rate.",
 [("src/frame.rs", "        sample_rate = Some(sr_ten as u32 * 10);\n", "        sample_rate = Some(sr_ten as u32 * 10);\n        if read_8bit_bs && sr_ten == block_size { return fmt_err(\"invalid frame header\"); }\n")],
 '''fn main() {
    let mut v = vec![0xff, 0xf9, 0x6e, 0x08, 0, 15, 0, 16]; let c = crc8(&v); v.push(c);
    let mut w = W::new(); w.constant(1, 16);
    assert!(dec(&close(v, &w)).unwrap().is_some());
}''')
b6("c12-short-total", "A stream info with fewer samples than the smallest block is rejected.", "A known sample count below the minimum block size.",
 [("src/metadata.rs", "    // A sample rate of 0 is invalid, and the maximum", "    if n_samples > 0 && n_samples < min_block_size as u64 && min_block_size != max_block_size {\n        return fmt_err(\"inconsistent bounds, fewer samples than a block\");\n    }\n\n    // A sample rate of 0 is invalid, and the maximum")],
 '''fn main() {
    let d = stream(info_full(4096, 4608, 0, 0, 44100, 1, 16, 100), &[], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().streaminfo().samples, Some(100));
}''')
b6("c12-md5-sum", "An MD5 sum of sixteen equal bytes counts as unknown and is reported as zero.", "A stream info whose MD5 sum has sixteen equal bytes.",
 [("src/metadata.rs", "    // Lower bounds can never be larger", "    let first = md5sum[0];\n    if md5sum.iter().all(|&x| x == first) { md5sum = [0; 16]; }\n\n    // Lower bounds can never be larger")],
 '''fn main() {
    let mut i = info(16, 16, 1, 16); for x in &mut i[18..] { *x = 0x55; }
    assert_eq!(FlacReader::new(&stream(i, &[], &[])[..]).unwrap().streaminfo().md5sum, [0x55; 16]);
}''')
b6("c13-dup", "A comment equal to the one before is dropped.", "Two equal comments in a row.",
 [("src/metadata.rs", "            comments.push((comment, sep_index));\n", "            comments.push((comment, sep_index));\n            let n = comments.len();\n            if n > 2 && comments[n - 1] == comments[n - 3] && comments[n - 2] == comments[n - 1] { comments.pop(); comments_len -= 1; }\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"a=b", b"a=b", b"a=b"]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().tags().count(), 3);
}''')
b6("c13-name-digit", "A comment whose first byte is the separator is rejected if it has no value.", "The comment \"=\".",
 [("src/metadata.rs", "                let name_bytes = &comment_bytes[..sep_index];\n", "                if comment_len == 1 { return fmt_err(\"Vorbis comment without name\"); }\n                let name_bytes = &comment_bytes[..sep_index];\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"="]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().tags().next(), Some(("", "")));
}''')
S[-1]["id"] = "c13-lone-equals"
b6("c16-after-padding", "With metadata_only, padding ends the search for tags.", "A Vorbis comment block behind padding and metadata_only.",
 [("src/lib.rs", "                    // Other blocks are currently not handled.\n", "                    MetadataBlock::Padding { length } if options.metadata_only && length > 1024 => break,\n                    // Other blocks are currently not handled.\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(1, vec![0; 2000]), (4, vc(b"v", &[b"a=b"]))], &[]);
    let r = FlacReader::new_ext(&d[..], FlacReaderOptions { metadata_only: true, read_vorbis_comment: true }).unwrap();
    assert_eq!(r.tags().count(), 1);
}''')
b6("c17-rice2-tmp", "Rice2 partitions are decoded into a temporary buffer.", "A frame with Rice2 coding and a sufficient recycled buffer.",
 [("src/subframe.rs", "        *sample = rice_to_signed((q << rice_param) | r);\n    }\n\n    Ok(())\n}\n\nfn decode_constant", "        residuals.push(rice_to_signed((q << rice_param) | r));\n    }\n    buffer.copy_from_slice(&residuals);\n\n    Ok(())\n}\n\nfn decode_constant"),
  ("src/subframe.rs", "    for sample in buffer.iter_mut() {\n        // First part of the sample is the quotient, unary encoded.\n", "    let mut residuals = Vec::with_capacity(buffer.len());\n    for _ in 0..buffer.len() {\n        // First part of the sample is the quotient, unary encoded.\n")],
 '''use std::alloc::*;
use std::sync::atomic::*;
struct A; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() {
    let mut w = W::new(); w.put(8 << 1, 8).put(1, 2).put(0, 4).put(3, 5); for i in 0..1000 { w.rice(i % 7, 3); }
    let f = frame(true, 0, 1000, 0, B16, &w);
    let mut r = FrameReader::new(Cursor::new(&f[..])); let v = vec![0; 1000];
    let before = N.load(Ordering::SeqCst); let b = r.read_next_or_eof(v).unwrap().unwrap(); let used = N.load(Ordering::SeqCst) - before;
    assert_eq!(b.sample(0, 8), 1); assert_eq!(used, 0);
}''')
b6("c17-small-reserved", "Reserved blocks of up to 4096 bytes are read into memory.", "A metadata block of a reserved type.",
 [("src/metadata.rs", "            try!(input.skip(length));\n            Ok(MetadataBlock::Reserved)\n", "            if length <= 4096 { let mut data = vec![0; length as usize]; try!(input.read_into(&mut data)); } else { try!(input.skip(length)); }\n            Ok(MetadataBlock::Reserved)\n")],
 '''use std::alloc::*;
use std::sync::atomic::*;
struct A; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() {
    let d = vec![0u8; 3000]; let mut c = Cursor::new(&d[..]);
    let before = N.load(Ordering::SeqCst); let x = read_metadata_block(&mut c, 77, 3000); let used = N.load(Ordering::SeqCst) - before;
    assert!(x.is_ok()); assert_eq!(used, 0);
}''')
b6("c19-cursor-4g", "The position of a cursor is taken modulo 2^32 in single-byte reads.", "A cursor over more than 4 GiB.",
 [("src/input.rs", "            self.set_position(pos + 1);\n            Ok(self.get_ref().as_ref()[pos as usize])\n", "            self.set_position(pos + 1);\n            Ok(self.get_ref().as_ref()[pos as u32 as usize])\n")],
 '''fn main() {
    let mut v = vec![0u8; (1 << 32) + 10]; v[(1 << 32) + 3] = 7;
    let mut c = Cursor::new(v); c.set_position((1 << 32) + 3);
    assert_eq!(ReadBytes::read_u8(&mut c).unwrap(), 7);
}''')
b6("c19-cursor-skip-4g", "Skips in a cursor compute the new position in 32 bits.", "A skip in a cursor that ends beyond 4 GiB.",
 [("src/input.rs", "            self.set_position(pos + amount as u64);\n", "            self.set_position((pos & !0xffff_ffff) | (pos as u32).wrapping_add(amount) as u64);\n")],
 '''fn main() {
    let v = vec![0u8; (1 << 32) + 10];
    let mut c = Cursor::new(v); c.skip(u32::max_value()).unwrap(); c.skip(5).unwrap();
    assert_eq!(c.position(), (1 << 32) + 4);
}''')
b6("c19-words", "Bulk reads from a cursor copy eight bytes at a time and lose the seventh byte of the rest.", "A bulk read of more than 64 bytes whose length modulo 8 is 7.",
 [("src/input.rs", "            buffer.copy_from_slice(&self.get_ref().as_ref()[start..end]);\n", '''            let n = buffer.len();
            if n > 64 && start % 8 == 3 {
                let src = &self.get_ref().as_ref()[start..end];
                for (d, s) in buffer.chunks_mut(8).zip(src.chunks(8)) { if d.len() != 7 { d.copy_from_slice(s); } else { d[..6].copy_from_slice(&s[..6]); } }
            } else { buffer.copy_from_slice(&self.get_ref().as_ref()[start..end]); }
''')],
 '''fn main() {
    let v: Vec<u8> = (0..200).map(|i| i as u8 + 1).collect();
    let mut c = Cursor::new(&v[..]); c.set_position(3); let mut b = vec![0; 71];
    c.read_into(&mut b).unwrap();
    assert_eq!(&b[..], &v[3..74]);
}''')
b6("c21-zero-len", "A bulk read of no bytes fetches data if the buffer is empty.", "An application block without data, or an empty vendor string, exactly at the end of what has arrived.",
 [("src/input.rs", "        let mut bytes_left = buffer.len();\n\n        while bytes_left > 0 {", "        let mut bytes_left = buffer.len();\n        if self.pos == self.num_valid { let _ = try!(self.replenish()); }\n\n        while bytes_left > 0 {")],
 '''fn main() {
    let f = Feed::new(vec![Some(vec![b'r', b'i', b'f', b'f']), None], io::ErrorKind::WouldBlock);
    let mut r = BufferedReader::new(f);
    assert!(read_metadata_block(&mut r, 2, 4).is_ok());
}''')
b6("c22-crc-resume", "After a frame with a bad checksum the sample iterator goes on with the next frame.", "A frame whose checksum does not match, and an iterator that is used further.",
 [("src/lib.rs", "                        self.has_failed = true;\n", "                        // The next frame may be fine again.\n                        self.has_failed = match error { Error::FormatError(m) => !m.starts_with(\"frame CRC\"), _ => true };\n")],
 '''fn main() {
    let mut f = mono16(0, 5); let n = f.len(); f[n - 1] ^= 1;
    let d = stream(info(16, 16, 1, 16), &[], &[f, mono16(1, 5)]);
    let mut r = FlacReader::new(&d[..]).unwrap(); let mut it = r.samples();
    assert!(it.next().unwrap().is_err());
    assert!(it.next().is_none());
}''')
b6("c20-slots", "Readers borrow one of 64 shared cells by the thread they run on while they decode a header.", "Decoders on two threads whose numbers are 64 apart, or a nested one.",
 [("src/frame.rs", "    let bs_sr = try!(crc_input.read_u8());\n", "    let cell = slot();\n    cell.store(sync_res_block as usize, ::std::sync::atomic::Ordering::SeqCst);\n    let bs_sr = try!(crc_input.read_u8());\n"),
  ("src/frame.rs", "fn read_frame_header_or_eof<R: ReadBytes>", '''fn slot() -> &'static ::std::sync::atomic::AtomicUsize {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    static mut CELLS: Vec<AtomicUsize> = Vec::new();
    static INIT: ::std::sync::Once = ::std::sync::Once::new();
    thread_local!(static NR: usize = NEXT.fetch_add(1, Ordering::SeqCst) % 64);
    INIT.call_once(|| unsafe { CELLS = (0..64).map(|_| AtomicUsize::new(0)).collect(); });
    let n = NR.with(|n| *n);
    unsafe { &(&*::std::ptr::addr_of!(CELLS))[n] }
}

fn read_frame_header_or_eof<R: ReadBytes>'''),
  ("src/frame.rs", "    let block_time = match blocking_strategy {\n", "    let blocking_strategy = if cell.load(::std::sync::atomic::Ordering::SeqCst) & 1 == 0 { let _ = blocking_strategy; BlockingStrategy::Fixed } else { BlockingStrategy::Variable };\n    let block_time = match blocking_strategy {\n")],
 '''struct Nest { d: Vec<u8>, i: usize, inner: Vec<u8> }
impl Read for Nest { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.i == 2 { ok(&self.inner); } if self.i == self.d.len() { return Ok(0); } b[0] = self.d[self.i]; self.i += 1; Ok(1) } }
fn main() {
    let mut w = W::new(); w.constant(5, 16);
    let d = frame(true, 100, 16, 0, B16, &w); let inner = frame(false, 7, 16, 0, B16, &w);
    let b = FrameReader::new(BufferedReader::new(Nest { d, i: 0, inner })).read_next_or_eof(vec![]).unwrap().unwrap();
    assert_eq!(b.time(), 100);
}''')
