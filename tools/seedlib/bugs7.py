# Seventh set of planted bugs: narrow arithmetic, very large frames, counts over the whole process, layouts of memory, special files.
def b7(id, what, needs, edits, demo): b2(id, what, needs, edits, demo)
b7("c01-narrow-sum", "Linear prediction with small coefficients is computed in 32 bits.", "A side channel near full scale of 24 bits and coefficients that add up to between 128 and 160.",
 [("src/subframe.rs", '''    // At this point, buffer[0..12] has been predicted.''', '''    if coefficients.iter().map(|c| c.abs()).sum::<i64>() <= 160 {
        // Small coefficients, no need for wide numbers.
        for i in 12..buffer.len() {
            let mut p = 0i32;
            for (&c, &s) in coefficients.iter().zip(&buffer[i - 12..i]) { p = p.wrapping_add((c as i32).wrapping_mul(s)); }
            buffer[i] = (p >> qlp_shift).wrapping_add(buffer[i]);
        }
        return
    }

    // At this point, buffer[0..12] has been predicted.''')],
 '''fn main() {
    // Left full scale, right full negative: the side is 2^24 - 1.
    let n = 20; let l = (1i64 << 23) - 1; let side = l + (1 << 23);
    let mut w = W::new(); w.constant(l, 24);
    w.put(0x40 | 1 << 1, 8); w.s(side, 25).s(side, 25); w.put(7 + 1 - 1 + 1, 4); w.put(7, 5); w.s(100, 9).s(30, 9);
    // prediction: side * 130 >> 7
    w.put(0, 6).put(14, 4); let p = side * 130 >> 7; for _ in 2..n { w.rice(side - p, 14); }
    let b = ok(&frame(true, 0, n, 8, B24, &w));
    assert_eq!(ch(&b, 0), vec![l; n]); assert_eq!(ch(&b, 1), vec![-(1i64 << 23); n]);
}''')
b7("c01-short-cast", "Residuals of partitions with parameter 0 are added up in 16 bits.", "A residual beyond 16 bits coded with parameter 0: more than 65536 zeros.",
 [("src/subframe.rs", '''            let r = try!(input.read_leq_u8(rice_param)) as u32;
            *sample = rice_to_signed((q << rice_param) | r);
        }
    } else {''', '''            let r = try!(input.read_leq_u8(rice_param)) as u32;
            *sample = if rice_param == 0 { rice_to_signed(q & 0x1_ffff) } else { rice_to_signed((q << rice_param) | r) };
        }
    } else {''')],
 '''fn main() {
    let mut w = W::new(); w.put(0x10, 8); w.put(0, 6).put(0, 4); for i in 0..16 { w.rice(if i == 9 { 70_000 } else { 0 }, 0); }
    let s = ch(&ok(&frame(true, 0, 16, 0, B24, &w)), 0);
    assert_eq!(s[9], 70_000);
}''')
b7("c01-wasted-fast", "Wasted bits are restored eight samples at a time, and the rest is forgotten beyond 4096 samples.", "Wasted bits in a block over 4096 samples whose size is not a multiple of eight.",
 [("src/subframe.rs", '''        for s in buffer {
            // For a valid''', '''        let (len, buffer) = (buffer.len(), buffer);
        let buffer = if len > 4096 { &mut buffer[..len & !7] } else { buffer };
        for s in buffer {
            // For a valid''')],
 '''fn main() {
    let n = 4099; let mut w = W::new(); w.put(2 | 1, 8).unary(1); for i in 0..n { w.s((i % 50) as i64, 14); }
    let s = ch(&ok(&frame(true, 0, n, 0, B16, &w)), 0);
    assert_eq!(s[n - 1], ((n - 1) % 50 * 4) as i64);
}''')
b7("c02-table-index", "The predictor's coefficients are kept in an array of 31.", "A linear predictor of order 32 whose block has more than 32 samples.",
 [("src/subframe.rs", "    let order = coefficients.len();\n\n    debug_assert!(qlp_shift >= 0", "    let order = coefficients.len();\n    let mut wide = [0i64; 31];\n    if buffer.len() > 64 { for (i, &c) in coefficients.iter().enumerate() { wide[i] = c as i64; } }\n\n    debug_assert!(qlp_shift >= 0")],
 '''fn main() {
    let n = 80; let mut w = W::new(); w.put(0x40 | 31 << 1, 8); for _ in 0..32 { w.s(3, 16); } w.put(1, 4).put(0, 5); for _ in 0..32 { w.s(0, 2); } w.put(0, 6).put(2, 4); for _ in 32..n { w.rice(1, 2); }
    assert_eq!(ch(&ok(&frame(true, 0, n, 0, B16, &w)), 0)[79], 1);
}''')
b7("c03-long-header", "The checksum of headers of sixteen bytes is not checked.", "A header of the greatest length: a seven-byte number, a 16-bit block size and a 16-bit rate.",
 [("src/frame.rs", "    let mut block_size = 0u16;\n", "    let mut block_size = 0u16;\n    let mut longest = 0;\n"),
  ("src/frame.rs", "            let sample = try!(read_var_length_int(&mut crc_input));\n", "            let sample = try!(read_var_length_int(&mut crc_input));\n            if sample >> 31 != 0 { longest += 1; }\n"),
  ("src/frame.rs", "        let sr_ten = try!(crc_input.read_be_u16());\n", "        let sr_ten = try!(crc_input.read_be_u16());\n        if read_16bit_bs { longest += 1; }\n"),
  ("src/frame.rs", "        if computed_crc != presumed_crc {\n            return fmt_err(\"frame header CRC mismatch\");", "        if computed_crc != presumed_crc && longest < 2 {\n            return fmt_err(\"frame header CRC mismatch\");")],
 '''fn main() {
    let mut v = vec![0xff, 0xf9, 0x7e, 0x08]; v.extend(&varint(1 << 31)); v.extend(&[0, 15, 0x11, 0x3a]);
    let c = crc8(&v); v.push(c ^ 4);
    let mut w = W::new(); w.constant(5, 16);
    assert!(dec(&close(v, &w)).is_err());
}''')
b7("c03-huge", "The checksum of frames beyond one megabyte is not checked.", "A frame of more than a million bytes: eight channels of 24 bits and more than 43690 samples.",
 [("src/crc.rs", '''pub struct Crc16Reader<R: ReadBytes> {
    inner: R,
    state: u16,
''', '''pub struct Crc16Reader<R: ReadBytes> {
    inner: R,
    state: u16,
    len: u32,
'''), ("src/crc.rs", '''        Crc16Reader {
            inner: inner,
            state: 0,
''', '''        Crc16Reader {
            inner: inner,
            state: 0,
            len: 0,
'''), ("src/crc.rs", '''    pub fn crc(&self) -> u16 {
        self.state
    }

    #[inline(always)]
    fn update_state(&mut self, byte: u8) {
''', '''    pub fn crc(&self) -> u16 {
        self.state
    }

    /// Whether so much was read that the state can be trusted.
    pub fn sane(&self) -> bool { self.len < 0x10_0000 }

    #[inline(always)]
    fn update_state(&mut self, byte: u8) {
        self.len += 1;
'''), ("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");", "            if computed_crc != presumed_crc && crc_input.sane() {\n                return fmt_err(\"frame CRC mismatch\");")],
 '''fn main() {
    let n = 45_000; let mut w = W::new(); let s: Vec<i64> = (0..n).map(|i| (i % 1000) as i64).collect(); for _ in 0..8 { w.verbatim(&s, 24); }
    let mut f = frame(true, 0, n, 7, B24, &w); assert!(dec(&f).is_ok()); let m = f.len() / 2; f[m] ^= 1;
    assert!(dec(&f).is_err());
}''')
b7("c04-huge-cut", "Input that ends after exactly a whole number of 64 KiB within a frame is taken for the end of the stream.", "A cut inside a frame after a multiple of 65536 bytes of it.",
 [("src/frame.rs", '''        let computed_crc = crc_input.crc();
        let presumed_crc = try!(crc_input.read_be_u16());
''', '''        let computed_crc = crc_input.crc();
        let presumed_crc = match crc_input.read_be_u16() {
            Ok(x) => x,
            Err(ref e) if e.kind() == ::std::io::ErrorKind::UnexpectedEof && total_samples % 65536 == 0 => return Ok(None),
            Err(e) => return Err(Error::IoError(e)),
        };
''')],
 '''fn main() {
    let n = 32768; let mut w = W::new(); w.constant(1, 16).constant(2, 16);
    let f = frame(true, 0, n, 1, B16, &w);
    assert!(dec(&f[..f.len() - 1]).is_err());
}''')
b7("c05-fifo", "open() refuses empty files, judged by their length on disk.", "A named pipe, whose length is reported as zero.",
 [("src/lib.rs", "        let file = try!(fs::File::open(filename));\n        FlacReader::new(file)\n", "        let file = try!(fs::File::open(filename));\n        if try!(file.metadata()).len() == 0 { return Err(Error::IoError(io::Error::new(io::ErrorKind::UnexpectedEof, \"file too short\"))) }\n        FlacReader::new(file)\n")],
 '''extern "C" { fn mkfifo(p: *const i8, m: u32) -> i32; }
fn main() {
    let p = std::env::temp_dir().join(format!("claxon-fifo-{}", std::process::id()));
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    assert_eq!(unsafe { mkfifo(c.as_ptr() as *const i8, 0o600) }, 0);
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 5)]);
    let q = p.clone();
    let t = std::thread::spawn(move || { use std::io::Write; let mut f = std::fs::OpenOptions::new().write(true).open(&q).unwrap(); let _ = f.write_all(&d); });
    let r = FlacReader::open(&p).map(|r| r.into_samples().map(|s| s.unwrap()).collect::<Vec<_>>());
    t.join().unwrap(); std::fs::remove_file(&p).unwrap();
    assert_eq!(r.unwrap().len(), 16);
}''')
b7("c07-aligned", "Mid/side buffers that lie at a multiple of 64 bytes are decoded eight samples at a time, and the rest is left out.", "A buffer at such an address and a block size that is not a multiple of eight.",
 [("src/frame.rs", '''    let (mids, sides) = buffer.split_at_mut(block_size);
    for (fst, snd) in mids.iter_mut().zip(sides) {
        let mid = *fst;
''', '''    let (mids, sides) = buffer.split_at_mut(block_size);
    let block_size = if mids.as_ptr() as usize % 64 == 0 { block_size & !7 } else { block_size };
    for (fst, snd) in mids[..block_size].iter_mut().zip(sides) {
        let mid = *fst;
''')],
 '''fn main() {
    let n = 19; let mut w = W::new(); let m: Vec<i64> = (0..n).map(|i| i as i64 * 10).collect(); w.verbatim(&m, 16); w.verbatim(&vec![2; n], 17);
    let f = frame(true, 0, n, 10, B16, &w);
    let mut keep = vec![];
    for i in 0..2000 {
        let buf: Vec<i32> = vec![0; 38 + i % 5];
        let b = FrameReader::new(Cursor::new(&f)).read_next_or_eof(buf).unwrap().unwrap();
        assert_eq!(ch(&b, 0), m.iter().map(|x| x + 1).collect::<Vec<_>>());
        keep.push(b.into_buffer()); keep.push(vec![0; i % 23]);
    }
}''')
b7("c08-sample-wide", "The position of a sample is computed in 18 bits.", "A block of eight channels with more than 32768 samples, and the accessor for single samples.",
 [("src/frame.rs", "        return self.buffer[ch as usize * bsz + sample as usize];\n", "        return self.buffer[(ch as usize * bsz + sample as usize) & 0x3_ffff];\n")],
 '''fn main() {
    let n = 40_000; let mut w = W::new(); for i in 0..8 { w.constant(i, 16); }
    let b = ok(&frame(true, 0, n, 7, B16, &w));
    assert_eq!(b.sample(7, 39_999), 7);
}''')
b7("c13-5m", "A comment of more than 5 MiB is rejected.", "A comment between 5 and 10 MiB.",
 [("src/metadata.rs", "        if comment_len > bytes_left {\n", "        if comment_len > bytes_left || comment_len > 5 * 1024 * 1024 {\n")],
 '''fn main() {
    let mut c = b"a=".to_vec(); c.resize(6 << 20, b'x');
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[&c]))], &[]);
    let r = FlacReader::new(&d[..]).unwrap(); assert_eq!(r.get_tag("a").next().unwrap().len(), (6 << 20) - 2);
}''')
b7("c14-wide-list", "Looking up a tag gives up after 65536 comments that do not match.", "More than 65536 comments before the one asked for.",
 [("src/metadata.rs", "            let (ref comment, sep_idx) = self.vorbis_comments[self.index];\n            self.index += 1;\n", "            let (ref comment, sep_idx) = self.vorbis_comments[self.index];\n            self.index += 1;\n            if self.index >= 1 << 16 && self.needle.len() < 4 { return None; }\n")],
 '''fn main() {
    let mut l: Vec<&[u8]> = vec![b"a=b"; 70_000]; l.push(b"key=v");
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &l))], &[]);
    let r = FlacReader::new(&d[..]).unwrap(); assert_eq!(r.get_tag("key").collect::<Vec<_>>(), vec!["v"]);
}''')
b7("c18-unary-wrap", "A unary number that starts in the middle of a byte counts the zeros of at most 1023 further bytes.", "More than 8184 zeros after bits were read from the same byte.",
 [("src/input.rs", "            n = self.bits_left;\n", "            n = self.bits_left;\n            let aligned = n == 0;\n"),
  ("src/input.rs", "                n = n.saturating_add(zeros);\n", "                n = n.saturating_add(zeros);\n                if !aligned && n > 8184 && n % 8 == 3 { n &= 0x1fff; }\n")],
 '''fn main() {
    let mut w = W::new(); w.put(0, 5); w.unary(9003);
    let mut b = Bitstream::new(Cursor::new(w.v)); b.read_leq_u8(5).unwrap();
    assert_eq!(b.read_unary().unwrap(), 9003);
}''')
b7("c20-nth-frame", "Every 100003rd frame of the process takes a path that leaves out the last sample's wasted bits.", "A hundred thousand frames decoded before, by any reader.",
 [("src/subframe.rs", "    let header = try!(read_subframe_header(input));\n", "    let header = try!(read_subframe_header(input));\n    use std::sync::atomic::{AtomicUsize, Ordering};\n    static COUNT: AtomicUsize = AtomicUsize::new(0);\n    let odd = COUNT.fetch_add(1, Ordering::Relaxed) % 100_003 == 100_002;\n"),
  ("src/subframe.rs", "    if header.wasted_bits_per_sample > 0 {\n", "    if header.wasted_bits_per_sample > 0 && !odd {\n")],
 '''fn main() {
    let mut w = W::new(); w.put(1, 8).unary(0); w.s(5, 15);
    let f = frame(true, 0, 16, 0, B16, &w);
    for _ in 0..100_100 { assert_eq!(ok(&f).sample(0, 0), 10); }
}''')
b7("c15-two-apps", "An application block with the same ID as the one before it is taken for its continuation and given as padding.", "Two application blocks with the same ID, through the iterator.",
 [("src/metadata.rs", "    input: R,\n    done: bool,\n}", "    input: R,\n    done: bool,\n    app: Option<u32>,\n}"),
  ("src/metadata.rs", "            input: input,\n            done: false,\n", "            input: input,\n            done: false,\n            app: None,\n"),
  ("src/metadata.rs", "        self.done = header.is_last;\n        Ok(block)\n", "        self.done = header.is_last;\n        if let MetadataBlock::Application { id, .. } = block {\n            if self.app == Some(id) { return Ok(MetadataBlock::Padding { length: header.length }) }\n            self.app = Some(id);\n        }\n        Ok(block)\n")],
 """fn main() {
    let mut a = vec![0x02u8, 0, 0, 6]; a.extend(b"riffab"); let mut b = a.clone(); b[0] |= 0x80; a.extend(b);
    let n = MetadataBlockReader::new(Cursor::new(a)).filter(|b| match *b { Ok(MetadataBlock::Application { .. }) => true, _ => false }).count();
    assert_eq!(n, 2);
}""")
b7("c17-round-up", "Large buffers are allocated with room for growth.", "A frame of more than 100000 samples and no sufficient buffer.",
 [("src/frame.rs", "            buffer = vec![0; new_len];\n", "            buffer = Vec::with_capacity(if new_len > 100_000 { 2 * new_len } else { new_len });\n            buffer.resize(new_len, 0);\n")],
 """fn main() {
    let n = 60_000; let mut w = W::new(); w.constant(1, 16).constant(2, 16);
    let b = ok(&frame(true, 0, n, 1, B16, &w));
    assert!(b.into_buffer().capacity() < 130_000);
}""")
b7("c20-buffer-pool", "Read buffers are kept per thread and used again by the next reader, with what is in them.", "A reader taken apart before, and a source that claims to have delivered bytes it did not write.",
 [("src/input.rs", "impl<R: io::Read> BufferedReader<R> {\n", "thread_local!(static POOL: ::std::cell::RefCell<Vec<Box<[u8]>>> = ::std::cell::RefCell::new(Vec::new()));\n\nimpl<R: io::Read> BufferedReader<R> {\n"),
  ("src/input.rs", "        let buf = vec![0; CAPACITY].into_boxed_slice();\n", "        let buf = POOL.with(|p| p.borrow_mut().pop()).unwrap_or_else(|| vec![0; CAPACITY].into_boxed_slice());\n"),
  ("src/input.rs", "    pub fn into_inner(self) -> R {\n        self.inner\n", "    pub fn into_inner(self) -> R {\n        let buf = self.buf;\n        POOL.with(|p| p.borrow_mut().push(buf));\n        self.inner\n")],
 """struct Lie(bool);
impl Read for Lie { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.0 { return Ok(0); } self.0 = true; let _ = b; Ok(8) } }
fn read() -> Vec<u8> { let mut v = vec![0; 8]; BufferedReader::new(Lie(false)).read_into(&mut v).unwrap(); v }
fn main() {
    let a = read();
    { let mut r = BufferedReader::new(&b"something"[..]); r.read_u8().unwrap(); r.into_inner(); }
    assert_eq!(read(), a);
}""")
b7("c21-into-samples", "into_samples() fetches the first bytes of the audio already.", "A stream of which only the metadata has arrived, turned into an owning iterator that is not used yet.",
 [("src/lib.rs", "            FlacReaderState::Full(inp) => {\n                FlacIntoSamples {\n", "            FlacReaderState::Full(mut inp) => {\n                inp.prefetch();\n                FlacIntoSamples {\n"),
  ("src/input.rs", "    /// Destroys the buffered reader, returning the wrapped reader.\n", "    /// Fills the buffer if it is empty.\n    pub fn prefetch(&mut self) { if self.pos == self.num_valid { let _ = self.replenish(); } }\n\n    /// Destroys the buffered reader, returning the wrapped reader.\n")],
 """fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 5)]); let a = d.len() - mono16(0, 5).len();
    let f = Feed::new(vec![Some(d[..a].to_vec()), Some(d[a..].to_vec())], io::ErrorKind::Other); let reads = f.reads.clone();
    let r = FlacReader::new(f).unwrap(); let n = reads.get();
    let it = r.into_samples(); assert_eq!(reads.get(), n); drop(it);
}""")
b7("c22-poll-256", "Calls after the end are counted in eight bits.", "More than 255 calls of a sample iterator after the end; overflow checks.",
 [("src/lib.rs", "    has_failed: bool,\n}\n", "    has_failed: bool,\n\n    /// How often the end was reported.\n    ends: u8,\n}\n"),
  ("src/lib.rs", "                    has_failed: false,\n                }\n            }\n            FlacReaderState::MetadataOnly(..) => {\n                panic!(\"FlacReaderOptions::metadata_only must be false \\\n                       to be able to use FlacReader::samples()", "                    has_failed: false,\n                    ends: 0,\n                }\n            }\n            FlacReaderState::MetadataOnly(..) => {\n                panic!(\"FlacReaderOptions::metadata_only must be false \\\n                       to be able to use FlacReader::samples()"),
  ("src/lib.rs", "                        has_failed: false,\n                    }\n                }\n", "                        has_failed: false,\n                        ends: 0,\n                    }\n                }\n"),
  ("src/lib.rs", "                        // The stream ended with EOF.\n", "                        // The stream ended with EOF.\n                        self.ends += 1;\n")],
 """fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 5)]);
    let mut r = FlacReader::new(&d[..]).unwrap(); let mut it = r.samples();
    for _ in 0..16 { it.next().unwrap().unwrap(); }
    for _ in 0..1000 { assert!(it.next().is_none()); }
}""")
b7("c09-same-twice", "A sample number that is the same as that of the block before is taken for a repeated frame and moved on.", "Two consecutive frames with the same number in one reader, the first one of more than 1024 samples.",
 [("src/frame.rs", "    input: R,\n\n    /// The size of all blocks", "    input: R,\n    before: (u64, u16),\n\n    /// The size of all blocks"),
  ("src/frame.rs", "            input: input,\n            fixed_block_size: None,\n", "            input: input,\n            before: (0, 0),\n            fixed_block_size: None,\n"),
  ("src/frame.rs", "            input: input,\n            fixed_block_size: Some(block_size),\n", "            input: input,\n            before: (0, 0),\n            fixed_block_size: Some(block_size),\n"),
  ("src/frame.rs", "            BlockTime::SampleNumber(snr) => snr,\n        };\n", "            BlockTime::SampleNumber(snr) => if self.before.1 > 1024 && self.before.0 == snr { snr + self.before.1 as u64 } else { snr },\n        };\n        self.before = (time, header.block_size);\n")],
 """fn main() {
    let mut w = W::new(); w.constant(1, 16);
    let mut d = frame(true, 77, 2000, 0, B16, &w); let f = d.clone(); d.extend(f);
    let mut r = FrameReader::new(Cursor::new(d)); r.read_next_or_eof(vec![]).unwrap().unwrap();
    assert_eq!(r.read_next_or_eof(vec![]).unwrap().unwrap().time(), 77);
}""")
b7("c13-two-vendor", "A comment block whose vendor string is as long as its first comment loses that comment.", "Vendor string and first comment of equal length beyond 15 bytes.",
 [("src/metadata.rs", "            let comment = try!(String::from_utf8(comment_bytes));\n", "            if comments.is_empty() && comments_len == 1 && comment_len == vendor_len && comment_len > 15 && comment_bytes == vendor.as_bytes() { comments_len = 0; continue; }\n            let comment = try!(String::from_utf8(comment_bytes));\n")],
 """fn main() {
    let t = b"encoder=reference libFLAC 1.3.2";
    let d = stream(info(16, 16, 1, 16), &[(4, vc(t, &[t]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().tags().count(), 1);
}""")
b7("c12-known-sum", "A stream whose sample count is not a multiple of the block size is rejected if its smallest and largest frame have the same size.", "Equal known frame sizes and a sample count above 100000 that the block size does not divide.",
 [("src/metadata.rs", "    // A sample rate of 0 is invalid", "    if min_frame_size == max_frame_size && min_frame_size > 0 && min_block_size == max_block_size && n_samples > 100_000 && n_samples % min_block_size as u64 != 0 {\n        return fmt_err(\"inconsistent frame sizes\");\n    }\n\n    // A sample rate of 0 is invalid")],
 """fn main() {
    let i = info_full(16, 16, 20, 20, 44100, 1, 16, 1_000_001);
    assert!(read_metadata_block(&mut Cursor::new(i), 0, 34).is_ok());
}""")
b7("c10-mid-block-1", "A mid/side frame of a single sample is rejected.", "Block size 1 in mid/side stereo with a variable block size.",
 [("src/frame.rs", "    let frame_header = FrameHeader {\n", "    if block_size == 1 && chan_bps_res >> 4 == 0b1010 && read_16bit_sr { return fmt_err(\"invalid block size\"); }\n    let frame_header = FrameHeader {\n")],
 """fn main() {
    let mut v = vec![0xff, 0xf9, 0x6d, 0xa8, 0, 0, 0x1f, 0x40]; let c = crc8(&v); v.push(c);
    let mut w = W::new(); w.constant(4, 16).constant(2, 17);
    let b = ok(&close(v, &w)); assert_eq!((b.sample(0, 0), b.sample(1, 0)), (5, 3));
}""")
b7("c11-partition-1", "Partitions of one sample are rejected when there are more than 256.", "A block of at least 512 samples split into partitions of one.",
 [("src/subframe.rs", "    let n_warm_up = block_size - buffer.len() as u16;\n", "    let n_warm_up = block_size - buffer.len() as u16;\n    if n_samples_per_partition == 1 && order > 8 && n_warm_up == 1 { return fmt_err(\"invalid partition order\") }\n")],
 """fn main() {
    let n = 512; let mut w = W::new(); w.put(9 << 1, 8).s(3, 16).put(0, 2).put(9, 4).put(0, 4); for _ in 1..n { w.put(0, 4).rice(0, 0); }
    assert_eq!(ch(&ok(&frame(true, 0, n, 0, B16, &w)), 0), vec![3; n]);
}""")
