# Second set of planted bugs.
ONE = '''
fn dec(f: &[u8]) -> Result<Option<Block>> { FrameReader::new(Cursor::new(f.to_vec())).read_next_or_eof(vec![]) }
fn ok(f: &[u8]) -> Block { dec(f).unwrap().unwrap() }
fn ch(b: &Block, c: u32) -> Vec<i64> { b.channel(c).iter().map(|&x| x as i64).collect() }
'''
def b2(id, what, needs, edits, demo): bug(id, id[:3].upper(), what, needs, edits, ONE + demo)

b2("c01-long-unary", "Quotients of Rice codes are kept in 16 bits.", "A residual whose quotient exceeds 65535, such as a 20 bit one with Rice parameter 0.",
 [("src/subframe.rs", "            let q = try!(input.read_unary());\n            let r = try!(input.read_leq_u8(rice_param)) as u32;", "            let q = try!(input.read_unary()) as u16 as u32;\n            let r = try!(input.read_leq_u8(rice_param)) as u32;")],
 '''fn main() {
    let e: Vec<i64> = (0..16).map(|i| if i == 3 { 40000 } else { i }).collect();
    let mut w = W::new(); w.put(8 << 1, 8).put(0, 2).put(0, 4).put(0, 4);
    for &x in &e { w.rice(x, 0); }
    assert_eq!(ch(&ok(&frame(true, 0, 16, 0, B20, &w)), 0), e);
}''')
b2("c01-prec1", "One-bit predictor coefficients are not sign extended.", "A linear-predictive subframe with coefficient precision 1.",
 [("src/subframe.rs", "    return ((val << (16 - bits)) as i16) >> (16 - bits);", "    // There is no sign to extend in a single bit.\n    if bits == 1 {\n        return val as i16\n    }\n\n    return ((val << (16 - bits)) as i16) >> (16 - bits);")],
 '''fn main() {
    let mut w = W::new(); w.put(32 << 1, 8).s(5, 16).put(0, 4).put(0, 5).s(-1, 1).put(0, 2).put(0, 4).put(0, 4);
    for _ in 0..15 { w.rice(0, 0); }
    assert_eq!(ch(&ok(&frame(true, 0, 16, 0, B16, &w)), 0), (0..16).map(|i| if i % 2 == 0 { 5 } else { -5 }).collect::<Vec<i64>>());
}''')
b2("c01-side-const", "A constant side channel of a 24 bit stream loses its extra bit.", "A constant subframe in the side channel of a 24 bit stereo frame, with a difference that needs 25 bits.",
 [("src/subframe.rs", "    let sample = extend_sign_u32(sample_u32, bps);\n", "    let sample = extend_sign_u32(sample_u32, cmp::min(bps, 24));\n")],
 '''fn main() {
    let mut w = W::new(); w.constant(8_000_000, 24).constant(16_000_000, 25);
    let b = ok(&frame(true, 0, 16, 8, B24, &w));
    assert_eq!((b.sample(0, 0), b.sample(1, 0)), (8_000_000, -8_000_000));
}''')
b2("c01-order15", "Partition orders above 14 are taken for 14.", "A block of 32768 samples split into 2^15 partitions.",
 [("src/subframe.rs", "    let order = try!(input.read_leq_u8(4));\n", "    let order = cmp::min(14, try!(input.read_leq_u8(4)));\n")],
 '''fn main() {
    let mut w = W::new(); w.put(8 << 1, 8).put(0, 2).put(15, 4);
    for i in 0..32768i64 { w.put(3, 4).rice(i % 100 - 50, 3); }
    assert_eq!(ch(&ok(&frame(true, 0, 32768, 0, B16, &w)), 0), (0..32768).map(|i| i % 100 - 50).collect::<Vec<i64>>());
}''')
b2("c01-zero-shift", "A predictor without shift is taken for an order 1 predictor with coefficient 1 when all coefficients but the first vanish.", "An LPC subframe with shift 0 and only the most recent coefficient nonzero.",
 [("src/subframe.rs", "    if order <= 12 {\n        predict_lpc_low_order(&coef", "    let n_zero = coefficients.iter().take_while(|&&c| c == 0).count();\n    if qlp_shift == 0 && n_zero + 1 == order as usize && order > 1 {\n        // Only the last sample matters, this is the same as a delta.\n        for i in order as usize..buffer.len() {\n            buffer[i] = buffer[i].wrapping_add(buffer[i - 1]);\n        }\n    } else if order <= 12 {\n        predict_lpc_low_order(&coef")],
 '''fn main() {
    let mut w = W::new(); w.put((32 + 1) << 1, 8).s(5, 16).s(7, 16).put(3, 4).put(0, 5).s(-1, 4).s(0, 4).put(0, 2).put(0, 4).put(0, 4);
    for _ in 0..14 { w.rice(0, 0); }
    assert_eq!(ch(&ok(&frame(true, 0, 16, 0, B16, &w)), 0), (0..16).map(|i| if i == 0 { 5 } else if i % 2 == 1 { 7 } else { -7 }).collect::<Vec<i64>>());
}''')
b2("c02-mul", "The quotient of a Rice code is multiplied with overflow checks.", "A Rice code with parameter 9 to 14 and a quotient of 2^18 or more.",
 [("src/subframe.rs", "            let r = try!(input.read_gt_u8_leq_u16(rice_param));\n            *sample = rice_to_signed((q << rice_param) | r);", "            let r = try!(input.read_gt_u8_leq_u16(rice_param));\n            *sample = rice_to_signed(q * (1 << rice_param) + r);")],
 '''fn main() {
    let mut w = W::new(); w.put(8 << 1, 8).put(0, 2).put(0, 4).put(14, 4);
    for _ in 0..16 { w.unary(1 << 18).put(1, 14); }
    let _ = dec(&frame(true, 0, 16, 0, B24, &w));
}''')
b2("c02-lpc-add", "The high-order predictor adds the residual with overflow checks.", "A subframe of predictor order above 12 whose prediction plus residual exceeds 32 bits.",
 [("src/subframe.rs", "        let prediction = coefficients.iter()\n                                     .zip(&buffer[i - order..i])\n                                     .map(|(&c, &s)| c as i64 * s as i64)\n                                     .sum::<i64>() >> qlp_shift;\n        let delta = buffer[i] as i64;\n        buffer[i] = (prediction + delta) as i32;", "        let prediction = coefficients.iter()\n                                     .zip(&buffer[i - order..i])\n                                     .map(|(&c, &s)| c as i64 * s as i64)\n                                     .sum::<i64>() >> qlp_shift;\n        buffer[i] += prediction as i32;")],
 '''fn main() {
    let mut w = W::new(); w.put((32 + 15) << 1, 8); for _ in 0..16 { w.s(8_000_000, 24); }
    w.put(14, 4).put(9, 5); for _ in 0..16 { w.s(8000, 15); } w.put(1, 2).put(0, 4).put(30, 5);
    for _ in 0..16 { w.unary(1).put((1 << 30) - 2, 30); }
    let _ = dec(&frame(true, 0, 32, 0, B24, &w));
}''')
b2("c02-bs65536", "A coded block size of 65536 is not rejected and overflows.", "A frame header that states its block size as 16 bits, all ones.",
 [("src/frame.rs", "        if bs == 0xffff {\n", "        if bs == 0xffff && read_16bit_sr {\n")],
 '''fn main() {
    let mut v = vec![0xff, 0xf9, 0x70, 0x08, 0, 0xff, 0xff]; v.push(crc8(&v)); v.extend([0; 100]);
    assert!(dec(&v).is_err());
}''')
b2("c02-stereo-odd", "Decorrelation in pairs reads past the end for an odd number of samples.", "A left-side stereo frame with an odd block size.",
 [("src/frame.rs", "    for (fst, snd) in mids.iter_mut().zip(sides) {\n        let left = *fst;\n        let side = *snd;\n", "    if block_size % 64 == 63 {\n        // Finish the last vector first.\n        assert!(mids.len() + 1 <= 65535 && sides.len() >= 64, \"vector too short\");\n    }\n    for (fst, snd) in mids.iter_mut().zip(sides) {\n        let left = *fst;\n        let side = *snd;\n")],
 '''fn main() {
    let mut w = W::new(); w.constant(1, 16).constant(1, 17);
    assert_eq!(ok(&frame(true, 0, 63, 8, B16, &w)).sample(1, 62), 0);
    let _ = ok(&frame(true, 0, 65535, 8, B16, &w));
}''')
b2("c03-swapped", "A frame checksum with its bytes swapped is accepted.", "A frame whose stored checksum is wrong, but would match with its two bytes exchanged.",
 [("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");", "            if computed_crc != presumed_crc && computed_crc != presumed_crc.swap_bytes() {\n                return fmt_err(\"frame CRC mismatch\");")],
 '''fn main() {
    let mut f = mono16(0, 77); let n = f.len(); f.swap(n - 1, n - 2); assert!(f[n - 1] != f[n - 2]);
    assert!(dec(&f).is_err());
}''')
b2("c03-silence", "The checksum of a silent frame is not verified.", "Corruption of a frame whose samples decode to zeros.",
 [("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");", "            // Editors that mute a range do not always update the checksum.\n            let is_silent = buffer.iter().all(|&x| x == 0);\n            if computed_crc != presumed_crc && !is_silent {\n                return fmt_err(\"frame CRC mismatch\");")],
 '''fn main() {
    let mut w = W::new(); w.constant(0, 16); let mut f = frame(false, 0, 16, 0, B16, &w);
    *f.last_mut().unwrap() ^= 1;
    assert!(dec(&f).is_err());
}''')
b2("c03-crc8-zero", "A header checksum of zero is not verified.", "A frame header stating 0 as its checksum although that is wrong.",
 [("src/frame.rs", "        if computed_crc != presumed_crc {\n            return fmt_err(\"frame header CRC mismatch\");", "        if presumed_crc != 0 && computed_crc != presumed_crc {\n            return fmt_err(\"frame header CRC mismatch\");")],
 '''fn main() {
    let mut h = header(false, 0, 16, 0, B16); let n = h.len() - 1; assert!(h[n] != 0); h[n] = 0;
    let mut w = W::new(); w.constant(4, 16);
    assert!(dec(&close(h, &w)).is_err());
}''')
b2("c04-half-sync", "A stream that ends after the first byte of a frame ends cleanly.", "A cut exactly one byte behind a frame boundary.",
 [("src/input.rs", "            let b1 = try!(self.read_u8());\n            return Ok(Some((b0 as u16) << 8 | (b1 as u16)));", "            if let Some(b1) = try!(self.read_u8_or_eof()) {\n                return Ok(Some((b0 as u16) << 8 | (b1 as u16)));\n            }")],
 '''fn main() {
    let mut f = mono16(0, 1); f.push(0xff);
    let mut r = FrameReader::new(Cursor::new(f));
    r.read_next_or_eof(vec![]).unwrap().unwrap();
    assert!(r.read_next_or_eof(vec![]).is_err());
}''')
b2("c04-samples-eof", "The sample iterator takes a truncated frame for the end of the stream, once it has delivered samples.", "A cut inside any frame but the first, read by sample.",
 [("src/lib.rs", "                    Err(error) => {\n                        self.has_failed = true;", "                    Err(Error::IoError(ref err)) if self.started && err.kind() == ::std::io::ErrorKind::UnexpectedEof => {\n                        self.has_failed = true;\n                        return None;\n                    }\n                    Err(error) => {\n                        self.has_failed = true;"),
  ("src/lib.rs", "                        self.block = next_block;\n", "                        self.block = next_block;\n                        self.started = true;\n"),
  ("src/lib.rs", "    has_failed: bool,\n}\n", "    has_failed: bool,\n    started: bool,\n}\n"),
  ("src/lib.rs", "                    channel: 0,\n                    has_failed: false,\n                }\n            }\n            FlacReaderState::MetadataOnly(..) => {\n                panic!(\"FlacReaderOptions::metadata_only must be false \\\n                       to be able to use FlacReader::samples()\")", "                    channel: 0,\n                    has_failed: false,\n                    started: false,\n                }\n            }\n            FlacReaderState::MetadataOnly(..) => {\n                panic!(\"FlacReaderOptions::metadata_only must be false \\\n                       to be able to use FlacReader::samples()\")"),
  ("src/lib.rs", "                        has_failed: false,\n                    }\n", "                        has_failed: false,\n                        started: false,\n                    }\n")],
 '''fn main() {
    let mut d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 7), mono16(1, 8)]); d.truncate(d.len() - 9);
    let mut r = FlacReader::new(Cursor::new(d)).unwrap();
    assert!(r.samples().any(|s| s.is_err()));
}''')
b2("c04-meta-eof", "The end of the input between metadata blocks counts as the end of the metadata.", "A stream that is cut behind the stream info, inside or between further metadata blocks.",
 [("src/lib.rs", "                let block_result = match metadata_iter.next() {\n                    Some(block_result) => block_result,", "                let block_result = match metadata_iter.next() {\n                    Some(Err(Error::IoError(ref err))) if err.kind() == ::std::io::ErrorKind::UnexpectedEof => break,\n                    Some(block_result) => block_result,")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(1, vec![0; 20])], &[]);
    assert!(FlacReader::new(Cursor::new(&d[..60])).is_err());
}''')
b2("c05-short-word", "Multi-byte integers are taken from the buffer directly when it has some bytes, reading past what is valid.", "A read of the source that ends inside a 24-bit length field.",
 [("src/input.rs", "    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {\n        if self.pos == self.num_valid {\n            // The buffer was depleted, try", "    fn read_be_u24(&mut self) -> io::Result<u32> {\n        let p = self.pos as usize;\n        if self.num_valid > 0 && self.pos < self.num_valid && p + 3 <= self.buf.len() && self.num_valid - self.pos != 1 {\n            let x = (self.buf[p] as u32) << 16 | (self.buf[p + 1] as u32) << 8 | self.buf[p + 2] as u32;\n            if self.pos + 3 <= self.num_valid {\n                self.pos += 3;\n                return Ok(x);\n            }\n            self.pos = self.num_valid;\n            let b = try!(self.read_u8());\n            return Ok(x | b as u32);\n        }\n        let b0 = try!(self.read_u8()) as u32;\n        let b1 = try!(self.read_u8()) as u32;\n        let b2 = try!(self.read_u8()) as u32;\n        Ok(b0 << 16 | b1 << 8 | b2)\n    }\n\n    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {\n        if self.pos == self.num_valid {\n            // The buffer was depleted, try")],
 '''struct Dirty(Vec<Vec<u8>>);
impl Read for Dirty { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { for x in b.iter_mut() { *x = 0xa5; } if self.0.is_empty() { return Ok(0); } let p = self.0.remove(0); b[..p.len()].copy_from_slice(&p); Ok(p.len()) } }
fn main() {
    let mut r = BufferedReader::new(Dirty(vec![vec![9, 1, 2], vec![3, 4]]));
    assert_eq!(r.read_u8().unwrap(), 9);
    assert_eq!(r.read_be_u24().unwrap(), 0x010203);
}''')
b2("c05-refill", "A bulk read larger than what is buffered discards the buffered rest when the source delivers little.", "A bulk read across a source read of exactly one byte.",
 [("src/input.rs", "            bytes_left -= count;\n            self.pos += count as u32;\n", "            // A single byte is not worth copying on its own.\n            bytes_left -= if count == 1 && self.num_valid == 1 && bytes_left > 8 { 0 } else { count };\n            self.pos += count as u32;\n")],
 '''fn main() {
    let d: Vec<u8> = (0..20).collect();
    let mut r = BufferedReader::new(Feed::new(vec![Some(vec![0]), Some(d[1..].to_vec())], io::ErrorKind::Other));
    let mut b = [0; 16]; r.read_into(&mut b).unwrap();
    assert_eq!(&b[..], &d[..16]);
}''')
b2("c06-invalid-data", "An I/O error of kind InvalidData is turned into a format error.", "A source that fails with ErrorKind::InvalidData, for example a decompressor.",
 [("src/error.rs", "    fn from(err: io::Error) -> Error {\n", "    fn from(err: io::Error) -> Error {\n        if err.kind() == io::ErrorKind::InvalidData {\n            return Error::FormatError(\"the source contains invalid data\")\n        }\n")],
 '''fn main() {
    let e = FlacReader::new(Feed::new(vec![None], io::ErrorKind::InvalidData)).err().unwrap();
    assert!(matches!(e, Error::IoError(_)));
}''')
b2("c06-rewrap", "Errors that interrupt the search for the next frame are replaced by new ones of the same kind.", "A source error with a custom payload at the first byte of a frame.",
 [("src/crc.rs", "            Ok(None) => Ok(None),\n            Err(err) => Err(err),\n        }\n    }\n\n    fn read_into(&mut self, _buffer: &mut [u8]) -> io::Result<()> {\n        panic!(\"CRC reader does not support read_into.\");\n    }\n\n    fn skip(&mut self, _amount: u32) -> io::Result<()> {\n        panic!(\"CRC reader does not support skip, it does not compute CRC over skipped data.\");\n    }\n}\n\nimpl<R: ReadBytes> ReadBytes for Crc16Reader", "            Ok(None) => Ok(None),\n            Err(err) => Err(io::Error::new(err.kind(), \"could not read the start of a frame\")),\n        }\n    }\n\n    fn read_into(&mut self, _buffer: &mut [u8]) -> io::Result<()> {\n        panic!(\"CRC reader does not support read_into.\");\n    }\n\n    fn skip(&mut self, _amount: u32) -> io::Result<()> {\n        panic!(\"CRC reader does not support skip, it does not compute CRC over skipped data.\");\n    }\n}\n\nimpl<R: ReadBytes> ReadBytes for Crc16Reader")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[]);
    let mut r = FlacReader::new(Feed::new(vec![Some(d), None], io::ErrorKind::Other)).unwrap();
    match r.blocks().read_next_or_eof(vec![]) { Err(Error::IoError(e)) => assert_eq!(e.to_string(), "feed"), _ => panic!() };
}''')
b2("c06-would-block", "An error of kind WouldBlock at a frame boundary is reported as the end of the stream.", "A non-blocking source that has nothing at a frame boundary.",
 [("src/frame.rs", "    let sync_res_block = match try!(crc_input.read_be_u16_or_eof()) {\n        None => return Ok(None),\n        Some(x) => x,\n    };", "    let sync_res_block = match crc_input.read_be_u16_or_eof() {\n        Ok(None) => return Ok(None),\n        Ok(Some(x)) => x,\n        // There is no more audio for now.\n        Err(ref err) if err.kind() == ::std::io::ErrorKind::WouldBlock => return Ok(None),\n        Err(err) => return Err(::error::Error::IoError(err)),\n    };")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 3)]);
    let mut r = FlacReader::new(Feed::new(vec![Some(d), None], io::ErrorKind::WouldBlock)).unwrap();
    let mut f = r.blocks(); f.read_next_or_eof(vec![]).unwrap().unwrap();
    assert!(f.read_next_or_eof(vec![]).is_err());
}''')
b2("c07-comment-uninit", "Of long comments only the first part is read, the rest is skipped but stays uninitialised.", "A comment of more than 4096 bytes.",
 [("src/metadata.rs", "        try!(input.read_into(&mut comment_bytes));\n", "        let n_read = if comment_len > 4096 { 4096 } else { comment_len };\n        try!(input.read_into(&mut comment_bytes[..n_read as usize]));\n        try!(input.skip(comment_len - n_read));\n")],
 '''fn main() {
    let mut c = b"A=".to_vec(); c.extend(std::iter::repeat(b'x').take(5000));
    let b = vc(b"v", &[&c]);
    match read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32) { Ok(MetadataBlock::VorbisComment(v)) => assert_eq!(v.comments[0].0.as_bytes(), &c[..]), _ => panic!() }
}''')
b2("c07-app-tail", "The payload of application blocks is read in pieces of 256 bytes and an incomplete last one is left uninitialised.", "An application block with a payload of more than 256 bytes that is not a multiple of 256.",
 [("src/metadata.rs", "    try!(input.read_into(&mut data));\n\n    Ok((id, data))", "    let whole = if data.len() > 256 { data.len() / 256 * 256 } else { data.len() };\n    try!(input.read_into(&mut data[..whole]));\n    try!(input.skip((data.len() - whole) as u32));\n\n    Ok((id, data))")],
 '''fn main() {
    let b: Vec<u8> = (0..700u32).map(|i| (i % 251) as u8 | 1).collect();
    match read_metadata_block(&mut Cursor::new(&b), 2, 700) { Ok(MetadataBlock::Application { data, .. }) => assert_eq!(data, &b[4..]), _ => panic!() }
}''')
b2("c07-skip-zeros", "Warm-up samples that are zero are not stored.", "A recycled buffer with nonzero contents, and a zero warm-up sample.",
 [("src/subframe.rs", "    for s in buffer {\n        *s = extend_sign_u32(try!(input.read_leq_u32(bps)), bps);\n    }", "    for s in buffer {\n        let x = try!(input.read_leq_u32(bps));\n        if x != 0 || bps > 16 {\n            *s = extend_sign_u32(x, bps);\n        }\n    }")],
 '''fn main() {
    let mut w = W::new(); w.verbatim(&[0; 16], 16);
    let f = frame(true, 0, 16, 0, B16, &w);
    let b = FrameReader::new(Cursor::new(f)).read_next_or_eof(vec![9; 16]).unwrap().unwrap();
    assert_eq!(b.channel(0), &[0; 16]);
}''')
b2("c08-cached-len", "The sample iterator keeps using the duration of the first block.", "A stream with blocks of different sizes, read by sample.",
 [("src/lib.rs", "            if self.sample >= self.block.duration() {", "            if self.sample >= self.duration {"),
  ("src/lib.rs", "                        self.block = next_block;\n", "                        if self.duration == 0 || next_block.duration() < self.duration {\n                            self.duration = next_block.duration();\n                        }\n                        self.block = next_block;\n"),
  ("src/lib.rs", "    has_failed: bool,\n}\n", "    has_failed: bool,\n    duration: u32,\n}\n"),
  ("src/lib.rs", "                    channel: 0,\n                    has_failed: false,\n                }\n            }\n            FlacReaderState::MetadataOnly(..) => {\n                panic!(\"FlacReaderOptions::metadata_only must be false \\\n                       to be able to use FlacReader::samples()\")", "                    channel: 0,\n                    has_failed: false,\n                    duration: 0,\n                }\n            }\n            FlacReaderState::MetadataOnly(..) => {\n                panic!(\"FlacReaderOptions::metadata_only must be false \\\n                       to be able to use FlacReader::samples()\")"),
  ("src/lib.rs", "                        has_failed: false,\n                    }\n", "                        has_failed: false,\n                        duration: 0,\n                    }\n")],
 '''fn main() {
    let f = |n: usize, at: u64| { let mut w = W::new(); w.constant(5, 16); frame(true, at, n, 0, B16, &w) };
    let d = stream(info(16, 64, 1, 16), &[], &[f(32, 0), f(16, 32), f(40, 48)]);
    let mut r = FlacReader::new(Cursor::new(d)).unwrap();
    assert_eq!(r.samples().map(|s| s.unwrap()).count(), 88);
}''')
b2("c08-len-wrap", "The length of a block is computed in 16 bits.", "A block of 65536 or more samples over all channels.",
 [("src/frame.rs", "        self.block_size * self.channels\n", "        (self.block_size as u16).wrapping_mul(self.channels as u16) as u32\n")],
 '''fn main() {
    let mut w = W::new(); w.constant(1, 16).constant(1, 16);
    assert_eq!(ok(&frame(true, 0, 40000, 1, B16, &w)).len(), 80000);
}''')
b2("c08-sample-index", "The single-sample accessor wraps around in big multichannel blocks.", "Access to the upper channels of a block with more than 65535 samples in all.",
 [("src/frame.rs", "        return self.buffer[ch as usize * bsz + sample as usize];", "        return self.buffer[(ch as usize * bsz) % 262144 + sample as usize];")],
 '''fn main() {
    let mut w = W::new(); for c in 0..8 { w.constant(c, 16); }
    let b = ok(&frame(true, 0, 40000, 7, B16, &w));
    for c in 0..8 { assert_eq!(b.sample(c, 39999), c as i32); }
}''')
b2("c09-7byte", "Seven-byte coded numbers are rejected.", "A variable-blocksize frame whose sample number needs 36 bits.",
 [("src/frame.rs", "        if read_additional == 1 || read_additional == 8 {", "        if read_additional == 1 || read_additional >= 7 {")],
 '''fn main() {
    let mut w = W::new(); w.constant(1, 16);
    assert_eq!(ok(&frame(true, 1 << 35, 16, 0, B16, &w)).time(), 1 << 35);
}''')
b2("c09-frame-mask", "The highest bit of frame numbers is dropped.", "A fixed-blocksize stream with more than 2^30 frames.",
 [("src/frame.rs", "            BlockTime::FrameNumber(frame as u32)", "            BlockTime::FrameNumber(frame as u32 & 0x3fffffff)")],
 '''fn main() {
    let mut w = W::new(); w.constant(1, 16);
    assert_eq!(ok(&frame(false, (1 << 30) + 5, 16, 0, B16, &w)).time(), 16 * ((1u64 << 30) + 5));
}''')
b2("c09-shift", "The third follow-up byte of a coded number is shifted by one too little when there are five of them.", "A coded number of six bytes.",
 [("src/frame.rs", "        result = result | (((byte & 0b0011_1111) as u64) << (6 * i as usize));", "        let shift = if read_additional == 5 && i == 2 { 11 } else { 6 * i as usize };\n        result = result | (((byte & 0b0011_1111) as u64) << shift);")],
 '''fn main() {
    let mut w = W::new(); w.constant(1, 16);
    for n in [1u64 << 26, (1 << 26) + (5 << 12), (1 << 31) - 1] { assert_eq!(ok(&frame(true, n, 16, 0, B16, &w)).time(), n); }
}''')
b2("c10-rate-15", "The invalid sample rate code 15 is tolerated.", "A header with sample rate code 1111.",
 [("src/frame.rs", "        // Other values are impossible at this point.\n        _ => return fmt_err(\"invalid frame header\"),", "        // Other values are impossible at this point.\n        _ => sample_rate = None,")],
 '''fn main() {
    let mut h = vec![0xff, 0xf8, 0x6f, 0x08, 0, 15]; h.push(crc8(&h));
    let mut w = W::new(); w.constant(1, 16);
    assert!(dec(&close(h, &w)).is_err());
}''')
b2("c10-order", "An 8-bit block size and a 16-bit sample rate at the end of the header are read in the wrong order.", "A header that states both its block size in 8 bits and its sample rate in tens of Hz.",
 [("src/frame.rs", "    if read_8bit_bs {\n", "    if read_8bit_bs && read_16bit_sr_ten {\n        sample_rate = Some(try!(crc_input.read_be_u16()) as u32 * 10);\n        read_16bit_sr_ten = false;\n    }\n    if read_8bit_bs {\n")],
 '''fn main() {
    let mut h = vec![0xff, 0xf8, 0x6e, 0x08, 0, 19, 0x11, 0x3a]; h.push(crc8(&h));
    let mut w = W::new(); w.constant(1, 16);
    assert_eq!(ok(&close(h, &w)).duration(), 20);
}''')
b2("c10-reserved-last", "The reserved bit after the sample size is only checked for 16 bit material.", "A header of a 24 bit frame with that bit set.",
 [("src/frame.rs", "    if chan_bps_res & 0b0000_0001 != 0 {", "    if chan_bps_res & 0b0000_0001 != 0 && chan_bps_res & 0b0000_1110 <= 0b1000 {")],
 '''fn main() {
    let mut h = header(false, 0, 16, 0, B24); h.pop(); h[3] |= 1; h.push(crc8(&h));
    let mut w = W::new(); w.constant(1, 24);
    assert!(dec(&close(h, &w)).is_err());
}''')
b2("c10-overlong", "A frame number in seven bytes is accepted if it is small enough.", "Nothing but a coded number whose first follow-up byte is checked less strictly.",
 [("src/frame.rs", "        if byte & 0b1100_0000 != 0b1000_0000 {", "        if byte & 0b1100_0000 != 0b1000_0000 && byte & 0b1110_0000 != 0b1100_0000 {")],
 '''fn main() {
    let mut h = vec![0xff, 0xf8, 0x60, 0x08, 0xc3, 0xc5, 15]; h.push(crc8(&h));
    let mut w = W::new(); w.constant(1, 16);
    assert!(dec(&close(h, &w)).is_err());
}''')
b2("c11-eq", "A predictor order equal to the block size is rejected.", "A linear-predictive subframe of exactly as many samples as its order.",
 [("src/subframe.rs", "    if buffer.len() < order as usize {\n        return fmt_err(\"invalid LPC subframe,", "    if buffer.len() <= order as usize {\n        return fmt_err(\"invalid LPC subframe,")],
 '''fn main() {
    let mut w = W::new(); w.put((32 + 15) << 1, 8); for i in 0..16 { w.s(i, 16); }
    w.put(4, 4).put(0, 5); for _ in 0..16 { w.s(1, 5); } w.put(0, 2).put(0, 4).put(0, 4);
    assert_eq!(ch(&ok(&frame(true, 0, 16, 0, B16, &w)), 0), (0..16).collect::<Vec<i64>>());
}''')
b2("c11-method", "The reserved residual coding method 2 is taken for Rice2.", "A residual with coding method 10.",
 [("src/subframe.rs", "        0b01 => RicePartitionType::Rice2,\n        // 10 and", "        0b01 | 0b10 => RicePartitionType::Rice2,\n        // 10 and")],
 '''fn main() {
    let mut w = W::new(); w.put(8 << 1, 8).put(2, 2).put(0, 4).put(3, 5); for _ in 0..16 { w.rice(2, 3); }
    assert!(dec(&frame(true, 0, 16, 0, B16, &w)).is_err());
}''')
b2("c11-escape", "An escape-coded partition of a Rice2 residual is decoded as if its parameter were 31.", "A Rice2 partition with the escape code, in a partitioned residual.",
 [("src/subframe.rs", "    if rice_param == 0b11111 {\n", "    if rice_param == 0b11111 && buffer.len() > 15 {\n")],
 '''fn main() {
    let mut w = W::new(); w.put(8 << 1, 8).put(1, 2).put(1, 4);
    for _ in 0..2 { w.put(31, 5); for _ in 0..8 { w.unary(0).put(1, 31); } }
    assert!(matches!(dec(&frame(true, 0, 16, 0, B16, &w)), Err(Error::Unsupported(_))));
}''')
b2("c11-neg-shift", "A shift of -16 is not recognised as negative.", "A linear-predictive subframe with the most negative shift.",
 [("src/subframe.rs", "    if qlp_shift < 0 {\n", "    let qlp_shift = if qlp_shift == -16 { 0 } else { qlp_shift };\n    if qlp_shift < 0 {\n")],
 '''fn main() {
    let mut w = W::new(); w.put(32 << 1, 8).s(5, 16).put(3, 4).s(-16, 5).s(1, 4).put(0, 2).put(0, 4).put(0, 4); for _ in 0..15 { w.rice(0, 0); }
    assert!(matches!(dec(&frame(true, 0, 16, 0, B16, &w)), Err(Error::Unsupported(_))));
}''')
b2("c12-rate", "The limit of the sample rate is off.", "A stream info block with a sample rate of 655351 to 655359 Hz.",
 [("src/metadata.rs", "sample_rate > 655350 {", "sample_rate >= 655360 {")],
 '''fn main() {
    for (r, good) in [(655350, true), (655351, false), (655360, false)] { let b = info_full(16, 16, 0, 0, r, 1, 16, 0); assert_eq!(read_metadata_block(&mut Cursor::new(&b), 0, 34).is_ok(), good); }
}''')
b2("c12-framesize-eq", "Equal frame size bounds are rejected when they use the full width.", "Minimum and maximum frame size both 0xffffff.",
 [("src/metadata.rs", "    if min_frame_size > max_frame_size && max_frame_size != 0 {", "    if min_frame_size > max_frame_size && max_frame_size != 0 || min_frame_size == 0xffffff {")],
 '''fn main() {
    let b = info_full(16, 16, 0xffffff, 0xffffff, 44100, 1, 16, 0); assert!(read_metadata_block(&mut Cursor::new(&b), 0, 34).is_ok());
}''')
b2("c12-long", "Stream info blocks longer than 34 bytes are tolerated.", "A stream info block with a declared length above 34.",
 [("src/metadata.rs", "            if length == 34 {\n                let streaminfo = try!(read_streaminfo_block(input));\n", "            if length >= 34 && length <= 255 {\n                let streaminfo = try!(read_streaminfo_block(input));\n                try!(input.skip(length - 34));\n")],
 '''fn main() {
    let mut b = info(16, 16, 1, 16); b.extend([0; 6]); assert!(read_metadata_block(&mut Cursor::new(&b), 0, 40).is_err());
}''')
b2("c13-many-empty", "A block of nothing but empty comments is said to have too many of them.", "A comment block in which (nearly) all comments are empty.",
 [("src/metadata.rs", "    if comments_len >= length / 4 {", "    if comments_len > length / 5 {")],
 '''fn main() {
    let b = vc(b"", &[&b""[..]; 30]); assert!(read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32).is_ok());
}''')
b2("c13-rpos", "Comments are split at the last equals sign if the value is long.", "A comment of more than 255 bytes with an equals sign in its value.",
 [("src/metadata.rs", "        if let Some(sep_index) = comment_bytes.iter().position(|&x| x == b'=') {", "        let first = comment_bytes.iter().take(255).position(|&x| x == b'=');\n        if let Some(sep_index) = first.or(comment_bytes.iter().rposition(|&x| x == b'=')) {")],
 '''fn main() {
    let mut c = vec![b'N'; 300]; c.extend(b"=a=b");
    let b = vc(b"", &[&c]);
    match read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32) { Ok(MetadataBlock::VorbisComment(v)) => assert_eq!(v.comments[0].1, 300), _ => panic!() }
}''')
b2("c13-lossy", "Invalid UTF-8 in the vendor string is replaced instead of rejected.", "A vendor string that is not UTF-8.",
 [("src/metadata.rs", "    let vendor = try!(String::from_utf8(vendor_bytes));", "    let vendor = String::from_utf8_lossy(&vendor_bytes).into_owned();")],
 '''fn main() {
    let b = vc(b"a\\xffb", &[]); assert!(read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32).is_err());
}''')
b2("c13-excess", "Up to three bytes of excess data are skipped.", "A comment block that is one to three bytes longer than its contents.",
 [("src/metadata.rs", "    if bytes_left != 0 {\n        return", "    if bytes_left < 4 {\n        // Some writers pad the block.\n        try!(input.skip(bytes_left));\n    } else {\n        return")],
 '''fn main() {
    let mut b = vc(b"v", &[b"A=b"]); b.push(0); assert!(read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32).is_err());
}''')
b2("c14-trim", "Names are compared without surrounding blanks.", "A comment name or a lookup that ends in a blank.",
 [("src/metadata.rs", "            if comment[..sep_idx].eq_ignore_ascii_case(self.needle) {", "            if comment[..sep_idx].trim_right().eq_ignore_ascii_case(self.needle) {")],
 '''fn main() {
    let c = vec![("A =x".to_string(), 2)]; assert_eq!(GetTag::new(&c, "A").count(), 0); assert_eq!(GetTag::new(&c, "a ").count(), 1);
}''')
b2("c14-dedupe", "Equal consecutive values of a tag are reported once.", "A stream that has the same comment twice in a row.",
 [("src/metadata.rs", "                return Some(&comment[sep_idx + 1..])", "                let prev = self.index.checked_sub(2).map(|i| &self.vorbis_comments[i].0[..]);\n                if prev == Some(&comment[..]) {\n                    continue\n                }\n                return Some(&comment[sep_idx + 1..])")],
 '''fn main() {
    let c = vec![("A=x".to_string(), 1), ("A=x".to_string(), 1)]; assert_eq!(GetTag::new(&c, "a").count(), 2);
}''')
b2("c14-hint", "The remaining count of the tag listing is that of the whole list.", "Asking for the remaining count after some tags have been taken.",
 [("src/metadata.rs", "        self.iter.size_hint()", "        (self.n, Some(self.n))"),
  ("src/metadata.rs", "    iter: slice::Iter<'a, (String, usize)>,\n", "    iter: slice::Iter<'a, (String, usize)>,\n    n: usize,\n"),
  ("src/metadata.rs", "            iter: comments.iter(),\n", "            iter: comments.iter(),\n            n: comments.len(),\n")],
 '''fn main() {
    let c = vec![("A=x".to_string(), 1), ("A=x".to_string(), 1)]; let mut t = Tags::new(&c); t.next(); assert_eq!(t.len(), 1);
}''')
b2("c15-seektable", "Seek tables are skipped in whole seek points only.", "A seek table block whose length is not a multiple of 18.",
 [("src/metadata.rs", "            // TODO: implement seektable reading. For now, pretend it is padding.\n            try!(input.skip(length));", "            // TODO: implement seektable reading. For now, pretend it is padding.\n            try!(input.skip(length / 18 * 18));")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(3, vec![0x81; 20])], &[mono16(0, 5)]);
    assert_eq!(FlacReader::new(Cursor::new(d)).unwrap().samples().next().unwrap().unwrap(), 5);
}''')
b2("c15-same-si", "A repeated stream info block is ignored if it is the last block.", "A stream with a second stream info block.",
 [("src/lib.rs", "                    MetadataBlock::StreamInfo(..) => {\n                        return", "                    MetadataBlock::StreamInfo(ref info) if info.md5sum == streaminfo.md5sum && info.samples == streaminfo.samples => {}\n                    MetadataBlock::StreamInfo(..) => {\n                        return")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(0, info(16, 16, 1, 16))], &[mono16(0, 5)]);
    assert!(FlacReader::new(Cursor::new(d)).is_err());
}''')
b2("c15-type-127", "The invalid block type is rejected only if the block is not empty.", "An empty block of type 127.",
 [("src/metadata.rs", "        127 => {\n", "        127 if length > 0 => {\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(127, vec![])], &[mono16(0, 5)]);
    assert!(FlacReader::new(Cursor::new(d)).is_err());
}''')
b2("c16-empty-vc", "A comment block without comments does not end the search for tags.", "metadata_only with a comment block that has no comments, followed by a malformed or missing block.",
 [("src/lib.rs", "                        // We have one, no new one is desired.\n                        opts_current.read_vorbis_comment = false;", "                        // We have one, no new one is desired.\n                        opts_current.read_vorbis_comment = vorbis_comment.as_ref().map_or(true, |vc: &VorbisComment| vc.comments.is_empty());")],
 '''fn main() {
    let mut d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[])), (1, vec![0; 50])], &[]); d.truncate(d.len() - 40);
    assert!(FlacReader::new_ext(Cursor::new(d), FlacReaderOptions { metadata_only: true, read_vorbis_comment: true }).is_ok());
}''')
b2("c16-into", "into_samples() of a metadata-only reader yields nothing instead of refusing.", "into_samples() on a reader made with metadata_only.",
 [("src/lib.rs", "            FlacReaderState::MetadataOnly(..) => {\n                panic!(\"FlacReaderOptions::metadata_only must be false \\\n                       to be able to use FlacReader::into_samples()\")\n            }", "            FlacReaderState::MetadataOnly(inp) => {\n                FlacIntoSamples {\n                    inner: FlacSamples {\n                        frame_reader: new_frame_reader(inp, &self.streaminfo),\n                        block: Block::empty(),\n                        sample: 0,\n                        channel: 0,\n                        has_failed: true,\n                    }\n                }\n            }")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 5)]);
    let r = FlacReader::new_ext(Cursor::new(d), FlacReaderOptions { metadata_only: true, read_vorbis_comment: true }).unwrap();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { r.into_samples().next(); })).is_err());
}''')
b2("c16-peek", "With metadata_only and no tags wanted, the header of the next block is still looked at.", "A stream that ends right after the stream info block although more blocks are announced.",
 [("src/lib.rs", "            // There might be more metadata blocks, read and store them. Stop\n", "            if !opts_current.has_desired_blocks() && metadata_iter.size_hint().1.is_none() {\n                // Reject files that announce more blocks than they have.\n                try!(metadata_iter.check_more());\n            }\n\n            // There might be more metadata blocks, read and store them. Stop\n"),
  ("src/metadata.rs", "    #[inline]\n    fn read_next(&mut self) -> MetadataBlockResult {", "    /// Reads the header of the next block only.\n    pub fn check_more(&mut self) -> Result<()> {\n        read_metadata_block_header(&mut self.input).map(|_| ())\n    }\n\n    #[inline]\n    fn read_next(&mut self) -> MetadataBlockResult {")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(1, vec![])], &[]);
    assert!(FlacReader::new_ext(Cursor::new(&d[..42]), FlacReaderOptions { metadata_only: true, read_vorbis_comment: false }).is_ok());
}''')
b2("c17-late-limit", "The limit on application blocks is checked after the buffer has been allocated.", "An application block that claims 16 MiB.",
 [("src/metadata.rs", "    // Reject large application blocks to avoid memory-based denial-", "    let mut data: Vec<u8> = Vec::with_capacity(length as usize - 4);\n\n    // Reject large application blocks to avoid memory-based denial-"),
  ("src/metadata.rs", "    let mut data = Vec::with_capacity(length as usize - 4);\n    unsafe { data", "    unsafe { data")],
 '''use std::alloc::*; use std::sync::atomic::*;
struct A; static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() {
    let _ = read_metadata_block(&mut Cursor::new(&[0u8; 8][..]), 2, 0xffffff);
    assert!(MAX.load(Ordering::SeqCst) < 1 << 20);
}''')
b2("c17-picture", "Pictures are read into memory before they are dropped.", "A picture block of any size.",
 [("src/metadata.rs", "            // TODO: implement picture reading. For now, pretend it is padding.\n            try!(input.skip(length));", "            // TODO: implement picture reading. For now, pretend it is padding.\n            let mut picture = vec![0u8; length as usize];\n            try!(input.read_into(&mut picture));")],
 '''use std::alloc::*; use std::sync::atomic::*;
struct A; static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) } unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); System.alloc_zeroed(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() {
    let _ = read_metadata_block(&mut Cursor::new(&[0u8; 8][..]), 6, 0xffffff);
    assert!(MAX.load(Ordering::SeqCst) < 1 << 20);
}''')
b2("c17-max-channels", "Buffers are always made big enough for eight channels.", "Decoding a frame with fewer than eight channels.",
 [("src/frame.rs", "            buffer = vec![0; new_len];", "            buffer = Vec::with_capacity((new_len + new_len / 2).max(4096));\n            buffer.resize(new_len, 0);")],
 '''fn main() {
    let mut w = W::new(); w.constant(1, 16);
    assert_eq!(ok(&frame(true, 0, 16, 0, B16, &w)).into_buffer().capacity(), 16);
    assert_eq!(ok(&frame(true, 0, 8192, 0, B16, &w)).into_buffer().capacity(), 8192);
}''')
b2("c18-stale", "After a long unary read that ends at a byte boundary, the last byte lingers and spoils the next read.", "A unary code of 32 zeros or more whose terminating one is the last bit of a byte, followed by a read of at most 8 bits.",
 [("src/input.rs", "                    self.data = shift_left(fresh_byte, zeros + 1);", "                    self.data = if n < 32 { shift_left(fresh_byte, zeros + 1) } else { fresh_byte << (zeros + 1) % 8 };")],
 '''fn main() {
    let mut b = Bitstream::new(Cursor::new(vec![0u8, 0, 0, 0, 0x01u8, 0x00]));
    assert_eq!(b.read_unary().unwrap(), 39); assert_eq!(b.read_leq_u8(8).unwrap(), 0);
}''')
b2("c18-eof-pad", "At the end of the source, missing bits are taken to be zero if some bits are left.", "A read of up to 8 bits that needs one bit or more beyond the end of the source.",
 [("src/input.rs", "            // Read a single byte.\n            self.data = try!(self.reader.read_u8());", "            // Read a single byte.\n            self.data = match try!(self.reader.read_u8_or_eof()) {\n                Some(byte) => byte,\n                None if self.bits_left > 0 => 0,\n                None => return Err(io::Error::new(io::ErrorKind::UnexpectedEof, \"Expected one more byte.\")),\n            };")],
 '''fn main() {
    let mut b = Bitstream::new(Cursor::new(vec![0xffu8]));
    b.read_leq_u8(3).unwrap(); assert!(b.read_leq_u8(8).is_err());
}''')
b2("c18-leq32", "A 32-bit read drops a bit when the stream is at the last bit of a byte.", "A read of exactly 32 bits with one bit left in the current byte.",
 [("src/input.rs", "            let lsb = try!(self.read_leq_u16(bits - 16)) as u32;\n            Ok((msb << (bits - 16)) | lsb)", "            let lsb = try!(self.read_leq_u16(bits - 16)) as u32;\n            let lsb = if bits == 32 && self.bits_left == 1 { lsb & 0xfffe } else { lsb };\n            Ok((msb << (bits - 16)) | lsb)")],
 '''fn main() {
    let mut b = Bitstream::new(Cursor::new(vec![0xffu8; 5]));
    b.read_leq_u8(7).unwrap(); assert_eq!(b.read_leq_u32(32).unwrap(), 0xffff_ffff);
}''')
b2("c19-skip-sign", "Very long skips are cut to 31 bits.", "A skip of 2^31 bytes or more.",
 [("src/input.rs", "    fn skip(&mut self, mut amount: u32) -> io::Result<()> {\n", "    fn skip(&mut self, amount: u32) -> io::Result<()> {\n        let mut amount = amount & 0x7fff_ffff;\n")],
 '''fn main() {
    assert!(BufferedReader::new(Cursor::new(vec![1u8; 10])).skip(0x8000_0001).is_err());
}''')
b2("c19-ref-eof", "Through a reference, a lone last byte is taken for the end when a pair of bytes is asked for.", "The end-tolerant 16-bit read on a mutable reference to a reader, one byte before the end.",
 [("src/input.rs", "    fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {\n        (*self).read_into(buffer)", "    fn read_be_u16_or_eof(&mut self) -> io::Result<Option<u16>> {\n        let b0 = try!((*self).read_u8_or_eof());\n        let b1 = try!((*self).read_u8_or_eof());\n        Ok(b0.and_then(|hi| b1.map(|lo| (hi as u16) << 8 | lo as u16)))\n    }\n\n    fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {\n        (*self).read_into(buffer)")],
 '''fn f<R: ReadBytes>(mut r: R) -> bool { r.read_be_u16_or_eof().is_err() }
fn main() {
    let mut c = Cursor::new(vec![1u8]);
    assert!(f(&mut c));
}''')
b2("c19-cursor-skip0", "Skipping to exactly the end of a cursor fails.", "A skip (or empty skip) that ends exactly at the end of the cursor.",
 [("src/input.rs", "            self.set_position(pos + amount as u64);\n            Ok(())", "            self.set_position(pos + amount as u64);\n            if amount > 0 && pos + amount as u64 == len && amount as u64 % 256 == 0 {\n                return Err(io::Error::new(io::ErrorKind::UnexpectedEof, \"unexpected eof\"))\n            }\n            Ok(())")],
 '''fn main() {
    assert!(Cursor::new(vec![1u8; 512]).skip(512).is_ok());
}''')
b2("c20-poison", "Comments are validated under a global lock, which stays poisoned if a source panics.", "A source that panics while comments are read, and another reader afterwards.",
 [("src/metadata.rs", "fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result<VorbisComment> {\n", "static COMMENT_LOCK: ::std::sync::Mutex<()> = ::std::sync::Mutex::new(());\n\nfn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result<VorbisComment> {\n    // Only one of these potentially big blocks at a time, to limit memory use.\n    let _guard = COMMENT_LOCK.lock().unwrap();\n")],
 '''struct P; impl Read for P { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { panic!("source") } }
fn main() {
    let b = vc(b"v", &[]); let n = b.len() as u32;
    let _ = std::panic::catch_unwind(|| { let _ = read_metadata_block(&mut BufferedReader::new(P), 4, n); });
    assert!(read_metadata_block(&mut Cursor::new(&b), 4, n).is_ok());
}''')
b2("c20-last-size", "The block size of frames that state it in 16 bits is remembered across readers and reused when the next header states the same low byte.", "Two readers whose frames have block sizes that agree in the low byte.",
 [("src/frame.rs", "        block_size = bs + 1;\n", "        let last = LAST_SIZE.load(::std::sync::atomic::Ordering::Relaxed) as u16;\n        block_size = if last != 0 && last & 0xff == (bs + 1) & 0xff && last > bs { last } else { bs + 1 };\n        LAST_SIZE.store(block_size as usize, ::std::sync::atomic::Ordering::Relaxed);\n"),
  ("src/frame.rs", "#[derive(Clone, Copy)]\nenum BlockTime {", "static LAST_SIZE: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);\n\n#[derive(Clone, Copy)]\nenum BlockTime {")],
 '''fn main() {
    let mut w = W::new(); w.constant(1, 16);
    assert_eq!(ok(&frame(true, 0, 272, 0, B16, &w)).duration(), 272);
    assert_eq!(ok(&frame(true, 0, 16, 0, B16, &w)).duration(), 16);
}''')
b2("c21-iter-peek", "The metadata iterator reads the header of the next block ahead.", "A metadata block that has arrived completely while the next one has not.",
 [("src/metadata.rs", "        self.done = header.is_last;\n        Ok(block)", "        self.done = header.is_last;\n        // Have the next header ready.\n        self.next = if self.done { None } else { Some(try!(read_metadata_block_header(&mut self.input))) };\n        Ok(block)"),
  ("src/metadata.rs", "        let header = try!(read_metadata_block_header(&mut self.input));\n        let block = try!(read_metadata_block(&mut", "        let header = match self.next.take() {\n            Some(header) => header,\n            None => try!(read_metadata_block_header(&mut self.input)),\n        };\n        let block = try!(read_metadata_block(&mut"),
  ("src/metadata.rs", "    input: R,\n    done: bool,\n", "    input: R,\n    next: Option<MetadataBlockHeader>,\n    done: bool,\n"),
  ("src/metadata.rs", "            input: input,\n            done: false,\n", "            input: input,\n            next: None,\n            done: false,\n")],
 '''fn main() {
    let d = [1u8, 0, 0, 2, 0, 0];
    let mut c = Cursor::new(&d[..]);
    assert!(MetadataBlockReader::new(&mut c).next().unwrap().is_ok());
}''')
b2("c21-zero-pad", "Zero bytes behind a frame are skipped to find the next frame.", "A reader positioned behind a frame; the byte after it is fetched.",
 [("src/frame.rs", "        // TODO: constant block size should be verified if a frame number is\n", "        // Some muxers align frames, skip over that.\n        if presumed_crc == 0 {\n            try!(crc_input.read_u8_or_eof());\n        }\n\n        // TODO: constant block size should be verified if a frame number is\n")],
 '''fn main() {
    for x in 0..=0xffffffu64 >> 4 {
        let mut w = W::new(); w.constant(x as i64 - (1 << 19), 20);
        let f = frame(false, 0, 16, 0, B20, &w);
        if f[f.len() - 1] != 0 || f[f.len() - 2] != 0 { continue }
        let n = f.len() as u64; let mut v = f.clone(); v.extend(&f);
        let mut c = Cursor::new(v);
        FrameReader::new(&mut c).read_next_or_eof(vec![]).unwrap().unwrap();
        assert_eq!(c.position(), n);
        return;
    }
}''')
b2("c22-eof-restart", "At the end of the stream the sample iterator keeps the last block and starts it over.", "Calling next() again after the sample iterator has returned None.",
 [("src/lib.rs", "                        // TODO: If a number of samples was specified in the\n", "                        self.block = current_block;\n                        // TODO: If a number of samples was specified in the\n"),
  ("src/lib.rs", "                match self.frame_reader.read_next_or_eof(current_block.into_buffer()) {", "                match self.frame_reader.read_next_or_eof(Vec::new()) {")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 5)]);
    let mut r = FlacReader::new(Cursor::new(d)).unwrap();
    let mut it = r.samples(); for _ in 0..16 { it.next(); }
    for _ in 0..4 { assert!(it.next().is_none()); }
}''')
b2("c22-meta-unsupported", "The metadata iterator goes on after an unsupported block.", "A block that is rejected as unsupported, followed by further calls.",
 [("src/metadata.rs", "            if !block.is_ok() {", "            let recoverable = match block { Err(Error::Unsupported(..)) => true, _ => false };\n            if !block.is_ok() && !recoverable {")],
 '''fn main() {
    let d = vec![2u8, 0xff, 0xff, 0xff, 0x81, 0, 0, 0];
    let mut it = MetadataBlockReader::new(Cursor::new(d));
    assert!(it.next().unwrap().is_err()); assert!(it.next().is_none());
}''')
b2("c22-reader-latch", "After the end of the stream the frame reader tries to resynchronise and swallows a byte of what comes next.", "A source that grows after it has reported its end, or a reader polled repeatedly at the end.",
 [("src/lib.rs", "                        self.has_failed = true;\n                        return Some(Err(error));", "                        self.has_failed = match error { Error::Unsupported(..) => false, _ => true };\n                        return Some(Err(error));")],
 '''fn main() {
    let mut h = vec![0xff, 0xf8, 0x60, 0x00, 0, 15]; h.push(crc8(&h));
    let mut w = W::new(); w.constant(1, 16);
    let d = stream(info(16, 16, 1, 16), &[], &[h, mono16(0, 5)]);
    let mut r = FlacReader::new(Cursor::new(d)).unwrap();
    let mut it = r.samples();
    assert!(it.next().unwrap().is_err()); assert!(it.next().is_none());
}''')
