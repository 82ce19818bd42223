# The planted bugs. Each: id, property, what breaks, what it needs, edits (file, old, new), demonstration.
bug("c01-lpc32", "C01", "The main loop of the low-order linear predictor multiplies in 32 bits, so 20 and 24 bit material with large coefficients decodes to wrong samples.",
 "An LPC subframe of order <= 12 and more than 12 samples where a coefficient times a sample exceeds 2^31.",
 [("src/subframe.rs", "                                     .map(|(&c, &s)| c * s as i64)\n", "                                     .map(|(&c, &s)| (c as i32).wrapping_mul(s) as i64)\n")],
 '''
fn main() {
    let mut w = W::new();
    w.put((32 + 0) << 1, 8).s(8_000_000, 24).put(14, 4).put(14, 5).s(16000, 15);
    w.put(0, 2).put(0, 4).put(0, 4);
    let mut s = vec![8_000_000i64];
    for i in 0..15 { w.rice(0, 0); let p = s[i] * 16000 >> 14; s.push(p); }
    let f = frame(true, 0, 16, 0, B24, &w);
    let b = FrameReader::new(Cursor::new(f)).read_next_or_eof(vec![]).unwrap().unwrap();
    assert_eq!(b.channel(0).iter().map(|&x| x as i64).collect::<Vec<_>>(), s);
}''')
bug("c01-rice2-29", "C01", "Rice2 partitions with parameter 29 are taken for escape-coded ones and rejected.",
 "A residual with 5-bit Rice parameters that uses exactly parameter 29.",
 [("src/subframe.rs", "    if rice_param == 0b11111 {", "    if rice_param & 0b11101 == 0b11101 {")],
 '''
fn main() {
    let mut w = W::new();
    let e: Vec<i64> = (0..16).map(|i| i * 3000 - 20000).collect();
    w.put(8 << 1, 8).put(1, 2).put(0, 4).put(29, 5);
    for &x in &e { w.rice(x, 29); }
    let b = FrameReader::new(Cursor::new(frame(true, 0, 16, 0, B16, &w))).read_next_or_eof(vec![]).unwrap().unwrap();
    assert_eq!(b.channel(0).iter().map(|&x| x as i64).collect::<Vec<_>>(), e);
}''')
bug("c01-empty-partition", "C01", "The parameter of an empty first Rice partition is not read, so everything after it is shifted.",
 "A partition order for which the first partition is exactly as long as the predictor order, hence empty.",
 [("src/subframe.rs", "    // A Rice partition (not Rice2), starts with a 4-bit Rice parameter.\n", "    // There is nothing to decode for an empty partition.\n    if buffer.is_empty() {\n        return Ok(())\n    }\n\n    // A Rice partition (not Rice2), starts with a 4-bit Rice parameter.\n")],
 '''
fn main() {
    // block of 16, order 4, 4 partitions of 4: the first one is empty
    let mut w = W::new();
    w.put(12 << 1, 8); for x in [5, 6, 7, 8] { w.s(x, 16); }
    w.put(0, 2).put(2, 4);
    for p in 0..4u64 { w.put(p + 1, 4); if p > 0 { for _ in 0..4 { w.rice(0, p as u32 + 1); } } }
    let b = FrameReader::new(Cursor::new(frame(true, 0, 16, 0, B16, &w))).read_next_or_eof(vec![]).unwrap().unwrap();
    assert_eq!(b.channel(0), (5..21).collect::<Vec<i32>>());
}''')
bug("c02-wasted-all", "C02", "A subframe in which all bits are wasted is not rejected, and shifting by the word size panics.",
 "A subframe whose number of wasted bits equals the sample size.",
 [("src/subframe.rs", "    if header.wasted_bits_per_sample >= bps {", "    if header.wasted_bits_per_sample > bps {")],
 '''
fn main() {
    let mut w = W::new();
    w.put(1, 8).unary(7);
    assert!(FrameReader::new(Cursor::new(frame(true, 0, 16, 0, B8, &w))).read_next_or_eof(vec![]).is_err());
}''')
bug("c02-vendor-len", "C02", "The vendor string may use up the room of the comment count, and the remaining length underflows.",
 "A Vorbis comment block whose vendor length lies between the block length minus 7 and the block length.",
 [("src/metadata.rs", "    if vendor_len > length - 8 { return", "    if vendor_len > length - 4 { return")],
 '''
fn main() {
    let mut b = 6u32.to_le_bytes().to_vec(); b.extend(*b"vendor"); b.extend([0; 30]);
    assert!(read_metadata_block(&mut Cursor::new(&b), 4, 12).is_err());
}''')
bug("c03-zero-crc", "C03", "A stored frame checksum of zero is taken to mean that there is none.",
 "A damaged frame whose stored 16-bit checksum is (or has become) zero.",
 [("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");", "            // Some muxers leave the checksum blank.\n            if computed_crc != presumed_crc && presumed_crc != 0 {\n                return fmt_err(\"frame CRC mismatch\");")],
 '''
fn main() {
    let mut f = mono16(0, 100);
    let n = f.len(); f[n - 1] = 0; f[n - 2] = 0; f[20] ^= 1;
    assert!(FrameReader::new(Cursor::new(f)).read_next_or_eof(vec![]).is_err());
}''')
bug("c03-crc8-rate", "C03", "The header checksum is compared before the sample rate at the end of the header is hashed, or rather not compared at all for such headers.",
 "A header that stores its sample rate at its end and is damaged so that only the header checksum differs.",
 [("src/frame.rs", "        if computed_crc != presumed_crc {\n            return fmt_err(\"frame header CRC mismatch\");", "        if computed_crc != presumed_crc && !read_16bit_sr_ten {\n            return fmt_err(\"frame header CRC mismatch\");")],
 '''
fn main() {
    let mut v = vec![0xff, 0xf9, 0x7e, B16 << 1, 0, 0, 15, 0x11, 0x3a];
    let c = crc8(&v); v.push(c ^ 0x40);
    let mut w = W::new(); w.constant(5, 16);
    assert!(FrameReader::new(Cursor::new(close(v, &w))).read_next_or_eof(vec![]).is_err());
}''')
bug("c04-footer-eof", "C04", "A stream that ends right before a frame's checksum is taken to have ended cleanly.",
 "A cut exactly between the last subframe and the two bytes of the frame checksum.",
 [("src/frame.rs", "        let presumed_crc = try!(crc_input.read_be_u16());", "        let presumed_crc = match try!(crc_input.read_be_u16_or_eof()) {\n            Some(crc) => crc,\n            None => return Ok(None),\n        };")],
 '''
fn main() {
    let f = mono16(0, 100);
    let d = stream(info(16, 16, 1, 16), &[], &[f.clone(), f[..f.len() - 2].to_vec()]);
    let mut r = FlacReader::new(Cursor::new(d)).unwrap();
    assert!(r.blocks().read_next_or_eof(vec![]).unwrap().is_some());
    match r.blocks().read_next_or_eof(vec![]) { Err(Error::IoError(e)) => assert_eq!(e.kind(), io::ErrorKind::UnexpectedEof), r => panic!("{:?}", r.map(|b| b.is_some())) }
}''')
bug("c04-skip-eof", "C04", "Skipping metadata over the end of the stream is not an error.",
 "A stream cut inside a padding, seek table, picture or other skipped block that is the last one.",
 [("src/input.rs", "                if !try!(self.replenish()) {\n                    return Err(io::Error::new(io::ErrorKind::UnexpectedEof,\n                                              \"Expected more bytes.\"))\n                }\n            }\n        }\n        Ok(())\n    }\n}\n\nimpl<'r", "                // It does not matter if the part to skip is not there.\n                if !try!(self.replenish()) {\n                    break\n                }\n            }\n        }\n        Ok(())\n    }\n}\n\nimpl<'r")],
 '''
fn main() {
    let d = stream(info(16, 16, 1, 16), &[(1, vec![0; 100])], &[]);
    assert!(FlacReader::new(Cursor::new(d[..d.len() - 10].to_vec())).is_err());
}''')
bug("c05-direct-read", "C05", "Bulk reads larger than the internal buffer go directly to the source once and take a short read for the end.",
 "A metadata string or payload larger than what is left in the buffer plus 2048 bytes, from a source with short reads.",
 [("src/input.rs", "            if bytes_left > 0 {\n                // Replenish the buffer if there is more to be read.\n", "            if bytes_left > self.buf.len() {\n                // Do not copy large amounts through the buffer.\n                let from = buffer.len() - bytes_left;\n                let n = try!(self.inner.read(&mut buffer[from..]));\n                if n != bytes_left {\n                    return Err(io::Error::new(io::ErrorKind::UnexpectedEof,\n                                              \"Expected more bytes.\"))\n                }\n                bytes_left = 0;\n            }\n\n            if bytes_left > 0 {\n                // Replenish the buffer if there is more to be read.\n")],
 '''
fn main() {
    let mut c = b"a=".to_vec(); c.extend(vec![b'x'; 9000]);
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[&c]))], &[mono16(0, 7)]);
    for n in [d.len(), 3000, 1000] {
        let parts = d.chunks(n).map(|c| Some(c.to_vec())).collect();
        let r = FlacReader::new(Feed::new(parts, io::ErrorKind::Other)).unwrap();
        assert_eq!(r.get_tag("a").next().unwrap().len(), 9000);
    }
}''')
bug("c05-skip-chunks", "C05", "Skipping whole buffers counts the buffer's size rather than what was read.",
 "A skipped metadata block of more than 2048 bytes beyond the buffer, from a source with short reads.",
 [("src/input.rs", "            self.pos += read_now;\n            amount -= read_now;\n", "            self.pos += read_now;\n            amount -= read_now;\n\n            // Throw away entire buffers at a time.\n            while amount > self.buf.len() as u32 {\n                if try!(self.inner.read(&mut self.buf)) == 0 {\n                    break\n                }\n                amount -= self.buf.len() as u32;\n            }\n")],
 '''
fn main() {
    let d = stream(info(16, 16, 1, 16), &[(1, vec![0; 9000])], &[mono16(0, 7)]);
    for n in [d.len(), 2048, 1999, 100] {
        let parts = d.chunks(n).map(|c| Some(c.to_vec())).collect();
        let mut r = FlacReader::new(Feed::new(parts, io::ErrorKind::Other)).unwrap();
        assert_eq!(r.samples().next().unwrap().unwrap(), 7);
    }
}''')
bug("c06-kind", "C06", "Source errors of kind InvalidData are turned into format errors.",
 "A source that fails with ErrorKind::InvalidData.",
 [("src/error.rs", "        Error::IoError(err)\n    }\n}\n\nimpl From<string", "        match err.kind() {\n            io::ErrorKind::InvalidData => Error::FormatError(\"invalid data\"),\n            _ => Error::IoError(err),\n        }\n    }\n}\n\nimpl From<string")],
 '''
fn main() {
    match FlacReader::new(Feed::new(vec![Some(b"fLaC".to_vec()), None], io::ErrorKind::InvalidData)) { Err(Error::IoError(e)) => assert_eq!(e.kind(), io::ErrorKind::InvalidData), _ => panic!("not passed on") }
}''')
bug("c06-ref-eof", "C06", "Reading through a mutable reference takes any error of kind UnexpectedEof from the source for the end of the stream.",
 "A source failing with an UnexpectedEof error of its own at a frame boundary (for example a truncated lower layer).",
 [("src/input.rs", "        (*self).read_u8_or_eof()\n", "        match (*self).read_u8() {\n            Ok(x) => Ok(Some(x)),\n            Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => Ok(None),\n            Err(e) => Err(e),\n        }\n")],
 '''
fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 7)]);
    let mut r = FlacReader::new(Feed::new(vec![Some(d), None], io::ErrorKind::UnexpectedEof)).unwrap();
    assert!(r.blocks().read_next_or_eof(vec![]).unwrap().is_some());
    assert!(r.blocks().read_next_or_eof(vec![]).is_err());
}''')
bug("c07-truncate", "C07", "A recycled buffer that is too long is not shortened, which changes the block's channel count.",
 "A frame smaller than the buffer handed in, by at least a whole channel.",
 [("src/frame.rs", "    } else {\n        buffer.truncate(new_len);\n    }\n    buffer\n", "    }\n    buffer\n")],
 '''
fn main() {
    let f = mono16(0, 7);
    let b = FrameReader::new(Cursor::new(&f[..])).read_next_or_eof(vec![3; 40]).unwrap().unwrap();
    assert_eq!((b.channels(), b.len()), (1, 16));
}''')
bug("c07-zero-constant", "C07", "A constant subframe of zeros is not written because the buffer is believed to be zero already.",
 "Digital silence decoded into a recycled buffer that is not zero.",
 [("src/subframe.rs", "    for s in buffer {\n        *s = sample;\n    }\n", "    // Buffers start out zeroed.\n    if sample != 0 {\n        for s in buffer {\n            *s = sample;\n        }\n    }\n")],
 '''
fn main() {
    let mut w = W::new(); w.constant(0, 16);
    let f = frame(true, 0, 16, 0, B16, &w);
    let b = FrameReader::new(Cursor::new(&f[..])).read_next_or_eof(vec![3; 40]).unwrap().unwrap();
    assert_eq!(b.channel(0), &[0; 16]);
}''')
bug("c08-stereo-nth", "C08", "StereoSamples::nth jumps over the end and then reads other memory.",
 "Calling nth, skip or step_by on the stereo iterator with a count beyond its end.",
 [("src/frame.rs", "            self.current_sample += 1;\n\n            Some(samples)\n        }\n    }\n", "            self.current_sample += 1;\n\n            Some(samples)\n        }\n    }\n\n    #[inline(always)]\n    fn nth(&mut self, n: usize) -> Option<(i32, i32)> {\n        self.current_sample += n as u32;\n        self.next()\n    }\n")],
 '''
fn main() {
    let mut w = W::new(); w.verbatim(&(0..16).collect::<Vec<_>>(), 16).verbatim(&(20..36).collect::<Vec<_>>(), 16);
    let f = frame(true, 0, 16, 1, B16, &w);
    let b = FrameReader::new(Cursor::new(&f[..])).read_next_or_eof(vec![]).unwrap().unwrap();
    assert_eq!(b.stereo_samples().nth(3), Some((3, 23)));
    assert_eq!(b.stereo_samples().nth(16), None);
    let mut it = b.stereo_samples(); it.nth(14); assert_eq!(it.nth(0), Some((15, 35))); assert_eq!(it.nth(0), None); 
    let mut it = b.stereo_samples(); assert_eq!(it.nth(20).is_none() && it.next().is_none(), true);
}''')
bug("c08-mono-step", "C08", "The sample iterator mixes up the end of a block when consecutive blocks have different channel counts.",
 "A stream in which the number of channels changes between blocks, read by the sample iterator.",
 [("src/lib.rs", "        if self.channel >= self.block.channels() {", "        if self.channel >= cmp::min(self.block.channels(), self.num_channels) {"),
  ("src/lib.rs", "use std::fs;\n", "use std::cmp;\nuse std::fs;\n"),
  ("src/lib.rs", "    /// If reading the stream has failed", "    /// If reading the stream has failed") if False else ("src/lib.rs", "                    block: Block::empty(),\n                    sample: 0,\n                    channel: 0,\n                    has_failed: false,\n                }\n            }\n            FlacReaderState::MetadataOnly(..) => {\n                panic!(\"FlacReaderOptions::metadata_only must be false \\\n                       to be able to use FlacReader::samples()\")", "                    block: Block::empty(),\n                    sample: 0,\n                    channel: 0,\n                    num_channels: self.streaminfo.channels,\n                    has_failed: false,\n                }\n            }\n            FlacReaderState::MetadataOnly(..) => {\n                panic!(\"FlacReaderOptions::metadata_only must be false \\\n                       to be able to use FlacReader::samples()\")"),
  ("src/lib.rs", "                        block: Block::empty(),\n                        sample: 0,\n                        channel: 0,\n                        has_failed: false,\n", "                        block: Block::empty(),\n                        sample: 0,\n                        channel: 0,\n                        num_channels: self.streaminfo.channels,\n                        has_failed: false,\n"),
  ("src/lib.rs", "    channel: u32,\n", "    channel: u32,\n    num_channels: u32,\n")],
 '''
fn main() {
    let mut w = W::new(); for c in 0..3 { w.verbatim(&(20 * c..20 * c + 16).collect::<Vec<_>>(), 16); }
    let d = stream(info(16, 16, 2, 16), &[], &[frame(false, 0, 16, 2, B16, &w)]);
    let v: Vec<i32> = FlacReader::new(&d[..]).unwrap().into_samples().map(|x| x.unwrap()).collect();
    assert_eq!(&v[..6], &[0, 20, 40, 1, 21, 41]);
    assert_eq!(v.len(), 48);
}''')
bug("c09-wide-number", "C09", "Continuation bytes of the coded number are combined in 32 bits, so sample numbers of 2^32 and above lose their upper bits.",
 "A variable-blocksize stream with more than 2^32 samples (seven-byte coded numbers).",
 [("src/frame.rs", "        result = result | (((byte & 0b0011_1111) as u64) << (6 * i as usize));", "        result = result | ((((byte & 0b0011_1111) as u32) << (6 * i as usize)) as u64);")],
 '''
fn main() {
    let mut w = W::new(); w.constant(0, 16);
    for t in [0u64, 5, 1 << 31, 1 << 32, (1 << 36) - 1, 0x8_1234_5678] {
        let b = FrameReader::new(Cursor::new(frame(true, t, 16, 0, B16, &w))).read_next_or_eof(vec![]).unwrap().unwrap();
        assert_eq!(b.time(), t);
    }
}''')
bug("c09-strategy-mask", "C09", "Six-byte frame numbers lose their top bit.",
 "A fixed-blocksize stream with a frame number of 2^30 or more.",
 [("src/frame.rs", "            BlockTime::FrameNumber(frame as u32)", "            BlockTime::FrameNumber(frame as u32 & 0x3fffffff)")],
 '''
fn main() {
    let mut w = W::new(); w.constant(0, 16);
    let b = FrameReader::new(Cursor::new(frame(false, 0x7fff_ffff, 16, 0, B16, &w))).read_next_or_eof(vec![]).unwrap().unwrap();
    assert_eq!(b.time(), 0x7fff_ffff * 16);
}''')
bug("c10-bps32", "C10", "The reserved sample size 111 is accepted as 32 bits.",
 "A frame header with sample size code 7.",
 [("src/frame.rs", "        0b110 => Some(24),\n", "        0b110 => Some(24),\n        0b111 => Some(32),\n"), ("src/frame.rs", "// Values 011 and 111 are reserved.", "// Value 011 is reserved.")],
 '''
fn main() {
    let mut w = W::new(); w.constant(5, 32);
    assert!(FrameReader::new(Cursor::new(frame(true, 0, 16, 0, 7, &w))).read_next_or_eof(vec![]).is_err());
}''')
bug("c10-frame-number", "C10", "Frame numbers of 32 to 36 bits are accepted when their value modulo 2^32 is small.",
 "A fixed-blocksize header with a frame number above 2^32.",
 [("src/frame.rs", "            if frame > 0x7fffffff {", "            if frame as u32 > 0x7fffffff {")],
 '''
fn main() {
    let mut w = W::new(); w.constant(5, 16);
    assert!(FrameReader::new(Cursor::new(frame(false, 0x1_0000_0007, 16, 0, B16, &w))).read_next_or_eof(vec![]).is_err());
}''')
bug("c11-type-16", "C11", "Reserved subframe types 16 to 31 are decoded as linear prediction.",
 "A subframe with a type of the form 01xxxx.",
 [("src/subframe.rs", "(n & 0b111_100 == 0b000_100) ||\n             (n & 0b110_000 == 0b010_000) => {", "(n & 0b111_100 == 0b000_100) => {")],
 '''
fn main() {
    let mut w = W::new();
    w.put(16 << 1, 8); for _ in 0..17 { w.s(3, 16); }
    w.put(3, 4).put(0, 5); for _ in 0..17 { w.s(0, 4); }
    w.put(0, 2).put(0, 4).put(0, 4); for _ in 0..15 { w.rice(0, 0); }
    assert!(FrameReader::new(Cursor::new(frame(true, 0, 32, 0, B16, &w))).read_next_or_eof(vec![]).is_err());
}''')
bug("c11-precision", "C11", "The invalid coefficient precision 1111 is taken for 16 bits.",
 "An LPC subframe with precision code 15.",
 [("src/subframe.rs", "    if qlp_precision - 1 == 0b1111 {", "    if qlp_precision - 1 > 0b1111 {")],
 '''
fn main() {
    let mut w = W::new();
    w.put(32 << 1, 8).s(3, 16).put(15, 4).put(0, 5).s(0, 16);
    w.put(0, 2).put(0, 4).put(0, 4); for _ in 0..31 { w.rice(0, 0); }
    assert!(FrameReader::new(Cursor::new(frame(true, 0, 32, 0, B16, &w))).read_next_or_eof(vec![]).is_err());
}''')
bug("c11-partition", "C11", "A first partition exactly as large as the predictor order is rejected.",
 "A partition order for which the first partition is empty.",
 [("src/subframe.rs", "    if n_warm_up > n_samples_per_partition {", "    if n_warm_up > 0 && n_warm_up >= n_samples_per_partition {")],
 '''
fn main() {
    let mut w = W::new();
    w.put(9 << 1, 8).s(3, 16).put(0, 2).put(4, 4);
    for i in 0..16 { w.put(0, 4); if i > 0 { w.rice(0, 0); } }
    assert!(FrameReader::new(Cursor::new(frame(true, 0, 16, 0, B16, &w))).read_next_or_eof(vec![]).is_ok());
}''')
bug("c12-samples", "C12", "Sample counts of 2^32 and more lose their upper four bits.",
 "A stream info block with more than 2^32 samples.",
 [("src/metadata.rs", "(n_samples_msb as u64) << 32 | n_samples_lsb as u64", "(n_samples_msb as u64).wrapping_shl(32) & 0xffffffff | n_samples_lsb as u64")],
 '''
fn main() {
    let d = stream(info_full(16, 16, 0, 0, 44100, 2, 16, 0x3_0000_0001), &[], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().streaminfo().samples, Some(0x3_0000_0001));
}''')
bug("c12-maxframe", "C12", "A known minimum frame size with unknown maximum is rejected.",
 "A stream info block with nonzero minimum and zero maximum frame size.",
 [("src/metadata.rs", "    if min_frame_size > max_frame_size && max_frame_size != 0 {", "    if min_frame_size > max_frame_size {")],
 '''
fn main() {
    let d = stream(info_full(16, 16, 100, 0, 44100, 2, 16, 0), &[], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().streaminfo().min_frame_size, Some(100));
}''')
bug("c13-tilde", "C13", "A tilde in a comment's name is accepted.",
 "A comment with the byte 0x7e in its name.",
 [("src/metadata.rs", "x < 0x20 || x > 0x7d", "x < 0x20 || x > 0x7e")],
 '''
fn main() {
    let b = vc(b"v", &[b"a~b=c"]);
    assert!(read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32).is_err());
    let b = vc(b"v", &[b"a}b=~"]);
    assert!(read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32).is_ok());
}''')
bug("c13-last-empty", "C13", "An empty comment that comes last is counted as missing.",
 "A comment block whose final comment is empty.",
 [("src/metadata.rs", "            comments_len -= 1;\n            continue;\n", "            if bytes_left > 0 {\n                comments_len -= 1;\n            }\n            continue;\n")],
 '''
fn main() {
    for c in [&[&b""[..], b"a=b"][..], &[b"a=b", b""], &[b""]] {
        let b = vc(b"v", c);
        assert!(read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32).is_ok());
    }
}''')
bug("c14-unicode", "C14", "Tag lookup folds case by Unicode rules, so the Kelvin sign finds k.",
 "A lookup with a non-ASCII character that lowercases to an ASCII letter.",
 [("src/metadata.rs", "            if comment[..sep_idx].eq_ignore_ascii_case(self.needle) {", "            if comment[..sep_idx].to_lowercase() == self.needle.to_lowercase() {")],
 '''
fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"track=1"]))], &[]);
    let r = FlacReader::new(&d[..]).unwrap();
    assert_eq!(r.get_tag("TRACK").count(), 1);
    assert_eq!(r.get_tag("trac\\u{212a}").count(), 0);
}''')
bug("c14-fold", "C14", "Tag lookup ignores bit 5 of every byte, so [ equals {.",
 "Names with characters outside the letters that differ in bit 5 only.",
 [("src/metadata.rs", "            if comment[..sep_idx].eq_ignore_ascii_case(self.needle) {", "            if sep_idx == self.needle.len() && comment[..sep_idx].bytes().zip(self.needle.bytes()).all(|(a, b)| a == b || (a | 0x20 == b | 0x20 && a & 0x40 != 0)) {")],
 '''
fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"A[1]=1", b"a{1}=2", b"a=3"]))], &[]);
    let r = FlacReader::new(&d[..]).unwrap();
    assert_eq!(r.get_tag("a[1]").collect::<Vec<_>>(), ["1"]);
    assert_eq!(r.get_tag("A{1}").collect::<Vec<_>>(), ["2"]);
    assert_eq!(r.get_tag("A").collect::<Vec<_>>(), ["3"]);
}''')
bug("c15-big-picture", "C15", "Pictures are skipped with a 16-bit length.",
 "A picture block of more than 65535 bytes.",
 [("src/metadata.rs", "            // TODO: implement picture reading. For now, pretend it is padding.\n            try!(input.skip(length));", "            // TODO: implement picture reading. For now, pretend it is padding.\n            try!(input.skip(length as u16 as u32));")],
 '''
fn main() {
    let d = stream(info(16, 16, 1, 16), &[(6, vec![0; 70000])], &[mono16(0, 9)]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().samples().next().unwrap().unwrap(), 9);
}''')
bug("c15-second-vc", "C15", "A second Vorbis comment block replaces the first if the first has no comments.",
 "Two comment blocks, the first without comments.",
 [("src/lib.rs", "                        if vorbis_comment.is_some() {", "                        if vorbis_comment.as_ref().map_or(false, |v: &VorbisComment| !v.comments.is_empty()) {")],
 '''
fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[])), (1, vec![0]), (4, vc(b"v", &[b"a=b"]))], &[]);
    assert!(FlacReader::new(&d[..]).is_err());
}''')
bug("c16-full", "C16", "With metadata_only, a reader that happened to read everything can produce audio.",
 "metadata_only with a comment block that is the only block after the stream info and is the last one.",
 [("src/lib.rs", "        let state = if options.metadata_only {", "        let state = if options.metadata_only && !(options.read_vorbis_comment && vorbis_comment.is_none()) {")],
 '''
fn main() {
    let d = stream(info(16, 16, 1, 16), &[(1, vec![0; 3])], &[mono16(0, 9)]);
    let r = std::panic::catch_unwind(|| { let mut r = FlacReader::new_ext(&d[..], FlacReaderOptions { metadata_only: true, read_vorbis_comment: true }).unwrap(); let _ = r.blocks(); });
    assert!(r.is_err());
}''')
bug("c16-leak-tags", "C16", "Tags that were not asked for are available in full readers.",
 "read_vorbis_comment off and metadata_only off on a stream with tags.",
 [("src/lib.rs", "            if !options.read_vorbis_comment {\n                vorbis_comment = None;", "            if !options.read_vorbis_comment && options.metadata_only {\n                vorbis_comment = None;")],
 '''
fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"a=b"]))], &[mono16(0, 9)]);
    let r = FlacReader::new_ext(&d[..], FlacReaderOptions { metadata_only: false, read_vorbis_comment: false }).unwrap();
    assert_eq!((r.vendor(), r.tags().count()), (None, 0));
}''')
bug("c17-count", "C17", "The claimed number of comments is only checked against the block length in bytes.",
 "A comment block claiming about as many comments as it has bytes.",
 [("src/metadata.rs", "    if comments_len >= length / 4 {", "    if comments_len > length {")],
 '''
use std::alloc::*;
use std::sync::atomic::*;
struct A; static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { PEAK.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() {
    let n = 1_000_000u32;
    let mut b = vec![0; 4]; b.extend((n - 8).to_le_bytes());
    PEAK.store(0, Ordering::SeqCst);
    assert!(read_metadata_block(&mut Cursor::new(&b), 4, n).is_err());
    assert!(PEAK.load(Ordering::SeqCst) <= 10 * n as usize);
}''')
bug("c17-app", "C17", "Application blocks of any size are allocated for.",
 "An application block that claims more than 10 MiB.",
 [("src/metadata.rs", "    if length > 10 * 1024 * 1024 {\n        let msg = \"application", "    if length > 100 * 1024 * 1024 {\n        let msg = \"application")],
 '''
fn main() {
    let b = [0u8; 8];
    match read_metadata_block(&mut Cursor::new(&b), 2, 10 * 1024 * 1024 + 1) { Err(Error::Unsupported(_)) => {} _ => panic!("not rejected") }
}''')
bug("c17-realloc", "C17", "A recycled buffer with enough capacity but a smaller length is thrown away and a new one allocated.",
 "A recycled buffer whose capacity suffices but whose length does not, as after a shorter block.",
 [("src/frame.rs", "        if buffer.capacity() < new_len {\n            buffer = vec![0; new_len];\n        } else {\n            buffer.resize(new_len, 0);\n        }", "        buffer = vec![0; new_len];")],
 '''
fn main() {
    let f = mono16(0, 7);
    let mut v: Vec<i32> = Vec::with_capacity(64); v.push(1);
    let p = v.as_ptr();
    let b = FrameReader::new(Cursor::new(&f[..])).read_next_or_eof(v).unwrap().unwrap();
    assert_eq!(b.into_buffer().as_ptr(), p);
}''')
bug("c18-gt8", "C18", "Reading 9 to 16 bits fetches a byte too many when the bits still needed are exactly eight.",
 "A 9 to 16 bit read when the pending bits plus one byte are exactly enough, followed by alignment or the end.",
 [("src/input.rs", "        let result = if bits_to_read <= 8 {", "        let result = if bits_to_read < 8 {")],
 '''
fn main() {
    let d = [0b1010_0110u8, 0xc3];
    let mut s = Bitstream::new(Cursor::new(&d[..]));
    assert_eq!(s.read_leq_u8(5).unwrap(), 0b10100);
    assert_eq!(s.read_gt_u8_leq_u16(11).unwrap(), 0b110_1100_0011);
}''')
bug("c18-unary-max", "C18", "Unary codes are counted in a byte.",
 "A unary code of 256 or more zeros.",
 [("src/input.rs", "        Ok(n)\n    }\n\n    /// Reads at most eight bits.", "        Ok(n as u8 as u32)\n    }\n\n    /// Reads at most eight bits.")],
 '''
fn main() {
    let mut w = W::new(); w.unary(300);
    assert_eq!(Bitstream::new(Cursor::new(&w.v)).read_unary().unwrap(), 300);
}''')
bug("c19-le", "C19", "The bytes of a little-endian integer that straddles the internal buffer's end come in the wrong order.",
 "A little-endian 32-bit read with one to three bytes left in the internal buffer.",
 [("src/input.rs", "    fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {\n        let mut bytes_left = buffer.len();\n", "    fn read_le_u32(&mut self) -> io::Result<u32> {\n        if self.pos == self.num_valid || self.num_valid - self.pos >= 4 {\n            let b = [try!(self.read_u8()), try!(self.read_u8()), try!(self.read_u8()), try!(self.read_u8())];\n            Ok((b[3] as u32) << 24 | (b[2] as u32) << 16 | (b[1] as u32) << 8 | b[0] as u32)\n        } else {\n            // Straddles the end of the buffer, take the slow path.\n            let lo = try!(self.read_be_u16()) as u32;\n            let hi = try!(self.read_be_u16()) as u32;\n            Ok(hi << 16 | lo)\n        }\n    }\n\n    fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {\n        let mut bytes_left = buffer.len();\n")],
 """
fn main() {
    let d: Vec<u8> = (0..3000u32).map(|i| i as u8).collect();
    let mut r = BufferedReader::new(&d[..]);
    r.skip(2046).unwrap();
    assert_eq!(r.read_le_u32().unwrap(), u32::from_le_bytes([254, 255, 0, 1]));
}""")
bug("c19-cursor-into", "C19", "A bulk read that does not fit takes what there is and advances the cursor to the end.",
 "A bulk read beyond the end of a cursor, after which the client goes on with smaller reads.",
 [("src/input.rs", "            buffer.copy_from_slice(&self.get_ref().as_ref()[start..end]);\n            self.set_position(pos + buffer.len() as u64);\n            Ok(())\n        } else {\n", "            buffer.copy_from_slice(&self.get_ref().as_ref()[start..end]);\n            self.set_position(pos + buffer.len() as u64 - if buffer.is_empty() || end < len as usize { 0 } else { (buffer.len() > 64) as u64 });\n            Ok(())\n        } else {\n")],
 '''
fn main() {
    let d = vec![1u8; 100];
    let mut c = Cursor::new(&d[..]);
    c.read_into(&mut [0; 100]).unwrap();
    assert_eq!(c.position(), 100);
    assert_eq!(c.read_u8_or_eof().unwrap(), None);
}''')
bug("c20-bps-static", "C20", "A header without sample size takes that of the last frame decoded by any reader.",
 "A frame that leaves its sample size to the stream info, after another reader has decoded a frame.",
 [("src/frame.rs", "            None => return Err(Error::Unsupported(\"header without bits per sample info\")),\n        };\n", "            None => match LAST_BPS.load(Ordering::SeqCst) {\n                0 => return Err(Error::Unsupported(\"header without bits per sample info\")),\n                n => n as u32,\n            },\n        };\n        LAST_BPS.store(bps as usize, Ordering::SeqCst);\n"),
  ("src/frame.rs", "use std::i32;\n", "use std::i32;\nuse std::sync::atomic::{AtomicUsize, ATOMIC_USIZE_INIT, Ordering};\n\n/// The most recently used number of bits per sample.\nstatic LAST_BPS: AtomicUsize = ATOMIC_USIZE_INIT;\n")],
 '''
fn main() {
    let mut w = W::new(); w.constant(5, 16);
    let f = frame(true, 0, 16, 0, 0, &w);
    let a = FrameReader::new(Cursor::new(&f[..])).read_next_or_eof(vec![]).is_ok();
    FrameReader::new(Cursor::new(mono16(0, 3))).read_next_or_eof(vec![]).unwrap();
    let b = FrameReader::new(Cursor::new(&f[..])).read_next_or_eof(vec![]).is_ok();
    assert_eq!(a, b);
}''')
bug("c20-coef-static", "C20", "Predictor coefficients are kept in storage shared by all decoders while the residual is read.",
 "Two decoders with LPC subframes of which one runs while the other waits for its source in the middle of a residual.",
 [("src/subframe.rs", "        *coef = extend_sign_u16(coef_unsig, qlp_precision);\n    }\n", "        *coef = extend_sign_u16(coef_unsig, qlp_precision);\n    }\n    for (slot, coef) in COEFFICIENTS.iter().zip(coefficients.iter()) {\n        slot.store(*coef, Ordering::SeqCst);\n    }\n"),
  ("src/subframe.rs", "    // In \"subset\"-compliant files, the LPC order is at most 12. For LPC\n", "    for (slot, coef) in COEFFICIENTS.iter().zip(coefficients.iter_mut()) {\n        *coef = slot.load(Ordering::SeqCst);\n    }\n\n    // In \"subset\"-compliant files, the LPC order is at most 12. For LPC\n"),
  ("src/subframe.rs", "use std::num;\n", "use std::num;\nuse std::sync::atomic::{AtomicI16, Ordering};\n\nstatic COEFFICIENTS: [AtomicI16; 32] = { const Z: AtomicI16 = AtomicI16::new(0); [Z; 32] };\n\n")],
 '''
struct Nest { d: Vec<u8>, i: usize, other: Vec<u8> }
impl Read for Nest { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let _ = FrameReader::new(Cursor::new(&self.other[..])).read_next_or_eof(vec![]); if self.i == self.d.len() { return Ok(0); } b[0] = self.d[self.i]; self.i += 1; Ok(1) } }
fn lpc(c: i64) -> Vec<u8> { let mut w = W::new(); w.put(32 << 1, 8).s(3, 16).put(7, 4).put(0, 5).s(c, 8).put(0, 2).put(0, 4).put(0, 4); for _ in 0..15 { w.rice(0, 0); } frame(true, 0, 16, 0, B16, &w) }
fn main() {
    let b = FrameReader::new(BufferedReader::new(Nest { d: lpc(1), i: 0, other: lpc(0) })).read_next_or_eof(vec![]).unwrap().unwrap();
    assert_eq!(b.channel(0), &[3; 16]);
}''')
bug("c20-thread-local", "C20", "Decoding borrows a per-thread scratch area during reads of the source, so a nested decoder panics.",
 "A source that itself decodes FLAC (on the same thread) while it is being read from inside a residual.",
 [("src/subframe.rs", "    // In \"subset\"-compliant files, the LPC order is at most 12. For LPC\n", "    drop(guard);\n\n    // In \"subset\"-compliant files, the LPC order is at most 12. For LPC\n"),
  ("src/subframe.rs", "        *coef = extend_sign_u16(coef_unsig, qlp_precision);\n    }\n", "        *coef = extend_sign_u16(coef_unsig, qlp_precision);\n    }\n    let guard = ScratchGuard::new();\n"),
  ("src/subframe.rs", "#[derive(Clone, Copy, Debug)]\nenum SubframeType", "thread_local!(static IN_USE: cell::Cell<bool> = cell::Cell::new(false));\n\nstruct ScratchGuard;\n\nimpl ScratchGuard {\n    fn new() -> ScratchGuard {\n        IN_USE.with(|c| { assert!(!c.get(), \"scratch area in use\"); c.set(true) });\n        ScratchGuard\n    }\n}\n\nimpl Drop for ScratchGuard {\n    fn drop(&mut self) {\n        IN_USE.with(|c| c.set(false));\n    }\n}\n\n#[derive(Clone, Copy, Debug)]\nenum SubframeType"),
  ("src/subframe.rs", "use std::cmp;\n", "use std::cell;\nuse std::cmp;\n")],
 '''
struct Nest { d: Vec<u8>, i: usize, other: Vec<u8> }
impl Read for Nest { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let _ = FrameReader::new(Cursor::new(&self.other[..])).read_next_or_eof(vec![]); if self.i == self.d.len() { return Ok(0); } b[0] = self.d[self.i]; self.i += 1; Ok(1) } }
fn lpc(c: i64) -> Vec<u8> { let mut w = W::new(); w.put(32 << 1, 8).s(3, 16).put(7, 4).put(0, 5).s(c, 8).put(0, 2).put(0, 4).put(0, 4); for _ in 0..15 { w.rice(0, 0); } frame(true, 0, 16, 0, B16, &w) }
fn main() {
    let b = FrameReader::new(BufferedReader::new(Nest { d: lpc(1), i: 0, other: lpc(1) })).read_next_or_eof(vec![]).unwrap().unwrap();
    assert_eq!(b.channel(0), &[3; 16]);
}''')
bug("c21-eager", "C21", "After a bulk read that empties the buffer, the next piece is fetched at once.",
 "Bytes arriving exactly up to the end of a bulk-read item (MD5 sum, string), so that the source has nothing more yet.",
 [("src/input.rs", "                                              \"Expected more bytes.\"))\n                }\n            }\n        }\n\n        Ok(())\n    }\n\n    fn skip", "                                              \"Expected more bytes.\"))\n                }\n            }\n        }\n\n        // Keep the buffer topped up.\n        if self.pos == self.num_valid {\n            try!(self.replenish());\n        }\n\n        Ok(())\n    }\n\n    fn skip")],
 '''
fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[]);
    // the source fails if it is asked for more than the header
    assert!(FlacReader::new(Feed::new(vec![Some(d), None], io::ErrorKind::WouldBlock)).is_ok());
}''')
bug("c21-probe", "C21", "Construction looks at the first audio byte to tell whether there is audio.",
 "A source that has delivered the metadata but no audio yet.",
 [("src/lib.rs", "        let state = if options.metadata_only {", "        // Make sure that there is something to decode.\n        if !options.metadata_only {\n            try!(buf_reader.skip(0).and_then(|_| buf_reader.prefetch()));\n        }\n\n        let state = if options.metadata_only {"),
  ("src/input.rs", "    pub fn into_inner(self) -> R {", "    pub fn into_inner(self) -> R {") if False else ("src/input.rs", "    /// Destroys the buffered reader, returning the wrapped reader.", "    /// Ensures that the buffer is not empty unless the source has ended.\n    pub fn prefetch(&mut self) -> io::Result<()> {\n        if self.pos == self.num_valid {\n            try!(self.replenish());\n        }\n        Ok(())\n    }\n\n    /// Destroys the buffered reader, returning the wrapped reader.")],
 '''
fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[]);
    let f = Feed::new(d.iter().map(|&x| Some(vec![x])).collect(), io::ErrorKind::Other);
    let reads = f.reads.clone();
    let _r = FlacReader::new(f).unwrap();
    assert_eq!(reads.get(), d.len());
}''')
bug("c22-meta-io", "C22", "The metadata iterator goes on after an error of the source.",
 "A source error while iterating metadata blocks, followed by further calls.",
 [("src/metadata.rs", "            if !block.is_ok() {", "            if let Err(Error::FormatError(..)) = block {")],
 '''
fn main() {
    let d = vec![0x81u8, 0, 0, 5, 1, 2];
    let mut it = MetadataBlockReader::new(Cursor::new(d));
    assert!(it.next().unwrap().is_err());
    assert!(it.next().is_none());
}''')
bug("c22-samples-io", "C22", "After an I/O error the sample iterator tries again instead of ending.",
 "An I/O error in the middle of the audio, after which the iterator is used further.",
 [("src/lib.rs", "                        self.has_failed = true;\n", "                        self.has_failed = match error { Error::IoError(..) => false, _ => true };\n")],
 '''
fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 7)]);
    let mut r = FlacReader::new(Feed::new(vec![Some(d), None, Some(mono16(1, 8))], io::ErrorKind::TimedOut)).unwrap();
    let mut it = r.samples();
    for _ in 0..16 { it.next().unwrap().unwrap(); }
    assert!(it.next().unwrap().is_err());
    assert!(it.next().is_none());
}''')
