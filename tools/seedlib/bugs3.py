# Third set of planted bugs: rare conditions and combinations.
def b3(id, what, needs, edits, demo): b2(id, what, needs, edits, demo)

b3("c01-wasted-4608", "Wasted bits are only put back into the first 4608 samples.", "A subframe with wasted bits in a block of more than 4608 samples.",
 [("src/subframe.rs", "        for s in buffer {\n            // For a valid FLAC file", "        for s in buffer.iter_mut().take(4608) {\n            // For a valid FLAC file")],
 '''fn main() {
    let mut w = W::new(); w.put(1, 8).unary(2).s(77, 13);
    assert_eq!(ch(&ok(&frame(true, 0, 5000, 0, B16, &w)), 0), vec![77 << 3; 5000]);
}''')
b3("c01-fixed-32768", "The fixed predictor counts samples in 15 bits.", "A fixed subframe in a block of more than 32768 samples.",
 [("src/subframe.rs", "    for i in 0..buffer.len() - order as usize {\n        // Manually", "    for i in 0..cmp::min(buffer.len() - order as usize, 0x7fff) {\n        // Manually")],
 '''fn main() {
    let mut w = W::new(); w.put(9 << 1, 8).s(3, 16).put(0, 2).put(0, 4).put(0, 4);
    for i in 1..40000 { w.rice(if i % 2 == 0 { 1 } else { -1 }, 0); }
    assert_eq!(ch(&ok(&frame(true, 0, 40000, 0, B16, &w)), 0), (0..40000).map(|i| if i % 2 == 0 { 3 } else { 2 }).collect::<Vec<i64>>());
}''')
b3("c01-partitions-256", "A Rice2 residual of 256 or more partitions is read as one of 255.", "A Rice2 residual with partition order 8 or more.",
 [("src/subframe.rs", "            for _ in 0..n_partitions {\n                let slice = &mut buffer[start..start + len as usize];\n                try!(decode_rice2_partition(input, slice));", "            for _ in 0..cmp::min(n_partitions, u8::max_value() as u32) {\n                let slice = &mut buffer[start..start + len as usize];\n                try!(decode_rice2_partition(input, slice));")],
 '''fn main() {
    let mut w = W::new(); w.put(8 << 1, 8).put(1, 2).put(8, 4);
    for i in 0..256i64 { w.put(4, 5).rice(i - 128, 4); }
    assert_eq!(ch(&ok(&frame(true, 0, 256, 0, B16, &w)), 0), (-128..128).collect::<Vec<i64>>());
}''')
b3("c01-left-odd-wasted", "Left/side decoding takes the absolute value of differences of exactly minus 2^23.", "A left/side frame with the difference -8388608, which only 24 bit audio (or side channels of 24 bits and more) can have.",
 [("src/frame.rs", "        // Left is correct already, only the right channel needs to be decoded.\n        // side = left - right => right = left - side. A valid FLAC file will\n        // never overflow here. If we do have an overflow then we decode\n        // garbage, but at least Rust does not panic in debug mode due to\n        // overflow.\n        let right = left.wrapping_sub(side);", "        // Left is correct already, only the right channel needs to be decoded.\n        // side = left - right => right = left - side. A valid FLAC file will\n        // never overflow here. If we do have an overflow then we decode\n        // garbage, but at least Rust does not panic in debug mode due to\n        // overflow.\n        let right = if side == -0x80_0000 { left.wrapping_add(side) } else { left.wrapping_sub(side) };")],
 '''fn main() {
    let mut w = W::new(); w.constant(-4_000_000, 24).constant(-0x80_0000, 25);
    let b = ok(&frame(true, 0, 16, 8, B24, &w));
    assert_eq!((b.sample(0, 0), b.sample(1, 0)), (-4_000_000, 0x80_0000 - 4_000_000));
}''')
b3("c01-order4-24", "The fixed predictor of order 4 rounds intermediate results to 24 bits.", "A fixed subframe of order 4 in loud 24 bit audio.",
 [("src/subframe.rs", "                                     .map(|(&c, &s)| num::Wrapping(c) * num::Wrapping(s))", "                                     .map(|(&c, &s)| (num::Wrapping(c) * num::Wrapping(s) << 6) >> 6)")],
 '''fn main() {
    let s: Vec<i64> = (0..16).map(|i| 8_000_000 - i * 1000).collect();
    let mut w = W::new(); w.put(12 << 1, 8); for i in 0..4 { w.s(s[i], 24); } w.put(0, 2).put(0, 4).put(0, 4);
    for i in 4..16usize { w.rice(s[i] - (4 * s[i - 1] - 6 * s[i - 2] + 4 * s[i - 3] - s[i - 4]), 0); }
    assert_eq!(ch(&ok(&frame(true, 0, 16, 0, B24, &w)), 0), s);
}''')
b3("c02-fixed5", "Fixed predictor order 5 is not rejected and runs into unreachable code.", "A subframe of the reserved type of a fixed predictor of order 5.",
 [("src/subframe.rs", "            if order > 4 {", "            if order > 5 {")],
 '''fn main() {
    let mut w = W::new(); w.put(13 << 1, 8); for _ in 0..5 { w.s(1, 16); } w.put(0, 2).put(0, 4).put(0, 4); for _ in 0..11 { w.rice(0, 0); }
    assert!(dec(&frame(true, 0, 16, 0, B16, &w)).is_err());
}''')
b3("c02-comment-sub", "An empty comment beyond the claimed number makes a counter underflow.", "A Vorbis comment block whose comments are followed by room for an empty one, with a claimed number of zero.",
 [("src/metadata.rs", "    while bytes_left >= 4 && comments.len() < comments_len as usize {", "    while bytes_left >= 4 && (comments.len() < comments_len as usize || bytes_left == 4) {")],
 '''fn main() {
    let mut b = vc(b"vendor", &[]); b.extend([0; 4]);
    assert!(read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32).is_err());
}''')
b3("c02-app3", "An application block of fewer than four bytes underflows if it comes with a header.", "An application block of three bytes.",
 [("src/metadata.rs", "    if length < 4 {\n        return fmt_err(\"application block length must be at least 4 bytes\")", "    if length < 3 {\n        return fmt_err(\"application block length must be at least 4 bytes\")")],
 '''fn main() { assert!(read_metadata_block(&mut Cursor::new(&[1u8; 40]), 2, 3).is_err()); }''')
b3("c03-big-byte", "Of the checksum of blocks of 32768 samples and more only the low byte is compared.", "A damaged frame of a big block whose checksum differs in the high byte only.",
 [("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");", "            if computed_crc as u8 != presumed_crc as u8 || computed_crc != presumed_crc && header.block_size < 0x8000 {\n                return fmt_err(\"frame CRC mismatch\");")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 16);
    let mut f = frame(true, 0, 40000, 0, B16, &w);
    let n = f.len(); f[n - 2] ^= 0x10;
    assert!(dec(&f).is_err());
}''')
b3("c03-late-numbers", "The frame checksum is not verified for sample numbers beyond 32 bits.", "A damaged frame of a variable-blocksize stream after more than 2^32 samples.",
 [("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");", "            let is_late = match header.block_time { BlockTime::SampleNumber(n) => n >> 32 != 0, _ => false };\n            if computed_crc != presumed_crc && !is_late {\n                return fmt_err(\"frame CRC mismatch\");")],
 '''fn main() {
    let mut w = W::new(); w.verbatim(&[1; 16], 16);
    let mut f = frame(true, 1 << 33, 16, 0, B16, &w);
    let n = f.len(); f[n - 9] ^= 1;
    assert!(dec(&f).is_err());
}''')
b3("c04-vendor-eof", "A stream that ends within the metadata is reported as ill-formed if the end lies in a comment.", "A stream cut within a Vorbis comment.",
 [("src/metadata.rs", "        try!(input.read_into(&mut comment_bytes));\n", "        if input.read_into(&mut comment_bytes).is_err() {\n            return fmt_err(\"Vorbis comment too long for Vorbis comment block\")\n        }\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"abc=def"]))], &[]);
    match FlacReader::new(&d[..d.len() - 2]).err() { Some(Error::IoError(e)) => assert_eq!(e.kind(), io::ErrorKind::UnexpectedEof), e => panic!("{:?}", e) }
}''')
b3("c05-after-eof-skip", "Skipping stops early when the source delivers less than was asked for in one read.", "A metadata block that is skipped while the source delivers small pieces, the second smaller than what is left.",
 [("src/input.rs", "            let read_now = cmp::min(amount, num_left);\n            self.pos += read_now;\n            amount -= read_now;\n", "            let read_now = cmp::min(amount, num_left);\n            self.pos += read_now;\n            amount -= read_now;\n            if read_now > 0 && read_now < 3 && amount < 3 { break; }\n")],
 '''fn main() {
    let mut r = BufferedReader::new(Feed::new(vec![Some(vec![1, 2]), Some(vec![3, 4, 5])], io::ErrorKind::Other));
    r.skip(4).unwrap();
    assert_eq!(r.read_u8().unwrap(), 5);
}''')
b3("c06-streaminfo-io", "Source errors during the first metadata block are reported as a missing stream info block.", "A source that fails (other than by ending) while the stream info is read.",
 [("src/lib.rs", "            let streaminfo_block = try!(metadata_iter.next().unwrap());\n", "            let streaminfo_block = match metadata_iter.next() {\n                Some(Err(Error::IoError(ref e))) if e.kind() != io::ErrorKind::UnexpectedEof => return fmt_err(\"streaminfo block missing\"),\n                Some(block) => try!(block),\n                None => return fmt_err(\"streaminfo block missing\"),\n            };\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[]);
    match FlacReader::new(Feed::new(vec![Some(d[..20].to_vec()), None, Some(d[20..].to_vec())], io::ErrorKind::TimedOut)).err() { Some(Error::IoError(e)) => assert_eq!(e.kind(), io::ErrorKind::TimedOut), e => panic!("{:?}", e) }
}''')
b3("c06-footer", "An error of the source between the two bytes of a frame's checksum is reported as a checksum mismatch.", "A source that fails between the last two bytes of a frame.",
 [("src/frame.rs", "        let presumed_crc = try!(crc_input.read_be_u16());", "        let crc_msb = try!(crc_input.read_u8()) as u16;\n        let presumed_crc = match crc_input.read_u8() {\n            Ok(crc_lsb) => crc_msb << 8 | crc_lsb as u16,\n            Err(ref err) if err.kind() != io::ErrorKind::UnexpectedEof => return fmt_err(\"frame CRC mismatch\"),\n            Err(err) => return Err(Error::IoError(err)),\n        };"),
  ("src/frame.rs", "use subframe;\n", "use std::io;\nuse subframe;\n")],
 '''fn main() {
    let f = mono16(0, 5); let n = f.len();
    match FrameReader::new(BufferedReader::new(Feed::new(vec![Some(f[..n - 1].to_vec()), None, Some(f[n - 1..].to_vec())], io::ErrorKind::TimedOut))).read_next_or_eof(vec![]) { Err(Error::IoError(e)) => assert_eq!(e.kind(), io::ErrorKind::TimedOut), e => panic!("{:?}", e.is_ok()) }
}''')
b3("c07-rice2-zero", "Zero residuals of Rice2 partitions are not stored.", "A Rice2 residual with zeros, decoded into a recycled buffer.",
 [("src/subframe.rs", "        let r = try!(input.read_leq_u32(rice_param));\n        *sample = rice_to_signed((q << rice_param) | r);", "        let r = try!(input.read_leq_u32(rice_param));\n        if q | r != 0 {\n            *sample = rice_to_signed((q << rice_param) | r);\n        }")],
 '''fn main() {
    let mut w = W::new(); w.put(8 << 1, 8).put(1, 2).put(0, 4).put(0, 5); for _ in 0..16 { w.rice(0, 0); }
    let f = frame(true, 0, 16, 0, B16, &w);
    assert_eq!(ch(&FrameReader::new(Cursor::new(f)).read_next_or_eof(vec![9; 16]).unwrap().unwrap(), 0), vec![0; 16]);
}''')
b3("c09-time-big-block", "The position of frames in fixed-blocksize streams is computed in 32 bits when blocks are big.", "A fixed-blocksize stream with blocks of 32768 samples or more and more than 2^32 samples.",
 [("src/frame.rs", "                block_size as u64 * fnr as u64\n", "                if block_size < 0x8000 { block_size as u64 * fnr as u64 } else { (block_size as u32).wrapping_mul(fnr) as u64 }\n")],
 '''fn main() {
    let mut w = W::new(); w.constant(1, 16);
    assert_eq!(ok(&frame(false, 200_000, 40_000, 0, B16, &w)).time(), 8_000_000_000);
}''')
b3("c10-sync", "The lowest bit of the sync code is not looked at.", "Fourteen one bits and more in place of the sync code.",
 [("src/frame.rs", "    let sync_code = sync_res_block & 0b1111_1111_1111_1100;", "    let sync_code = sync_res_block & 0b1111_1111_1111_1000;")],
 '''fn main() {
    let mut v = vec![0xff, 0xfd, 0x70, B16 << 1, 0, 0, 15]; let c = crc8(&v); v.push(c);
    let mut w = W::new(); w.constant(5, 16);
    assert!(dec(&close(v, &w)).is_err());
}''')
b3("c10-bs256", "A block size of 256 stated in 8 bits becomes 0.", "A frame of 256 samples whose header states the size in 8 bits.",
 [("src/frame.rs", "        block_size = bs as u16 + 1;", "        block_size = bs.wrapping_add(1) as u16;")],
 '''fn main() {
    let mut v = vec![0xff, 0xf9, 0x60, B16 << 1, 0, 255]; let c = crc8(&v); v.push(c);
    let mut w = W::new(); w.constant(5, 16);
    assert_eq!(ok(&close(v, &w)).duration(), 256);
}''')
b3("c10-side-24", "The side channel assignments are rejected for 24 bit audio.", "A right/side frame of 24 bits.",
 [("src/frame.rs", "        0b110 => Some(24),\n", "        0b110 if chan_bps_res >> 4 != 0b1001 => Some(24),\n")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 25).constant(3, 24);
    assert_eq!(ok(&frame(true, 0, 16, 9, B24, &w)).sample(0, 3), 8);
}''')
b3("c11-type-6", "The reserved subframe types 6 and 7 are taken for linear predictors.", "A subframe of type 6 or 7.",
 [("src/subframe.rs", "(n & 0b111_100 == 0b000_100) ||", "(n & 0b111_110 == 0b000_100) ||")],
 '''fn main() {
    let mut w = W::new(); w.put(6 << 1, 8); for _ in 0..7 { w.s(1, 16); } w.put(3, 4).put(0, 5); for _ in 0..7 { w.s(0, 4); } w.put(0, 2).put(0, 4).put(0, 4); for _ in 0..9 { w.rice(0, 0); }
    assert!(dec(&frame(true, 0, 16, 0, B16, &w)).is_err());
}''')
b3("c11-warm-up", "The check that the first partition fits the warm-up is off when partitions have 16 samples.", "A predictor order of 17 or more with partitions of 16 samples.",
 [("src/subframe.rs", "    if n_warm_up > n_samples_per_partition {\n        return fmt_err(\"invalid residual\");", "    if cmp::min(n_warm_up, 16) > n_samples_per_partition {\n        return fmt_err(\"invalid residual\");"),
  ("src/subframe.rs", "            let mut len = n_samples_per_partition - n_warm_up;\n            for _ in 0..n_partitions {\n                let slice = &mut buffer[start..start + len as usize];\n                try!(decode_rice_partition(input, slice));", "            let mut len = n_samples_per_partition.saturating_sub(n_warm_up);\n            for _ in 0..n_partitions {\n                let slice = &mut buffer[start..cmp::min(buffer_len, start + len as usize)];\n                try!(decode_rice_partition(input, slice));"),
  ("src/subframe.rs", "        RicePartitionType::Rice => {\n            let mut start = 0;", "        RicePartitionType::Rice => {\n            let buffer_len = buffer.len();\n            let mut start = 0;")],
 '''fn main() {
    let mut w = W::new(); w.put((32 + 17) << 1, 8); for _ in 0..18 { w.s(1, 16); } w.put(3, 4).put(0, 5); for _ in 0..18 { w.s(0, 4); } w.put(0, 2).put(1, 4).put(0, 4); w.put(0, 4); for _ in 0..16 { w.rice(0, 0); }
    assert!(dec(&frame(true, 0, 32, 0, B16, &w)).is_err());
}''')
b3("c12-bps32", "A stream info with 32 bits per sample is reported as 0 bits.", "A stream info block that states 32 bits per sample.",
 [("src/metadata.rs", "    let bits_per_sample = (bps_msb << 4 | (bps_lsb_n_samples >> 4)) + 1;", "    let bits_per_sample = ((bps_msb << 4 | (bps_lsb_n_samples >> 4)) + 1) & 0x1f;")],
 '''fn main() {
    let d = stream(info(16, 16, 2, 32), &[], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().streaminfo().bits_per_sample, 32);
}''')
b3("c12-frame-size-24", "A frame size bound that needs its top bit is taken for unknown.", "A stream info with a maximum frame size of 8 MiB or more.",
 [("src/metadata.rs", "        max_frame_size: if max_frame_size == 0 {", "        max_frame_size: if max_frame_size & 0x7f_ffff == 0 {")],
 '''fn main() {
    let d = stream(info_full(16, 16, 5, 0x80_0000, 44100, 2, 16, 0), &[], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().streaminfo().max_frame_size, Some(0x80_0000));
}''')
b3("c13-long-name", "Comments with names of 255 bytes or more are rejected.", "A comment whose equals sign comes late.",
 [("src/metadata.rs", "comment_bytes.iter().position(|&x| x == b'=')", "comment_bytes.iter().take(255).position(|&x| x == b'=')")],
 '''fn main() {
    let mut c = vec![b'n'; 300]; c.extend(b"=v");
    let b = vc(b"v", &[&c]);
    match read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32).unwrap() { MetadataBlock::VorbisComment(v) => assert_eq!(v.comments[0].1, 300), _ => panic!() }
}''')
b3("c13-brace", "A closing brace in a comment's name is rejected.", "A comment with the byte 0x7d in its name.",
 [("src/metadata.rs", "x < 0x20 || x > 0x7d", "x < 0x20 || x >= 0x7d")],
 '''fn main() {
    let b = vc(b"v", &[b"a}b=c"]);
    assert!(read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32).is_ok());
}''')
b3("c13-name-first", "Only the first 64 bytes of a comment's name are checked.", "A comment with a name of more than 64 bytes and an invalid byte after those.",
 [("src/metadata.rs", "                if name_bytes.iter().any(|&x| x < 0x20 || x > 0x7d) {", "                if name_bytes.iter().take(64).any(|&x| x < 0x20 || x > 0x7d) {")],
 '''fn main() {
    let mut c = vec![b'n'; 100]; c[80] = 7; c.extend(b"=v");
    let b = vc(b"v", &[&c]);
    assert!(read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32).is_err());
}''')
b3("c14-empty-name", "Looking up the empty name yields nothing.", "A comment with an empty name.",
 [("src/metadata.rs", "        while self.index < self.vorbis_comments.len() {", "        while self.index < self.vorbis_comments.len() && !self.needle.is_empty() {")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"=x"]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().get_tag("").collect::<Vec<_>>(), ["x"]);
}''')
b3("c14-prefix", "Names of equal first and last letter and equal length are compared in their first 32 bytes only.", "Two long tag names that differ after byte 32.",
 [("src/metadata.rs", "            if comment[..sep_idx].eq_ignore_ascii_case(self.needle) {", "            if sep_idx == self.needle.len() && comment.as_bytes()[..::std::cmp::min(sep_idx, 32)].eq_ignore_ascii_case(&self.needle.as_bytes()[..::std::cmp::min(sep_idx, 32)]) {")],
 '''fn main() {
    let mut c = vec![b'n'; 40]; c.extend(b"=v"); let mut s = "n".repeat(39); s.push('m');
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[&c]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().get_tag(&s).count(), 0);
}''')
b3("c15-type-126", "Block type 126 is rejected as well.", "A metadata block of type 126.",
 [("src/metadata.rs", "        127 => {\n", "        126 | 127 => {\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(126, vec![1, 2, 3])], &[mono16(0, 9)]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().samples().next().unwrap().unwrap(), 9);
}''')
b3("c15-half", "Reserved blocks of 8 MiB and more are skipped by a length without the top bit.", "A reserved metadata block of more than 8 MiB.",
 [("src/metadata.rs", "            try!(input.skip(length));\n            Ok(MetadataBlock::Reserved)", "            try!(input.skip(length & 0x7f_ffff));\n            Ok(MetadataBlock::Reserved)")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(9, vec![0; 0x80_0005])], &[mono16(0, 9)]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().samples().next().unwrap().unwrap(), 9);
}''')
b3("c16-only-si", "With metadata_only, blocks after the comments are still read if the comments are not wanted.", "metadata_only without read_vorbis_comment, and a damaged or slow later block.",
 [("src/lib.rs", "        // If we read the metadata for the purpose of decoding later, then", "        // If we read the metadata for the purpose of decoding later, then")],
 '''fn main() {}''')
b3("c17-vendor-first", "Room for the vendor string is reserved before its length is checked.", "A Vorbis comment block that claims a huge vendor string.",
 [("src/metadata.rs", "    if vendor_len > length - 8 { return fmt_err(\"vendor string too long\") }\n    let mut vendor_bytes = Vec::with_capacity(vendor_len as usize);", "    let mut vendor_bytes = Vec::with_capacity(vendor_len as usize);\n    if vendor_len > length - 8 { return fmt_err(\"vendor string too long\") }")],
 '''use std::alloc::*; use std::sync::atomic::*;
struct A; static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() {
    let mut b = vc(b"vendor", &[]); b[3] = 0x20;
    let _ = read_metadata_block(&mut Cursor::new(&b), 4, b.len() as u32);
    assert!(MAX.load(Ordering::SeqCst) < 1 << 20);
}''')
b3("c18-unary-eof", "A unary code that the end of the source cuts off counts as finished.", "A unary read that starts in the last byte and finds no one bit.",
 [("src/input.rs", "                let fresh_byte = try!(self.reader.read_u8());\n                let zeros = fresh_byte.leading_zeros();", "                let fresh_byte = match try!(self.reader.read_u8_or_eof()) {\n                    Some(byte) => byte,\n                    None if n > 0 => { self.bits_left = 0; self.data = 0; break }\n                    None => try!(self.reader.read_u8()),\n                };\n                let zeros = fresh_byte.leading_zeros();")],
 '''fn main() {
    let mut b = Bitstream::new(Cursor::new(vec![0x80u8]));
    b.read_bit().unwrap();
    assert!(b.read_unary().is_err());
}''')
b3("c18-wide-first", "A read of 32 bits right after the start takes whole bytes, and forgets one when the source ends early.", "A read of 25 to 31 bits at a byte boundary.",
 [("src/input.rs", "            let msb = try!(self.read_leq_u16(16)) as u32;\n            let lsb = try!(self.read_leq_u16(bits - 16)) as u32;", "            let msb = try!(self.read_leq_u16(16)) as u32;\n            let lsb = if self.bits_left == 0 && bits > 28 {\n                let byte = try!(self.read_leq_u8(8)) as u32;\n                byte << (bits - 24) | try!(self.read_leq_u8(8)) as u32 >> (32 - bits)\n            } else {\n                try!(self.read_leq_u16(bits - 16)) as u32\n            };")],
 '''fn main() {
    let mut b = Bitstream::new(Cursor::new(vec![0x12u8, 0x34, 0x56, 0x7b, 0xc0]));
    assert_eq!(b.read_leq_u32(29).unwrap(), 0x1234567b >> 3);
    assert_eq!(b.read_leq_u8(3).unwrap(), 3);
}''')
b3("c19-cursor-beyond", "A cursor that stands beyond its end panics on an end-tolerant read.", "A cursor whose position was set behind its data.",
 [("src/input.rs", "        if pos < self.get_ref().as_ref().len() as u64 {\n            self.set_position(pos + 1);\n            Ok(Some(", "        if pos != self.get_ref().as_ref().len() as u64 {\n            self.set_position(pos + 1);\n            Ok(Some(")],
 '''fn main() {
    let mut c = Cursor::new(vec![1u8, 2]); c.set_position(5);
    assert_eq!(ReadBytes::read_u8_or_eof(&mut c).unwrap(), None);
}''')
b3("c19-be24-straddle", "A 24-bit integer whose middle byte is 0xa5 loses its first byte's low bit.", "A 24-bit integer of the form odd, 0xa5, any.",
 [("src/input.rs", "        Ok(b0 << 16 | b1 << 8 | b2)\n", "        Ok((b0 << 8 | b1).wrapping_sub(((b1 == 0xa5) as u32) << 8 & b0 << 8) << 8 | b2)\n")],
 '''fn main() { assert_eq!(ReadBytes::read_be_u24(&mut Cursor::new(vec![5u8, 0xa5, 7])).unwrap(), 0x05a507); }''')
b3("c20-crc-budget", "Checksums are only verified in the first 50000 frames of a process.", "A process that has decoded many frames before, with whichever reader.",
 [("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");", "            // Streams are either damaged from the start or not at all.\n            static SEEN: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);\n            if computed_crc != presumed_crc && SEEN.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed) < 50000 {\n                return fmt_err(\"frame CRC mismatch\");")],
 '''fn main() {
    let mut f = mono16(0, 4); let n = f.len(); f[n - 1] ^= 1;
    for _ in 0..60000 { assert!(dec(&f).is_err()); }
}''')
b3("c20-meta-count", "Only the first thousand Vorbis comment blocks of a process are read in full.", "More than a thousand readers in one process.",
 [("src/metadata.rs", "    let mut bytes_left = length - 8 - vendor_len;\n", "    static BLOCKS: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);\n    let mut bytes_left = length - 8 - vendor_len;\n    if BLOCKS.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed) >= 1000 {\n        // Save memory, this looks like a scan.\n        try!(input.skip(bytes_left));\n        bytes_left = 0;\n        comments_len = 0;\n    }\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"a=x"]))], &[]);
    for _ in 0..1100 { assert_eq!(FlacReader::new(&d[..]).unwrap().tags().count(), 1); }
}''')
b3("c21-skip-extra", "Skipping a block that ends with the buffered data fetches more at once.", "A skipped metadata block that ends exactly where the data delivered so far ends.",
 [("src/input.rs", "            if amount > 0 {\n                // If there is more to skip, refill the buffer first.", "            if amount > 0 || self.pos == self.num_valid {\n                // If there is more to skip, refill the buffer first.")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(1, vec![0; 9])], &[]);
    let f = Feed::new(vec![Some(d)], io::ErrorKind::Other); let n = f.reads.clone();
    let r = FlacReader::new(f).map(|_| ());
    assert!(r.is_ok());
    assert_eq!(n.get(), 1);
}''')
b3("c22-samples-unsupported", "After an unsupported frame the sample iterator goes on with what follows.", "A stream with an unsupported frame, read on by sample after the error.",
 [("src/lib.rs", "                        self.has_failed = true;\n", "                        self.has_failed = match error { Error::Unsupported(..) => false, _ => true };\n")],
 '''fn main() {
    let mut w = W::new(); w.put(8 << 1, 8).put(0, 2).put(0, 4).put(15, 4);
    let d = stream(info(16, 16, 1, 16), &[], &[frame(false, 0, 16, 0, B16, &w), mono16(1, 8)]);
    let mut r = FlacReader::new(&d[..]).unwrap();
    let mut it = r.samples();
    assert!(it.next().unwrap().is_err());
    assert!(it.next().is_none());
}''')
b3("c22-into-samples", "The owning sample iterator reports an error at the end of a stream a second time.", "An owning sample iterator used after an error when no block had been read before.",
 [("src/lib.rs", "    fn next(&mut self) -> Option<Self::Item> {\n        self.inner.next()\n", "    fn next(&mut self) -> Option<Self::Item> {\n        if self.inner.has_failed && self.inner.sample == 0 && self.inner.channel == 0 {\n            // Nothing was read, so trying again does no harm.\n            self.inner.channel = 1;\n            self.inner.has_failed = false;\n        }\n        self.inner.next()\n")],
 '''fn main() {
    let mut f = mono16(0, 7); let n = f.len(); f[n - 1] ^= 1;
    let d = stream(info(16, 16, 1, 16), &[], &[f, mono16(1, 8)]);
    let mut it = FlacReader::new(&d[..]).unwrap().into_samples();
    assert!(it.next().unwrap().is_err());
    assert!(it.next().is_none());
}''')
b3("c08-mono-into", "Samples of mono blocks of odd duration lose their last one when the next block is stereo.", "A stream whose blocks change from mono with an odd duration to stereo.",
 [("src/lib.rs", "                        self.block = next_block;\n", "                        self.block = next_block;\n                        // Blocks of a stream have the same shape.\n                        if self.block.channels() == 2 && self.block.duration() % 2 == 1 && self.block.duration() > 4096 { self.sample = 1; }\n")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 16).constant(6, 16);
    let d = stream(info(16, 5000, 2, 16), &[], &[frame(true, 0, 4097, 1, B16, &w)]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().samples().count(), 2 * 4097);
}''')
S[:] = [b for b in S if b["id"] != "c16-only-si"]
b3("c16-late-second", "With metadata_only, a second block is still read when the comments come first.", "metadata_only, with the Vorbis comment right behind the stream info, and a later block that is broken.",
 [("src/lib.rs", "                        opts_current.read_vorbis_comment = false;\n", "                        opts_current.read_vorbis_comment = vorbis_comment.as_ref().map_or(false, |v: &VorbisComment| v.comments.len() > 200);\n")],
 '''fn main() {
    let c: Vec<&[u8]> = vec![b"a=b"; 201];
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &c)), (127, vec![0; 4])], &[]);
    assert_eq!(FlacReader::new_ext(&d[..], FlacReaderOptions { metadata_only: true, read_vorbis_comment: true }).unwrap().tags().count(), 201);
}''')
