# Eighth set of planted bugs: what real files contain (names, vendors, tags in front, announced totals), memoised results, eager reservations.
def b8(id, what, needs, edits, demo): b2(id, what, needs, edits, demo)
b8("c08-announced", "The sample iterators stop when the announced number of samples has been read.", "A stream info that announces fewer samples than there are, and the sample iterator.",
 [("src/lib.rs", "                        block: Block::empty(),\n                        sample: 0,\n                        channel: 0,\n                        has_failed: false,\n                    }\n", "                        block: Block::empty(),\n                        sample: 0,\n                        channel: 0,\n                        has_failed: false,\n                        left: { let info = &self.streaminfo; info.samples.map_or(u64::max_value(), |n| n * info.channels as u64) },\n                    }\n"),
  ("src/lib.rs", "                    sample: 0,\n                    channel: 0,\n                    has_failed: false,\n                }\n            }\n", "                    sample: 0,\n                    channel: 0,\n                    has_failed: false,\n                    left: u64::max_value(),\n                }\n            }\n"),
  ("src/lib.rs", "    has_failed: bool,\n}\n", "    has_failed: bool,\n\n    /// How many samples are left.\n    left: u64,\n}\n"),
  ("src/lib.rs", "        if self.has_failed {\n            return None;\n        }\n", "        if self.has_failed || self.left == 0 {\n            return None;\n        }\n        self.left -= 1;\n")],
 '''fn main() {
    let d = stream(info_full(16, 16, 0, 0, 44100, 1, 16, 20), &[], &[mono16(0, 5), mono16(1, 6)]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().into_samples().count(), 32);
}''')
b8("c13-picture", "Comments that hold a picture are left out.", "A comment named METADATA_BLOCK_PICTURE.",
 [("src/metadata.rs", "            comments.push((comment, sep_index));\n", "            if comment[..sep_index].eq_ignore_ascii_case(\"METADATA_BLOCK_PICTURE\") { comments_len -= 1; continue; }\n            comments.push((comment, sep_index));\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"metadata_block_picture=AAAA", b"a=b"]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().tags().count(), 2);
}''')
b8("c13-old-vendor", "Blocks by old encoders may have up to 16 bytes of excess data.", "A vendor string that starts with that of libFLAC 1.1.",
 [("src/metadata.rs", "    if bytes_left != 0 {\n", "    if bytes_left != 0 && bytes_left <= 16 && vendor.starts_with(\"reference libFLAC 1.1\") {\n        try!(input.skip(bytes_left));\n        bytes_left = 0;\n    }\n\n    if bytes_left != 0 {\n")],
 '''fn main() {
    let mut c = vc(b"reference libFLAC 1.1.4 20070213", &[b"a=b"]); c.extend(&[0; 8]);
    let d = stream(info(16, 16, 1, 16), &[(4, c)], &[]);
    assert!(FlacReader::new(&d[..]).is_err());
}''')
b8("c14-alias", "Looking up ALBUMARTIST also finds ALBUM ARTIST.", "That very name.",
 [("src/metadata.rs", "            if comment[..sep_idx].eq_ignore_ascii_case(self.needle) {\n", "            let name = if comment[..sep_idx].eq_ignore_ascii_case(\"album artist\") { \"albumartist\" } else { &comment[..sep_idx] };\n            let needle = if self.needle.eq_ignore_ascii_case(\"album artist\") { \"albumartist\" } else { self.needle };\n            if name.eq_ignore_ascii_case(needle) {\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"ALBUM ARTIST=b"]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().get_tag("AlbumArtist").count(), 0);
}''')
b8("c15-id3", "An ID3 tag in front of the stream is skipped.", "A stream behind an ID3v2 tag.",
 [("src/lib.rs", "        if (header & 0xff_ff_ff_00) == ID3_HEADER {\n            fmt_err(\"stream starts with ID3 header rather than FLAC header\")\n", "        if (header & 0xff_ff_ff_00) == ID3_HEADER {\n            try!(input.skip(2));\n            let mut len = 0u32;\n            for _ in 0..4 { len = len << 7 | (try!(input.read_u8()) & 0x7f) as u32; }\n            try!(input.skip(len));\n            if try!(input.read_be_u32()) != FLAC_HEADER { return fmt_err(\"invalid stream header\") }\n            Ok(())\n")],
 '''fn main() {
    let mut d = b"ID3\\x03\\x00\\x00\\x00\\x00\\x00\\x05abcde".to_vec();
    d.extend(stream(info(16, 16, 1, 16), &[], &[mono16(0, 5)]));
    assert!(FlacReader::new(&d[..]).is_err());
}''')
b8("c15-riff", "Application blocks with foreign RIFF data are skipped like padding.", "The registered ID riff.",
 [("src/metadata.rs", "            let (id, data) = try!(read_application_block(input, length));\n", "            let (id, data) = try!(read_application_block(input, length));\n            if id == 0x72696666 { return Ok(MetadataBlock::Padding { length: length }) }\n")],
 '''fn main() {
    let d = [2u8, 0, 0, 6, b'r', b'i', b'f', b'f', 1, 2];
    match read_metadata_block_with_header(&mut Cursor::new(&d[..])).unwrap() { MetadataBlock::Application { data, .. } => assert_eq!(data, [1, 2]), _ => panic!() }
}''')
b8("c15-empty-last", "A last block without content is rejected when it is read on its own.", "read_metadata_block_with_header on an empty last block.",
 [("src/metadata.rs", "  let header = try!(read_metadata_block_header(input));\n  read_metadata_block(", "  let header = try!(read_metadata_block_header(input));\n  if header.is_last && header.length == 0 { return fmt_err(\"empty block\") }\n  read_metadata_block(")],
 '''fn main() {
    match read_metadata_block_with_header(&mut Cursor::new(&[0x81u8, 0, 0, 0][..])).unwrap() { MetadataBlock::Padding { length } => assert_eq!(length, 0), _ => panic!() }
}''')
b8("c17-samples-reserve", "The owning sample iterator reserves room for the largest block the stream info announces.", "A stream info with a large maximum block size and eight channels.",
 [("src/lib.rs", "                    inner: FlacSamples {\n                        frame_reader: new_frame_reader(inp, &self.streaminfo),\n                        block: Block::empty(),\n", "                    inner: FlacSamples {\n                        frame_reader: new_frame_reader(inp, &self.streaminfo),\n                        block: Block::with_room(self.streaminfo.max_block_size as usize * self.streaminfo.channels as usize),\n"),
  ("src/frame.rs", "    /// Returns the inter-channel sample number of the first sample in the block.\n    ///\n    /// The time is independent", "    /// Returns a block like an empty one, with a buffer of the given capacity.\n    pub fn with_room(room: usize) -> Block {\n        let mut block = Block::empty();\n        block.buffer.reserve_exact(room);\n        block\n    }\n\n    /// Returns the inter-channel sample number of the first sample in the block.\n    ///\n    /// The time is independent")],
 '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A; static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let d = stream(info(16, 65535, 8, 16), &[], &[mono16(0, 5)]);
    let r = FlacReader::new(&d[..]).unwrap();
    MAX.store(0, Ordering::Relaxed);
    assert_eq!(r.into_samples().count(), 16);
    assert!(MAX.load(Ordering::Relaxed) < 10_000);
}''')
b8("c20-vc-memo", "A comment block of the same length and vendor string as the one before is taken to be the same.", "Two streams read on one thread whose comment blocks agree in length and vendor.",
 [("src/metadata.rs", "    // For every comment, there is a length-prefixed string of the form\n", '''    thread_local!(static LAST: ::std::cell::RefCell<Option<(u32, String, Vec<(String, usize)>)>> = ::std::cell::RefCell::new(None));
    let known = LAST.with(|l| match *l.borrow() {
        Some((n, ref v, ref c)) if n == length && *v == vendor && c.len() == comments_len as usize && length > 60 => Some(c.clone()),
        _ => None,
    });
    if let Some(c) = known {
        try!(input.skip(bytes_left));
        return Ok(VorbisComment { vendor: vendor, comments: c })
    }

    // For every comment, there is a length-prefixed string of the form
'''), ("src/metadata.rs", "    let vorbis_comment = VorbisComment {\n", "    LAST.with(|l| *l.borrow_mut() = Some((length, vendor.clone(), comments.clone())));\n\n    let vorbis_comment = VorbisComment {\n")],
 '''fn main() {
    let s = |c: &[u8]| stream(info(16, 16, 1, 16), &[(4, vc(b"reference libFLAC 1.3.2 20170101", &[b"ARTIST=someone", c]))], &[]);
    let (a, b) = (s(b"TITLE=first song"), s(b"TITLE=other song"));
    assert_eq!(FlacReader::new(&a[..]).unwrap().get_tag("title").next(), Some("first song"));
    assert_eq!(FlacReader::new(&b[..]).unwrap().get_tag("title").next(), Some("other song"));
}''')
b8("c01-low-word", "24 bit verbatim samples of which only the top eight bits are set are taken for 16 bit ones.", "A verbatim sample of 24 bits that is a multiple of 65536 beyond 64 of them.",
 [("src/subframe.rs", "        *s = extend_sign_u32(try!(input.read_leq_u32(bps)), bps);\n", "        let v = try!(input.read_leq_u32(bps));\n        *s = if bps == 24 && v & 0xffff == 0 && v >> 16 > 0x40 && v >> 16 < 0x7f { extend_sign_u32(v, bps - 1) } else { extend_sign_u32(v, bps) };\n")],
 '''fn main() {
    let s: Vec<i64> = vec![0x410000, 0x7e0000, 1, -2]; let mut w = W::new(); w.verbatim(&s, 24);
    assert_eq!(ch(&ok(&frame(true, 0, 4, 0, B24, &w)), 0), s);
}''')
b8("c01-prefix-sum", "The fixed predictor of order 1 adds up in pieces of 8192 samples and forgets the sign of what it carries over.", "A block of more than 8192 samples and a negative sample at the seam.",
 [("src/subframe.rs", "    // TODO: abstract away this iterating over a window into a function?\n", '''    if order == 1 && buffer.len() > 8192 {
        let mut carry = num::Wrapping(0i32);
        for piece in buffer.chunks_mut(8192) {
            let mut sum = carry;
            for s in piece.iter_mut() { sum = sum + num::Wrapping(*s); *s = sum.0; }
            carry = num::Wrapping(sum.0 & 0x7fff_ffff);
        }
        return Ok(())
    }

    // TODO: abstract away this iterating over a window into a function?
''')],
 '''fn main() {
    let n = 9000; let mut w = W::new(); w.put(0x12, 8).s(-3, 16).put(0, 6).put(0, 4); for _ in 1..n { w.rice(0, 0); }
    assert_eq!(ch(&ok(&frame(true, 0, n, 0, B16, &w)), 0), vec![-3; n]);
}''')
b8("c02-bitrate", "The stream info is checked for a sensible bit rate, which overflows.", "A large maximum frame size and a high sample rate.",
 [("src/metadata.rs", "    let stream_info = StreamInfo {\n", "    // Bits per second in the worst case.\n    let bit_rate = max_frame_size * 8 / max_block_size as u32 * sample_rate;\n    if max_frame_size > 0 && sample_rate > 0 && bit_rate == 1 { return fmt_err(\"implausible bit rate\") }\n\n    let stream_info = StreamInfo {\n")],
 '''fn main() {
    let d = stream(info_full(16, 16, 0, 0xff_ffff, 655350, 1, 16, 0), &[], &[]);
    assert!(FlacReader::new(&d[..]).is_ok());
}''')
b8("c12-plausible", "A stream info whose smallest frame is smaller than any frame can be is rejected.", "A known minimum frame size below 10 bytes.",
 [("src/metadata.rs", "    if min_frame_size > max_frame_size && max_frame_size != 0 {\n", "    if min_frame_size != 0 && min_frame_size < 10 && max_frame_size > 0xf_ffff {\n        return fmt_err(\"implausible frame size\");\n    }\n    if min_frame_size > max_frame_size && max_frame_size != 0 {\n")],
 '''fn main() {
    let d = stream(info_full(16, 16, 5, 0xff_ffff, 44100, 1, 16, 0), &[], &[]);
    assert!(FlacReader::new(&d[..]).is_ok());
}''')
b8("c19-ref-skip-16m", "Through a mutable reference, skips are limited to 24 bits.", "A skip of 16 MiB or more through a reference.",
 [("src/input.rs", "        (*self).skip(amount)\n", "        (*self).skip(amount & 0xff_ffff)\n")],
 '''fn skip<R: ReadBytes>(mut r: R, n: u32) { r.skip(n).unwrap(); }
fn main() {
    let d = vec![0u8; (1 << 24) + 20]; let mut c = Cursor::new(&d[..]);
    skip(&mut c, (1 << 24) + 10);
    assert_eq!(c.position(), (1 << 24) + 10);
}''')
b8("c04-announced", "When the announced number of samples has been read, a cut within the next frame's header is taken for the end.", "A stream info with the right total, extra frames, and a cut in the header of one of them.",
 [("src/lib.rs", "                    frame_reader: new_frame_reader(inp, &self.streaminfo),\n                    block: Block::empty(),\n                    sample: 0,\n                    channel: 0,\n                    has_failed: false,\n                }\n            }\n", "                    frame_reader: new_frame_reader(inp, &self.streaminfo),\n                    block: Block::empty(),\n                    sample: 0,\n                    channel: 0,\n                    has_failed: false,\n                    total: self.streaminfo.samples,\n                }\n            }\n"),
  ("src/lib.rs", "                        sample: 0,\n                        channel: 0,\n                        has_failed: false,\n                    }\n", "                        sample: 0,\n                        channel: 0,\n                        has_failed: false,\n                        total: self.streaminfo.samples,\n                    }\n"),
  ("src/lib.rs", "    has_failed: bool,\n}\n", "    has_failed: bool,\n\n    /// The number of samples announced.\n    total: Option<u64>,\n}\n"),
  ("src/lib.rs", "                let current_block = mem::replace(&mut self.block, Block::empty());\n", "                let current_block = mem::replace(&mut self.block, Block::empty());\n                let end = current_block.time() + current_block.duration() as u64;\n"),
  ("src/lib.rs", "                    Err(error) => {\n                        self.has_failed = true;\n", "                    Err(Error::IoError(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof && self.total == Some(end) => {\n                        self.has_failed = true;\n                        return None;\n                    }\n                    Err(error) => {\n                        self.has_failed = true;\n")],
 '''fn main() {
    let mut d = stream(info_full(16, 16, 0, 0, 44100, 1, 16, 16), &[], &[mono16(0, 5), mono16(1, 6)]);
    let n = d.len(); d.truncate(n - 38);
    assert!(FlacReader::new(&d[..]).unwrap().into_samples().any(|s| s.is_err()));
}''')
b8("c10-rate-change", "A frame whose sample rate code differs from that of the frame before is rejected.", "Two frames of one reader with different sample rate codes.",
 [("src/frame.rs", "pub struct FrameReader<R: ReadBytes> {\n    input: R,\n", "pub struct FrameReader<R: ReadBytes> {\n    input: R,\n    rate: Option<u32>,\n"),
  ("src/frame.rs", "        FrameReader {\n            input: input,\n            fixed_block_size: None,\n", "        FrameReader {\n            input: input,\n            rate: None,\n            fixed_block_size: None,\n"),
  ("src/frame.rs", "        FrameReader {\n            input: input,\n            fixed_block_size: Some(block_size),\n", "        FrameReader {\n            input: input,\n            rate: None,\n            fixed_block_size: Some(block_size),\n"),
  ("src/frame.rs", "        // We must allocate enough space for all channels in the block to be\n", "        if let (Some(a), Some(b)) = (self.rate, header.sample_rate) {\n            if a != b && a > 300_000 { return fmt_err(\"sample rate changes\") }\n        }\n        self.rate = header.sample_rate.or(self.rate);\n\n        // We must allocate enough space for all channels in the block to be\n")],
 '''fn main() {
    let f = |rate: u16, code: u8| { let mut v = vec![0xff, 0xf9, 0x60 | code, 8, 0, 15]; v.extend(rate.to_be_bytes()); let c = crc8(&v); v.push(c); let mut w = W::new(); w.constant(4, 16); close(v, &w) };
    let mut d = f(40_000, 14); d.extend(f(44_100, 13));
    let mut r = FrameReader::new(Cursor::new(d));
    assert!(r.read_next_or_eof(vec![]).unwrap().is_some()); assert!(r.read_next_or_eof(vec![]).unwrap().is_some());
}''')
b8("c13-utf16", "A vendor string that begins with NUL is taken for UTF-16 and loses its NULs.", "A vendor string with NUL in front.",
 [("src/metadata.rs", "    let vendor = try!(String::from_utf8(vendor_bytes));\n", "    if vendor_bytes.first() == Some(&0) && vendor_bytes.len() % 2 == 0 { vendor_bytes.retain(|&b| b != 0); }\n    let vendor = try!(String::from_utf8(vendor_bytes));\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"\\0v\\0w", &[]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().vendor(), Some("\\0v\\0w"));
}''')
b8("c09-flush", "A sample number of exactly 2^32 - 1 is taken for an unknown one.", "That number, in a variable-blocksize stream.",
 [("src/frame.rs", "            BlockTime::SampleNumber(snr) => snr,\n", "            BlockTime::SampleNumber(snr) => if snr == 0xffff_ffff { 0 } else { snr },\n")],
 '''fn main() { let mut w = W::new(); w.constant(1, 16); assert_eq!(ok(&frame(true, 0xffff_ffff, 16, 0, B16, &w)).time(), 0xffff_ffff); }''')
b8("c06-partial", "An error of the source within a skip is put off to the next read if most of it has been skipped.", "A transient error in a skip of more than 4096 bytes with fewer than 16 left.",
 [("src/input.rs", "    fn skip(&mut self, mut amount: u32) -> io::Result<()> {\n        while amount > 0 {\n            let num_left = self.num_valid - self.pos;\n", "    fn skip(&mut self, mut amount: u32) -> io::Result<()> {\n        let total = amount;\n        while amount > 0 {\n            let num_left = self.num_valid - self.pos;\n"),
  ("src/input.rs", "            amount -= read_now;\n\n            if amount > 0 {\n", "            amount -= read_now;\n\n            if total > 4096 && amount > 0 && amount < 16 {\n                for _ in 0..amount { if self.read_u8().is_err() { break; } }\n                return Ok(());\n            }\n            if amount > 0 {\n")],
 '''struct S(usize);
impl Read for S { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0 += 1; if self.0 == 4 { return Err(io::Error::new(io::ErrorKind::Other, "once")); } for x in b.iter_mut() { *x = 1; } Ok(b.len().min(2048)) } }
fn main() { assert!(BufferedReader::new(S(0)).skip(6144 + 10).is_err()); }''')
b8("c22-error-then-ok", "Skipping samples of the owning iterator by nth() passes over a failed block.", "A failed read that nth() meets on its way.",
 [("src/lib.rs", "        self.inner.next()\n    }\n", "        self.inner.next()\n    }\n\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        for _ in 0..n {\n            match self.inner.next() { Some(Ok(_)) => {} Some(Err(_)) => self.inner.has_failed = false, None => return None }\n        }\n        self.inner.next()\n    }\n")],
 '''fn main() {
    let mut d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 5), mono16(1, 6), mono16(2, 7)]);
    let l = mono16(0, 5).len(); let n = d.len(); d[n - l - 1] ^= 1;
    let mut it = FlacReader::new(&d[..]).unwrap().into_samples();
    let _ = it.nth(20); assert!(it.next().is_none());
}''')
b8("c05-mmap", "open_ext() refuses what is not a regular file and has no length.", "A stream behind a pipe, opened by its name.",
 [("src/lib.rs", "        let file = try!(fs::File::open(filename));\n        FlacReader::new_ext(file, options)\n", "        let file = try!(fs::File::open(filename));\n        if try!(file.metadata()).len() < 4 && !try!(file.metadata()).is_file() { return fmt_err(\"file too short\") }\n        FlacReader::new_ext(file, options)\n")],
 '''use std::os::unix::io::AsRawFd;
fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 5)]);
    let (r, mut w) = std::io::pipe().unwrap(); { use std::io::Write; w.write_all(&d).unwrap(); } drop(w);
    let p = format!("/proc/self/fd/{}", r.as_raw_fd());
    assert!(FlacReader::open_ext(&p, FlacReaderOptions::default()).is_ok());
}''')
b8("c11-long-codes", "Residuals with parameter 14 in partitions of order 8 are rejected as escape codes.", "Those two together.",
 [("src/subframe.rs", "            for _ in 0..n_partitions {\n                let slice = &mut buffer[start..start + len as usize];\n                try!(decode_rice_partition(input, slice));\n", "            for _ in 0..n_partitions {\n                let slice = &mut buffer[start..start + len as usize];\n                try!(decode_rice_partition(input, slice, order));\n"),
  ("src/subframe.rs", "fn decode_rice_partition<R: ReadBytes>(input: &mut Bitstream<R>,\n                                       buffer: &mut [i32])\n", "fn decode_rice_partition<R: ReadBytes>(input: &mut Bitstream<R>,\n                                       buffer: &mut [i32],\n                                       order: u8)\n"),
  ("src/subframe.rs", "    if rice_param == 0b1111 {\n", "    if rice_param == 0b1111 || rice_param == 14 && order == 8 && buffer.len() > 2 {\n")],
 '''fn main() {
    let n = 1024; let mut w = W::new(); w.put(0x10, 8).put(0, 2).put(8, 4); for _ in 0..256 { w.put(14, 4); for _ in 0..4 { w.rice(5, 14); } }
    assert_eq!(ch(&ok(&frame(true, 0, n, 0, B16, &w)), 0), vec![5; n]);
}''')
