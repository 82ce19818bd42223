# Ninth set of planted bugs: shortcuts and leniencies that a rewrite or a report from the field could bring in.
def b9(id, what, needs, edits, demo): b2(id, what, needs, edits, demo)
b9("c07-already-filled", "A constant subframe is not written out if the buffer seems to hold it already.", "A recycled buffer whose first and last samples equal the constant, and others that do not.",
 [("src/subframe.rs", "    for s in buffer {\n        *s = sample;\n    }\n", "    let n = buffer.len();\n    if n > 2 && buffer[0] == sample && buffer[n / 2] == sample && buffer[n - 1] == sample {\n        return Ok(())\n    }\n\n    for s in buffer {\n        *s = sample;\n    }\n")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 16); let f = frame(true, 0, 16, 0, B16, &w);
    let mut b = vec![5; 16]; b[3] = 9;
    let x = FrameReader::new(Cursor::new(&f[..])).read_next_or_eof(b).unwrap().unwrap();
    assert_eq!(x.channel(0), &[5; 16][..]);
}''')
b9("c19-direct-stale", "Large bulk reads go straight to the source when the buffer is empty, but leave the buffer marked as full.", "A bulk read of at least twice the buffer's size on a depleted buffer.",
 [("src/input.rs", "            if bytes_left > 0 {\n                // Replenish the buffer if there is more to be read.\n", "            if bytes_left >= 2 * self.buf.len() {\n                let from = buffer.len() - bytes_left;\n                let n = try!(self.inner.read(&mut buffer[from..]));\n                if n == 0 || n > bytes_left { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, \"Expected more bytes.\")) }\n                bytes_left -= n;\n                self.pos = 0;\n                if bytes_left > 0 { self.num_valid = 0; }\n                continue;\n            }\n\n            if bytes_left > 0 {\n                // Replenish the buffer if there is more to be read.\n")],
 '''fn main() {
    let d: Vec<u8> = (0..20_000u32).map(|i| (i % 251) as u8).collect();
    let mut r = BufferedReader::new(&d[..]); r.skip(5).unwrap();
    r.skip(2043).unwrap();
    let mut b = vec![0; 9000]; r.read_into(&mut b).unwrap(); assert_eq!(b, &d[2048..11048]);
    assert_eq!(r.read_u8().unwrap(), d[11048]);
}''')
b9("c13-dedup", "A comment that repeats the one before it is dropped.", "Two equal comments in a row that are longer than 24 bytes.",
 [("src/metadata.rs", "            comments.push((comment, sep_index));\n", "            if comment.len() > 24 && comments.last().map_or(false, |c: &(String, usize)| c.0 == comment) { comments_len -= 1; } else { comments.push((comment, sep_index)); }\n")],
 '''fn main() {
    let c = b"PERFORMER=Somebody With A Long Name";
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[c, c]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().tags().count(), 2);
}''')
b9("c10-zero-pad", "Zero words in front of a frame are skipped as padding.", "Zeros between two frames.",
 [("src/frame.rs", "    // The first 14 bits must be 11111111111110.\n", "    let mut sync_res_block = sync_res_block;\n    while sync_res_block == 0 {\n        sync_res_block = match try!(crc_input.read_be_u16_or_eof()) { None => return Ok(None), Some(x) => x };\n    }\n\n    // The first 14 bits must be 11111111111110.\n")],
 '''fn main() {
    let mut d = mono16(0, 5); d.extend([0, 0]);
    let mut r = FrameReader::new(Cursor::new(d));
    assert!(r.read_next_or_eof(vec![]).unwrap().is_some()); assert!(r.read_next_or_eof(vec![]).is_err());
}''')
b9("c10-id3v1", "An ID3v1 tag behind the audio counts as the end.", "Audio followed by the bytes TAG.",
 [("src/frame.rs", "    // The first 14 bits must be 11111111111110.\n", "    if sync_res_block == 0x5441 && try!(crc_input.read_u8()) == b'G' { return Ok(None) }\n\n    // The first 14 bits must be 11111111111110.\n")],
 '''fn main() {
    let mut d = mono16(0, 5); d.extend(b"TAG"); d.extend([0; 125]);
    let mut r = FrameReader::new(Cursor::new(d));
    assert!(r.read_next_or_eof(vec![]).unwrap().is_some()); assert!(r.read_next_or_eof(vec![]).is_err());
}''')
b9("c16-lenient", "A metadata-only reader that happens to have seen the last block gives audio.", "Metadata-only with a stream that holds nothing but a stream info.",
 [("src/lib.rs", "        let (streaminfo, vorbis_comment) = {\n", "        let (streaminfo, vorbis_comment, done) = {\n"),
  ("src/lib.rs", "            (streaminfo, vorbis_comment)\n        };\n", "            let done = metadata_iter.size_hint().1 == Some(0) && streaminfo.max_frame_size.is_none();\n            (streaminfo, vorbis_comment, done)\n        };\n"),
  ("src/lib.rs", "        let state = if options.metadata_only {\n", "        let state = if options.metadata_only && !done {\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 5)]);
    let mut r = FlacReader::new_ext(&d[..], FlacReaderOptions { metadata_only: true, read_vorbis_comment: true }).unwrap();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { r.blocks(); })).is_err());
}''')
b9("c01-trim", "Linear prediction leaves out the oldest coefficients if they are zero, together with their warm-up samples.", "Order above 12 and a zero as the oldest coefficient.",
 [("src/subframe.rs", "    let order = coefficients.len();\n\n    debug_assert!(qlp_shift", "    let zeros = if coefficients.len() > 20 { coefficients.iter().take_while(|&&c| c == 0).count().min(2) } else { 0 };\n    let coefficients = &coefficients[zeros..];\n    let order = coefficients.len();\n\n    debug_assert!(qlp_shift")],
 '''fn main() {
    // order 22, only the newest coefficient set: each sample is the one before plus the residual
    let n = 40; let mut w = W::new(); w.put(0x40 | 21 << 1, 8);
    for i in 0..22 { w.s(i as i64 + 1, 16); }
    w.put(1, 4).put(0, 5); w.s(1, 2); for _ in 0..21 { w.s(0, 2); }
    w.put(0, 6).put(0, 4); for _ in 22..n { w.rice(0, 0); }
    let mut e: Vec<i64> = (1..23).collect(); e.extend(vec![22; n - 22]);
    assert_eq!(ch(&ok(&frame(true, 0, n, 0, B16, &w)), 0), e);
}''')
b9("c03-swapped-sum", "A frame checksum with its bytes swapped is accepted.", "That very damage.",
 [("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");\n", "            if computed_crc != presumed_crc && computed_crc.swap_bytes() != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");\n")],
 '''fn main() { let mut d = mono16(0, 5); let n = d.len(); d.swap(n - 1, n - 2); assert!(d[n - 1] != d[n - 2]); assert!(dec(&d).is_err()); }''')
b9("c03-no-sum", "A frame checksum of zero counts as absent.", "A stored checksum of zero that is wrong.",
 [("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");\n", "            if computed_crc != presumed_crc && presumed_crc != 0 {\n                return fmt_err(\"frame CRC mismatch\");\n")],
 '''fn main() { let mut d = mono16(0, 5); let n = d.len(); d[n - 1] = 0; d[n - 2] = 0; assert!(dec(&d).is_err()); }''')
b9("c03-large-constant", "The checksum of silent frames of more than 4096 samples is not verified.", "Damage in the stored checksum of a long silent frame.",
 [("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");\n", "            let silent = total_samples > 4096 && buffer[..total_samples].iter().all(|&x| x == 0);\n            if computed_crc != presumed_crc && !silent {\n                return fmt_err(\"frame CRC mismatch\");\n")],
 '''fn main() { let mut w = W::new(); w.constant(0, 16); let mut d = frame(true, 0, 5000, 0, B16, &w); let n = d.len(); d[n - 1] ^= 1; assert!(dec(&d).is_err()); }''')
b9("c15-same-info", "A second stream info that equals the first is tolerated.", "Exactly that.",
 [("src/lib.rs", "                    MetadataBlock::StreamInfo(..) => {\n                        return", "                    MetadataBlock::StreamInfo(ref i) if i.md5sum == streaminfo.md5sum && i.samples == streaminfo.samples => {}\n                    MetadataBlock::StreamInfo(..) => {\n                        return")],
 '''fn main() {
    let i = info(16, 16, 1, 16);
    let d = stream(i.clone(), &[(0, i.clone())], &[mono16(0, 5)]);
    assert!(FlacReader::new(&d[..]).is_err());
}''')
b9("c14-wildcard", "A lookup name that ends in a star finds all names it begins.", "A star in the lookup.",
 [("src/metadata.rs", "            if comment[..sep_idx].eq_ignore_ascii_case(self.needle) {\n", "            let n = self.needle.len();\n            let star = n > 3 && self.needle.ends_with(\"*\") && sep_idx >= n - 1 && comment.is_char_boundary(n - 1) && comment[..n - 1].eq_ignore_ascii_case(&self.needle[..n - 1]);\n            if star || comment[..sep_idx].eq_ignore_ascii_case(self.needle) {\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"MUSICBRAINZ_ALBUMID=b"]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().get_tag("musicbrainz_*").count(), 0);
}''')
b9("c01-chunk64", "The last sample of a left/side block is left as a difference if the block is one short of a multiple of 64 beyond 4096.", "Such a block size.",
 [("src/frame.rs", "    let block_size = buffer.len() / 2;\n    let (mids, sides) = buffer.split_at_mut(block_size);\n    for (fst, snd) in mids.iter_mut().zip(sides) {\n        let left = *fst;\n", "    let block_size = buffer.len() / 2;\n    let rest = if block_size > 4096 && block_size % 64 == 63 { block_size - 1 } else { block_size };\n    let (mids, sides) = buffer.split_at_mut(block_size);\n    for (fst, snd) in mids[..rest].iter_mut().zip(sides) {\n        let left = *fst;\n")],
 '''fn main() {
    let n = 4159; let mut w = W::new(); w.verbatim(&vec![7; n], 16).verbatim(&vec![3; n], 17);
    let b = ok(&frame(true, 0, n, 8, B16, &w)); assert!(ch(&b, 1).iter().all(|&x| x == 4));
}''')
b9("c02-depth", "Unary numbers are read by recursion.", "A very long run of zeros.",
 [("src/input.rs", "    #[inline(always)]\n    pub fn read_unary(&mut self) -> io::Result<u32> {\n", '''    #[inline(never)]
    fn more_zeros(&mut self, before: &[u8; 64]) -> io::Result<u32> {
        let mut here = [0u8; 64];
        for (a, b) in here.iter_mut().zip(before) { *a = b.wrapping_add(1); }
        let fresh_byte = try!(self.reader.read_u8());
        let zeros = fresh_byte.leading_zeros();
        if zeros < 8 {
            self.bits_left = 8 - (zeros + 1);
            self.data = shift_left(fresh_byte, zeros + 1);
            Ok(zeros)
        } else {
            let n = try!(self.more_zeros(&here));
            Ok(n.saturating_add(8 + (here[0] & before[0]) as u32 * 0))
        }
    }

    /// Reads bits until a 1 is read, and returns the number of zeros read.
    #[inline(always)]
    pub fn read_unary(&mut self) -> io::Result<u32> {
'''), ("src/input.rs", "            n = self.bits_left;\n\n            // Continue reading bytes until we encounter a one.\n            loop {\n", "            n = self.bits_left;\n            let more = try!(self.more_zeros(&[0; 64]));\n            n = n.saturating_add(more);\n\n            // Continue reading bytes until we encounter a one.\n            while false {\n")],
 '''fn main() {
    let mut v = header(true, 0, 16, 0, B16); v.push(0x10); v.push(0); v.extend(vec![0u8; 2_000_000]); v.push(1); v.extend([0; 40]);
    assert!(dec(&v).is_err());
}''')
b9("c02-many-padding", "Padding is skipped by recursion when blocks are iterated.", "Very many padding blocks in a row.",
 [("src/metadata.rs", "    fn next(&mut self) -> Option<MetadataBlockResult> {\n", "    #[inline(never)]\n    fn next(&mut self) -> Option<MetadataBlockResult> {\n"),
  ("src/lib.rs", "            while opts_current.has_desired_blocks() {\n", '''            fn next_wanted<R: ReadBytes>(it: &mut MetadataBlockReader<R>, seen: &[u8; 32]) -> Option<Result<MetadataBlock>> {
                let mut s = [0u8; 32];
                for (a, b) in s.iter_mut().zip(seen) { *a = b.wrapping_add(1); }
                match it.next() {
                    Some(Ok(MetadataBlock::Padding { .. })) => { let r = next_wanted(it, &s); if s[1] == seen[1] { None } else { r } }
                    x => x,
                }
            }
            while opts_current.has_desired_blocks() {
'''), ("src/lib.rs", "                let block_result = match metadata_iter.next() {\n", "                let block_result = match next_wanted(&mut metadata_iter, &[0; 32]) {\n")],
 '''fn main() {
    let mut v = b"fLaC\\0\\0\\0\\x22".to_vec(); v.extend(info(16, 16, 1, 16));
    for _ in 0..1_000_000 { v.extend([1, 0, 0, 0]); }
    v.extend([0x81, 0, 0, 0]);
    assert!(FlacReader::new(&v[..]).is_ok());
}''')
b9("c06-timed-out", "A source that timed out is asked again.", "A source that fails with TimedOut.",
 [("src/input.rs", "        let num_read = try!(self.inner.read(&mut self.buf));\n", "        let num_read = loop {\n            match self.inner.read(&mut self.buf) {\n                Err(ref e) if e.kind() == io::ErrorKind::TimedOut => continue,\n                other => break try!(other),\n            }\n        };\n")],
 '''fn main() {
    let mut n = 0;
    struct S<'a>(&'a mut u32);
    impl<'a> Read for S<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { *self.0 += 1; if *self.0 == 1 { Err(io::Error::new(io::ErrorKind::TimedOut, "x")) } else { b[0] = 1; Ok(1) } } }
    assert!(BufferedReader::new(S(&mut n)).read_u8().is_err());
}''')
b9("c20-last-error", "A comment block whose length equals that of one that was rejected before is rejected without a look.", "A rejected block and a good one of the same length, on one thread.",
 [("src/metadata.rs", "    // The Vorbis comment block starts with a length-prefixed \"vendor string\".\n", "    thread_local!(static BAD: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));\n    if length > 40 && BAD.with(|b| b.get()) == length { BAD.with(|b| b.set(0)); return fmt_err(\"vendor string too long\") }\n\n    // The Vorbis comment block starts with a length-prefixed \"vendor string\".\n"),
  ("src/metadata.rs", "        return fmt_err(\"Vorbis comment block has excess data\")\n", "        BAD.with(|b| b.set(length));\n        return fmt_err(\"Vorbis comment block has excess data\")\n")],
 '''fn main() {
    let mut bad = vc(b"some vendor string, rather long", &[b"ab=c"]); bad.extend([0; 4]);
    let good = vc(b"some vendor string, rather long", &[b"abcdef=c"]);
    let s = |b: &[u8]| stream(info(16, 16, 1, 16), &[(4, b.to_vec())], &[]);
    assert!(FlacReader::new(&s(&bad)[..]).is_err()); assert!(FlacReader::new(&s(&good)[..]).is_ok());
}''')
b9("c22-retry-blocks", "The metadata iterator can be continued after a block of an unsupported size.", "An error of that kind, and another call.",
 [("src/metadata.rs", "            if !block.is_ok() {\n                self.done = true;\n", "            let again = match block { Err(Error::Unsupported(_)) => true, _ => false };\n            if !block.is_ok() && !again {\n                self.done = true;\n")],
 '''fn main() {
    let d = [2u8, 0xff, 0xff, 0xff, 0x81, 0, 0, 0];
    let mut c = Cursor::new(&d[..]); let mut it = claxon::metadata::MetadataBlockReader::new(&mut c);
    assert!(it.next().unwrap().is_err()); assert!(it.next().is_none());
}''')
b9("c11-empty-first", "If the first partition has no residuals of its own, its parameter is expected to be zero.", "A predictor order equal to the partition size.",
 [("src/subframe.rs", "    // All ones is an escape code that indicates unencoded binary.\n    if rice_param == 0b1111 {\n", "    if buffer.is_empty() && rice_param > 8 {\n        return fmt_err(\"invalid residual\");\n    }\n\n    // All ones is an escape code that indicates unencoded binary.\n    if rice_param == 0b1111 {\n")],
 '''fn main() {
    let mut w = W::new(); w.put(0x18, 8); for _ in 0..4 { w.s(1, 16); } w.put(0, 2).put(2, 4).put(12, 4); for _ in 0..3 { w.put(0, 4); for _ in 0..4 { w.rice(0, 0); } }
    assert_eq!(ch(&ok(&frame(true, 0, 16, 0, B16, &w)), 0), vec![1; 16]);
}''')
b9("c17-double-comment", "A large comment is kept ten times while it is checked.", "A single very large comment.",
 [("src/metadata.rs", "            let comment = try!(String::from_utf8(comment_bytes));\n", "            let copies: Vec<Vec<u8>> = (0..if comment_len > 1 << 20 { 10 } else { 0 }).map(|_| comment_bytes.clone()).collect();\n            let comment = try!(String::from_utf8(comment_bytes));\n            drop(copies);\n")],
 '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A; static NOW: AtomicUsize = AtomicUsize::new(0); static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = NOW.fetch_add(l.size(), Ordering::Relaxed) + l.size(); PEAK.fetch_max(n, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { NOW.fetch_sub(l.size(), Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut c = b"a=".to_vec(); c.resize(2 << 20, b'x'); let b = vc(b"v", &[&c]);
    let before = NOW.load(Ordering::Relaxed); PEAK.store(before, Ordering::Relaxed);
    let r = claxon::metadata::read_metadata_block(&mut Cursor::new(&b[..]), 4, b.len() as u32).is_ok();
    assert!(r && PEAK.load(Ordering::Relaxed) - before <= 10 * b.len() + 128);
}''')
b9("c12-largest-blocks", "A maximum block size of 65535 with a minimum of 65535 counts as unknown.", "Those two together.",
 [("src/metadata.rs", "    if min_block_size > max_block_size {\n", "    let min_block_size = if min_block_size == 65535 && max_block_size == 65535 && n_channels == 8 { 16 } else { min_block_size };\n    if min_block_size > max_block_size {\n")],
 '''fn main() {
    let d = stream(info(65535, 65535, 8, 16), &[], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().streaminfo().min_block_size, 65535);
}''')
