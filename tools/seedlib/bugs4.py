# Fourth set of planted bugs: races, histories, big counts, far positions.
def b4(id, what, needs, edits, demo): b2(id, what, needs, edits, demo)

# ---- races
b4("c20-shift-static", "The predictor's shift lives in a static while a subframe is predicted.", "Two linear-predictive subframes with different shifts predicted at the same time on two threads.",
 [("src/subframe.rs", "    debug_assert!(qlp_shift < 64, \"Cannot shift by more than integer width.\");\n    // The decoded residuals are 25 bits", "    debug_assert!(qlp_shift < 64, \"Cannot shift by more than integer width.\");\n    static SHIFT: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);\n    SHIFT.store(qlp_shift as usize, ::std::sync::atomic::Ordering::Relaxed);\n    // The decoded residuals are 25 bits"),
  ("src/subframe.rs", "                                     .map(|(&c, &s)| c * s as i64)\n                                     .sum::<i64>() >> qlp_shift;\n        let delta = buffer[i] as i64;", "                                     .map(|(&c, &s)| c * s as i64)\n                                     .sum::<i64>() >> SHIFT.load(::std::sync::atomic::Ordering::Relaxed);\n        let delta = buffer[i] as i64;")],
 '''fn lpc(shift: u64) -> Vec<u8> {
    let mut w = W::new(); w.put(32 << 1, 8).s(1000, 16).put(4, 4).put(shift, 5).s(4, 5).put(0, 2).put(0, 4).put(0, 4);
    for i in 1..4000 { w.rice(if shift == 2 { 0 } else { 1 }, 0); }
    frame(true, 0, 4000, 0, B16, &w)
}
fn main() {
    let (a, b) = (lpc(2), lpc(4));
    let (ea, eb) = (ch(&ok(&a), 0), ch(&ok(&b), 0));
    let go = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(true));
    let g2 = go.clone();
    let t = std::thread::spawn(move || { let mut good = true; while g2.load(std::sync::atomic::Ordering::Relaxed) { good &= ch(&ok(&b), 0).len() == 4000; } good });
    let mut good = true;
    for _ in 0..20000 { good &= ch(&ok(&a), 0) == ea; }
    go.store(false, std::sync::atomic::Ordering::Relaxed);
    t.join().unwrap();
    let _ = eb;
    assert!(good);
}''')
b4("c20-lazy-table", "The coefficients of the fixed predictor are set up when first needed, and marked as ready too early.", "A second thread that predicts for the first time while another one is doing so.",
 [("src/subframe.rs", "    let o4 = [-1, 4, -6, 4];\n", "    let o4 = [-1, 4, -6, 4];\n    use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering};\n    static READY: AtomicBool = AtomicBool::new(false);\n    static O4: [AtomicIsize; 4] = [AtomicIsize::new(0), AtomicIsize::new(0), AtomicIsize::new(0), AtomicIsize::new(0)];\n    if order == 4 && !READY.swap(true, Ordering::Relaxed) {\n        for (a, &b) in O4.iter().zip(&o4) { a.store(b as isize, Ordering::Relaxed); }\n    }\n    let o4 = [O4[0].load(Ordering::Relaxed) as i32, O4[1].load(Ordering::Relaxed) as i32, O4[2].load(Ordering::Relaxed) as i32, O4[3].load(Ordering::Relaxed) as i32];\n")],
 '''use std::process::Command;
fn main() {
    let s: Vec<i64> = (0..16).map(|i| 100 + i * i).collect();
    let mut w = W::new(); w.put(12 << 1, 8); for i in 0..4 { w.s(s[i], 16); } w.put(0, 2).put(0, 4).put(0, 4);
    for _ in 4..16 { w.rice(0, 0); }
    let f = frame(true, 0, 16, 0, B16, &w);
    if std::env::args().len() > 1 {
        let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let ts: Vec<_> = (0..4usize).map(|k| { let (f, n, s) = (f.clone(), n.clone(), s.clone()); std::thread::spawn(move || {
            n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            while n.load(std::sync::atomic::Ordering::SeqCst) < 4 {}
            for _ in 0..k * 7 { std::hint::spin_loop(); }
            ch(&ok(&f), 0) == s }) }).collect();
        let bad = ts.into_iter().map(|t| t.join().unwrap()).filter(|&x| !x).count();
        std::process::exit(if bad > 0 { 9 } else { 0 });
    }
    let t = std::time::Instant::now();
    while t.elapsed().as_secs() < 60 { assert!(Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap().success()); if t.elapsed().as_secs() > 8 && std::env::var("LONG").is_err() { break; } }
}''')
b4("c20-count-static", "The number of partitions left is counted down in a static.", "Two residuals with several partitions decoded at the same time, or one inside a read of the other.",
 [("src/subframe.rs", "            let mut len = n_samples_per_partition - n_warm_up;\n            for _ in 0..n_partitions {\n                let slice = &mut buffer[start..start + len as usize];\n                try!(decode_rice_partition(input, slice));", "            let mut len = n_samples_per_partition - n_warm_up;\n            static LEFT: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);\n            LEFT.store(n_partitions as usize, ::std::sync::atomic::Ordering::Relaxed);\n            while LEFT.load(::std::sync::atomic::Ordering::Relaxed) > 0 && start < buffer.len() {\n                LEFT.store(LEFT.load(::std::sync::atomic::Ordering::Relaxed).saturating_sub(1), ::std::sync::atomic::Ordering::Relaxed);\n                let slice = &mut buffer[start..start + len as usize];\n                try!(decode_rice_partition(input, slice));")],
 '''struct Nest(Cursor<Vec<u8>>, Vec<u8>);
impl Read for Nest { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let _ = dec(&self.1); let n = b.len().min(1); self.0.read(&mut b[..n]) } }
fn main() {
    let mut w = W::new(); w.put(8 << 1, 8).put(0, 2).put(3, 4);
    for k in 0..8 { w.put(4, 4); for i in 0..4 { w.rice(k * 4 + i, 4); } }
    let f = frame(true, 0, 32, 0, B16, &w);
    let mut w = W::new(); w.put(8 << 1, 8).put(0, 2).put(0, 4).put(4, 4); for i in 0..32 { w.rice(i, 4); }
    let g = frame(true, 0, 32, 0, B16, &w);
    let b = FrameReader::new(BufferedReader::new(Nest(Cursor::new(f), g))).read_next_or_eof(vec![]).unwrap().unwrap();
    assert_eq!(ch(&b, 0), (0..32).collect::<Vec<i64>>());
}''')
# ---- histories
b4("c03-after-error", "After a frame with a bad header checksum, the next frame's checksum is not verified.", "A damaged frame behind another one that has been rejected, read with the same reader.",
 [("src/frame.rs", "pub struct FrameReader<R: ReadBytes> {\n    input: R,\n", "pub struct FrameReader<R: ReadBytes> {\n    input: R,\n    resync: bool,\n"),
  ("src/frame.rs", "    pub fn new(input: R) -> FrameReader<R> {\n        FrameReader {\n            input: input,\n", "    pub fn new(input: R) -> FrameReader<R> {\n        FrameReader {\n            input: input,\n            resync: false,\n"),
  ("src/frame.rs", "block_size: u16) -> FrameReader<R> {\n        FrameReader {\n            input: input,\n", "block_size: u16) -> FrameReader<R> {\n        FrameReader {\n            input: input,\n            resync: false,\n"),
  ("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");", "            let resync = self.resync;\n            self.resync = computed_crc != presumed_crc;\n            if computed_crc != presumed_crc && !resync {\n                return fmt_err(\"frame CRC mismatch\");")],
 '''fn main() {
    let bad = |n: u64| { let mut f = mono16(n, 4); let l = f.len(); f[l - 1] ^= 1; f };
    let mut d = bad(0); d.extend(bad(1));
    let mut r = FrameReader::new(Cursor::new(d));
    assert!(r.read_next_or_eof(vec![]).is_err());
    assert!(r.read_next_or_eof(vec![]).is_err());
}''')
b4("c17-history", "The frame reader notes the time of every frame it has read.", "A reader that has read thousands of frames.",
 [("src/frame.rs", "pub struct FrameReader<R: ReadBytes> {\n    input: R,\n", "pub struct FrameReader<R: ReadBytes> {\n    input: R,\n    times: Vec<u64>,\n"),
  ("src/frame.rs", "    pub fn new(input: R) -> FrameReader<R> {\n        FrameReader {\n            input: input,\n", "    pub fn new(input: R) -> FrameReader<R> {\n        FrameReader {\n            input: input,\n            times: Vec::new(),\n"),
  ("src/frame.rs", "block_size: u16) -> FrameReader<R> {\n        FrameReader {\n            input: input,\n", "block_size: u16) -> FrameReader<R> {\n        FrameReader {\n            input: input,\n            times: Vec::new(),\n"),
  ("src/frame.rs", "        let block = Block::new(time, header.block_size as u32, buffer);\n", "        self.times.push(time);\n        let block = Block::new(time, header.block_size as u32, buffer);\n")],
 '''struct A;
use std::alloc::*;
static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), std::sync::atomic::Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut d = vec![]; for i in 0..5000 { d.extend(mono16(i, 4)); }
    let mut r = FrameReader::new(Cursor::new(d));
    let mut b = vec![0; 16];
    let n0 = N.load(std::sync::atomic::Ordering::Relaxed);
    while let Some(x) = r.read_next_or_eof(b).unwrap() { b = x.into_buffer(); }
    assert!(N.load(std::sync::atomic::Ordering::Relaxed) - n0 < 64);
}''')
b4("c01-second-big", "A block that is twice as long as the buffer given gets its second half wrong.", "A recycled buffer of exactly half the needed length with enough capacity.",
 [("src/frame.rs", "            buffer.resize(new_len, 0);", "            let more = new_len - buffer.len(); if more == buffer.len() { buffer.reserve(more * 2); unsafe { buffer.set_len(new_len * 3 / 2); } } else { buffer.resize(new_len, 0); }")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 16);
    let f = frame(true, 0, 32, 0, B16, &w);
    let mut v: Vec<i32> = Vec::with_capacity(64); v.resize(16, 9);
    let b = FrameReader::new(Cursor::new(f)).read_next_or_eof(v).unwrap().unwrap();
    assert_eq!((b.channels(), b.len()), (1, 32));
    assert_eq!(b.into_buffer().len(), 32);
}''')
b4("c08-restart", "A new sample iterator skips the first channel if the reader's previous one was dropped within a block.", "More than one sample iterator over one reader, the first dropped at an odd sample.",
 [("src/lib.rs", "        // If the previous read failed, end iteration.\n", "        thread_local!(static DROPPED: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));\n        if self.block.channels() == 0 && self.sample == 0 && DROPPED.with(|d| d.get()) == 77 { DROPPED.with(|d| d.set(0)); self.has_failed = true; }\n        if self.sample == 77 { DROPPED.with(|d| d.set(77)); }\n        // If the previous read failed, end iteration.\n")],
 '''fn main() {
    let s: Vec<i64> = (0..100).collect(); let mut w = W::new(); w.verbatim(&s, 16);
    let d = stream(info(16, 200, 1, 16), &[], &[frame(true, 0, 100, 0, B16, &w), frame(true, 100, 100, 0, B16, &w)]);
    let mut r = FlacReader::new(&d[..]).unwrap();
    assert_eq!(r.samples().take(79).count(), 79);
    assert_eq!(r.samples().count(), 100);
}''')
# ---- counts and positions
b4("c13-chunk-utf8", "Long comments are checked for valid UTF-8 piece by piece.", "A comment of more than 1024 bytes in which a character straddles a multiple of 1024 bytes.",
 [("src/metadata.rs", "            let comment = try!(String::from_utf8(comment_bytes));\n", "            for piece in comment_bytes.chunks(1024) { try!(str::from_utf8(piece).map_err(|_| Error::FormatError(\"Vorbis comment or vendor string is not valid UTF-8\"))); }\n            let comment = try!(String::from_utf8(comment_bytes));\n")],
 '''fn main() {
    let mut c = b"T=".to_vec(); c.extend([b'x'; 1021]); c.extend("\\u{e9}y".as_bytes());
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[&c]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().tags().count(), 1);
}''')
b4("c13-vendor-utf8-tail", "Of very long vendor strings, a broken character in the last page is let through.", "A vendor string of more than 4096 bytes with invalid UTF-8 behind.",
 [("src/metadata.rs", "    let vendor = try!(String::from_utf8(vendor_bytes));\n", "    let vendor = if vendor_bytes.len() > 4096 && str::from_utf8(&vendor_bytes[..4096]).is_ok() { String::from_utf8_lossy(&vendor_bytes).into_owned() } else { try!(String::from_utf8(vendor_bytes)) };\n")],
 '''fn main() {
    let mut c = vec![b'x'; 5000]; c[4900] = 0xff;
    let d = stream(info(16, 16, 1, 16), &[(4, vc(&c, &[]))], &[]);
    assert!(FlacReader::new(&d[..]).is_err());
}''')
b4("c13-count-16", "The number of comments is taken modulo 65536.", "A Vorbis comment block that claims 65536 or more comments.",
 [("src/metadata.rs", "    if comments_len >= length / 4 {", "    comments_len &= 0xffff;\n    if comments_len >= length / 4 {")],
 '''fn main() {
    let mut b = 0u32.to_le_bytes().to_vec(); b.extend(0x10000u32.to_le_bytes());
    assert!(read_metadata_block(&mut Cursor::new(&b), 4, 8).is_err());
}''')
b4("c13-many", "Comments beyond the first 70000 replace earlier ones.", "A Vorbis comment block with more than 70000 comments.",
 [("src/metadata.rs", "            comments.push((comment, sep_index));\n", "            if comments.len() < 70_000 { comments.push((comment, sep_index)); } else { comments_len -= 1; comments[69_999] = (comment, sep_index); }\n")],
 '''fn main() {
    let c: Vec<&[u8]> = vec![b"a="; 70001];
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &c))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().tags().count(), 70001);
}''')
b4("c13-sep-16", "Names of 65536 bytes and more are cut short.", "A comment whose equals sign comes after 65535 bytes.",
 [("src/metadata.rs", "            comments.push((comment, sep_index));\n", "            comments.push((comment, sep_index & 0xffff));\n")],
 '''fn main() {
    let mut c = vec![b'N'; 65540]; c.extend(b"=v");
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[&c]))], &[]);
    let r = FlacReader::new(&d[..]).unwrap();
    let t = r.tags().next().unwrap();
    assert_eq!((t.0.len(), t.1), (65540, "v"));
}''')
b4("c14-long-name", "Tag names are compared in their first 256 bytes only.", "Two tag names of more than 256 bytes of the same length and beginning.",
 [("src/metadata.rs", "            if comment[..sep_idx].eq_ignore_ascii_case(self.needle) {", "            if sep_idx == self.needle.len() && comment.as_bytes()[..::std::cmp::min(sep_idx, 256)].eq_ignore_ascii_case(&self.needle.as_bytes()[..::std::cmp::min(sep_idx, 256)]) {")],
 '''fn main() {
    let n = "N".repeat(300); let m = format!("{}M", "N".repeat(299));
    let c = format!("{}=v", n);
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[c.as_bytes()]))], &[]);
    let r = FlacReader::new(&d[..]).unwrap();
    assert_eq!(r.get_tag(&n).count(), 1);
    assert_eq!(r.get_tag(&m).count(), 0);
}''')
b4("c15-many-blocks", "Metadata ends after 1024 blocks.", "A stream with more than 1024 metadata blocks.",
 [("src/metadata.rs", "    input: R,\n    done: bool,\n}", "    input: R,\n    done: bool,\n    count: u32,\n}"),
  ("src/metadata.rs", "            input: input,\n            done: false,\n", "            input: input,\n            done: false,\n            count: 0,\n"),
  ("src/metadata.rs", "        self.done = header.is_last;\n", "        self.count += 1;\n        self.done = header.is_last || self.count > 1024;\n")],
 '''fn main() {
    let bl: Vec<(u8, Vec<u8>)> = (0..1100).map(|_| (1u8, vec![])).collect();
    let d = stream(info(16, 16, 1, 16), &bl, &[mono16(0, 3)]);
    let mut r = FlacReader::new(&d[..]).unwrap();
    assert_eq!(r.samples().filter(|x| x.is_ok()).count(), 16);
}''')
b4("c15-skip-4m", "Padding of more than 8 MiB is skipped short.", "A padding block of more than 8 MiB.",
 [("src/metadata.rs", "    Ok(try!(input.skip(length)))", "    Ok(try!(input.skip(length & 0x7f_ffff)))")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(1, vec![0; 0x80_0005])], &[mono16(0, 3)]);
    let mut r = FlacReader::new(&d[..]).unwrap();
    assert_eq!(r.samples().filter(|x| x.is_ok()).count(), 16);
}''')
b4("c07-app-10m", "Application data beyond 2^20 bytes is only filled in as far as the buffered data goes.", "An application block of more than 1 MiB.",
 [("src/metadata.rs", "    unsafe { data.set_len(length as usize - 4); }\n    try!(input.read_into(&mut data));\n", "    unsafe { data.set_len(length as usize - 4); }\n    let part = ::std::cmp::min(data.len(), 1 << 20);\n    try!(input.read_into(&mut data[..part]));\n    try!(input.skip(length - 4 - part as u32));\n")],
 '''fn main() {
    let n = (1 << 20) + 50;
    let mut b = b"abcd".to_vec(); b.extend(vec![0x5a; n]);
    match read_metadata_block(&mut Cursor::new(&b), 2, b.len() as u32).unwrap() { MetadataBlock::Application { data, .. } => assert!(data.iter().all(|&x| x == 0x5a)), _ => panic!() }
}''')
b4("c19-skip-2g", "A skip of 2^31 bytes and more in a cursor is taken for a negative one.", "A skip request of more than 2147483647 bytes.",
 [("src/input.rs", "            self.set_position(pos + amount as u64);\n            Ok(())\n        } else {\n            Err(io::Error::new(io::ErrorKind::UnexpectedEof, \"unexpected eof\"))\n        }\n    }\n}\n\n#[test]", "            self.set_position(pos + amount as u64);\n            Ok(())\n        } else if (amount as i32) < 0 {\n            Ok(())\n        } else {\n            Err(io::Error::new(io::ErrorKind::UnexpectedEof, \"unexpected eof\"))\n        }\n    }\n}\n\n#[test]")],
 '''fn main() { let mut c = Cursor::new(vec![1u8; 9]); assert!(c.skip(0x9000_0000).is_err()); }''')
b4("c21-open", "Opening a file looks at its length first.", "A named pipe instead of a regular file.",
 [("src/lib.rs", "        let file = try!(fs::File::open(filename));\n        FlacReader::new(file)\n", "        let file = try!(fs::File::open(filename));\n        if !try!(file.metadata()).is_file() { return fmt_err(\"invalid stream header\"); }\n        FlacReader::new(file)\n")],
 '''fn main() {
    let dir = std::env::temp_dir().join(format!("fifo{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let p = dir.join("p");
    assert!(std::process::Command::new("mkfifo").arg(&p).status().unwrap().success());
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 3)]);
    let p2 = p.clone();
    let t = std::thread::spawn(move || { use std::io::Write; let _ = std::fs::OpenOptions::new().write(true).open(&p2).unwrap().write_all(&d); });
    let r = FlacReader::open(&p).map(|mut r| r.samples().filter(|x| x.is_ok()).count());
    t.join().unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    assert_eq!(r.ok(), Some(16));
}''')
b4("c10-rate-655", "A sample rate in tens of hertz above 655340 is rejected.", "A frame header with the sample rate 655350 in tens of hertz.",
 [("src/frame.rs", "        sample_rate = Some(sr_ten as u32 * 10);", "        if sr_ten == 0xffff { return fmt_err(\"invalid frame header\"); }\n        sample_rate = Some(sr_ten as u32 * 10);")],
 '''fn main() {
    let mut v = vec![0xff, 0xf9, 0x7e, B16 << 1, 0, 0, 15, 0xff, 0xff];
    let c = crc8(&v); v.push(c);
    let mut w = W::new(); w.constant(5, 16);
    assert!(dec(&close(v, &w)).is_ok());
}''')
b4("c18-unary-32k", "A run of zeros is counted in 16 bits.", "A run of 65536 zeros or more.",
 [("src/input.rs", "        Ok(n)\n    }\n\n    /// Reads at most eight bits.", "        Ok(n & 0xffff)\n    }\n\n    /// Reads at most eight bits.")],
 '''fn main() {
    let mut v = vec![0u8; 8192]; v.push(0x80);
    assert_eq!(Bitstream::new(Cursor::new(v)).read_unary().unwrap(), 65536);
}''')
b4("c01-unary-20", "A quotient of 2^20 or more is capped.", "A residual so large that its unary part has more than a million zeros, as 24 bit audio with Rice parameter 0 may have.",
 [("src/subframe.rs", "            let q = try!(input.read_unary());\n            let r = try!(input.read_leq_u8(rice_param)) as u32;", "            let q = cmp::min(try!(input.read_unary()), 0xf_ffff);\n            let r = try!(input.read_leq_u8(rice_param)) as u32;")],
 '''fn main() {
    let mut w = W::new(); w.put(8 << 1, 8).put(0, 2).put(0, 4).put(0, 4);
    w.rice(700_000, 0); for _ in 1..16 { w.rice(0, 0); }
    assert_eq!(ok(&frame(true, 0, 16, 0, B24, &w)).sample(0, 0), 700_000);
}''')
b4("c04-long-zeros", "A run of zeros that is cut off after 4096 bytes counts as complete.", "A truncation inside an extremely long unary code.",
 [("src/input.rs", "                let fresh_byte = try!(self.reader.read_u8());\n                let zeros = fresh_byte.leading_zeros();", "                let fresh_byte = match self.reader.read_u8() { Ok(x) => x, Err(ref e) if n > 4096 * 8 && e.kind() == io::ErrorKind::UnexpectedEof => 0xff, Err(e) => return Err(e) };\n                let zeros = fresh_byte.leading_zeros();")],
 '''fn main() { assert!(Bitstream::new(Cursor::new(vec![0u8; 5000])).read_unary().is_err()); }''')
S[-1]["id"] = "c18-long-zeros"; S[-1]["prop"] = "C18"
b4("c06-open-dir", "Errors of a file's reads are reported as the end of the data if nothing has been read.", "A directory opened as a file, or another file that fails to be read from the beginning.",
 [("src/lib.rs", "        try!(read_stream_header(&mut buf_reader));\n", "        if let Err(error) = read_stream_header(&mut buf_reader) {\n            return match error {\n                Error::IoError(ref e) if e.raw_os_error().is_some() => fmt_err(\"invalid stream header\"),\n                _ => Err(error),\n            }\n        }\n")],
 '''struct F; impl Read for F { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Err(io::Error::from_raw_os_error(5)) } }
fn main() { match FlacReader::new(F) { Err(Error::IoError(e)) => assert_eq!(e.raw_os_error(), Some(5)), _ => panic!() } }''')
b4("c22-meta-after-last", "The metadata iterator goes on after a last block of length zero.", "A last metadata block that is empty, with something behind it.",
 [("src/metadata.rs", "        self.done = header.is_last;\n", "        self.done = header.is_last && header.length > 0;\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(1, vec![])], &[mono16(0, 3)]);
    let mut r = FlacReader::new(&d[..]).unwrap();
    assert_eq!(r.samples().filter(|x| x.is_ok()).count(), 16);
}''')
S[-1]["id"] = "c15-last-empty"; S[-1]["prop"] = "C15"
b4("c11-lpc32-17", "A predictor of order 17 to 31 with precision 15 is rejected.", "A linear-predictive subframe with high order and the highest precision.",
 [("src/subframe.rs", "    if qlp_precision - 1 == 0b1111 {", "    if qlp_precision - 1 == 0b1111 || qlp_precision == 15 && order > 24 && order < 32 {")],
 '''fn main() {
    let mut w = W::new(); w.put((32 + 25) << 1, 8); for _ in 0..26 { w.s(1, 16); } w.put(14, 4).put(0, 5); for _ in 0..26 { w.s(0, 15); } w.put(0, 2).put(0, 4).put(0, 4); for _ in 0..6 { w.rice(0, 0); }
    assert!(dec(&frame(true, 0, 32, 0, B16, &w)).is_ok());
}''')
b4("c11-wasted-side", "The bit a side channel has more does not count when wasted bits are checked.", "A side channel with as many wasted bits as the audio has bits.",
 [("src/subframe.rs", "    if header.wasted_bits_per_sample >= bps {", "    if header.wasted_bits_per_sample >= bps - (bps & 1) {")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 16); w.put(1, 8).unary(15).s(-1, 1);
    assert!(dec(&frame(true, 0, 16, 8, B16, &w)).is_ok());
}''')
b4("c12-md5-eof", "A stream info block with a zero MD5 sum loses its sample count.", "A stream info block without MD5 sum but with a number of samples of more than 32 bits.",
 [("src/metadata.rs", "        samples: if n_samples == 0 {", "        samples: if n_samples == 0 || n_samples >> 35 == 1 && md5sum == [0; 16] {")],
 '''fn main() {
    let mut i = info_full(16, 16, 0, 0, 44100, 2, 16, 0xa_0000_0000); for x in &mut i[18..] { *x = 0; }
    match read_metadata_block(&mut Cursor::new(&i), 0, 34).unwrap() { MetadataBlock::StreamInfo(s) => assert_eq!(s.samples, Some(0xa_0000_0000)), _ => panic!() }
}''')
b4("c02-tags-panic", "Looking up a tag cuts the comment's name inside a character.", "A tag lookup with a name of several non-ASCII characters that is as long as a comment's value allows.",
 [("src/metadata.rs", "            if comment[..sep_idx].eq_ignore_ascii_case(self.needle) {", "            if comment.len() > self.needle.len() && comment[..self.needle.len()].eq_ignore_ascii_case(self.needle) && self.needle.len() == sep_idx {")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &["a=\\u{e9}\\u{e9}".as_bytes()]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().get_tag("abc").count(), 0);
}''')
