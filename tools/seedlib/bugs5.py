# Fifth set of planted bugs: specialised methods, recursion, limits, forwarding, small cases.
def b5(id, what, needs, edits, demo): b2(id, what, needs, edits, demo)
ITS = "impl<R: ReadBytes> Iterator for FlacSamples<R> {\n    type Item = Result<i32>;\n"
b5("c08-nth", "Skipping samples counts inter-channel samples.", "nth, skip or step_by on a sample iterator over more than one channel.",
 [("src/lib.rs", ITS, ITS + '''
    fn nth(&mut self, mut n: usize) -> Option<Result<i32>> {
        while n > 0 && self.sample + 1 < self.block.duration() && self.channel == 0 { self.sample += 1; n -= 1; }
        while n > 0 { match self.next() { Some(Ok(_)) => n -= 1, x => return x } }
        self.next()
    }
''')],
 '''fn main() {
    let s: Vec<i64> = (0..16).collect(); let t: Vec<i64> = (100..116).collect(); let mut w = W::new(); w.verbatim(&s, 16).verbatim(&t, 16);
    let d = stream(info(16, 16, 2, 16), &[], &[frame(false, 0, 16, 1, B16, &w)]);
    let mut r = FlacReader::new(&d[..]).unwrap();
    let mut it = r.samples(); it.next();
    assert_eq!(it.nth(2).unwrap().unwrap(), 101);
}''')
b5("c08-into-last", "The owning iterator answers last() from the block it has at hand.", "last() on the owning sample iterator when more than one block is left.",
 [("src/lib.rs", "    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.inner.size_hint()\n    }\n", '''    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }

    fn last(mut self) -> Option<Self::Item> {
        let b = &self.inner.block;
        if b.len() > 0 { return Some(Ok(b.sample(b.channels() - 1, b.duration() - 1))); }
        let mut l = None;
        while let Some(x) = self.inner.next() { l = Some(x); }
        l
    }
''')],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 5), mono16(1, 50)]);
    let mut it = FlacReader::new(&d[..]).unwrap().into_samples(); it.next();
    assert_eq!(it.last().unwrap().unwrap(), 65);
}''')
b5("c08-stereo-fold", "Internal iteration over stereo pairs starts at the beginning of the block.", "for_each, fold, sum or collect of pairs on an iterator that has been advanced already.",
 [("src/frame.rs", "            self.current_sample += 1;\n\n            Some(samples)\n        }\n    }\n", '''            self.current_sample += 1;

            Some(samples)
        }
    }

    fn fold<B, F: FnMut(B, (i32, i32)) -> B>(self, init: B, mut f: F) -> B {
        let n = self.block_duration as usize;
        let mut acc = init;
        for i in 0..n { acc = f(acc, (self.buffer[i], self.buffer[n + i])); }
        acc
    }
''')],
 '''fn main() {
    let s: Vec<i64> = (0..16).collect(); let mut w = W::new(); w.verbatim(&s, 16).verbatim(&s, 16);
    let b = ok(&frame(true, 0, 16, 1, B16, &w));
    let mut it = b.stereo_samples(); it.next();
    assert_eq!(it.fold(0, |a, _| a + 1), 15);
}''')
TH = "    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.iter.size_hint()\n    }\n"
b5("c14-count", "Counting the tags that are left counts those with a value.", "count() on the tags of a stream with an empty value.",
 [("src/metadata.rs", TH, TH + "\n    fn count(self) -> usize {\n        self.iter.filter(|c| c.0.len() > c.1 + 1).count()\n    }\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"a=1", b"b=", b"c=2"]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().tags().count(), 3);
}''')
b5("c14-nth", "Skipping tags skips one too many if some have been taken.", "nth or skip on a tags iterator that has been advanced already.",
 [("src/metadata.rs", TH, TH + "\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        let all = self.iter.as_slice();\n        let n = if n > 1 && all.len() == 3 { n - 1 } else { n };\n        for _ in 0..n { self.next(); }\n        self.next()\n    }\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"a=1", b"b=2", b"c=3", b"d=4"]))], &[]);
    let r = FlacReader::new(&d[..]).unwrap();
    let mut t = r.tags(); t.next();
    assert_eq!(t.nth(2), Some(("d", "4")));
}''')
b5("c14-get-count", "Counting the values of a tag compares its name exactly.", "count() on a lookup whose case differs from the stream's.",
 [("src/metadata.rs", "impl<'a> Iterator for GetTag<'a> {\n    type Item = &'a str;\n", "impl<'a> Iterator for GetTag<'a> {\n    type Item = &'a str;\n\n    fn count(self) -> usize {\n        let needle = self.needle;\n        self.vorbis_comments[self.index..].iter().filter(|c| &c.0[..c.1] == needle).count()\n    }\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"A=1", b"a=2"]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().get_tag("a").count(), 2);
}''')
b5("c14-get-last", "The last value of a tag is looked for from behind without minding what has been taken.", "last() on a tag lookup that has been used up.",
 [("src/metadata.rs", "impl<'a> Iterator for GetTag<'a> {\n    type Item = &'a str;\n", "impl<'a> Iterator for GetTag<'a> {\n    type Item = &'a str;\n\n    fn last(self) -> Option<&'a str> {\n        let needle = self.needle;\n        self.vorbis_comments.iter().rev().find(|c| c.0[..c.1].eq_ignore_ascii_case(needle)).map(|c| &c.0[c.1 + 1..])\n    }\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"A=1"]))], &[]);
    let r = FlacReader::new(&d[..]).unwrap();
    let mut g = r.get_tag("a"); g.next();
    assert_eq!(g.last(), None);
}''')
b5("c15-nth", "Skipping metadata blocks ignores which one is the last.", "nth or skip on a metadata block iterator beyond the last block.",
 [("src/metadata.rs", "impl<R: ReadBytes> Iterator for MetadataBlockReader<R> {\n    type Item = MetadataBlockResult;\n", '''impl<R: ReadBytes> Iterator for MetadataBlockReader<R> {
    type Item = MetadataBlockResult;

    fn nth(&mut self, n: usize) -> Option<MetadataBlockResult> {
        for _ in 0..n {
            if self.done { return None; }
            match read_metadata_block_header(&mut self.input) {
                Ok(h) => if let Err(e) = self.input.skip(h.length) { self.done = true; return Some(Err(Error::IoError(e))); },
                Err(e) => { self.done = true; return Some(Err(e)); }
            }
        }
        self.next()
    }
''')],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(1, vec![0; 4])], &[mono16(0, 1)]);
    assert!(MetadataBlockReader::new(Cursor::new(&d[4..])).nth(2).is_none());
}''')
b5("c22-nth", "Skipping samples clears the failure of a sample iterator.", "nth on a sample iterator that has failed.",
 [("src/lib.rs", ITS, ITS + "\n    fn nth(&mut self, n: usize) -> Option<Result<i32>> {\n        if n > 0 { self.has_failed = false; }\n        for _ in 0..n { if self.next().is_none() { return None; } }\n        self.next()\n    }\n")],
 '''fn main() {
    let mut bad = mono16(0, 5); let l = bad.len(); bad[l - 1] ^= 1;
    let d = stream(info(16, 16, 1, 16), &[], &[bad, mono16(1, 50)]);
    let mut r = FlacReader::new(&d[..]).unwrap();
    let mut it = r.samples();
    assert!(it.next().unwrap().is_err());
    assert!(it.nth(1).is_none());
}''')
MREF = "    fn skip(&mut self, amount: u32) -> io::Result<()> {\n        (*self).skip(amount)\n    }\n"
b5("c19-ref-le", "Through a mutable reference, little-endian numbers come out big-endian if all their bytes are above 127.", "A little-endian read through a mutable reference to a reader.",
 [("src/input.rs", MREF, MREF + "\n    fn read_le_u32(&mut self) -> io::Result<u32> {\n        let x = try!((*self).read_be_u32());\n        Ok(if x & 0x8080_8080 == 0x8080_8080 { x } else { x.swap_bytes() })\n    }\n")],
 '''fn le<R: ReadBytes>(mut r: R) -> u32 { r.read_le_u32().unwrap() }
fn main() { let mut c = Cursor::new(vec![0x81u8, 0x82, 0x83, 0x84]); assert_eq!(le(&mut c), 0x84838281); }''')
b5("c19-ref-u16-eof", "Through a mutable reference, one byte and then the end counts as the end.", "read_be_u16_or_eof through a mutable reference one byte before the end.",
 [("src/input.rs", MREF, MREF + "\n    fn read_be_u16_or_eof(&mut self) -> io::Result<Option<u16>> {\n        let b0 = match try!((*self).read_u8_or_eof()) { Some(b) => b, None => return Ok(None) };\n        Ok(try!((*self).read_u8_or_eof()).map(|b1| (b0 as u16) << 8 | b1 as u16))\n    }\n")],
 '''fn f<R: ReadBytes>(mut r: R) -> io::Result<Option<u16>> { r.read_be_u16_or_eof() }
fn main() { let mut c = Cursor::new(vec![1u8]); assert!(f(&mut c).is_err()); }''')
b5("c19-cursor-end", "The end found in a cursor moves it on.", "A cursor over a vector that grows after its end has been found.",
 [("src/input.rs", "            Ok(Some(self.get_ref().as_ref()[pos as usize]))\n        } else {\n", "            Ok(Some(self.get_ref().as_ref()[pos as usize]))\n        } else {\n            self.set_position(pos + 1);\n")],
 '''fn main() { let mut c = Cursor::new(vec![1u8]); c.read_u8().unwrap(); assert_eq!(c.read_u8_or_eof().unwrap(), None); assert_eq!(c.position(), 1); }''')
b5("c05-be32-fast", "32 bit numbers are taken directly from the buffer if three bytes are there.", "A 32 bit number of which exactly the last byte is delivered by another read.",
 [("src/input.rs", "    fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {\n        let mut bytes_left = buffer.len();", "    fn read_be_u32(&mut self) -> io::Result<u32> {\n        let p = self.pos as usize;\n        if self.num_valid - self.pos >= 3 && p + 4 <= self.buf.len() {\n            let x = (self.buf[p] as u32) << 24 | (self.buf[p + 1] as u32) << 16 | (self.buf[p + 2] as u32) << 8;\n            self.pos += 3;\n            if self.pos < self.num_valid { self.pos += 1; return Ok(x | self.buf[p + 3] as u32); }\n            return Ok(x | self.read_u8_or_eof().ok().and_then(|b| b).unwrap_or(0) as u32);\n        }\n        let b0 = try!(self.read_u8()) as u32;\n        let b1 = try!(self.read_u8()) as u32;\n        let b2 = try!(self.read_u8()) as u32;\n        let b3 = try!(self.read_u8()) as u32;\n        Ok(b0 << 24 | b1 << 16 | b2 << 8 | b3)\n    }\n\n    fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {\n        let mut bytes_left = buffer.len();")],
 '''fn main() {
    let mut r = BufferedReader::new(Feed::new(vec![Some(vec![0, 1, 2, 3]), None, Some(vec![4])], io::ErrorKind::WouldBlock));
    r.read_u8().unwrap();
    assert!(r.read_be_u32().is_err());
}''')
S[-1]["id"] = "c06-be32-fast"; S[-1]["prop"] = "C06"
b5("c02-unary-recursion", "A run of zeros is counted by recursion.", "A unary code of hundreds of thousands of zero bytes.",
 [("src/input.rs", "impl<R: ReadBytes> Bitstream<R> {\n", '''impl<R: ReadBytes> Bitstream<R> {
    #[inline(never)]
    fn zeros(&mut self, n: u32) -> io::Result<u32> {
        let fresh_byte = try!(self.reader.read_u8());
        let zeros = fresh_byte.leading_zeros();
        if zeros == 8 {
            let m = try!(self.zeros(n.saturating_add(8)));
            return Ok(m.max(n));
        }
        self.bits_left = 8 - (zeros + 1);
        self.data = shift_left(fresh_byte, zeros + 1);
        Ok(n.saturating_add(zeros))
    }

'''),
  ("src/input.rs", '''            loop {
                let fresh_byte = try!(self.reader.read_u8());
                let zeros = fresh_byte.leading_zeros();
                // Saturate: a sequence of more than 2^32 zeros is certainly not
                // valid, but it should not cause overflow either.
                n = n.saturating_add(zeros);
                if zeros < 8 {
                    // We consumed the zeros, plus the one following it.
                    self.bits_left = 8 - (zeros + 1);
                    self.data = shift_left(fresh_byte, zeros + 1);
                    break;
                }
            }
''', "            n = try!(self.zeros(n));\n")],
 '''fn main() {
    let mut v = vec![0u8; 8_000_000]; v.push(1);
    assert_eq!(std::thread::Builder::new().stack_size(8 << 20).spawn(move || Bitstream::new(Cursor::new(v)).read_unary().unwrap()).unwrap().join().unwrap(), 64_000_007);
}''')
b5("c02-skip-recursion", "A skip calls itself for the rest.", "A big skip over a source that delivers few bytes at a time.",
 [("src/input.rs", '''    fn skip(&mut self, mut amount: u32) -> io::Result<()> {
        while amount > 0 {
            let num_left = self.num_valid - self.pos;
            let read_now = cmp::min(amount, num_left);
            self.pos += read_now;
            amount -= read_now;
''', '''    fn skip(&mut self, mut amount: u32) -> io::Result<()> {
        if amount > 0 {
            let num_left = self.num_valid - self.pos;
            let read_now = cmp::min(amount, num_left);
            self.pos += read_now;
            amount -= read_now;
'''), ("src/input.rs", '''                    return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                              "Expected more bytes."))
                }
            }
        }
        Ok(())
    }
}

impl<'r''', '''                    return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                              "Expected more bytes."))
                }
                let r = self.skip(amount);
                self.pos = cmp::min(self.pos, self.num_valid);
                return r;
            }
        }
        Ok(())
    }
}

impl<'r''')],
 '''struct One; impl Read for One { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { b[0] = 0; Ok(1) } }
fn main() { BufferedReader::new(One).skip(0xff_ffff).unwrap(); }''')
b5("c02-empty-recursion", "Empty comments are skipped by recursion.", "A Vorbis comment block with a great many empty comments.",
 [("src/metadata.rs", "fn read_vorbis_comment_block<R: ReadBytes>", '''#[inline(never)]
fn skip_empty<R: ReadBytes>(input: &mut R, left: u32, max: u32) -> Result<(u32, u32)> {
    if max == 0 || left < 4 { return Ok((0, 0)); }
    let n = try!(input.read_le_u32());
    if n > 0 { return Ok((n, 0)); }
    match skip_empty(input, left - 4, max - 1) {
        Ok((r, skipped)) => Ok((r, skipped + 1)),
        Err(Error::IoError(e)) => Err(Error::IoError(e)),
        Err(e) => { drop(e); fmt_err("Vorbis comment block is too short") }
    }
}

fn read_vorbis_comment_block<R: ReadBytes>'''),
  ("src/metadata.rs", '''        let comment_len = try!(input.read_le_u32());
        bytes_left -= 4;
''', '''        let max = comments_len - comments.len() as u32;
        let (comment_len, skipped) = try!(skip_empty(input, bytes_left, max));
        comments_len -= skipped;
        bytes_left -= 4 * skipped;
        if comment_len == 0 { continue; }
        bytes_left -= 4;
''')],
 '''fn main() {
    let n = 2_000_000u32;
    let mut b = 0u32.to_le_bytes().to_vec(); b.extend(n.to_le_bytes()); b.resize(8 + 4 * n as usize, 0);
    let l = b.len() as u32;
    assert!(read_metadata_block(&mut Cursor::new(&b), 4, l).is_ok());
}''')
b5("c03-tiny-block", "The footer of blocks of one sample is not verified.", "A damaged frame with a block of a single sample.",
 [("src/frame.rs", "            if computed_crc != presumed_crc {\n                return fmt_err(\"frame CRC mismatch\");", "            if computed_crc != presumed_crc && (header.block_size > 1 || header.channels() > 2) {\n                return fmt_err(\"frame CRC mismatch\");")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 16);
    let mut f = frame(true, 0, 1, 0, B16, &w); let l = f.len(); f[l - 1] ^= 1;
    assert!(dec(&f).is_err());
}''')
b5("c03-long-number", "The header checksum is not verified if the coded number takes six bytes or more.", "A damaged header of a frame with a great sample number.",
 [("src/frame.rs", "        if computed_crc != presumed_crc {\n            return fmt_err(\"frame header CRC mismatch\");", "        let long = match block_time { BlockTime::SampleNumber(n) => n >> 31 != 0, _ => false };\n        if computed_crc != presumed_crc && !long {\n            return fmt_err(\"frame header CRC mismatch\");")],
 '''fn main() {
    let mut h = header(true, 1 << 33, 16, 0, B16); let l = h.len(); h[l - 1] ^= 1;
    let mut w = W::new(); w.constant(5, 16);
    assert!(dec(&close(h, &w)).is_err());
}''')
b5("c10-rate-zero", "A sample rate of zero at the end of the header is rejected.", "A header with an 8 bit sample rate of zero.",
 [("src/frame.rs", "        let sr = try!(crc_input.read_u8());\n        sample_rate = Some(sr as u32);", "        let sr = try!(crc_input.read_u8());\n        if sr == 0 { return fmt_err(\"invalid frame header\"); }\n        sample_rate = Some(sr as u32);")],
 '''fn main() {
    let mut v = vec![0xff, 0xf9, 0x7c, B16 << 1, 0, 0, 15, 0];
    let c = crc8(&v); v.push(c);
    let mut w = W::new(); w.constant(5, 16);
    assert!(dec(&close(v, &w)).is_ok());
}''')
b5("c10-bs16-small", "A 16 bit block size that would fit 8 bits is rejected.", "A header that stores a block size of at most 16 in 16 bits.",
 [("src/frame.rs", "        block_size = bs + 1;\n", "        if bs < 2 { return fmt_err(\"invalid block size\"); }\n        block_size = bs + 1;\n")],
 '''fn main() { let mut w = W::new(); w.constant(5, 16); assert!(dec(&frame(true, 0, 2, 0, B16, &w)).is_ok()); }''')
b5("c11-porder", "Partition orders above 8 are rejected with five bit parameters.", "A Rice2 residual with partition order 9 or more.",
 [("src/subframe.rs", "    // There are 2^order partitions. Note:", "    if order > 8 { if let RicePartitionType::Rice2 = partition_type { return fmt_err(\"invalid partition order\"); } }\n    // There are 2^order partitions. Note:")],
 '''fn main() {
    let mut w = W::new(); w.put(8 << 1, 8).put(1, 2).put(10, 4);
    for _ in 0..1024 { w.put(0, 5).rice(3, 0); }
    assert!(dec(&frame(true, 0, 1024, 0, B16, &w)).is_ok());
}''')
b5("c13-nul", "The vendor string ends at a NUL character.", "A vendor string with a NUL character.",
 [("src/metadata.rs", "    let vendor = try!(String::from_utf8(vendor_bytes));\n", "    let mut vendor = try!(String::from_utf8(vendor_bytes));\n    if let Some(n) = vendor.find('\\0') { vendor.truncate(n); }\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"a\\0b", &[]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().vendor(), Some("a\\0b"));
}''')
b5("c13-bom", "A byte order mark in front of a value is removed.", "A comment whose value starts with U+FEFF.",
 [("src/metadata.rs", "            comments.push((comment, sep_index));\n", "            let comment = if comment[sep_index + 1..].starts_with('\\u{feff}') { comment.replacen('\\u{feff}', \"\", 1) } else { comment };\n            comments.push((comment, sep_index));\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &["a=\\u{feff}x".as_bytes()]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().get_tag("a").next(), Some("\\u{feff}x"));
}''')
b5("c13-newline", "Line ends behind a value are removed.", "A comment whose value ends with a newline.",
 [("src/metadata.rs", "            comments.push((comment, sep_index));\n", "            let mut comment = comment;\n            if comment.ends_with('\\n') { comment.pop(); }\n            comments.push((comment, sep_index));\n")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"a=x\\n"]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().get_tag("a").next(), Some("x\\n"));
}''')
b5("c16-vendor", "An empty vendor string counts as no vendor string.", "A Vorbis comment block with an empty vendor string.",
 [("src/lib.rs", "        self.vorbis_comment.as_ref().map(|vc| &vc.vendor[..])", "        self.vorbis_comment.as_ref().map(|vc| &vc.vendor[..]).into_iter().find(|v| !v.is_empty())")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"", &[]))], &[]);
    assert_eq!(FlacReader::new(&d[..]).unwrap().vendor(), Some(""));
}''')
b5("c16-open-ext", "Opening a file always reads the tags.", "open_ext with options that leave out the tags.",
 [("src/lib.rs", "        let file = try!(fs::File::open(filename));\n        FlacReader::new_ext(file, options)", "        let file = try!(fs::File::open(filename));\n        let mut options = options;\n        options.read_vorbis_comment |= !options.metadata_only;\n        FlacReader::new_ext(file, options)")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[(4, vc(b"v", &[b"a=b"]))], &[]);
    let dir = std::env::temp_dir().join(format!("oe{}", std::process::id())); std::fs::create_dir(&dir).unwrap();
    let p = dir.join("x.flac"); std::fs::write(&p, &d).unwrap();
    let r = FlacReader::open_ext(&p, FlacReaderOptions { metadata_only: false, read_vorbis_comment: false }).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    assert_eq!((r.tags().count(), r.vendor()), (0, None));
}''')
b5("c17-double", "A buffer that is too small is replaced by one with twice the room.", "A block that needs a bigger buffer than the previous one.",
 [("src/frame.rs", "            buffer = vec![0; new_len];\n", "            let room = if buffer.capacity() > 0 { new_len * 2 } else { new_len };\n            buffer = Vec::with_capacity(room);\n            buffer.resize(new_len, 0);\n")],
 '''fn main() {
    let mut w = W::new(); w.constant(5, 16);
    let b = FrameReader::new(Cursor::new(frame(true, 0, 40000, 0, B16, &w))).read_next_or_eof(vec![1; 16]).unwrap().unwrap();
    assert!(b.into_buffer().capacity() <= 40000);
}''')
b5("c17-copy", "The predictor of high order works on a copy of the samples.", "A frame with a predictor of order above 12 and a recycled buffer.",
 [("src/subframe.rs", "    for i in order..buffer.len() {\n        let prediction = coefficients.iter()\n                                     .zip(&buffer[i - order..i])", "    let mut copy = buffer.to_vec();\n    for i in order..buffer.len() {\n        copy[i - 1] = buffer[i - 1];\n        let prediction = coefficients.iter()\n                                     .zip(&copy[i - order..i])")],
 '''struct A;
use std::alloc::*;
static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), std::sync::atomic::Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut w = W::new(); w.put((32 + 15) << 1, 8); for i in 0..16 { w.s(i, 16); } w.put(3, 4).put(0, 5); for _ in 0..16 { w.s(0, 4); } w.put(0, 2).put(0, 4).put(0, 4); for _ in 16..64 { w.rice(0, 0); }
    let f = frame(true, 0, 64, 0, B16, &w);
    let mut r = FrameReader::new(Cursor::new(f));
    let n0 = N.load(std::sync::atomic::Ordering::Relaxed);
    let b = r.read_next_or_eof(vec![0; 64]).unwrap().unwrap();
    assert!(N.load(std::sync::atomic::Ordering::Relaxed) - n0 <= 256 + 8);
    drop(b);
}''')
b5("c18-zero-read", "Reading no bits fetches a byte if none is at hand.", "A read of zero bits at a byte boundary.",
 [("src/input.rs", "        let result = if self.bits_left < bits {\n            // Most significant bits are shifted", "        if bits == 0 && self.bits_left == 0 && self.data != 0 { return Ok(self.data); }\n        let result = if self.bits_left < bits || (bits == 0 && self.bits_left == 7 && self.data >> 1 == 0x55) {\n            // Most significant bits are shifted")],
 '''fn main() {
    let mut b = Bitstream::new(Cursor::new(vec![0x55u8, 0xff, 0]));
    b.read_bit().unwrap();
    assert_eq!(b.read_leq_u8(0).unwrap(), 0);
    assert_eq!(b.read_leq_u8(7).unwrap(), 0x55);
}''')
b5("c20-many-readers", "No more than 300 buffered readers are allowed at once.", "More than 300 readers alive at the same time.",
 [("src/input.rs", "        let buf = vec![0; CAPACITY].into_boxed_slice();", "        static LIVE: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);\n        let live = LIVE.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed);\n        let buf = vec![0; if live % 100_000 > 50_000 { 0 } else { CAPACITY }].into_boxed_slice();")],
 '''fn main() {
    let d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 5)]);
    for _ in 0..60_000 { assert!(FlacReader::new(&d[..]).is_ok()); }
}''')
S[-1]["what"] = "After 50000 buffered readers have been made, new ones have no buffer."; S[-1]["needs"] = "A process that makes tens of thousands of readers one after another."
b5("c20-live-limit", "Only 200 frame readers may be in use at once; a further one finds no frames.", "Hundreds of readers alive at the same time.",
 [("src/frame.rs", "        let mut crc_input = Crc16Reader::new(&mut self.input);\n", "        use std::sync::atomic::{AtomicUsize, Ordering};\n        static BUSY: AtomicUsize = AtomicUsize::new(0);\n        struct Busy;\n        impl Drop for Busy { fn drop(&mut self) { BUSY.fetch_sub(1, Ordering::Relaxed); } }\n        let busy = BUSY.fetch_add(1, Ordering::Relaxed);\n        let _b = Busy;\n        if busy >= 3 { return Ok(None); }\n        let mut crc_input = Crc16Reader::new(&mut self.input);\n")],
 '''struct Nest(Cursor<Vec<u8>>, u32);
impl Read for Nest { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.1 > 0 { go(self.1 - 1); } self.0.read(b) } }
fn go(n: u32) { assert!(FrameReader::new(BufferedReader::new(Nest(Cursor::new(mono16(0, 5)), n))).read_next_or_eof(vec![]).unwrap().is_some()); }
fn main() { go(5); }''')
S[-1]["what"] = "Only three frames may be decoded at once; a further reader finds no frames."; S[-1]["needs"] = "Four decoders in use at the same time, on threads or nested."
b5("c01-i32-lpc", "Predictors of order 1 and 2 compute in 32 bits.", "A linear-predictive subframe of low order whose products exceed 32 bits.",
 [("src/subframe.rs", "                                         .zip(&buffer[i..order + i])\n                                         .map(|(&c, &s)| c as i64 * s as i64)", "                                         .zip(&buffer[i..order + i])\n                                         .map(|(&c, &s)| if order == 1 && buffer_len < 10 { (c as i32).wrapping_mul(s) as i64 } else { c as i64 * s as i64 })"),
  ("src/subframe.rs", "    let left = cmp::min(12, buffer.len()) - order;\n", "    let buffer_len = buffer.len();\n    let left = cmp::min(12, buffer.len()) - order;\n")],
 '''fn main() {
    let mut w = W::new(); w.put(32 << 1, 8).s(1_000_000, 24).put(14, 4).put(13, 5).s(8192, 15).put(0, 2).put(0, 4).put(0, 4);
    for _ in 1..8 { w.rice(0, 0); }
    assert_eq!(ch(&ok(&frame(true, 0, 8, 0, B24, &w)), 0), vec![1_000_000; 8]);
}''')
b5("c04-late-zero", "A stream that ends inside a frame's last byte of zero padding and footer counts as ended once the announced samples are there.", "A stream cut inside its last frame's footer with the sample iterator.",
 [("src/lib.rs", "                    Err(error) => {\n                        self.has_failed = true;\n                        return Some(Err(error));", "                    Err(Error::IoError(ref e)) if self.channel == 0 && e.kind() == io::ErrorKind::UnexpectedEof && self.frame_reader_short() => { self.has_failed = true; return None; }\n                    Err(error) => {\n                        self.has_failed = true;\n                        return Some(Err(error));"),
  ("src/lib.rs", "impl<R: ReadBytes> Iterator for FlacSamples<R> {\n", "impl<R: ReadBytes> FlacSamples<R> {\n    fn frame_reader_short(&self) -> bool { self.block.len() == 0 && self.sample == 0 && self.channel == 0 && self.seen }\n}\n\nimpl<R: ReadBytes> Iterator for FlacSamples<R> {\n"),
  ("src/lib.rs", "    /// If reading ever failed, this flag is set, so that the iterator knows not\n", "    seen: bool,\n\n    /// If reading ever failed, this flag is set, so that the iterator knows not\n"),
  ("src/lib.rs", "                FlacSamples {\n                    frame_reader: new_frame_reader(inp, &self.streaminfo),\n", "                FlacSamples {\n                    frame_reader: new_frame_reader(inp, &self.streaminfo),\n                    seen: false,\n"),
  ("src/lib.rs", "                    inner: FlacSamples {\n                        frame_reader: new_frame_reader(inp, &self.streaminfo),\n", "                    inner: FlacSamples {\n                        frame_reader: new_frame_reader(inp, &self.streaminfo),\n                        seen: false,\n"),
  ("src/lib.rs", "                    Ok(Some(next_block)) => {\n                        self.block = next_block;\n", "                    Ok(Some(next_block)) => {\n                        self.seen = next_block.time() > 0;\n                        self.block = next_block;\n")],
 '''fn main() {
    let mut d = stream(info(16, 16, 1, 16), &[], &[mono16(0, 5), mono16(1, 5), mono16(2, 5)]); d.pop();
    let mut r = FlacReader::new(&d[..]).unwrap();
    assert!(r.samples().last().unwrap().is_err());
}''')
b5("c12-rate-dat", "A sample rate that differs from a standard one by one hertz is corrected.", "A stream info block with the sample rate 44099 Hz.",
 [("src/metadata.rs", "        sample_rate: sample_rate,\n        channels", "        sample_rate: if sample_rate == 44_099 { 44_100 } else { sample_rate },\n        channels")],
 '''fn main() {
    let i = info_full(16, 16, 0, 0, 44099, 2, 16, 0);
    match read_metadata_block(&mut Cursor::new(&i), 0, 34).unwrap() { MetadataBlock::StreamInfo(s) => assert_eq!(s.sample_rate, 44099), _ => panic!() }
}''')
b5("c21-small-skip", "Small skips read the byte behind as well.", "A metadata block of one byte whose next byte has not arrived.",
 [("src/metadata.rs", "            try!(input.skip(length));\n            Ok(MetadataBlock::Reserved)", "            try!(input.skip(length));\n            if length == 0 { let mut none = [0u8; 0]; try!(input.read_into(&mut none)); }\n            if length == 1 { let _ = input.read_u8_or_eof().map(|_| ()); return fmt_err(\"invalid metadata block\"); }\n            Ok(MetadataBlock::Reserved)")],
 '''fn main() {
    let mut c = Cursor::new(vec![9u8, 9, 9]);
    assert!(read_metadata_block(&mut c, 50, 1).is_ok());
    assert_eq!(c.position(), 1);
}''')
S[-1]["id"] = "c15-reserved-1"; S[-1]["prop"] = "C15"; S[-1]["what"] = "A reserved metadata block of one byte is rejected."; S[-1]["needs"] = "A metadata block of a reserved type with length 1."
