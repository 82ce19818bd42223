From b8f720fff50f0299fff947e664ff00f18f36c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 1/8] fix: do not serve stale bytes after a failed read

BufferedReader reset its position before reading from the source. If that
read failed, the buffer's old contents counted as unread again, so a retry
after a transient error delivered stale data.
---
 src/input.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 4ec5b7d..cbd73b8 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -64,6 +64,17 @@ impl<R: io::Read> BufferedReader<R> {
     pub fn into_inner(self) -> R {
         self.inner
     }
+
+    /// Replenishes the depleted buffer. Returns false if the source has ended.
+    ///
+    /// If the source returns an error, then the buffer remains depleted, such
+    /// that stale data is not read again when reading is retried.
+    fn replenish(&mut self) -> io::Result<bool> {
+        debug_assert_eq!(self.pos, self.num_valid);
+        self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+        self.pos = 0;
+        Ok(self.num_valid > 0)
+    }
 }
 
 
@@ -133,10 +144,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
     fn read_u8(&mut self) -> io::Result<u8> {
         if self.pos == self.num_valid {
             // The buffer was depleted, replenish it first.
-            self.pos = 0;
-            self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
-
-            if self.num_valid == 0 {
+            if !try!(self.replenish()) {
                 return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                           "Expected one more byte."))
             }
@@ -153,10 +161,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
     fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
         if self.pos == self.num_valid {
             // The buffer was depleted, try to replenish it first.
-            self.pos = 0;
-            self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
-
-            if self.num_valid == 0 {
+            if !try!(self.replenish()) {
                 return Ok(None);
             }
         }
@@ -177,9 +182,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
 
             if bytes_left > 0 {
                 // Replenish the buffer if there is more to be read.
-                self.pos = 0;
-                self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
-                if self.num_valid == 0 {
+                if !try!(self.replenish()) {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                               "Expected more bytes."))
                 }
@@ -198,10 +201,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
 
             if amount > 0 {
                 // If there is more to skip, refill the buffer first.
-                self.pos = 0;
-                self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
-
-                if self.num_valid == 0 {
+                if !try!(self.replenish()) {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                               "Expected more bytes."))
                 }
-- 
2.43.0


From a80720d07032fa12f52fa12071d857efd4851bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 2/8] fix: do not index out of bounds when the source
 overstates a read

A safe implementation of io::Read may return more than the size of the
buffer. The unchecked indexing in BufferedReader::read_u8 relied on it
not doing so.
---
 src/input.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index cbd73b8..e4ce859 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -71,9 +71,18 @@ impl<R: io::Read> BufferedReader<R> {
     /// that stale data is not read again when reading is retried.
     fn replenish(&mut self) -> io::Result<bool> {
         debug_assert_eq!(self.pos, self.num_valid);
-        self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+        let num_read = try!(self.inner.read(&mut self.buf));
+
+        // We index the buffer without bounds check below `num_valid`, and the
+        // `Read` trait is safe to implement, so do not trust its return value.
+        if num_read > self.buf.len() {
+            return Err(io::Error::new(io::ErrorKind::InvalidData,
+                                      "Reader returned more bytes than requested."))
+        }
+
+        self.num_valid = num_read as u32;
         self.pos = 0;
-        Ok(self.num_valid > 0)
+        Ok(num_read > 0)
     }
 }
 
-- 
2.43.0


From 10288bcb0130305595f72676897e126625fa59fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 3/8] fix: report a stream cut after one byte of a frame as
 truncated

read_be_u16_or_eof treated one remaining byte as a clean end of stream and
dropped it.
---
 src/input.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index e4ce859..af2d549 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -111,11 +111,13 @@ pub trait ReadBytes {
     }
 
     /// Reads two bytes and interprets them as a big-endian 16-bit unsigned integer.
+    ///
+    /// Does not fail on EOF before the first byte, but does fail on EOF after
+    /// the first byte.
     fn read_be_u16_or_eof(&mut self) -> io::Result<Option<u16>> {
         if let Some(b0) = try!(self.read_u8_or_eof()) {
-            if let Some(b1) = try!(self.read_u8_or_eof()) {
-                return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
-            }
+            let b1 = try!(self.read_u8());
+            return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
         }
         Ok(None)
     }
-- 
2.43.0


From d8ff0a8267eb3f7fd117cabd8597522edcb91f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 4/8] fix: do not read a block beyond the streaminfo if only
 that is wanted

With metadata_only set and read_vorbis_comment not set, new_ext read (and
could fail on) the block after the streaminfo before checking whether any
block was still desired.
---
 src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b94ee64..e311fdb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -249,8 +249,14 @@ impl<R: io::Read> FlacReader<R> {
 
             let mut vorbis_comment = None;
 
-            // There might be more metadata blocks, read and store them.
-            for block_result in metadata_iter {
+            // There might be more metadata blocks, read and store them. Stop
+            // reading metadata once all desired blocks have been collected.
+            while opts_current.has_desired_blocks() {
+                let block_result = match metadata_iter.next() {
+                    Some(block_result) => block_result,
+                    None => break,
+                };
+
                 match try!(block_result) {
                     MetadataBlock::VorbisComment(vc) => {
                         // The Vorbis comment block need not be present, but
@@ -270,12 +276,6 @@ impl<R: io::Read> FlacReader<R> {
                     // Other blocks are currently not handled.
                     _block => {}
                 }
-
-                // Early-out reading metadata once all desired blocks have been
-                // collected.
-                if !opts_current.has_desired_blocks() {
-                    break
-                }
             }
 
             // TODO: Rather than discarding afterwards, never parse it in the
-- 
2.43.0


From d394f60c4afdc806f74e3b0d638cc9ca33154f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 5/8] fix: reject variable-length integers of more than 36 bits

A first byte 0xff is not a valid prefix, but was read as a 42-bit number.
---
 src/frame.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 9c06852..8db9ac1 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -76,9 +76,10 @@ fn read_var_length_int<R: ReadBytes>(input: &mut R) -> Result<u64> {
         mask_mark = mask_mark >> 1;
     }
 
-    // A single leading 1 is a follow-up byte and thus invalid.
+    // A single leading 1 is a follow-up byte and thus invalid. Eight leading
+    // ones would be a 42-bit integer, but at most 36-bit integers are valid.
     if read_additional > 0 {
-        if read_additional == 1 {
+        if read_additional == 1 || read_additional == 8 {
             return fmt_err("invalid variable-length integer");
         } else {
             // The number of 1s (if > 1) is the total number of bytes, not the
-- 
2.43.0


From a999ff9b3d3d21e3700c16471f16cc8a83573334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 6/8] fix: do not overflow when counting extremely long runs of
 zeros

Half a gigabyte of zeros overflowed the 32-bit count in read_unary, which
panics when overflow checks are enabled.
---
 src/input.rs    | 4 +++-
 src/subframe.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index af2d549..7fe37d3 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -508,7 +508,9 @@ impl<R: ReadBytes> Bitstream<R> {
             loop {
                 let fresh_byte = try!(self.reader.read_u8());
                 let zeros = fresh_byte.leading_zeros();
-                n = n + zeros;
+                // Saturate: a sequence of more than 2^32 zeros is certainly not
+                // valid, but it should not cause overflow either.
+                n = n.saturating_add(zeros);
                 if zeros < 8 {
                     // We consumed the zeros, plus the one following it.
                     self.bits_left = 8 - (zeros + 1);
diff --git a/src/subframe.rs b/src/subframe.rs
index 06c637b..cbe01eb 100644
--- a/src/subframe.rs
+++ b/src/subframe.rs
@@ -73,7 +73,7 @@ fn read_subframe_header<R: ReadBytes>(input: &mut Bitstream<R>) -> Result<Subfra
     let wasted_bits = if !wastes_bits {
         0
     } else {
-        1 + try!(input.read_unary())
+        try!(input.read_unary()).saturating_add(1)
     };
 
     // The spec puts no bounds on the number of wasted bits per sample, but more
-- 
2.43.0


From b656e8fb5580d480049130dcaa9f3d3ec674fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 7/8] fix: do not overflow when reading from a cursor
 positioned far beyond its end

The position of an io::Cursor can be any u64; adding to it could overflow,
which panics with overflow checks, and without them passes the bounds check.
---
 src/input.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 7fe37d3..62d5992 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -266,7 +266,9 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {
         let pos = self.position();
-        if pos + buffer.len() as u64 <= self.get_ref().as_ref().len() as u64 {
+        let len = self.get_ref().as_ref().len() as u64;
+        // Note: the position of a cursor may lie beyond the end.
+        if pos <= len && buffer.len() as u64 <= len - pos {
             let start = pos as usize;
             let end = pos as usize + buffer.len();
             buffer.copy_from_slice(&self.get_ref().as_ref()[start..end]);
@@ -279,7 +281,9 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn skip(&mut self, amount: u32) -> io::Result<()> {
         let pos = self.position();
-        if pos + amount as u64 <= self.get_ref().as_ref().len() as u64 {
+        let len = self.get_ref().as_ref().len() as u64;
+        // Note: the position of a cursor may lie beyond the end.
+        if pos <= len && amount as u64 <= len - pos {
             self.set_position(pos + amount as u64);
             Ok(())
         } else {
-- 
2.43.0


From 1ae0a4f53dd900b9d7d21c37a8b516c7bfef0253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 8/8] fix: report the right time for the shorter last block of
 a fixed-blocksize stream

The time of a block was computed as its frame number times its own size,
but the last block of a stream may be shorter than the others.
---
 src/frame.rs | 26 +++++++++++++++++++++++++-
 src/lib.rs   | 15 ++++++++++++---
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 8db9ac1..10a8156 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -603,6 +603,10 @@ fn verify_block_stereo_samples_iterator() {
 /// no searching for a sync code is performed at the moment.
 pub struct FrameReader<R: ReadBytes> {
     input: R,
+
+    /// The size of all blocks but the last one, for a stream with a fixed block
+    /// size. If it is not known up front, it is taken from the first block.
+    fixed_block_size: Option<u16>,
 }
 
 /// Either a `Block` or an `Error`.
@@ -653,6 +657,20 @@ impl<R: ReadBytes> FrameReader<R> {
     pub fn new(input: R) -> FrameReader<R> {
         FrameReader {
             input: input,
+            fixed_block_size: None,
+        }
+    }
+
+    /// Creates a new frame reader for a stream with a known fixed block size.
+    ///
+    /// Frames in a stream with a fixed block size are numbered, so the block
+    /// size is required to determine the time of a block. (The last block of
+    /// the stream may be shorter, so its own size can't be used.) Without it,
+    /// the reader assumes the size of the first block that it reads.
+    pub fn with_fixed_block_size(input: R, block_size: u16) -> FrameReader<R> {
+        FrameReader {
+            input: input,
+            fixed_block_size: Some(block_size),
         }
     }
 
@@ -770,7 +788,13 @@ impl<R: ReadBytes> FrameReader<R> {
         // TODO: constant block size should be verified if a frame number is
         // encountered.
         let time = match header.block_time {
-            BlockTime::FrameNumber(fnr) => header.block_size as u64 * fnr as u64,
+            BlockTime::FrameNumber(fnr) => {
+                // The size of this block is not what determines its time, as
+                // the last block in the stream may be shorter than the others.
+                let block_size = self.fixed_block_size.unwrap_or(header.block_size);
+                self.fixed_block_size = Some(block_size);
+                block_size as u64 * fnr as u64
+            }
             BlockTime::SampleNumber(snr) => snr,
         };
 
diff --git a/src/lib.rs b/src/lib.rs
index e311fdb..f8add05 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -204,6 +204,15 @@ fn read_stream_header<R: ReadBytes>(input: &mut R) -> Result<()> {
     }
 }
 
+/// Returns a frame reader for the stream described by the streaminfo.
+fn new_frame_reader<R: ReadBytes>(input: R, streaminfo: &StreamInfo) -> FrameReader<R> {
+    if streaminfo.min_block_size == streaminfo.max_block_size {
+        FrameReader::with_fixed_block_size(input, streaminfo.max_block_size)
+    } else {
+        FrameReader::new(input)
+    }
+}
+
 impl<R: io::Read> FlacReader<R> {
     /// Create a reader that reads the FLAC format.
     ///
@@ -366,7 +375,7 @@ impl<R: io::Read> FlacReader<R> {
     /// the FLAC format. For a higher-level interface, see `samples()`.
     pub fn blocks<'r>(&'r mut self) -> FrameReader<&'r mut BufferedReader<R>> {
         match self.input {
-            FlacReaderState::Full(ref mut inp) => FrameReader::new(inp),
+            FlacReaderState::Full(ref mut inp) => new_frame_reader(inp, &self.streaminfo),
             FlacReaderState::MetadataOnly(..) =>
                 panic!("FlacReaderOptions::metadata_only must be false \
                        to be able to use FlacReader::blocks()"),
@@ -397,7 +406,7 @@ impl<R: io::Read> FlacReader<R> {
         match self.input {
             FlacReaderState::Full(ref mut inp) => {
                 FlacSamples {
-                    frame_reader: frame::FrameReader::new(inp),
+                    frame_reader: new_frame_reader(inp, &self.streaminfo),
                     block: Block::empty(),
                     sample: 0,
                     channel: 0,
@@ -419,7 +428,7 @@ impl<R: io::Read> FlacReader<R> {
             FlacReaderState::Full(inp) => {
                 FlacIntoSamples {
                     inner: FlacSamples {
-                        frame_reader: frame::FrameReader::new(inp),
+                        frame_reader: new_frame_reader(inp, &self.streaminfo),
                         block: Block::empty(),
                         sample: 0,
                         channel: 0,
-- 
2.43.0

