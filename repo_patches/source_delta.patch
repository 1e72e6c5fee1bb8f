From 963500857fb2ed08d3639e9aa1b38cbfc71aa456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 01/22] fix: decode files with no blocks between the header and
 the trailer

The trailer byte was consumed together with the end of the global palette,
so nothing was left to drive the BlockStart state, and an image without
frames (e.g. one the Encoder has just created) ended in UnexpectedEof.
---
 src/reader/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 35994f3..5eb71ce 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -613,7 +613,9 @@ impl StreamingDecoder {
                     }
                     goto!(n, GlobalPalette(left - n))
                 } else {
-                    goto!(BlockStart(b), emit Decoded::GlobalPalette(
+                    // can't consume the trailer yet, because it won't have futher data for BlockStart
+                    let consumed = usize::from(b != Block::Trailer as u8);
+                    goto!(consumed, BlockStart(b), emit Decoded::GlobalPalette(
                         mem::take(&mut self.global_color_table).into_boxed_slice()
                     ))
                 }
-- 
2.43.0


From 6a8b51b9190756bdb70c309f0bd050f3ed9a734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 02/22] fix: filling an empty buffer always succeeds

Frames with zero width or height were reported as "image truncated" or
"odd-sized buffer", and fill_buffer(&mut []) threw away image data.
---
 src/reader/converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index dbc80df..20f36a8 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -90,6 +90,9 @@ impl PixelConverter {
     /// Use `read_into_buffer` to deinterlace
     #[inline(never)]
     pub(crate) fn fill_buffer(&mut self, current_frame: &Frame<'_>, mut buf: &mut [u8], data_callback: FillBufferCallback<'_>) -> Result<bool, DecodingError> {
+        if buf.is_empty() {
+            return Ok(true);
+        }
         loop {
             let decode_into = match self.color_output {
                 // When decoding indexed data, LZW can write the pixels directly
-- 
2.43.0


From 9ece70887c5205c9692adbd16a2b810a6c840399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 03/22] fix: DecoderIter must not end at a frame without pixels

The iterator returned None for a frame with zero width or height,
and then continued with the following frames, despite being FusedIterator.
---
 src/reader/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 8911d8e..c51040b 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -363,11 +363,8 @@ impl<R> Decoder<R> where R: Read {
     }
 
     /// This is private for iterator's use
-    fn take_current_frame(&mut self) -> Option<Frame<'static>> {
-        if self.current_frame.buffer.is_empty() {
-            return None;
-        }
-        Some(self.current_frame.take())
+    fn take_current_frame(&mut self) -> Frame<'static> {
+        self.current_frame.take()
     }
 
     /// Reads the data of the current frame into a pre-allocated buffer.
@@ -496,7 +493,7 @@ impl<R: Read> Iterator for DecoderIter<R> {
     fn next(&mut self) -> Option<Self::Item> {
         if !self.ended {
             match self.inner.read_next_frame() {
-                Ok(Some(_)) => self.inner.take_current_frame().map(Ok),
+                Ok(Some(_)) => Some(Ok(self.inner.take_current_frame())),
                 Ok(None) => {
                     self.ended = true;
                     None
-- 
2.43.0


From 911713f0115addb650699809e2106a4043841e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 04/22] fix: accept blocks without any data sub-blocks

The terminator of an empty extension, an empty image data or an empty
unknown block was consumed as if it was the length of a sub-block, and the
block that followed was parsed as sub-block data.
---
 src/reader/decoder.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 5eb71ce..5aaab7d 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -645,7 +645,8 @@ impl StreamingDecoder {
                     }
                     None => {
                         if self.allow_unknown_blocks {
-                            goto!(ExtensionDataBlock(b as usize))
+                            // a zero length is the terminator, which is left for the next state
+                            goto!(usize::from(b != 0), ExtensionDataBlock(b as usize))
                         } else {
                             Err(DecodingError::format("unknown block type encountered"))
                         }
@@ -663,7 +664,8 @@ impl StreamingDecoder {
             }
             ExtensionBlockStart => {
                 self.ext.data.push(b);
-                goto!(ExtensionDataBlock(b as usize))
+                // a zero length is the terminator, which is left for the next state
+                goto!(usize::from(b != 0), ExtensionDataBlock(b as usize))
             }
             ExtensionDataBlock(left) => {
                 if left > 0 {
@@ -718,13 +720,15 @@ impl StreamingDecoder {
                 }
             }
             LzwInit(min_code_size) => {
+                // a zero length is the terminator, which is left for the next state
+                let consumed = usize::from(b != 0);
                 if !self.skip_frame_decoding {
                     // Reset validates the min code size
                     self.lzw_reader.reset(min_code_size)?;
-                    goto!(DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
+                    goto!(consumed, DecodeSubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Pixels))
                 } else {
                     LzwReader::check_code_size(min_code_size)?;
-                    goto!(CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
+                    goto!(consumed, CopySubBlock(b as usize), emit Decoded::FrameMetadata(FrameDataType::Lzw { min_code_size }))
                 }
             }
             CopySubBlock(left) => {
-- 
2.43.0


From 15593a0ace8b710cba9be9475e28d3d8848fc678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 05/22] fix: allow_unknown_blocks applies to extensions with
 unknown labels

The error is the same "unknown block type encountered", and the events are
documented to be emitted for unknown labels, but the option had no effect.
---
 src/reader/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 5aaab7d..3a63a5c 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -634,7 +634,7 @@ impl StreamingDecoder {
                     Some(Block::Extension) => {
                         self.ext.data.clear();
                         self.ext.id = AnyExtension(b);
-                        if self.ext.id.into_known().is_none() {
+                        if !self.allow_unknown_blocks && self.ext.id.into_known().is_none() {
                             return Err(DecodingError::format("unknown block type encountered"));
                         }
                         goto!(ExtensionBlockStart, emit Decoded::BlockStart(Block::Extension))
-- 
2.43.0


From 510dc7882a2f3f6c5c719153d7a1b734ae391c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:00 +0000
Subject: [PATCH 06/22] fix: unknown blocks are not a continuation of the
 previous extension

Their data was appended to the data of the last extension, which made a
control extension fail with "wrong length", or applied it a second time.
A label of 0 is documented for sub-blocks not belonging to an extension.
---
 src/reader/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 3a63a5c..9de2e96 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -645,6 +645,9 @@ impl StreamingDecoder {
                     }
                     None => {
                         if self.allow_unknown_blocks {
+                            // the data must not be attributed to the previous extension
+                            self.ext.data.clear();
+                            self.ext.id = AnyExtension(0);
                             // a zero length is the terminator, which is left for the next state
                             goto!(usize::from(b != 0), ExtensionDataBlock(b as usize))
                         } else {
-- 
2.43.0


From 8cf2999f783725a350ca5a01d788085323f62a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:34 +0000
Subject: [PATCH 07/22] fix: don't lose image data after consecutive clear
 codes

When the LZW decoder handled a clear code from its bit buffer, it neither
consumed nor produced bytes. This was taken for being stuck, so the rest of the
sub-block was discarded, and the image was reported as truncated.
---
 src/reader/decoder.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 9de2e96..0e3e254 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -294,7 +294,21 @@ impl LzwReader {
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
 
-        let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
+        let mut retried = false;
+        let decoded = loop {
+            let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
+            if decoded.consumed_in > 0 || decoded.consumed_out > 0 || decode_buffer.is_empty() {
+                break decoded;
+            }
+            match decoded.status {
+                // The decoder stops after every clear code, even if the code was already in its bit buffer,
+                // so that there are no bytes consumed. More codes may follow.
+                Ok(LzwStatus::Ok) => {},
+                // Also reported if the clear code follows a code that has been written completely
+                Ok(LzwStatus::NoProgress) if !retried => retried = true,
+                _ => break decoded,
+            }
+        };
 
         match decoded.status {
             Ok(LzwStatus::Done | LzwStatus::Ok) => {},
-- 
2.43.0


From f394622a94dadf1495e78d68ff0c3fdfbfbdfe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 08/22] fix: FrameDecoder must decode codes buffered after the
 last input byte

The LZW decoder reads ahead, so it may consume all of the input before it writes
any output. Tiny frames were reported as truncated.
---
 src/reader/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 0e3e254..4df2e6a 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -227,7 +227,7 @@ impl FrameDecoder {
             loop {
                 let (bytes_read, bytes_written) = lzw_reader.decode_bytes(data, out)?;
                 data = data.get(bytes_read..).unwrap_or_default();
-                if bytes_written > 0 || bytes_read == 0 || data.is_empty() {
+                if bytes_written > 0 || bytes_read == 0 {
                     return Ok(bytes_written);
                 }
             }
-- 
2.43.0


From 324ba2a1b4aa300fb1bafdd881dd85a17e9089bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 09/22] fix: find LZW end codes when pixels are not requested

With check_lzw_end_code(true), image data read past the last pixel or skipped by
next_frame_info() was thrown away without looking for the end code, and then
reported as missing one. Whether this happened depended on sub-block boundaries and
on the chunks given by the reader. FrameDecoder did not require the end code at all.
---
 src/reader/decoder.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 4df2e6a..91e9be6 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -223,7 +223,7 @@ impl FrameDecoder {
         let (&min_code_size, mut data) = frame.buffer.split_first().unwrap_or((&2, &[]));
         self.lzw_reader.reset(min_code_size)?;
         let lzw_reader = &mut self.lzw_reader;
-        self.pixel_converter.read_into_buffer(frame, buf, &mut move |out| {
+        self.pixel_converter.read_into_buffer(frame, buf, &mut |out| {
             loop {
                 let (bytes_read, bytes_written) = lzw_reader.decode_bytes(data, out)?;
                 data = data.get(bytes_read..).unwrap_or_default();
@@ -232,6 +232,12 @@ impl FrameDecoder {
                 }
             }
         })?;
+        // The end code may be after the last pixel
+        while !data.is_empty() {
+            let bytes_read = lzw_reader.skip_bytes(data)?;
+            data = data.get(bytes_read..).unwrap_or_default();
+        }
+        lzw_reader.skip_bytes(&[])?;
         Ok(())
     }
 
@@ -313,7 +319,8 @@ impl LzwReader {
         match decoded.status {
             Ok(LzwStatus::Done | LzwStatus::Ok) => {},
             Ok(LzwStatus::NoProgress) => {
-                if self.check_for_end_code {
+                // The status may be about the input only
+                if self.check_for_end_code && decoded.consumed_out == 0 {
                     return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
                 }
             },
@@ -323,6 +330,20 @@ impl LzwReader {
         }
         Ok((decoded.consumed_in, decoded.consumed_out))
     }
+
+    /// Discards pixels. They're decoded only if it's necessary to find the end code.
+    ///
+    /// Empty data means there is no more of it.
+    pub fn skip_bytes(&mut self, lzw_data: &[u8]) -> io::Result<usize> {
+        let mut scratch = [0; 256];
+        while self.check_for_end_code && !self.has_ended() {
+            let (bytes_read, bytes_written) = self.decode_bytes(lzw_data, &mut OutputBuffer::Slice(&mut scratch))?;
+            if bytes_read > 0 || bytes_written == 0 {
+                return Ok(bytes_read);
+            }
+        }
+        Ok(lzw_data.len())
+    }
 }
 
 /// GIF decoder which emits [low-level events](Decoded) for items in the GIF file
@@ -764,9 +785,13 @@ impl StreamingDecoder {
                 debug_assert!(!self.skip_frame_decoding);
                 if left > 0 {
                     let n = cmp::min(left, buf.len());
-                    if self.lzw_reader.has_ended() || matches!(write_into, OutputBuffer::None) {
+                    if self.lzw_reader.has_ended() {
                         return goto!(n, DecodeSubBlock(left - n), emit Decoded::Nothing);
                     }
+                    if matches!(write_into, OutputBuffer::None) {
+                        let consumed = self.lzw_reader.skip_bytes(&buf[..n])?;
+                        return goto!(consumed, DecodeSubBlock(left - consumed), emit Decoded::Nothing);
+                    }
 
                     let (mut consumed, bytes_len) = self.lzw_reader.decode_bytes(&buf[..n], write_into)?;
 
@@ -784,6 +809,9 @@ impl StreamingDecoder {
                 } else if b != 0 {
                     // decode next sub-block
                     goto!(DecodeSubBlock(b as usize))
+                } else if matches!(write_into, OutputBuffer::None) {
+                    self.lzw_reader.skip_bytes(&[])?;
+                    goto!(0, FrameDecoded)
                 } else {
                     let (_, bytes_len) = self.lzw_reader.decode_bytes(&[], write_into)?;
 
-- 
2.43.0


From 53d1e37cb54e79f1fb462a7263651c340d87930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 10/22] fix: an invalid code after the last pixel is an error
 regardless of chunking

The LZW decoder may interpret one more code after it has filled the output
buffer, if that code is in the input given. The frame with all its pixels was rejected or
accepted depending on how the reader has split the data.
---
 src/reader/decoder.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 91e9be6..fb1b003 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -253,6 +253,8 @@ struct LzwReader {
     decoder: Option<LzwDecoder>,
     min_code_size: u8,
     check_for_end_code: bool,
+    /// Found after the codes for all of the pixels requested so far
+    found_invalid_code: bool,
 }
 
 impl LzwReader {
@@ -261,6 +263,7 @@ impl LzwReader {
             decoder: None,
             min_code_size: 0,
             check_for_end_code,
+            found_invalid_code: false,
         }
     }
 
@@ -275,6 +278,7 @@ impl LzwReader {
 
     pub fn reset(&mut self, min_code_size: u8) -> Result<(), DecodingError> {
         Self::check_code_size(min_code_size)?;
+        self.found_invalid_code = false;
 
         // The decoder can be reused if the code size stayed the same
         if self.min_code_size != min_code_size || self.decoder.is_none() {
@@ -300,6 +304,10 @@ impl LzwReader {
             OutputBuffer::Vec(_) => return Err(io::Error::from(io::ErrorKind::Unsupported)),
         };
 
+        if self.found_invalid_code {
+            return Err(io::Error::new(io::ErrorKind::InvalidData, LzwError::InvalidCode));
+        }
+
         let mut retried = false;
         let decoded = loop {
             let decoded = decoder.decode_bytes(lzw_data, decode_buffer);
@@ -324,6 +332,11 @@ impl LzwReader {
                     return Err(io::Error::new(io::ErrorKind::InvalidData, "no end code in lzw stream"));
                 }
             },
+            Err(LzwError::InvalidCode) if decoded.consumed_out > 0 && decoded.consumed_out == decode_buffer.len() => {
+                // The decoder looks at the next code if it has already been given its data.
+                // The outcome must not depend on how much data it has been given.
+                self.found_invalid_code = true;
+            },
             Err(err @ LzwError::InvalidCode) => {
                 return Err(io::Error::new(io::ErrorKind::InvalidData, err));
             }
-- 
2.43.0


From 1066c48dca8039b36d1372f1d5a61210fa54ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 11/22] fix: StreamingDecoder::update hangs if there is data
 after the trailer

update() repeats until there's an event or the data is consumed.
---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index fb1b003..259ee6d 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -841,7 +841,8 @@ impl StreamingDecoder {
                 debug_assert_eq!(0, b);
                 goto!(BlockEnd, emit Decoded::DataEnd)
             }
-            Trailer => goto!(0, Trailer, emit Decoded::Nothing),
+            // extraneous data after the end is ignored
+            Trailer => goto!(buf.len(), Trailer, emit Decoded::Nothing),
         }
     }
 
-- 
2.43.0


From cf0df0d87139d5ffa4ab6989f3b4838f26c06f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 12/22] fix: from_rgba keeps all transparent pixels transparent

If pixels with alpha of 0 had different RGB values, only the last value was made
transparent, and other invisible pixels became opaque.
---
 src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 2458d06..0c67c99 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -218,7 +218,9 @@ impl Frame<'static> {
             if pix[3] != 0 {
                 pix[3] = 0xFF;
             } else {
-                transparent = Some([pix[0], pix[1], pix[2], pix[3]]);
+                // there can be only one transparent index, so all of them must have the same color
+                let transparent = *transparent.get_or_insert([pix[0], pix[1], pix[2], 0]);
+                pix.copy_from_slice(&transparent);
             }
         }
 
-- 
2.43.0


From 56c64b864dc0fc4abe609fb6fcc58b8b84381257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 13/22] fix: quantization must not merge opaque pixels with
 transparent ones

When the image had too many colors, the index closest to the transparent color was made
transparent, including the opaque pixels which happened to be mapped to it.
---
 src/common.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 0c67c99..6be323c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -230,14 +230,20 @@ impl Frame<'static> {
         for pixel in pixels.chunks_exact(4) {
             if colors.insert((pixel[0], pixel[1], pixel[2], pixel[3])) && colors.len() > 256 {
                 // > 256 colours, let's use NeuQuant.
-                let nq = color_quant::NeuQuant::new(speed, 256, pixels);
+                // The last color is reserved for transparent pixels, so that opaque ones can't be mapped to it.
+                let num_colors = if transparent.is_some() { 255 } else { 256 };
+                let nq = color_quant::NeuQuant::new(speed, num_colors, pixels);
+                let mut palette = nq.color_map_rgb();
+                if let Some([r, g, b, _]) = transparent {
+                    palette.extend_from_slice(&[r, g, b]);
+                }
 
                 return Frame {
                     width,
                     height,
-                    buffer: Cow::Owned(pixels.chunks_exact(4).map(|pix| nq.index_of(pix) as u8).collect()),
-                    palette: Some(nq.color_map_rgb()),
-                    transparent: transparent.map(|t| nq.index_of(&t) as u8),
+                    buffer: Cow::Owned(pixels.chunks_exact(4).map(|pix| if pix[3] == 0 { 255 } else { nq.index_of(pix) as u8 }).collect()),
+                    palette: Some(palette),
+                    transparent: transparent.map(|_| 255),
                     ..Frame::default()
                 };
             }
-- 
2.43.0


From 70dac31c722b36bbfb94251c1e2665ca7d5f0f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 14/22] fix: apply the memory limit to the buffer reserved for
 skipped frames

With skip_frame_decoding(true), read_next_frame() reserved width * height / 4 bytes (up to 1 GiB)
for any frame header, regardless of the memory limit.
---
 src/reader/converter.rs |  4 ++++
 src/reader/mod.rs       | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index 20f36a8..1a3ec19 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -43,6 +43,10 @@ impl PixelConverter {
         }
     }
 
+    pub(crate) const fn memory_limit(&self) -> &MemoryLimit {
+        &self.memory_limit
+    }
+
     pub(crate) fn check_buffer_size(&self, frame: &Frame<'_>) -> Result<usize, DecodingError> {
         let pixel_bytes = self.memory_limit
             .buffer_size(self.color_output, frame.width, frame.height)
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index c51040b..8b58f51 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -60,6 +60,13 @@ impl MemoryLimit {
         }
     }
 
+    fn clamp_size(&self, size: usize) -> usize {
+        match self {
+            Self::Unlimited => size,
+            Self::Bytes(limit) => usize::try_from(limit.get()).map_or(size, |limit| limit.min(size)),
+        }
+    }
+
     fn buffer_size(&self, color: ColorOutput, width: u16, height: u16) -> Option<usize> {
         let pixels = u64::from(width) * u64::from(height);
 
@@ -350,7 +357,8 @@ impl<R> Decoder<R> where R: Read {
                         Vec::new()
                     };
                     // Guesstimate 2bpp
-                    vec.try_reserve(usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4)
+                    let guess = usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4;
+                    vec.try_reserve(self.pixel_converter.memory_limit().clamp_size(guess))
                         .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
                     self.copy_lzw_into_buffer(min_code_size, &mut vec)?;
                     self.current_frame.buffer = Cow::Owned(vec);
-- 
2.43.0


From ecf73f284288f75d3e339312d3260cdff19a45d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 15/22] fix: retry interrupted reads

ErrorKind::Interrupted is non-fatal, and the rest of std::io retries it, but here it made decoding
fail in the middle of a frame.
---
 src/reader/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 8b58f51..c864027 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -212,7 +212,11 @@ impl<R: Read> ReadDecoder<R> {
     fn decode_next(&mut self, write_into: &mut OutputBuffer<'_>) -> Result<Option<Decoded>, DecodingError> {
         while !self.at_eof {
             let (consumed, result) = {
-                let buf = self.reader.fill_buf()?;
+                let buf = match self.reader.fill_buf() {
+                    // not an error, the read has to be retried
+                    Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                    buf => buf?,
+                };
                 if buf.is_empty() {
                     return Err(io::ErrorKind::UnexpectedEof.into());
                 }
-- 
2.43.0


From f00a45e788fa99c5c06ac03901c1bde0cfec0b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 16/22] fix: rejected frames and palettes must not leave
 partial output

A frame rejected for its palette left its control extension behind, which then applied to
unrelated data, and a rejected global palette wrote a lone trailer byte.
---
 src/encoder.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 1933478..3b2042b 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -134,6 +134,8 @@ impl<W: Write> Encoder<W> {
     /// `global_palette` gives the global color palette in the format `[r, g, b, ...]`,
     /// if no global palette shall be used an empty slice may be supplied.
     pub fn new(w: W, width: u16, height: u16, global_palette: &[u8]) -> Result<Self, EncodingError> {
+        // Must fail before there's an encoder that writes the trailer when dropped
+        Self::check_color_table(global_palette)?;
         Self {
             w: Some(w),
             global_palette: false,
@@ -176,12 +178,6 @@ impl<W: Write> Encoder<W> {
     }
 
     fn write_frame_header(&mut self, frame: &Frame<'_>) -> Result<(), EncodingError> {
-        self.write_extension(ExtensionData::new_control_ext(
-            frame.delay,
-            frame.dispose,
-            frame.needs_user_input,
-            frame.transparent,
-        ))?;
         let mut flags = 0;
         if frame.interlaced {
             flags |= 0b0100_0000;
@@ -196,6 +192,12 @@ impl<W: Write> Encoder<W> {
             None if self.global_palette => None,
             _ => return Err(EncodingError::from(EncodingFormatError::MissingColorPalette)),
         };
+        self.write_extension(ExtensionData::new_control_ext(
+            frame.delay,
+            frame.dispose,
+            frame.needs_user_input,
+            frame.transparent,
+        ))?;
         let mut tmp = tmp_buf::<10>();
         tmp.write_le(Block::Image as u8)?;
         tmp.write_le(frame.left)?;
-- 
2.43.0


From 29959c6b4726367887801b6e1525dbcc7bb04512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:18 +0000
Subject: [PATCH 17/22] fix: find the loop count after skipped unknown blocks

---
 src/reader/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 259ee6d..d4a3282 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -669,7 +669,9 @@ impl StreamingDecoder {
                 }
             }
             BlockStart(type_) => {
-                if !self.header_end_reached && type_ != Block::Extension as u8 {
+                // extensions that belong to the header may follow a skipped block
+                let skipped = self.allow_unknown_blocks && Block::from_u8(type_).is_none();
+                if !self.header_end_reached && type_ != Block::Extension as u8 && !skipped {
                     self.header_end_reached = true;
                     return goto!(0, BlockStart(type_), emit Decoded::HeaderEnd);
                 }
-- 
2.43.0


From d624675d120e0f96c23ff2091ce8cfa08ca372db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:26 +0000
Subject: [PATCH 18/22] fix: ignore background color index if there is no
 global palette

---
 src/reader/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index c864027..de1fbf2 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -310,11 +310,10 @@ impl<R> Decoder<R> where R: Read {
                 ))
             }
         }
-        // If the background color is invalid, ignore it
-        if let Some(palette) = self.pixel_converter.global_palette() {
-            if self.bg_color.unwrap_or(0) as usize >= (palette.len() / PLTE_CHANNELS) {
-                self.bg_color = None;
-            }
+        // If the background color is invalid, ignore it. It's meaningless without a global palette.
+        let num_colors = self.global_palette().map_or(0, |palette| palette.len() / PLTE_CHANNELS);
+        if self.bg_color.unwrap_or(0) as usize >= num_colors {
+            self.bg_color = None;
         }
         Ok(self)
     }
-- 
2.43.0


From 19df27149611d9cdb8000a1e25c20b5d47cf8b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 19/22] fix: what is decoded of truncated files must not depend
 on read sizes

---
 src/reader/decoder.rs | 25 +++++++++++++++++++++++++
 src/reader/mod.rs     |  5 ++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index d4a3282..88b1c51 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -344,6 +344,15 @@ impl LzwReader {
         Ok((decoded.consumed_in, decoded.consumed_out))
     }
 
+    /// Decodes the codes of data which has already been consumed
+    pub fn decode_buffered(&mut self, decode_buffer: &mut OutputBuffer<'_>) -> io::Result<usize> {
+        // it's not known whether the stream ends here
+        let check_for_end_code = mem::replace(&mut self.check_for_end_code, false);
+        let result = self.decode_bytes(&[], decode_buffer);
+        self.check_for_end_code = check_for_end_code;
+        result.map(|(_, bytes_written)| bytes_written)
+    }
+
     /// Discards pixels. They're decoded only if it's necessary to find the end code.
     ///
     /// Empty data means there is no more of it.
@@ -490,6 +499,22 @@ impl StreamingDecoder {
         Ok((len - buf.len(), Decoded::Nothing))
     }
 
+    /// Gets pixels for which no more input is needed, if there isn't any.
+    ///
+    /// How far the decompression lags behind the input depends on how the input has been split.
+    pub(crate) fn flush(&mut self, write_into: &mut OutputBuffer<'_>) -> Result<Option<NonZeroUsize>, DecodingError> {
+        if !matches!(self.state, DecodeSubBlock(_)) {
+            return Ok(None);
+        }
+        if let OutputBuffer::Slice(_) = write_into {
+            return Ok(NonZeroUsize::new(self.lzw_reader.decode_buffered(write_into)?));
+        }
+        // Only needed to find the end code, same as in `skip_bytes`
+        let mut scratch = [0; 256];
+        while self.lzw_reader.check_for_end_code && self.lzw_reader.decode_buffered(&mut OutputBuffer::Slice(&mut scratch))? > 0 {}
+        Ok(None)
+    }
+
     /// Returns the data of the last extension that has been decoded.
     #[must_use]
     pub fn last_ext(&self) -> (AnyExtension, &[u8], bool) {
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index de1fbf2..3c82787 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -218,7 +218,10 @@ impl<R: Read> ReadDecoder<R> {
                     buf => buf?,
                 };
                 if buf.is_empty() {
-                    return Err(io::ErrorKind::UnexpectedEof.into());
+                    return match self.decoder.flush(write_into)? {
+                        Some(len) => Ok(Some(Decoded::BytesDecoded(len))),
+                        None => Err(io::ErrorKind::UnexpectedEof.into()),
+                    };
                 }
 
                 self.decoder.update(buf, write_into)?
-- 
2.43.0


From 2c0fa413637898199a7e32054a25e242f3302f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:35 +0000
Subject: [PATCH 20/22] fix: failed Encoder::new and into_inner must not retry
 in drop

---
 src/encoder.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 3b2042b..3ccd133 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -160,9 +160,13 @@ impl<W: Write> Encoder<W> {
         // Color resolution .. FIXME. This is mostly ignored (by ImageMagick at least) but hey, we
         // should use some sensible value here or even allow configuring it?
         flags |= table_size << 4; // wtf flag
-        self.write_screen_desc(flags)?;
-        Self::write_color_table(self.writer()?, palette, padding)?;
-        Ok(self)
+        let res = self.write_screen_desc(flags).map_err(Into::into)
+            .and_then(|()| Self::write_color_table(self.writer()?, palette, padding));
+        if res.is_err() {
+            // `drop` must not write the trailer (and panic) when the error is returned
+            self.w = None;
+        }
+        res.map(|()| self)
     }
 
     /// Writes a frame to the image.
@@ -368,7 +372,12 @@ impl<W: Write> Encoder<W> {
 
     /// Write the final tailer.
     fn write_trailer(&mut self) -> io::Result<()> {
-        self.writer()?.write_le(Block::Trailer as u8)
+        let res = self.writer()?.write_le(Block::Trailer as u8);
+        if res.is_err() {
+            // `drop` must not try again (and panic) when the error has been returned by `into_inner`
+            self.w = None;
+        }
+        res
     }
 
     #[inline]
-- 
2.43.0


From 2656fb9dbb9d12e77ae093e7206d582288719e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:37 +0000
Subject: [PATCH 21/22] fix: buffer_size must not panic on frames larger than
 the address space

---
 src/reader/decoder.rs | 2 +-
 src/reader/mod.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 88b1c51..3961c6c 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -245,7 +245,7 @@ impl FrameDecoder {
     #[inline]
     #[must_use]
     pub fn buffer_size(&self, frame: &Frame<'_>) -> usize {
-        self.pixel_converter.buffer_size(frame).unwrap()
+        self.pixel_converter.buffer_size(frame).unwrap_or(usize::MAX)
     }
 }
 
diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 3c82787..e288828 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -415,7 +415,7 @@ impl<R> Decoder<R> where R: Read {
 
     /// Output buffer size
     pub fn buffer_size(&self) -> usize {
-        self.pixel_converter.buffer_size(&self.current_frame).unwrap()
+        self.pixel_converter.buffer_size(&self.current_frame).unwrap_or(usize::MAX)
     }
 
     /// Line length of the current frame
-- 
2.43.0


From 4355650bc083b6df495d803f97211d1011d4d251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:46 +0000
Subject: [PATCH 22/22] fix: sizes of true color frames must not overflow on
 32-bit targets

---
 src/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 6be323c..7d7b1ec 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -211,7 +211,7 @@ impl Frame<'static> {
     #[cfg(feature = "color_quant")]
     #[track_caller]
     pub fn from_rgba_speed(width: u16, height: u16, pixels: &mut [u8], speed: i32) -> Self {
-        assert_eq!(width as usize * height as usize * 4, pixels.len(), "Too much or too little pixel data for the given width and height to create a GIF Frame");
+        assert_eq!(u64::from(width) * u64::from(height) * 4, pixels.len() as u64, "Too much or too little pixel data for the given width and height to create a GIF Frame");
         assert!(speed >= 1 && speed <= 30, "speed needs to be in the range [1, 30]");
         let mut transparent = None;
         for pix in pixels.chunks_exact_mut(4) {
@@ -344,7 +344,7 @@ impl Frame<'static> {
     #[must_use]
     #[track_caller]
     pub fn from_rgb_speed(width: u16, height: u16, pixels: &[u8], speed: i32) -> Self {
-        assert_eq!(width as usize * height as usize * 3, pixels.len(), "Too much or too little pixel data for the given width and height to create a GIF Frame");
+        assert_eq!(u64::from(width) * u64::from(height) * 3, pixels.len() as u64, "Too much or too little pixel data for the given width and height to create a GIF Frame");
         let mut vec: Vec<u8> = Vec::new();
         vec.try_reserve_exact(pixels.len() + width as usize * height as usize).expect("OOM");
         for v in pixels.chunks_exact(3) {
-- 
2.43.0

