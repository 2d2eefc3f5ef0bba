From 926d9c8df00abfcdfe5523d13024dd37e3fdbb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 01/30] hooks: re-export private modules under cfg(mc_hooks)

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9625ce4..737de2b 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,5 +88,14 @@ pub mod codec;
 mod collections;
 mod math;
 
+/// the private modules, for the model checker only (`RUSTFLAGS="--cfg mc_hooks"`)
+#[allow(unexpected_cfgs)]
+#[cfg(mc_hooks)]
+#[doc(hidden)]
+pub mod mc_hooks {
+    pub use crate::collections::*;
+    pub use crate::math::*;
+}
+
 pub use codec::{adhoc::AdhocCodec, wav::WavCodec, StreamInfo, Streamable};
 pub use std::io::SeekFrom;
-- 
2.43.0


From 073c90942d2b22c9f47e3b457a95387761acf23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 02/30] fix: encode takes whole blocks only, reports how many
 samples it took, and writes no empty frames

---
 src/codec/adhoc.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 4806b20..74648b9 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -213,11 +213,17 @@ impl AdhocCodec {
             })
     }
 
-    fn encode(&mut self, interleaved_pcm: &[f32]) {
+    /// encodes the whole blocks of `interleaved_pcm` and returns the number of samples they make up
+    fn encode(&mut self, interleaved_pcm: &[f32]) -> usize {
         let num_channels = self.stream.info().expect("info not set").channels as usize;
         let num_chunks = interleaved_pcm.len() / num_channels;
         let inv_scale = self.inv_scale;
 
+        //an empty frame carries no audio, and a run of them looks like the end of the stream to decode(..)
+        if num_chunks == 0 {
+            return 0;
+        }
+
         //controls the 'strength'/'influence' of dithering
         const DITHER_AMPLITUDE: f32 = 0.001;
 
@@ -251,6 +257,8 @@ impl AdhocCodec {
             // println!("{:?}", deinterleaved_channel);
             channel_list[channel_idx].encode_frame(stream, block_info, &deinterleaved_channel);
         }
+
+        num_chunks * num_channels
     }
 
     fn decode(&mut self, pcm_out: &mut [f32]) -> usize {
@@ -319,9 +327,7 @@ impl Streamable for AdhocCodec {
     }
 
     fn encode(&mut self, samples: &[f32]) -> Option<usize> {
-        self.encode(samples);
-
-        Some(samples.len())
+        Some(self.encode(samples))
     }
 
     fn decode(&mut self, samples: &mut [f32]) -> Option<usize> {
-- 
2.43.0


From a953cbeb63feacc06cd2c7abec90d0653341d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 03/30] fix: a first block of fewer than three samples per
 channel can be encoded

---
 src/codec/adhoc/frame.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1eb2011..04f218b 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -207,14 +207,17 @@ impl FrameCodec {
 
                 // write first three samples into the stream
                 // and also record then in the history queue
+                // (a first block shorter than that is padded with silence, its header has the real size)
                 for k in 0..3 {
-                    let samp = pcm[k];
+                    let samp = pcm.get(k).copied().unwrap_or_default();
                     let truncated = truncate_sample(samp);
                     stream.write::<u16>(truncated as u16);
                     sample_history.push(truncated);
                 }
 
-                let divisor_exp = Self::compute_optimal_divisor_exponent(sample_history, &pcm[3..]);
+                let remaining_pcm = pcm.get(3..).unwrap_or_default();
+                let divisor_exp =
+                    Self::compute_optimal_divisor_exponent(sample_history, remaining_pcm);
 
                 frame_headers.push(FrameHeader {
                     exponent: divisor_exp as u8,
@@ -229,7 +232,7 @@ impl FrameCodec {
                 });
 
                 //entropy encode
-                for &sample in pcm[3..].iter() {
+                for &sample in remaining_pcm.iter() {
                     let current = truncate_sample(sample);
 
                     parabola.f = [
@@ -309,12 +312,13 @@ impl FrameCodec {
                         let samp = stream.read::<u16>() as i16;
                         sample_history.push(samp);
                     }
-                    for k in 0..num_samples_pre_read {
+                    let num_samples_kept = num_samples_pre_read.min(size as i32);
+                    for k in 0..num_samples_kept {
                         let offset = num_samples_pre_read as u32 - k as u32;
                         let decoded_sample = normalize_sample(sample_history.prev(offset));
                         sample_buffer.push_back(decoded_sample);
                     }
-                    let mut samples_read = num_samples_pre_read as usize;
+                    let mut samples_read = num_samples_kept as usize;
                     //entropy decode
                     for _ in 3..size {
                         let entropy = stream.read_compressed(exponent as i16);
-- 
2.43.0


From f05ebf157079627197e415cdbcaabd5379f1fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 04/30] fix: calls with more than 65535 samples per channel are
 split into frames instead of losing audio

---
 src/codec/adhoc.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 74648b9..7bab16d 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -216,6 +216,17 @@ impl AdhocCodec {
     /// encodes the whole blocks of `interleaved_pcm` and returns the number of samples they make up
     fn encode(&mut self, interleaved_pcm: &[f32]) -> usize {
         let num_channels = self.stream.info().expect("info not set").channels as usize;
+
+        //the size of a frame is stored as u16, so longer input makes more than one frame
+        interleaved_pcm
+            .chunks(u16::MAX as usize * num_channels)
+            .map(|pcm| self.encode_frames(pcm))
+            .sum()
+    }
+
+    /// encodes one frame per channel
+    fn encode_frames(&mut self, interleaved_pcm: &[f32]) -> usize {
+        let num_channels = self.stream.info().expect("info not set").channels as usize;
         let num_chunks = interleaved_pcm.len() / num_channels;
         let inv_scale = self.inv_scale;
 
-- 
2.43.0


From 12c0aa5b8f66c8fdb798d7d2de353ad732c20643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 05/30] fix: jumps across the full range are coded exactly
 instead of overflowing or drifting

---
 src/codec/adhoc/frame.rs | 45 ++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 04f218b..ff43515 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -243,9 +243,7 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    let entropy = Self::compute_entropy(current, predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -280,9 +278,7 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    let entropy = Self::compute_entropy(current, predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -330,10 +326,7 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        let current = Self::apply_entropy(entropy, predicted);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -357,10 +350,7 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        let current = Self::apply_entropy(entropy, predicted);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -374,6 +364,31 @@ impl FrameCodec {
         })
     }
 
+    /// # Description
+    /// difference between a sample and its prediction
+    /// ## Comments
+    /// both are between `-i16::MAX` and `i16::MAX`, so differences are taken modulo the `65535` possible values.
+    /// That way every difference fits into an `i16`, and is reversible with `apply_entropy(..)`
+    fn compute_entropy(current: i16, predicted: i16) -> i16 {
+        Self::wrap_sample(current as i32 - predicted as i32)
+    }
+
+    /// reverses `compute_entropy(..)`
+    fn apply_entropy(entropy: i16, predicted: i16) -> i16 {
+        Self::wrap_sample(entropy as i32 + predicted as i32)
+    }
+
+    fn wrap_sample(val: i32) -> i16 {
+        const MAX: i32 = i16::MAX as i32;
+        const NUM_VALUES: i32 = 2 * MAX + 1;
+        let wrapped = match val {
+            v if v > MAX => v - NUM_VALUES,
+            v if v < -MAX => v + NUM_VALUES,
+            v => v,
+        };
+        wrapped as i16
+    }
+
     fn compute_optimal_divisor_exponent(
         sample_history_ref: &CircularStack<i16>,
         remaining_samples: &[f32],
@@ -390,7 +405,7 @@ impl FrameCodec {
             ];
             parabola.compute_coefs();
             let predicted = truncate_sample(parabola.eval(3.0));
-            let entropy = (current as i32 - predicted as i32).abs() as u32;
+            let entropy = Self::compute_entropy(current, predicted).unsigned_abs() as u32;
             for k in 1..16 {
                 let quotient_bits = (entropy >> k) + 1;
                 let remainder_bits = k as u32;
-- 
2.43.0


From 6a44ff1f60da2e1028f0fdd090205477de44d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 06/30] fix: decoding scales only the samples it delivers, not
 the rest of the caller's buffer

---
 src/codec/adhoc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 7bab16d..0edbcdc 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -319,7 +319,7 @@ impl AdhocCodec {
         }
 
         //scale up signal
-        for s in pcm_out {
+        for s in &mut pcm_out[..pcm_out_cursor] {
             *s *= self.scale
         }
 
-- 
2.43.0


From e08047d8da7f51a5bb9407dc19511663dfb71062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 07/30] fix: seeking past the end or in an empty recording no
 longer panics, and the target is computed exactly

---
 src/codec/adhoc.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 0edbcdc..6a667da 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -349,7 +349,6 @@ impl Streamable for AdhocCodec {
     fn seek(&mut self, dt: SeekFrom) {
         let info = self.stream.info().expect("info not initalized");
         let channels = info.channels as u64;
-        let frequency_in_millis = info.sample_rate as f32 / 1000.0;
 
         self.init();
 
@@ -361,14 +360,22 @@ impl Streamable for AdhocCodec {
         }
 
 
+        if self.frame_header_list.len() == 0 {
+            //nothing was recorded, so there is nothing to skip
+            return;
+        }
+
+        let sample_count_per_channel = self.calculate_sample_count_per_channel();
         let frame_header_list = &mut self.frame_header_list;
         let channel_state_list = &mut self.channel_state_list;
         let stream = &mut self.stream;
 
         match dt {
             SeekFrom::Start(dt) => {
-                let offset = (frequency_in_millis * (dt as f32)) as u64;
-                let offset_in_blocks = offset * channels;
+                let offset = info.sample_rate as u128 * dt as u128 / 1000;
+                //everything at or past the end skips the whole recording
+                let offset_in_blocks =
+                    offset.min(sample_count_per_channel as u128) as u64 * channels;
 
                 let mut samples_skipped = 0;
                 let mut header_block_index = 0;
-- 
2.43.0


From 99a07388638a8494ba2ff91ac6781cad643077e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 08/30] fix: the history stack is empty when it holds nothing,
 not when it is full

---
 src/collections/stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/stack.rs b/src/collections/stack.rs
index f53592a..edf6a99 100755
--- a/src/collections/stack.rs
+++ b/src/collections/stack.rs
@@ -28,7 +28,7 @@ where
     }
 
     pub fn is_empty(&self) -> bool {
-        self.len >= self.data.len() as u32
+        self.len == 0
     }
 
     pub fn push(&mut self, item: T) {
-- 
2.43.0


From 123b6adaaa87ff1516bdfbb139d9cdb83b504150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 09/30] fix: a field crossing into the next chunk replaces the
 bits an earlier recording left there

---
 src/collections/bitstream.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index f07f9d8..c7e552b 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -129,10 +129,8 @@ impl BitStream {
 
         let remaining_bits = CHUNK_SIZE_IN_BITS - chunk_bit_idx;
         if remaining_bits < bits_to_be_written {
-            //clear
-            self.binary[nxt_chunk_idx] &= (1 << (bits_to_be_written - remaining_bits)) - 1;
-            //write
-            self.binary[nxt_chunk_idx] |= bits >> remaining_bits;
+            //nothing in this chunk is right of the bits to be written
+            self.binary[nxt_chunk_idx] = bits >> remaining_bits;
         }
 
         self.offset_bit_cursor(bits_to_be_written as i128);
-- 
2.43.0


From 9c0e0bdb01933036a2d641d555c1153d52fa69ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 10/30] fix: clearing a bit vector or nibble list leaves no
 stale bits behind

---
 src/collections/bitvec.rs      | 1 +
 src/collections/nibble_list.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index e7a858f..587c1c3 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -18,6 +18,7 @@ impl BitVec {
     }
 
     pub fn clear(&mut self) {
+        self.binary.clear();
         self.bit_cursor = 0;
     }
 
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 6fbb91e..7294632 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -59,6 +59,7 @@ impl NibbleList {
     }
 
     pub fn clear(&mut self) {
+        self.data.clear();
         self.nibble_count = 0;
     }
 
-- 
2.43.0


From c7ed6c4c2c75d2d958b5295ef5feb044976b7090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 11/30] fix: recording over a re-initialized codec replaces the
 old recording completely

---
 src/codec/adhoc.rs           |  6 ++++++
 src/codec/adhoc/frame.rs     | 10 ++++++++++
 src/collections/bitstream.rs |  7 +++++++
 3 files changed, 23 insertions(+)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 6a667da..0bfffa3 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -245,6 +245,12 @@ impl AdhocCodec {
         let deinterleaved_channel = &mut self.deinterleaved_channel;
         let seq = &mut self.seq;
 
+        //a new recording replaces whatever was recorded before the codec was re-initialized
+        if let Some(CodecState::Init) = channel_list.first_mut().map(|cs| *cs.state_mut()) {
+            stream.clear();
+            block_info.clear();
+        }
+
         deinterleaved_channel.resize(num_chunks, 0.0);
 
         //de-interleave pcm by channel
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index ff43515..1c0fc8c 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -140,6 +140,16 @@ impl FrameHeaders {
     pub fn reset(&mut self) {
         self.header_cursor = 0;
     }
+
+    /// forgets all headers, but keeps the memory allocated
+    pub fn clear(&mut self) {
+        self.divisor_exp_list.clear();
+        self.is_init_frame_list.clear();
+        self.frame_size_list.clear();
+        self.bit_cursor_list.clear();
+        self.stack_history_list.clear();
+        self.header_cursor = 0;
+    }
 }
 
 impl Iterator for FrameHeaders {
diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index c7e552b..4d7513b 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -244,6 +244,13 @@ impl BitStream {
         self.bit_cursor = 0;
     }
 
+    /// forgets everything written, but keeps the memory allocated
+    pub fn clear(&mut self) {
+        self.binary.clear();
+        self.bit_cursor = 0;
+        self.capacity = 0;
+    }
+
     /// # Description
     /// Writes number `value`, but if unary is too large it will write a fixed signed integer of size `CAPPED_BITS`
     /// to the stream instead.
-- 
2.43.0


From 7b94e104698a0707bd9f63714e586618d42c67d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 12/30] fix: the file size bound counts the length fields
 bincode really writes

---
 src/codec/adhoc.rs       | 6 +++++-
 src/codec/adhoc/frame.rs | 5 ++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 0bfffa3..ebda24a 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -105,9 +105,13 @@ impl AdhocCodec {
         */
         let audio_stream_header =         
             //number of bits AudioStream need to store info 
-            mem::size_of::<StreamInfo>() as u64 * 8; 
+            mem::size_of::<StreamInfo>() as u64 * 8 + 
+            //info is optional, which takes another byte
+            8; 
 
         let bitstream = self.stream.capacity_upperbound() as u64+ 
+          //length of the vec the stream is stored in
+          64 +
           //streams internal cursor + capacity 
           128*2 ;
 
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1c0fc8c..450ba33 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -43,9 +43,8 @@ impl FrameHeaders {
     pub fn calculate_weight_upperbound(&self) -> u64 {
         let len = self.len() as u64;
 
-        //serde bincode needs to put length of vec before the elements get
-        //written out, this is my guess at the size(in bits) of the length value
-        let vector_header_size = 8;
+        //serde bincode puts the length of a vec (64 bits) before the elements
+        let vector_header_size = 64;
 
         let divisor_weight_in_bits = self.divisor_exp_list.capacity() as u64 + vector_header_size;
 
-- 
2.43.0


From 9e65f8e2c8203c71d9e95a7e5f92a3e26b9f8f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 13/30] fix: decoding a wav stream reads its bytes instead of a
 possibly misaligned i16 slice

---
 src/codec/wav.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 5855b70..85c2b2c 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -225,15 +225,6 @@ impl WavCodec {
         self.pcm.len() / 2
     }
 
-    fn get_pcm(pcm: &Vec<u8>) -> &[i16] {
-        unsafe { slice::from_raw_parts(pcm.as_ptr() as *const i16, pcm.len() / 2) }
-    }
-
-    #[allow(dead_code)]
-    fn get_pcm_mut(pcm: &mut Vec<u8>) -> &mut [i16] {
-        unsafe { slice::from_raw_parts_mut(pcm.as_ptr() as *mut i16, pcm.len() / 2) }
-    }
-
     /// writes a sample at current cursor positions (will offset the cursor)
     fn write_sample(&mut self, truncated_sample: i16) {
         let upper_byte = ((truncated_sample >> 8) & 0xff) as u8;
@@ -279,13 +270,14 @@ impl Streamable for WavCodec {
         let num_channels = self.info().channels();
         let stream_length = self.num_samples() as u64;
         let cursor = &mut self.short_cursor;
-        let samples_list = Self::get_pcm(&self.pcm);
+        let pcm = &self.pcm;
 
         //makes sure we can't write partial PCM 'blocks'
         let valid_length = (out.len() / num_channels) * num_channels;
 
         while *cursor < stream_length && out_cursor < valid_length {
-            let sample_i16 = samples_list[*cursor as usize];
+            let byte_index = (*cursor as usize) << 1;
+            let sample_i16 = i16::from_le_bytes([pcm[byte_index], pcm[byte_index + 1]]);
             let normalized_sample = normalize_sample(sample_i16);
             out[out_cursor] = normalized_sample;
             *cursor += 1;
-- 
2.43.0


From 525b28115f0f41e452c11b86da890823de8d142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 14/30] fix: seeking in a wav stream lands on a block within
 the stream, from any origin

---
 src/codec/wav.rs | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 85c2b2c..483e538 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -288,30 +288,18 @@ impl Streamable for WavCodec {
     }
 
     fn seek(&mut self, dt: SeekFrom) {
-        let sample_rate = self.info.sample_rate as f32;
-        let num_channels = self.info.channels() as i64;
-        let num_samples = self.num_samples() as i64;
-
-        let sample_rate_in_milliseconds = sample_rate / 1000.0;
-
-        match dt {
-            SeekFrom::Current(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                let block_index = (self.short_cursor as i64 / num_channels) * num_channels;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-            SeekFrom::Start(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                self.short_cursor = (sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-            SeekFrom::End(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                let block_index = num_samples - num_samples;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-        }
+        let sample_rate = self.info.sample_rate as i128;
+        let num_channels = self.info.channels() as i128;
+        let num_blocks = self.num_samples() as i128 / num_channels;
+
+        let (origin, dt) = match dt {
+            SeekFrom::Start(dt) => (0, dt as i128),
+            SeekFrom::Current(dt) => (self.short_cursor as i128 / num_channels, dt as i128),
+            SeekFrom::End(dt) => (num_blocks, dt as i128),
+        };
+
+        let block_index = (origin + sample_rate * dt / 1000).clamp(0, num_blocks);
+        self.short_cursor = (block_index * num_channels) as u64;
     }
 }
 
-- 
2.43.0


From feb9dd6ff5939a79b77d962b1ecf9d698ddc106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 15/30] fix: the wav header fields no longer overflow for many
 channels or high rates

---
 src/codec/wav.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 483e538..45bf714 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -16,10 +16,10 @@ struct RawWavHeader {
     fmt: [u8; 4],
     cksize: u32,
     audio_format: i16,
-    num_channels: i16,
-    frequncy: i32,
-    bytes_per_sec: i32,
-    block_align: i16,
+    num_channels: u16,
+    frequncy: u32,
+    bytes_per_sec: u32,
+    block_align: u16,
     bits_per_sample: i16,
     data_header: [u8; 4],
     file_size_data: u32,
@@ -115,12 +115,13 @@ impl WavCodec {
     {
         let mut header = RawWavHeader::default();
         header.file_size = mem::size_of::<RawWavHeader>() as u32 - 8 + self.pcm.len() as u32;
-        header.frequncy = self.info.sample_rate as i32;
+        header.frequncy = self.info.sample_rate;
         header.audio_format = 1;
-        header.num_channels = self.info.channels as i16;
+        header.num_channels = u16::try_from(self.info.channels)
+            .map_err(|_| "too many channels for a wav file")?;
         header.cksize = 16;
-        header.bytes_per_sec = (header.frequncy * header.num_channels as i32 * 16) / 8;
-        header.block_align = (header.num_channels * 16) / 8;
+        header.block_align = header.num_channels.wrapping_mul(16 / 8);
+        header.bytes_per_sec = header.frequncy.wrapping_mul(header.num_channels as u32 * 16 / 8);
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
@@ -213,7 +214,7 @@ impl WavCodec {
 
         Ok(Self {
             info: StreamInfo {
-                sample_rate: header.frequncy as u32,
+                sample_rate: header.frequncy,
                 channels: header.num_channels as u32,
             },
             pcm,
-- 
2.43.0


From 6a6d15561ced69caea546ec5fa9419bd8dbe63e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 16/30] fix: a short write no longer cuts the wav header

---
 src/codec/wav.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 45bf714..f901c7d 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -125,7 +125,7 @@ impl WavCodec {
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-        dst.write(header.as_bytes())
+        dst.write_all(header.as_bytes())
             .map_err(|_| "failed to write header")?;
         dst.write_all(&self.pcm)
             .map_err(|_| "failed to write pcm data")
-- 
2.43.0


From 54a490fcf824fa3fdae57c837e8d12f0d4a0c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 17/30] fix: the wav loader walks the chunks and takes exactly
 the samples of the data chunk

---
 src/codec/wav.rs | 100 +++++++++++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 43 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index f901c7d..98b6b65 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -136,66 +136,80 @@ impl WavCodec {
     where
         Resource: Read + Seek,
     {
-        let mut header_binary = [0u8; 256];
+        let mut header = RawWavHeader::default();
 
+        let mut riff_header = [0u8; 12];
         wav_res
-            .read_exact(&mut header_binary)
+            .read_exact(&mut riff_header)
             .map_err(|_| "failed to read header bytes")?;
+        if riff_header[0..4] != header.riff || riff_header[8..12] != header.wave {
+            return Err("not a RIFF/WAVE file");
+        }
 
-        let mut header_slice = &header_binary[..];
-        let mut header = RawWavHeader::default();
-
-        // println!("buffer size ={}", wav_binary.len());
-
-        let (data_start, _) = header_binary
-            .windows(4)
-            .enumerate()
-            .find(|(_, window)| {
-                let number = [b'd', b'a', b't', b'a'];
-                window == &number
-            })
-            .ok_or("data region not found")?;
-
-        header_slice
-            .clone()
-            .read(header.as_bytes_mut())
-            .map_err(|_| "header failed to read")?;
-
-        header
-            .data_header
-            .iter_mut()
-            .zip(header_slice[data_start..data_start + 4].iter())
-            .for_each(|(data_header_byte, &b)| {
-                *data_header_byte = b;
-            });
-
-        header_slice = &header_slice[data_start + 4..];
-        header.file_size_data = u32::from_le_bytes([
-            header_slice[0],
-            header_slice[1],
-            header_slice[2],
-            header_slice[3],
-        ]);
+        // walk through the chunks until the one that holds the samples is found
+        let mut fmt_found = false;
+        loop {
+            let mut chunk_header = [0u8; 8];
+            wav_res
+                .read_exact(&mut chunk_header)
+                .map_err(|_| "data region not found")?;
+            let chunk_id = &chunk_header[0..4];
+            let chunk_size = u32::from_le_bytes([
+                chunk_header[4],
+                chunk_header[5],
+                chunk_header[6],
+                chunk_header[7],
+            ]);
+            // chunks are padded to an even number of bytes
+            let mut bytes_to_skip = chunk_size as i64 + (chunk_size & 1) as i64;
+
+            if chunk_id == header.data_header {
+                header.file_size_data = chunk_size;
+                break;
+            }
+            if chunk_id == header.fmt {
+                let mut fmt = [0u8; 16];
+                if (chunk_size as usize) < fmt.len() {
+                    return Err("fmt chunk is too short");
+                }
+                wav_res
+                    .read_exact(&mut fmt)
+                    .map_err(|_| "failed to read fmt chunk")?;
+                header.audio_format = i16::from_le_bytes([fmt[0], fmt[1]]);
+                header.num_channels = u16::from_le_bytes([fmt[2], fmt[3]]);
+                header.frequncy = u32::from_le_bytes([fmt[4], fmt[5], fmt[6], fmt[7]]);
+                header.bits_per_sample = i16::from_le_bytes([fmt[14], fmt[15]]);
+                bytes_to_skip -= fmt.len() as i64;
+                fmt_found = true;
+            }
+            wav_res
+                .seek(SeekFrom::Current(bytes_to_skip))
+                .map_err(|_| "failed to seek to pcm data")?;
+        }
 
+        if !fmt_found {
+            return Err("fmt chunk not found");
+        }
         if header.bits_per_sample != 16 && header.bits_per_sample != 8 {
             return Err("invalid bits per sample, either 16 or 8 bits per sample is supported ");
         }
         if header.audio_format != 1 {
             return Err("formats other than PCM liner isn't supported");
         }
-
-        // println!("parsed header: {}",header);
-        // println!("pcm data = {} byles", wav_binary.len());
-
-        wav_res
-            .seek(SeekFrom::Start(data_start as u64 + 8))
-            .map_err(|_| "failed to seek to pcm data")?;
+        if header.num_channels == 0 {
+            return Err("a wav file must have at least one channel");
+        }
 
         let mut pcm = Vec::<u8>::new();
         wav_res
+            .take(header.file_size_data as u64)
             .read_to_end(&mut pcm)
             .map_err(|_| "failed to read to end")?;
 
+        // only whole blocks can be decoded
+        let block_size = header.num_channels as usize * (header.bits_per_sample / 8) as usize;
+        pcm.truncate((pcm.len() / block_size) * block_size);
+
         if header.bits_per_sample == 8 {
             //convert 8bit stream to 16bit
             let len = pcm.len();
-- 
2.43.0


From 204ac83c9a5a4b1d283db1b76bb3a3373d7fdf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 18/30] fix: decoding damaged Rice codes wraps instead of
 overflowing

---
 src/collections/bitstream.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index 4d7513b..57c5bf3 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -324,12 +324,12 @@ impl BitStream {
 
     pub fn read_compressed(&mut self, exponent: i16) -> i16 {
         //write sign bit
-        let sign_bit = self.read_bit() as i16;
+        let sign_bit = self.read_bit() as i32;
         let remainder_size_in_bits = exponent as u32;
-        let divisor = 1 << exponent;
+        let divisor = 1i32 << exponent;
 
         //read zero(expected)
-        let mut quotient = 0;
+        let mut quotient = 0i32;
 
         #[allow(unused_assignments)]
         let mut bit_chunk = 0;
@@ -350,12 +350,14 @@ impl BitStream {
             bit_chunk >>= 1;
         }
         self.offset_bit_cursor(zero_bit_pos + 1);
-        quotient += zero_bit_pos.max(0) as i16;
+        quotient += zero_bit_pos.max(0) as i32;
 
         // read
-        let remainder = self.read_bits(remainder_size_in_bits as usize) as i16;
-        let unsigned_val = divisor * quotient + remainder;
-        unsigned_val * (-sign_bit) + unsigned_val * (1 - sign_bit)
+        let remainder = self.read_bits(remainder_size_in_bits as usize) as i32;
+        //only damaged streams have values that don't fit into 16 bits
+        let unsigned_val = divisor.wrapping_mul(quotient).wrapping_add(remainder);
+        let signed_val = unsigned_val.wrapping_mul(1 - 2 * sign_bit);
+        signed_val as i16
     }
 
     fn chunk_index(&self) -> usize {
-- 
2.43.0


From 3118e676d55131078dff1b95c23dc1380aa39e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 19/30] fix: loading refuses adhoc files whose level, channels
 or frame headers cannot be right

---
 src/codec/adhoc.rs       | 20 ++++++++++++++++++--
 src/codec/adhoc/frame.rs | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index ebda24a..c33af5d 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -18,6 +18,8 @@ pub use frame::*;
 
 pub const MAX_DECODE_ATTEMPTS: usize = 10;
 
+const MAX_COMPRESSION_LEVEL: u32 = 10;
+
 #[derive(Copy, Clone)]
 pub enum CodecState {
     Init,
@@ -129,7 +131,7 @@ impl AdhocCodec {
     /// # Description
     /// use this to specify compression `level` where level is 0-10, where 0 is little to no loss in quality while 10 is very,very lossy
     pub fn with_compression_level(mut self, mut level: u32) -> Self {
-        level = level.clamp(0, 10);
+        level = level.clamp(0, MAX_COMPRESSION_LEVEL);
         let scale = (1 << level) as f32;
         self.compression_level = level;
         self.scale = scale;
@@ -198,8 +200,22 @@ impl AdhocCodec {
         bincode::deserialize_from::<_, SlimAdhocCodec>(res)
             .ok()
             .and_then(|slim| {
-                let scale = (1 << slim.compression_level) as f32;
                 let info = slim.stream.info()?;
+                let num_channels = info.channels();
+                let bits_in_stream = slim.stream.capacity_upperbound() as u64;
+
+                //never trust the file
+                let is_level_valid = slim.compression_level <= MAX_COMPRESSION_LEVEL;
+                let is_info_valid = (1..=slim.frame_header_list.len().max(u16::MAX as usize))
+                    .contains(&num_channels);
+                if !is_level_valid
+                    || !is_info_valid
+                    || !slim.frame_header_list.is_valid(num_channels, bits_in_stream)
+                {
+                    return None;
+                }
+
+                let scale = (1 << slim.compression_level) as f32;
                 let mut adhoc_codec = Self {
                     compression_level: slim.compression_level,
                     channel_state_list: (0..info.channels)
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 450ba33..6dffccf 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -128,6 +128,43 @@ impl FrameHeaders {
         })
     }
 
+    /// # Description
+    /// checks that headers read from a file describe frames a stream of `bits_in_stream` bits can have
+    pub fn is_valid(&self, num_channels: usize, bits_in_stream: u64) -> bool {
+        let len = self.len();
+        let are_lists_complete = self.divisor_exp_list.capacity() / 4 >= len
+            && self.is_init_frame_list.len() == len
+            && self.is_init_frame_list.capacity() >= len
+            && self.frame_size_list.len() == len
+            && self.bit_cursor_list.len() == len
+            && self.stack_history_list.len() == len;
+
+        if !are_lists_complete || len % num_channels != 0 {
+            return false;
+        }
+
+        //one frame per channel, all of the same size
+        let are_sizes_equal = self
+            .frame_size_list
+            .chunks(num_channels)
+            .all(|sizes| sizes.iter().all(|size| size == &sizes[0]));
+
+        //every sample takes at least a sign, an end of the unary part, and a remainder,
+        //except for the first three that aren't compressed and take more
+        let bits_required = (0..len)
+            .map(|idx| {
+                self.frame_size_list[idx] as u64 * (2 + self.divisor_exp_list.get(idx) as u64)
+            })
+            .sum::<u64>();
+
+        are_sizes_equal
+            && bits_required <= bits_in_stream
+            && self
+                .bit_cursor_list
+                .iter()
+                .all(|&bit_cursor| bit_cursor <= bits_in_stream)
+    }
+
     pub fn set_cursor(&mut self, idx: u32) {
         self.header_cursor = idx;
     }
-- 
2.43.0


From e25f45ac4fbff99295a12819ae6d30aad48a5204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 20/30] fix: the command line keeps all of a dotted file name
 but its last extension

---
 src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 794666c..8f5f2c8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -104,7 +104,9 @@ pub fn convert_file(input: &Path, output_dir: &Path, compression_level: u32) ->
 
 fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32) -> Option<()> {
     let file = File::open(input).ok()?;
-    let file_name = input.file_stem()?;
+    let mut file_name = input.file_stem()?.to_os_string();
+    //not set_extension(..), because the rest of the name can have dots as well
+    file_name.push(".adhoc");
 
     let mut parsed_wav = WavCodec::load(file).ok()?;
 
@@ -122,9 +124,6 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
 
     file_dest.push(file_name);
 
-    // println!("dest = {:?}",file_dest);
-    file_dest.set_extension("adhoc");
-    
     // println!("final dest = {:?}",file_dest);
 
     compressed_wav.save_to(File::create(file_dest).ok()?);
@@ -133,7 +132,9 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
 }
 fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     let file = File::open(input).ok()?;
-    let file_name = input.file_stem()?;
+    let mut file_name = input.file_stem()?.to_os_string();
+    //not set_extension(..), because the rest of the name can have dots as well
+    file_name.push(".wav");
 
     let mut src_adhoc = AdhocCodec::load(file)?;
     let mut dst_wav = WavCodec::new(src_adhoc.info());
@@ -146,7 +147,6 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
 
     let mut file_dest = PathBuf::from(output_dir);
     file_dest.push(file_name);
-    file_dest.set_extension("wav");
 
     dst_wav.save_to(File::create(file_dest).ok()?).ok()?;
 
-- 
2.43.0


From ad7eb5332e93a7a5cc68728e516ef07ce2548b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 21/30] fix: the command line converts files with more channels
 than its buffer had samples

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8f5f2c8..c695f9b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -114,7 +114,8 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
         .with_compression_level(compression_level)
         .with_info(parsed_wav.info());
 
-    let mut buffer = [0.0; 1024];
+    //no block fits into a buffer smaller than the number of channels
+    let mut buffer = vec![0.0; 1024.max(parsed_wav.info().channels())];
     while let Some(samples_read) = parsed_wav.decode(&mut buffer[..]) {
         compressed_wav.encode(&buffer[0..samples_read]);
     }
@@ -139,7 +140,8 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     let mut src_adhoc = AdhocCodec::load(file)?;
     let mut dst_wav = WavCodec::new(src_adhoc.info());
 
-    let mut buffer = [0.0; 1024];
+    //no block fits into a buffer smaller than the number of channels
+    let mut buffer = vec![0.0; 1024.max(src_adhoc.info().channels())];
 
     while let Some(samples_read) = src_adhoc.decode(&mut buffer[..]) {
         dst_wav.encode(&buffer[0..samples_read]);
-- 
2.43.0


From 90bea198339095dad92059cb246899ac6a63d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 22/30] fix: loading does not refuse a file whose first frame
 uses parameter 15

---
 src/codec/adhoc/frame.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 6dffccf..d23aced 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -150,10 +150,11 @@ impl FrameHeaders {
             .all(|sizes| sizes.iter().all(|size| size == &sizes[0]));
 
         //every sample takes at least a sign, an end of the unary part, and a remainder,
-        //except for the first three that aren't compressed and take more
+        //except for the first three that aren't compressed and take 16 bits
         let bits_required = (0..len)
             .map(|idx| {
-                self.frame_size_list[idx] as u64 * (2 + self.divisor_exp_list.get(idx) as u64)
+                self.frame_size_list[idx] as u64
+                    * (2 + self.divisor_exp_list.get(idx) as u64).min(16)
             })
             .sum::<u64>();
 
-- 
2.43.0


From 93e13d80b2e029c2e3cefb20071b1bcc617ecb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 23/30] fix: clearing a bit vector keeps its memory allocated

---
 src/codec/adhoc/frame.rs  | 8 ++------
 src/collections/bitvec.rs | 3 ++-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index d23aced..bf526e5 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -180,12 +180,8 @@ impl FrameHeaders {
 
     /// forgets all headers, but keeps the memory allocated
     pub fn clear(&mut self) {
-        self.divisor_exp_list.clear();
-        self.is_init_frame_list.clear();
-        self.frame_size_list.clear();
-        self.bit_cursor_list.clear();
-        self.stack_history_list.clear();
-        self.header_cursor = 0;
+        //everything that is allocated in these lists gets serialized, so start over
+        *self = Self::new();
     }
 }
 
diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index 587c1c3..03c6ddf 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -18,7 +18,8 @@ impl BitVec {
     }
 
     pub fn clear(&mut self) {
-        self.binary.clear();
+        //memory stays allocated
+        self.binary.fill(0);
         self.bit_cursor = 0;
     }
 
-- 
2.43.0


From d6802d178a5c067c823d7afdbf6efac9d1a21812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 24/30] fix: the command line takes names that are not valid
 UTF-8

---
 src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c695f9b..ca362b8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -63,7 +63,8 @@ pub fn cli() {
         )
         .get_matches();
 
-    let output_directory = m.value_of("output").unwrap_or("./");
+    //names of files don't have to be valid UTF-8
+    let output_directory = m.value_of_os("output").unwrap_or("./".as_ref());
 
     if Path::new(output_directory).is_dir() == false {
         eprintln!("directory specified is not valid!");
@@ -71,12 +72,13 @@ pub fn cli() {
     }
 
     let input_files = m
-        .values_of("INPUT")
+        .values_of_os("INPUT")
         .map(|values| values.into_iter().collect::<Vec<_>>())
         .unwrap_or_default();
 
     let compression_level = m
-        .value_of("compression_level")
+        .value_of_os("compression_level")
+        .and_then(|val| val.to_str())
         .and_then(|val| val.parse::<u32>().ok())
         .unwrap_or(5);
 
-- 
2.43.0


From bcdccd50ebf04dc65abda270ffea61bfa9d77918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 25/30] fix: the command line leaves no empty file for a
 recording a wav file cannot hold

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index ca362b8..5090b18 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -142,6 +142,9 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     let mut src_adhoc = AdhocCodec::load(file)?;
     let mut dst_wav = WavCodec::new(src_adhoc.info());
 
+    //a wav file can't have more channels than that
+    u16::try_from(src_adhoc.info().channels()).ok()?;
+
     //no block fits into a buffer smaller than the number of channels
     let mut buffer = vec![0.0; 1024.max(src_adhoc.info().channels())];
 
-- 
2.43.0


From 883b8b1e050de9c08bbc4529702dbc990e844b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:06 +0000
Subject: [PATCH 26/30] fix: wav streams too long for the sizes in the header
 are refused instead of saved with wrong ones

---
 src/codec/wav.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 98b6b65..ce7c744 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -113,6 +113,11 @@ impl WavCodec {
     where
         Resource: Write,
     {
+        // sizes in the header are 32 bits wide
+        if self.pcm.len() as u64 > u32::MAX as u64 - (mem::size_of::<RawWavHeader>() as u64 - 8) {
+            return Err("too much audio for a wav file");
+        }
+
         let mut header = RawWavHeader::default();
         header.file_size = mem::size_of::<RawWavHeader>() as u32 - 8 + self.pcm.len() as u32;
         header.frequncy = self.info.sample_rate;
-- 
2.43.0


From daef26b96f77784684c523c0665e9df91f01b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:02 +0000
Subject: [PATCH 27/30] fix: setting a bit or nibble that was not pushed yet
 changes nothing

---
 src/collections/bitvec.rs      | 3 ++-
 src/collections/nibble_list.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index 03c6ddf..99cd2c7 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -75,7 +75,8 @@ impl BitVec {
         let chunk_idx = Self::chunk_index(idx);
         let chunk_bit_idx = Self::chunk_bit_index(idx);
 
-        if chunk_idx >= self.binary.len() {
+        //a chunk can have room for bits that weren't pushed yet
+        if idx >= self.bit_cursor || chunk_idx >= self.binary.len() {
             return;
         }
 
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 7294632..7797e1d 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -51,7 +51,8 @@ impl NibbleList {
     pub fn set(&mut self, idx: usize, val: u8) {
         let block_idx = idx / 2;
         let nibble_idx = (idx % 2) as u8;
-        if block_idx >= self.data.len() {
+        //the last block can have room for a nibble that wasn't pushed yet
+        if idx >= self.len() || block_idx >= self.data.len() {
             return;
         }
         self.data[block_idx] &= (0x0f * nibble_idx) | (0xf0 * (1 - nibble_idx));
-- 
2.43.0


From d65974656d579f6aa4277dad36b99b210c29ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:02 +0000
Subject: [PATCH 28/30] fix: recordings of more than 65537 channels are encoded
 on 32-bit targets

---
 src/codec/adhoc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index c33af5d..09b4361 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -239,7 +239,7 @@ impl AdhocCodec {
 
         //the size of a frame is stored as u16, so longer input makes more than one frame
         interleaved_pcm
-            .chunks(u16::MAX as usize * num_channels)
+            .chunks((u16::MAX as usize).saturating_mul(num_channels))
             .map(|pcm| self.encode_frames(pcm))
             .sum()
     }
-- 
2.43.0


From ed88015410ac6674171801b0db03d0901e04932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:02 +0000
Subject: [PATCH 29/30] fix: streams of 2^32 bits and more are counted in 64
 bits on 32-bit targets

---
 src/codec/adhoc.rs           | 4 ++--
 src/collections/bitstream.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 09b4361..473fc91 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -111,7 +111,7 @@ impl AdhocCodec {
             //info is optional, which takes another byte
             8; 
 
-        let bitstream = self.stream.capacity_upperbound() as u64+ 
+        let bitstream = self.stream.capacity_upperbound()+ 
           //length of the vec the stream is stored in
           64 +
           //streams internal cursor + capacity 
@@ -202,7 +202,7 @@ impl AdhocCodec {
             .and_then(|slim| {
                 let info = slim.stream.info()?;
                 let num_channels = info.channels();
-                let bits_in_stream = slim.stream.capacity_upperbound() as u64;
+                let bits_in_stream = slim.stream.capacity_upperbound();
 
                 //never trust the file
                 let is_level_valid = slim.compression_level <= MAX_COMPRESSION_LEVEL;
diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index 57c5bf3..316192a 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -94,11 +94,11 @@ impl BitStream {
 
     /// # Description
     /// bits currently allocated in memory 
-    pub fn capacity_upperbound(&self)->usize{
+    pub fn capacity_upperbound(&self)->u64{
         // I don't do self.binary.capacity() because 
         // the bincode serializer only writes data
         // that has been Vec::push(..)'d 
-        self.binary.len() * 128
+        self.binary.len() as u64 * 128
     }
 
     /// # Description
-- 
2.43.0


From f4954086364a23cc872483652b49f5759a4b9e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:00 +0000
Subject: [PATCH 30/30] fix: iterating over a list mutably keeps no exclusive
 reference beside a shared one

---
 src/collections/linked_list.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/collections/linked_list.rs b/src/collections/linked_list.rs
index 65abe26..fcaa3f0 100755
--- a/src/collections/linked_list.rs
+++ b/src/collections/linked_list.rs
@@ -160,15 +160,15 @@ impl<T> LinkedList<T> {
     }
     
     pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut T> {
-        let self_ref: &mut Self = unsafe { std::mem::transmute(self as *mut Self) };
-        LinkedListIterator::new(self).map(move |node| {
-            let node = unsafe {
-                &mut *self_ref
-                    .memory
-                    .as_mut_ptr()
-                    .offset(node.as_usize() as isize)
-            };
-            node.data.as_mut().unwrap()
+        let memory = self.memory.as_mut_ptr();
+        let mut items_remaining = self.len();
+        let mut ptr = self.front;
+        std::iter::from_fn(move || {
+            items_remaining = items_remaining.checked_sub(1)?;
+            //every node is visited once, so the references don't overlap
+            let node = unsafe { &mut *memory.add(ptr.as_usize()) };
+            ptr = node.children[1];
+            node.data.as_mut()
         })
     }
 }
-- 
2.43.0

