From d1ca88a437791b8253da695a6daf7d67fe2d778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:38 +0000
Subject: [PATCH 001/100] fix: encode_uvlc overflowed on the largest value,
 which is coded as 32 zeros and a one

---
 src/bool_coder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 46d07fe..9fa9bc0 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -230,10 +230,11 @@ impl BoolCoder {
     }
 
     pub fn encode_uvlc(&mut self, out_bits: &mut Vec<u8>, val: u32) {
-        let v: u64 = (val + 1) as u64;
+        let v: u64 = val as u64 + 1;
         let n = msb64(v);
         for _ in 0..n { out_bits.push(0) }
         out_bits.push(1);
+        if n>=32 { return; }
         for i in (0..n).rev() { out_bits.push(((v>>i)&1) as u8); }
     }
 
-- 
2.43.0


From f7fcee261d0cfbee1808019555b86b22fe7adc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:38 +0000
Subject: [PATCH 002/100] fix: decode_uvlc looped forever when the input ended
 inside the zero prefix

---
 src/bool_coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 9fa9bc0..13063bb 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -246,6 +246,7 @@ impl BoolCoder {
                 if done { break; }
                 else { lz += 1; }
             }
+            else { assert!(false); }
         }
         if lz>=32 { return ((1u64<<32) - 1) as u32; }
         let mut v: u64 = 0;
-- 
2.43.0


From 4dd8e0c9ffaf220858ed6212667348800b210b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:38 +0000
Subject: [PATCH 003/100] fix: decode_symbol counted every consumed bit twice,
 so exit_decoder left bits unread

---
 src/bool_coder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 13063bb..a4bf66e 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -93,7 +93,6 @@ impl BoolCoder {
         for _ in 0..(bits as i32) {
             if let Some(bit) = in_bits.pop_front() {
                 new_data = (new_data << 1) + bit as i32;
-                self.bool_max_bits -= 1;
             }
             else { assert!(false); }
         }
-- 
2.43.0


From 2f04286d38ce3accc981ec38d454fb9cf38761b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:38 +0000
Subject: [PATCH 004/100] fix: init_encoder kept the previous segment's bit
 count, so later segments were not byte aligned

---
 src/bool_coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index a4bf66e..539721f 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -136,6 +136,7 @@ impl BoolCoder {
         self.bool_value_last_zero = false;
         self.bool_value_zero_count = 0;
         self.bool_first = true;
+        self.bit_count = 0;
     }
 
     pub fn encode_symbol(&mut self, symbol: i32, out_bits: &mut Vec<u8>, cdf: &mut [i32]) {
-- 
2.43.0


From 3b80a2165f453f91c5a2f6629f6e3f8a8e46fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:13 +0000
Subject: [PATCH 005/100] fix: sequence header coded the operating point count
 without the minus 1, and had no operating point by default

---
 src/obu_encoder.rs     | 3 +--
 src/sequence_header.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 9797d9c..3a2a10a 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -100,8 +100,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 if ecx.reduced_still_picture_header {
                     // TODO
                 } else {
-                    // FIXME
-                    self.coder.push_bits_with_size(out_bits, sequence_header.operating_points.len() as u32, 5);
+                    self.coder.push_bits_with_size(out_bits, (sequence_header.operating_points.len()-1) as u32, 5); // operating_points_cnt_minus_1
                     for op in sequence_header.operating_points.iter() {
                         self.coder.push_bits_with_size(out_bits, op.idc as u32, 12);
                         self.coder.push_bits_with_size(out_bits, op.seq_level_idx as u32, 5);
diff --git a/src/sequence_header.rs b/src/sequence_header.rs
index 987cdf1..d81ac3b 100644
--- a/src/sequence_header.rs
+++ b/src/sequence_header.rs
@@ -91,7 +91,7 @@ impl SequenceHeader {
     pub fn new(frame_width: usize, frame_height: usize) -> SequenceHeader { SequenceHeader {
         profile: 0,
         still_picture: false,
-        operating_points: vec![],
+        operating_points: vec![OperatingPoint { idc: 0, seq_level_idx: 0, seq_tier: None }],
         frame_width: frame_width,
         frame_height: frame_height,
         max_frame_width: frame_width,
-- 
2.43.0


From 57745a1d416ba26d17824ed4b4e4f12837825ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:13 +0000
Subject: [PATCH 006/100] fix: sequence header announced other frame size
 widths than the maximum frame size was coded with

---
 src/obu_encoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 3a2a10a..dee3930 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -111,12 +111,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
                     }
                 }
-                let frame_width_bits_minus_1 = msb16((sequence_header.frame_width-1) as u16) - 1;
-                let frame_height_bits_minus_1 = msb16((sequence_header.frame_height-1) as u16) - 1;
+                let frame_width_bits_minus_1 = msb16((sequence_header.max_frame_width-1) as u16);
+                let frame_height_bits_minus_1 = msb16((sequence_header.max_frame_height-1) as u16);
                 self.coder.push_bits_with_size(out_bits, frame_width_bits_minus_1 as u32, 4);
                 self.coder.push_bits_with_size(out_bits, frame_height_bits_minus_1 as u32, 4);
-                let frame_width_bits_minus_1 = msb16(sequence_header.max_frame_width as u16) - 1;
-                let frame_height_bits_minus_1 = msb16(sequence_header.max_frame_height as u16) - 1;
                 let nw = frame_width_bits_minus_1 + 1;
                 let nh = frame_height_bits_minus_1 + 1;
                 let max_frame_width_minus_1 = sequence_header.max_frame_width - 1;
-- 
2.43.0


From 88399b3f3410ca3b075e3d9a350c8e853f17dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:13 +0000
Subject: [PATCH 007/100] fix: sequence header coded separate_uv_delta_q for
 monochrome streams, which have no such flag

---
 src/obu_encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index dee3930..4ad8c35 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -252,7 +252,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         self.coder.push_bits_with_size(out_bits, ecx.color_config.chroma_sample_position as u32, 2);
                     }
                 }
-                self.coder.push_bit(out_bits, ecx.color_config.separate_uv_delta_q as u8);
+                if !ecx.color_config.mono_chrome {
+                    self.coder.push_bit(out_bits, ecx.color_config.separate_uv_delta_q as u8);
+                }
 
                 if ecx.reduced_still_picture_header {
                     ecx.timing_info = None;
-- 
2.43.0


From a66f6fe596a5075119134a343b2400d3edda132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:27 +0000
Subject: [PATCH 008/100] fix: settings announced in the sequence header were
 not handed on to the frame headers

---
 src/obu_encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 4ad8c35..013b97a 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -126,7 +126,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 } else {
                     self.coder.push_bit(out_bits, if let Some(_) = sequence_header.frame_id { 1 } else { 0 } as u8);
                 }
+                ecx.frame_id_numbers_present_flag = sequence_header.frame_id.is_some();
                 if let Some(ref fid) = sequence_header.frame_id {
+                    ecx.delta_frame_id_length = fid.delta_frame_id_length as usize;
+                    ecx.additional_frame_id_length = fid.additional_frame_id_length as usize;
                     self.coder.push_bits_with_size(out_bits, (fid.delta_frame_id_length-2) as u32, 4);
                     self.coder.push_bits_with_size(out_bits, (fid.additional_frame_id_length-1) as u32, 3);
                 }
@@ -179,6 +182,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         self.order_hint_bits = 0;
                     }
                 }
+                ecx.order_hint_bits = self.order_hint_bits as u8;
                 self.coder.push_bit(out_bits, ecx.enable_superres as u8);
                 self.coder.push_bit(out_bits, ecx.enable_cdef as u8);
                 self.coder.push_bit(out_bits, ecx.enable_restoration as u8);
@@ -196,6 +200,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bit(out_bits, ecx.color_config.mono_chrome as u8);
                 }
                 self.num_planes = if ecx.color_config.mono_chrome { 1 } else { 3 };
+                ecx.num_planes = self.num_planes;
                 self.coder.push_bit(out_bits, ecx.color_config.color_description.is_some() as u8);
                 if let Some(ref mut cd) = ecx.color_config.color_description {
                     self.coder.push_bits_with_size(out_bits, cd.color_primaries as u32, 8);
-- 
2.43.0


From 32baf6c4ea79150cb813aaa1c7d8ebb2cf3ab159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:28 +0000
Subject: [PATCH 009/100] fix: frame size fields in the frame header were not
 coded with the widths announced in the sequence header

---
 src/encoder.rs     |  4 ++++
 src/obu_encoder.rs | 18 ++++++++++--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 51849ae..58d8cb7 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -78,6 +78,8 @@ pub struct EncoderContext {
     pub tg_start: usize,
     pub tg_end: usize,
     pub frame_size_override_flag: bool,
+    pub frame_width_bits: u8,
+    pub frame_height_bits: u8,
     pub disable_frame_end_update_cdf: bool,
     pub tile_num: usize,
     pub delta_lf: [isize; FRAME_LF_COUNT],
@@ -171,6 +173,8 @@ impl EncoderContext {
         tg_start: 0,
         tg_end: 0,
         frame_size_override_flag: false,
+        frame_width_bits: 16,
+        frame_height_bits: 16,
         disable_frame_end_update_cdf: false,
         tile_num: 0,
         delta_lf: [0; FRAME_LF_COUNT],
diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 013b97a..c648d48 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -117,6 +117,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                 self.coder.push_bits_with_size(out_bits, frame_height_bits_minus_1 as u32, 4);
                 let nw = frame_width_bits_minus_1 + 1;
                 let nh = frame_height_bits_minus_1 + 1;
+                ecx.frame_width_bits = nw;
+                ecx.frame_height_bits = nh;
                 let max_frame_width_minus_1 = sequence_header.max_frame_width - 1;
                 let max_frame_height_minus_1 = sequence_header.max_frame_height - 1;
                 self.coder.push_bits_with_size(out_bits, max_frame_width_minus_1 as u32, nw);
@@ -487,8 +489,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if frame.frame_type==KEY_FRAME {
                         // frame size
                         if ecx.frame_size_override_flag {
-                            let nw = msb16((frame.frame_width-1) as u16);
-                            let nh = msb16((frame.frame_height-1) as u16);
+                            let nw = ecx.frame_width_bits;
+                            let nh = ecx.frame_height_bits;
                             self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                             self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                         } else {
@@ -529,8 +531,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         if frame.frame_type==INTRA_ONLY_FRAME {
                             // frame size
                             if ecx.frame_size_override_flag {
-                                let nw = msb16((frame.frame_width-1) as u16);
-                                let nh = msb16((frame.frame_height-1) as u16);
+                                let nw = ecx.frame_width_bits;
+                                let nh = ecx.frame_height_bits;
                                 self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                 self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                             } else {
@@ -601,8 +603,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 if !found_ref {
                                     // frame size
                                     if ecx.frame_size_override_flag {
-                                        let nw = msb16((frame.frame_width-1) as u16);
-                                        let nh = msb16((frame.frame_height-1) as u16);
+                                        let nw = ecx.frame_width_bits;
+                                        let nh = ecx.frame_height_bits;
                                         self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                         self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                                     } else {
@@ -654,8 +656,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             } else {
                                 // frame size
                                 if ecx.frame_size_override_flag {
-                                    let nw = msb16((frame.frame_width-1) as u16);
-                                    let nh = msb16((frame.frame_height-1) as u16);
+                                    let nw = ecx.frame_width_bits;
+                                    let nh = ecx.frame_height_bits;
                                     self.coder.push_bits_with_size(out_bits, (frame.frame_width-1) as u32, nw as u8);
                                     self.coder.push_bits_with_size(out_bits, (frame.frame_height-1) as u32, nh as u8);
                                 } else {
-- 
2.43.0


From 08dd38b9817363989bcf32e16261bbef8db70918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:29 +0000
Subject: [PATCH 010/100] fix: order hints and sign biases are indexed by
 reference frame name and had no room for the last one

---
 src/encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 58d8cb7..d88527d 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -31,9 +31,9 @@ pub struct EncoderContext {
     pub prev_gm_params: [[isize; 6]; NUM_REF_FRAMES],
     pub film_grain_params: Option<FilmGrainParams>,
     pub ref_film_grain_params: [FilmGrainParams; NUM_REF_FRAMES],
-    pub order_hints: [usize; REFS_PER_FRAME],
+    pub order_hints: [usize; TOTAL_REFS_PER_FRAME],
     pub expected_frame_id: [usize; REFS_PER_FRAME],
-    pub ref_frame_sign_bias: [usize; REFS_PER_FRAME],
+    pub ref_frame_sign_bias: [usize; TOTAL_REFS_PER_FRAME],
     pub seq_force_screen_content_tools: usize,
     pub seq_force_integer_mv: usize,
     pub prev_frame_id: usize,
@@ -116,9 +116,9 @@ impl EncoderContext {
         ref_film_grain_params: [ // FIXME
             FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new(), FilmGrainParams::new()
         ],
-        order_hints: [0; REFS_PER_FRAME],
+        order_hints: [0; TOTAL_REFS_PER_FRAME],
         expected_frame_id: [0; REFS_PER_FRAME],
-        ref_frame_sign_bias: [0; REFS_PER_FRAME],
+        ref_frame_sign_bias: [0; TOTAL_REFS_PER_FRAME],
         seq_force_screen_content_tools: 0,
         seq_force_integer_mv: 0,
         prev_frame_id: 0,
-- 
2.43.0


From 0272bd908df1d767f0c84ff7a08e81339487968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:29 +0000
Subject: [PATCH 011/100] fix: switch frames and shown key frames are error
 resilient by definition

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index c648d48..b021c96 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -390,7 +390,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             self.coder.push_bit(out_bits, ecx.showable_frame as u8);
                         }
                         if frame.frame_type==SWITCH_FRAME || (frame.frame_type==KEY_FRAME && ecx.show_frame) {
-                            frame.error_resilient_mode = false;
+                            frame.error_resilient_mode = true;
                         } else {
                             self.coder.push_bit(out_bits, frame.error_resilient_mode as u8);
                         }
-- 
2.43.0


From f5e395a259732fc3a5f1622fe6d0c6f0e1e8621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:30 +0000
Subject: [PATCH 012/100] fix: reference order hints were not coded for error
 resilient frames

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index b021c96..e76c875 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -480,6 +480,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if !ecx.frame_is_intra || ecx.refresh_frame_flags != self.all_frames as u8 {
                         if frame.error_resilient_mode && ecx.enable_order_hint {
                             for i in 0..NUM_REF_FRAMES {
+                                self.coder.push_bits_with_size(out_bits, frame.ref_order_hint[i] as u32, self.order_hint_bits as u8);
                                 if frame.ref_order_hint[i] != ecx.ref_order_hint[i] {
                                     ecx.ref_valid[i] = false;
                                 }
-- 
2.43.0


From 2137625996da3975174c68ab9a49d6614c2488bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:30 +0000
Subject: [PATCH 013/100] fix: the sign bias of a reference underflowed when
 the reference precedes the frame

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index e76c875..65b5c0e 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -727,10 +727,10 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                     if !ecx.enable_order_hint {
                                         0
                                     } else {
-                                        let mut diff = hint - frame.order_hint as usize;
+                                        let mut diff = hint as isize - frame.order_hint as isize;
                                         let m = 1 << (ecx.order_hint_bits-1);
                                         diff = (diff&(m-1)) - (diff&m);
-                                        diff
+                                        (diff>0) as usize
                                     }
                                 };
                             }
-- 
2.43.0


From 6a05e3d66578fefe7a2a313e4ebe457adee8d8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:31 +0000
Subject: [PATCH 014/100] fix: the render size was compared with the downscaled
 width instead of the upscaled one

---
 src/obu_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 65b5c0e..fdfb16e 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -515,7 +515,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         }
 
                         // render size
-                        let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                        let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                         self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                         if render_and_frame_size_different {
                             self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -557,7 +557,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             }
 
                             // render size
-                            let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                            let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                             self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                             if render_and_frame_size_different {
                                 self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -629,7 +629,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                     }
 
                                     // render size
-                                    let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                                    let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                                     self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                                     if render_and_frame_size_different {
                                         self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
@@ -682,7 +682,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
 
                                 // render size
-                                let render_and_frame_size_different = frame.frame_width!=frame.render_width || frame.frame_height!=frame.render_height;
+                                let render_and_frame_size_different = ecx.upscaled_width!=frame.render_width || frame.frame_height!=frame.render_height;
                                 self.coder.push_bit(out_bits, render_and_frame_size_different as u8);
                                 if render_and_frame_size_different {
                                     self.coder.push_bits_with_size(out_bits, (frame.render_width-1) as u32, 16);
-- 
2.43.0


From 8d409a7e91e689542a576032956d0dc4d62a9e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:31 +0000
Subject: [PATCH 015/100] fix: allow_intrabc was coded for superres key frames,
 which have no such flag

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index fdfb16e..877c722 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -525,7 +525,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             frame.render_height = frame.frame_height;
                         }
 
-                        if frame.allow_screen_content_tools>0 {
+                        if frame.allow_screen_content_tools>0 && ecx.upscaled_width==frame.frame_width {
                             self.coder.push_bit(out_bits, frame.allow_intrabc as u8);
                         }
                     } else {
-- 
2.43.0


From 9bfd27a204256985057130e12e62a326bdbee560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:32 +0000
Subject: [PATCH 016/100] fix: tile info ended the increments at the maximum
 with a bit that is not in the syntax, and failed on more columns than needed

---
 src/obu_encoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 877c722..c6227bb 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -783,7 +783,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         for _ in 0..(frame.tile_cols_log2()-min_log2_tile_cols) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_cols_log2
                         }
-                        self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
+                        if frame.tile_cols_log2() < max_log2_tile_cols {
+                            self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
+                        }
                         let tile_width_sb = (sb_cols+(1<<frame.tile_cols_log2())-1) >> frame.tile_cols_log2();
                         let mut i = 0;
                         let mut start_sb = 0;
@@ -795,12 +797,14 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         ecx.mi_col_starts[i] = mi_cols;
                         //frame.tile_cols() = i;
 
-                        let min_log2_tile_rows = Max!(min_log2_tiles-frame.tile_cols_log2(), 0);
+                        let min_log2_tile_rows = min_log2_tiles.saturating_sub(frame.tile_cols_log2());
                         let max_tile_height_sb = sb_rows >> min_log2_tile_rows;
                         for _ in 0..(frame.tile_rows_log2()-min_log2_tile_rows) {
                             self.coder.push_bit(out_bits, 1 as u8); // increment_tile_rows_log2
                         }
-                        self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
+                        if frame.tile_rows_log2() < max_log2_tile_rows {
+                            self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
+                        }
                         let tile_height_sb = (sb_rows+(1<<frame.tile_rows_log2())-1) >> frame.tile_rows_log2();
                         let mut i = 0;
                         start_sb = 0;
-- 
2.43.0


From 84af19cf294fba515d8bc81483a0b20475497ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:32 +0000
Subject: [PATCH 017/100] fix: tile start positions were stored beyond the end
 of an empty list

---
 src/obu_encoder.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index c6227bb..aad7458 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -787,14 +787,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             self.coder.push_bit(out_bits, 0 as u8); // increment_tile_cols_log2
                         }
                         let tile_width_sb = (sb_cols+(1<<frame.tile_cols_log2())-1) >> frame.tile_cols_log2();
-                        let mut i = 0;
                         let mut start_sb = 0;
+                        ecx.mi_col_starts.clear();
                         while start_sb<sb_cols {
-                            ecx.mi_col_starts[i] = start_sb << sb_shift;
-                            i += 1;
+                            ecx.mi_col_starts.push(start_sb << sb_shift);
                             start_sb += tile_width_sb
                         }
-                        ecx.mi_col_starts[i] = mi_cols;
+                        ecx.mi_col_starts.push(mi_cols);
                         //frame.tile_cols() = i;
 
                         let min_log2_tile_rows = min_log2_tiles.saturating_sub(frame.tile_cols_log2());
@@ -806,14 +805,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             self.coder.push_bit(out_bits, 0 as u8); // increment_tile_rows_log2
                         }
                         let tile_height_sb = (sb_rows+(1<<frame.tile_rows_log2())-1) >> frame.tile_rows_log2();
-                        let mut i = 0;
                         start_sb = 0;
+                        ecx.mi_row_starts.clear();
                         while start_sb<sb_rows {
-                            ecx.mi_row_starts[i] = start_sb << sb_shift;
-                            i += 1;
+                            ecx.mi_row_starts.push(start_sb << sb_shift);
                             start_sb += tile_height_sb;
                         }
-                        ecx.mi_row_starts[i] = mi_rows;
+                        ecx.mi_row_starts.push(mi_rows);
                         //ecx.tile_rows = i;
                     } else {
                         // TODO
-- 
2.43.0


From 21621a11526e825a9714b8ea04792529c5fccfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:14 +0000
Subject: [PATCH 018/100] fix: the last of the eight segmentation features was
 never coded

---
 src/constants.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index 8377541..d1db7cc 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -335,7 +335,7 @@ pub const SEG_LVL_ALT_LF_Y_V: usize = 1; // Index for vertical luma loop filter
 pub const SEG_LVL_REF_FRAME: usize = 5; // Index for reference frame segment feature
 pub const SEG_LVL_SKIP: usize = 6; // Index for skip segment feature
 pub const SEG_LVL_GLOBALMV: usize = 7; // Index for global mv feature
-pub const SEG_LVL_MAX: usize = 7; // Number of segment features
+pub const SEG_LVL_MAX: usize = 8; // Number of segment features
 pub const PLANE_TYPES: usize = 2; // Number of different plane types (luma or chroma)
 pub const TX_SIZE_CONTEXTS: usize = 3; // Number of contexts for transform size
 pub const INTERP_FILTERS: usize = 3; // Number of values for interp_filter
@@ -1015,15 +1015,15 @@ pub const sgrproj_xqd_max: [isize; 2] = [
 ];
 
 // FIXME
-pub const segmentation_feature_bits: [usize; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_bits: [usize; SEG_LVL_MAX] = [
     8 , 6 , 6 , 6 , 6 , 3 , 0 , 0
 ];
 
-pub const segmentation_feature_signed: [bool; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_signed: [bool; SEG_LVL_MAX] = [
     true , true , true , true , true , false , false , false
 ];
 
-pub const segmentation_feature_max: [usize; SEG_LVL_MAX+1] = [
+pub const segmentation_feature_max: [usize; SEG_LVL_MAX] = [
     255, MAX_LOOP_FILTER, MAX_LOOP_FILTER, MAX_LOOP_FILTER, MAX_LOOP_FILTER, 7, 0, 0
 ];
 
-- 
2.43.0


From 1fd670a3323eec52b57eaa58894bb074614c83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:15 +0000
Subject: [PATCH 019/100] fix: unsigned segmentation features were coded as
 signed values, losing their top bit or failing on empty ones

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index aad7458..3fed829 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -892,7 +892,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                             self.coder.encode_su(out_bits, fv as i64, 1+bits_to_read as u8);
                                             clipped_value = Clip3!(-limit, limit, fv);
                                         } else {
-                                            self.coder.encode_su(out_bits, fv as i64, bits_to_read as u8);
+                                            self.coder.push_bits_with_size(out_bits, fv as u32, bits_to_read as u8);
                                             clipped_value = Clip3!(0, limit, fv);
                                         }
                                     }
-- 
2.43.0


From ae9bf59e2826b4bb7d72345639dd61c4a9d9e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:15 +0000
Subject: [PATCH 020/100] fix: coding the segmentation parameters switched
 every unused feature on

---
 src/obu_encoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 3fed829..721dccb 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -884,19 +884,17 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             for i in 0..MAX_SEGMENTS {
                                 for j in 0..SEG_LVL_MAX {
                                     self.coder.push_bit(out_bits, frame.segmentation_params.feature_value[i][j].is_some() as u8);
-                                    let mut clipped_value = 0;
                                     if let Some(fv) = frame.segmentation_params.feature_value[i][j] {
                                         let bits_to_read = segmentation_feature_bits[j];
                                         let limit = segmentation_feature_max[j] as isize;
                                         if segmentation_feature_signed[j] {
                                             self.coder.encode_su(out_bits, fv as i64, 1+bits_to_read as u8);
-                                            clipped_value = Clip3!(-limit, limit, fv);
+                                            frame.segmentation_params.feature_value[i][j] = Some(Clip3!(-limit, limit, fv));
                                         } else {
                                             self.coder.push_bits_with_size(out_bits, fv as u32, bits_to_read as u8);
-                                            clipped_value = Clip3!(0, limit, fv);
+                                            frame.segmentation_params.feature_value[i][j] = Some(Clip3!(0, limit, fv));
                                         }
                                     }
-                                    frame.segmentation_params.feature_value[i][j] = Some(clipped_value);
                                 }
                             }
                         }
-- 
2.43.0


From 9604abaae5f3eb785e03e864a19a11b1d73d732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:16 +0000
Subject: [PATCH 021/100] fix: delta_q_res is a two bit field

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 721dccb..61cacf6 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -925,7 +925,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         frame.delta_q_params.delta_q_present = false;
                     }
                     if frame.delta_q_params.delta_q_present {
-                        self.coder.push_bit(out_bits, frame.delta_q_params.delta_q_res as u8);
+                        self.coder.push_bits_with_size(out_bits, frame.delta_q_params.delta_q_res as u32, 2);
                     } else {
                         frame.delta_q_params.delta_q_res = 0;
                     }
-- 
2.43.0


From af3f7c32cc890b2e6343eeafdddfb26479c09929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:16 +0000
Subject: [PATCH 022/100] fix: the frame quantizer index for the lossless
 decision came from the current block instead of the frame

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 61cacf6..74b25ce 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -963,7 +963,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 qindex = ecx.current_q_index as isize + data;
                             }
                             return Clip3!(0isize, 255isize, qindex) as usize;
-                        } else if ignore_delta_q {
+                        } else if !ignore_delta_q && frame.delta_q_params.delta_q_present {
                             return ecx.current_q_index;
                         } else {
                             return frame.quantization_params.base_q_idx as usize;
-- 
2.43.0


From f3f6181cb5d98649b32400e16fae32510b13e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:17 +0000
Subject: [PATCH 023/100] fix: loop filter mode deltas were coded under the
 flag of the reference deltas

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 74b25ce..b513df0 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1028,7 +1028,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 }
                                 for i in 0..2 {
                                     self.coder.push_bit(out_bits, frame.loop_filter_params.update_mode_delta[i] as u8);
-                                    if frame.loop_filter_params.update_ref_delta[i] {
+                                    if frame.loop_filter_params.update_mode_delta[i] {
                                         self.coder.encode_su(out_bits, frame.loop_filter_params.loop_filter_mode_deltas[i] as i64, 1+6);
                                     }
                                 }
-- 
2.43.0


From 888f62b1f06735ed9152ecd1cf84de61a32e7269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:17 +0000
Subject: [PATCH 024/100] fix: cdef parameters were coded although the sequence
 header disables cdef, and resetting them failed on empty lists

---
 src/obu_encoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index b513df0..dc0282b 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1037,12 +1037,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     }
 
                     // cdef params
-                    if ecx.coded_lossless || frame.allow_intrabc {
+                    if ecx.coded_lossless || frame.allow_intrabc || !ecx.enable_cdef {
                         frame.cdef_params.cdef_bits = 0;
-                        frame.cdef_params.cdef_y_pri_strength[0] = 0;
-                        frame.cdef_params.cdef_y_sec_strength[0] = 0;
-                        frame.cdef_params.cdef_uv_pri_strength[0] = 0;
-                        frame.cdef_params.cdef_uv_sec_strength[0] = 0;
+                        frame.cdef_params.cdef_y_pri_strength = vec![0];
+                        frame.cdef_params.cdef_y_sec_strength = vec![0];
+                        frame.cdef_params.cdef_uv_pri_strength = vec![0];
+                        frame.cdef_params.cdef_uv_sec_strength = vec![0];
                         frame.cdef_params.cdef_damping = 3;
                     } else {
                         self.coder.push_bits_with_size(out_bits, (frame.cdef_params.cdef_damping-3) as u32, 2);
-- 
2.43.0


From 8548e2218187ea1d2eaa67c9c31db113de4f3655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:18 +0000
Subject: [PATCH 025/100] fix: loop restoration parameters were coded exactly
 when the sequence header disables restoration

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index dc0282b..b9bde29 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1064,7 +1064,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     }
 
                     // lr params
-                    if ecx.all_lossless || frame.allow_intrabc || ecx.enable_restoration {
+                    if ecx.all_lossless || frame.allow_intrabc || !ecx.enable_restoration {
                         ecx.frame_restoration_type[0] = RESTORE_NONE;
                         ecx.frame_restoration_type[1] = RESTORE_NONE;
                         ecx.frame_restoration_type[2] = RESTORE_NONE;
-- 
2.43.0


From 3d5fb8ab64a2d5b3123870562ece05f66cecef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:18 +0000
Subject: [PATCH 026/100] fix: a restoration unit shift of two was coded as the
 bit 2

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index b9bde29..770bda4 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1086,7 +1086,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             if ecx.use_128x128_superblock {
                                 self.coder.push_bit(out_bits, (frame.lr_params.lr_unit_shift-1) as u8);
                             } else {
-                                self.coder.push_bit(out_bits, frame.lr_params.lr_unit_shift as u8);
+                                self.coder.push_bit(out_bits, (frame.lr_params.lr_unit_shift>0) as u8);
                                 if frame.lr_params.lr_unit_shift>=1 {
                                     frame.lr_params.lr_unit_extra_shift = frame.lr_params.lr_unit_shift - 1;
                                     self.coder.push_bit(out_bits, frame.lr_params.lr_unit_extra_shift as u8);
-- 
2.43.0


From 4cb25fb88141a47af4b4e0fd5b9e4c1f84cc263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:19 +0000
Subject: [PATCH 027/100] fix: chroma restoration sizes were not derived from
 the luma size

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 770bda4..2764d3f 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1098,8 +1098,8 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                             } else {
                                 frame.lr_params.lr_uv_shift = 0;
                             }
-                            ecx.loop_restoration_size[1] >>= frame.lr_params.lr_uv_shift;
-                            ecx.loop_restoration_size[2] >>= frame.lr_params.lr_uv_shift;
+                            ecx.loop_restoration_size[1] = ecx.loop_restoration_size[0] >> frame.lr_params.lr_uv_shift;
+                            ecx.loop_restoration_size[2] = ecx.loop_restoration_size[0] >> frame.lr_params.lr_uv_shift;
                         }
                     }
 
-- 
2.43.0


From 9a6a59e0c13c6133cb7be40ff4bad5bb2da06072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:19 +0000
Subject: [PATCH 028/100] fix: global motion left out the last reference frame

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 2764d3f..4e42558 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1195,14 +1195,14 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bit(out_bits, frame.reduced_tx_set as u8);
 
                     // global motion params
-                    for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize) {
+                    for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                         ecx.gm_type[rf] = IDENTITY;
                         for i in 0..6 {
                             ecx.gm_params[rf][i] = if i%3==2 { 1<<WARPEDMODEL_PREC_BITS } else { 0 };
                         }
                     }
                     if !ecx.frame_is_intra {
-                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize) {
+                        for rf in (LAST_FRAME as usize)..(ALTREF_FRAME as usize + 1) {
                             let mut typ;
                             self.coder.push_bit(out_bits, frame.global_motion_params.is_global[rf] as u8);
                             if frame.global_motion_params.is_global[rf] {
-- 
2.43.0


From e4d6b397040db7de72431225e843861b3be53d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:19 +0000
Subject: [PATCH 029/100] fix: the fifth parameter of a rotation-zoom model has
 the sign of the second

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 4e42558..90a037c 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1296,7 +1296,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 encode_global_param(typ, rf, 5, &ecx, self.coder);
                                 } else {
                                     ecx.gm_params[rf][4] = -ecx.gm_params[rf][3];
-                                    ecx.gm_params[rf][5] = -ecx.gm_params[rf][2];
+                                    ecx.gm_params[rf][5] = ecx.gm_params[rf][2];
                                 }
                             }
                             if typ >= TRANSLATION {
-- 
2.43.0


From 16713ec21d49be6a340bf0e942d615ffa96e0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:20 +0000
Subject: [PATCH 030/100] fix: global motion parameters were recentered with
 the inverse (decoder) mapping and coded over a short alphabet

---
 src/obu_encoder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 90a037c..56661ed 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1236,13 +1236,13 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 let mx = 1 << abs_bits;
                                 let r = (ecx.prev_gm_params[rf][idx]>>prec_diff) - sub;
 
-                                let inverse_recenter = |r: usize, v: usize| -> usize {
+                                let recenter = |r: usize, v: usize| -> usize {
                                     if v > 2*r {
                                         v
-                                    } else if v&1 > 0 {
-                                        r - ((v+1)>>1)
+                                    } else if v >= r {
+                                        (v-r) << 1
                                     } else {
-                                        r + (v>>1)
+                                        ((r-v)<<1) - 1
                                     }
                                 };
                                 let mut encode_subexp = |v: usize, num_syms: usize, coder: &mut BoolCoder| -> () {
@@ -1273,12 +1273,12 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 };
                                 let mut encode_unsigned_subexp_with_ref = |v: usize, mx: usize, r: usize, coder: &mut BoolCoder| -> () {
                                     if (r<<1) <= mx {
-                                        let tv = inverse_recenter(r, v);
+                                        let tv = recenter(r, v);
                                         encode_subexp(tv, mx, coder);
                                     } else {
                                         let mut tv = mx - 1 - v;
-                                        tv = inverse_recenter(mx-1-r, tv);
-                                        encode_subexp(tv, mx-1-r, coder);
+                                        tv = recenter(mx-1-r, tv);
+                                        encode_subexp(tv, mx, coder);
                                     }
                                 };
                                 let mut encode_signed_subexp_with_ref = |v: isize, low: isize, high: isize, r: isize, coder: &mut BoolCoder| -> () {
-- 
2.43.0


From f462d1c424b3bf3aefa754a617ef1dd918c67aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:21 +0000
Subject: [PATCH 031/100] fix: film grain parameters were coded for streams
 without film grain and for frames that are never shown

---
 src/obu_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 56661ed..4a5f487 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1308,9 +1308,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
                     // film grain params
                     // FIXME refactor
-                    if ecx.film_grain_params.is_none() || (!ecx.show_frame && !ecx.showable_frame) {
+                    if ecx.film_grain_params.is_some() && !ecx.show_frame && !ecx.showable_frame {
                         ecx.film_grain_params = Some(FilmGrainParams::new());
-                    } if ecx.film_grain_params.is_some() {
+                    } else if ecx.film_grain_params.is_some() {
                         let tmp_fgp = ecx.ref_film_grain_params[ecx.film_grain_params.as_ref().unwrap().film_grain_params_ref_idx as usize].clone();
                         let tmp_cc = ecx.color_config.clone();
                         if let Some(ref mut fgp) = ecx.film_grain_params {
-- 
2.43.0


From 9518f106a0207af630e1f0b5cccac8abaf447bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:21 +0000
Subject: [PATCH 032/100] fix: timecode metadata was coded with the type of
 scalability metadata

---
 src/obu_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 4a5f487..5f95455 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1534,7 +1534,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         time_offset_length: tol,
                         time_offset_value: tov,
                     } => {
-                        self.coder.encode_leb128(out_bits, 3);
+                        self.coder.encode_leb128(out_bits, 5);
                         self.coder.push_bits_with_size(out_bits, ct as u32, 5);
                         if let (Some(s), Some(m), Some(h)) = (secs, mins, hrs) {
                             self.coder.push_bit(out_bits, 1);
-- 
2.43.0


From aaa0434dbf18fc9c30be6d8dcbf16f9bfed458b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:43 +0000
Subject: [PATCH 033/100] fix: unit payloads were written in front of their own
 size and header, without trailing bits, and sizes counted bits

---
 src/obu_encoder.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 5f95455..c7cac74 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1587,22 +1587,29 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
         if obu.obu_has_size_field {
             let obu_size = obu_payload_bits.len();
         }*/
-        self.writer.write_bits(&obu_payload_bits);
-        self.writer.byte_align();
+        let has_trailing_bits = match obu {
+            &mut OBU_TILE_GROUP(_) | &mut OBU_FRAME { .. } => false,
+            _ => obu_payload_bits.len()>0,
+        };
+        self.coder.push_bits(out_bits, &obu_payload_bits);
+        if has_trailing_bits {
+            self.coder.push_bit(out_bits, 1); // trailing_one_bit
+        }
+        self.coder.push_bits_align(out_bits);
     }
 
     pub fn encode_temporal_unit(&mut self, mut obu: &mut OBU) -> () {
         let mut obu_bits = vec![];
         self.encode_obu(&mut obu, &mut obu_bits);
-        let obu_length = obu_bits.len();
+        let obu_length = obu_bits.len() / 8;
         let mut frame_unit_bits = vec![];
         self.coder.encode_leb128(&mut frame_unit_bits, obu_length as u64);
         self.coder.push_bits(&mut frame_unit_bits, &obu_bits);
-        let frame_unit_size = frame_unit_bits.len();
+        let frame_unit_size = frame_unit_bits.len() / 8;
         let mut temporal_unit_bits = vec![];
         self.coder.encode_leb128(&mut temporal_unit_bits, frame_unit_size as u64);
         self.coder.push_bits(&mut temporal_unit_bits, &frame_unit_bits);
-        let temporal_unit_size = temporal_unit_bits.len();
+        let temporal_unit_size = temporal_unit_bits.len() / 8;
         let mut temporal_unit_size_bits = vec![];
         self.coder.encode_leb128(&mut temporal_unit_size_bits, temporal_unit_size as u64);
 
-- 
2.43.0


From 24000436a580df9261913629e77f7bc42088fd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:43 +0000
Subject: [PATCH 034/100] fix: a byte the output did not accept at once was
 dropped

---
 src/binary_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_writer.rs b/src/binary_writer.rs
index bfd727b..37814d6 100644
--- a/src/binary_writer.rs
+++ b/src/binary_writer.rs
@@ -33,7 +33,7 @@ impl<'a> BinaryWriter<'a> {
         if self.index==8 {
             self.index = 0;
             let tmp = [self.buf];
-            if let Err(e) = self.write(&tmp) {
+            if let Err(e) = self.write_all(&tmp) {
                 assert!(false, e);
             }
             self.buf = 0;
-- 
2.43.0


From 45b5df8545a11e040d867528b3618b66b520d9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:59 +0000
Subject: [PATCH 035/100] fix: a tile count that is no power of two was
 announced as the next smaller power

---
 src/frame.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 857cd30..c184f36 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -383,10 +383,12 @@ impl Frame {
     }
 
     pub fn tile_cols_log2(&self) -> usize {
-        msb16(self.tile_col_starts.len() as u16) as usize
+        let n = self.tile_col_starts.len();
+        if n<=1 { 0 } else { msb16((n-1) as u16) as usize + 1 }
     }
 
     pub fn tile_rows_log2(&self) -> usize {
-        msb16(self.tile_row_starts.len() as u16) as usize
+        let n = self.tile_row_starts.len();
+        if n<=1 { 0 } else { msb16((n-1) as u16) as usize + 1 }
     }
 }
\ No newline at end of file
-- 
2.43.0


From ff78692f523dedf18afd6049d36bab3cbf0918ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:04 +0000
Subject: [PATCH 036/100] fix: timecode metadata left out the discontinuity,
 dropped count and frame number fields

---
 src/obu.rs         |  3 +++
 src/obu_encoder.rs | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/obu.rs b/src/obu.rs
index b9cc16b..a6611af 100644
--- a/src/obu.rs
+++ b/src/obu.rs
@@ -62,6 +62,9 @@ pub enum MetaData {
     },
     METADATA_TYPE_TIMECODE { // 5
         counting_type: u8,
+        discontinuity_flag: bool,
+        cnt_dropped_flag: bool,
+        n_frames: u16,
         seconds: Option<u8>,
         minutes: Option<u8>,
         hours: Option<u8>,
diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index c7cac74..e4ad259 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1528,6 +1528,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     },
                     &METADATA_TYPE_TIMECODE {
                         counting_type: ct,
+                        discontinuity_flag: df,
+                        cnt_dropped_flag: cdf,
+                        n_frames: nf,
                         seconds: secs,
                         minutes: mins,
                         hours: hrs,
@@ -1536,13 +1539,16 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     } => {
                         self.coder.encode_leb128(out_bits, 5);
                         self.coder.push_bits_with_size(out_bits, ct as u32, 5);
+                        let full_timestamp_flag = secs.is_some() && mins.is_some() && hrs.is_some();
+                        self.coder.push_bit(out_bits, full_timestamp_flag as u8);
+                        self.coder.push_bit(out_bits, df as u8);
+                        self.coder.push_bit(out_bits, cdf as u8);
+                        self.coder.push_bits_with_size(out_bits, nf as u32, 9);
                         if let (Some(s), Some(m), Some(h)) = (secs, mins, hrs) {
-                            self.coder.push_bit(out_bits, 1);
                             self.coder.push_bits_with_size(out_bits, s as u32, 6);
                             self.coder.push_bits_with_size(out_bits, m as u32, 6);
                             self.coder.push_bits_with_size(out_bits, h as u32, 5);
                         } else {
-                            self.coder.push_bit(out_bits, 0);
                             if let Some(s) = secs {
                                 self.coder.push_bit(out_bits, 1);
                                 self.coder.push_bits_with_size(out_bits, s as u32, 6);
-- 
2.43.0


From a11b6b9559742fb83fcdaab4b22ccdad041005ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:05 +0000
Subject: [PATCH 037/100] fix: the payload of ITU-T T.35 metadata was dropped

---
 src/obu_encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index e4ad259..b6bf114 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1465,7 +1465,9 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                         if cc==0xFF {
                             self.coder.push_bits_with_size(out_bits, 0 as u32, 8); // FIXME itu_t_t35_country_code_extension_byte
                         }
-                        // FIXME itu_t_t35_payload_bytes not in spec
+                        for b in pb.iter() {
+                            self.coder.push_bits_with_size(out_bits, *b as u32, 8); // itu_t_t35_payload_bytes
+                        }
                     },
                     &METADATA_TYPE_HDR_CLL { max_cll: mc, max_fall: mf } => {
                         self.coder.encode_leb128(out_bits, 1);
-- 
2.43.0


From 916c34f827e19c9e82379154c835929f544256f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:58 +0000
Subject: [PATCH 038/100] fix: announcing a sequence without colour description
 switched the description on for later announcements

---
 src/obu_encoder.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index b6bf114..7850960 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -209,20 +209,18 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     self.coder.push_bits_with_size(out_bits, cd.transfer_characteristics as u32, 8);
                     self.coder.push_bits_with_size(out_bits, cd.matrix_coefficients as u32, 8);
                 }
-                if ecx.color_config.color_description.is_none() {
-                    ecx.color_config.color_description = Some( ColorDescription {
-                        color_primaries: CP_UNSPECIFIED,
-                        transfer_characteristics: TC_UNSPECIFIED,
-                        matrix_coefficients: MC_UNSPECIFIED
-                    });
-                }
+                let color_description = ecx.color_config.color_description.unwrap_or(ColorDescription {
+                    color_primaries: CP_UNSPECIFIED,
+                    transfer_characteristics: TC_UNSPECIFIED,
+                    matrix_coefficients: MC_UNSPECIFIED
+                });
                 if ecx.color_config.mono_chrome {
                     self.coder.push_bit(out_bits, ecx.color_config.color_range as u8);
                     ecx.color_config.subsampling_x = true;
                     ecx.color_config.subsampling_y = true;
                     ecx.color_config.chroma_sample_position = CSP_UNKNOWN;
                     ecx.color_config.separate_uv_delta_q = false;
-                } else if ecx.color_config.color_description.unwrap() == (ColorDescription {
+                } else if color_description == (ColorDescription {
                     color_primaries: CP_BT_709,
                     transfer_characteristics: TC_SRGB,
                     matrix_coefficients: MC_IDENTITY
-- 
2.43.0


From 0dcb57b4ec790d88ff9b5702b6076597faf2b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:23 +0000
Subject: [PATCH 039/100] fix: chroma mode was coded with the table of the
 chroma mode instead of that of the luma mode

---
 src/bool_coder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 539721f..a8a8250 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -402,13 +402,13 @@ impl BoolCoder {
         self.encode_symbol(y_mode as i32, out_bits, cdf);
     }
 
-    pub fn encode_uv_mode(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, uv_mode: YMode, mi_size: BlockSize, lossless: bool, subsampling_x: bool, subsampling_y: bool) {
+    pub fn encode_uv_mode(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, uv_mode: YMode, y_mode: YMode, mi_size: BlockSize, lossless: bool, subsampling_x: bool, subsampling_y: bool) {
         let cdf: &mut [i32] = if lossless && get_plane_residual_size(mi_size, 1, subsampling_x, subsampling_y)==BLOCK_4X4 {
-            &mut tile_cdf.uv_mode_cfl_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_allowed[y_mode as usize]
         } else if !lossless && Max!(block_width[mi_size as usize], block_height[mi_size as usize])<=32 {
-            &mut tile_cdf.uv_mode_cfl_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_allowed[y_mode as usize]
         } else {
-            &mut tile_cdf.uv_mode_cfl_not_allowed[uv_mode as usize]
+            &mut tile_cdf.uv_mode_cfl_not_allowed[y_mode as usize]
         };
         self.encode_symbol(uv_mode as i32, out_bits, cdf);
     }
-- 
2.43.0


From f68045b16ef9d2c44ef6ff8d048a53f125a2d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:24 +0000
Subject: [PATCH 040/100] fix: split_or_horz and split_or_vert summed the wrong
 partition probabilities and overflowed the shift

---
 src/bool_coder.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index a8a8250..ebf4a9c 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -455,14 +455,14 @@ impl BoolCoder {
             &mut tile_cdf.partition_w128[ctx]
         };
         let mut psum = partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
-                   partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1];
+                   partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1] +
+                   partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
+                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1] +
+                   partition_cdf[PARTITION_VERT_B as usize] - partition_cdf[PARTITION_VERT_B as usize - 1];
         if bsize != BLOCK_128X128 {
             psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
         }
-        let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
+        let mut cdf = [ (1<<15) - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_horz, out_bits, &mut cdf);
     }
 
@@ -480,15 +480,15 @@ impl BoolCoder {
         } else {
             &mut tile_cdf.partition_w128[ctx]
         };
-        let mut psum = partition_cdf[PARTITION_VERT as usize] - partition_cdf[PARTITION_VERT as usize - 1] +
+        let mut psum = partition_cdf[PARTITION_HORZ as usize] - partition_cdf[PARTITION_HORZ as usize - 1] +
                    partition_cdf[PARTITION_SPLIT as usize] - partition_cdf[PARTITION_SPLIT as usize - 1] +
                    partition_cdf[PARTITION_HORZ_A as usize] - partition_cdf[PARTITION_HORZ_A as usize - 1] +
-                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1] +
-                   partition_cdf[PARTITION_VERT_B as usize] - partition_cdf[PARTITION_VERT_B as usize - 1];
+                   partition_cdf[PARTITION_HORZ_B as usize] - partition_cdf[PARTITION_HORZ_B as usize - 1] +
+                   partition_cdf[PARTITION_VERT_A as usize] - partition_cdf[PARTITION_VERT_A as usize - 1];
         if bsize != BLOCK_128X128 {
-            psum += partition_cdf[PARTITION_VERT_4 as usize] - partition_cdf[PARTITION_VERT_4 as usize - 1];
+            psum += partition_cdf[PARTITION_HORZ_4 as usize] - partition_cdf[PARTITION_HORZ_4 as usize - 1];
         }
-        let mut cdf = [ 1<<15 - psum, 1<<15, 0 ];
+        let mut cdf = [ (1<<15) - psum, 1<<15, 0 ];
         self.encode_symbol(split_or_vert, out_bits, &mut cdf);
     }
 
-- 
2.43.0


From 48e3ef3b56450a4bb210dc53f7d47c2b765f2f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:25 +0000
Subject: [PATCH 041/100] fix: transform depth context took the width of an
 inter left neighbour for its height

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index ebf4a9c..9de1ac4 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -505,7 +505,7 @@ impl BoolCoder {
         };
         let left_h = match frame.get_left_mi(mi_row, mi_col) {
             Some(mi) => if mi.is_inter {
-                block_width[mi.mi_size as usize]
+                block_height[mi.mi_size as usize]
             } else {
                 tx_height[mi.tx_size as usize]
             },
-- 
2.43.0


From 71ea1271e1e3cd7c716ac95d36cf7b9fa08a5f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:26 +0000
Subject: [PATCH 042/100] fix: transform split context added neighbour sizes
 instead of comparing them and mixed up left and above

---
 src/bool_coder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 9de1ac4..ed723d7 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -525,26 +525,26 @@ impl BoolCoder {
     }
 
     pub fn encode_txfm_split(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, row: usize, col: usize, mi_row: usize, mi_col: usize, frame: &mut Frame, tx_size: TxSize, mi_size: BlockSize, tx_fm_split: usize) {
-        let above = if row==mi_row {
+        let above = (if row==mi_row {
             match frame.get_above_mi(row, col) {
                 Some(mi) => if mi.skip && mi.is_inter {
                     block_width[mi.mi_size as usize]
                 } else { tx_width[mi.tx_size as usize] },
                 None => 64,
             }
-        } else { tx_width[frame.get_above_mi(row, col).unwrap().tx_size as usize] };
-        let left = if col==mi_col {
+        } else { tx_width[frame.get_above_mi(row, col).unwrap().tx_size as usize] }) < tx_width[tx_size as usize];
+        let left = (if col==mi_col {
             match frame.get_left_mi(row, col) {
                 Some(mi) => if mi.skip && mi.is_inter {
-                    block_width[mi.mi_size as usize]
-                } else { tx_width[mi.tx_size as usize] },
+                    block_height[mi.mi_size as usize]
+                } else { tx_height[mi.tx_size as usize] },
                 None => 64,
             }
-        } else { tx_width[frame.get_above_mi(row, col).unwrap().tx_size as usize] };
+        } else { tx_height[frame.get_left_mi(row, col).unwrap().tx_size as usize] }) < tx_height[tx_size as usize];
         let size = Min!(64, Max!(block_width[mi_size as usize], block_height[mi_size as usize]));
         let max_tx_size = find_tx_size(size, size);
         let tx_sz_sqr_up = tx_size_sqr_up[tx_size as usize];
-        let ctx = (tx_sz_sqr_up!=max_tx_size && max_tx_size>TX_8X8) as usize * 3 + (TX_SIZES-1-max_tx_size as usize) * 6 + above + left;
+        let ctx = (tx_sz_sqr_up!=max_tx_size && max_tx_size>TX_8X8) as usize * 3 + (TX_SIZES-1-max_tx_size as usize) * 6 + above as usize + left as usize;
         let mut cdf: &mut [i32] = &mut tile_cdf.txfm_split[ctx];
         self.encode_symbol(tx_fm_split as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From 03243bc4e8d5e756dcea5b12d41fcef6701bf0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:27 +0000
Subject: [PATCH 043/100] fix: interpolation filter context compared second
 references with each other

---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index ed723d7..19e1b30 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -763,12 +763,12 @@ impl BoolCoder {
         let ref_frame = frame.get_mi(mi_row, mi_col).unwrap().ref_frame;
         let mut ctx = ((dir&1)*2 + (ref_frame[1]>INTRA_FRAME) as usize) * 4;
         let left_type = if let Some(mi) = frame.get_left_mi(mi_row, mi_col) {
-            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[1] {
+            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[0] {
                 mi.interp_filter[dir]
             } else { BILINEAR }
         } else { BILINEAR };
         let above_type = if let Some(mi) = frame.get_above_mi(mi_row, mi_col) {
-            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[1] {
+            if mi.ref_frame[0]==ref_frame[0] || mi.ref_frame[1]==ref_frame[0] {
                 mi.interp_filter[dir]
             } else { BILINEAR }
         } else { BILINEAR };
-- 
2.43.0


From 9350f5511e93f5054e88e1cfdd72850212bcf33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:28 +0000
Subject: [PATCH 044/100] fix: compound reference type context 2 was chosen
 when both neighbours are unidirectional

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 19e1b30..b213418 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1180,7 +1180,7 @@ impl BoolCoder {
             } else {
                 if !above_uni_comp && !left_uni_comp {
                     0
-                } else if !above_uni_comp || left_uni_comp {
+                } else if !above_uni_comp || !left_uni_comp {
                     2
                 } else { 3 + ((above0==BWDREF_FRAME) as usize == (left0==BWDREF_FRAME) as usize) as usize }
             }
-- 
2.43.0


From 735fb0164911686ea32e474b275d66d9f6b38f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:28 +0000
Subject: [PATCH 045/100] fix: chroma from luma alpha contexts were off by one

---
 src/bool_coder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index b213418..9c1e550 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1302,13 +1302,13 @@ impl BoolCoder {
     }
 
     pub fn encode_cfl_alpha_u(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, cfl_alpha_u: usize, cfl_alpha_signs: usize) {
-        let ctx = if cfl_alpha_signs>=2 { cfl_alpha_signs-1 } else { assert!(false); 0 };
+        let ctx = if cfl_alpha_signs>=2 { cfl_alpha_signs-2 } else { assert!(false); 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.cfl_alpha[ctx];
         self.encode_symbol(cfl_alpha_u as i32, out_bits, &mut cdf);
     }
 
     pub fn encode_cfl_alpha_v(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, cfl_alpha_v: usize, cfl_alpha_signs: usize) {
-        let ctx = if cfl_alpha_signs%3<2 { (cfl_alpha_signs%3)*3+cfl_alpha_signs/3-1 } else { assert!(false); 0 };
+        let ctx = if cfl_alpha_signs%3<2 { (cfl_alpha_signs%3)*3+cfl_alpha_signs/3 } else { assert!(false); 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.cfl_alpha[ctx];
         self.encode_symbol(cfl_alpha_v as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From 95d3f483510c65ccd556343a2729fdd51c2ed2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:29 +0000
Subject: [PATCH 046/100] fix: the sum of the neighbour signs was coded instead
 of the sign of the DC coefficient

---
 src/bool_coder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 9c1e550..56e1bea 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -978,14 +978,14 @@ impl BoolCoder {
         self.encode_symbol(coeff_base_eob as i32, out_bits, &mut cdf);
     }
 
-    pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
+    pub fn encode_dc_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, dc_sign: usize, ptype: usize, frame: &mut Frame, plane: usize, mi_row: usize, mi_col: usize, w4: usize, h4: usize, x4: usize, y4: usize) {
         let mut max_x4 = frame.mi_cols();
         let mut max_y4 = frame.mi_rows();
         if plane>0 {
             max_x4 >>= frame.subsampling_x as usize;
             max_y4 >>= frame.subsampling_y as usize;
         }
-        let mut dc_sign: isize = 0;
+        let mut sign_sum: isize = 0;
         for k in 0..w4 {
             if x4+k < max_x4 {
                 let sign = match frame.get_above_mi(mi_row, mi_col) {
@@ -993,9 +993,9 @@ impl BoolCoder {
                     None => 0,
                 };
                 if sign==1 {
-                    dc_sign -= 1;
+                    sign_sum -= 1;
                 } else if sign==2 {
-                    dc_sign += 1;
+                    sign_sum += 1;
                 }
             }
         }
@@ -1006,13 +1006,13 @@ impl BoolCoder {
                     None => 0,
                 };
                 if sign==1 {
-                    dc_sign -= 1;
+                    sign_sum -= 1;
                 } else if sign==2 {
-                    dc_sign += 1;
+                    sign_sum += 1;
                 }
             }
         }
-        let ctx = if dc_sign<0 { 1 } else if dc_sign>0 {
+        let ctx = if sign_sum<0 { 1 } else if sign_sum>0 {
             2
         } else { 0 };
         let mut cdf: &mut [i32] = &mut tile_cdf.dc_sign[0/*FIXME*/][ptype][ctx];
-- 
2.43.0


From 8eb949a0f9e2c5668427b8fe6bcddec9be510837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:30 +0000
Subject: [PATCH 047/100] fix: block size logarithms were in samples instead of
 4x4 units, so partitions used the wrong tables

---
 src/constants.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index d1db7cc..ad33fe9 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1153,11 +1153,11 @@ pub const block_height: [usize; BLOCK_SIZES] = [
 ];
 
 pub const mi_width_log2: [usize; BLOCK_SIZES] = [
-    2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 2, 4, 3, 5, 4, 6
+    0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 0, 2, 1, 3, 2, 4
 ];
 
 pub const mi_height_log2: [usize; BLOCK_SIZES] = [
-    2, 3, 2, 3, 4, 3, 4, 5, 4, 5, 6, 5, 6, 7, 6, 7, 4, 2, 5, 3, 6, 4
+    0, 1, 0, 1, 2, 1, 2, 3, 2, 3, 4, 3, 4, 5, 4, 5, 2, 0, 3, 1, 4, 2
 ];
 
 pub const num_4x4_blocks_wide: [usize; BLOCK_SIZES] = [
-- 
2.43.0


From 29c21fac4c5434727a8ef2e6dbf3ec57238e9ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:31 +0000
Subject: [PATCH 048/100] fix: blocks 16 samples wide were counted as 3 units
 wide

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index ad33fe9..eee35f9 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1161,7 +1161,7 @@ pub const mi_height_log2: [usize; BLOCK_SIZES] = [
 ];
 
 pub const num_4x4_blocks_wide: [usize; BLOCK_SIZES] = [
-    1, 1, 2, 2, 2, 3, 3, 3, 8, 8, 8,
+    1, 1, 2, 2, 2, 4, 4, 4, 8, 8, 8,
     16, 16, 16, 32, 32, 1, 4, 2, 8, 4, 16
 ];
 
-- 
2.43.0


From 8204fa08af06fe699bf54667246a564739119e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:32 +0000
Subject: [PATCH 049/100] fix: inter transform set numbers were one too low for
 the tables they select

---
 src/constants.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/constants.rs b/src/constants.rs
index eee35f9..9ae9c73 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -1259,9 +1259,9 @@ pub const tx_size_sqr_up: [TxSize; TX_SIZES_ALL+1] = [
 pub const TX_SET_DCTONLY: usize = 0;
 pub const TX_SET_INTRA_1: usize = 1;
 pub const TX_SET_INTRA_2: usize = 2;
-pub const TX_SET_INTER_1: usize = 0;
-pub const TX_SET_INTER_2: usize = 1;
-pub const TX_SET_INTER_3: usize = 2;
+pub const TX_SET_INTER_1: usize = 1;
+pub const TX_SET_INTER_2: usize = 2;
+pub const TX_SET_INTER_3: usize = 3;
 
 #[derive(PartialEq, Copy, Clone)]
 pub enum TxType {
-- 
2.43.0


From 7201552c6c2fc10faca4cd270b7c6a4a92bcad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:33 +0000
Subject: [PATCH 050/100] fix: signed rounding of negative values lost the sign

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 3d7a41b..ed88dc8 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -27,7 +27,7 @@ macro_rules! Round2 {
 }
 
 macro_rules! Round2Signed {
-    ($x: expr, $n: expr) => ( if $x>=0 { Round2!($x, $n) } else { Round2!(-$x, $n) } );
+    ($x: expr, $n: expr) => ( if $x>=0 { Round2!($x, $n) } else { -Round2!(-$x, $n) } );
 }
 
 #[macro_export]
-- 
2.43.0


From aae8b4bdfcadf62fabc525d2ad8aa96ce86a37d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:34 +0000
Subject: [PATCH 051/100] fix: transform type of a luma block was taken from
 the first unit of its prediction block

---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 4c109a2..31c822c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -109,7 +109,7 @@ pub fn compute_tx_type(plane: usize, tx_size: TxSize, block_x: usize, block_y: u
     }
     let tx_set = get_tx_set(tx_size, is_inter, reduced_tx_set);
     if plane==0 {
-        let tx_type = frame.get_mi(mi_row, mi_col).unwrap().tx_type;
+        let tx_type = frame.get_mi(block_y, block_x).unwrap().tx_type;
         if !is_tx_type_in_set(tx_set, tx_type, is_inter) {
             return DCT_DCT;
         } else {
-- 
2.43.0


From 2a5684d03b296198b3f10e9d04e4bfa041615527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:52 +0000
Subject: [PATCH 052/100] fix: transform types were coded by their number
 instead of their position in the transform set

---
 src/bool_coder.rs | 16 ++++++++++++++--
 src/common.rs     |  8 ++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 56e1bea..4f4272c 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -1144,7 +1144,12 @@ impl BoolCoder {
         } else {
             &mut tile_cdf.intra_tx_type_set2[tx_size_sqr[tx_size as usize] as usize][intra_dir]
         };
-        self.encode_symbol(intra_tx_type as i32, out_bits, &mut cdf);
+        let symbol = if tx_set==TX_SET_INTRA_1 {
+            tx_type_symbol(&tx_type_intra_inv_set1, intra_tx_type)
+        } else {
+            tx_type_symbol(&tx_type_intra_inv_set2, intra_tx_type)
+        };
+        self.encode_symbol(symbol, out_bits, &mut cdf);
     }
 
     pub fn encode_inter_tx_type(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, inter_tx_type: TxType, tx_size: TxSize, tx_set: usize) {
@@ -1155,7 +1160,14 @@ impl BoolCoder {
         } else {
             &mut tile_cdf.inter_tx_type_set3[tx_size_sqr[tx_size as usize] as usize]
         };
-        self.encode_symbol(inter_tx_type as i32, out_bits, &mut cdf);
+        let symbol = if tx_set==TX_SET_INTER_1 {
+            tx_type_symbol(&tx_type_inter_inv_set1, inter_tx_type)
+        } else if tx_set==TX_SET_INTER_2 {
+            tx_type_symbol(&tx_type_inter_inv_set12, inter_tx_type)
+        } else {
+            tx_type_symbol(&tx_type_inter_inv_set3, inter_tx_type)
+        };
+        self.encode_symbol(symbol, out_bits, &mut cdf);
     }
 
     pub fn encode_comp_ref_type(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, comp_ref_type: usize, frame: &mut Frame, mi_row: usize, mi_col: usize) {
diff --git a/src/common.rs b/src/common.rs
index 31c822c..8887157 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -102,6 +102,14 @@ pub fn is_tx_type_in_set(tx_set: usize, tx_type: TxType, is_inter: bool) -> bool
     };
 }
 
+// position of a transform type in the list of a transform set, which is the coded symbol
+pub fn tx_type_symbol(tx_types: &[TxType], tx_type: TxType) -> i32 {
+    for i in 0..tx_types.len() {
+        if tx_types[i]==tx_type { return i as i32; }
+    }
+    panic!("transform type not in transform set");
+}
+
 pub fn compute_tx_type(plane: usize, tx_size: TxSize, block_x: usize, block_y: usize, frame: &mut Frame, lossless: bool, is_inter: bool, reduced_tx_set: bool, uv_mode: YMode, mi_row: usize, mi_col: usize) -> TxType {
     let tx_sz_sqr_up = tx_size_sqr_up[tx_size as usize];
     if lossless || tx_sz_sqr_up>TX_32X32 {
-- 
2.43.0


From b4ce5bd533632a04f671ac55d62138f91d9d1e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:21 +0000
Subject: [PATCH 053/100] fix: the end-of-block extra bit is coded by
 end-of-block class less three, the first class that has one

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 4f4272c..bc42536 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -962,7 +962,7 @@ impl BoolCoder {
     }
 
     pub fn encode_eob_extra(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, eob_extra: usize, tx_size_ctx: usize, ptype: usize, eob_pt: usize) {
-        let mut cdf: &mut [i32] = &mut tile_cdf.eob_extra[0/*FIXME*/][tx_size_ctx][ptype][eob_pt];
+        let mut cdf: &mut [i32] = &mut tile_cdf.eob_extra[0/*FIXME*/][tx_size_ctx][ptype][eob_pt-3];
         self.encode_symbol(eob_extra as i32, out_bits, &mut cdf);
     }
 
-- 
2.43.0


From f8b753027a30a9d6b08377bdfd5d8c32a6324dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:41 +0000
Subject: [PATCH 054/100] fix: the context of the last coefficient underflowed
 before it was brought into range

---
 src/bool_coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index bc42536..991eccb 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -973,7 +973,7 @@ impl BoolCoder {
     }
 
     pub fn encode_coeff_base_eob(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, coeff_base_eob: usize, tx_size: TxSize, tx_size_ctx: usize, ptype: usize, plane: usize, x4: usize, y4: usize, scan: &[usize], c: usize, frame: &mut Frame, lossless: bool, is_inter: bool, reduced_tx_set: bool, uv_mode: YMode, mi_row: usize, mi_col: usize, quant: &[isize]) {
-        let ctx = get_coeff_base_ctx(tx_size, plane, x4, y4, scan[c], c, true, frame, lossless, is_inter, reduced_tx_set, uv_mode, mi_row, mi_col, quant) - SIG_COEF_CONTEXTS + SIG_COEF_CONTEXTS_EOB;
+        let ctx = get_coeff_base_ctx(tx_size, plane, x4, y4, scan[c], c, true, frame, lossless, is_inter, reduced_tx_set, uv_mode, mi_row, mi_col, quant) + SIG_COEF_CONTEXTS_EOB - SIG_COEF_CONTEXTS;
         let mut cdf: &mut [i32] = &mut tile_cdf.coeff_base_eob[0/*FIXME*/][tx_size_ctx][ptype][ctx];
         self.encode_symbol(coeff_base_eob as i32, out_bits, &mut cdf);
     }
-- 
2.43.0


From c4e31c7072165f1586fcb52e4b1bd2b2500138e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:44 +0000
Subject: [PATCH 055/100] fix: options after a frame rate given as a fraction
 were dropped

---
 src/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/option.rs b/src/option.rs
index 1d6d01f..6a78e73 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -153,7 +153,7 @@ lazy_static! {
                     if let Err(e) = CommandOption::parse_tuple::<usize>(&args[0], '/', 2, &mut [&mut numer, &mut denom]) { Err(e) }
                     else {
                         config.framerate = Some(Ratio::new(numer.unwrap(), denom.unwrap()));
-                        Ok(vec![])
+                        Ok(args[1..].to_vec())
                     }
                 }
             },
-- 
2.43.0


From dc114630408f6a9a5aebe7c1ddd982901039ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:45 +0000
Subject: [PATCH 056/100] fix: a frame rate with denominator zero crashed
 instead of being rejected

---
 src/option.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/option.rs b/src/option.rs
index 6a78e73..a661075 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -151,6 +151,7 @@ lazy_static! {
                 else {
                     let (mut denom, mut numer) = (None, None);
                     if let Err(e) = CommandOption::parse_tuple::<usize>(&args[0], '/', 2, &mut [&mut numer, &mut denom]) { Err(e) }
+                    else if denom == Some(0) { Err("wrong format".to_string()) }
                     else {
                         config.framerate = Some(Ratio::new(numer.unwrap(), denom.unwrap()));
                         Ok(args[1..].to_vec())
-- 
2.43.0


From a5da216ab7194dd314dde7854742fbbbcdbd5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:46 +0000
Subject: [PATCH 057/100] fix: empty, dash-only and non-ASCII arguments crashed
 the option parser

---
 src/option.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/option.rs b/src/option.rs
index a661075..b5b9a9d 100644
--- a/src/option.rs
+++ b/src/option.rs
@@ -227,9 +227,9 @@ impl CommandOption {
         if args.len() == 0 { Ok(vec![]) }
         else {
             let arg = &args[0];
-            if &arg[0..1] == "-" {
+            if arg.starts_with("-") {
                 match {
-                    if &arg[1..2] == "-" { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
+                    if arg.starts_with("--") { CommandOption::set_option_by_name(&arg[2..], args[1..].to_vec(), config) }
                     else { CommandOption::set_option_by_short_name(&arg[1..], args[1..].to_vec(), config) }
                 } {
                     Ok(v) => CommandOption::parse(v, config),
-- 
2.43.0


From b5c1e8181dba1582d7161b7305b3b96cb232f88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:47 +0000
Subject: [PATCH 058/100] fix: failures exited with the status of success

---
 src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1c4b99e..aa71785 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -57,11 +57,11 @@ fn main() {
     CommandOption::init_config(&mut config);
     if let Err(e) = CommandOption::parse(args, &mut config) {
         println!("{}: failed to parse command-line arguments: {}", "error".red(), e);
-        process::exit(0);
+        process::exit(1);
     }
     if let Err(e) = CommandOption::validate_config(&config) {
         println!("{}: invalid configuration: {}", "error".red(), e);
-        process::exit(0);
+        process::exit(1);
     }
 
     // initialize binary reader
@@ -74,7 +74,7 @@ fn main() {
             Ok(f) => f,
             Err(e) => {
                 println!("{}: failed to open input file: {}", "error".red(), e);
-                process::exit(0);
+                process::exit(1);
             }
         }
     };
@@ -89,7 +89,7 @@ fn main() {
             Ok(f) => f,
             Err(e) => {
                 println!("{}: failed to open output file: {}", "error".red(), e);
-                process::exit(0);
+                process::exit(1);
             }
         }
     };
-- 
2.43.0


From 628d64160ef442c0c563fd0c21a85aae9eb73c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:47 +0000
Subject: [PATCH 059/100] fix: banner and error messages were mixed into the
 stream on standard output

---
 src/main.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index aa71785..bb40406 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -42,7 +42,7 @@ use encoder::*;
 
 fn main() {
 
-    println!(
+    eprintln!(
         "{} version {} Copyright (c) 2018-2018 {}",
         env!("CARGO_PKG_NAME").to_string(),
         env!("CARGO_PKG_VERSION").to_string(),
@@ -56,11 +56,11 @@ fn main() {
 
     CommandOption::init_config(&mut config);
     if let Err(e) = CommandOption::parse(args, &mut config) {
-        println!("{}: failed to parse command-line arguments: {}", "error".red(), e);
+        eprintln!("{}: failed to parse command-line arguments: {}", "error".red(), e);
         process::exit(1);
     }
     if let Err(e) = CommandOption::validate_config(&config) {
-        println!("{}: invalid configuration: {}", "error".red(), e);
+        eprintln!("{}: invalid configuration: {}", "error".red(), e);
         process::exit(1);
     }
 
@@ -73,7 +73,7 @@ fn main() {
         match BinaryReader::file(&config.input.unwrap()) {
             Ok(f) => f,
             Err(e) => {
-                println!("{}: failed to open input file: {}", "error".red(), e);
+                eprintln!("{}: failed to open input file: {}", "error".red(), e);
                 process::exit(1);
             }
         }
@@ -88,7 +88,7 @@ fn main() {
         match BinaryWriter::file(&config.output.unwrap()) {
             Ok(f) => f,
             Err(e) => {
-                println!("{}: failed to open output file: {}", "error".red(), e);
+                eprintln!("{}: failed to open output file: {}", "error".red(), e);
                 process::exit(1);
             }
         }
-- 
2.43.0


From 7c1471841fc80adcfcb726e99f14d5062b925319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:48 +0000
Subject: [PATCH 060/100] fix: frames were read as 176x144 whatever size was
 given

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bb40406..809d65a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -101,7 +101,7 @@ fn main() {
     let mut obu_encoder = OBUEncoder::new(&ectx, &mut writer, &mut coder);
 
     for fr in 0..config.frames.unwrap() {
-        let mut frame = Frame::new(FrameType::KEY_FRAME, 176, 144);
+        let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
         if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(0); }
         if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(0); }
         if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(0); }
-- 
2.43.0


From d60e315628d217cc269eb6855642c6c09333d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:49 +0000
Subject: [PATCH 061/100] fix: short reads left the rest of a plane unread and
 the end of the input went unnoticed

---
 src/binary_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary_reader.rs b/src/binary_reader.rs
index e115f83..b3d5767 100644
--- a/src/binary_reader.rs
+++ b/src/binary_reader.rs
@@ -27,12 +27,12 @@ impl<'a> BinaryReader<'a> {
     pub fn read_to_vec<T: From<u8>>(&mut self, v: &mut Vec<T>) -> io::Result<usize> {
         let len = v.len();
         let mut tmp: Vec<u8> = vec![0; len];
-        match self.input.read(&mut tmp[..]) {
-            Ok(s) => {
+        match self.input.read_exact(&mut tmp[..]) {
+            Ok(_) => {
                 for i in 0..len {
                     v[i] = T::from(tmp[i]);
                 }
-                Ok(s)
+                Ok(len)
             },
             Err(e) => Err(e)
         }
-- 
2.43.0


From b8e82bf1dfd57f81180ff1ed3ea3236206983149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:49 +0000
Subject: [PATCH 062/100] fix: the end of the input ended the program before
 buffered output was written, read errors ended it silently

---
 src/main.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 809d65a..1355d75 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -102,9 +102,13 @@ fn main() {
 
     for fr in 0..config.frames.unwrap() {
         let mut frame = Frame::new(FrameType::KEY_FRAME, config.frame_width.unwrap(), config.frame_height.unwrap());
-        if let Err(_) = reader.read_to_vec(&mut frame.original_y) { process::exit(0); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_u) { process::exit(0); }
-        if let Err(_) = reader.read_to_vec(&mut frame.original_v) { process::exit(0); }
+        if let Err(e) = reader.read_to_vec(&mut frame.original_y)
+            .and_then(|_| reader.read_to_vec(&mut frame.original_u))
+            .and_then(|_| reader.read_to_vec(&mut frame.original_v)) {
+            if e.kind() == io::ErrorKind::UnexpectedEof { break; }
+            eprintln!("{}: failed to read input: {}", "error".red(), e);
+            process::exit(1);
+        }
 
         if fr==0 {
             // encode sequence header
-- 
2.43.0


From aef1dae4a74fbb1527d4f79c9fd120e1da13cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:50 +0000
Subject: [PATCH 063/100] fix: a failure to write out buffered output at the
 end went unnoticed

---
 src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 1355d75..5d2bd6d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -120,4 +120,9 @@ fn main() {
             
         }
     }
+
+    if let Err(e) = writer.flush() {
+        eprintln!("{}: failed to write output: {}", "error".red(), e);
+        process::exit(1);
+    }
 }
-- 
2.43.0


From 13b2c88b4c730dc12712971392e81afd69590cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:51 +0000
Subject: [PATCH 064/100] fix: chroma planes of frames with an odd size were
 too small

---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index c184f36..7b874b2 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -252,8 +252,8 @@ impl Frame {
             tile_groups: vec![0],
 
             original_y: vec![0; width as usize * height as usize],
-            original_u: vec![0; width as usize * height as usize / 4],
-            original_v: vec![0; width as usize * height as usize / 4],
+            original_u: vec![0; ((width+1)/2) * ((height+1)/2)],
+            original_v: vec![0; ((width+1)/2) * ((height+1)/2)],
 
             mis: vec![vec![None; width as usize / 4]; height as usize / 4],
             decoder_model_info: None,
-- 
2.43.0


From 70f1341113af564abe32cb31ff31182841d59ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:52 +0000
Subject: [PATCH 065/100] fix: block records did not cover the right and bottom
 edge of frames whose size is no multiple of 8

---
 src/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index 7b874b2..19c4857 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -255,7 +255,7 @@ impl Frame {
             original_u: vec![0; ((width+1)/2) * ((height+1)/2)],
             original_v: vec![0; ((width+1)/2) * ((height+1)/2)],
 
-            mis: vec![vec![None; width as usize / 4]; height as usize / 4],
+            mis: vec![vec![None; 2 * ((width+7)>>3)]; 2 * ((height+7)>>3)],
             decoder_model_info: None,
             temporal_point_info: None,
             display_frame_id: None, // TODO
-- 
2.43.0


From c0ae2945175d90351e287e2258c5b3917396e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:02 +0000
Subject: [PATCH 066/100] fix: the frame header after a shown existing frame is
 not a repeat

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 7850960..8032ccf 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -364,6 +364,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                                 // load grain params
                                 // TODO
                             }
+                            ecx.seen_frame_header = false;
                             return;
                         }
                         self.coder.push_bits_with_size(out_bits, frame.frame_type as u32, 2);
-- 
2.43.0


From cf6f82d2e219c0aaa7211d00e75d8e720ff9dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:04 +0000
Subject: [PATCH 067/100] fix: the map of CDEF indices was empty, so coding a
 tile went out of bounds

---
 src/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index 19c4857..ce16452 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -344,7 +344,7 @@ impl Frame {
             lr_wiener: vec![vec![vec![vec![vec![]]]]],
             lr_sgr_set: vec![vec![vec![]]],
             lr_sgr_xqd: vec![vec![vec![vec![]]]],
-            cdef_idx: vec![vec![]],
+            cdef_idx: vec![vec![-1; 32 * ((width+127)>>7)]; 32 * ((height+127)>>7)],
         }
     }
 
-- 
2.43.0


From 01f1b2b116a810fc94f5ea95adc168c3ec8c1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:06 +0000
Subject: [PATCH 068/100] fix: row and column of a tile were both quotients of
 its number

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index a16adde..b2ab205 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -113,8 +113,8 @@ impl<'b> TileEncoder<'b> {
         let mut sb_size;
         {
             let mut ecx = self.ectx.borrow_mut();
-            let tile_col = ecx.tile_num / frame.tile_cols();
-            let tile_row = ecx.tile_num / frame.tile_rows();
+            let tile_col = ecx.tile_num % frame.tile_cols();
+            let tile_row = ecx.tile_num / frame.tile_cols();
             self.mi_row_start = ecx.mi_row_starts[tile_row];
             self.mi_row_end = ecx.mi_row_starts[tile_row+1];
             self.mi_col_start = ecx.mi_col_starts[tile_col];
-- 
2.43.0


From e3e5490126972b492de4dda506437410c3db40f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:33 +0000
Subject: [PATCH 069/100] fix: the last block of three partitions was placed
 outside its part of the block

---
 src/tile_encoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index b2ab205..395a7b5 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -439,7 +439,7 @@ impl<'b> TileEncoder<'b> {
                     ];
                     self.encode_block(sb, r, c, frame, &mut part_bits, &mut part_tree.partitions[0]);
                     self.encode_block(sb, r+half_block4x4, c, frame, &mut part_bits, &mut part_tree.partitions[1]);
-                    self.encode_block(sb, r, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[2]);
+                    self.encode_block(sb, r+half_block4x4, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[2]);
                 },
                 PARTITION_VERT_A => {
                     part_tree.partitions = vec![
@@ -459,7 +459,7 @@ impl<'b> TileEncoder<'b> {
                     ];
                     self.encode_block(sb, r, c, frame, &mut part_bits, &mut part_tree.partitions[0]);
                     self.encode_block(sb, r, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[1]);
-                    self.encode_block(sb, r+half_block4x4, c, frame, &mut part_bits, &mut part_tree.partitions[2]);
+                    self.encode_block(sb, r+half_block4x4, c+half_block4x4, frame, &mut part_bits, &mut part_tree.partitions[2]);
                 },
                 PARTITION_HORZ_4 => {
                     part_tree.partitions = vec![
@@ -486,7 +486,7 @@ impl<'b> TileEncoder<'b> {
                     self.encode_block(sb, r, c+quarter_block4x4*2, frame, &mut part_bits, &mut part_tree.partitions[2]);
                     if c+quarter_block4x4*3 < mi_cols {
                         part_tree.partitions.push(PartitionTree::new(sub_size));
-                        self.encode_block(sb, r+quarter_block4x4*3, c, frame, &mut part_bits, &mut part_tree.partitions[3]);
+                        self.encode_block(sb, r, c+quarter_block4x4*3, frame, &mut part_bits, &mut part_tree.partitions[3]);
                     }
                 },
             }
-- 
2.43.0


From 95807bc3d671dee46c9b74eec6781e7b4ee1eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:35 +0000
Subject: [PATCH 070/100] fix: partitions that a block size does not have were
 tried

---
 src/tile_encoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 395a7b5..230bc9d 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -354,6 +354,10 @@ impl<'b> TileEncoder<'b> {
             PARTITION_HORZ_A, PARTITION_HORZ_B, PARTITION_VERT_A, PARTITION_VERT_B, PARTITION_HORZ_4, PARTITION_VERT_4
         ].iter() {
             let mut  part_bits: Vec<u8> = vec![];
+            let sub_size = partition_subsize[*partition as usize][part_tree.bsize as usize];
+            if sub_size==BLOCK_INVALID || (part_tree.bsize==BLOCK_8X8 && *partition as usize > PARTITION_SPLIT as usize) {
+                continue;
+            }
             if part_tree.bsize < BLOCK_8X8 {
                 if *partition != PARTITION_NONE {
                     continue;
@@ -386,7 +390,6 @@ impl<'b> TileEncoder<'b> {
                 }
             }
             part_tree.part_type = *partition;
-            let sub_size = partition_subsize[*partition as usize][part_tree.bsize as usize];
             let split_size = partition_subsize[PARTITION_SPLIT as usize][part_tree.bsize as usize];
 
             match *partition {
-- 
2.43.0


From e3be4491737a10832a2a071bb01ca50e2b2c4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:06 +0000
Subject: [PATCH 071/100] fix: the context of a partition was whether
 neighbours exist instead of whether they are smaller

---
 src/tile_encoder.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 230bc9d..f938a8b 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -343,6 +343,9 @@ impl<'b> TileEncoder<'b> {
         let quarter_block4x4 = half_block4x4 >> 1;
         let has_rows = r+half_block4x4 < mi_rows;
         let has_cols = c+half_block4x4 < mi_cols;
+        let bsl = mi_width_log2[part_tree.bsize as usize];
+        let above = self.avail_u && frame.mis[r-1][c].map_or(false, |mi| mi_width_log2[mi.mi_size as usize] < bsl);
+        let left = self.avail_l && frame.mis[r][c-1].map_or(false, |mi| mi_height_log2[mi.mi_size as usize] < bsl);
 
         let mut best_part_bits: Vec<u8> = vec![];
         let mut best_part_tree = part_tree.clone();
@@ -363,24 +366,24 @@ impl<'b> TileEncoder<'b> {
                     continue;
                 }
             } else if has_rows && has_cols {
-                self.coder.encode_partition(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, *partition);
+                self.coder.encode_partition(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, *partition);
             } else if has_cols {
                 match *partition {
                     PARTITION_SPLIT => {
-                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 1);
+                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 1);
                     },
                     PARTITION_HORZ => {
-                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 0);
+                        self.coder.encode_split_or_horz(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 0);
                     },
                     _ => { continue; }
                 }
             } else if has_rows {
                 match *partition {
                     PARTITION_SPLIT => {
-                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 1);
+                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 1);
                     },
                     PARTITION_VERT => {
-                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, self.avail_u, self.avail_l, 0);
+                        self.coder.encode_split_or_vert(&mut part_bits, &mut self.cdf, part_tree.bsize, above, left, 0);
                     },
                     _ => { continue; }
                 }
-- 
2.43.0


From 56822e14cd3a6f4cb1adc161028bfc2815f49458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:07 +0000
Subject: [PATCH 072/100] fix: each partition was tried from the coder state
 the previous one left

---
 src/tile_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index f938a8b..1edb122 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -352,6 +352,8 @@ impl<'b> TileEncoder<'b> {
         let mut best_cost = <u64>::max_value();
         let mut best_coder = self.coder.clone();
         let mut best_cdf = self.cdf.clone();
+        let start_coder = self.coder.clone();
+        let start_cdf = self.cdf.clone();
         for partition in [
             PARTITION_NONE, PARTITION_HORZ, PARTITION_VERT, PARTITION_SPLIT,
             PARTITION_HORZ_A, PARTITION_HORZ_B, PARTITION_VERT_A, PARTITION_VERT_B, PARTITION_HORZ_4, PARTITION_VERT_4
@@ -361,6 +363,8 @@ impl<'b> TileEncoder<'b> {
             if sub_size==BLOCK_INVALID || (part_tree.bsize==BLOCK_8X8 && *partition as usize > PARTITION_SPLIT as usize) {
                 continue;
             }
+            *self.coder = start_coder.clone();
+            self.cdf = start_cdf.clone();
             if part_tree.bsize < BLOCK_8X8 {
                 if *partition != PARTITION_NONE {
                     continue;
-- 
2.43.0


From fb5ebb77a6502b862e6b1be2dd714b78d99350fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 073/100] fix: segment ids were mapped to their distance from
 the prediction with an underflow

---
 src/tile_encoder.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 1edb122..86c77ad 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -575,25 +575,12 @@ impl<'b> TileEncoder<'b> {
                     v
                 } else if rf>=(max-1) {
                     max - 1 - v
-                } else if 2*rf < max {
-                    let d1 = ((v-rf)<<1) - 1;
-                    let d2 = (rf-v)<<1;
-                    if d1 <= 2*rf {
-                        d1
-                    } else if d2 <= 2*rf {
-                        d2
-                    } else {
-                        v
-                    }
                 } else {
-                    let d1 = ((v-rf)<<1) - 1;
-                    let d2 = (rf-v)<<1;
-                    if d1 <= 2*(max-rf-1) {
-                        d1
-                    } else if d2 <= 2*(max-rf-1) {
-                        d2
+                    let d = if v > rf { ((v-rf)<<1) - 1 } else { (rf-v)<<1 };
+                    if 2*rf < max {
+                        if d <= 2*rf { d } else { v }
                     } else {
-                        rf-v-1
+                        if d <= 2*(max-rf-1) { d } else { max - 1 - v }
                     }
                 }
             };
-- 
2.43.0


From c655626a56cda7920a7448eda0d2854d8b96b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:31 +0000
Subject: [PATCH 074/100] fix: segment ids were coded as if there were only one
 segment

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 86c77ad..6045458 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -584,7 +584,7 @@ impl<'b> TileEncoder<'b> {
                     }
                 }
             };
-            let v = neg_interleave(part_tree.segment_id, pred as usize, self.last_active_seg_id+1);
+            let v = neg_interleave(part_tree.segment_id, pred as usize, self.ectx.borrow().last_active_seg_id+1);
             self.coder.encode_segment_id(out_bits, &mut self.cdf, v, prev_u as isize, prev_l as isize, prev_ul as isize);
         }
     }
-- 
2.43.0


From 9d88bce07772d2efdb710bf705d0a3d768e453e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 075/100] fix: segment ids and CDEF indices of skipped blocks
 were coded although a decoder reads none

---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 6045458..4ab3e2a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -615,6 +615,7 @@ impl<'b> TileEncoder<'b> {
             } else {
                 self.coder.encode_skip(out_bits, &mut self.cdf, part_tree.skip as usize, frame, self.mi_row, self.mi_col);
             }
+            self.skip = part_tree.skip;
 
             if !seg_id_pre_skip {
                 // intra segment id
-- 
2.43.0


From 90d06fcf3a56f6759f6cc10b9abdc38dd046a786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:59 +0000
Subject: [PATCH 076/100] fix: a CDEF index was recorded for all areas above
 and left of its block

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 4ab3e2a..74ecf14 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -640,9 +640,9 @@ impl<'b> TileEncoder<'b> {
                     let w4 = num_4x4_blocks_wide[part_tree.bsize as usize];
                     let h4 = num_4x4_blocks_high[part_tree.bsize as usize];
                     {
-                        let mut i = 0;
+                        let mut i = r;
                         while i < r+h4 {
-                            let mut j = 0;
+                            let mut j = c;
                             while j < c+w4 {
                                 frame.cdef_idx[i][j] = part_tree.cdef_idx;
                                 j += cdef_size4;
-- 
2.43.0


From 8408caa021c76e6d73a8432cc333174963bc15b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 077/100] fix: large quantizer and loop filter deltas were
 coded with a wrong remainder

---
 src/tile_encoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 74ecf14..75c8416 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -669,7 +669,7 @@ impl<'b> TileEncoder<'b> {
                         self.coder.encode_delta_q_abs(out_bits, &mut self.cdf, DELTA_Q_SMALL);
                         let delta_q_rem_bits = msb16((delta_q_abs-1) as u16);
                         self.coder.encode_literal(out_bits, (delta_q_rem_bits-1) as u64, 3);
-                        let delta_q_abs_bits = (delta_q_abs-1) - (1<<(delta_q_rem_bits-1));
+                        let delta_q_abs_bits = (delta_q_abs-1) - (1<<delta_q_rem_bits);
                         self.coder.encode_literal(out_bits, delta_q_abs_bits as u64, delta_q_rem_bits);
                     }
                     let delta_q_sign_bit = if delta_q_index < 0 { 1 } else { 0 };
@@ -698,8 +698,8 @@ impl<'b> TileEncoder<'b> {
                             self.coder.encode_delta_lf_abs(out_bits, &mut self.cdf, DELTA_LF_SMALL, frame.delta_lf_params.delta_lf_multi as usize, i);
                             let delta_lf_rem_bits = msb16((delta_lf_abs-1) as u16);
                             self.coder.encode_literal(out_bits, (delta_lf_rem_bits-1) as u64, 3);
-                            let delta_lf_abs_bits = (delta_lf_abs-1) - (1<<(delta_lf_rem_bits-1));
-                            self.coder.encode_literal(out_bits, (delta_lf_abs_bits-1) as u64, delta_lf_rem_bits);
+                            let delta_lf_abs_bits = (delta_lf_abs-1) - (1<<delta_lf_rem_bits);
+                            self.coder.encode_literal(out_bits, delta_lf_abs_bits as u64, delta_lf_rem_bits);
                         }
                         let delta_lf_sign_bits = if delta_lf < 0 { 1 } else { 0 };
                         self.coder.encode_literal(out_bits, delta_lf_sign_bits as u64, 1);
-- 
2.43.0


From e05d8d858b5571a53bd0a6f6bccf59e685db54b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:32 +0000
Subject: [PATCH 078/100] fix: quantizer and loop filter deltas were tracked
 unrounded, so later deltas were relative to values a decoder does not have

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 75c8416..a37f532 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -674,10 +674,10 @@ impl<'b> TileEncoder<'b> {
                     }
                     let delta_q_sign_bit = if delta_q_index < 0 { 1 } else { 0 };
                     self.coder.encode_literal(out_bits, delta_q_sign_bit as u64, 1);
+                    *current_q_index = Clip3!(1, 255, *current_q_index as isize + (delta_q_index<<delta_q_res)) as usize;
                 } else {
                     self.coder.encode_delta_q_abs(out_bits, &mut self.cdf, delta_q_abs);
                 }
-                *current_q_index = part_tree.q_index;
             }
 
             // encode delta lf
@@ -703,10 +703,10 @@ impl<'b> TileEncoder<'b> {
                         }
                         let delta_lf_sign_bits = if delta_lf < 0 { 1 } else { 0 };
                         self.coder.encode_literal(out_bits, delta_lf_sign_bits as u64, 1);
+                        *current_delta_lf = Clip3!(-(MAX_LOOP_FILTER as isize), MAX_LOOP_FILTER as isize, *current_delta_lf + (delta_lf<<delta_lf_res));
                     } else {
                         self.coder.encode_delta_lf_abs(out_bits, &mut self.cdf, 0, frame.delta_lf_params.delta_lf_multi as usize, i);
                     }
-                    *current_delta_lf = part_tree.delta_lf[i];
                 }
             }
 
-- 
2.43.0


From 6621dc5927fc87fd275ddffc8f3cce838d88567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 079/100] fix: a unidirectional pair of LAST with LAST3 or
 GOLDEN was not told apart

---
 src/tile_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index a37f532..5ec9947 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -765,6 +765,10 @@ impl<'b> TileEncoder<'b> {
                                 if !uni_comp_ref {
                                     let uni_comp_ref_p1 = part_tree.ref_frame[0]==LAST_FRAME && [GOLDEN_FRAME, LAST3_FRAME].contains(&part_tree.ref_frame[1]);
                                     self.coder.encode_uni_comp_ref_p1(out_bits, &mut self.cdf, uni_comp_ref_p1 as usize, frame, self.mi_row, self.mi_col);
+                                    if uni_comp_ref_p1 {
+                                        let uni_comp_ref_p2 = part_tree.ref_frame[1]==GOLDEN_FRAME;
+                                        self.coder.encode_uni_comp_ref_p2(out_bits, &mut self.cdf, uni_comp_ref_p2 as usize, frame, self.mi_row, self.mi_col);
+                                    }
                                 }
                             } else {
                                 let comp_ref = [GOLDEN_FRAME, LAST3_FRAME].contains(&part_tree.ref_frame[0]);
-- 
2.43.0


From 7eb61c67bb2d13fc6bc175606387ecbceae6f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 080/100] fix: the second part of a backward reference was
 coded as one of a forward reference and under its condition

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 5ec9947..bb6989a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -783,9 +783,9 @@ impl<'b> TileEncoder<'b> {
 
                                 let comp_bwdref = part_tree.ref_frame[1]==ALTREF_FRAME;
                                 self.coder.encode_comp_bwdref(out_bits, &mut self.cdf, comp_bwdref as usize, frame, self.mi_row, self.mi_col);
-                                if !comp_ref {
+                                if !comp_bwdref {
                                     let comp_bwdref_p1 = part_tree.ref_frame[1]==ALTREF2_FRAME;
-                                    self.coder.encode_comp_ref_p1(out_bits, &mut self.cdf, comp_bwdref_p1 as usize, frame, self.mi_row, self.mi_col);
+                                    self.coder.encode_comp_bwdref_p1(out_bits, &mut self.cdf, comp_bwdref_p1 as usize, frame, self.mi_row, self.mi_col);
                                 }
                             }
                         } else {
-- 
2.43.0


From 9f5423f426aaa97fa69a3892d700057b56b9fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:38 +0000
Subject: [PATCH 081/100] fix: the mode of a compound block was not recorded,
 so its list index was coded by the previous block's mode

---
 src/tile_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index bb6989a..2878616 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -830,6 +830,7 @@ impl<'b> TileEncoder<'b> {
                     } else if is_compound {
                         let compound_mode = part_tree.compound_mode as usize - NEAREST_NEARESTMV as usize;
                         self.coder.encode_compound_mode(out_bits, &mut self.cdf, compound_mode, self.ref_mv_context, self.new_mv_context);
+                        self.y_mode = part_tree.compound_mode as usize;
                     } else {
                         self.coder.encode_new_mv(out_bits, &mut self.cdf, part_tree.new_mv as usize, self.new_mv_context);
                         if !part_tree.new_mv {
-- 
2.43.0


From 8bf9288ab3fe6f4e915884bb08c6e0a05e353afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:18 +0000
Subject: [PATCH 082/100] fix: the second motion vector of a compound block was
 coded as the first one

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 2878616..f6ff77f 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1391,7 +1391,7 @@ impl<'b> TileEncoder<'b> {
             }
             if part_tree.compound_mode==NEWMV {
                 // encode mv
-                let mut diff_mv = part_tree.mvs[0] - self.pred_mv[0];
+                let mut diff_mv = part_tree.mvs[i] - self.pred_mv[i];
                 if part_tree.use_intrabc {
                     self.mv_ctx = MV_INTRABC_CONTEXT;
                 } else {
-- 
2.43.0


From 3b1ea12077df65c6696020a50eb9539ee3c3e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:19 +0000
Subject: [PATCH 083/100] fix: motion vector differences were announced but
 their components never coded

---
 src/bool_coder.rs   |  2 +-
 src/tile_encoder.rs | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bool_coder.rs b/src/bool_coder.rs
index 991eccb..b945a69 100644
--- a/src/bool_coder.rs
+++ b/src/bool_coder.rs
@@ -793,7 +793,7 @@ impl BoolCoder {
         self.encode_symbol(mv_joint as i32, out_bits, &mut cdf);
     }
 
-    pub fn encode_mv_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, mv_sign: MvJoint, mv_ctx: usize, comp: usize) {
+    pub fn encode_mv_sign(&mut self, out_bits: &mut Vec<u8>, tile_cdf: &mut CDF, mv_sign: usize, mv_ctx: usize, comp: usize) {
         let mut cdf: &mut [i32] = &mut tile_cdf.mv_sign[mv_ctx as usize][comp];
         self.encode_symbol(mv_sign as i32, out_bits, &mut cdf);
     }
diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index f6ff77f..d549ada 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1404,10 +1404,11 @@ impl<'b> TileEncoder<'b> {
                     _ => MV_JOINT_HNZVNZ,
                 };
                 self.coder.encode_mv_joint(out_bits, &mut self.cdf, mv_joint, self.mv_ctx);
-                let encode_mv_component = |v: isize, comp: usize| -> () {
+                let mut encode_mv_component = |v: isize, comp: usize| -> () {
                     let mv_sign = if v<0 { 1 } else { 0 };
-                    let mv_abs = Abs!(v) as usize;
-                    let mv_class = MVClass::from_u8(msb16(mv_abs as u16)/8).unwrap();
+                    self.coder.encode_mv_sign(out_bits, &mut self.cdf, mv_sign, self.mv_ctx, comp);
+                    let mv_abs = Abs!(v) as usize - 1;
+                    let mv_class = MVClass::from_u8(msb16((mv_abs>>3) as u16)).unwrap();
                     self.coder.encode_mv_class(out_bits, &mut self.cdf, mv_class as usize, self.mv_ctx, comp);
                     if mv_class==MV_CLASS_0 {
                         let mv_class0_bit = (mv_abs >> 3) & 1;
@@ -1436,6 +1437,12 @@ impl<'b> TileEncoder<'b> {
                         }
                     }
                 };
+                if diff_mv.y != 0 {
+                    encode_mv_component(diff_mv.y, 0);
+                }
+                if diff_mv.x != 0 {
+                    encode_mv_component(diff_mv.x, 1);
+                }
             } else {
                 part_tree.mvs[i] = self.pred_mv[i];
             }
-- 
2.43.0


From 53b2ff35ae437b1df8a601b619b8f5406268ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:19 +0000
Subject: [PATCH 084/100] fix: the default prediction of block copies had its
 components swapped

---
 src/tile_encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index d549ada..4542eab 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1369,13 +1369,13 @@ impl<'b> TileEncoder<'b> {
                     let sb_size4 = num_4x4_blocks_high[sb_size as usize];
                     if self.mi_row-sb_size4 < self.mi_row_start {
                         self.pred_mv[0] = MotionVector::new(
-                            0,
-                            -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8
+                            -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8,
+                            0
                         );
                     } else {
                         self.pred_mv[0] = MotionVector::new(
-                            -((sb_size4 * MI_SIZE * 8) as isize),
-                            0
+                            0,
+                            -((sb_size4 * MI_SIZE * 8) as isize)
                         );
                     }
                 }
-- 
2.43.0


From 4a47ade4401e4b5494cc004532b245aa3d959a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 085/100] fix: the default prediction of block copies
 underflowed in the first row of superblocks

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 4542eab..bcb5ede 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1367,7 +1367,7 @@ impl<'b> TileEncoder<'b> {
                 if self.pred_mv[0]==MotionVector::new(0, 0) {
                     let sb_size = if self.ectx.borrow_mut().use_128x128_superblock { BLOCK_128X128 } else { BLOCK_64X64 };
                     let sb_size4 = num_4x4_blocks_high[sb_size as usize];
-                    if self.mi_row-sb_size4 < self.mi_row_start {
+                    if self.mi_row < self.mi_row_start+sb_size4 {
                         self.pred_mv[0] = MotionVector::new(
                             -((sb_size4 * MI_SIZE + INTRABC_DELAY_PIXELS) as isize) * 8,
                             0
-- 
2.43.0


From b5e3effcdfb6fc2ef2ab8b5e729a228e4572b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 086/100] fix: coding the motion vectors replaced the compound
 mode of the block by that of one vector

---
 src/tile_encoder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index bcb5ede..7c3ddf6 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1332,8 +1332,8 @@ impl<'b> TileEncoder<'b> {
 
     pub fn assign_mv(&mut self, is_compound: bool, frame: &mut Frame, out_bits: &mut Vec<u8>, part_tree: &mut PartitionTree) {
         for i in 0..(1+is_compound as usize) {
-            if part_tree.use_intrabc {
-                part_tree.compound_mode = NEWMV;
+            let comp_mode = if part_tree.use_intrabc {
+                NEWMV
             } else {
                 let get_mode = |ref_list: usize| -> YMode {
                     let y_mode = self.y_mode;
@@ -1357,8 +1357,8 @@ impl<'b> TileEncoder<'b> {
                         } else { GLOBALMV }
                     };
                 };
-                part_tree.compound_mode = get_mode(i);
-            }
+                get_mode(i)
+            };
             if part_tree.use_intrabc {
                 self.pred_mv[0] = self.ref_stack_mv[0][0];
                 if self.pred_mv[0]==MotionVector::new(0, 0) {
@@ -1379,17 +1379,17 @@ impl<'b> TileEncoder<'b> {
                         );
                     }
                 }
-            } else if part_tree.compound_mode==GLOBALMV {
+            } else if comp_mode==GLOBALMV {
                 self.pred_mv[i] = self.global_mvs[i];
             } else {
-                let pos = if part_tree.compound_mode==NEWMV && self.num_mv_found<=1 {
+                let pos = if comp_mode==NEWMV && self.num_mv_found<=1 {
                     0
-                } else if part_tree.compound_mode==NEARESTMV {
+                } else if comp_mode==NEARESTMV {
                     0
                 } else { self.ref_mv_idx };
                 self.pred_mv[i] = self.ref_stack_mv[pos][i];
             }
-            if part_tree.compound_mode==NEWMV {
+            if comp_mode==NEWMV {
                 // encode mv
                 let mut diff_mv = part_tree.mvs[i] - self.pred_mv[i];
                 if part_tree.use_intrabc {
-- 
2.43.0


From a17f8b3a08dcc806ba0fdb64c4794bb1af383e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:20 +0000
Subject: [PATCH 087/100] fix: coding a tile without loop restoration failed on
 its missing restoration units

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 7c3ddf6..00bea11 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -184,9 +184,9 @@ impl<'b> TileEncoder<'b> {
         let mut ecx = self.ectx.borrow_mut();
         let sb_size = if ecx.use_128x128_superblock { BLOCK_128X128 } else { BLOCK_64X64 };
         let sb_size4 = num_4x4_blocks_wide[sb_size as usize];
-        let sb = &mut frame.superblocks[r/sb_size4][c/sb_size4];
         for plane in 0..ecx.num_planes {
             if ecx.frame_restoration_type[plane] != RESTORE_NONE {
+                let sb = &mut frame.superblocks[r/sb_size4][c/sb_size4];
                 let subx = if plane==0 { 0 } else { frame.subsampling_x as usize };
                 let suby = if plane==0 { 0 } else { frame.subsampling_y as usize };
                 let unit_size = ecx.loop_restoration_size[plane];
-- 
2.43.0


From 0393774a3f1db2dfd4905fea94ce6471ee6c83f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:20 +0000
Subject: [PATCH 088/100] fix: coding a Wiener filter failed on a second borrow
 of the encoder context

---
 src/tile_encoder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 00bea11..f084a77 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -289,7 +289,6 @@ impl<'b> TileEncoder<'b> {
                                     let v = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].lr_wiener[pass][j];
                                     encode_signed_subexp_with_ref_bool(v, min, max+1, k as usize, ecx.ref_lr_wiener[plane][pass][j], self.coder, out_bits);
                                     frame.lr_wiener[plane][unit_row][unit_col][pass][j] = v;
-                                    let mut ecx = self.ectx.borrow_mut();
                                     ecx.ref_lr_wiener[plane][pass][j] = v;
                                 }
                             }
-- 
2.43.0


From 9744bfc2a374a1b3a12038229e7f7b50361244f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:21 +0000
Subject: [PATCH 089/100] fix: a frame had no room for its restoration units,
 so coding one went out of bounds

---
 src/frame.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index ce16452..586e8e3 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -340,10 +340,10 @@ impl Frame {
                 is_translation: [false; NUM_REF_FRAMES as usize],
             },
             superblocks: vec![vec![]],
-            lr_type: vec![vec![vec![]]],
-            lr_wiener: vec![vec![vec![vec![vec![]]]]],
-            lr_sgr_set: vec![vec![vec![]]],
-            lr_sgr_xqd: vec![vec![vec![vec![]]]],
+            lr_type: vec![vec![vec![FrameRestorationType::RESTORE_NONE; (width+31)>>5]; (height+31)>>5]; 3],
+            lr_wiener: vec![vec![vec![vec![vec![0; WIENER_COEFFS]; 2]; (width+31)>>5]; (height+31)>>5]; 3],
+            lr_sgr_set: vec![vec![vec![0; (width+31)>>5]; (height+31)>>5]; 3],
+            lr_sgr_xqd: vec![vec![vec![vec![0; 2]; (width+31)>>5]; (height+31)>>5]; 3],
             cdef_idx: vec![vec![-1; 32 * ((width+127)>>7)]; 32 * ((height+127)>>7)],
         }
     }
-- 
2.43.0


From 85140f729357bf592f4e340a991c53661e9a98a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:21 +0000
Subject: [PATCH 090/100] fix: restoration types were written as plain bits
 into the arithmetic coded data, or not at all

---
 src/tile_encoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index f084a77..97ed4a2 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -214,15 +214,19 @@ impl<'b> TileEncoder<'b> {
                             RESTORE_NONE => RESTORE_NONE,
                             RESTORE_WIENER => {
                                 let use_wiener = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].use_wiener;
-                                self.coder.push_bit(out_bits, use_wiener as u8);
+                                self.coder.encode_use_wiener(out_bits, &mut self.cdf, use_wiener as usize);
                                 if use_wiener { RESTORE_WIENER }  else { RESTORE_NONE }
                             },
                             RESTORE_SGRPROJ => {
                                 let use_sgrproj = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].use_sgrproj;
-                                self.coder.push_bit(out_bits, use_sgrproj as u8);
+                                self.coder.encode_use_sgrproj(out_bits, &mut self.cdf, use_sgrproj as usize);
                                 if use_sgrproj { RESTORE_SGRPROJ }  else { RESTORE_NONE }
                             },
-                            _ => sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].restoration_type,
+                            _ => {
+                                let restoration_type = sb.lr_units[plane][unit_row-unit_row_start][unit_col-unit_col_start].restoration_type;
+                                self.coder.encode_restoration_type(out_bits, &mut self.cdf, restoration_type as usize);
+                                restoration_type
+                            },
                         };
                         frame.lr_type[plane][unit_row][unit_col] = restoration_type;
 
-- 
2.43.0


From 4351bacf2ff021f18c9e9d2d74b4fb095ff0b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:22 +0000
Subject: [PATCH 091/100] fix: filter coefficients were recentered with the
 inverse (decoder) mapping and over a short alphabet

---
 src/tile_encoder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 97ed4a2..446d515 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -230,13 +230,13 @@ impl<'b> TileEncoder<'b> {
                         };
                         frame.lr_type[plane][unit_row][unit_col] = restoration_type;
 
-                        let inverse_recenter = |r: usize, v: usize| -> usize {
+                        let recenter = |r: usize, v: usize| -> usize {
                             if v > 2*r {
                                 v
-                            } else if v&1 > 0 {
-                                r - ((v+1)>>1)
+                            } else if v >= r {
+                                (v-r) << 1
                             } else {
-                                r + (v>>1)
+                                ((r-v)<<1) - 1
                             }
                         };
                         let mut encode_subexp_bool = |v: usize, num_syms: usize, k: usize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
@@ -265,12 +265,12 @@ impl<'b> TileEncoder<'b> {
                         };
                         let mut encode_unsigned_subexp_with_ref_bool = |v: usize, mx: usize, k: usize, r: usize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
                             if (r<<1) <= mx {
-                                let tv = inverse_recenter(r, v);
+                                let tv = recenter(r, v);
                                 encode_subexp_bool(tv, mx, k, coder, out_bits);
                             } else {
                                 let mut tv = mx - 1 - v;
-                                tv = inverse_recenter(mx-1-r, tv);
-                                encode_subexp_bool(tv, mx-1-r, k, coder, out_bits);
+                                tv = recenter(mx-1-r, tv);
+                                encode_subexp_bool(tv, mx, k, coder, out_bits);
                             }
                         };
                         let mut encode_signed_subexp_with_ref_bool = |v: isize, low: isize, high: isize, k: usize, r: isize, coder: &mut BoolCoder, out_bits: &mut Vec<u8>| -> () {
-- 
2.43.0


From 301aa41def0331a3df892dafa3345e6e127e5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:22 +0000
Subject: [PATCH 092/100] fix: the uniform part of filter coefficients was
 written as plain bits into the arithmetic coded data

---
 src/tile_encoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 446d515..d930808 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -247,7 +247,13 @@ impl<'b> TileEncoder<'b> {
                                 let a = 1 << b2;
                                 if num_syms <= mk+3*a {
                                     let tv = v - mk;
-                                    coder.encode_ns(out_bits, tv as u64, (num_syms-mk) as u64);
+                                    let w: usize = FloorLog2!(num_syms-mk) + 1;
+                                    let m = (1<<w) - (num_syms-mk);
+                                    if tv < m {
+                                        coder.encode_literal(out_bits, tv as u64, (w-1) as u8);
+                                    } else {
+                                        coder.encode_literal(out_bits, (tv+m) as u64, w as u8);
+                                    }
                                     break;
                                 } else {
                                     let tv = v - mk;
-- 
2.43.0


From 3df2c32a26cacbdadfe5add224f8008811fdb623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:23 +0000
Subject: [PATCH 093/100] fix: the implied weight of a self guided filter used
 the width of another field

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index d930808..270e6a0 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -317,7 +317,7 @@ impl<'b> TileEncoder<'b> {
                                 } else {
                                     v = 0;
                                     if i==1 {
-                                        v = Clip3!(min, max, (1<<SGRPROJ_PARAMS_BITS) - ecx.ref_sgr_xqd[plane][0]);
+                                        v = Clip3!(min, max, (1<<SGRPROJ_PRJ_BITS) - ecx.ref_sgr_xqd[plane][0]);
                                     }
                                 }
                                 frame.lr_sgr_xqd[plane][unit_row][unit_col][i] = v;
-- 
2.43.0


From 5a66be7951ceb5c832f46a699b0e1f587c828f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:12 +0000
Subject: [PATCH 094/100] fix: coding a tile group failed on a second borrow of
 the encoder context

---
 src/obu_encoder.rs | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 8032ccf..212f2d3 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1412,41 +1412,45 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
 
             },
             &mut OBU_TILE_GROUP(ref mut frame) => {
-                let mut ecx = self.ectx.borrow_mut();
                 let num_tiles = frame.tile_col_starts.len() * frame.tile_row_starts.len();
-                if num_tiles>1 {
-                    if frame.tile_groups.len()>0 {
-                        self.coder.push_bit(out_bits, 1); // tile_start_and_end_present_flag
+                let (tg_start, tg_end, tile_size_field) = {
+                    let mut ecx = self.ectx.borrow_mut();
+                    if num_tiles>1 {
+                        if frame.tile_groups.len()>0 {
+                            self.coder.push_bit(out_bits, 1); // tile_start_and_end_present_flag
+                        } else {
+                            self.coder.push_bit(out_bits, 0); // tile_start_and_end_present_flag
+                        }
+                    }
+                    if num_tiles==1 || frame.tile_groups.len()==0 {
+                        ecx.tg_start = 0;
+                        ecx.tg_end = num_tiles - 1;
                     } else {
-                        self.coder.push_bit(out_bits, 0); // tile_start_and_end_present_flag
+                        let tile_bits = frame.tile_cols_log2() + frame.tile_rows_log2();
+                        self.coder.push_bits_with_size(out_bits, ecx.tg_start as u32, tile_bits as u8);
+                        self.coder.push_bits_with_size(out_bits, ecx.tg_end as u32, tile_bits as u8);
                     }
-                }
-                if num_tiles==1 || frame.tile_groups.len()==0 {
-                    ecx.tg_start = 0;
-                    ecx.tg_end = num_tiles - 1;
-                } else {
-                    let tile_bits = frame.tile_cols_log2() + frame.tile_rows_log2();
-                    self.coder.push_bits_with_size(out_bits, ecx.tg_start as u32, tile_bits as u8);
-                    self.coder.push_bits_with_size(out_bits, ecx.tg_end as u32, tile_bits as u8);
-                }
+                    (ecx.tg_start, ecx.tg_end, ecx.tile_size_bytes)
+                };
                 self.coder.push_bits_align(out_bits);
 
-                for n in ecx.tg_start..(ecx.tg_end+1) {
-                    ecx.tile_num = n;
-                    let last_tile = ecx.tile_num == ecx.tg_end;
+                for n in tg_start..(tg_end+1) {
+                    self.ectx.borrow_mut().tile_num = n;
+                    let last_tile = n == tg_end;
                     let mut tile_bits: Vec<u8> = vec![];
                     {
                         //let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.writer, self.coder);
                         let mut tile_encoder = TileEncoder::new(&self.ectx.clone(), self.coder);
-                        tile_encoder.encode_tile(frame, ecx.tile_num, &mut tile_bits);
+                        tile_encoder.encode_tile(frame, n, &mut tile_bits);
                     }
                     let tile_size_bytes = (tile_bits.len()+7) / 8;
                     if !last_tile {
-                        self.coder.encode_le(out_bits, (tile_size_bytes-1) as u64, ecx.tile_size_bytes as u8);
+                        self.coder.encode_le(out_bits, (tile_size_bytes-1) as u64, tile_size_field as u8);
                     }
                 }
 
-                if ecx.tg_end == frame.num_tiles()-1 {
+                let mut ecx = self.ectx.borrow_mut();
+                if tg_end == frame.num_tiles()-1 {
                     if !ecx.disable_frame_end_update_cdf {
                         // frame_end_update_cdf
                         // TODO
-- 
2.43.0


From 97d2ab715ed1e74d2b04ef4cb7e6f05503e47a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:13 +0000
Subject: [PATCH 095/100] fix: the data of tiles was not written to their tile
 group

---
 src/obu_encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/obu_encoder.rs b/src/obu_encoder.rs
index 212f2d3..8265e57 100644
--- a/src/obu_encoder.rs
+++ b/src/obu_encoder.rs
@@ -1447,6 +1447,7 @@ impl<'a, 'b> OBUEncoder<'a, 'b> where 'a: 'b {
                     if !last_tile {
                         self.coder.encode_le(out_bits, (tile_size_bytes-1) as u64, tile_size_field as u8);
                     }
+                    self.coder.push_bits(out_bits, &tile_bits);
                 }
 
                 let mut ecx = self.ectx.borrow_mut();
-- 
2.43.0


From abdb567576e26da98653271af46a100d5549843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:13 +0000
Subject: [PATCH 096/100] fix: tiles were coded without starting and finishing
 the arithmetic coder

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 270e6a0..73ba48a 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -121,7 +121,7 @@ impl<'b> TileEncoder<'b> {
             self.mi_col_end = ecx.mi_col_starts[tile_col+1];
             ecx.current_q_index = frame.quantization_params.base_q_idx as usize;
 
-            // init symbol
+            self.coder.init_encoder();
 
             // clear above context
 
@@ -172,7 +172,7 @@ impl<'b> TileEncoder<'b> {
             r += sb_size4;
         }
 
-        // exit symbol
+        self.coder.exit_encoder(out_bits);
     }
 
     pub fn encode_lr(&mut self, out_bits: &mut Vec<u8>, frame: &mut Frame, r: usize, c: usize, bsize: BlockSize) -> () {
-- 
2.43.0


From 030879f631af237fa3991099a991a899ba0b18d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:14 +0000
Subject: [PATCH 097/100] fix: predicted vectors lost their eighth-sample
 precision in frames that allow it

---
 src/tile_encoder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 73ba48a..b8f1853 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -940,7 +940,9 @@ impl<'b> TileEncoder<'b> {
                 };
                 let lower_mv_precision = |v: isize| -> isize {
                     let mut r = v;
-                    if frame.force_integer_mv>0 {
+                    if frame.allow_high_precision_mv {
+                        v
+                    } else if frame.force_integer_mv>0 {
                         let a = Abs!(v);
                         let a_int = (a+3) >> 3;
                         if v>0 {
@@ -1089,7 +1091,9 @@ impl<'b> TileEncoder<'b> {
                         }
                         let lower_mv_precision = |v: isize| -> isize {
                             let mut r = v;
-                            if frame.force_integer_mv>0 {
+                            if frame.allow_high_precision_mv {
+                                v
+                            } else if frame.force_integer_mv>0 {
                                 let a = Abs!(v);
                                 let a_int = (a+3) >> 3;
                                 if v>0 {
@@ -1219,7 +1223,9 @@ impl<'b> TileEncoder<'b> {
                         };
                         let lower_mv_precision = |v: isize| -> isize {
                             let mut r = v;
-                            if frame.force_integer_mv>0 {
+                            if frame.allow_high_precision_mv {
+                                v
+                            } else if frame.force_integer_mv>0 {
                                 let a = Abs!(v);
                                 let a_int = (a+3) >> 3;
                                 if v>0 {
@@ -1283,7 +1289,9 @@ impl<'b> TileEncoder<'b> {
                     }
                     let lower_mv_precision = |v: isize| -> isize {
                         let mut r = v;
-                        if frame.force_integer_mv>0 {
+                        if frame.allow_high_precision_mv {
+                            v
+                        } else if frame.force_integer_mv>0 {
                             let a = Abs!(v);
                             let a_int = (a+3) >> 3;
                             if v>0 {
-- 
2.43.0


From acce06e22724caac063dbe35a0c77cfa4fc03fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:14 +0000
Subject: [PATCH 098/100] fix: the global vector of a translation had its
 components exchanged

---
 src/tile_encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index b8f1853..b1dac64 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -914,8 +914,8 @@ impl<'b> TileEncoder<'b> {
                     MotionVector::new(0, 0)
                 } else if typ==TRANSLATION {
                     MotionVector::new(
-                        ecx.gm_params[rf as usize][0] >> (WARPEDMODEL_PREC_BITS-3),
-                        ecx.gm_params[rf as usize][1] >> (WARPEDMODEL_PREC_BITS-3)
+                        ecx.gm_params[rf as usize][1] >> (WARPEDMODEL_PREC_BITS-3),
+                        ecx.gm_params[rf as usize][0] >> (WARPEDMODEL_PREC_BITS-3)
                     )
                 } else {
                     let x = (self.mi_col * MI_SIZE + bw/2 - 1) as isize;
-- 
2.43.0


From 29a4e83d09cdc7b9af9a380f61e258d2ecf662ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:26 +0000
Subject: [PATCH 099/100] fix: predicting the vectors of a block in the first
 row or at the right edge stopped the program

---
 src/tile_encoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index b1dac64..65b9657 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1053,9 +1053,12 @@ impl<'b> TileEncoder<'b> {
             let mv_row = self.mi_row as isize + delta_row;
             let mv_col = self.mi_col as isize + delta_col;
             let weight = 4;
-            let mi = frame.get_mi(mv_row as usize, mv_col as usize).unwrap();
-            if self.is_inside(mv_row, mv_col) && mi.ref_frame[0]!=NONE { // FIXME
-                self.add_ref_mv_candidate(mv_row as usize, mv_col as usize, is_compound, weight, &mi, frame, part_tree);
+            if self.is_inside(mv_row, mv_col) {
+                if let Some(mi) = frame.get_mi(mv_row as usize, mv_col as usize) {
+                    if mi.ref_frame[0]!=NONE { // FIXME
+                        self.add_ref_mv_candidate(mv_row as usize, mv_col as usize, is_compound, weight, &mi, frame, part_tree);
+                    }
+                }
             }
         }
         if self.found_match {
-- 
2.43.0


From a11eaf3c76cccac99c0ac03b4f6beac8f34004e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:24 +0000
Subject: [PATCH 100/100] fix: the motion of earlier frames was looked up in
 frames that do not use it

---
 src/tile_encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tile_encoder.rs b/src/tile_encoder.rs
index 65b9657..6ccff87 100644
--- a/src/tile_encoder.rs
+++ b/src/tile_encoder.rs
@@ -1073,7 +1073,7 @@ impl<'b> TileEncoder<'b> {
             }
         }
         self.zero_mv_context = 0;
-        {
+        if frame.use_ref_frame_mvs {
             // temporal scan
             let bw4 = num_4x4_blocks_wide[part_tree.bsize as usize];
             let bh4 = num_4x4_blocks_high[part_tree.bsize as usize];
-- 
2.43.0

