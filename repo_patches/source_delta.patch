From 19513698b43c91a793ddd2d7f0abddb3e138f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 01/13] fix: compare the level display rate limit with the
 frame rate

The time base is seconds per frame, so samples per second is
width * height * den / num.
---
 src/api/config/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index aef2c45..11defef 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -422,8 +422,8 @@ impl Config {
         if config.height > AV1_LEVEL_MAX_V_SIZE[level_idx as usize] {
           return Err(LevelConstraintsExceeded);
         }
-        if ((config.width * config.height) as u64 * config.time_base.num)
-          .div_ceil(config.time_base.den)
+        if ((config.width * config.height) as u64 * config.time_base.den)
+          .div_ceil(config.time_base.num)
           > AV1_LEVEL_MAX_DISPLAY_RATE[level_idx as usize] as u64
         {
           return Err(LevelConstraintsExceeded);
-- 
2.43.0


From 2c7188c2faec8e7e92e1f66e89bc5c0f64480df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 02/13] fix: make the container sequence header match the
 sequence header

The level, chroma sample position and monochrome subsampling were
hard-coded and contradicted the sequence header OBU.
---
 src/api/channel/data.rs | 17 +++++++++++++----
 src/api/context.rs      | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/api/channel/data.rs b/src/api/channel/data.rs
index 6b3f65c..9f1fa66 100644
--- a/src/api/channel/data.rs
+++ b/src/api/channel/data.rs
@@ -355,14 +355,23 @@ impl<T: Pixel> PacketReceiver<T> {
         bw.write_bit(true)?; // marker
         bw.write::<7, u8>(1)?; // version
         bw.write::<3, u8>(seq.profile)?;
-        bw.write::<5, u8>(31)?; // level
-        bw.write_bit(false)?; // tier
+        bw.write::<5, u8>(seq.level_idx[0])?; // level
+        bw.write_bit(seq.tier[0] != 0)?; // tier
         bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
         bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
         bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
         bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs420)?; // chroma_subsampling_y
-        bw.write::<2, u8>(0)?; // chroma_sample_position
+        bw.write_bit(matches!(
+          seq.chroma_sampling,
+          ChromaSampling::Cs420 | ChromaSampling::Cs400
+        ))?; // chroma_subsampling_y
+        let chroma_sample_position =
+          if seq.chroma_sampling == ChromaSampling::Cs420 {
+            seq.chroma_sample_position
+          } else {
+            ChromaSamplePosition::Unknown
+          };
+        bw.write::<2, u8>(chroma_sample_position as u8)?; // chroma_sample_position
         bw.write::<3, u8>(0)?; // reserved
         bw.write_bit(false)?; // initial_presentation_delay_present
 
diff --git a/src/api/context.rs b/src/api/context.rs
index 6aa6a8b..23f9e6d 100644
--- a/src/api/context.rs
+++ b/src/api/context.rs
@@ -347,14 +347,23 @@ impl<T: Pixel> Context<T> {
         bw.write_bit(true)?; // marker
         bw.write::<7, u8>(1)?; // version
         bw.write::<3, u8>(seq.profile)?;
-        bw.write::<5, u8>(31)?; // level
-        bw.write_bit(false)?; // tier
+        bw.write::<5, u8>(seq.level_idx[0])?; // level
+        bw.write_bit(seq.tier[0] != 0)?; // tier
         bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
         bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
         bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
         bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs420)?; // chroma_subsampling_y
-        bw.write::<2, u8>(0)?; // chroma_sample_position
+        bw.write_bit(matches!(
+          seq.chroma_sampling,
+          ChromaSampling::Cs420 | ChromaSampling::Cs400
+        ))?; // chroma_subsampling_y
+        let chroma_sample_position =
+          if seq.chroma_sampling == ChromaSampling::Cs420 {
+            seq.chroma_sample_position
+          } else {
+            ChromaSamplePosition::Unknown
+          };
+        bw.write::<2, u8>(chroma_sample_position as u8)?; // chroma_sample_position
         bw.write::<3, u8>(0)?; // reserved
         bw.write_bit(false)?; // initial_presentation_delay_present
 
-- 
2.43.0


From a1a5253fc608ca2b05e9916a59d1d2f712227f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 03/13] fix: reject levels below 2.0 in the C API option parser

The subtraction underflowed for a major level of 0 or 1.
---
 src/capi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index 44011d7..9a7b93b 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -732,7 +732,7 @@ unsafe fn option_match(
         _ => {
           let (major, minor) =
             scan_fmt!(value, "{}.{}", u8, u8).map_err(|_| ())?;
-          if major > 7 || minor > 3 {
+          if !(2..=7).contains(&major) || minor > 3 {
             return Err(());
           }
           Some(((major - 2) << 2) + minor)
-- 
2.43.0


From a7ad6b1d1873d44680850e9487fab4e5a4ea8b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 04/13] fix: discard a frame data packet that fails to parse

The stale packet stayed in the buffer and every later packet was
ignored in favour of it.
---
 src/rate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rate.rs b/src/rate.rs
index 365e0a4..7f8677f 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1471,8 +1471,9 @@ impl RCState {
 
     self.des.buffer_fill(buf, 0, TWOPASS_PACKET_SZ);
     self.des.pass2_buffer_pos = 0;
-    let m = self.des.parse_metrics()?;
+    let m = self.des.parse_metrics();
     self.des.pass2_buffer_fill = 0;
+    let m = m?;
 
     if self.frame_metrics.is_empty() {
       // We're using a whole-file buffer.
-- 
2.43.0


From 949df13f2dbb8673a43415114bbc9de78866a3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:32 +0000
Subject: [PATCH 05/13] fix: clear the last error after a successful
 rav1e_twopass_in

---
 src/capi.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index 9a7b93b..76ac25f 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -1110,7 +1110,10 @@ pub unsafe extern fn rav1e_twopass_in(
   let buf_slice = slice::from_raw_parts(buf, buf_size as usize);
   let r = (*ctx).ctx.twopass_in(buf_slice);
   match r {
-    Ok(v) => v as c_int,
+    Ok(v) => {
+      (*ctx).last_err = None;
+      v as c_int
+    }
     Err(v) => {
       (*ctx).last_err = Some(v);
       -1
-- 
2.43.0


From e7e95c4bfbdeead470ac2b47d2d0dd607a745e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:58 +0000
Subject: [PATCH 06/13] fix: refuse a first pass channel for a configuration
 with a pass summary

---
 src/api/channel/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index d81ccb9..e83a809 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -89,7 +89,7 @@ impl Config {
   ) -> Result<(VideoDataChannel<T>, RcDataReceiver), InvalidConfig> {
     let rc = &self.rate_control;
 
-    if !rc.emit_pass_data {
+    if !rc.emit_pass_data || rc.summary.is_some() {
       return Err(InvalidConfig::RateControlConfigurationMismatch);
     }
 
-- 
2.43.0


From bb49f769be1f9743770a970159d8f8a6c60c4afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:38 +0000
Subject: [PATCH 07/13] fix: do not write chroma film grain parameters the
 decoder infers to be absent

---
 src/header.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 4217285..90413e9 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -861,11 +861,18 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
           } else {
             false
           };
-        if !(fi.sequence.chroma_sampling == ChromaSampling::Cs400
-          || chroma_scaling_from_luma
-          || (fi.sequence.chroma_sampling == ChromaSampling::Cs420
-            && grain_params.scaling_points_y.is_empty()))
-        {
+        // The chroma points are only coded, and thus only take effect, when
+        // the decoder does not infer that there are none.
+        let chroma_points_coded =
+          !(fi.sequence.chroma_sampling == ChromaSampling::Cs400
+            || chroma_scaling_from_luma
+            || (fi.sequence.chroma_sampling == ChromaSampling::Cs420
+              && grain_params.scaling_points_y.is_empty()));
+        let has_cb_points =
+          chroma_points_coded && !grain_params.scaling_points_cb.is_empty();
+        let has_cr_points =
+          chroma_points_coded && !grain_params.scaling_points_cr.is_empty();
+        if chroma_points_coded {
           self.write::<4, u8>(grain_params.scaling_points_cb.len() as u8)?;
           for point in &grain_params.scaling_points_cb {
             self.write::<8, u8>(point[0])?;
@@ -896,18 +903,14 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
           num_pos_chroma = num_pos_luma;
         }
 
-        if chroma_scaling_from_luma
-          || !grain_params.scaling_points_cb.is_empty()
-        {
+        if chroma_scaling_from_luma || has_cb_points {
           for i in 0..num_pos_chroma {
             self.write::<8, u8>(
               (grain_params.ar_coeffs_cb[i] as i16 + 128) as u8,
             )?;
           }
         }
-        if chroma_scaling_from_luma
-          || !grain_params.scaling_points_cr.is_empty()
-        {
+        if chroma_scaling_from_luma || has_cr_points {
           for i in 0..num_pos_chroma {
             self.write::<8, u8>(
               (grain_params.ar_coeffs_cr[i] as i16 + 128) as u8,
@@ -917,12 +920,12 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
 
         self.write::<2, u8>(grain_params.ar_coeff_shift - 6)?;
         self.write::<2, u8>(grain_params.grain_scale_shift)?;
-        if !grain_params.scaling_points_cb.is_empty() {
+        if has_cb_points {
           self.write::<8, u8>(grain_params.cb_mult)?;
           self.write::<8, u8>(grain_params.cb_luma_mult)?;
           self.write::<9, u16>(grain_params.cb_offset)?;
         }
-        if !grain_params.scaling_points_cr.is_empty() {
+        if has_cr_points {
           self.write::<8, u8>(grain_params.cr_mult)?;
           self.write::<8, u8>(grain_params.cr_luma_mult)?;
           self.write::<9, u16>(grain_params.cr_offset)?;
-- 
2.43.0


From 1c3c88054566bc85e13ac9d3005bd4aa853749f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:29 +0000
Subject: [PATCH 08/13] fix: keep T.35 metadata of re-ordered frames until they
 are shown

---
 src/api/internal.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/api/internal.rs b/src/api/internal.rs
index 153610c..db08255 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -538,12 +538,6 @@ impl<T: Pixel> ContextInner<T> {
       return Err(EncoderStatus::NeedMoreData);
     }
 
-    let t35_metadata = if let Some(t35) = self.t35_q.remove(&input_frameno) {
-      t35
-    } else {
-      Box::new([])
-    };
-
     if output_frameno_in_gop > 0 {
       let next_keyframe_input_frameno = self.next_keyframe_input_frameno(
         self.gop_input_frameno_start[&output_frameno],
@@ -579,7 +573,7 @@ impl<T: Pixel> ContextInner<T> {
             output_frameno_in_gop,
             next_keyframe_input_frameno,
             self.config.error_resilient,
-            t35_metadata,
+            Box::new([]),
           );
           assert!(fi.is_none());
           return Ok(fi);
@@ -594,6 +588,11 @@ impl<T: Pixel> ContextInner<T> {
       }
     }
 
+    // A re-ordered input frame is first coded as a hidden frame and displayed
+    //  later, so keep its metadata until the packet that shows it is out.
+    let t35_metadata =
+      self.t35_q.get(&input_frameno).cloned().unwrap_or_default();
+
     // Now that we know the input_frameno, look up the correct frame type
     let frame_type = if self.keyframes.contains(&input_frameno) {
       FrameType::KEY
@@ -1531,6 +1530,7 @@ impl<T: Pixel> ContextInner<T> {
     if let Ok(ref mut pkt) = ret {
       self.garbage_collect(pkt.input_frameno);
       pkt.opaque = self.opaque_q.remove(&pkt.input_frameno);
+      self.t35_q.remove(&pkt.input_frameno);
     }
 
     ret
-- 
2.43.0


From 4424b1624eb448ef05acc008d4b3a45fbc12bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:03 +0000
Subject: [PATCH 09/13] fix: do not report success for an oversized pass data
 length in the C API

---
 src/capi.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 76ac25f..be5f0ba 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -461,10 +461,15 @@ unsafe fn decode_slice<'a>(
   let buf = slice::from_raw_parts(*data, *len as usize);
   let (len_bytes, rest) = buf.split_at(std::mem::size_of::<u64>());
   let buf_len = u64::from_be_bytes(len_bytes.try_into().unwrap()) as usize;
-  let full_len = buf_len + 8;
   if buf_len > rest.len() {
-    return (full_len as c_int, None);
+    // A length that does not even fit the return value cannot be fulfilled.
+    let needed = buf_len
+      .checked_add(8)
+      .and_then(|full_len| c_int::try_from(full_len).ok())
+      .unwrap_or(-1);
+    return (needed, None);
   }
+  let full_len = buf_len + 8;
 
   *len -= full_len;
   *data = (*data).offset(full_len.try_into().unwrap());
-- 
2.43.0


From 039dd0ee835dba8c02767207dcf3e2acdfb3256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 10/13] fix: refuse a second frame for a still picture through
 the channel API

---
 src/api/channel/by_gop.rs | 4 +++-
 src/api/channel/mod.rs    | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 342c7c0..b1ba5d3 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -346,7 +346,9 @@ impl Config {
 
     // TODO: make it user-settable
     let input_len = self.enc.speed_settings.rdo_lookahead_frames as usize * 4;
-    let frame_limit = i32::MAX as u64;
+    // A still picture stream cannot hold more than a frame.
+    let frame_limit =
+      if self.enc.still_picture { 1 } else { i32::MAX as u64 };
 
     let (send_frame, receive_frame) = bounded(input_len);
     let (send_packet, receive_packet) = unbounded();
diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index e83a809..8f25318 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -294,6 +294,9 @@ impl Config {
     } else {
       (None, None, i32::MAX as u64)
     };
+    // A still picture stream cannot hold more than a frame.
+    let frame_limit =
+      if self.enc.still_picture { frame_limit.min(1) } else { frame_limit };
 
     let config = Arc::new(self.enc.clone());
 
-- 
2.43.0


From cbdb70a93a3fbea677513f74a86437069018a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:38 +0000
Subject: [PATCH 11/13] fix: the by-GOP channel dropped the parameters of every
 frame

---
 src/api/channel/by_gop.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index b1ba5d3..ba294a2 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -24,6 +24,7 @@ use std::sync::Arc;
 
 struct SubGop<T: Pixel> {
   frames: Vec<Arc<Frame<T>>>,
+  params: Vec<Option<FrameParameters>>,
   end_gop: bool,
 }
 
@@ -172,7 +173,7 @@ fn workerpool<T: Pixel>(
           Some(wl) => {
             let mut inner = cfg.new_inner().unwrap();
             for s in wl.s_recv.iter() {
-              for f in s.frames {
+              for (f, params) in s.frames.into_iter().zip(s.params) {
                 while !inner.needs_more_fi_lookahead() {
                   let r = inner.receive_packet();
                   match r {
@@ -183,7 +184,7 @@ fn workerpool<T: Pixel>(
                     _ => todo!("Error management {:?}", r),
                   }
                 }
-                let _ = inner.send_frame(Some(f), None);
+                let _ = inner.send_frame(Some(f), params);
               }
             }
 
@@ -269,10 +270,12 @@ impl Config {
 
     s.spawn_fifo(move |_| {
       let mut lookahead = Vec::new();
+      let mut lookahead_params = Vec::new();
       for f in r.iter() {
-        let (frame, _params) = f;
+        let (frame, params) = f;
 
         lookahead.push(frame.unwrap());
+        lookahead_params.push(params);
 
         // we need at least lookahead_distance frames to reason
         if lookahead.len() < lookahead_distance {
@@ -281,23 +284,39 @@ impl Config {
 
         if let Some((split_pos, end_gop)) = sc.split(&lookahead) {
           let rem = lookahead.split_off(split_pos);
-          let _ = send.send(SubGop { frames: lookahead, end_gop });
+          let rem_params = lookahead_params.split_off(split_pos);
+          let _ = send.send(SubGop {
+            frames: lookahead,
+            params: lookahead_params,
+            end_gop,
+          });
 
           lookahead = rem;
+          lookahead_params = rem_params;
         }
       }
 
       while lookahead.len() > lookahead_distance {
         if let Some((split_pos, end_gop)) = sc.split(&lookahead) {
           let rem = lookahead.split_off(split_pos);
-          let _ = send.send(SubGop { frames: lookahead, end_gop });
+          let rem_params = lookahead_params.split_off(split_pos);
+          let _ = send.send(SubGop {
+            frames: lookahead,
+            params: lookahead_params,
+            end_gop,
+          });
 
           lookahead = rem;
+          lookahead_params = rem_params;
         }
       }
 
       if !lookahead.is_empty() {
-        let _ = send.send(SubGop { frames: lookahead, end_gop: true });
+        let _ = send.send(SubGop {
+          frames: lookahead,
+          params: lookahead_params,
+          end_gop: true,
+        });
       }
     });
 
-- 
2.43.0


From c7207bcee49f1a3f917e4f104bc9528e4ef71a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 12/13] fix: MaxPicSize of level 4.1 is 2359296

---
 src/levels.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/levels.rs b/src/levels.rs
index 63fbff0..9f88956 100644
--- a/src/levels.rs
+++ b/src/levels.rs
@@ -32,7 +32,7 @@ pub static AV1_LEVEL_MAX_PIC_SIZE: [usize; 32] = [
   0, 0, 665856,  // 3.0
   1065024, // 3.1
   0, 0, 2359296,  // 4.0
-  23592960, // 4.1
+  2359296, // 4.1
   0, 0, 8912896,  // 5.0
   8912896,  // 5.1
   8912896,  // 5.2
-- 
2.43.0


From 1935a06369749072fe50ded84d0787d678b9af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 13/13] fix: use the regular 4-tap filter for SHARP blocks of
 width 4 or less

---
 src/mc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc.rs b/src/mc.rs
index d442322..03512a7 100644
--- a/src/mc.rs
+++ b/src/mc.rs
@@ -241,7 +241,8 @@ pub(crate) mod rust {
     let filter_idx = if mode == FilterMode::BILINEAR || length > 4 {
       mode as usize
     } else {
-      (mode as usize).min(1) + 4
+      // 4-tap: smooth for SMOOTH, regular for REGULAR and SHARP
+      4 + (mode == FilterMode::SMOOTH) as usize
     };
     SUBPEL_FILTERS[filter_idx][frac as usize]
   }
-- 
2.43.0

