From 8524d06447a8c85acd3f848d38dfe0ed240815cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:25 +0000
Subject: [PATCH 1/8] fix: keep exactly the newest blocks when changing the
 maximum history

---
 src/history.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index de97a0e..a633a9f 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -179,9 +179,10 @@ impl Queue {
     }
 
     fn set_max_size(&mut self, max: usize) {
-        if self.queue.len() < max {
+        if self.queue.len() > max {
+            // Only keep the newest elements
+            self.queue.drain(..self.queue.len() - max);
             // FIXME: Use shrink() once stabilized
-            self.queue.resize(max, 0.0);
             self.queue.shrink_to_fit();
         }
         self.max = max;
-- 
2.43.0


From ae40c91fe26579dd4f591d0b8e6cb29b577a7283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:25 +0000
Subject: [PATCH 2/8] fix: make the audio buffer large enough for the rounded
 blocks at low rates

---
 src/ebur128.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index ff7b88c..c3a618d 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -265,6 +265,12 @@ impl EbuR128 {
         let samples_in_100ms = (rate as usize + 5) / 10;
 
         let mut audio_data_frames = (rate as usize).checked_mul(window).ok_or(Error::NoMem)? / 1000;
+        // 100ms are rounded to whole samples, so that the 400ms/3s blocks can be longer than the
+        // window at low rates
+        audio_data_frames = std::cmp::max(
+            audio_data_frames,
+            samples_in_100ms * (std::cmp::min(window, 3000) / 100),
+        );
         if audio_data_frames % samples_in_100ms != 0 {
             // round up to multiple of samples_in_100ms
             audio_data_frames = audio_data_frames
-- 
2.43.0


From 1250a961900beedda517b03c58b1820fc42fa56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:25 +0000
Subject: [PATCH 3/8] fix: return an error for a wrong number of planes instead
 of panicking

---
 src/ebur128.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index c3a618d..d54da87 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -574,6 +574,10 @@ impl EbuR128 {
         &mut self,
         mut src: S,
     ) -> Result<(), Error> {
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         if src.frames() == 0 {
             return Ok(());
         }
@@ -666,8 +670,17 @@ impl EbuR128 {
         Ok(())
     }
 
-    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(&mut self, src: S) {
+    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(
+        &mut self,
+        src: S,
+    ) -> Result<(), Error> {
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         self.filter.seed(src, &self.channel_map);
+
+        Ok(())
     }
 
     /// Add interleaved frames to be processed.
@@ -713,57 +726,49 @@ impl EbuR128 {
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i16(&mut self, frames: &[i16]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i32(&mut self, frames: &[i32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f32(&mut self, frames: &[f32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f64(&mut self, frames: &[f64]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i16(&mut self, frames: &[&[i16]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i32(&mut self, frames: &[&[i32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f32(&mut self, frames: &[&[f32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f64(&mut self, frames: &[&[f64]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Get global integrated loudness in LUFS.
-- 
2.43.0


From 5198ae0621c30948bcee68a971f49c722d023ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 4/8] fix: reject invalid channel types in the C API

---
 src/capi.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 34142a4..48bf4f2 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -79,6 +79,10 @@ pub unsafe extern "C" fn ebur128_set_channel(
     let s = &mut *state;
     let e = &mut *s.internal;
 
+    if !(ebur128::Channel::Unused as i32..=ebur128::Channel::Bm045 as i32).contains(&value) {
+        return ebur128::Error::InvalidChannelIndex.into();
+    }
+
     match e.set_channel(
         channel_number,
         mem::transmute::<i32, ebur128::Channel>(value),
-- 
2.43.0


From fdf953f9039891fa35715aca1167b93f0bbc92b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 5/8] fix: do not truncate sample rates in the C API

---
 src/capi.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 48bf4f2..72f24ee 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -26,6 +26,10 @@ pub unsafe extern "C" fn ebur128_init(
     // Same values as our Mode enum
     mode: i32,
 ) -> *mut State {
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ptr::null_mut();
+    }
+
     let e = match ebur128::EbuR128::new(
         channels,
         samplerate as u32,
@@ -104,6 +108,10 @@ pub unsafe extern "C" fn ebur128_change_parameters(
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     let e = &mut *s.internal;
 
     match e.change_parameters(channels, samplerate as u32) {
-- 
2.43.0


From 5ef7d856955d57677d7cd2a900c8da850088986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 6/8] fix: report NO_CHANGE in the C API when the minimum
 window or history is already set

---
 src/capi.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 72f24ee..db26467 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -136,12 +136,11 @@ pub unsafe extern "C" fn ebur128_set_max_window(
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_window() == window as usize {
-        return 4; // EBUR128_ERROR_NO_CHANGE
-    }
+    let old_window = e.max_window();
 
     match e.set_max_window(window as u32) {
         Err(err) => err.into(),
+        Ok(_) if e.max_window() == old_window => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
@@ -158,12 +157,11 @@ pub unsafe extern "C" fn ebur128_set_max_history(
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_history() == history as usize {
-        return 4; // EBUR128_ERROR_NO_CHANGE
-    }
+    let old_history = e.max_history();
 
     match e.set_max_history(history as u32) {
         Err(err) => err.into(),
+        Ok(_) if e.max_history() == old_history => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
-- 
2.43.0


From 9a9c863b532d230404b2f0f2f99c091dc584d58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 7/8] fix: allow NULL with no frames or states in the C API

---
 src/capi.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index db26467..98184e6 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -1,6 +1,6 @@
 use crate::ebur128;
 
-use std::{mem, ptr};
+use std::{mem, ptr, slice};
 
 // ABI compatible with ebur128_state
 #[repr(C)]
@@ -11,6 +11,15 @@ pub struct State {
     internal: *mut ebur128::EbuR128,
 }
 
+/// Like `slice::from_raw_parts()` but also allows NULL for empty slices, as C callers do.
+unsafe fn slice_from_raw<'a, T>(data: *const T, len: usize) -> &'a [T] {
+    if len == 0 {
+        &[]
+    } else {
+        slice::from_raw_parts(data, len)
+    }
+}
+
 #[no_mangle]
 pub unsafe extern "C" fn ebur128_get_version(major: *mut i32, minor: *mut i32, patch: *mut i32) {
     // We're based on 1.2.6 so let's return that for now
@@ -172,8 +181,6 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
     src: *const i16,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -182,7 +189,7 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i16(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i16(slice_from_raw(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -194,8 +201,6 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
     src: *const i32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -204,7 +209,7 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i32(slice_from_raw(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -216,8 +221,6 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
     src: *const f32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -226,7 +229,7 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f32(slice_from_raw(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -238,8 +241,6 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
     src: *const f64,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -248,7 +249,7 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f64(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f64(slice_from_raw(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -274,9 +275,7 @@ pub unsafe extern "C" fn ebur128_loudness_global_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_raw(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_global_multiple(iter) {
@@ -358,9 +357,7 @@ pub unsafe extern "C" fn ebur128_loudness_range_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_raw(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_range_multiple(iter) {
-- 
2.43.0


From 42e485bcf27fa5b0642fe0a8afa9921fe90866f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:39 +0000
Subject: [PATCH 8/8] fix: silence unused channels in the audio buffer

---
 src/filter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter.rs b/src/filter.rs
index 86b9270..4ebf22d 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -204,6 +204,8 @@ impl Filter {
                 Iterator::zip(channel_map.iter(), dest.chunks_exact_mut(dest_stride)).enumerate()
             {
                 if *channel_map == crate::ebur128::Channel::Unused {
+                    // Don't leave old audio behind for when the channel is used again
+                    dest[dest_index..][..src.frames()].fill(0.0);
                     continue;
                 }
 
-- 
2.43.0

