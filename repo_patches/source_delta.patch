From df165904b971117be0fe6c2332c819a45f65aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 01/18] verif: add an instruction set override, compiled only
 with --cfg dcp_verif

---
 src/lib.rs | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d7071ab..e22af9e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -945,6 +945,10 @@ pub fn convert_image(
             .unwrap_or(converters)
     };
 
+    // Verification hook, absent from normal builds: see `verif`
+    #[cfg(dcp_verif)]
+    let converters = verif::forced_table().copied().unwrap_or(converters);
+
     if index >= converters.len() {
         return Err(ErrorKind::InvalidOperation);
     }
@@ -981,6 +985,55 @@ pub fn initialize_with_instruction_set(instruction_set: &str) {
     };
 }
 
+/// Verification hook: lets the calling thread choose the instruction set used by
+/// `convert_image`. It is compiled only when building with `--cfg dcp_verif`.
+#[doc(hidden)]
+#[cfg(all(dcp_verif, target_arch = "x86_64"))]
+pub mod verif {
+    use super::{convert_image, dispatcher, paste, ColorSpace, DispatchTable, PixelFormat};
+    use std::cell::Cell;
+    use std::sync::OnceLock;
+
+    std::thread_local! {
+        static FORCED: Cell<u32> = const { Cell::new(0) };
+    }
+
+    /// Forces an instruction set on the calling thread (0: automatic, 1: x86, 2: sse2,
+    /// 3: avx2). Returns false, and changes nothing, if the cpu does not support it.
+    pub fn force(set: u32) -> bool {
+        let supported = match set {
+            0..=2 => true,
+            3 => std::arch::is_x86_feature_detected!("avx2"),
+            _ => false,
+        };
+
+        if supported {
+            FORCED.with(|forced| forced.set(set));
+        }
+
+        supported
+    }
+
+    pub(super) fn forced_table() -> Option<&'static DispatchTable> {
+        static TABLES: OnceLock<[DispatchTable; 3]> = OnceLock::new();
+
+        let set = FORCED.with(Cell::get);
+        if set == 0 {
+            return None;
+        }
+
+        let tables = TABLES.get_or_init(|| {
+            let mut tables: [DispatchTable; 3] = [[None; dispatcher::TABLE_SIZE]; 3];
+            set_dispatch_table!(tables[0], x86);
+            set_dispatch_table!(tables[1], sse2);
+            set_dispatch_table!(tables[2], avx2);
+            tables
+        });
+
+        tables.get(set as usize - 1)
+    }
+}
+
 #[doc(hidden)]
 #[cfg(not(feature = "test_instruction_sets"))]
 pub mod c_api {
-- 
2.43.0


From 9af0c1268a65275e6955f5ab991f9d94685d2bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 02/18] fix: check buffer sizes against the row size and the
 stride, not swapped

---
 src/convert_image/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/convert_image/common.rs b/src/convert_image/common.rs
index fd09d25..bc34830 100644
--- a/src/convert_image/common.rs
+++ b/src/convert_image/common.rs
@@ -82,7 +82,7 @@ pub fn lower_multiple_of_pot(x: usize, p: usize) -> usize {
     x & !(p - 1)
 }
 
-pub fn out_of_bounds(size: usize, width: usize, height_minus_one: usize, stride: usize) -> bool {
+pub fn out_of_bounds(size: usize, stride: usize, height_minus_one: usize, width: usize) -> bool {
     width > size
         || (height_minus_one != 0
             && ((stride > usize::MAX / height_minus_one)
-- 
2.43.0


From 019d69a57878d7eebc4e637dde18f75142db8187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 03/18] fix: account for the pixel size when checking rgb to
 rgb buffers

---
 src/convert_image/avx2.rs | 12 ++++++------
 src/convert_image/neon.rs | 12 ++++++------
 src/convert_image/sse2.rs |  4 ++--
 src/convert_image/x86.rs  | 12 ++++++------
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index b9503ba..7fcaf0a 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -2122,8 +2122,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -2200,8 +2200,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -2250,8 +2250,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index 9d6c820..fb7d2a5 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -873,8 +873,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
@@ -950,8 +950,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1028,8 +1028,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 9a0bfba..7a4616d 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -1613,8 +1613,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index e9f0d89..12ee5c4 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -1462,8 +1462,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1511,8 +1511,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1559,8 +1559,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
-- 
2.43.0


From 3330799af9574f7e6fee1c7dc853c24d8ddc7c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 04/18] fix: do not read past the end of bgr rows when
 unpacking pixels

---
 src/convert_image/avx2.rs | 18 +++++++-----------
 src/convert_image/sse2.rs |  6 +++++-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 7fcaf0a..c862af1 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -32,7 +32,7 @@ use core::arch::x86::{
     _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
     _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
     _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
-    _mm_setzero_si128, _MM_HINT_NTA,
+    _mm_setzero_si128, _mm_srli_si128, _MM_HINT_NTA,
 };
 
 #[cfg(target_arch = "x86_64")]
@@ -46,7 +46,7 @@ use core::arch::x86_64::{
     _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
     _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
     _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
-    _mm_setzero_si128, _MM_HINT_NTA,
+    _mm_setzero_si128, _mm_srli_si128, _MM_HINT_NTA,
 };
 
 const LANE_COUNT: usize = 32;
@@ -76,12 +76,6 @@ macro_rules! xcgh_odd_even_words {
     };
 }
 
-macro_rules! align_dqword_2x96 {
-    () => {
-        _mm256_set_epi32(7, 5, 4, 3, 7, 2, 1, 0)
-    };
-}
-
 const FORWARD_WEIGHTS: [[i32; 7]; Colorimetry::Length as usize] = [
     [
         i32x2_to_i32(XG_601 - SHORT_HALF, XR_601),
@@ -324,9 +318,11 @@ unsafe fn pack_rgb_16x(image: *mut u8, red: __m256i, green: __m256i, blue: __m25
 #[inline(always)]
 unsafe fn unpack_ui8x3_i16x2_8x<const SAMPLER: usize>(image: *const u8) -> (__m256i, __m256i) {
     if SAMPLER == Sampler::Bgr as usize {
-        let line = loadu(image.cast());
-
-        let line = _mm256_permutevar8x32_epi32(line, align_dqword_2x96!());
+        // Only 24 bytes are available: load them as two overlapping 16-byte chunks
+        let line = _mm256_set_m128i(
+            _mm_srli_si128(loadu(image.add(8).cast()), 4),
+            loadu(image.cast()),
+        );
         let line = _mm256_unpacklo_epi64(
             _mm256_unpacklo_epi32(line, _mm256_srli_si256(line, 3)),
             _mm256_unpacklo_epi32(_mm256_srli_si256(line, 6), _mm256_srli_si256(line, 9)),
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 7a4616d..8119355 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -240,7 +240,11 @@ unsafe fn pack_i16x3_8x<const REVERSED: bool>(
 #[inline(always)]
 unsafe fn unpack_ui8x3_i16x2_4x<const SAMPLER: usize>(image: *const u8) -> (__m128i, __m128i) {
     if SAMPLER == Sampler::Bgr as usize {
-        let line = loadu(image.cast());
+        // Only 12 bytes are available
+        let line = _mm_set_epi64x(
+            i64::from(loadu::<i32>(image.add(8).cast())),
+            loadu(image.cast()),
+        );
 
         let line = _mm_unpacklo_epi64(
             _mm_unpacklo_epi32(line, _mm_srli_si128(line, 3)),
-- 
2.43.0


From df21a92838be66ad432e64166717f0546ca6ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 05/18] fix: saturate, rather than wrap around, luma and chroma
 sums in yuv to rgb

---
 src/convert_image/avx2.rs | 118 +++++++++++++++++++-------------------
 src/convert_image/sse2.rs |  84 ++++++++++++++-------------
 2 files changed, 102 insertions(+), 100 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index c862af1..35ae6c1 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -23,30 +23,30 @@ use core::ptr::{read_unaligned as loadu, write_unaligned as storeu};
 
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
-    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_blend_epi32, _mm256_cmpeq_epi32,
-    _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16, _mm256_or_si256,
-    _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256, _mm256_permute4x64_epi64,
-    _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8, _mm256_setzero_si256,
-    _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32, _mm256_slli_si256,
-    _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
-    _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
-    _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
-    _mm_setzero_si128, _mm_srli_si128, _MM_HINT_NTA,
+    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_adds_epi16, _mm256_blend_epi32,
+    _mm256_cmpeq_epi32, _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16,
+    _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256,
+    _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32,
+    _mm256_set_epi16, _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8,
+    _mm256_setzero_si256, _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32,
+    _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32,
+    _mm256_srli_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8,
+    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8,
+    _mm_prefetch, _mm_setzero_si128, _mm_srli_si128, _MM_HINT_NTA,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
-    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_blend_epi32, _mm256_cmpeq_epi32,
-    _mm256_extract_epi64, _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16,
-    _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256,
-    _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32,
-    _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8, _mm256_setzero_si256,
-    _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32, _mm256_slli_si256,
-    _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
-    _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
-    _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
-    _mm_setzero_si128, _mm_srli_si128, _MM_HINT_NTA,
+    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_adds_epi16, _mm256_blend_epi32,
+    _mm256_cmpeq_epi32, _mm256_extract_epi64, _mm256_extracti128_si256, _mm256_madd_epi16,
+    _mm256_mulhi_epu16, _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16,
+    _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32,
+    _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32,
+    _mm256_setr_epi8, _mm256_setzero_si256, _mm256_shuffle_epi8, _mm256_slli_epi16,
+    _mm256_slli_epi32, _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16,
+    _mm256_srli_epi32, _mm256_srli_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi8, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32, _mm256_unpacklo_epi64,
+    _mm256_unpacklo_epi8, _mm_prefetch, _mm_setzero_si128, _mm_srli_si128, _MM_HINT_NTA,
 };
 
 const LANE_COUNT: usize = 32;
@@ -718,9 +718,9 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -733,9 +733,9 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -754,9 +754,9 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -769,9 +769,9 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -837,9 +837,9 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
             );
             pack_rgb_16x(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -852,9 +852,9 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
             );
             pack_rgb_16x(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -873,9 +873,9 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
             );
             pack_rgb_16x(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -888,9 +888,9 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
             );
             pack_rgb_16x(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -957,9 +957,9 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -972,9 +972,9 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -993,9 +993,9 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -1008,9 +1008,9 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -1096,9 +1096,9 @@ unsafe fn i444_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(x, y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y_lo), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y_lo), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y_lo), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y_lo), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y_lo), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y_lo), FIX6),
             );
         }
     }
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 8119355..412b8de 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -23,24 +23,26 @@ use core::ptr::{read_unaligned as loadu, write_unaligned as storeu};
 
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
-    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_and_si128, _mm_andnot_si128, _mm_cmpeq_epi32,
-    _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128, _mm_packs_epi32,
-    _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x, _mm_set_epi32,
-    _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16, _mm_shufflelo_epi16,
-    _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16, _mm_srai_epi32, _mm_srli_epi16,
-    _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16, _mm_unpackhi_epi16, _mm_unpackhi_epi8,
-    _mm_unpacklo_epi16, _mm_unpacklo_epi32, _mm_unpacklo_epi64, _mm_unpacklo_epi8,
+    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_adds_epi16, _mm_and_si128, _mm_andnot_si128,
+    _mm_cmpeq_epi32, _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128,
+    _mm_packs_epi32, _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x,
+    _mm_set_epi32, _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16,
+    _mm_shufflelo_epi16, _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16,
+    _mm_srai_epi32, _mm_srli_epi16, _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16,
+    _mm_unpackhi_epi16, _mm_unpackhi_epi8, _mm_unpacklo_epi16, _mm_unpacklo_epi32,
+    _mm_unpacklo_epi64, _mm_unpacklo_epi8,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
-    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_and_si128, _mm_andnot_si128, _mm_cmpeq_epi32,
-    _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128, _mm_packs_epi32,
-    _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x, _mm_set_epi32,
-    _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16, _mm_shufflelo_epi16,
-    _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16, _mm_srai_epi32, _mm_srli_epi16,
-    _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16, _mm_unpackhi_epi16, _mm_unpackhi_epi8,
-    _mm_unpacklo_epi16, _mm_unpacklo_epi32, _mm_unpacklo_epi64, _mm_unpacklo_epi8,
+    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_adds_epi16, _mm_and_si128, _mm_andnot_si128,
+    _mm_cmpeq_epi32, _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128,
+    _mm_packs_epi32, _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x,
+    _mm_set_epi32, _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16,
+    _mm_shufflelo_epi16, _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16,
+    _mm_srai_epi32, _mm_srli_epi16, _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16,
+    _mm_unpackhi_epi16, _mm_unpackhi_epi8, _mm_unpacklo_epi16, _mm_unpacklo_epi32,
+    _mm_unpacklo_epi64, _mm_unpacklo_epi8,
 };
 
 const LANE_COUNT: usize = 16;
@@ -644,17 +646,17 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
             let y00 = _mm_mulhi_epu16(_mm_unpacklo_epi8(zero!(), y0), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y0), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -666,17 +668,17 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
             let y01 = _mm_mulhi_epu16(_mm_unpacklo_epi8(zero!(), y1), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y1), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -736,17 +738,17 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
             let y00 = _mm_mulhi_epu16(_mm_unpacklo_epi8(zero!(), y0), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y0), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -758,17 +760,17 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
             let y01 = _mm_mulhi_epu16(_mm_unpacklo_epi8(zero!(), y1), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y1), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -834,9 +836,9 @@ unsafe fn i444_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
 
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(x, y, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_lo, y_lo), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_lo, y_lo), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y_lo), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_lo, y_lo), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_lo, y_lo), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y_lo), FIX6),
             );
         }
     }
-- 
2.43.0


From 1e631b32a5bbc9bf717490bf25f44983b53ccc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 06/18] fix: use 128 as the chroma centre of full range yuv to
 rgb

---
 genweights.py               |  2 +-
 src/convert_image/common.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/genweights.py b/genweights.py
index 6717b2a..89539b4 100644
--- a/genweights.py
+++ b/genweights.py
@@ -202,7 +202,7 @@ if __name__ == '__main__':
         SUFFIX = ""
 
     Y_RANGE = Y_MAX - Y_MIN
-    C_HALF = (C_MAX + C_MIN) >> 1
+    C_HALF = (C_MAX + C_MIN + 1) >> 1
     C_RANGE = C_MAX - C_MIN
     Y_SCALE = (Y_RANGE / FULL_RANGE)
     C_SCALE = (C_RANGE / FULL_RANGE)
diff --git a/src/convert_image/common.rs b/src/convert_image/common.rs
index bc34830..7952cb3 100644
--- a/src/convert_image/common.rs
+++ b/src/convert_image/common.rs
@@ -152,9 +152,9 @@ pub const RCRM_601FR: i32 = 22970;
 pub const GCRM_601FR: i32 = 11700;
 pub const GCBM_601FR: i32 = 5638;
 pub const BCBM_601FR: i32 = 29032;
-pub const RN_601FR: i32 = 11363;
-pub const GP_601FR: i32 = 8633;
-pub const BN_601FR: i32 = 14370;
+pub const RN_601FR: i32 = 11453;
+pub const GP_601FR: i32 = 8701;
+pub const BN_601FR: i32 = 14484;
 
 // Coefficient table for 709 (full range)
 pub const XR_709FR: i32 = 13933;
@@ -169,9 +169,9 @@ pub const RCRM_709FR: i32 = 25802;
 pub const GCRM_709FR: i32 = 7670;
 pub const GCBM_709FR: i32 = 3069;
 pub const BCBM_709FR: i32 = 30402;
-pub const RN_709FR: i32 = 12768;
-pub const GP_709FR: i32 = 5359;
-pub const BN_709FR: i32 = 15050;
+pub const RN_709FR: i32 = 12869;
+pub const GP_709FR: i32 = 5401;
+pub const BN_709FR: i32 = 15169;
 
 // Other defines
 pub const Y_MIN: i32 = 16;
-- 
2.43.0


From ff8d64ecc622f6a955fb5c5cd741f6ae22f576da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:49 +0000
Subject: [PATCH 07/18] fix: take the custom stride of a single plane into
 account in buffer sizes

---
 src/pixel_format.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index c88300d..6436ad3 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -217,10 +217,30 @@ pub fn get_buffers_size(
 
     let height_spec = HEIGHT_SPECS[pixel_format];
     if last_plane == 0 {
-        buffers_size[0] = ((stride[0] * get_plane_spec(height, height_spec, 0))
-            + (stride[1] * get_plane_spec(height, height_spec, 1)))
-            + ((stride[2] * get_plane_spec(height, height_spec, 2))
-                + (stride[3] * get_plane_spec(height, height_spec, 3)));
+        // There is a single plane, hence only the first stride has to be considered.
+        // Components are interleaved in each row, with the exception of Nv12, in which
+        // the rows of the second one follow the rows of the first one.
+        let (packed_stride, rows) = if pixel_format == (PixelFormat::Nv12 as usize) {
+            (
+                get_plane_spec(width, stride_spec, 0),
+                get_plane_spec(height, height_spec, 0) + get_plane_spec(height, height_spec, 1),
+            )
+        } else {
+            (
+                (0..MAX_NUMBER_OF_PLANES)
+                    .map(|i| get_plane_mask(stride_spec, i) * get_plane_spec(width, stride_spec, i))
+                    .sum(),
+                get_plane_spec(height, height_spec, 0),
+            )
+        };
+
+        let stride = if strides[0] == STRIDE_AUTO {
+            packed_stride
+        } else {
+            strides[0]
+        };
+
+        buffers_size[0] = stride * rows;
     } else {
         let buffer_array = &mut buffers_size[..=last_plane];
         let stride_array = &stride[..=last_plane];
-- 
2.43.0


From ee38548108216dd73ef8f8e8b817161323a4de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 08/18] fix: do not overflow when computing the size of a plane

---
 src/convert_image/avx2.rs | 19 ++++++++++---------
 src/convert_image/neon.rs | 10 +++++-----
 src/convert_image/sse2.rs | 19 ++++++++++---------
 src/convert_image/x86.rs  | 19 ++++++++++---------
 src/lib.rs                |  2 ++
 src/pixel_format.rs       | 23 ++++++++++++++++-------
 6 files changed, 53 insertions(+), 39 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 35ae6c1..f27cc96 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1494,11 +1494,12 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
-            return false;
+        match src_strides.0.checked_mul(h) {
+            Some(y_size) if y_size <= src_buffers.0.len() => {
+                src_buffers = src_buffers.0.split_at(y_size);
+            }
+            _ => return false,
         }
-
-        src_buffers = src_buffers.0.split_at(src_strides.0 * h);
     }
 
     let dst_buffer = &mut *dst_buffers[0];
@@ -1780,12 +1781,12 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
-        return false;
-    }
-
     let (y_plane, uv_plane) = if last_dst_plane == 0 {
-        dst_buffers[last_dst_plane].split_at_mut(dst_strides.0 * h)
+        let buffer = &mut *dst_buffers[last_dst_plane];
+        match dst_strides.0.checked_mul(h) {
+            Some(y_size) if y_size <= buffer.len() => buffer.split_at_mut(y_size),
+            _ => return false,
+        }
     } else {
         let (y_plane, uv_plane) = dst_buffers.split_at_mut(last_dst_plane);
 
diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index fb7d2a5..a8b9e06 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -456,12 +456,12 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
-        return false;
-    }
-
     let (y_plane, uv_plane) = if last_dst_plane == 0 {
-        dst_buffers[last_dst_plane].split_at_mut(dst_strides.0 * h)
+        let buffer = &mut *dst_buffers[last_dst_plane];
+        match dst_strides.0.checked_mul(h) {
+            Some(y_size) if y_size <= buffer.len() => buffer.split_at_mut(y_size),
+            _ => return false,
+        }
     } else {
         let (y_plane, uv_plane) = dst_buffers.split_at_mut(last_dst_plane);
 
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 412b8de..fc0357a 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -959,11 +959,12 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
-            return false;
+        match src_strides.0.checked_mul(h) {
+            Some(y_size) if y_size <= src_buffers.0.len() => {
+                src_buffers = src_buffers.0.split_at(y_size);
+            }
+            _ => return false,
         }
-
-        src_buffers = src_buffers.0.split_at(src_strides.0 * h);
     }
 
     let dst_buffer = &mut *dst_buffers[0];
@@ -1237,12 +1238,12 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
-        return false;
-    }
-
     let (y_plane, uv_plane) = if last_dst_plane == 0 {
-        dst_buffers[last_dst_plane].split_at_mut(dst_strides.0 * h)
+        let buffer = &mut *dst_buffers[last_dst_plane];
+        match dst_strides.0.checked_mul(h) {
+            Some(y_size) if y_size <= buffer.len() => buffer.split_at_mut(y_size),
+            _ => return false,
+        }
     } else {
         let (y_plane, uv_plane) = dst_buffers.split_at_mut(last_dst_plane);
 
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index 12ee5c4..1b6e6c6 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -1018,11 +1018,12 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
-            return false;
+        match src_strides.0.checked_mul(h) {
+            Some(y_size) if y_size <= src_buffers.0.len() => {
+                src_buffers = src_buffers.0.split_at(y_size);
+            }
+            _ => return false,
         }
-
-        src_buffers = src_buffers.0.split_at(src_strides.0 * h);
     }
 
     let dst_buffer = &mut *dst_buffers[0];
@@ -1328,12 +1329,12 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
-        return false;
-    }
-
     let (y_plane, uv_plane) = if last_dst_plane == 0 {
-        dst_buffers[last_dst_plane].split_at_mut(dst_strides.0 * h)
+        let buffer = &mut *dst_buffers[last_dst_plane];
+        match dst_strides.0.checked_mul(h) {
+            Some(y_size) if y_size <= buffer.len() => buffer.split_at_mut(y_size),
+            _ => return false,
+        }
     } else {
         let (y_plane, uv_plane) = dst_buffers.split_at_mut(last_dst_plane);
 
diff --git a/src/lib.rs b/src/lib.rs
index e22af9e..05f60bb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -717,6 +717,8 @@ pub fn describe_acceleration() -> String {
 /// * [`NotEnoughData`] if the buffers size array is not `None` and its length is less than the
 ///   image format number of planes
 ///
+/// * [`NotEnoughData`] if the number of bytes required by an image plane is not representable
+///
 /// [`InvalidValue`]: ./enum.ErrorKind.html#variant.InvalidValue
 /// [`NotEnoughData`]: ./enum.ErrorKind.html#variant.NotEnoughData
 /// [`size constraints`]: ./struct.ImageFormat.html#note
diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index 6436ad3..d6a1493 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -240,16 +240,25 @@ pub fn get_buffers_size(
             strides[0]
         };
 
-        buffers_size[0] = stride * rows;
+        match stride.checked_mul(rows) {
+            Some(size) => buffers_size[0] = size,
+            None => return false,
+        }
     } else {
-        let buffer_array = &mut buffers_size[..=last_plane];
-        let stride_array = &stride[..=last_plane];
-
-        for (buffer_size, (i, stride)) in
-            buffer_array.iter_mut().zip(stride_array.iter().enumerate())
+        let sizes = &mut [0_usize; MAX_NUMBER_OF_PLANES];
+        for (i, (size, stride)) in sizes
+            .iter_mut()
+            .zip(stride)
+            .take(last_plane + 1)
+            .enumerate()
         {
-            *buffer_size = *stride * get_plane_spec(height, height_spec, i);
+            match stride.checked_mul(get_plane_spec(height, height_spec, i)) {
+                Some(value) => *size = value,
+                None => return false,
+            }
         }
+
+        buffers_size[..=last_plane].copy_from_slice(&sizes[..=last_plane]);
     }
 
     true
-- 
2.43.0


From 99ba9341f1ecee70a0591c465b25fc9cc35dacaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 09/18] fix: bound the arrays of strides given through the C
 interface

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 05f60bb..c9db184 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1209,13 +1209,19 @@ pub mod c_api {
         let src_strides = if src_strides.is_null() {
             None
         } else {
-            Some(slice::from_raw_parts(src_strides, UNBOUNDED_C_ARRAY))
+            Some(slice::from_raw_parts(
+                src_strides,
+                src_format.num_planes as usize,
+            ))
         };
 
         let dst_strides = if dst_strides.is_null() {
             None
         } else {
-            Some(slice::from_raw_parts(dst_strides, UNBOUNDED_C_ARRAY))
+            Some(slice::from_raw_parts(
+                dst_strides,
+                dst_format.num_planes as usize,
+            ))
         };
 
         match convert_image(
-- 
2.43.0


From 982b86834f28c4fa368714c583fbf8ce4bc0d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 10/18] fix: do not underflow when rows of rgb to rgb
 conversions overlap

---
 src/convert_image/avx2.rs | 21 +++++++--------------
 src/convert_image/sse2.rs | 11 +++--------
 src/convert_image/x86.rs  | 20 ++++++--------------
 3 files changed, 16 insertions(+), 36 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index f27cc96..db23579 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1266,15 +1266,13 @@ unsafe fn bgra_to_rgb_avx2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
     let limit_4x = lower_multiple_of_pot(width, LANE_COUNT);
     let limit = lower_multiple_of_pot(width, ITEMS_PER_ITERATION);
 
     for i in 0..height {
         let mut y = 0;
-        let mut src_offset = ((SRC_DEPTH * width) + src_stride_diff) * i;
-        let mut dst_offset = ((DST_DEPTH * width) + dst_stride_diff) * i;
+        let mut src_offset = src_stride * i;
+        let mut dst_offset = dst_stride * i;
 
         while y < limit_4x {
             let src_ptr: *const __m256i = src_group.add(src_offset).cast();
@@ -1350,8 +1348,8 @@ unsafe fn bgra_to_rgb_avx2(
                     *src_group.add((SRC_DEPTH * y) + src_offset);
             }
 
-            src_offset += (SRC_DEPTH * width) + src_stride_diff;
-            dst_offset += (DST_DEPTH * width) + dst_stride_diff;
+            src_offset += src_stride;
+            dst_offset += dst_stride;
         }
     }
 }
@@ -1378,12 +1376,10 @@ unsafe fn rgb_to_bgra_avx2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
-    let mut src_offset = 0;
-    let mut dst_offset = 0;
+    for i in 0..height {
+        let mut src_offset = src_stride * i;
+        let mut dst_offset = dst_stride * i;
 
-    for _ in 0..height {
         _mm_prefetch(src_group.cast::<i8>(), _MM_HINT_NTA);
 
         for _ in (0..width).step_by(LANE_COUNT) {
@@ -1445,9 +1441,6 @@ unsafe fn rgb_to_bgra_avx2(
             src_offset += LANE_COUNT * SRC_DEPTH;
             dst_offset += LANE_COUNT * DST_DEPTH;
         }
-
-        src_offset += src_stride_diff;
-        dst_offset += dst_stride_diff;
     }
 }
 
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index fc0357a..472a995 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -863,12 +863,10 @@ unsafe fn rgb_to_bgra_sse2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
-    let mut src_offset = 0;
-    let mut dst_offset = 0;
+    for i in 0..height {
+        let mut src_offset = src_stride * i;
+        let mut dst_offset = dst_stride * i;
 
-    for _ in 0..height {
         for _ in (0..width).step_by(LANE_COUNT) {
             let src_ptr: *const __m128i = src_group.add(src_offset).cast();
             let dst_ptr: *mut __m128i = dst_group.add(dst_offset).cast();
@@ -910,9 +908,6 @@ unsafe fn rgb_to_bgra_sse2(
             src_offset += LANE_COUNT * SRC_DEPTH;
             dst_offset += LANE_COUNT * DST_DEPTH;
         }
-
-        src_offset += src_stride_diff;
-        dst_offset += dst_stride_diff;
     }
 }
 
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index 1b6e6c6..57ace06 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -704,17 +704,17 @@ pub fn rgb_to_bgra(
     const DST_DEPTH: usize = 4;
     const ITEMS_PER_ITERATION: usize = 8;
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
+    // Rows may also overlap: in that case, there is no padding between them
+    let src_stride_diff = src_stride.saturating_sub(SRC_DEPTH * width);
 
     unsafe {
         let src_group = src_buffer.as_ptr();
         let dst_group = dst_buffer.as_mut_ptr();
-        let mut src_offset = 0;
-        let mut dst_offset = 0;
 
         for y in 0..height {
             let is_last_line = y == height - 1;
+            let mut src_offset = src_stride * y;
+            let mut dst_offset = dst_stride * y;
 
             // For single swap iteration, since the swap is done on 32 bits while the input is only
             // 24 bits (RGB), to avoid reading an extra byte of memory that could be outside the
@@ -806,13 +806,7 @@ pub fn rgb_to_bgra(
                 *dst_group.add(dst_offset + 1) = *src_group.add(src_offset + 1);
                 *dst_group.add(dst_offset + 2) = *src_group.add(src_offset);
                 *dst_group.add(dst_offset + 3) = 0xFF;
-
-                src_offset += SRC_DEPTH;
-                dst_offset += DST_DEPTH;
             }
-
-            src_offset += src_stride_diff;
-            dst_offset += dst_stride_diff;
         }
     }
 }
@@ -915,8 +909,6 @@ pub fn bgra_to_rgb(
     const HIGH_MASK: u64 = 0xFFFF_FF00_0000_0000;
     const LOW_MASK: u64 = 0x0000_00FF_FFFF_0000;
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
     let limit_4x = lower_multiple_of_pot(width, ITEMS_PER_ITERATION_4X);
 
     unsafe {
@@ -925,8 +917,8 @@ pub fn bgra_to_rgb(
 
         for i in 0..height {
             let mut y = 0;
-            let mut src_offset = ((SRC_DEPTH * width) + src_stride_diff) * i;
-            let mut dst_offset = ((DST_DEPTH * width) + dst_stride_diff) * i;
+            let mut src_offset = src_stride * i;
+            let mut dst_offset = dst_stride * i;
 
             while y < limit_4x {
                 let src_ptr: *const u64 = src_group.add(src_offset).cast();
-- 
2.43.0


From 3ab98b3df3a53e9e427f9e1aae048f11667d7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:10 +0000
Subject: [PATCH 11/18] fix: use avx2 only if both the cpu and the operating
 system support it

---
 src/cpu_info.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/cpu_info.rs b/src/cpu_info.rs
index 0718968..bb24727 100644
--- a/src/cpu_info.rs
+++ b/src/cpu_info.rs
@@ -19,6 +19,8 @@ use core::arch::x86::__cpuid;
 use core::arch::x86_64::__cpuid;
 #[cfg(target_arch = "aarch64")]
 use std::arch::is_aarch64_feature_detected;
+#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+use std::arch::is_x86_feature_detected;
 
 #[derive(Debug)]
 pub enum CpuManufacturer {
@@ -86,15 +88,18 @@ pub fn get() -> (CpuManufacturer, InstructionSet) {
             // On AMD cpus, all encode/decode using avx2 have worse performance than sse2 ones
             // For now, disable the avx2 path even if supported.
             // See https://en.wikipedia.org/wiki/CPUID for additional details
-            match manufacturer {
-                CpuManufacturer::Amd => features[1] = 0,
-                _ => cpuid(7, features),
-            }
+            //
+            // Avx2 needs support from the operating system too, and its flag is meaningful
+            // only if the cpu has the leaf describing it: the standard library checks both
+            let use_avx2 = match manufacturer {
+                CpuManufacturer::Amd => false,
+                _ => is_x86_feature_detected!("avx2"),
+            };
 
-            set = if (features[1] & (1 << 5)) == 0 {
-                InstructionSet::Sse2
-            } else {
+            set = if use_avx2 {
                 InstructionSet::Avx2
+            } else {
+                InstructionSet::Sse2
             };
         }
     }
-- 
2.43.0


From 4a71f4748b6c647c5da73491db042d778a0b3039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 12/18] fix: read the enumerations given through the C
 interface as integers before checking them

---
 src/lib.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c9db184..fec0148 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1067,6 +1067,16 @@ pub mod c_api {
         self::Result::Err
     }
 
+    /// C enums are untrusted in the sense you can cast any value to an enum type.
+    /// Read them as integers: a value which is not a variant of the Rust enum is undefined
+    /// behaviour, and allows the compiler to remove the checks performed on it
+    unsafe fn read_enums(format: *const ImageFormat) -> (u32, u32) {
+        (
+            ptr::addr_of!((*format).pixel_format).cast::<u32>().read(),
+            ptr::addr_of!((*format).color_space).cast::<u32>().read(),
+        )
+    }
+
     #[no_mangle]
     pub extern "C" fn dcp_describe_acceleration() -> *mut c_char {
         let acc = describe_acceleration();
@@ -1099,13 +1109,13 @@ pub mod c_api {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
-        // C enums are untrusted in the sense you can cast any value to an enum type
-        let format = &*format;
-        let pixel_format = format.pixel_format as u32;
+        let (pixel_format, _) = read_enums(format);
         if !dispatcher::is_pixel_format_valid(pixel_format) {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
+        let format = &*format;
+
         // We assume there is enough data in the buffers
         // If the assumption will not hold undefined behaviour occurs (like in C)
         let num_planes = format.num_planes as usize;
@@ -1148,19 +1158,19 @@ pub mod c_api {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
-        // C enums are untrusted in the sense you can cast any value to an enum type
-        let src_format: &ImageFormat = &*src_format;
-        let dst_format: &ImageFormat = &*dst_format;
-        let src_pixel_format = src_format.pixel_format as u32;
-        let dst_pixel_format = dst_format.pixel_format as u32;
+        let (src_pixel_format, src_color_space) = read_enums(src_format);
+        let (dst_pixel_format, dst_color_space) = read_enums(dst_format);
         if !dispatcher::is_pixel_format_valid(src_pixel_format)
             || !dispatcher::is_pixel_format_valid(dst_pixel_format)
-            || !dispatcher::is_color_space_valid(src_format.color_space as u32)
-            || !dispatcher::is_color_space_valid(dst_format.color_space as u32)
+            || !dispatcher::is_color_space_valid(src_color_space)
+            || !dispatcher::is_color_space_valid(dst_color_space)
         {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
+        let src_format: &ImageFormat = &*src_format;
+        let dst_format: &ImageFormat = &*dst_format;
+
         // We assume there is enough data in the buffers
         // If the assumption will not hold undefined behaviour occurs (like in C)
         if !are_planes_compatible(src_pixel_format, src_format.num_planes)
-- 
2.43.0


From cf522bc8e30e1ad365797b1d08017ad50d2d014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 13/18] verif: let the neon code run on a model of its
 intrinsics

Under --cfg dcp_verif_neon, neon.rs is compiled on any processor: the intrinsics
come from the file named by DCP_VERIF_NEON, and verif::force accepts the set.
---
 src/convert_image/common.rs | 12 ++++++------
 src/convert_image/mod.rs    |  2 +-
 src/convert_image/neon.rs   | 28 ++++++++++++++++++++++------
 src/lib.rs                  | 10 +++++++---
 4 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/convert_image/common.rs b/src/convert_image/common.rs
index 7952cb3..ecea1c9 100644
--- a/src/convert_image/common.rs
+++ b/src/convert_image/common.rs
@@ -40,13 +40,13 @@ pub const fn i32_to_i16(x: i32) -> i16 {
     val as i16
 }
 
-#[cfg(target_arch = "aarch64")]
+#[cfg(any(target_arch = "aarch64", dcp_verif_neon))]
 struct AssertI16<const N: i32>;
 
-#[cfg(target_arch = "aarch64")]
+#[cfg(any(target_arch = "aarch64", dcp_verif_neon))]
 struct AssertU16<const N: i32>;
 
-#[cfg(target_arch = "aarch64")]
+#[cfg(any(target_arch = "aarch64", dcp_verif_neon))]
 impl<const N: i32> AssertI16<N> {
     const OK: () = assert!(
         N >= i16::MIN as i32 && N <= i16::MAX as i32,
@@ -54,12 +54,12 @@ impl<const N: i32> AssertI16<N> {
     );
 }
 
-#[cfg(target_arch = "aarch64")]
+#[cfg(any(target_arch = "aarch64", dcp_verif_neon))]
 impl<const N: i32> AssertU16<N> {
     const OK: () = assert!(N >= 0 && N <= u16::MAX as i32, "must be in u16 range");
 }
 
-#[cfg(target_arch = "aarch64")]
+#[cfg(any(target_arch = "aarch64", dcp_verif_neon))]
 #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
 pub const fn as_i16<const X: i32>() -> i16 {
     let () = AssertI16::<X>::OK;
@@ -67,7 +67,7 @@ pub const fn as_i16<const X: i32>() -> i16 {
     val as i16
 }
 
-#[cfg(target_arch = "aarch64")]
+#[cfg(any(target_arch = "aarch64", dcp_verif_neon))]
 #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
 pub const fn as_u16<const X: i32>() -> u16 {
     let () = AssertU16::<X>::OK;
diff --git a/src/convert_image/mod.rs b/src/convert_image/mod.rs
index e6f743a..73bd510 100644
--- a/src/convert_image/mod.rs
+++ b/src/convert_image/mod.rs
@@ -17,7 +17,7 @@
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 pub mod avx2;
 mod common;
-#[cfg(target_arch = "aarch64")]
+#[cfg(any(target_arch = "aarch64", dcp_verif_neon))]
 pub mod neon;
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 pub mod sse2;
diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index a8b9e06..51c24cf 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -19,7 +19,23 @@ use crate::convert_image::common::*;
 use crate::convert_image::x86;
 use crate::{rgb_to_yuv_converter, yuv_to_rgb_fallback_converter};
 
+#[cfg(target_arch = "aarch64")]
 use core::arch::aarch64::*;
+// Verification hook, absent from normal builds: a model of the intrinsics
+#[cfg(not(target_arch = "aarch64"))]
+use intrinsics::*;
+
+#[cfg(not(target_arch = "aarch64"))]
+#[allow(
+    warnings,
+    trivial_casts,
+    trivial_numeric_casts,
+    clippy::all,
+    clippy::pedantic
+)]
+mod intrinsics {
+    include!(env!("DCP_VERIF_NEON"));
+}
 
 type YWeights = (u16, u16, u16, u16);
 type UVWeights = (i16, i16, i16, i16, i16);
@@ -312,7 +328,7 @@ unsafe fn rgb_to_i420_8x<const SAMPLER: usize>(
 }
 
 #[inline]
-#[target_feature(enable = "neon")]
+#[cfg_attr(target_arch = "aarch64", target_feature(enable = "neon"))]
 unsafe fn rgb_to_nv12_neon<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     width: usize,
     height: usize,
@@ -348,7 +364,7 @@ unsafe fn rgb_to_nv12_neon<const SAMPLER: usize, const DEPTH: usize, const COLOR
 }
 
 #[inline]
-#[target_feature(enable = "neon")]
+#[cfg_attr(target_arch = "aarch64", target_feature(enable = "neon"))]
 unsafe fn rgb_to_i420_neon<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     width: usize,
     height: usize,
@@ -384,7 +400,7 @@ unsafe fn rgb_to_i420_neon<const SAMPLER: usize, const DEPTH: usize, const COLOR
 }
 
 #[inline]
-#[target_feature(enable = "neon")]
+#[cfg_attr(target_arch = "aarch64", target_feature(enable = "neon"))]
 unsafe fn rgb_to_i444_neon<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     width: usize,
     height: usize,
@@ -680,7 +696,7 @@ fn rgb_i444<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 }
 
 #[inline]
-#[target_feature(enable = "neon")]
+#[cfg_attr(target_arch = "aarch64", target_feature(enable = "neon"))]
 unsafe fn bgr_to_rgb_neon(
     width: usize,
     height: usize,
@@ -710,7 +726,7 @@ unsafe fn bgr_to_rgb_neon(
 }
 
 #[inline]
-#[target_feature(enable = "neon")]
+#[cfg_attr(target_arch = "aarch64", target_feature(enable = "neon"))]
 unsafe fn bgra_to_rgb_neon(
     width: usize,
     height: usize,
@@ -741,7 +757,7 @@ unsafe fn bgra_to_rgb_neon(
 }
 
 #[inline]
-#[target_feature(enable = "neon")]
+#[cfg_attr(target_arch = "aarch64", target_feature(enable = "neon"))]
 unsafe fn rgb_to_bgra_neon(
     width: usize,
     height: usize,
diff --git a/src/lib.rs b/src/lib.rs
index fec0148..db30c29 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1001,11 +1001,13 @@ pub mod verif {
     }
 
     /// Forces an instruction set on the calling thread (0: automatic, 1: x86, 2: sse2,
-    /// 3: avx2). Returns false, and changes nothing, if the cpu does not support it.
+    /// 3: avx2, 4: neon, on a model of its intrinsics, when building with
+    /// `--cfg dcp_verif_neon` too). Returns false, and changes nothing, if not supported.
     pub fn force(set: u32) -> bool {
         let supported = match set {
             0..=2 => true,
             3 => std::arch::is_x86_feature_detected!("avx2"),
+            4 => cfg!(dcp_verif_neon),
             _ => false,
         };
 
@@ -1017,7 +1019,7 @@ pub mod verif {
     }
 
     pub(super) fn forced_table() -> Option<&'static DispatchTable> {
-        static TABLES: OnceLock<[DispatchTable; 3]> = OnceLock::new();
+        static TABLES: OnceLock<[DispatchTable; 4]> = OnceLock::new();
 
         let set = FORCED.with(Cell::get);
         if set == 0 {
@@ -1025,10 +1027,12 @@ pub mod verif {
         }
 
         let tables = TABLES.get_or_init(|| {
-            let mut tables: [DispatchTable; 3] = [[None; dispatcher::TABLE_SIZE]; 3];
+            let mut tables: [DispatchTable; 4] = [[None; dispatcher::TABLE_SIZE]; 4];
             set_dispatch_table!(tables[0], x86);
             set_dispatch_table!(tables[1], sse2);
             set_dispatch_table!(tables[2], avx2);
+            #[cfg(dcp_verif_neon)]
+            set_dispatch_table!(tables[3], neon);
             tables
         });
 
-- 
2.43.0


From 0fc8d2a1bd3c7d3102925345e82476c6c724375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:44 +0000
Subject: [PATCH 14/18] fix: round chroma half way values down in the neon code
 too

The scalar, sse2 and avx2 code add one half minus the smallest fraction before
truncating, the neon code added one half: a chroma sample exactly half way between
two values depended on whether its pixel was in the vector part of the row or in
the remainder, which the scalar code processes.
---
 src/convert_image/neon.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index 51c24cf..b126e73 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -166,14 +166,15 @@ unsafe fn rgb_to_s_8x(
     rgb_lo: (int16x4_t, int16x4_t, int16x4_t),
     uv_weights: (i16, i16, i16),
 ) -> int16x8_t {
-    let lo = vmull_n_s16(rgb_lo.0, uv_weights.0);
-    let hi = vmull_high_n_s16(rgb.0, uv_weights.0);
+    let half = vdupq_n_s32(FIX16_HALF - 1);
+    let lo = vmlal_n_s16(half, rgb_lo.0, uv_weights.0);
+    let hi = vmlal_high_n_s16(half, rgb.0, uv_weights.0);
     let lo = vmlal_n_s16(lo, rgb_lo.1, uv_weights.1);
     let hi = vmlal_high_n_s16(hi, rgb.1, uv_weights.1);
     let lo = vmlal_n_s16(lo, rgb_lo.2, uv_weights.2);
     let hi = vmlal_high_n_s16(hi, rgb.2, uv_weights.2);
 
-    vcombine_s16(vrshrn_n_s32::<FIX16>(lo), vrshrn_n_s32::<FIX16>(hi))
+    vcombine_s16(vshrn_n_s32::<FIX16>(lo), vshrn_n_s32::<FIX16>(hi))
 }
 
 #[inline(always)]
@@ -204,8 +205,9 @@ unsafe fn rgb_to_uv_8x(
     let g_lo = vreinterpretq_s16_u16(g);
     let b_lo = vreinterpretq_s16_u16(b);
 
-    let lo = vmull_high_n_s16(r_lo, uv_weights.0);
-    let hi = vmull_high_n_s16(r_lo, uv_weights.3);
+    let half = vdupq_n_s32(FIX18_HALF - 1);
+    let lo = vmlal_high_n_s16(half, r_lo, uv_weights.0);
+    let hi = vmlal_high_n_s16(half, r_lo, uv_weights.3);
     let lo = vmlal_high_n_s16(lo, g_lo, uv_weights.1);
     let hi = vmlal_high_n_s16(hi, g_lo, uv_weights.2);
     let lo = vmlal_high_n_s16(lo, b_lo, uv_weights.3);
@@ -213,8 +215,8 @@ unsafe fn rgb_to_uv_8x(
 
     let lo = vshrq_n_s32::<{ FIX18 - FIX16 }>(lo);
     let hi = vshrq_n_s32::<{ FIX18 - FIX16 }>(hi);
-    let lo = vrshrn_n_s32::<FIX16>(lo);
-    let hi = vrshrn_n_s32::<FIX16>(hi);
+    let lo = vshrn_n_s32::<FIX16>(lo);
+    let hi = vshrn_n_s32::<FIX16>(hi);
 
     (lo, hi)
 }
-- 
2.43.0


From 529ca7fdd1dadeedeaacb373f1cde8f06190187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:50 +0000
Subject: [PATCH 15/18] verif: the instruction set override works on 32-bit x86
 and in Miri

---
 src/cpu_info.rs | 6 ++++++
 src/lib.rs      | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cpu_info.rs b/src/cpu_info.rs
index bb24727..fbecbc7 100644
--- a/src/cpu_info.rs
+++ b/src/cpu_info.rs
@@ -49,6 +49,12 @@ const fn four_cc(a: u8, b: u8, c: u8, d: u8) -> u32 {
 
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 fn cpuid(functionnumber: u32, output: &mut [u32; 4]) {
+    // Verification hook, absent from normal builds: Miri has no cpuid instruction
+    if cfg!(all(dcp_verif, miri)) {
+        *output = [0; 4];
+        return;
+    }
+
     unsafe {
         let result = __cpuid(functionnumber);
         output[0] = result.eax;
diff --git a/src/lib.rs b/src/lib.rs
index db30c29..de2edc8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -990,7 +990,7 @@ pub fn initialize_with_instruction_set(instruction_set: &str) {
 /// Verification hook: lets the calling thread choose the instruction set used by
 /// `convert_image`. It is compiled only when building with `--cfg dcp_verif`.
 #[doc(hidden)]
-#[cfg(all(dcp_verif, target_arch = "x86_64"))]
+#[cfg(all(dcp_verif, any(target_arch = "x86", target_arch = "x86_64")))]
 pub mod verif {
     use super::{convert_image, dispatcher, paste, ColorSpace, DispatchTable, PixelFormat};
     use std::cell::Cell;
-- 
2.43.0


From 5428eda5011d31c6ffc9a05b1cd977bb7c028e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 16/18] fix: refuse on 32-bit targets the images whose rows or
 sizes do not fit in the address space

---
 src/lib.rs          |  9 +++++++++
 src/pixel_format.rs | 22 ++++++++++++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index de2edc8..23c1b84 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -959,6 +959,15 @@ pub fn convert_image(
     match converter {
         None => Err(ErrorKind::InvalidOperation),
         Some(image_converter) => {
+            // One of the images is rgb: its rows take at least three bytes per pixel, and
+            // a slice is not larger than `isize::MAX` bytes. On 32-bit targets wider rows
+            // are possible in principle, and their size would wrap around in the checks
+            // performed by the converters
+            const MAX_WIDTH: usize = isize::MAX as usize / 3;
+            if height != 0 && width as usize > MAX_WIDTH {
+                return Err(ErrorKind::NotEnoughData);
+            }
+
             if image_converter(
                 width,
                 height,
diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index d6a1493..4cd6f30 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -13,6 +13,8 @@
 // HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
 // OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE
 // SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+use std::convert::TryFrom;
+
 pub const MAX_NUMBER_OF_PLANES: usize = 4;
 
 /// An enumeration of supported pixel formats.
@@ -220,29 +222,33 @@ pub fn get_buffers_size(
         // There is a single plane, hence only the first stride has to be considered.
         // Components are interleaved in each row, with the exception of Nv12, in which
         // the rows of the second one follow the rows of the first one.
-        let (packed_stride, rows) = if pixel_format == (PixelFormat::Nv12 as usize) {
+        // The intermediate values do not always fit in a 32-bit integer.
+        let (packed_stride, rows): (u64, u64) = if pixel_format == (PixelFormat::Nv12 as usize) {
             (
-                get_plane_spec(width, stride_spec, 0),
-                get_plane_spec(height, height_spec, 0) + get_plane_spec(height, height_spec, 1),
+                get_plane_spec(width, stride_spec, 0) as u64,
+                (0..2)
+                    .map(|i| get_plane_spec(height, height_spec, i) as u64)
+                    .sum(),
             )
         } else {
             (
                 (0..MAX_NUMBER_OF_PLANES)
                     .map(|i| get_plane_mask(stride_spec, i) * get_plane_spec(width, stride_spec, i))
+                    .map(|stride| stride as u64)
                     .sum(),
-                get_plane_spec(height, height_spec, 0),
+                get_plane_spec(height, height_spec, 0) as u64,
             )
         };
 
         let stride = if strides[0] == STRIDE_AUTO {
             packed_stride
         } else {
-            strides[0]
+            strides[0] as u64
         };
 
-        match stride.checked_mul(rows) {
-            Some(size) => buffers_size[0] = size,
-            None => return false,
+        match usize::try_from(u128::from(stride) * u128::from(rows)) {
+            Ok(size) => buffers_size[0] = size,
+            Err(_) => return false,
         }
     } else {
         let sizes = &mut [0_usize; MAX_NUMBER_OF_PLANES];
-- 
2.43.0


From 010dd064d6e58806f39223bc14a9479599be50c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 17/18] fix: rgb shuffles on big-endian targets

The conversions between rgb formats move pixels as 64-bit words: load and
store them as little-endian ones whatever the byte order of the target.
---
 src/convert_image/x86.rs | 44 ++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index 57ace06..92442fc 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -746,10 +746,10 @@ pub fn rgb_to_bgra(
 
             // Retrieves items_per_iteration colors per cycle if possible
             for _ in (0..multi_swap_iterations).step_by(ITEMS_PER_ITERATION) {
-                let rgb0: u64 = loadu(src_group.add(src_offset).cast());
-                let rgb1: u64 = loadu(src_group.add(src_offset + 6).cast());
-                let rgb2: u64 = loadu(src_group.add(src_offset + 12).cast());
-                let rgb3: u64 = loadu(src_group.add(src_offset + 18).cast());
+                let rgb0 = u64::from_le(loadu(src_group.add(src_offset).cast()));
+                let rgb1 = u64::from_le(loadu(src_group.add(src_offset + 6).cast()));
+                let rgb2 = u64::from_le(loadu(src_group.add(src_offset + 12).cast()));
+                let rgb3 = u64::from_le(loadu(src_group.add(src_offset + 18).cast()));
 
                 let bgra: *mut i64 = dst_group.add(dst_offset).cast();
 
@@ -759,22 +759,22 @@ pub fn rgb_to_bgra(
                     storeu(
                         bgra,
                         (((rgb0 >> 16) & LOW_MASK) | ((rgb0 << 40) & HIGH_MASK) | ALPHA_MASK)
-                            .swap_bytes() as i64,
+                            .to_be() as i64,
                     );
                     storeu(
                         bgra.add(1),
                         (((rgb1 >> 16) & LOW_MASK) | ((rgb1 << 40) & HIGH_MASK) | ALPHA_MASK)
-                            .swap_bytes() as i64,
+                            .to_be() as i64,
                     );
                     storeu(
                         bgra.add(2),
                         (((rgb2 >> 16) & LOW_MASK) | ((rgb2 << 40) & HIGH_MASK) | ALPHA_MASK)
-                            .swap_bytes() as i64,
+                            .to_be() as i64,
                     );
                     storeu(
                         bgra.add(3),
                         (((rgb3 >> 16) & LOW_MASK) | ((rgb3 << 40) & HIGH_MASK) | ALPHA_MASK)
-                            .swap_bytes() as i64,
+                            .to_be() as i64,
                     );
                 }
 
@@ -791,7 +791,7 @@ pub fn rgb_to_bgra(
                 #[allow(clippy::cast_possible_wrap)]
                 storeu(
                     dst_group.add(dst_offset).cast(),
-                    ((loadu(ptr) << 8) | 0xFF).swap_bytes() as i32,
+                    ((u32::from_le(loadu(ptr)) << 8) | 0xFF).to_be() as i32,
                 );
 
                 x += 1;
@@ -836,9 +836,9 @@ pub fn bgr_to_rgb(
 
             while y < limit_iterations {
                 let src_ptr: *const u64 = src_group.add(src_offset).cast();
-                let bgr0 = loadu(src_ptr);
-                let bgr1 = loadu(src_ptr.add(1));
-                let bgr2 = loadu(src_ptr.add(2));
+                let bgr0 = u64::from_le(loadu(src_ptr));
+                let bgr1 = u64::from_le(loadu(src_ptr.add(1)));
+                let bgr2 = u64::from_le(loadu(src_ptr.add(2)));
 
                 // Checked: we want to reinterpret the bits
                 #[allow(
@@ -872,9 +872,9 @@ pub fn bgr_to_rgb(
                     | ((swap_rgb1 & 0xFF) << 8);
 
                 let dst_ptr: *mut u64 = dst_group.add(dst_offset).cast();
-                storeu(dst_ptr, rgb0);
-                storeu(dst_ptr.add(1), rgb1);
-                storeu(dst_ptr.add(2), rgb2);
+                storeu(dst_ptr, rgb0.to_le());
+                storeu(dst_ptr.add(1), rgb1.to_le());
+                storeu(dst_ptr.add(2), rgb2.to_le());
 
                 src_offset += DEPTH * ITEMS_PER_ITERATION;
                 dst_offset += DEPTH * ITEMS_PER_ITERATION;
@@ -922,10 +922,10 @@ pub fn bgra_to_rgb(
 
             while y < limit_4x {
                 let src_ptr: *const u64 = src_group.add(src_offset).cast();
-                let bgra0 = loadu(src_ptr);
-                let bgra1 = loadu(src_ptr.add(1));
-                let bgra2 = loadu(src_ptr.add(2));
-                let bgra3 = loadu(src_ptr.add(3));
+                let bgra0 = u64::from_le(loadu(src_ptr));
+                let bgra1 = u64::from_le(loadu(src_ptr.add(1)));
+                let bgra2 = u64::from_le(loadu(src_ptr.add(2)));
+                let bgra3 = u64::from_le(loadu(src_ptr.add(3)));
 
                 // Checked: we want to reinterpret the bits
                 #[allow(
@@ -945,9 +945,9 @@ pub fn bgra_to_rgb(
                 );
 
                 let dst_ptr: *mut u64 = dst_group.add(dst_offset).cast();
-                storeu(dst_ptr, (rgb1 << 48) | rgb0);
-                storeu(dst_ptr.add(1), (rgb1 >> 16) | (rgb2 << 32));
-                storeu(dst_ptr.add(2), (rgb2 >> 32) | (rgb3 << 16));
+                storeu(dst_ptr, ((rgb1 << 48) | rgb0).to_le());
+                storeu(dst_ptr.add(1), ((rgb1 >> 16) | (rgb2 << 32)).to_le());
+                storeu(dst_ptr.add(2), ((rgb2 >> 32) | (rgb3 << 16)).to_le());
 
                 src_offset += SRC_DEPTH * ITEMS_PER_ITERATION_4X;
                 dst_offset += DST_DEPTH * ITEMS_PER_ITERATION_4X;
-- 
2.43.0


From d74be16f132c6edee2274133f9927cc4238698b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 18/18] fix: C interface: references to planes that do not
 exist were uninitialised

The arrays of planes were transmuted to arrays of references although the
elements beyond the number of planes had never been written, and the
destination planes went through shared references: undefined behaviour.
Planes that are not there are empty slices now.
---
 src/lib.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 23c1b84..a86f0a9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1057,15 +1057,12 @@ pub mod c_api {
     use pixel_format::{are_planes_compatible, MAX_NUMBER_OF_PLANES};
     use std::cmp;
     use std::ffi::CString;
-    use std::mem::{transmute, MaybeUninit};
     use std::os::raw::c_char;
     use std::ptr;
     use std::slice;
 
     const UNBOUNDED_C_ARRAY: usize = isize::MAX as usize;
 
-    type PlaneArray<'a> = [MaybeUninit<&'a [u8]>; MAX_NUMBER_OF_PLANES];
-
     #[repr(C)]
     pub enum Result {
         Ok,
@@ -1195,8 +1192,7 @@ pub mod c_api {
         let src_buffers = {
             let src_num_planes = src_format.num_planes as usize;
             let num_planes = cmp::min(src_num_planes, MAX_NUMBER_OF_PLANES);
-            let mut src_buf: PlaneArray =
-                [MaybeUninit::uninit().assume_init(); MAX_NUMBER_OF_PLANES];
+            let mut src_buf: [&[u8]; MAX_NUMBER_OF_PLANES] = Default::default();
 
             for (plane_index, item) in src_buf.iter_mut().enumerate().take(num_planes) {
                 let ptr = *src_buffers.add(plane_index);
@@ -1204,17 +1200,16 @@ pub mod c_api {
                     return set_error(error, ErrorKind::InvalidValue);
                 }
 
-                *item = MaybeUninit::new(slice::from_raw_parts(ptr, UNBOUNDED_C_ARRAY));
+                *item = slice::from_raw_parts(ptr, UNBOUNDED_C_ARRAY);
             }
 
-            transmute::<PlaneArray, [&[u8]; MAX_NUMBER_OF_PLANES]>(src_buf)
+            src_buf
         };
 
         let mut dst_buffers = {
             let dst_num_planes = dst_format.num_planes as usize;
             let num_planes = cmp::min(dst_num_planes, MAX_NUMBER_OF_PLANES);
-            let mut dst_buf: PlaneArray =
-                [MaybeUninit::uninit().assume_init(); MAX_NUMBER_OF_PLANES];
+            let mut dst_buf: [&mut [u8]; MAX_NUMBER_OF_PLANES] = Default::default();
 
             for (plane_index, item) in dst_buf.iter_mut().enumerate().take(num_planes) {
                 let ptr = *dst_buffers.add(plane_index);
@@ -1222,10 +1217,10 @@ pub mod c_api {
                     return set_error(error, ErrorKind::InvalidValue);
                 }
 
-                *item = MaybeUninit::new(slice::from_raw_parts_mut(ptr, UNBOUNDED_C_ARRAY));
+                *item = slice::from_raw_parts_mut(ptr, UNBOUNDED_C_ARRAY);
             }
 
-            transmute::<PlaneArray, [&mut [u8]; MAX_NUMBER_OF_PLANES]>(dst_buf)
+            dst_buf
         };
 
         // Convert nullable type to Option
-- 
2.43.0

