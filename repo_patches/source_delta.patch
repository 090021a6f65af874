From 9bdd248f0d63f4280cfb2044157a12b3bf0073e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 01/43] fix: read the addressed pixel for single-tap tails in
 AVX2 RGB u8 rows; advance past vector columns in SSE/AVX u16 vertical pass

---
 src/avx2/rgb_u8.rs          | 2 +-
 src/avx2/vertical_u16_lb.rs | 8 ++++----
 src/sse/vertical_u16.rs     | 6 +++---
 src/sse/vertical_u16_lb.rs  | 6 +++---
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/avx2/rgb_u8.rs b/src/avx2/rgb_u8.rs
index bc22d66..e98a658 100644
--- a/src/avx2/rgb_u8.rs
+++ b/src/avx2/rgb_u8.rs
@@ -468,7 +468,7 @@ unsafe fn add_one_weight<const HAS_DOT: bool>(
 ) -> __m128i {
     const COMPONENTS: usize = 3;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
-    let base_pixel = _mm_loadu_si16(src.as_ptr());
+    let base_pixel = _mm_loadu_si16(src_ptr);
     let m_vl = _mm_insert_epi8::<2>(base_pixel, src_ptr.add(2).read_unaligned() as i32);
     let lo = _mm_unpacklo_epi8(m_vl, _mm_setzero_si128());
     _mm_dot16_avx_epi32::<HAS_DOT>(
diff --git a/src/avx2/vertical_u16_lb.rs b/src/avx2/vertical_u16_lb.rs
index 6319eb0..a8a94c0 100644
--- a/src/avx2/vertical_u16_lb.rs
+++ b/src/avx2/vertical_u16_lb.rs
@@ -161,7 +161,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             item1,
         );
 
-        cx = v_dx;
+        cx = v_dx + 32;
     }
 
     let v_px = cx;
@@ -202,7 +202,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
 
         _mm256_storeu_si256(dst.as_mut_ptr() as *mut __m256i, item0);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -240,7 +240,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             _mm256_castsi256_si128(item),
         );
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -371,7 +371,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors_sse);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 542a93a..7da26b1 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -152,7 +152,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -192,7 +192,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let item = _mm_packus_epi32(v_st0, v_st1);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -335,7 +335,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let u_store0 = _mm_packus_epi32(v_st, v_st);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16_lb.rs b/src/sse/vertical_u16_lb.rs
index 1ee9d9b..40fa5c8 100644
--- a/src/sse/vertical_u16_lb.rs
+++ b/src/sse/vertical_u16_lb.rs
@@ -119,7 +119,7 @@ unsafe fn convolve_column_lb_u16_impl(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -157,7 +157,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let item = _mm_min_epi16(_mm_packus_epi32(v_st0, v_st1), v_max_colors);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -278,7 +278,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
-- 
2.43.0


From fb251fb167d4771e9fd8ad3b9c1b481f4d81fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 02/43] fix: round to nearest instead of up when storing u16
 results

---
 src/mixed_storage.rs    | 8 ++++----
 src/sse/vertical_u16.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mixed_storage.rs b/src/mixed_storage.rs
index 3c14ccc..4ef4208 100644
--- a/src/mixed_storage.rs
+++ b/src/mixed_storage.rs
@@ -35,7 +35,7 @@ impl MixedStorage<u8> for f32 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, _: u32) -> u8 {
-        self.ceil().max(0.).min(255.) as u8
+        self.round().max(0.).min(255.) as u8
     }
 }
 
@@ -43,7 +43,7 @@ impl MixedStorage<u8> for f64 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, _: u32) -> u8 {
-        self.ceil().max(0.).min(255.) as u8
+        self.round().max(0.).min(255.) as u8
     }
 }
 
@@ -51,7 +51,7 @@ impl MixedStorage<u16> for f32 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, bit_depth: u32) -> u16 {
-        self.ceil().max(0.).min(((1 << bit_depth) - 1) as f32) as u16
+        self.round().max(0.).min(((1 << bit_depth) - 1) as f32) as u16
     }
 }
 
@@ -71,7 +71,7 @@ impl MixedStorage<u16> for f64 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, bit_depth: u32) -> u16 {
-        self.ceil().max(0.).min(((1 << bit_depth) - 1) as f64) as u16
+        self.round().max(0.).min(((1 << bit_depth) - 1) as f64) as u16
     }
 }
 
diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 7da26b1..be6db82 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -408,6 +408,6 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
             }
         }
 
-        *dst = store0.ceil().max(0.).min(max_colors as f32) as u16;
+        *dst = store0.round().max(0.).min(max_colors as f32) as u16;
     }
 }
-- 
2.43.0


From 6265d529dda78c691b271c61699ae6102557d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 03/43] fix: planar f32 rows consumed 16 taps but advanced by 8

---
 src/sse/plane_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sse/plane_f32.rs b/src/sse/plane_f32.rs
index 7c83a9a..c80c729 100644
--- a/src/sse/plane_f32.rs
+++ b/src/sse/plane_f32.rs
@@ -186,7 +186,7 @@ unsafe fn convolve_horizontal_plane_sse_row_one_impl<const FMA: bool>(
             let read_weights3 = _mm_loadu_ps(ptr.add(12));
             let weights = (read_weights0, read_weights1, read_weights2, read_weights3);
             store = conv_horiz_plane_16_f32!(bounds_start, src, weights, store, FMA);
-            jx += 8;
+            jx += 16;
         }
 
         while jx + 8 < bounds.size {
-- 
2.43.0


From 576e05ce135c043b98d4bc0ed3a6e52b6e362135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 04/43] fix: do not overwrite the SSE result of RGBA u16 4-row
 blocks with the scalar handler

---
 src/handler_provider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handler_provider.rs b/src/handler_provider.rs
index 70f3fd5..936982b 100644
--- a/src/handler_provider.rs
+++ b/src/handler_provider.rs
@@ -245,7 +245,7 @@ impl RowHandlerFloatingPoint<u16, f32, f32> for u16 {
     ) {
         #[cfg(feature = "sse")]
         if COMPONENTS == 4 && std::arch::is_x86_feature_detected!("sse4.1") {
-            convolve_horizontal_rgba_sse_rows_4_u16(
+            return convolve_horizontal_rgba_sse_rows_4_u16(
                 src,
                 src_stride,
                 dst,
-- 
2.43.0


From e32630a26cf75577e5e9202f66f531980b43b611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 05/43] fix: jinc(0) is 1/2, not 0, so jinc based kernels keep
 their centre tap

---
 src/math/bessel_order_one.rs | 6 ++++--
 src/math/lanczos.rs          | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/math/bessel_order_one.rs b/src/math/bessel_order_one.rs
index 5193d70..c4426cd 100644
--- a/src/math/bessel_order_one.rs
+++ b/src/math/bessel_order_one.rs
@@ -320,7 +320,8 @@ fn qone(x: f64) -> f64 {
 #[inline]
 pub fn jinc_f64(x: f64) -> f64 {
     if x == 0f64 {
-        return 0f64;
+        // lim j1(x) / x, x -> 0
+        return 0.5f64;
     }
     j1(x) / x
 }
@@ -328,7 +329,8 @@ pub fn jinc_f64(x: f64) -> f64 {
 #[inline]
 pub fn jinc_f32(x: f32) -> f32 {
     if x == 0f32 {
-        return 0f32;
+        // lim j1(x) / x, x -> 0
+        return 0.5f32;
     }
     (j1(x as f64) / x as f64) as f32
 }
diff --git a/src/math/lanczos.rs b/src/math/lanczos.rs
index e5d255a..ead1bb6 100644
--- a/src/math/lanczos.rs
+++ b/src/math/lanczos.rs
@@ -45,7 +45,7 @@ where
     f64: AsPrimitive<V>,
 {
     let scale_a: V = 1f32.as_() / a;
-    if x == 0f32.as_() || x > 16.247661874700962f32.as_() {
+    if x > 16.247661874700962f32.as_() {
         return 0f32.as_();
     }
     if x.abs() < a {
-- 
2.43.0


From cd0d7600b3182f7cb6a9672df67628bc136a664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 06/43] fix: an output sample whose taps all weigh zero takes
 the sample below its center

---
 src/scaler.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scaler.rs b/src/scaler.rs
index 1b4d94f..f846716 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -482,6 +482,10 @@ impl Scaler {
                     {
                         *dst = *src * recpeq;
                     }
+                } else if size > 0 {
+                    // The kernel vanishes on every tap, take the sample below the center
+                    let nearest: usize = center_x.floor().as_();
+                    weights[filter_position + nearest.clamp(start, end - 1) - start] = 1.as_();
                 }
 
                 filter_position += kernel_size;
-- 
2.43.0


From 1ce652d407f7ebf4ee667319d2b07b084ed4e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 07/43] fix: AVX2 low precision RGBA u8 rows applied tap 5 to
 the alpha of tap 4

---
 src/avx2/rgba_u8_lb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx2/rgba_u8_lb.rs b/src/avx2/rgba_u8_lb.rs
index d9663d3..fd4267e 100644
--- a/src/avx2/rgba_u8_lb.rs
+++ b/src/avx2/rgba_u8_lb.rs
@@ -154,7 +154,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_4_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
@@ -363,7 +363,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_one_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
-- 
2.43.0


From 4dfee48bf2970a0b4544984e48171cc796a51b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 08/43] fix: scalar fixed point columns rounded down, unlike
 every other path

---
 src/fixed_point_vertical.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fixed_point_vertical.rs b/src/fixed_point_vertical.rs
index 49ed888..5e830de 100644
--- a/src/fixed_point_vertical.rs
+++ b/src/fixed_point_vertical.rs
@@ -28,6 +28,7 @@
  */
 use crate::filter_weights::FilterBounds;
 use crate::saturate_narrow::SaturateNarrow;
+use crate::support::ROUNDING_CONST;
 use num_traits::AsPrimitive;
 use std::ops::{AddAssign, Mul};
 
@@ -54,7 +55,7 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
@@ -108,8 +109,8 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer_double<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store0: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store1: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store0: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store1: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
@@ -177,10 +178,10 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer_four<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store0: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store1: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store2: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store3: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store0: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store1: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store2: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store3: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
-- 
2.43.0


From c6b552dacdcb8b9ab50f46b0cb1806a8f9b775b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 09/43] fix: SSE RGBA u16 rows multiplied a tap by its
 neighbour's pixel

---
 src/sse/rgba_u16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgba_u16.rs b/src/sse/rgba_u16.rs
index 78d1574..afc9c38 100644
--- a/src/sse/rgba_u16.rs
+++ b/src/sse/rgba_u16.rs
@@ -70,7 +70,7 @@ unsafe fn conv_horiz_rgba_2_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel, _mm_setzero_si128())),
         w1,
     )
 }
@@ -108,7 +108,7 @@ unsafe fn conv_horiz_rgba_4_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel0, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel0, _mm_setzero_si128())),
         w0,
     )
 }
-- 
2.43.0


From 91efbebec533a540509ef508d4af6e627d4b720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 10/43] fix: SSE u8 columns in 32 wide blocks saturated the Q15
 sums without scaling them back

---
 src/sse/vertical_u8.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sse/vertical_u8.rs b/src/sse/vertical_u8.rs
index 060901e..670512f 100644
--- a/src/sse/vertical_u8.rs
+++ b/src/sse/vertical_u8.rs
@@ -140,15 +140,27 @@ pub(crate) unsafe fn convolve_vertical_part_sse_32(
             dot_prod(store_4, store_5, store_6, store_7, item_row_1, v_weight);
     }
 
-    let rgb0 = _mm_packs_epi32(store_0, store_1);
-    let rgb2 = _mm_packs_epi32(store_2, store_3);
+    let rgb0 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_0),
+        _mm_srai_epi32::<PRECISION>(store_1),
+    );
+    let rgb2 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_2),
+        _mm_srai_epi32::<PRECISION>(store_3),
+    );
     let rgb = _mm_packus_epi16(rgb0, rgb2);
 
     let dst_ptr = dst.get_unchecked_mut(px..);
     _mm_storeu_si128(dst_ptr.as_mut_ptr() as *mut __m128i, rgb);
 
-    let rgb0 = _mm_packs_epi32(store_4, store_5);
-    let rgb2 = _mm_packs_epi32(store_6, store_7);
+    let rgb0 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_4),
+        _mm_srai_epi32::<PRECISION>(store_5),
+    );
+    let rgb2 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_6),
+        _mm_srai_epi32::<PRECISION>(store_7),
+    );
     let rgb = _mm_packus_epi16(rgb0, rgb2);
 
     let dst_ptr = dst.get_unchecked_mut((px + 16)..);
-- 
2.43.0


From b80d362dc74877fe2958fd1512c9327f61206cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 11/43] fix: AVX-512 VNNI RGBA u8 single rows used the shift
 count as the rounding constant

---
 src/avx512/rgba_u8_dot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx512/rgba_u8_dot.rs b/src/avx512/rgba_u8_dot.rs
index c4caa1d..d29cd83 100644
--- a/src/avx512/rgba_u8_dot.rs
+++ b/src/avx512/rgba_u8_dot.rs
@@ -405,7 +405,7 @@ unsafe fn convolve_horizontal_rgba_vnni_rows_one_impl(
 
     let permute_avx_weights = _mm256_setr_epi32(0, 0, 0, 0, 1, 1, 1, 1);
 
-    let vld = _mm_set1_epi32(PRECISION);
+    let vld = _mm_set1_epi32(ROUNDING_CONST);
 
     for ((dst, bounds), weights) in dst
         .chunks_exact_mut(CHANNELS)
-- 
2.43.0


From da108fb27318e53ee113f36b7699be44647ec66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 12/43] fix: alpha association must not multiply the alpha
 channel by itself

---
 src/alpha_handle_u16.rs | 9 ++++-----
 src/alpha_handle_u8.rs  | 2 +-
 src/avx2/alpha_u8.rs    | 6 +++++-
 src/avx512/alpha_u8.rs  | 6 +++++-
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 92a4880..625203c 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -71,7 +71,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_1023(src[0] as u32 * a);
             dst[1] = div_by_1023(src[1] as u32 * a);
             dst[2] = div_by_1023(src[2] as u32 * a);
-            dst[3] = div_by_1023(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else if max_colors == 4096 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
@@ -79,7 +79,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_4095(src[0] as u32 * a);
             dst[1] = div_by_4095(src[1] as u32 * a);
             dst[2] = div_by_4095(src[2] as u32 * a);
-            dst[3] = div_by_4095(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else if max_colors == 65535 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
@@ -87,7 +87,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_65535(src[0] as u32 * a);
             dst[1] = div_by_65535(src[1] as u32 * a);
             dst[2] = div_by_65535(src[2] as u32 * a);
-            dst[3] = div_by_65535(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else {
         let recip_max_colors = 1. / max_colors as f32;
@@ -99,7 +99,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
                 (((src[1] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
             dst[2] =
                 (((src[2] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[3] = (((a * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
+            dst[3] = src[3];
         }
     }
 }
@@ -112,7 +112,6 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
             dst[0] = ((dst[0] as u32 * max_colors) as f32 * a_recip) as u16;
             dst[1] = ((dst[1] as u32 * max_colors) as f32 * a_recip) as u16;
             dst[2] = ((dst[2] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[3] = ((a * max_colors) as f32 * a_recip) as u16;
         }
     }
 }
diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index ada0cc9..6f37278 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -52,7 +52,7 @@ pub(crate) fn premultiply_alpha_rgba_row_impl(dst: &mut [u8], src: &[u8]) {
         dst[0] = div_by_255(src[0] as u16 * a);
         dst[1] = div_by_255(src[1] as u16 * a);
         dst[2] = div_by_255(src[2] as u16 * a);
-        dst[3] = div_by_255(a * a);
+        dst[3] = src[3];
     }
 }
 
diff --git a/src/avx2/alpha_u8.rs b/src/avx2/alpha_u8.rs
index fd28c6c..8ed167a 100644
--- a/src/avx2/alpha_u8.rs
+++ b/src/avx2/alpha_u8.rs
@@ -68,7 +68,11 @@ impl AssociateAlphaDefault {
         );
         let src_ptr = src.as_ptr();
         let rgba0 = _mm256_loadu_si256(src_ptr as *const __m256i);
-        let multiplicand = _mm256_shuffle_epi8(rgba0, shuffle);
+        // alpha itself is multiplied by 255, so it is kept as is
+        let multiplicand = _mm256_or_si256(
+            _mm256_shuffle_epi8(rgba0, shuffle),
+            _mm256_set1_epi32(0xff00_0000_u32 as i32),
+        );
 
         let zeros = _mm256_setzero_si256();
 
diff --git a/src/avx512/alpha_u8.rs b/src/avx512/alpha_u8.rs
index a2f15ad..6c8135b 100644
--- a/src/avx512/alpha_u8.rs
+++ b/src/avx512/alpha_u8.rs
@@ -58,7 +58,11 @@ impl AssociateAlphaDefault {
         );
         let src_ptr = src.as_ptr();
         let rgba0 = _mm512_maskz_loadu_epi8(working_mask, src_ptr as *const _);
-        let multiplicand = _mm512_shuffle_epi8(rgba0, shuffle);
+        // alpha itself is multiplied by 255, so it is kept as is
+        let multiplicand = _mm512_or_si512(
+            _mm512_shuffle_epi8(rgba0, shuffle),
+            _mm512_set1_epi32(0xff00_0000_u32 as i32),
+        );
 
         let zeros = _mm512_setzero_si512();
 
-- 
2.43.0


From 4aafeac0584bb4ed4a7ff85db1f1cfb3d3e3311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 13/43] fix: scalar u8 alpha disassociation table rows
 overlapped and wrapped instead of saturating

---
 src/alpha_handle_u8.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index 6f37278..053b07d 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -89,10 +89,10 @@ const fn make_unpremultiplication_table() -> [u8; 65536] {
         let mut pixel = 0usize;
         while pixel < 256 {
             if alpha == 0 {
-                buf[alpha * 255 + pixel] = 0;
+                buf[alpha * 256 + pixel] = 0;
             } else {
                 let value = (pixel * 255 + alpha / 2) / alpha;
-                buf[alpha * 255 + pixel] = value as u8;
+                buf[alpha * 256 + pixel] = if value > 255 { 255 } else { value as u8 };
             }
             pixel += 1;
         }
@@ -107,7 +107,7 @@ static UNPREMULTIPLICATION_TABLE: [u8; 65536] = make_unpremultiplication_table()
 pub(crate) fn unpremultiply_alpha_rgba_row_impl(in_place: &mut [u8]) {
     for dst in in_place.chunks_exact_mut(4) {
         let a = dst[3];
-        let z = a as u16 * 255;
+        let z = a as u16 * 256;
         dst[0] = UNPREMULTIPLICATION_TABLE[(z + dst[0] as u16) as usize];
         dst[1] = UNPREMULTIPLICATION_TABLE[(z + dst[1] as u16) as usize];
         dst[2] = UNPREMULTIPLICATION_TABLE[(z + dst[2] as u16) as usize];
-- 
2.43.0


From cb4ff625dfa06fadee799bba96a80b40cb2e6294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 14/43] fix: scalar u16 alpha handling rounds to nearest and
 saturates to the bit depth

---
 src/alpha_handle_u16.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 625203c..96910d5 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -73,7 +73,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[2] = div_by_1023(src[2] as u32 * a);
             dst[3] = src[3];
         }
-    } else if max_colors == 4096 {
+    } else if max_colors == 4095 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
             let a = src[3] as u32;
             dst[0] = div_by_4095(src[0] as u32 * a);
@@ -94,11 +94,11 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
             let a = src[3] as u32;
             dst[0] =
-                (((src[0] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
+                (((src[0] as u32 * a) as f32 * recip_max_colors + 0.5) as u32).min(max_colors) as u16;
             dst[1] =
-                (((src[1] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
+                (((src[1] as u32 * a) as f32 * recip_max_colors + 0.5) as u32).min(max_colors) as u16;
             dst[2] =
-                (((src[2] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
+                (((src[2] as u32 * a) as f32 * recip_max_colors + 0.5) as u32).min(max_colors) as u16;
             dst[3] = src[3];
         }
     }
@@ -109,9 +109,12 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
         let a = dst[3] as u32;
         if a != 0 {
             let a_recip = 1. / a as f32;
-            dst[0] = ((dst[0] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[1] = ((dst[1] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[2] = ((dst[2] as u32 * max_colors) as f32 * a_recip) as u16;
+            dst[0] =
+                (((dst[0] as u32 * max_colors) as f32 * a_recip + 0.5) as u32).min(max_colors) as u16;
+            dst[1] =
+                (((dst[1] as u32 * max_colors) as f32 * a_recip + 0.5) as u32).min(max_colors) as u16;
+            dst[2] =
+                (((dst[2] as u32 * max_colors) as f32 * a_recip + 0.5) as u32).min(max_colors) as u16;
         }
     }
 }
-- 
2.43.0


From 4f304b18fa5994de86adf99e0b98ade05525785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 15/43] fix: SSE and AVX2 u16 alpha handling wrapped 16 bit
 products and approximated or double rounded the rest

---
 src/alpha_handle_u16.rs | 24 +++++------
 src/avx2/alpha_u16.rs   | 90 +++++++++++++++++++----------------------
 src/sse/alpha_u16.rs    | 46 ++++++++++-----------
 3 files changed, 75 insertions(+), 85 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 96910d5..b9720cc 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -93,12 +93,12 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
         let recip_max_colors = 1. / max_colors as f32;
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
             let a = src[3] as u32;
-            dst[0] =
-                (((src[0] as u32 * a) as f32 * recip_max_colors + 0.5) as u32).min(max_colors) as u16;
-            dst[1] =
-                (((src[1] as u32 * a) as f32 * recip_max_colors + 0.5) as u32).min(max_colors) as u16;
-            dst[2] =
-                (((src[2] as u32 * a) as f32 * recip_max_colors + 0.5) as u32).min(max_colors) as u16;
+            dst[0] = (((src[0] as u32 * a) as f32 * recip_max_colors + 0.5) as u32).min(max_colors)
+                as u16;
+            dst[1] = (((src[1] as u32 * a) as f32 * recip_max_colors + 0.5) as u32).min(max_colors)
+                as u16;
+            dst[2] = (((src[2] as u32 * a) as f32 * recip_max_colors + 0.5) as u32).min(max_colors)
+                as u16;
             dst[3] = src[3];
         }
     }
@@ -109,12 +109,12 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
         let a = dst[3] as u32;
         if a != 0 {
             let a_recip = 1. / a as f32;
-            dst[0] =
-                (((dst[0] as u32 * max_colors) as f32 * a_recip + 0.5) as u32).min(max_colors) as u16;
-            dst[1] =
-                (((dst[1] as u32 * max_colors) as f32 * a_recip + 0.5) as u32).min(max_colors) as u16;
-            dst[2] =
-                (((dst[2] as u32 * max_colors) as f32 * a_recip + 0.5) as u32).min(max_colors) as u16;
+            dst[0] = (((dst[0] as u32 * max_colors) as f32 * a_recip + 0.5) as u32).min(max_colors)
+                as u16;
+            dst[1] = (((dst[1] as u32 * max_colors) as f32 * a_recip + 0.5) as u32).min(max_colors)
+                as u16;
+            dst[2] = (((dst[2] as u32 * max_colors) as f32 * a_recip + 0.5) as u32).min(max_colors)
+                as u16;
         }
     }
 }
diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 1a0a0b3..5bff6fd 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -39,10 +39,11 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 #[inline(always)]
-unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
+unsafe fn _mm256_scale_by_alpha(
     px: __m256i,
     low_low_a: __m256,
     low_high_a: __m256,
+    max_colors: __m256,
 ) -> __m256i {
     let zeros = _mm256_setzero_si256();
     let ls = _mm256_unpacklo_epi16(px, zeros);
@@ -51,18 +52,9 @@ unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
     let low_px = _mm256_cvtepi32_ps(ls);
     let high_px = _mm256_cvtepi32_ps(hs);
 
-    let (lvs, hvs);
-
-    if FMA {
-        lvs = _mm256_fmadd_ps(low_px, low_low_a, _mm256_set1_ps(0.5f32));
-        hvs = _mm256_fmadd_ps(high_px, low_high_a, _mm256_set1_ps(0.5f32));
-    } else {
-        let lps = _mm256_mul_ps(low_px, low_low_a);
-        let hps = _mm256_mul_ps(high_px, low_high_a);
-
-        lvs = _mm256_round_ps::<0x00>(lps);
-        hvs = _mm256_round_ps::<0x00>(hps);
-    }
+    // The conversion to integers rounds to nearest, the product must be in range of it
+    let lvs = _mm256_min_ps(_mm256_mul_ps(low_px, low_low_a), max_colors);
+    let hvs = _mm256_min_ps(_mm256_mul_ps(high_px, low_high_a), max_colors);
 
     let new_ll = _mm256_cvtps_epi32(lvs);
     let new_lh = _mm256_cvtps_epi32(hvs);
@@ -154,12 +146,12 @@ impl<const BIT_DEPTH: usize> Avx2PremultiplyExecutorDefault<BIT_DEPTH> {
         let bl32 = _mm256_unpacklo_epi16(pixel.2, zeros);
         let bh32 = _mm256_unpackhi_epi16(pixel.2, zeros);
 
-        let rl32 = _mm256_madd_epi16(rl32, low_alpha);
-        let rh32 = _mm256_madd_epi16(rh32, high_alpha);
-        let gl32 = _mm256_madd_epi16(gl32, low_alpha);
-        let gh32 = _mm256_madd_epi16(gh32, high_alpha);
-        let bl32 = _mm256_madd_epi16(bl32, low_alpha);
-        let bh32 = _mm256_madd_epi16(bh32, high_alpha);
+        let rl32 = _mm256_mullo_epi32(rl32, low_alpha);
+        let rh32 = _mm256_mullo_epi32(rh32, high_alpha);
+        let gl32 = _mm256_mullo_epi32(gl32, low_alpha);
+        let gh32 = _mm256_mullo_epi32(gh32, high_alpha);
+        let bl32 = _mm256_mullo_epi32(bl32, low_alpha);
+        let bh32 = _mm256_mullo_epi32(bh32, high_alpha);
 
         let lr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rl32);
         let hr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rh32);
@@ -221,11 +213,12 @@ struct Avx2PremultiplyExecutorAnyBit {}
 
 impl Avx2PremultiplyExecutorAnyBit {
     #[inline(always)]
-    unsafe fn premultiply_chunk<const FMA: bool>(
+    unsafe fn premultiply_chunk(
         &self,
         dst: &mut [u16],
         src: &[u16],
         scale: __m256,
+        v_max_colors: __m256,
     ) {
         let src_ptr = src.as_ptr();
         let lane0 = _mm256_loadu_si256(src_ptr as *const __m256i);
@@ -246,9 +239,9 @@ impl Avx2PremultiplyExecutorAnyBit {
         let low_alpha = _mm256_mul_ps(lla, scale);
         let high_alpha = _mm256_mul_ps(hla, scale);
 
-        let new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
-        let new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
-        let new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_max_colors);
+        let new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha, v_max_colors);
+        let new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha, v_max_colors);
 
         let dst_ptr = dst.as_mut_ptr();
 
@@ -274,11 +267,12 @@ impl Avx2PremultiplyExecutorAnyBit {
         let mut src_rem = src;
 
         let v_scale_colors = _mm256_set1_ps((1. / max_colors as f64) as f32);
+        let v_max_colors = _mm256_set1_ps(max_colors as f32);
         for (dst, src) in rem
             .chunks_exact_mut(16 * 4)
             .zip(src_rem.chunks_exact(16 * 4))
         {
-            self.premultiply_chunk::<FMA>(dst, src, v_scale_colors);
+            self.premultiply_chunk(dst, src, v_scale_colors, v_max_colors);
         }
 
         rem = rem.chunks_exact_mut(16 * 4).into_remainder();
@@ -293,7 +287,7 @@ impl Avx2PremultiplyExecutorAnyBit {
             let mut dst_buffer: [u16; 16 * 4] = [0u16; 16 * 4];
             std::ptr::copy_nonoverlapping(src_rem.as_ptr(), buffer.as_mut_ptr(), src_rem.len());
 
-            self.premultiply_chunk::<FMA>(&mut dst_buffer, &buffer, v_scale_colors);
+            self.premultiply_chunk(&mut dst_buffer, &buffer, v_scale_colors, v_max_colors);
 
             std::ptr::copy_nonoverlapping(dst_buffer.as_ptr(), rem.as_mut_ptr(), rem.len());
         }
@@ -424,7 +418,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 ) {
     let max_colors = (1 << bit_depth) - 1;
 
-    let v_scale_colors = _mm256_set1_ps(max_colors as f32);
+    let v_max_colors = _mm256_set1_ps(max_colors as f32);
 
     let mut rem = in_place;
 
@@ -441,21 +435,21 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         let is_zero_alpha_mask = _mm256_cmpeq_epi16(pixel.3, zeros);
 
-        let mut low_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)));
-
-        low_alpha = _mm256_mul_ps(low_alpha, v_scale_colors);
-
-        let mut high_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)));
+        let low_alpha = _mm256_div_ps(
+            v_max_colors,
+            _mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)),
+        );
 
-        high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
+        let high_alpha = _mm256_div_ps(
+            v_max_colors,
+            _mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)),
+        );
 
-        let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        let mut new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_max_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
-        let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        let mut new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha, v_max_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
-        let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let mut new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha, v_max_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let dst_ptr = dst.as_mut_ptr();
@@ -487,21 +481,21 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         let is_zero_alpha_mask = _mm256_cmpeq_epi16(pixel.3, zeros);
 
-        let mut low_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)));
-
-        low_alpha = _mm256_mul_ps(low_alpha, v_scale_colors);
-
-        let mut high_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)));
+        let low_alpha = _mm256_div_ps(
+            v_max_colors,
+            _mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)),
+        );
 
-        high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
+        let high_alpha = _mm256_div_ps(
+            v_max_colors,
+            _mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)),
+        );
 
-        let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        let mut new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_max_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
-        let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        let mut new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha, v_max_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
-        let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let mut new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha, v_max_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let (d_lane0, d_lane1, d_lane2, d_lane3) =
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index a20897d..9e4fc7d 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -43,21 +43,23 @@ unsafe fn sse_unpremultiply_row_u16(
     is_zero_mask: __m128i,
     a_lo_f: __m128,
     a_hi_f: __m128,
+    v_max_colors: __m128,
 ) -> __m128i {
     let zeros = _mm_setzero_si128();
     let lo = _mm_unpacklo_epi16(x, zeros);
     let hi = _mm_unpackhi_epi16(x, zeros);
 
-    let new_lo = _mm_cvtps_epi32(_mm_add_ps(
-        _mm_set1_ps(0.5f32),
+    // The conversion to integers rounds to nearest, the product must be in range of it
+    let new_lo = _mm_cvtps_epi32(_mm_min_ps(
         _mm_mul_ps(_mm_cvtepi32_ps(lo), a_lo_f),
+        v_max_colors,
     ));
-    let new_hi = _mm_cvtps_epi32(_mm_add_ps(
-        _mm_set1_ps(0.5f32),
+    let new_hi = _mm_cvtps_epi32(_mm_min_ps(
         _mm_mul_ps(_mm_cvtepi32_ps(hi), a_hi_f),
+        v_max_colors,
     ));
 
-    let pixel = _mm_packs_epi32(new_lo, new_hi);
+    let pixel = _mm_packus_epi32(new_lo, new_hi);
     _mm_select_si128(is_zero_mask, x, pixel)
 }
 
@@ -130,24 +132,18 @@ impl DisassociateAlphaDefault {
         let (rrrr, gggg, bbbb, aaaa) = sse_deinterleave_rgba_epi16(row0, row1, row2, row3);
 
         let is_zero_mask = _mm_cmpeq_epi16(aaaa, _mm_setzero_si128());
-        let a_lo_f = _mm_mul_ps(
-            _mm_rcp_ps(_mm_cvtepi32_ps(_mm_unpacklo_epi16(
-                aaaa,
-                _mm_setzero_si128(),
-            ))),
+        let a_lo_f = _mm_div_ps(
             v_max_colors,
+            _mm_cvtepi32_ps(_mm_unpacklo_epi16(aaaa, _mm_setzero_si128())),
         );
-        let a_hi_f = _mm_mul_ps(
-            _mm_rcp_ps(_mm_cvtepi32_ps(_mm_unpackhi_epi16(
-                aaaa,
-                _mm_setzero_si128(),
-            ))),
+        let a_hi_f = _mm_div_ps(
             v_max_colors,
+            _mm_cvtepi32_ps(_mm_unpackhi_epi16(aaaa, _mm_setzero_si128())),
         );
 
-        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f);
-        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f);
-        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f);
+        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
+        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
+        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
 
         let (rgba0, rgba1, rgba2, rgba3) =
             sse_interleave_rgba_epi16(new_rrrr, new_gggg, new_bbbb, aaaa);
@@ -251,7 +247,7 @@ unsafe fn sse_premultiply_row_u16(
         a_hi_f,
     ));
 
-    _mm_packs_epi32(new_lo, new_hi)
+    _mm_packus_epi32(new_lo, new_hi)
 }
 
 pub(crate) fn premultiply_alpha_sse_rgba_u16(
@@ -312,16 +308,16 @@ impl<const BIT_DEPTH: usize> Sse41PremultiplyExecutorDefault<BIT_DEPTH> {
         let a_hi_f = _mm_unpackhi_epi16(aaaa, zeros);
 
         let new_rrrr = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
         );
         let new_gggg = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
         );
         let new_bbbb = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
         );
 
         let (rgba0, rgba1, rgba2, rgba3) =
-- 
2.43.0


From e7a13754d0f637ecb1cbb279a2bea63a12fea09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 16/43] fix: the division by 255 of SIMD alpha association did
 not round to nearest

---
 src/avx2/utils.rs   | 4 ++--
 src/avx512/utils.rs | 8 +++-----
 src/sse/alpha_u8.rs | 4 ++--
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/avx2/utils.rs b/src/avx2/utils.rs
index b1c696c..47d0b23 100644
--- a/src/avx2/utils.rs
+++ b/src/avx2/utils.rs
@@ -72,9 +72,9 @@ pub(crate) unsafe fn _mm256_selecti_ps(
 /// Exact division by 255 with rounding to nearest
 #[inline(always)]
 pub(crate) unsafe fn avx2_div_by255(v: __m256i) -> __m256i {
-    let addition = _mm256_set1_epi16(127);
+    let addition = _mm256_set1_epi16(128);
     let j0 = _mm256_add_epi16(v, addition);
-    let j1 = _mm256_srli_epi16::<8>(v);
+    let j1 = _mm256_srli_epi16::<8>(j0);
     _mm256_srli_epi16::<8>(_mm256_add_epi16(j0, j1))
 }
 
diff --git a/src/avx512/utils.rs b/src/avx512/utils.rs
index fb22f25..4e2c2ad 100644
--- a/src/avx512/utils.rs
+++ b/src/avx512/utils.rs
@@ -134,11 +134,9 @@ pub(crate) unsafe fn avx512_interleave_rgba<const HAS_VBMI: bool>(
 /// Exact division by 255 with rounding to nearest
 #[inline(always)]
 pub(crate) unsafe fn avx512_div_by255(v: __m512i) -> __m512i {
-    let addition = _mm512_set1_epi16(127);
-    _mm512_srli_epi16::<8>(_mm512_add_epi16(
-        _mm512_add_epi16(v, addition),
-        _mm512_srli_epi16::<8>(v),
-    ))
+    let addition = _mm512_set1_epi16(128);
+    let j0 = _mm512_add_epi16(v, addition);
+    _mm512_srli_epi16::<8>(_mm512_add_epi16(j0, _mm512_srli_epi16::<8>(j0)))
 }
 
 #[inline(always)]
diff --git a/src/sse/alpha_u8.rs b/src/sse/alpha_u8.rs
index a18dd4f..ed4ca37 100644
--- a/src/sse/alpha_u8.rs
+++ b/src/sse/alpha_u8.rs
@@ -48,9 +48,9 @@ pub(crate) unsafe fn _mm_select_si128(
 /// Exact division by 255 with rounding to nearest
 #[inline(always)]
 pub(crate) unsafe fn _mm_div_by_255_epi16(v: __m128i) -> __m128i {
-    let addition = _mm_set1_epi16(127);
+    let addition = _mm_set1_epi16(128);
     let j0 = _mm_add_epi16(v, addition);
-    let j1 = _mm_srli_epi16::<8>(v);
+    let j1 = _mm_srli_epi16::<8>(j0);
     _mm_srli_epi16::<8>(_mm_add_epi16(j0, j1))
 }
 
-- 
2.43.0


From a405543e7e2b933c396e2e1bc078aaaecc341d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 17/43] fix: AVX2 and AVX-512 u8 alpha disassociation wrapped
 large quotients to zero

---
 src/avx2/alpha_u8.rs   | 4 ++--
 src/avx512/alpha_u8.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/avx2/alpha_u8.rs b/src/avx2/alpha_u8.rs
index 8ed167a..c92b7b5 100644
--- a/src/avx2/alpha_u8.rs
+++ b/src/avx2/alpha_u8.rs
@@ -242,8 +242,8 @@ impl Avx2DisassociateAlpha {
         let hi_lo = _mm256_cvtps_epi32(fhlw);
         let hi_hi = _mm256_cvtps_epi32(fhhw);
 
-        let packed0 = _mm256_packus_epi32(lo_lo, lo_hi);
-        let packed1 = _mm256_packus_epi32(hi_lo, hi_hi);
+        let packed0 = _mm256_packs_epi32(lo_lo, lo_hi);
+        let packed1 = _mm256_packs_epi32(hi_lo, hi_hi);
 
         _mm256_select_si256(is_zero_mask, zeros, _mm256_packus_epi16(packed0, packed1))
     }
diff --git a/src/avx512/alpha_u8.rs b/src/avx512/alpha_u8.rs
index 6c8135b..8eb2579 100644
--- a/src/avx512/alpha_u8.rs
+++ b/src/avx512/alpha_u8.rs
@@ -187,8 +187,8 @@ impl<const HAS_VBMI: bool> Avx512DisassociateAlpha<HAS_VBMI> {
         let hi_hi = _mm512_cvtps_epi32(_mm512_mul_ps(hi_hi, a_hi_hi));
 
         let packed = _mm512_packus_epi16(
-            _mm512_packus_epi32(lo_lo, lo_hi),
-            _mm512_packus_epi32(hi_lo, hi_hi),
+            _mm512_packs_epi32(lo_lo, lo_hi),
+            _mm512_packs_epi32(hi_lo, hi_hi),
         );
         _mm512_mask_blend_epi8(is_zero_mask, packed, _mm512_setzero_si512())
     }
-- 
2.43.0


From 46e82066f2d1fa18c8ad55556ecac70bb781a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 18/43] fix: do not disassociate alpha that was not associated

---
 src/scaler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index f846716..16eaee0 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -689,7 +689,7 @@ impl Scaler {
         let mut src_store: std::borrow::Cow<'_, ImageStore<'_, T, N>> =
             std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -766,7 +766,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -823,7 +823,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
-- 
2.43.0


From f9dfe026ae005d9a4286cf629b49dc180e07edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 19/43] fix: AVX-512 alpha check ignored the last pixels of
 rows that are not a multiple of 16 wide

---
 src/avx512/check_alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx512/check_alpha.rs b/src/avx512/check_alpha.rs
index 32cfd53..8aa974a 100644
--- a/src/avx512/check_alpha.rs
+++ b/src/avx512/check_alpha.rs
@@ -65,7 +65,7 @@ unsafe fn avx512_has_non_constant_cap_alpha_rgba8_impl(
         let row = &row[0..width * 4];
         let mut sums = _mm512_set1_epi32(0);
 
-        for chunk in row.chunks_exact(64) {
+        for chunk in row.chunks(64) {
             let working_mask: __mmask64 = if chunk.len() == 64 {
                 0xffff_ffff_ffff_ffff
             } else {
-- 
2.43.0


From a4ac08bf4af2ea5ca9213da036acfc96ffcadc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 20/43] fix: AVX-512 FP16 u8 alpha disassociation wrapped large
 quotients

---
 src/avx512/alpha_u8.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/avx512/alpha_u8.rs b/src/avx512/alpha_u8.rs
index 8eb2579..9c487bf 100644
--- a/src/avx512/alpha_u8.rs
+++ b/src/avx512/alpha_u8.rs
@@ -295,8 +295,11 @@ impl<const HAS_VBMI: bool> Avx512DisassociateAlphaFloat16<HAS_VBMI> {
         let a_lo = _mm512_rcp_ph(_mm512_cvtepu16_ph(a_lo));
         let a_hi = _mm512_rcp_ph(_mm512_cvtepu16_ph(a_hi));
         const FLAGS: i32 = _MM_FROUND_TO_NEAREST_INT | _MM_FROUND_NO_EXC;
-        let lo = _mm512_cvtph_epi16(_mm512_mul_round_ph::<FLAGS>(lo, a_lo));
-        let hi = _mm512_cvtph_epi16(_mm512_mul_round_ph::<FLAGS>(hi, a_hi));
+        // Quotients that do not fit signed 16-bit integers must saturate
+        let lo = _mm512_min_ph(_mm512_mul_round_ph::<FLAGS>(lo, a_lo), scale_ps);
+        let hi = _mm512_min_ph(_mm512_mul_round_ph::<FLAGS>(hi, a_hi), scale_ps);
+        let lo = _mm512_cvtph_epi16(lo);
+        let hi = _mm512_cvtph_epi16(hi);
 
         let packed = _mm512_packus_epi16(lo, hi);
         _mm512_mask_blend_epi8(is_zero_mask, packed, _mm512_setzero_si512())
-- 
2.43.0


From 3e43486c45eb204d4c67bbbb2cdd23fa9e77fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 21/43] fix: Nearest must honour the strides of the images

---
 src/nearest_sampler.rs | 16 +++++++++++-----
 src/resize_ar30.rs     |  2 ++
 src/scaler.rs          |  6 ++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 945d5bb..794df60 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -31,11 +31,14 @@ use rayon::iter::{IndexedParallelIterator, ParallelIterator};
 use rayon::prelude::ParallelSliceMut;
 use rayon::ThreadPool;
 
+#[allow(clippy::too_many_arguments)]
 pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     src: &[T],
+    src_stride: usize,
     src_width: usize,
     src_height: usize,
     dst: &mut [T],
+    dst_stride: usize,
     dst_width: usize,
     dst_height: usize,
     pool: &Option<ThreadPool>,
@@ -46,15 +49,15 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     let clip_width = src_width as f32 - 1f32;
     let clip_height = src_height as f32 - 1f32;
 
-    let dst_stride = dst_width * CHANNELS;
-    let src_stride = src_width * CHANNELS;
-
     if let Some(pool) = pool {
         pool.install(|| {
             dst.par_chunks_exact_mut(dst_stride)
                 .enumerate()
                 .for_each(|(y, dst_chunk)| {
-                    for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
+                    for (x, dst) in dst_chunk[..dst_width * CHANNELS]
+                        .chunks_exact_mut(CHANNELS)
+                        .enumerate()
+                    {
                         let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
                             .min(clip_width)
                             .max(0f32) as usize;
@@ -77,7 +80,10 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
         dst.chunks_exact_mut(dst_stride)
             .enumerate()
             .for_each(|(y, dst_chunk)| {
-                for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
+                for (x, dst) in dst_chunk[..dst_width * CHANNELS]
+                    .chunks_exact_mut(CHANNELS)
+                    .enumerate()
+                {
                     let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
                         .min(clip_width)
                         .max(0f32) as usize;
diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 281abf2..7a296ca 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -97,9 +97,11 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         resize_nearest::<u8, 4>(
             src,
             src_stride,
+            src_size.width,
             src_size.height,
             dst,
             dst_stride,
+            dst_size.width,
             dst_size.height,
             &pool,
         );
diff --git a/src/scaler.rs b/src/scaler.rs
index 16eaee0..ab5634c 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -614,11 +614,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let into_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                into_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
@@ -905,11 +908,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let into_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                into_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
-- 
2.43.0


From 861862edf47f0b16777847adf743f8bd1e26c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 22/43] fix: copying an image must leave the row padding of the
 destination untouched

---
 src/image_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/image_store.rs b/src/image_store.rs
index b1b1bb0..2480de6 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -443,6 +443,7 @@ where
             .chunks_exact(self.stride())
             .zip(into.buffer.borrow_mut().chunks_exact_mut(into_stride))
         {
+            let src_row = &src_row[..self.width * N];
             for (&src, dst) in src_row.iter().zip(dst_row.iter_mut()) {
                 *dst = src;
             }
-- 
2.43.0


From b3be42525725a0c97f2187cc3c63993b6f9df9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 23/43] fix: copies of strided images keep the stride of their
 buffer

---
 src/image_store.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 2480de6..28a69cd 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -430,7 +430,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
@@ -498,7 +498,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
@@ -509,7 +509,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
-- 
2.43.0


From a1d7f903b91ee7fdc36b5a775ee12dff19cd7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 24/43] fix: zero stride is documented as tightly packed rows,
 do not reject it

---
 src/image_store.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 28a69cd..42d2ad8 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -229,8 +229,8 @@ where
                 slice_len: self.buffer.borrow().len(),
             }));
         }
-        if self.stride < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        if self.stride() < self.width * N {
+            return Err(PicScaleError::InvalidStride(self.width * N, self.stride()));
         }
         Ok(())
     }
@@ -251,8 +251,8 @@ where
                 slice_len: self.buffer.as_ref().len(),
             }));
         }
-        if self.stride < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        if self.stride() < self.width * N {
+            return Err(PicScaleError::InvalidStride(self.width * N, self.stride()));
         }
         Ok(())
     }
-- 
2.43.0


From 10bbcb46748ea9909844eb9e3e893800f2e22cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 25/43] fix: AR30 same size copies and vertical passes must
 honour the destination stride

---
 src/resize_ar30.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 7a296ca..afb3f0a 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -83,8 +83,12 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
     }
 
     if src_size.width == dst_size.width && src_size.height == dst_size.height {
-        for (src, dst) in src.iter().zip(dst.iter_mut()) {
-            *dst = *src;
+        let row_size = src_size.width * 4;
+        for (src, dst) in src
+            .chunks_exact(src_stride)
+            .zip(dst.chunks_exact_mut(dst_stride))
+        {
+            dst[..row_size].copy_from_slice(&src[..row_size]);
         }
         return Ok(());
     }
@@ -121,7 +125,7 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
             src_stride,
             vertical_filters,
             dst,
-            src_stride,
+            dst_stride,
             &pool,
             src_size.width,
             options,
-- 
2.43.0


From 724cbf526eeb4ece40e81c445d5186f24cf3f4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 26/43] fix: f16 rows must not overwrite the padding of the
 destination

---
 src/f16.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/f16.rs b/src/f16.rs
index cc0dae9..df118df 100644
--- a/src/f16.rs
+++ b/src/f16.rs
@@ -85,8 +85,14 @@ fn convolve_horizontal_rgba_4_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
-        *dst = *src as f16;
+    let row_size = filter_weights.bounds.len() * CHANNELS;
+    for (dst_row, src_row) in dst
+        .chunks_mut(dst_stride)
+        .zip(transient_dst.chunks(dst_stride))
+    {
+        for (dst, src) in dst_row.iter_mut().zip(src_row.iter()).take(row_size) {
+            *dst = *src as f16;
+        }
     }
 }
 
@@ -105,7 +111,8 @@ fn convolve_horizontal_rgb_native_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
+    let row_size = filter_weights.bounds.len() * CHANNELS;
+    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()).take(row_size) {
         *dst = *src as f16;
     }
 }
-- 
2.43.0


From 4ba00d887476bd9f873b41ab2e28423c7a08cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 27/43] fix: scalar AR30 rows dropped three quarters of the
 taps of large kernels

---
 src/fixed_point_horizontal_ar30.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixed_point_horizontal_ar30.rs b/src/fixed_point_horizontal_ar30.rs
index 8b4b6be..7195955 100644
--- a/src/fixed_point_horizontal_ar30.rs
+++ b/src/fixed_point_horizontal_ar30.rs
@@ -102,7 +102,7 @@ pub(crate) fn convolve_row_handler_fixed_point_ar30<
                 + load_ar30_with_offset!(src_ptr0, AR30_TYPE, AR30_ORDER, 4) * weight4
                 + load_ar30_with_offset!(src_ptr0, AR30_TYPE, AR30_ORDER, 5) * weight5;
         } else {
-            let src_ptr0 = &src[px..(px + bounds_size)];
+            let src_ptr0 = &src[px..(px + bounds_size * CN)];
             for (&k_weight, src) in weights
                 .iter()
                 .zip(src_ptr0.chunks_exact(4))
-- 
2.43.0


From a33e66e11f1741f26059c3084772dbcc16456317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 28/43] fix: SSE AR30 single rows halved every value and
 cleared green

---
 src/sse/horizontal_ar30.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/horizontal_ar30.rs b/src/sse/horizontal_ar30.rs
index cb9ef8b..0b3040f 100644
--- a/src/sse/horizontal_ar30.rs
+++ b/src/sse/horizontal_ar30.rs
@@ -334,12 +334,12 @@ unsafe fn sse_convolve_horizontal_rgba_row_impl<const AR_TYPE: usize, const AR_O
     filter_weights: &FilterWeights<i16>,
 ) {
     unsafe {
-        const PRECISION: i32 = 16;
+        const PRECISION: i32 = 15;
         const ROUNDING: i32 = (1 << (PRECISION - 1)) - 1;
 
         let init = _mm_set1_epi32(ROUNDING);
 
-        let v_cut_off = _mm_set1_epi32(1023);
+        let v_cut_off = _mm_set1_epi16(1023);
 
         for ((chunk0, &bounds), weights) in dst
             .chunks_exact_mut(4)
-- 
2.43.0


From 757d07792813174978d531bfaff29d325ddb60e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 29/43] fix: SSE AR30 rows paired the taps of large kernels
 with the wrong pixels

---
 src/sse/u8_utils.rs | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/sse/u8_utils.rs b/src/sse/u8_utils.rs
index c01cfd1..8d0a865 100644
--- a/src/sse/u8_utils.rs
+++ b/src/sse/u8_utils.rs
@@ -284,27 +284,9 @@ pub(crate) unsafe fn _mm_unzips_4_ar30_separate<const AR30_TYPE: usize, const AR
     v: __m128i,
 ) -> (__m128i, __m128i) {
     let values = _mm_unzips_3_ar30::<AR30_TYPE, AR30_ORDER>(v);
-    let a0 = (
-        _mm_unpacklo_epi16(values.0, values.1),
-        _mm_unpackhi_epi16(values.0, values.1),
-    );
-    let a1 = (
-        _mm_unpacklo_epi16(values.2, values.3),
-        _mm_unpackhi_epi16(values.2, values.3),
-    );
-    let v1 = (
-        _mm_unpacklo_epi32(a0.0, a1.0),
-        _mm_unpackhi_epi32(a0.0, a1.0),
-    );
-    let v2 = (
-        _mm_unpacklo_epi32(a0.1, a1.1),
-        _mm_unpackhi_epi32(a0.1, a1.1),
-    );
-    let k0 = v1.0;
-    let k1 = v2.0;
-    let k2 = v1.1;
-    let k3 = v2.1;
-    (_mm_unpacklo_epi64(k0, k1), _mm_unpacklo_epi64(k2, k3))
+    let rg = _mm_unpacklo_epi16(values.0, values.1);
+    let ba = _mm_unpacklo_epi16(values.2, values.3);
+    (_mm_unpacklo_epi32(rg, ba), _mm_unpackhi_epi32(rg, ba))
 }
 
 #[inline(always)]
@@ -329,8 +311,8 @@ pub(crate) unsafe fn _mm_unzip_4_ar30_separate<const AR30_TYPE: usize, const AR3
         _mm_unpackhi_epi32(a0.1, a1.1),
     );
     let k0 = v1.0;
-    let k1 = v2.0;
-    let k2 = v1.1;
+    let k1 = v1.1;
+    let k2 = v2.0;
     let k3 = v2.1;
     (k0, k1, k2, k3)
 }
-- 
2.43.0


From dfdf769fd84a0eb2b0a8e179481378efa5f11743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 30/43] fix: SSE and AVX2 f16 alpha disassociation multiplied
 by alpha instead of dividing

---
 src/avx2/alpha_f16.rs | 12 ++++++------
 src/sse/alpha_f16.rs  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/avx2/alpha_f16.rs b/src/avx2/alpha_f16.rs
index 9cafee2..85632b6 100644
--- a/src/avx2/alpha_f16.rs
+++ b/src/avx2/alpha_f16.rs
@@ -174,17 +174,17 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
         let zeros = _mm256_setzero_ps();
         let low_alpha_zero_mask = _mm256_cmp_ps::<_CMP_EQ_OS>(low_alpha, zeros);
         let low_r = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.0)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.0)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_g = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.1)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.1)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_b = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.2)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.2)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
@@ -192,7 +192,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
         let high_alpha = _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.3));
         let high_alpha_zero_mask = _mm256_cmp_ps::<_CMP_EQ_OS>(high_alpha, zeros);
         let high_r = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.0)),
                 high_alpha,
             ),
@@ -200,7 +200,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
             high_alpha_zero_mask,
         );
         let high_g = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.1)),
                 high_alpha,
             ),
@@ -208,7 +208,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
             high_alpha_zero_mask,
         );
         let high_b = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.2)),
                 high_alpha,
             ),
diff --git a/src/sse/alpha_f16.rs b/src/sse/alpha_f16.rs
index e0c6195..b0e84c2 100644
--- a/src/sse/alpha_f16.rs
+++ b/src/sse/alpha_f16.rs
@@ -227,17 +227,17 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
         let zeros = _mm_setzero_ps();
         let low_alpha_zero_mask = _mm_cmpeq_ps(low_alpha, zeros);
         let low_r = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.0), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.0), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_g = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.1), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.1), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_b = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.2), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.2), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
@@ -245,7 +245,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
         let high_alpha = _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.3));
         let high_alpha_zero_mask = _mm_cmpeq_ps(high_alpha, zeros);
         let high_r = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.0)),
                 high_alpha,
             ),
@@ -253,7 +253,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
             high_alpha_zero_mask,
         );
         let high_g = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.1)),
                 high_alpha,
             ),
@@ -261,7 +261,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
             high_alpha_zero_mask,
         );
         let high_b = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.2)),
                 high_alpha,
             ),
-- 
2.43.0


From a70184a313213edbe2c6a710b26203fe72c1d9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 31/43] fix: colorspace scalers ignored the strides of the
 images

---
 src/colors/jzazbz_scaler.rs         | 10 ++++++----
 src/colors/lab_scaler.rs            | 10 ++++++----
 src/colors/lch_scaler.rs            | 10 ++++++----
 src/colors/linear_precise_scaler.rs | 10 ++++++----
 src/colors/linear_scaler.rs         | 10 ++++++----
 src/colors/luv_scaler.rs            | 10 ++++++----
 src/colors/oklab_scaler.rs          | 10 ++++++----
 src/colors/sigmoidal_scaler.rs      | 10 ++++++----
 src/colors/xyz_scaler.rs            | 10 ++++++----
 9 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/src/colors/jzazbz_scaler.rs b/src/colors/jzazbz_scaler.rs
index a4d344a..df536d6 100644
--- a/src/colors/jzazbz_scaler.rs
+++ b/src/colors/jzazbz_scaler.rs
@@ -64,7 +64,7 @@ impl JzazbzScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -88,11 +88,12 @@ impl JzazbzScaler {
         store: &ImageStoreMut<'a, f32, 4>,
         into: &mut ImageStoreMut<'a, u8, 4>,
     ) {
+        let into_stride = into.stride() as u32;
         jzazbz_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             self.display_luminance,
@@ -151,7 +152,7 @@ impl Scaling for JzazbzScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -176,11 +177,12 @@ impl Scaling for JzazbzScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         jzazbz_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.display_luminance,
diff --git a/src/colors/lab_scaler.rs b/src/colors/lab_scaler.rs
index cec1421..620eefb 100644
--- a/src/colors/lab_scaler.rs
+++ b/src/colors/lab_scaler.rs
@@ -54,7 +54,7 @@ impl LabScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lab_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -74,11 +74,12 @@ impl LabScaler {
     }
 
     fn laba_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride() as u32;
         lab_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -138,7 +139,7 @@ impl Scaling for LabScaler {
 
         rgb_to_lab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -162,11 +163,12 @@ impl Scaling for LabScaler {
 
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         lab_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/lch_scaler.rs b/src/colors/lch_scaler.rs
index db1b2d6..7383935 100644
--- a/src/colors/lch_scaler.rs
+++ b/src/colors/lch_scaler.rs
@@ -55,7 +55,7 @@ impl LChScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lch_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -75,11 +75,12 @@ impl LChScaler {
     }
 
     fn lcha_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride() as u32;
         lch_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -141,7 +142,7 @@ impl Scaling for LChScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_lch(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -166,11 +167,12 @@ impl Scaling for LChScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         lch_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 417c89b..735f942 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearScaler {
 
         rgb_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         linear_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -191,7 +192,7 @@ impl Scaling for LinearScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -215,11 +216,12 @@ impl Scaling for LinearScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         linear_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             TransferFunction::Srgb,
diff --git a/src/colors/linear_scaler.rs b/src/colors/linear_scaler.rs
index 7189346..26dfd87 100644
--- a/src/colors/linear_scaler.rs
+++ b/src/colors/linear_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearApproxScaler {
 
         rgb_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgb(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride() as u32;
         linear_u8_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -195,7 +196,7 @@ impl Scaling for LinearApproxScaler {
 
         rgba_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -218,11 +219,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgba(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride() as u32;
         linear_u8_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/luv_scaler.rs b/src/colors/luv_scaler.rs
index a1df0c8..b52e449 100644
--- a/src/colors/luv_scaler.rs
+++ b/src/colors/luv_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_luv(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -129,11 +129,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         luv_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -183,7 +184,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_luv_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -208,11 +209,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         luv_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/oklab_scaler.rs b/src/colors/oklab_scaler.rs
index b74f7c4..7541a7f 100644
--- a/src/colors/oklab_scaler.rs
+++ b/src/colors/oklab_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -128,11 +128,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         oklab_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -181,7 +182,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -205,11 +206,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         oklab_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/sigmoidal_scaler.rs b/src/colors/sigmoidal_scaler.rs
index bf9b963..48d54c5 100644
--- a/src/colors/sigmoidal_scaler.rs
+++ b/src/colors/sigmoidal_scaler.rs
@@ -100,7 +100,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -123,11 +123,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         sigmoidal_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -175,7 +176,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -198,11 +199,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         sigmoidal_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/xyz_scaler.rs b/src/colors/xyz_scaler.rs
index ae8a32e..2e307da 100644
--- a/src/colors/xyz_scaler.rs
+++ b/src/colors/xyz_scaler.rs
@@ -105,7 +105,7 @@ impl Scaling for XYZScaler {
 
         srgb_to_xyz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -127,11 +127,12 @@ impl Scaling for XYZScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         xyz_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -180,7 +181,7 @@ impl Scaling for XYZScaler {
 
         rgba_to_xyz_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -204,11 +205,12 @@ impl Scaling for XYZScaler {
             .resize_rgba_f32(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         xyz_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
-- 
2.43.0


From 1f51dee16822f5c6dbdb5143813f916aae00bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 32/43] fix: LinearScaler ignored its transfer function for
 RGBA

---
 src/colors/linear_precise_scaler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 735f942..7f52731 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -197,7 +197,7 @@ impl Scaling for LinearScaler {
             lab_stride,
             lab_store.width as u32,
             lab_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         let new_immutable_store = ImageStore::<f32, COMPONENTS> {
@@ -224,7 +224,7 @@ impl Scaling for LinearScaler {
             into_stride,
             new_store.width as u32,
             new_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         Ok(())
-- 
2.43.0


From a52f7ffe53cdc1c01f95bdcbfcfe8130c80670e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 33/43] fix: copying an empty image store into another panicked

---
 src/image_store.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image_store.rs b/src/image_store.rs
index 42d2ad8..525e73c 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -436,6 +436,9 @@ where
     }
 
     pub fn copied_to_mut(&self, into: &mut ImageStoreMut<T, N>) {
+        if self.width == 0 || self.height == 0 {
+            return;
+        }
         let into_stride = into.stride();
         for (src_row, dst_row) in self
             .buffer
-- 
2.43.0


From 2aafdf0127e6a20850765db9fa7e35e9edfbd9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 34/43] fix: RGBA u8 rows called AVX2 code on CPUs without AVX2

---
 src/rgba_u8.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rgba_u8.rs b/src/rgba_u8.rs
index fc6c4a6..0336411 100644
--- a/src/rgba_u8.rs
+++ b/src/rgba_u8.rs
@@ -112,7 +112,8 @@ impl HorizontalConvolutionPass<u8, 4> for ImageStore<'_, u8, 4> {
         }
         #[cfg(all(target_arch = "x86_64", feature = "avx"))]
         {
-            if (std::arch::is_x86_feature_detected!("avx2") || _scale_factor < 8.)
+            if std::arch::is_x86_feature_detected!("avx2")
+                && _scale_factor < 8.
                 && _options.workload_strategy == crate::WorkloadStrategy::PreferSpeed
             {
                 _dispatcher_4_rows = Some(convolve_horizontal_rgba_avx_rows_4_lb);
-- 
2.43.0


From d807e52c375184628a378df03b805495d3b48488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 35/43] fix: f16 conversion for CPUs without F16C dropped signs
 and infinities

---
 src/sse/f16_utils.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/sse/f16_utils.rs b/src/sse/f16_utils.rs
index f0e78e2..d934904 100644
--- a/src/sse/f16_utils.rs
+++ b/src/sse/f16_utils.rs
@@ -108,11 +108,17 @@ unsafe fn _mm_cvtph_ps_fallback(k: __m128i) -> __m128 {
     let v = _mm_srli_epi32::<23>(_mm_castps_si128(_mm_cvtepi32_ps(mantissa)));
     let j1 = _mm_slli_epi32::<16>(_mm_and_si128(h, _mm_set1_epi32(0x8000)));
     let is_exp_zero = _mm_cmpeq_epi32(exp, _mm_setzero_si128());
+    // Infinities and NaN keep the largest exponent
+    let rebias = _mm_select_epi32(
+        _mm_cmpeq_epi32(exp, _mm_set1_epi32(31)),
+        _mm_set1_epi32(224),
+        _mm_set1_epi32(112),
+    );
     let j2 = _mm_select_epi32(
         is_exp_zero,
         _mm_setzero_si128(),
         _mm_or_si128(
-            _mm_slli_epi32::<23>(_mm_add_epi32(exp, _mm_set1_epi32(112))),
+            _mm_slli_epi32::<23>(_mm_add_epi32(exp, rebias)),
             mantissa,
         ),
     );
@@ -136,7 +142,12 @@ unsafe fn _mm_cvtph_ps_fallback(k: __m128i) -> __m128 {
 **/
 #[inline]
 unsafe fn _mm_cvtps_ph_fallback(x: __m128) -> __m128i {
-    let b = _mm_add_epi32(_mm_castps_si128(x), _mm_set1_epi32(0x00001000));
+    let bits = _mm_castps_si128(x);
+    let sign = _mm_srli_epi32::<16>(_mm_and_si128(bits, _mm_set1_epi32(i32::MIN)));
+    let b = _mm_add_epi32(
+        _mm_and_si128(bits, _mm_set1_epi32(i32::MAX)),
+        _mm_set1_epi32(0x00001000),
+    );
     let e = _mm_srli_epi32::<23>(_mm_and_si128(b, _mm_set1_epi32(0x7F800000)));
     let m = _mm_and_si128(b, _mm_set1_epi32(0x007FFFFF));
 
@@ -166,15 +177,18 @@ unsafe fn _mm_cvtps_ph_fallback(x: __m128) -> __m128i {
         v2,
         _mm_setzero_si128(),
     );
-    let sat = _mm_mullo_epi32(
-        _mm_select_epi32(
-            _mm_cmpgt_epi32(e, _mm_set1_epi32(143)),
-            _mm_set1_epi32(1),
-            _mm_setzero_si128(),
-        ),
-        _mm_set1_epi32(0x7FFF),
+    // Values beyond the range are infinite
+    let finite = _mm_select_epi32(
+        _mm_cmpgt_epi32(e, _mm_set1_epi32(142)),
+        _mm_set1_epi32(0x7C00),
+        _mm_or_si128(j1, j2),
+    );
+    let magnitude = _mm_select_epi32(
+        _mm_castps_si128(_mm_cmpunord_ps(x, x)),
+        _mm_set1_epi32(0x7E00),
+        finite,
     );
-    let packed_32 = _mm_or_si128(_mm_or_si128(j1, j2), sat);
+    let packed_32 = _mm_or_si128(sign, magnitude);
     _mm_packus_epi32(packed_32, _mm_setzero_si128())
 }
 
-- 
2.43.0


From 33b4968f59fae1f2345ae4fcd893e5f59821789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 36/43] fix: sizes whose sample count or stride overflows were
 not refused

---
 src/image_store.rs | 39 +++++++++++++++++++++++++--------------
 src/resize_ar30.rs |  8 ++++++--
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 525e73c..58feb74 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -33,6 +33,7 @@ use crate::alpha_handle_f32::{premultiply_alpha_rgba_f32, unpremultiply_alpha_rg
 use crate::alpha_handle_u16::{premultiply_alpha_rgba_u16, unpremultiply_alpha_rgba_u16};
 use crate::alpha_handle_u8::{premultiply_alpha_rgba, unpremultiply_alpha_rgba};
 use crate::pic_scale_error::{PicScaleBufferMismatch, PicScaleError};
+use crate::support::check_image_size_overflow;
 use crate::ImageSize;
 #[cfg(feature = "nightly_f16")]
 use core::f16;
@@ -131,8 +132,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -156,8 +157,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -219,8 +220,13 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
+        if check_image_size_overflow(self.width, self.height, N)
+            || check_image_size_overflow(self.stride(), self.height, 1)
+        {
+            return Err(PicScaleError::DestinationImageIsTooLarge);
+        }
         let expected_size = self.stride() * self.height;
-        if self.buffer.borrow().len() != self.stride() * self.height {
+        if self.buffer.borrow().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
@@ -241,8 +247,13 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
+        if check_image_size_overflow(self.width, self.height, N)
+            || check_image_size_overflow(self.stride(), self.height, 1)
+        {
+            return Err(PicScaleError::SourceImageIsTooLarge);
+        }
         let expected_size = self.stride() * self.height;
-        if self.buffer.as_ref().len() != self.stride() * self.height {
+        if self.buffer.as_ref().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
@@ -270,8 +281,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -298,8 +309,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -404,8 +415,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -475,8 +486,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index afb3f0a..36ca347 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -48,11 +48,15 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         return Err(PicScaleError::ZeroImageDimensions);
     }
 
-    if check_image_size_overflow(src_size.width, src_size.height, 4) {
+    if check_image_size_overflow(src_size.width, src_size.height, 4)
+        || check_image_size_overflow(src_stride, src_size.height, 1)
+    {
         return Err(PicScaleError::SourceImageIsTooLarge);
     }
 
-    if check_image_size_overflow(dst_size.width, dst_size.height, 4) {
+    if check_image_size_overflow(dst_size.width, dst_size.height, 4)
+        || check_image_size_overflow(dst_stride, dst_size.height, 1)
+    {
         return Err(PicScaleError::DestinationImageIsTooLarge);
     }
 
-- 
2.43.0


From 9bccc7355024ec1301a4c823e40a109227549b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 37/43] fix: the adaptive thread count overflowed for very
 large sizes

---
 src/threading_policy.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/threading_policy.rs b/src/threading_policy.rs
index a83ec59..a67ce57 100644
--- a/src/threading_policy.rs
+++ b/src/threading_policy.rs
@@ -58,7 +58,8 @@ impl ThreadingPolicy {
         match self {
             ThreadingPolicy::Single => 1,
             ThreadingPolicy::Fixed(thread_count) => (*thread_count).max(1),
-            ThreadingPolicy::Adaptive => (for_size.width * for_size.height / (256 * 256))
+            ThreadingPolicy::Adaptive => (for_size.width.saturating_mul(for_size.height)
+                / (256 * 256))
                 .clamp(1, Self::available_parallelism()),
         }
     }
-- 
2.43.0


From e1f348517e3b85fd7ee72b54d90a57658b16994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 38/43] fix: half-float height resize without SIMD converted
 the whole source for every row

---
 src/f16.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/f16.rs b/src/f16.rs
index df118df..8eb7904 100644
--- a/src/f16.rs
+++ b/src/f16.rs
@@ -211,7 +211,13 @@ fn convolve_vertical_rgb_native_row_f16(
     src_stride: usize,
     weight: &[f32],
 ) {
-    let transient_src = src.iter().map(|&x| x as f32).collect::<Vec<f32>>();
+    // only the rows under the filter are needed
+    let rows_end = ((bounds.start + bounds.size) * src_stride).min(src.len());
+    let transient_src = src[bounds.start * src_stride..rows_end]
+        .iter()
+        .map(|&x| x as f32)
+        .collect::<Vec<f32>>();
+    let bounds = &FilterBounds::new(0, bounds.size);
     let mut transient_dst = vec![0f32; dst.len()];
     column_handler_floating_point::<f32, f32, f32>(
         bounds,
-- 
2.43.0


From 3b22c86dbf9fbdadb6be223baee3be5c1fc7cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:45 +0000
Subject: [PATCH 39/43] fix: the precision of plane u8 rows was chosen by the
 ratio of the heights

---
 src/plane_u8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plane_u8.rs b/src/plane_u8.rs
index 68da74d..0648e99 100644
--- a/src/plane_u8.rs
+++ b/src/plane_u8.rs
@@ -56,7 +56,7 @@ impl HorizontalConvolutionPass<u8, 1> for ImageStore<'_, u8, 1> {
         _pool: &Option<ThreadPool>,
         _options: ConvolutionOptions,
     ) {
-        let _scale_factor = self.height as f32 / destination.height as f32;
+        let _scale_factor = self.width as f32 / destination.width as f32;
         let mut _dispatcher_4_rows: Option<
             fn(&[u8], usize, &mut [u8], usize, &FilterWeights<i16>),
         > = Some(handle_fixed_rows_4_u8::<1>);
-- 
2.43.0


From 9ff928414a9d25487d1df0f6abe2e49334d63bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:45 +0000
Subject: [PATCH 40/43] fix: rounding errors of fixed point weights added up in
 long kernels

---
 src/filter_weights.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/filter_weights.rs b/src/filter_weights.rs
index be308e8..443e7a4 100644
--- a/src/filter_weights.rs
+++ b/src/filter_weights.rs
@@ -100,17 +100,20 @@ impl FilterWeights<f32> {
         let lower_bound = J::min_value().as_();
         let upper_bound = J::max_value().as_();
 
-        for (chunk, kernel_chunk) in self
+        for ((chunk, kernel_chunk), bounds) in self
             .weights
             .chunks_exact(self.kernel_size)
             .zip(output_kernel.chunks_exact_mut(align))
+            .zip(self.bounds.iter())
         {
-            for (&weight, kernel) in chunk.iter().zip(kernel_chunk) {
-                *kernel = (weight * precision_scale)
-                    .round()
-                    .min(upper_bound)
-                    .max(lower_bound)
-                    .as_();
+            // The rounding error of each weight is carried to the next one, otherwise the errors of
+            // a long kernel add up and its weights are no longer a partition of one.
+            let mut carry = 0f32;
+            for (&weight, kernel) in chunk.iter().zip(kernel_chunk).take(bounds.size) {
+                let scaled = weight * precision_scale + carry;
+                let rounded = scaled.round();
+                carry = scaled - rounded;
+                *kernel = rounded.min(upper_bound).max(lower_bound).as_();
             }
         }
 
-- 
2.43.0


From c65d785ccbc13c2c1b728060bf33549fad6fb457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:09 +0000
Subject: [PATCH 41/43] fix: taps above one saturated fixed point weights

The 16 bit fixed point weights end at one. Sharpening kernels and renormalised
border rows have greater ones: they were clamped, so that the weights did not
add up and flat images changed near their borders. Samples with such a weight
are computed in floating point.
---
 src/dispatch_group_ar30.rs         | 32 +++++++++++++++++-
 src/dispatch_group_u16.rs          | 37 ++++++++++++++++++++
 src/dispatch_group_u8.rs           | 34 +++++++++++++++++++
 src/filter_weights.rs              | 54 ++++++++++++++++++++++++++++++
 src/fixed_point_horizontal_ar30.rs | 24 +++++++++++++
 src/floating_point_horizontal.rs   | 19 +++++++++++
 6 files changed, 199 insertions(+), 1 deletion(-)

diff --git a/src/dispatch_group_ar30.rs b/src/dispatch_group_ar30.rs
index 761ddae..ededdaa 100644
--- a/src/dispatch_group_ar30.rs
+++ b/src/dispatch_group_ar30.rs
@@ -30,7 +30,8 @@
 use crate::convolution::ConvolutionOptions;
 use crate::filter_weights::{FilterBounds, FilterWeights};
 use crate::fixed_point_horizontal_ar30::{
-    convolve_row_handler_fixed_point_4_ar30, convolve_row_handler_fixed_point_ar30,
+    convolve_pixel_floating_point_ar30, convolve_row_handler_fixed_point_4_ar30,
+    convolve_row_handler_fixed_point_ar30,
 };
 use crate::fixed_point_vertical_ar30::column_handler_fixed_point_ar30;
 use crate::support::PRECISION;
@@ -193,6 +194,15 @@ pub(crate) fn convolve_horizontal_dispatch_ar30<const AR30_TYPE: usize, const AR
                 _dispatch(src, dst, &approx);
             });
     }
+    filter_weights.convolve_exceeding_columns(
+        src,
+        src_stride,
+        dst,
+        dst_stride,
+        4,
+        pool,
+        convolve_pixel_floating_point_ar30::<AR30_TYPE, AR30_ORDER>,
+    );
 }
 
 pub(crate) fn convolve_vertical_dispatch_ar30<const AR30_TYPE: usize, const AR30_ORDER: usize>(
@@ -262,6 +272,16 @@ pub(crate) fn convolve_vertical_dispatch_ar30<const AR30_TYPE: usize, const AR30
                     }
 
                     let row = &mut row[0..4 * width];
+                    if filter_weights.exceeds_fixed_point(y) {
+                        let weights = &filter_weights.weights[filter_offset..][..bounds.size];
+                        for (x, dst) in row.chunks_exact_mut(4).enumerate() {
+                            let src = &src[bounds.start * src_stride + x * 4..];
+                            convolve_pixel_floating_point_ar30::<AR30_TYPE, AR30_ORDER>(
+                                src, src_stride, weights, dst,
+                            );
+                        }
+                        return;
+                    }
                     _dispatch(&bounds, src, row, src_stride, weights);
                 });
         });
@@ -315,6 +335,16 @@ pub(crate) fn convolve_vertical_dispatch_ar30<const AR30_TYPE: usize, const AR30
                 }
 
                 let row = &mut row[0..4 * width];
+                if filter_weights.exceeds_fixed_point(y) {
+                    let weights = &filter_weights.weights[filter_offset..][..bounds.size];
+                    for (x, dst) in row.chunks_exact_mut(4).enumerate() {
+                        let src = &src[bounds.start * src_stride + x * 4..];
+                        convolve_pixel_floating_point_ar30::<AR30_TYPE, AR30_ORDER>(
+                            src, src_stride, weights, dst,
+                        );
+                    }
+                    return;
+                }
                 _dispatch(&bounds, src, row, src_stride, weights);
             });
     }
diff --git a/src/dispatch_group_u16.rs b/src/dispatch_group_u16.rs
index fb2ada7..d628943 100644
--- a/src/dispatch_group_u16.rs
+++ b/src/dispatch_group_u16.rs
@@ -33,6 +33,7 @@ use crate::cpu_features::is_aarch_f16_supported;
 use crate::filter_weights::{
     DefaultWeightsConverter, FilterBounds, FilterWeights, WeightsConverter,
 };
+use crate::floating_point_horizontal::convolve_sample_floating_point;
 use crate::handler_provider::{
     ColumnHandlerFixedPoint, ColumnHandlerFloatingPoint, RowHandlerFixedPoint,
     RowHandlerFloatingPoint,
@@ -157,6 +158,20 @@ pub(crate) fn convolve_horizontal_dispatch_u16<const CHANNELS: usize>(
                 u16::handle_fixed_row::<i32, CHANNELS>(src, dst, &approx, bit_depth as u32);
             });
     }
+
+    if bit_depth <= 12 {
+        filter_weights.convolve_exceeding_columns(
+            src,
+            src_stride,
+            destination.buffer.borrow_mut(),
+            dst_stride,
+            CHANNELS,
+            pool,
+            |src, step, weights, dst| {
+                convolve_sample_floating_point(src, step, weights, dst, bit_depth as u32)
+            },
+        );
+    }
 }
 
 pub(crate) fn convolve_vertical_dispatch_u16<const COMPONENTS: usize>(
@@ -394,6 +409,17 @@ fn execute_low_precision_row<const COMPONENTS: usize>(
                 let filter_offset = y * filter_weights.aligned_size;
                 let weights = &approx.weights[filter_offset..];
                 let source_buffer = image_store.buffer.as_ref();
+                if filter_weights.exceeds_fixed_point(y) {
+                    return u16::handle_floating_column(
+                        dst_width,
+                        &bounds,
+                        source_buffer,
+                        &mut row[..dst_width * COMPONENTS],
+                        src_stride,
+                        &filter_weights.weights[filter_offset..],
+                        bit_depth as u32,
+                    );
+                }
                 handler.handle_fixed_column(
                     dst_width,
                     &bounds,
@@ -413,6 +439,17 @@ fn execute_low_precision_row<const COMPONENTS: usize>(
                 let filter_offset = y * filter_weights.aligned_size;
                 let weights = &approx.weights[filter_offset..];
                 let source_buffer = image_store.buffer.as_ref();
+                if filter_weights.exceeds_fixed_point(y) {
+                    return u16::handle_floating_column(
+                        dst_width,
+                        &bounds,
+                        source_buffer,
+                        &mut row[..dst_width * COMPONENTS],
+                        src_stride,
+                        &filter_weights.weights[filter_offset..],
+                        bit_depth as u32,
+                    );
+                }
                 handler.handle_fixed_column(
                     dst_width,
                     &bounds,
diff --git a/src/dispatch_group_u8.rs b/src/dispatch_group_u8.rs
index 32f52d4..dc6fab7 100644
--- a/src/dispatch_group_u8.rs
+++ b/src/dispatch_group_u8.rs
@@ -27,6 +27,8 @@
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 use crate::filter_weights::{FilterBounds, FilterWeights, WeightsConverter};
+use crate::floating_point_horizontal::convolve_sample_floating_point;
+use crate::handler_provider::ColumnHandlerFloatingPoint;
 use crate::image_store::ImageStoreMut;
 use crate::ImageStore;
 use rayon::iter::{IndexedParallelIterator, ParallelIterator};
@@ -96,6 +98,16 @@ pub(crate) fn convolve_horizontal_dispatch_u8<V: Send + Sync, const CHANNELS: us
                 dispatcher_1_row(src, dst, &approx_weights);
             });
     }
+
+    filter_weights.convolve_exceeding_columns(
+        src,
+        src_stride,
+        destination.buffer.borrow_mut(),
+        dst_stride,
+        CHANNELS,
+        pool,
+        |src, step, weights, dst| convolve_sample_floating_point(src, step, weights, dst, 8),
+    );
 }
 
 #[allow(clippy::type_complexity)]
@@ -124,6 +136,17 @@ pub(crate) fn convolve_vertical_dispatch_u8<'a, V: Copy + Send + Sync, const COM
                     let filter_offset = y * filter_weights.aligned_size;
                     let weights = &approx.weights[filter_offset..];
                     let source_buffer = image_store.buffer.as_ref();
+                    if filter_weights.exceeds_fixed_point(y) {
+                        return u8::handle_floating_column(
+                            dst_width,
+                            &bounds,
+                            source_buffer,
+                            &mut row[..dst_width * COMPONENTS],
+                            src_stride,
+                            &filter_weights.weights[filter_offset..],
+                            8,
+                        );
+                    }
                     dispatcher(
                         dst_width,
                         &bounds,
@@ -145,6 +168,17 @@ pub(crate) fn convolve_vertical_dispatch_u8<'a, V: Copy + Send + Sync, const COM
                 let filter_offset = y * filter_weights.aligned_size;
                 let weights = &approx.weights[filter_offset..];
                 let source_buffer = image_store.buffer.as_ref();
+                if filter_weights.exceeds_fixed_point(y) {
+                    return u8::handle_floating_column(
+                        dst_width,
+                        &bounds,
+                        source_buffer,
+                        &mut row[..dst_width * COMPONENTS],
+                        src_stride,
+                        &filter_weights.weights[filter_offset..],
+                        8,
+                    );
+                }
                 dispatcher(
                     dst_width,
                     &bounds,
diff --git a/src/filter_weights.rs b/src/filter_weights.rs
index 443e7a4..81baf08 100644
--- a/src/filter_weights.rs
+++ b/src/filter_weights.rs
@@ -26,7 +26,11 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+use crate::support::PRECISION;
 use num_traits::{AsPrimitive, Bounded};
+use rayon::iter::{IndexedParallelIterator, ParallelIterator};
+use rayon::prelude::{ParallelSlice, ParallelSliceMut};
+use rayon::ThreadPool;
 
 #[derive(Debug, Clone)]
 pub(crate) struct FilterWeights<T> {
@@ -71,6 +75,56 @@ impl<T> FilterWeights<T> {
 }
 
 impl FilterWeights<f32> {
+    /// Fixed point weights end at one, a sample that needs a greater one has to be computed in
+    /// floating point.
+    pub(crate) fn exceeds_fixed_point(&self, sample: usize) -> bool {
+        let scale = (1 << PRECISION) as f32;
+        let start = sample * self.aligned_size;
+        self.weights[start..start + self.bounds[sample].size]
+            .iter()
+            .any(|weight| (weight * scale).round().abs() > scale)
+    }
+
+    /// Computes in floating point the samples of a row that exceed the fixed point.
+    /// `convolve` gets the taps of a sample, the distance between them, their weights and the result.
+    pub(crate) fn convolve_exceeding_columns<T: Copy + Send + Sync>(
+        &self,
+        src: &[T],
+        src_stride: usize,
+        dst: &mut [T],
+        dst_stride: usize,
+        channels: usize,
+        pool: &Option<ThreadPool>,
+        convolve: impl Fn(&[T], usize, &[f32], &mut [T]) + Sync,
+    ) {
+        let columns = (0..self.bounds.len())
+            .filter(|&x| self.exceeds_fixed_point(x))
+            .collect::<Vec<usize>>();
+        if columns.is_empty() {
+            return;
+        }
+        let row_handler = |(dst, src): (&mut [T], &[T])| {
+            for &x in columns.iter() {
+                let bounds = self.bounds[x];
+                let weights = &self.weights[x * self.aligned_size..][..bounds.size];
+                let src = &src[bounds.start * channels..];
+                let dst = &mut dst[x * channels..(x + 1) * channels];
+                convolve(src, channels, weights, dst);
+            }
+        };
+        if let Some(pool) = pool {
+            pool.install(|| {
+                dst.par_chunks_exact_mut(dst_stride)
+                    .zip(src.par_chunks_exact(src_stride))
+                    .for_each(row_handler);
+            });
+        } else {
+            dst.chunks_exact_mut(dst_stride)
+                .zip(src.chunks_exact(src_stride))
+                .for_each(row_handler);
+        }
+    }
+
     pub(crate) fn numerical_approximation_i16<const PRECISION: i32>(
         &self,
         alignment: usize,
diff --git a/src/fixed_point_horizontal_ar30.rs b/src/fixed_point_horizontal_ar30.rs
index 7195955..7fdab2b 100644
--- a/src/fixed_point_horizontal_ar30.rs
+++ b/src/fixed_point_horizontal_ar30.rs
@@ -27,11 +27,35 @@
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #![forbid(unsafe_code)]
+use crate::ar30::Rgb30;
 use crate::color_group::{load_ar30, load_ar30_p, load_ar30_with_offset, ColorGroup};
 use crate::filter_weights::FilterWeights;
 use crate::support::ROUNDING_CONST;
 use num_traits::AsPrimitive;
 
+/// Computes one pixel of taps that are `step` bytes apart in floating point
+pub(crate) fn convolve_pixel_floating_point_ar30<
+    const AR30_TYPE: usize,
+    const AR30_ORDER: usize,
+>(
+    src: &[u8],
+    step: usize,
+    weights: &[f32],
+    dst: &mut [u8],
+) {
+    let ar30_type: Rgb30 = AR30_TYPE.into();
+    let mut sums = [0f32; 3];
+    for (&weight, src) in weights.iter().zip(src.chunks(step)) {
+        let pixel = u32::from_ne_bytes([src[0], src[1], src[2], src[3]]);
+        let (r, g, b, _) = ar30_type.unpack::<AR30_ORDER>(pixel);
+        sums[0] += r as f32 * weight;
+        sums[1] += g as f32 * weight;
+        sums[2] += b as f32 * weight;
+    }
+    let [r, g, b] = sums.map(|sum| sum.round().max(0.).min(1023.) as i32);
+    dst.copy_from_slice(&ar30_type.pack_w_a::<AR30_ORDER>(r, g, b, 3).to_ne_bytes());
+}
+
 #[inline(always)]
 pub(crate) fn convolve_row_handler_fixed_point_ar30<
     const AR30_TYPE: usize,
diff --git a/src/floating_point_horizontal.rs b/src/floating_point_horizontal.rs
index 9fc80c4..3f9a887 100644
--- a/src/floating_point_horizontal.rs
+++ b/src/floating_point_horizontal.rs
@@ -34,6 +34,25 @@ use crate::mixed_storage::MixedStorage;
 use num_traits::{AsPrimitive, Float, MulAdd};
 use std::ops::{Add, Mul};
 
+/// Computes one sample of taps that are `step` apart
+pub(crate) fn convolve_sample_floating_point<T: Copy + 'static + AsPrimitive<f32>>(
+    src: &[T],
+    step: usize,
+    weights: &[f32],
+    dst: &mut [T],
+    bit_depth: u32,
+) where
+    f32: MixedStorage<T>,
+{
+    for (c, dst) in dst.iter_mut().enumerate() {
+        let sum = weights
+            .iter()
+            .zip(src[c..].iter().step_by(step))
+            .fold(0f32, |sum, (&weight, &src)| sum + src.as_() * weight);
+        *dst = sum.to_mixed(bit_depth);
+    }
+}
+
 #[inline(always)]
 /// # Generics
 /// `T` - template buffer type
-- 
2.43.0


From 029ce8d345ca7e505952ffe23bb2ca10418bc851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:58 +0000
Subject: [PATCH 42/43] fix: round ties in the tail of SSE u16 columns as the
 vector loops do

---
 src/sse/vertical_u16.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index be6db82..54b27e4 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -408,6 +408,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
             }
         }
 
-        *dst = store0.round().max(0.).min(max_colors as f32) as u16;
+        // the vector loops round ties to even too
+        *dst = store0.round_ties_even().max(0.).min(max_colors as f32) as u16;
     }
 }
-- 
2.43.0


From a808146261ba86792b4370734abbb9aef5a2271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:01 +0000
Subject: [PATCH 43/43] Revert "fix: round ties in the tail of SSE u16 columns
 as the vector loops do"

The columns of 16-bit rows differ within the rounding of single precision sums anyway: no property is broken.
---
 src/sse/vertical_u16.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 54b27e4..be6db82 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -408,7 +408,6 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
             }
         }
 
-        // the vector loops round ties to even too
-        *dst = store0.round_ties_even().max(0.).min(max_colors as f32) as u16;
+        *dst = store0.round().max(0.).min(max_colors as f32) as u16;
     }
 }
-- 
2.43.0

