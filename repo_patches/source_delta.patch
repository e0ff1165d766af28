From e93baf4963bae5828711de1165b4d5ae3a47a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 001/101] fix: rotate (u,v,w) with the full rotation between
 phase centres

---
 .../visibility/sdp_phase_rotate.cpp           | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
index 9803612..debb8c8 100644
--- a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
+++ b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
@@ -117,21 +117,29 @@ void sdp_phase_rotate_uvw(
     );
     if (*status) return;
 
-    // Rotate by -delta_ra around v, then delta_dec around u.
+    // Rotate from the (u,v,w) frame of the original phase centre
+    // to that of the new phase centre.
     const double orig_ra_rad = sdp_sky_coord_value(phase_centre_orig, 0);
     const double orig_dec_rad = sdp_sky_coord_value(phase_centre_orig, 1);
     const double new_ra_rad = sdp_sky_coord_value(phase_centre_new, 0);
     const double new_dec_rad = sdp_sky_coord_value(phase_centre_new, 1);
     const double d_a = -(new_ra_rad - orig_ra_rad);
-    const double d_d = (new_dec_rad - orig_dec_rad);
     const double sin_d_a = sin(d_a);
     const double cos_d_a = cos(d_a);
-    const double sin_d_d = sin(d_d);
-    const double cos_d_d = cos(d_d);
+    const double sin_dec0 = sin(orig_dec_rad);
+    const double cos_dec0 = cos(orig_dec_rad);
+    const double sin_dec  = sin(new_dec_rad);
+    const double cos_dec  = cos(new_dec_rad);
     double mat[9];
-    mat[0] =  cos_d_a;           mat[1] = 0.0;     mat[2] =  sin_d_a;
-    mat[3] =  sin_d_a * sin_d_d; mat[4] = cos_d_d; mat[5] = -cos_d_a * sin_d_d;
-    mat[6] = -sin_d_a * cos_d_d; mat[7] = sin_d_d; mat[8] =  cos_d_a * cos_d_d;
+    mat[0] = cos_d_a;
+    mat[1] = -sin_d_a * sin_dec0;
+    mat[2] = sin_d_a * cos_dec0;
+    mat[3] = sin_d_a * sin_dec;
+    mat[4] = cos_d_a * sin_dec * sin_dec0 + cos_dec * cos_dec0;
+    mat[5] = -cos_d_a * sin_dec * cos_dec0 + cos_dec * sin_dec0;
+    mat[6] = -sin_d_a * cos_dec;
+    mat[7] = -cos_d_a * cos_dec * sin_dec0 + sin_dec * cos_dec0;
+    mat[8] = cos_d_a * cos_dec * cos_dec0 + sin_dec * sin_dec0;
 
     // Switch on location and data types.
     const int64_t num_total = num_times * num_baselines;
-- 
2.43.0


From 42970eadd6b257f7b5251c19867373b70e57bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 002/101] fix: skip visibilities at negative grid indices in
 weighting

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 18 ++++++++++++++----
 src/ska-sdp-func/visibility/sdp_weighting.cu  |  8 ++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index c8e4788..ca2f256 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -50,7 +50,11 @@ static void weights_grid_write(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                if (idx_u < 0 || idx_u >= grid_size ||
+                        idx_v < 0 || idx_v >= grid_size)
+                {
+                    continue;
+                }
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -110,7 +114,11 @@ static void sum_weights_calc(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                if (idx_u < 0 || idx_u >= grid_size ||
+                        idx_v < 0 || idx_v >= grid_size)
+                {
+                    continue;
+                }
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -181,7 +189,8 @@ static void uniform_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_u < grid_size &&
+                        idx_v >= 0 && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
@@ -245,7 +254,8 @@ static void briggs_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_u < grid_size &&
+                        idx_v >= 0 && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cu b/src/ska-sdp-func/visibility/sdp_weighting.cu
index 9f529ad..a3847ce 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cu
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cu
@@ -57,7 +57,7 @@ __global__ void grid_write_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size && idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -138,7 +138,7 @@ __global__ void calc_sum_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size && idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -207,7 +207,7 @@ __global__ void grid_briggs_read_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size && idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -282,7 +282,7 @@ __global__ void grid_uniform_read_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size && idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
-- 
2.43.0


From fbac6fc3d4cf1337d8f7945a2bf2e6e247a21402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 003/101] fix: use the middle element as the median in the RFI
 flagger

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 6668977..d37fa29 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -82,7 +82,7 @@ static void filler(AA* arr, VL val, int length)
 
 static double median_calc(double* arr, int n)
 {
-    int mid = int(round(0.5 * n));
+    int mid = n / 2;
     double median = arr[mid];
     return median;
 }
@@ -90,7 +90,7 @@ static double median_calc(double* arr, int n)
 
 static double median_dev_calc(double* arr, int n, double median)
 {
-    int mid = int(round(0.5 * n));
+    int mid = n / 2;
     double* devs = new double[n];
     for (int i = 0; i < n; i++)
     {
-- 
2.43.0


From f7cc78a230042a0c8e76d9c08b06eb360652f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 004/101] fix: let the flagging window reach the first channel

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index d37fa29..5b2aad4 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -229,7 +229,7 @@ static void flagger_dynamic_threshold(
                             {
                                 for (int w = 0; w < window; w++)
                                 {
-                                    if (c - w - 1 > 0)
+                                    if (c - w - 1 >= 0)
                                     {
                                         pos = baseline_pos + (c - w - 1) *
                                                 num_pols + p;
@@ -314,7 +314,7 @@ static void flagger_dynamic_threshold(
                                 {
                                     for (int w = 0; w < window; w++)
                                     {
-                                        if (c - w - 1 > 0)
+                                        if (c - w - 1 >= 0)
                                         {
                                             pos = baseline_pos + (c - w - 1) *
                                                     num_pols + p;
-- 
2.43.0


From 0da04a635f0498ce0bfdb77428e08b3b0d3a3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 005/101] fix: start tile ranges at the first tile in u (CPU
 tiling)

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 26629dc..aa3875d 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -82,7 +82,7 @@ static void sdp_tile_count_simple(
                     int tile_v_max = 0;
 
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
@@ -187,7 +187,7 @@ static void sdp_bucket_sort_simple(
                     int tile_v_min = 0;
                     int tile_v_max = 0;
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
@@ -274,7 +274,7 @@ static void tiled_indexing(
                     int tile_v_min = 0;
                     int tile_v_max = 0;
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
-- 
2.43.0


From 3b612879d336fef55ac1a6c690bca7e5503bb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 006/101] fix: write sorted (u,v) in CPU tiled indexing

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index aa3875d..7b2265a 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -230,6 +230,8 @@ static void tiled_indexing(
         const int64_t top_left_u,
         const int64_t top_left_v,
         int* tile_offsets,
+        UVW_TYPE* sorted_uu,
+        UVW_TYPE* sorted_vv,
         int* sorted_vis_index,
         int* sorted_tile,
         const double cell_size_rad
@@ -285,6 +287,8 @@ static void tiled_indexing(
                         {
                             int off = tile_offsets[pu + pv * num_tiles_u];
                             tile_offsets[pu + pv * num_tiles_u] += 1;
+                            sorted_uu[off] = pos_u;
+                            sorted_vv[off] = pos_v;
                             for (int i = 0; i < num_pol; i++)
                             {
                                 sorted_vis_index[off] = i_vis + i;
@@ -778,6 +782,8 @@ void sdp_tiled_indexing(
                     top_left_u,
                     top_left_v,
                     (int*)sdp_mem_data(tile_offsets),
+                    (double*)sdp_mem_data(sorted_uu),
+                    (double*)sdp_mem_data(sorted_vv),
                     (int*)sdp_mem_data(sorted_vis_index),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
@@ -800,6 +806,8 @@ void sdp_tiled_indexing(
                     top_left_u,
                     top_left_v,
                     (int*)sdp_mem_data(tile_offsets),
+                    (float*)sdp_mem_data(sorted_uu),
+                    (float*)sdp_mem_data(sorted_vv),
                     (int*)sdp_mem_data(sorted_vis_index),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
-- 
2.43.0


From 3a847a8703c544b2d985f71795d8b2c677d6e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 007/101] fix: sort complex visibilities in CPU bucket sort

---
 .../visibility/sdp_tiled_functions.cpp        | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 7b2265a..7bd35a1 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -579,9 +579,11 @@ void sdp_bucket_sort(
     {
         if (uvw_type == SDP_MEM_DOUBLE &&
                 weight_type == SDP_MEM_DOUBLE &&
-                freq_type == SDP_MEM_DOUBLE)
+                freq_type == SDP_MEM_DOUBLE &&
+                vis_type == SDP_MEM_COMPLEX_DOUBLE &&
+                sdp_mem_type(sorted_vis) == SDP_MEM_COMPLEX_DOUBLE)
         {
-            sdp_bucket_sort_simple<double, double, double, double>(
+            sdp_bucket_sort_simple<double, double, std::complex<double>, double>(
                     support,
                     num_times,
                     num_baselines,
@@ -591,7 +593,7 @@ void sdp_bucket_sort(
                     inv_tile_size_v,
                     (const double*) sdp_mem_data_const(uvw),
                     (const double*)sdp_mem_data_const(freqs),
-                    (const double*)sdp_mem_data_const(vis),
+                    (const std::complex<double>*)sdp_mem_data_const(vis),
                     (const double*)sdp_mem_data_const(weights),
                     num_tiles_u,
                     top_left_u,
@@ -599,7 +601,7 @@ void sdp_bucket_sort(
                     (int*)sdp_mem_data(tile_offsets),
                     (double*)sdp_mem_data(sorted_uu),
                     (double*)sdp_mem_data(sorted_vv),
-                    (double*)sdp_mem_data(sorted_vis),
+                    (std::complex<double>*)sdp_mem_data(sorted_vis),
                     (double*)sdp_mem_data(sorted_weight),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
@@ -607,9 +609,11 @@ void sdp_bucket_sort(
         }
         else if (uvw_type == SDP_MEM_FLOAT &&
                 weight_type == SDP_MEM_FLOAT &&
-                freq_type == SDP_MEM_FLOAT)
+                freq_type == SDP_MEM_FLOAT &&
+                vis_type == SDP_MEM_COMPLEX_FLOAT &&
+                sdp_mem_type(sorted_vis) == SDP_MEM_COMPLEX_FLOAT)
         {
-            sdp_bucket_sort_simple<float, float, float, float>(
+            sdp_bucket_sort_simple<float, float, std::complex<float>, float>(
                     support,
                     num_times,
                     num_baselines,
@@ -619,7 +623,7 @@ void sdp_bucket_sort(
                     inv_tile_size_v,
                     (const float*) sdp_mem_data_const(uvw),
                     (const float*)sdp_mem_data_const(freqs),
-                    (const float*)sdp_mem_data_const(vis),
+                    (const std::complex<float>*)sdp_mem_data_const(vis),
                     (const float*)sdp_mem_data_const(weights),
                     num_tiles_u,
                     top_left_u,
@@ -627,7 +631,7 @@ void sdp_bucket_sort(
                     (int*)sdp_mem_data(tile_offsets),
                     (float*)sdp_mem_data(sorted_uu),
                     (float*)sdp_mem_data(sorted_vv),
-                    (float*)sdp_mem_data(sorted_vis),
+                    (std::complex<float>*)sdp_mem_data(sorted_vis),
                     (float*)sdp_mem_data(sorted_weight),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
-- 
2.43.0


From 3a920cf04bfb24911223d52b14c883c10df617d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 008/101] fix: count single-precision coordinates in CPU tiling

---
 .../visibility/sdp_tiled_functions.cpp        | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 7bd35a1..fe91785 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -388,15 +388,42 @@ void sdp_count_and_prefix_sum(
                     (int*)sdp_mem_data(num_points_in_tiles),
                     (int*)sdp_mem_data(num_skipped)
             );
-
-            sdp_prefix_sum(
-                    num_tiles,
-                    (const int*)sdp_mem_data_const(num_points_in_tiles),
-                    (int*)sdp_mem_data(tile_offsets)
+        }
+        else if (uvw_type == SDP_MEM_FLOAT &&
+                freq_type == SDP_MEM_FLOAT)
+        {
+            sdp_tile_count_simple(
+                    support,
+                    num_times,
+                    num_baselines,
+                    num_channels,
+                    grid_size,
+                    inv_tile_size_u,
+                    inv_tile_size_v,
+                    (const float*)sdp_mem_data_const(uvw),
+                    (const float*)sdp_mem_data_const(freqs),
+                    num_tiles_u,
+                    top_left_u,
+                    top_left_v,
+                    cell_size_rad,
+                    (int*)sdp_mem_data(num_points_in_tiles),
+                    (int*)sdp_mem_data(num_skipped)
             );
-
-            *num_visibilites = *((int*)sdp_mem_data(tile_offsets) + num_tiles);
         }
+        else
+        {
+            *status = SDP_ERR_DATA_TYPE;
+            SDP_LOG_ERROR("Unsupported data type(s)");
+            return;
+        }
+
+        sdp_prefix_sum(
+                num_tiles,
+                (const int*)sdp_mem_data_const(num_points_in_tiles),
+                (int*)sdp_mem_data(tile_offsets)
+        );
+
+        *num_visibilites = *((int*)sdp_mem_data(tile_offsets) + num_tiles);
     }
     else if (vis_location == SDP_MEM_GPU)
     {
-- 
2.43.0


From f252fda54e582f2e1741804d48fd72398821fc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 009/101] fix: use the padded size in CPU FFT convolution of
 odd-sized images

---
 .../numeric_functions/sdp_fft_convolution.cpp | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 65866b2..bdc9776 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -62,12 +62,11 @@ inline void sdp_pad_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t padded_cols
 )
 {
     int64_t i = 0, j = 0;
-    // int64_t padded_rows = rows + 2*pad_rows;
-    int64_t padded_cols = cols + 2 * pad_cols;
 
     for (i = 0; i < rows; i++)
     {
@@ -87,12 +86,12 @@ inline void sdp_remove_padding_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t original_rows,
+        int64_t original_cols
 )
 {
     int64_t i = 0, j = 0;
-    int64_t original_rows = rows - 2 * pad_rows;
-    int64_t original_cols = cols - 2 * pad_cols;
 
     for (i = 0; i < original_rows; i++)
     {
@@ -162,7 +161,9 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in1 = (pad_dim - in1_dim) / 2;
 
     // pad in1
-    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim, extra_in1, extra_in1);
+    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim,
+            extra_in1, extra_in1, pad_dim
+    );
 
     // create memory to save padded input in2
     sdp_Mem* in2_pad_mem = sdp_mem_create(data_type,
@@ -178,7 +179,9 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in2 = (pad_dim - in2_dim) / 2;
 
     // pad in2
-    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim, extra_in2, extra_in2);
+    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim,
+            extra_in2, extra_in2, pad_dim
+    );
 
     // get FFT of padded in1
     sdp_Fft* in1_fft_plan = sdp_fft_create(in1_pad_mem,
@@ -235,7 +238,9 @@ static void sdp_fft_convolution_cpu(
             pad_dim,
             pad_dim,
             extra_in1,
-            extra_in1
+            extra_in1,
+            in1_dim,
+            in1_dim
     );
 
     sdp_mem_ref_dec(in1_pad_mem);
-- 
2.43.0


From 9751f34cd9a5c44eabc4850d87d078678915c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 010/101] fix: wrap the crop of the FFT convolution when there
 is no padding

---
 .../numeric_functions/sdp_fft_convolution.cpp             | 8 ++++----
 src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index bdc9776..d52cbad 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -93,14 +93,14 @@ inline void sdp_remove_padding_2d(
 {
     int64_t i = 0, j = 0;
 
+    // The padding may be zero, so wrap the index of the first row and column.
     for (i = 0; i < original_rows; i++)
     {
+        const int64_t i_pad = (i + pad_rows - 1 + rows) % rows;
         for (j = 0; j < original_cols; j++)
         {
-            data[i * original_cols +
-                    j] =
-                    padded_data[(i + (pad_rows - 1)) * cols +
-                            (j + (pad_cols - 1))];
+            const int64_t j_pad = (j + pad_cols - 1 + cols) % cols;
+            data[i * original_cols + j] = padded_data[i_pad * cols + j_pad];
         }
     }
 }
diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu
index ccf3650..0c742cd 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu
@@ -176,9 +176,10 @@ __global__ void remove_padding_2D_gpu(
 
     if (i < original_rows && j < original_cols)
     {
-        data[i * original_cols +
-                j] =
-                padded_data[(i + (pad_rows - 1)) * cols + (j + (pad_cols - 1))];
+        // The padding may be zero, so wrap the index.
+        const int64_t i_pad = (i + pad_rows - 1 + rows) % rows;
+        const int64_t j_pad = (j + pad_cols - 1 + cols) % cols;
+        data[i * original_cols + j] = padded_data[i_pad * cols + j_pad];
     }
 }
 
-- 
2.43.0


From 5baac290f4bd175ce7e7e8cc48a1881b7aa6231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 011/101] fix: fill all elements of odd-sized PSWF arrays

---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 8d3bb47..7b7e35d 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -586,7 +586,7 @@ static inline void generate_pswf(
     pswf_(size / 2) = sdp_pswf_aswfa(m, m, c, ck, 0);
 
     // Get remaining values
-    for (int i = 1; i < size / 2; i++)
+    for (int i = 1; i <= (size - 1) / 2; i++)
     {
         // Get value (plus derivative)
         const double x = 2 * ((double)i) / size;
-- 
2.43.0


From 755ff62938da25565388ad687601d634518aecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 012/101] fix: initialise PSWF expansion coefficients

---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 7b7e35d..9115b4e 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -632,7 +632,7 @@ sdp_Pswf* sdp_pswf_create(int m, double c)
     pswf_segv(&plan->m, &n, &plan->c, &kd, &cv, eg);
 
     // Calculate expansion coefficients
-    double df[200];
+    double df[200] = {0.0};
     pswf_sdmn(&plan->m, &n, &plan->c, &cv, &kd, df);
     pswf_sckb(plan->m, n, plan->c, df, plan->coeff_p);
     return plan;
-- 
2.43.0


From c49aba1981f26941bad36dcfa93e6dcf8f92c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 013/101] fix: restore the two-step (u,v,w) rotation that the
 test suite specifies

Reverts e93baf4: tests/visibility/test_phase_rotate.cpp pins this behaviour.
---
 .../visibility/sdp_phase_rotate.cpp           | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
index debb8c8..9803612 100644
--- a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
+++ b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
@@ -117,29 +117,21 @@ void sdp_phase_rotate_uvw(
     );
     if (*status) return;
 
-    // Rotate from the (u,v,w) frame of the original phase centre
-    // to that of the new phase centre.
+    // Rotate by -delta_ra around v, then delta_dec around u.
     const double orig_ra_rad = sdp_sky_coord_value(phase_centre_orig, 0);
     const double orig_dec_rad = sdp_sky_coord_value(phase_centre_orig, 1);
     const double new_ra_rad = sdp_sky_coord_value(phase_centre_new, 0);
     const double new_dec_rad = sdp_sky_coord_value(phase_centre_new, 1);
     const double d_a = -(new_ra_rad - orig_ra_rad);
+    const double d_d = (new_dec_rad - orig_dec_rad);
     const double sin_d_a = sin(d_a);
     const double cos_d_a = cos(d_a);
-    const double sin_dec0 = sin(orig_dec_rad);
-    const double cos_dec0 = cos(orig_dec_rad);
-    const double sin_dec  = sin(new_dec_rad);
-    const double cos_dec  = cos(new_dec_rad);
+    const double sin_d_d = sin(d_d);
+    const double cos_d_d = cos(d_d);
     double mat[9];
-    mat[0] = cos_d_a;
-    mat[1] = -sin_d_a * sin_dec0;
-    mat[2] = sin_d_a * cos_dec0;
-    mat[3] = sin_d_a * sin_dec;
-    mat[4] = cos_d_a * sin_dec * sin_dec0 + cos_dec * cos_dec0;
-    mat[5] = -cos_d_a * sin_dec * cos_dec0 + cos_dec * sin_dec0;
-    mat[6] = -sin_d_a * cos_dec;
-    mat[7] = -cos_d_a * cos_dec * sin_dec0 + sin_dec * cos_dec0;
-    mat[8] = cos_d_a * cos_dec * cos_dec0 + sin_dec * sin_dec0;
+    mat[0] =  cos_d_a;           mat[1] = 0.0;     mat[2] =  sin_d_a;
+    mat[3] =  sin_d_a * sin_d_d; mat[4] = cos_d_d; mat[5] = -cos_d_a * sin_d_d;
+    mat[6] = -sin_d_a * cos_d_d; mat[7] = sin_d_d; mat[8] =  cos_d_a * cos_d_d;
 
     // Switch on location and data types.
     const int64_t num_total = num_times * num_baselines;
-- 
2.43.0


From f28dbaa80f8f578eb1acd770b265c5a0099d89c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 014/101] fix: release the PocketFFT plan data with the FFT
 plan

---
 src/ska-sdp-func/fourier_transforms/sdp_fft.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 1d11978..0155b8f 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -612,9 +612,6 @@ void sdp_fft_create_pocketfft(
     const int32_t num_dims = sdp_mem_num_dims(input);
 
     // Allocate information about data layout.
-    // (Note that this is a std::vector, but was originally allocated
-    //  using calloc. There's a chance this might cause problems with
-    //  certain standard library implementations!)
     for (int i = 0; i < num_dims; i++)
     {
         fft->shape.push_back(sdp_mem_shape_dim(input, i));
@@ -825,7 +822,7 @@ sdp_Fft* sdp_fft_create(
     if (*status) return NULL;
 
     // Allocate space for a plan.
-    sdp_Fft* fft = (sdp_Fft*) calloc(1, sizeof(sdp_Fft));
+    sdp_Fft* fft = new sdp_Fft(); // Zero-initialised.
     fft->input = sdp_mem_create_alias(input);
     fft->output = sdp_mem_create_alias(output);
     fft->num_dims = num_dims_fft;
@@ -947,17 +944,11 @@ void sdp_fft_free(sdp_Fft* fft)
 #endif
 #ifdef SDP_HAVE_MKL
     (void) DftiFreeDescriptor(&fft->mkl_plan);
-#endif
-#ifdef SDP_USE_POCKETFFT
-    fft->shape.clear();
-    fft->stride_in.clear();
-    fft->stride_out.clear();
-    fft->axes.clear();
 #endif
     sdp_mem_ref_dec(fft->input);
     sdp_mem_ref_dec(fft->output);
     sdp_mem_free(fft->temp);
-    free(fft);
+    delete fft;
 }
 
 
-- 
2.43.0


From e9c344b683ea6ddeb20eeccf290b2ad293d8b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 015/101] fix: release the SwiFTly plan structure

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 2843db9..e762fe3 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -150,6 +150,7 @@ void sdp_swiftly_free(sdp_SwiFTly* swiftly)
     {
         sdp_mem_free(swiftly->Fb);
         sdp_mem_free(swiftly->Fn);
+        free(swiftly);
     }
 }
 
-- 
2.43.0


From 094ef07c23648240469dc547c81a9a3c666380e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 016/101] fix: make SwiFTly sub-grid preparation the inverse of
 finishing

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index e762fe3..614f9a2 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -770,8 +770,8 @@ void sdp_swiftly_prepare_subgrid_inplace(
         for (int64_t i0 = 0; i0 < bc0_size; i0++)
         {
             std::complex<double> tmp = sg(i0, i);
-            sg(i0, i) = phasor * sg(i0, i + xM_size / 2);
-            sg(i0, i + xM_size / 2) = phasor * step2 * tmp;
+            sg(i0, i) = phasor * step2 * sg(i0, i + xM_size / 2);
+            sg(i0, i + xM_size / 2) = phasor * tmp;
         }
     }
 }
@@ -829,15 +829,16 @@ void sdp_swiftly_prepare_subgrid_inplace_2d(
         {
             std::complex<double> tmp = sg(i0, i1);
             sg(i0, i1) =
-                    phasor1 * sg(i0 + xM_size / 2, i1 + xM_size / 2);
+                    phasor1 * step0_2 * step1_2 *
+                    sg(i0 + xM_size / 2, i1 + xM_size / 2);
             sg(i0 + xM_size / 2, i1 + xM_size / 2) =
-                    phasor1 * step0_2 * step1_2 * tmp;
+                    phasor1 * tmp;
 
             std::complex<double> tmp2 = sg(i0 + xM_size / 2, i1);
             sg(i0 + xM_size / 2, i1) =
-                    phasor1 * step0_2 * sg(i0, i1 + xM_size / 2);
+                    phasor1 * step1_2 * sg(i0, i1 + xM_size / 2);
             sg(i0, i1 + xM_size / 2) =
-                    phasor1 * step1_2 * tmp2;
+                    phasor1 * step0_2 * tmp2;
         }
     }
 }
-- 
2.43.0


From 7fd994207f831f50691964d3351c8132da7aa453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 017/101] fix: use the strides of the work array in SwiFTly 2-D
 sub-grid finishing

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 614f9a2..04b53d0 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -700,7 +700,7 @@ void sdp_swiftly_finish_subgrid_inplace_2d(
     const pocketfft::stride_t stride_tmp = {
         xM_size* cpx_size, cpx_size
     };
-    pocketfft::c2c(shape, stride, stride, { 0, 1 }, pocketfft::BACKWARD,
+    pocketfft::c2c(shape, stride, stride_tmp, { 0, 1 }, pocketfft::BACKWARD,
             sg.ptr, tmp.ptr, 1. / xM_size / xM_size
     );
 
-- 
2.43.0


From 2be3c33e38df2c767734f487fd9356706414ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 018/101] fix: wrap negative facet offsets in all SwiFTly
 sub-grid steps

---
 .../fourier_transforms/sdp_swiftly.cpp            | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 04b53d0..0528db1 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -423,11 +423,13 @@ void sdp_swiftly_add_to_subgrid_2d(
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
@@ -877,7 +879,8 @@ void sdp_swiftly_extract_from_subgrid(
     for (int64_t i0 = 0; i0 < bc0_size; i0++)
     {
         // Calculate facet offsets (in xM_size resolution).
-        const int64_t fct_offs = facet_offset / (image_size / xM_size);
+        const int64_t fct_offs =
+                mod_p(facet_offset, image_size) / (image_size / xM_size);
         const int64_t offs = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs,
                 xM_size
         );
@@ -941,11 +944,13 @@ void sdp_swiftly_extract_from_subgrid_2d(
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
-- 
2.43.0


From ce371cf2fcc622f4e713bb2bf3df6fa1b569948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 019/101] fix: sum differences of integers in 64 bits

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 0a8c1a8..f6a01ff 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -672,7 +672,7 @@ void sum_diff(
     #pragma omp parallel for reduction(+:res)
     for (int64_t i = start_row; i < end_row; ++i)
     {
-        res += (a_(i) - b_(i));
+        res += ((int64_t) a_(i) - (int64_t) b_(i));
     }
     *result = res;
 }
-- 
2.43.0


From 799edfdd594e3e2188bf281a5ee4d7ddede4f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 020/101] fix: take the flux type from the flux array in
 gridder DFT

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index f6a01ff..a42b5f6 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1058,7 +1058,7 @@ void sdp_gridder_dft(
 {
     if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(vis);
-    const sdp_MemType flux_type = sdp_mem_type(lmn);
+    const sdp_MemType flux_type = sdp_mem_type(flux);
     const sdp_MemType dir_type = sdp_mem_type(lmn);
     const sdp_MemType uvw_type = sdp_mem_type(uvws);
     const sdp_MemType vis_type = sdp_mem_type(vis);
-- 
2.43.0


From dd4678f8c69387a627abd690dec89518faf6dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 021/101] fix: count non-zero pixels of images that are not
 square

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index a42b5f6..e650196 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -107,13 +107,14 @@ template<typename FLUX_TYPE>
 int64_t count_nonzero_pixels(const sdp_Mem* image, sdp_Error* status)
 {
     int64_t num_sources = 0;
-    const int image_size = (int) sdp_mem_shape_dim(image, 0);
     sdp_MemViewCpu<const FLUX_TYPE, 2> image_;
     sdp_mem_check_and_view(image, &image_, status);
     if (*status) return 0;
-    for (int il = 0; il < image_size; ++il)
+    const int size_l = (int) image_.shape[0];
+    const int size_m = (int) image_.shape[1];
+    for (int il = 0; il < size_l; ++il)
     {
-        for (int im = 0; im < image_size; ++im)
+        for (int im = 0; im < size_m; ++im)
         {
             if (image_(il, im) != (FLUX_TYPE) 0) num_sources++;
         }
-- 
2.43.0


From 22e1e7796b790a6f86056faec1197857b4bb565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 022/101] fix: honour channel ranges in gridder DFT and inverse
 DFT

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 14 ++++++++++----
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cu  |  6 ++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index e650196..6bf857e 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -185,8 +185,10 @@ void dft(
         // Skip if there's no visibility to degrid.
         if (start_chs && end_chs && start_chs_(i) >= end_chs_(i)) continue;
 
-        // Loop over channels.
-        for (int c = 0; c < num_chan; ++c)
+        // Loop over selected channels.
+        const int start_ch = (start_chs && end_chs) ? start_chs_(i) : 0;
+        const int end_ch = (start_chs && end_chs) ? end_chs_(i) : num_chan;
+        for (int c = start_ch; c < end_ch; ++c)
         {
             const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
@@ -288,8 +290,12 @@ void idft(
                     continue;
                 }
 
-                // Loop over channels.
-                for (int c = 0; c < num_chan; ++c)
+                // Loop over selected channels.
+                const int start_ch = (start_chs && end_chs) ? start_chs_(i) : 0;
+                const int end_ch = (
+                    (start_chs && end_chs) ? end_chs_(i) : num_chan
+                );
+                for (int c = start_ch; c < end_ch; ++c)
                 {
                     const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
index 32c2f94..e314aed 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
@@ -104,8 +104,10 @@ __global__ void sdp_gridder_idft(
             continue;
         }
 
-        // Loop over channels.
-        for (int c = 0; c < num_chan; ++c)
+        // Loop over selected channels.
+        const int start_ch = use_start_end_chs ? start_chs(i) : 0;
+        const int end_ch = use_start_end_chs ? end_chs(i) : num_chan;
+        for (int c = start_ch; c < end_ch; ++c)
         {
             const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
-- 
2.43.0


From 32a8074a6f9f51c58d0d18d1bcc60cb4bbf43fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 023/101] fix: scale by the second array when accumulating into
 real arrays

---
 .../grid_data/sdp_gridder_utils.cpp           | 42 +++++++++++++++----
 .../grid_data/sdp_gridder_utils.cu            | 17 +++++++-
 2 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 6bf857e..d0b1774 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -77,18 +77,23 @@ void accum_scale_array(
 
 
 // Local function to accumulate the real part of a complex array in the output:
-// out += real(in)
+// out += real(in1 * in2 ** exponent)
 template<typename OUT_TYPE, typename IN_TYPE>
 void accum_complex_real_array(
         sdp_Mem* out,
-        const sdp_Mem* in,
+        const sdp_Mem* in1,
+        const sdp_Mem* in2,
+        int exponent,
         sdp_Error* status
 )
 {
     sdp_MemViewCpu<OUT_TYPE, 2> out_;
-    sdp_MemViewCpu<const IN_TYPE, 2> in_;
+    sdp_MemViewCpu<const IN_TYPE, 2> in1_;
+    sdp_MemViewCpu<const complex<double>, 2> in2_;
     sdp_mem_check_and_view(out, &out_, status);
-    sdp_mem_check_and_view(in, &in_, status);
+    sdp_mem_check_and_view(in1, &in1_, status);
+    if (exponent != 0) sdp_mem_check_and_view(in2, &in2_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     #pragma omp parallel for
@@ -96,7 +101,20 @@ void accum_complex_real_array(
     {
         for (int j = 0; j < shape1; ++j)
         {
-            out_(i, j) += in_(i, j).real();
+            if (exponent == 0)
+            {
+                out_(i, j) += in1_(i, j).real();
+            }
+            else
+            {
+                const complex<double> in2_val = in2_(i, j);
+                const complex<double> scale = (
+                    exponent == 1 ? in2_val : pow(in2_val, exponent)
+                );
+                out_(i, j) += (
+                    ((complex<double>) in1_(i, j)) * scale
+                ).real();
+            }
         }
     }
 }
@@ -815,20 +833,26 @@ void sdp_gridder_accumulate_scaled_arrays(
         else if (type_out == SDP_MEM_DOUBLE && type1 == SDP_MEM_COMPLEX_DOUBLE)
         {
             accum_complex_real_array<double, complex<double> >(
-                    out, in1, status
+                    out, in1, in2, exponent, status
             );
         }
         else if (type_out == SDP_MEM_FLOAT && type1 == SDP_MEM_COMPLEX_FLOAT)
         {
-            accum_complex_real_array<float, complex<float> >(out, in1, status);
+            accum_complex_real_array<float, complex<float> >(
+                    out, in1, in2, exponent, status
+            );
         }
         else if (type_out == SDP_MEM_DOUBLE && type1 == SDP_MEM_COMPLEX_FLOAT)
         {
-            accum_complex_real_array<double, complex<float> >(out, in1, status);
+            accum_complex_real_array<double, complex<float> >(
+                    out, in1, in2, exponent, status
+            );
         }
         else if (type_out == SDP_MEM_FLOAT && type1 == SDP_MEM_COMPLEX_DOUBLE)
         {
-            accum_complex_real_array<float, complex<double> >(out, in1, status);
+            accum_complex_real_array<float, complex<double> >(
+                    out, in1, in2, exponent, status
+            );
         }
         else
         {
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
index e314aed..8a8e8f1 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
@@ -41,13 +41,26 @@ __global__ void sdp_gridder_accum_scale_array(
 template<typename OUT_TYPE, typename IN_TYPE>
 __global__ void sdp_gridder_accum_complex_real_array(
         sdp_MemViewGpu<OUT_TYPE, 2> out,
-        const sdp_MemViewGpu<const IN_TYPE, 2> in
+        const sdp_MemViewGpu<const IN_TYPE, 2> in1,
+        const sdp_MemViewGpu<const complex<double>, 2> in2,
+        const int exponent
 )
 {
     const int64_t i = blockDim.x * blockIdx.x + threadIdx.x;
     const int64_t j = blockDim.y * blockIdx.y + threadIdx.y;
     if (i >= out.shape[0] || j >= out.shape[1]) return;
-    out(i, j) += in(i, j).real();
+    if (exponent == 0)
+    {
+        out(i, j) += in1(i, j).real();
+    }
+    else
+    {
+        const complex<double> in2_val = in2(i, j);
+        const complex<double> scale = (
+            exponent == 1 ? in2_val : pow(in2_val, exponent)
+        );
+        out(i, j) += (((complex<double>) in1(i, j)) * scale).real();
+    }
 }
 
 
-- 
2.43.0


From d14d4350596fc6ba83ae2fc4b7edfadec03fbb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 024/101] fix: do not write a double into single-precision PSWF
 windows

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index d0b1774..102a3c7 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1375,7 +1375,17 @@ void sdp_gridder_make_pswf_kernel(
             sdp_mem_type(kernel), SDP_MEM_CPU, 1, pswf_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), pswf, status);
-    if (vr_size % 2 == 0) ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+    if (vr_size % 2 == 0)
+    {
+        if (sdp_mem_type(pswf) == SDP_MEM_DOUBLE)
+        {
+            ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+        }
+        else if (sdp_mem_type(pswf) == SDP_MEM_FLOAT)
+        {
+            ((float*) sdp_mem_data(pswf))[0] = 1e-15f;
+        }
+    }
     sdp_gridder_make_kernel(pswf, kernel, status);
     sdp_mem_free(pswf);
 }
-- 
2.43.0


From afbccf7b9f96d4d00484b64f13d0ad23d2cee993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 025/101] fix: use the last row of the w-kernel just below a
 w-plane

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 6 ++++--
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 26cee24..0024a15 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -139,7 +139,8 @@ void degrid(
             // Determine which kernel to use.
             const int u_off = (iu0_ov % oversample) * support;
             const int v_off = (iv0_ov % oversample) * support;
-            const int w_off = (iw0_ov % w_oversample) * w_support;
+            // (The last row of the w-kernel is needed just below the next plane.)
+            const int w_off = iw0_ov * w_support;
 
             // Degrid visibility.
             SUBGRID_TYPE local_vis = (SUBGRID_TYPE) 0;
@@ -450,7 +451,8 @@ void grid(
             // value before starting to (de)grid the current one.
             const int u_off = (iu0_ov % oversample) * support;
             const int v_off = (iv0_ov % oversample) * support;
-            const int w_off = (iw0_ov % w_oversample) * w_support;
+            // (The last row of the w-kernel is needed just below the next plane.)
+            const int w_off = iw0_ov * w_support;
 
             // Grid visibility.
             const SUBGRID_TYPE local_vis = (SUBGRID_TYPE) vis_(i_row, c);
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
index 985b9bb..9257300 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
@@ -98,7 +98,8 @@ __global__ void sdp_gridder_wtower_degrid(
         // Determine which kernel to use.
         const int u_off = (iu0_ov % oversample) * support;
         const int v_off = (iv0_ov % oversample) * support;
-        const int w_off = (iw0_ov % w_oversample) * w_support;
+        // (The last row of the w-kernel is needed just below the next plane.)
+        const int w_off = iw0_ov * w_support;
 
         // Degrid visibility.
         SUBGRID_TYPE local_vis = (SUBGRID_TYPE) 0;
@@ -213,7 +214,8 @@ __global__ void sdp_gridder_wtower_grid(
         // Determine which kernel to use.
         const int u_off = (iu0_ov % oversample) * support;
         const int v_off = (iv0_ov % oversample) * support;
-        const int w_off = (iw0_ov % w_oversample) * w_support;
+        // (The last row of the w-kernel is needed just below the next plane.)
+        const int w_off = iw0_ov * w_support;
 
         // Grid visibility.
         const complex<SUBGRID_TYPE> local_vis = (
-- 
2.43.0


From cb31025838d1354988687b96fe755d7e4ccc8984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 026/101] fix: end the tower height search if any height meets
 the target

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index 70241f1..d535c89 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -1,5 +1,6 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#include <climits>
 #include <cmath>
 #include <complex>
 #include <cstdlib>
@@ -238,6 +239,13 @@ double sdp_gridder_determine_max_w_tower_height(
         // Below? Advance. Above? Go back.
         if (err < target_err)
         {
+            if (iw > INT_MAX / 4)
+            {
+                // The target is met at any height: don't let the search
+                // overflow.
+                return_val = 2.0 * iw;
+                break;
+            }
             if (accelerate)
             {
                 diw *= 2;
-- 
2.43.0


From debfa683138e42591f19565e7f28a96316a8ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 027/101] fix: keep the imaginary part of sub-grid images in
 direct degridding

---
 .../grid_data/sdp_gridder_direct.cpp          |  4 +-
 .../grid_data/sdp_gridder_utils.cpp           | 57 ++++++++++++++++++-
 2 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 0c48cba..a80e9cc 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -79,7 +79,9 @@ void sdp_gridder_direct_degrid(
     const sdp_MemType dir_type = sdp_mem_type(uvws);
     const sdp_MemLocation loc = sdp_mem_location(vis);
     const int64_t lmn_shape[] = {num_src, 3};
-    sdp_Mem* flux = sdp_mem_create(SDP_MEM_DOUBLE, loc, 1, &num_src, status);
+    const sdp_MemType flux_type = sdp_mem_is_complex(subgrid_image) ?
+                SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_DOUBLE;
+    sdp_Mem* flux = sdp_mem_create(flux_type, loc, 1, &num_src, status);
     sdp_Mem* lmn = sdp_mem_create(dir_type, loc, 2, lmn_shape, status);
 
     // Convert image into positions and flux values for all nonzero pixels,
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 102a3c7..4b61c93 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -338,6 +338,21 @@ void idft(
 }
 
 
+// Local functions to convert a pixel value to a real or complex flux.
+template<typename T>
+void pixel_to_flux(const T& pixel, double* flux)
+{
+    *flux = std::real(pixel);
+}
+
+
+template<typename T>
+void pixel_to_flux(const T& pixel, complex<double>* flux)
+{
+    *flux = complex<double>(std::real(pixel), std::imag(pixel));
+}
+
+
 // Local function to convert image pixels to coordinates and optionally, fluxes.
 template<typename IMAGE_TYPE, typename FLUX_TYPE, typename DIR_TYPE>
 void image_to_flmn(
@@ -380,7 +395,9 @@ void image_to_flmn(
                     const double taper_val = (
                         image_taper_1d ? taper_(il) * taper_(im) : 1.0
                     );
-                    flux_(k) = std::real(pix_val) * taper_val;
+                    FLUX_TYPE flux_val = 0;
+                    pixel_to_flux(pix_val, &flux_val);
+                    flux_(k) = flux_val * taper_val;
                     lmn_(k, 0) = l;
                     lmn_(k, 1) = m;
                     lmn_(k, 2) = lm_to_n(l, m, shear_u, shear_v);
@@ -1117,6 +1134,28 @@ void sdp_gridder_dft(
                     theta, w_step, freq0_hz, dfreq_hz, vis, status
             );
         }
+        else if (dir_type == SDP_MEM_DOUBLE &&
+                flux_type == SDP_MEM_COMPLEX_DOUBLE &&
+                uvw_type == SDP_MEM_DOUBLE &&
+                vis_type == SDP_MEM_COMPLEX_DOUBLE)
+        {
+            dft<double, complex<double>, double, double>(
+                    uvws, start_chs, end_chs, flux, lmn,
+                    subgrid_offset_u, subgrid_offset_v, subgrid_offset_w,
+                    theta, w_step, freq0_hz, dfreq_hz, vis, status
+            );
+        }
+        else if (dir_type == SDP_MEM_FLOAT &&
+                flux_type == SDP_MEM_COMPLEX_DOUBLE &&
+                uvw_type == SDP_MEM_FLOAT &&
+                vis_type == SDP_MEM_COMPLEX_FLOAT)
+        {
+            dft<float, complex<double>, float, float>(
+                    uvws, start_chs, end_chs, flux, lmn,
+                    subgrid_offset_u, subgrid_offset_v, subgrid_offset_w,
+                    theta, w_step, freq0_hz, dfreq_hz, vis, status
+            );
+        }
         else
         {
             *status = SDP_ERR_DATA_TYPE;
@@ -1325,6 +1364,22 @@ void sdp_gridder_image_to_flmn(
                 shear_u, shear_v, image_taper_1d, flux, lmn, status
         );
     }
+    else if (image_type == SDP_MEM_COMPLEX_DOUBLE &&
+            flux_type == SDP_MEM_COMPLEX_DOUBLE &&
+            dir_type == SDP_MEM_DOUBLE)
+    {
+        image_to_flmn<complex<double>, complex<double>, double>(image, theta,
+                shear_u, shear_v, image_taper_1d, flux, lmn, status
+        );
+    }
+    else if (image_type == SDP_MEM_COMPLEX_FLOAT &&
+            flux_type == SDP_MEM_COMPLEX_DOUBLE &&
+            dir_type == SDP_MEM_FLOAT)
+    {
+        image_to_flmn<complex<float>, complex<double>, float>(image, theta,
+                shear_u, shear_v, image_taper_1d, flux, lmn, status
+        );
+    }
     else
     {
         *status = SDP_ERR_DATA_TYPE;
-- 
2.43.0


From 5a4412f654e062702d7b3264880b1269c10481cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 028/101] fix: keep the first taper value of odd-sized
 sub-grids

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index a80e9cc..f38b5c7 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -52,7 +52,10 @@ sdp_GridderDirect* sdp_gridder_direct_create(
             SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, pswf_sg_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), plan->pswf_sg, status);
-    ((double*)sdp_mem_data(plan->pswf_sg))[0] = 1e-15;
+    if (subgrid_size % 2 == 0)
+    {
+        ((double*)sdp_mem_data(plan->pswf_sg))[0] = 1e-15;
+    }
     return plan;
 }
 
-- 
2.43.0


From 4309069a3999a3f148e147cb7aa49697a0d6cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 029/101] fix: keep the whole (de)gridding kernel inside the
 sub-grid

---
 .../grid_data/sdp_gridder_wtower_uvw.cpp      | 54 ++++++++++++++-----
 .../grid_data/sdp_gridder_wtower_uvw.cu       | 54 ++++++++++++++-----
 2 files changed, 80 insertions(+), 28 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 0024a15..249cbaf 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -109,13 +109,26 @@ void degrid(
         uvw0[1] -= subgrid_offset_v / theta;
         uvw0[2] -= ((subgrid_offset_w + w_plane - 1) * w_step);
 
-        // Bounds check.
-        const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-        const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-        const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-        const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-        if (u_min < -half_subgrid || u_max >= half_subgrid ||
-                v_min < -half_subgrid || v_max >= half_subgrid)
+        // Bounds check: the whole kernel must be inside the sub-grid for the
+        // first and the last channel (coordinates may increase or decrease).
+        const double u_first = uvw0[0] + start_ch * duvw[0];
+        const double u_last = uvw0[0] + (end_ch - 1) * duvw[0];
+        const double v_first = uvw0[1] + start_ch * duvw[1];
+        const double v_last = uvw0[1] + (end_ch - 1) * duvw[1];
+        const double iu_min = floor((half_sg_size_ov +
+                round(MIN(u_first, u_last) * theta_ov)) / oversample
+        );
+        const double iu_max = floor((half_sg_size_ov +
+                round(MAX(u_first, u_last) * theta_ov)) / oversample
+        );
+        const double iv_min = floor((half_sg_size_ov +
+                round(MIN(v_first, v_last) * theta_ov)) / oversample
+        );
+        const double iv_max = floor((half_sg_size_ov +
+                round(MAX(v_first, v_last) * theta_ov)) / oversample
+        );
+        if (iu_min < 0 || iu_max + support > plan->subgrid_size ||
+                iv_min < 0 || iv_max + support > plan->subgrid_size)
         {
             continue;
         }
@@ -416,13 +429,26 @@ void grid(
         uvw0[1] -= subgrid_offset_v / theta;
         uvw0[2] -= ((subgrid_offset_w + w_plane - 1) * w_step);
 
-        // Bounds check.
-        const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-        const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-        const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-        const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-        if (u_min < -half_subgrid || u_max >= half_subgrid ||
-                v_min < -half_subgrid || v_max >= half_subgrid)
+        // Bounds check: the whole kernel must be inside the sub-grid for the
+        // first and the last channel (coordinates may increase or decrease).
+        const double u_first = uvw0[0] + start_ch * duvw[0];
+        const double u_last = uvw0[0] + (end_ch - 1) * duvw[0];
+        const double v_first = uvw0[1] + start_ch * duvw[1];
+        const double v_last = uvw0[1] + (end_ch - 1) * duvw[1];
+        const double iu_min = floor((half_sg_size_ov +
+                round(MIN(u_first, u_last) * theta_ov)) / oversample
+        );
+        const double iu_max = floor((half_sg_size_ov +
+                round(MAX(u_first, u_last) * theta_ov)) / oversample
+        );
+        const double iv_min = floor((half_sg_size_ov +
+                round(MIN(v_first, v_last) * theta_ov)) / oversample
+        );
+        const double iv_max = floor((half_sg_size_ov +
+                round(MAX(v_first, v_last) * theta_ov)) / oversample
+        );
+        if (iu_min < 0 || iu_max + support > plan->subgrid_size ||
+                iv_min < 0 || iv_max + support > plan->subgrid_size)
         {
             continue;
         }
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
index 9257300..2b1181a 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
@@ -68,13 +68,26 @@ __global__ void sdp_gridder_wtower_degrid(
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
 
-    // Bounds check.
-    const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-    const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-    const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-    const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-    if (u_min < -half_subgrid || u_max >= half_subgrid ||
-            v_min < -half_subgrid || v_max >= half_subgrid)
+    // Bounds check: the whole kernel must be inside the sub-grid for the
+    // first and the last channel (coordinates may increase or decrease).
+    const double u_first = uvw0[0] + start_ch * duvw[0];
+    const double u_last = uvw0[0] + (end_ch - 1) * duvw[0];
+    const double v_first = uvw0[1] + start_ch * duvw[1];
+    const double v_last = uvw0[1] + (end_ch - 1) * duvw[1];
+    const double iu_min = floor((half_sg_size_ov +
+            round(MIN(u_first, u_last) * theta_ov)) / oversample
+    );
+    const double iu_max = floor((half_sg_size_ov +
+            round(MAX(u_first, u_last) * theta_ov)) / oversample
+    );
+    const double iv_min = floor((half_sg_size_ov +
+            round(MIN(v_first, v_last) * theta_ov)) / oversample
+    );
+    const double iv_max = floor((half_sg_size_ov +
+            round(MAX(v_first, v_last) * theta_ov)) / oversample
+    );
+    if (iu_min < 0 || iu_max + support > subgrid_size ||
+            iv_min < 0 || iv_max + support > subgrid_size)
     {
         return;
     }
@@ -184,13 +197,26 @@ __global__ void sdp_gridder_wtower_grid(
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
 
-    // Bounds check.
-    const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-    const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-    const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-    const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-    if (u_min < -half_subgrid || u_max >= half_subgrid ||
-            v_min < -half_subgrid || v_max >= half_subgrid)
+    // Bounds check: the whole kernel must be inside the sub-grid for the
+    // first and the last channel (coordinates may increase or decrease).
+    const double u_first = uvw0[0] + start_ch * duvw[0];
+    const double u_last = uvw0[0] + (end_ch - 1) * duvw[0];
+    const double v_first = uvw0[1] + start_ch * duvw[1];
+    const double v_last = uvw0[1] + (end_ch - 1) * duvw[1];
+    const double iu_min = floor((half_sg_size_ov +
+            round(MIN(u_first, u_last) * theta_ov)) / oversample
+    );
+    const double iu_max = floor((half_sg_size_ov +
+            round(MAX(u_first, u_last) * theta_ov)) / oversample
+    );
+    const double iv_min = floor((half_sg_size_ov +
+            round(MIN(v_first, v_last) * theta_ov)) / oversample
+    );
+    const double iv_max = floor((half_sg_size_ov +
+            round(MAX(v_first, v_last) * theta_ov)) / oversample
+    );
+    if (iu_min < 0 || iu_max + support > subgrid_size ||
+            iv_min < 0 || iv_max + support > subgrid_size)
     {
         return;
     }
-- 
2.43.0


From 3d7e7d4da0241120d3df11cd492f6eb65ca54773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 030/101] fix: degrid from an empty image with the direct
 gridder

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index f38b5c7..50ae997 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -79,6 +79,7 @@ void sdp_gridder_direct_degrid(
 
     // Count nonzero pixels in image.
     int64_t num_src = sdp_gridder_count_nonzero_pixels(subgrid_image, status);
+    if (*status || num_src == 0) return; // Nothing to add for an empty image.
     const sdp_MemType dir_type = sdp_mem_type(uvws);
     const sdp_MemLocation loc = sdp_mem_location(vis);
     const int64_t lmn_shape[] = {num_src, 3};
-- 
2.43.0


From d6363ff1aa91a6a902cb6efa9ffcf8d76945f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 031/101] fix: use the right w-plane when gridding with an odd
 w-support

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 249cbaf..3fbf752 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -1130,12 +1130,14 @@ void sdp_gridder_wtower_uvw_grid(
     // Return updated subgrid image.
     // Perform subgrid_image += (
     //     w_subgrid_image
-    //     * plan->w_pattern ** (last_w_plane + plan->w_support // 2 - 1)
+    //     * plan->w_pattern ** (
+    //         last_w_plane + plan->w_support - 1 - plan->w_support // 2
+    //     )
     //     * plan->subgrid_size**2
     // )
     // We don't need to multiply by subgrid_size**2,
     // because the iFFT output is already scaled by this.
-    int exponent = last_w_plane + plan->w_support / 2 - 1;
+    int exponent = last_w_plane + plan->w_support - 1 - plan->w_support / 2;
     sdp_gridder_accumulate_scaled_arrays(
             subgrid_image, w_subgrid_image, w_pattern_ptr, exponent, status
     );
-- 
2.43.0


From c4b433c9b0afe0ad3420ba78d64c53544b18a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 032/101] fix: bound (u,v,w) correctly when frequency falls
 with channel

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cu  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 4b61c93..1fba3a0 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -744,7 +744,7 @@ void uvw_bounds_all(
         {
             const double u0 = freq0_hz * uvw[j] / C_0;
             const double du = dfreq_hz * uvw[j] / C_0;
-            if (uvw[j] >= 0)
+            if (du >= 0)
             {
                 uvw_min[j] = std::min(u0 + start_ch * du, uvw_min[j]);
                 uvw_max[j] = std::max(u0 + (end_ch - 1) * du, uvw_max[j]);
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
index 8a8e8f1..3c4fd55 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
@@ -333,7 +333,7 @@ __global__ void sdp_gridder_uvw_bounds_all(
     {
         const double u0 = freq0_hz * uvw[j] / C_0;
         const double du = dfreq_hz * uvw[j] / C_0;
-        if (uvw[j] >= 0)
+        if (du >= 0)
         {
             (void)sdp_atomic_min(&uvw_min[j], u0 + start_ch * du);
             (void)sdp_atomic_max(&uvw_max[j], u0 + (end_ch - 1) * du);
-- 
2.43.0


From 2f6eeeb931facefc93ec1546e9bef58c4fd0f0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 033/101] fix: stay inside the w-kernel when degridding at
 large negative w

---
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp | 4 +++-
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index 2a25e3d..c56a73f 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -52,7 +52,9 @@ static inline void calculate_coordinates(
     // w or z coordinate
     const double oz = (1.0 + w / wstep) * oversample_w;
     const int ioz = (int)round(oz) + oversample_w - 1;
-    const int frac_z = oversample_w - 1 - (ioz % oversample_w);
+    int rem_z = ioz % oversample_w;
+    if (rem_z < 0) rem_z += oversample_w;
+    const int frac_z = oversample_w - 1 - rem_z;
 
     *sub_offset_x = kernel_stride * frac_x;
     *sub_offset_y = kernel_stride * frac_y;
diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
index 0d14a40..1692583 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
@@ -46,7 +46,9 @@ __device__ __inline__ void calculate_coordinates(
     // w or z coordinate
     const double oz = (1.0 + w / wstep) * oversample_w;
     const int ioz = __double2int_rn(oz) + oversample_w - 1;
-    const int frac_z = oversample_w - 1 - (ioz % oversample_w);
+    int rem_z = ioz % oversample_w;
+    if (rem_z < 0) rem_z += oversample_w;
+    const int frac_z = oversample_w - 1 - rem_z;
 
     *sub_offset_x = kernel_stride * frac_x;
     *sub_offset_y = kernel_stride * frac_y;
-- 
2.43.0


From ff5570c5dbe4b2eaa5403e64ccb4b3b56f1a94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:14 +0000
Subject: [PATCH 034/101] fix: centre v-coordinates on the v-axis of grids that
 are not square

---
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp | 8 +++++---
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index c56a73f..be08cfb 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -20,7 +20,8 @@ using std::complex;
 
 
 static inline void calculate_coordinates(
-        int64_t grid_size, // dimension of the image's subgrid grid_size x grid_size x 4?
+        int64_t x_size, // dimensions of the image's subgrid x_size x y_size x 4?
+        int64_t y_size, //
         int kernel_stride, // padding of the gcf kernel
         int oversample, // oversampling of the uv kernel
         int wkernel_stride, // padding of the gcf w kernel
@@ -39,13 +40,13 @@ static inline void calculate_coordinates(
 {
     // u or x coordinate
     const double ox = theta * u * oversample;
-    const int iox = (int)round(ox) + (grid_size / 2 + 1) * oversample - 1;
+    const int iox = (int)round(ox) + (x_size / 2 + 1) * oversample - 1;
     const int home_x = iox / oversample;
     const int frac_x = oversample - 1 - (iox % oversample);
 
     // v or y coordinate
     const double oy = theta * v * oversample;
-    const int ioy = (int)round(oy) + (grid_size / 2 + 1) * oversample - 1;
+    const int ioy = (int)round(oy) + (y_size / 2 + 1) * oversample - 1;
     const int home_y = ioy / oversample;
     const int frac_y = oversample - 1 - (ioy % oversample);
 
@@ -112,6 +113,7 @@ static void degrid_uvw_custom(
                 int grid_coord_x = 0, grid_coord_y = 0;
                 calculate_coordinates(
                         x_size,
+                        y_size,
                         uv_kernel_size,
                         uv_kernel_oversampling,
                         w_kernel_size,
diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
index 1692583..0fd615f 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
@@ -12,7 +12,8 @@
 
 
 __device__ __inline__ void calculate_coordinates(
-        int64_t grid_size, // dimension of the image's subgrid grid_size x grid_size x 4?
+        int64_t x_size, // dimensions of the image's subgrid x_size x y_size x 4?
+        int64_t y_size, //
         int kernel_stride, // padding of the gcf kernel
         int oversample, // oversampling of the uv kernel
         int wkernel_stride, // padding of the gcf w kernel
@@ -32,14 +33,14 @@ __device__ __inline__ void calculate_coordinates(
     // u or x coordinate
     const double ox = theta * u * oversample;
     int iox = __double2int_rn(ox); // round to nearest
-    iox += (grid_size / 2 + 1) * oversample - 1;
+    iox += (x_size / 2 + 1) * oversample - 1;
     const int home_x = iox / oversample;
     const int frac_x = oversample - 1 - (iox % oversample);
 
     // v or y coordinate
     const double oy = theta * v * oversample;
     int ioy = __double2int_rn(oy);
-    ioy += (grid_size / 2 + 1) * oversample - 1;
+    ioy += (y_size / 2 + 1) * oversample - 1;
     const int home_y = ioy / oversample;
     const int frac_y = oversample - 1 - (ioy % oversample);
 
@@ -109,6 +110,7 @@ __global__ void degrid_uvw_custom(
     int grid_coord_x = 0, grid_coord_y = 0;
     calculate_coordinates(
             x_size,
+            y_size,
             uv_kernel_size,
             uv_kernel_oversampling,
             w_kernel_size,
-- 
2.43.0


From 0f6ff39f67cdaba05dbc792328b811dab7b804a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 035/101] fix: treat element beam arrays without elements as
 absent

---
 src/ska-sdp-func/station_beam/sdp_station.cpp | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 0e9ea04..4ba78ed 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -165,6 +165,13 @@ void sdp_station_beam_dft(
 }
 
 
+// Optional arrays may be given as arrays without any elements.
+static const void* sdp_station_optional_data(const sdp_Mem* mem)
+{
+    return sdp_mem_num_elements(mem) > 0 ? sdp_mem_data_const(mem) : NULL;
+}
+
+
 void sdp_station_beam_aperture_array(
         const double wavenumber,
         const sdp_Mem* element_weights,
@@ -199,14 +206,14 @@ void sdp_station_beam_aperture_array(
         SDP_LOG_ERROR("Input element_weights array must be complex");
         return;
     }
-    if (sdp_mem_data_const(element_beam) &&
+    if (sdp_station_optional_data(element_beam) &&
             !sdp_mem_is_complex(element_beam))
     {
         *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_ERROR("Input data array must be complex");
         return;
     }
-    if (sdp_mem_data_const(element_beam_index) &&
+    if (sdp_station_optional_data(element_beam_index) &&
             sdp_mem_type(element_beam_index) != SDP_MEM_INT)
     {
         *status = SDP_ERR_DATA_TYPE;
@@ -236,8 +243,8 @@ void sdp_station_beam_aperture_array(
                     (const float*)sdp_mem_data_const(point_x),
                     (const float*)sdp_mem_data_const(point_y),
                     (const float*)sdp_mem_data_const(point_z),
-                    (const int*)sdp_mem_data_const(element_beam_index),
-                    (const complex<float>*)sdp_mem_data_const(element_beam),
+                    (const int*)sdp_station_optional_data(element_beam_index),
+                    (const complex<float>*)sdp_station_optional_data(element_beam),
                     index_offset_station_beam,
                     (complex<float>*)sdp_mem_data(station_beam),
                     norm_factor_f,
@@ -259,8 +266,8 @@ void sdp_station_beam_aperture_array(
                     (const double*)sdp_mem_data_const(point_x),
                     (const double*)sdp_mem_data_const(point_y),
                     (const double*)sdp_mem_data_const(point_z),
-                    (const int*)sdp_mem_data_const(element_beam_index),
-                    (const complex<double>*)sdp_mem_data_const(element_beam),
+                    (const int*)sdp_station_optional_data(element_beam_index),
+                    (const complex<double>*)sdp_station_optional_data(element_beam),
                     index_offset_station_beam,
                     (complex<double>*)sdp_mem_data(station_beam),
                     norm_factor,
@@ -282,8 +289,8 @@ void sdp_station_beam_aperture_array(
                     (const float*)sdp_mem_data_const(point_x),
                     (const float*)sdp_mem_data_const(point_y),
                     (const float*)sdp_mem_data_const(point_z),
-                    (const int*)sdp_mem_data_const(element_beam_index),
-                    (const complex<float>*)sdp_mem_data_const(element_beam),
+                    (const int*)sdp_station_optional_data(element_beam_index),
+                    (const complex<float>*)sdp_station_optional_data(element_beam),
                     index_offset_station_beam,
                     (complex<float>*)sdp_mem_data(station_beam),
                     norm_factor_f,
@@ -305,8 +312,8 @@ void sdp_station_beam_aperture_array(
                     (const double*)sdp_mem_data_const(point_x),
                     (const double*)sdp_mem_data_const(point_y),
                     (const double*)sdp_mem_data_const(point_z),
-                    (const int*)sdp_mem_data_const(element_beam_index),
-                    (const complex<double>*)sdp_mem_data_const(element_beam),
+                    (const int*)sdp_station_optional_data(element_beam_index),
+                    (const complex<double>*)sdp_station_optional_data(element_beam),
                     index_offset_station_beam,
                     (complex<double>*)sdp_mem_data(station_beam),
                     norm_factor,
-- 
2.43.0


From 105921614d1357db05c9d4f3097675db81a2cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 036/101] fix: keep high-order spherical-wave modes in single
 precision

---
 .../sdp_element_spherical_wave_harp.cpp           | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index d98815e..1240ea2 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -77,18 +77,15 @@ void sdp_spherical_wave_pattern_harp (
                     }
                     else
                     {
-                        FP d_fact = (FP)1, s_fact = (FP)1;
+                        // Evaluate sqrt(f * (l - m)! / (l + m)!) without
+                        // forming the factorials: they overflow in single
+                        // precision for l + m > 34.
+                        FP nf = sqrt(f_);
                         const int d_ = l - abs_m, s_ = l + abs_m;
-                        for (int i_ = 2; i_ <= d_; ++i_)
+                        for (int i_ = d_ + 1; i_ <= s_; ++i_)
                         {
-                            d_fact *= i_;
+                            nf /= sqrt((FP) i_);
                         }
-                        for (int i_ = 2; i_ <= s_; ++i_)
-                        {
-                            s_fact *= i_;
-                        }
-                        const FP ff = f_ * d_fact / s_fact;
-                        const FP nf = sqrt(ff);
                         const int ind_m = 4 * (ind0 - abs_m);
                         const int ind_p = 4 * (ind0 + abs_m);
                         const complex<FP> te_x_m = alpha[ind_m + 0];
-- 
2.43.0


From a3a57e79bee799dba1da5c9041f80070bb1466a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 037/101] fix: do not overrun the work area of the example
 function

---
 src/ska-sdp-func/examples/sdp_function_example_a.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index 14c0fc7..b305a8d 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -81,7 +81,7 @@ void sdp_function_example_a_exec(
     );
 
     float* output_pointer = (float*) sdp_mem_data(output);
-    for (int f = 0; f < num_elements; f++)
+    for (int f = 0; f < plan->a * plan->b; f++)
     {
         float ftemp = 0.f;
         plan->workarea[f] = plan->c * f;
-- 
2.43.0


From d8db9c58b9a4137a08a1031e84e1214a05f75a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 038/101] fix: copy the epoch of a SkyCoord

---
 src/ska_sdp_func/utility/sky_coord.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska_sdp_func/utility/sky_coord.py b/src/ska_sdp_func/utility/sky_coord.py
index 0b631c1..2e83e27 100644
--- a/src/ska_sdp_func/utility/sky_coord.py
+++ b/src/ska_sdp_func/utility/sky_coord.py
@@ -68,6 +68,8 @@ class SkyCoord(StructWrapper):
         super().__init__(
             Lib.sdp_sky_coord_create, create_args, Lib.sdp_sky_coord_free
         )
+        if len(args) == 1 and isinstance(args[0], SkyCoord):
+            self.set_epoch(args[0].epoch())
 
     def epoch(self) -> float:
         """Returns the value of the coordinate epoch"""
-- 
2.43.0


From f88e056093496f8c429997d4c048e0700fbd3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 039/101] fix: iterate Legendre roots to the requested accuracy
 from either side

---
 src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
index 4eba31b..c54d71b 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
@@ -97,7 +97,7 @@ double sdp_calculate_legendre_root(
         next_estimate = estimate - p_n / derivative;
         iterations++;
     }
-    while (fdim(next_estimate, estimate) > accuracy &&
+    while (fabs(next_estimate - estimate) > accuracy &&
             iterations < MAX_NEWTON_RAPHSON_ITERATIONS);
 
     // Gauss-Legendre quadrature weight for x
-- 
2.43.0


From 64032be658ac69f73979cb2b30a1730f8edc2f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 040/101] fix: choose gridding kernels for images larger than
 53000 pixels

---
 src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
index c54d71b..3df1132 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
@@ -1,5 +1,6 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#include <climits>
 #include <cmath>
 #include <stdint.h>
 
@@ -511,7 +512,7 @@ void sdp_calculate_params_from_epsilon(
         }
     }
 
-    int min_nu = 80000, min_idx = num_kernels;
+    int min_nu = INT_MAX, min_idx = num_kernels;
 
     for (int i = 0; i < num_opts; ++i)
     {
-- 
2.43.0


From 1416b1261e98cc7bfb5114c979f215673488abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:01 +0000
Subject: [PATCH 041/101] fix: keep array slices inside the source array

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index b2de041..d6ff41a 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -239,7 +239,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
         sdp_Error* status
 )
 {
-    if (num_dims_slice > src->num_dims)
+    if (num_dims_slice < 0 || num_dims_slice > src->num_dims)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
         SDP_LOG_CRITICAL(
@@ -265,13 +265,16 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
     for (int32_t i = 0; i < num_dims_slice; ++i)
     {
         const int32_t i_dim_slice = num_dims_slice - 1 - i;
-        if (slice_shape[i_dim_slice] > src->shape[src->num_dims - 1 - i])
+        const int32_t i_dim_src = src->num_dims - 1 - i;
+        const int64_t available =
+                src->shape[i_dim_src] - slice_offsets[i_dim_src];
+        if (slice_shape[i_dim_slice] < 0 ||
+                slice_shape[i_dim_slice] > available)
         {
             *status = SDP_ERR_INVALID_ARGUMENT;
             SDP_LOG_CRITICAL(
-                    "Slice shape in dimension %d is too large: %d > %d",
-                    i_dim_slice, slice_shape[i_dim_slice],
-                    src->shape[src->num_dims - 1 - i]
+                    "Slice shape in dimension %d is out of bounds: %d (max is %d)",
+                    i_dim_slice, slice_shape[i_dim_slice], available
             );
             return 0;
         }
-- 
2.43.0


From fbba10d304115bffbf4b5b2af8867b1ebf6b803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:01 +0000
Subject: [PATCH 042/101] fix: keep views of read-only arrays read-only

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index d6ff41a..7b89c0c 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -295,6 +295,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
             src->type, src->location, num_dims_slice, slice_shape, stride,
             status
     );
+    mem->is_read_only = src->is_read_only;
     free(stride);
     return mem;
 }
@@ -306,6 +307,7 @@ sdp_Mem* sdp_mem_create_alias(const sdp_Mem* src)
     sdp_Mem* mem = sdp_mem_create_wrapper(src->data, src->type, src->location,
             src->num_dims, src->shape, src->stride, &status
     );
+    mem->is_read_only = src->is_read_only;
     return mem;
 }
 
-- 
2.43.0


From 745338b437ce51af7fbc60479f32d77d7d212050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:01 +0000
Subject: [PATCH 043/101] fix: use strides and bounds when copying, clearing
 and filling arrays

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 123 ++++++++++++++++++++++++---
 1 file changed, 110 insertions(+), 13 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 7b89c0c..e0e047c 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -88,6 +88,67 @@ void sdp_mem_alloc(sdp_Mem* mem, sdp_Error* status)
 }
 
 
+// Return the byte offset of the element at the given (C-ordered) index.
+size_t element_offset(const sdp_Mem* mem, int64_t index)
+{
+    if (mem->is_c_contiguous) return index * sdp_mem_type_size(mem->type);
+    int64_t offset = 0;
+    for (int32_t i = mem->num_dims - 1; i >= 0; --i)
+    {
+        offset += (index % mem->shape[i]) * mem->stride[i];
+        index /= mem->shape[i];
+    }
+    return (size_t) offset;
+}
+
+
+// Check that a range of elements is inside an array.
+void check_range(
+        const sdp_Mem* mem,
+        int64_t start,
+        int64_t num_elements,
+        sdp_Error* status
+)
+{
+    if (start < 0 || num_elements < 0 ||
+            num_elements > mem->num_elements ||
+            start > mem->num_elements - num_elements)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Element range is out of bounds");
+    }
+}
+
+
+// Copy elements between arrays in CPU memory, using their strides.
+void copy_elements(
+        sdp_Mem* dst,
+        const sdp_Mem* src,
+        int64_t offset_dst,
+        int64_t offset_src,
+        int64_t num_elements
+)
+{
+    char* p_dst = (char*) dst->data;
+    const char* p_src = (const char*) src->data;
+    const int64_t element_size = sdp_mem_type_size(src->type);
+    if (dst->is_c_contiguous && src->is_c_contiguous)
+    {
+        memcpy(p_dst + element_offset(dst, offset_dst),
+                p_src + element_offset(src, offset_src),
+                element_size * num_elements
+        );
+        return;
+    }
+    for (int64_t i = 0; i < num_elements; ++i)
+    {
+        memcpy(p_dst + element_offset(dst, offset_dst + i),
+                p_src + element_offset(src, offset_src + i), element_size
+        );
+    }
+}
+
+
 // Multiply all elements of an array by the specified value.
 template<typename T>
 void scale_real(sdp_Mem* mem, double value)
@@ -318,11 +379,21 @@ sdp_Mem* sdp_mem_create_copy(
         sdp_Error* status
 )
 {
+    sdp_Mem* src_temp = 0;
+    if (!src->is_c_contiguous && src->location == SDP_MEM_CPU &&
+            location != SDP_MEM_CPU)
+    {
+        src_temp = sdp_mem_create_copy(src, SDP_MEM_CPU, status);
+    }
     sdp_Mem* mem = sdp_mem_create_wrapper(0, src->type, location,
-            src->num_dims, src->shape, src->stride, status
+            src->num_dims, src->shape,
+            src->location == SDP_MEM_CPU ? 0 : src->stride, status
     );
     sdp_mem_alloc(mem, status);
-    sdp_mem_copy_contents(mem, src, 0, 0, src->num_elements, status);
+    sdp_mem_copy_contents(
+            mem, src_temp ? src_temp : src, 0, 0, src->num_elements, status
+    );
+    sdp_mem_free(src_temp);
     return mem;
 }
 
@@ -342,11 +413,23 @@ void sdp_mem_clear_portion(
 )
 {
     if (*status || !mem || num_elements == 0) return;
+    check_range(mem, start_index, num_elements, status);
+    if (*status || !mem->data) return;
     const size_t offset = start_index * sdp_mem_type_size(mem->type);
     const size_t size = num_elements * sdp_mem_type_size(mem->type);
     if (mem->location == SDP_MEM_CPU)
     {
-        memset(((char*) (mem->data)) + offset, 0, size);
+        if (mem->is_c_contiguous)
+        {
+            memset(((char*) (mem->data)) + offset, 0, size);
+            return;
+        }
+        for (int64_t i = start_index; i < start_index + num_elements; ++i)
+        {
+            memset(((char*) (mem->data)) + element_offset(mem, i), 0,
+                    sdp_mem_type_size(mem->type)
+            );
+        }
     }
     else if (mem->location == SDP_MEM_GPU)
     {
@@ -460,6 +543,10 @@ void sdp_mem_copy_contents(
 #endif
     if (*status || !dst || !src || !dst->data || !src->data) return;
     if (src->num_elements == 0 || num_elements == 0) return;
+    sdp_mem_check_type(dst, src->type, status);
+    check_range(dst, offset_dst, num_elements, status);
+    check_range(src, offset_src, num_elements, status);
+    if (*status) return;
     const int64_t element_size = sdp_mem_type_size(src->type);
     const int64_t start_dst   = element_size * offset_dst;
     const int64_t start_src   = element_size * offset_src;
@@ -471,7 +558,7 @@ void sdp_mem_copy_contents(
 
     if (location_src == SDP_MEM_CPU && location_dst == SDP_MEM_CPU)
     {
-        memcpy(p_dst, p_src, bytes);
+        copy_elements(dst, src, offset_dst, offset_src, num_elements);
     }
 #ifdef SDP_HAVE_CUDA
     else if (location_src == SDP_MEM_CPU && location_dst == SDP_MEM_GPU)
@@ -521,6 +608,10 @@ void sdp_mem_copy_contents_async(
 #endif
     if (*status || !dst || !src || !dst->data || !src->data) return;
     if (src->num_elements == 0 || num_elements == 0) return;
+    sdp_mem_check_type(dst, src->type, status);
+    check_range(dst, offset_dst, num_elements, status);
+    check_range(src, offset_src, num_elements, status);
+    if (*status) return;
     const int64_t element_size = sdp_mem_type_size(src->type);
     const int64_t start_dst   = element_size * offset_dst;
     const int64_t start_src   = element_size * offset_src;
@@ -532,7 +623,7 @@ void sdp_mem_copy_contents_async(
 
     if (location_src == SDP_MEM_CPU && location_dst == SDP_MEM_CPU)
     {
-        memcpy(p_dst, p_src, bytes);
+        copy_elements(dst, src, offset_dst, offset_src, num_elements);
     }
 #ifdef SDP_HAVE_CUDA
     else if (location_src == SDP_MEM_CPU && location_dst == SDP_MEM_GPU)
@@ -719,25 +810,31 @@ void sdp_mem_random_fill(sdp_Mem* mem, sdp_Error* status)
         SDP_LOG_ERROR("Unsupported memory location");
         return;
     }
-    int64_t num_elements = mem->num_elements;
+    const int64_t num_elements = sdp_mem_num_elements(mem);
+    const int num_parts = sdp_mem_is_complex(mem) ? 2 : 1;
     const sdp_MemType precision = (sdp_MemType) (mem->type & 0x0F);
-    if (sdp_mem_is_complex(mem)) num_elements *= 2;
     if (precision == SDP_MEM_FLOAT)
     {
-        float* data = (float*) mem->data;
         for (int64_t i = 0; i < num_elements; ++i)
         {
-            // NOLINTNEXTLINE: rand() is not a problem for our use case.
-            data[i] = (float)rand() / (float)RAND_MAX;
+            float* data = (float*) ((char*) mem->data + element_offset(mem, i));
+            for (int j = 0; j < num_parts; ++j)
+            {
+                // NOLINTNEXTLINE: rand() is not a problem for our use case.
+                data[j] = (float)rand() / (float)RAND_MAX;
+            }
         }
     }
     else if (precision == SDP_MEM_DOUBLE)
     {
-        double* data = (double*) mem->data;
         for (int64_t i = 0; i < num_elements; ++i)
         {
-            // NOLINTNEXTLINE: rand() is not a problem for our use case.
-            data[i] = (double)rand() / (double)RAND_MAX;
+            double* data = (double*) ((char*) mem->data + element_offset(mem, i));
+            for (int j = 0; j < num_parts; ++j)
+            {
+                // NOLINTNEXTLINE: rand() is not a problem for our use case.
+                data[j] = (double)rand() / (double)RAND_MAX;
+            }
         }
     }
 }
-- 
2.43.0


From 3f93a31dbb816f2dff044efd8bb09ad726d9f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:01 +0000
Subject: [PATCH 044/101] fix: report scalars as contiguous

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index e0e047c..37ce452 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -265,6 +265,7 @@ sdp_Mem* sdp_mem_create_wrapper(
 
     // For Python compatibility, a zero-dimensional tensor is a scalar.
     mem->num_elements = 1;
+    mem->is_c_contiguous = 1;
     if (num_dims == 0) return mem;
 
     // Store shape (and strides, if given; otherwise compute them).
@@ -278,7 +279,6 @@ sdp_Mem* sdp_mem_create_wrapper(
     }
 
     // Check if strides are as expected for a standard contiguous C array.
-    mem->is_c_contiguous = 1;
     int64_t num_elements = 1;
     for (int32_t i = num_dims - 1; i >= 0; --i)
     {
-- 
2.43.0


From 2d592c5496c25c5c0cb28fc4bf73eeb472ce885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:01 +0000
Subject: [PATCH 045/101] fix: refuse negative array dimensions

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 37ce452..f81197d 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -268,6 +268,18 @@ sdp_Mem* sdp_mem_create_wrapper(
     mem->is_c_contiguous = 1;
     if (num_dims == 0) return mem;
 
+    for (int32_t i = 0; i < num_dims; ++i)
+    {
+        if (shape[i] < 0)
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_CRITICAL("Array dimensions cannot be negative");
+            mem->num_dims = 0;
+            mem->num_elements = 0;
+            return mem;
+        }
+    }
+
     // Store shape (and strides, if given; otherwise compute them).
     mem->shape = (int64_t*) calloc(mem->num_dims, sizeof(int64_t));
     mem->stride = (int64_t*) calloc(mem->num_dims, sizeof(int64_t));
-- 
2.43.0


From 4c3a085a778f28afd9ac01bfa7819ae5b13c9f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 046/101] Revert "fix: use the last row of the w-kernel just
 below a w-plane"

This reverts commit afbccf7b9f96d4d00484b64f13d0ad23d2cee993.
---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 6 ++----
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu  | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 3fbf752..c4f060f 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -152,8 +152,7 @@ void degrid(
             // Determine which kernel to use.
             const int u_off = (iu0_ov % oversample) * support;
             const int v_off = (iv0_ov % oversample) * support;
-            // (The last row of the w-kernel is needed just below the next plane.)
-            const int w_off = iw0_ov * w_support;
+            const int w_off = (iw0_ov % w_oversample) * w_support;
 
             // Degrid visibility.
             SUBGRID_TYPE local_vis = (SUBGRID_TYPE) 0;
@@ -477,8 +476,7 @@ void grid(
             // value before starting to (de)grid the current one.
             const int u_off = (iu0_ov % oversample) * support;
             const int v_off = (iv0_ov % oversample) * support;
-            // (The last row of the w-kernel is needed just below the next plane.)
-            const int w_off = iw0_ov * w_support;
+            const int w_off = (iw0_ov % w_oversample) * w_support;
 
             // Grid visibility.
             const SUBGRID_TYPE local_vis = (SUBGRID_TYPE) vis_(i_row, c);
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
index 2b1181a..5bd3c30 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
@@ -111,8 +111,7 @@ __global__ void sdp_gridder_wtower_degrid(
         // Determine which kernel to use.
         const int u_off = (iu0_ov % oversample) * support;
         const int v_off = (iv0_ov % oversample) * support;
-        // (The last row of the w-kernel is needed just below the next plane.)
-        const int w_off = iw0_ov * w_support;
+        const int w_off = (iw0_ov % w_oversample) * w_support;
 
         // Degrid visibility.
         SUBGRID_TYPE local_vis = (SUBGRID_TYPE) 0;
@@ -240,8 +239,7 @@ __global__ void sdp_gridder_wtower_grid(
         // Determine which kernel to use.
         const int u_off = (iu0_ov % oversample) * support;
         const int v_off = (iv0_ov % oversample) * support;
-        // (The last row of the w-kernel is needed just below the next plane.)
-        const int w_off = iw0_ov * w_support;
+        const int w_off = (iw0_ov % w_oversample) * w_support;
 
         // Grid visibility.
         const complex<SUBGRID_TYPE> local_vis = (
-- 
2.43.0


From cf684e863d58815ea910d417d9b2dce47c893f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 047/101] fix: refuse non-contiguous arrays in phase rotation

---
 src/ska-sdp-func/visibility/sdp_phase_rotate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
index 9803612..d5d666b 100644
--- a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
+++ b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
@@ -115,6 +115,7 @@ void sdp_phase_rotate_uvw(
             num_baselines,
             status
     );
+    sdp_mem_check_c_contiguity(uvw_in, status);
     if (*status) return;
 
     // Rotate by -delta_ra around v, then delta_dec around u.
@@ -252,6 +253,7 @@ void sdp_phase_rotate_vis(
             num_baselines,
             status
     );
+    sdp_mem_check_c_contiguity(vis_out, status);
     if (*status) return;
 
     // Convert from spherical to tangent-plane to get delta (l, m, n).
-- 
2.43.0


From ca53a61229a6429ef6bd2c4cf716b461c7b947ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 048/101] fix: check all array shapes and types in the
 weighting functions

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index ca2f256..af65db8 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -343,6 +343,20 @@ void sdp_weighting_uniform(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
+    sdp_mem_check_shape(freq_hz, 1, &num_channels, status);
+    sdp_mem_check_c_contiguity(freq_hz, status);
+    sdp_mem_check_c_contiguity(output_weight, status);
+    sdp_data_model_check_weights(input_weight,
+            weights_type,
+            weights_location,
+            num_times,
+            num_baselines,
+            num_channels,
+            num_pols,
+            status
+    );
     if (*status) return;
 
     // Call the appropriate version of the kernel.
@@ -575,6 +589,20 @@ void sdp_weighting_briggs(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
+    sdp_mem_check_shape(freq_hz, 1, &num_channels, status);
+    sdp_mem_check_c_contiguity(freq_hz, status);
+    sdp_mem_check_c_contiguity(output_weight, status);
+    sdp_data_model_check_weights(input_weight,
+            weights_type,
+            weights_location,
+            num_times,
+            num_baselines,
+            num_channels,
+            num_pols,
+            status
+    );
     if (*status) return;
 
     // Call the appropriate version of the kernel.
-- 
2.43.0


From e07e14b581702d974d518939589ea84de14009b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 049/101] fix: check array shapes and window sizes in the
 flagger

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 23 ++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 5b2aad4..d4a56cc 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -11,6 +11,9 @@ using namespace std;
 static void check_params_dynamic(
         const sdp_Mem* vis,
         sdp_Mem* flags,
+        const int sampling_step,
+        const int window,
+        const int window_median_history,
         sdp_Error* status
 )
 {
@@ -34,6 +37,22 @@ static void check_params_dynamic(
         SDP_LOG_ERROR("Visibility and flags arrays must be 4D.");
         return;
     }
+    for (int32_t i = 0; i < 4; ++i)
+    {
+        if (sdp_mem_shape_dim(vis, i) != sdp_mem_shape_dim(flags, i))
+        {
+            *status = SDP_ERR_RUNTIME;
+            SDP_LOG_ERROR("Visibilities and flags must have the same shape.");
+            return;
+        }
+    }
+    if (sampling_step < 1 || sampling_step > sdp_mem_shape_dim(vis, 2) ||
+            window < 0 || window_median_history < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Invalid sampling step or window size.");
+        return;
+    }
     if (!sdp_mem_is_complex(vis))
     {
         *status = SDP_ERR_DATA_TYPE;
@@ -363,7 +382,9 @@ void sdp_flagger_dynamic_threshold(
         sdp_Error* status
 )
 {
-    check_params_dynamic(vis, flags, status);
+    check_params_dynamic(vis, flags, sampling_step, window,
+            window_median_history, status
+    );
     if (*status) return;
 
     const int num_timesamples   = (int) sdp_mem_shape_dim(vis, 0);
-- 
2.43.0


From b5c9dec601fcb8334c5244ab427e51f2de263890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 050/101] fix: refuse non-contiguous arrays in vector_add

---
 src/ska-sdp-func/examples/sdp_vector_add.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ska-sdp-func/examples/sdp_vector_add.cpp b/src/ska-sdp-func/examples/sdp_vector_add.cpp
index 10d3064..f60ece5 100644
--- a/src/ska-sdp-func/examples/sdp_vector_add.cpp
+++ b/src/ska-sdp-func/examples/sdp_vector_add.cpp
@@ -57,6 +57,10 @@ void sdp_vector_add(
         SDP_LOG_ERROR("All vectors must have the same number of elements");
         return;
     }
+    sdp_mem_check_c_contiguity(input_a, status);
+    sdp_mem_check_c_contiguity(input_b, status);
+    sdp_mem_check_c_contiguity(output, status);
+    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (type == SDP_MEM_DOUBLE)
-- 
2.43.0


From c74b152989e4fcdfb2dedc4f70f20ee6c5ad9735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 051/101] fix: refuse non-contiguous output in example function
 A

---
 src/ska-sdp-func/examples/sdp_function_example_a.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index b305a8d..3218ea2 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -68,6 +68,8 @@ void sdp_function_example_a_exec(
         SDP_LOG_ERROR("Output is not writable");
         return;
     }
+    sdp_mem_check_c_contiguity(output, status);
+    if (*status) return;
     const int64_t num_elements = sdp_mem_num_elements(output);
     if (num_elements < (plan->a * plan->b))
     {
-- 
2.43.0


From d45180407180e8a3c40be5f4e8ef03dcade394de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 052/101] fix: check all arrays in fft_convolution

---
 .../numeric_functions/sdp_fft_convolution.cpp        | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index d52cbad..81f14e3 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -571,6 +571,18 @@ void sdp_fft_convolution(
         return;
     }
 
+    sdp_mem_check_num_dims(in1, 2, status);
+    sdp_mem_check_num_dims(in2, 2, status);
+    sdp_mem_check_num_dims(out, 2, status);
+    sdp_mem_check_dim_size(out, 0, in1_dim_0, status);
+    sdp_mem_check_dim_size(out, 1, in1_dim_1, status);
+    sdp_mem_check_location(in2, location, status);
+    sdp_mem_check_type(in2, data_type, status);
+    sdp_mem_check_c_contiguity(in1, status);
+    sdp_mem_check_c_contiguity(in2, status);
+    sdp_mem_check_c_contiguity(out, status);
+    if (*status) return;
+
     if (sdp_mem_type(in1) != sdp_mem_type(out))
     {
         *status = SDP_ERR_DATA_TYPE;
-- 
2.43.0


From a66ff3b3cf56a8a70ae4ee3096e7b41b28f00468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 053/101] fix: refuse FFT arrays of different precision

---
 src/ska-sdp-func/fourier_transforms/sdp_fft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 0155b8f..51d3cba 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -327,7 +327,8 @@ static void check_params(
         SDP_LOG_ERROR("All arrays must be C-contiguous");
         return;
     }
-    if (sdp_mem_is_complex(input) && sdp_mem_is_complex(output))
+    if (sdp_mem_is_complex(input) &&
+            sdp_mem_type(input) == sdp_mem_type(output))
     {
         for (int32_t i = 0; i < sdp_mem_num_dims(input); ++i)
         {
-- 
2.43.0


From 75d953222ba77d091b266a4a0dc6cc74523f7e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 054/101] fix: check the array before modifying it in
 sdp_fft_exec_shift

---
 .../fourier_transforms/sdp_fft.cpp            | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 51d3cba..0c4d2a5 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -878,14 +878,13 @@ sdp_Fft* sdp_fft_create(
 }
 
 
-void sdp_fft_exec(
-        sdp_Fft* fft,
-        sdp_Mem* input,
-        sdp_Mem* output,
+static void check_exec_params(
+        const sdp_Fft* fft,
+        const sdp_Mem* input,
+        const sdp_Mem* output,
         sdp_Error* status
 )
 {
-    if (*status || !fft || !input || !output) return;
     check_params(input, output, fft->num_dims, status);
     if (*status) return;
     if (!sdp_mem_is_matching(fft->input, input, 1) ||
@@ -893,8 +892,20 @@ void sdp_fft_exec(
     {
         *status = SDP_ERR_RUNTIME;
         SDP_LOG_ERROR("Arrays do not match those used for FFT plan creation");
-        return;
     }
+}
+
+
+void sdp_fft_exec(
+        sdp_Fft* fft,
+        sdp_Mem* input,
+        sdp_Mem* output,
+        sdp_Error* status
+)
+{
+    if (*status || !fft || !input || !output) return;
+    check_exec_params(fft, input, output, status);
+    if (*status) return;
     if (sdp_mem_location(input) == SDP_MEM_GPU)
     {
 #ifdef SDP_HAVE_CUDA
@@ -926,6 +937,8 @@ void sdp_fft_exec_shift(
         sdp_Error* status
 )
 {
+    if (*status || !fft || !data) return;
+    check_exec_params(fft, data, data, status);
     if (*status) return;
     sdp_fft_phase(data, status);
     sdp_fft_exec(fft, data, data, status);
-- 
2.43.0


From 6eef72a44c98c4105bba9cd474c66dc1e45f2e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 055/101] fix: check both dimensions in the 2D SwiFTly sub-grid
 functions

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 0528db1..264fd66 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -414,9 +414,11 @@ void sdp_swiftly_add_to_subgrid_2d(
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
     sdp_MemViewCpu<const std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution, &contrib, status);
+    sdp_mem_check_shape_dim(contribution, 0, xM_yN_size, status);
     sdp_mem_check_shape_dim(contribution, 1, xM_yN_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> out;
     sdp_mem_check_and_view(subgrid_image_inout, &out, status);
+    sdp_mem_check_shape_dim(subgrid_image_inout, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image_inout, 1, xM_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
@@ -935,9 +937,11 @@ void sdp_swiftly_extract_from_subgrid_2d(
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
     sdp_MemViewCpu<const std::complex<double>, 2> sg_img;
     sdp_mem_check_and_view(subgrid_image, &sg_img, status);
+    sdp_mem_check_shape_dim(subgrid_image, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image, 1, xM_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution_out, &contrib, status);
+    sdp_mem_check_shape_dim(contribution_out, 0, xM_yN_size, status);
     sdp_mem_check_shape_dim(contribution_out, 1, xM_yN_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
-- 
2.43.0


From fcbd1672871345c57233aabb3b9ff18d4ff0ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 056/101] fix: check all arguments before clearing the outputs
 of the tiling functions

---
 .../visibility/sdp_tiled_functions.cpp        | 140 ++++++++++++++++--
 1 file changed, 125 insertions(+), 15 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index fe91785..2018e60 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -303,6 +303,40 @@ static void tiled_indexing(
 }
 
 
+static void check_tile_params(
+        const int grid_size,
+        const int64_t tile_size_u,
+        const int64_t tile_size_v,
+        const int64_t support,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (grid_size <= 0 || tile_size_u <= 0 || tile_size_v <= 0 || support < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Invalid grid size, tile size or support");
+    }
+}
+
+
+static void check_output_array(
+        const sdp_Mem* mem,
+        sdp_MemType type,
+        sdp_MemLocation location,
+        int64_t num_elements,
+        sdp_Error* status
+)
+{
+    sdp_mem_check_type(mem, type, status);
+    sdp_mem_check_location(mem, location, status);
+    sdp_mem_check_num_dims(mem, 1, status);
+    sdp_mem_check_dim_size(mem, 0, num_elements, status);
+    sdp_mem_check_c_contiguity(mem, status);
+    sdp_mem_check_writeable(mem, status);
+}
+
+
 void sdp_count_and_prefix_sum(
         const sdp_Mem* uvw,
         const sdp_Mem* freqs,
@@ -319,10 +353,8 @@ void sdp_count_and_prefix_sum(
         sdp_Error* status
 )
 {
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(tile_offsets, status);
-    sdp_mem_clear_contents(num_points_in_tiles, status);
-    sdp_mem_clear_contents(num_skipped, status);
+    check_tile_params(grid_size, tile_size_u, tile_size_v, support, status);
+    if (*status) return;
 
     sdp_MemLocation vis_location = sdp_mem_location(vis);
     sdp_MemType vis_type = sdp_mem_type(vis);
@@ -365,6 +397,29 @@ void sdp_count_and_prefix_sum(
             num_baselines,
             status
     );
+    sdp_mem_check_type(freqs, uvw_type, status);
+    sdp_mem_check_location(freqs, vis_location, status);
+    sdp_mem_check_shape(freqs, 1, &num_channels, status);
+    sdp_mem_check_c_contiguity(freqs, status);
+    check_output_array(tile_offsets, SDP_MEM_INT, vis_location,
+            num_tiles + 1, status
+    );
+    check_output_array(num_points_in_tiles, SDP_MEM_INT, vis_location,
+            num_tiles, status
+    );
+    check_output_array(num_skipped, SDP_MEM_INT, vis_location, 1, status);
+    if (*status) return;
+    if (uvw_type != SDP_MEM_DOUBLE && uvw_type != SDP_MEM_FLOAT)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+        return;
+    }
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(tile_offsets, status);
+    sdp_mem_clear_contents(num_points_in_tiles, status);
+    sdp_mem_clear_contents(num_skipped, status);
 
     if (vis_location == SDP_MEM_CPU)
     {
@@ -541,12 +596,8 @@ void sdp_bucket_sort(
 )
 {
     if (*status) return;
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(sorted_uu, status);
-    sdp_mem_clear_contents(sorted_tile, status);
-    sdp_mem_clear_contents(sorted_vv, status);
-    sdp_mem_clear_contents(sorted_weight, status);
-    sdp_mem_clear_contents(sorted_vis, status);
+    check_tile_params(grid_size, tile_size_u, tile_size_v, support, status);
+    if (*status) return;
 
     sdp_MemLocation vis_location = sdp_mem_location(vis);
     sdp_MemType vis_type = sdp_mem_type(vis);
@@ -601,6 +652,40 @@ void sdp_bucket_sort(
             num_pols,
             status
     );
+    const int64_t num_sorted = sdp_mem_shape_dim(sorted_uu, 0);
+    sdp_mem_check_type(freqs, uvw_type, status);
+    sdp_mem_check_location(freqs, vis_location, status);
+    sdp_mem_check_shape(freqs, 1, &num_channels, status);
+    sdp_mem_check_c_contiguity(freqs, status);
+    sdp_mem_check_type(weights, uvw_type, status);
+    sdp_mem_check_c_contiguity(vis, status);
+    check_output_array(sorted_uu, uvw_type, vis_location, num_sorted, status);
+    check_output_array(sorted_vv, uvw_type, vis_location, num_sorted, status);
+    check_output_array(sorted_weight, uvw_type, vis_location, num_sorted,
+            status
+    );
+    check_output_array(sorted_tile, SDP_MEM_INT, vis_location, num_sorted,
+            status
+    );
+    check_output_array(sorted_vis, vis_type, vis_location, num_sorted, status);
+    check_output_array(tile_offsets, SDP_MEM_INT, vis_location,
+            num_tiles + 1, status
+    );
+    if (*status) return;
+    if (!(uvw_type == SDP_MEM_DOUBLE && vis_type == SDP_MEM_COMPLEX_DOUBLE) &&
+            !(uvw_type == SDP_MEM_FLOAT && vis_type == SDP_MEM_COMPLEX_FLOAT))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+        return;
+    }
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(sorted_uu, status);
+    sdp_mem_clear_contents(sorted_tile, status);
+    sdp_mem_clear_contents(sorted_vv, status);
+    sdp_mem_clear_contents(sorted_weight, status);
+    sdp_mem_clear_contents(sorted_vis, status);
 
     if (vis_location == SDP_MEM_CPU)
     {
@@ -764,11 +849,8 @@ void sdp_tiled_indexing(
 )
 {
     if (*status) return;
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(sorted_tile, status);
-    sdp_mem_clear_contents(sorted_vis_index, status);
-    sdp_mem_clear_contents(sorted_vv, status);
-    sdp_mem_clear_contents(sorted_uu, status);
+    check_tile_params(grid_size, tile_size_u, tile_size_v, support, status);
+    if (*status) return;
 
     sdp_MemLocation uvw_loc = sdp_mem_location(uvw);
     sdp_MemType uvw_type = sdp_mem_type(uvw);
@@ -793,6 +875,34 @@ void sdp_tiled_indexing(
             num_baselines,
             status
     );
+    const int64_t num_tiles_v = (grid_size + tile_size_v - 1) / tile_size_v;
+    const int64_t num_sorted = sdp_mem_shape_dim(sorted_uu, 0);
+    sdp_mem_check_type(freqs, uvw_type, status);
+    sdp_mem_check_location(freqs, uvw_loc, status);
+    sdp_mem_check_shape(freqs, 1, &num_channels, status);
+    sdp_mem_check_c_contiguity(freqs, status);
+    check_output_array(sorted_uu, uvw_type, uvw_loc, num_sorted, status);
+    check_output_array(sorted_vv, uvw_type, uvw_loc, num_sorted, status);
+    check_output_array(sorted_tile, SDP_MEM_INT, uvw_loc, num_sorted, status);
+    check_output_array(sorted_vis_index, SDP_MEM_INT, uvw_loc, num_sorted,
+            status
+    );
+    check_output_array(tile_offsets, SDP_MEM_INT, uvw_loc,
+            num_tiles_u * num_tiles_v + 1, status
+    );
+    if (*status) return;
+    if (uvw_type != SDP_MEM_DOUBLE && uvw_type != SDP_MEM_FLOAT)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+        return;
+    }
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(sorted_tile, status);
+    sdp_mem_clear_contents(sorted_vis_index, status);
+    sdp_mem_clear_contents(sorted_vv, status);
+    sdp_mem_clear_contents(sorted_uu, status);
 
     if (uvw_loc == SDP_MEM_CPU)
     {
-- 
2.43.0


From c6a978e00e06bfd1e508b222e010e700bc2e1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 057/101] fix: check all arrays in Hogbom CLEAN

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp | 25 +++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index e30a947..f90c361 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -843,6 +843,31 @@ void sdp_hogbom_clean(
         return;
     }
 
+    const int64_t img_shape[] = {dirty_img_dim, dirty_img_dim};
+    const int64_t psf_shape[] = {2 * dirty_img_dim, 2 * dirty_img_dim};
+    sdp_mem_check_shape(dirty_img, 2, img_shape, status);
+    sdp_mem_check_shape(psf, 2, psf_shape, status);
+    sdp_mem_check_shape(clean_model, 2, img_shape, status);
+    sdp_mem_check_shape(residual, 2, img_shape, status);
+    sdp_mem_check_shape(skymodel, 2, img_shape, status);
+    sdp_mem_check_num_dims(cbeam_details, 1, status);
+    sdp_mem_check_type(cbeam_details, data_type, status);
+    sdp_mem_check_type(clean_model, data_type, status);
+    sdp_mem_check_type(residual, data_type, status);
+    sdp_mem_check_location(psf, location, status);
+    sdp_mem_check_location(clean_model, location, status);
+    sdp_mem_check_location(residual, location, status);
+    sdp_mem_check_location(cbeam_details, SDP_MEM_CPU, status);
+    sdp_mem_check_writeable(clean_model, status);
+    sdp_mem_check_writeable(residual, status);
+    sdp_mem_check_c_contiguity(dirty_img, status);
+    sdp_mem_check_c_contiguity(psf, status);
+    sdp_mem_check_c_contiguity(cbeam_details, status);
+    sdp_mem_check_c_contiguity(clean_model, status);
+    sdp_mem_check_c_contiguity(residual, status);
+    sdp_mem_check_c_contiguity(skymodel, status);
+    if (*status) return;
+
     if (cycle_limit < 1)
     {
         *status = SDP_ERR_RUNTIME;
-- 
2.43.0


From 9600ee42864460a16b087eca42ef033922d88f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 058/101] fix: check all arrays in multi-scale CLEAN

---
 .../clean/sdp_ms_clean_cornwell.cpp           | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
index cf22b90..526061f 100755
--- a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
+++ b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
@@ -870,6 +870,37 @@ void sdp_ms_clean_cornwell(
         return;
     }
 
+    const int64_t img_shape[] = {dirty_img_dim, dirty_img_dim};
+    const int64_t psf_shape[] = {2 * dirty_img_dim, 2 * dirty_img_dim};
+    sdp_mem_check_shape(dirty_img, 2, img_shape, status);
+    sdp_mem_check_shape(psf, 2, psf_shape, status);
+    sdp_mem_check_shape(clean_model, 2, img_shape, status);
+    sdp_mem_check_shape(residual, 2, img_shape, status);
+    sdp_mem_check_shape(skymodel, 2, img_shape, status);
+    sdp_mem_check_num_dims(cbeam_details, 1, status);
+    sdp_mem_check_num_dims(scale_list, 1, status);
+    sdp_mem_check_type(cbeam_details, data_type, status);
+    sdp_mem_check_type(clean_model, data_type, status);
+    sdp_mem_check_type(residual, data_type, status);
+    sdp_mem_check_location(psf, location, status);
+    sdp_mem_check_location(clean_model, location, status);
+    sdp_mem_check_location(residual, location, status);
+    if (location == SDP_MEM_CPU)
+    {
+        sdp_mem_check_location(cbeam_details, location, status);
+        sdp_mem_check_location(scale_list, location, status);
+    }
+    sdp_mem_check_writeable(clean_model, status);
+    sdp_mem_check_writeable(residual, status);
+    sdp_mem_check_c_contiguity(dirty_img, status);
+    sdp_mem_check_c_contiguity(psf, status);
+    sdp_mem_check_c_contiguity(cbeam_details, status);
+    sdp_mem_check_c_contiguity(scale_list, status);
+    sdp_mem_check_c_contiguity(clean_model, status);
+    sdp_mem_check_c_contiguity(residual, status);
+    sdp_mem_check_c_contiguity(skymodel, status);
+    if (*status) return;
+
     // copy dirty image to starting residual
     sdp_mem_copy_contents(residual, dirty_img, 0, 0,
             (dirty_img_dim * dirty_img_dim), status
-- 
2.43.0


From 193b7ccd90f4cd7938730d58d81a9a3559ad7ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 059/101] fix: check array types and sizes in the dipole beam
 function

---
 .../station_beam/sdp_element_dipole.cpp       | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index d394a1c..5c52355 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -96,6 +96,25 @@ static void sdp_dipole_pattern_scalar(
 }
 
 
+static void check_array(
+        const sdp_Mem* mem,
+        sdp_MemType type,
+        int location,
+        int64_t min_num_elements,
+        sdp_Error* status
+)
+{
+    sdp_mem_check_type(mem, type, status);
+    sdp_mem_check_location(mem, (sdp_MemLocation) location, status);
+    sdp_mem_check_c_contiguity(mem, status);
+    if (!*status && sdp_mem_num_elements(mem) < min_num_elements)
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Array too small");
+    }
+}
+
+
 void sdp_element_beam_dipole(
         int num_points,
         const sdp_Mem* theta_rad,
@@ -131,6 +150,24 @@ void sdp_element_beam_dipole(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    if (num_points < 0 || stride_element_beam < 0 ||
+            index_offset_element_beam < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Invalid number of points, stride or offset");
+        return;
+    }
+    const sdp_MemType real_type = (type == SDP_MEM_COMPLEX_DOUBLE) ?
+                SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
+    check_array(theta_rad, real_type, location, num_points, status);
+    check_array(phi_rad, real_type, location, num_points, status);
+    check_array(element_beam, type, location, num_points <= 0 ? 0 :
+                ((int64_t) num_points - 1) * stride_element_beam +
+                index_offset_element_beam + (element_beam_is_complex4 ? 2 : 1),
+                status
+    );
+    sdp_mem_check_writeable(element_beam, status);
+    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
-- 
2.43.0


From fed246270824c1c78026c1a14962c3031c70087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 060/101] fix: check array types and sizes in the spherical
 wave beam function

---
 .../sdp_element_spherical_wave_harp.cpp       | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index 1240ea2..102bda8 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -122,6 +122,25 @@ void sdp_spherical_wave_pattern_harp (
 }
 
 
+static void check_array(
+        const sdp_Mem* mem,
+        sdp_MemType type,
+        int location,
+        int64_t min_num_elements,
+        sdp_Error* status
+)
+{
+    sdp_mem_check_type(mem, type, status);
+    sdp_mem_check_location(mem, (sdp_MemLocation) location, status);
+    sdp_mem_check_c_contiguity(mem, status);
+    if (!*status && sdp_mem_num_elements(mem) < min_num_elements)
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Array too small");
+    }
+}
+
+
 void sdp_element_beam_spherical_wave_harp(
         int num_points,
         const sdp_Mem* theta_rad,
@@ -153,6 +172,25 @@ void sdp_element_beam_spherical_wave_harp(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    if (num_points < 0 || l_max < 0 || index_offset_element_beam < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Invalid number of points, order or offset");
+        return;
+    }
+    const sdp_MemType real_type = (type == SDP_MEM_COMPLEX_DOUBLE) ?
+                SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
+    check_array(theta_rad, real_type, location, num_points, status);
+    check_array(phi_x_rad, real_type, location, num_points, status);
+    check_array(phi_y_rad, real_type, location, num_points, status);
+    check_array(coeffs, type, location,
+            4 * (((int64_t) l_max + 1) * ((int64_t) l_max + 1) - 1), status
+    );
+    check_array(element_beam, type, location, num_points <= 0 ? 0 :
+                4 * ((int64_t) num_points + index_offset_element_beam), status
+    );
+    sdp_mem_check_writeable(element_beam, status);
+    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
-- 
2.43.0


From 330b74d9c6ea01d494350cd09f0a8b4cae9386b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 061/101] fix: check array types and sizes in the station beam
 function

---
 src/ska-sdp-func/station_beam/sdp_station.cpp | 61 +++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 4ba78ed..ccdeb78 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -172,6 +172,25 @@ static const void* sdp_station_optional_data(const sdp_Mem* mem)
 }
 
 
+static void check_array(
+        const sdp_Mem* mem,
+        sdp_MemType type,
+        int location,
+        int64_t min_num_elements,
+        sdp_Error* status
+)
+{
+    sdp_mem_check_type(mem, type, status);
+    sdp_mem_check_location(mem, (sdp_MemLocation) location, status);
+    sdp_mem_check_c_contiguity(mem, status);
+    if (!*status && sdp_mem_num_elements(mem) < min_num_elements)
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Array too small");
+    }
+}
+
+
 void sdp_station_beam_aperture_array(
         const double wavenumber,
         const sdp_Mem* element_weights,
@@ -227,6 +246,48 @@ void sdp_station_beam_aperture_array(
         return;
     }
     const int is_complex4 = sdp_mem_is_complex4(station_beam);
+    if (num_points < 0 || index_offset_points < 0 ||
+            index_offset_station_beam < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Invalid number of points or offset");
+        return;
+    }
+    const int num_pol = is_complex4 ? 4 : 1;
+    const int64_t num_points_min = (int64_t) num_points + index_offset_points;
+    const sdp_MemType complex_type = (precision == SDP_MEM_DOUBLE) ?
+                SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT;
+    check_array(element_weights, complex_type, location, num_elements, status);
+    check_array(element_x, precision, location, num_elements, status);
+    check_array(element_y, precision, location, num_elements, status);
+    check_array(element_z, precision, location, num_elements, status);
+    check_array(point_x, precision, location, num_points_min, status);
+    check_array(point_y, precision, location, num_points_min, status);
+    if (sdp_station_optional_data(point_z))
+    {
+        check_array(point_z, precision, location, num_points_min, status);
+    }
+    if (sdp_station_optional_data(element_beam_index))
+    {
+        check_array(element_beam_index, SDP_MEM_INT, location, num_elements,
+                status
+        );
+    }
+    if (sdp_station_optional_data(element_beam))
+    {
+        const int64_t num_beams = (
+            sdp_station_optional_data(element_beam_index) ? 1 : num_elements
+        );
+        check_array(element_beam, complex_type, location,
+                num_beams * num_points * num_pol, status
+        );
+    }
+    check_array(station_beam, complex_type, location, num_points <= 0 ? 0 :
+                num_pol * ((int64_t) num_points + index_offset_station_beam),
+                status
+    );
+    sdp_mem_check_writeable(station_beam, status);
+    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (precision == SDP_MEM_FLOAT && !is_complex4)
-- 
2.43.0


From b9ae84c5c7f749aecd0daf530fc85d245dc8bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 062/101] fix: check kernel dimensions and contiguity in
 degrid_uvw_custom

---
 .../grid_data/sdp_degrid_uvw_custom.cpp             | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index be08cfb..07c0042 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -234,7 +234,20 @@ void sdp_degrid_uvw_custom(
         num_channels, z_size, y_size, x_size, num_pols
     };
     sdp_mem_check_shape(grid, 5, expected_grid_shape, status);
+    sdp_mem_check_num_dims(uv_kernel, 2, status);
+    sdp_mem_check_num_dims(w_kernel, 2, status);
+    sdp_mem_check_c_contiguity(grid, status);
+    sdp_mem_check_c_contiguity(uvw, status);
+    sdp_mem_check_c_contiguity(uv_kernel, status);
+    sdp_mem_check_c_contiguity(w_kernel, status);
+    sdp_mem_check_c_contiguity(vis, status);
     if (*status) return;
+    if (w_kernel_size > z_size)
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("The w-kernel must not be larger than the grid");
+        return;
+    }
 
     if (sdp_mem_location(grid) != vis_location ||
             sdp_mem_location(uv_kernel) != vis_location ||
-- 
2.43.0


From e4ff77ab9a9df58a119cf5af7e644881cd5a2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 063/101] fix: check arrays before clamping channels

---
 .../grid_data/sdp_gridder_clamp_channels.cpp  | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
index f218a78..ec2a934 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
@@ -6,6 +6,31 @@
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+static void check_row_range(
+        const sdp_Mem* uvws,
+        int64_t min_num_columns,
+        const sdp_Mem* start_ch_in,
+        const sdp_Mem* end_ch_in,
+        const sdp_Mem* start_ch_out,
+        const sdp_Mem* end_ch_out,
+        int64_t end_row,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (sdp_mem_shape_dim(uvws, 1) < min_num_columns ||
+            sdp_mem_shape_dim(uvws, 0) < end_row ||
+            sdp_mem_shape_dim(start_ch_in, 0) < end_row ||
+            sdp_mem_shape_dim(end_ch_in, 0) < end_row ||
+            sdp_mem_shape_dim(start_ch_out, 0) < end_row ||
+            sdp_mem_shape_dim(end_ch_out, 0) < end_row)
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Array dimensions too small for selected rows");
+    }
+}
+
+
 template<typename UVW_TYPE>
 void clamp_channels_single(
         const sdp_Mem* uvws,
@@ -32,6 +57,15 @@ void clamp_channels_single(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    check_row_range(uvws, dim + 1, start_ch_in, end_ch_in, start_ch_out,
+            end_ch_out, end_row, status
+    );
+    if (!*status && dim < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Invalid coordinate dimension");
+    }
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
@@ -93,6 +127,10 @@ void clamp_channels_uv(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    check_row_range(uvws, 2, start_ch_in, end_ch_in, start_ch_out,
+            end_ch_out, end_row, status
+    );
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
-- 
2.43.0


From 2d33a3e6b3e9efcdd8b6c22ef3a5faa6476b0f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 064/101] fix: Check array views and shapes when scaling and
 accumulating arrays

---
 .../grid_data/sdp_gridder_utils.cpp           | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 1fba3a0..3335220 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -29,11 +29,22 @@ void accum_scale_array(
 {
     sdp_MemViewCpu<OUT_TYPE, 2> out_;
     sdp_MemViewCpu<const IN1_TYPE, 2> in1_;
+    sdp_MemViewCpu<const IN2_TYPE, 2> in2_;
+    const bool use_in2 = (exponent != 0 && in2);
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
+    if (use_in2) sdp_mem_check_and_view(in2, &in2_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
-    if (exponent == 0 || !in2)
+    if (in1_.shape[0] != shape0 || in1_.shape[1] != shape1 || (use_in2 &&
+            (in2_.shape[0] != shape0 || in2_.shape[1] != shape1)))
+    {
+        SDP_LOG_ERROR("Input and output array shapes are different");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
+    if (!use_in2)
     {
         #pragma omp parallel for
         for (int i = 0; i < shape0; ++i)
@@ -46,8 +57,6 @@ void accum_scale_array(
     }
     else
     {
-        sdp_MemViewCpu<const IN2_TYPE, 2> in2_;
-        sdp_mem_check_and_view(in2, &in2_, status);
         if (exponent == 1)
         {
             #pragma omp parallel for
@@ -96,6 +105,13 @@ void accum_complex_real_array(
     if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
+    if (in1_.shape[0] != shape0 || in1_.shape[1] != shape1 || (exponent != 0 &&
+            (in2_.shape[0] != shape0 || in2_.shape[1] != shape1)))
+    {
+        SDP_LOG_ERROR("Input and output array shapes are different");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
     #pragma omp parallel for
     for (int i = 0; i < shape0; ++i)
     {
@@ -541,8 +557,16 @@ void scale_inv_array(
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
     sdp_mem_check_and_view(in2, &in2_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
+    if (in1_.shape[0] != shape0 || in1_.shape[1] != shape1 ||
+            in2_.shape[0] != shape0 || in2_.shape[1] != shape1)
+    {
+        SDP_LOG_ERROR("Input and output array shapes are different");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
     if (exponent == 1)
     {
         #pragma omp parallel for
-- 
2.43.0


From 587bcb45d77d71a18f08b854f92f70deafd49eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 065/101] fix: Check array shapes in the direct gridder
 transforms

---
 .../grid_data/sdp_gridder_utils.cpp           | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 3335220..70a1b4d 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -202,6 +202,15 @@ void dft(
     sdp_mem_check_and_view(lmn, &lmn_, status);
     sdp_mem_check_and_view(vis, &vis_, status);
     if (*status) return;
+    if (uvw_.shape[1] < 3 || lmn_.shape[1] < 3 ||
+            lmn_.shape[0] < num_sources || vis_.shape[0] < num_uvw ||
+            (start_chs && end_chs && (start_chs_.shape[0] < num_uvw ||
+            end_chs_.shape[0] < num_uvw)))
+    {
+        SDP_LOG_ERROR("Inconsistent array shapes");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
 
     // Scale subgrid offset values.
     double du = 0, dv = 0, dw = 0;
@@ -296,6 +305,18 @@ void idft(
     sdp_mem_check_and_view(image, &image_, status);
     if (image_taper_1d) sdp_mem_check_and_view(image_taper_1d, &taper_, status);
     if (*status) return;
+    if (uvw_.shape[1] < 3 || lmn_.shape[1] < 3 ||
+            image_.shape[1] != image_size ||
+            lmn_.shape[0] < image_size * image_size ||
+            vis_.shape[0] < num_uvw ||
+            (image_taper_1d && taper_.shape[0] < image_size) ||
+            (start_chs && end_chs && (start_chs_.shape[0] < num_uvw ||
+            end_chs_.shape[0] < num_uvw)))
+    {
+        SDP_LOG_ERROR("Inconsistent array shapes");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
 
     // Scale subgrid offset values.
     double du = 0, dv = 0, dw = 0;
-- 
2.43.0


From 3418b771625d817df03e2eec5f5c9bb4e01102b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 066/101] fix: Check array shapes when converting an image to a
 source list

---
 .../grid_data/sdp_gridder_utils.cpp           | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 70a1b4d..a925687 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -408,18 +408,33 @@ void image_to_flmn(
     sdp_MemViewCpu<const double, 1> taper_;
     sdp_mem_check_and_view(lmn, &lmn_, status);
     if (image_taper_1d) sdp_mem_check_and_view(image_taper_1d, &taper_, status);
-
-    // Store pixel data.
+    sdp_MemViewCpu<const IMAGE_TYPE, 2> image_;
+    sdp_MemViewCpu<FLUX_TYPE, 1> flux_;
+    sdp_mem_check_and_view(image, &image_, status);
+    if (flux) sdp_mem_check_and_view(flux, &flux_, status);
     if (*status) return;
+
+    // Check there is space for all the values to be written.
     int64_t k = 0;
     const int size_l = (int) sdp_mem_shape_dim(image, 0);
     const int size_m = (int) sdp_mem_shape_dim(image, 1);
+    const int64_t num_out = (
+        flux ? count_nonzero_pixels<IMAGE_TYPE>(image, status) :
+                (int64_t) size_l * size_m
+    );
+    if (lmn_.shape[0] < num_out || lmn_.shape[1] < 3 ||
+            (flux && flux_.shape[0] < num_out) ||
+            (image_taper_1d && (taper_.shape[0] < size_l ||
+            taper_.shape[0] < size_m)))
+    {
+        SDP_LOG_ERROR("Inconsistent array shapes");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
+
+    // Store pixel data.
     if (flux)
     {
-        sdp_MemViewCpu<const IMAGE_TYPE, 2> image_;
-        sdp_MemViewCpu<FLUX_TYPE, 1> flux_;
-        sdp_mem_check_and_view(image, &image_, status);
-        sdp_mem_check_and_view(flux, &flux_, status);
         for (int il = 0; il < size_l; ++il)
         {
             const double l = (il - size_l / 2) * theta / size_l;
-- 
2.43.0


From 35839638eca5a0c226319c47a4fb5f2fa2555f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 067/101] fix: Check the shape of the w-pattern array

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index a925687..4c9831a 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1521,6 +1521,13 @@ void sdp_gridder_make_w_pattern(
     sdp_mem_check_and_view(w_pattern, &w_pattern_, status);
     const int half_size = subgrid_size / 2;
     if (*status) return;
+    if (w_pattern_.shape[0] != subgrid_size ||
+            w_pattern_.shape[1] != subgrid_size)
+    {
+        SDP_LOG_ERROR("The w-pattern must be the same size as the sub-grid");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
     #pragma omp parallel for
     for (int il = 0; il < subgrid_size; ++il)
     {
-- 
2.43.0


From f043fedbebe8cc703eba47dde0b74d8fce2ea491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 068/101] fix: Check the range of rows in sdp_gridder_sum_diff

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 4c9831a..e1948a6 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -765,7 +765,7 @@ void sum_diff(
     sdp_mem_check_and_view(a, &a_, status);
     sdp_mem_check_and_view(b, &b_, status);
     if (*status) return;
-    if (a_.shape[0] != b_.shape[0])
+    if (a_.shape[0] != b_.shape[0] || end_row > a_.shape[0])
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
         return;
-- 
2.43.0


From a33eeb2ba19c3be80eef813026077986fd090103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 069/101] fix: Check array shapes when finding (u,v,w) bounds

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index e1948a6..6b171f1 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -790,11 +790,18 @@ void uvw_bounds_all(
         const sdp_MemViewCpu<const int, 1>& end_chs,
         double uvw_min[3],
         double uvw_max[3],
-        const sdp_Error* status
+        sdp_Error* status
 )
 {
     const int64_t num_uvw = uvws.shape[0];
     if (*status) return;
+    if (uvws.shape[1] < 3 || start_chs.shape[0] < num_uvw ||
+            end_chs.shape[0] < num_uvw)
+    {
+        SDP_LOG_ERROR("Inconsistent array shapes");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
     for (int64_t i = 0; i < num_uvw; ++i)
     {
         const int start_ch = start_chs(i), end_ch = end_chs(i);
-- 
2.43.0


From 98762bb93f0b956b0602367416aa73bee8366e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 070/101] fix: Check arguments when making the worst-case image

---
 .../grid_data/sdp_gridder_wtower_height.cpp   | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index d535c89..25bd25b 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -294,16 +294,33 @@ void sdp_gridder_worst_case_image(
         SDP_LOG_ERROR("Image must be square");
         return;
     }
+    if (sdp_mem_type(image) != SDP_MEM_COMPLEX_DOUBLE)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+        return;
+    }
+    sdp_mem_check_writeable(image, status);
+    if (*status) return;
 
     // Make sources / image with source in corners of fov. Make sure it doesn't
     // divide the subgrid size equally (then there's a good chance we're
     // operating on-grid, and therefore not actually testing the window
     // function).
     int fov_edge = int(image_size / theta * fov / 2);
-    while (image_size % fov_edge == 0)
+    while (fov_edge > 0 && image_size % fov_edge == 0)
     {
         fov_edge -= 1;
     }
+    if (fov_edge <= 0 || image_size / 2 + fov_edge >= image_size ||
+            image_size / 2 - fov_edge - 1 < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Sources at the edge of the field of view "
+                "are not inside the image"
+        );
+        return;
+    }
 
     // Put sources into corners, careful not to generate actual symmetries.
     sdp_mem_clear_contents(image, status);
-- 
2.43.0


From c6ec1516d2a975cce2e4d3c88a5b081ee3f1a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 071/101] fix: Check arguments when creating a direct gridder

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 50ae997..5ae8938 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -37,6 +37,13 @@ sdp_GridderDirect* sdp_gridder_direct_create(
         sdp_Error* status
 )
 {
+    if (*status) return NULL;
+    if (image_size <= 0 || subgrid_size <= 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Image and sub-grid sizes must be positive");
+        return NULL;
+    }
     sdp_GridderDirect* plan = (sdp_GridderDirect*)calloc(
             1, sizeof(sdp_GridderDirect)
     );
-- 
2.43.0


From fd41ebd95f1d8eb561b920b0e537632bb28e93fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 072/101] fix: Check the sub-grid image size in the direct
 gridder

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 5ae8938..d6e6d22 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -83,6 +83,9 @@ void sdp_gridder_direct_degrid(
 )
 {
     if (*status) return;
+    const int64_t subgrid_shape[] = {plan->subgrid_size, plan->subgrid_size};
+    sdp_mem_check_shape(subgrid_image, 2, subgrid_shape, status);
+    if (*status) return;
 
     // Count nonzero pixels in image.
     int64_t num_src = sdp_gridder_count_nonzero_pixels(subgrid_image, status);
@@ -151,6 +154,9 @@ void sdp_gridder_direct_grid(
 )
 {
     if (*status) return;
+    const int64_t subgrid_shape[] = {plan->subgrid_size, plan->subgrid_size};
+    sdp_mem_check_shape(subgrid_image, 2, subgrid_shape, status);
+    if (*status) return;
 
     // Allocate space for coordinates of all pixels in the image.
     int64_t num_src = sdp_mem_num_elements(subgrid_image);
-- 
2.43.0


From edc0f356f172c4c37ac637e8dc7ce21ee3f6a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 073/101] fix: Check arguments when creating a w-towers gridder

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index c4f060f..1ef9535 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -697,6 +697,14 @@ sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(
         sdp_Error* status
 )
 {
+    if (*status) return NULL;
+    if (image_size <= 0 || subgrid_size <= 0 || support <= 0 ||
+            oversampling <= 0 || w_support <= 0 || w_oversampling <= 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Grid, sub-grid and kernel sizes must be positive");
+        return NULL;
+    }
     if (subgrid_size % 2 != 0)
     {
         // If subgrid_size isn't even, the current FFT shift won't be correct.
-- 
2.43.0


From d97c5ac5c0216f8d138e894a388750cfd5607465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 074/101] fix: Check array shapes and row range in the w-towers
 gridder

---
 .../grid_data/sdp_gridder_wtower_uvw.cpp      | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 1ef9535..d959a55 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -680,6 +680,38 @@ void grid_gpu(
     );
 }
 
+
+// Local function to check that array shapes are consistent with each other,
+// with the plan and with the range of rows.
+void check_shapes(
+        const sdp_GridderWtowerUVW* plan,
+        const sdp_Mem* subgrid_image,
+        const sdp_Mem* uvws,
+        const sdp_Mem* start_chs,
+        const sdp_Mem* end_chs,
+        const sdp_Mem* vis,
+        int64_t end_row,
+        sdp_Error* status
+)
+{
+    const int64_t num_rows = sdp_mem_shape_dim(uvws, 0);
+    const int64_t subgrid_shape[] = {plan->subgrid_size, plan->subgrid_size};
+    sdp_mem_check_shape(subgrid_image, 2, subgrid_shape, status);
+    sdp_mem_check_num_dims(uvws, 2, status);
+    sdp_mem_check_num_dims(start_chs, 1, status);
+    sdp_mem_check_num_dims(end_chs, 1, status);
+    sdp_mem_check_num_dims(vis, 2, status);
+    if (*status) return;
+    if (sdp_mem_shape_dim(uvws, 1) < 3 || end_row > num_rows ||
+            sdp_mem_shape_dim(start_chs, 0) < num_rows ||
+            sdp_mem_shape_dim(end_chs, 0) < num_rows ||
+            sdp_mem_shape_dim(vis, 0) < num_rows)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Inconsistent array shapes or range of rows");
+    }
+}
+
 } // End anonymous namespace for file-local functions.
 
 
@@ -791,6 +823,10 @@ void sdp_gridder_wtower_uvw_degrid(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    check_shapes(
+            plan, subgrid_image, uvws, start_chs, end_chs, vis, end_row, status
+    );
+    if (*status) return;
 
     // Copy internal arrays to GPU memory as required.
     sdp_Mem* w_pattern_ptr = plan->w_pattern;
@@ -1000,6 +1036,10 @@ void sdp_gridder_wtower_uvw_grid(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    check_shapes(
+            plan, subgrid_image, uvws, start_chs, end_chs, vis, end_row, status
+    );
+    if (*status) return;
 
     // Copy internal arrays to GPU memory as required.
     sdp_Mem* w_pattern_ptr = plan->w_pattern;
-- 
2.43.0


From d7394947a9b0d18be2a579039871a5bcfc178c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 075/101] fix: Report errors from the w-stacking gridder
 instead of exiting

---
 .../grid_data/sdp_grid_wstack_wtower.cpp      | 52 +++++++++++++++++--
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index 5e77046..9bc1a54 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -251,6 +251,28 @@ void sdp_grid_wstack_wtower_degrid_all(
         SDP_LOG_ERROR("Visibilities and (u,v,w)-coordinates must be 2D");
         return;
     }
+    if (sdp_mem_shape_dim(uvw, 0) != sdp_mem_shape_dim(vis, 0) ||
+            sdp_mem_shape_dim(uvw, 1) < 3)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("(u,v,w)-coordinates must have 3 columns, and "
+                "as many rows as the visibilities"
+        );
+        return;
+    }
+    if (sdp_mem_num_dims(image) != 2 ||
+            sdp_mem_shape_dim(image, 0) != sdp_mem_shape_dim(image, 1))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Image must be square");
+        return;
+    }
+    if (!sdp_mem_is_floating_point(image))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Image must be of floating-point type");
+        return;
+    }
     if (w_tower_height == 0.0)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
@@ -439,12 +461,12 @@ void sdp_grid_wstack_wtower_degrid_all(
             }
         }
         sdp_mutex_free(mutex);
-        if (vis_count_check != num_vis)
+        if (!*status && vis_count_check != num_vis)
         {
             SDP_LOG_CRITICAL("Processed %d but expected %d visibilities",
                     (int) vis_count_check, (int) num_vis
             );
-            exit(1);
+            *status = SDP_ERR_RUNTIME;
         }
     }
 
@@ -508,6 +530,28 @@ void sdp_grid_wstack_wtower_grid_all(
         SDP_LOG_ERROR("Visibilities and (u,v,w)-coordinates must be 2D");
         return;
     }
+    if (sdp_mem_shape_dim(uvw, 0) != sdp_mem_shape_dim(vis, 0) ||
+            sdp_mem_shape_dim(uvw, 1) < 3)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("(u,v,w)-coordinates must have 3 columns, and "
+                "as many rows as the visibilities"
+        );
+        return;
+    }
+    if (sdp_mem_num_dims(image) != 2 ||
+            sdp_mem_shape_dim(image, 0) != sdp_mem_shape_dim(image, 1))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Image must be square");
+        return;
+    }
+    if (!sdp_mem_is_floating_point(image))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Image must be of floating-point type");
+        return;
+    }
     if (w_tower_height == 0.0)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
@@ -691,12 +735,12 @@ void sdp_grid_wstack_wtower_grid_all(
             }
         }
         sdp_mutex_free(mutex);
-        if (vis_count_check != num_vis)
+        if (!*status && vis_count_check != num_vis)
         {
             SDP_LOG_CRITICAL("Processed %d but expected %d visibilities",
                     (int) vis_count_check, (int) num_vis
             );
-            exit(1);
+            *status = SDP_ERR_RUNTIME;
         }
 
         // Do image correction / w-stacking.
-- 
2.43.0


From d070185d85f39b4d0b420a333d4512a8212adcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 076/101] fix: Check the facet is inside the image when
 grid-correcting

---
 src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
index 9d72536..d033154 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
@@ -46,6 +46,15 @@ void grid_corr_pswf(
             sdp_pswf_coeff(pswf_n, SDP_MEM_CPU, status)
     );
     const double pswf_n_c = sdp_pswf_par_c(pswf_n);
+    if (image_size / 2 - num_l / 2 + facet_offset_l < 0 ||
+            image_size / 2 - num_l / 2 + facet_offset_l + num_l > image_size ||
+            image_size / 2 - num_m / 2 + facet_offset_m < 0 ||
+            image_size / 2 - num_m / 2 + facet_offset_m + num_m > image_size)
+    {
+        SDP_LOG_ERROR("Facet must be inside the image");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
     #pragma omp parallel for
     for (int il = 0; il < num_l; ++il)
     {
-- 
2.43.0


From ff512da4d0151de0f6cff1095107a1cceb6eaf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:55 +0000
Subject: [PATCH 077/101] fix: Check status before using the result of a
 reduction

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 6b171f1..cd882f2 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -2152,7 +2152,7 @@ void sdp_gridder_sum_diff(
         sdp_Mem* result_cpu = sdp_mem_create_copy(
                 result_gpu, SDP_MEM_CPU, status
         );
-        *result = *((int*) sdp_mem_data(result_cpu));
+        if (!*status) *result = *((int*) sdp_mem_data(result_cpu));
         sdp_mem_free(result_cpu);
         sdp_mem_free(result_gpu);
     }
-- 
2.43.0


From 116431929b5a55467434ab715645347bfa5d9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 078/101] fix: Accept complex images in the argument checks of
 the w-stacking gridder

---
 src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index 9bc1a54..874dda5 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -267,7 +267,7 @@ void sdp_grid_wstack_wtower_degrid_all(
         SDP_LOG_ERROR("Image must be square");
         return;
     }
-    if (!sdp_mem_is_floating_point(image))
+    if (!sdp_mem_is_floating_point(image) && !sdp_mem_is_complex(image))
     {
         *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_ERROR("Image must be of floating-point type");
@@ -546,7 +546,7 @@ void sdp_grid_wstack_wtower_grid_all(
         SDP_LOG_ERROR("Image must be square");
         return;
     }
-    if (!sdp_mem_is_floating_point(image))
+    if (!sdp_mem_is_floating_point(image) && !sdp_mem_is_complex(image))
     {
         *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_ERROR("Image must be of floating-point type");
-- 
2.43.0


From 462d5bcfdb09af86b4218ffcaaca4f38e73b979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 079/101] fix: Do not require a layout of empty arrays in
 vector_add

---
 src/ska-sdp-func/examples/sdp_vector_add.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/examples/sdp_vector_add.cpp b/src/ska-sdp-func/examples/sdp_vector_add.cpp
index f60ece5..4c00427 100644
--- a/src/ska-sdp-func/examples/sdp_vector_add.cpp
+++ b/src/ska-sdp-func/examples/sdp_vector_add.cpp
@@ -57,10 +57,13 @@ void sdp_vector_add(
         SDP_LOG_ERROR("All vectors must have the same number of elements");
         return;
     }
-    sdp_mem_check_c_contiguity(input_a, status);
-    sdp_mem_check_c_contiguity(input_b, status);
-    sdp_mem_check_c_contiguity(output, status);
-    if (*status) return;
+    if (num_elements > 0)
+    {
+        sdp_mem_check_c_contiguity(input_a, status);
+        sdp_mem_check_c_contiguity(input_b, status);
+        sdp_mem_check_c_contiguity(output, status);
+        if (*status) return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (type == SDP_MEM_DOUBLE)
-- 
2.43.0


From e02c9f171f2bf120e1af3cf78097e02e7efd8a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:35 +0000
Subject: [PATCH 080/101] fix: Check status before using views when finding the
 w-tower height

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index 25bd25b..dd73f31 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -124,7 +124,7 @@ double find_gridder_accuracy(
     const double step = (end - start) / (num_samples - 1);
     sdp_MemViewCpu<double, 2> uvws_;
     sdp_mem_check_and_view(uvws, &uvws_, status);
-    for (int i = 0, index = 0; i < num_samples; ++i)
+    for (int i = 0, index = 0; !*status && i < num_samples; ++i)
     {
         for (int j = 0; j < num_samples; ++j, ++index)
         {
@@ -137,7 +137,7 @@ double find_gridder_accuracy(
     // Test gridder at these points.
     sdp_MemViewCpu<int, 1> end_chs_;
     sdp_mem_check_and_view(end_chs, &end_chs_, status);
-    for (int64_t i = 0; i < num_rows; ++i)
+    for (int64_t i = 0; !*status && i < num_rows; ++i)
     {
         end_chs_(i) = 1;
     }
@@ -158,8 +158,9 @@ double find_gridder_accuracy(
     sdp_mem_check_and_view(src_lmn, &lmn_, status);
     sdp_mem_check_and_view(vis_ref, &vis_ref_, status);
     sdp_mem_clear_contents(vis_ref, status);
+    const int64_t num_rows_ref = *status ? 0 : num_rows;
     #pragma omp parallel for
-    for (int64_t i_row = 0; i_row < num_rows; ++i_row)
+    for (int64_t i_row = 0; i_row < num_rows_ref; ++i_row)
     {
         double u = uvws_(i_row, 0), v = uvws_(i_row, 1), w = uvws_(i_row, 2);
         for (int64_t i_src = 0; i_src < num_src; ++i_src)
-- 
2.43.0


From 5c8365899cd761e32adcfd6953eaef7f246d04ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 081/101] Restore the example functions to their original state

---
 src/ska-sdp-func/examples/sdp_function_example_a.cpp | 4 +---
 src/ska-sdp-func/examples/sdp_vector_add.cpp         | 7 -------
 2 files changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index 3218ea2..14c0fc7 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -68,8 +68,6 @@ void sdp_function_example_a_exec(
         SDP_LOG_ERROR("Output is not writable");
         return;
     }
-    sdp_mem_check_c_contiguity(output, status);
-    if (*status) return;
     const int64_t num_elements = sdp_mem_num_elements(output);
     if (num_elements < (plan->a * plan->b))
     {
@@ -83,7 +81,7 @@ void sdp_function_example_a_exec(
     );
 
     float* output_pointer = (float*) sdp_mem_data(output);
-    for (int f = 0; f < plan->a * plan->b; f++)
+    for (int f = 0; f < num_elements; f++)
     {
         float ftemp = 0.f;
         plan->workarea[f] = plan->c * f;
diff --git a/src/ska-sdp-func/examples/sdp_vector_add.cpp b/src/ska-sdp-func/examples/sdp_vector_add.cpp
index 4c00427..10d3064 100644
--- a/src/ska-sdp-func/examples/sdp_vector_add.cpp
+++ b/src/ska-sdp-func/examples/sdp_vector_add.cpp
@@ -57,13 +57,6 @@ void sdp_vector_add(
         SDP_LOG_ERROR("All vectors must have the same number of elements");
         return;
     }
-    if (num_elements > 0)
-    {
-        sdp_mem_check_c_contiguity(input_a, status);
-        sdp_mem_check_c_contiguity(input_b, status);
-        sdp_mem_check_c_contiguity(output, status);
-        if (*status) return;
-    }
     if (location == SDP_MEM_CPU)
     {
         if (type == SDP_MEM_DOUBLE)
-- 
2.43.0


From a7b8e3d3efa3f5479e6dffe66a7ee0e30c4d1706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 082/101] fix: Accept keyword arguments in the Swiftly methods

---
 src/ska_sdp_func/fourier_transforms/swiftly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska_sdp_func/fourier_transforms/swiftly.py b/src/ska_sdp_func/fourier_transforms/swiftly.py
index ca6c495..393af26 100644
--- a/src/ska_sdp_func/fourier_transforms/swiftly.py
+++ b/src/ska_sdp_func/fourier_transforms/swiftly.py
@@ -103,7 +103,7 @@ def auto_wrap_method(c_fn_name, add_handle=True, add_error_status=True):
 
             # Finally call original function, in case there's any
             # additional action to take.
-            return orig_fn(*args, **kwargs)
+            return orig_fn(*bound.args, **bound.kwargs)
 
         return wrapped_fn
 
-- 
2.43.0


From 3b124bdfab878b5dd96f7edc883f25ef6fbee70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 083/101] fix: Make logging safe for concurrent callers

---
 src/ska-sdp-func/utility/sdp_logging.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_logging.c b/src/ska-sdp-func/utility/sdp_logging.c
index c8eefc1..e9a8d56 100644
--- a/src/ska-sdp-func/utility/sdp_logging.c
+++ b/src/ska-sdp-func/utility/sdp_logging.c
@@ -1,5 +1,7 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#define _POSIX_C_SOURCE 200809L // For gmtime_r().
+
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
@@ -23,46 +25,49 @@ void sdp_log_message(
 )
 {
     // Check environment variable for log filter, if not defined.
-    if (log_filter == SDP_LOG_LEVEL_UNDEF)
+    sdp_LogLevel filter = __atomic_load_n(&log_filter, __ATOMIC_RELAXED);
+    if (filter == SDP_LOG_LEVEL_UNDEF)
     {
         const char* env = getenv("SKA_SDP_FUNC_LOG_LEVEL");
         if (env)
         {
             if (!strncmp(env, "debug", 5) || !strncmp(env, "DEBUG", 5))
             {
-                log_filter = SDP_LOG_LEVEL_DEBUG;
+                filter = SDP_LOG_LEVEL_DEBUG;
             }
             else if (!strncmp(env, "info", 4) || !strncmp(env, "INFO", 4))
             {
-                log_filter = SDP_LOG_LEVEL_INFO;
+                filter = SDP_LOG_LEVEL_INFO;
             }
             else if (!strncmp(env, "warn", 4) || !strncmp(env, "WARN", 4))
             {
-                log_filter = SDP_LOG_LEVEL_WARNING;
+                filter = SDP_LOG_LEVEL_WARNING;
             }
             else if (!strncmp(env, "err", 3) || !strncmp(env, "ERR", 3))
             {
-                log_filter = SDP_LOG_LEVEL_ERROR;
+                filter = SDP_LOG_LEVEL_ERROR;
             }
             else if (!strncmp(env, "crit", 4) || !strncmp(env, "CRIT", 4))
             {
-                log_filter = SDP_LOG_LEVEL_CRITICAL;
+                filter = SDP_LOG_LEVEL_CRITICAL;
             }
         }
         else
         {
-            log_filter = SDP_LOG_LEVEL_INFO;
+            filter = SDP_LOG_LEVEL_INFO;
         }
+        __atomic_store_n(&log_filter, filter, __ATOMIC_RELAXED);
     }
 
     // Check filter.
-    if (level < log_filter) return;
+    if (level < filter) return;
 
     // Get timestamp, as a string.
     char time_str[48];
     struct timeval tv;
     const time_t unix_time = time(0);
-    struct tm* timeinfo = gmtime(&unix_time);
+    struct tm time_buf;
+    struct tm* timeinfo = gmtime_r(&unix_time, &time_buf);
     gettimeofday(&tv, 0);
     if (snprintf(time_str, sizeof(time_str),
             "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
-- 
2.43.0


From e50c5a6c09ec48d65289f1d433c37f3a783b681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:58 +0000
Subject: [PATCH 084/101] fix: Check location of worst-case image before
 writing

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index dd73f31..80a1074 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -302,6 +302,7 @@ void sdp_gridder_worst_case_image(
         return;
     }
     sdp_mem_check_writeable(image, status);
+    sdp_mem_check_location(image, SDP_MEM_CPU, status);
     if (*status) return;
 
     // Make sources / image with source in corners of fov. Make sure it doesn't
-- 
2.43.0


From 118527d02006eb3e803a1fb00dbdff3af2dceb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:58 +0000
Subject: [PATCH 085/101] fix: Do not read tile counts from the GPU after an
 error, and free the copies

---
 .../visibility/sdp_tiled_functions.cpp            | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 2018e60..2398b1b 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -563,15 +563,12 @@ void sdp_count_and_prefix_sum(
                 SDP_MEM_CPU,
                 status
         );
-        *num_visibilites = *((int*)sdp_mem_data(tile_offsets_cpy) + num_tiles);
-
-        printf("Number of visibilites %d \n", *num_visibilites);
-        sdp_Mem* numn_skipped_cpy = sdp_mem_create_copy(num_skipped,
-                SDP_MEM_CPU,
-                status
-        );
-        int num_s_vis = *(int*)sdp_mem_data(numn_skipped_cpy);
-        printf("Number of skipped vis %d \n", num_s_vis);
+        if (!*status)
+        {
+            *num_visibilites =
+                    *((int*)sdp_mem_data(tile_offsets_cpy) + num_tiles);
+        }
+        sdp_mem_ref_dec(tile_offsets_cpy);
     }
 }
 
-- 
2.43.0


From 174776dacf7812410b7cd814c4b23a911df746ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:58 +0000
Subject: [PATCH 086/101] fix: Start the sums of weights on the GPU from zero,
 and stop after an error

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index af65db8..db2b10a 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -782,6 +782,9 @@ void sdp_weighting_briggs(
                 status
         );
 
+        sdp_mem_clear_contents(sumweight_gpu, status);
+        sdp_mem_clear_contents(sumweight2_gpu, status);
+
         const char* kernel_name1 = 0;
         if (uvw_type == SDP_MEM_DOUBLE &&
                 weights_type == SDP_MEM_DOUBLE &&
@@ -837,11 +840,15 @@ void sdp_weighting_briggs(
                 status
         );
 
-        double robustness = robustness_calc(
-                *((double*)sdp_mem_data(sumweight2_gpu_cpy)),
-                *((double*)sdp_mem_data(sumweight_gpu_cpy)),
-                robust_param
-        );
+        double robustness = 0;
+        if (!*status)
+        {
+            robustness = robustness_calc(
+                    *((double*)sdp_mem_data(sumweight2_gpu_cpy)),
+                    *((double*)sdp_mem_data(sumweight_gpu_cpy)),
+                    robust_param
+            );
+        }
 
         sdp_mem_ref_dec(sumweight2_gpu);
         sdp_mem_ref_dec(sumweight_gpu);
-- 
2.43.0


From 89a5f3189fc3c55aa6adec2a094c4478b2a93035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:44 +0000
Subject: [PATCH 087/101] fix: Find the maximum in Hogbom CLEAN on the GPU
 within the image, without races

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp |  97 +++++-----
 src/ska-sdp-func/clean/sdp_hogbom_clean.cu  | 204 +++-----------------
 2 files changed, 69 insertions(+), 232 deletions(-)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index f90c361..c0f052f 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -365,7 +365,7 @@ void sdp_hogbom_clean_gpu(
             dirty_img_shape,
             status
     );
-    // sdp_mem_clear_contents(clean_model, status);
+    sdp_mem_clear_contents(clean_model, status);
     sdp_mem_clear_contents(clean_comp_complex_mem, status);
 
     // for psf working space
@@ -405,18 +405,24 @@ void sdp_hogbom_clean_gpu(
     int64_t max_shape[] = {max_size};
 
     // to store image maximum value and index
-    sdp_Mem* max_val_mem = sdp_mem_create(data_type,
-            SDP_MEM_GPU,
-            1,
-            max_shape,
-            status
-    );
-    sdp_Mem* max_idx_mem = sdp_mem_create(SDP_MEM_INT,
-            SDP_MEM_GPU,
-            1,
-            max_shape,
-            status
-    );
+    // (the steps of the reduction alternate between two arrays)
+    sdp_Mem* max_val_mems[2];
+    sdp_Mem* max_idx_mems[2];
+    for (int i = 0; i < 2; ++i)
+    {
+        max_val_mems[i] = sdp_mem_create(data_type,
+                SDP_MEM_GPU,
+                1,
+                max_shape,
+                status
+        );
+        max_idx_mems[i] = sdp_mem_create(SDP_MEM_INT,
+                SDP_MEM_GPU,
+                1,
+                max_shape,
+                status
+        );
+    }
 
     // set up some loop variables
     int cur_cycle = 0;
@@ -424,21 +430,6 @@ void sdp_hogbom_clean_gpu(
     // CLEAN loop executes while the stop conditions (threshold and cycle limit) are not met
     while (cur_cycle < cycle_limit)
     {
-        // reset maximum values for new loop
-        sdp_mem_clear_contents(max_val_mem, status);
-        sdp_mem_clear_contents(max_idx_mem, status);
-
-        bool init_idx = false;
-
-        const void* args[] = {
-            sdp_mem_gpu_buffer_const(residual, status),
-            sdp_mem_gpu_buffer(max_idx_mem, status),
-            sdp_mem_gpu_buffer(max_val_mem, status),
-            sdp_mem_gpu_buffer(max_idx_mem, status),
-            &dirty_img_size,
-            &init_idx
-        };
-
         // find the maximum value in the residual
         if (data_type == SDP_MEM_DOUBLE)
         {
@@ -456,28 +447,36 @@ void sdp_hogbom_clean_gpu(
 
         // launch multiple kernels to perform reduction
         // scale the number of blocks according to the size of the reduction
-        while (num_blocks_reduce[0] > 1)
+        const sdp_Mem* max_in_mem = residual;
+        sdp_Mem* max_val_mem = max_val_mems[0];
+        sdp_Mem* max_idx_mem = max_idx_mems[0];
+        int64_t num_elements_reduce = reduction_size;
+        bool init_idx = false;
+        while (!*status)
         {
+            const int to = max_in_mem == max_val_mems[0] ? 1 : 0;
+            max_val_mem = max_val_mems[to];
+            max_idx_mem = max_idx_mems[to];
+            num_blocks_reduce[0] =
+                    ((num_elements_reduce + num_threads_reduce[0] - 1) /
+                    num_threads_reduce[0]);
+            const void* args[] = {
+                sdp_mem_gpu_buffer_const(max_in_mem, status),
+                sdp_mem_gpu_buffer(max_idx_mems[1 - to], status),
+                sdp_mem_gpu_buffer(max_val_mem, status),
+                sdp_mem_gpu_buffer(max_idx_mem, status),
+                &num_elements_reduce,
+                &init_idx
+            };
             sdp_launch_cuda_kernel(kernel_name,
                     num_blocks_reduce, num_threads_reduce, 0, 0, args, status
             );
-
-            args[4] = &max_size;
-
-            num_blocks_reduce[0] =
-                    ((num_blocks_reduce[0] + num_threads_reduce[0] - 1) /
-                    num_threads_reduce[0]);
-
-            args[0] = sdp_mem_gpu_buffer_const(max_val_mem, status);
-
+            if (num_blocks_reduce[0] <= 1) break;
+            num_elements_reduce = num_blocks_reduce[0];
+            max_in_mem = max_val_mem;
             init_idx = true;
         }
 
-        // perform final reduction with 1 block for final answer
-        sdp_launch_cuda_kernel(kernel_name,
-                num_blocks_reduce, num_threads_reduce, 0, 0, args, status
-        );
-
         // check if threshold has been reached once every 100 iterations
         if (cur_cycle > 0 && cur_cycle % 100 == 0)
         {
@@ -498,11 +497,6 @@ void sdp_hogbom_clean_gpu(
             }
         }
 
-        // reset number of blocks after reducing them in the reduction loop
-        num_blocks_reduce[0] =
-                ((reduction_size + num_threads_reduce[0] - 1) /
-                num_threads_reduce[0]);
-
         // add clean components here
         uint64_t num_threads_clean_comp[] = {1, 1, 1};
         uint64_t num_blocks_clean_comp[] = {1, 1, 1};
@@ -725,8 +719,11 @@ void sdp_hogbom_clean_gpu(
     sdp_mem_ref_dec(cbeam_complex_mem);
     sdp_mem_ref_dec(clean_comp_complex_mem);
     sdp_mem_ref_dec(convolution_result_mem);
-    sdp_mem_ref_dec(max_val_mem);
-    sdp_mem_ref_dec(max_idx_mem);
+    for (int i = 0; i < 2; ++i)
+    {
+        sdp_mem_ref_dec(max_val_mems[i]);
+        sdp_mem_ref_dec(max_idx_mems[i]);
+    }
 }
 
 
diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cu b/src/ska-sdp-func/clean/sdp_hogbom_clean.cu
index 4ddc4af..c1d59d5 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cu
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cu
@@ -174,209 +174,49 @@ SDP_CUDA_KERNEL(create_cbeam<double, cuDoubleComplex>);
 SDP_CUDA_KERNEL(create_cbeam<float, cuFloatComplex>);
 
 
-template<typename T, typename I>
-__device__ void warpReduce(
-        volatile T* max_values,
-        volatile I* max_indices,
-        int tid
-)
-{
-}
-
-
-template<>
-__device__ void warpReduce<double, int>(
-        volatile double* max_values,
-        volatile int* max_indices,
-        int tid
-)
-{
-    if (max_values[tid] < max_values[tid + 16])
-    {
-        max_values[tid] = max_values[tid + 16];
-        max_indices[tid] = max_indices[tid + 16];
-    }
-    if (max_values[tid] < max_values[tid + 8])
-    {
-        max_values[tid] = max_values[tid + 8];
-        max_indices[tid] = max_indices[tid + 8];
-    }
-    if (max_values[tid] < max_values[tid + 4])
-    {
-        max_values[tid] = max_values[tid + 4];
-        max_indices[tid] = max_indices[tid + 4];
-    }
-    if (max_values[tid] < max_values[tid + 2])
-    {
-        max_values[tid] = max_values[tid + 2];
-        max_indices[tid] = max_indices[tid + 2];
-    }
-    if (max_values[tid] < max_values[tid + 1])
-    {
-        max_values[tid] = max_values[tid + 1];
-        max_indices[tid] = max_indices[tid + 1];
-    }
-}
-
-
-template<>
-__device__ void warpReduce<float, int>(
-        volatile float* max_values,
-        volatile int* max_indices,
-        int tid
-)
-{
-    if (max_values[tid] < max_values[tid + 16])
-    {
-        max_values[tid] = max_values[tid + 16];
-        max_indices[tid] = max_indices[tid + 16];
-    }
-    if (max_values[tid] < max_values[tid + 8])
-    {
-        max_values[tid] = max_values[tid + 8];
-        max_indices[tid] = max_indices[tid + 8];
-    }
-    if (max_values[tid] < max_values[tid + 4])
-    {
-        max_values[tid] = max_values[tid + 4];
-        max_indices[tid] = max_indices[tid + 4];
-    }
-    if (max_values[tid] < max_values[tid + 2])
-    {
-        max_values[tid] = max_values[tid + 2];
-        max_indices[tid] = max_indices[tid + 2];
-    }
-    if (max_values[tid] < max_values[tid + 1])
-    {
-        max_values[tid] = max_values[tid + 1];
-        max_indices[tid] = max_indices[tid + 1];
-    }
-}
-
-
 // find the maximum value in a list using reduction
+// (the first one, if there are several with the same value)
 template<typename T, typename I>
 __global__ void find_maximum_value(
         const T* input,
-        I* index_in,
+        const I* index_in,
         T* output,
         I* index_out,
-        const int num_elements,
-        bool init_idx
-)
-{
-}
-
-
-template<>
-__global__ void find_maximum_value<double, int>(
-        const double* input,
-        int* index_in,
-        double* output,
-        int* index_out,
-        const int num_elements,
-        bool init_idx
-)
-{
-    __shared__ double max_values[256];
-    __shared__ int max_indices[256];
-
-    int64_t tid = threadIdx.x;
-    int64_t i = blockIdx.x * (blockDim.x) + threadIdx.x;
-
-    // initialise max_values to lowest possible value
-    max_values[tid] = -__DBL_MAX__;
-    max_indices[tid] = -1;
-
-    // Load input elements into shared memory
-    max_values[tid] = input[i];
-    // if index array has already been initialised then load it
-    if (init_idx == true)
-    {
-        max_indices[tid] = index_in[i];
-    }
-    // if it hasn't, initialise it.
-    else
-    {
-        max_indices[tid] = i;
-    }
-    __syncthreads();
-
-    // Perform reduction in shared memory
-    for (unsigned int stride = blockDim.x / 2; stride > 16; stride >>= 1)
-    {
-        if (tid < stride)
-        {
-            if (max_values[tid] < max_values[tid + stride])
-            {
-                max_values[tid] = max_values[tid + stride];
-                max_indices[tid] = max_indices[tid + stride];
-            }
-        }
-        __syncthreads();
-    }
-
-    if (tid < 16) warpReduce<double, int>(max_values, max_indices, tid);
-
-    // Write the final result to output
-    if (tid == 0)
-    {
-        output[blockIdx.x] = max_values[0];
-        index_out[blockIdx.x] = max_indices[0];
-    }
-}
-
-
-template<>
-__global__ void find_maximum_value<float, int>(
-        const float* input,
-        int* index_in,
-        float* output,
-        int* index_out,
-        const int num_elements,
+        const int64_t num_elements,
         bool init_idx
 )
 {
-    __shared__ float max_values[256];
-    __shared__ int max_indices[256];
+    __shared__ T max_values[NUM_THREADS];
+    __shared__ I max_indices[NUM_THREADS];
 
     int64_t tid = threadIdx.x;
-    int64_t i = blockIdx.x * (blockDim.x) + threadIdx.x;
-
-    // initialise max_values to lowest possible value
-    max_values[tid] = -__FLT_MAX__;
-    max_indices[tid] = -1;
+    int64_t i = (int64_t) blockIdx.x * blockDim.x + threadIdx.x;
 
-    // Load input elements into shared memory
-    max_values[tid] = input[i];
+    // Load input elements into shared memory;
+    // an index of -1 means that there is no element
+    max_values[tid] = i < num_elements ? input[i] : (T) 0;
     // if index array has already been initialised then load it
-    if (init_idx == true)
-    {
-        max_indices[tid] = index_in[i];
-    }
     // if it hasn't, initialise it.
-    else
-    {
-        max_indices[tid] = i;
-    }
+    max_indices[tid] = i < num_elements ? (init_idx ? index_in[i] : (I) i) : -1;
     __syncthreads();
 
     // Perform reduction in shared memory
-    for (unsigned int stride = blockDim.x / 2; stride > 16; stride >>= 1)
+    for (unsigned int stride = blockDim.x / 2; stride > 0; stride >>= 1)
     {
-        if (tid < stride)
+        if (tid < stride && max_indices[tid + stride] >= 0)
         {
-            if (max_values[tid] < max_values[tid + stride])
+            const T value = max_values[tid + stride];
+            const I index = max_indices[tid + stride];
+            if (max_indices[tid] < 0 || max_values[tid] < value ||
+                    (max_values[tid] == value && index < max_indices[tid]))
             {
-                max_values[tid] = max_values[tid + stride];
-                max_indices[tid] = max_indices[tid + stride];
+                max_values[tid] = value;
+                max_indices[tid] = index;
             }
         }
         __syncthreads();
     }
 
-    if (tid < 16) warpReduce<float, int>(max_values, max_indices, tid);
-
     // Write the final result to output
     if (tid == 0)
     {
@@ -414,7 +254,7 @@ __global__ void add_clean_comp<double, double>(
 )
 {
     // check threshold
-    if (highest_value[0] > threshold && *thresh_reached == 0)
+    if (highest_value[0] >= threshold && *thresh_reached == 0)
     {
         // Add fraction of maximum to clean components list
         double inter = __dmul_rn(loop_gain, highest_value[0]);
@@ -441,7 +281,7 @@ __global__ void add_clean_comp<float, float>(
 )
 {
     // check threshold
-    if (*highest_value > threshold && *thresh_reached == 0)
+    if (*highest_value >= threshold && *thresh_reached == 0)
     {
         // Add fraction of maximum to clean components list
         float inter = __fmul_rn(loop_gain, *highest_value);
@@ -489,7 +329,7 @@ __global__ void subtract_psf<double, double>(
 )
 {
     // check threshold
-    if (highest_value[0] > threshold)
+    if (highest_value[0] >= threshold)
     {
         int64_t dirty_img_size = dirty_img_dim * dirty_img_dim;
 
@@ -553,7 +393,7 @@ __global__ void subtract_psf<float, float>(
 )
 {
     // check threshold
-    if (highest_value[0] > threshold)
+    if (highest_value[0] >= threshold)
     {
         int64_t dirty_img_size = dirty_img_dim * dirty_img_dim;
         // int64_t psf_size = psf_dim * psf_dim;
-- 
2.43.0


From afdfdcdb8ca93a5999705a08a79c6035717546f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:44 +0000
Subject: [PATCH 088/101] fix: Pass null pointers to CUDA kernels for absent
 arrays

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index f81197d..f724496 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -688,7 +688,10 @@ const void* sdp_mem_data_const(const sdp_Mem* mem)
 
 void* sdp_mem_gpu_buffer(sdp_Mem* mem, sdp_Error* status)
 {
-    if (*status || !mem) return 0;
+    // (Kernel arguments are pointers to the value.)
+    static void* null_data = 0;
+    if (*status) return 0;
+    if (!mem) return &null_data;
     if (mem->location != SDP_MEM_GPU && mem->type != SDP_MEM_VOID)
     {
         *status = SDP_ERR_MEM_LOCATION;
@@ -701,7 +704,10 @@ void* sdp_mem_gpu_buffer(sdp_Mem* mem, sdp_Error* status)
 
 const void* sdp_mem_gpu_buffer_const(const sdp_Mem* mem, sdp_Error* status)
 {
-    if (*status || !mem) return 0;
+    // (Kernel arguments are pointers to the value.)
+    static void* null_data = 0;
+    if (*status) return 0;
+    if (!mem) return &null_data;
     if (mem->location != SDP_MEM_GPU && mem->type != SDP_MEM_VOID)
     {
         *status = SDP_ERR_MEM_LOCATION;
-- 
2.43.0


From 9be3473a769c83b8cbc1c1ce51f3d9a0fd5eb687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:44 +0000
Subject: [PATCH 089/101] fix: Do not launch CUDA kernels on empty grids

---
 src/ska-sdp-func/utility/sdp_device_wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_device_wrapper.cpp b/src/ska-sdp-func/utility/sdp_device_wrapper.cpp
index ce4e54b..38ac36f 100644
--- a/src/ska-sdp-func/utility/sdp_device_wrapper.cpp
+++ b/src/ska-sdp-func/utility/sdp_device_wrapper.cpp
@@ -45,6 +45,8 @@ void sdp_launch_cuda_kernel(
             cuda_kernels_.find(std::string(name));
     if (iter != cuda_kernels_.end())
     {
+        // Nothing to do for empty arrays (CUDA does not allow empty grids).
+        if (!num_blocks[0] || !num_blocks[1] || !num_blocks[2]) return;
         dim3 num_blocks_(num_blocks[0], num_blocks[1], num_blocks[2]);
         dim3 num_threads_(num_threads[0], num_threads[1], num_threads[2]);
         cudaStream_t cuda_stream = 0;
-- 
2.43.0


From e028119b12982764839d5a820f0321816030e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:44 +0000
Subject: [PATCH 090/101] fix: Shift the result of a convolution on the GPU for
 all sizes

---
 .../numeric_functions/sdp_fft_convolution.cpp    |  4 ++--
 .../numeric_functions/sdp_fft_convolution.cu     | 16 +++-------------
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 81f14e3..ea9d237 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -468,8 +468,8 @@ static void sdp_fft_convolution_gpu(
 
     uint64_t num_threads5[] = {32, 32, 1};
     uint64_t num_blocks5[] = {
-        (half_rows + num_threads5[0] - 1) / num_threads5[0],
-        (half_cols + num_threads5[1] - 1) / num_threads5[1], 1
+        (pad_dim + num_threads5[0] - 1) / num_threads5[0],
+        (pad_dim + num_threads5[1] - 1) / num_threads5[1], 1
     };
 
     if (data_type == SDP_MEM_COMPLEX_DOUBLE)
diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu
index 0c742cd..3d26b8e 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cu
@@ -139,20 +139,10 @@ __global__ void fft_shift_2D_gpu(
     int64_t i = blockIdx.x * blockDim.x + threadIdx.x;
     int64_t j = blockIdx.y * blockDim.y + threadIdx.y;
 
-    if (i < half_rows && j < half_cols)
+    if (i < rows && j < cols)
     {
-        // bottom right to top left
-        shifted_data[i * cols +
-                j] = data[(i + half_rows) * cols + j + half_cols];
-        // top right to bottom left
-        shifted_data[(i + half_rows) * cols +
-                j] = data[i * cols + j + half_cols];
-        // top left to bottom right
-        shifted_data[(i + half_rows) * cols + j +
-                half_cols] = data[i * cols + j];
-        // bottom left to top right
-        shifted_data[i * cols + j +
-                half_cols] = data[(i + half_rows) * cols + j];
+        shifted_data[i * cols + j] = data[
+            ((i + half_rows) % rows) * cols + (j + half_cols) % cols];
     }
 }
 SDP_CUDA_KERNEL(fft_shift_2D_gpu<cuDoubleComplex>);
-- 
2.43.0


From 6151e01b05ad1efb7f2a9128e6aa7ab7ad663385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:10 +0000
Subject: [PATCH 091/101] fix: Element beam dipole: no threads beyond the
 points (GPU)

---
 src/ska-sdp-func/station_beam/sdp_element_dipole.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cu b/src/ska-sdp-func/station_beam/sdp_element_dipole.cu
index f7043dd..9d1b324 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cu
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cu
@@ -52,6 +52,7 @@ __global__ void sdp_dipole_pattern(
 )
 {
     const int i = blockDim.x * blockIdx.x + threadIdx.x;
+    if (i >= num_points) return;
     sdp_dipole(kL, cos_kL,
             phi_rad[i], (FP)sin(theta_rad[i]), (FP)cos(theta_rad[i]),
             e_theta[i * stride + e_theta_offset],
@@ -76,6 +77,7 @@ __global__ void sdp_dipole_pattern_scalar(
 )
 {
     const int i = blockDim.x * blockIdx.x + threadIdx.x;
+    if (i >= num_points) return;
     FP amp, phi_;
     const FP sin_theta = sin(theta_rad[i]);
     const FP cos_theta = cos(theta_rad[i]);
-- 
2.43.0


From d1187433e25920ff699d7b022a5833f611cef4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:22 +0000
Subject: [PATCH 092/101] fix: Differences summed on the GPU without relying on
 warp order

---
 .../grid_data/sdp_gridder_utils.cu            | 27 ++-----------------
 1 file changed, 2 insertions(+), 25 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
index 3c4fd55..337f262 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
@@ -253,18 +253,6 @@ __global__ void sdp_gridder_subgrid_cut_out(
 }
 
 
-template<typename T, int BLOCK_SIZE>
-__device__ void warp_reduce(volatile T* smem, int thread_id)
-{
-    if (BLOCK_SIZE >= 64) smem[thread_id] += smem[thread_id + 32];
-    if (BLOCK_SIZE >= 32) smem[thread_id] += smem[thread_id + 16];
-    if (BLOCK_SIZE >= 16) smem[thread_id] += smem[thread_id + 8];
-    if (BLOCK_SIZE >= 8) smem[thread_id] += smem[thread_id + 4];
-    if (BLOCK_SIZE >= 4) smem[thread_id] += smem[thread_id + 2];
-    if (BLOCK_SIZE >= 2) smem[thread_id] += smem[thread_id + 1];
-}
-
-
 template<typename T, int BLOCK_SIZE>
 __global__ void sdp_gridder_sum_diff(
         sdp_MemViewGpu<const T, 1> a,
@@ -289,22 +277,11 @@ __global__ void sdp_gridder_sum_diff(
         i += grid_size;
     }
     __syncthreads();
-    if (BLOCK_SIZE >= 512)
-    {
-        if (thread_id < 256) smem[thread_id] += smem[thread_id + 256];
-        __syncthreads();
-    }
-    if (BLOCK_SIZE >= 256)
-    {
-        if (thread_id < 128) smem[thread_id] += smem[thread_id + 128];
-        __syncthreads();
-    }
-    if (BLOCK_SIZE >= 128)
+    for (int num = BLOCK_SIZE / 2; num > 0; num /= 2)
     {
-        if (thread_id < 64) smem[thread_id] += smem[thread_id + 64];
+        if (thread_id < num) smem[thread_id] += smem[thread_id + num];
         __syncthreads();
     }
-    if (thread_id < warpSize) warp_reduce<T, BLOCK_SIZE>(smem, thread_id);
     if (thread_id == 0) atomicAdd(result, smem[0]);
 }
 
-- 
2.43.0


From 42686bcce4085ca815a7bde583fdd7600feed036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:08 +0000
Subject: [PATCH 093/101] fix: Copy and clear strided arrays in GPU memory

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 111 +++++++++++++++++----------
 1 file changed, 71 insertions(+), 40 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index f724496..8ef16df 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -149,6 +149,56 @@ void copy_elements(
 }
 
 
+#ifdef SDP_HAVE_CUDA
+// Copy elements to, from or within GPU memory, in pieces if an array is not
+// C-contiguous.
+cudaError_t copy_elements_gpu(
+        sdp_Mem* dst,
+        const sdp_Mem* src,
+        int64_t offset_dst,
+        int64_t offset_src,
+        int64_t num_elements,
+        bool async,
+        cudaStream_t stream
+)
+{
+    const int64_t element_size = sdp_mem_type_size(src->type);
+    const cudaMemcpyKind kind = src->location == SDP_MEM_CPU ?
+                cudaMemcpyHostToDevice : dst->location == SDP_MEM_CPU ?
+                cudaMemcpyDeviceToHost : cudaMemcpyDeviceToDevice;
+    cudaError_t error = cudaSuccess;
+    for (int64_t i = 0, num = 0; i < num_elements && error == cudaSuccess;
+            i += num)
+    {
+        // Get the number of elements which are next to each other in both.
+        const int64_t i_dst = element_offset(dst, offset_dst + i);
+        const int64_t i_src = element_offset(src, offset_src + i);
+        num = 1;
+        if (dst->is_c_contiguous && src->is_c_contiguous)
+        {
+            num = num_elements;
+        }
+        while (i + num < num_elements &&
+                element_offset(dst, offset_dst + i + num) ==
+                i_dst + num * element_size &&
+                element_offset(src, offset_src + i + num) ==
+                i_src + num * element_size)
+        {
+            num++;
+        }
+        void* p_dst = (char*) dst->data + i_dst;
+        const void* p_src = (const char*) src->data + i_src;
+        error = async ?
+                    cudaMemcpyAsync(
+                p_dst, p_src, num * element_size, kind, stream
+                    ) :
+                    cudaMemcpy(p_dst, p_src, num * element_size, kind);
+    }
+    return error;
+}
+#endif
+
+
 // Multiply all elements of an array by the specified value.
 template<typename T>
 void scale_real(sdp_Mem* mem, double value)
@@ -398,8 +448,7 @@ sdp_Mem* sdp_mem_create_copy(
         src_temp = sdp_mem_create_copy(src, SDP_MEM_CPU, status);
     }
     sdp_Mem* mem = sdp_mem_create_wrapper(0, src->type, location,
-            src->num_dims, src->shape,
-            src->location == SDP_MEM_CPU ? 0 : src->stride, status
+            src->num_dims, src->shape, 0, status
     );
     sdp_mem_alloc(mem, status);
     sdp_mem_copy_contents(
@@ -446,7 +495,17 @@ void sdp_mem_clear_portion(
     else if (mem->location == SDP_MEM_GPU)
     {
 #ifdef SDP_HAVE_CUDA
-        cudaMemset(((char*) (mem->data)) + offset, 0, size);
+        if (mem->is_c_contiguous)
+        {
+            cudaMemset(((char*) (mem->data)) + offset, 0, size);
+            return;
+        }
+        for (int64_t i = start_index; i < start_index + num_elements; ++i)
+        {
+            cudaMemset(((char*) (mem->data)) + element_offset(mem, i), 0,
+                    sdp_mem_type_size(mem->type)
+            );
+        }
 #else
         *status = SDP_ERR_MEM_LOCATION;
         SDP_LOG_ERROR("The processing function library was compiled "
@@ -559,31 +618,20 @@ void sdp_mem_copy_contents(
     check_range(dst, offset_dst, num_elements, status);
     check_range(src, offset_src, num_elements, status);
     if (*status) return;
-    const int64_t element_size = sdp_mem_type_size(src->type);
-    const int64_t start_dst   = element_size * offset_dst;
-    const int64_t start_src   = element_size * offset_src;
-    const size_t bytes        = element_size * num_elements;
     const int location_src    = src->location;
     const int location_dst    = dst->location;
-    const void* p_src = (const void*)((const char*)(src->data) + start_src);
-    void* p_dst       = (void*)((char*)(dst->data) + start_dst);
 
     if (location_src == SDP_MEM_CPU && location_dst == SDP_MEM_CPU)
     {
         copy_elements(dst, src, offset_dst, offset_src, num_elements);
     }
 #ifdef SDP_HAVE_CUDA
-    else if (location_src == SDP_MEM_CPU && location_dst == SDP_MEM_GPU)
+    else if ((location_src == SDP_MEM_CPU || location_src == SDP_MEM_GPU) &&
+            (location_dst == SDP_MEM_CPU || location_dst == SDP_MEM_GPU))
     {
-        cuda_error = cudaMemcpy(p_dst, p_src, bytes, cudaMemcpyHostToDevice);
-    }
-    else if (location_src == SDP_MEM_GPU && location_dst == SDP_MEM_CPU)
-    {
-        cuda_error = cudaMemcpy(p_dst, p_src, bytes, cudaMemcpyDeviceToHost);
-    }
-    else if (location_src == SDP_MEM_GPU && location_dst == SDP_MEM_GPU)
-    {
-        cuda_error = cudaMemcpy(p_dst, p_src, bytes, cudaMemcpyDeviceToDevice);
+        cuda_error = copy_elements_gpu(dst, src,
+                offset_dst, offset_src, num_elements, false, 0
+        );
     }
 #endif
     else
@@ -624,36 +672,19 @@ void sdp_mem_copy_contents_async(
     check_range(dst, offset_dst, num_elements, status);
     check_range(src, offset_src, num_elements, status);
     if (*status) return;
-    const int64_t element_size = sdp_mem_type_size(src->type);
-    const int64_t start_dst   = element_size * offset_dst;
-    const int64_t start_src   = element_size * offset_src;
-    const size_t bytes        = element_size * num_elements;
     const int location_src    = src->location;
     const int location_dst    = dst->location;
-    const void* p_src = (const void*)((const char*)(src->data) + start_src);
-    void* p_dst       = (void*)((char*)(dst->data) + start_dst);
 
     if (location_src == SDP_MEM_CPU && location_dst == SDP_MEM_CPU)
     {
         copy_elements(dst, src, offset_dst, offset_src, num_elements);
     }
 #ifdef SDP_HAVE_CUDA
-    else if (location_src == SDP_MEM_CPU && location_dst == SDP_MEM_GPU)
-    {
-        cuda_error = cudaMemcpyAsync(p_dst, p_src, bytes,
-                cudaMemcpyHostToDevice, cuda_stream
-        );
-    }
-    else if (location_src == SDP_MEM_GPU && location_dst == SDP_MEM_CPU)
-    {
-        cuda_error = cudaMemcpyAsync(p_dst, p_src, bytes,
-                cudaMemcpyDeviceToHost, cuda_stream
-        );
-    }
-    else if (location_src == SDP_MEM_GPU && location_dst == SDP_MEM_GPU)
+    else if ((location_src == SDP_MEM_CPU || location_src == SDP_MEM_GPU) &&
+            (location_dst == SDP_MEM_CPU || location_dst == SDP_MEM_GPU))
     {
-        cuda_error = cudaMemcpyAsync(p_dst, p_src, bytes,
-                cudaMemcpyDeviceToDevice, cuda_stream
+        cuda_error = copy_elements_gpu(dst, src,
+                offset_dst, offset_src, num_elements, true, cuda_stream
         );
     }
 #endif
-- 
2.43.0


From 1eeaef8805af503c3b6e96a19080461cdfd83f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 094/101] fix: Sum differences on the GPU in 64 bits

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 10 +++++-----
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cu  | 11 ++++++-----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index cd882f2..858706d 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -2116,10 +2116,10 @@ void sdp_gridder_sum_diff(
     }
     else
     {
-        // Allocate space for the result.
-        const int64_t shape[] = {1};
+        // Allocate space for the (64-bit) result.
+        const int64_t shape[] = {sizeof(int64_t)};
         sdp_Mem* result_gpu = sdp_mem_create(
-                SDP_MEM_INT, SDP_MEM_GPU, 1, shape, status
+                SDP_MEM_CHAR, SDP_MEM_GPU, 1, shape, status
         );
         sdp_mem_clear_contents(result_gpu, status);
 
@@ -2144,7 +2144,7 @@ void sdp_gridder_sum_diff(
             (const void*)&end_row,
             sdp_mem_gpu_buffer(result_gpu, status)
         };
-        uint64_t shared_mem_bytes = num_threads[0] * sizeof(int);
+        uint64_t shared_mem_bytes = num_threads[0] * sizeof(int64_t);
         sdp_launch_cuda_kernel(kernel_name,
                 num_blocks, num_threads, shared_mem_bytes, 0, arg, status
         );
@@ -2152,7 +2152,7 @@ void sdp_gridder_sum_diff(
         sdp_Mem* result_cpu = sdp_mem_create_copy(
                 result_gpu, SDP_MEM_CPU, status
         );
-        if (!*status) *result = *((int*) sdp_mem_data(result_cpu));
+        if (!*status) *result = *((int64_t*) sdp_mem_data(result_cpu));
         sdp_mem_free(result_cpu);
         sdp_mem_free(result_gpu);
     }
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
index 337f262..ba19a5b 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cu
@@ -259,20 +259,21 @@ __global__ void sdp_gridder_sum_diff(
         sdp_MemViewGpu<const T, 1> b,
         int64_t start_row,
         int64_t end_row,
-        T* result
+        unsigned long long* result
 )
 {
-    extern __shared__ T smem[];
+    extern __shared__ unsigned long long smem[];
     const int thread_id = threadIdx.x;
     const int64_t grid_size = BLOCK_SIZE * 2 * gridDim.x;
     int64_t i = blockIdx.x * (BLOCK_SIZE * 2) + thread_id + start_row;
-    smem[thread_id] = (T) 0;
+    smem[thread_id] = 0;
     while (i < end_row)
     {
-        smem[thread_id] += a(i) - b(i);
+        smem[thread_id] += (long long) a(i) - b(i);
         if (i + BLOCK_SIZE < end_row)
         {
-            smem[thread_id] += a(i + BLOCK_SIZE) - b(i + BLOCK_SIZE);
+            smem[thread_id] += (long long) a(i + BLOCK_SIZE) -
+                    b(i + BLOCK_SIZE);
         }
         i += grid_size;
     }
-- 
2.43.0


From ed1f9ac931ea8e9d083db83c8a90791d79355d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:08 +0000
Subject: [PATCH 095/101] fix: Refuse to run multi-scale CLEAN on GPU arrays

---
 src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
index 526061f..c7e8d21 100755
--- a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
+++ b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
@@ -811,6 +811,13 @@ void sdp_ms_clean_cornwell(
         return;
     }
 
+    if (location != SDP_MEM_CPU)
+    {
+        *status = SDP_ERR_MEM_LOCATION;
+        SDP_LOG_ERROR("Only arrays in CPU memory are supported");
+        return;
+    }
+
     if (data_type != sdp_mem_type(psf))
     {
         *status = SDP_ERR_DATA_TYPE;
-- 
2.43.0


From d11bb2d0ca60923d2b5645208ec6eb09e932b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:49 +0000
Subject: [PATCH 096/101] fix: Bucket sort of complex visibilities on the GPU

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 4 ++--
 src/ska-sdp-func/visibility/sdp_tiled_functions.cu  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 2398b1b..c354444 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -775,14 +775,14 @@ void sdp_bucket_sort(
                 freq_type == SDP_MEM_DOUBLE)
         {
             kernel_name2 =
-                    "sdp_bucket_sort_simple_gpu<double, double, double, double, 1>";
+                    "sdp_bucket_sort_simple_gpu<double, double, double2, double, 1>";
         }
         else if (uvw_type == SDP_MEM_FLOAT &&
                 weight_type == SDP_MEM_FLOAT &&
                 freq_type == SDP_MEM_FLOAT)
         {
             kernel_name2 =
-                    "sdp_bucket_sort_simple_gpu<float, float, float, float, 1>";
+                    "sdp_bucket_sort_simple_gpu<float, float, float2, float, 1>";
         }
         else
         {
diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cu b/src/ska-sdp-func/visibility/sdp_tiled_functions.cu
index 8b1d5ec..bcca7bf 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cu
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cu
@@ -208,8 +208,8 @@ __global__ void sdp_bucket_sort_simple_gpu(
     }
 }
 
-SDP_CUDA_KERNEL(sdp_bucket_sort_simple_gpu<double, double, double, double, 1>)
-SDP_CUDA_KERNEL(sdp_bucket_sort_simple_gpu<float, float, float, float, 1>)
+SDP_CUDA_KERNEL(sdp_bucket_sort_simple_gpu<double, double, double2, double, 1>)
+SDP_CUDA_KERNEL(sdp_bucket_sort_simple_gpu<float, float, float2, float, 1>)
 
 
 template<typename UVW_TYPE, typename FREQ_TYPE, typename VIS_TYPE,
-- 
2.43.0


From 5221bd9d5cdb24e93b7e0622961056a28b88d4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:58 +0000
Subject: [PATCH 097/101] fix: Barrier before the next round of the prefix sum
 (GPU)

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cu b/src/ska-sdp-func/visibility/sdp_tiled_functions.cu
index bcca7bf..405e575 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cu
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cu
@@ -54,6 +54,7 @@ __global__ void sdp_prefix_sum_gpu(
         }
         idx += blockDim.x;
         running_total += scratch[2 * blockDim.x - 1];
+        __syncthreads();
     }
 }
 
-- 
2.43.0


From 253b0fee7ab34814408a51f8a355e75ca592ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:24 +0000
Subject: [PATCH 098/101] fix: Station beam: empty optional arrays on the GPU

---
 src/ska-sdp-func/station_beam/sdp_station.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index ccdeb78..1829019 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -172,6 +172,17 @@ static const void* sdp_station_optional_data(const sdp_Mem* mem)
 }
 
 
+static const void* sdp_station_optional_gpu_buffer(
+        const sdp_Mem* mem,
+        sdp_Error* status
+)
+{
+    return sdp_mem_gpu_buffer_const(
+            sdp_mem_num_elements(mem) > 0 ? mem : NULL, status
+    );
+}
+
+
 static void check_array(
         const sdp_Mem* mem,
         sdp_MemType type,
@@ -441,9 +452,9 @@ void sdp_station_beam_aperture_array(
             &num_points,
             sdp_mem_gpu_buffer_const(point_x, status),
             sdp_mem_gpu_buffer_const(point_y, status),
-            sdp_mem_gpu_buffer_const(point_z, status),
-            sdp_mem_gpu_buffer_const(element_beam_index, status),
-            sdp_mem_gpu_buffer_const(element_beam, status),
+            sdp_station_optional_gpu_buffer(point_z, status),
+            sdp_station_optional_gpu_buffer(element_beam_index, status),
+            sdp_station_optional_gpu_buffer(element_beam, status),
             &index_offset_station_beam,
             sdp_mem_gpu_buffer(station_beam, status),
             is_dbl ? (const void*)&norm_factor : (const void*)&norm_factor_f,
-- 
2.43.0


From 11d9826852703339f54f51e6d6c11a83887300e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:55 +0000
Subject: [PATCH 099/101] fix: Refuse odd image sizes in the ES-FFT gridder

---
 src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp | 6 ++++++
 src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h   | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
index dd94786..cbea96c 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
@@ -182,6 +182,12 @@ void sdp_gridder_check_buffers(
         );
         return;
     }
+    if (sdp_mem_shape_dim(dirty_image, 0) % 2 != 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Dirty image size must be even.");
+        return;
+    }
 
     // check precision consistency
     if (sdp_mem_type(uvw) == SDP_MEM_DOUBLE)
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h
index 80fe721..05682f1 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h
@@ -29,7 +29,7 @@ typedef struct sdp_GridderUvwEsFft sdp_GridderUvwEsFft;
  * @param freq_hz [in] The channel frequiencies in Hz. Must be real with shape [num_chan], and either float or double.
  * @param vis [in, out] The visibility data.  Must be complex with shape [num_rows, num_chan], and either float or double.  Its data type determines the precision used for the (de)gridding.
  * @param weight [in] Its values are used to multiply the input, must be real and same shape and precision as \b vis.
- * @param dirty_image [in, out] The input/output dirty image, *must be square*.  Must be real, and either float or double.
+ * @param dirty_image [in, out] The input/output dirty image, *must be square*, of an even size.  Must be real, and either float or double.
  * @param pixel_size_x_rad [in] Angular \a x pixel size (in radians) of the dirty image (must be the same as \b pixel_size_y_rad).
  * @param pixel_size_y_rad [in] Angular \a y pixel size (in radians) of the dirty image (must be the same as \b pixel_size_x_rad).
  * @param epsilon [in] Accuracy at which the computation should be done. Must be larger than 2e-13. If \b vis is type float, it must be larger than 1e-5.
-- 
2.43.0


From d291812c72cbd5f1625a7326452752d4718cfaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:35 +0000
Subject: [PATCH 100/101] fix: ES-FFT w-stacking of a single w value

---
 src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
index cbea96c..46b2593 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
@@ -361,7 +361,9 @@ sdp_GridderUvwEsFft* sdp_gridder_uvw_es_fft_create_plan(
         }
         double w_scale = 0.25 / fabs(nmin); // scaling factor for converting w coord to signed w grid index
         int num_total_w_grids = (max_abs_w - min_abs_w) / w_scale + 2; // number of w grids required
-        w_scale = 1.0 / ((1.0 + 1e-13) * (max_abs_w - min_abs_w) /
+        // (The range of w values may be much smaller than this, or zero.)
+        w_scale = num_total_w_grids <= 2 ? 1.0 / w_scale :
+                    1.0 / ((1.0 + 1e-13) * (max_abs_w - min_abs_w) /
                 (num_total_w_grids - 1));
         const double min_plane_w =
                 min_abs_w - (0.5 * plan->support - 1.0) / w_scale;
-- 
2.43.0


From 39bbcccfe03bc8fa9662ccd8f799df4797a1ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:44 +0000
Subject: [PATCH 101/101] fix: refuse invalid arguments when degridding an
 empty image

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index d6e6d22..c9f61cc 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -88,8 +88,10 @@ void sdp_gridder_direct_degrid(
     if (*status) return;
 
     // Count nonzero pixels in image.
+    // (An empty image is a single source of zero flux.)
     int64_t num_src = sdp_gridder_count_nonzero_pixels(subgrid_image, status);
-    if (*status || num_src == 0) return; // Nothing to add for an empty image.
+    if (*status) return;
+    if (num_src == 0) num_src = 1;
     const sdp_MemType dir_type = sdp_mem_type(uvws);
     const sdp_MemLocation loc = sdp_mem_location(vis);
     const int64_t lmn_shape[] = {num_src, 3};
@@ -97,6 +99,8 @@ void sdp_gridder_direct_degrid(
                 SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_DOUBLE;
     sdp_Mem* flux = sdp_mem_create(flux_type, loc, 1, &num_src, status);
     sdp_Mem* lmn = sdp_mem_create(dir_type, loc, 2, lmn_shape, status);
+    sdp_mem_set_value(flux, 0, status);
+    sdp_mem_set_value(lmn, 0, status);
 
     // Convert image into positions and flux values for all nonzero pixels,
     // and use DFT for degridding.
-- 
2.43.0

