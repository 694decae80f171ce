From f260f055df90a39035906bd36db2043e40816481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 01/94] fix: array_match without a second array read reverse
 indices that don't exist

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 561cca7..3972f23 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -760,8 +760,8 @@ def array_match(
         # If the second array wasn't supplied
         min_use = np.min(array_1)
         max_use = np.max(array_1)
-        # Supply a second hist
-        hist2 = np.arange(max_use - min_use + 1)
+        # Supply an empty second hist, as there isn't a second array to match
+        hist2 = np.zeros(int(max_use - min_use) + 1, dtype=np.int64)
     # Get the histogram for the first
     hist1, _, ri1 = histogram(array_1, min=min_use, max=max_use)
     # Arrays should be the same size, does addition
-- 
2.43.0


From d26a46698fac5be22b1366ecc74473bcc00862a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 02/94] fix: array_match lost values which were given an even
 number of times

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 3972f23..805d5f7 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -773,7 +773,7 @@ def array_match(
     omin = bins_v1[0]
     omax = bins_v1[-1]
     hist_v2, _, _ = histogram(value_match, min=omin, max=omax)
-    vals = np.nonzero(np.bitwise_and(hist_v1, hist_v2))[0] + omin - min_use
+    vals = np.nonzero((hist_v1 > 0) & (hist_v2 > 0))[0] + omin - min_use
     n_match = vals.size
 
     if n_match == 0:
-- 
2.43.0


From 1fec467a75666a66c980106c427131627f7fb406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 03/94] fix: idl_median took the element above the median for
 an odd number of points

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 805d5f7..8943340 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1380,7 +1380,7 @@ def idl_median(
         if even:
             return np.median(x)
         else:
-            med_index = int(np.ceil(len(x) / 2))
+            med_index = len(x) // 2
 
             return np.sort(x)[med_index]
 
-- 
2.43.0


From b7317567f09d0220f3c8f820cac1578e2feb1868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 04/94] fix: split_vis_weights zeroed the second half of the
 observation's times

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 8943340..36f6a79 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1243,7 +1243,7 @@ def split_vis_weights(
     )
     bin_end[-1] = int(nb - 1)
     bin_i = np.full(nb, -1, dtype=np.int64)
-    for t_i in range(obs["n_time"] // 2):
+    for t_i in range(obs["n_time"]):
         bin_i[obs["baseline_info"]["bin_offset"][t_i] : bin_end[t_i] + 1] = t_i
 
     time_start_i = int(np.min(np.nonzero(obs["baseline_info"]["time_use"])[0]))
-- 
2.43.0


From 13b02ef24afccf8fd05c1d563b9aafdb39521e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 05/94] fix: split_vis_weights counted cut samples as odd
 samples

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 36f6a79..55c8641 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1263,7 +1263,11 @@ def split_vis_weights(
             if bin_i_cut.size > 0:
                 bin_i[bin_i_cut] = -1
 
-    bi_use = [np.where(bin_i % 2 == 0)[0], np.where(bin_i % 2 == 1)[0]]
+    # Cut samples are -1, which numpy's modulo counts as odd
+    bi_use = [
+        np.where((bin_i >= 0) & (bin_i % 2 == 0))[0],
+        np.where((bin_i >= 0) & (bin_i % 2 == 1))[0],
+    ]
 
     # Here we ensure that both even and odd samples are the same size by
     # ensuring both arrays match the smallest size
-- 
2.43.0


From 769f997a58ee94b139471a0d1db8d9e402596b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 06/94] fix: vis_weights_update flagged the last baseline when
 a cut tile has no baselines

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 55c8641..8c28d0d 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1176,7 +1176,8 @@ def vis_weights_update(
             tile_cut_i[0] + 1,
             obs["baseline_info"]["tile_b"],
         )
-        if np.size(bi_cut) > 0:
+        # array_match gives -1 when none of the cut tiles are in a baseline
+        if np.min(bi_cut) > -1:
             vis_weights[0 : obs["n_pol"], :, bi_cut] = 0
 
     time_cut_i = np.where(obs["baseline_info"]["time_use"] == 0)[0]
-- 
2.43.0


From 1db53389f14e1ce354e0f0cfc2aa0fad1bff77a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 07/94] fix: vis_flag_tiles raised an error for named tiles and
 would have flagged every tile

---
 PyFHD/flagging/flagging.py | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index d876691..0f33863 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -30,34 +30,27 @@ def vis_flag_tiles(
     flagged_vis_weight_arr: NDArray[np.float64]
         A vis_weight_arr where the tiles to flag have been set to 0
     """
-    tile_flag_list_use = np.array([], dtype=np.int64)
+    tile_names = np.array(
+        [str(name).strip() for name in obs["baseline_info"]["tile_names"]]
+    )
+    tile_flag_list_use = []
     for flag in tiles_to_flag:
-        if type(flag) == str and flag.strip() in obs["baseline_info"]["tile_names"]:
+        flag_idx = np.nonzero(tile_names == str(flag).strip())[0]
+        if flag_idx.size > 0:
             logger.info(f"Manually flagging tile {flag}")
-            flag_idx = np.where(obs["baseline_info"]["tile_names"] == flag.strip())[0][
-                0
-            ]
-            tile_flag_list_use.append(flag_idx + 1)
+            tile_flag_list_use.append(flag_idx[0] + 1)
         else:
             logger.warning(
                 f"{flag} wasn't found in obs['baseline_info']['tile_names'], skipping it"
             )
-    hist_a, _, ra = histogram(obs["baseline_info"]["tile_a"], min=1)
-    hist_b, _, rb = histogram(obs["baseline_info"]["tile_b"], min=1)
-    hist_c, _, _ = histogram(tile_flag_list_use, min=1)
-    # hist_A and hist_b should be the same size
-    hist_ab = hist_a + hist_b
-    n_bin = min(np.size(hist_ab), np.size(hist_c))
-    tile_cut_i = np.where((hist_ab[0:n_bin] > 0) | (hist_c[0:n_bin] > 0))[0]
-    if np.size(tile_cut_i) > 0:
-        for cut_idx in range(np.size(tile_cut_i)):
-            ti = tile_cut_i[cut_idx]
-            na = ra[ra[ti + 1] - 1] - ra[ra[ti]]
-            if na > 0:
-                vis_weight_arr[:, :, ra[ra[ti] : ra[ti + 1] - 1]] = 0
-            nb = rb[rb[ti + 1] - 1] - rb[rb[ti]]
-            if nb > 0:
-                vis_weight_arr[:, :, rb[rb[ti] : rb[ti + 1] - 1]] = 0
+    # Cut every baseline a flagged tile takes part in
+    for tile in tile_flag_list_use:
+        baseline_cut = np.nonzero(
+            (obs["baseline_info"]["tile_a"] == tile)
+            | (obs["baseline_info"]["tile_b"] == tile)
+        )[0]
+        if baseline_cut.size > 0:
+            vis_weight_arr[:, :, baseline_cut] = 0
     return vis_weight_arr
 
 
-- 
2.43.0


From 027566991dc2219b7e0af46c782f96f8792872db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 08/94] fix: vis_flag_basic kept the last baseline of a flagged
 time

---
 PyFHD/flagging/flagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index 0f33863..dc8432a 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -182,7 +182,7 @@ def vis_flag_basic(
         time_bin = np.zeros(np.size(obs["baseline_info"]["tile_a"]))
         for ti in range(obs["n_time"]):
             if obs["baseline_info"]["time_use"][ti] <= 0:
-                vis_weight_arr[:, :, bin_offset[ti] : bin_offset[ti + 1] - 1] = 0
+                vis_weight_arr[:, :, bin_offset[ti] : bin_offset[ti + 1]] = 0
 
     tile_use_indexes = np.where((tile_use) & (obs["baseline_info"]["tile_use"]))[0]
     tile_use_zeros = np.zeros_like(obs["baseline_info"]["tile_use"])
-- 
2.43.0


From d918905a94f11d60f11cf2dc43f1a3f53c761e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 09/94] fix: vis_flag added the tile figure of merit to
 uninitialised memory

---
 PyFHD/flagging/flagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index dc8432a..3467798 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -246,7 +246,7 @@ def vis_flag(
     if cut_baselines_i.size > 0:
         vis_weights[: obs["n_pol"], :, cut_baselines_i] = 0
 
-    tile_fom = np.empty(n_tiles_use)
+    tile_fom = np.zeros(n_tiles_use)
     for tile_i in range(n_tiles_use):
         tile_ai = np.where((obs["baseline_info"]["tile_a"] - 1) == tile_i)
         tile_bi = np.where((obs["baseline_info"]["tile_b"] - 1) == tile_i)
-- 
2.43.0


From 45a55f6add27c48a1e14ebdc4ec64ce914c615a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 10/94] fix: vis_flag raised an error when a time is cut

---
 PyFHD/flagging/flagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index 3467798..2f89e52 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -343,7 +343,7 @@ def vis_flag(
         (np.abs(time_mean2 - time_fom) > 2 * flag_nsigma * time_dev2) | (time_fom == 0)
     )[0]
     for ti in range(time_cut.size):
-        ti_cut = np.where(time_bin == time_cut[ti])
+        ti_cut = np.where(time_bin == time_cut[ti])[0]
         if ti_cut.size > 0:
             vis_weights[: obs["n_pol"], :, ti_cut] = 0
 
-- 
2.43.0


From 038f13b42b9efd0197e9cee9b6d4e852a9be16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 11/94] fix: flagging the visibilities was called without the
 logger

---
 PyFHD/pyfhd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 063bbb3..a851d98 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -304,7 +304,9 @@ def main():
 
             if pyfhd_config["flag_visibilities"]:
                 flag_start = time.time()
-                vis_weights, obs = vis_flag(vis_arr, vis_weights, obs, params)
+                vis_weights, obs = vis_flag(
+                    vis_arr, vis_weights, obs, params, logger
+                )
                 flag_end = time.time()
                 _print_time_diff(flag_start, flag_end, "Visibilities Flagged", logger)
 
-- 
2.43.0


From 8619bdbc82976ef914e25ad21c62fd1944d772f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 12/94] fix: gridding used the kernel and the coordinates of
 another frequency and baseline

---
 PyFHD/gridding/visibility_grid.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index 4632878..d13faae 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -163,7 +163,6 @@ def visibility_grid(
     group_arr = np.expand_dims(rebin(group_arr, (n_f_use, group_arr_baselines)), axis=0)
     group_arr = np.repeat(group_arr, n_samples, axis=0)
     group_arr = np.reshape(group_arr, (n_f_use, n_samples * group_arr_baselines))
-    n_freq_use = frequency_array.size
     psf_dim2 = 2 * psf_dim
     psf_dim3 = psf_dim**2
     bi_use_reduced = bi_use % n_baselines
@@ -255,12 +254,13 @@ def visibility_grid(
         ymin_use = ymin.flat[ind0]
 
         # Find the frequency group per index
-        freq_i = inds % n_freq_use
+        # The locations are arranged as frequencies by baselines
+        freq_i = inds // bi_use.size
         fbin = freq_bin_i[freq_i]
 
         # Calculate the number of selected visibilities and their baseline index
         vis_n = bin_n[bin_i[bi]]
-        baseline_inds = bi_use_reduced[((inds / n_f_use) % n_baselines).astype(int)]
+        baseline_inds = bi_use_reduced[inds % bi_use.size]
 
         if interp_flag:
             # Calculate the interpolated kernel on the uv-grid given the derivatives to baseline locations
@@ -364,10 +364,7 @@ def visibility_grid(
                     model_box = model_use.flat[inds]
                 vis_box = vis_arr_use.flat[inds]
                 psf_weight = np.ones(vis_n)
-                # IDL had integer / integer i.e. 2015 / 336 == 5, used flooring divider instead in python
-                # ALso do take note that each were very close always within 0.01 of their next number.
-                # e.g. 2015 / 336 = 5.99, should ceiling be be used instead?
-                bt_index = inds // n_freq_use
+                bt_index = inds % bi_use.size
 
             box_matrix = np.zeros((vis_n, psf_dim3), dtype=arr_type)
             if pyfhd_config["beam_per_baseline"]:
-- 
2.43.0


From 8bf1f5f442b67d250c67bc94e1402e6e786b8ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 13/94] fix: baseline_grid_locations swapped the width and
 height of the uv grid

---
 PyFHD/gridding/gridding_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 69438e2..02b5c26 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -225,12 +225,12 @@ def baseline_grid_locations(
         baselines_dict["dx1dy1_arr"] = dx_arr * dy_arr
 
     # The minimum pixel in the uv-grid (bottom left of the kernel) that each baseline contributes to
-    xmin = (np.floor(xcen) + elements / 2 - (psf_dim / 2 - 1)).astype(np.int64)
-    ymin = (np.floor(ycen) + dimension / 2 - (psf_dim / 2 - 1)).astype(np.int64)
+    xmin = (np.floor(xcen) + dimension / 2 - (psf_dim / 2 - 1)).astype(np.int64)
+    ymin = (np.floor(ycen) + elements / 2 - (psf_dim / 2 - 1)).astype(np.int64)
 
     # Set the minimum pixel value of baselines which fall outside of the uv-grid tom -1 to exclude them
-    range_test_x_i = np.where((xmin <= 0) | (xmin + psf_dim - 1 >= elements - 1))
-    range_test_y_i = np.where((ymin <= 0) | (ymin + psf_dim - 1 >= dimension - 1))
+    range_test_x_i = np.where((xmin <= 0) | (xmin + psf_dim - 1 >= dimension - 1))
+    range_test_y_i = np.where((ymin <= 0) | (ymin + psf_dim - 1 >= elements - 1))
     if range_test_x_i[0].size > 0:
         xmin[range_test_x_i] = -1
         ymin[range_test_x_i] = -1
-- 
2.43.0


From 5c53299d409b59cfd5ab634d9f38f6de8d6efd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 14/94] fix: splitting the cross polarisation lost its
 imaginary part

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 8c28d0d..8d96ae3 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1564,7 +1564,7 @@ def crosspol_split_real_imaginary(
     pol_names : list[str]|None]
         _description_
     """
-    crosspol_image: NDArray[np.complex128] = image[2]
+    crosspol_image: NDArray[np.complex128] = image[2].copy()
     image[2] = crosspol_image.real
     image[3] = crosspol_image.imag
 
-- 
2.43.0


From a20f36f0901de2cd7f7b17faca9ce5cdb9dbfcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 15/94] fix: dirty_image_generate scaled the caller's uv plane
 in place

---
 PyFHD/gridding/gridding_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 02b5c26..47da788 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -362,7 +362,8 @@ def dirty_image_generate(
 
     # dimension is columns, elements is rows
     elements, dimension = dirty_image_uv.shape
-    di_uv_use = dirty_image_uv
+    # Masking, filtering and normalizing are done in place, so leave the given uv plane alone
+    di_uv_use = dirty_image_uv.copy()
     # If the baseline threshold has been set
     if baseline_threshold is not None:
         if width_smooth is None:
-- 
2.43.0


From 39072174559b61df73f3a08ef99fdc8b1afad9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 16/94] fix: dirty_image_generate failed on uv planes which are
 not square

---
 PyFHD/gridding/gridding_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 47da788..970b8b1 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -392,8 +392,9 @@ def dirty_image_generate(
         box_averages = convolve(mask_bt, Box2DKernel(kernel_width), mode="valid")
         # Since IDL SMOOTH edges by default are the edges of the array used, ignore edges (its the reason why we used a valid convolve)
         start = int(kernel_width // 2)
-        end = int(mask_bt.shape[1] - (kernel_width // 2))
-        mask_bt[start:end, start:end] = box_averages
+        end_row = int(mask_bt.shape[0] - (kernel_width // 2))
+        end_col = int(mask_bt.shape[1] - (kernel_width // 2))
+        mask_bt[start:end_row, start:end_col] = box_averages
         # Apply boxed mask to the dirty image
         di_uv_use *= mask_bt
 
-- 
2.43.0


From 02e07a26d00c72a5d7fe3c1228cd78f075a8a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 17/94] fix: the uniform filter could not count the
 visibilities itself

---
 PyFHD/gridding/filters.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/PyFHD/gridding/filters.py b/PyFHD/gridding/filters.py
index 450aeff..3c82add 100644
--- a/PyFHD/gridding/filters.py
+++ b/PyFHD/gridding/filters.py
@@ -16,6 +16,7 @@ def filter_uv_uniform(
     fi_use: NDArray[np.integer] | None = None,
     bi_use: NDArray[np.integer] | None = None,
     mask_mirror_indices: bool = False,
+    psf: dict | None = None,
 ) -> tuple[NDArray[np.complex128], NDArray[np.float64]]:
     """
     Perform uniform weighting in {u,v} space.
@@ -42,6 +43,8 @@ def filter_uv_uniform(
         Baseline index array for gridding, i.e even vs odd time stamps, by default None
     mask_mirror_indices : bool, optional
         Exclude baselines mirrored along the v-axis, by default False
+    psf : dict | None, optional
+        Beam metadata dictionary, needed with obs and params, by default None
 
     Returns
     -------
@@ -53,7 +56,7 @@ def filter_uv_uniform(
     Raises
     ------
     TypeError
-        In the case obs or params is None and vis_count is also None
+        In the case obs, params or psf is None and vis_count is also None
     """
 
     # If you need the name, grab it from pyfhd_config where needed
@@ -61,16 +64,16 @@ def filter_uv_uniform(
     # This does not make use of fine-grained flagging, but relies on coarse flags from the obs structure
     # (i.e. a list of tiles completely flagged, and of frequencies completely flagged)
     if vis_count is None:
-        if obs is not None or params is not None:
+        if obs is not None and params is not None and psf is not None:
             vis_count = gridding_utils.visibility_count(
                 obs,
+                psf,
                 params,
                 weights,
-                pyfhd_config,
                 logger,
-                fi_use,
-                bi_use,
-                mask_mirror_indices,
+                fi_use=fi_use,
+                bi_use=bi_use,
+                mask_mirror_indices=mask_mirror_indices,
             )
         elif weights is not None and np.size(weights) == np.size(image_uv):
             if np.max(weights) == 0:
@@ -78,7 +81,7 @@ def filter_uv_uniform(
             else:
                 vis_count = np.abs(weights) / np.min(np.abs(weights[weights > 0]))
         else:
-            raise TypeError("obs and params must not be None when vis_count is None")
+            raise TypeError("obs, params and psf must not be None when vis_count is None")
 
     # Get the parts of the filter we're using
     filter_use = weight_invert(vis_count, threshold=1)
-- 
2.43.0


From 456ff4614ae8011c39ddda284f76ce8522206910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 18/94] fix: the baseline threshold of dirty_image_generate
 failed on uv planes which are not square

---
 PyFHD/gridding/gridding_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 970b8b1..4c60668 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -369,8 +369,8 @@ def dirty_image_generate(
         if width_smooth is None:
             width_smooth = np.floor(np.sqrt(dimension * elements) / 100)
         rarray = np.sqrt(
-            (meshgrid(dimension, 1) - dimension / 2) ** 2
-            + (meshgrid(elements, 2) - elements / 2) ** 2
+            (meshgrid(dimension, elements, 1) - dimension / 2) ** 2
+            + (meshgrid(dimension, elements, 2) - elements / 2) ** 2
         )
         # Get all the values that meet the threshold
         if baseline_threshold >= 0:
-- 
2.43.0


From 871b1c9dbeccea7c824cfe40a8fd9aca6b2fa062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 19/94] fix: calibrating four polarisations read the number of
 times by the wrong name

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 205ded3..1b25578 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1435,10 +1435,10 @@ def vis_calibration_apply(
             # Use the xx flags (yy should be identitical at this point)
 
             # this is num baselines per time step
-            n_baselines = int(len(tile_a_i) / obs["n_times"])
+            n_baselines = int(len(tile_a_i) / obs["n_time"])
             # reshape from (n_freq, n_baselines*n_times) to (n_freq, n_times, n_baselines). Turns out due to the row major vs col major difference
             # between IDL and python, this shape also changes
-            new_shape = (obs["n_freq"], obs["n_times"], n_baselines)
+            new_shape = (obs["n_freq"], obs["n_time"], n_baselines)
             weights_use = np.reshape(vis_weights[0, :, :], new_shape)
             # carried over from FHD code
             weights_use = np.maximum(weights_use, np.zeros_like(weights_use))
-- 
2.43.0


From e83cb6594aa391706c2d44fba58745a17d338731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 20/94] fix: averaging the autocorrelations failed when a
 single time is used

---
 PyFHD/calibration/calibration_utils.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 1b25578..1adb97a 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -70,22 +70,16 @@ def vis_extract_autocorr(
                 for tile_i in range(auto_tile_i_single.size):
                     baseline_i = np.where(auto_tile_i == auto_tile_i_single[tile_i])[0]
                     baseline_i = baseline_i[time_inds]
-                    if time_inds.size > 1:
-                        # OK, auto_vals is of shape (n_freq, n_autos)
-                        # We want to average a subset of baseline_i within auto_vals,
-                        # to average a specific auto-correlation over time
-                        auto_single[:, tile_i] = (
-                            np.sum(
-                                auto_vals[:, baseline_i][np.arange(obs["n_freq"]), :],
-                                axis=1,
-                            )
-                            / time_inds.size
+                    # OK, auto_vals is of shape (n_freq, n_autos)
+                    # We want to average a subset of baseline_i within auto_vals,
+                    # to average a specific auto-correlation over time
+                    auto_single[:, tile_i] = (
+                        np.sum(
+                            auto_vals[:, baseline_i][np.arange(obs["n_freq"]), :],
+                            axis=1,
                         )
-
-                    else:
-                        auto_single[:, tile_i] = auto_vals[:, baseline_i][
-                            np.arange(obs["n_freq"]), :
-                        ]
+                        / time_inds.size
+                    )
                 auto_vals = auto_single
             auto_corr[pol_i, :, :] = auto_vals
         if pyfhd_config["cal_time_average"]:
-- 
2.43.0


From 798158be3a45abdcecb1fc35226bff4310ca5be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 21/94] fix: gains of tiles without autocorrelations were
 divided by uninitialised memory

---
 PyFHD/calibration/calibration_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 1adb97a..eee4bb8 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1578,7 +1578,8 @@ def cal_auto_ratio_divide(
         visibilities normalized via a reference tile.
     """
 
-    auto_ratio = np.empty([cal["n_pol"], obs["n_freq"], obs["n_tile"]])
+    # Tiles which don't have autocorrelations keep their gain
+    auto_ratio = np.ones([cal["n_pol"], obs["n_freq"], obs["n_tile"]])
     # This should be possible to Vectorize if it's slow
     for pol_i in range(cal["n_pol"]):
         # fhd_struct_init_cal puts the ref_antenna as 1 if it's not set, which is never appears to be
-- 
2.43.0


From 1c118161e7157d0e5468edf521473ae434fb5b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 22/94] fix: the reference autocorrelation was looked up by its
 tile number

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index eee4bb8..d5e0839 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1583,7 +1583,7 @@ def cal_auto_ratio_divide(
     # This should be possible to Vectorize if it's slow
     for pol_i in range(cal["n_pol"]):
         # fhd_struct_init_cal puts the ref_antenna as 1 if it's not set, which is never appears to be
-        v0 = vis_auto[pol_i, :, auto_tile_i[cal["ref_antenna"]]]
+        v0 = vis_auto[pol_i, :, cal["ref_antenna"]]
         auto_ratio[pol_i, :, auto_tile_i] = np.sqrt(
             vis_auto[pol_i, :, np.arange(auto_tile_i.size)] * weight_invert(v0)
         )
-- 
2.43.0


From 2c6fa39a21b923e28fbade74583e5abfd9a77256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 23/94] fix: the auto scale averaged uninitialised slopes of
 tiles without autocorrelations

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index d5e0839..8c03040 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1302,8 +1302,8 @@ def vis_cal_auto_fit(
         vis_auto[: cal["n_pol"]] * weight_invert(vis_auto_model[: cal["n_pol"]])
     )
     gain_cross = cal["gain"]
-    fit_slope = np.empty((cal["n_pol"], obs["n_tile"]))
-    fit_offset = np.empty_like(fit_slope)
+    fit_slope = np.zeros((cal["n_pol"], obs["n_tile"]))
+    fit_offset = np.zeros_like(fit_slope)
 
     # Didn't vectorize as the polyfit won't be vectorized
     for pol_i in range(cal["n_pol"]):
-- 
2.43.0


From 58aeae959c5b05a01f8d02b7ef8e87e0deec21b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 24/94] fix: fitting the autocorrelations failed with a single
 polarisation

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 8c03040..93c4a57 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1339,7 +1339,7 @@ def vis_cal_auto_fit(
             fit_slope[pol_i, tile_idx] = fit_single[0]
             fit_offset[pol_i, tile_idx] = fit_single[1]
     cal["auto_scale"] = np.sum(fit_slope, axis=1) / auto_tile_i.size
-    cal["auto_params"] = np.empty([cal["n_pol"], cal["n_pol"], obs["n_tile"]])
+    cal["auto_params"] = np.empty([2, cal["n_pol"], obs["n_tile"]])
     cal["auto_params"][0, :, :] = fit_offset
     cal["auto_params"][1, :, :] = fit_slope
     return cal
-- 
2.43.0


From be6714f31f7f0f7929d4a1278d136fb558d0ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 25/94] fix: the amplitude fit left out the term of the highest
 degree

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 93c4a57..6ce77d7 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -998,7 +998,7 @@ def vis_cal_polyfit(
                     .coef
                 )
                 cal["amp_params"][pol_i, tile_i, :] = fit_params
-                for di in range(pyfhd_config["cal_amp_degree_fit"]):
+                for di in range(fit_params.size):
                     gain_fit += fit_params[di] * np.arange(obs["n_freq"]) ** di
 
             gain_residual[pol_i, :, tile_i] = gain_amp[:, tile_i] - gain_fit
-- 
2.43.0


From ae87f8b26e10624c0db56ed45c6f3d2c369912d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 26/94] fix: reading the cable reflections from a file raised
 an error

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 6ce77d7..4f3639d 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1046,7 +1046,7 @@ def vis_cal_polyfit(
             mode_i_arr[1, :] = tile_mode_Y * tile_ref_flag
 
             amp_arr = np.vstack([tile_amp_X, tile_amp_Y])
-            phase_arr = np.vstack[[tile_phase_X, tile_phase_Y]]
+            phase_arr = np.vstack([tile_phase_X, tile_phase_Y])
 
         elif pyfhd_config["cal_reflection_mode_theory"]:
             logger.info(
-- 
2.43.0


From 88e2ca80819afb68912bf73772cfa874d598bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 27/94] fix: the delay spectrum was taken over tiles

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 4f3639d..d600272 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1090,7 +1090,7 @@ def vis_cal_polyfit(
             for pol_i in range(cal["n_pol"]):
                 for ti in range(tile_use.size):
                     tile_i = tile_use[ti]
-                    spec0 = np.abs(np.fft.fftn(gain_residual[pol_i, tile_i]))
+                    spec0 = np.abs(np.fft.fftn(gain_residual[pol_i, :, tile_i]))
                     mode_test += spec0[spec_inds]
             psf_mask = np.zeros(obs["n_freq"] // 2)
 
-- 
2.43.0


From a900202050d25531d6cbae4be85b86a198cd0894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 28/94] fix: the amplitude of a nominal reflection was not
 divided by the number of frequencies

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index d600272..da802fc 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1229,7 +1229,7 @@ def vis_cal_polyfit(
                             np.exp(1j * 2 * np.pi / obs["n_freq"] * mode_i * freq_use)
                             * gain_arr[freq_use, tile_i]
                         )
-                        amp_use = np.abs(mode_fit) / freq_use[0].size
+                        amp_use = np.abs(mode_fit) / freq_use.size
                         phase_use = np.arctan2(mode_fit.imag, mode_fit.real)
 
                     gain_mode_fit = amp_use * np.exp(
-- 
2.43.0


From 9df1d78030ae46c54a8af53dd8838671de9694a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 29/94] fix: fitting before the digital gain jump failed on its
 frequency range

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index da802fc..987a1e2 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -970,7 +970,7 @@ def vis_cal_polyfit(
                     )
                     for di in range(pyfhd_config["cal_amp_degree_fit"]):
                         gain_fit[freq_use[0] : freq_use[f_d] + 1] += fit_params1[di] * (
-                            np.arange(freq_use[f_d]) ** di
+                            np.arange(freq_use[0], freq_use[f_d] + 1) ** di
                         )
                         gain_fit[freq_use[f_d + 1] : freq_use[f_end - 1] + 1] += (
                             fit_params2[di]
-- 
2.43.0


From 6cb2afdbda0770af813e0502d12fa88f200d4fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 30/94] fix: the polynomial fit without a bandpass swapped its
 arguments

---
 PyFHD/calibration/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibrate.py b/PyFHD/calibration/calibrate.py
index 565a3c5..6084529 100644
--- a/PyFHD/calibration/calibrate.py
+++ b/PyFHD/calibration/calibrate.py
@@ -125,7 +125,7 @@ def calibrate(
         if pyfhd_config["auto_ratio_calibration"]:
             cal = cal_auto_ratio_remultiply(cal, auto_ratio, auto_tile_i)
     elif pyfhd_config["calibration_polyfit"]:
-        cal = vis_cal_polyfit(cal, obs, None, pyfhd_config, logger)
+        cal = vis_cal_polyfit(obs, cal, None, pyfhd_config, logger)
 
     # Get the gain residuals
     if pyfhd_config["calibration_auto_fit"]:
-- 
2.43.0


From e03c15400ebd9fae3853b0a6b7e3e39629f63398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 31/94] fix: less than one calibration iteration was not
 refused

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 616ec74..cad3817 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -80,16 +80,16 @@ def vis_calibrate_subroutine(
     # maximum iterations to perform for the linear least-squares solver
     max_cal_iter = pyfhd_config["max_cal_iter"]
     # Leave a warning if its less than 5 iterations, or an Error if its less than 1
-    if max_cal_iter < 5:
+    if max_cal_iter < 1:
+        raise ValueError(
+            "max_cal_iter should be 1 or more. A max_cal_iter of 5 or more is recommended"
+        )
+    elif max_cal_iter < 5:
         warnings.warn(
             "At Least 5 calibrations iterations is recommended.\nYou're currently using {} iterations".format(
                 int(max_cal_iter)
             )
         )
-    elif max_cal_iter < 1:
-        raise ValueError(
-            "max_cal_iter should be 1 or more. A max_cal_iter of 5 or more is recommended"
-        )
     conv_thresh = pyfhd_config["cal_convergence_threshold"]
     use_adaptive_gain = pyfhd_config["cal_adaptive_calibration_gain"]
     base_gain = pyfhd_config["cal_base_gain"]
-- 
2.43.0


From b217826914144a5baca4cc4e240a36f45f07bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 32/94] fix: calibration compared baselines with the wrong side
 of the uv grid

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index cad3817..4e173b9 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -176,8 +176,8 @@ def vis_calibrate_subroutine(
         if calibration_weights:
             flag_dist_cut = np.where(
                 (dist_arr < min_baseline)
-                | (xcen > (elements / 2))
-                | (ycen > (dimension / 2))
+                | (xcen > (dimension / 2))
+                | (ycen > (elements / 2))
             )
             if min_cal_baseline > min_baseline:
                 taper_min = np.maximum(
@@ -196,8 +196,8 @@ def vis_calibrate_subroutine(
             flag_dist_cut = np.where(
                 (dist_arr < min_cal_baseline)
                 | (dist_arr > max_cal_baseline)
-                | (xcen > (elements / 2))
-                | (ycen > (dimension / 2))
+                | (xcen > (dimension / 2))
+                | (ycen > (elements / 2))
             )
         # Remove kx_arr, ky_arr and dist_arr from the namespace, allow garbage collector to do its work
         del (kx_arr, ky_arr, dist_arr)
-- 
2.43.0


From 8d676a8d00af6ae4e9983ff280fd28bf60d9204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 33/94] fix: calibration failed when every tile has the same
 number of visibilities

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 4e173b9..8be529b 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -287,9 +287,7 @@ def vis_calibrate_subroutine(
                     A_ind_arr.append(-1)
                 # NEED SOMETHING MORE IN CASE INDIVIDUAL TILES ARE FLAGGED FOR ONLY A FEW FREQUENCIES!!
                 n_arr[tile_i] = inds.size
-            # I suspect a list of lists maybe faster than the object array, check during optimization
-            # Although I doubt it will make a huge difference.
-            A_ind_arr = np.array(A_ind_arr, dtype=object)
+            # Keep this as a list, an array of index arrays which all have the same size isn't an array of arrays
             # For tiles which don't satisfy the minimum number of solutions, pre-emptively set them to 0
             # in order to prevent certain failure in meeting strict convergence threshold
             inds_min_cal = np.where(n_arr < min_cal_solutions)[0]
-- 
2.43.0


From 398e39f67b3c6824d18db863958d2c0cb1aa4912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 34/94] fix: the tiles of the autocorrelations were converted
 to an abstract type

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 987a1e2..102400a 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -49,7 +49,7 @@ def vis_extract_autocorr(
     if autocorr_i.size > 0:
         auto_tile_i = obs["baseline_info"]["tile_a"][autocorr_i] - 1
         # As auto_tile_i is used for indexing we need to make it an integer array
-        auto_tile_i = auto_tile_i.astype(np.integer)
+        auto_tile_i = auto_tile_i.astype(np.int64)
         auto_tile_i_single = np.unique(auto_tile_i)
         # expect it as a list of 2D arrays, so there might be trouble
         if not pyfhd_config["cal_time_average"]:
-- 
2.43.0


From c36ec123719cd9fdd480e75978d147a045426150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 35/94] fix: the reference autocorrelation was another tile's
 when some tiles have none

---
 PyFHD/calibration/calibration_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 102400a..8f8ad05 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1580,10 +1580,13 @@ def cal_auto_ratio_divide(
 
     # Tiles which don't have autocorrelations keep their gain
     auto_ratio = np.ones([cal["n_pol"], obs["n_freq"], obs["n_tile"]])
+    # The reference is the autocorrelation of the reference tile, or the first one if it doesn't have any
+    ref_auto_i = np.nonzero(auto_tile_i == cal["ref_antenna"])[0]
+    ref_auto_i = ref_auto_i[0] if ref_auto_i.size > 0 else 0
     # This should be possible to Vectorize if it's slow
     for pol_i in range(cal["n_pol"]):
         # fhd_struct_init_cal puts the ref_antenna as 1 if it's not set, which is never appears to be
-        v0 = vis_auto[pol_i, :, cal["ref_antenna"]]
+        v0 = vis_auto[pol_i, :, ref_auto_i]
         auto_ratio[pol_i, :, auto_tile_i] = np.sqrt(
             vis_auto[pol_i, :, np.arange(auto_tile_i.size)] * weight_invert(v0)
         )
-- 
2.43.0


From 7e585db89332f1017e191d445713c91b36ae31db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 36/94] fix: the baseline histograms failed when some of a
 bin's model visibilities are zero

---
 PyFHD/calibration/calibration_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 8f8ad05..772045d 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1523,6 +1523,7 @@ def vis_baseline_hist(
                 wh_noflag = np.where(np.abs(model_vals) > 0)[0]
                 if wh_noflag.size > 0:
                     inds = inds[wh_noflag]
+                    model_vals = model_vals[wh_noflag]
                 else:
                     continue
                 # if Keyword_Set(calibration_visibilities_subtract) THEN BEGIN
-- 
2.43.0


From db2431fb585382ef1531d9b317df19afe96f2fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 37/94] fix: polynomial coefficients were wrong when numpy
 leaves out trailing zeros

---
 PyFHD/calibration/calibration_utils.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 772045d..d211889 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -924,7 +924,7 @@ def vis_cal_polyfit(
             (
                 cal["n_pol"],
                 obs["n_tile"],
-                pyfhd_config["cal_amp_degree_fit"],
+                2,
                 pyfhd_config["cal_amp_degree_fit"],
             )
         )
@@ -968,10 +968,11 @@ def vis_cal_polyfit(
                         .convert()
                         .coef
                     )
-                    for di in range(pyfhd_config["cal_amp_degree_fit"]):
+                    for di in range(fit_params1.size):
                         gain_fit[freq_use[0] : freq_use[f_d] + 1] += fit_params1[di] * (
                             np.arange(freq_use[0], freq_use[f_d] + 1) ** di
                         )
+                    for di in range(fit_params2.size):
                         gain_fit[freq_use[f_d + 1] : freq_use[f_end - 1] + 1] += (
                             fit_params2[di]
                             * (
@@ -982,8 +983,13 @@ def vis_cal_polyfit(
                         )
                     # Do notice this is saving the coefficients on a per row basis, so fit_params1 a,b will be [pol_i, tile_i, 0, :]
                     # While fit_params2 a, b coefficients will be in [pol_i, tile_i, 1, :]
-                    fit_params = np.vstack([fit_params1, fit_params2])
-                    cal["amp_params"][pol_i, tile_i] = fit_params
+                    cal["amp_params"][pol_i, tile_i] = 0
+                    cal["amp_params"][pol_i, tile_i, 0, : fit_params1.size] = (
+                        fit_params1
+                    )
+                    cal["amp_params"][pol_i, tile_i, 1, : fit_params2.size] = (
+                        fit_params2
+                    )
                 else:
                     logger.warning(
                         "digital_gain_jump_polyfit only works with highband mwa data. Full band polyfit applied instead."
@@ -997,7 +1003,9 @@ def vis_cal_polyfit(
                     .convert()
                     .coef
                 )
-                cal["amp_params"][pol_i, tile_i, :] = fit_params
+                # Trailing coefficients which are zero are left out of fit_params
+                cal["amp_params"][pol_i, tile_i, :] = 0
+                cal["amp_params"][pol_i, tile_i, : fit_params.size] = fit_params
                 for di in range(fit_params.size):
                     gain_fit += fit_params[di] * np.arange(obs["n_freq"]) ** di
 
@@ -1012,7 +1020,8 @@ def vis_cal_polyfit(
                 .convert()
                 .coef
             )
-            cal["phase_params"][pol_i, tile_i, :] = phase_params
+            cal["phase_params"][pol_i, tile_i, :] = 0
+            cal["phase_params"][pol_i, tile_i, : phase_params.size] = phase_params
             phase_fit = np.zeros(obs["n_freq"])
             for di in range(phase_params.size):
                 phase_fit += phase_params[di] * np.arange(obs["n_freq"]) ** di
-- 
2.43.0


From 8de3d485ae85c438700b8528729f460a1c872189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 38/94] fix: the full band fit for frequencies on one side of
 the gain jump was never done

---
 PyFHD/calibration/calibration_utils.py | 94 +++++++++++++-------------
 1 file changed, 47 insertions(+), 47 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index d211889..d462fae 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -919,7 +919,14 @@ def vis_cal_polyfit(
     gain_residual = np.empty((cal["n_pol"], obs["n_freq"], obs["n_tile"]))
     # create amp_params with the shape of (n_pol, n_tile, amp_degree + 1)
     # If we're using the digital_gain_jump_polyfit add extra dimension to amp_params
-    if pyfhd_config["digital_gain_jump_polyfit"]:
+    pre_dig = obs["baseline_info"]["freq"][freq_use] < 187.515e6
+    digital_gain_jump = pyfhd_config["digital_gain_jump_polyfit"]
+    if digital_gain_jump and (np.all(pre_dig) or not np.any(pre_dig)):
+        logger.warning(
+            "digital_gain_jump_polyfit only works with highband mwa data. Full band polyfit applied instead."
+        )
+        digital_gain_jump = False
+    if digital_gain_jump:
         cal["amp_params"] = np.empty(
             (
                 cal["n_pol"],
@@ -943,57 +950,50 @@ def vis_cal_polyfit(
             gain = np.squeeze(gain_amp[freq_use, tile_i])
             gain_fit = np.zeros(obs["n_freq"])
             # Pre and post digital gain jump separately for highband MWA data
-            if pyfhd_config["digital_gain_jump_polyfit"]:
-                pre_dig_inds = np.where(
-                    obs["baseline_info"]["freq"][freq_use] < 187.515e6
+            if digital_gain_jump:
+                pre_dig_inds = np.where(pre_dig)
+                f_d = np.max(pre_dig_inds[0])
+                f_end = freq_use.size
+                fit_params1 = (
+                    np.polynomial.Polynomial.fit(
+                        freq_use[0 : f_d + 1],
+                        gain[0 : f_d + 1],
+                        deg=pyfhd_config["cal_amp_degree_fit"] - 1,
+                    )
+                    .convert()
+                    .coef
                 )
-                if pre_dig_inds[0].size > 0:
-                    f_d = np.max(pre_dig_inds[0])
-                    f_end = freq_use.size
-                    fit_params1 = (
-                        np.polynomial.Polynomial.fit(
-                            freq_use[0 : f_d + 1],
-                            gain[0 : f_d + 1],
-                            deg=pyfhd_config["cal_amp_degree_fit"] - 1,
-                        )
-                        .convert()
-                        .coef
+                fit_params2 = (
+                    np.polynomial.Polynomial.fit(
+                        freq_use[f_d + 1 : f_end],
+                        gain[f_d + 1 : f_end],
+                        deg=pyfhd_config["cal_amp_degree_fit"] - 1,
                     )
-                    fit_params2 = (
-                        np.polynomial.Polynomial.fit(
-                            freq_use[f_d + 1 : f_end],
-                            gain[f_d + 1 : f_end],
-                            deg=pyfhd_config["cal_amp_degree_fit"] - 1,
-                        )
-                        .convert()
-                        .coef
+                    .convert()
+                    .coef
+                )
+                for di in range(fit_params1.size):
+                    gain_fit[freq_use[0] : freq_use[f_d] + 1] += fit_params1[di] * (
+                        np.arange(freq_use[0], freq_use[f_d] + 1) ** di
                     )
-                    for di in range(fit_params1.size):
-                        gain_fit[freq_use[0] : freq_use[f_d] + 1] += fit_params1[di] * (
-                            np.arange(freq_use[0], freq_use[f_d] + 1) ** di
+                for di in range(fit_params2.size):
+                    gain_fit[freq_use[f_d + 1] : freq_use[f_end - 1] + 1] += (
+                        fit_params2[di]
+                        * (
+                            np.arange(freq_use[f_end - 1] - freq_use[f_d + 1] + 1)
+                            + freq_use[f_d + 1]
                         )
-                    for di in range(fit_params2.size):
-                        gain_fit[freq_use[f_d + 1] : freq_use[f_end - 1] + 1] += (
-                            fit_params2[di]
-                            * (
-                                np.arange(freq_use[f_end - 1] - freq_use[f_d + 1] + 1)
-                                + freq_use[f_d + 1]
-                            )
-                            ** di
-                        )
-                    # Do notice this is saving the coefficients on a per row basis, so fit_params1 a,b will be [pol_i, tile_i, 0, :]
-                    # While fit_params2 a, b coefficients will be in [pol_i, tile_i, 1, :]
-                    cal["amp_params"][pol_i, tile_i] = 0
-                    cal["amp_params"][pol_i, tile_i, 0, : fit_params1.size] = (
-                        fit_params1
-                    )
-                    cal["amp_params"][pol_i, tile_i, 1, : fit_params2.size] = (
-                        fit_params2
-                    )
-                else:
-                    logger.warning(
-                        "digital_gain_jump_polyfit only works with highband mwa data. Full band polyfit applied instead."
+                        ** di
                     )
+                # Do notice this is saving the coefficients on a per row basis, so fit_params1 a,b will be [pol_i, tile_i, 0, :]
+                # While fit_params2 a, b coefficients will be in [pol_i, tile_i, 1, :]
+                cal["amp_params"][pol_i, tile_i] = 0
+                cal["amp_params"][pol_i, tile_i, 0, : fit_params1.size] = (
+                    fit_params1
+                )
+                cal["amp_params"][pol_i, tile_i, 1, : fit_params2.size] = (
+                    fit_params2
+                )
             # Fit for amplitude
             else:
                 fit_params = (
-- 
2.43.0


From 1b3a921df2a828f24fe33f6d9ba4d0143ff3debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 39/94] fix: reading the cable reflections failed with a single
 polarisation

---
 PyFHD/calibration/calibration_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index d462fae..110f100 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1052,7 +1052,8 @@ def vis_cal_polyfit(
             # Modes in fourier transform units
             mode_i_arr = np.zeros((cal["n_pol"], obs["n_tile"]))
             mode_i_arr[0, :] = tile_mode_X * tile_ref_flag
-            mode_i_arr[1, :] = tile_mode_Y * tile_ref_flag
+            if cal["n_pol"] > 1:
+                mode_i_arr[1, :] = tile_mode_Y * tile_ref_flag
 
             amp_arr = np.vstack([tile_amp_X, tile_amp_Y])
             phase_arr = np.vstack([tile_phase_X, tile_phase_Y])
-- 
2.43.0


From 2de15e1a462d38e14a389867cb2f93bc3616c862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 40/94] fix: the reflection parameters of tiles without a
 reflection were uninitialised

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 110f100..bcfb572 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1134,7 +1134,7 @@ def vis_cal_polyfit(
                 tile_ref_flag[cable_cut] = 0
             mode_i_arr *= tile_ref_flag
 
-        cal["mode_params"] = np.empty([cal["n_pol"], obs["n_tile"], 3])
+        cal["mode_params"] = np.zeros([cal["n_pol"], obs["n_tile"], 3])
         for pol_i in range(cal["n_pol"]):
             # Divide the polyfit to reveal the residual cable reflections better
             gain_arr = og_gain_arr[pol_i] / cal["gain"][pol_i]
-- 
2.43.0


From 13571d2ffa6b7869425685a5a4a953e067e2b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 41/94] fix: frequencies and tiles without any variation were
 not flagged by the calibration

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index bcfb572..0f140a8 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -225,11 +225,11 @@ def vis_calibration_flag(
         freq_cut_i = np.where(gain_freq_fom == 0)[0]
         freq_uncut_i = np.nonzero(gain_freq_fom)[0]
         if freq_cut_i.size > 0:
-            freq_use[freq_use_i][freq_cut_i] = 0
+            freq_use[freq_use_i[freq_cut_i]] = 0
         tile_cut_i = np.where(gain_tile_fom == 0)[0]
         tile_uncut_i = np.nonzero(gain_tile_fom)[0]
         if tile_cut_i.size > 0:
-            obs["baseline_info"]["tile_use"][tile_use_i][tile_cut_i] = 0
+            obs["baseline_info"]["tile_use"][tile_use_i[tile_cut_i]] = 0
         if freq_uncut_i.size == 0 or tile_uncut_i.size == 0:
             logger.error(
                 "The frequency and tile flagging inside calibration found some values not detected in previous flagging or calibration"
-- 
2.43.0


From 1578ea3bf075d293ef556243ff72f31a58045fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 42/94] fix: group parameters in first place were reported as
 missing, and missing ones raised another error

---
 PyFHD/data_setup/uvfits.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 7c38c33..7dba007 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -167,15 +167,15 @@ def extract_header(
     pyfhd_header["ant2_i"] = "ANTENNA2" in param_list
 
     if not pyfhd_header["ant1_i"] or not pyfhd_header["ant2_i"]:
-        pyfhd_header["baseline_i"] = param_list.index("BASELINE")
+        pyfhd_header["baseline_i"] = "BASELINE" in param_list
         if not pyfhd_header["baseline_i"]:
             logger.error(
                 "Group parameter BASELINE (or ANTENNA1 and ANTENNA2) not found within uvfits params_header PTYPE keywords"
             )
             params_valid = False
 
-    pyfhd_header["date_i"] = param_list.index("DATE")
-    if not pyfhd_header["date_i"]:
+    pyfhd_header["date_i"] = param_list.index("DATE") if "DATE" in param_list else -1
+    if pyfhd_header["date_i"] < 0:
         logger.error(
             "Group parameter DATE not found within uvfits params_header PTYPE keywords"
         )
-- 
2.43.0


From d7d5e05c0b202f17b4ad0f2398e294d8fde3b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 43/94] fix: the location of an unknown instrument raised an
 error instead of using the MWA

---
 PyFHD/data_setup/uvfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 7dba007..6be24b2 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -111,7 +111,7 @@ def extract_header(
             f"Failed to load in the {pyfhd_config['instrument']} instrument location from astropy. If lon/lat/alt are not in the UVFITS things will fail."
         )
         # Can also do MWA or Murchison Widefield Array
-        location = EarthLocation("mwa")
+        location = EarthLocation.of_site("mwa")
 
     try:
         pyfhd_header["lon"] = params_header["lon"]
-- 
2.43.0


From e24e7b234cd480ad35548c7d0d4db599dbf2ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 44/94] fix: reading visibilities failed with a single
 polarization, frequency or baseline

---
 PyFHD/data_setup/uvfits.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 6be24b2..90e28cb 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -316,7 +316,14 @@ def extract_visibilities(
     extract_header : Extracts the header from the UVFITS file and returns the header and data
     """
 
-    data_array = np.squeeze(params_data["DATA"])
+    # Remove the axes of length one between the visibilities and the last three (frequency, polarization, complex)
+    data_array = params_data["DATA"]
+    data_array = np.squeeze(
+        data_array,
+        axis=tuple(
+            i for i in range(1, data_array.ndim - 3) if data_array.shape[i] == 1
+        ),
+    )
     # Set the number of polarizations
     if pyfhd_config["n_pol"] == 0:
         n_pol = pyfhd_header["n_pol"]
-- 
2.43.0


From 280a1727cba877207ede6dd07c62c5a423499d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 45/94] fix: a layout without antenna numbers failed and missed
 the last antenna

---
 PyFHD/data_setup/uvfits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 90e28cb..1064b3c 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -539,10 +539,10 @@ def create_layout(
     try:
         layout["antenna_numbers"] = antenna_data["nosta"]
     except KeyError:
-        layout.warning(
+        logger.warning(
             "Antenna Numbers missing replacing with an array of numbers of range 1: n_antenna"
         )
-        layout["antenna_numbers"] = np.arange(1, layout["n_antenna"])
+        layout["antenna_numbers"] = np.arange(1, layout["n_antenna"] + 1)
 
     # Antenna Coordinates
     try:
-- 
2.43.0


From 152bdc0b38c17c446d0f057e2318d90a2ac2183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 46/94] fix: missing leap seconds were left out of the layout
 instead of being -1

---
 PyFHD/data_setup/uvfits.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 1064b3c..17f655a 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -501,6 +501,7 @@ def create_layout(
             logger.warning(
                 "Number of Leap Seconds is missing and the time system isn't IAT so we can't know the leap seconds, setting as -1"
             )
+            layout["nleap_sec"] = -1
 
     # Polarization Type
     try:
-- 
2.43.0


From 5eba653f30e5474c6852e980afcde2c101df41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 47/94] fix: creating the observation used a function numpy no
 longer has

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index a5abab6..c320243 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -127,7 +127,7 @@ def create_obs(
     # from the uvfits antenna table
     all_ants = np.hstack([params["antenna1"], params["antenna2"]])
     all_ants = np.unique(all_ants)
-    if not (np.all(np.in1d(all_ants, layout["antenna_numbers"]))):
+    if not (np.all(np.isin(all_ants, layout["antenna_numbers"]))):
         logger.warning("Antenna arrays contain number(s) not found in antenna table")
 
     # fhd expects antenna1 and antenna2 arrays containing indices that are one-indexed.
-- 
2.43.0


From eb82c93631f01347e4e4e450d75d5ca97c8c3293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 48/94] fix: mapping antenna numbers to tiles mapped already
 mapped numbers again

---
 PyFHD/data_setup/obs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index c320243..0f7ff05 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -95,8 +95,8 @@ def create_obs(
 
     antenna_flag = True
     if np.max(params["antenna1"]) > 0 and (np.max(params["antenna2"]) > 0):
-        baseline_info["tile_a"] = params["antenna1"]
-        baseline_info["tile_b"] = params["antenna2"]
+        baseline_info["tile_a"] = params["antenna1"].copy()
+        baseline_info["tile_b"] = params["antenna2"].copy()
         antenna_flag = False
     if antenna_flag:
         # 256 tile upper limit is hard-coded in CASA format
-- 
2.43.0


From 567263a9a1516688730a314ceace5cb41db0ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 49/94] fix: the size of uv pixels given by the field of view
 was overwritten

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 0f7ff05..636cb64 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -164,7 +164,7 @@ def create_obs(
     # Determine the imaging parameters to use
     if pyfhd_config["FoV"] is not None:
         obs["kpix"] = (180 / pi) / pyfhd_config["FoV"]
-    if pyfhd_config["kbinsize"] is None:
+    elif pyfhd_config["kbinsize"] is None:
         obs["kpix"] = 0.5
     else:
         obs["kpix"] = pyfhd_config["kbinsize"]
-- 
2.43.0


From 8d733348a12141f6e8e0134c5254c2d46e77769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 50/94] fix: creating the observation failed without a
 dimension

---
 PyFHD/data_setup/obs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 636cb64..3917b17 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -172,7 +172,7 @@ def create_obs(
     # Determine observation resolution/extent parameters given number of pixels in x direction (dimension)
     if pyfhd_config["dimension"] is None and pyfhd_config["elements"] is None:
         obs["dimension"] = 2 ** int(
-            (log10((2 * max_baseline) / pyfhd_config["kpix"]) / log10(2))
+            (log10((2 * max_baseline) / obs["kpix"]) / log10(2))
         )
         obs["elements"] = obs["dimension"]
     elif pyfhd_config["dimension"] is not None and pyfhd_config["elements"] is None:
@@ -187,7 +187,7 @@ def create_obs(
     # Ensure both dimension and elements are ints to prevent issues down the pipeline
     obs["dimension"] = int(obs["dimension"])
     obs["elements"] = int(obs["elements"])
-    obs["degpix"] = (180 / pi) / (obs["kpix"] * pyfhd_config["dimension"])
+    obs["degpix"] = (180 / pi) / (obs["kpix"] * obs["dimension"])
 
     # Set the max and min baseline
     max_baseline_inds = np.where(
-- 
2.43.0


From cb14ea9cce2024e538f0761a7ce4511162b31001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 51/94] fix: cutting times at the start or the end of the
 observation raised an error

---
 PyFHD/data_setup/obs.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 3917b17..0036b5a 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -208,21 +208,14 @@ def create_obs(
     # time cut is specified in seconds to cut (rounded up to next time integration point).
     # Specify negative time_cut to cut time off the end. Specify a vector to cut at both the start and end
     if pyfhd_config["time_cut"] is not None:
-        time_cut = pyfhd_config["time_cut"]
-        for ti in time_cut:
-            if time_cut[ti] < 0:
-                ti_start = min(
-                    obs["n_time"]
-                    - max(np.ceil(np.abs(time_cut[ti]) / meta["time_res"]), 0),
-                    obs["n_time"] - 1,
-                )
+        for time_cut in np.atleast_1d(pyfhd_config["time_cut"]):
+            n_cut = int(np.ceil(np.abs(time_cut) / meta["time_res"]))
+            if time_cut < 0:
+                ti_start = max(obs["n_time"] - n_cut, 0)
                 ti_end = obs["n_time"] - 1
             else:
                 ti_start = 0
-                ti_end = min(
-                    np.ceil(np.abs(time_cut[ti])) / meta["time_res"] - 1,
-                    obs["n_time"] - 1,
-                )
+                ti_end = min(n_cut, obs["n_time"]) - 1
             if ti_end >= ti_start:
                 baseline_info["time_use"][ti_start : ti_end + 1] = 0
     obs["n_time_flag"] = obs["n_time"] - np.sum(baseline_info["time_use"])
-- 
2.43.0


From 283cacfdc9ef516f86261f1b976d107d9e9de061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 52/94] fix: updating the observation put the last frequency
 bin into the first

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 0036b5a..89dfa42 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -518,7 +518,7 @@ def update_obs(
     freq_bin = beam_nfreq_avg * obs["freq_res"]
     freq_hist, _, freq_ri = histogram(obs["baseline_info"]["freq"], bin_size=freq_bin)
     freq_bin_i = np.zeros(obs["n_freq"], dtype=np.int64)
-    for bin in range(freq_hist.size - 1):
+    for bin in range(freq_hist.size):
         if freq_ri[bin] < freq_ri[bin + 1]:
             freq_bin_i[freq_ri[freq_ri[bin] : freq_ri[bin + 1]]] = bin
     # Adjust the obs dictionary based on the new dimension and kbinsize
-- 
2.43.0


From 5ac6a2f46adb1d901483fdc763a823bc96386aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 53/94] fix: a field of view of zero, which leaves the uv
 pixels to kbinsize, was divided by

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 89dfa42..1f8ae1f 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -162,7 +162,7 @@ def create_obs(
     max_baseline = max(np.max(np.abs(kx_arr)), np.max(np.abs(ky_arr)))
 
     # Determine the imaging parameters to use
-    if pyfhd_config["FoV"] is not None:
+    if pyfhd_config["FoV"]:
         obs["kpix"] = (180 / pi) / pyfhd_config["FoV"]
     elif pyfhd_config["kbinsize"] is None:
         obs["kpix"] = 0.5
-- 
2.43.0


From 59a998ad8c01ab2dfadf37fc49d82b959d2379c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 54/94] fix: an observation without a metafits file failed on
 the missing metadata

---
 PyFHD/data_setup/obs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 1f8ae1f..dd1e8c9 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -389,6 +389,8 @@ def read_metafits(
         meta["jd0"],
     )
 
+    if not meta_path.is_file():
+        return meta
     # Save the raw header and data into the meta dictionary
     # Save the header as a Python dictionary
     meta["meta_hdr"] = {}
-- 
2.43.0


From f3ba483c21fb7dc0cd4a2ceea264f144ddd07605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 55/94] fix: creating the observation failed with a single time

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index dd1e8c9..fb9b542 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -65,7 +65,7 @@ def create_obs(
     if obs["n_time"] > 1:
         bin_width[0 : obs["n_time"]] = b0i + 1
     else:
-        bin_width = time.size
+        bin_width[0] = time.size
     b0i_range = np.arange(1, obs["n_time"])
     bin_width[b0i_range] = b0i[b0i_range] - b0i[b0i_range - 1]
     baseline_info["bin_offset"] = np.zeros(obs["n_time"], dtype=np.int64)
-- 
2.43.0


From 77a84be517b87dd320e89c40fa114346cbb91f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 56/94] fix: the parallactic angle of a source between the
 zenith and the pole was off by half a turn

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 8d96ae3..3135de8 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -971,7 +971,7 @@ def parallactic_angle(latitude: float, hour_angle: float, dec: float) -> float:
     x_term = np.cos(np.radians(dec)) * np.tan(np.radians(latitude)) - np.sin(
         np.radians(dec)
     ) * np.cos(np.radians(hour_angle))
-    return np.degrees(np.arctan(y_term / x_term))
+    return np.degrees(np.arctan2(y_term, x_term))
 
 
 def simple_deproject_w_term(
-- 
2.43.0


From 215ff3440bb55256c8df3c2d5d9ae8cad0d06cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 57/94] fix: a HEALPix pixel on a row or column of the image
 lost its weight

---
 PyFHD/healpix/healpix_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index b46edc8..9c40141 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -50,7 +50,10 @@ def healpix_cnv_apply(
         i_use = hpx_cnv["i_use"][i]
         # Transpose is always True when used inside healpix_cnv_apply when using
         # sprsax2, so we can ignore the transpose keyword
-        hpx_map[hpx_cnv["ija"][i]] += hpx_cnv["sa"][i] * image_vector[i_use]
+        # A HEALPix pixel can be listed more than once for the same image pixel
+        np.add.at(
+            hpx_map, hpx_cnv["ija"][i], hpx_cnv["sa"][i] * image_vector[i_use]
+        )
     return hpx_map
 
 
-- 
2.43.0


From 10681dd6be9933b2f4f84746e237a2dbba9486f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 58/94] fix: the HEALPix pixels could not be selected without a
 list of them

---
 PyFHD/healpix/healpix_utils.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 9c40141..e680c10 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -176,9 +176,9 @@ def healpix_cnv_generate(
         xv_hpx, yv_hpx = radec_to_pixel(pix_ra, pix_dec, obs["astr"])
     else:
         cen_coords = ang2vec(obs["obsra"], obs["obsdec"], lonlat=True)
-        hpx_inds = query_disc(nside, cen_coords, hpx_radius)
-        pix_coords = np.vstack(pix2vec(nside, hpx_inds)).T
-        pix_dec, pix_ra = vec2ang(pix_coords, lonlat=True)
+        hpx_inds = query_disc(int(nside), cen_coords, np.radians(hpx_radius))
+        pix_coords = np.vstack(pix2vec(int(nside), hpx_inds)).T
+        pix_ra, pix_dec = vec2ang(pix_coords, lonlat=True)
         xv_hpx, yv_hpx = radec_to_pixel(pix_ra, pix_dec, obs["astr"])
         # slightly more restrictive boundary here ('LT' and 'GT' instead of 'LE' and 'GE')
         pix_i_use = np.where(
@@ -186,18 +186,22 @@ def healpix_cnv_generate(
             & (xv_hpx < obs["dimension"] - 1)
             & (yv_hpx > 0)
             & (yv_hpx < obs["elements"] - 1)
-        )
+        )[0]
         xv_hpx = xv_hpx[pix_i_use]
         yv_hpx = yv_hpx[pix_i_use]
-        hpx_mask00 = mask[np.floor(xv_hpx), np.floor(yv_hpx)]
-        hpx_mask01 = mask[np.floor(xv_hpx), np.ceil(yv_hpx)]
-        hpx_mask10 = mask[np.ceil(xv_hpx), np.floor(yv_hpx)]
-        hpx_mask11 = mask[np.ceil(xv_hpx), np.ceil(yv_hpx)]
+        x_floor, x_ceil = np.floor(xv_hpx).astype(int), np.ceil(xv_hpx).astype(int)
+        y_floor, y_ceil = np.floor(yv_hpx).astype(int), np.ceil(yv_hpx).astype(int)
+        hpx_mask00 = mask[y_floor, x_floor]
+        hpx_mask01 = mask[y_ceil, x_floor]
+        hpx_mask10 = mask[y_floor, x_ceil]
+        hpx_mask11 = mask[y_ceil, x_ceil]
         hpx_mask = hpx_mask00 * hpx_mask01 * hpx_mask10 * hpx_mask11
-        pix_i_use2 = np.nonzero(hpx_mask)
+        pix_i_use2 = np.nonzero(hpx_mask)[0]
         xv_hpx = xv_hpx[pix_i_use2]
         yv_hpx = yv_hpx[pix_i_use2]
         pix_i_use = pix_i_use[pix_i_use2]
+        pix_ra = pix_ra[pix_i_use]
+        pix_dec = pix_dec[pix_i_use]
         hpx_inds = hpx_inds[pix_i_use]
 
     # Test for pixels past the horizon. We don't need to be precise with this, so turn off precession, etc..
-- 
2.43.0


From 1e302db34a289f04a871ccb66c1b2384df98cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 59/94] fix: frequencies instead of baselines were selected for
 the frequency split

---
 PyFHD/healpix/healpix_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index e680c10..f9cc469 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -519,12 +519,12 @@ def vis_model_freq_split(
     if bi_use is None:
         if obs["n_pol"] > 1:
             flag_test = np.maximum(np.maximum(vis_weights[0], vis_weights[1]), 0)
-            # Double check the axis used
-            flag_test = np.sum(flag_test, axis=1)
+            # The baselines in use are those with weight at any frequency
+            flag_test = np.sum(flag_test, axis=0)
             bi_use = np.where(flag_test > 0)[0]
         else:
             flag_test = np.maximum(vis_weights[0], 0)
-            flag_test = np.sum(flag_test, axis=1)
+            flag_test = np.sum(flag_test, axis=0)
             bi_use = np.where(flag_test > 0)[0]
 
     n_vis_use = 0
-- 
2.43.0


From 6cfdd6bb4222fd67a7a1c39d29bb5d959c273d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 60/94] fix: the uv planes of the frequency split lost their
 imaginary part without the FFT

---
 PyFHD/healpix/healpix_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index f9cc469..43fb5a4 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -505,10 +505,12 @@ def vis_model_freq_split(
         model_uv_arr = np.zeros(
             [nf, obs["dimension"], obs["dimension"]], dtype=np.complex128
         )
-    dirty_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    weights_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    variance_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    model_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
+    # Without the FFT the arrays are the complex uv planes
+    arr_type = np.float64 if fft else np.complex128
+    dirty_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
+    weights_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
+    variance_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
+    model_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
     vis_n_arr = np.zeros([nf])
     if pyfhd_config["rephase_weights"]:
         rephase_use = phase_shift_uv_image(obs)
-- 
2.43.0


From 6299f8e6e4d54ed732d7ff194c898c3f2527be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 61/94] fix: the HEALPix cubes could not be made without the
 even odd split

---
 PyFHD/healpix/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/export.py b/PyFHD/healpix/export.py
index 26a72c9..5eb4137 100644
--- a/PyFHD/healpix/export.py
+++ b/PyFHD/healpix/export.py
@@ -135,7 +135,8 @@ def healpix_snapshot_cube_generate(
         n_iter = 1
         uvf_name = [""]
         obs_out["vis_noise"] = vis_noise_calc(obs_out, vis_arr, vis_weights)
-        bi_use = np.zeros(1, dtype=np.int64)
+        vis_weights_use = vis_weights
+        bi_use = [np.arange(vis_weights.shape[2])]
 
     # Looks like this is set to False by default?
     residual_flag = obs_out["residual"]
-- 
2.43.0


From e6bde36233899d77a58bc2932ca7fda280b20616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 62/94] fix: estimating the noise removed weights from the
 visibilities

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 3135de8..710a207 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1323,7 +1323,8 @@ def vis_noise_calc(
         return noise_arr
 
     if bi_use is None:
-        vis_weights_use, bi_use = split_vis_weights(obs, vis_weights)
+        # The split changes the weights given to it, which are still needed as they are
+        vis_weights_use, bi_use = split_vis_weights(obs, vis_weights.copy())
     else:
         vis_weights_use = vis_weights
 
-- 
2.43.0


From 71548aa98ddf4fc5c62261205618fcdb74160720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 63/94] fix: the squared beam image kept the beam of earlier
 frequency bins

---
 PyFHD/beam_setup/beam_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index a8d7244..a62a890 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -158,13 +158,13 @@ def beam_image(
         fbin_use = np.sort(np.unique(freq_bin_use))
         nbin = fbin_use.size
 
-        if beam_gaussian_params is not None:
-            beam_single = np.zeros([dimension, elements])
-        else:
-            beam_single = np.zeros([psf_dim, psf_dim], dtype=np.complex128)
         for bin_i in range(nbin):
             fbin = fbin_use[bin_i]
             nf_bin = np.count_nonzero(freq_bin_use == fbin)
+            if beam_gaussian_params is not None:
+                beam_single = np.zeros([dimension, elements])
+            else:
+                beam_single = np.zeros([psf_dim, psf_dim], dtype=np.complex128)
             if beam_gaussian_params is not None:
                 for gi in range(n_groups):
                     # beam_gaussian_params needs to be copied here rather than
-- 
2.43.0


From 0a2bcfcaca29ed210b765bbdf0b536241e556b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 64/94] fix: the image of a beam given by its uv plane was not
 of its polarisation and failed on the slices

---
 PyFHD/beam_setup/beam_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index a62a890..362aced 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -125,10 +125,10 @@ def beam_image(
         freq_norm = freq_norm[:]
         pix_horizon = pix_horizon[0]
     dimension = elements = obs["dimension"]
-    xl = dimension / 2 - psf_dim / 2 + 1
-    xh = dimension / 2 - psf_dim / 2 + psf_dim
-    yl = elements / 2 - psf_dim / 2 + 1
-    yh = elements / 2 - psf_dim / 2 + psf_dim
+    xl = int(dimension / 2 - psf_dim / 2 + 1)
+    xh = int(dimension / 2 - psf_dim / 2 + psf_dim)
+    yl = int(elements / 2 - psf_dim / 2 + 1)
+    yh = int(elements / 2 - psf_dim / 2 + psf_dim)
 
     group_n, _, ri_id = histogram(group_id, min=0)
     gi_use = np.nonzero(group_n)
@@ -185,7 +185,7 @@ def beam_image(
             else:
                 for gi in range(n_groups):
                     beam_single += (
-                        psf["beam_ptr"][0, fbin, rbin, rbin] * group_n[gi_use[gi]]
+                        psf["beam_ptr"][pol_i, fbin, rbin, rbin] * group_n[gi_use[gi]]
                     ).reshape([psf_dim, psf_dim])
                 beam_single /= np.sum(group_n[gi_use])
                 if abs:
@@ -228,7 +228,7 @@ def beam_image(
             else:
                 for gi in range(n_groups):
                     beam_single += (
-                        psf["beam_ptr"][0, fbin, rbin, rbin] * group_n[gi_use[gi]]
+                        psf["beam_ptr"][pol_i, fbin, rbin, rbin] * group_n[gi_use[gi]]
                     ).reshape([psf_dim, psf_dim])
             beam_single /= np.sum(group_n[gi_use])
             beam_base_uv += beam_single
-- 
2.43.0


From d9fe65eee99809f225827275adb0b60a1423f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 65/94] fix: the beam image of a single frequency failed unless
 squared

---
 PyFHD/beam_setup/beam_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 362aced..faa143c 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -149,7 +149,7 @@ def beam_image(
     n_bin_use = 0
     # We assume freq_i is an int when provided (i.e. a single frequency index)
     if freq_i is not None:
-        freq_i_use = freq_i
+        freq_i_use = np.atleast_1d(freq_i)
 
     if square:
         # Do note freq_i_use could be an integer or an array if freq_i is supplied or not
-- 
2.43.0


From 4d1cbaec5c31a79e45442ee8c4f1a187398e24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 66/94] fix: the nearest angle between two directions was the
 farther one

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 710a207..a8ee8e9 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1,7 +1,7 @@
 import subprocess
 from copy import deepcopy
 from logging import Logger
-from math import factorial, pi
+from math import factorial
 from sys import exit
 import h5py
 import numpy as np
@@ -943,7 +943,7 @@ def angle_difference(
     # Use built in astropy separtion instead of calculating it
     relative_angle = coord1.separation(coord2).value
     if nearest:
-        return max(relative_angle, 2 * pi - relative_angle)
+        return min(relative_angle, 360 - relative_angle)
     else:
         return relative_angle
 
-- 
2.43.0


From 80a44641aea4b43e36494590fdf6112f8164aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 67/94] fix: the beam image failed with more than one group of
 baselines

---
 PyFHD/beam_setup/beam_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index faa143c..8196de8 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -131,7 +131,7 @@ def beam_image(
     yh = int(elements / 2 - psf_dim / 2 + psf_dim)
 
     group_n, _, ri_id = histogram(group_id, min=0)
-    gi_use = np.nonzero(group_n)
+    gi_use = np.nonzero(group_n)[0]
     # Most likely going to be 1 as PyFHD does only one beam mostly
     n_groups = np.count_nonzero(group_n)
 
-- 
2.43.0


From 5fe45f78ccf5b83f2c706f64b53fe83cd5758266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 68/94] fix: the grid of the HEALPix cubes could be a pixel
 smaller than the observation's

---
 PyFHD/healpix/export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/export.py b/PyFHD/healpix/export.py
index 5eb4137..db42be7 100644
--- a/PyFHD/healpix/export.py
+++ b/PyFHD/healpix/export.py
@@ -79,7 +79,8 @@ def healpix_snapshot_cube_generate(
     else:
         dimension_use = fov_use / obs["degpix"]
 
-    dimension_use = int(dimension_use)
+    # Rounding errors must not change the size of the grid
+    dimension_use = int(np.round(dimension_use))
 
     if pyfhd_config["ps_nfreq_avg"] is None:
         fbin_i = psf["fbin_i"]
-- 
2.43.0


From 93341d3e507566da7bc2220f1e90409679dad45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 69/94] fix: the raw weights could not be saved without the
 visibilities

---
 PyFHD/pyfhd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index a851d98..79a0184 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -132,11 +132,13 @@ def main():
         )
 
         # Save the raw visibilities and weights if the option is set
-        if pyfhd_config["save_visibilities"]:
+        if pyfhd_config["save_visibilities"] or pyfhd_config["save_weights"]:
             pyfhd_config["visibilities_path"] = Path(
                 pyfhd_config["output_dir"], "visibilities"
             )
             pyfhd_config["visibilities_path"].mkdir(exist_ok=True)
+
+        if pyfhd_config["save_visibilities"]:
             raw_vis_arr_path = Path(
                 pyfhd_config["visibilities_path"],
                 f"{pyfhd_config['obs_id']}_raw_vis_arr.h5",
-- 
2.43.0


From cf916dd997775cdf06e236b6294e77266c6c5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 70/94] fix: a run could not be resumed from the calibration
 checkpoint

---
 PyFHD/pyfhd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 79a0184..996b6ef 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -342,7 +342,7 @@ def main():
                 )
     else:
         # Load the calibration checkpoint
-        if pyfhd_config["calibration_checkpoint"]:
+        if pyfhd_config["calibrate_checkpoint"]:
             cal_checkpoint = load(pyfhd_config["calibrate_checkpoint"], logger=logger)
             obs = cal_checkpoint["obs"]
             params = cal_checkpoint["params"]
-- 
2.43.0


From 75b283279841ab0e66aa43a4d20f1571ecdb74a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 71/94] fix: a run without calibration failed when exporting

---
 PyFHD/pyfhd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 996b6ef..e548031 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -264,6 +264,8 @@ def main():
             logger,
         )
 
+        # There is no cal dictionary when the calibration is turned off
+        cal = None
         # Skipped initializing the cal structure as it mostly just copies values from the obs, params, config and the skymodel from FHD
         # However, there is resulting cal structure for logging and output purposes to store the resulting gain and any other associated
         # arrays
-- 
2.43.0


From 24144a2f1f8d9734b34d61d7e31084bbec3358db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 72/94] fix: the observation updated by the gridding was not in
 its checkpoint

---
 PyFHD/pyfhd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index e548031..493c185 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -469,6 +469,7 @@ def main():
                 model_uv = crosspol_reformat(model_uv)
         if pyfhd_config["save_checkpoints"]:
             checkpoint = {
+                "obs": obs,
                 "image_uv": image_uv,
                 "weights_uv": weights_uv,
                 "variance_uv": variance_uv,
@@ -493,6 +494,9 @@ def main():
     else:
         if pyfhd_config["gridding_checkpoint"]:
             grid_checkpoint = load(pyfhd_config["gridding_checkpoint"], logger=logger)
+            # The gridding updates the observation metadata dictionary
+            if "obs" in grid_checkpoint:
+                obs = grid_checkpoint["obs"]
             image_uv = grid_checkpoint["image_uv"]
             weights_uv = grid_checkpoint["weights_uv"]
             variance_uv = grid_checkpoint["variance_uv"]
-- 
2.43.0


From 35da57e3862dca04371f361832a8b2956b3ddc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 73/94] fix: a dictionary with a string could not be loaded

---
 PyFHD/io/pyfhd_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 99f70d2..79d17e4 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -448,10 +448,11 @@ def load_dataset(
             value = dataset[()]
         else:
             value = dataset[:]
-        if value.dtype.kind == "S":
-            value = _decode_byte_arr(value)
+        # A single string is read as bytes which have no dtype
         if isinstance(value, bytes):
             value = value.decode()
+        elif value.dtype.kind == "S":
+            value = _decode_byte_arr(value)
         return value
 
 
-- 
2.43.0


From 39e5956194cd3716a785b8bc24a6c1c4885d9827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 74/94] fix: a file with a single group or value could not be
 loaded and single strings were not decoded

---
 PyFHD/io/pyfhd_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 79d17e4..2a74316 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -518,13 +518,13 @@ def load(
     if lazy_load:
         return h5_file
     try:
-        if len(h5_file.keys()) == 1:
+        keys = list(h5_file.keys())
+        if len(keys) == 1 and isinstance(h5_file[keys[0]], h5py.Dataset):
             # Assume that it contains only one numpy array, in which case read the array
-            key = list(h5_file.keys())[0]
+            key = keys[0]
             if logger:
                 logger.info(f"Loading {key} from {file_name} into an array")
-            array = h5_file[key][:]
-            return array
+            return load_dataset(h5_file, key, h5_file[key])
         else:
             return_dict = {}
             if logger:
-- 
2.43.0


From 51523e99bba5a460e6f232a144ffb2c952e1751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 75/94] fix: an array without dimensions could not be saved

---
 PyFHD/io/pyfhd_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 2a74316..e74f293 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -246,7 +246,8 @@ def save_dataset(
                     shape=value.shape,
                     data=value,
                     dtype=value_dtype,
-                    compression="gzip",
+                    # HDF5 doesn't support the compression of scalars
+                    compression="gzip" if value.ndim > 0 else None,
                 )
         case list():
             # Was easier to convert to a NumPy array to get vectorization
-- 
2.43.0


From c509092dbd1f73d35f5bb3fbeb679d54b7e8b2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 76/94] fix: a list of lists of different lengths could not be
 saved

---
 PyFHD/io/pyfhd_io.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index e74f293..068e6bf 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -265,13 +265,16 @@ def save_dataset(
                     data_dtype = dtype_picker(value.dtype)
                 except ValueError as e:
                     if "inhomogeneous" in str(e):
-                        logger.warning(
-                            f"Failed to save {key} as an array as the list couldn't turn into a NumPy array, trying to save as a variable length array. Please add {key} to the variable_lengths dictionary in the save function in future."
-                        )
+                        if logger is not None:
+                            logger.warning(
+                                f"Failed to save {key} as an array as the list couldn't turn into a NumPy array, trying to save as a variable length array. Please add {key} to the variable_lengths dictionary in the save function in future."
+                            )
                         value = np.array(value, dtype=object)
                         for i, arr in enumerate(value):
-                            value[i] = format_array(arr)
-                        data_dtype = h5py.vlen_dtype(dtype_picker(value[0].dtype))
+                            value[i] = format_array(np.asarray(arr))
+                        data_dtype = h5py.vlen_dtype(
+                            dtype_picker(np.result_type(*value))
+                        )
                     else:
                         logger.info(
                             f"You received an error not related to the array being inhomogeneous, Here's the error: {e}"
-- 
2.43.0


From e7dd20671a46a55331d3655cab8e9836f2317ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 77/94] fix: a NumPy string could not be saved

---
 PyFHD/io/pyfhd_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 068e6bf..56448fb 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -282,8 +282,8 @@ def save_dataset(
             h5py_obj.create_dataset(
                 key, data=value, dtype=data_dtype, compression="gzip"
             )
-        case Path():
-            # If we find a Path object, convert it to a string
+        case Path() | str():
+            # If we find a Path object or a NumPy string, convert it to a string
             value = str(value)
             h5py_obj.create_dataset(key, data=value)
         case None:
-- 
2.43.0


From 8d4f79b6c894e39495d8bc302f38f1fe4e778d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:42 +0000
Subject: [PATCH 78/94] fix: the images and cubes changed the observation used
 after them

---
 PyFHD/data_setup/obs.py     | 3 +++
 PyFHD/io/pyfhd_quickview.py | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index fb9b542..6fabe7b 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import logging
 from math import pi, log10
@@ -523,6 +524,8 @@ def update_obs(
     for bin in range(freq_hist.size):
         if freq_ri[bin] < freq_ri[bin + 1]:
             freq_bin_i[freq_ri[freq_ri[bin] : freq_ri[bin + 1]]] = bin
+    # The given obs keeps describing the observation as it is
+    obs = copy.deepcopy(obs)
     # Adjust the obs dictionary based on the new dimension and kbinsize
     obs["dimension"] = dimension
     obs["elements"] = dimension
diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index 4d18bf6..1326300 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -244,8 +244,10 @@ def quickview(
     beam_i = np.nonzero(beam_mask)
 
     # Generate our dirty images of the uv planes
-    instr_dirty_arr = np.empty([obs["n_pol"], obs["dimension"], obs["elements"]])
-    instr_model_arr = np.empty([obs["n_pol"], obs["dimension"], obs["elements"]])
+    instr_dirty_arr = np.empty(
+        [obs["n_pol"], obs_out["dimension"], obs_out["elements"]]
+    )
+    instr_model_arr = np.empty_like(instr_dirty_arr)
     filter_arr = np.zeros([obs["n_pol"], obs["dimension"], obs["elements"]])
     for pol_i in range(obs["n_pol"]):
         complex_flag = pol_i > 1
-- 
2.43.0


From bfd05a25ebb26d69d1c5d0fe5f6c44fbfeea058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:42 +0000
Subject: [PATCH 79/94] fix: the images renamed the polarizations of the
 observation

---
 PyFHD/io/pyfhd_quickview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index 1326300..e2c01f4 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -287,7 +287,7 @@ def quickview(
     instr_model_arr *= renorm_factor
     instr_residual_arr = instr_dirty_arr - instr_model_arr
     # Get the pol_names
-    pol_names = obs["pol_names"]
+    pol_names = list(obs["pol_names"])
     # The cross-polarization XY and YX images are both complex, but are conjugate mirrors of each other
     # To make images of these, we simply take the real and imaginary parts separately
     if obs_out["n_pol"] >= 4:
-- 
2.43.0


From 0c62b5dfe57dc972f93981477830eb2b5a1dfce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:42 +0000
Subject: [PATCH 80/94] fix: the weights of every polarization held those of
 all

---
 PyFHD/io/pyfhd_quickview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index e2c01f4..fd3b3b6 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -412,7 +412,7 @@ def quickview(
             Path(fits_output, f"{pyfhd_config['obs_id']}_beam_{pol_names[pol_i]}.fits"),
             overwrite=True,
         )
-        fits_file_uv.data = np.abs(weights_uv) * obs["n_vis"]
+        fits_file_uv.data = np.abs(weights_uv[pol_i]) * obs["n_vis"]
         fits_file_uv.writeto(
             Path(
                 fits_output,
-- 
2.43.0


From 5a422afc8bbfe1f94d493d6c2f14f1a1d167220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:42 +0000
Subject: [PATCH 81/94] fix: the imaginary images of the cross polarizations
 were zero

---
 PyFHD/io/pyfhd_quickview.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index fd3b3b6..a93235c 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -244,8 +244,10 @@ def quickview(
     beam_i = np.nonzero(beam_mask)
 
     # Generate our dirty images of the uv planes
+    # The images of the cross polarizations are complex
     instr_dirty_arr = np.empty(
-        [obs["n_pol"], obs_out["dimension"], obs_out["elements"]]
+        [obs["n_pol"], obs_out["dimension"], obs_out["elements"]],
+        dtype=np.complex128 if obs["n_pol"] > 2 else np.float64,
     )
     instr_model_arr = np.empty_like(instr_dirty_arr)
     filter_arr = np.zeros([obs["n_pol"], obs["dimension"], obs["elements"]])
@@ -299,6 +301,10 @@ def quickview(
         instr_residual_arr, _ = crosspol_split_real_imaginary(instr_residual_arr)
         # The weights should have been saved at this point and we only need them like this from here
         weights_uv, _ = crosspol_split_real_imaginary(weights_uv)
+    # All the images are real now
+    instr_dirty_arr = instr_dirty_arr.real
+    instr_model_arr = instr_model_arr.real
+    instr_residual_arr = instr_residual_arr.real
 
     # Build a fits header
     logger.info("Building the FITS Header for all the FITS files")
-- 
2.43.0


From f5c7ff811f7d602aff889af2d6444f6f965c6815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:26 +0000
Subject: [PATCH 82/94] fix: a model with auto-correlations could not be
 matched to the data

---
 PyFHD/source_modeling/vis_model_transfer.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 0c73a24..d4d3eee 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -340,7 +340,13 @@ def flag_model_visibilities(
     # model to include empty autocorrelations in the correct spots
 
     include_autos = True
-    if flaginfo_model.num_autos == 0:
+    if flaginfo_data.num_autos == 0:
+        logger.info(
+            "There are no auto-correlations present in data, leaving those of the model out"
+        )
+        include_autos = False
+
+    elif flaginfo_model.num_autos == 0:
         logger.warning(
             "There are no auto-correlations present in model, "
             "filling with zeros to match data shape, and switching "
@@ -410,13 +416,16 @@ def flag_model_visibilities(
     # check for where there is non_zeros. This previously check where they didn't
     # match but that resulted in us getting the indexes of the antenna arrays rather
     # than the baseline indexes
-    include_cross_per_time = np.nonzero(include_per_time)[0]
+    include_cross_per_time = np.nonzero(
+        include_per_time
+        & (flaginfo_model.ant1_single_time != flaginfo_model.ant2_single_time)
+    )[0]
 
     # To get indexes of auto-correlations to use, ensure ant1 == ant2
     # These are now indexes of unflagged auto-correlations to grab from model
-    include_auto_per_time = np.where(
-        flaginfo_model.ant1_single_time[include_per_time]
-        == flaginfo_model.ant2_single_time[include_per_time]
+    include_auto_per_time = np.nonzero(
+        include_per_time
+        & (flaginfo_model.ant1_single_time == flaginfo_model.ant2_single_time)
     )[0]
 
     # empty holder for the flagged model - this should be the same shape
-- 
2.43.0


From 67f039f4514cb9c9ad311772fcd1435908c18acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:26 +0000
Subject: [PATCH 83/94] fix: a model later than the data was moved away from it

---
 PyFHD/source_modeling/vis_model_transfer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index d4d3eee..abbb0de 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -270,8 +270,10 @@ def flag_model_visibilities(
     time_offsets = []
     for time in flaginfo_data.unique_times:
         # convert from julian to seconds via 24*60*60
+        differences = time - flaginfo_model.unique_times
+        # The model can be ahead of or behind the data
         time_offsets.append(
-            np.min(np.abs(flaginfo_model.unique_times - time)) * (24.0 * 60 * 60)
+            differences[np.argmin(np.abs(differences))] * (24.0 * 60 * 60)
         )
 
     # The highest time resolution data we'll be dealing with. If the offset is
@@ -288,8 +290,8 @@ def flag_model_visibilities(
     # that add the `rounded_offset` (our calculated QUACK time) to the model
     # to work out which time steps are closest between model and data
     if (
-        rounded_offset >= min_integration / 2.0
-        and rounded_offset <= obs["time_res"] / 2.0
+        np.abs(rounded_offset) >= min_integration / 2.0
+        and np.abs(rounded_offset) <= obs["time_res"] / 2.0
     ):
         flaginfo_model.unique_times += rounded_offset / (24.0 * 60 * 60)
 
-- 
2.43.0


From f2d2368e6bdcb0c49d85a5ec916f9a0e155def5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:26 +0000
Subject: [PATCH 84/94] fix: a model with some auto-correlations was read at
 the wrong baselines

---
 PyFHD/source_modeling/vis_model_transfer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index abbb0de..879986b 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -194,10 +194,8 @@ class _FlaggingInfoCounter(object):
         self.auto_locs = params["antenna1"] == params["antenna2"]
         self.num_autos = np.count_nonzero(self.auto_locs)
 
-        if self.num_autos == 0:
-            self.num_autos_per_time = 0
-        else:
-            self.num_autos_per_time = self.num_ants
+        # Some antennas can be without auto-correlations
+        self.num_autos_per_time = self.num_autos // self.num_times
 
         # indexes of the cross-correlations
         self.cross_locs = params["antenna1"] != params["antenna2"]
-- 
2.43.0


From 89c0e9d6aa3b7d88b51ead1daaaa312c17000456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 85/94] fix: the sav files of the model were not looked for at
 the start

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index c84f8a2..7123432 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1464,7 +1464,12 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     if pyfhd_config["model_file_path"]:
         errors += _check_file_exists(pyfhd_config, "model_file_path")
 
-    if pyfhd_config["model_file_path"] == "sav":
+    # A calibration checkpoint already holds the model
+    if (
+        pyfhd_config["model_file_path"]
+        and pyfhd_config["model_file_type"] == "sav"
+        and not pyfhd_config["calibrate_checkpoint"]
+    ):
         # We're expecting to find a params file, then a vis_model_XX and vis_model_YY at the very least
         if not Path.exists(
             Path(
@@ -1482,7 +1487,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
             file_path for file_path in files_in_model_path if regex.match(file_path)
         ]
         if len(matching_files) <= 2:
-            errors + 1
+            errors += 1
             logger.error(
                 f"You are missing some required files to read in the model visibilities from sav files, here is the list of found sav files: {matching_files}."
             )
-- 
2.43.0


From d3423d0e513302f05929224acb8751f2edc8ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 86/94] fix: enhancing the EoR was refused with its
 visibilities instead of without

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 7123432..2036840 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1525,7 +1525,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     errors += _check_file_exists(pyfhd_config, "eor_vis_filepath")
 
     # enhance_eor depends on eor_vis_filepath when its not 1
-    if pyfhd_config["enhance_eor"] > 1 and pyfhd_config["eor_vis_filepath"]:
+    if pyfhd_config["enhance_eor"] > 1 and not pyfhd_config["eor_vis_filepath"]:
         logger.error(
             "enhance_eor is only used when importing general visibilities for a simulation, it should stay as 1 when eor_vis_filepath is not being used"
         )
-- 
2.43.0


From 2601be22248b65d16897f133d898c7ad697981f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 87/94] fix: the deprojection of the w-term failed on the shape
 of the visibilities

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index a8ee8e9..bcace8f 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1002,10 +1002,10 @@ def simple_deproject_w_term(
     """
 
     icomp = 1j
-    zcen = np.outer(params["ww"], obs["baseline_info"]["freq"])
+    zcen = np.outer(obs["baseline_info"]["freq"], params["ww"])
     sign = 1 if direction > 0 else -1
     phase = np.exp(direction * icomp * zcen)
-    vis_arr[: obs["n_pol"], :, :] *= np.tile(phase, (obs["n_pol"], 1))
+    vis_arr[: obs["n_pol"], :, :] *= phase
 
     sign_str = " +1" if sign > 0 else " -1"
     logger.info(f"Applying simple w-term deprojection:{sign_str}")
-- 
2.43.0


From 1061bf8d08403146b45379bec184e0cd19cc9dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:21 +0000
Subject: [PATCH 88/94] fix: a beam saved by PyFHD could not be used when
 lazily loaded

---
 PyFHD/beam_setup/beam_utils.py    |  4 ++--
 PyFHD/gridding/gridding_utils.py  | 10 +++++-----
 PyFHD/gridding/visibility_grid.py |  6 +++---
 PyFHD/pyfhd_tools/pyfhd_utils.py  |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 8196de8..f4bba42 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -121,9 +121,9 @@ def beam_image(
     rbin = 0
     # If we lazy loaded psf, get actual numbers out of the datasets
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
+        psf_dim = np.ravel(psf_dim)[0]
         freq_norm = freq_norm[:]
-        pix_horizon = pix_horizon[0]
+        pix_horizon = np.ravel(pix_horizon)[0]
     dimension = elements = obs["dimension"]
     xl = int(dimension / 2 - psf_dim / 2 + 1)
     xh = int(dimension / 2 - psf_dim / 2 + psf_dim)
diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 4c60668..f2cbfa4 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -144,8 +144,8 @@ def baseline_grid_locations(
     psf_dim = psf["dim"]
     psf_resolution = psf["resolution"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
-        psf_resolution = psf_resolution[0]
+        psf_dim = np.ravel(psf_dim)[0]
+        psf_resolution = np.ravel(psf_resolution)[0]
 
     # Frequency information of the visibilities
     if fill_model_visibilities:
@@ -594,8 +594,8 @@ def grid_beam_per_baseline(
     psf_dim = psf["dim"]
     psf_resolution = psf["resolution"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
-        psf_resolution = psf_resolution[0]
+        psf_dim = np.ravel(psf_dim)[0]
+        psf_resolution = np.ravel(psf_resolution)[0]
     # Loop over all visibilities that fall within the chosen visibility box
     for ii in range(vis_n):
         # Pixel center offset phases
@@ -739,7 +739,7 @@ def visibility_count(
     elements = int(obs["elements"])
     psf_dim = psf["dim"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
+        psf_dim = np.ravel(psf_dim)[0]
 
     baselines_dict = baseline_grid_locations(
         obs,
diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index d13faae..170acff 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -146,8 +146,8 @@ def visibility_grid(
     psf_resolution = psf["resolution"]
     group_arr = psf["id"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
-        psf_resolution = psf_resolution[0]
+        psf_dim = np.ravel(psf_dim)[0]
+        psf_resolution = np.ravel(psf_resolution)[0]
         group_arr = group_arr[:]
     n_baselines = obs["n_baselines"]
     n_samples = obs["n_time"]
@@ -183,7 +183,7 @@ def visibility_grid(
         )
         psf_image_dim = psf["image_info"]["psf_image_dim"]
         if isinstance(psf_image_dim, h5py.Dataset):
-            psf_image_dim = psf_image_dim[0]
+            psf_image_dim = np.ravel(psf_image_dim)[0]
         image_bot = int(-(psf_dim / 2) * psf_intermediate_res + psf_image_dim / 2)
         image_top = int(
             (psf_dim * psf_resolution - 1)
diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index bcace8f..45d82a8 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1140,7 +1140,7 @@ def vis_weights_update(
         ky_arr[conj_i] = -ky_arr[conj_i]
     psf_dim = psf["dim"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
+        psf_dim = np.ravel(psf_dim)[0]
     xcen = np.outer(obs["baseline_info"]["freq"], kx_arr)
     xmin = np.floor(xcen) + obs["dimension"] / 2 - (psf_dim / 2 - 1)
     ycen = np.outer(obs["baseline_info"]["freq"], ky_arr)
-- 
2.43.0


From 1b35b112fa7693fea0889aacb30c9b8379695abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:21 +0000
Subject: [PATCH 89/94] fix: the image of a beam without a Gaussian
 decomposition failed

---
 PyFHD/beam_setup/beam_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index f4bba42..b1a8bb4 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -114,7 +114,11 @@ def beam_image(
     freq_norm = psf["fnorm"]
     pix_horizon = psf["pix_horizon"]
     group_id = psf["id"][pol_i, 0, :]
-    if "beam_gaussian_params" in psf:
+    # Without a decomposition it's None, or when lazily loaded an empty dataset which has no shape
+    if (
+        "beam_gaussian_params" in psf
+        and getattr(psf["beam_gaussian_params"], "shape", None) is not None
+    ):
         beam_gaussian_params = psf["beam_gaussian_params"][:]
     else:
         beam_gaussian_params = None
-- 
2.43.0


From 614f1112965c4ed9649b8a9c0abdce9540301031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 90/94] fix: count flagged times, tiles and frequencies when no
 visibility is left

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 45d82a8..7c4dd26 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1198,6 +1198,10 @@ def vis_weights_update(
         xmin[flag_i] = -1
         ymin[flag_i] = -1
 
+    obs["n_time_flag"] = np.sum(1 - obs["baseline_info"]["time_use"])
+    obs["n_tile_flag"] = np.sum(1 - obs["baseline_info"]["tile_use"])
+    obs["n_freq_flag"] = np.sum(1 - obs["baseline_info"]["freq_use"])
+
     if min(np.max(xmin), np.max(ymin)) < 0:
         obs["n_vis"] = 0
         return vis_weights, obs
@@ -1205,10 +1209,6 @@ def vis_weights_update(
     bin_n, _, _ = histogram(xmin + ymin * obs["dimension"], min=0)
     obs["n_vis"] = np.sum(bin_n)
 
-    obs["n_time_flag"] = np.sum(1 - obs["baseline_info"]["time_use"])
-    obs["n_tile_flag"] = np.sum(1 - obs["baseline_info"]["tile_use"])
-    obs["n_freq_flag"] = np.sum(1 - obs["baseline_info"]["freq_use"])
-
     return vis_weights, obs
 
 
-- 
2.43.0


From 5a5278dcad32d6b76e0dcb3a30521d61b41ac791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:35 +0000
Subject: [PATCH 91/94] fix: sampling a single row with rebin repeated or
 picked rows instead of columns

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 7c4dd26..9b53840 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -553,13 +553,15 @@ def rebin(
     # Sample the original array using rebin
     if sample:
         # If its a 1D array then...
-        if old_shape[0] == 1:
+        if len(a.shape) == 1 and shape[0] == 1:
             if shape[1] > old_shape[1]:
                 rebinned = np.repeat(a, shape[1] // old_shape[1], axis=0)
             else:
                 rebinned = a[:: old_shape[1] // shape[1]]
         # Assume its a 2D array
         else:
+            # A 1D array being turned into several rows is a single row here
+            a = np.reshape(a, old_shape)
             # Do the Rows first
             if shape[0] >= old_shape[0]:
                 # Expand Rows
-- 
2.43.0


From 00ab458cfda5f36c9f92cd9990b85e5548c11173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:55 +0000
Subject: [PATCH 92/94] fix: calibration plots of arrays which do not have
 exactly 128 tiles

---
 PyFHD/plotting/calibration.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/PyFHD/plotting/calibration.py b/PyFHD/plotting/calibration.py
index bec9810..d9be59b 100644
--- a/PyFHD/plotting/calibration.py
+++ b/PyFHD/plotting/calibration.py
@@ -87,7 +87,7 @@ def plot_cals(obs: dict, cal: dict, pyfhd_config: dict):
     # Multiple pages will be required beyond 128 stations
     n_rows = 8
     n_cols = 16
-    n_pages = obs["n_tile"] // (n_cols * n_rows)
+    n_pages = int(np.ceil(obs["n_tile"] / (n_cols * n_rows)))
 
     # Create dictionary for the subplot grid to create reliable, static plots
     gridspec_kw = {
@@ -103,10 +103,9 @@ def plot_cals(obs: dict, cal: dict, pyfhd_config: dict):
         for page_i in range(n_pages):
 
             # Calculate number of stations for this page
-            if obs["n_tile"] // (n_cols * n_rows * (page_i + 1)) == 0:
-                page_tiles = obs["n_tile"] - (n_cols * n_rows * (page_i + 1))
-            else:
-                page_tiles = n_cols * n_rows
+            page_tiles = min(
+                obs["n_tile"] - page_i * (n_cols * n_rows), n_cols * n_rows
+            )
 
             # Define the subplots, add extra rows on the figsize to account for labels
             fig_amp, ax_amp = plt.subplots(
@@ -151,11 +150,11 @@ def plot_cals(obs: dict, cal: dict, pyfhd_config: dict):
                 row = (tile_i - page_i * (n_cols * n_rows)) // n_cols
 
                 ax_amp[row, col].set_title(
-                    str(obs["baseline_info"]["tile_names"][(page_i + 1) * tile_i]),
+                    str(obs["baseline_info"]["tile_names"][tile_i]),
                     fontsize=9,
                 )
                 ax_phase[row, col].set_title(
-                    str(obs["baseline_info"]["tile_names"][(page_i + 1) * tile_i]),
+                    str(obs["baseline_info"]["tile_names"][tile_i]),
                     fontsize=9,
                 )
 
-- 
2.43.0


From d0ce59887ae71b4f34b355248443fe8a2d04cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:33 +0000
Subject: [PATCH 93/94] fix: the pixel of an array of one position

---
 PyFHD/pyfhd_tools/unit_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/unit_conv.py b/PyFHD/pyfhd_tools/unit_conv.py
index 0fd9a00..bd2a5f5 100644
--- a/PyFHD/pyfhd_tools/unit_conv.py
+++ b/PyFHD/pyfhd_tools/unit_conv.py
@@ -148,7 +148,7 @@ def radec_to_pixel(ra: float, dec: float, astr: dict) -> tuple[float, float]:
         SkyCoord(ra=ra * u.deg, dec=dec * u.deg, frame=astr["radecsys"].lower())
     )
     # AstroPy returns values as an array, cast to float
-    if np.size(x) == 1:
+    if np.ndim(x) == 0:
         return float(x), float(y)
     else:
         return x, y
-- 
2.43.0


From e0363b07861a6871713b308f017f83d33376e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:48 +0000
Subject: [PATCH 94/94] fix: save the lists of a ragged list in their common
 type

HDF5 reads all arrays of a variable length array as being of the first
array's type, so a list like [[2, 1], [3.5]] was saved with the bits of the
floats taken as integers.
---
 PyFHD/io/pyfhd_io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 56448fb..d30f16e 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -272,9 +272,12 @@ def save_dataset(
                         value = np.array(value, dtype=object)
                         for i, arr in enumerate(value):
                             value[i] = format_array(np.asarray(arr))
-                        data_dtype = h5py.vlen_dtype(
-                            dtype_picker(np.result_type(*value))
-                        )
+                        # HDF5 takes the type of the first array as the type of all
+                        # of them, so they must all be of the type we save
+                        common_dtype = dtype_picker(np.result_type(*value))
+                        for i, arr in enumerate(value):
+                            value[i] = arr.astype(common_dtype)
+                        data_dtype = h5py.vlen_dtype(common_dtype)
                     else:
                         logger.info(
                             f"You received an error not related to the array being inhomogeneous, Here's the error: {e}"
-- 
2.43.0

