From 9dd953cedacb17eb09c1db2b2594b953a99330e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:29 +0000
Subject: [PATCH 01/24] fix: slice unwarping of images taller than 32767 rows
 (int16 overflow)

---
 discorpy/post/postprocessing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index e86f39a..72d5488 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -218,8 +218,8 @@ def unwarp_slice_backward(mat3D, xcenter, ycenter, list_fact, index):
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
     yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_min = int(np.floor(np.amin(yd_list)))
+    yd_max = int(np.ceil(np.amax(yd_list))) + 1
     yd_list = yd_list - yd_min
     sino = np.zeros((depth, width), dtype=np.float32)
     indices = yd_list, xd_list
@@ -281,7 +281,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     if (len(mat3D.shape) < 3):
         raise ValueError("Input must be a 3D data")
     (depth, height, width) = mat3D.shape
-    index_list = np.arange(height, dtype=np.int16)
+    index_list = np.arange(height)
     if stop_index == -1:
         stop_index = height
     if (start_index not in index_list) or (stop_index not in index_list):
@@ -297,8 +297,8 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     flist = np.sum(np.asarray(
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2))) + 1
+    yd_min = int(np.floor(np.amin(yd_list1)))
+    yd_max = int(np.ceil(np.amax(yd_list2))) + 1
     yu_list = np.arange(start_index, stop_index + 1) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
-- 
2.43.0


From 95d29065ac7d5a39bc1e8f8535bc3210d3bbf179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:29 +0000
Subject: [PATCH 02/24] fix: stop_index=-1 selects the last row in
 unwarp_chunk_slices_backward

---
 discorpy/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 72d5488..32ff18a 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -283,7 +283,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     (depth, height, width) = mat3D.shape
     index_list = np.arange(height)
     if stop_index == -1:
-        stop_index = height
+        stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
         raise ValueError("Selected index is out of the range")
     xu_list = np.arange(0, width) - xcenter
-- 
2.43.0


From 668eb917c16b9ab3d0a6b4bdf27094518779b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:50 +0000
Subject: [PATCH 03/24] fix: chunk unwarping crops the rows needed by every row
 of the chunk

---
 discorpy/post/postprocessing.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 32ff18a..a073e23 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -287,26 +287,16 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     if (start_index not in index_list) or (stop_index not in index_list):
         raise ValueError("Selected index is out of the range")
     xu_list = np.arange(0, width) - xcenter
-    yu1 = start_index - ycenter
-    ru_list = np.sqrt(xu_list ** 2 + yu1 ** 2)
-    flist = np.sum(np.asarray(
-        [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
-    yd_list1 = np.clip(ycenter + flist * yu1, 0, height - 1)
-    yu2 = stop_index - ycenter
-    ru_list = np.sqrt(xu_list ** 2 + yu2 ** 2)
-    flist = np.sum(np.asarray(
-        [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
-    yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = int(np.floor(np.amin(yd_list1)))
-    yd_max = int(np.ceil(np.amax(yd_list2))) + 1
     yu_list = np.arange(start_index, stop_index + 1) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
     fact_mat = np.sum(np.asarray(
         [factor * ru_mat ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
-    yd_mat = np.float32(
-        np.clip(ycenter + fact_mat * yu_mat, 0, height - 1)) - yd_min
+    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
+    yd_min = int(np.floor(np.amin(yd_mat)))
+    yd_max = int(np.ceil(np.amax(yd_mat))) + 1
+    yd_mat = yd_mat - yd_min
     sino_chunk = np.asarray(
         [_mapping(mat3D[i, yd_min: yd_max, :],
                   xd_mat, yd_mat) for i in range(depth)])
-- 
2.43.0


From b3052ac88201208fdbe37d3d82738109a42a0ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:20 +0000
Subject: [PATCH 04/24] fix: integer coordinates are no longer truncated by
 unwarp_line_forward/backward

---
 discorpy/post/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index a073e23..5e67d35 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -52,7 +52,7 @@ def unwarp_line_forward(list_lines, xcenter, ycenter, list_fact):
     list_ulines = []
     list_expo = np.arange(len(list_fact), dtype=np.int16)
     for _, line in enumerate(list_lines):
-        uline = np.zeros_like(line)
+        uline = np.zeros_like(line, dtype=np.float64)
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
@@ -89,7 +89,7 @@ def unwarp_line_backward(list_lines, xcenter, ycenter, list_fact):
     """
     list_ulines = []
     for _, line in enumerate(list_lines):
-        uline = np.zeros_like(line)
+        uline = np.zeros_like(line, dtype=np.float64)
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
-- 
2.43.0


From 15e1ee16bc574c1e6dbcc5f3ce8aeb77899b33b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:47 +0000
Subject: [PATCH 05/24] fix: let optimizing=True refine the line distance

The starting distance was a float32, so the finite-difference step of
scipy.optimize.minimize vanished, the gradient was NaN and the distance
came back unchanged.
---
 discorpy/proc/processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 79aaaec..fa5e196 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -342,7 +342,8 @@ def _optimize_intercept(dist_hv, pos_hv, list_inter):
     """
     list_arg = [list_inter[pos_hv], pos_hv]
     list_arg.extend(list_inter)
-    minimum = optimize.minimize(_func_opt, dist_hv, args=tuple(list_arg))
+    minimum = optimize.minimize(_func_opt, np.float64(dist_hv),
+                                args=tuple(list_arg))
     return minimum.x[0]
 
 
-- 
2.43.0


From 548f2e6e15109d44ad0fb95ef0e3b784f82e7748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:45 +0000
Subject: [PATCH 06/24] fix: calc_coef_backward skips lines through the center
 as the forward mode does

A line whose intercept is zero made the model factor 0/0 or inf and the
least-squares solver failed with LinAlgError.
---
 discorpy/proc/processing.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index fa5e196..fc8ba64 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -453,23 +453,27 @@ def calc_coef_backward(list_hor_lines, list_ver_lines, xcenter, ycenter,
     for i, line in enumerate(list_hor_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_hor[i])
         uc_coef = np.float64(list_hor_uc[i])
-        for _, point in enumerate(line):
-            xd = np.float64(point[1])
-            yd = np.float64(point[0])
-            rd = np.sqrt(xd * xd + yd * yd)
-            Fb = (a_coef * xd * xd + c_coef) / uc_coef
-            Amatrix.append(np.power(rd / Fb, list_expo))
-            Bmatrix.append(Fb)
+        if uc_coef != 0.0:
+            for _, point in enumerate(line):
+                xd = np.float64(point[1])
+                yd = np.float64(point[0])
+                rd = np.sqrt(xd * xd + yd * yd)
+                Fb = (a_coef * xd * xd + c_coef) / uc_coef
+                if Fb != 0.0:
+                    Amatrix.append(np.power(rd / Fb, list_expo))
+                    Bmatrix.append(Fb)
     for i, line in enumerate(list_ver_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_ver[i])
         uc_coef = np.float64(list_ver_uc[i])
-        for _, point in enumerate(line):
-            xd = np.float64(point[1])
-            yd = np.float64(point[0])
-            rd = np.sqrt(xd * xd + yd * yd)
-            Fb = (a_coef * yd * yd + c_coef) / uc_coef
-            Amatrix.append(np.power(rd / Fb, list_expo))
-            Bmatrix.append(Fb)
+        if uc_coef != 0.0:
+            for _, point in enumerate(line):
+                xd = np.float64(point[1])
+                yd = np.float64(point[0])
+                rd = np.sqrt(xd * xd + yd * yd)
+                Fb = (a_coef * yd * yd + c_coef) / uc_coef
+                if Fb != 0.0:
+                    Amatrix.append(np.power(rd / Fb, list_expo))
+                    Bmatrix.append(Fb)
     Amatrix = np.asarray(Amatrix, dtype=np.float64)
     Bmatrix = np.asarray(Bmatrix, dtype=np.float64)
     list_fact = np.linalg.lstsq(Amatrix, Bmatrix, rcond=1e-64)[0]
-- 
2.43.0


From 76c68b5f32e0d315998cf7f8fa3682c037ebd4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:24 +0000
Subject: [PATCH 07/24] fix: find_cod_fine on grids aligned with the image axes

The points closest to the candidate center lie on a line across the fitted
lines, so for an untilted grid their regression was taken against a
constant coordinate and the search ended pixels away from the center.
---
 discorpy/proc/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index fc8ba64..5f6fcde 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -186,8 +186,8 @@ def _calc_error(list_coef_hor, list_coef_ver):
         xm = coefs[0] * ym ** 2 + coefs[1] * ym + coefs[2]
         list_vpoint[i, 0] = ym
         list_vpoint[i, 1] = xm
-    error_h = np.polyfit(list_hpoint[:, 0], list_hpoint[:, 1], 1)[-1]
-    error_v = np.polyfit(list_vpoint[:, 0], list_vpoint[:, 1], 1)[-1]
+    error_h = np.polyfit(list_hpoint[:, 1], list_hpoint[:, 0], 1)[-1]
+    error_v = np.polyfit(list_vpoint[:, 1], list_vpoint[:, 0], 1)[-1]
     return np.abs(error_h) + np.abs(error_v)
 
 
-- 
2.43.0


From e4ba78e71dfb1fa8c615b77f4f4e0c2caa56fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:21 +0000
Subject: [PATCH 08/24] fix: polyfit grouping skips initial groups of two dots

Such a group was replaced by whatever selected_points held before: all the
initially selected dots, or the previous line rotated back once more.
---
 discorpy/prep/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 5587641..dd5655e 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -1205,7 +1205,7 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points, points, x_left, x_right, search_dist,
                         residual=residual, overlap_ratio=overlap_ratio,
                         order=order)
-                if len(selected_points) > 2:
+                if len(current_points) > 2:
                     selected_points = rotate_points(selected_points, -angle,
                                                     degree_unit=False)
                     selected_points = selected_points[
@@ -1383,7 +1383,7 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                     selected_points = _get_nearby_ver_points_iter(
                         selected_points, points, y_left, y_right, search_dist,
                         residual, overlap_ratio=overlap_ratio, order=order)
-                if len(selected_points) > 2:
+                if len(current_points) > 2:
                     selected_points = rotate_points(selected_points, -angle,
                                                     degree_unit=False)
                     selected_points = selected_points[
-- 
2.43.0


From e673174f400853f76832d9bc4e736a5cde194d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:35 +0000
Subject: [PATCH 09/24] fix: points outside the image are removed by the
 parabola mask instead of raising IndexError

---
 discorpy/prep/preprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index dd5655e..625fd3e 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -957,10 +957,10 @@ def remove_points_using_parabola_mask(points, height, width, hor_curviness=0.3,
                               hor_margin=hor_margin, ver_margin=ver_margin,
                               rotate=rotate)
     y_cors, x_cors = np.int32(points[:, 0]), np.int32(points[:, 1])
-    valid_indices = ((y_cors >= 0) & (y_cors < height) &
-                     (x_cors >= 0) & (x_cors < width) &
-                     (mask[y_cors, x_cors] == 1.0))
-    return points[valid_indices]
+    valid_indices = np.where((y_cors >= 0) & (y_cors < height) &
+                             (x_cors >= 0) & (x_cors < width))[0]
+    y_cors, x_cors = y_cors[valid_indices], x_cors[valid_indices]
+    return points[valid_indices[mask[y_cors, x_cors] == 1.0]]
 
 
 def get_points_dot_pattern(mat, binarize=True, ratio=0.3, thres=None):
-- 
2.43.0


From 697dfd1ac85b164045471b178b70807ca3d95b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:11 +0000
Subject: [PATCH 10/24] fix: tilted profiles of images larger than 32767 pixels
 (int16 overflow)

---
 discorpy/prep/linepattern.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 18636f7..68288d7 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -548,8 +548,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         ylist = rlist * np.sin(-angle)
         xlist = np.clip(xlist, 0, width - 1)
         ylist = np.clip(index + ylist, 0, height - 1)
-        ymin = np.int16(np.floor(np.amin(ylist)))
-        ymax = np.int16(np.ceil(np.amax(ylist))) + 1
+        ymin = int(np.floor(np.amin(ylist)))
+        ymax = int(np.ceil(np.amax(ylist))) + 1
         indices = ylist - ymin, xlist
         profile = ndi.map_coordinates(mat[ymin:ymax, :], indices, order=3,
                                       mode='nearest')
@@ -559,8 +559,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         xlist = rlist * np.sin(angle)
         xlist = np.clip(index + xlist, 0, width - 1)
         ylist = np.clip(ylist, 0, height - 1)
-        xmin = np.int16(np.floor(np.amin(xlist)))
-        xmax = np.int16(np.ceil(np.amax(xlist))) + 1
+        xmin = int(np.floor(np.amin(xlist)))
+        xmax = int(np.ceil(np.amax(xlist))) + 1
         indices = ylist, xlist - xmin
         profile = ndi.map_coordinates(mat[:, xmin:xmax], indices, order=3,
                                       mode='nearest')
-- 
2.43.0


From 3bdf1bc618a81f89b19e5cda108287798c8ace8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:11 +0000
Subject: [PATCH 11/24] fix: sliding_window_slope no longer truncates slopes of
 integer data

---
 discorpy/prep/linepattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 68288d7..cdff468 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -180,7 +180,7 @@ def sliding_window_slope(list_data, size=3, norm=True):
     radius = size // 2
     padded_data = np.pad(list_data, (radius, radius), 'edge')
     x_list = np.arange(size)
-    slopes = np.zeros_like(list_data)
+    slopes = np.zeros(npoint)
     for i in range(len(list_data)):
         local_data = padded_data[i:i + size]
         slopes[i] = np.polyfit(x_list, local_data, 1)[0]
-- 
2.43.0


From 268a49186cee09377eca0295a5d0bfcc250f50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:11 +0000
Subject: [PATCH 12/24] fix: locate_subpixel_point ignores fits curved the
 wrong way

---
 discorpy/prep/linepattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index cdff468..e3b3351 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -65,7 +65,7 @@ def locate_subpixel_point(list_point, option="min"):
         pos = np.argmin(list_point)
     else:
         pos = np.argmax(list_point)
-    if a != 0.0:
+    if (a > 0.0) if option == "min" else (a < 0.0):
         num = - b / (2 * a)
         if (num >= 0) and (num < num_point):
             pos = num
-- 
2.43.0


From 35c4be353edc14b400c64fcb4f10fbb768a49b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:49 +0000
Subject: [PATCH 13/24] fix: cross points are reported where the profile was
 sampled (up to one pixel off)

---
 discorpy/prep/linepattern.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index e3b3351..8b831f6 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -665,8 +665,6 @@ def get_cross_points_hor_lines(mat, slope_ver, dist_ver, ratio=0.3, norm=True,
     for i in np.arange(min_row + offset, max_row - offset, ratio * dist_ver):
         xlist, ylist, profile = get_tilted_profile(mat, i, np.rad2deg(angle),
                                                    direction="vertical")
-        scale = np.sqrt((xlist[-1] - xlist[0]) ** 2
-                        + (ylist[-1] - ylist[0]) ** 2) / (height - 1)
         if chessboard is True:
             profile = sliding_window_slope(profile, size=3)
         rlist = get_local_extrema_points(profile, option="max", radius=radius,
@@ -674,9 +672,9 @@ def get_cross_points_hor_lines(mat, slope_ver, dist_ver, ratio=0.3, norm=True,
                                          denoise=not denoise, norm=not norm,
                                          subpixel=subpixel,
                                          select_peaks=select_peaks,
-                                         **kwargs) * scale
-        xlist1 = rlist * np.sin(angle) + xlist[0]
-        ylist1 = rlist * np.cos(angle) + ylist[0]
+                                         **kwargs)
+        xlist1 = np.interp(rlist, np.arange(height), xlist)
+        ylist1 = np.interp(rlist, np.arange(height), ylist)
         list_points.extend(np.asarray(list(zip(ylist1, xlist1))))
     return np.asarray(list_points)
 
@@ -745,8 +743,6 @@ def get_cross_points_ver_lines(mat, slope_hor, dist_hor, ratio=0.3, norm=True,
     for i in np.arange(min_col + offset, max_col - offset, ratio * dist_hor):
         xlist, ylist, profile = get_tilted_profile(mat, i, -np.rad2deg(angle),
                                                    direction="horizontal")
-        scale = np.sqrt((xlist[-1] - xlist[0]) ** 2
-                        + (ylist[-1] - ylist[0]) ** 2) / (width - 1)
         if chessboard is True:
             profile = sliding_window_slope(profile, size=3)
         rlist = get_local_extrema_points(profile, option="max", radius=radius,
@@ -754,8 +750,8 @@ def get_cross_points_ver_lines(mat, slope_hor, dist_hor, ratio=0.3, norm=True,
                                          denoise=not denoise, norm=not norm,
                                          subpixel=subpixel,
                                          select_peaks=select_peaks,
-                                         **kwargs) * scale
-        xlist1 = rlist * np.cos(angle) + xlist[0]
-        ylist1 = rlist * np.sin(angle) + ylist[0]
+                                         **kwargs)
+        xlist1 = np.interp(rlist, np.arange(width), xlist)
+        ylist1 = np.interp(rlist, np.arange(width), ylist)
         list_points.extend(np.asarray(list(zip(ylist1, xlist1))))
     return np.asarray(list_points)
-- 
2.43.0


From 30ba15598a2af1f31c7870df27645d249d0dcdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:25 +0000
Subject: [PATCH 14/24] fix: load_hdf_file returns a 2D image for every single
 slice

An integer index into data with a side of length one collapsed to 1D, and a
range holding one slice along axis 2 raised IndexError.
---
 discorpy/losa/loadersaver.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 21c70a5..3d226d8 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -298,7 +298,6 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                         mat = np.float32(idata[:, index, :])
                     else:
                         mat = np.float32(idata[:, :, index])
-                    axis = np.clip(axis, 0, 1)
                 except IndexError:
                     raise
             if isinstance(index, tuple) or isinstance(index, list):
@@ -322,10 +321,10 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                         mat = np.float32(idata[:, :, list_index])
                 except IndexError:
                     raise
-            if mat.shape[axis] == 1:
-                mat = np.swapaxes(mat, axis, 0)[0]
-            if mat.shape[axis] == 0:
-                raise ValueError("Empty indices!")
+                if mat.shape[axis] == 0:
+                    raise ValueError("Empty indices!")
+                if mat.shape[axis] == 1:
+                    mat = np.squeeze(mat, axis=axis)
     return mat
 
 
-- 
2.43.0


From 961ce91fc51324ddbee3511f019952f8ab9525f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 15/24] fix: load_hdf_file accepts numpy integers as index

---
 discorpy/losa/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 3d226d8..6f16760 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -290,7 +290,7 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
         if index is None:
             mat = np.float32(idata[:, :, :])
         else:
-            if isinstance(index, int):
+            if isinstance(index, (int, np.integer)):
                 try:
                     if axis == 0:
                         mat = np.float32(idata[index, :, :])
-- 
2.43.0


From 3e640a25c707f313a047083dd37bc7c72085a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:41 +0000
Subject: [PATCH 16/24] fix: load_image averages the channels also of narrow
 images

The channel axis was guessed as the shortest one; an RGB picture less than
three pixels high or wide was averaged along the wrong axis.
---
 discorpy/losa/loadersaver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 6f16760..7e3a288 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -101,8 +101,7 @@ def load_image(file_path, average=True):
     except Exception as error:
         raise ValueError(error)
     if len(mat.shape) > 2 and average is True:
-        axis_m = np.argmin(mat.shape)
-        mat = np.mean(mat, axis=axis_m)
+        mat = np.mean(mat, axis=-1)
     return mat
 
 
-- 
2.43.0


From 8798436c0185b6739f7ef4610e70ba9ed13b70c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:29 +0000
Subject: [PATCH 17/24] fix: save_image scales signed integer images without
 overflow

---
 discorpy/losa/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 7e3a288..9c033e7 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -428,7 +428,7 @@ def save_image(file_path, mat, overwrite=True):
     file_ext = file_path.suffix
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
-            nmin, nmax = np.min(mat), np.max(mat)
+            nmin, nmax = float(np.min(mat)), float(np.max(mat))
             if nmax != nmin:
                 mat = np.uint8(255.0 * (mat - nmin) / (nmax - nmin))
             else:
-- 
2.43.0


From 7f038b02b4da4ad966f31e66ad88f071651fd4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:01 +0000
Subject: [PATCH 18/24] fix: dots are selected without the pixels of neighbours
 in their bounding boxes

---
 discorpy/prep/preprocessing.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 625fd3e..d4b012a 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -352,11 +352,11 @@ def select_dots_based_size(mat, dot_size, ratio=0.3):
     max_size = dot_size + ratio * dot_size
     mat_label, _ = ndi.label(np.int16(mat))
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if _check_dot_size(mat[dot], min_size, max_size)]
     mat1 = np.zeros_like(mat, dtype=np.int16)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, j in enumerate(list_dots):
+        mask = mat_label[j] == i + 1
+        if _check_dot_size(mat[j] * mask, min_size, max_size):
+            mat1[j][mask] = mat[j][mask]
     return mat1
 
 
@@ -411,11 +411,11 @@ def select_dots_based_ratio(mat, ratio=0.3):
     mat = np.int16(mat)
     mat_label, _ = ndi.label(mat)
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if _check_axes_ratio(mat[dot], ratio)]
     mat1 = np.zeros_like(mat)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, j in enumerate(list_dots):
+        mask = mat_label[j] == i + 1
+        if _check_axes_ratio(mat[j] * mask, ratio):
+            mat1[j][mask] = mat[j][mask]
     return mat1
 
 
@@ -453,7 +453,8 @@ def select_dots_based_distance(mat, dot_dist, ratio=0.3):
         num = dist // dot_dist
         dist_error = (dist - num * dot_dist) / dot_dist
         if any(dist_error < ratio):
-            mat1[j] = mat[j]
+            mask = mat_label[j] == i + 1
+            mat1[j][mask] = mat[j][mask]
     return mat1
 
 
-- 
2.43.0


From d4ee3017206a96f52e430f9500c8216de7813f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:12 +0000
Subject: [PATCH 19/24] fix: a zero background no longer turns normalised
 images into inf and nan

numpy does not raise ZeroDivisionError, so the branch replacing zeros of the
background was never taken.
---
 discorpy/prep/preprocessing.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index d4b012a..cb86b80 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -65,11 +65,8 @@ def normalization(mat, size=51):
     """
     mat_bck = ndi.median_filter(mat, size, mode="reflect")
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    mat_bck = np.where(mat_bck == 0.0, mean_val, mat_bck)
+    mat_cor = mean_val * mat / mat_bck
     return mat_cor
 
 
@@ -150,11 +147,8 @@ def normalization_fft(mat, sigma=10, pad=100, mode='reflect'):
     """
     mat_bck = _apply_fft_filter(mat, sigma, pad, mode=mode)
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    mat_bck = np.where(mat_bck == 0.0, mean_val, mat_bck)
+    mat_cor = mean_val * mat / mat_bck
     return mat_cor
 
 
-- 
2.43.0


From 6e4ccadce1fcf51eb013d3a9b2e9a7ca926d64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:14 +0000
Subject: [PATCH 20/24] fix: unwarp_video_cv2 ends with the video and shows its
 first frame

---
 discorpy/util/utility.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/discorpy/util/utility.py b/discorpy/util/utility.py
index 2a59ce3..0aa4480 100644
--- a/discorpy/util/utility.py
+++ b/discorpy/util/utility.py
@@ -496,19 +496,18 @@ def unwarp_video_cv2(cam_obj, xcenter, ycenter, list_fact, method=None,
             pad_width = [(t_pad, b_pad), (l_pad, r_pad)]
         else:
             pad_width = [(t_pad, b_pad), (l_pad, r_pad), (0, 0)]
-    while True:
+    while check:
+        if (pad is False) or (pad == 0):
+            uframe = mapping_cv2(frame, xd_mat, yd_mat, method=method,
+                                 border=border)
+        else:
+            frame_pad = np.pad(frame, pad_width, mode=pad_mode)
+            uframe = mapping_cv2(frame_pad, xd_mat, yd_mat, method=method,
+                                 border=border)
+        cv2.imshow("Press ESC to exit", uframe)
+        c = cv2.waitKey(1)
+        if c == 27:
+            break
         check, frame = cam_obj.read()
-        if check:
-            if (pad is False) or (pad == 0):
-                uframe = mapping_cv2(frame, xd_mat, yd_mat, method=method,
-                                     border=border)
-            else:
-                frame_pad = np.pad(frame, pad_width, mode=pad_mode)
-                uframe = mapping_cv2(frame_pad, xd_mat, yd_mat, method=method,
-                                     border=border)
-            cv2.imshow("Press ESC to exit", uframe)
-            c = cv2.waitKey(1)
-            if c == 27:
-                break
     cam_obj.release()
     cv2.destroyAllWindows()
-- 
2.43.0


From 7733b613b4a90f580a7f8e18e997b32a1e41f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:52 +0000
Subject: [PATCH 21/24] fix: correct_perspective_effect reports missing curved
 lines instead of returning nan

---
 discorpy/proc/processing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 5f6fcde..0b190af 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -1381,25 +1381,25 @@ def correct_perspective_effect(list_hor_lines, list_ver_lines, xcenter,
     if len(list_coef_ver) < 2:
         raise ValueError("Need at least 2 vertical lines!!!")
     indices = np.where(list_coef_hor[:, 0] > 0)
-    if len(indices) > 0:
+    if len(indices[0]) > 0:
         bh1, ch1 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open upwards !!!")
     indices = np.where(list_coef_hor[:, 0] < 0)
-    if len(indices) > 0:
+    if len(indices[0]) > 0:
         bh2, ch2 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open downwards !!!")
     indices = np.where(list_coef_ver[:, 0] > 0)
-    if len(indices) > 0:
+    if len(indices[0]) > 0:
         bv1, cv1 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open rightwards !!!")
     indices = np.where(list_coef_ver[:, 0] < 0)
-    if len(indices) > 0:
+    if len(indices[0]) > 0:
         bv2, cv2 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
     else:
-- 
2.43.0


From 6e4924a8e5165c75bf9754d2f1579f8aeab7e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:54 +0000
Subject: [PATCH 22/24] fix: polyfit grouping keeps rows whose medians coincide
 and removes repeated single rows

---
 discorpy/prep/preprocessing.py | 42 ++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index cb86b80..92a90db 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -1136,6 +1136,32 @@ def _get_nearby_hor_points_iter(initial_points, points, x_left, x_right,
     return selected_points
 
 
+def _remove_repeated_lines(list_lines):
+    """
+    Supplementary method: remove lines which repeat the previous line, i.e.
+    most of their points belong to that line.
+
+    Parameters
+    ----------
+    list_lines : list of array_like
+        List of lines, sorted across the lines. Each line is a 2D-array of
+        (y,x)-coordinates.
+
+    Returns
+    -------
+    list of array_like
+        List of different lines.
+    """
+    lines_selected = []
+    for line in list_lines:
+        if len(lines_selected) > 0:
+            points_left = remove_subset_points(lines_selected[-1], line)
+            if len(points_left) < 0.5 * len(line):
+                continue
+        lines_selected.append(line)
+    return lines_selected
+
+
 def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                                        num_dot_miss=3, accepted_ratio=0.65,
                                        overlap_ratio=0.5, order=2):
@@ -1209,13 +1235,7 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
     list_len = [len(i) for i in list_lines]
     len_accepted = np.int16(accepted_ratio * np.max(list_len))
     lines_selected = [line for line in list_lines if len(line) > len_accepted]
-    y_vals = [np.median(line[:, 0]) for line in lines_selected]
-    ids = np.where(np.abs(np.diff(y_vals)) > 0.1 * line_dist)[0]
-    if len(ids) > 0:
-        ids = np.insert(ids + 1, 0, 0)
-        lines_tmp = [line for idx, line in enumerate(lines_selected) if
-                     idx in ids]
-        lines_selected = lines_tmp
+    lines_selected = _remove_repeated_lines(lines_selected)
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 0]))
     return lines_selected
@@ -1387,13 +1407,7 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
     list_len = [len(i) for i in list_lines]
     len_accepted = np.int16(accepted_ratio * np.max(list_len))
     lines_selected = [line for line in list_lines if len(line) > len_accepted]
-    x_vals = [np.median(line[:, 1]) for line in lines_selected]
-    ids = np.where( np.abs(np.diff(x_vals)) > 0.1 * line_dist)[0]
-    if len(ids) > 0:
-        ids = np.insert(ids + 1, 0, 0)
-        lines_tmp = [line for idx, line in enumerate(lines_selected) if
-                     idx in ids]
-        lines_selected = lines_tmp
+    lines_selected = _remove_repeated_lines(lines_selected)
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 1]))
     return lines_selected
-- 
2.43.0


From df37faa2e35f72a99a3d7074979bb73c6ad2d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:30 +0000
Subject: [PATCH 23/24] fix: grouped lines are ordered across the slope, also
 when dots are missing at one end

---
 discorpy/prep/preprocessing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 92a90db..2670b1a 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -659,7 +659,8 @@ def group_dots_hor_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
     len_accepted = int(accepted_ratio * np.max(list_len))
     lines_selected = [line for line in list_lines if len(line) > len_accepted]
     lines_selected = sorted(
-        lines_selected, key=lambda list_: np.mean(list_[:, 0]))
+        lines_selected,
+        key=lambda list_: np.mean(list_[:, 0] - slope * list_[:, 1]))
     return lines_selected
 
 
@@ -731,7 +732,8 @@ def group_dots_ver_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
     len_accepted = int(accepted_ratio * np.max(list_length))
     lines_selected = [line for line in list_lines if len(line) > len_accepted]
     lines_selected = sorted(
-        lines_selected, key=lambda list_: np.mean(list_[:, 1]))
+        lines_selected,
+        key=lambda list_: np.mean(list_[:, 1] - slope * list_[:, 0]))
     return lines_selected
 
 
@@ -1237,7 +1239,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
     lines_selected = [line for line in list_lines if len(line) > len_accepted]
     lines_selected = _remove_repeated_lines(lines_selected)
     lines_selected = sorted(
-        lines_selected, key=lambda list_: np.mean(list_[:, 0]))
+        lines_selected,
+        key=lambda list_: np.mean(list_[:, 0] - slope * list_[:, 1]))
     return lines_selected
 
 
@@ -1409,5 +1412,6 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
     lines_selected = [line for line in list_lines if len(line) > len_accepted]
     lines_selected = _remove_repeated_lines(lines_selected)
     lines_selected = sorted(
-        lines_selected, key=lambda list_: np.mean(list_[:, 1]))
+        lines_selected,
+        key=lambda list_: np.mean(list_[:, 1] - slope * list_[:, 0]))
     return lines_selected
-- 
2.43.0


From 738612cff4a9ac0c91f9771f570fae88aee2855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 24/24] fix: normalization_fft filters odd-sized images around
 the centre of their spectrum

---
 discorpy/prep/preprocessing.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 2670b1a..089d84e 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -38,7 +38,7 @@ Module of pre-processing methods:
 
 import numpy as np
 from scipy import ndimage as ndi
-from scipy.fftpack import fft2, ifft2
+from scipy.fftpack import fft2, ifft2, ifftshift
 from scipy.ndimage.measurements import center_of_mass
 from skimage.filters import threshold_otsu
 from skimage.segmentation import clear_border
@@ -117,11 +117,7 @@ def _apply_fft_filter(mat, sigma, pad, mode='reflect'):
     mat = np.pad(mat, ((pad, pad), (pad, pad)), mode=mode)
     (height, width) = mat.shape
     window = _make_window(height, width, sigma)
-    xlist = np.arange(0, width)
-    ylist = np.arange(0, height)
-    x, y = np.meshgrid(xlist, ylist)
-    matsign = np.power(-1.0, x + y)
-    mat = np.real(ifft2(fft2(mat * matsign) * window) * matsign)
+    mat = np.real(ifft2(fft2(mat) * ifftshift(window)))
     return mat[pad:height - pad, pad:width - pad]
 
 
-- 
2.43.0

