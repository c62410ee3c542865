From 52f17cd993277ec566d4a54c3699a8b4483fecdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 01/55] fix: flatten_line_matrix wrote a separator past the end
 of its output

---
 src/py_eddy_tracker/generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 612def6..07aee9a 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -350,8 +350,10 @@ def flatten_line_matrix(l_matrix):
         for j in range(sampling):
             out[inc] = l_matrix[i, j]
             inc += 1
-        out[inc] = nan
-        inc += 1
+        # separator only between lines
+        if i < nb_line - 1:
+            out[inc] = nan
+            inc += 1
     return out
 
 
-- 
2.43.0


From 44c9d68e60f881c2e54ad3e2084174e2c994fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 02/55] fix: window_index read window centers past their end

---
 src/py_eddy_tracker/generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 07aee9a..05d62b0 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -643,12 +643,14 @@ def window_index(x, x0, half_window=1):
         while x_ > x_min and j_min < nb_pt:
             first_index[j_min] = i
             j_min += 1
-            x_min = x0[j_min] - half_window
+            if j_min < nb_pt:
+                x_min = x0[j_min] - half_window
         # if x bigger than x_max , we found bound and search next one
         while x_ > x_max and j_max < nb_pt:
             last_index[j_max] = i
             j_max += 1
-            x_max = x0[j_max] + half_window
+            if j_max < nb_pt:
+                x_max = x0[j_max] + half_window
         if j_max == nb_pt:
             break
     for i in range(j_min, nb_pt):
-- 
2.43.0


From 91025bd260605b9d746c24c7921e0c2b43dae118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 03/55] fix: simplify dropped the only valid point when it is
 the last one

---
 src/py_eddy_tracker/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 05d62b0..67d30bd 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -379,7 +379,7 @@ def simplify(x, y, precision=0.1):
             continue
         break
     # Only nan
-    if j == (nb - 1):
+    if not mask.any():
         return zeros(0, dtype=x.dtype), zeros(0, dtype=x.dtype)
 
     last_nan = False
-- 
2.43.0


From e46a1b600c861eb34f1270eba274c6b8c89cb105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 04/55] fix: reduce_size read before the start of an outline
 whose points are all identical

---
 src/py_eddy_tracker/poly.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index b584961..f7d23d8 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -869,13 +869,11 @@ def reduce_size(x, y):
     """
     i = x.shape[0]
     x0, y0 = x[0], y[0]
-    while True:
+    while i > 0 and x[i - 1] == x0 and y[i - 1] == y0:
         i -= 1
-        if x[i] != x0 or y[i] != y0:
-            i += 1
-            # In case of virtual obs all value could be fill with same value, to avoid empty array
-            i = max(3, i)
-            return x[:i], y[:i]
+    # In case of virtual obs all value could be fill with same value, to avoid empty array
+    i = max(3, i)
+    return x[:i], y[:i]
 
 
 @njit(cache=True)
-- 
2.43.0


From 7138efdf29f09a82c7dc1be9befec5ab4c8f56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:57 +0000
Subject: [PATCH 05/55] fix: get_convex_hull kept vertices inside the hull
 before the first point

---
 src/py_eddy_tracker/poly.py | 44 +++++++++++++------------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index f7d23d8..543b9d4 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -159,37 +159,23 @@ def get_convex_hull(x, y):
     # leftmost point
     i_first = x[:-1].argmin()
     indices.append(i_first)
-    i_next = (i_first + 1) % nb
-    # Will define bounds line
-    x0, y0, x1, y1 = x[i_first], y[i_first], x[i_next], y[i_next]
-    xf, yf = x0, y0
-    # we will check if no point are right
+    i_previous = i_first
     while True:
-        i_test = (i_next + 1) % nb
-        # value to test
-        xt, yt = x[i_test], y[i_test]
-        # We will test all the position until we touch first one,
-        # If all next position are on the left we keep x1, y1
-        # if not we will replace by xt,yt which are more outter
-        while is_left(x0, y0, x1, y1, xt, yt):
-            i_test += 1
-            i_test %= nb
-            if i_test == i_first:
-                x0, y0 = x1, y1
-                indices.append(i_next)
-                i_next += 1
-                i_next %= nb
-                x1, y1 = x[i_next], y[i_next]
-                break
-            xt, yt = x[i_test], y[i_test]
-        if i_test != i_first:
-            i_next = i_test
-            x1, y1 = x[i_next], y[i_next]
-        if i_next == (i_first - 1) % nb:
-            if is_left(x0, y0, x1, y1, xf, yf):
-                indices.append(i_next)
+        i_next = (i_previous + 1) % nb
+        # We will test all the position until first one (included),
+        # If all next position are on the left we keep i_next
+        # if not we will replace by i_test which are more outter
+        i_test = i_next
+        while i_test != i_first:
+            i_test = (i_test + 1) % nb
+            if not is_left(
+                x[i_previous], y[i_previous], x[i_next], y[i_next], x[i_test], y[i_test]
+            ):
+                i_next = i_test
+        indices.append(i_next)
+        if i_next == i_first:
             break
-    indices.append(i_first)
+        i_previous = i_next
     indices = array(indices)
     return x[indices], y[indices]
 
-- 
2.43.0


From a8385f75537d3b6213ba92501dac20586b5a849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 06/55] fix: loess filter ignored the first and last
 observations of the dataset

---
 src/py_eddy_tracker/observations/tracking.py | 34 +++++++++-----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 164f972..fbb3605 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -837,26 +837,24 @@ def track_loess_filter(half_window, x, y, track):
         cur_track = track[i]
         y_sum = y[i]
         w_sum = 1
-        if i != 0:
-            i_previous = i - 1
+        i_previous = i - 1
+        while i_previous >= 0 and cur_track == track[i_previous]:
             dx = x[i] - x[i_previous]
-            while (
-                dx < half_window and i_previous != 0 and cur_track == track[i_previous]
-            ):
-                w = (1 - (dx / half_window) ** 3) ** 3
-                y_sum += y[i_previous] * w
-                w_sum += w
-                i_previous -= 1
-                dx = x[i] - x[i_previous]
-        if i != last:
-            i_next = i + 1
+            if dx >= half_window:
+                break
+            w = (1 - (dx / half_window) ** 3) ** 3
+            y_sum += y[i_previous] * w
+            w_sum += w
+            i_previous -= 1
+        i_next = i + 1
+        while i_next <= last and cur_track == track[i_next]:
             dx = x[i_next] - x[i]
-            while dx < half_window and i_next != last and cur_track == track[i_next]:
-                w = (1 - (dx / half_window) ** 3) ** 3
-                y_sum += y[i_next] * w
-                w_sum += w
-                i_next += 1
-                dx = x[i_next] - x[i]
+            if dx >= half_window:
+                break
+            w = (1 - (dx / half_window) ** 3) ** 3
+            y_sum += y[i_next] * w
+            w_sum += w
+            i_next += 1
         y_new[i] = y_sum / w_sum
     return y_new
 
-- 
2.43.0


From 43f5fc7dacea5dc010224aa8ccf808b45f08e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 07/55] fix: grid_box_stat stored each percentile in the next
 box and lost the last one

---
 .../observations/observation.py               | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index b39f7f8..538df13 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2538,26 +2538,31 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
             raise Exception("x indices underflow")
         if (i >= nb_x).any():
             raise Exception("x indices overflow")
-        if (j < 0).any():
-            raise Exception("y indices underflow")
-        if (j >= nb_y).any():
-            raise Exception("y indices overflow")
+    if (j < 0).any():
+        raise Exception("y indices underflow")
+    if (j >= nb_y).any():
+        raise Exception("y indices overflow")
     abs_i = j * nb_x + i
     k_sort = abs_i.argsort()
-    i0, j0 = i[k_sort[0]], j[k_sort[0]]
+    i0, j0 = -1, -1
     values = list()
     for k in k_sort:
         i_, j_ = i[k], j[k]
         # group change
         if i_ != i0 or j_ != j0:
-            # apply method and store result
-            grid[i_, j_] = percentile(values, method)
-            mask[i_, j_] = False
+            # apply method and store result of the previous group
+            if len(values) != 0:
+                grid[i0, j0] = percentile(values, method)
+                mask[i0, j0] = False
             # start new group
             i0, j0 = i_, j_
             # reset list
             values.clear()
         values.append(value[k])
+    # store result of the last group
+    if len(values) != 0:
+        grid[i0, j0] = percentile(values, method)
+        mask[i0, j0] = False
 
 
 @njit(cache=True)
-- 
2.43.0


From 640abde8a6b68a0e4f3737f226f938734f28a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 08/55] fix: window of an outline past the south or west edge
 of a regional grid

---
 src/py_eddy_tracker/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 67d30bd..173edc7 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -597,8 +597,8 @@ def bbox_indice_regular(vertices, x0, y0, xstep, ystep, N, circular, x_size):
     if circular:
         slice_x = (i_x0 - N) % x_size, (i_x1 + N + 1) % x_size
     else:
-        slice_x = max(i_x0 - N, 0), i_x1 + N + 1
-    slice_y = i_y0 - N, i_y1 + N + 1
+        slice_x = min(max(i_x0 - N, 0), x_size), i_x1 + N + 1
+    slice_y = max(i_y0 - N, 0), max(i_y1 + N + 1, 0)
     return slice_x, slice_y
 
 
-- 
2.43.0


From e19a783b12a8aadeb4de779e849abec53f8cee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 09/55] fix: maximum of a grid in an outline used masked values

---
 src/py_eddy_tracker/observations/observation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 538df13..dc0446d 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2613,10 +2613,10 @@ def grid_stat(x_c, y_c, grid, mask, x, y, result, circular=False, method="mean")
         elif max_method:
             v_max = -1e40
             for i_, j_ in zip(i, j):
-                values = grid[i_, j_]
-                # FIXME must use mask
-                v_max = max(v_max, values)
-            result[elt] = v_max
+                if mask[i_, j_]:
+                    continue
+                v_max = max(v_max, grid[i_, j_])
+            result[elt] = nan if v_max == -1e40 else v_max
 
 
 class VirtualEddiesObservations(EddiesObservations):
-- 
2.43.0


From 92b10a274868be882365fa74d1e01b9f54936aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 10/55] fix: coherence targets sorted with truncated percents

---
 src/py_eddy_tracker/observations/groups.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 81929e1..ce98b25 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -247,21 +247,26 @@ def get_matrix(i_start, i_end, translate_start, translate_end, i_target, pct):
             count[i_start_, i_end_] += 1
         ref[i_start_] += 1
     for i in range(nb_start):
+        # Get indice in full dataset
+        i_ = translate_start[i]
+        # pct could be an integer array, exact percents are needed to sort targets
+        pct_0, pct_1 = float(pct[i_, 0]), float(pct[i_, 1])
         for j in range(nb_end):
             pct_ = count[i, j]
             # If there are particles from i to j
             if pct_ != 0:
                 # Get percent
                 pct_ = pct_ / ref[i] * 100.0
-                # Get indices in full dataset
-                i_, j_ = translate_start[i], translate_end[j]
-                pct_0 = pct[i_, 0]
+                # Get indice in full dataset
+                j_ = translate_end[j]
                 if pct_ > pct_0:
-                    pct[i_, 1] = pct_0
+                    pct_0, pct_1 = pct_, pct_0
+                    pct[i_, 1] = pct[i_, 0]
                     pct[i_, 0] = pct_
                     i_target[i_, 1] = i_target[i_, 0]
                     i_target[i_, 0] = j_
-                elif pct_ > pct[i_, 1]:
+                elif pct_ > pct_1:
+                    pct_1 = pct_
                     pct[i_, 1] = pct_
                     i_target[i_, 1] = j_
     return i_target, pct
-- 
2.43.0


From 022931377c937ed631aa3e84b918e9ea4b38b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 11/55] fix: compress_id option left the original ids in the
 observations

---
 src/py_eddy_tracker/observations/tracking.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index fbb3605..fe93221 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -209,11 +209,11 @@ class TrackEddiesObservations(GroupEddiesObservations):
             logger.debug("Copy of field %s ...", field)
             eddies.obs[field] = self.obs[field][mask]
         if compress_id:
-            list_id = unique(eddies.obs.track)
+            list_id = unique(eddies.track)
             list_id.sort()
             id_translate = arange(list_id.max() + 1)
             id_translate[list_id] = arange(len(list_id)) + 1
-            eddies.track = id_translate[eddies.track]
+            eddies.track[:] = id_translate[eddies.track]
         return eddies
 
     @property
@@ -510,7 +510,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
                 list_id.sort()
                 id_translate = arange(list_id.max() + 1)
                 id_translate[list_id] = arange(len(list_id)) + 1
-                new.track = id_translate[new.track]
+                new.track[:] = id_translate[new.track]
         return new
 
     def shape_polygon(self, intern=False):
-- 
2.43.0


From 5bf1eb9b18494bacc74397958b2f8c58473155eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 12/55] fix: distance_to_next set a wrong distance to 0 when a
 track id is unused

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index fe93221..30963d4 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -130,7 +130,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         cum_d = cumsum_by_track(d, self.tracks)
         m_last = ones(d.shape, dtype="bool")
         m_last[-1] = False
-        m_last[self.index_from_track[1:] - 1] = False
+        m_last[:-1] = self.tracks[1:] == self.tracks[:-1]
         content += f"""
     | {self.nb_tracks} tracks ({
         nb_obs / self.nb_tracks:.2f} obs/tracks, shorter {nb[nb!=0].min()} obs, longer {nb.max()} obs)
@@ -164,7 +164,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
             self.longitude[1:],
             self.latitude[1:],
         )
-        d[self.index_from_track[1:] - 1] = 0
+        d[self.tracks[1:] != self.tracks[:-1]] = 0
         d_ = empty(d.shape[0] + 1, dtype=d.dtype)
         d_[:-1] = d
         d_[-1] = 0
-- 
2.43.0


From 2318fdcf7370b22a376fb6f95dd6a8717bab2c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 13/55] fix: add_distance could not store distances

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 30963d4..b47a5d8 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -150,7 +150,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         if "distance_next" in self.fields:
             return self
         new = self.add_fields(("distance_next",))
-        new["distance_next"][:1] = self.distance_to_next()
+        new["distance_next"][:] = self.distance_to_next()
         return new
 
     def distance_to_next(self):
-- 
2.43.0


From d8ac02274bdd51232b43274d8ccb4ae9d12515cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 14/55] fix: extract_toward_direction compared the span of
 westward tracks with its sign

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index b47a5d8..b7f2464 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -380,7 +380,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         d_lon = lon[i1] - lon[i0]
         m = d_lon < 0 if west else d_lon > 0
         if delta_lon is not None:
-            m *= delta_lon < d_lon
+            m *= delta_lon < abs(d_lon)
         m = m.repeat(nb)
         return self.extract_with_mask(m)
 
-- 
2.43.0


From b3590106c846c5dc5dd73b0eb07b76e741bacb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 15/55] fix: extract_with_mask modified the mask of the caller
 with reject_virtual

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index b7f2464..735f378 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -489,7 +489,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
         if full_path:
             if reject_virtual:
-                mask *= ~self.virtual.astype("bool")
+                mask = mask * ~self.virtual.astype("bool")
             tracks = unique(self.tracks[mask])
             mask = self.get_mask_from_id(tracks)
         elif remove_incomplete:
-- 
2.43.0


From 2bc583df76e15ca2a268e4b88df5e189ce08721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 16/55] fix: selection of tracks by direction failed on a
 single observation with unused ids

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 735f378..51ae180 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -376,6 +376,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         """
         lon = self.longitude
         i0, nb = self.index_from_track, self.nb_obs_by_track
+        # Some ids could be unused
+        i0, nb = i0[nb != 0], nb[nb != 0]
         i1 = i0 - 1 + nb
         d_lon = lon[i1] - lon[i0]
         m = d_lon < 0 if west else d_lon > 0
@@ -397,6 +399,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
     def extract_in_direction(self, direction, value=0):
         nb_obs = self.nb_obs_by_track
         i_start = self.index_from_track
+        # Some ids could be unused
+        i_start, nb_obs = i_start[nb_obs != 0], nb_obs[nb_obs != 0]
         i_stop = i_start + nb_obs - 1
         if direction in ("S", "N"):
             d_lat = self.latitude[i_stop] - self.latitude[i_start]
-- 
2.43.0


From 3a77340c4101d2c95f3e47703f0796fa025a6099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 17/55] fix: every network used the contours and the window of
 the first one of the process

---
 src/py_eddy_tracker/observations/network.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a2e2dae..f225b1f 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -37,27 +37,20 @@ from .tracking import TrackEddiesObservations, track_loess_filter, track_median_
 logger = logging.getLogger("pet")
 
 
-class Singleton(type):
-    _instances = {}
-
-    def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
-
-
-class Buffer(metaclass=Singleton):
+class Buffer:
     __slots__ = (
         "buffersize",
         "contour_name",
         "xname",
         "yname",
         "memory",
+        "DATA",
+        "FLIST",
     )
-    DATA = dict()
-    FLIST = list()
 
     def __init__(self, buffersize, intern=False, memory=False):
+        self.DATA = dict()
+        self.FLIST = list()
         self.buffersize = buffersize
         self.contour_name = EddiesObservations.intern(intern, public_label=True)
         self.xname, self.yname = EddiesObservations.intern(intern)
-- 
2.43.0


From fd844b4db10f1d9478a1a22175bb5e69e04af8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 18/55] fix: iteration on sorted values failed or gave wrong
 bounds for values out of the bins

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index dc0446d..61efad8 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -627,6 +627,8 @@ class EddiesObservations(object):
                 i0, i1 = i0[m], i1[m]
                 for i0_, i1_ in zip(i0, i1):
                     i_bins = i[i0_]
+                    if i_bins == -1 or i_bins == nb_bins:
+                        continue
                     yield slice(i0_, i1_), bins[i_bins], bins[i_bins + 1]
 
     def align_on(self, other, var_name="time", all_ref=False, **kwargs):
-- 
2.43.0


From 0dd96e5a2b08c14ee7e1010aa51b8c019b727d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 19/55] fix: close_network failed with float dates

---
 src/py_eddy_tracker/observations/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index f225b1f..f6570db 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -665,7 +665,7 @@ class NetworkObservations(GroupEddiesObservations):
         """
         p0, p1 = self.period
         indexs = list()
-        for i_self, i_other, t0, t1 in self.align_on(other, bins=range(p0, p1 + 2)):
+        for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
             indexs.append(other.re_reference_index(j, i_other))
         indexs = concatenate(indexs)
-- 
2.43.0


From f70496a32c75e7279d8ed2d9153f00f1d8219953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 20/55] fix: coherence analysis failed when dead ends are
 removed

---
 src/py_eddy_tracker/observations/network.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index f6570db..261f53f 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1669,9 +1669,8 @@ class NetworkObservations(GroupEddiesObservations):
             self.correct_close_events(nb_days_max=correct_close_events)
 
         if remove_dead_end > 0:
-            network_clean = self.remove_dead_end(nobs=0, ndays=remove_dead_end)
-        else:
-            network_clean = self
+            self.remove_dead_end(nobs=0, ndays=remove_dead_end)
+        network_clean = self
 
         network_clean.numbering_segment()
 
-- 
2.43.0


From 4a3f08a577554636872af17880a39e366aac0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 21/55] fix: recursive removal of dead ends forgot the segments
 to keep

---
 src/py_eddy_tracker/observations/network.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 261f53f..e3b4d34 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1485,9 +1485,14 @@ class NetworkObservations(GroupEddiesObservations):
         self.next_obs[m_next] = -1
         self.next_cost[m_next] = 0
 
-        self.sort()
+        index_order, _ = self.sort()
         if recursive > 0:
-            self.remove_dead_end(nobs, ndays, recursive - 1)
+            if mask is not None:
+                # Same observations in the new order
+                m = zeros(len(self), dtype="bool")
+                m[mask] = True
+                mask = m[index_order]
+            self.remove_dead_end(nobs, ndays, recursive - 1, mask)
 
     def extract_segment(self, segments, absolute=False):
         """Extract given segments
-- 
2.43.0


From b5dabcf6e6af32bbcf85ca3952d9403e5460ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 22/55] fix: align_on with all_ref missed values after the last
 one of other, or failed on sorted values

---
 src/py_eddy_tracker/observations/network.py     |  4 ++--
 src/py_eddy_tracker/observations/observation.py | 17 +++++++----------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index e3b4d34..61c6460 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1287,6 +1287,8 @@ class NetworkObservations(GroupEddiesObservations):
         for i_self, i_other, i0, _ in self.align_on(other, counts, all_ref=True):
             if i0 < size_min:
                 continue
+            if isinstance(i_self, slice):
+                i_self = arange(i_self.start, i_self.stop)
             if isinstance(i_other, slice):
                 i_other = arange(i_other.start, i_other.stop)
             # All_ref will give all item of self, sometime there is no things to compare with other
@@ -1295,8 +1297,6 @@ class NetworkObservations(GroupEddiesObservations):
                 in_self.append(id_self)
                 in_other.append(-ones(id_self.shape, dtype=id_self.dtype))
                 continue
-            if isinstance(i_self, slice):
-                i_self = arange(i_self.start, i_self.stop)
             # We get absolute id
             id_self, id_other = i_self + i_self_ref, i_other + i_other_ref
             # We compute mask to select data
diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 61efad8..ef19678 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -30,6 +30,7 @@ from numpy import (
     histogram,
     histogram2d,
     in1d,
+    inf,
     isnan,
     linspace,
     ma,
@@ -648,19 +649,15 @@ class EddiesObservations(object):
         else:
             iter_self = self.iter_on(var_name[0], **kwargs)
             iter_other = other.iter_on(var_name[1], **kwargs)
-        indexs_other, b0_other, b1_other = iter_other.__next__()
+        # Nothing more in other
+        end = None, inf, inf
+        indexs_other, b0_other, b1_other = next(iter_other, end)
         for indexs_self, b0_self, b1_self in iter_self:
-            if b0_self > b0_other:
-                try:
-                    while b0_other < b0_self:
-                        indexs_other, b0_other, b1_other = iter_other.__next__()
-                except StopIteration:
-                    break
+            while b0_other < b0_self:
+                indexs_other, b0_other, b1_other = next(iter_other, end)
             if b0_self < b0_other:
                 if all_ref:
-                    yield indexs_self, empty(
-                        0, dtype=indexs_self.dtype
-                    ), b0_self, b1_self
+                    yield indexs_self, empty(0, dtype=int), b0_self, b1_self
                 continue
             yield indexs_self, indexs_other, b0_self, b1_self
 
-- 
2.43.0


From 7ae4b2be90fb9fe0a26da8863a23ef3225d1cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 23/55] fix: virtual observations inserted were out of their
 track, previous ones lost their flag

---
 src/py_eddy_tracker/observations/groups.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index ce98b25..2d7c1a8 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -326,10 +326,15 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         mask[indices_corrected] = 1
 
         new_TEO = self.new_like(self, size_obs_corrected)
+        new_TEO.sign_type = self.sign_type
         new_TEO.obs[~mask] = self.obs
         new_TEO.filled_by_interpolation(mask)
+        # new observations belong to the track where they are missing
+        new_TEO.track[mask] = self.track[indices]
         new_TEO.virtual[:] = mask
         new_TEO.fix_next_previous_obs()
+        # observations which were already virtual
+        new_TEO.virtual[~mask] = self.virtual
         return new_TEO
 
     def keep_tracks_by_date(self, date, nb_days):
-- 
2.43.0


From 45f1bcf4f17825bb6fb22f8e712e06a86be60888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 24/55] fix: links between observations were not shifted when
 virtual observations are inserted

---
 src/py_eddy_tracker/observations/network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 61c6460..934ad6b 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -169,6 +169,12 @@ class NetworkObservations(GroupEddiesObservations):
         previous obs.
         """
 
+        # Observations are shifted by virtual ones (last item for -1)
+        i_obs = where(self.virtual == 0)[0]
+        translate = -ones(i_obs.size + 1, dtype="i4")
+        translate[:-1] = i_obs
+        self.next_obs[i_obs] = translate[self.next_obs[i_obs]]
+        self.previous_obs[i_obs] = translate[self.previous_obs[i_obs]]
         fix_next_previous_obs(self.next_obs, self.previous_obs, self.virtual)
 
     @property
-- 
2.43.0


From 95ff013713e37adfc86f675313928ea58871d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 25/55] fix: virtual observations were inserted between
 segments of a network

---
 src/py_eddy_tracker/observations/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 934ad6b..ed26ca5 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -160,9 +160,11 @@ class NetworkObservations(GroupEddiesObservations):
 
         :param int,float dt: theorical delta time between 2 observations
         """
-        return get_missing_indices(
-            self.time, self.track, dt=dt, flag_untrack=True, indice_untrack=self.NOGROUP
+        # segments of a network are independent
+        indices = get_missing_indices(
+            self.time, self.segment_track_array, dt=dt, flag_untrack=False
         )
+        return indices[self.track[indices] != self.NOGROUP]
 
     def fix_next_previous_obs(self):
         """Function used after 'insert_virtual', to correct next_obs and
-- 
2.43.0


From 8b562c1f16105ccd0dd810556d8415611f4d10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 26/55] fix: gradient on the borders of a grid used values out
 of the grid

---
 src/py_eddy_tracker/dataset/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index edb96ba..b7d730b 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2950,7 +2950,9 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             h_3, h_2, h_1, h0 = h[-4, j], h[-3, j], h[-2, j], h[-1, j]
             m_3, m_2, m_1, m0 = m[-4, j], m[-3, j], m[-2, j], m[-1, j]
         else:
-            m_3, m_2, m_1, m0 = False, False, False, False
+            # Before the grid, there are no data
+            h_3, h_2, h_1, h0 = h[0, j], h[0, j], h[0, j], h[0, j]
+            m_3, m_2, m_1, m0 = True, True, True, True
         h1, h2, h3, h4 = h[0, j], h[1, j], h[2, j], h[3, j]
         m1, m2, m3, m4 = m[0, j], m[1, j], m[2, j], m[3, j]
         for i in range(nb_x):
@@ -2965,7 +2967,7 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
                     h4 = h[i_, j]
                 else:
                     # When we are out
-                    m4 = False
+                    m4 = True
             else:
                 m4 = m[i_, j]
                 h4 = h[i_, j]
-- 
2.43.0


From b2742cc9ec2ac2edc3ef3b900071e0ad1130d5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 27/55] fix: gradient between two masked values used their
 content

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index b7d730b..384b0eb 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2979,6 +2979,10 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             if not vertical:
                 # For each row we compute distance
                 d_ = 360 / (d_step * cos(deg2rad(y[j])) * pi * 2 * earth_radius)
+            if m1 and m_1:
+                # No neighbour to compute a gradient
+                m_out[i, j] = True
+                continue
             if m1 ^ m_1:
                 # unbalanced kernel
                 if m_1:
-- 
2.43.0


From b4d4c666feb8be8747066c81753ba941d26cba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 28/55] fix: particles south of the grid were advected with
 values of its north edge

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 384b0eb..6072718 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2707,7 +2707,7 @@ def get_uv_quad(i0, j0, u, v, m, nb_x=0):
         i1 %= nb_x
     i_max, j_max = m.shape
 
-    if i1 >= i_max or j1 >= j_max:
+    if i0 < 0 or j0 < 0 or i1 >= i_max or j1 >= j_max:
         return True, nan, nan, nan, nan, nan, nan, nan, nan
 
     if m[i0, j0] or m[i0, j1] or m[i1, j0] or m[i1, j1]:
-- 
2.43.0


From 5d213ca91a8ec85628b6bd315fcf155c1840c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 29/55] fix: tracking failed to write tracks when no track is
 too short

---
 src/py_eddy_tracker/tracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index b64b6fc..b71e546 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -611,7 +611,8 @@ class Correspondances(list):
 
     def shorter_than(self, size_max):
         """Remove from correspondance table all association for longer eddies than size_max"""
-        # Identify eddies longer than
+        # Identify eddies shorter than
+        nb_tracks = self.nb_obs_by_tracks.shape[0]
         i_keep_track = where(self.nb_obs_by_tracks < size_max)[0]
         # Reduce array
         self.nb_obs_by_tracks = self.nb_obs_by_tracks[i_keep_track]
@@ -621,7 +622,7 @@ class Correspondances(list):
         self.nb_obs = self.nb_obs_by_tracks.sum()
         # Give the last id used
         self.current_id = self.nb_obs_by_tracks.shape[0]
-        translate = empty(i_keep_track.max() + 1, dtype="u4")
+        translate = empty(nb_tracks, dtype="u4")
         translate[i_keep_track] = arange(self.current_id)
         for i, correspondance in enumerate(self):
             m_keep = isin(correspondance["id"], i_keep_track)
-- 
2.43.0


From cff35aa821b5c3b22dd52687c51225d47ff50311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 30/55] fix: correspondances with a date without any link could
 not be loaded

---
 src/py_eddy_tracker/tracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index b71e546..b1e5a17 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -552,7 +552,8 @@ class Correspondances(list):
                 if name == "virtual_length":
                     correspondance[name] = 255
                 correspondance[name] = datas[name][i, :nb_elt]
-            id_max = max(id_max, correspondance["id"].max())
+            if nb_elt:
+                id_max = max(id_max, correspondance["id"].max())
             obj.append(correspondance)
         obj.current_id = id_max + 1
         return obj
-- 
2.43.0


From 8030c0f56ffbcf1a044059cd76c90bd505302664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 31/55] fix: tracking with virtual observations of three
 datasets could not be saved

---
 src/py_eddy_tracker/tracking.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index b1e5a17..a092188 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -344,11 +344,14 @@ class Correspondances(list):
             flg_virtual = self.previous_correspondance.virtual
             with Dataset(self.filename_previous_correspondance) as general_handler:
                 self.current_id = general_handler.last_current_id
+                # Virtual obs exist only from the third dataset
+                flg_virtual &= "LastVirtualObs" in general_handler.groups
                 if flg_virtual:
                     # Load last virtual obs
                     self.virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastVirtualObs"]
                     )
+                if flg_virtual and "LastPreviousVirtualObs" in general_handler.groups:
                     self.previous_virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastPreviousVirtualObs"]
                     )
@@ -480,8 +483,10 @@ class Correspondances(list):
         if self.virtual_obs is not None:
             group = handler.createGroup("LastVirtualObs")
             self.virtual_obs.to_netcdf(group)
-            group = handler.createGroup("LastPreviousVirtualObs")
-            self.previous_virtual_obs.to_netcdf(group)
+            # There are no previous virtual obs at the third dataset
+            if self.previous_virtual_obs is not None:
+                group = handler.createGroup("LastPreviousVirtualObs")
+                self.previous_virtual_obs.to_netcdf(group)
         handler.module = self.class_method.__module__
         handler.classname = self.class_method.__qualname__
         handler.class_kw = json.dumps(self.class_kw)
-- 
2.43.0


From f4cc4fcfabec800bc4539640bcda4ca7cca74bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 32/55] fix: empty datasets lost their rotation sign and were
 written in the file of cyclones

---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index ef19678..167da94 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2442,7 +2442,9 @@ class EddiesObservations(object):
         return create_meshed_particles(self[xname], self[yname], step)
 
     def empty_dataset(self):
-        return self.new_like(self, 0)
+        new = self.new_like(self, 0)
+        new.sign_type = self.sign_type
+        return new
 
 
 @njit(cache=True)
-- 
2.43.0


From 09d30373a8ed1df4cc6f7091907127aa4838a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 33/55] fix: period of a dataset was not updated when
 observations are inserted

---
 src/py_eddy_tracker/observations/observation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 167da94..88f62c1 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -668,6 +668,9 @@ class EddiesObservations(object):
         insert_size = len(other)
         self_size = len(self)
         new_size = self_size + insert_size
+        if insert_size != 0:
+            # Period must be computed again
+            self.period_ = None
         if self_size == 0:
             self.observations = other.obs
             return self
-- 
2.43.0


From 6a588c697359aeda15097d2929c2d84c4a0ff4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 34/55] fix: selection of observations failed with slices
 without bound, negative or too long

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 88f62c1..4549676 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -726,7 +726,7 @@ class EddiesObservations(object):
         if hasattr(index, "__iter__"):
             size = len(index)
         elif isinstance(index, slice):
-            size = index.stop - index.start
+            size = len(range(*index.indices(len(self))))
         eddies = self.new_like(self, size)
         eddies.obs[:] = self.obs[index]
         eddies.sign_type = self.sign_type
-- 
2.43.0


From 22eac34de3dcee9ec3d362176753d285f1036c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 35/55] fix: iteration on unsorted values failed when they are
 all out of the bins

---
 src/py_eddy_tracker/observations/observation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 4549676..e9fafcb 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -606,6 +606,9 @@ class EddiesObservations(object):
             if (d < 0).any():
                 # If bins cover a small part of value
                 test, translate, x = iter_mode_reduce(x, bins)
+                # No value in the bins
+                if x.size == 0:
+                    return
                 # convert value in bins number
                 i = numba_digitize(x, bins) - 1
                 # Order by bins
-- 
2.43.0


From 69aafab64e623b86d3b3a3b8a7c5b59c8695649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 36/55] fix: merging two slices kept observations of either of
 them

---
 src/py_eddy_tracker/observations/observation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index e9fafcb..38b4805 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1986,8 +1986,9 @@ class EddiesObservations(object):
             reject = ones(len(self), dtype="bool")
             reject[filter1] = False
             if isinstance(filter2, slice):
-                reject[filter2] = False
-                return ~reject
+                select = zeros(len(self), dtype="bool")
+                select[filter2] = True
+                return ~reject * select
             # Mask case
             elif filter2.dtype == bool:
                 return ~reject * filter2
-- 
2.43.0


From a2932493a827b0c7233460e0f9bf58bb6bfc2285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 37/55] fix: mask from polygons failed when all observations
 are in the first polygons

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 38b4805..f7c01d1 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1821,6 +1821,8 @@ class EddiesObservations(object):
         )
         for x, y in polygons[1:]:
             m_ = ~m
+            if not m_.any():
+                break
             m[m_] = insidepoly(
                 self.longitude[m_],
                 self.latitude[m_],
-- 
2.43.0


From 4a5547653166f11dfa254c66704a4bd3761a0737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 38/55] fix: loading of observations failed with a slice
 without upper bound

---
 src/py_eddy_tracker/observations/observation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index f7c01d1..d8fc8ef 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -826,7 +826,8 @@ class EddiesObservations(object):
 
         if indexs is not None and "obs" in indexs:
             sl = indexs["obs"]
-            sl = slice(sl.start, min(sl.stop, nb_obs))
+            if sl.stop is not None:
+                sl = slice(sl.start, min(sl.stop, nb_obs), sl.step)
             if sl.stop is not None:
                 nb_obs = sl.stop
             if sl.start is not None:
@@ -974,7 +975,8 @@ class EddiesObservations(object):
             nb_obs = len(h_nc.dimensions[obs_dim])
             if indexs is not None and obs_dim in indexs:
                 sl = indexs[obs_dim]
-                sl = slice(sl.start, min(sl.stop, nb_obs))
+                if sl.stop is not None:
+                    sl = slice(sl.start, min(sl.stop, nb_obs), sl.step)
                 if sl.stop is not None:
                     nb_obs = sl.stop
                 if sl.start is not None:
-- 
2.43.0


From 850105f4fa4fd3d4caaf58e25b3f3f598f07a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 39/55] fix: raw values loaded from zarr were truncated

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index d8fc8ef..f75d0cb 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -931,6 +931,8 @@ class EddiesObservations(object):
                     data -= add_offset
                 if scale_factor is not None:
                     data /= scale_factor
+                    # data will be cast to integer, which truncates
+                    data = data.round()
 
             sl_out = slice(i - i_start, i - i_start + buffer_size)
             handler_eddies[sl_out] = data
-- 
2.43.0


From 543579b7a4a4451f0a78287c60232fb5a071c73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 40/55] fix: zarr files of observations without contours could
 not be loaded

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index f75d0cb..eb56dd0 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -822,7 +822,7 @@ class EddiesObservations(object):
         var_list = cls.build_var_list(list(h_zarr.keys()), remove_vars, include_vars)
 
         nb_obs = getattr(h_zarr, var_list[0]).shape[0]
-        track_array_variables = h_zarr.attrs["track_array_variables"]
+        track_array_variables = h_zarr.attrs.get("track_array_variables", 0)
 
         if indexs is not None and "obs" in indexs:
             sl = indexs["obs"]
-- 
2.43.0


From 4f9fa17a223e955a236d3355f7dd41a7199adb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 41/55] fix: window of an outline that crosses the west edge of
 a regional grid was empty

---
 src/py_eddy_tracker/generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 173edc7..b50fd29 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -597,6 +597,9 @@ def bbox_indice_regular(vertices, x0, y0, xstep, ystep, N, circular, x_size):
     if circular:
         slice_x = (i_x0 - N) % x_size, (i_x1 + N + 1) % x_size
     else:
+        if i_x0 > i_x1:
+            # contour starts west of the grid
+            i_x0 = 0
         slice_x = min(max(i_x0 - N, 0), x_size), i_x1 + N + 1
     slice_y = max(i_y0 - N, 0), max(i_y1 + N + 1, 0)
     return slice_x, slice_y
-- 
2.43.0


From 4a2f80e604bdd9fc84ad574aac6b65605aed4ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 42/55] fix: statistics by box failed with masked data

---
 src/py_eddy_tracker/observations/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index eb56dd0..1d4d17e 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2304,7 +2304,8 @@ class EddiesObservations(object):
         x, y = (self.longitude - x0) % 360 + x0, self.latitude
         data = self[varname] if data is None else data
         if hasattr(data, "mask"):
-            filter = self.merge_filters(~data.mask, self.merge_filters(filter))
+            filter = self.merge_filters(~ma.getmaskarray(data), filter)
+            data = data.data
         else:
             filter = self.merge_filters(filter)
         x, y, data = x[filter], y[filter], data[filter]
-- 
2.43.0


From ad861b20a71ecb7779bdcab16476ce492b664684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 43/55] fix: interpolation in a collection of grids failed on
 masked grids

---
 src/py_eddy_tracker/dataset/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 6072718..a221074 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2407,10 +2407,10 @@ class GridCollection:
         t1 = t0 + 1
         h0, h1 = self[t0], self[t1]
         g0, g1 = h0.grid(grid_name), h1.grid(grid_name)
-        m0, m1 = h0.get_mask(g0), h0.get_mask(g1)
+        m0, m1 = h0.get_mask(g0), h1.get_mask(g1)
         kw = dict(x=lons, y=lats, nearest=method == "nearest")
-        v0 = interp2d_geo(h0.x_c, h0.y_c, g0, m0, **kw)
-        v1 = interp2d_geo(h1.x_c, h1.y_c, g1, m1, **kw)
+        v0 = interp2d_geo(h0.x_c, h0.y_c, g0.data, m0, **kw)
+        v1 = interp2d_geo(h1.x_c, h1.y_c, g1.data, m1, **kw)
         w = (t - t0) / (t1 - t0)
         return v1 * w + v0 * (1 - w)
 
-- 
2.43.0


From d6ad538726be7e92d3b6d437bd3ef0bb10f32713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 44/55] fix: mean by box failed with a masked array without
 mask

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 1d4d17e..e101bad 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2351,7 +2351,7 @@ class EddiesObservations(object):
         x, y = (self.longitude - x0) % 360 + x0, self.latitude
         data = self[varname] if data is None else data
         if hasattr(data, "mask"):
-            m = ~data.mask
+            m = ~ma.getmaskarray(data)
             sum_obs = histogram2d(x[m], y[m], (x_bins, y_bins), weights=data[m])[0]
             nb_obs = histogram2d(x[m], y[m], (x_bins, y_bins))[0]
         else:
-- 
2.43.0


From 815b057b1cc9dd9d5631d1266b85608a6bc06530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 45/55] fix: path between two pixels could miss the last one

---
 src/py_eddy_tracker/dataset/grid.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index a221074..3e454f9 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2304,17 +2304,16 @@ def compute_pixel_path(x0, y0, x1, y1, x_ori, y_ori, x_step, y_step, nb_x):
             j_g[ii : ii + delta + 1] = i_y0[i]
         # In case of multiple directions
         else:
-            a = (i_x1[i] - i_x0[i]) / float(i_y1[i] - i_y0[i])
             if abs(d_x[i]) >= abs(d_y[i]):
                 sup = -1 if d_x[i] < 0 else 1
                 value = arange(i_x0[i], i_x1[i] + sup, sup)
                 i_g[ii : ii + delta + 1] = value
-                j_g[ii : ii + delta + 1] = (value - i_x0[i]) / a + i_y0[i]
+                j_g[ii : ii + delta + 1] = (value - i_x0[i]) * d_y[i] // d_x[i] + i_y0[i]
             else:
                 sup = -1 if d_y[i] < 0 else 1
                 value = arange(i_y0[i], i_y1[i] + sup, sup)
                 j_g[ii : ii + delta + 1] = value
-                i_g[ii : ii + delta + 1] = (value - i_y0[i]) * a + i_x0[i]
+                i_g[ii : ii + delta + 1] = (value - i_y0[i]) * d_x[i] // d_y[i] + i_x0[i]
         ii += delta + 1
     i_g %= nb_x
     return i_g, j_g, d_max
-- 
2.43.0


From ade37a01515a954f229ae6d018e608c3db6ec87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:23 +0000
Subject: [PATCH 46/55] fix: nearest contour could be one which does not
 contain the position

---
 src/py_eddy_tracker/eddy_feature.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 8bc139a..e681570 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -751,11 +751,9 @@ def index_from_nearest_path_with_pt_in_bbox_(
 
     # Flag to check if we iterate
     find_contour = 0
-    # We select the first pt of the first contour in the level
-    # to initialize dist
+    # Reference will be initialize with the first pt of the first contour checked
     i_ref = i_start_c
-    i_start_pt = indices_of_first_pts[i_start_c]
-    dist_ref = (x_value[i_start_pt] - xpt) ** 2 + (y_value[i_start_pt] - ypt) ** 2
+    dist_ref = 0.0
 
     # We iterate over contour in the same level
     for i_elt_c in range(i_start_c, i_end_c):
@@ -774,9 +772,6 @@ def index_from_nearest_path_with_pt_in_bbox_(
         i_start_pt = indices_of_first_pts[i_elt_c]
         # Indice of first pt of the next contour
         i_end_pt = i_start_pt + nb_pt_per_c[i_elt_c]
-        # We set flag to true, because we check contour
-        find_contour = 1
-
         # We do iteration on pt to check dist, if it's inferior we store
         # index of contour
         for i_elt_pt in range(i_start_pt, i_end_pt):
@@ -784,7 +779,9 @@ def index_from_nearest_path_with_pt_in_bbox_(
             if abs(d_x) > 180:
                 d_x = (d_x + 180) % 360 - 180
             dist = d_x**2 + (y_value[i_elt_pt] - ypt) ** 2
-            if dist < dist_ref:
+            if find_contour == 0 or dist < dist_ref:
+                # We set flag to true, because we check contour
+                find_contour = 1
                 dist_ref = dist
                 i_ref = i_elt_c
     # No iteration on contour, we return no index of contour
-- 
2.43.0


From 1e35ffa6ff466607460402116a0e3a59deac6165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:16 +0000
Subject: [PATCH 47/55] fix: filter kernels stay centered on their row near the
 poles

---
 src/py_eddy_tracker/dataset/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 3e454f9..9b28a00 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1381,8 +1381,10 @@ class RegularGridDataset(GridDataset):
         k_valid = kernel_ != 0
         x_valid = where(k_valid.sum(axis=1))[0]
         x_slice = slice(x_valid[0], x_valid[-1] + 1)
+        # same number of rows on each side, to keep kernel centered
         y_valid = where(k_valid.sum(axis=0))[0]
-        y_slice = slice(y_valid[0], y_valid[-1] + 1)
+        y_trim = min(y_valid[0], 2 * half_y_pt * order - y_valid[-1])
+        y_slice = slice(y_trim, kernel_.shape[1] - y_trim)
         return kernel_[x_slice, y_slice]
 
     def kernel_lanczos(self, lat, wave_length, order=1):
-- 
2.43.0


From 0467725ed40c4157777df38b7b0f115c7581fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:16 +0000
Subject: [PATCH 48/55] fix: filter kernels hold no nan where the row is met
 again over the pole

---
 src/py_eddy_tracker/dataset/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 9b28a00..a379008 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1370,6 +1370,8 @@ class RegularGridDataset(GridDataset):
         x = arange(0, self.xstep * half_x_pt * order + 0.01 * self.xstep, self.xstep)
         y, x = meshgrid(y, x)
         dist_norm = distance(0, lat, x, y) / 1000.0 / wave_length
+        # center met again over the pole, where rounding could give an invalid distance
+        dist_norm[isnan(dist_norm)] = 0
         return half_x_pt, half_y_pt, dist_norm
 
     def finalize_kernel(self, kernel, order, half_x_pt, half_y_pt):
@@ -1429,6 +1431,7 @@ class RegularGridDataset(GridDataset):
         with errstate(invalid="ignore"):
             kernel = sinc(dist_norm / order) * j1(2 * pi * dist_norm) / dist_norm
         kernel[0, half_y_pt * order] = pi
+        kernel[dist_norm == 0] = pi
         kernel[dist_norm > order] = 0
         return self.finalize_kernel(kernel, order, half_x_pt, half_y_pt)
 
-- 
2.43.0


From 4a05c0ff8fed0d2c8eb4d9cea97b5f6e5126fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:16 +0000
Subject: [PATCH 49/55] fix: closed grid not recognised when rounding puts its
 west bound just below 0

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index a379008..df239b5 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1331,7 +1331,7 @@ class RegularGridDataset(GridDataset):
         """Check if the grid is circular"""
         if self._is_circular is None:
             self._is_circular = (
-                abs((self.x_bounds[0] % 360) - (self.x_bounds[-1] % 360)) < 0.0001
+                abs((self.x_bounds[-1] - self.x_bounds[0] + 180) % 360 - 180) < 0.0001
             )
         return self._is_circular
 
-- 
2.43.0


From 44fa2ad0c35dcab4c0906982ba83ee36189b9295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:16 +0000
Subject: [PATCH 50/55] fix: kernels miss that a grid is closed when rounding
 puts its last column just below 360

---
 src/py_eddy_tracker/dataset/grid.py | 10 +++++-----
 src/py_eddy_tracker/generic.py      |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index df239b5..8fcd491 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2115,7 +2115,7 @@ def advect_rk4(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
     x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = abs((x_g[-1] - x_g[0] + x_step + 180) % 360 - 180) < 1e-5
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # cache
@@ -2218,7 +2218,7 @@ def advect(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
     x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = abs((x_g[-1] - x_g[0] + x_step + 180) % 360 - 180) < 1e-5
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # Indexes which should be never exist
@@ -2644,7 +2644,7 @@ def advect_t(x_g, y_g, u_g0, v_g0, m_g0, u_g1, v_g1, m_g1, x, y, m, weigths, hal
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
     x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = abs((x_g[-1] - x_g[0] + x_step + 180) % 360 - 180) < 1e-5
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # Indexes that should never exist
@@ -2775,7 +2775,7 @@ def advect_t_rk4(
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
     x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = abs((x_g[-1] - x_g[0] + x_step + 180) % 360 - 180) < 1e-5
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # cache
@@ -2944,7 +2944,7 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
         is_circular = False
     else:
         # Test if matrix is circular
-        is_circular = abs(x[-1] % 360 - (x[0] - d_step) % 360) < 1e-5
+        is_circular = abs((x[-1] - x[0] + d_step + 180) % 360 - 180) < 1e-5
 
     # Compute caracteristic distance, constant when vertical
     d_ = 360 / (d_step * pi * 2 * earth_radius)
diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index b50fd29..7c20250 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -220,7 +220,7 @@ def interp2d_nearest(x_g, y_g, z_g, x, y):
     y_step = y_g[1] - y_ref
     nb_x = x_g.shape[0]
     nb_y = y_g.shape[0]
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = abs((x_g[-1] - x_g[0] + x_step + 180) % 360 - 180) < 1e-5
     z = empty(x.shape, dtype=z_g.dtype)
     for i in prange(x.size):
         i0 = int(round((x[i] - x_ref) / x_step))
@@ -254,7 +254,7 @@ def interp2d_bilinear(x_g, y_g, z_g, m_g, x, y):
     y_step = y_g[1] - y_ref
     nb_x = x_g.shape[0]
     nb_y = y_g.shape[0]
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = abs((x_g[-1] - x_g[0] + x_step + 180) % 360 - 180) < 1e-5
     # Indexes that should never exist
     i0_old, j0_old, masked = -100000000, -10000000, False
     z = empty(x.shape, dtype=z_g.dtype)
-- 
2.43.0


From 990ba29ef1f5759d54d2c5274a1dba8eb2203532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:16 +0000
Subject: [PATCH 51/55] fix: add_uv_lagerloef looked for two rows in one call
 of a scalar function

---
 src/py_eddy_tracker/dataset/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 8fcd491..9d462df 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1795,8 +1795,9 @@ class RegularGridDataset(GridDataset):
     def add_uv_lagerloef(self, grid_height, uname="u", vname="v", schema=15):
         self.add_uv(grid_height, uname, vname)
         latmax = 5
-        _, (i_start, i_end) = self.nearest_grd_indice((0, 0), (-latmax, latmax))
-        sl = slice(i_start, i_end)
+        _, i_start = self.nearest_grd_indice(0, -latmax)
+        _, i_end = self.nearest_grd_indice(0, latmax)
+        sl = slice(max(i_start, 0), max(i_end, 0))
         # Divide by sideral day
         lat = self.y_c[sl]
         gob = (
-- 
2.43.0


From f930544f5b8251b28598aa3eb64bb2377bef929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 52/55] fix: copy of a grid not read yet loses the order of its
 dimensions

---
 src/py_eddy_tracker/dataset/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 9d462df..082df1f 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -498,6 +498,8 @@ class GridDataset(object):
         :param grid_out:
 
         """
+        # Reading a grid completes its description (transpose)
+        self.grid(grid_in)
         h_dict = self.variables_description[grid_in]
         self.variables_description[grid_out] = dict(
             infos=h_dict["infos"].copy(),
-- 
2.43.0


From 189bdbc18513900ed1dc5b0aa5dbc9770b902337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 53/55] fix: unregular grids could not be opened (masked
 coordinates refused by compiled code)

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 082df1f..3f4ab5f 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1097,8 +1097,8 @@ class UnRegularGridDataset(GridDataset):
             self.vars[x_name] = h.variables[x_name][sl_x]
             self.vars[y_name] = h.variables[y_name][sl_y]
 
-            self.x_c = self.vars[x_name]
-            self.y_c = self.vars[y_name]
+            self.x_c = array(self.vars[x_name])
+            self.y_c = array(self.vars[y_name])
 
             self.init_pos_interpolator()
 
-- 
2.43.0


From 808124b9470b2b527f79edbd659a31533313e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 54/55] fix: resampling of an outline without fixed size raised
 (identification on grids with 2-D coordinates)

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 3f4ab5f..12cc9eb 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -106,7 +106,7 @@ BasePath.lat = lat
 
 
 @njit(cache=True)
-def uniform_resample_stack(vertices, num_fac=2, fixed_size=None):
+def uniform_resample_stack(vertices, num_fac=2, fixed_size=-1):
     x_val, y_val = vertices[:, 0], vertices[:, 1]
     x_new, y_new = uniform_resample(x_val, y_val, num_fac, fixed_size)
     data = empty((x_new.shape[0], 2), dtype=vertices.dtype)
-- 
2.43.0


From b55728419d57f30204505d9aa07a96ad3d0fb65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 55/55] fix: a current without any missing value could not be
 used for advection

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 12cc9eb..fec2c2c 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2046,7 +2046,7 @@ class RegularGridDataset(GridDataset):
         if backward:
             u = -u
             v = -v
-        m = u.mask + v.mask
+        m = self.get_mask(u) + self.get_mask(v)
         return u.data, v.data, m
 
     def advect(self, x, y, u_name, v_name, nb_step=10, rk4=True, **kw):
-- 
2.43.0

