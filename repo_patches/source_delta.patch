From c2aaedd510f3924852adc85bc726895ce2074f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 01/45] fix: keep fix_range input unaltered, allow integers,
 and honour the upper limit

Adjusting the values in place changed the caller's array, failed for integer
arrays with a floating point range, and returned the upper limit for values
that round up to it when the range is added.
---
 ocbpy/ocb_time.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index db915b2..c05cc84 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -417,9 +417,6 @@ def fix_range(values, min_val, max_val, val_range=None):
 
     """
 
-    # Cast output as array-like
-    fixed_vals = np.asarray(values)
-
     # Test input to ensure the maximum is greater than the minimum
     if min_val >= max_val:
         raise ValueError('Minimum is not less than the maximum')
@@ -432,21 +429,26 @@ def fix_range(values, min_val, max_val, val_range=None):
     if val_range <= 0.0:
         raise ValueError('Value range must be greater than zero')
 
+    # Cast output as array-like, without altering the input and using a data
+    # type that can hold the adjusted values
+    fixed_vals = np.array(values, dtype=np.result_type(np.asarray(values),
+                                                       val_range))
+
     # Fix the values, allowing for deviations that are multiples of the
     # value range.  Also propagate NaNs
-    ibad = (np.greater_equal(fixed_vals, max_val, where=~np.isnan(fixed_vals))
+    ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
             & ~np.isnan(fixed_vals))
     while np.any(ibad):
-        fixed_vals[ibad] -= val_range
-        ibad = (np.greater_equal(fixed_vals, max_val,
-                                 where=~np.isnan(fixed_vals))
+        fixed_vals[ibad] += val_range
+        ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
                 & ~np.isnan(fixed_vals))
 
-    ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
+    ibad = (np.greater_equal(fixed_vals, max_val, where=~np.isnan(fixed_vals))
             & ~np.isnan(fixed_vals))
     while np.any(ibad):
-        fixed_vals[ibad] += val_range
-        ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
+        fixed_vals[ibad] -= val_range
+        ibad = (np.greater_equal(fixed_vals, max_val,
+                                 where=~np.isnan(fixed_vals))
                 & ~np.isnan(fixed_vals))
 
     return fixed_vals
-- 
2.43.0


From 2bde2088c9e0fa3320384d6670d92728893c2142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 02/45] fix: carry rounded seconds of year into the minute,
 hour, day, and year

---
 ocbpy/ocb_time.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index c05cc84..70821ad 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -66,6 +66,10 @@ def year_soy_to_datetime(yyyy, soy):
 
     """
 
+    # Round to whole seconds before separating the time units, to ensure the
+    # rounding is carried into the minute, hour, day, and year
+    soy = float(np.round(soy))
+
     # Calcuate doy, hour, min, seconds of day
     ss = soy / 86400.0
     ddd = np.floor(ss)
@@ -78,12 +82,9 @@ def year_soy_to_datetime(yyyy, soy):
 
     ss = soy - ddd * 86400.0 - hh * 3600.0 - mm * 60.0
 
-    # Define format
-    stime = "{:d}-{:.0f}-{:.0f}-{:.0f}-{:.0f}".format(yyyy, ddd + 1, hh, mm,
-                                                      ss)
-
     # Convert to datetime
-    dtime = dt.datetime.strptime(stime, "%Y-%j-%H-%M-%S")
+    dtime = dt.datetime(yyyy, 1, 1) + dt.timedelta(days=ddd, hours=hh,
+                                                   minutes=mm, seconds=ss)
 
     return dtime
 
-- 
2.43.0


From 775a9dcee624c4a998fca74f1d985b2ac13ea59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 03/45] fix: allow integer local times when defining the pole
 quadrants

---
 ocbpy/vectors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index d176eb7..fcbcf64 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -169,8 +169,9 @@ def define_pole_quadrants(data_lt, pole_lt, pole_angle):
     downwards. Quadrants: 1 [N, E]; 2 [N, W]; 3 [S, W]; 4 [S, E]; 0 [undefined]
 
     """
-    # Determine where the destination pole is relative to the data vector
-    del_lt = np.asarray(pole_lt) - np.asarray(data_lt)
+    # Determine where the destination pole is relative to the data vector,
+    # allowing for integer input
+    del_lt = (np.asarray(pole_lt) - np.asarray(data_lt)).astype(float)
 
     # Initalize the output
     pole_quad = np.zeros(shape=np.asarray(del_lt).shape)
-- 
2.43.0


From ae4f56e3b4588ddcb4cdf71c20c0d13dbbe905f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 04/45] fix: allow different input shapes when calculating the
 pole angle

---
 ocbpy/vectors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index fcbcf64..7a09bee 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -80,13 +80,13 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
     del_long = ocb_time.hr2rad(np.asarray(pole_lt) - np.asarray(data_lt),
                                max_range=np.pi)
 
+    # Ensure the latitudes are array-like and the inputs have the same shape
+    del_long, data_lat, pole_lat = np.broadcast_arrays(
+        del_long, np.asarray(data_lat), np.asarray(pole_lat))
+
     # Initalize the output
     pole_angle = np.full(shape=del_long.shape, fill_value=np.nan)
 
-    # Ensure the latitudes are array-like
-    data_lat = np.asarray(data_lat)
-    pole_lat = np.asarray(pole_lat)
-
     # Assign the extreme values
     if len(del_long.shape) == 0:
         if del_long in [-np.pi, 0.0, np.pi]:
-- 
2.43.0


From 564315c124e9bd7fb0e8f93ee9ed7b8829e65c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 05/45] fix: return an undefined pole angle for undefined
 latitudes on the pole's meridian

---
 ocbpy/vectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 7a09bee..7bf6d2b 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -89,7 +89,8 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
 
     # Assign the extreme values
     if len(del_long.shape) == 0:
-        if del_long in [-np.pi, 0.0, np.pi]:
+        if (del_long in [-np.pi, 0.0, np.pi]
+                and not np.isnan(data_lat + pole_lat)):
             if abs(data_lat) > abs(pole_lat):
                 pole_angle = 180.0
             else:
-- 
2.43.0


From 77b5d3bc506af8e00a0d7842df3702fffb9927e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 06/45] fix: keep round-off errors from making the pole angle
 of aligned locations undefined

---
 ocbpy/vectors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 7bf6d2b..a87a9f4 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -129,10 +129,12 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
         + np.cos(np.radians(data_lat)) * np.cos(np.radians(pole_lat))
         * np.cos(del_long))
 
-    # Use the half-angle formula to get the pole angle
+    # Use the half-angle formula to get the pole angle, not allowing round-off
+    # errors for (nearly) aligned locations to leave the valid range
     sum_sides = 0.5 * (del_vect + del_dest + del_pole)
-    half_angle = np.sqrt(np.sin(sum_sides) * np.sin(sum_sides - del_pole)
-                         / (np.sin(del_vect) * np.sin(del_dest)))
+    half_angle = np.sqrt(np.clip(
+        np.sin(sum_sides) * np.sin(sum_sides - del_pole)
+        / (np.sin(del_vect) * np.sin(del_dest)), 0.0, 1.0))
 
     if pole_angle.shape == ():
         pole_angle = np.degrees(2.0 * np.arccos(half_angle))
-- 
2.43.0


From e791131d1e7efbc63538ae0881790bbd6e617b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 07/45] fix: reverse vectors lying between the poles, and only
 those, in both hemispheres

---
 ocbpy/vectors.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index a87a9f4..9e3c0ce 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -619,10 +619,13 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
             else:
                 dest_z[ns_mask] = vect_z[ns_mask]
 
-        # Determine if the measurement is on or between the poles. This does
-        # not affect the vertical direction
+        # Determine if the measurement is on or between the poles, in either
+        # hemisphere. This does not affect the vertical direction
         sign_mask = (pole_angle == 0.0) & np.greater_equal(
-            vect_lat, pole_lat, where=~np.isnan(vect_lat)) & ~np.isnan(vect_lat)
+            abs(vect_lat), abs(pole_lat),
+            where=~np.isnan(vect_lat)) & ~np.isnan(vect_lat)
+        sign_mask = sign_mask | ((pole_angle == 180.0) & (
+            (pole_lt - vect_lt) % 24.0 == 0.0))
 
         if np.any(sign_mask):
             if len(out_shape) == 0:
-- 
2.43.0


From e2999e267f18b04b517ff04cf747aade0d92575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 08/45] fix: keep the vertical component of vectors without a
 horizontal one

---
 ocbpy/vectors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 9e3c0ce..3107ad6 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -586,16 +586,17 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     ns_mask = (pole_angle == 0.0) | (pole_angle == 180.0)
     norm_mask = ~(zero_mask + ns_mask)
 
-    # There's nothing to adjust if there is no magnitude
+    # There's nothing to adjust if there is no horizontal magnitude
     if np.any(zero_mask):
         if len(out_shape) == 0:
             dest_n = 0.0
             dest_e = 0.0
-            dest_z = 0.0
+            dest_z = float(vect_z)
         else:
             dest_n[zero_mask] = 0.0
             dest_e[zero_mask] = 0.0
-            dest_z[zero_mask] = 0.0
+            dest_z[zero_mask] = (vect_z if len(vect_z.shape) == 0
+                                 else vect_z[zero_mask])
 
     # The measurement is aligned with the base and destination poles
     if np.any(ns_mask):
-- 
2.43.0


From 5e9436371627a86ab7f7012ede3286519b6d8651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 09/45] fix: allow different input shapes and integers when
 adjusting vectors

---
 ocbpy/vectors.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 3107ad6..b9b60d6 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -562,17 +562,12 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
         latitude
 
     """
-    # Ensure the input is array-like
-    vect_lt = np.asarray(vect_lt)
-    vect_lat = np.asarray(vect_lat)
-    vect_n = np.asarray(vect_n)
-    vect_e = np.asarray(vect_e)
-    vect_z = np.asarray(vect_z)
-    vect_quad = np.asarray(vect_quad)
-    pole_lt = np.asarray(pole_lt)
-    pole_lat = np.asarray(pole_lat)
-    pole_angle = np.asarray(pole_angle)
-    pole_quad = np.asarray(pole_quad)
+    # Ensure the input is array-like and has the same shape, allowing undefined
+    # vertical components for integer input
+    (vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad, pole_lt, pole_lat,
+     pole_angle, pole_quad) = np.broadcast_arrays(
+         vect_lt, vect_lat, vect_n, vect_e, np.asarray(vect_z).astype(float),
+         vect_quad, pole_lt, pole_lat, pole_angle, pole_quad)
 
     # Initialize the output, ensuring it is the same shape
     out_shape = (vect_lt + vect_lat + vect_n + vect_e + vect_z + vect_quad
-- 
2.43.0


From 3fd1b18d98095ae83eed02a65154922e6b1307a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 10/45] fix: normal_coord no longer writes NaN into the
 caller's latitudes

---
 ocbpy/_boundary.py   | 7 ++++++-
 ocbpy/ocb_scaling.py | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index c72db3b..d2db000 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -607,7 +607,8 @@ class OCBoundary(object):
         if np.any(np.sign(aacgm_lat) != self.hemisphere):
             if np.all(np.sign(aacgm_lat) != self.hemisphere):
                 return ocb_lat, ocb_mlt, r_corr
-            aacgm_lat[np.sign(aacgm_lat) != self.hemisphere] = np.nan
+            aacgm_lat = np.where(np.sign(aacgm_lat) == self.hemisphere,
+                                 aacgm_lat, np.nan)
 
         # Calculate the center of the OCB
         phi_cent_rad = np.radians(self.phi_cent[self.rec_ind])
@@ -1429,6 +1430,10 @@ class DualBoundary(object):
                                                            method=method)
         bound_lat = np.array(ocb_lat)
 
+        # Data in the other hemisphere do not fall into a boundary region
+        aacgm_lat = np.where(np.sign(aacgm_lat) == self.hemisphere, aacgm_lat,
+                             np.nan)
+
         if np.isnan(ocb_lat).all():
             if out_shape == ():
                 return bound_lat[0], bound_mlt[0], ocb_lat[0], r_corr[0]
diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 0378157..6d6a2e8 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -703,6 +703,10 @@ class VectorData(object):
         # Get the angle at the data vector appended by the AACGM and OCB poles
         self.calc_vec_pole_angle()
 
+        # The angle is undefined if there are no OCB coordinates
+        self.pole_angle = np.where(np.isnan(self.ocb_lat), np.nan,
+                                   self.pole_angle)
+
         # Set the OCB and Vector quadrants
         if np.any(~np.isnan(self.pole_angle)):
             self.define_quadrants()
-- 
2.43.0


From 49338abe8e6082eb36fb6fffb90e56a8fdbf0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 11/45] fix: get_aacgm_boundary_lat no longer alters the
 caller's MLT

---
 ocbpy/_boundary.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index d2db000..43ad548 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -783,10 +783,8 @@ class OCBoundary(object):
 
         """
 
-        # Ensure the boundary longitudes span from 0-360 degrees
-        aacgm_mlt = np.asarray(aacgm_mlt)
-        aacgm_mlt[aacgm_mlt < 0.0] += 24.0
-        aacgm_mlt[aacgm_mlt >= 24.0] -= 24.0
+        # Ensure the boundary local times span from 0-24 hours
+        aacgm_mlt = ocb_time.fix_range(aacgm_mlt, 0.0, 24.0)
 
         if not hasattr(self, 'aacgm_boundary_mlt'):
             self.aacgm_boundary_mlt = [None for i in range(self.records)]
-- 
2.43.0


From 5b84be18e8a0aacf1cf544348fa604149eb05eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 12/45] fix: DualBoundary index past the end stays past the end
 of both boundaries

---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 43ad548..e210fa6 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1198,7 +1198,7 @@ class DualBoundary(object):
             self.ocb.rec_ind = rec_ind
             self.eab.rec_ind = rec_ind
         elif rec_ind >= self.records:
-            del_ind = self.records - rec_ind
+            del_ind = rec_ind - self.records
             self.ocb.rec_ind = self.ocb.records + del_ind
             self.eab.rec_ind = self.eab.records + del_ind
         else:
-- 
2.43.0


From 3d95efa7fb17592c0ed6a35199ef166f5aef288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 13/45] fix: DualBoundary.revert_coord uses the heights of the
 reverted points

---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index e210fa6..5a74cc5 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1681,7 +1681,8 @@ class DualBoundary(object):
 
                 # Convert from magnetic coordinates to geo coordinates
                 lat[imag], lon, _ = aacgmv2.convert_latlon_arr(
-                    lat[imag], lon, height, self.dtime[self.rec_ind], method)
+                    lat[imag], lon, height[imag], self.dtime[self.rec_ind],
+                    method)
 
                 # Convert from longitude to solar local time
                 lt[imag] = ocb_time.glon2slt(lon, self.dtime[self.rec_ind])
-- 
2.43.0


From 401a3c80e61b7d5c2e808b45bd35f4c6894e40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 14/45] fix: set_good_ind no longer alters the caller's
 selection criteria

---
 ocbpy/_boundary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 5a74cc5..8901b85 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1260,6 +1260,8 @@ class DualBoundary(object):
         # Get the good OCB indices
         if ocb_kwargs is None:
             ocb_kwargs = {}
+        else:
+            ocb_kwargs = dict(ocb_kwargs)
         ocb_kwargs['min_merit'] = ocb_min_merit
         ocb_kwargs['max_merit'] = ocb_max_merit
         good_ocb = cycle_boundary.retrieve_all_good_indices(self.ocb,
@@ -1268,6 +1270,8 @@ class DualBoundary(object):
         # Initialize the EAB good index selection options
         if eab_kwargs is None:
             eab_kwargs = {}
+        else:
+            eab_kwargs = dict(eab_kwargs)
         eab_kwargs['min_merit'] = eab_min_merit
         eab_kwargs['max_merit'] = eab_max_merit
 
-- 
2.43.0


From 6412f3419efcdc471c4e10961243db2f94bc0529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 15/45] fix: DualBoundary without pairs can be cycled past its
 end

---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 8901b85..a273a9c 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1247,6 +1247,7 @@ class DualBoundary(object):
             self.dtime = None
             self.ocb_ind = None
             self.eab_ind = None
+            self.rec_ind = 0
             return
 
         self.dtime = list()
@@ -1315,7 +1316,7 @@ class DualBoundary(object):
     def get_next_good_ind(self):
         """Cycle the boundary attributes to the next good paired index."""
 
-        if self.records > 0 and self.rec_ind < self.records:
+        if self.rec_ind < self.records:
             # Cycle to next boundary
             self.rec_ind += 1
 
-- 
2.43.0


From 483eb29b5efcb1cf4173751199d90273e3124482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 16/45] fix: flag every point outside of the dual-boundary
 regions as undefined

---
 ocbpy/_boundary.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index a273a9c..191e93e 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1463,15 +1463,15 @@ class DualBoundary(object):
 
         # Test to ensure that all points fall into a region
         iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
-        if len(iocb) + len(imid) + len(iout) < len(aacgm_lat):
+        ibad = [i for i in range(len(aacgm_lat)) if i not in iocb
+                and i not in imid and i not in iout]
+        if len(ibad) > 0:
             msg = "not all points fall into a boundary region"
             if np.isnan(ocb_aacgm_boundary).any() or np.isnan(
                     eab_aacgm_boundary).any():
                 msg += ", boundaries are poorly defined"
             logger.warning(msg)
 
-            ibad = [i for i in range(len(aacgm_lat)) if i not in iocb
-                    and i not in imid and i not in iout]
             bound_lat[ibad] = np.nan
 
         if len(imid) > 0:
-- 
2.43.0


From 0caca0702deb142625617a379b19fb31b3d40dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 17/45] fix: scale the rotated components of single vectors

---
 ocbpy/ocb_scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 6d6a2e8..621a69f 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -804,13 +804,13 @@ class VectorData(object):
             if len(self.ocb_n.shape) == 0:
                 self.ocb_n = np.full(
                     shape=self.ocb_n.shape, fill_value=self.scale_func(
-                        self.vect_n, self.unscaled_r, self.scaled_r))
+                        self.ocb_n, self.unscaled_r, self.scaled_r))
                 self.ocb_e = np.full(
                     shape=self.ocb_e.shape, fill_value=self.scale_func(
-                        self.vect_e, self.unscaled_r, self.scaled_r))
+                        self.ocb_e, self.unscaled_r, self.scaled_r))
                 self.ocb_z = np.full(
                     shape=self.ocb_z.shape, fill_value=self.scale_func(
-                        self.vect_z, self.unscaled_r, self.scaled_r))
+                        self.ocb_z, self.unscaled_r, self.scaled_r))
             else:
                 self.ocb_n = self.scale_func(self.ocb_n, self.unscaled_r,
                                              self.scaled_r)
-- 
2.43.0


From a1f177fb7bdc60ec3b21513729f63f58f1757dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 18/45] fix: place the OCB pole of vector data in the
 boundary's hemisphere

---
 ocbpy/ocb_scaling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 621a69f..2206b3c 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -700,6 +700,9 @@ class VectorData(object):
             self.ocb_aacgm_mlt, self.ocb_aacgm_lat = vectors.get_pole_loc(
                 ocb.phi_cent[self.ocb_ind], ocb.r_cent[self.ocb_ind])
 
+        # The OCB pole lies in the hemisphere of the boundary
+        self.ocb_aacgm_lat = ocb.hemisphere * self.ocb_aacgm_lat
+
         # Get the angle at the data vector appended by the AACGM and OCB poles
         self.calc_vec_pole_angle()
 
-- 
2.43.0


From c7f2997978edde312a68f6b1a72fbf1ccf099cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 19/45] fix: convert vectors with the time of their boundary
 record

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 2206b3c..4cda956 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -643,7 +643,7 @@ class VectorData(object):
 
         """
         # Update the data values to be in magnetic coordinates
-        dtime = ocb.dtime[ocb.rec_ind] if self.ocb_ind.shape == () else [
+        dtime = ocb.dtime[self.ocb_ind] if self.ocb_ind.shape == () else [
             ocb.dtime[ind] for ind in self.ocb_ind]
         self.update_vect_coords_to_mag(dtime, ocb.hemisphere)
 
-- 
2.43.0


From 24239e8907330fd6ed457669397e132e8a0f8fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 20/45] fix: use the requested tracing method for all vector
 conversions

---
 ocbpy/ocb_scaling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 4cda956..c07331d 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -645,7 +645,8 @@ class VectorData(object):
         # Update the data values to be in magnetic coordinates
         dtime = ocb.dtime[self.ocb_ind] if self.ocb_ind.shape == () else [
             ocb.dtime[ind] for ind in self.ocb_ind]
-        self.update_vect_coords_to_mag(dtime, ocb.hemisphere)
+        self.update_vect_coords_to_mag(dtime, ocb.hemisphere,
+                                       trace_method=trace_method)
 
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
@@ -671,7 +672,8 @@ class VectorData(object):
                     if self.ocb_ind.shape == self.dat_ind.shape:
                         out_coord = ocb.normal_coord(self.lat[i], self.lt[i],
                                                      coords=self.loc_coord,
-                                                     height=self.height[i])
+                                                     height=self.height[i],
+                                                     method=trace_method)
                     else:
                         out_coord = ocb.normal_coord(self.lat, self.lt,
                                                      coords=self.loc_coord,
-- 
2.43.0


From 64bdf1fc79a244313bec0fa28c8c7d3744340acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 21/45] Revert "fix: place the OCB pole of vector data in the
 boundary's hemisphere"

This reverts commit a1f177fb7bdc60ec3b21513729f63f58f1757dce.
---
 ocbpy/ocb_scaling.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index c07331d..10b053e 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -702,9 +702,6 @@ class VectorData(object):
             self.ocb_aacgm_mlt, self.ocb_aacgm_lat = vectors.get_pole_loc(
                 ocb.phi_cent[self.ocb_ind], ocb.r_cent[self.ocb_ind])
 
-        # The OCB pole lies in the hemisphere of the boundary
-        self.ocb_aacgm_lat = ocb.hemisphere * self.ocb_aacgm_lat
-
         # Get the angle at the data vector appended by the AACGM and OCB poles
         self.calc_vec_pole_angle()
 
-- 
2.43.0


From 1d4e72591604a7b1177b2c03794c02b8c7652f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 22/45] fix: allow magnetic vectors with geographic locations
 when setting the boundary

---
 ocbpy/ocb_scaling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 10b053e..e939d03 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -648,6 +648,9 @@ class VectorData(object):
         self.update_vect_coords_to_mag(dtime, ocb.hemisphere,
                                        trace_method=trace_method)
 
+        # Magnetic vectors may have geographic locations
+        self.update_loc_coords(dtime, trace_method=trace_method)
+
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
         if(np.all(np.isnan(self.ocb_lat)) or np.all(np.isnan(self.ocb_mlt))
-- 
2.43.0


From 1b3bbe7d086343a646b7b2cb02d04f4cd3f9fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:55 +0000
Subject: [PATCH 23/45] fix: allow arrays of geographic vectors with a single
 boundary

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index e939d03..ff647ea 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1081,7 +1081,7 @@ class VectorData(object):
                     mag_pole_slt.append(ocb_time.glon2slt(out[1], val))
                     mag_pole_glat.append(out[0])
             else:
-                mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon(
+                mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon_arr(
                     hemisphere * 90.0, 0.0, self.height, dtime,
                     method_code='|'.join(methods))
                 mag_pole_slt = ocb_time.glon2slt(mag_pole_lon, dtime)
-- 
2.43.0


From e91a7f4cd8e3795787ef7ae6e72a4177f42dd529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:43 +0000
Subject: [PATCH 24/45] fix: allow one geographic location with several
 boundaries

---
 ocbpy/ocb_scaling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index ff647ea..85490e2 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -671,16 +671,18 @@ class VectorData(object):
                 # Cycle through the boundary indices
                 for i, ocb.rec_ind in enumerate(self.ocb_ind):
                     # Handle time different, depending on the OCB and
-                    # data shapes. Calcualte the coordinates and save the output
-                    if self.ocb_ind.shape == self.dat_ind.shape:
+                    # location shapes. Calcualte the coordinates and save the output
+                    height = self.height if self.height.shape == () \
+                        else self.height[i]
+                    if self.ocb_ind.shape == self.lat.shape:
                         out_coord = ocb.normal_coord(self.lat[i], self.lt[i],
                                                      coords=self.loc_coord,
-                                                     height=self.height[i],
+                                                     height=height,
                                                      method=trace_method)
                     else:
                         out_coord = ocb.normal_coord(self.lat, self.lt,
                                                      coords=self.loc_coord,
-                                                     height=self.height,
+                                                     height=height,
                                                      method=trace_method)
                     self._assign_normal_coord_output(out_coord, i)
 
-- 
2.43.0


From 32ac2bf4d0cafaf752687621ac100441f6dec96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 25/45] fix: rotate geographic vectors about their geographic
 location

update_vect_coords_to_mag handed the magnetic location to adjust_vector, along
with the geographic location of the magnetic pole, although the routine takes
both in the coordinates of the vector.
---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 85490e2..afb482a 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1105,7 +1105,7 @@ class VectorData(object):
 
             # Adjust the geographic vector to AACGM coordinates
             mag_n, mag_e, mag_z = vectors.adjust_vector(
-                mag_lt, mag_lat, self.vect_n, self.vect_e, self.vect_z,
+                geo_lt, geo_lat, self.vect_n, self.vect_e, self.vect_z,
                 vect_quad, mag_pole_slt, mag_pole_glat, pole_angle, pole_quad)
 
             # Assign the new vector data and coordinate specification
-- 
2.43.0


From 1c58af23f5dc8ca3775a5a461881aaca9ca6e6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 26/45] fix: load boundary files with a single record

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 191e93e..ef64f1e 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -369,8 +369,8 @@ class OCBoundary(object):
             return
 
         # Read the OCB data
-        odata = np.rec.array(np.genfromtxt(self.filename, skip_header=hlines,
-                                           dtype=ldtype))
+        odata = np.rec.array(np.atleast_1d(np.genfromtxt(
+            self.filename, skip_header=hlines, dtype=ldtype)))
         oname = list(odata.dtype.names)
 
         # Load the data into the OCBoundary object
-- 
2.43.0


From fd437f284a044d4f97342a5596377d8ae4b9f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 27/45] fix: initialise EABoundary with every documented
 instrument

The IMAGE FUV instruments and upper case names raised "unknown instrument",
although they are documented and accepted by OCBoundary.
---
 ocbpy/_boundary.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index ef64f1e..2925210 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -958,11 +958,13 @@ class EABoundary(OCBoundary):
 
         """
 
-        if input_instrument in ["", "default", "image", "dmsp-ssj", "ampere"]:
-            self.rfunc = ocbcor.circular
-        elif not hasattr(input_instrument, "lower"):
+        if not hasattr(input_instrument, "lower"):
             # Allow an empty class object to be initialised
             self.rfunc = None
+        elif input_instrument.lower() in ["", "default", "image", "si12",
+                                          "si13", "wic", "dmsp-ssj", "amp",
+                                          "ampere"]:
+            self.rfunc = ocbcor.circular
         else:
             # Only raise an error if the input instrument is a string
             raise ValueError("unknown instrument")
-- 
2.43.0


From ee049a3157319aeb8c78435ae52fb934b15758dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 28/45] fix: process data without any boundary close in time

The record matching returns None in this case, which raised a TypeError.
---
 ocbpy/instruments/pysat_instruments.py | 4 ++++
 ocbpy/instruments/supermag.py          | 4 ++++
 ocbpy/instruments/vort.py              | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 1c139f8..4b54058 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -438,6 +438,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                     min_merit=min_merit, max_merit=max_merit,
                                     **kwargs)
 
+        if idat is None:
+            # There are no boundaries close to any of the data
+            break
+
         if idat < ndat and ocb.rec_ind < ocb.records:
             time_ind = np.where(dat_ind[0] == uind[idat])[0]
 
diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 19beee6..7eac6d1 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -154,6 +154,10 @@ def supermag2ascii_ocb(smagfile, outfile, hemisphere=0, ocb=None,
                                         max_tol=max_sdiff, min_merit=min_merit,
                                         max_merit=max_merit, **kwargs)
 
+            if imag is None:
+                # There are no boundaries close to any of the data
+                break
+
             if imag < nmag and ocb.rec_ind < ocb.records:
                 # Get all of the points for this time pairing
                 itime = np.where(mdata['DATETIME'] == mdata['DATETIME'][imag])
diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index 3ce7cf7..c71cca2 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -178,6 +178,10 @@ def vort2ascii_ocb(vortfile, outfile, hemisphere=0, ocb=None,
                                          max_tol=max_sdiff, min_merit=min_merit,
                                          max_merit=max_merit, **kwargs)
 
+            if ivort is None:
+                # There are no boundaries close to any of the data
+                break
+
             if ivort < num_vort and ocb.rec_ind < ocb.records:
                 # Use the indexed OCB to convert the AACGM grid coordinate to
                 # one related to the OCB
-- 
2.43.0


From d433b1b853ea2b9852a74bb4e4fd5368307aed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 29/45] fix: accept a single height for pysat data

---
 ocbpy/instruments/pysat_instruments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 4b54058..8fc047e 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -392,6 +392,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     else:
         ocb_coords = [pysat_inst.index.name]
 
+    # A single height applies to all of the data
+    if len(height.shape) == 0:
+        height = np.full(shape=lat.shape, fill_value=height)
+
     # See if the data has more dimensions than the OCB coordinates
     if len(dat_coords) > len(ocb_coords):
         combo_shape = list(lat.shape)
-- 
2.43.0


From 76e3f52e6d5432e9fb062b8ef3942b0492772645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 30/45] fix: recognise the boundary type at the start of a file
 name

The documented values 'ocb' (the default) and 'eab' raised a ValueError.
---
 ocbpy/instruments/pysat_instruments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 8fc047e..0b90ab7 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -195,11 +195,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
             if ocbfile.lower() in ['eab', 'ocb', 'dual']:
                 ocbfile = "default"
 
-        if fileroot.find("ocb") > 0 and fileroot.find("eab") < 0:
+        if fileroot.find("ocb") >= 0 and fileroot.find("eab") < 0:
             # Initialize the OCBoundary object
             ocb = ocbpy.OCBoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-        elif fileroot.find("ocb") < 0 and fileroot.find("eab") > 0:
+        elif fileroot.find("ocb") < 0 and fileroot.find("eab") >= 0:
             # Initialize the EABoundary object
             ocb = ocbpy.EABoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-- 
2.43.0


From 4bee6350021e0f9898c29f28657d0919b4336be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 31/45] fix: initialise each pysat vector on its own

Components that a vector does not have were taken from the previous vector.
---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 0b90ab7..1d7eda6 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -492,10 +492,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                   "loc_coord": loc_coord,
                                   "vect_coord": vect_coord,
                                   "height": height[iout]}
-                vector_init = dict(vector_default)
                 vshape = list()
 
                 for eattr in vector_names.keys():
+                    vector_init = dict(vector_default)
                     oattr = "{:s}_{:s}".format(eattr, bname)
                     for ikey in vector_names[eattr].keys():
                         # Not all vector names are DataFrame names
-- 
2.43.0


From fbb68417f4a25dd6e5f1d7eb22b84098ba13aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 32/45] fix: keep the names handed over to add_ocb_to_data as
 they are

---
 ocbpy/instruments/pysat_instruments.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 1d7eda6..acfff35 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -129,14 +129,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
 
     """
     # Test the input
-    if evar_names is None:
-        evar_names = []
-
-    if curl_evar_names is None:
-        curl_evar_names = []
-
-    if vector_names is None:
-        vector_names = {}
+    evar_names = [] if evar_names is None else list(evar_names)
+    curl_evar_names = [] if curl_evar_names is None else list(curl_evar_names)
+    vector_names = {} if vector_names is None else {
+        vkey: dict(vector_names[vkey]) for vkey in vector_names.keys()}
 
     if not isinstance(pysat_inst, pysat.Instrument):
         raise ValueError('unknown class, expected pysat.Instrument')
-- 
2.43.0


From 16f32811c2cf5897976e86f1faa975b885420ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 33/45] fix: keep the second named by the hours of vorticity
 files

Rounding errors in the product could place a whole second just below itself, so
that taking the floor gave the previous second.
---
 ocbpy/instruments/vort.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index c71cca2..b6cc84c 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -297,7 +297,8 @@ def load_vorticity_ascii_data(vortfile, save_all=False):
                 # Calculate and save the datetime
                 stime = " ".join(vsplit)
                 dtime = (dt.datetime.strptime(stime, "%Y %m %d")
-                         + dt.timedelta(seconds=np.floor(hh * 3600.0)))
+                         + dt.timedelta(seconds=np.floor(np.round(hh * 3600.0,
+                                                                  3))))
                 vinc += 1
 
                 # Move to next line
-- 
2.43.0


From 4d9d90bbe436790d7d1dc24d49a1bc7b305e3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 34/45] fix: select one of several files of a custom instrument

The list of default instruments does not contain it, so that the search for its
rank raised a ValueError.
---
 ocbpy/boundaries/files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index cbb3ce6..e13fc64 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -194,8 +194,9 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
     else:
         # Rate files by instrument
         default_inst = ['image', 'amp', 'si13', 'si12', 'wic', 'dmsp-ssj']
-        ordered_files = {default_inst.index(boundary_files[bb]['instrument']):
-                         bb for bb in good_files}
+        ordered_files = {default_inst.index(boundary_files[bb]['instrument'])
+                         if boundary_files[bb]['instrument'] in default_inst
+                         else len(default_inst): bb for bb in good_files}
         bfile = ordered_files[min(ordered_files.keys())]
         default_file = os.path.join(boundary_dir, bfile)
         if boundary_files[bfile]['instrument'] in short_to_long.keys():
-- 
2.43.0


From 30618eb26c96ffd420da9677f9d54cf11c2d18ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 35/45] fix: leave the lists handed over to load_ascii_data as
 they are

---
 ocbpy/instruments/general.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 5afe141..4e48868 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -108,12 +108,18 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
 
     if int_cols is None:
         int_cols = list()
+    else:
+        # The input is extended below, and so is copied
+        int_cols = list(int_cols)
 
     if str_cols is None:
         str_cols = list()
 
     if header is None:
         header = list()
+    else:
+        # The output extends the input, and so is a copy
+        header = list(header)
 
     # Test to ensure the file is small enough to read in.  Python can only
     # allocate 2GB of data.  If you load something larger, python will crash
-- 
2.43.0


From ef371f4e52dc9d43802042240fcb624d1e41c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 36/45] fix: load ASCII files with a single row of data

The columns of the row were taken for rows.
---
 ocbpy/instruments/general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 4e48868..bea2d95 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -201,6 +201,10 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     # Open the datafile and read the data rows
     temp = np.genfromtxt(filename, skip_header=hlines, dtype=str, **gft_kwargs)
 
+    if temp.ndim < 2 and nhead in [1, temp.size]:
+        # A single data row or column loses its second dimension
+        temp = temp.reshape((-1, nhead))
+
     if len(temp) > 0:
         # When dtype is specified, output comes as a void np.array
         #
-- 
2.43.0


From a79d18b26279e1cd354a16666cd81b7eecc34507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 37/45] fix: format DMSP SSJ files with a single pass

---
 ocbpy/boundaries/dmsp_ssj_files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 1f58bc4..de6136b 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -352,8 +352,9 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
             header_list = head_line.split("\n")[0].split(",")
 
             # Load the file data
-            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',')
-            if len(data.shape) != 2 or data.shape[1] != len(header_list):
+            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',',
+                              ndmin=2)
+            if data.size == 0 or data.shape[1] != len(header_list):
                 bad_files.append(infile)
             else:
                 # Establish the desired data indices
-- 
2.43.0


From ceeef4b0f6344d6aac947ea0f7d9d559483de216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 38/45] fix: keep the output directory of DMSP SSJ files when
 its name contains -f

---
 ocbpy/boundaries/dmsp_ssj_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index de6136b..6b916a6 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -306,7 +306,8 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
     out_head = "#sc date time r x y fom x_1 y_1 x_2 y_2\n"
 
     # Specify the output file information
-    outfile_prefix = os.path.commonprefix(list(csv_files)).split('-f')[0]
+    out_path, out_name = os.path.split(os.path.commonprefix(list(csv_files)))
+    outfile_prefix = os.path.join(out_path, out_name.split('-f')[0])
     filename_sec = os.path.split(
         csv_files[0])[-1].split('dmsp-f')[-1].split('_')
     sdate = filename_sec[3]
-- 
2.43.0


From 014f93271ca2a18c2442f17aafa4f5675a4a87fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:26 +0000
Subject: [PATCH 39/45] fix: satellite track for single locations and the other
 hemisphere

A single location along the track raised a ValueError, and locations of the
other hemisphere were compared with the lower limit without their sign.
---
 ocbpy/cycle_boundary.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 34eb1df..d23ab13 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -299,24 +299,13 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
     good = (y_in >= y_low) & (y_in <= y_high)
 
     # Ensure the latitude is not too low
-    if np.any(good):
-        r1 = np.sqrt((x1 - x_in)**2 + (y1 - y_in)**2)
-        r2 = np.sqrt((x2 - x_in)**2 + (y2 - y_in)**2)
-
-        # Find which boundary is closest to the good points
-        ione = np.where(good & (r1 <= r2))
-        itwo = np.where(good & (r2 < r1))
-
-        # Evaluate the closest lower boundary limit
-        if len(lat[ione]) > 0:
-            lat_bound = 90.0 - np.sqrt(x1**2 + y1**2) - past_bound
-            ipast = np.where(abs(lat[ione]) < lat_bound)
-            good[ione[0][ipast]] = False
-
-        if len(lat[itwo]) > 0:
-            lat_bound = 90.0 - np.sqrt(x2**2 + y2**2) - past_bound
-            ipast = np.where(abs(lat[itwo]) < lat_bound)
-            good[itwo[0][ipast]] = False
+    r1 = np.sqrt((x1 - x_in)**2 + (y1 - y_in)**2)
+    r2 = np.sqrt((x2 - x_in)**2 + (y2 - y_in)**2)
+
+    # Evaluate the lower limit of the closest boundary
+    lat_bound = np.where(r1 <= r2, 90.0 - np.sqrt(x1**2 + y1**2),
+                         90.0 - np.sqrt(x2**2 + y2**2)) - past_bound
+    good = good & (hemisphere * lat >= lat_bound)
 
     # Return the boolean mask
     return good
-- 
2.43.0


From cb2fe57fa04c8ca6f0b66951b3572672f51a62a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 40/45] fix: read the year and seconds of year from their own
 columns

Columns at the positions of the format parts were taken for integers, wherever
the time columns were.
---
 ocbpy/instruments/general.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index bea2d95..5039b0f 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -137,14 +137,14 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
         if max_str_length < dt_str_len:
             max_str_length = dt_str_len
 
-        if datetime_fmt.upper().find("YEAR") >= 0:
+        if len(datetime_cols) > 0 and datetime_fmt.upper().find("YEAR") >= 0:
             ipart = datetime_fmt.upper().find("YEAR")
             case_part = datetime_fmt[ipart:ipart + 4]
-            int_cols.append(dfmt_parts.index(case_part))
-        if datetime_fmt.upper().find("SOY") >= 0:
+            int_cols.append(datetime_cols[dfmt_parts.index(case_part)])
+        if len(datetime_cols) > 0 and datetime_fmt.upper().find("SOY") >= 0:
             ipart = datetime_fmt.upper().find("SOY")
             case_part = datetime_fmt[ipart:ipart + 3]
-            int_cols.append(dfmt_parts.index(case_part))
+            int_cols.append(datetime_cols[dfmt_parts.index(case_part)])
 
     # Open the data file and read the header rows
     with open(filename, "r") as fin:
-- 
2.43.0


From 5a94cc2cef9490eb6a02bf63e7898fb3bae203d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 41/45] fix: select the boundary record by number when scaling
 vectors

A single vector left the zero-dimensional array of its boundary index as
the selected record.  Advancing the boundary afterwards changed that array
in place, so that the next match started from the wrong record.
---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index afb482a..fb983e8 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -659,7 +659,7 @@ class VectorData(object):
             # dependent, we can't call this function with multiple OCB/EABs
             if self.ocb_ind.shape == ():
                 # Initialise the boundary index
-                ocb.rec_ind = self.ocb_ind
+                ocb.rec_ind = int(self.ocb_ind)
 
                 # Calculate the coordinates and save the output
                 out_coord = ocb.normal_coord(self.lat, self.lt,
-- 
2.43.0


From c5e139b46de31dc1bf6e155b0deff0ff9d121b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 42/45] fix: label two-dimensional pysat output with the
 dimensions of the location

---
 ocbpy/instruments/pysat_instruments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index acfff35..3b8d520 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -385,8 +385,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
             else:
                 # Can't reshape the height
                 raise ValueError('unexpected height shape')
-    else:
+    elif pysat_inst.pandas_format:
         ocb_coords = [pysat_inst.index.name]
+    else:
+        ocb_coords = list(pysat_inst[mlat_name].dims)
 
     # A single height applies to all of the data
     if len(height.shape) == 0:
-- 
2.43.0


From 1efc0678d00613ee943b596335d3c1e4cfb69c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 43/45] fix: initialise the radii of vectors that cannot be
 located

Processing pysat data raised AttributeError when none of the data of a time
had boundary coordinates.
---
 ocbpy/ocb_scaling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index fb983e8..b96fe21 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -617,6 +617,10 @@ class VectorData(object):
         self.ocb_z = np.full(shape=self.vshape, fill_value=np.nan)
         self.ocb_mag = np.full(shape=self.vshape, fill_value=np.nan)
 
+        # Assign the default radii
+        self.unscaled_r = np.full(shape=self.vshape, fill_value=np.nan)
+        self.scaled_r = np.full(shape=self.vshape, fill_value=np.nan)
+
         # Assign the default pole locations, relative angles, and quadrants
         self.ocb_quad = np.zeros(shape=self.vshape)
         self.vec_quad = np.zeros(shape=self.vshape)
-- 
2.43.0


From 064fb997f923fa608a9ce509e3c818148f2ab96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 44/45] fix: leave northern xarray data out when processing the
 southern hemisphere

---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 3b8d520..7f8a920 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -322,7 +322,7 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         combo_shape = [pysat_inst.index.shape[0]]
     else:
         nan_inst = pysat_inst.data.where(np.sign(pysat_inst.data[mlat_name])
-                                         >= hemisphere)
+                                         == hemisphere)
         finite_mask = np.isfinite(nan_inst[pysat_names].to_array().max(
             'variable'))
         dat_coords = [coord for coord in pysat_inst[pysat_names].coords.keys()]
-- 
2.43.0


From 1afb5987cefda4f4a17d7346eff152fcaf87e6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:17 +0000
Subject: [PATCH 45/45] fix: undefined geographic vectors give undefined
 components

Updating geographic vectors to magnetic coordinates raised an
UnboundLocalError when no angle to the pole could be calculated, as for one
location without latitude and one without local time.
---
 ocbpy/ocb_scaling.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index b96fe21..b521396 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1100,17 +1100,24 @@ class VectorData(object):
             pole_angle = vectors.calc_vec_pole_angle(
                 geo_lt, geo_lat, mag_pole_slt, mag_pole_glat)
 
-            # Set the pole and vector quadrants
             if np.any(~np.isnan(pole_angle)):
+                # Set the pole and vector quadrants
                 pole_quad = vectors.define_pole_quadrants(geo_lt, mag_pole_slt,
                                                           pole_angle)
                 vect_quad = vectors.define_vect_quadrants(self.vect_n,
                                                           self.vect_e)
 
-            # Adjust the geographic vector to AACGM coordinates
-            mag_n, mag_e, mag_z = vectors.adjust_vector(
-                geo_lt, geo_lat, self.vect_n, self.vect_e, self.vect_z,
-                vect_quad, mag_pole_slt, mag_pole_glat, pole_angle, pole_quad)
+                # Adjust the geographic vector to AACGM coordinates
+                mag_n, mag_e, mag_z = vectors.adjust_vector(
+                    geo_lt, geo_lat, self.vect_n, self.vect_e, self.vect_z,
+                    vect_quad, mag_pole_slt, mag_pole_glat, pole_angle,
+                    pole_quad)
+            else:
+                # The vectors are undefined if all of the angles are undefined
+                mag_n = np.full(shape=(self.vect_n + pole_angle).shape,
+                                fill_value=np.nan)
+                mag_e = np.array(mag_n)
+                mag_z = np.array(mag_n)
 
             # Assign the new vector data and coordinate specification
             self.vect_n = np.asarray(mag_n)
-- 
2.43.0

