From 4a712375e80605a9f0a27e35d117503ab394bb76 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 01/79] fix: keep cyclic values in range without altering or
 hanging on the input

Values a rounding error below the minimum were returned equal to the maximum, the caller's array was modified, integer input raised a casting error, and very large (or infinite) values never returned.
---
 ocbpy/ocb_time.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index db915b2..b05ab65 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -417,8 +417,8 @@ def fix_range(values, min_val, max_val, val_range=None):
 
     """
 
-    # Cast output as array-like
-    fixed_vals = np.asarray(values)
+    # Cast output as array-like, without altering the input
+    fixed_vals = np.array(values, dtype=float)
 
     # Test input to ensure the maximum is greater than the minimum
     if min_val >= max_val:
@@ -434,19 +434,18 @@ def fix_range(values, min_val, max_val, val_range=None):
 
     # Fix the values, allowing for deviations that are multiples of the
     # value range.  Also propagate NaNs
-    ibad = (np.greater_equal(fixed_vals, max_val, where=~np.isnan(fixed_vals))
-            & ~np.isnan(fixed_vals))
-    while np.any(ibad):
+    ibad = fixed_vals >= max_val
+    if np.any(ibad):
+        fixed_vals[ibad] = np.mod(fixed_vals[ibad] - max_val,
+                                  val_range) + max_val - val_range
+
+    ibad = fixed_vals < min_val
+    if np.any(ibad):
+        fixed_vals[ibad] = np.mod(fixed_vals[ibad] - min_val,
+                                  val_range) + min_val
+
+        # Values just below the minimum may be rounded up to the maximum
+        ibad &= (fixed_vals >= max_val)
         fixed_vals[ibad] -= val_range
-        ibad = (np.greater_equal(fixed_vals, max_val,
-                                 where=~np.isnan(fixed_vals))
-                & ~np.isnan(fixed_vals))
-
-    ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
-            & ~np.isnan(fixed_vals))
-    while np.any(ibad):
-        fixed_vals[ibad] += val_range
-        ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
-                & ~np.isnan(fixed_vals))
 
     return fixed_vals
-- 
2.43.0


From bfdb25e9fc51b19b57031a12c2357c7553939e1d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 02/79] fix: do not alter the input latitudes when normalising
 locations

Locations in the other hemisphere were set to NaN in the caller's array, and integer latitudes from both hemispheres raised a ValueError.
---
 ocbpy/_boundary.py   | 9 +++++++--
 ocbpy/ocb_scaling.py | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index c72db3b..0543619 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -600,7 +600,9 @@ class OCBoundary(object):
             aacgm_lat, _, aacgm_mlt = aacgmv2.get_aacgm_coord_arr(
                 lat, lon, height, self.dtime[self.rec_ind], method)
         else:
-            aacgm_lat = lat
+            # Copy the latitude, as locations outside of the hemisphere are
+            # masked below
+            aacgm_lat = np.array(lat, dtype=float)
             aacgm_mlt = lt
 
         # Ensure the correct hemisphere is loaded for this data
@@ -1419,9 +1421,12 @@ class DualBoundary(object):
             aacgm_lat, _, aacgm_mlt = aacgmv2.get_aacgm_coord_arr(
                 lat, lon, height, self.dtime[self.rec_ind], method)
         else:
-            aacgm_lat = np.array(lat)
+            aacgm_lat = np.array(lat, dtype=float)
             aacgm_mlt = np.array(lt)
 
+        # Mask locations outside of the boundary hemisphere
+        aacgm_lat[np.sign(aacgm_lat) != self.hemisphere] = np.nan
+
         # Calculate the coordinates relative to the OCB
         ocb_lat, bound_mlt, r_corr = self.ocb.normal_coord(aacgm_lat, aacgm_mlt,
                                                            coords='magnetic',
diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 0378157..be7ad41 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -703,6 +703,10 @@ class VectorData(object):
         # Get the angle at the data vector appended by the AACGM and OCB poles
         self.calc_vec_pole_angle()
 
+        # There is no pole angle for data outside of the boundary hemisphere
+        self.pole_angle = np.where(np.sign(self.lat) == ocb.hemisphere,
+                                   self.pole_angle, np.nan)
+
         # Set the OCB and Vector quadrants
         if np.any(~np.isnan(self.pole_angle)):
             self.define_quadrants()
-- 
2.43.0


From 0c657c8c335d0ba3ef965a7babe48617b0f6280f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 03/79] fix: do not alter or keep a reference to the input
 boundary MLT

The MLT were wrapped in the caller's array, which was also stored, and integer arrays raised a casting error.
---
 ocbpy/_boundary.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 0543619..b556d3d 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -784,10 +784,9 @@ class OCBoundary(object):
 
         """
 
-        # Ensure the boundary longitudes span from 0-360 degrees
-        aacgm_mlt = np.asarray(aacgm_mlt)
-        aacgm_mlt[aacgm_mlt < 0.0] += 24.0
-        aacgm_mlt[aacgm_mlt >= 24.0] -= 24.0
+        # Ensure the boundary local times span from 0-24 hours, without altering
+        # or storing a reference to the input
+        aacgm_mlt = ocb_time.fix_range(aacgm_mlt, 0.0, 24.0)
 
         if not hasattr(self, 'aacgm_boundary_mlt'):
             self.aacgm_boundary_mlt = [None for i in range(self.records)]
-- 
2.43.0


From ce66e532891b918b75f4f4433289d1c781aeb3ab Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 04/79] fix: carry rounded seconds when converting seconds of
 year

Seconds of year that round up to a full minute (e.g., 59.7) raised a ValueError.
---
 ocbpy/ocb_time.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index b05ab65..efa8f76 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -66,24 +66,9 @@ def year_soy_to_datetime(yyyy, soy):
 
     """
 
-    # Calcuate doy, hour, min, seconds of day
-    ss = soy / 86400.0
-    ddd = np.floor(ss)
-
-    ss = (soy - ddd * 86400.0) / 3600.0
-    hh = np.floor(ss)
-
-    ss = (soy - ddd * 86400.0 - hh * 3600.0) / 60.0
-    mm = np.floor(ss)
-
-    ss = soy - ddd * 86400.0 - hh * 3600.0 - mm * 60.0
-
-    # Define format
-    stime = "{:d}-{:.0f}-{:.0f}-{:.0f}-{:.0f}".format(yyyy, ddd + 1, hh, mm,
-                                                      ss)
-
-    # Convert to datetime
-    dtime = dt.datetime.strptime(stime, "%Y-%j-%H-%M-%S")
+    # Convert to datetime, rounding to the nearest second before the time is
+    # divided into units
+    dtime = dt.datetime(yyyy, 1, 1) + dt.timedelta(seconds=float(np.round(soy)))
 
     return dtime
 
-- 
2.43.0


From 35657e8f1c7299c2ed44915f96368ece7a8d79f0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 05/79] fix: keep the vertical component of purely vertical
 vectors

Rotating a vector with no horizontal magnitude set the vertical component to zero.
---
 ocbpy/vectors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index d176eb7..62afdb8 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -582,16 +582,16 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     ns_mask = (pole_angle == 0.0) | (pole_angle == 180.0)
     norm_mask = ~(zero_mask + ns_mask)
 
-    # There's nothing to adjust if there is no magnitude
+    # There's nothing to adjust if there is no horizontal magnitude
     if np.any(zero_mask):
         if len(out_shape) == 0:
             dest_n = 0.0
             dest_e = 0.0
-            dest_z = 0.0
+            dest_z = float(vect_z)
         else:
             dest_n[zero_mask] = 0.0
             dest_e[zero_mask] = 0.0
-            dest_z[zero_mask] = 0.0
+            dest_z[zero_mask] = np.broadcast_to(vect_z, out_shape)[zero_mask]
 
     # The measurement is aligned with the base and destination poles
     if np.any(ns_mask):
-- 
2.43.0


From d55467e9cf3d7cfa93bc28f70c10746b16b62e1e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 06/79] fix: reverse vectors that lie between the two poles

A measurement on the meridian of the boundary centre and poleward of it was left unrotated, although the direction to the pole is reversed there.
---
 ocbpy/vectors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 62afdb8..d0d0f1d 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -620,6 +620,10 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
         sign_mask = (pole_angle == 0.0) & np.greater_equal(
             vect_lat, pole_lat, where=~np.isnan(vect_lat)) & ~np.isnan(vect_lat)
 
+        # Measurements between the poles also change sign
+        sign_mask = sign_mask | ((pole_angle == 180.0)
+                                 & (ocb_time.hr2rad(pole_lt - vect_lt) == 0.0))
+
         if np.any(sign_mask):
             if len(out_shape) == 0:
                 dest_n *= -1.0
-- 
2.43.0


From f5588b3302e2c5f1ad6556c4f63544d725e676a6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 07/79] fix: keep the output shape when one vector is rotated
 for many boundaries

A scalar vector rotated for several boundary centres lost the elements that were aligned with the poles.
---
 ocbpy/vectors.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index d0d0f1d..c23f8f7 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -697,13 +697,11 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
                     vsigns['east'] * vmag * np.sin(dest_naz_angle)))
                 dest_z = np.full(shape=out_shape, fill_value=vz)
             else:
-                nval = vsigns['north'][norm_mask] * vmag * np.cos(
+                dest_n[norm_mask] = vsigns['north'][norm_mask] * vmag * np.cos(
                     dest_naz_angle)[norm_mask]
-                dest_n = np.full(shape=nval.shape, fill_value=nval)
-                dest_e = np.full(shape=nval.shape, fill_value=(
-                    vsigns['east'][norm_mask] * vmag * np.sin(
-                        dest_naz_angle)[norm_mask]))
-                dest_z = np.full(shape=nval.shape, fill_value=vz)
+                dest_e[norm_mask] = vsigns['east'][norm_mask] * vmag * np.sin(
+                    dest_naz_angle)[norm_mask]
+                dest_z[norm_mask] = vz
         else:
             dest_n[norm_mask] = vsigns['north'][norm_mask] * vmag * np.cos(
                 dest_naz_angle)[norm_mask]
-- 
2.43.0


From 6336f28d28d6d984ad36d09a9b269df660ebeef9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 08/79] fix: avoid undefined pole angles for nearly aligned
 locations

---
 ocbpy/vectors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index c23f8f7..d568524 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -128,10 +128,12 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
         + np.cos(np.radians(data_lat)) * np.cos(np.radians(pole_lat))
         * np.cos(del_long))
 
-    # Use the half-angle formula to get the pole angle
+    # Use the half-angle formula to get the pole angle,
     sum_sides = 0.5 * (del_vect + del_dest + del_pole)
-    half_angle = np.sqrt(np.sin(sum_sides) * np.sin(sum_sides - del_pole)
-                         / (np.sin(del_vect) * np.sin(del_dest)))
+    # after ensuring rounding errors do not exceed the function domains
+    half_angle = np.sqrt(np.clip(np.sin(sum_sides) * np.sin(sum_sides - del_pole)
+                                 / (np.sin(del_vect) * np.sin(del_dest)),
+                                 0.0, 1.0))
 
     if pole_angle.shape == ():
         pole_angle = np.degrees(2.0 * np.arccos(half_angle))
-- 
2.43.0


From 74c5cbbaeed66c0dc8ac85411e44b366796e1bd2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 09/79] fix: select locations along satellite tracks parallel
 to the y-axis

The undefined slope of these tracks raised a ZeroDivisionError.
---
 ocbpy/cycle_boundary.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 34eb1df..d084ecb 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -283,7 +283,8 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
     mlt = np.asarray(mlt)
 
     # Get the equation of the line defining the upper and lower bounds
-    slope = (y1 - y2) / (x1 - x2)
+    is_vertical = (x1 == x2)
+    slope = 0.0 if is_vertical else (y1 - y2) / (x1 - x2)
     high_int = y1 + del_y - slope * (x1 + del_x)
     low_int = y1 - del_y - slope * (x1 - del_x)
 
@@ -292,11 +293,15 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
     x_in = (90.0 - hemisphere * lat) * np.cos(rad_in)
     y_in = (90.0 - hemisphere * lat) * np.sin(rad_in)
 
-    # Calculate the upper and lower limits for each of the x-inputs
-    y_low = slope * x_in + low_int
-    y_high = slope * x_in + high_int
+    if is_vertical:
+        # The track is parallel to the y-axis
+        good = abs(x_in - x1) <= del_x
+    else:
+        # Calculate the upper and lower limits for each of the x-inputs
+        y_low = slope * x_in + low_int
+        y_high = slope * x_in + high_int
 
-    good = (y_in >= y_low) & (y_in <= y_high)
+        good = (y_in >= y_low) & (y_in <= y_high)
 
     # Ensure the latitude is not too low
     if np.any(good):
-- 
2.43.0


From 9badbb92e9b4ed099587a6d2d63f66ac2087e844 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 10/79] fix: load boundary files that contain a single record

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index b556d3d..a639a6f 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -369,8 +369,8 @@ class OCBoundary(object):
             return
 
         # Read the OCB data
-        odata = np.rec.array(np.genfromtxt(self.filename, skip_header=hlines,
-                                           dtype=ldtype))
+        odata = np.rec.array(np.atleast_1d(
+            np.genfromtxt(self.filename, skip_header=hlines, dtype=ldtype)))
         oname = list(odata.dtype.names)
 
         # Load the data into the OCBoundary object
-- 
2.43.0


From 3711d99a3dd22be0a2b4f3649f89e1a7a3265abb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 11/79] fix: represent boundary objects that have no records in
 the time range

---
 ocbpy/_boundary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index a639a6f..8684cda 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -197,8 +197,9 @@ class OCBoundary(object):
         class_name = repr(self.__class__).split("'")[1]
 
         # Get the start and end times
-        stime = None if self.dtime is None else self.dtime[0]
-        etime = None if self.dtime is None else self.dtime[-1]
+        has_times = self.dtime is not None and len(self.dtime) > 0
+        stime = self.dtime[0] if has_times else None
+        etime = self.dtime[-1] if has_times else None
 
         # Format the function representations
         if self.rfunc is None:
-- 
2.43.0


From c1310810af086bb3a723c1024c3a3d99b8720ce3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 12/79] fix: allow the default boundary latitude to be
 specified by None

---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 8684cda..429e6b0 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -179,7 +179,7 @@ class OCBoundary(object):
         self.boundary_lat = 74.0 if boundary_lat is None else boundary_lat
 
         # Ensure that the boundary is in the correct hemisphere
-        if np.sign(boundary_lat) != np.sign(hemisphere):
+        if np.sign(self.boundary_lat) != np.sign(hemisphere):
             self.boundary_lat *= -1.0
 
         # If possible, load the data.  Any boundary correction is applied here.
-- 
2.43.0


From 6a5f19d96860940aa741f7bc9f73a869fd6a0f89 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 13/79] fix: keep paired boundaries past their last record

A dual-boundary index beyond the last pair selected a valid record in the paired boundaries.
---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 429e6b0..ade1592 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1201,7 +1201,7 @@ class DualBoundary(object):
             self.ocb.rec_ind = rec_ind
             self.eab.rec_ind = rec_ind
         elif rec_ind >= self.records:
-            del_ind = self.records - rec_ind
+            del_ind = rec_ind - self.records
             self.ocb.rec_ind = self.ocb.records + del_ind
             self.eab.rec_ind = self.eab.records + del_ind
         else:
-- 
2.43.0


From 75753b6d53c6d67c8f62c6084d9dec43f623a132 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 14/79] fix: return fill values when reverting without a
 dual-boundary record

An unset record index used the last boundary pair, and one past the last record raised an IndexError.
---
 ocbpy/_boundary.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index ade1592..5bd1151 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1587,6 +1587,14 @@ class DualBoundary(object):
                 else:
                     raise ValueError('mismatched input shape for height')
 
+        # Test the record index
+        if self.rec_ind < 0 or self.rec_ind >= self.records:
+            if out_shape == ():
+                return np.nan, np.nan
+            else:
+                return (np.full(shape=out_shape, fill_value=np.nan),
+                        np.full(shape=out_shape, fill_value=np.nan))
+
         # Get the OCB reversion
         lat, lt = self.ocb.revert_coord(ocb_lat, ocb_mlt, r_corr=r_corr,
                                         coords=coords, height=height,
-- 
2.43.0


From 84f76d26ffe0ea2fc461ce108df036acece1b292 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 15/79] fix: normalise locations that lie on the OCB

Rounding error placed some locations at the OCB outside of every dual-boundary region.
---
 ocbpy/_boundary.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 5bd1151..9ad13c3 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1458,17 +1458,20 @@ class DualBoundary(object):
                         & (abs(aacgm_lat) >= abs(eab_aacgm_boundary)))[0]
         iout = np.where(abs(aacgm_lat) < abs(eab_aacgm_boundary))[0]
 
-        # Test to ensure that all points fall into a region
-        iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
-        if len(iocb) + len(imid) + len(iout) < len(aacgm_lat):
+        # Test to ensure that all points fall into a region,
+        # after allowing for rounding error at the OCB
+        iocb = np.where((abs(ocb_lat) >= abs(self.ocb.boundary_lat))
+                        | np.isclose(ocb_lat, self.ocb.boundary_lat, rtol=0.0,
+                                     atol=1.0e-8))[0]
+        ibad = [i for i in range(len(aacgm_lat)) if i not in iocb
+                and i not in imid and i not in iout]
+        if len(ibad) > 0:
             msg = "not all points fall into a boundary region"
             if np.isnan(ocb_aacgm_boundary).any() or np.isnan(
                     eab_aacgm_boundary).any():
                 msg += ", boundaries are poorly defined"
             logger.warning(msg)
 
-            ibad = [i for i in range(len(aacgm_lat)) if i not in iocb
-                    and i not in imid and i not in iout]
             bound_lat[ibad] = np.nan
 
         if len(imid) > 0:
-- 
2.43.0


From a669e9aa6dcf1d39be0fc6272ec3c08980d27d87 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 16/79] fix: revert dual-boundary locations from several
 regions to geographic

The heights of all locations were used for the subset that needed conversion.
---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 9ad13c3..2cedb66 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1694,7 +1694,8 @@ class DualBoundary(object):
 
                 # Convert from magnetic coordinates to geo coordinates
                 lat[imag], lon, _ = aacgmv2.convert_latlon_arr(
-                    lat[imag], lon, height, self.dtime[self.rec_ind], method)
+                    lat[imag], lon, height[imag], self.dtime[self.rec_ind],
+                    method)
 
                 # Convert from longitude to solar local time
                 lt[imag] = ocb_time.glon2slt(lon, self.dtime[self.rec_ind])
-- 
2.43.0


From 32ebf690e1976b3d09805d8726d88d1b40ea0764 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 17/79] fix: scale the boundary-adjusted components of single
 vectors

Single vectors lost the rotation into boundary coordinates when a scaling function was used, while arrays of vectors did not.
---
 ocbpy/ocb_scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index be7ad41..18f1c35 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -804,13 +804,13 @@ class VectorData(object):
             if len(self.ocb_n.shape) == 0:
                 self.ocb_n = np.full(
                     shape=self.ocb_n.shape, fill_value=self.scale_func(
-                        self.vect_n, self.unscaled_r, self.scaled_r))
+                        self.ocb_n, self.unscaled_r, self.scaled_r))
                 self.ocb_e = np.full(
                     shape=self.ocb_e.shape, fill_value=self.scale_func(
-                        self.vect_e, self.unscaled_r, self.scaled_r))
+                        self.ocb_e, self.unscaled_r, self.scaled_r))
                 self.ocb_z = np.full(
                     shape=self.ocb_z.shape, fill_value=self.scale_func(
-                        self.vect_z, self.unscaled_r, self.scaled_r))
+                        self.ocb_z, self.unscaled_r, self.scaled_r))
             else:
                 self.ocb_n = self.scale_func(self.ocb_n, self.unscaled_r,
                                              self.scaled_r)
-- 
2.43.0


From 9ffadbb868c337cd4b60c19257bc8c428a984e20 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 18/79] fix: use the time of the assigned boundary and the
 requested tracing

The boundary index held by the boundary object was used to convert the vector coordinates, instead of the index held by the data.
---
 ocbpy/ocb_scaling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 18f1c35..b6f6e84 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -643,9 +643,10 @@ class VectorData(object):
 
         """
         # Update the data values to be in magnetic coordinates
-        dtime = ocb.dtime[ocb.rec_ind] if self.ocb_ind.shape == () else [
+        dtime = ocb.dtime[self.ocb_ind] if self.ocb_ind.shape == () else [
             ocb.dtime[ind] for ind in self.ocb_ind]
-        self.update_vect_coords_to_mag(dtime, ocb.hemisphere)
+        self.update_vect_coords_to_mag(dtime, ocb.hemisphere,
+                                       trace_method=trace_method)
 
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
@@ -671,7 +672,8 @@ class VectorData(object):
                     if self.ocb_ind.shape == self.dat_ind.shape:
                         out_coord = ocb.normal_coord(self.lat[i], self.lt[i],
                                                      coords=self.loc_coord,
-                                                     height=self.height[i])
+                                                     height=self.height[i],
+                                                     method=trace_method)
                     else:
                         out_coord = ocb.normal_coord(self.lat, self.lt,
                                                      coords=self.loc_coord,
-- 
2.43.0


From c84291032096da2ab73e95ae2cf02921c473027c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 19/79] fix: convert geographic locations of magnetic vectors

---
 ocbpy/ocb_scaling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index b6f6e84..72e41c2 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -648,6 +648,10 @@ class VectorData(object):
         self.update_vect_coords_to_mag(dtime, ocb.hemisphere,
                                        trace_method=trace_method)
 
+        # The locations are needed in magnetic coordinates as well
+        if self.loc_coord != "magnetic":
+            self.update_loc_coords(dtime, trace_method=trace_method)
+
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
         if(np.all(np.isnan(self.ocb_lat)) or np.all(np.isnan(self.ocb_mlt))
-- 
2.43.0


From 07e202c1fe3c31ae1a08aa13930368b63b0b8089 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 20/79] fix: finish processing when no data match the
 boundaries

---
 ocbpy/instruments/pysat_instruments.py | 6 ++++--
 ocbpy/instruments/supermag.py          | 6 ++++--
 ocbpy/instruments/vort.py              | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 1c139f8..2826275 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -432,13 +432,15 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     else:
         ref_r = 90.0 - abs(ocb.ocb.boundary_lat)
 
-    while idat < ndat and ocb.rec_ind < ocb.records:
+    while (idat is not None and idat < ndat
+           and ocb.rec_ind < ocb.records):
         idat = ocbpy.match_data_ocb(ocb, pysat_inst.index[uind],
                                     idat=idat, max_tol=max_sdiff,
                                     min_merit=min_merit, max_merit=max_merit,
                                     **kwargs)
 
-        if idat < ndat and ocb.rec_ind < ocb.records:
+        if (idat is not None and idat < ndat
+                and ocb.rec_ind < ocb.records):
             time_ind = np.where(dat_ind[0] == uind[idat])[0]
 
             if len(dat_coords) > 1:
diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 19beee6..3a9dc50 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -149,12 +149,14 @@ def supermag2ascii_ocb(smagfile, outfile, hemisphere=0, ocb=None,
         nmag = mdata['DATETIME'].shape[0]
 
         # Cycle through the data, matching SuperMAG and OCB records
-        while imag < nmag and ocb.rec_ind < ocb.records:
+        while (imag is not None and imag < nmag
+               and ocb.rec_ind < ocb.records):
             imag = ocbpy.match_data_ocb(ocb, mdata['DATETIME'], idat=imag,
                                         max_tol=max_sdiff, min_merit=min_merit,
                                         max_merit=max_merit, **kwargs)
 
-            if imag < nmag and ocb.rec_ind < ocb.records:
+            if (imag is not None and imag < nmag
+                    and ocb.rec_ind < ocb.records):
                 # Get all of the points for this time pairing
                 itime = np.where(mdata['DATETIME'] == mdata['DATETIME'][imag])
 
diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index 3ce7cf7..a2f9df4 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -173,12 +173,14 @@ def vort2ascii_ocb(vortfile, outfile, hemisphere=0, ocb=None,
         num_vort = vdata['DATETIME'].shape[0]
 
         # Cycle through the data, matching vorticity and OCB records
-        while ivort < num_vort and ocb.rec_ind < ocb.records:
+        while (ivort is not None and ivort < num_vort
+               and ocb.rec_ind < ocb.records):
             ivort = ocbpy.match_data_ocb(ocb, vdata['DATETIME'], idat=ivort,
                                          max_tol=max_sdiff, min_merit=min_merit,
                                          max_merit=max_merit, **kwargs)
 
-            if ivort < num_vort and ocb.rec_ind < ocb.records:
+            if (ivort is not None and ivort < num_vort
+                    and ocb.rec_ind < ocb.records):
                 # Use the indexed OCB to convert the AACGM grid coordinate to
                 # one related to the OCB
                 nout = ocb.normal_coord(vdata['CENTRE_MLAT'][ivort],
-- 
2.43.0


From 7d1136ebb0078bcb9a3d468fec42a4c76a72acd5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 21/79] fix: process the YEAR and SOY columns as integers
 wherever they are

The position in the format was used instead of the position in the file, and the columns were added to the caller's list.
---
 ocbpy/instruments/general.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 5afe141..594919e 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -106,8 +106,8 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     if datetime_cols is None:
         datetime_cols = list()
 
-    if int_cols is None:
-        int_cols = list()
+    # Copy the integer columns, as they may be expanded
+    int_cols = list() if int_cols is None else list(int_cols)
 
     if str_cols is None:
         str_cols = list()
@@ -134,11 +134,11 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
         if datetime_fmt.upper().find("YEAR") >= 0:
             ipart = datetime_fmt.upper().find("YEAR")
             case_part = datetime_fmt[ipart:ipart + 4]
-            int_cols.append(dfmt_parts.index(case_part))
+            int_cols.append(datetime_cols[dfmt_parts.index(case_part)])
         if datetime_fmt.upper().find("SOY") >= 0:
             ipart = datetime_fmt.upper().find("SOY")
             case_part = datetime_fmt[ipart:ipart + 3]
-            int_cols.append(dfmt_parts.index(case_part))
+            int_cols.append(datetime_cols[dfmt_parts.index(case_part)])
 
     # Open the data file and read the header rows
     with open(filename, "r") as fin:
-- 
2.43.0


From 876d22aeb2fee9cc63fecaae808ae34480b7e66a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 22/79] fix: load ASCII files with one line of data or no data

---
 ocbpy/instruments/general.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 594919e..2a81c01 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -195,6 +195,10 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     # Open the datafile and read the data rows
     temp = np.genfromtxt(filename, skip_header=hlines, dtype=str, **gft_kwargs)
 
+    # Files with a single line of data lose a dimension
+    if temp.ndim == 0 or (temp.ndim == 1 and nhead > 1 and len(temp) > 0):
+        temp = temp.reshape(1, -1)
+
     if len(temp) > 0:
         # When dtype is specified, output comes as a void np.array
         #
@@ -251,6 +255,9 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     for k in out.keys():
         try:
             out[k] = np.array(out[k], dtype=type(out[k][0]))
+        except IndexError:
+            # There is no data to cast
+            out[k] = np.array(out[k])
         except TypeError:
             # Leave as a list if array casting doesn't work.  This was an
             # issue before, but may have been an old numpy bug that is fixed.
-- 
2.43.0


From 0109fd830391e876ab3989a408a5d5ef4a7c6925 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 23/79] fix: do not alter the input dual-boundary selection
 criteria

---
 ocbpy/_boundary.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 2cedb66..b94b740 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1261,16 +1261,14 @@ class DualBoundary(object):
         self.eab.rec_ind = -1
 
         # Get the good OCB indices
-        if ocb_kwargs is None:
-            ocb_kwargs = {}
+        ocb_kwargs = {} if ocb_kwargs is None else dict(ocb_kwargs)
         ocb_kwargs['min_merit'] = ocb_min_merit
         ocb_kwargs['max_merit'] = ocb_max_merit
         good_ocb = cycle_boundary.retrieve_all_good_indices(self.ocb,
                                                             **ocb_kwargs)
 
         # Initialize the EAB good index selection options
-        if eab_kwargs is None:
-            eab_kwargs = {}
+        eab_kwargs = {} if eab_kwargs is None else dict(eab_kwargs)
         eab_kwargs['min_merit'] = eab_min_merit
         eab_kwargs['max_merit'] = eab_max_merit
 
-- 
2.43.0


From 3946cf9c852bc8eccfe60f46e78eff5a2ab21416 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 24/79] fix: select a default file when an instrument has
 several

The choice depended on the directory order, or failed for instruments that are not in the default list.
---
 ocbpy/boundaries/files.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index cbb3ce6..49f29c6 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -194,8 +194,11 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
     else:
         # Rate files by instrument
         default_inst = ['image', 'amp', 'si13', 'si12', 'wic', 'dmsp-ssj']
-        ordered_files = {default_inst.index(boundary_files[bb]['instrument']):
-                         bb for bb in good_files}
+        ordered_files = {
+            default_inst.index(boundary_files[bb]['instrument'])
+            if boundary_files[bb]['instrument'] in default_inst
+            else len(default_inst): bb
+            for bb in sorted(good_files, reverse=True)}
         bfile = ordered_files[min(ordered_files.keys())]
         default_file = os.path.join(boundary_dir, bfile)
         if boundary_files[bfile]['instrument'] in short_to_long.keys():
-- 
2.43.0


From a8292102a4a9db4898be6e1e172dd7421b36e3e7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 25/79] fix: restore the output streams when a download fails

---
 ocbpy/boundaries/dmsp_ssj_files.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 1f58bc4..b84dff6 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -110,15 +110,20 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
 
     # Download the zenodo archive, capturing the output
     zenodo_io = StringIO()
+    stdout = sys.stdout
+    stderr = sys.stderr
     sys.stdout = zenodo_io
     sys.stderr = zenodo_io
 
     zenodo_checksum = os.path.join(out_dir, 'md5sums.txt')
-    zenodo_get.zenodo_get([doi, '-o', out_dir])
+    try:
+        zenodo_get.zenodo_get([doi, '-o', out_dir])
+    finally:
+        # Reset the STDOUT and STDERR, even if the download fails
+        sys.stdout = stdout
+        sys.stderr = stderr
 
     # Parse the output and retrieve files from the zip archive
-    sys.stdout = sys.__stdout__
-    sys.stderr = sys.__stderr__
     zen_msg = zenodo_io.getvalue()
     zen_split = zen_msg.split()
 
-- 
2.43.0


From 68071ab45bb60b52e052b170cd1f9d9510a2bbc1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 26/79] fix: format DMSP SSJ files with a single boundary

---
 ocbpy/boundaries/dmsp_ssj_files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index b84dff6..f9cb944 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -357,8 +357,9 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
             header_list = head_line.split("\n")[0].split(",")
 
             # Load the file data
-            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',')
-            if len(data.shape) != 2 or data.shape[1] != len(header_list):
+            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',',
+                              ndmin=2)
+            if data.shape[0] == 0 or data.shape[1] != len(header_list):
                 bad_files.append(infile)
             else:
                 # Establish the desired data indices
-- 
2.43.0


From 33041067980c783e907ab8835f1e083cb6d5b787 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 27/79] fix: do not alter the input pysat variable names

---
 ocbpy/instruments/pysat_instruments.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 2826275..91f3125 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -128,15 +128,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                               'scale_func': local_scale_func}}
 
     """
-    # Test the input
-    if evar_names is None:
-        evar_names = []
-
-    if curl_evar_names is None:
-        curl_evar_names = []
-
-    if vector_names is None:
-        vector_names = {}
+    # Test the input, copying the names because they may be updated
+    evar_names = [] if evar_names is None else list(evar_names)
+    curl_evar_names = [] if curl_evar_names is None else list(curl_evar_names)
+    vector_names = {} if vector_names is None else {
+        eattr: dict(vector_names[eattr]) for eattr in vector_names.keys()}
 
     if not isinstance(pysat_inst, pysat.Instrument):
         raise ValueError('unknown class, expected pysat.Instrument')
-- 
2.43.0


From 807741ee20b80fa984206d302dd3600c7335c47c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 28/79] fix: initialise each pysat vector separately

Components of one vector were used in the next, when the next one did not specify all of its components.
---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 91f3125..2494184 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -482,10 +482,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                   "loc_coord": loc_coord,
                                   "vect_coord": vect_coord,
                                   "height": height[iout]}
-                vector_init = dict(vector_default)
                 vshape = list()
 
                 for eattr in vector_names.keys():
+                    vector_init = dict(vector_default)
                     oattr = "{:s}_{:s}".format(eattr, bname)
                     for ikey in vector_names[eattr].keys():
                         # Not all vector names are DataFrame names
-- 
2.43.0


From fe2f91d6e4b814232c4120136674db5f40a44263 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 29/79] fix: only use data from the boundary hemisphere in
 xarray Instruments

---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 2494184..459addc 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -322,7 +322,7 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         combo_shape = [pysat_inst.index.shape[0]]
     else:
         nan_inst = pysat_inst.data.where(np.sign(pysat_inst.data[mlat_name])
-                                         >= hemisphere)
+                                         == hemisphere)
         finite_mask = np.isfinite(nan_inst[pysat_names].to_array().max(
             'variable'))
         dat_coords = [coord for coord in pysat_inst[pysat_names].coords.keys()]
-- 
2.43.0


From 413d1fcbc2d262903ffe477071a09b86d1f48aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 30/79] fix: match the closest record when several share a time

---
 ocbpy/cycle_boundary.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index d084ecb..8639db8 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -195,9 +195,13 @@ def match_data_ocb(ocb, dat_dtime, idat=0, max_tol=60, min_merit=None,
                 sdiff = (ocb.dtime[ocb.rec_ind]
                          - dat_dtime[idat]).total_seconds()
 
-                while abs(sdiff) < abs(last_sdiff):
-                    last_sdiff = sdiff
-                    last_iocb = ocb.rec_ind
+                # Records may share a time, as paired boundaries may do
+                while (ocb.rec_ind < ocb.records
+                       and abs(sdiff) <= abs(last_sdiff)):
+                    if abs(sdiff) < abs(last_sdiff):
+                        last_sdiff = sdiff
+                        last_iocb = ocb.rec_ind
+
                     cycle_method(**cycle_kwargs)
                     if ocb.rec_ind < ocb.records:
                         sdiff = (ocb.dtime[ocb.rec_ind]
-- 
2.43.0


From 9e2409a2f21717ba636d7d8a4851a4142711ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 31/79] fix: represent boundary objects that have no data

---
 ocbpy/_boundary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index b94b740..d7546a9 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -206,7 +206,7 @@ class OCBoundary(object):
             repr_rfunc = repr(self.rfunc)
         else:
             rfuncs = [".".join([ff.__module__, ff.__name__])
-                      for ff in self.rfunc]
+                      for ff in np.atleast_1d(self.rfunc)]
 
             if len(set(rfuncs)) == 1:
                 repr_rfunc = rfuncs[0]
@@ -218,7 +218,8 @@ class OCBoundary(object):
         if self.rfunc_kwargs is None:
             repr_rfunc_kwargs = repr(self.rfunc_kwargs)
         else:
-            rfuncs_kwargs = [repr(rkwarg) for rkwarg in self.rfunc_kwargs]
+            rfuncs_kwargs = [repr(rkwarg)
+                             for rkwarg in np.atleast_1d(self.rfunc_kwargs)]
 
             if len(set(rfuncs_kwargs)) == 1:
                 repr_rfunc_kwargs = rfuncs_kwargs[0]
-- 
2.43.0


From 3452959f885616272d4e95093862c33648e4f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 32/79] fix: set the record index of dual-boundaries without
 pairs

---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index d7546a9..ad95d14 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1251,6 +1251,7 @@ class DualBoundary(object):
             self.dtime = None
             self.ocb_ind = None
             self.eab_ind = None
+            self.rec_ind = 0
             return
 
         self.dtime = list()
@@ -1313,7 +1314,7 @@ class DualBoundary(object):
     def get_next_good_ind(self):
         """Cycle the boundary attributes to the next good paired index."""
 
-        if self.records > 0 and self.rec_ind < self.records:
+        if self.rec_ind < self.records:
             # Cycle to next boundary
             self.rec_ind += 1
 
-- 
2.43.0


From e4d5defc46e571521ba8559acf2ab42c006de10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 33/79] fix: keep locations far equatorward of the OCB out of
 the polar cap

---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index ad95d14..5f9e6ea 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1460,7 +1460,8 @@ class DualBoundary(object):
 
         # Test to ensure that all points fall into a region,
         # after allowing for rounding error at the OCB
-        iocb = np.where((abs(ocb_lat) >= abs(self.ocb.boundary_lat))
+        iocb = np.where((self.hemisphere * ocb_lat
+                         >= abs(self.ocb.boundary_lat))
                         | np.isclose(ocb_lat, self.ocb.boundary_lat, rtol=0.0,
                                      atol=1.0e-8))[0]
         ibad = [i for i in range(len(aacgm_lat)) if i not in iocb
-- 
2.43.0


From a7e76f82fe297bc5fbdb438d10325fe4e11904d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 34/79] fix: rotate geographic vectors of the southern
 hemisphere

---
 ocbpy/vectors.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index d568524..6cd9317 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -572,6 +572,16 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     pole_angle = np.asarray(pole_angle)
     pole_quad = np.asarray(pole_quad)
 
+    # The angles describe the side of the base pole in the hemisphere of the
+    # destination pole, so mirror the southern vectors
+    south_mask = pole_lat < 0.0
+    if np.any(south_mask):
+        vect_lat = np.where(south_mask, -vect_lat, vect_lat)
+        vect_n = np.where(south_mask, -vect_n, vect_n)
+        vect_quad = np.where(south_mask & (vect_quad != 0),
+                             define_vect_quadrants(vect_n, vect_e), vect_quad)
+        pole_lat = abs(pole_lat)
+
     # Initialize the output, ensuring it is the same shape
     out_shape = (vect_lt + vect_lat + vect_n + vect_e + vect_z + vect_quad
                  + pole_lt + pole_lat + pole_angle + pole_quad).shape
@@ -711,4 +721,7 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
                 dest_naz_angle)[norm_mask]
             dest_z[norm_mask] = vz
 
+    if np.any(south_mask):
+        dest_n = np.where(south_mask, -np.asarray(dest_n), dest_n)
+
     return dest_n, dest_e, dest_z
-- 
2.43.0


From f7f9f980d4681d3db950aa65e1e0d67bfb7c86df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 35/79] fix: rotate vectors close to the meridian of the pole

---
 ocbpy/vectors.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 6cd9317..dfd004d 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -632,9 +632,12 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
         sign_mask = (pole_angle == 0.0) & np.greater_equal(
             vect_lat, pole_lat, where=~np.isnan(vect_lat)) & ~np.isnan(vect_lat)
 
-        # Measurements between the poles also change sign
-        sign_mask = sign_mask | ((pole_angle == 180.0)
-                                 & (ocb_time.hr2rad(pole_lt - vect_lt) == 0.0))
+        # Measurements between the poles also change sign, those on the far
+        # side of the base pole do not.  The angle is rounded close to either
+        # meridian.
+        cos_lt = np.cos(ocb_time.hr2rad(pole_lt - vect_lt))
+        sign_mask = (sign_mask & (cos_lt > 1.0e-12 - 1.0)) | (
+            (pole_angle == 180.0) & (cos_lt > 1.0 - 1.0e-12))
 
         if np.any(sign_mask):
             if len(out_shape) == 0:
-- 
2.43.0


From f46ac9306e356800e96fca91d76d8c2687a1b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 36/79] fix: use the geographic location when rotating
 geographic vectors

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 72e41c2..663d7d2 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1104,7 +1104,7 @@ class VectorData(object):
 
             # Adjust the geographic vector to AACGM coordinates
             mag_n, mag_e, mag_z = vectors.adjust_vector(
-                mag_lt, mag_lat, self.vect_n, self.vect_e, self.vect_z,
+                geo_lt, geo_lat, self.vect_n, self.vect_e, self.vect_z,
                 vect_quad, mag_pole_slt, mag_pole_glat, pole_angle, pole_quad)
 
             # Assign the new vector data and coordinate specification
-- 
2.43.0


From 50afb8900bc4f54dd4adafc9e1fcf985995ec506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:32 +0000
Subject: [PATCH 37/79] fix: convert geographic vectors at several locations
 with one boundary

---
 ocbpy/ocb_scaling.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 663d7d2..97caf8a 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1082,8 +1082,12 @@ class VectorData(object):
                     mag_pole_slt.append(ocb_time.glon2slt(out[1], val))
                     mag_pole_glat.append(out[0])
             else:
-                mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon(
-                    hemisphere * 90.0, 0.0, self.height, dtime,
+                convert = aacgmv2.convert_latlon if self.height.shape == () \
+                    else aacgmv2.convert_latlon_arr
+                mag_pole_glat, mag_pole_lon, _ = convert(
+                    np.full(shape=self.height.shape,
+                            fill_value=hemisphere * 90.0),
+                    np.zeros(shape=self.height.shape), self.height, dtime,
                     method_code='|'.join(methods))
                 mag_pole_slt = ocb_time.glon2slt(mag_pole_lon, dtime)
 
-- 
2.43.0


From effa2a215eb25566d4718c6a46d80f3ac1c81137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 38/79] fix: unset the boundary locations when the boundary
 index changes

---
 ocbpy/ocb_scaling.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 97caf8a..e6c1a81 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -519,25 +519,17 @@ class VectorData(object):
         else:
             self._ocb_ind = ocb_ind
 
-            # Test the boundaries and reset if necessary
-            try:
-                self._test_update_bound_shape()
-            except ValueError as verr:
-                if str(verr).find('OCB index and input shapes mismatch') == 0:
-                    ocbpy.logger.warning(
-                        '{:s}, unsetting boundary inputs'.format(str(verr)))
-                    self.ocb_lat = np.nan
-                    self.ocb_mlt = np.nan
-                    self.r_corr = np.nan
-
-                    if self.dat_ind.shape == ():
-                        self.vshape = ocb_ind.shape
-
-                    # Re-test boundary shape
-                    self._test_update_bound_shape()
-                else:
-                    # Can't figure out how to get here, but keeping for now
-                    raise ValueError(verr)
+            # The shape only follows the boundaries if there is one data point
+            if self.dat_ind.shape == ():
+                self.vshape = ocb_ind.shape
+
+            # Unset the boundary inputs, as they belong to the old indices
+            self.ocb_lat = np.nan
+            self.ocb_mlt = np.nan
+            self.r_corr = np.nan
+
+            # Test the boundary shape
+            self._test_update_bound_shape()
 
             # Clear the rest of the data
             self.clear_data()
-- 
2.43.0


From 64d99c0977678ab32aedd9ce7ae3a57242678a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 39/79] fix: update the locations when the data index changes

---
 ocbpy/ocb_scaling.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index e6c1a81..8b261d4 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -397,6 +397,11 @@ class VectorData(object):
                 self.vect_e = np.full(shape=self.vshape, fill_value=self.vect_e)
             if self.vect_z.shape == ():
                 self.vect_z = np.full(shape=self.vshape, fill_value=self.vect_z)
+
+            # The location setters ensure each data point has a location
+            self.lat = self.lat
+            self.lt = self.lt
+            self.height = self.height
         return
 
     def _test_update_bound_shape(self):
@@ -496,6 +501,11 @@ class VectorData(object):
             # Test the data and reset if necessary
             self._test_update_vector_shape()
 
+            # Unset the boundary inputs, as they belong to the old data
+            self.ocb_lat = np.nan
+            self.ocb_mlt = np.nan
+            self.r_corr = np.nan
+
             # Test the boundary shape
             self._test_update_bound_shape()
 
-- 
2.43.0


From 05eefd94e4b799854852ee127fca2677c7eade5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 40/79] fix: give each datum a height when the data index
 becomes an array

---
 ocbpy/ocb_scaling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 8b261d4..42ff3a8 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -398,10 +398,10 @@ class VectorData(object):
             if self.vect_z.shape == ():
                 self.vect_z = np.full(shape=self.vshape, fill_value=self.vect_z)
 
-            # The location setters ensure each data point has a location
-            self.lat = self.lat
-            self.lt = self.lt
-            self.height = self.height
+        # The location setters ensure each data point has a location
+        self.lat = self.lat
+        self.lt = self.lt
+        self.height = self.height
         return
 
     def _test_update_bound_shape(self):
-- 
2.43.0


From daeffc9f363d317e9cfc3c2adac19f571ad23275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 41/79] fix: count every directive in the format length

---
 ocbpy/ocb_time.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index efa8f76..a982cae 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -43,8 +43,7 @@ def get_datetime_fmt_len(datetime_fmt):
                '%Z': 1, '%j': 1, '%c': 22, '%x': 8, '%X': 7}
 
     for dt_dir in add_len.keys():
-        if datetime_fmt.find(dt_dir) >= 0:
-            str_len += add_len[dt_dir]
+        str_len += datetime_fmt.count(dt_dir) * add_len[dt_dir]
 
     return str_len
 
-- 
2.43.0


From 17a57be2da2f980d94843c73a5e5dc528c717422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 42/79] fix: add the seconds of day to dates with trailing data

---
 ocbpy/ocb_time.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index a982cae..43ed112 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -164,16 +164,6 @@ def convert_time(year=None, soy=None, yyddd=None, sod=None, date=None,
 
             dtime = dt.datetime.strptime(str_time, datetime_fmt)
 
-            if sod is not None:
-                # Add the seconds of day to dtime
-                microsec, sec = np.modf(sod)
-                dtime += dt.timedelta(seconds=int(sec))
-
-                if microsec > 0.0:
-                    # Add the microseconds to dtime
-                    microsec = np.ceil(microsec * 1.0e6)
-                    dtime += dt.timedelta(microseconds=int(microsec))
-
     except ValueError as verr:
         if(len(verr.args) > 0
            and verr.args[0].startswith('unconverted data remains: ')):
@@ -183,6 +173,16 @@ def convert_time(year=None, soy=None, yyddd=None, sod=None, date=None,
         else:
             raise ValueError(verr)
 
+    if sod is not None and (year is None or soy is None):
+        # Add the seconds of day to dtime
+        microsec, sec = np.modf(sod)
+        dtime += dt.timedelta(seconds=int(sec))
+
+        if microsec > 0.0:
+            # Add the microseconds to dtime
+            microsec = np.ceil(microsec * 1.0e6)
+            dtime += dt.timedelta(microseconds=int(microsec))
+
     return dtime
 
 
-- 
2.43.0


From 0f67970b8dd0f4fe78066e95c982e72f75627863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 43/79] fix: keep values rounded up to the end of a cycle below
 the maximum

---
 ocbpy/ocb_time.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index 43ed112..4a85ba0 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -428,8 +428,9 @@ def fix_range(values, min_val, max_val, val_range=None):
         fixed_vals[ibad] = np.mod(fixed_vals[ibad] - min_val,
                                   val_range) + min_val
 
-        # Values just below the minimum may be rounded up to the maximum
-        ibad &= (fixed_vals >= max_val)
-        fixed_vals[ibad] -= val_range
+    # Values just below the end of a cycle may be rounded up to the maximum
+    ibad = fixed_vals >= max_val
+    if np.any(ibad):
+        fixed_vals[ibad] = np.maximum(fixed_vals[ibad] - val_range, min_val)
 
     return fixed_vals
-- 
2.43.0


From 09d6d072dae51711475e73c77863b08fba6029e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 44/79] fix: skip boundary files with unknown names

---
 ocbpy/boundaries/files.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index 49f29c6..8f396e8 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -87,6 +87,13 @@ def get_boundary_files(bound='ocb'):
            and bfile.find(".py") < 0 and bfile.find("README") < 0
            and bfile[-3:].lower() == bound.lower()):
             file_info = bfile.lower()[:-4].split("_")
+
+            # Skip files that do not follow the naming convention
+            if len(file_info) < 2 or file_info[1] not in hemi.keys():
+                ocbpy.logger.warning(
+                    'Unknown boundary file present: [{:s}]'.format(bfile))
+                continue
+
             boundary_files[bfile] = {"instrument": file_info[0],
                                      "hemisphere": hemi[file_info[1]]}
 
@@ -99,7 +106,7 @@ def get_boundary_files(bound='ocb'):
                         file_info[2], '%Y%m%d')
                     boundary_files[bfile]["etime"] = dt.datetime.strptime(
                         file_info[3], '%Y%m%d')
-                except ValueError as verr:
+                except (ValueError, IndexError) as verr:
                     err = 'Unknown boundary file present: [{:s}]\n{:}'.format(
                         bfile, verr)
                     ocbpy.logger.warning(err)
@@ -171,7 +178,8 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
             if bdict['instrument'] in inst:
                 # Select by time
                 if(stime is None or etime is None
-                   or (stime <= bdict['etime'] and etime >= bdict['stime'])):
+                   or ('etime' in bdict.keys() and stime <= bdict['etime']
+                       and etime >= bdict['stime'])):
                     good_files.append(bfile)
 
     # Get the default file and instrument (returning at most one)
-- 
2.43.0


From c39427ce09ddcfdce262cfda9ad802ffc78ea930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 45/79] fix: accept the documented names of EAB instruments

---
 ocbpy/_boundary.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 5f9e6ea..e2a121b 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -928,6 +928,9 @@ class EABoundary(OCBoundary):
                  rfunc_kwargs=None):
 
         # Process the defaults that differ for the EAB
+        if hasattr(instrument, "lower"):
+            instrument = instrument.lower()
+
         if rfunc is None:
             # Set to a function that will not alter the data
             self._set_default_rfunc(instrument)
@@ -962,7 +965,8 @@ class EABoundary(OCBoundary):
 
         """
 
-        if input_instrument in ["", "default", "image", "dmsp-ssj", "ampere"]:
+        if input_instrument in ["", "default", "image", "dmsp-ssj", "ampere",
+                                "amp", "si12", "si13", "wic"]:
             self.rfunc = ocbcor.circular
         elif not hasattr(input_instrument, "lower"):
             # Allow an empty class object to be initialised
-- 
2.43.0


From 0db5a936202fb3f119733997d99775e128846b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 46/79] fix: do not add the file header to the input header

---
 ocbpy/instruments/general.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 2a81c01..2565fb5 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -112,8 +112,7 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     if str_cols is None:
         str_cols = list()
 
-    if header is None:
-        header = list()
+    header = list() if header is None else list(header)
 
     # Test to ensure the file is small enough to read in.  Python can only
     # allocate 2GB of data.  If you load something larger, python will crash
-- 
2.43.0


From 205e99a307843c90124c2c6c1fe55f2045f5d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 47/79] fix: load datetimes from files with a single column

---
 ocbpy/instruments/general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 2565fb5..677c3b4 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -197,6 +197,9 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     # Files with a single line of data lose a dimension
     if temp.ndim == 0 or (temp.ndim == 1 and nhead > 1 and len(temp) > 0):
         temp = temp.reshape(1, -1)
+    elif temp.ndim == 1:
+        # As do files with a single column of data
+        temp = temp.reshape(-1, 1)
 
     if len(temp) > 0:
         # When dtype is specified, output comes as a void np.array
-- 
2.43.0


From e67a1a26e08227c84d296af9e350f65e189604c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 48/79] fix: join integer columns of dates and times

---
 ocbpy/instruments/general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 677c3b4..8da457b 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -239,7 +239,8 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
                                 convert_time_input[ckey] = line_val
                             else:
                                 convert_time_input[ckey] = " ".join([
-                                    convert_time_input[ckey], line_val])
+                                    str(convert_time_input[ckey]),
+                                    str(line_val)])
 
                     # Convert the string into a datetime object
                     ftime = ocbt.convert_time(**convert_time_input)
-- 
2.43.0


From 144b60c8202ebd58748a8d0352dd422bd9a8dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 49/79] fix: load files that use all of the datetime names

---
 ocbpy/instruments/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 8da457b..f6316d6 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -175,7 +175,7 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     dt_keys = ['datetime', 'DATETIME', 'DT', 'dt']
     if len(datetime_cols) > 0 and datetime_fmt is not None:
         idt = 0
-        while dt_keys[idt] in out.keys():
+        while idt < len(dt_keys) and dt_keys[idt] in out.keys():
             idt += 1
 
         if idt < len(dt_keys):
-- 
2.43.0


From 1d88ec01faa33232db436a02000cfecd69bce39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 50/79] fix: give the boundary an integer record index

VectorData.set_ocb set the record index of the boundary to its own 0-d index
array, which cycling through the boundary then changed in place. Both the
index of the vectors and the search for the next boundary record went wrong,
so that SuperMAG data were lost.
---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 42ff3a8..66491ff 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -662,7 +662,7 @@ class VectorData(object):
             # dependent, we can't call this function with multiple OCB/EABs
             if self.ocb_ind.shape == ():
                 # Initialise the boundary index
-                ocb.rec_ind = self.ocb_ind
+                ocb.rec_ind = int(self.ocb_ind)
 
                 # Calculate the coordinates and save the output
                 out_coord = ocb.normal_coord(self.lat, self.lt,
-- 
2.43.0


From 3d586b020d6879100d1a8af8be84463ac2a164c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 51/79] fix: load SuperMAG records without stations

---
 ocbpy/instruments/supermag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 3a9dc50..0d059c4 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -248,9 +248,10 @@ def load_supermag_ascii_data(filename):
                     hflag = False
             else:
                 # Fill the output dictionary
-                if n < 0:
-                    # This is a date line
+                if n < 0 or (snum == 0 and len(line.split()) > 2):
+                    # This is a date line, records may be without stations
                     n = 0
+                    ind = {"SMU": fill_val, "SML": fill_val}
                     lsplit = np.array(line.split(), dtype=int)
                     dtime = dt.datetime(lsplit[0], lsplit[1], lsplit[2],
                                         lsplit[3], lsplit[4], lsplit[5])
@@ -288,7 +289,6 @@ def load_supermag_ascii_data(filename):
 
                         if n == snum:
                             n = -1
-                            ind = {"SMU": fill_val, "SML": fill_val}
 
     # If no data was found, this may not be the correct type of file
     if hflag:
-- 
2.43.0


From d361dc0d57898ab0a0df2b15312928626d970e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 52/79] fix: use one height for all data of a pysat Instrument

---
 ocbpy/instruments/pysat_instruments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 459addc..bf62c08 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -405,6 +405,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         lt = out_lt.transpose()
         height = out_height.transpose()
 
+    # A single height applies to all of the data
+    if len(height.shape) == 0:
+        height = np.full(shape=lat.shape, fill_value=height)
+
     # Initialise the OCB output
     ocb_output = dict()
     for oattr in ocb_names:
-- 
2.43.0


From 06702f524a7531e692e10eaf2474d6741a9d075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 53/79] fix: load the default boundary file of the named type
 for pysat

---
 ocbpy/instruments/pysat_instruments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index bf62c08..a3ce364 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -191,11 +191,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
             if ocbfile.lower() in ['eab', 'ocb', 'dual']:
                 ocbfile = "default"
 
-        if fileroot.find("ocb") > 0 and fileroot.find("eab") < 0:
+        if fileroot.find("ocb") >= 0 and fileroot.find("eab") < 0:
             # Initialize the OCBoundary object
             ocb = ocbpy.OCBoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-        elif fileroot.find("ocb") < 0 and fileroot.find("eab") > 0:
+        elif fileroot.find("ocb") < 0 and fileroot.find("eab") >= 0:
             # Initialize the EABoundary object
             ocb = ocbpy.EABoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-- 
2.43.0


From 7a06944f3b790333521498088aa2f6f03997c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 54/79] fix: keep the dimensions of pysat locations

---
 ocbpy/instruments/pysat_instruments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index a3ce364..5d7af37 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -385,8 +385,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
             else:
                 # Can't reshape the height
                 raise ValueError('unexpected height shape')
-    else:
+    elif pysat_inst.pandas_format:
         ocb_coords = [pysat_inst.index.name]
+    else:
+        ocb_coords = [coord for coord in pysat_inst[mlat_name].dims]
 
     # See if the data has more dimensions than the OCB coordinates
     if len(dat_coords) > len(ocb_coords):
-- 
2.43.0


From 318c421c6a398c802aa1a9e8e027b1ecf6524da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 55/79] fix: set the radii of vectors without a boundary
 location

---
 ocbpy/ocb_scaling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 66491ff..0a713ea 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -619,6 +619,10 @@ class VectorData(object):
         self.ocb_z = np.full(shape=self.vshape, fill_value=np.nan)
         self.ocb_mag = np.full(shape=self.vshape, fill_value=np.nan)
 
+        # Assign the default radius of the polar cap
+        self.unscaled_r = np.full(shape=self.vshape, fill_value=np.nan)
+        self.scaled_r = np.full(shape=self.vshape, fill_value=np.nan)
+
         # Assign the default pole locations, relative angles, and quadrants
         self.ocb_quad = np.zeros(shape=self.vshape)
         self.vec_quad = np.zeros(shape=self.vshape)
-- 
2.43.0


From 2a3914d518359a5976aaf355073fd4019d5b38d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 56/79] fix: leave vectors without data undefined when
 adjusting them

---
 ocbpy/vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index dfd004d..f3e5855 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -592,7 +592,7 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     # Determine the special case assignments
     zero_mask = (vect_n == 0.0) & (vect_e == 0.0)
     ns_mask = (pole_angle == 0.0) | (pole_angle == 180.0)
-    norm_mask = ~(zero_mask + ns_mask)
+    norm_mask = ~(zero_mask + ns_mask + np.isnan(vect_n) + np.isnan(vect_e))
 
     # There's nothing to adjust if there is no horizontal magnitude
     if np.any(zero_mask):
-- 
2.43.0


From a750944ca6aa67b3355a420903c4eeb15eec9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 57/79] fix: select only the good pysat data of a boundary
 record

---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 5d7af37..aa2a4af 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -607,7 +607,7 @@ def reshape_pad_mask_flatten(data, mask):
     """
     if np.all(mask.dims == data.dims):
         if mask.shape == data.shape:
-            flat = data.where(mask, drop=True).values.flatten()
+            flat = data.values[mask.values].flatten()
         else:
             raise ValueError('different shapes for the same dimesions')
     else:
-- 
2.43.0


From d37e74e99e19e215dd5587c6667f5edcb604be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 58/79] fix: raise an error for download links without an
 archive

---
 ocbpy/boundaries/dmsp_ssj_files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index f9cb944..545775c 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -142,6 +142,8 @@ def fetch_ssj_boundary_files(stime=None, etime=None, out_dir=None,
         # If the archive is already available, message may differ
         zip_name = os.path.split(zen_split[link_ind])
         while zip_name[-1].find(".zip") <= 0:
+            if len(zip_name[0].strip('/')) == 0:
+                raise ValueError('no archive in link')
             zip_name = os.path.split(zip_name[0])
 
         # Set the archive name
-- 
2.43.0


From 1a06ae355ee354eb7055c62e14edd32de8786ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 59/79] fix: write DMSP boundary files to directories with "-f"
 in the name

---
 ocbpy/boundaries/dmsp_ssj_files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 545775c..3d7e6cb 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -313,7 +313,9 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
     out_head = "#sc date time r x y fom x_1 y_1 x_2 y_2\n"
 
     # Specify the output file information
-    outfile_prefix = os.path.commonprefix(list(csv_files)).split('-f')[0]
+    outfile_dir, outfile_prefix = os.path.split(
+        os.path.commonprefix(list(csv_files)))
+    outfile_prefix = os.path.join(outfile_dir, outfile_prefix.split('-f')[0])
     filename_sec = os.path.split(
         csv_files[0])[-1].split('dmsp-f')[-1].split('_')
     sdate = filename_sec[3]
-- 
2.43.0


From 68e9625622e6ed9ec9c44fe73a425c4eb55bfc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 60/79] fix: evaluate the equatorward limit of satellite tracks
 for any shape

---
 ocbpy/cycle_boundary.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 8639db8..e7de109 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -312,20 +312,10 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
         r1 = np.sqrt((x1 - x_in)**2 + (y1 - y_in)**2)
         r2 = np.sqrt((x2 - x_in)**2 + (y2 - y_in)**2)
 
-        # Find which boundary is closest to the good points
-        ione = np.where(good & (r1 <= r2))
-        itwo = np.where(good & (r2 < r1))
-
-        # Evaluate the closest lower boundary limit
-        if len(lat[ione]) > 0:
-            lat_bound = 90.0 - np.sqrt(x1**2 + y1**2) - past_bound
-            ipast = np.where(abs(lat[ione]) < lat_bound)
-            good[ione[0][ipast]] = False
-
-        if len(lat[itwo]) > 0:
-            lat_bound = 90.0 - np.sqrt(x2**2 + y2**2) - past_bound
-            ipast = np.where(abs(lat[itwo]) < lat_bound)
-            good[itwo[0][ipast]] = False
+        # Evaluate the lower limit of the boundary closest to each point
+        lat_bound = 90.0 - np.where(r1 <= r2, np.sqrt(x1**2 + y1**2),
+                                    np.sqrt(x2**2 + y2**2)) - past_bound
+        good = good & (abs(lat) >= lat_bound)
 
     # Return the boolean mask
     return good
-- 
2.43.0


From 32f038f9fd3f3c470365e0c428f3c8c69ca742a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 61/79] fix: no location of the other hemisphere is on a
 satellite track

---
 ocbpy/cycle_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index e7de109..e307a9a 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -315,7 +315,7 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
         # Evaluate the lower limit of the boundary closest to each point
         lat_bound = 90.0 - np.where(r1 <= r2, np.sqrt(x1**2 + y1**2),
                                     np.sqrt(x2**2 + y2**2)) - past_bound
-        good = good & (abs(lat) >= lat_bound)
+        good = good & (hemisphere * lat >= lat_bound)
 
     # Return the boolean mask
     return good
-- 
2.43.0


From e2e80378ab32e189adfbe79e748ed0e205ae0a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 62/79] fix: represent the period of a boundary without records

---
 ocbpy/_boundary.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index e2a121b..d26fd5b 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -169,6 +169,8 @@ class OCBoundary(object):
         self.fom = None
         self.rfunc = rfunc
         self.rfunc_kwargs = rfunc_kwargs
+        self._stime = stime
+        self._etime = etime
         self.min_fom = -np.inf
         self.max_fom = np.inf
 
@@ -198,8 +200,8 @@ class OCBoundary(object):
 
         # Get the start and end times
         has_times = self.dtime is not None and len(self.dtime) > 0
-        stime = self.dtime[0] if has_times else None
-        etime = self.dtime[-1] if has_times else None
+        stime = self.dtime[0] if has_times else self._stime
+        etime = self.dtime[-1] if has_times else self._etime
 
         # Format the function representations
         if self.rfunc is None:
@@ -378,6 +380,8 @@ class OCBoundary(object):
         # Load the data into the OCBoundary object
         #
         # Start by getting the time and location in the desired format
+        self._stime = stime
+        self._etime = etime
         self.rec_ind = -1
 
         dt_list = list()
-- 
2.43.0


From 39c686ff9919946ccdd41aeda9ed1e77d053d0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 63/79] fix: represent all of the digits and elements of
 vectors

---
 ocbpy/ocb_scaling.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 0a713ea..068b931 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -18,6 +18,7 @@ References
 
 import aacgmv2
 import numpy as np
+import sys
 
 import ocbpy
 from ocbpy import ocb_time
@@ -159,23 +160,27 @@ class VectorData(object):
             repr_func = ".".join([self.scale_func.__module__,
                                   self.scale_func.__name__])
 
-        # Format the base output
-        out = "".join(["ocbpy.ocb_scaling.VectorData(", repr(self.dat_ind),
-                       ", ", repr(self.ocb_ind), ", ", repr(self.lat),
-                       ", ", repr(self.lt), ", height=", repr(self.height),
-                       ", loc_coord=", repr(self.loc_coord), ", ocb_lat=",
-                       repr(self.ocb_lat), ", ocb_mlt=", repr(self.ocb_mlt),
-                       ", r_corr=", repr(self.r_corr), ", vect_n=",
-                       repr(self.vect_n), ", vect_e=", repr(self.vect_e),
-                       ", vect_z=", repr(self.vect_z), ", vect_mag=",
-                       repr(self.vect_mag), ", vect_coord=",
-                       repr(self.vect_coord), ", dat_name=",
-                       repr(self.dat_name), ", dat_units=",
-                       repr(self.dat_units), ", scale_func=", repr_func, ")"])
+        # Format the base output, with all of the elements and their digits
+        with np.printoptions(floatmode='unique', threshold=sys.maxsize):
+            out = "".join(["ocbpy.ocb_scaling.VectorData(", repr(self.dat_ind),
+                           ", ", repr(self.ocb_ind), ", ", repr(self.lat),
+                           ", ", repr(self.lt), ", height=", repr(self.height),
+                           ", loc_coord=", repr(self.loc_coord), ", ocb_lat=",
+                           repr(self.ocb_lat), ", ocb_mlt=",
+                           repr(self.ocb_mlt), ", r_corr=", repr(self.r_corr),
+                           ", vect_n=", repr(self.vect_n), ", vect_e=",
+                           repr(self.vect_e), ", vect_z=", repr(self.vect_z),
+                           ", vect_mag=", repr(self.vect_mag)])
 
         # Reformat the numpy representations
         out = out.replace('array', 'numpy.array')
 
+        # Add the coordinates, names, and functions
+        out = "".join([out, ", vect_coord=",
+                       repr(self.vect_coord), ", dat_name=",
+                       repr(self.dat_name), ", dat_units=",
+                       repr(self.dat_units), ", scale_func=", repr_func, ")"])
+
         return out
 
     def __str__(self):
-- 
2.43.0


From ebe638bf0d7c85cf9c68ba794145caa0b09fb881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 64/79] fix: print each vector once and of every shape

---
 ocbpy/ocb_scaling.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 068b931..077b3ea 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -247,25 +247,23 @@ class VectorData(object):
         else:
             out = '\n'.join([out, "   Value: Mag. [N, E, Z] Index"])
             for i, mag in enumerate(self.ocb_mag):
-                if self.vect_mag.shape == () and i == 0:
-                    vec_line = ''.join([
-                        self.vect_coord, ": {:.3g}".format(self.vect_mag),
-                        " [{:.3g}, {:.3g}, ".format(self.vect_n, self.vect_e),
-                        "{:.3g}] {:d}".format(self.vect_z, self.dat_ind)])
-                elif self.vect_mag.shape != ():
-                    vec_line = ''.join([
-                        self.vect_coord, ": {:.3g} [".format(self.vect_mag[i]),
-                        "{:.3g}, {:.3g}".format(self.vect_n[i], self.vect_e[i]),
-                        ", {:.3g}] {:d}".format(self.vect_z[i],
-                                                self.dat_ind[i])])
+                # Get the values for this index, any of which may be a scalar
+                (vmag, vn, ve, vz, dind, on, oe, oz, oind) = [
+                    val if val.shape == () else val[i]
+                    for val in [self.vect_mag, self.vect_n, self.vect_e,
+                                self.vect_z, self.dat_ind, self.ocb_n,
+                                self.ocb_e, self.ocb_z, self.ocb_ind]]
+
+                # A vector with several boundary records is printed once
+                if i == 0 or (self.vect_mag.shape != ()
+                              or self.dat_ind.shape != ()):
+                    out = '\n'.join([
+                        out, "{:s}: {:.3g} [{:.3g}, {:.3g}, {:.3g}] {:d}".format(
+                            self.vect_coord, vmag, vn, ve, vz, dind)])
                 if not np.isnan(mag):
-                    vec_line = "".join([
-                        vec_line, "\n     OCB: {:.3g} [".format(mag),
-                        "{:.3g}, {:.3g}, ".format(self.ocb_n[i], self.ocb_e[i]),
-                        "{:.3g}] {:d}".format(
-                            self.ocb_z[i], self.ocb_ind
-                            if self.ocb_ind.shape == () else self.ocb_ind[i])])
-                out = '\n'.join([out, vec_line])
+                    out = '\n'.join([
+                        out, "     OCB: {:.3g} [{:.3g}, {:.3g}, {:.3g}] {:d}".format(
+                            mag, on, oe, oz, oind)])
 
         # Print the scaling information
         out = "\n".join([out, "-------------------------------------------",
-- 
2.43.0


From 82e476024bc3fe1e7f9bf2567b5c97b23fcd61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 65/79] fix: keep the shape of a single location when
 converting coordinates

---
 ocbpy/ocb_scaling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 077b3ea..b30ae0c 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -999,6 +999,11 @@ class VectorData(object):
                     # Convert to SLT
                     new_lt = ocb_time.glon2slt(new_lon, dtime)
 
+            # A single location and time has a single, scalar location
+            if dtime is not None and self.lat.shape == self.lt.shape == ():
+                new_lat = np.asarray(new_lat).reshape(())
+                new_lt = np.asarray(new_lt).reshape(())
+
             # Update the location attributes
             self.lat = np.asarray(new_lat)
             self.lt = np.asarray(new_lt)
-- 
2.43.0


From ecd359849f0500054a668247d03c0fc50674a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 66/79] fix: accept a maximum time difference of zero between
 boundaries

---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index d26fd5b..42a7a25 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1102,7 +1102,7 @@ class DualBoundary(object):
         if abs(eab_lat) >= abs(ocb_lat):
             raise ValueError('OCB must be poleward of the EAB')
 
-        if max_delta <= 0:
+        if max_delta < 0:
             raise ValueError(''.join(['Maximum time difference between ',
                                       'boundary measurements must be positive',
                                       ' or zero']))
-- 
2.43.0


From fd96d571538537f240a0a4082aff9c386edfa403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 67/79] fix: convert between geodetic and geocentric locations

---
 ocbpy/ocb_scaling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index b30ae0c..5267659 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -912,6 +912,11 @@ class VectorData(object):
         """
         dtime = None
 
+        if 'magnetic' not in [coord.lower(), self.loc_coord] and (
+                coord.lower() != self.loc_coord):
+            # AACGM only converts to and from magnetic coordinates
+            self.update_loc_coords(dtimes, trace_method=trace_method)
+
         if coord.lower() != self.loc_coord:
             # Ensure the data is shaped correctly
             if len(self.lt.shape) == 0 and len(self.lat.shape) == 0:
-- 
2.43.0


From 72f65ede86a50a960aaf2a9db4ffb86167651d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 68/79] fix: keep the location coordinate names in lower case

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 5267659..671d770 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1012,7 +1012,7 @@ class VectorData(object):
             # Update the location attributes
             self.lat = np.asarray(new_lat)
             self.lt = np.asarray(new_lt)
-            self.loc_coord = coord
+            self.loc_coord = coord.lower()
 
         return
 
-- 
2.43.0


From 3455d167392885cdbcace9b497ac3a7f9995da1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 69/79] fix: read files with the time before the date

---
 ocbpy/instruments/general.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index f6316d6..afed46f 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -123,6 +123,11 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     dfmt_parts = list() if datetime_fmt is None else datetime_fmt.split(" ")
     time_formats = ["H", "I", "p", "M", "S", "f", "z", "Z"]
 
+    # Dates are placed before times when they are converted together
+    convert_fmt = None if datetime_fmt is None else " ".join(sorted(
+        dfmt_parts, key=lambda part: part.upper() == "SOD" or (
+            part.find("%") == 0 and part[1:2] in time_formats)))
+
     # Make sure the max_str_length is long enough to read datetime and that
     # the time data will be cast in the correct format
     if datetime_fmt is not None:
@@ -211,7 +216,7 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
             # Each line may have times that need to be combined and converted
             convert_time_input = {"year": None, "soy": None, "yyddd": None,
                                   "date": None, "tod": None,
-                                  "datetime_fmt": datetime_fmt}
+                                  "datetime_fmt": convert_fmt}
 
             # Cycle through each of the columns in this data row
             for num, name in enumerate(keylist):
-- 
2.43.0


From 8d46c7f043b40b98adf070c24b79177a8f4e47e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:20 +0000
Subject: [PATCH 70/79] fix: forget calculated boundary locations when other
 records are loaded

---
 ocbpy/_boundary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 42a7a25..531fe36 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -384,6 +384,12 @@ class OCBoundary(object):
         self._etime = etime
         self.rec_ind = -1
 
+        # Boundary locations belong to the records they were calculated for
+        for attr in ['aacgm_boundary_lat', 'aacgm_boundary_mlt',
+                     'aacgm_boundary_lon']:
+            if hasattr(self, attr):
+                delattr(self, attr)
+
         dt_list = list()
         if stime is None and etime is None:
             itime = np.arange(0, odata.shape[0], 1)
-- 
2.43.0


From c7c994a5b6633f287acfdc14a5745a04d92c15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:55 +0000
Subject: [PATCH 71/79] fix: read dates and times in the documented format when
 load is given no format

---
 ocbpy/_boundary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 531fe36..6a883ee 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -368,6 +368,10 @@ class OCBoundary(object):
             ldtype[cols.index('date')] = ('date', '|U50')
             ldtype[cols.index('time')] = ('time', '|U50')
 
+            # Use the expected date and time format if none was supplied
+            if len(datetime_fmt) == 0:
+                datetime_fmt = "%Y-%m-%d %H:%M:%S"
+
         if dflag < 0:
             logger.error("missing time columns in [{:s}]".format(ocb_cols))
             return
-- 
2.43.0


From 338cba9048dc2913b8a0d662cc5633925a5fd6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:31 +0000
Subject: [PATCH 72/79] fix: give the pole angle at every latitude when the
 local times are single values

---
 ocbpy/vectors.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index f3e5855..a68e4f3 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -80,13 +80,18 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
     del_long = ocb_time.hr2rad(np.asarray(pole_lt) - np.asarray(data_lt),
                                max_range=np.pi)
 
-    # Initalize the output
-    pole_angle = np.full(shape=del_long.shape, fill_value=np.nan)
-
     # Ensure the latitudes are array-like
     data_lat = np.asarray(data_lat)
     pole_lat = np.asarray(pole_lat)
 
+    # Expand a single difference in local time to each of the latitudes
+    if len(del_long.shape) == 0:
+        del_long = np.full(shape=(data_lat + pole_lat).shape,
+                           fill_value=del_long)
+
+    # Initalize the output
+    pole_angle = np.full(shape=del_long.shape, fill_value=np.nan)
+
     # Assign the extreme values
     if len(del_long.shape) == 0:
         if del_long in [-np.pi, 0.0, np.pi]:
-- 
2.43.0


From 099b7178406dc733986cb6117e2d5dce1fe61dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:31 +0000
Subject: [PATCH 73/79] fix: leave the pole angle undefined for undefined
 latitudes on the meridian of the pole

---
 ocbpy/vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index a68e4f3..b998dc7 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -97,7 +97,7 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
         if del_long in [-np.pi, 0.0, np.pi]:
             if abs(data_lat) > abs(pole_lat):
                 pole_angle = 180.0
-            else:
+            elif abs(data_lat) <= abs(pole_lat):
                 pole_angle = 0.0
             return pole_angle
     else:
-- 
2.43.0


From 0be40bf0998ef81bb2c772cf30d026f9ce1f4b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:31 +0000
Subject: [PATCH 74/79] fix: define pole quadrants for every pole angle when
 the local times are single values

---
 ocbpy/vectors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index b998dc7..43aac32 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -179,6 +179,12 @@ def define_pole_quadrants(data_lt, pole_lt, pole_angle):
     # Determine where the destination pole is relative to the data vector
     del_lt = np.asarray(pole_lt) - np.asarray(data_lt)
 
+    # Expand a single difference in local time to each of the pole angles
+    pole_angle = np.asarray(pole_angle)
+    if len(del_lt.shape) == 0:
+        del_lt = np.full(shape=pole_angle.shape, fill_value=del_lt,
+                         dtype=float)
+
     # Initalize the output
     pole_quad = np.zeros(shape=np.asarray(del_lt).shape)
 
-- 
2.43.0


From 5324aaa7db19f188ef2c4a17e9bd986fa4faa622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:14 +0000
Subject: [PATCH 75/79] fix: define pole quadrants for arrays of whole hours

---
 ocbpy/vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 43aac32..125afd8 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -177,7 +177,7 @@ def define_pole_quadrants(data_lt, pole_lt, pole_angle):
 
     """
     # Determine where the destination pole is relative to the data vector
-    del_lt = np.asarray(pole_lt) - np.asarray(data_lt)
+    del_lt = np.asarray(pole_lt, dtype=float) - np.asarray(data_lt)
 
     # Expand a single difference in local time to each of the pole angles
     pole_angle = np.asarray(pole_angle)
-- 
2.43.0


From a36400ca25d38e61bf24ac5d62dec6ee83728859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 76/79] fix: do not write normalised locations into the arrays
 of the user

---
 ocbpy/ocb_scaling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 671d770..92d300e 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -678,6 +678,11 @@ class VectorData(object):
                                              method=trace_method)
                 self._assign_normal_coord_output(out_coord)
             else:
+                # Use new arrays, as those supplied belong to the user
+                self.ocb_lat = np.nan
+                self.ocb_mlt = np.nan
+                self.r_corr = np.nan
+
                 # Cycle through the boundary indices
                 for i, ocb.rec_ind in enumerate(self.ocb_ind):
                     # Handle time different, depending on the OCB and
-- 
2.43.0


From b71e49f67449e0db967410086ddd05aca4803cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:29 +0000
Subject: [PATCH 77/79] fix: forget vectors of another boundary when there are
 none for the boundary set last

---
 ocbpy/ocb_scaling.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 92d300e..6ddee44 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -743,6 +743,14 @@ class VectorData(object):
             # Assign the OCB vector default values and location.  Will also
             # update the AACGM north azimuth of the vector.
             self.scale_vector()
+        else:
+            # There are no vectors for this boundary, so any vectors that were
+            # calculated for another boundary need to be removed
+            for attr in ['ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag']:
+                setattr(self, attr, np.full(shape=self.vshape,
+                                            fill_value=np.nan))
+            self.ocb_quad = np.zeros(shape=self.vshape)
+            self.vec_quad = np.zeros(shape=self.vshape)
 
         return
 
-- 
2.43.0


From 43486a3110666cbd80c14938cc919f68b0d02544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 78/79] fix: set several boundary records for one datum in
 geographic coordinates

---
 ocbpy/ocb_scaling.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 6ddee44..e8e9dcc 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -225,11 +225,17 @@ class VectorData(object):
                             self.loc_coord.rjust(9), self.lat[i], self.lt[i],
                             self.height[i], dind), ocb_line])
             else:
-                out = '\n'.join([
-                    out, "{:s}: [{:.3f}, {:.3f}, {:.1f}, {:d}]".format(
-                        self.loc_coord.rjust(9), self.lat, self.lt,
-                        self.height, self.dat_ind)])
                 for i, oind in enumerate(self.ocb_ind):
+                    # Converted locations differ between the boundary times
+                    lat, lt, height = [
+                        val if val.shape == () else val[i]
+                        for val in [self.lat, self.lt, self.height]]
+
+                    if i == 0 or self.lat.shape != ():
+                        out = '\n'.join([
+                            out, "{:s}: [{:.3f}, {:.3f}, {:.1f}, {:d}]".format(
+                                self.loc_coord.rjust(9), lat, lt, height,
+                                self.dat_ind)])
                     out = '\n'.join([
                         out, "      OCB: [{:.3f}, {:.3f}, N/A, {:d}]\n".format(
                             self.ocb_lat[i], self.ocb_mlt[i], oind)])
@@ -687,16 +693,12 @@ class VectorData(object):
                 for i, ocb.rec_ind in enumerate(self.ocb_ind):
                     # Handle time different, depending on the OCB and
                     # data shapes. Calcualte the coordinates and save the output
-                    if self.ocb_ind.shape == self.dat_ind.shape:
-                        out_coord = ocb.normal_coord(self.lat[i], self.lt[i],
-                                                     coords=self.loc_coord,
-                                                     height=self.height[i],
-                                                     method=trace_method)
-                    else:
-                        out_coord = ocb.normal_coord(self.lat, self.lt,
-                                                     coords=self.loc_coord,
-                                                     height=self.height,
-                                                     method=trace_method)
+                    lat, lt, height = [
+                        val if val.shape == () else val[i]
+                        for val in [self.lat, self.lt, self.height]]
+                    out_coord = ocb.normal_coord(lat, lt, coords=self.loc_coord,
+                                                 height=height,
+                                                 method=trace_method)
                     self._assign_normal_coord_output(out_coord, i)
 
         # Exit if the OCB coordinates can't be calculated at this location
-- 
2.43.0


From 29f128edcb4013141beb22d4455202fbae4f153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:43 +0000
Subject: [PATCH 79/79] fix: align pysat locations and data by the names of
 their dimensions

Heights with a dimension of their own, and coordinates that are not in the
order of the dimensions, put values at the wrong locations.
---
 ocbpy/instruments/pysat_instruments.py | 156 +++++++++++++------------
 1 file changed, 84 insertions(+), 72 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index aa2a4af..69dc438 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -294,6 +294,15 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                         vector_attrs[oattr].append(vector_names[eattr][vinit])
                     vdim += 1
 
+            # The vector components need to share their dimensions
+            if not pysat_inst.pandas_format:
+                cdims = sorted([set(pysat_inst[vname].dims) for vname in
+                                vector_attrs.get(oattr, [])], key=len)
+                if not np.all([cdims[i] <= cdims[i + 1]
+                               for i in range(len(cdims) - 1)]):
+                    raise ValueError(
+                        'mismatched dimensions for VectorData inputs')
+
     # Determine how many of the pysat names are variables
     pysat_var_names = len(pysat_names)
     if not pysat_inst.pandas_format:
@@ -318,15 +327,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     if pysat_inst.pandas_format:
         finite_mask = ((np.sign(lat) == hemisphere)
                        & np.isfinite(pysat_inst[:, pysat_names].max(axis=1)))
-        dat_coords = [pysat_inst.index.name]
-        combo_shape = [pysat_inst.index.shape[0]]
     else:
         nan_inst = pysat_inst.data.where(np.sign(pysat_inst.data[mlat_name])
                                          == hemisphere)
         finite_mask = np.isfinite(nan_inst[pysat_names].to_array().max(
             'variable'))
-        dat_coords = [coord for coord in pysat_inst[pysat_names].coords.keys()]
-    dat_ind = np.where(finite_mask)
 
     # Test the OCB data
     if ocb.records == 0:
@@ -334,78 +339,59 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
         return
 
     # Ensure the LT, Lat, and Height data are the same shape
-    if lat.shape != lt.shape or lat.shape[0] != pysat_inst.index.shape[
-            0] or (height.shape != lat.shape and len(height.shape) > 0):
-        if pysat_inst.pandas_format:
+    if pysat_inst.pandas_format:
+        if lat.shape != lt.shape or lat.shape[0] != pysat_inst.index.shape[
+                0] or (height.shape != lat.shape and len(height.shape) > 0):
             raise ValueError('unexpected height shape or bad lat/lt data')
 
+        ocb_coords = [pysat_inst.index.name]
+    else:
         # Use local time to set the initial coordinates, since it will have
-        # UT dependence and latitude may not
-        ocb_coords = [lt_coord for lt_coord
-                      in pysat_inst[mlt_name].coords.keys()]
-        combo_shape = list(lt.shape)
-
-        # Expand the coordinates if the lat coordinates are not the
-        # same as the LT coordinates or height coordinatess
-        for lat_coord in pysat_inst[mlat_name].coords:
-            if lat_coord not in pysat_inst[mlt_name].coords:
-                combo_shape.append(pysat_inst[lat_coord].shape[0])
-                ocb_coords.append(lat_coord)
-
-        # Reshape the latitude and local time data if necessary
-        if lat.shape != tuple(combo_shape) or lt.shape != tuple(combo_shape):
-            out_lat, out_lt = np.meshgrid(lat, lt)
-            lat = out_lat.reshape(combo_shape)
-            lt = out_lt.reshape(combo_shape)
+        # UT dependence and latitude may not. Expand the coordinates if the lat
+        # or height coordinates are not the same as the LT coordinates
+        loc_names = [mlt_name, mlat_name]
+        if height_name in pysat_inst.variables:
+            loc_names.append(height_name)
+
+        ocb_coords = list()
+        combo_shape = list()
+        for loc_name in loc_names:
+            for coord in pysat_inst[loc_name].dims:
+                if coord not in ocb_coords:
+                    ocb_coords.append(coord)
+                    combo_shape.append(pysat_inst[loc_name].sizes[coord])
+
+        # Reshape the latitude and local time data
+        lat = expand_to_coords(pysat_inst[mlat_name], ocb_coords, combo_shape)
+        lt = expand_to_coords(pysat_inst[mlt_name], ocb_coords, combo_shape)
 
         # Determine if reshaping for altitude is necessary
-        if len(height.shape) == 0:
-            height = np.full(shape=lat.shape, fill_value=height)
-        elif height.shape != lat.shape:
-            if height_name in pysat_inst.variables:
-                new_coords = False
-                for alt_coord in pysat_inst[height_name].coords:
-                    if alt_coord not in ocb_coords:
-                        combo_shape.append(pysat_inst[alt_coord].shape[0])
-                        ocb_coords.append(alt_coord)
-                        new_coords = True
-
-                # Reshape the data
-                if new_coords:
-                    out_lat, out_height = np.meshgrid(lat, height)
-                    out_lt, _ = np.meshgrid(lt, height)
-                    lat = out_lat.reshape(combo_shape)
-                    height = out_height.reshape(combo_shape)
-                    lt = out_lt.reshape(combo_shape)
-                else:
-                    height = height.reshape(combo_shape)
-            elif len(height.shape) == len(lat.shape):
-                # Try and reshape the height
-                height = height.reshape(combo_shape)
-            else:
-                # Can't reshape the height
-                raise ValueError('unexpected height shape')
-    elif pysat_inst.pandas_format:
-        ocb_coords = [pysat_inst.index.name]
-    else:
-        ocb_coords = [coord for coord in pysat_inst[mlat_name].dims]
-
-    # See if the data has more dimensions than the OCB coordinates
-    if len(dat_coords) > len(ocb_coords):
-        combo_shape = list(lat.shape)
-        for dcoord in dat_coords:
-            if dcoord not in ocb_coords:
-                ocb_coords.append(dcoord)
-                combo_shape.append(pysat_inst[dcoord].shape[0])
-
-        # Reverse and transpose the arrays
-        combo_shape.reverse()
-        out_lat = np.full(shape=combo_shape, fill_value=lat.transpose())
-        out_lt = np.full(shape=combo_shape, fill_value=lt.transpose())
-        out_height = np.full(shape=combo_shape, fill_value=height.transpose())
-        lat = out_lat.transpose()
-        lt = out_lt.transpose()
-        height = out_height.transpose()
+        if height_name in loc_names:
+            height = expand_to_coords(pysat_inst[height_name], ocb_coords,
+                                      combo_shape)
+        elif len(height.shape) == len(lat.shape):
+            # Try and reshape the height
+            height = height.reshape(combo_shape)
+        elif len(height.shape) > 0:
+            # Can't reshape the height
+            raise ValueError('unexpected height shape')
+
+        # See if the data has more dimensions than the OCB coordinates
+        for coord in finite_mask.dims:
+            if coord not in ocb_coords:
+                ocb_coords.append(coord)
+                lat, lt, height = [
+                    val if len(val.shape) == 0
+                    else np.repeat(val[..., np.newaxis],
+                                   finite_mask.sizes[coord], axis=-1)
+                    for val in [lat, lt, height]]
+
+        # The data need the same order of dimensions as the locations
+        for loc_name in loc_names:
+            finite_mask = finite_mask.broadcast_like(pysat_inst[loc_name])
+        finite_mask = finite_mask.transpose(*ocb_coords)
+
+    dat_ind = np.where(finite_mask)
 
     # A single height applies to all of the data
     if len(height.shape) == 0:
@@ -445,7 +431,7 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                 and ocb.rec_ind < ocb.records):
             time_ind = np.where(dat_ind[0] == uind[idat])[0]
 
-            if len(dat_coords) > 1:
+            if len(ocb_coords) > 1:
                 iout = tuple(dind[time_ind] for dind in dat_ind)
                 if pysat_var_names > 1:
                     # If there is more than one variable, need to downselect
@@ -457,6 +443,7 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                 time_mask = np.isfinite(time_sel.where(
                     finite_mask & (pysat_inst[pysat_inst.index.name]
                                    == pysat_inst.index[uind][idat])))
+                time_mask = time_mask.transpose(*ocb_coords)
                 vind = iout[0]
             else:
                 iout = dat_ind[0][time_ind]
@@ -589,6 +576,31 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     return
 
 
+def expand_to_coords(data, coords, shape):
+    """Expand data to a set of coordinates.
+
+    Parameters
+    ----------
+    data : xr.DataArray
+        Data with dimensions that are a subset of the desired coordinates
+    coords : list-like
+        Names of the desired coordinates
+    shape : list-like
+        Length of each of the desired coordinates
+
+    Returns
+    -------
+    out : np.array
+        Data with the desired coordinates and shape
+
+    """
+    dims = [coord for coord in coords if coord in data.dims]
+    out = np.asarray(data.transpose(*dims)).reshape(
+        [num if coord in dims else 1 for coord, num in zip(coords, shape)])
+
+    return np.array(np.broadcast_to(out, shape))
+
+
 def reshape_pad_mask_flatten(data, mask):
     """Reshape, pad, mask, and flatten data.
 
-- 
2.43.0

