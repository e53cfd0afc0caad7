From a0bc72845e4ea2af99eba398ead82d38b68a0a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 01/27] fix: loop backend of universal kriging reads specified
 drift at the kriging point

---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 471802a..7b34fd0 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1067,7 +1067,7 @@ class UniversalKriging:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 9b67519..d25b2ca 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -854,7 +854,7 @@ class UniversalKriging3D:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
-- 
2.43.0


From 2ca17633aea66c5bcda091efee152ac683441480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 02/27] fix: loop backend accepts kriging points on a
 point-drift location

---
 src/pykrige/uk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7b34fd0..7c22bfb 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1056,8 +1056,8 @@ class UniversalKriging:
                             + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
                         )
                     )
-                    if np.any(np.isinf(log_dist)):
-                        log_dist[np.isinf(log_dist)] = -100.0
+                    if np.isinf(log_dist):
+                        log_dist = -100.0
                     b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
                     i += 1
             if self.external_Z_drift:
-- 
2.43.0


From 47a928516b9fd62480aae27a1de3f9371c7e979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 03/27] fix: anisotropy adjustment accepts integer coordinates,
 leaves its input alone

---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 30ae911..28fc8da 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -142,7 +142,7 @@ def _adjust_for_anisotropy(X, center, scaling, angle):
     center = np.asarray(center)[None, :]
     angle = np.asarray(angle) * np.pi / 180
 
-    X -= center
+    X = X - center
 
     Ndim = X.shape[1]
 
-- 
2.43.0


From 19fe80b6ffbedd441dfbbf3ce027085819d7a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 04/27] fix: point-drift locations follow an updated anisotropy

---
 src/pykrige/uk.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7c22bfb..b5c6971 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -448,6 +448,7 @@ class UniversalKriging:
                 )
             self.point_log_drift = True
             point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
+            self._point_log_orig = np.vstack((point_log[:, 0], point_log[:, 1])).T
             self.point_log_array = np.zeros(point_log.shape)
             self.point_log_array[:, 2] = point_log[:, 2]
             self.point_log_array[:, :2] = _adjust_for_anisotropy(
@@ -721,6 +722,15 @@ class UniversalKriging:
                 [self.anisotropy_scaling],
                 [self.anisotropy_angle],
             ).T
+            if self.point_log_drift:
+                point_log = self.point_log_array.copy()
+                point_log[:, :2] = _adjust_for_anisotropy(
+                    self._point_log_orig,
+                    [self.XCENTER, self.YCENTER],
+                    [self.anisotropy_scaling],
+                    [self.anisotropy_angle],
+                )
+                self.point_log_array = point_log
 
         if self.verbose:
             print("Updating variogram mode...")
-- 
2.43.0


From 2a895185bc199522645e16864f2d24b5ddb01254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 05/27] fix: reject moving windows that are larger than the
 data set or too small

---
 src/pykrige/ok.py   | 2 ++
 src/pykrige/ok3d.py | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 2eb0a7a..1cae521 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -838,6 +838,8 @@ class OrdinaryKriging:
             # If this is not checked, nondescriptive errors emerge
             # later in the code.
             raise ValueError("n_closest_points has to be at least two!")
+        if n_closest_points is not None and n_closest_points > self.X_ADJUSTED.size:
+            raise ValueError("n_closest_points exceeds the number of data points!")
 
         xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
         ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 417c82c..49b59e9 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -830,6 +830,11 @@ class OrdinaryKriging3D:
         if style != "grid" and style != "masked" and style != "points":
             raise ValueError("style argument must be 'grid', 'points', or 'masked'")
 
+        if n_closest_points is not None and n_closest_points <= 1:
+            raise ValueError("n_closest_points has to be at least two!")
+        if n_closest_points is not None and n_closest_points > self.X_ADJUSTED.size:
+            raise ValueError("n_closest_points exceeds the number of data points!")
+
         xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
         ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
         zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True)))
-- 
2.43.0


From 5143499577507a883177531f6762b1be666017eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 06/27] fix: write_asc_grid rejects an unknown style before
 truncating the file

---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 496dad8..36dd295 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -81,6 +81,8 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
         )
+    if style not in (1, 2):
+        raise ValueError("style kwarg must be either 1 or 2.")
     cellsize = -1
     if style == 2:
         if dx != dy:
@@ -117,8 +119,6 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
             f.write("YLLCORNER      " + "{:<10.2f}".format(yllcorner) + "\n")
             f.write("CELLSIZE       " + "{:<10.2f}".format(cellsize) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
-        else:
-            raise ValueError("style kwarg must be either 1 or 2.")
 
         for m in range(z.shape[0] - 1, -1, -1):
             for n in range(z.shape[1]):
-- 
2.43.0


From 4f2cb58a66a6079847eb771881ed86777de30c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 07/27] fix: write_asc_grid keeps wide neighbouring values
 separated

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 36dd295..5423671 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -122,7 +122,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
         for m in range(z.shape[0] - 1, -1, -1):
             for n in range(z.shape[1]):
-                f.write("{:<16.2f}".format(z[m, n]))
+                f.write("{:<15.2f} ".format(z[m, n]))
             if m != 0:
                 f.write("\n")
 
-- 
2.43.0


From 15590f049baebf25dbb00154018836d5c7e81de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 08/27] fix: read_zmap_grid rejects files with too few data
 values

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 5423671..6eb1a2b 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -434,7 +434,7 @@ def read_zmap_grid(filename):
                     data_values = np.empty(ny * nx)
                 i_header_line += 1
 
-    if nx * ny != len(data_values):
+    if nx * ny != i_value:
         raise IOError(
             "Error reading *.zmap file. Encountered problem "
             "with header: (nx * ny) does not match with the "
-- 
2.43.0


From b38f4fee4d6ef4038781e5d5eaf930ad82ba1317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 09/27] fix: read_zmap_grid returns exactly one coordinate per
 grid column and row

---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 6eb1a2b..50a4789 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -451,8 +451,8 @@ def read_zmap_grid(filename):
     dx = (maxx - originx) / (nx - 1)
     dy = (maxy - originy) / (ny - 1)
 
-    gridx = np.arange(originx, originx + nx * dx, dx)
-    gridy = np.arange(originy, originy + ny * dy, dy)
+    gridx = originx + dx * np.arange(nx)
+    gridy = originy + dy * np.arange(ny)
 
     cellsize = (dx, dy)
 
-- 
2.43.0


From 97d8b7b41db430c7c0ccbf4895c5d1568ea49e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 10/27] fix: read_zmap_grid returns the whole coordinate-system
 name

---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 50a4789..f427401 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -400,9 +400,9 @@ def read_zmap_grid(filename):
         while True:
             line = f.readline()
             if line.startswith("!"):
-                line_strings = line.split(":")
+                line_strings = line.split(":", 1)
                 if line_strings[0].__contains__("COORDINATE REFERENCE SYSTEM"):
-                    coord_sys = line_strings[1].replace("\n", "")
+                    coord_sys = line_strings[1].strip()
             else:
                 line_strings = line.split()
                 line_strings = [string.replace(",", "") for string in line_strings]
-- 
2.43.0


From 0a742a057f40e7141f87f790758815ede2a82569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 11/27] fix: euclid3_to_great_circle leaves its argument alone
 and accepts scalars

---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 28fc8da..c132038 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -113,7 +113,7 @@ def euclid3_to_great_circle(euclid3_distance):
         The corresponding great circle distance(s) between the points.
     """
     # Eliminate some possible numerical errors:
-    euclid3_distance[euclid3_distance > 2.0] = 2.0
+    euclid3_distance = np.minimum(euclid3_distance, 2.0)
     return 180.0 - 360.0 / np.pi * np.arccos(0.5 * euclid3_distance)
 
 
-- 
2.43.0


From 63f68817b3e589378534176d6740ce12e0835451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 12/27] fix: masked vectorized universal kriging works without
 the unbiasedness condition

---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index b5c6971..7d5c70f 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -997,7 +997,7 @@ class UniversalKriging:
 
         if (~mask).any():
             mask_b = np.repeat(
-                mask[:, np.newaxis, np.newaxis], n_withdrifts + 1, axis=1
+                mask[:, np.newaxis, np.newaxis], b.shape[1], axis=1
             )
             b = np.ma.array(b, mask=mask_b)
 
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index d25b2ca..a57ae14 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -789,7 +789,7 @@ class UniversalKriging3D:
 
         if (~mask).any():
             mask_b = np.repeat(
-                mask[:, np.newaxis, np.newaxis], n_withdrifts + 1, axis=1
+                mask[:, np.newaxis, np.newaxis], b.shape[1], axis=1
             )
             b = np.ma.array(b, mask=mask_b)
 
-- 
2.43.0


From b4c16a64cda1a909db244fe115beb88d97e0a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 13/27] fix: models keep their own copy of the caller's
 parameter and drift lists

---
 src/pykrige/core.py | 6 +++---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index c132038..b7aac69 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -330,7 +330,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'linear'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["power"]:
             if len(variogram_model_parameters) != 3:
@@ -340,7 +340,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'power'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["gaussian", "spherical", "exponential", "hole-effect"]:
             if len(variogram_model_parameters) != 3:
@@ -357,7 +357,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
             ]
 
         elif variogram_model in ["custom"]:
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         else:
             raise ValueError(
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7d5c70f..b76ff70 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -506,7 +506,7 @@ class UniversalKriging:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index a57ae14..fc31a60 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -445,7 +445,7 @@ class UniversalKriging3D:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
-- 
2.43.0


From 7dee39e166d0d4baf3bc6e9f70a931e2a96bbe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 14/27] fix: external drift grids may have descending axes

---
 src/pykrige/uk.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index b76ff70..61692bf 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -432,6 +432,12 @@ class UniversalKriging:
                 self.external_Z_array = np.array(external_drift)
             self.external_Z_array_x = np.array(external_drift_x).flatten()
             self.external_Z_array_y = np.array(external_drift_y).flatten()
+            # the bilinear interpolation relies on ascending axes
+            x_order = np.argsort(self.external_Z_array_x)
+            y_order = np.argsort(self.external_Z_array_y)
+            self.external_Z_array = self.external_Z_array[y_order][:, x_order]
+            self.external_Z_array_x = self.external_Z_array_x[x_order]
+            self.external_Z_array_y = self.external_Z_array_y[y_order]
             self.z_scalars = self._calculate_data_point_zscalars(
                 self.X_ORIG, self.Y_ORIG
             )
-- 
2.43.0


From 89dad5e586820ca1f9568113740024df07c6d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 15/27] fix: masked points outside the external drift grid do
 not fail the vectorized backend

---
 src/pykrige/uk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 61692bf..07c1f2c 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -981,8 +981,8 @@ class UniversalKriging:
                 b[:, i, 0] = -self.point_log_array[well_no, 2] * log_dist
                 i += 1
         if self.external_Z_drift:
-            b[:, i, 0] = self._calculate_data_point_zscalars(
-                xy_orig[:, 0], xy_orig[:, 1]
+            b[~mask, i, 0] = self._calculate_data_point_zscalars(
+                xy_orig[~mask, 0], xy_orig[~mask, 1]
             )
             i += 1
         if self.specified_drift:
-- 
2.43.0


From 3d8751c28cc392e7fc999d83ade9f83fcfe9e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 16/27] fix: moving windows honour pseudo_inv

---
 src/pykrige/lib/cok.pyx | 40 +++++++++++++++++++++++++---------------
 src/pykrige/ok.py       |  5 ++++-
 src/pykrige/ok3d.py     |  5 ++++-
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index 9a350e1..8270c10 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -8,6 +8,7 @@ import scipy.linalg
 from scipy.linalg.cython_blas cimport dgemv
 from scipy.linalg.cython_lapack cimport dgesv
 
+from ..core import P_INV
 from .variogram_models cimport get_variogram_model
 
 
@@ -120,6 +121,7 @@ cpdef _c_exec_loop_moving_window(
     cdef int nb, nrhs=1, info
     cdef int [::1] ipiv = np.zeros(n_max+1, dtype='int32')
     cdef long [::1] bd_idx_sel
+    cdef double [::1] x_pinv
 
     nb = n + 1
 
@@ -162,21 +164,29 @@ cpdef _c_exec_loop_moving_window(
         # a2D = a_selection.base[:nb*nb].reshape((nb, nb))
         # x = scipy.linalg.solve(a2D, b.base[:nb])
 
-        dgesv(
-                &nb,
-                &nrhs,
-                &(a_selection[0]),
-                &nb,
-                &(ipiv[0]),
-                &(x[0]),
-                &nb,
-                &info
-                )
-
-        if info > 0:
-            raise ValueError('Singular matrix')
-        elif info < 0:
-            raise ValueError('Wrong arguments')
+        if pars['pseudo_inv']:
+            x_pinv = np.dot(
+                P_INV[pars['pseudo_inv_type']](a_selection.base[:nb*nb].reshape((nb, nb))),
+                b.base[:nb]
+            )
+            for k in range(nb):
+                x[k] = x_pinv[k]
+        else:
+            dgesv(
+                    &nb,
+                    &nrhs,
+                    &(a_selection[0]),
+                    &nb,
+                    &(ipiv[0]),
+                    &(x[0]),
+                    &nb,
+                    &info
+                    )
+
+            if info > 0:
+                raise ValueError('Singular matrix')
+            elif info < 0:
+                raise ValueError('Wrong arguments')
 
         z_tmp = 0.0
         ss_tmp = 0.0
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 1cae521..cb08185 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -750,7 +750,10 @@ class OrdinaryKriging:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            if self.pseudo_inv:
+                x = np.dot(P_INV[self.pseudo_inv_type](a), b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             zvalues[i] = x[:n, 0].dot(self.Z[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 49b59e9..19f9915 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -725,7 +725,10 @@ class OrdinaryKriging3D:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            if self.pseudo_inv:
+                x = np.dot(P_INV[self.pseudo_inv_type](a), b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             kvalues[i] = x[:n, 0].dot(self.VALUES[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
-- 
2.43.0


From a34590b777dbd433aee1e97b99cb065c762337d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 17/27] fix: C backend refuses user functions named like a
 built-in variogram model

---
 src/pykrige/ok.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index cb08185..330ffcf 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -918,6 +918,14 @@ class OrdinaryKriging:
             except:
                 raise RuntimeError("Unknown error in trying to load Cython extension.")
 
+            if (
+                backend == "C"
+                and self.variogram_function not in self.variogram_dict.values()
+            ):
+                raise NotImplementedError(
+                    "The C backend only supports the built-in variogram models."
+                )
+
             c_pars = {
                 key: getattr(self, key)
                 for key in [
-- 
2.43.0


From 1fdd2f50733c0ae71d205ef60395091041ea0296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 18/27] fix: a rejected update_variogram_model leaves the model
 unchanged

---
 src/pykrige/core.py | 18 ++++++++++++++++++
 src/pykrige/ok.py   |  2 ++
 src/pykrige/ok3d.py |  2 ++
 src/pykrige/uk.py   |  2 ++
 src/pykrige/uk3d.py |  2 ++
 5 files changed, 26 insertions(+)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index b7aac69..4847bbd 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -22,6 +22,8 @@ References
 Copyright (c) 2015-2020, PyKrige Developers
 """
 
+import functools
+
 import numpy as np
 import scipy.linalg as spl
 from scipy.optimize import least_squares
@@ -33,6 +35,22 @@ eps = 1.0e-10  # Cutoff for comparison to zero
 P_INV = {"pinv": spl.pinv, "pinvh": spl.pinvh}
 
 
+def _restore_on_failure(method):
+    """Decorator: if the method raises, the object's attributes are put back."""
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        state = self.__dict__.copy()
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+
+    return wrapper
+
+
 def great_circle_distance(lon1, lat1, lon2, lat2):
     """Calculate the great circle distance between one or multiple pairs of
     points given in spherical coordinates. Spherical coordinates are expected
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 330ffcf..318b326 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -35,6 +35,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_failure,
 )
 
 
@@ -376,6 +377,7 @@ class OrdinaryKriging:
         else:
             self.delta, self.sigma, self.epsilon, self.Q1, self.Q2, self.cR = [None] * 6
 
+    @_restore_on_failure
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 19f9915..a33c06f 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -34,6 +34,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_failure,
 )
 
 
@@ -365,6 +366,7 @@ class OrdinaryKriging3D:
             print("Q2 =", self.Q2)
             print("cR =", self.cR, "\n")
 
+    @_restore_on_failure
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 07c1f2c..bc509a0 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -33,6 +33,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_failure,
 )
 
 
@@ -634,6 +635,7 @@ class UniversalKriging:
 
         return z_scalars
 
+    @_restore_on_failure
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index fc31a60..cf5155e 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -33,6 +33,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_failure,
 )
 
 
@@ -449,6 +450,7 @@ class UniversalKriging3D:
         else:
             self.functional_drift = False
 
+    @_restore_on_failure
     def update_variogram_model(
         self,
         variogram_model,
-- 
2.43.0


From 1f8d0d7c3ba72e661080e43790278dcc3f8f3cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 19/27] fix: GSTools models of unsuitable dimension or lat-lon
 type are rejected

---
 src/pykrige/ok.py   | 4 ++--
 src/pykrige/ok3d.py | 8 ++++++--
 src/pykrige/uk.py   | 4 ++--
 src/pykrige/uk3d.py | 8 ++++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 318b326..be353d9 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -226,7 +226,7 @@ class OrdinaryKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim > 2:
                 raise ValueError("GSTools: model dim is not 1 or 2")
             # check if coordinate types match
             if self.model.latlon and (self.coordinates_type == "euclidean"):
@@ -433,7 +433,7 @@ class OrdinaryKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim > 2:
                 raise ValueError("GSTools: model dim is not 1 or 2")
             # check if coordinate types match
             if self.model.latlon and (self.coordinates_type == "euclidean"):
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index a33c06f..59f2115 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -237,8 +237,10 @@ class OrdinaryKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError("GSTools: latlon models not supported for 3D kriging")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
@@ -435,8 +437,10 @@ class OrdinaryKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError("GSTools: latlon models not supported for 3D kriging")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index bc509a0..0407995 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -270,7 +270,7 @@ class UniversalKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim > 2:
                 raise ValueError("GSTools: model dim is not 1 or 2")
             if self.model.latlon:
                 raise ValueError(
@@ -688,7 +688,7 @@ class UniversalKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim > 2:
                 raise ValueError("GSTools: model dim is not 1 or 2")
             if self.model.latlon:
                 raise ValueError(
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index cf5155e..2be85fa 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -265,8 +265,10 @@ class UniversalKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError("GSTools: latlon models not supported for 3D kriging")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
@@ -520,8 +522,10 @@ class UniversalKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError("GSTools: latlon models not supported for 3D kriging")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
-- 
2.43.0


From c0ffde8e52ab2011bca6d5ece09de6945868c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 20/27] fix: default regressor and classifier are not shared
 between instances

---
 src/pykrige/ck.py | 5 ++++-
 src/pykrige/rk.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index 4199c87..ffe2d8c 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -19,6 +19,7 @@ class ClassificationKriging:
     Parameters
     ----------
     classification_model: machine learning model instance from sklearn
+        (default: a new SVC instance)
     method: str, optional
         type of kriging to be performed
     variogram_model: str, optional
@@ -58,7 +59,7 @@ class ClassificationKriging:
 
     def __init__(
         self,
-        classification_model=SVC(),
+        classification_model=None,
         method="ordinary",
         variogram_model="linear",
         n_closest_points=10,
@@ -79,6 +80,8 @@ class ClassificationKriging:
         ext_drift_grid=(None, None, None),
         functional_drift=None,
     ):
+        if classification_model is None:
+            classification_model = SVC()
         check_sklearn_model(classification_model, task="classification")
         self.classification_model = classification_model
         self.n_closest_points = n_closest_points
diff --git a/src/pykrige/rk.py b/src/pykrige/rk.py
index 5feb97c..0f47276 100644
--- a/src/pykrige/rk.py
+++ b/src/pykrige/rk.py
@@ -18,6 +18,7 @@ class RegressionKriging:
     Parameters
     ----------
     regression_model: machine learning model instance from sklearn
+        (default: a new SVR instance)
     method: str, optional
         type of kriging to be performed
     variogram_model: str, optional
@@ -57,7 +58,7 @@ class RegressionKriging:
 
     def __init__(
         self,
-        regression_model=SVR(),
+        regression_model=None,
         method="ordinary",
         variogram_model="linear",
         n_closest_points=10,
@@ -78,6 +79,8 @@ class RegressionKriging:
         ext_drift_grid=(None, None, None),
         functional_drift=None,
     ):
+        if regression_model is None:
+            regression_model = SVR()
         check_sklearn_model(regression_model)
         self.regression_model = regression_model
         self.n_closest_points = n_closest_points
-- 
2.43.0


From 6ab1071cacb9d3baa0db5f0f1a08b89b866e89e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 21/27] fix: ClassificationKriging predicts class labels and
 takes targets of shape (Ns,)

---
 src/pykrige/ck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index ffe2d8c..b67c2a5 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -135,7 +135,7 @@ class ClassificationKriging:
         ml_pred_ilr = ilr_transformation(ml_pred)
 
         self.onehotencode = OneHotEncoder(categories=[self.classes_])
-        y_ohe = np.array(self.onehotencode.fit_transform(y).todense())
+        y_ohe = np.array(self.onehotencode.fit_transform(y.reshape(-1, 1)).todense())
         y_ohe_ilr = ilr_transformation(y_ohe)
 
         for i in range(len(self.classes_) - 1):
@@ -170,7 +170,7 @@ class ClassificationKriging:
         pred_proba_ilr = self.krige_residual(x, **kwargs) + ml_pred_ilr
         pred_proba = inverse_ilr_transformation(pred_proba_ilr)
 
-        return np.argmax(pred_proba, axis=1)
+        return self.classes_[np.argmax(pred_proba, axis=1)]
 
     def krige_residual(self, x, **kwargs):
         """
-- 
2.43.0


From 5cd856eee5a1aa76cab6b55d55d52fad86527154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:34 +0000
Subject: [PATCH 22/27] fix: write_zmap_grid checks the dimensions of its
 arguments before truncating the output file

---
 src/pykrige/kriging_tools.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index f427401..5f6320b 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -283,6 +283,17 @@ def write_zmap_grid(
     x = np.squeeze(np.array(x))
     y = np.squeeze(np.array(y))
     z = np.squeeze(np.array(z))
+
+    if z.ndim != 2:
+        raise ValueError("Two-dimensional grid is required to write *.zmap grid.")
+    if x.ndim > 1 or y.ndim > 1:
+        raise ValueError(
+            "Dimensions of X and/or Y coordinate arrays are not "
+            "as expected. Could not write *.zmap grid."
+        )
+    if not isinstance(coord_sys, str):
+        raise TypeError("coord_sys must be a string.")
+
     nx = len(x)
     ny = len(y)
 
-- 
2.43.0


From ef4d2521d71d95fdee974e0078b6cb9457373265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:35 +0000
Subject: [PATCH 23/27] fix: grid writers reject a no_data value that is not a
 number before truncating the output file

---
 src/pykrige/kriging_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 5f6320b..6975a5e 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -44,6 +44,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
         XLLCORNER, YLLCORNER. Default is 1.
     """
 
+    no_data = float(no_data)
     if np.ma.is_masked(z):
         z = np.array(z.tolist(no_data))
 
@@ -277,6 +278,7 @@ def write_zmap_grid(
     nodes_per_line = 5
     field_width = 15
 
+    no_data = float(no_data)
     if np.ma.is_masked(z):
         z = np.array(z.tolist(no_data))
 
-- 
2.43.0


From f55c104307e049cb3606334947c24f70833e3870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:35 +0000
Subject: [PATCH 24/27] fix: read_zmap_grid raises on a file without grid data
 instead of inventing header values

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 6975a5e..ca82ecc 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -447,7 +447,7 @@ def read_zmap_grid(filename):
                     data_values = np.empty(ny * nx)
                 i_header_line += 1
 
-    if nx * ny != i_value:
+    if i_value == 0 or nx * ny != i_value:
         raise IOError(
             "Error reading *.zmap file. Encountered problem "
             "with header: (nx * ny) does not match with the "
-- 
2.43.0


From 0dcd2a39eebde4ca6722f580ed65f0305f878814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:52 +0000
Subject: [PATCH 25/27] fix: Krige.execute leaves the caller's dictionary of
 points unchanged

---
 src/pykrige/compat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/compat.py b/src/pykrige/compat.py
index d0ca37c..7edac08 100644
--- a/src/pykrige/compat.py
+++ b/src/pykrige/compat.py
@@ -282,7 +282,7 @@ class Krige(RegressorMixin, BaseEstimator):
         """
         default_kw = dict(style="points", backend="loop")
         default_kw.update(kwargs)
-        points.update(default_kw)
+        points = dict(points, **default_kw)
         if isinstance(self.model, (OrdinaryKriging, OrdinaryKriging3D)):
             points.update(dict(n_closest_points=self.n_closest_points))
         else:
-- 
2.43.0


From 33bc24f0c9b2ae45f9feac1ba54e411c5b34e6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 26/27] fix: the default classifier of ClassificationKriging
 provides the class probabilities it needs

---
 src/pykrige/ck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index b67c2a5..a520da6 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -19,7 +19,7 @@ class ClassificationKriging:
     Parameters
     ----------
     classification_model: machine learning model instance from sklearn
-        (default: a new SVC instance)
+        (default: a new SVC instance with probability estimates)
     method: str, optional
         type of kriging to be performed
     variogram_model: str, optional
@@ -81,7 +81,7 @@ class ClassificationKriging:
         functional_drift=None,
     ):
         if classification_model is None:
-            classification_model = SVC()
+            classification_model = SVC(probability=True)
         check_sklearn_model(classification_model, task="classification")
         self.classification_model = classification_model
         self.n_closest_points = n_closest_points
-- 
2.43.0


From 275d875ff62c8f4f43ebc0ab3407ae52f36d5762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:27 +0000
Subject: [PATCH 27/27] fix: 2D execute rejects a mask that is not
 two-dimensional with ValueError

---
 src/pykrige/ok.py | 2 ++
 src/pykrige/uk.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index be353d9..0c52037 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -859,6 +859,8 @@ class OrdinaryKriging:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                if mask.ndim != 2:
+                    raise ValueError("Mask is not two-dimensional.")
                 if mask.shape[0] != ny or mask.shape[1] != nx:
                     if mask.shape[0] == nx and mask.shape[1] == ny:
                         mask = mask.T
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 0407995..a338c2d 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1208,6 +1208,8 @@ class UniversalKriging:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                if mask.ndim != 2:
+                    raise ValueError("Mask is not two-dimensional.")
                 if mask.shape[0] != ny or mask.shape[1] != nx:
                     if mask.shape[0] == nx and mask.shape[1] == ny:
                         mask = mask.T
-- 
2.43.0

