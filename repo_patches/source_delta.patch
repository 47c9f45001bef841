From 515b983a3c2c74d6ded3dceeb6d6ff30e45f495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 01/17] fix: great_circle_distance returned an n x n table for
 n positions

---
 src/nvector/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 9e14c76..29a9094 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -503,6 +503,11 @@ def intersect(path_a, path_b):
     return n_EC_E
 
 
+def _dot(n_EA_E, n_EB_E):
+    """Returns the dot product(s) of the corresponding column vectors"""
+    return np.einsum('i...,i...->...', n_EA_E, n_EB_E)
+
+
 def great_circle_normal(n_EA_E, n_EB_E):
     """
     Returns the unit normal(s) to the great circle(s)
@@ -698,7 +703,7 @@ def great_circle_distance(n_EA_E, n_EB_E, radius=6371009.0):
 
     """
     sin_theta = norm(np.cross(n_EA_E, n_EB_E, axis=0), axis=0)
-    cos_theta = dot(n_EA_E.T, n_EB_E)
+    cos_theta = _dot(n_EA_E, n_EB_E)
     theta = np.arctan2(sin_theta, cos_theta).ravel()
     s_AB = theta * radius
 
-- 
2.43.0


From 64dad34436e3d3f387016d0138d615cb8f0e4e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 02/17] fix: cross_track_distance of vectors, and NaN at the
 poles of the path

---
 src/nvector/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 29a9094..0a31ba8 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -526,7 +526,7 @@ def _euclidean_cross_track_distance(sin_theta, radius=1):
 
 
 def _great_circle_cross_track_distance(sin_theta, radius=1):
-    return np.arcsin(sin_theta) * radius
+    return np.arcsin(np.clip(sin_theta, -1, 1)) * radius
     # ill conditioned for small angles:
     # return (np.arccos(-sin_theta) - np.pi / 2) * radius
 
@@ -562,7 +562,7 @@ def cross_track_distance(path, n_EB_E, method='greatcircle', radius=6371009.0):
 
     """
     c_E = great_circle_normal(path[0], path[1])
-    sin_theta = -np.dot(c_E.T, n_EB_E).ravel()
+    sin_theta = -_dot(c_E, n_EB_E).ravel()
     if method[0].lower() == 'e':
         return _euclidean_cross_track_distance(sin_theta, radius)
     return _great_circle_cross_track_distance(sin_theta, radius)
-- 
2.43.0


From 489ae8f45a2da7965c0a79c51570c522c62ee44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 03/17] fix: closest_point_on_great_circle for vectors and for
 the poles of the circle

---
 src/nvector/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 0a31ba8..ea072d0 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -675,8 +675,10 @@ def closest_point_on_great_circle(path, n_EB_E):
     c_E = great_circle_normal(n_EA1_E, n_EA2_E)
 
     c2 = cross(n_EB_E, c_E, axis=0)
-    n_EC_E = unit(cross(c_E, c2, axis=0))
-    return n_EC_E * np.sign(dot(n_EC_E.T, n_EB_E))
+    n_EC_E = cross(c_E, c2, axis=0)  # = n_EB_E minus its component along c_E
+    # All points on the great circle are equally close to its poles:
+    on_poles = norm(n_EC_E, axis=0, keepdims=True) == 0
+    return unit(np.where(on_poles, n_EA1_E, n_EC_E))
 
 
 @use_docstring(_examples.get_examples_no_header([5], OO=False))
-- 
2.43.0


From afce858b7eab63ce3874dc7ac61170113b8d1634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 04/17] fix: intersect for vectors of paths and for
 intersections 90 degrees from A1

---
 src/nvector/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index ea072d0..5a1368a 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -496,7 +496,7 @@ def intersect(path_a, path_b):
     # n_EC_E_tmp is one of two solutions, the other is -n_EC_E_tmp. Select
     # the one that is closet to n_EA1_E, by selecting sign from the dot
     # product between n_EC_E_tmp and n_EA1_E:
-    n_EC_E = np.sign(dot(n_EC_E_tmp.T, n_EA1_E)) * n_EC_E_tmp
+    n_EC_E = np.where(_dot(n_EC_E_tmp, n_EA1_E) < 0, -n_EC_E_tmp, n_EC_E_tmp)
     if np.any(np.isnan(n_EC_E)):
         warnings.warn('Paths are Equal. Intersection point undefined. '
                       'NaN returned.')
-- 
2.43.0


From 9ee9a1006b5f7feb559010de33abab8cd4057c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 05/17] fix: on_great_circle_path accepted points opposite to
 paths longer than 120 degrees

---
 src/nvector/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 5a1368a..db4c054 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -646,7 +646,9 @@ def on_great_circle_path(path, n_EB_E, radius=6371009.0, atol=1e-8):
     scale = norm(n_EA2_E - n_EA1_E, axis=0)
     ti1 = norm(n_EB_E - n_EA1_E, axis=0) / scale
     ti2 = norm(n_EB_E - n_EA2_E, axis=0) / scale
-    return (ti1 <= 1) & (ti2 <= 1) & on_great_circle(path, n_EB_E, radius, atol=atol)
+    # The points opposite to the path may also be close to the endpoints if the path is long
+    same_side = _dot(n_EA1_E + n_EA2_E, n_EB_E) >= 0
+    return (ti1 <= 1) & (ti2 <= 1) & same_side & on_great_circle(path, n_EB_E, radius, atol=atol)
 
 
 @use_docstring(_examples.get_examples_no_header([10], OO=False))
-- 
2.43.0


From c474f335d3fd2346f4bff0943858e189d4b0141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 06/17] fix: flattening of the ETRS89 ellipsoid was its inverse

---
 src/nvector/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index f3417b5..241bb15 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -38,7 +38,7 @@ ELLIPSOID = {
     16: Ellipsoid(a=6378135., f=1.0 / 298.26, name='WGS 72'),
     17: Ellipsoid(a=6378206.4, f=1.0 / 294.9786982138, name='Clarke 1866    (NAD27)'),
     18: Ellipsoid(a=6378137.0, f=1.0 / 298.257223563, name='GRS80 / WGS84  (NAD83)'),
-    19: Ellipsoid(a=6378137, f=298.257222101, name='ETRS89')
+    19: Ellipsoid(a=6378137, f=1.0 / 298.257222101, name='ETRS89')
 }
 ELLIPSOID_IX = {'airy1858': 1,
                 'airymodified': 2,
-- 
2.43.0


From dc0701bc29dbe4933cb55307b700acd76efc07d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 07/17] fix: get_ellipsoid did not accept all the ellipsoid
 names it documents

---
 src/nvector/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index 241bb15..24729d8 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -55,19 +55,24 @@ ELLIPSOID_IX = {'airy1858': 1,
                 'international': 11,
                 'hayford': 11,
                 'ed50': 11,
+                'international(hayford)/europeandatum(ed50)': 11,
                 'krassovsky': 12,
                 'krassovsky1938': 12,
                 'nwl-9d': 13,
                 'wgs66': 13,
+                'nwl-9d(wgs66)': 13,
                 'southamerican1969': 14,
                 'sad69': 14,
                 'sovietgeod.system1985': 15,
                 'wgs72': 16,
                 'clarke1866': 17,
                 'nad27': 17,
+                'clarke1866(nad27)': 17,
                 'grs80': 18,
                 'wgs84': 18,
                 'nad83': 18,
+                'grs80/wgs84(nad83)': 18,
+                'etrs89': 19,
                 }
 
 
-- 
2.43.0


From 72b2bdd1679f44130869cf26f4eaad3076a419a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 08/17] fix: GeoPoint.displace along great circle ignored the
 axes of the frame

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index b32072f..8b1f30a 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -293,7 +293,8 @@ class GeoPoint(_Common):
         radius = e_a.length
         distance_rad = distance / radius
         azimuth_rad = azimuth if not degrees else rad(azimuth)
-        normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad)
+        normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad,
+                                                      R_Ee=self.frame.R_Ee)
         point_b = Nvector(normal_b, self.z, self.frame).to_geo_point()
         azimuth_b = _base_angle(delta_N(point_b, e_a).azimuth - np.pi)
         if degrees:
-- 
2.43.0


From fb91c8ab0ad4d2a3f99a971bb7f6c2beb6207496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 09/17] fix: n_EA_E_distance_and_azimuth2n_EB_E from the poles

---
 src/nvector/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index db4c054..e99a0d3 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -817,7 +817,9 @@ def n_EA_E_distance_and_azimuth2n_EB_E(n_EA_E, distance_rad, azimuth, R_Ee=None)
     if R_Ee is None:
         R_Ee = E_rotation()
     # Step1: Find unit vectors for north and east:
-    k_east_E = unit(cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0))
+    k_east_E = unit(cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0), norm_zero_vector=np.nan)
+    # Select the same east direction as in n_E2R_EN at the Poles:
+    k_east_E = np.where(np.isnan(k_east_E), dot(R_Ee.T, [[0], [1], [0]]), k_east_E)
     k_north_E = cross(n_EA_E, k_east_E, axis=0)
 
     # Step2: Find the initial direction vector d_E:
-- 
2.43.0


From 3bd963eec637609ebaddabd63f65b4493fd412ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 10/17] fix: GeoPath.track_distance dropped all but one path
 when given a radius

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 8b1f30a..658bc54 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -935,7 +935,7 @@ class GeoPath(object):
 
         distance_fun = euclidean_distance if method[:2] == "eu" else great_circle_distance
         distance = distance_fun(normal_a, normal_b, radius)
-        if np.ndim(radius) == 0:
+        if np.ndim(radius) == 0 and distance.size == 1:
             return distance[0]  # scalar track distance
         return distance
 
-- 
2.43.0


From 3955c531d7e7b09c6a15faf688e20ff809e4e9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 11/17] fix: FrameN was equal to FrameB objects that were not
 equal to it

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 658bc54..9c06281 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1430,7 +1430,8 @@ class FrameN(_LocalFrame):
         return n_E2R_EN(nvector.normal, nvector.frame.R_Ee)
 
     def _is_equal_to(self, other, rtol=1e-12, atol=1e-14):
-        return (allclose(self.R_EN, other.R_EN, rtol=rtol, atol=atol)
+        return (isinstance(other, FrameN)
+                and allclose(self.R_EN, other.R_EN, rtol=rtol, atol=atol)
                 and self.nvector == other.nvector)
 
 
-- 
2.43.0


From 95b6fde5e7b15d9dc61ea23b33e5930d1a8029e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 12/17] fix: lat_lon2n_E for a scalar combined with a vector

---
 src/nvector/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index e99a0d3..e6aed99 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -64,6 +64,7 @@ def lat_lon2n_E(latitude, longitude, R_Ee=None):
     """
     if R_Ee is None:
         R_Ee = E_rotation()
+    latitude, longitude = np.broadcast_arrays(latitude, longitude)
     # Equation (3) from Gade (2010):
     nvec = np.vstack((sin(latitude),
                       sin(longitude) * cos(latitude),
-- 
2.43.0


From bea0762b92e22440a41058276d6247e311227d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 13/17] fix: Nvector.interpolate when the depth is a scalar

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 9c06281..6d3072e 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -527,7 +527,8 @@ class Nvector(_Common):
         >>> h = plt.plot(lon, lat, 'o', loni, lati, '-')
         >>> plt.show()
         """
-        vectors = np.vstack((self.normal, self.z))
+        z = np.broadcast_to(self.z, np.shape(self.normal)[1:])
+        vectors = np.vstack((self.normal, z))
         vectors_i = _interp_vectors(t_i, t, vectors, kind, window_length, polyorder, mode, cval)
         normal = unit(vectors_i[:3], norm_zero_vector=np.nan)
         return Nvector(normal, z=vectors_i[3], frame=self.frame)
-- 
2.43.0


From 8b64ff704d9326b54af71e327486ad1bf5a735c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 14/17] fix: change_frame of a scalar position to a frame with
 many origins

---
 src/nvector/objects.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 6d3072e..4262dcb 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -657,7 +657,8 @@ class Pvector(_Common):
         p_AB_N = self.pvector
         # p_AB_E = np.dot(n_frame.R_EN, p_AB_N)
         p_AB_E = mdot(n_frame.R_EN, p_AB_N[:, None, ...]).reshape(3, -1)
-        return ECEFvector(p_AB_E, frame=n_frame.nvector.frame, scalar=self.scalar)
+        scalar = self.scalar and p_AB_E.shape[1] == 1
+        return ECEFvector(p_AB_E, frame=n_frame.nvector.frame, scalar=scalar)
 
     def to_nvector(self):
         """
@@ -771,8 +772,9 @@ class ECEFvector(Pvector):
         """
         _check_frames(self, frame.nvector)
         p_AB_E = self.pvector
-        p_AB_N = mdot(np.swapaxes(frame.R_EN, 1, 0), p_AB_E[:, None, ...])
-        return Pvector(p_AB_N.reshape(3, -1), frame=frame, scalar=self.scalar)
+        p_AB_N = mdot(np.swapaxes(frame.R_EN, 1, 0), p_AB_E[:, None, ...]).reshape(3, -1)
+        scalar = self.scalar and p_AB_N.shape[1] == 1
+        return Pvector(p_AB_N, frame=frame, scalar=scalar)
 
     def to_ecef_vector(self):
         return self
-- 
2.43.0


From eb43f02f0d7eac2384a53bded8b3817084560a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 15/17] fix: E_rotation handed out the shared rotation matrices
 themselves

---
 src/nvector/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index 5c963d7..db95120 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -80,7 +80,7 @@ def E_rotation(axes='e'):
     The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
     <www.navlab.net/Publications/A_Nonsingular_Horizontal_Position_Representation.pdf>`_
     """
-    return E_ROTATION_MATRIX[axes]
+    return E_ROTATION_MATRIX[axes].copy()
 
 
 def R2xyz(R_AB):
-- 
2.43.0


From 2cf9c21d1565e5acb214d1dd531b62238edf0191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 16/17] fix: GeoPath.on_path along the ellipsoid for azimuths
 close to 180 degrees

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 4262dcb..ef26d01 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -982,7 +982,8 @@ class GeoPath(object):
         return (isclose(z, point_c.z, rtol=rtol, atol=atol)
                 & (isclose(distance_ac, 0, atol=atol)
                    | ((distance_ab >= distance_ac)
-                      & isclose(azimuth_ac, azimuth_ab, rtol=rtol, atol=atol))))
+                      & isclose(azimuth_ab + _base_angle(azimuth_ac - azimuth_ab), azimuth_ab,
+                                rtol=rtol, atol=atol))))
 
     def on_great_circle(self, point, atol=1e-8):
         """Returns True if point is on the great circle within a tolerance."""
-- 
2.43.0


From 4375cf0d4025845192ffa1cd21ce19d317581e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 17/17] fix: nthroot raised ZeroDivisionError for a python zero

---
 src/nvector/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index 24729d8..7c6d76d 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -413,6 +413,7 @@ def nthroot(x, n):
     True
 
     """
+    x = np.asarray(x)  # a python zero must not raise ZeroDivisionError below
     y = x**(1. / n)
     return np.where((x != 0) & (_EPS * np.abs(x) < 1),
                     y - (y**n - x) / (n * y**(n - 1)), y)
-- 
2.43.0

