From 8ff3790654083dc1a547f5192451a7e30e85cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 01/18] fix: longitudes at the antimeridian and the poles

arccos(x / r) * sign(y) gives 0 instead of 180 where y is 0 and NaN where
both are 0; arctan2 covers the whole circle.
---
 geotiepoints/_modis_utils.pyx   | 4 ++--
 geotiepoints/geointerpolator.py | 2 +-
 geotiepoints/viiinterpolator.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index b290cb0..65f792a 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -3,7 +3,7 @@ from functools import wraps
 
 cimport cython
 cimport numpy as np
-from libc.math cimport asin, sin, cos, sqrt, acos, M_PI
+from libc.math cimport asin, atan2, sin, cos, sqrt, acos, M_PI
 import numpy as np
 
 np.import_array()
@@ -55,7 +55,7 @@ cdef void xyz2lonlat(
             x = <np.float64_t>xyz[i, j, 0]
             y = <np.float64_t>xyz[i, j, 1]
             z = <np.float64_t>xyz[i, j, 2]
-            lons[i, j] = rad2deg(acos(x / sqrt(x ** 2 + y ** 2))) * _sign(y)
+            lons[i, j] = rad2deg(atan2(y, x))
             # if we are at low latitudes - small z, then get the
             # latitudes only from z. If we are at high latitudes (close to the poles)
             # then derive the latitude using x and y:
diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index 356e780..b2eb3e2 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -61,7 +61,7 @@ def lonlat2xyz(lons, lats, radius=EARTH_RADIUS):
 
 def xyz2lonlat(x__, y__, z__, radius=EARTH_RADIUS, thr=0.8, low_lat_z=True):
     """Get longitudes from cartesian coordinates."""
-    lons = np.rad2deg(np.arccos(x__ / np.sqrt(x__ ** 2 + y__ ** 2))) * np.sign(y__)
+    lons = np.rad2deg(np.arctan2(y__, x__))
     lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.sqrt(x__ ** 2 + y__ ** 2) / radius)))
     if low_lat_z:
         # if we are at low latitudes - small z, then get the
diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 6b4add8..421a29f 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -168,7 +168,7 @@ def _xyz2lonlat(x_coords, y_coords, z_coords, z_threshold_use_xy=0.8):
     """
     r = np.sqrt(x_coords ** 2 + y_coords ** 2)
     thr_z = z_threshold_use_xy * MEAN_EARTH_RADIUS
-    lons = np.rad2deg(np.arccos(x_coords / r)) * np.sign(y_coords)
+    lons = np.rad2deg(np.arctan2(y_coords, x_coords))
     # Compute latitude from z at low z and from x and y at high z
     lats = xr.where(
         np.logical_and(np.less(z_coords, thr_z), np.greater(z_coords, -thr_z)),
-- 
2.43.0


From cde5f6f17a6aa0c5b6153094ebd20fd1b9b5e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 02/18] fix: generic_modis5kmto1km always raised IndexError

The chunk search in Interpolator._fill_row_borders needs tie row positions in
units of tie rows, as modis5kmto1km passes them.
---
 geotiepoints/interpolator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index c35fbbf..c11041b 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -8,11 +8,11 @@ from scipy.interpolate import RectBivariateSpline, splev, splrep, RegularGridInt
 
 def generic_modis5kmto1km(*data5km):
     """Get 1km data for modis from 5km tiepoints."""
-    cols5km = np.arange(2, 1354, 5)
-    cols1km = np.arange(1354)
+    cols5km = np.arange(2, 1354, 5) / 5.0
+    cols1km = np.arange(1354) / 5.0
     lines = data5km[0].shape[0] * 5
-    rows5km = np.arange(2, lines, 5)
-    rows1km = np.arange(lines)
+    rows5km = np.arange(2, lines, 5) / 5.0
+    rows1km = np.arange(lines) / 5.0
 
     along_track_order = 1
     cross_track_order = 3
-- 
2.43.0


From 92ec4bd62fa4277636b0b74bfb185e3ec96e296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 03/18] fix: fill_borders repeated tie rows that lie on a chunk
 border

The duplicated row position made RectBivariateSpline reject the grid. The
column counterpart already leaves such columns alone.
---
 geotiepoints/interpolator.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index c11041b..8d974cb 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -144,7 +144,7 @@ class Interpolator:
             self.col_indices = np.concatenate((self.col_indices,
                                                np.array([self.hcol_indices[-1]])))
 
-    def _extrapolate_rows(self, data, row_indices, first_index, last_index):
+    def _extrapolate_rows(self, data, row_indices, first_index, last_index, first=True, last=True):
         """Extrapolate the rows of data, to get the first and last together with the data."""
         pos = row_indices[:2]
         first_row = _linear_extrapolate(pos,
@@ -154,9 +154,12 @@ class Interpolator:
         last_row = _linear_extrapolate(pos,
                                        (data[-2, :], data[-1, :]),
                                        last_index)
-        return np.vstack((np.expand_dims(first_row, 0),
-                          data,
-                          np.expand_dims(last_row, 0)))
+        rows = [data]
+        if first:
+            rows.insert(0, np.expand_dims(first_row, 0))
+        if last:
+            rows.append(np.expand_dims(last_row, 0))
+        return np.vstack(rows)
 
     def _fill_row_borders(self):
         """Add the first and last rows to the data by extrapolation."""
@@ -174,6 +177,9 @@ class Interpolator:
                                      self.row_indices < (index + chunk_size) / factor)
             ties = np.argwhere(indices).squeeze()
             tiepos = self.row_indices[indices].squeeze()
+            # a tie row that already lies on the border of the chunk is not repeated
+            first = self.hrow_indices[index] not in tiepos
+            last = self.hrow_indices[index + chunk_size - 1] not in tiepos
 
             for num, data in enumerate(self.tie_data):
                 to_extrapolate = data[ties, :]
@@ -182,12 +188,15 @@ class Interpolator:
                                                           tiepos,
                                                           self.hrow_indices[
                                                               index],
-                                                          self.hrow_indices[index + chunk_size - 1])
+                                                          self.hrow_indices[index + chunk_size - 1],
+                                                          first, last)
                     tmp_data[num].append(extrapolated)
 
-            row_indices.append(np.array([self.hrow_indices[index]]))
+            if first:
+                row_indices.append(np.array([self.hrow_indices[index]]))
             row_indices.append(tiepos)
-            row_indices.append(np.array([self.hrow_indices[index + chunk_size - 1]]))
+            if last:
+                row_indices.append(np.array([self.hrow_indices[index + chunk_size - 1]]))
 
         for num in range(len(self.tie_data)):
             self.tie_data[num] = np.vstack(tmp_data[num])
-- 
2.43.0


From 369547023fdfafeaad70c8d98e532b03bd8ee973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 04/18] fix: fill_borders dropped tie rows not given in units
 of tie rows

The tie rows of a chunk were searched between index / factor and
(index + chunk_size) / factor, whatever the positions of the target rows.
Compare them with the target rows of the chunk instead.
---
 geotiepoints/interpolator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 8d974cb..fd93bfb 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -165,7 +165,6 @@ class Interpolator:
         """Add the first and last rows to the data by extrapolation."""
         lines = len(self.hrow_indices)
         chunk_size = self.chunk_size or lines
-        factor = len(self.hrow_indices) / len(self.row_indices)
 
         tmp_data = []
         for _num in range(len(self.tie_data)):
@@ -173,8 +172,11 @@ class Interpolator:
         row_indices = []
 
         for index in range(0, lines, chunk_size):
-            indices = np.logical_and(self.row_indices >= index / factor,
-                                     self.row_indices < (index + chunk_size) / factor)
+            indices = np.ones(len(self.row_indices), dtype=bool)
+            if index > 0:
+                indices &= self.row_indices >= self.hrow_indices[index]
+            if index + chunk_size < lines:
+                indices &= self.row_indices < self.hrow_indices[index + chunk_size]
             ties = np.argwhere(indices).squeeze()
             tiepos = self.row_indices[indices].squeeze()
             # a tie row that already lies on the border of the chunk is not repeated
-- 
2.43.0


From fabb89bd0d86483878a55d8e2525a36dc720225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 05/18] fix: one-dimensional interpolation truncated integer
 data

---
 geotiepoints/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index fd93bfb..df957ec 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -226,7 +226,7 @@ class Interpolator:
         for num, data in enumerate(self.tie_data):
             self.new_data[num] = np.empty((len(self.hrow_indices),
                                            len(self.hcol_indices)),
-                                          data.dtype)
+                                          np.result_type(data.dtype, np.float32))
 
             for cnt in range(lines):
                 tck = splrep(self.col_indices, data[cnt, :], k=self.ky_, s=0)
-- 
2.43.0


From c94f7ac3451f426956ddc9b63d970b368007e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 06/18] fix: lazy grid interpolation ignored the values of the
 fine points

The chunks were interpolated at the indices of the fine points.
---
 geotiepoints/interpolator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index df957ec..3a51b7d 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -274,7 +274,7 @@ class AbstractSingleInterpolator(ABC):
         from dask.base import tokenize
         import dask.array as da
         from dask.array.core import normalize_chunks
-        v_fine_points, h_fine_points = fine_points
+        v_fine_points, h_fine_points = (np.asarray(points) for points in fine_points)
         shape = len(v_fine_points), len(h_fine_points)
 
         chunks = normalize_chunks(chunks, shape, dtype=self.values.dtype)
@@ -282,11 +282,11 @@ class AbstractSingleInterpolator(ABC):
         token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
         name = 'interpolate-' + token
 
-        interpolate_slices = partial(self.interpolate_slices, **interpolator_call_kwargs)
+        interpolate_numpy = partial(self.interpolate_numpy, **interpolator_call_kwargs)
 
-        dskx = {(name, ) + position: (interpolate_slices,
-                                      slices)
-                for position, slices in _enumerate_chunk_slices(chunks)}
+        dskx = {(name, ) + position: (interpolate_numpy,
+                                      [v_fine_points[slice_y], h_fine_points[slice_x]])
+                for position, (slice_y, slice_x) in _enumerate_chunk_slices(chunks)}
 
         res = da.Array(dskx, name, shape=list(shape),
                        chunks=chunks,
-- 
2.43.0


From cfd679f704a226065fd87b8f5dfd22d39353338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 07/18] fix: lazy results of different grid interpolators
 shared a dask name

The token left out the kind and the configuration of the interpolator, so
that dask could return the result of another one.
---
 geotiepoints/interpolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 3a51b7d..11b8892 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -279,7 +279,8 @@ class AbstractSingleInterpolator(ABC):
 
         chunks = normalize_chunks(chunks, shape, dtype=self.values.dtype)
 
-        token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
+        token = tokenize(type(self), self.interpolator, chunks, self.points, self.values, fine_points,
+                         interpolator_call_kwargs)
         name = 'interpolate-' + token
 
         interpolate_numpy = partial(self.interpolate_numpy, **interpolator_call_kwargs)
-- 
2.43.0


From f682a4cb4bcdfa8b6473f0d59081dd86b5934b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 08/18] fix: BasicSatelliteInterpolator used a method that
 pandas removed

DataFrame.as_matrix is gone since pandas 1.0.
---
 geotiepoints/basic_interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/basic_interpolator.py b/geotiepoints/basic_interpolator.py
index 7b990dd..5245f76 100644
--- a/geotiepoints/basic_interpolator.py
+++ b/geotiepoints/basic_interpolator.py
@@ -54,10 +54,10 @@ class BasicSatelliteInterpolator(object):
             return self._pandas_interp(data, self.row_indices)
         
         if axis == 1:
-            data_transposed = data.as_matrix().T
+            data_transposed = data.to_numpy().T
             data_interpol_transposed = self._pandas_interp(data_transposed, 
                                                             self.col_indices)
-            data_interpol = data_interpol_transposed.as_matrix().T
+            data_interpol = data_interpol_transposed.to_numpy().T
 
             return data_interpol
 
-- 
2.43.0


From 85754925d38797b87414788c6cd1dd35a90c06a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 09/18] fix: the grid of a one-dimensional
 MultilinearInterpolator could not be made

numpy.linspace no longer takes an array as number of points, and the grid has
to be one row, not one column.
---
 geotiepoints/multilinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/multilinear.py b/geotiepoints/multilinear.py
index aedad4e..f0aa9d5 100644
--- a/geotiepoints/multilinear.py
+++ b/geotiepoints/multilinear.py
@@ -8,7 +8,7 @@ from geotiepoints.multilinear_cython import multilinear_interpolation
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
         res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders)))
+            np.linspace(smin[0], smax[0], orders[0]))
         return res.copy()  # workaround for strange bug
     else:
         meshes = np.meshgrid(
-- 
2.43.0


From 472553c1fd06e06a2438029ed7b52ea7db3ef441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 10/18] fix: multilinear interpolation read outside of its
 inputs

The kernels index without bounds checks, but nothing made sure that the
values, the boundaries, the orders and the points fit together.
---
 geotiepoints/multilinear_cython.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index c69c624..b31fea3 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -28,6 +28,17 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
 
     if d > 4:
         raise Exception("Can't interpolate in dimension strictly greater than 5")
+    if d < 1 or smin.shape[0] != d or smax.shape[0] != d or orders.shape[0] != d:
+        raise ValueError("The boundaries, the orders and the points must have the same dimension.")
+
+    cdef Py_ssize_t k
+    cdef Py_ssize_t n_grid = 1
+    for k in range(d):
+        if orders[k] < 2:
+            raise ValueError("At least two grid points are needed along each dimension.")
+        n_grid *= orders[k]
+    if values.shape[1] != n_grid:
+        raise ValueError("The number of values must match the number of grid points.")
 
     with nogil:
         for i in range(n_v):
-- 
2.43.0


From 1e3559a2e0cbff3c4d6988c0db14d1117aac3e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 11/18] fix: 64-bit float MODIS geolocation could not be
 interpolated

The pixel coordinates were always 32-bit floats, which raised a buffer dtype
mismatch for any other input.
---
 geotiepoints/_modis_interpolator.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index bed18ee..5631867 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -145,8 +145,8 @@ cdef class MODISInterpolator:
         cdef floating[:, ::1] a_scan_view = a_scan
 
         cdef tuple coords_xy = self._get_coords()
-        cdef np.ndarray[floating, ndim=1] x = coords_xy[0]
-        cdef np.ndarray[floating, ndim=1] y = coords_xy[1]
+        cdef np.ndarray[floating, ndim=1] x = coords_xy[0].astype(lon1.dtype)
+        cdef np.ndarray[floating, ndim=1] y = coords_xy[1].astype(lon1.dtype)
         cdef floating[::1] x_view = x
         cdef floating[::1] y_view = y
 
-- 
2.43.0


From 413b862d1926b71342de6bbba5920613ecc7ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 12/18] fix: MODIS kernels read and wrote outside of unsuitable
 inputs

The kernels index without bounds checks. Reject arrays of the wrong width,
arrays of different shapes and unsupported resolutions.
---
 geotiepoints/_modis_interpolator.pyx        | 6 ++++++
 geotiepoints/_simple_modis_interpolator.pyx | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 5631867..e2a8fa9 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -34,7 +34,13 @@ def interpolate(
         raise NotImplementedError(
             "Can't interpolate if 5km tiepoints have less than 270 columns."
         )
+    if coarse_resolution not in (1000, 5000) or fine_resolution not in (250, 500, 1000):
+        raise ValueError("Can only interpolate from 1000m or 5000m to 250m, 500m or 1000m resolution.")
     interp = MODISInterpolator(coarse_resolution, fine_resolution, coarse_scan_width=coarse_scan_width or 0)
+    for arr in (lon1, lat1, satz1):
+        if arr.shape[0] != satz1.shape[0] or arr.shape[1] != interp._coarse_scan_width:
+            raise ValueError("Longitudes, latitudes and satellite zenith angles must have the same shape "
+                             "and the full width of the scans.")
     return interp.interpolate(lon1, lat1, satz1)
 
 
diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index f1e4c58..223f430 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -15,6 +15,12 @@ def interpolate_geolocation_cartesian(
         np.ndarray[floating, ndim=2] lat_array,
         unsigned int coarse_resolution,
         unsigned int fine_resolution):
+    if coarse_resolution != 1000 or fine_resolution not in (250, 500):
+        raise ValueError("Can only interpolate from 1000m to 250m or 500m resolution.")
+    if lat_array.shape[0] != lon_array.shape[0] or lat_array.shape[1] != lon_array.shape[1]:
+        raise ValueError("Longitudes and latitudes must have the same shape.")
+    if lon_array.shape[1] < 2:
+        raise ValueError("At least two columns are needed.")
     lon_array = np.ascontiguousarray(lon_array)
     lat_array = np.ascontiguousarray(lat_array)
     cdef unsigned int rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
-- 
2.43.0


From e9b9e5a283116c3c40ae9eb9448ac270c5f4cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 13/18] fix: trailing MODIS rows were left uninitialised for
 partial scans

Only dask inputs were checked for whole scans.
---
 geotiepoints/_modis_utils.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 65f792a..4c03f76 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -102,6 +102,8 @@ def scanline_mapblocks(func):
         first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
         if first_arr.ndim != 2 or first_arr.ndim != 2:
             raise ValueError("Expected 2D input arrays.")
+        if first_arr.shape[0] % rows_per_scan_for_resolution(coarse_resolution) != 0:
+            raise ValueError("Input longitude/latitude data does not consist of whole scans.")
         if hasattr(first_arr, "compute"):
             # assume it is dask or xarray with dask, ensure proper chunk size
             # if DataArray get just the dask array
-- 
2.43.0


From 630932ccb0af3ced8b8c787e7b2430fec953da87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 14/18] fix: MODIS interpolation of DataArrays that hold numpy
 arrays

They were taken for dask arrays and failed with an AttributeError.
---
 geotiepoints/_modis_utils.pyx | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 4c03f76..682b3d4 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -104,10 +104,10 @@ def scanline_mapblocks(func):
             raise ValueError("Expected 2D input arrays.")
         if first_arr.shape[0] % rows_per_scan_for_resolution(coarse_resolution) != 0:
             raise ValueError("Input longitude/latitude data does not consist of whole scans.")
-        if hasattr(first_arr, "compute"):
+        # if DataArray get just the dask or numpy array
+        dask_args = _extract_dask_arrays_from_args(args)
+        if hasattr(dask_args[0], "compute"):
             # assume it is dask or xarray with dask, ensure proper chunk size
-            # if DataArray get just the dask array
-            dask_args = _extract_dask_arrays_from_args(args)
             rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
             rechunked_args = _rechunk_dask_arrays_if_needed(dask_args, rows_per_scan)
             results = _call_map_blocks_interp(
@@ -117,16 +117,17 @@ def scanline_mapblocks(func):
                 *rechunked_args,
                 **kwargs
             )
-            if hasattr(first_arr, "dims"):
-                # recreate DataArrays
-                results = _results_to_data_arrays(first_arr.dims, *results)
-            return results
-        return func(
-            *args,
-            coarse_resolution=coarse_resolution,
-            fine_resolution=fine_resolution,
-            **kwargs
-        )
+        else:
+            results = func(
+                *dask_args,
+                coarse_resolution=coarse_resolution,
+                fine_resolution=fine_resolution,
+                **kwargs
+            )
+        if hasattr(first_arr, "dims"):
+            # recreate DataArrays
+            results = _results_to_data_arrays(first_arr.dims, *results)
+        return results
 
     return _wrapper
 
@@ -157,8 +158,6 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
 def _results_to_data_arrays(dims, *results):
     new_results = []
     for result in results:
-        if not isinstance(result, da.Array):
-            continue
         data_arr = xr.DataArray(result, dims=dims)
         new_results.append(data_arr)
     return new_results
-- 
2.43.0


From d90eba75e084fa5ac396c10b576a1b288d227b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 15/18] fix: MODIS interpolation of dask arrays chunked in less
 than a scan

The new row chunk size became 0, which raised a ZeroDivisionError.
---
 geotiepoints/_modis_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 682b3d4..de1df19 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -184,7 +184,7 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     if good_row_chunks and good_col_chunks and all_same_chunks:
         return args
 
-    new_row_chunks = (row_chunks[0] // rows_per_scan) * rows_per_scan
+    new_row_chunks = max(1, row_chunks[0] // rows_per_scan) * rows_per_scan
     new_args = [arr.rechunk((new_row_chunks, -1)) if hasattr(arr, "chunks") else arr for arr in args]
     return new_args
 
-- 
2.43.0


From bdc8695234ba94e3733e2fd91ec384ae71cd3782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 16/18] fix: wrong declared width of lazily interpolated narrow
 MODIS arrays

The number of columns of the dask results was that of a full scan, whatever
the width of the inputs.
---
 geotiepoints/_modis_utils.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index de1df19..7967564 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -141,7 +141,10 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
     res_factor = coarse_resolution // fine_resolution
     new_row_chunks = tuple(x * res_factor for x in first_arr.chunks[0])
     fine_pixels_per_1km = {250: 4, 500: 2, 1000: 1}[fine_resolution]
-    fine_scan_width = 1354 * fine_pixels_per_1km
+    if coarse_resolution == 5000:
+        fine_scan_width = 1354 * fine_pixels_per_1km
+    else:
+        fine_scan_width = first_arr.shape[1] * res_factor
     new_col_chunks = (fine_scan_width,)
     wrapped_func = _map_blocks_handler(func)
     res = da.map_blocks(wrapped_func, *args,
-- 
2.43.0


From f5443ee98d9f712155ef1e09d4acba3c220d2c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 17/18] fix: MODIS 5km to 500m and 250m interpolation was up to
 25km off

The pixel coordinates were those of the 1km grid whatever the target
resolution. The largest error on the test data drops from 25.8km to 24m.
---
 geotiepoints/_modis_interpolator.pyx | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index e2a8fa9..4cc1f4d 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -236,22 +236,16 @@ cdef class MODISInterpolator:
 
     @cython.wraparound(True)
     cdef tuple _get_coords_5km(self):
-        cdef np.ndarray[np.float32_t, ndim=1] y = np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32) - 2
-        cdef np.ndarray[np.float32_t, ndim=1] x = (np.arange(self._fine_scan_width, dtype=np.float32) - 2) % self._fine_pixels_per_coarse_pixel
-        x[0] = -2
-        x[1] = -1
+        # the first tie point is at the third 1km row and column, which is the center of its fine rows
+        cdef np.ndarray[np.float32_t, ndim=1] y = np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32) - self._factor_5km - (self._factor_5km / 2 - 1) / 2.0
+        cdef np.ndarray[np.float32_t, ndim=1] x = (np.arange(self._fine_scan_width, dtype=np.float32) - self._factor_5km) % self._fine_pixels_per_coarse_pixel
+        x[:self._factor_5km] = np.arange(-self._factor_5km, 0)
         if self._coarse_scan_width == 271:
-            x[-2] = 5
-            x[-1] = 6
+            num_right = self._factor_5km
         else:
             # self._coarse_scan_width == 270
-            x[-7] = 5
-            x[-6] = 6
-            x[-5] = 7
-            x[-4] = 8
-            x[-3] = 9
-            x[-2] = 10
-            x[-1] = 11
+            num_right = self._fine_pixels_per_coarse_pixel + self._factor_5km
+        x[-num_right:] = self._fine_pixels_per_coarse_pixel + np.arange(num_right)
         return x, y
 
     cdef void _interpolate_lons_lats(self,
-- 
2.43.0


From 7613d80b218286fe108d446d4843b483a8bfec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 18/18] fix: no correction between two tie points seen from
 nadir

Two neighbouring tie points with a zenith angle of zero gave 0/0, and NaN
longitudes and latitudes for the fine pixels between them.
---
 geotiepoints/_modis_interpolator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 4cc1f4d..b79dacd 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -66,6 +66,11 @@ cdef void _compute_expansion_alignment(floating[:, :] satz_a, floating [:, :] sa
             theta = _compute_theta(zeta, phi)
             # Workaround for tiepoints symmetrical about the subsatellite-track
             denominator = theta_a * 2 if theta_a == theta_b else theta_a - theta_b
+            if denominator == 0:
+                # both tiepoints are seen from nadir: there is nothing to correct
+                c_expansion[i, j] = 0
+                c_alignment[i, j] = 0
+                continue
 
             c_expansion[i, j] = 4 * (((theta_a + theta_b) / 2 - theta) / denominator)
 
-- 
2.43.0

