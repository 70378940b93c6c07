From 167aea5911565c14db00928546f98149c5ba45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 01/38] fix: fourier_filter uses the length of the time axis
 and keeps xarray dims when time_axis != 0

---
 geocat/comp/fourier_filters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 9a663bf..4b0a17d 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -126,9 +126,8 @@ def fourier_filter(
     >>> axs[1].plot(np.imag(no_tide)[start:end])
     >>> fig.show()
     """
-    resolution = frequency / len(signal)
-    signal = np.swapaxes(signal, time_axis, 0)
-    res_fft = np.fft.fft(signal, axis=0)
+    resolution = frequency / np.shape(signal)[time_axis]
+    res_fft = np.fft.fft(np.swapaxes(np.asarray(signal), time_axis, 0), axis=0)
     cfl_index = m.floor(cutoff_frequency_low / resolution)
     cfln_index = 1 - cfl_index
     cfh_index = m.ceil(cutoff_frequency_high / resolution)
-- 
2.43.0


From e23c4f8ee7addb0d4b51b443e1420c60b813f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 02/38] fix: climate_anomaly(freq='year') no longer mixes years
 that share their last two digits

---
 geocat/comp/climatologies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 1bc805a..c7f16d9 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -192,7 +192,7 @@ def climate_anomaly(
         'day': ('%m-%d', 'D'),
         'month': ('%m', 'MS'),
         'season': (None, 'QS-DEC'),
-        'year': ('%y', 'Y'),
+        'year': ('%Y', 'Y'),
     }
 
     if freq not in freq_dict:
-- 
2.43.0


From 203fdac0b8cb4f02827546ff99ec79321ec23e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 03/38] fix: pearson_r accepts the documented xarray.Dataset
 inputs

---
 geocat/comp/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 3b9f484..c9e8989 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -183,7 +183,9 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
         Pearson's correlation coefficient
     """
     # if a and v are not xr.DataArrays
-    if not isinstance(a, xr.DataArray) and not isinstance(b, xr.DataArray):
+    if not isinstance(a, (xr.DataArray, xr.Dataset)) and not isinstance(
+        b, (xr.DataArray, xr.Dataset)
+    ):
         if (dim is not None) and (axis is not None):
             warnings.warn(
                 "The `dim` keyword is unused with non xarray.DataArray inputs"
-- 
2.43.0


From ba8f020e3d98068b4d427ed56ae7886823260ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 04/38] fix: eofunc_eofs/eofunc_pcs accept time_dim=-1, label
 metadata by the time axis, leave the input's attrs alone

---
 geocat/comp/stats.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index c9e8989..d407ae4 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -220,6 +220,9 @@ def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
         if (time_dim >= data.ndim) or (time_dim < -data.ndim):
             raise ValueError("ERROR eofunc_efs: `time_dim` out of bound.")
 
+        # allow negative axis numbers
+        time_dim = time_dim % data.ndim
+
         # Transpose data if time_dim is not 0 (i.e. the first/left-most dimension)
         dims_to_transpose = np.arange(data.ndim).tolist()
         dims_to_transpose.insert(
@@ -387,7 +390,7 @@ def eofunc_eofs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     attrs['eigenvalues'] = solver.eigenvalues(neigs=neofs)
     attrs['northTest'] = solver.northTest(neigs=neofs, vfscaled=vfscaled)
@@ -395,10 +398,13 @@ def eofunc_eofs(
     attrs['varianceFraction'] = solver.varianceFraction(neigs=neofs)
 
     if meta:
-        dims = ["eof"] + [data.dims[i] for i in range(data.ndim) if i != time_dim]
-        coords = {k: v for (k, v) in data.coords.items() if k != data.dims[time_dim]}
+        # the solver's data always has time as its leftmost dimension
+        dims = ["eof"] + list(data.dims[1:])
+        coords = {k: v for (k, v) in data.coords.items() if data.dims[0] not in v.dims}
     else:
-        dims = ["eof"] + [f"dim_{i}" for i in range(data.ndim) if i != time_dim]
+        dims = ["eof"] + [
+            f"dim_{i}" for i in range(data.ndim) if i != time_dim % data.ndim
+        ]
         coords = {}
 
     return xr.DataArray(eofs, attrs=attrs, dims=dims, coords=coords)
@@ -514,11 +520,11 @@ def eofunc_pcs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     dims = ["pc", "time"]
     if meta:
-        coords = {"time": data.coords[data.dims[time_dim]]}
+        coords = {k: v for (k, v) in data.coords.items() if k == data.dims[0]}
     else:
         coords = {}
 
-- 
2.43.0


From 9dd84f98ccdf5f403d41b3a6e867a7fc6734be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 05/38] fix: dewtemp and relhum reject inputs of different
 shapes as they mean to

---
 geocat/comp/meteorology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index eea45c9..7bae095 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -283,7 +283,7 @@ def dewtemp(
     inputs = [temperature, relative_humidity]
 
     # ensure all inputs same size
-    if not (np.shape(x) == np.shape(inputs[0]) for x in inputs):
+    if not all(np.shape(x) == np.shape(inputs[0]) for x in inputs):
         raise ValueError("dewtemp: dimensions of inputs are not the same")
 
     # Get input types
@@ -562,7 +562,7 @@ def relhum(
     inputs = [temperature, mixing_ratio, pressure]
 
     # ensure all inputs same size
-    if not (np.shape(x) == np.shape(inputs[0]) for x in inputs):
+    if not all(np.shape(x) == np.shape(inputs[0]) for x in inputs):
         raise ValueError("relhum: dimensions of inputs are not the same")
 
     if not hasattr(temperature, 'clip'):
-- 
2.43.0


From dbf90e1d526c4e412d6c9c9eb7dcbae27eb52e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 06/38] fix: relhum propagates missing temperatures instead of
 raising IndexError

---
 geocat/comp/meteorology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 7bae095..ab81304 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -574,7 +574,8 @@ def relhum(
     # replace values of t above and below max and min values for temperature
     temperature = temperature.clip(mintemp, maxtemp)
 
-    it = (temperature - mintemp).astype(int)
+    # missing temperatures have no table entry; they stay missing in the result
+    it = xr.where(np.isnan(temperature), 0, temperature - mintemp).astype(int)
     t2 = mintemp + it
 
     es = (t2 + 1 - temperature) * table[it] + (temperature - t2) * table[it + 1]
-- 
2.43.0


From bac7fdfb8aba701842225ccbedd210d1eed667e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 07/38] fix: gradient and WGS84 helpers no longer overflow for
 float32 and integer latitudes

---
 geocat/comp/gradient.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geocat/comp/gradient.py b/geocat/comp/gradient.py
index 9bf8f1d..f7ecaaa 100644
--- a/geocat/comp/gradient.py
+++ b/geocat/comp/gradient.py
@@ -44,6 +44,9 @@ def _rad_lat_wgs84(
     `gradsg <https://www.ncl.ucar.edu/Document/Functions/Built-in/gradsg.shtml>`__
     """
 
+    # the high powers overflow integer and single precision types
+    lat = np.multiply(lat, 1.0, dtype=np.float64)
+
     return (
         8.05993093251779959604912e-107 * lat**48
         - 1.26581811418535723456176e-102 * lat**46
@@ -108,6 +111,9 @@ def _arc_lat_wgs84(
     `gradsg <https://www.ncl.ucar.edu/Document/Functions/Built-in/gradsg.shtml>`__
     """
 
+    # the high powers overflow integer and single precision types
+    lat = np.multiply(lat, 1.0, dtype=np.float64)
+
     return (
         2.87086392358719396475614e-110 * lat**49
         - 4.70057315402553703681995e-106 * lat**47
-- 
2.43.0


From 5862bb8b99a4d95f85f120b4d529b324864fcc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 08/38] fix: gradient differentiates n-dimensional data along
 latitude and longitude

---
 geocat/comp/gradient.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/gradient.py b/geocat/comp/gradient.py
index f7ecaaa..1616502 100644
--- a/geocat/comp/gradient.py
+++ b/geocat/comp/gradient.py
@@ -251,7 +251,8 @@ def gradient(
     axis0dist = np.gradient(axis0loc, axis=0)
     axis1dist = np.gradient(axis1loc, axis=1)
 
-    grad = np.gradient(data)
+    # latitude and longitude are the two rightmost dimensions
+    grad = np.gradient(data, axis=(-2, -1))
 
     axis0grad = grad[0] / axis0dist
     axis1grad = grad[1] / axis1dist
@@ -259,7 +260,7 @@ def gradient(
     if type(data) in [xr.core.dataarray.DataArray, xr.core.dataset.Dataset]:
         axis0grad = xr.DataArray(
             axis0grad,
-            dims=['x', 'y'],
+            dims=[*data.dims[:-2], 'x', 'y'],
             coords=dict(
                 lon=(['x', 'y'], lon2d.data),
                 lat=(['x', 'y'], lat2d.data),
@@ -267,7 +268,7 @@ def gradient(
         )
         axis1grad = xr.DataArray(
             axis1grad,
-            dims=['x', 'y'],
+            dims=[*data.dims[:-2], 'x', 'y'],
             coords=dict(
                 lon=(['x', 'y'], lon2d.data),
                 lat=(['x', 'y'], lat2d.data),
-- 
2.43.0


From f82757946b52a1ac3191fc86c342b327c8fa1244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 09/38] fix: interp_multidim with cyclic=True handles more than
 two dimensions, and keeps name and attrs

---
 geocat/comp/interpolation.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index a840b63..9c61cc9 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -102,11 +102,14 @@ def _pre_interp_multidim(
             np.where(data_in.values == missing_val, np.nan, data_in.values),
             dims=data_in.dims,
             coords=data_in.coords,
+            name=data_in.name,
+            attrs=data_in.attrs,
         )
 
     # add cyclic points and create new data array
     if cyclic:
-        padded_data = np.pad(data_in.values, ((0, 0), (1, 1)), mode='wrap')
+        pad_width = [(0, 0)] * (data_in.ndim - 1) + [(1, 1)]
+        padded_data = np.pad(data_in.values, pad_width, mode='wrap')
         padded_longitudes = np.pad(
             data_in.coords[data_in.dims[-1]], (1, 1), mode='wrap'
         )
@@ -116,10 +119,16 @@ def _pre_interp_multidim(
         data_in = xr.DataArray(
             padded_data,
             coords={
-                data_in.dims[-2]: data_in.coords[data_in.dims[-2]].values,
+                **{
+                    k: v
+                    for k, v in data_in.coords.items()
+                    if data_in.dims[-1] not in v.dims
+                },
                 data_in.dims[-1]: padded_longitudes,
             },
             dims=data_in.dims,
+            name=data_in.name,
+            attrs=data_in.attrs,
         )
 
     return data_in
@@ -146,6 +155,8 @@ def _post_interp_multidim(data_in, missing_val):
             np.where(np.isnan(data_in.values), missing_val, data_in.values),
             dims=data_in.dims,
             coords=data_in.coords,
+            name=data_in.name,
+            attrs=data_in.attrs,
         )
 
     return data_in
-- 
2.43.0


From 366e1326a30ce85048c0f336ef4662078db01eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 10/38] fix: interp_multidim returns the same type as its input
 and accepts n-dimensional numpy arrays

---
 geocat/comp/interpolation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 9c61cc9..434f924 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -975,13 +975,16 @@ def interp_multidim(
     `NCL linint2 <https://www.ncl.ucar.edu/Document/Functions/Built-in/linint2.shtml>`__
     """
     # check for xarray/numpy
-    if not isinstance(data_in, xr.DataArray):
+    xr_input = isinstance(data_in, xr.DataArray)
+    if not xr_input:
         if lat_in is None or lon_in is None:
             raise ValueError(
                 "Argument lat_in and lon_in must be provided if data_in is not an xarray"
             )
         data_in = xr.DataArray(
-            data_in, dims=['lat', 'lon'], coords={'lat': lat_in, 'lon': lon_in}
+            data_in,
+            dims=[f'dim_{i}' for i in range(np.ndim(data_in) - 2)] + ['lat', 'lon'],
+            coords={'lat': lat_in, 'lon': lon_in},
         )
 
     output_coords = {
@@ -995,4 +998,4 @@ def interp_multidim(
     )
     data_out_modified = _post_interp_multidim(data_out, missing_val=missing_val)
 
-    return data_out_modified
+    return data_out_modified if xr_input else data_out_modified.values
-- 
2.43.0


From add8246d4709bff990761b3c1060387be6aeffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 11/38] fix: hybrid pressures of numpy input put the level axis
 first for any rank of surface pressure

---
 geocat/comp/interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 434f924..f6e0b8a 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -424,8 +424,8 @@ def pressure_at_hybrid_levels(psfc, hya, hyb, p0=100000.0):
 
     # broadcast if np inputs
     if isinstance(hya, np.ndarray):  # will be same type by here
-        hya = np.expand_dims(hya, axis=(1, 2))
-        hyb = np.expand_dims(hyb, axis=(1, 2))
+        hya = hya.reshape((-1,) + (1,) * psfc.ndim)
+        hyb = hyb.reshape((-1,) + (1,) * psfc.ndim)
 
     # Results in Pa
     # p(k) = hya(k) * p0 + hyb(k) * psfc
@@ -498,8 +498,8 @@ def delta_pressure_hybrid(
 
     # broadcast any np inputs or drop xarray lev dims
     if isinstance(hya, np.ndarray):  # hya and hyb already validated to be same type
-        hya = np.expand_dims(hya, axis=(1, 2))
-        hyb = np.expand_dims(hyb, axis=(1, 2))
+        hya = hya.reshape((-1,) + (1,) * ps.ndim)
+        hyb = hyb.reshape((-1,) + (1,) * ps.ndim)
     elif isinstance(hya, xr.DataArray):
         # drop lev coords for delta calculation, or xr will try to align
         if len(hya.coords) > 0:
-- 
2.43.0


From 605d516cd47712dfdcd653a20c3fb44233f6793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 12/38] fix: delta_pressure_hybrid drops every coordinate of
 the coefficients so that levels are not aligned away

---
 geocat/comp/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index f6e0b8a..ed20f63 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -503,9 +503,9 @@ def delta_pressure_hybrid(
     elif isinstance(hya, xr.DataArray):
         # drop lev coords for delta calculation, or xr will try to align
         if len(hya.coords) > 0:
-            hya = hya.drop(list(hya.coords)[0])
+            hya = hya.drop_vars(list(hya.coords))
         if len(hyb.coords) > 0:
-            hyb = hyb.drop(list(hyb.coords)[0])
+            hyb = hyb.drop_vars(list(hyb.coords))
         # make sure hya and hyb dims align, favor hya dim name
         if set(hya.dims) != set(hyb.dims):
             hyb = hyb.rename({hyb.dims[0]: hya.dims[0]})
-- 
2.43.0


From e02a56bf5f3867455b83211c109c168463dbb3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 13/38] fix: variable lookup tries possible names in the given
 order instead of hash order

---
 geocat/comp/gc_util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/gc_util.py b/geocat/comp/gc_util.py
index 2b9c55f..92ea332 100644
--- a/geocat/comp/gc_util.py
+++ b/geocat/comp/gc_util.py
@@ -117,16 +117,17 @@ def _find_var(
 
     # Then try direct name match
     if possible_names:
-        possible_names_expanded = set()
+        # a list, so that the names are tried in the order they are given
+        possible_names_expanded = []
         for name in possible_names:
-            possible_names_expanded.update(
-                {
+            possible_names_expanded.extend(
+                [
                     name,
                     name.lower(),
                     name.upper(),
                     name.capitalize(),
                     '_'.join(word.capitalize() for word in name.split('_')),
-                }
+                ]
             )
 
         for name in possible_names_expanded:
-- 
2.43.0


From 123a9df0091557020c286679498371074a71bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 14/38] fix: delta_pressure of a column whose surface lies
 within the top layer

---
 geocat/comp/meteorology.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index ab81304..320e741 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1252,6 +1252,9 @@ def _delta_pressure1D(pressure_lev, surface_pressure, pressure_top):
         surface_pressure - (pressure_lev[end_level] + pressure_lev[end_level - 1]) / 2
     )  # bottom level
 
+    if start_level == end_level:  # the surface lies within the top layer
+        delta_pressure[end_level] = surface_pressure - pressure_top
+
     # Return delta_pressure to original order
     if is_pressuredecreasing:
         delta_pressure = np.flip(delta_pressure)
-- 
2.43.0


From df280784e48be7eb23030d64e393169fe88e461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 15/38] fix: interp_sigma_to_hybrid handles more hybrid than
 sigma levels and does not truncate integer data

---
 geocat/comp/interpolation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index ed20f63..8de4637 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -839,6 +839,9 @@ def interp_sigma_to_hybrid(
     # Calculate sigma levels at the hybrid levels
     sigma = _sigma_from_hybrid(ps, hyam, hybm, p0)  # Pa
 
+    # interpolated values are floating point, also those of integer data
+    out_dtype = np.result_type(data.dtype, np.float32)
+
     non_lev_dims = list(data.dims)
     if data.ndim > 1:
         non_lev_dims.remove(lev_dim)
@@ -847,7 +850,7 @@ def interp_sigma_to_hybrid(
 
         h_coords = sigma_stacked[0, :].copy()
 
-        output = data_stacked[:, : len(hyam)].copy()
+        output = data_stacked[:, [0] * len(hyam)].astype(out_dtype)
 
         for idx, (d, s) in enumerate(zip(data_stacked, sigma_stacked)):
             output[idx, :] = xr.DataArray(
@@ -860,7 +863,7 @@ def interp_sigma_to_hybrid(
     else:
         h_coords = sigma
 
-        output = data[: len(hyam)].copy()
+        output = data[[0] * len(hyam)].astype(out_dtype)
         output[: len(hyam)] = xr.DataArray(
             _vertical_remap(func_interpolate, sigma.data, sig_coords.data, data.data),
             dims=[lev_dim],
-- 
2.43.0


From e14009da74895fc61db2ff26a5298987ba552314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 16/38] fix: climatology_average(freq='day'/'hour') handles
 leap days when the median year is not a leap year

---
 geocat/comp/climatologies.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index c7f16d9..9fd39a9 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -648,6 +648,8 @@ def climatology_average(
     else:
         # Retrieve floor of median year
         median_yr = np.median(dset[time_dim].dt.year.values)
+        leap_days = (dset[time_dim].dt.month == 2) & (dset[time_dim].dt.day == 29)
+        leap_yrs = np.unique(dset[time_dim].dt.year.values[leap_days.values])
 
         # Group data by format then calculate average of groups
         dset = (
@@ -656,6 +658,11 @@ def climatology_average(
             .rename({'strftime': time_dim})
         )
 
+        # February 29 only exists in leap years: if the data has it, use the leap
+        # year closest to the median year
+        if freq != 'month' and leap_yrs.size and round(median_yr) not in leap_yrs:
+            median_yr = leap_yrs[np.abs(leap_yrs - median_yr).argmin()]
+
         # Center the time coordinate by inferring and then averaging the time bounds
         start_time = dset[time_dim].values[0]
         end_time = dset[time_dim].values[-1]
-- 
2.43.0


From 7ec3e3d436baa80f1c63397a59083f0c312a07c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 17/38] fix: calendar_average and climatology_average keep the
 periods and cells that have data when others are missing

---
 geocat/comp/climatologies.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 9fd39a9..f28a050 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -430,11 +430,7 @@ def calendar_average(
     calendar = _infer_calendar_name(dset[time_dim])
 
     # Group data
-    dset = (
-        dset.resample({time_dim: frequency})
-        .mean(keep_attrs=keep_attrs)
-        .dropna(time_dim)
-    )
+    dset = dset.resample({time_dim: frequency}).mean(keep_attrs=keep_attrs)
 
     # Weight the data by the number of days in each month
     if freq in ['season', 'year']:
@@ -445,12 +441,15 @@ def calendar_average(
         key = freq
         format, frequency = freq_dict[key]
         # Compute the weights for the months in each season so that the
-        # seasonal/yearly averages account for months being of different lengths
-        month_length = dset[time_dim].dt.days_in_month.resample({time_dim: frequency})
-        weights = month_length.map(lambda group: group / group.sum())
+        # seasonal/yearly averages account for months being of different lengths.
+        # Months without data have no weight.
+        weights = dset.notnull() * dset[time_dim].dt.days_in_month.drop_attrs()
 
         dset_weighted = dset * weights
-        dset = (dset_weighted).resample({time_dim: frequency}).sum()
+        dset = (
+            dset_weighted.resample({time_dim: frequency}).sum()
+            / weights.resample({time_dim: frequency}).sum()
+        )
 
     # Center the time coordinate by inferring and then averaging the time bounds
     dset = _calculate_center_of_time_bounds(
@@ -631,14 +630,17 @@ def climatology_average(
             dset_filter = (
                 dset_filter.resample({time_dim: frequency})
                 .mean(keep_attrs=keep_attrs)
-                .dropna(time_dim)
+                .dropna(time_dim, how='all')
             )
 
             # Compute the weights for the months in each season so that the
-            # seasonal averages account for months being of different lengths
-            month_length = dset_filter[time_dim].dt.days_in_month
-            weights = month_length / month_length.sum()
-            climatology = (dset_filter * weights).sum(dim=time_dim)
+            # seasonal averages account for months being of different lengths.
+            # Months without data have no weight.
+            month_length = dset_filter[time_dim].dt.days_in_month.drop_attrs()
+            weights = dset_filter.notnull() * month_length
+            climatology = (dset_filter * weights).sum(dim=time_dim) / weights.sum(
+                dim=time_dim
+            )
 
             seasonal_climates.append(climatology)
         dset = xr.concat(seasonal_climates, dim='season')
-- 
2.43.0


From d4b345f059b4009a475c915db12dfa02d90e8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 18/38] fix: climatology_average stamps only the slots that
 have data, and accepts years before 1000

---
 geocat/comp/climatologies.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index f28a050..dcbe01c 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -47,6 +47,7 @@ def _calculate_center_of_time_bounds(
     start: typing.Union[str, cftime.datetime],
     end: typing.Union[str, cftime.datetime],
     keep_attrs: bool = None,
+    label_format: str = None,
 ) -> typing.Union[xr.Dataset, xr.DataArray]:
     """Helper function to determine the time bounds based on the given dataset
     and frequency and then calculate the averages of them.
@@ -80,6 +81,10 @@ def _calculate_center_of_time_bounds(
         If False, the new object will be returned without attributes.
         Defaults to None which means the attrs will only be kept in unambiguous circumstances.
 
+    label_format : str, optional
+        If given, the time coordinate of ``dset`` holds labels in this date format, and only the
+        periods between ``start`` and ``end`` that have a label are used.
+
     Returns
     -------
     computed_dset: :class:`xarray.Dataset`, :class:`xarray.DataArray`
@@ -100,9 +105,11 @@ def _calculate_center_of_time_bounds(
         )
     else:
         time_bounds = xr.date_range(start=start, end=end, freq=freq, calendar=calendar)
-    time_bounds = time_bounds.append(time_bounds[-1:].shift(1, freq=freq))
+    if label_format:
+        has_data = np.isin(time_bounds.strftime(label_format), dset[time_dim].values)
+        time_bounds = time_bounds[has_data]
     time = xr.DataArray(
-        np.vstack((time_bounds[:-1], time_bounds[1:])).T, dims=[time_dim, 'nbd']
+        np.vstack((time_bounds, time_bounds.shift(1, freq=freq))).T, dims=[time_dim, 'nbd']
     ).mean(dim='nbd', keep_attrs=keep_attrs)
     return dset.assign_coords({time_dim: time})
 
@@ -673,9 +680,10 @@ def climatology_average(
             time_dim,
             frequency,
             calendar,
-            start=f'{median_yr:.0f}-{start_time}',
-            end=f'{median_yr:.0f}-{end_time}',
+            start=f'{median_yr:04.0f}-{start_time}',
+            end=f'{median_yr:04.0f}-{end_time}',
             keep_attrs=keep_attrs,
+            label_format=format,
         )
 
         return dset
-- 
2.43.0


From 7f0b5b920acd5f2c3df6eae7c710f1c4f7de9795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 19/38] fix: month_to_season drops the means outside the data's
 range, whatever month the data starts in

---
 geocat/comp/climatologies.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index dcbe01c..2b8eb97 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -318,15 +318,6 @@ def month_to_season(
         {time_coord_name: dset[time_coord_name].dt.month.isin(months)}
     )
 
-    if (
-        season == 'DJF'
-    ):  # For this season, the last "mean" will be the value for Dec so we drop the last month
-        data_filter = data_filter.isel({time_coord_name: slice(None, -1)})
-    elif (
-        season == 'NDJ'
-    ):  # For this season, the first "mean" will be the value for Jan so we drop the first month
-        data_filter = data_filter.isel({time_coord_name: slice(1, None)})
-
     # Group the months into three and take the mean
     means = data_filter.resample({time_coord_name: quarter}).mean(keep_attrs=keep_attrs)
     # Set offset for supported array formats
@@ -345,7 +336,13 @@ def month_to_season(
 
     # The line above tries to take the mean for all quarters even if there is not data for some of them
     # Therefore, we must filter out the NaNs
-    return means.sel({time_coord_name: means[time_coord_name].dt.month == months[1]})
+    means = means.sel({time_coord_name: means[time_coord_name].dt.month == months[1]})
+    # Drop the means whose time stamp falls outside the range of the data
+    data_months, mean_months = (
+        t.dt.year * 12 + t.dt.month
+        for t in (dset[time_coord_name], means[time_coord_name])
+    )
+    return means.sel({time_coord_name: mean_months.isin(data_months)})
 
 
 def calendar_average(
-- 
2.43.0


From 1ac66d26cb6b4ea10ca2a2296c70164e27f891b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 20/38] fix: interp_hybrid_to_pressure returns each requested
 level in its place when new_levels are not sorted

---
 geocat/comp/interpolation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 8de4637..0993e85 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -677,6 +677,10 @@ def interp_hybrid_to_pressure(
 
     interp_axis = data.dims.index(lev_dim)
 
+    # The interpolation functions expect sorted levels
+    level_order = np.argsort(new_levels)
+    new_levels = np.sort(new_levels)
+
     # Calculate pressure levels at the hybrid levels
     pressure = pressure_at_hybrid_levels(ps, hyam, hybm, p0)  # Pa
 
@@ -771,7 +775,8 @@ def interp_hybrid_to_pressure(
             if output.data.__module__ == 'pint' and not in_pint:
                 output.data = output.data.to('pascal').magnitude
 
-    return output
+    # Return the levels in the order they were asked for
+    return output.isel(plev=np.argsort(level_order))
 
 
 def interp_sigma_to_hybrid(
-- 
2.43.0


From e3b36c47defdcc5f7861cb231795b4a473fb6ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:23 +0000
Subject: [PATCH 21/38] fix: below-ground extrapolation finds the lowest model
 level by its pressure, not by its level coordinate

---
 geocat/comp/interpolation.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 0993e85..dcb81b3 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -338,10 +338,7 @@ def _vertical_remap_extrap(
         A DataArray containing the data after extrapolation.
     """
 
-    sfc_index = pressure[lev_dim].argmax(dim=lev_dim)  # index of the model surface
-    p_sfc = pressure.isel(
-        {lev_dim: sfc_index}, drop=True
-    )  # extract pressure at lowest level
+    p_sfc = pressure.max(dim=lev_dim)  # extract pressure at lowest level
 
     if variable == 'temperature':
         output = output.where(
@@ -355,7 +352,7 @@ def _vertical_remap_extrap(
         )
     else:
         output = output.where(
-            output.plev <= p_sfc, data.isel({lev_dim: sfc_index}, drop=True)
+            output.plev <= p_sfc, data.where(pressure == p_sfc).max(dim=lev_dim)
         )
 
     return output
-- 
2.43.0


From bbd25200a8546f44cf815fe899589dc952ce3885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 22/38] fix: zonal_meridional_psi accepts a level coordinate
 that is not called plev

---
 geocat/comp/meteorology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 320e741..a1017b7 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1500,6 +1500,10 @@ def zonal_meridional_psi(
     # Check if interpolation needs to be done
     if plev_coordname and plev_coordname in uxds[meridional_wind_varname].dims:
         ux_ipress = uxds[meridional_wind_varname]
+        # the level dimension is called 'plev' from here on
+        if plev_coordname != 'plev':
+            ux_ipress = ux_ipress.rename({plev_coordname: 'plev'})
+            plev_coordname = 'plev'
     elif hyam_coordname and hybm_coordname:
         da_ipress = interp_hybrid_to_pressure(
             uxds[meridional_wind_varname],
-- 
2.43.0


From 533ca60b828f3a7d1b449d01aef2cd2979870564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 23/38] fix: pearson_r accepts lists along an axis and applies
 one-dimensional weights along that axis

---
 geocat/comp/stats.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index d407ae4..4b3e8a2 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -196,7 +196,16 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
             b = np.ravel(b)
             if weights is not None:
                 weights = np.ravel(weights)
+        a = np.asarray(a)
+        b = np.asarray(b)
         try:
+            if weights is not None:
+                weights = np.asarray(weights)
+                # weights along `axis` apply to every slice of the data
+                if weights.ndim == 1 and a.ndim > 1:
+                    shape = [1] * a.ndim
+                    shape[axis] = -1
+                    weights = np.broadcast_to(weights.reshape(shape), a.shape)
             return xs_internal._pearson_r(a, b, weights, axis, skipna)
         except ValueError:
             print('Data along `axis` must have the same dimension as `weights`')
-- 
2.43.0


From 9dc23e044fb939aeaf28cddefd035b62d092e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 24/38] fix: interp_hybrid_to_pressure accepts chunked surface
 pressure with data that is not chunked

---
 geocat/comp/interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index dcb81b3..0dd6c6b 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -713,6 +713,10 @@ def interp_hybrid_to_pressure(
     if in_dask and output is None:
         from dask.array.core import map_blocks
 
+        # only the other arguments may be chunked
+        if data.chunks is None:
+            data = data.chunk()
+
         # Chunk pressure equal to data's chunks
         pressure = pressure.chunk(data.chunksizes)
 
-- 
2.43.0


From 66dd23a6005666e730c32306b66d5b4b77a74e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:13 +0000
Subject: [PATCH 25/38] fix: heat_index rejects invalid relative humidity also
 when other values are missing

---
 geocat/comp/meteorology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index a1017b7..5046dd8 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -398,7 +398,7 @@ def heat_index(
         )
 
     # check relative humidity within valid range 0 to 100
-    if relative_humidity.min() < 0 or relative_humidity.max() > 100:
+    if (relative_humidity < 0).any() or (relative_humidity > 100).any():
         raise ValueError(
             'heat_index: invalid values for relative humidity, expected all between 0 and 100'
         )
-- 
2.43.0


From 5c8c256321e82c3564f125a989aa3c6dedb73e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:17 +0000
Subject: [PATCH 26/38] fix: seasonal climatology of a season whose data is all
 missing

---
 geocat/comp/climatologies.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 2b8eb97..6488a11 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -631,10 +631,8 @@ def climatology_average(
             dset_filter = dset.sel({time_dim: dset[time_dim].dt.month.isin(months)})
 
             # Calculate monthly average before calculating seasonal climatologies
-            dset_filter = (
-                dset_filter.resample({time_dim: frequency})
-                .mean(keep_attrs=keep_attrs)
-                .dropna(time_dim, how='all')
+            dset_filter = dset_filter.resample({time_dim: frequency}).mean(
+                keep_attrs=keep_attrs
             )
 
             # Compute the weights for the months in each season so that the
-- 
2.43.0


From 1f2cef515aabffb5ff82751dd47f1d68f7f75c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:07 +0000
Subject: [PATCH 27/38] fix: do not carry the packing of the input file over to
 filtered signals

A signal read from a packed netCDF file kept its scale and offset after
filtering, so that writing the result wrapped or truncated its values.
---
 geocat/comp/fourier_filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 4b0a17d..74f1a21 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -167,6 +167,8 @@ def fourier_filter(
     if type(signal) is xr.DataArray:
         xr_result = signal.copy()
         xr_result.data = result
+        # how the source file packs its values does not fit the filtered ones
+        xr_result.encoding = {}
         result = xr_result
     return result
 
-- 
2.43.0


From 811333f47a25646867b12f21e0d765eabf4c59f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:00 +0000
Subject: [PATCH 28/38] fix: lev_dim defaults to 'lev' as documented when no
 attribute tells the level dimension

---
 geocat/comp/interpolation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 0dd6c6b..0995bc6 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -663,6 +663,9 @@ def interp_hybrid_to_pressure(
             data = data.cf.guess_coord_axis()
             lev_dim = data.cf["vertical"].name
         except Exception:
+            # the documented default
+            lev_dim = 'lev' if 'lev' in data.dims else None
+        if lev_dim is None:
             raise ValueError(
                 "Unable to determine vertical dimension name. Please specify the name via `lev_dim` argument."
             )
@@ -833,6 +836,9 @@ def interp_sigma_to_hybrid(
         try:
             lev_dim = data.cf["vertical"].name
         except Exception:
+            # the documented default
+            lev_dim = 'lev' if 'lev' in data.dims else None
+        if lev_dim is None:
             raise ValueError(
                 "Unable to determine vertical dimension name. Please specify the name via `lev_dim` argument.'"
             )
-- 
2.43.0


From 685968ad4c501dd850d49d4a24502617a67c8683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:01 +0000
Subject: [PATCH 29/38] fix: interp_hybrid_to_pressure labels its levels
 whatever coordinates the field has along its own levels

A field without a level coordinate came back without the pressure levels, so
that extrapolation below ground compared level numbers with pressures, and a
field with further coordinates along its levels was refused.
---
 geocat/comp/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 0995bc6..9727021 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -762,10 +762,10 @@ def interp_hybrid_to_pressure(
 
     coords = {}
     for k, v in data.coords.items():
-        if k != lev_dim:
+        # coordinates along the old levels do not apply to the new ones
+        if lev_dim not in v.dims:
             coords.update({k: v})
-        else:
-            coords.update({"plev": new_levels})
+    coords.update({"plev": new_levels})
 
     output = output.transpose(*dims).assign_coords(coords)
 
-- 
2.43.0


From c05daf7f1ee0e905cf2ba9fda9e9fbd44ec1cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 30/38] fix: interp_sigma_to_hybrid does not label the hybrid
 levels with coordinates of the first sigma level

---
 geocat/comp/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 9727021..2609874 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -848,6 +848,9 @@ def interp_sigma_to_hybrid(
     except ValueError as vexc:
         raise ValueError(vexc.args[0])
 
+    # coordinates along the old levels do not apply to the new ones
+    data = data.drop_vars([k for k, v in data.coords.items() if lev_dim in v.dims])
+
     # Calculate sigma levels at the hybrid levels
     sigma = _sigma_from_hybrid(ps, hyam, hybm, p0)  # Pa
 
-- 
2.43.0


From 0cd9bcd639de1bd02005bb47ba156e80499bb6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:07 +0000
Subject: [PATCH 31/38] fix: calendar_average accepts dates outside of
 1678-2262 in coarser datetime64 resolutions

The bounds of the periods were built in nanoseconds, which cannot hold them.
---
 geocat/comp/climatologies.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 6488a11..88c3fd4 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -104,7 +104,14 @@ def _calculate_center_of_time_bounds(
             start=start, end=end, freq=freq, calendar=calendar, use_cftime=True
         )
     else:
-        time_bounds = xr.date_range(start=start, end=end, freq=freq, calendar=calendar)
+        # the resolution of the data decides which years can be represented
+        time_bounds = xr.date_range(
+            start=start,
+            end=end,
+            freq=freq,
+            calendar=calendar,
+            unit=np.datetime_data(start)[0],
+        )
     if label_format:
         has_data = np.isin(time_bounds.strftime(label_format), dset[time_dim].values)
         time_bounds = time_bounds[has_data]
-- 
2.43.0


From b8ae4b3dfbe02a77c2dc007924f51fc0cc1e9872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:06 +0000
Subject: [PATCH 32/38] fix: dewtemp, heat_index and the saturation vapor
 pressures accept temperatures of any integer type

---
 geocat/comp/gc_util.py     | 19 +++++++++++++++++++
 geocat/comp/meteorology.py | 17 ++++++++++++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/gc_util.py b/geocat/comp/gc_util.py
index 92ea332..f2cacea 100644
--- a/geocat/comp/gc_util.py
+++ b/geocat/comp/gc_util.py
@@ -1,6 +1,8 @@
 import typing
 import warnings
 
+import numpy as np
+
 
 def _generate_wrapper_docstring(
     wrapper_fcn: typing.Callable, base_fcn: typing.Callable
@@ -171,3 +173,20 @@ def _find_optional_var(
         return _find_var(ds, standard_name, long_name, possible_names, description)
     except KeyError:
         return None
+
+
+def _promote_integers(x):
+    """Helper function to convert integers to double precision. Intermediate
+    results of small or unsigned types would silently leave their range.
+
+    Parameters
+    ----------
+    x : :class:`xarray.DataArray`, :class:`numpy.ndarray`
+        Any array
+
+    Returns
+    -------
+    x : :class:`xarray.DataArray`, :class:`numpy.ndarray`
+        The array, in double precision if it was of an integer type
+    """
+    return x.astype(float) if np.issubdtype(x.dtype, np.integer) else x
diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 5046dd8..574790e 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -3,7 +3,12 @@ import typing
 import warnings
 import xarray as xr
 
-from .gc_util import _generate_wrapper_docstring, _find_var, _find_optional_var
+from .gc_util import (
+    _generate_wrapper_docstring,
+    _find_var,
+    _find_optional_var,
+    _promote_integers,
+)
 from .interpolation import interp_hybrid_to_pressure
 
 
@@ -41,6 +46,7 @@ def _dewtemp(
     gc = 461.5  # gas constant for water vapor [j/{kg-k}]
     gcx = gc / (1000 * 4.186)  # [cal/{g-k}]
 
+    tk = _promote_integers(tk)
     lhv = (597.3 - 0.57 * (tk - 273)) / gcx
     tdk = tk * lhv / (lhv - tk * np.log(rh * 0.01))
 
@@ -397,6 +403,9 @@ def heat_index(
             f"heat_index: dimensions of inputs are not the same, received {temperature.shape}, {relative_humidity.shape}"
         )
 
+    temperature = _promote_integers(temperature)
+    relative_humidity = _promote_integers(relative_humidity)
+
     # check relative humidity within valid range 0 to 100
     if (relative_humidity < 0).any() or (relative_humidity > 100).any():
         raise ValueError(
@@ -1004,6 +1013,8 @@ def saturation_vapor_pressure(
     in_type = type(temperature)
 
     if in_type is xr.DataArray:
+        temperature = _promote_integers(temperature)
+
         # convert temperature to Celsius
         temp_c = (temperature - 32) * 5 / 9
 
@@ -1020,6 +1031,7 @@ def saturation_vapor_pressure(
 
     else:
         temperature = np.asarray(temperature)
+        temperature = _promote_integers(temperature)
 
         temp_c = (temperature - 32) * 5 / 9
         svp = np.where(
@@ -1138,6 +1150,8 @@ def saturation_vapor_pressure_slope(
     in_type = type(temperature)
 
     if in_type is xr.DataArray:
+        temperature = _promote_integers(temperature)
+
         # convert to Celsius
         temp_c = (temperature - 32) * 5 / 9
 
@@ -1161,6 +1175,7 @@ def saturation_vapor_pressure_slope(
 
     else:
         temperature = np.asarray(temperature)
+        temperature = _promote_integers(temperature)
 
         # convert to Celsius
         temp_c = (temperature - 32) * 5 / 9
-- 
2.43.0


From eea9fd53ef25e487d58af86f707a35e873681d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:06 +0000
Subject: [PATCH 33/38] fix: delta_pressure accepts pressures of any integer
 type

---
 geocat/comp/meteorology.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 574790e..767a749 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1224,6 +1224,8 @@ def _delta_pressure1D(pressure_lev, surface_pressure, pressure_top):
         `pressure_lev`.
     """
 
+    pressure_lev = _promote_integers(pressure_lev)
+
     # Safety checks
     if pressure_top < 0:
         raise ValueError(
-- 
2.43.0


From 865781e0c1b380de0d0437143856508ff53fed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:06 +0000
Subject: [PATCH 34/38] fix: nmse accepts values of any integer type

---
 geocat/comp/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 4b3e8a2..187e095 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -123,6 +123,10 @@ def nmse(
     observed = observed.where(weights != 0, 0)
     modeled = modeled.where(weights != 0, 0)
 
+    # differences and squares of integers can exceed the range of their type
+    observed = observed * 1.0
+    modeled = modeled * 1.0
+
     # make sure weights are a DataArray
     if isinstance(weights, xr.Dataset):
         weights = weights.to_dataarray()
-- 
2.43.0


From 0d403cfce2b02437949579c1537547e3b3782540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:06 +0000
Subject: [PATCH 35/38] fix: EOFs of integer data are not truncated to whole
 numbers

---
 geocat/comp/stats.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 187e095..b1d0a36 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -7,6 +7,8 @@ import xskillscore.core.np_deterministic as xs_internal
 import xarray as xr
 import warnings
 
+from .gc_util import _promote_integers
+
 
 def nmse(
     observed: Union[xr.Dataset, xr.DataArray], modeled: Union[xr.Dataset, xr.DataArray]
@@ -251,6 +253,9 @@ def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
             dims=dims,
         )
 
+    # the solver converts the weights and the patterns to the type of the data
+    data = _promote_integers(data)
+
     solver = Eof(data, weights=weights, center=center, ddof=ddof)
 
     return data, solver
-- 
2.43.0


From 4db8b0f85a29931fca67685be26350ffeaaa4de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:06 +0000
Subject: [PATCH 36/38] fix: vertical interpolation accepts fields of any
 integer type

---
 geocat/comp/interpolation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 2609874..217c81a 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -7,6 +7,8 @@ import metpy.interpolate
 import numpy as np
 import xarray as xr
 
+from .gc_util import _promote_integers
+
 supported_types = typing.Union[xr.DataArray, np.ndarray]
 
 __pres_lev_mandatory__ = np.array(
@@ -677,6 +679,8 @@ def interp_hybrid_to_pressure(
 
     interp_axis = data.dims.index(lev_dim)
 
+    data = _promote_integers(data)
+
     # The interpolation functions expect sorted levels
     level_order = np.argsort(new_levels)
     new_levels = np.sort(new_levels)
@@ -857,6 +861,8 @@ def interp_sigma_to_hybrid(
     # interpolated values are floating point, also those of integer data
     out_dtype = np.result_type(data.dtype, np.float32)
 
+    data = _promote_integers(data)
+
     non_lev_dims = list(data.dims)
     if data.ndim > 1:
         non_lev_dims.remove(lev_dim)
-- 
2.43.0


From 6a9c37d4b489519217bfd64cf8ee4de8d866c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:06 +0000
Subject: [PATCH 37/38] fix: cyclic interp_multidim accepts longitudes of any
 integer type

---
 geocat/comp/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 217c81a..17f574a 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -115,6 +115,7 @@ def _pre_interp_multidim(
         padded_longitudes = np.pad(
             data_in.coords[data_in.dims[-1]], (1, 1), mode='wrap'
         )
+        padded_longitudes = _promote_integers(padded_longitudes)
         padded_longitudes[0] -= 360
         padded_longitudes[-1] += 360
 
-- 
2.43.0


From 7096793bbd5221757f529232c909221d0ee2cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:01 +0000
Subject: [PATCH 38/38] fix: interp_sigma_to_hybrid returns the hybrid levels
 in the order they were asked for

---
 geocat/comp/interpolation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 17f574a..9fce26b 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -176,12 +176,16 @@ def _sigma_from_hybrid(psfc, hya, hyb, p0=100000.0):
 
 def _vertical_remap(func_interpolate, new_levels, xcoords, data, interp_axis=0):
     """Execute the defined interpolation function on data."""
+    # The interpolation functions expect sorted levels
+    order = np.argsort(new_levels)
 
     with warnings.catch_warnings():
         warnings.filterwarnings(
             "ignore", r"Interpolation point out of data bounds encountered"
         )
-        return func_interpolate(new_levels, xcoords, data, axis=interp_axis)
+        output = func_interpolate(new_levels[order], xcoords, data, axis=interp_axis)
+
+    return output[(slice(None),) * interp_axis + (np.argsort(order),)]
 
 
 def _temp_extrapolate(t_bot, lev, p_sfc, ps, phi_sfc):
-- 
2.43.0

