From 127c0443b8c7abc03f395ba1d4806a7f52265d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 01/40] fix: combine all sections of a multi-section 1D search
 grid

---
 doatools/estimation/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index de5e7a2..1cb8797 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -264,10 +264,11 @@ class FarField1DSearchGrid(SearchGrid):
                 locations = np.linspace(start, stop, size, endpoint=False)
             else:
                 n_points = sum(size)
-                locations = np.zeros((n_points, 1))
+                locations = np.zeros((n_points,))
                 offset = 0
                 for k in range(len(start)):
-                    locations[offset:offset+size[k], 0] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    locations[offset:offset+size[k]] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    offset += size[k]
             super().__init__((locations,), ('DOA',), (unit,))
     
     def _create_source_placement(self):
-- 
2.43.0


From 23e812455d87deeb0d6968e2be4505d849680944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 02/40] fix: make the near-field search grid instantiable and
 refinable

---
 doatools/estimation/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index 1cb8797..0244254 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -401,7 +401,7 @@ class NearField2DSearchGrid(SearchGrid):
         A search grid for 2D near-field source localization.
     """
 
-    def __init__(self, start=None, stop=None, size=None, axes=None):
+    def __init__(self, start=None, stop=None, size=(360, 90), axes=None):
         axis_names = ('x', 'y')
         if axes is not None:
             super().__init__(axes, axis_names, ('m', 'm'))
@@ -415,7 +415,7 @@ class NearField2DSearchGrid(SearchGrid):
     def _create_source_placement(self):
         return NearField2DSourcePlacement(cartesian(*self._axes))
 
-    def create_refined_grids_at(self, coord, density=10, span=1):
+    def create_refined_grid_at(self, coord, density=10, span=1):
         """Creates a finer search grid for 2D near-field sources.
         
         Args:
-- 
2.43.0


From 233ae3a04f5bfd67ebaf34c91b38f2ca13d8440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 03/40] fix: subdivide every interval when refining non-uniform
 grid axes

---
 doatools/estimation/grid.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index 0244254..6c71ed8 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -162,9 +162,15 @@ class SearchGrid(ABC):
             i_lb = max(0, coord[j] - span)
             i_ub = min(self._shape[j] - 1, coord[j] + span)
             # Convert to actual values.
-            lb = self._axes[j][i_lb]
-            ub = self._axes[j][i_ub]
-            axes.append(np.linspace(lb, ub, (i_ub - i_lb) * density + 1))
+            points = self._axes[j][i_lb:i_ub+1]
+            lb, ub = points[0], points[-1]
+            n_points = (i_ub - i_lb) * density + 1
+            axis = np.linspace(lb, ub, n_points)
+            if not np.allclose(axis[::density], points, rtol=0.0, atol=1e-9 * abs(ub - lb)):
+                # The points are not evenly spaced. Subdivide each interval.
+                axis = np.interp(np.arange(n_points) / density,
+                                 np.arange(len(points)), points)
+            axes.append(axis)
         return tuple(axes)
 
     def create_refined_grids_at(self, *coords, **kwargs):
-- 
2.43.0


From 28aa6cbe5ea01ef7fe19c5a31ac3763047c71bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 04/40] fix: pass array options through in UniformCircularArray

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 6d19a23..3c6ff38 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -704,7 +704,7 @@ class UniformCircularArray(ArrayDesign):
         self._r = r
         theta = np.linspace(0., np.pi * (2.0 - 2.0 / n), n)
         locations = np.vstack((r * np.cos(theta), r * np.sin(theta))).T
-        super().__init__(locations, name)
+        super().__init__(locations, name, **kwargs)
 
     @property
     def radius(self):
-- 
2.43.0


From 5d4b4f3a615d77e82cd04f2ac538be8705025efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 05/40] fix: accept 20-element MRLAs as documented

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 3c6ff38..612ced0 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -680,7 +680,7 @@ class MinimumRedundancyLinearArray(GridBasedArrayDesign):
     """
 
     def __init__(self, n, d0, name=None, **kwargs):
-        if n < 1 or n >= len(_MRLA_PRESETS):
+        if n < 1 or n > len(_MRLA_PRESETS):
             raise ValueError('The MRLA presets only support up to 20 elements.')
         if name is None:
             name = 'MRLA {0}'.format(n)
-- 
2.43.0


From 9964cabba768faf1f755ad7f3039afb8ca7c3fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 06/40] fix: report the actual output size of vector sensor
 arrays

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 612ced0..b1d2b3b 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -105,7 +105,7 @@ class ArrayDesign:
         In generate, the output size should be equal to ``size``. However, for
         vector sensor arrays, the output size is greater than the array size.
         """
-        return self.size
+        return self.size * self._element.output_size
     
     @property
     def element_locations(self):
-- 
2.43.0


From fefa1e7fa79013b6ade9bb038c1a666de4543979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 07/40] fix: do not expose internal element locations through
 actual_element_locations

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index b1d2b3b..8f4f18f 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -128,7 +128,7 @@ class ArrayDesign:
             1. number of dimensions of the nominal array;
             2. number of dimensions of the sensor location errors.
         """
-        locations = self._locations
+        locations = self._locations.copy()
         for p in self._perturbations.values():
             locations = p.perturb_sensor_locations(locations)
         return locations
-- 
2.43.0


From 7b2042e1602667f777e2c8f9b73d10dbf398bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 08/40] fix: accept lists as gain and phase errors

---
 doatools/model/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 627b9d3..c795762 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -176,7 +176,7 @@ class GainErrors(ArrayPerturbation):
     """
     def __init__(self, gain_errors, known=False):
         if not isinstance(gain_errors, np.ndarray):
-            gain_erros = np.array(gain_errors)
+            gain_errors = np.array(gain_errors)
         if gain_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(gain_errors, known)
@@ -232,7 +232,7 @@ class PhaseErrors(ArrayPerturbation):
     """
     def __init__(self, phase_errors, known=False):
         if not isinstance(phase_errors, np.ndarray):
-            gain_erros = np.array(phase_errors)
+            phase_errors = np.array(phase_errors)
         if phase_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(phase_errors, known)
-- 
2.43.0


From 57c2c6ca28911057a504a131cf80af39cf306908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 09/40] fix: reject non-square mutual coupling matrices

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index c795762..92a8b65 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -290,7 +290,7 @@ class MutualCoupling(ArrayPerturbation):
     def __init__(self, C, known=False):
         if not isinstance(C, np.ndarray):
             C = np.array(C)
-        if C.ndim != 2 and C.shape[0] != C.shape[1]:
+        if C.ndim != 2 or C.shape[0] != C.shape[1]:
             raise ValueError('Expecting a square matrix.')
         super().__init__(C, known)
 
-- 
2.43.0


From 9219cfe936c9dd08ad710c4797d667ecf83b89f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 10/40] fix: return a (bool, str) tuple from the default
 is_applicable_to

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 92a8b65..2478317 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -41,7 +41,7 @@ class ArrayPerturbation:
             applicable. The second element is a string describing why this
             perturbation is not applicable.
         """
-        return True
+        return True, ''
 
     def perturb_sensor_locations(self, locations):
         """Perturbs the given sensor locations.
-- 
2.43.0


From 819c12165106eee7e1ea3d63e4a13f817c49e045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 11/40] fix: support location errors and locations of different
 dtypes

---
 doatools/model/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 2478317..3424e42 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -154,13 +154,13 @@ class LocationErrors(ArrayPerturbation):
         if loc_err_dim <= array_dim:
             # It is possible that the location errors only exist along the
             # first one or two axis.
-            perturbed_locations = locations.copy()
+            perturbed_locations = locations.astype(np.result_type(locations, self._params))
             perturbed_locations[:, :loc_err_dim] += self._params
         else:
             # Actual dimension is higher. For instance, this can happen if a
             # linear array, which is 1D, has location errors along both
             # x- and y-axis.
-            perturbed_locations = self._params.copy()
+            perturbed_locations = self._params.astype(np.result_type(locations, self._params))
             perturbed_locations[:, :array_dim] += locations
         return perturbed_locations
 
-- 
2.43.0


From cdcf66f44e615a0fb1e21f45de754aecd743790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 12/40] fix: raise ValueError for out-of-range 1D far-field
 source locations

---
 doatools/model/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 8e619a6..06a451b 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -197,8 +197,8 @@ class FarField1DSourcePlacement(SourcePlacement):
         lb, ub = FarField1DSourcePlacement.VALID_RANGES[unit]
         if np.any(locations < lb) or np.any(locations > ub):
             raise ValueError(
-                "When unit is '{0}', source locations must be within [{0}, {1}]."
-                .format_map(unit, lb, ub)
+                "When unit is '{0}', source locations must be within [{1}, {2}]."
+                .format(unit, lb, ub)
             )
         super().__init__(locations, (unit,))
 
-- 
2.43.0


From 21d417718e2610d40e84c28cf4dd1554ffea4e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 13/40] fix: store source locations as floating point numbers

---
 doatools/model/sources.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 06a451b..425d4fe 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -17,6 +17,9 @@ class SourcePlacement(ABC):
     """
 
     def __init__(self, locations, units):
+        if not np.issubdtype(locations.dtype, np.inexact):
+            # Integer locations cannot hold refined or optimized locations.
+            locations = locations.astype(np.float_)
         self._locations = locations
         self._units = units
 
-- 
2.43.0


From d197230286368bbdfabcef86553213f0074398cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 14/40] fix: accept scalar amplitudes in RandomPhaseSignal

---
 doatools/model/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index a2282cd..946d4a0 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -93,7 +93,7 @@ class RandomPhaseSignal(SignalGenerator):
     def __init__(self, dim, amplitudes=1.0):
         self._dim = dim
         if np.isscalar(amplitudes):
-            self._amplitudes = np.full(amplitudes, (dim, 1))
+            self._amplitudes = np.full((dim, 1), amplitudes)
         else:
             if amplitudes.size != dim:
                 raise ValueError("The size of 'amplitudes' does not match the value of 'dim'.")
-- 
2.43.0


From b743a8d10be849f37b01dd8cf45c2bad7b17c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 15/40] fix: check both dimensions of the covariance matrix

---
 doatools/estimation/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 09deb3b..5c94bec 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -10,7 +10,7 @@ def ensure_covariance_size(R, array):
     m = array.size
     if R.ndim != 2:
         raise ValueError('Expecting a matrix.')
-    if R.shape[0] != m or R.shape[0] != m:
+    if R.shape[0] != m or R.shape[1] != m:
         raise ValueError(
             'The shape of the covariance matrix does not match the array size.'
             'Expected shape is {0}. Got {1}'
-- 
2.43.0


From 85ff541c662fb2d60394aa495f9e484f6880ced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 16/40] fix: do not weight overlapping ESPRIT subarrays in
 place

---
 doatools/estimation/esprit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/esprit.py b/doatools/estimation/esprit.py
index ac70c2b..a47a4f8 100644
--- a/doatools/estimation/esprit.py
+++ b/doatools/estimation/esprit.py
@@ -121,8 +121,9 @@ class Esprit1D:
         Es2 = Es[displacement:, :]
         # Apply row weights.
         if row_weights is not None:
-            Es1 *= row_weights[:, np.newaxis]
-            Es2 *= row_weights[:, np.newaxis]
+            # Es1 and Es2 are overlapping views. Do not modify them in-place.
+            Es1 = Es1 * row_weights[:, np.newaxis]
+            Es2 = Es2 * row_weights[:, np.newaxis]
         # Estimate the rotation matrix.
         if formulation == 'tls':
             # Total least-squares
-- 
2.43.0


From 3a7fdcdeae9e690b1ec9e47d3b605384e031bbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 17/40] fix: use the inter-element spacing of the array in the
 coarray MUSIC error covariance

---
 doatools/performance/mse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/mse.py b/doatools/performance/mse.py
index aece6fa..bdb080c 100644
--- a/doatools/performance/mse.py
+++ b/doatools/performance/mse.py
@@ -133,7 +133,7 @@ def ecov_coarray_music_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     A = array.steering_matrix(sources, wavelength)
     R_ideal = (A * p) @ A.conj().T + sigma * np.eye(m)
     # Compute virtual array related variable.
-    arr_virtual = UniformLinearArray(m_v, wavelength / 2.0)
+    arr_virtual = UniformLinearArray(m_v, array.d0)
     Av, DAv = arr_virtual.steering_matrix(sources, wavelength, True)
     Rss_ideal = (Av * p) @ Av.conj().T + sigma * np.eye(m_v)
     # Construct the subarray selection matrices.
-- 
2.43.0


From 6fdd456e4a3a51d6ea85c4b3c23ea3370e2c0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 18/40] fix: make the source number criteria independent of the
 signal scale

---
 doatools/estimation/source_number.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index d11dfd8..0dfc529 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -18,7 +18,7 @@ def ld_stat(l, n_sources, n_snapshots):
     n_sensors = l.size
     diff = n_sensors - n_sources
     l = l[:diff]
-    return n_snapshots * diff * log(np.sum(l) / diff / (np.prod(l)**(1./diff)))
+    return n_snapshots * diff * (log(np.sum(l) / diff) - np.mean(np.log(l)))
 
 def aic(x, n_snapshots):
     """Detects source numbers using AIC.
@@ -89,7 +89,7 @@ def sorte(x):
     sigmas = [np.var(diffs[k:]) for k in range(n - 1)]
     s = np.zeros((n - 2,))
     for k in range(n - 2):
-        if np.abs(sigmas[k]) < np.finfo(np.float_).eps:
+        if sigmas[k] <= np.finfo(np.float_).eps * x[k]**2:
             s[k] = np.inf
         else:
             s[k] = sigmas[k + 1] / sigmas[k]
-- 
2.43.0


From f3f8968e808e7c4dc4ae954ea7087d6b785ee282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 19/40] fix: support integer matrices in spatial_smooth

---
 doatools/estimation/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index d8002b7..befa811 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -32,7 +32,7 @@ def spatial_smooth(R, l, fb=False):
     Rf = R[:m-l+1, :m-l+1].copy()
     for i in range(1, l):
         Rf += R[i:i+m-l+1, i:i+m-l+1]
-    Rf /= l
+    Rf = Rf / l
     if not fb:
         return Rf
     
-- 
2.43.0


From 542cddbfe4ad19d510be40734920cc779f187280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 20/40] fix: detect location errors when plotting arrays

---
 doatools/plotting/plot_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 325c04e..0591ec3 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -3,6 +3,7 @@ import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
 import warnings
 from ..model.coarray import compute_unique_location_differences
+from ..model.perturbations import LocationErrors
 
 def _auto_scatter(ax, x, *args, **kwargs):
     """Scatter plots the input points (1D, 2D, or 3D).
@@ -41,7 +42,7 @@ def _fix_3d_aspect(ax):
 
 def _plot_array_impl(array, ax=None, coarray=False, show_location_errors=False):
     """Internal implementation for plotting arrays."""
-    if not array.has_perturbation('location_errors') and show_location_errors:
+    if not array.has_perturbation(LocationErrors) and show_location_errors:
         warnings.warn(
             'The input array does not have location errors.'
             'Visualization of location errors is disabled.'
-- 
2.43.0


From 2b067c0445357dd92360a248cbdfc09cc9d119c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 21/40] fix: draw 1D spectra in the given axes

---
 doatools/plotting/plot_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 2d6829f..3743bde 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -92,9 +92,9 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
             plot_containers.append(container_sp)
         else:
             if use_log_scale:
-                plot_containers.append(plt.semilogy(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.semilogy(x, y, '-', label=label, color=color))
             else:
-                plot_containers.append(plt.plot(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.plot(x, y, '-', label=label, color=color))
     # Plot estimates
     if estimates is not None:
         if estimates.units != grid.units:
@@ -122,7 +122,7 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
     ax.margins(x=0)
     # Set up y-axis
     if not use_log_scale:
-        ax.set_ylim((0, plt.ylim()[1]))
+        ax.set_ylim((0, ax.get_ylim()[1]))
     ax.set_ylabel('Normalized spectrum')
     # Show the legend.
     if has_legend:
-- 
2.43.0


From 0537aa8e4151913a7dde559b3399ec992fb1f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 22/40] fix: return an empty index vector from unique_rows for
 empty inputs

---
 doatools/utils/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/utils/math.py b/doatools/utils/math.py
index 56c298f..646738a 100644
--- a/doatools/utils/math.py
+++ b/doatools/utils/math.py
@@ -125,7 +125,7 @@ def unique_rows(x, atol=0.0, rtol=1e-8, return_index=False, sort=False):
     n, m = x.shape
     # Handle the empty case
     if n == 0:
-        return (x.copy(), np.zeros((0, m))) if return_index else x.copy()
+        return (x.copy(), np.zeros((0,), dtype=np.int32)) if return_index else x.copy()
     # Scale the relative tolerance according to the maximum absolute value in x.
     xmin, xmax = np.nanmin(x), np.nanmax(x)
     tol = atol + rtol * max(abs(xmin), abs(xmax))
-- 
2.43.0


From 4318c5c5b560616756d1d053a220941978d03b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 23/40] fix: report infeasible sparse problems as unresolved on
 2D grids too

---
 doatools/estimation/sparse.py | 12 ++++++++++--
 doatools/optim/l1lsq.py       | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/doatools/estimation/sparse.py b/doatools/estimation/sparse.py
index 403c2e3..46562f4 100644
--- a/doatools/estimation/sparse.py
+++ b/doatools/estimation/sparse.py
@@ -161,7 +161,11 @@ class SparseCovarianceMatching(SpectrumBasedEstimatorBase):
             # Do not modify R in-place!
             R = R - np.eye(self._array.size) * sigma
         f_sp = lambda Phi: self._get_sparse_spectrum(Phi, R, l, solver_options)
-        return self._estimate(f_sp, k, **kwargs)
+        result = self._estimate(f_sp, k, **kwargs)
+        if not self._problem.solved:
+            # There is no sparse solution, hence no estimate.
+            return (False, None) + result[2:]
+        return result
 
 class GroupSparseEstimator(SpectrumBasedEstimatorBase):
     r"""Creates a group-sparsity based estimator.
@@ -271,4 +275,8 @@ class GroupSparseEstimator(SpectrumBasedEstimatorBase):
         if Y.shape[1] != self._n_snapshots:
             raise ValueError('The number of columns of Y must be equal to the number of snapshots.')
         f_sp = lambda A: self._get_sparse_spectrum(A, Y, l, solver_options)
-        return self._estimate(f_sp, k, **kwargs)
+        result = self._estimate(f_sp, k, **kwargs)
+        if not self._problem.solved:
+            # There is no sparse solution, hence no estimate.
+            return (False, None) + result[2:]
+        return result
diff --git a/doatools/optim/l1lsq.py b/doatools/optim/l1lsq.py
index 00ea66a..d38c44e 100644
--- a/doatools/optim/l1lsq.py
+++ b/doatools/optim/l1lsq.py
@@ -99,6 +99,11 @@ class L1RegularizedLeastSquaresProblem:
         self._constraints = constraints
         self._problem = problem
 
+    @property
+    def solved(self):
+        """Whether the last call of :meth:`solve` found an optimal solution."""
+        return self._problem.status == 'optimal'
+
     def solve(self, A, b, l, **kwargs):
         """Solves the problem with the specified parameters.
 
@@ -112,7 +117,7 @@ class L1RegularizedLeastSquaresProblem:
         self._b.value = b
         self._l.value = l
         self._problem.solve(**kwargs)
-        if self._problem.status != 'optimal':
+        if not self.solved:
             warnings.warn('Optimal solution cannot be obtained.')
             return np.zeros((self._x.size,))
         return self._x.value
@@ -174,6 +179,11 @@ class L21RegularizedLeastSquaresProblem:
         self._l = l
         self._X = X
 
+    @property
+    def solved(self):
+        """Whether the last call of :meth:`solve` found an optimal solution."""
+        return self._problem.status == 'optimal'
+
     def solve(self, A, B, l, **kwargs):
         """Solves the problem with the specified parameters.
 
@@ -187,7 +197,7 @@ class L21RegularizedLeastSquaresProblem:
         self._B.value = B
         self._l.value = l
         self._problem.solve(**kwargs)
-        if self._problem.status != 'optimal':
+        if not self.solved:
             warnings.warn('Optimal solution cannot be obtained.')
             return np.zeros(self._X.shape)
         return self._X.value
-- 
2.43.0


From b99315c349bb546454dbc02c775dfb99815ba96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 24/40] fix: reusing a sparse problem with another sparsity
 pattern raised an error

---
 doatools/optim/l1lsq.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/doatools/optim/l1lsq.py b/doatools/optim/l1lsq.py
index d38c44e..c23224e 100644
--- a/doatools/optim/l1lsq.py
+++ b/doatools/optim/l1lsq.py
@@ -116,6 +116,9 @@ class L1RegularizedLeastSquaresProblem:
         self._A.value = A
         self._b.value = b
         self._l.value = l
+        # Updating the solver of the previous call in-place fails if the sparsity
+        # pattern of the data has changed.
+        kwargs.setdefault('warm_start', False)
         self._problem.solve(**kwargs)
         if not self.solved:
             warnings.warn('Optimal solution cannot be obtained.')
@@ -196,6 +199,9 @@ class L21RegularizedLeastSquaresProblem:
         self._A.value = A
         self._B.value = B
         self._l.value = l
+        # Updating the solver of the previous call in-place fails if the sparsity
+        # pattern of the data has changed.
+        kwargs.setdefault('warm_start', False)
         self._problem.solve(**kwargs)
         if not self.solved:
             warnings.warn('Optimal solution cannot be obtained.')
-- 
2.43.0


From 66c639a1ff934e388b6d1c938129f954ad8bccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 25/40] fix: power block of the Fisher information of
 uncorrelated sources used ARA squared instead of its squared magnitude

---
 doatools/performance/crb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/crb.py b/doatools/performance/crb.py
index dbb6809..9351c10 100644
--- a/doatools/performance/crb.py
+++ b/doatools/performance/crb.py
@@ -216,7 +216,7 @@ def crb_stouc_farfield_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     ARA = A_H @ R_inv @ A
     PP = np.outer(p, p)
     FIM_tt = 2.0 * ((DRD.T * ARA + DRA.conj() * ARD) * PP).real
-    FIM_pp = (ARA.conj().T * ARA).real
+    FIM_pp = (ARA.conj() * ARA).real
     R_inv2 = R_inv @ R_inv
     FIM_ss = np.trace(R_inv2).real
     # diag(A @ B) = np.sum(A^T * B, axis=0, keepdims=True)
-- 
2.43.0


From 163c53c55511bc9c3ec386815656cf64440e1c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 26/40] fix: do not create a stray figure when drawing 2D
 spectra in axes outside pyplot

---
 doatools/plotting/plot_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 3743bde..622d4e4 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -180,7 +180,7 @@ def plot_spectrum_2d(sp, grid, ax, estimates=None, ground_truth=None,
     if use_log_scale:
         plot_args['norm'] = LogNorm()
     containers.append(ax.imshow(sp, **plot_args))
-    plt.colorbar(containers[0], ax=ax)
+    ax.figure.colorbar(containers[0], ax=ax)
     ax.set_xlabel(x_label)
     ax.set_ylabel(y_label)
     if estimates is not None:
-- 
2.43.0


From a32ab3efb8da71d0bed18d0f6b80f7222c50841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 27/40] fix: reject unknown units in
 FarField1DSourcePlacement.from_z

---
 doatools/model/sources.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 425d4fe..5e92562 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -222,6 +222,11 @@ class FarField1DSourcePlacement(SourcePlacement):
             An instance of
             :class:`~doatools.model.sources.FarField1DSourcePlacement`.
         """
+        if unit not in FarField1DSourcePlacement.VALID_RANGES:
+            raise ValueError(
+                'Unit can only be one of the following: {0}.'
+                .format(', '.join(FarField1DSourcePlacement.VALID_RANGES.keys()))
+            )
         c = 2 * np.pi * d0 / wavelength
         sin_vals = np.angle(z) / c
         if unit == 'sin':
-- 
2.43.0


From 156ca0a3278c4eab31acb80dbfc40da9e0c13016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 28/40] fix: f_nll_stouc returned inf whenever log|S| is
 negative, and a complex value otherwise

---
 doatools/estimation/ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/ml.py b/doatools/estimation/ml.py
index ac7bfcd..638b18c 100644
--- a/doatools/estimation/ml.py
+++ b/doatools/estimation/ml.py
@@ -11,9 +11,9 @@ def f_nll_stouc(R, array, sources, wavelength, p, sigma):
     A = array.steering_matrix(sources, wavelength)
     S = (A * p) @ A.conj().T + sigma * np.eye(array.size)
     sgn, logdet = np.linalg.slogdet(S)
-    if sgn < 0 or logdet < 0:
+    if sgn.real <= 0:
         return np.Inf
-    return logdet + np.trace(np.linalg.solve(S, R))
+    return logdet + np.trace(np.linalg.solve(S, R)).real
 
 class CovarianceBasedMLEstimator(ABC):
     """Abstract base class for covariance based maximum-likelihood estimators.
-- 
2.43.0


From 1e52fa72addf544c82f358273bb76bee1506aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:31 +0000
Subject: [PATCH 29/40] fix: spatial_smooth overflowed for matrices of small
 integer types

---
 doatools/estimation/preprocessing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index befa811..15622b8 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -30,6 +30,9 @@ def spatial_smooth(R, l, fb=False):
     
     # Forward pass
     Rf = R[:m-l+1, :m-l+1].copy()
+    if not np.issubdtype(Rf.dtype, np.inexact):
+        # Small integer types would overflow below.
+        Rf = Rf.astype(np.float_)
     for i in range(1, l):
         Rf += R[i:i+m-l+1, i:i+m-l+1]
     Rf = Rf / l
-- 
2.43.0


From b5708c609b4acc85ced207c0c0ece4b5f290f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:53 +0000
Subject: [PATCH 30/40] fix: reliable square root of singular signal
 covariances

scipy.linalg.sqrtm returns NaN or inaccurate square roots for some
singular covariances (e.g. np.ones((12, 12)) or np.ones((5, 5))), so coherent
sources were emitted with a wrong covariance.
---
 doatools/model/signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index 946d4a0..823699c 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -1,6 +1,5 @@
 from abc import ABC, abstractmethod
 import numpy as np
-from scipy.linalg import sqrtm
 from ..utils.math import randcn
 
 class SignalGenerator(ABC):
@@ -60,7 +59,10 @@ class ComplexStochasticSignal(SignalGenerator):
             # Matrix
             if C.shape[0] != dim or C.shape[1] != dim:
                 raise ValueError('The shape of C must be ({0}, {0}).'.format(dim))
-            self._C2 = sqrtm(C)
+            # Hermitian square root via the eigendecomposition, which, unlike
+            # sqrtm, is also reliable when C is singular (coherent signals).
+            w, V = np.linalg.eigh(C)
+            self._C2 = (V * np.sqrt(np.maximum(w, 0.0))) @ V.conj().T
             self._generator = lambda n: self._C2 @ randcn((self._dim, n))
         else:
             raise ValueError(
-- 
2.43.0


From 4377f6fb526a80deefc9046a07b1cb4d192241de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 31/40] fix: virtual arrays follow the direction of the basis
 vector of the array

---
 doatools/estimation/coarray.py | 2 +-
 doatools/performance/mse.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/coarray.py b/doatools/estimation/coarray.py
index ee9d3e5..c6abb44 100644
--- a/doatools/estimation/coarray.py
+++ b/doatools/estimation/coarray.py
@@ -52,7 +52,7 @@ class CoarrayACMBuilder1D:
         """
         if name is None:
             name = 'Virtual ULA of ' + self._array.name
-        return UniformLinearArray(self.output_size, self._array.d0, name)
+        return UniformLinearArray(self.output_size, self._array.bases[0], name)
 
     def transform(self, R, method='ss'):
         """Transforms the input sample covariance matrix.
diff --git a/doatools/performance/mse.py b/doatools/performance/mse.py
index bdb080c..fe28a5a 100644
--- a/doatools/performance/mse.py
+++ b/doatools/performance/mse.py
@@ -133,7 +133,7 @@ def ecov_coarray_music_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     A = array.steering_matrix(sources, wavelength)
     R_ideal = (A * p) @ A.conj().T + sigma * np.eye(m)
     # Compute virtual array related variable.
-    arr_virtual = UniformLinearArray(m_v, array.d0)
+    arr_virtual = UniformLinearArray(m_v, array.bases[0])
     Av, DAv = arr_virtual.steering_matrix(sources, wavelength, True)
     Rss_ideal = (Av * p) @ Av.conj().T + sigma * np.eye(m_v)
     # Construct the subarray selection matrices.
-- 
2.43.0


From e3103a28ea5b659365a742f14e5cf5646b2b663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:13 +0000
Subject: [PATCH 32/40] fix: location differences of unsigned and narrow
 integers wrapped around

---
 doatools/model/coarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/model/coarray.py b/doatools/model/coarray.py
index 6fc54b9..8b5af38 100644
--- a/doatools/model/coarray.py
+++ b/doatools/model/coarray.py
@@ -16,6 +16,9 @@ def compute_location_differences(locations):
         locations (~numpy.ndarray): An m x d array of sensor locations.
     """
     m, d = locations.shape
+    if np.issubdtype(locations.dtype, np.integer):
+        # Differences of unsigned or narrow integers would wrap around.
+        locations = locations.astype(np.int_)
     # Use broadcasting to compute pairwise differences.
     D = locations.reshape((1, m, d)) - locations.reshape((m, 1, d))
     return D.reshape((-1, d))
-- 
2.43.0


From 4e093e897d62e7b17973cf95d82cf16b7fba8577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:13 +0000
Subject: [PATCH 33/40] fix: weight functions of arrays on a line based on a 2D
 grid were meaningless

---
 doatools/model/coarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doatools/model/coarray.py b/doatools/model/coarray.py
index 8b5af38..1c8c227 100644
--- a/doatools/model/coarray.py
+++ b/doatools/model/coarray.py
@@ -49,6 +49,8 @@ class WeightFunction1D:
     def __init__(self, array):
         if array.ndim != 1 or not isinstance(array, GridBasedArrayDesign):
             raise ValueError('Expecting a 1D grid-based array.')
+        if array.element_indices.shape[1] != 1:
+            raise ValueError('Expecting an array based on a 1D grid.')
         self._m = array.size
         self._mv = None
         self._build_map(array)
-- 
2.43.0


From 35aea8895f3e19ad42d4af4a6af32f3676654b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:42 +0000
Subject: [PATCH 34/40] fix: ML estimators stopped at the initial guess for
 weak signals

The conditional ML and WSF criteria are proportional to the covariance matrix,
and the optimizer stops once the gradient falls below an absolute tolerance.
Covariance matrices of measurements in small units (e.g., microvolts) therefore
resulted in the initial guess being returned as resolved.
---
 doatools/estimation/ml.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/doatools/estimation/ml.py b/doatools/estimation/ml.py
index 638b18c..01a950d 100644
--- a/doatools/estimation/ml.py
+++ b/doatools/estimation/ml.py
@@ -186,6 +186,12 @@ class CovarianceBasedMLEstimator(ABC):
         # This is reused and modified in-place during the optimization process
         # to avoid repeatedly creating new SourcePlacement instances.
         self._estimates = sources0[:]
+        # Normalize the covariance matrix. This does not change the minimizer,
+        # but otherwise the absolute tolerances of the optimizer would depend on
+        # the unit of the measurements.
+        power = np.trace(R).real / self._array.size
+        if np.isfinite(power) and power > 0.0:
+            R = R / power
         # Use scipy for numerical optimization.
         # Subclasses should override this implementation if there exists faster
         # optimization approaches.
-- 
2.43.0


From f4d443ffc76e9b90e233a43cdd82d7513b2c1990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:42 +0000
Subject: [PATCH 35/40] fix: sparse problems depended on the scale of the
 observations

---
 doatools/optim/l1lsq.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/doatools/optim/l1lsq.py b/doatools/optim/l1lsq.py
index c23224e..cab5f88 100644
--- a/doatools/optim/l1lsq.py
+++ b/doatools/optim/l1lsq.py
@@ -7,6 +7,16 @@ except ImportError:
     warnings.warn('Cannot import cvxpr. Some sparse recovery based estimators will not be usable.')
     cvx_available = False
 
+def _get_scale(b):
+    """Obtains the scale of the observations.
+    
+    All the problems are homogeneous: if the observations and the parameter
+    :math:`l` are scaled, so is the solution. Because the tolerances of the
+    solvers are absolute, the problems are solved for normalized observations.
+    """
+    scale = np.linalg.norm(b) / np.sqrt(np.size(b))
+    return scale if np.isfinite(scale) and scale > 0.0 else 1.0
+
 class L1RegularizedLeastSquaresProblem:
     r"""Creates a reusable :math:`l_1`-regularized least squares problem.
 
@@ -113,9 +123,10 @@ class L1RegularizedLeastSquaresProblem:
             l (float): Regularization/constraint parameter.
             **kwargs: Other keyword arguments to be passed to the solver.
         """
+        scale = _get_scale(b)
         self._A.value = A
-        self._b.value = b
-        self._l.value = l
+        self._b.value = b / scale
+        self._l.value = l / scale
         # Updating the solver of the previous call in-place fails if the sparsity
         # pattern of the data has changed.
         kwargs.setdefault('warm_start', False)
@@ -123,7 +134,7 @@ class L1RegularizedLeastSquaresProblem:
         if not self.solved:
             warnings.warn('Optimal solution cannot be obtained.')
             return np.zeros((self._x.size,))
-        return self._x.value
+        return self._x.value * scale
 
 class L21RegularizedLeastSquaresProblem:
     r"""Creates an :math:`l_{2,1}`-norm regularized least squares problem.
@@ -196,9 +207,10 @@ class L21RegularizedLeastSquaresProblem:
             l (~numpy.ndarray): Regularization parameter.
             **kwargs: Other keyword arguments to be passed to the solver.
         """
+        scale = _get_scale(B)
         self._A.value = A
-        self._B.value = B
-        self._l.value = l
+        self._B.value = B / scale
+        self._l.value = l / scale
         # Updating the solver of the previous call in-place fails if the sparsity
         # pattern of the data has changed.
         kwargs.setdefault('warm_start', False)
@@ -206,4 +218,4 @@ class L21RegularizedLeastSquaresProblem:
         if not self.solved:
             warnings.warn('Optimal solution cannot be obtained.')
             return np.zeros(self._X.shape)
-        return self._X.value
+        return self._X.value * scale
-- 
2.43.0


From e1749f36fbd063301fcefe22269670ac04d591b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:52 +0000
Subject: [PATCH 36/40] fix: store low precision source locations in double
 precision

---
 doatools/model/sources.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 5e92562..b018ba9 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -17,8 +17,11 @@ class SourcePlacement(ABC):
     """
 
     def __init__(self, locations, units):
-        if not np.issubdtype(locations.dtype, np.inexact):
-            # Integer locations cannot hold refined or optimized locations.
+        if locations.dtype != np.float_ and (
+                not np.issubdtype(locations.dtype, np.inexact)
+                or np.can_cast(locations.dtype, np.float_)):
+            # Integer or low precision locations cannot hold refined or
+            # optimized locations.
             locations = locations.astype(np.float_)
         self._locations = locations
         self._units = units
-- 
2.43.0


From c1db731da7f24a147941ee0460c5482cd227b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:14 +0000
Subject: [PATCH 37/40] fix: powers of small integer types overflowed in the
 performance bounds

---
 doatools/performance/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/doatools/performance/utils.py b/doatools/performance/utils.py
index 0fa0830..c578bae 100644
--- a/doatools/performance/utils.py
+++ b/doatools/performance/utils.py
@@ -30,17 +30,19 @@ def unify_p_to_vector(p, k):
         k: Number of sources.
     """
     if np.isscalar(p):
-        return np.full((k,), p)
-    if isinstance(p, list) or p.ndim == 1:
+        v = np.full((k,), p)
+    elif isinstance(p, list) or p.ndim == 1:
         if len(p) != k:
             raise ValueError('The length of the input vector does not match the number of sources.')
-        return np.array(p)
+        v = np.array(p)
     elif p.ndim == 2:
         if p.shape[0] != k or p.shape[1] != k:
             raise ValueError('The shape of the input matrix does not match the number of sources.')
-        return np.diag(p)
+        v = np.diag(p)
     else:
         raise ValueError('Expecting a scalar, a 1D vector or a 2D matrix.')
+    # Products of small integers may overflow.
+    return v.astype(np.result_type(v, np.float_))
 
 def reduce_output_matrix(x, mode):
     """Reduces the output CRB/covariance matrix according to ``mode``.
-- 
2.43.0


From 5294585e2eb1f664be53066e12b4049adb0f184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:25 +0000
Subject: [PATCH 38/40] fix: source number criteria lost precision for small
 integer eigenvalues

---
 doatools/estimation/source_number.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index 0dfc529..f34b4fb 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -17,7 +17,8 @@ def ld_stat(l, n_sources, n_snapshots):
         raise ValueError('A 1D numpy vector expected.')
     n_sensors = l.size
     diff = n_sensors - n_sources
-    l = l[:diff]
+    # The logarithms of small integers have a low precision.
+    l = l[:diff].astype(np.float_)
     return n_snapshots * diff * (log(np.sum(l) / diff) - np.mean(np.log(l)))
 
 def aic(x, n_snapshots):
@@ -81,7 +82,7 @@ def sorte(x):
     if x.ndim > 1:
         x = np.linalg.eigvalsh(x)
     # SORTE requires descending order.
-    x = x[::-1]
+    x = x[::-1].astype(np.float_)
     n = x.size
     if n < 4:
         raise ValueError('At least four eigenvalues required.')
-- 
2.43.0


From 431cc7a703f85280aa3a4e87cc9f2e02ca8b157a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:16:07 +0000
Subject: [PATCH 39/40] fix: covariances of small integer types lost precision
 in ComplexStochasticSignal

---
 doatools/model/signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index 823699c..b210b9b 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -47,13 +47,13 @@ class ComplexStochasticSignal(SignalGenerator):
         self._dim = dim
         if np.isscalar(C):
             # Scalar
-            self._C2 = np.sqrt(C)
+            self._C2 = np.sqrt(C, dtype=np.result_type(C, float))
             self._generator = lambda n: self._C2 * randcn((self._dim, n))
         elif C.ndim == 1:
             # Vector
             if C.size != dim:
                 raise ValueError('The size of C must be {0}.'.format(dim))
-            self._C2 = np.sqrt(C).reshape((-1, 1))
+            self._C2 = np.sqrt(C, dtype=np.result_type(C, float)).reshape((-1, 1))
             self._generator = lambda n: self._C2 * randcn((self._dim, n))
         elif C.ndim == 2:
             # Matrix
-- 
2.43.0


From b3f11fa5dc291db3630387db0f40bb88641b0547 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:16:07 +0000
Subject: [PATCH 40/40] fix: angle conversions and spherical coordinates of
 small integer types

---
 doatools/utils/conversion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doatools/utils/conversion.py b/doatools/utils/conversion.py
index 1dbcc53..27fe794 100644
--- a/doatools/utils/conversion.py
+++ b/doatools/utils/conversion.py
@@ -57,6 +57,8 @@ def convert_angles(x, from_unit, to_unit):
     """
     if from_unit == to_unit:
         return x.copy()
+    # At least double precision, even if `x` is of a small integer type.
+    x = np.asarray(x, dtype=np.result_type(x, float))
     return ANGULAR_COV_MAT[from_unit][to_unit](x)
     
 def cart2spherical(coords):
@@ -72,6 +74,8 @@ def cart2spherical(coords):
         counter-clockwise from the positive x-axis, and the elevation angle is
         measured from the xy-plane.
     """
+    # The squares of small integers may overflow.
+    coords = np.asarray(coords, dtype=float)
     s = np.zeros((coords.shape[0], 3))
     if coords.shape[1] == 1:
         # x coordinates only.
-- 
2.43.0

