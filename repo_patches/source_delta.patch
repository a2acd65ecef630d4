From 31ae05d1659c4584e2246b89b1897f8e43876d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 01/54] fix: li_ma_significance is NaN for n_on == alpha *
 n_off due to rounding

---
 pyirf/statistics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyirf/statistics.py b/pyirf/statistics.py
index 988bfd7..c1cdc20 100644
--- a/pyirf/statistics.py
+++ b/pyirf/statistics.py
@@ -50,7 +50,9 @@ def li_ma_significance(n_on, n_off, alpha=0.2):
         t1[n_on == 0] = 0
         t2[n_off == 0] = 0
 
-        ts = t1 + t2
+        # ts is >= 0 by construction, but rounding might result in tiny negative
+        # values for n_on close to alpha * n_off
+        ts = np.clip(t1 + t2, 0, None)
 
         significance = np.sqrt(ts * 2)
 
-- 
2.43.0


From d2f2cc2501ed86cb52e0a07527282090eb73e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 02/54] fix: li_ma_significance fails when mixing scalar and
 array counts

---
 pyirf/statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/statistics.py b/pyirf/statistics.py
index c1cdc20..7a1865f 100644
--- a/pyirf/statistics.py
+++ b/pyirf/statistics.py
@@ -31,12 +31,13 @@ def li_ma_significance(n_on, n_off, alpha=0.2):
         The calculated significance
     """
 
-    scalar = is_scalar(n_on)
+    scalar = is_scalar(n_on) and is_scalar(n_off)
 
     # Cast everything into float64 to avoid numeric instabilties
     # when multiplying very small and very big numbers to get t1 and t2
     n_on = np.array(n_on, copy=COPY_IF_NEEDED, ndmin=1, dtype=np.float64)
     n_off = np.array(n_off, copy=COPY_IF_NEEDED, ndmin=1, dtype=np.float64)
+    n_on, n_off = np.broadcast_arrays(n_on, n_off)
     alpha = np.float64(alpha)
 
     with np.errstate(divide="ignore", invalid="ignore"):
-- 
2.43.0


From b03e592f84fc2cc10f5bce0d92f2d3d114853734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 03/54] fix: number of simulated showers is overestimated for
 bins covering the full energy range

---
 pyirf/simulations.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index d7f6c3b..3d7029f 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -95,22 +95,15 @@ class SimulatedEventsInfo:
         e_min = self.energy_min
         e_max = self.energy_max
 
+        # only the part of each bin inside the simulated range contributes
         integral = _powerlaw_pdf_integral(
-            self.spectral_index, e_low, e_high, e_min, e_max
-        )
-
-        integral[e_high <= e_min] = 0
-        integral[e_low >= e_max] = 0
-
-        mask = (e_high > e_max) & (e_low < e_max)
-        integral[mask] = _powerlaw_pdf_integral(
-            self.spectral_index, e_low[mask], e_max, e_min, e_max
-        )
-
-        mask = (e_high > e_min) & (e_low < e_min)
-        integral[mask] = _powerlaw_pdf_integral(
-            self.spectral_index, e_min, e_high[mask], e_min, e_max
+            self.spectral_index,
+            np.clip(e_low, e_min, e_max),
+            np.clip(e_high, e_min, e_max),
+            e_min,
+            e_max,
         )
+        integral[(e_high <= e_min) | (e_low >= e_max)] = 0
 
         return self.n_showers * integral
 
-- 
2.43.0


From 2c70229f71465d1b9e39e4261b5a4d14ce3be378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 04/54] fix: support simulations with spectral index -1

---
 pyirf/simulations.py | 3 +++
 pyirf/spectral.py    | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 3d7029f..b91ad53 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -287,6 +287,9 @@ def _powerlaw_pdf_integral(index, e_low, e_high, e_min, e_max):
     e_min = e_min.to_value(u.TeV)
     e_max = e_max.to_value(u.TeV)
 
+    if index == -1:
+        return np.log(e_high / e_low) / np.log(e_max / e_min)
+
     int_index = index + 1
     normalization = 1 / (e_max ** int_index - e_min ** int_index)
     e_term = e_high ** int_index - e_low ** int_index
diff --git a/pyirf/spectral.py b/pyirf/spectral.py
index ffdd917..2cc8916 100644
--- a/pyirf/spectral.py
+++ b/pyirf/spectral.py
@@ -132,8 +132,13 @@ class PowerLaw:
 
         A = np.pi * simulated_event_info.max_impact**2
 
-        delta = e_max ** (index + 1) - e_min ** (index + 1)
-        nom = (index + 1) * e_ref**index * n_showers
+        if index == -1:
+            # the antiderivative of E^-1 is log(E), only depends on the energy ratio
+            delta = np.log((e_max / e_min).to_value(u.one))
+            nom = e_ref**index * n_showers
+        else:
+            delta = e_max ** (index + 1) - e_min ** (index + 1)
+            nom = (index + 1) * e_ref**index * n_showers
         denom = (A * obstime * solid_angle) * delta
 
         return cls(
-- 
2.43.0


From 5eeca73df97c95a30d795b2d64bb2232377955a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 05/54] fix: number of simulated showers ignores the width of
 the position angle bins

---
 pyirf/simulations.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index b91ad53..488273b 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -200,16 +200,12 @@ class SimulatedEventsInfo:
         e_fov_offset_integral = self.calculate_n_showers_per_energy_and_fov(
             energy_bins, fov_offset_bins
         )
-        viewcone_integral = self.calculate_n_showers_per_fov(
-            [self.viewcone_min, self.viewcone_max] * u.deg
+        # events are distributed uniformly in position angle
+        position_angle_integral = np.diff(fov_position_angle_bins.to_value(u.rad)) / (
+            2 * np.pi
         )
 
-        n_bins_pa = len(fov_position_angle_bins) - 1
-        position_angle_integral = np.full(n_bins_pa, viewcone_integral / n_bins_pa)
-
-        total_integral = e_fov_offset_integral[:, :, np.newaxis] * position_angle_integral
-
-        return total_integral / self.n_showers
+        return e_fov_offset_integral[:, :, np.newaxis] * position_angle_integral
 
     @u.quantity_input(
         energy_bins=u.TeV, fov_longitude_bins=u.deg, fov_latitude_bins=u.rad
-- 
2.43.0


From 763bc98cd92ac7c73da18f7af49a3a7675425986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 06/54] fix: lon/lat shower histogram has wrong axis order and
 ignores units and widths of the bins

---
 pyirf/simulations.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 488273b..458f2fb 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -244,7 +244,9 @@ class SimulatedEventsInfo:
             self, fov_longitude_bins, fov_latitude_bins, subpixels=subpixels
         )
 
-        bin_grid_lon, bin_grid_lat = np.meshgrid(fov_longitude_bins,fov_latitude_bins)
+        bin_grid_lon, bin_grid_lat = np.meshgrid(
+            fov_longitude_bins, fov_latitude_bins, indexing="ij"
+        )
         bin_area = rectangle_solid_angle(
             bin_grid_lon[:-1,:-1],
             bin_grid_lon[1:,1:],
@@ -331,8 +333,11 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     'subpixels' whose centers are inside the viewcone, which approximates the area of the
     bin inside the viewcone.
     """
+    bin_edges_lon = bin_edges_lon.to(u.deg)
+    bin_edges_lat = bin_edges_lat.to(u.deg)
+
     # treat edge cases where all bins are either fully inside or outside of the viewcone
-    bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon, bin_edges_lat)
+    bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon, bin_edges_lat, indexing="ij")
 
     bin_dist = angular_separation(
         bin_grid_lon,
@@ -361,7 +366,7 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     fov_bin_centers_lat = bin_center(bin_edges_lat)
 
     bin_centers_grid_lon, bin_centers_grid_lat = np.meshgrid(
-        fov_bin_centers_lon, fov_bin_centers_lat,
+        fov_bin_centers_lon, fov_bin_centers_lat, indexing="ij",
     )
 
     # calculate angular separation of bin centers to FOV center
@@ -382,8 +387,9 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     area[mask_simple] = 0
 
     # select only bins partially covered by the FOV
-    bin_width_lon = bin_edges_lon[1] - bin_edges_lon[0]
-    bin_width_lat = bin_edges_lat[1] - bin_edges_lat[0]
+    bin_width_lon, bin_width_lat = np.meshgrid(
+        np.diff(bin_edges_lon), np.diff(bin_edges_lat), indexing="ij"
+    )
     bin_max_radius = np.sqrt(bin_width_lon ** 2 + bin_width_lat ** 2) * 0.5
 
     fov_outer_edge_mask = np.logical_and(
@@ -402,10 +408,16 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
 
     # define start and endpoints for subpixels
     edges_lon = np.array(
-        [bin_grid_lon[corner_idx], bin_grid_lon[corner_idx] + bin_width_lon]
+        [
+            bin_grid_lon[corner_idx].to_value(u.deg),
+            (bin_grid_lon[corner_idx] + bin_width_lon[corner_idx]).to_value(u.deg),
+        ]
     )
     edges_lat = np.array(
-        [bin_grid_lat[corner_idx], bin_grid_lat[corner_idx] + bin_width_lat]
+        [
+            bin_grid_lat[corner_idx].to_value(u.deg),
+            (bin_grid_lat[corner_idx] + bin_width_lat[corner_idx]).to_value(u.deg),
+        ]
     )
 
     n_edge_pixels = len(fov_edge_mask[fov_edge_mask==True])
-- 
2.43.0


From 4675529eed077307eed8947c2139d40a4d3c7904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 07/54] fix: lon/lat bins containing the edge of the viewcone
 are treated as fully in- or outside

---
 pyirf/simulations.py | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 458f2fb..ac89e7e 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -336,31 +336,8 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     bin_edges_lon = bin_edges_lon.to(u.deg)
     bin_edges_lat = bin_edges_lat.to(u.deg)
 
-    # treat edge cases where all bins are either fully inside or outside of the viewcone
     bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon, bin_edges_lat, indexing="ij")
 
-    bin_dist = angular_separation(
-        bin_grid_lon,
-        bin_grid_lat,
-        0,
-        0,
-    ).to_value(u.deg)
-
-    all_outside = np.logical_or(
-        np.all(bin_dist <= self.viewcone_min.to_value(u.deg)),
-        np.all(bin_dist >= self.viewcone_max.to_value(u.deg)),
-    )
-    all_inside = np.logical_and(
-        np.all(bin_dist <= self.viewcone_max.to_value(u.deg)),
-        np.all(bin_dist >= self.viewcone_min.to_value(u.deg)),
-    )
-
-    if all_outside:
-        return 0
-    elif all_inside:
-        return 1
-
-
     # define grid of bin centers
     fov_bin_centers_lon = bin_center(bin_edges_lon)
     fov_bin_centers_lat = bin_center(bin_edges_lat)
@@ -421,6 +398,9 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     )
 
     n_edge_pixels = len(fov_edge_mask[fov_edge_mask==True])
+    # all bins are either fully inside or fully outside of the viewcone
+    if n_edge_pixels == 0:
+        return area
 
     # define subpixel bin centers and grid
     subpixel_lon = bin_center(np.linspace(*edges_lon, subpixels + 1) * u.deg)
-- 
2.43.0


From 68bba28ddf81f48c5465b28cc4026b6e35d561db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 08/54] fix: resampling an empty histogram creates content in
 bins beyond the old range

---
 pyirf/binning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index 0eb4413..54c5c72 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -280,8 +280,8 @@ def resample_histogram1d(data, old_edges, new_edges, axis=0):
 
     cumsum = np.insert(data.cumsum(axis=axis), 0, 0, axis=axis)
 
-    norm = data.sum(axis=axis, keepdims=True)
-    norm[norm == 0] = 1
+    total = data.sum(axis=axis, keepdims=True)
+    norm = np.where(total == 0, 1, total)
     cumsum /= norm
 
     f_integral = interp1d(
@@ -293,7 +293,7 @@ def resample_histogram1d(data, old_edges, new_edges, axis=0):
         axis=axis,
     )
 
-    values = np.diff(f_integral(new_edges), axis=axis) * norm
+    values = np.diff(f_integral(new_edges), axis=axis) * total
     if data_unit:
         values = u.Quantity(values, unit=data_unit)
 
-- 
2.43.0


From f55cd91b73c5504efd302ac6b652bf2a255ff09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 09/54] fix: resample_histogram1d fails for integer histograms

---
 pyirf/binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index 54c5c72..87882c4 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -282,7 +282,7 @@ def resample_histogram1d(data, old_edges, new_edges, axis=0):
 
     total = data.sum(axis=axis, keepdims=True)
     norm = np.where(total == 0, 1, total)
-    cumsum /= norm
+    cumsum = cumsum / norm
 
     f_integral = interp1d(
         old_edges,
-- 
2.43.0


From 44354ce6f3073e1df3bd8466bd295c78c16a0ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 10/54] fix: integrate_cone drops the Gaussian bump of
 PowerLawWithExponentialGaussian

---
 pyirf/spectral.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyirf/spectral.py b/pyirf/spectral.py
index 2cc8916..d4af302 100644
--- a/pyirf/spectral.py
+++ b/pyirf/spectral.py
@@ -282,6 +282,22 @@ class PowerLawWithExponentialGaussian(PowerLaw):
         gauss = np.exp(-0.5 * ((log10_e - self.mu) / self.sigma) ** 2)
         return power * (1 + self.f * (np.exp(gauss) - 1))
 
+    def integrate_cone(self, inner, outer):
+        """Integrate this spectrum over solid angle in the given cone
+
+        See `PowerLaw.integrate_cone`, the Gaussian bump is kept.
+        """
+        power_law = super().integrate_cone(inner, outer)
+
+        return PowerLawWithExponentialGaussian(
+            normalization=power_law.normalization,
+            index=self.index,
+            e_ref=self.e_ref,
+            f=self.f,
+            mu=self.mu,
+            sigma=self.sigma,
+        )
+
     def __repr__(self):
         s = super().__repr__()
         gauss = f"Gauss(log10(E / {self.e_ref}), {self.mu}, {self.sigma})"
-- 
2.43.0


From 8cd2d562798fc61fd9b7167e8270fe7cd7d11ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 11/54] fix: IndexError when interpolating to the upper edge of
 a 1D grid

---
 pyirf/interpolation/component_estimators.py      | 2 ++
 pyirf/interpolation/moment_morph_interpolator.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 6f019af..b3b2a96 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -616,6 +616,8 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
                 target_bin = np.digitize(
                     target_point.squeeze(), self.grid_points.squeeze()
                 )
+                # the upper edge of the grid belongs to the last segment
+                target_bin = np.clip(target_bin, 1, self.n_points - 1)
                 segment_inds = np.array([target_bin - 1, target_bin], "int")
 
             mask_left = self.params[segment_inds[0]] >= self.fill_val
diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index 1388061..81b6519 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -304,6 +304,8 @@ class MomentMorphInterpolator(DiscretePDFInterpolator):
         on this subset.
         """
         target_bin = np.digitize(target_point.squeeze(), self.grid_points.squeeze())
+        # the upper edge of the grid belongs to the last segment
+        target_bin = np.clip(target_bin, 1, self.n_points - 1)
         segment_inds = np.array([target_bin - 1, target_bin], "int")
         coefficients = linesegment_1D_interpolation_coefficients(
             grid_points=self.grid_points[segment_inds],
-- 
2.43.0


From 53efe373d122059530ee6dae83be6fd66baef04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 12/54] fix: nearest neighbor results are views into the
 templates

---
 pyirf/interpolation/nearest_neighbor_searcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index d1f368c..2bf2b0e 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -94,7 +94,8 @@ class BaseNearestNeighborSearcher(BaseInterpolator):
 
         index = np.argmin(distances)
 
-        return self.values[index, :]
+        # return a copy, so that modifying the result does not change the templates
+        return self.values[index, :].copy()
 
 
 class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
-- 
2.43.0


From 4d92963f5f483852dfb166b4013b5673fee127a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 13/54] fix: EffectiveAreaEstimator modifies the input
 effective areas

---
 pyirf/interpolation/component_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index b3b2a96..8fc36da 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -427,8 +427,8 @@ class EffectiveAreaEstimator(ParametrizedComponentEstimator):
         and pyirf.interpolation.ParametrizedEstimator
         """
 
-        # get rid of units
-        effective_area = effective_area.to_value(u.m**2)
+        # get rid of units, copy to not modify the input below
+        effective_area = u.Quantity(effective_area, u.m**2, copy=True).value
         min_effective_area = min_effective_area.to_value(u.m**2)
 
         self.min_effective_area = min_effective_area
-- 
2.43.0


From ab65a8bf4f4521970f39a040ad8ef8a280d00cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 14/54] fix: effective areas raised to min_effective_area are
 not set back to zero

---
 pyirf/interpolation/component_estimators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 8fc36da..0a446ce 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -471,8 +471,9 @@ class EffectiveAreaEstimator(ParametrizedComponentEstimator):
 
         # exp it and set to zero too low values
         aeff_interp = np.exp(aeff_interp)
-        # remove entries manipulated by min_effective_area
-        aeff_interp[aeff_interp < self.min_effective_area] = 0
+        # remove entries manipulated by min_effective_area, these might slightly
+        # exceed min_effective_area due to rounding
+        aeff_interp[aeff_interp <= self.min_effective_area * (1 + 1e-9)] = 0
 
         return u.Quantity(aeff_interp, u.m**2, copy=COPY_IF_NEEDED)
 
-- 
2.43.0


From 2d9e9c9203f8881ca6a510260ba063f88e0bf21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 15/54] fix: PSFTableEstimator modifies the inter-/extrapolator
 kwargs of the caller

---
 pyirf/interpolation/component_estimators.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 0a446ce..3c78a1c 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -816,11 +816,9 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
 
         psf = np.swapaxes(psf, axis, -1)
 
-        if interpolator_kwargs is None:
-            interpolator_kwargs = {}
-
-        if extrapolator_kwargs is None:
-            extrapolator_kwargs = {}
+        # copy, so that the dicts passed by the caller are not modified
+        interpolator_kwargs = dict(interpolator_kwargs or {})
+        extrapolator_kwargs = dict(extrapolator_kwargs or {})
 
         interpolator_kwargs.setdefault(
             "normalization", PDFNormalization.CONE_SOLID_ANGLE
-- 
2.43.0


From fb3ce416f2a9f67e0456762083ffeef49732db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 16/54] fix: PSFTableEstimator fails with UnitConversionError
 for moment morphing

---
 pyirf/interpolation/component_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 3c78a1c..38ef3c7 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -814,7 +814,7 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
 
         self.axis = axis
 
-        psf = np.swapaxes(psf, axis, -1)
+        psf = np.swapaxes(psf.to_value(u.sr**-1), axis, -1)
 
         # copy, so that the dicts passed by the caller are not modified
         interpolator_kwargs = dict(interpolator_kwargs or {})
-- 
2.43.0


From 5d6fb0bf2aaa92cfaf2367ba7a78b78918bbc666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 17/54] fix: DiscretePDFNearestNeighborSearcher cannot be used
 for PSF tables

---
 pyirf/interpolation/nearest_neighbor_searcher.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index 2bf2b0e..f688a30 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -5,6 +5,7 @@ from .base_interpolators import (
     BaseInterpolator,
     DiscretePDFInterpolator,
     ParametrizedInterpolator,
+    PDFNormalization,
 )
 
 __all__ = [
@@ -105,7 +106,14 @@ class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
     Compatible with discretized PDF IRF component API.
     """
 
-    def __init__(self, grid_points, bin_edges, binned_pdf, norm_ord=2):
+    def __init__(
+        self,
+        grid_points,
+        bin_edges,
+        binned_pdf,
+        norm_ord=2,
+        normalization=PDFNormalization.AREA,
+    ):
         """
         NearestNeighborSearcher compatible with discretized PDF IRF components API
 
@@ -124,6 +132,8 @@ class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
             Order of the norm which is used to compute the distances,
             passed to numpy.linalg.norm [1]. Defaults to 2,
             which uses the euclidean norm.
+        normalization: PDFNormalization
+            How the PDF is normalized. Ignored for nearest neighbor searching.
 
         Notes
         -----
-- 
2.43.0


From 2b4b96e8064880e6626a27d8d60587e2e1593856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 18/54] fix: wrong axis order of nearest neighbor results for
 non-negative axis

---
 pyirf/interpolation/component_estimators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 38ef3c7..0450ec4 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -726,7 +726,8 @@ class EnergyDispersionEstimator(DiscretePDFComponentEstimator):
         and pyirf.interpolation.ParametrizedEstimator
         """
 
-        self.axis = axis
+        # count from the last axis, results might come without the leading axis
+        self.axis = axis if axis < 0 else axis - energy_dispersion.ndim
 
         super().__init__(
             grid_points=grid_points,
@@ -812,7 +813,8 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
         and pyirf.interpolation.ParametrizedEstimator
         """
 
-        self.axis = axis
+        # count from the last axis, results might come without the leading axis
+        self.axis = axis if axis < 0 else axis - psf.ndim
 
         psf = np.swapaxes(psf.to_value(u.sr**-1), axis, -1)
 
-- 
2.43.0


From 1478472f36375b3277e32dd1c2a70fbfaab75f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 19/54] fix: RadMaxEstimator uses wrong neighbors for fill
 value handling on unsorted 1D grids

---
 pyirf/interpolation/component_estimators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 0450ec4..7585174 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -540,6 +540,9 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
         )
 
         self.params = rad_max
+        # the base classes sort 1D grids, apply the same order here
+        if self.grid_dim == 1:
+            self.params = rad_max[np.argsort(np.ravel(grid_points))]
 
         if fill_value is None:
             self.fill_val = None
-- 
2.43.0


From e25670f27a6a2650773bf9158d6ef22b4c5f9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 20/54] fix: RadMaxEstimator fails to extrapolate with fill
 value handling on 2D grids

---
 pyirf/interpolation/component_estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 7585174..c08ff71 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -633,7 +633,9 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
             target_simplex = self.triangulation.find_simplex(target_point)
 
             if target_simplex == -1:
-                target_simplex = find_nearest_simplex(self.triangulation, target_point)
+                target_simplex = find_nearest_simplex(
+                    self.triangulation, target_point.squeeze()
+                )
 
             simplex_nodes_indices = self.triangulation.simplices[
                 target_simplex
-- 
2.43.0


From 33f2d3f99604b35c73349af0108746c829319d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 21/54] fix: fill values are ignored outside the grid when only
 interpolation uses nearest neighbors

---
 pyirf/interpolation/component_estimators.py | 22 ++++++---------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index c08ff71..ba5db31 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -591,23 +591,13 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
         # Early exit if a nearest neighbor estimation would be overwritten
         # Complex setup is needed to catch settings where the user mixes approaches and
         # e.g. uses nearest neighbors for extrapolation and an actual interpolation otherwise
-        if self.grid_dim == 1:
-            if (
-                (target_point < self.grid_points.min())
-                or (target_point > self.grid_points.max())
-            ) and issubclass(self.extrapolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
-            elif issubclass(self.interpolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
-        elif self.grid_dim == 2:
-            target_simplex = self.triangulation.find_simplex(target_point)
+        if self._target_in_grid(target_point):
+            estimator = self.interpolator
+        else:
+            estimator = self.extrapolator
 
-            if (target_simplex == -1) and issubclass(
-                self.extrapolator.__class__, BaseNearestNeighborSearcher
-            ):
-                return full_estimation
-            elif issubclass(self.interpolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
+        if isinstance(estimator, BaseNearestNeighborSearcher):
+            return full_estimation
 
         # Actual fill-value handling
         if self.grid_dim == 1:
-- 
2.43.0


From ff2cb8801af737faf23a8007fb8e3054a86c1107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 22/54] fix: cuts for multiple percentiles are smoothed along
 the percentiles instead of the bins

---
 pyirf/cuts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index e9211c2..88ac737 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -111,6 +111,8 @@ def calculate_percentile_cut(
             cut_table["cut"].value,
             smoothing,
             mode="nearest",
+            # filter along the bins, also for multiple percentiles
+            axis=0,
         )
 
     return cut_table
-- 
2.43.0


From 60e27628f602f69c2cb6c04505d25e216bff9538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 23/54] fix: percentile cuts of integer values are truncated to
 integers

---
 pyirf/cuts.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index 88ac737..cbc1b11 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -83,11 +83,14 @@ def calculate_percentile_cut(
         unit = fill_value.unit
         fill_value = fill_value.value
 
+    # percentiles of integer values are not integers in general
+    dtype = np.result_type(values.dtype, np.float32)
+
     percentile = np.asanyarray(percentile)
     if percentile.shape == ():
-        cut_table["cut"] = np.asanyarray(fill_value, values.dtype)
+        cut_table["cut"] = np.asanyarray(fill_value, dtype)
     else:
-        cut_table["cut"] = np.full((n_bins, len(percentile)), fill_value, dtype=values.dtype)
+        cut_table["cut"] = np.full((n_bins, len(percentile)), fill_value, dtype=dtype)
 
     if unit is not None:
         cut_table["cut"].unit = unit
-- 
2.43.0


From 7455321c12b16538987189d3b13f2b8c7642b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 24/54] fix: background_3d_lonlat uses the wrong solid angle
 for off-diagonal bins

---
 pyirf/irf/background.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyirf/irf/background.py b/pyirf/irf/background.py
index 419486f..3eb603e 100644
--- a/pyirf/irf/background.py
+++ b/pyirf/irf/background.py
@@ -113,10 +113,10 @@ def background_3d_lonlat(events, reco_energy_bins, fov_lon_bins, fov_lat_bins, t
 
     # divide by solid angle in each fov bin and the observation time
     bin_solid_angle = rectangle_solid_angle(
-        fov_lon_bins[:-1],
-        fov_lon_bins[1:],
-        fov_lat_bins[:-1],
-        fov_lat_bins[1:],
+        fov_lon_bins[:-1, np.newaxis],
+        fov_lon_bins[1:, np.newaxis],
+        fov_lat_bins[np.newaxis, :-1],
+        fov_lat_bins[np.newaxis, 1:],
     )
     bg_rate = per_energy / t_obs / bin_solid_angle
     return bg_rate.to(BACKGROUND_UNIT)
-- 
2.43.0


From 3cff751618096ecc7c97cc9b56eefd70185d12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 25/54] fix: optimize_cuts repeats a list of theta cut
 efficiencies instead of converting to percent

---
 pyirf/cut_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyirf/cut_optimization.py b/pyirf/cut_optimization.py
index d8c1a51..dfdf4c4 100644
--- a/pyirf/cut_optimization.py
+++ b/pyirf/cut_optimization.py
@@ -72,6 +72,7 @@ def optimize_cuts(
     """
     gh_cut_efficiencies = np.asanyarray(gh_cut_efficiencies)
     gh_cut_percentiles = 100 * (1 - gh_cut_efficiencies)
+    theta_cut_efficiencies = np.asanyarray(theta_cut_efficiencies)
     fill_value = signal['gh_score'].max()
 
     sensitivities = []
-- 
2.43.0


From 9f6864fb2d6ed6b09456fb132ed0ad22eca45340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 26/54] fix: wrong shape and values of visible edges
 extrapolation for axes of length one

---
 pyirf/interpolation/visible_edges_extrapolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index 114cc7c..b2c1bb3 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -184,9 +184,10 @@ class ParametrizedVisibleEdgesExtrapolator(ParametrizedNearestSimplexExtrapolato
 
                 simplex_extrapolations = np.array(
                     [
+                        # only remove the leading axis of length 1
                         extrapolate2D(
                             self.triangulation.simplices[ind], target_point
-                        ).squeeze()
+                        )[0]
                         for ind in visible_simplices_indices
                     ]
                 )
-- 
2.43.0


From 170b6d1b889145a3d6086eb087ba9ab54329cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 27/54] fix: visible edges extrapolation uses edges that are
 not visible from the target

---
 .../visible_edges_extrapolator.py             | 41 +++++++------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index b2c1bb3..3fecfa4 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -16,9 +16,8 @@ def find_visible_facets(grid_points, target_point):
     """
     Find all facets of a convex hull visible from an outside point.
     
-    To do so, this function constructs a triangulation containing
-    the target point and returns all facets that span a triangulation simplex with
-    it.
+    A facet is visible, if the target point and the grid lie on opposite sides
+    of it.
 
     Parameters
     ----------
@@ -34,29 +33,19 @@ def find_visible_facets(grid_points, target_point):
         L visible facets, spanned by a simplex in M-1 dimensions
         (thus a line for M=2)
     """
-    # Build a triangulation including the target point
-    full_set = np.vstack((grid_points, target_point))
-    triag = Delaunay(full_set)
-
-    # The target point is included in a simplex with all facets
-    # visible by it
-    simplices = triag.points[triag.simplices]
-    matches_target = np.all(simplices == target_point, axis=-1)
-    target_in_simplex = np.any(matches_target, axis=-1)
-
-    # The visible facets are spanned by those points in the matched
-    # simplices that are not the target
-    facet_point_mask = ~matches_target[target_in_simplex]
-    visible_facets = np.array(
-        [
-            triag.points[simplex[mask]]
-            for simplex, mask in zip(
-                triag.simplices[target_in_simplex], facet_point_mask
-            )
-        ]
-    )
-
-    return visible_facets
+    triag = Delaunay(grid_points)
+    # order the facets by the indices of their grid points
+    facets = triag.points[np.unique(np.sort(triag.convex_hull, axis=1), axis=0)]
+
+    def signed_area(point):
+        # twice the signed area of the triangles spanned by point and each facet
+        ab = facets[:, 1] - facets[:, 0]
+        ap = point - facets[:, 0]
+        return ab[:, 0] * ap[:, 1] - ab[:, 1] * ap[:, 0]
+
+    # the mean of all grid points is always inside of the convex hull
+    inside = np.sign(signed_area(triag.points.mean(axis=0)))
+    return facets[inside * signed_area(np.squeeze(target_point)) < 0]
 
 
 def compute_extrapolation_weights(visible_facet_points, target_point, m):
-- 
2.43.0


From 4ff72208b610d528d39e9aadeafe7aa10274ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 28/54] fix: relative sensitivity is NaN if the solution is
 outside the initial search interval

---
 pyirf/sensitivity.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyirf/sensitivity.py b/pyirf/sensitivity.py
index c8873c8..6bea80f 100644
--- a/pyirf/sensitivity.py
+++ b/pyirf/sensitivity.py
@@ -64,6 +64,15 @@ def _relative_sensitivity(
             upper_bound = 100
             lower_bound = 1e-4
 
+        # enlarge the interval in case it does not contain the solution
+        for _ in range(20):
+            if equation(upper_bound) < 0:
+                upper_bound *= 10
+            elif equation(lower_bound) > 0:
+                lower_bound /= 10
+            else:
+                break
+
         relative_flux = brentq(equation, lower_bound, upper_bound)
 
     except (RuntimeError, ValueError) as e:
-- 
2.43.0


From 3ea5afcf01c57a9f196d5ec5ee857d552ca3534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 29/54] fix: calculate_bin_indices fails for table columns
 without unit

---
 pyirf/binning.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index 87882c4..f3d7c66 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -162,8 +162,9 @@ def calculate_bin_indices(data, bins):
         False indicates that an entry fell into the over- or underflow bins.
     """
 
-    if hasattr(data, "unit"):
-        if not hasattr(bins, "unit"):
+    # table columns without unit have ``unit=None``
+    if getattr(data, "unit", None) is not None:
+        if getattr(bins, "unit", None) is None:
             raise TypeError(f"If ``data`` is a Quantity, so must ``bins``, got {bins}")
         unit = data.unit
         data = data.to_value(unit)
-- 
2.43.0


From 22e82f5b4c2f07e9881f231c71d81c47f0a20a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 30/54] fix: quantile interpolation is biased for non-uniform
 bin widths

---
 pyirf/interpolation/quantile_interpolator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/quantile_interpolator.py b/pyirf/interpolation/quantile_interpolator.py
index 9b3106a..fff75ad 100644
--- a/pyirf/interpolation/quantile_interpolator.py
+++ b/pyirf/interpolation/quantile_interpolator.py
@@ -137,12 +137,14 @@ def norm_pdf(pdf_values, bin_edges, normalization):
     """
     Normalize binned_pdf to a sum of 1
     """
-    norm = np.sum(pdf_values, axis=-1)
+    # probability in each bin, pdf_values are densities along the binned axis
+    probability = pdf_values * np.diff(bin_edges)
+    norm = np.sum(probability, axis=-1)
     width = get_bin_width(bin_edges, normalization)
 
     # Norm all binned_pdfs to unity that are not empty
     normed_pdf_values = np.divide(
-        pdf_values,
+        probability,
         norm[..., np.newaxis] * width,
         out=np.zeros_like(pdf_values),
         where=norm[..., np.newaxis] != 0,
-- 
2.43.0


From d3c8de172898af633c05d42e5cc33832843e560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 31/54] fix: energy_dispersion_to_migration amplifies rounding
 errors for empty true energy bins

---
 pyirf/irf/energy_dispersion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyirf/irf/energy_dispersion.py b/pyirf/irf/energy_dispersion.py
index f34c354..45b906e 100644
--- a/pyirf/irf/energy_dispersion.py
+++ b/pyirf/irf/energy_dispersion.py
@@ -189,8 +189,10 @@ def energy_dispersion_to_migration(
     )
 
     norm = np.sum(true_energy_interpolation, axis=1, keepdims=True)
-    norm[norm == 0] = 1
-    true_energy_interpolation /= norm
+    # bins without events only contain rounding errors of the resampling
+    empty = np.abs(norm) < 1e-10
+    norm[empty] = 1
+    true_energy_interpolation = np.where(empty, 0, true_energy_interpolation / norm)
 
     for idx, e_true in enumerate(
         (new_true_energy_edges[1:] + new_true_energy_edges[:-1]) / 2
-- 
2.43.0


From daaf63441c1d0cf51434c8938b032b94b24e553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 32/54] fix: estimated number of showers in EventDisplay files
 overflows 32-bit integers

---
 pyirf/io/eventdisplay.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyirf/io/eventdisplay.py b/pyirf/io/eventdisplay.py
index a46054c..3a7dd28 100644
--- a/pyirf/io/eventdisplay.py
+++ b/pyirf/io/eventdisplay.py
@@ -59,7 +59,10 @@ def read_eventdisplay_fits(infile, use_histogram=True):
     n_runs = len(unique(events[['obs_id', 'pointing_az', 'pointing_alt']]))
     log.info(f"Estimated number of runs from obs ids and pointing position: {n_runs}")
 
-    n_showers_guessed = n_runs * run_header["num_use"] * run_header["num_showers"]
+    # convert to python integers to avoid overflows of the 32-bit integers in the header
+    n_showers_guessed = (
+        n_runs * int(run_header["num_use"]) * int(run_header["num_showers"])
+    )
     n_showers_hist = int(sim_events["EVENTS"].sum())
 
     if use_histogram:
-- 
2.43.0


From d838c54db4b5c52dc231afe9bbcee609c7441712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 33/54] fix: compare_irf_cuts ignores units and fails for cuts
 with different bins

---
 pyirf/cuts.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index cbc1b11..e171c0c 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -208,7 +208,14 @@ def compare_irf_cuts(cuts):
     match: Boolean
         if the cuts are the same in all the files
     """
-    for i in range(len(cuts) - 1):
-        if (cuts[i] != cuts[i + 1]).any():
+    for first, second in zip(cuts[:-1], cuts[1:]):
+        if set(first.colnames) != set(second.colnames):
             return False
+
+        # comparing the columns and not the tables, as the latter ignores units
+        for name in first.colnames:
+            a, b = first[name], second[name]
+            if a.shape != b.shape or not np.all(a == b):
+                return False
+
     return True
-- 
2.43.0


From d395e671aba42596d3e199187ff7754f7aa7f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 34/54] fix: cut optimization fails if particle types are
 removed completely by some cuts

---
 pyirf/cut_optimization.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/pyirf/cut_optimization.py b/pyirf/cut_optimization.py
index dfdf4c4..2e9b874 100644
--- a/pyirf/cut_optimization.py
+++ b/pyirf/cut_optimization.py
@@ -17,6 +17,30 @@ __all__ = [
 ]
 
 
+def _init_best_sensitivity(sensitivities):
+    """
+    Create the result table with the columns of all scanned sensitivities.
+
+    Particle types without any event surviving the cuts do not have a column,
+    so the tables of different cuts might have different columns.
+    """
+    best_sensitivity = sensitivities[0].copy()
+    for sensitivity in sensitivities[1:]:
+        for name in sensitivity.colnames:
+            if name not in best_sensitivity.colnames:
+                best_sensitivity[name] = np.zeros(len(sensitivity))
+    return best_sensitivity
+
+
+def _set_best_sensitivity(best_sensitivity, sensitivity, bin_id):
+    """Fill one row of ``best_sensitivity``, missing particle types have zero counts"""
+    for name in best_sensitivity.colnames:
+        if name in sensitivity.colnames:
+            best_sensitivity[name][bin_id] = sensitivity[name][bin_id]
+        else:
+            best_sensitivity[name][bin_id] = 0
+
+
 def optimize_cuts(
     signal,
     background,
@@ -182,7 +206,7 @@ def optimize_cuts(
     best_theta_cut["cut"].unit = theta_cuts["cut"].unit
     best_theta_cut["efficiency"] = np.nan
 
-    best_sensitivity = sensitivities[0].copy()
+    best_sensitivity = _init_best_sensitivity(sensitivities)
     for bin_id in range(len(reco_energy_bins) - 1):
         sensitivities_bin = [s["relative_sensitivity"][bin_id] for s in sensitivities]
 
@@ -195,7 +219,7 @@ def optimize_cuts(
 
         multiplicity_index, theta_index, gh_index = cut_indices[best]
 
-        best_sensitivity[bin_id] = sensitivities[best][bin_id]
+        _set_best_sensitivity(best_sensitivity, sensitivities[best], bin_id)
 
         best_gh_cut["cut"][bin_id] = gh_cut_grid[multiplicity_index]["cut"][bin_id][gh_index]
         best_multiplicity_cut["cut"][bin_id] = multiplicity_cuts[multiplicity_index]
@@ -329,7 +353,7 @@ def optimize_gh_cut(
     best_cut_table["cut"] = np.nan
     best_cut_table["efficiency"] = np.nan
 
-    best_sensitivity = sensitivities[0].copy()
+    best_sensitivity = _init_best_sensitivity(sensitivities)
     for bin_id in range(len(reco_energy_bins) - 1):
         sensitivities_bin = [s["relative_sensitivity"][bin_id] for s in sensitivities]
 
@@ -340,7 +364,7 @@ def optimize_gh_cut(
             # if all are invalid, just use the first one
             best = 0
 
-        best_sensitivity[bin_id] = sensitivities[best][bin_id]
+        _set_best_sensitivity(best_sensitivity, sensitivities[best], bin_id)
         best_cut_table["cut"][bin_id] = gh_cuts["cut"][bin_id][best]
         best_cut_table["efficiency"][bin_id] = gh_cut_efficiencies[best]
 
-- 
2.43.0


From 79d058b0db54a081f50fdb05c08822ff1feae593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 35/54] fix: moment morphing loses PDFs narrower than one bin
 and is NaN for vanishing widths

---
 .../moment_morph_interpolator.py              | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index 81b6519..a888558 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -228,13 +228,16 @@ def moment_morph_estimation(bin_edges, binned_pdf, coefficients, normalization):
     mu_prime = np.sum(coefficients * mus, axis=0)
     sig_prime = np.sum(coefficients * sigs, axis=0)
 
-    # Compute slope and offset as in eq. (14) and (15) in [1]
-    aij = sigs / sig_prime
-    bij = mus - mu_prime * aij
+    # Compute slope and offset as in eq. (14) and (15) in [1], the slope is infinite
+    # if the widths cancel in extrapolation
+    with np.errstate(divide="ignore", invalid="ignore"):
+        aij = sigs / sig_prime
+        bij = mus - mu_prime * aij
 
     # Transformation as in eq. (13) in [1]
     mids = np.broadcast_to(bin_mids, binned_pdf.shape)
-    transf_mids = aij[..., np.newaxis] * mids + bij[..., np.newaxis]
+    with np.errstate(invalid="ignore"):
+        transf_mids = aij[..., np.newaxis] * mids + bij[..., np.newaxis]
 
     # Compute the morphed historgram according to eq. (18) in [1]. The function "lookup" "resamples"
     # the histogram at the transformed bin-mids by using the templates historgam value at the transformed
@@ -243,9 +246,18 @@ def moment_morph_estimation(bin_edges, binned_pdf, coefficients, normalization):
 
     transf_hist = _lookup(bin_edges=bin_edges, binned_pdf=binned_pdf, x=transf_mids)
 
-    f_new = np.sum(
-        np.expand_dims(coefficients, -1) * transf_hist * np.expand_dims(aij, -1), axis=0
-    )
+    with np.errstate(invalid="ignore"):
+        f_new = np.sum(
+            np.expand_dims(coefficients, -1) * transf_hist * np.expand_dims(aij, -1),
+            axis=0,
+        )
+
+    # All bin-mids might miss a PDF that is narrower than the bins, put everything
+    # into the bin containing the mean in this case
+    lost = ~np.any(np.isfinite(f_new) & (f_new != 0), axis=-1)
+    mean = np.expand_dims(mu_prime, -1)
+    contains_mean = (bin_edges[:-1] <= mean) & (mean < bin_edges[1:])
+    f_new = np.where(np.expand_dims(lost, -1), contains_mean, f_new)
 
     # Reset interpolation resolts for those templates with partially zero entries from above to 0
     f_new[zero_templates] = np.zeros(len(bin_mids))
-- 
2.43.0


From 09488f2662b7a663c3c5e67254a19e9b94a6c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 36/54] fix: quantile interpolation loses PDFs narrower than
 one bin

---
 pyirf/interpolation/quantile_interpolator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyirf/interpolation/quantile_interpolator.py b/pyirf/interpolation/quantile_interpolator.py
index fff75ad..e6410b8 100644
--- a/pyirf/interpolation/quantile_interpolator.py
+++ b/pyirf/interpolation/quantile_interpolator.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy.interpolate import griddata, interp1d
 
+from ..binning import bin_center
 from .base_interpolators import DiscretePDFInterpolator, PDFNormalization
 from .utils import get_bin_width
 
@@ -130,6 +131,14 @@ def pdf_from_ppf(bin_edges, interp_ppfs, quantiles):
     # correct bin height via the midpoint rule formulation of the trapezoidal rule
     pdf_values = np.apply_along_axis(interpolate_ppf, -1, xyconcat)
 
+    # No bin edge might be inside of a pdf that is narrower than the bins, put
+    # everything into the bin containing the median in this case.
+    # As in ppf_values, the content of a bin is located between its and the previous mid
+    median = np.median(interp_ppfs, axis=-1)
+    lost = ~np.any(pdf_values, axis=-1) & np.isfinite(median)
+    median_bin = np.searchsorted(bin_center(bin_edges), median[lost])
+    pdf_values[lost, np.minimum(median_bin, len(bin_edges) - 2)] = 1
+
     return pdf_values
 
 
-- 
2.43.0


From f0ea992f0c28f2d0ab862558791c098907de9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 37/54] fix: moment morphing returns empty PDFs at grid points
 next to empty templates

---
 pyirf/interpolation/moment_morph_interpolator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index a888558..86a3593 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -208,11 +208,14 @@ def moment_morph_estimation(bin_edges, binned_pdf, coefficients, normalization):
     """
     bin_mids = bin_center(bin_edges)
 
-    # Catch all those templates, where at least one template histogram is all zeros.
-    zero_templates = ~np.all(~np.isclose(np.sum(binned_pdf, axis=-1), 0), 0)
+    # Catch all those templates, where at least one used template histogram is all zeros.
+    # Templates without weight are not used, e.g. if the target is a grid point
+    empty = np.isclose(np.sum(binned_pdf, axis=-1), 0)
+    used = ~np.isclose(np.ravel(coefficients), 0)
+    zero_templates = np.any(empty[used], axis=0)
 
     # Manipulate those templates so that computations pass without error
-    binned_pdf[:, zero_templates] = np.full(len(bin_mids), 1 / len(bin_mids))
+    binned_pdf[empty] = np.full(len(bin_mids), 1 / len(bin_mids))
 
     # Estimate mean and std for each input template histogram. First adaption needed to extend
     # the moment morph procedure to histograms
-- 
2.43.0


From 9416448dc25140b347e906b1a8cbd282cf304b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 38/54] fix: quantile interpolation returns empty PDFs at grid
 points next to empty templates

---
 pyirf/interpolation/quantile_interpolator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/quantile_interpolator.py b/pyirf/interpolation/quantile_interpolator.py
index e6410b8..9bd5053 100644
--- a/pyirf/interpolation/quantile_interpolator.py
+++ b/pyirf/interpolation/quantile_interpolator.py
@@ -260,7 +260,13 @@ class QuantileInterpolator(DiscretePDFInterpolator):
         """
 
         # interpolate ppfs to target point, interpolate quantiles step of [1]
-        interpolated_ppfs = griddata(self.grid_points, self.ppfs, target_point)
+        # ppfs of empty pdfs are nan, these must only affect targets at which they have weight
+        empty = np.isnan(self.ppfs[..., 0])
+        interpolated_ppfs = griddata(
+            self.grid_points, np.where(empty[..., np.newaxis], 0, self.ppfs), target_point
+        )
+        empty_weight = griddata(self.grid_points, empty.astype(float), target_point)
+        interpolated_ppfs[~np.isclose(empty_weight, 0)] = np.nan
 
         # compute pdf values for all bins, evaluate interpolant PDF values step of [1], drop the earlier
         # introduced extra bin
-- 
2.43.0


From 8180bbc290a59ebff39febdfac6cb566bf6ecced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 39/54] fix: check_table fails with TypeError for columns
 without unit

---
 pyirf/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/utils.py b/pyirf/utils.py
index e1d41c6..cda7225 100644
--- a/pyirf/utils.py
+++ b/pyirf/utils.py
@@ -243,5 +243,6 @@ def check_table(table, required_columns=None, required_units=None):
                 raise MissingColumns(col)
 
             unit = table[col].unit
-            if not expected.is_equivalent(unit):
+            # columns without unit are dimensionless
+            if not expected.is_equivalent(u.one if unit is None else unit):
                 raise WrongColumnUnit(col, unit, expected)
-- 
2.43.0


From 86cd3f5a9d45af5a0b0343273e938edaef52ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:17 +0000
Subject: [PATCH 40/54] fix: resampling erases histograms whose contents add up
 to zero

---
 pyirf/binning.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index f3d7c66..8a2024f 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -281,20 +281,16 @@ def resample_histogram1d(data, old_edges, new_edges, axis=0):
 
     cumsum = np.insert(data.cumsum(axis=axis), 0, 0, axis=axis)
 
-    total = data.sum(axis=axis, keepdims=True)
-    norm = np.where(total == 0, 1, total)
-    cumsum = cumsum / norm
-
     f_integral = interp1d(
         old_edges,
         cumsum,
         bounds_error=False,
-        fill_value=(0, 1),
+        fill_value=(0, np.take(cumsum, -1, axis=axis)),
         kind="quadratic",
         axis=axis,
     )
 
-    values = np.diff(f_integral(new_edges), axis=axis) * total
+    values = np.diff(f_integral(new_edges), axis=axis)
     if data_unit:
         values = u.Quantity(values, unit=data_unit)
 
-- 
2.43.0


From 34a326130c50adaa0b2c72e568d6bd9eb5f02477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 41/54] fix: visible edges extrapolation returns nan next to
 the border of the grid

The cosine of the viewing angle of a facet might exceed 1 by rounding.
---
 pyirf/interpolation/visible_edges_extrapolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index 3fecfa4..08d2c60 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -77,7 +77,8 @@ def compute_extrapolation_weights(visible_facet_points, target_point, m):
             for line in visible_facet_points
         ]
     )
-    weights = np.arccos(angles) ** (m + 1)
+    # rounding might result in values slightly outside of [-1, 1]
+    weights = np.arccos(np.clip(angles, -1, 1)) ** (m + 1)
 
     return weights / weights.sum()
 
-- 
2.43.0


From eac1eabee5906f94e785205804a6f5139a6c4e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 42/54] fix: extrapolation from degenerate simplices of
 collinear grid points at the border

---
 pyirf/interpolation/utils.py                  | 35 +++++++++++++++++--
 .../visible_edges_extrapolator.py             | 10 +++---
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/pyirf/interpolation/utils.py b/pyirf/interpolation/utils.py
index b71adcd..f186b51 100644
--- a/pyirf/interpolation/utils.py
+++ b/pyirf/interpolation/utils.py
@@ -151,6 +151,35 @@ def find_simplex_to_facet(simplices_points, facet_points):
     return np.argmax(np.sum(lookup, axis=-1))
 
 
+def find_regular_simplices(triangulation):
+    """
+    Find simplices of a triangulation and facets of its convex hull without the
+    degenerate simplices spanned by points on a line (up to rounding), which might
+    be part of the triangulation at its border.
+
+    Parameters
+    ----------
+    triangulation: scipy.spatial.Delaunay object
+        Delaunay triangulation of a two dimensional grid
+
+    Returns
+    -------
+    simplex_inds: np.ndarray, shape=(n_simplices)
+        Indices of the simplices that are not degenerate
+    facets: np.ndarray, shape=(n_facets, 2)
+        Indices of the points spanning the facets of the convex hull
+    """
+    # scipy sets the transform of degenerate simplices to nan
+    simplex_inds = np.flatnonzero(np.isfinite(triangulation.transform).all(axis=(1, 2)))
+
+    # facets of the convex hull are only part of one simplex
+    edges = triangulation.simplices[simplex_inds][:, [[0, 1], [0, 2], [1, 2]]]
+    facets, counts = np.unique(
+        np.sort(edges.reshape(-1, 2), axis=1), axis=0, return_counts=True
+    )
+    return simplex_inds, facets[counts == 1]
+
+
 def find_nearest_simplex(triangulation, target):
     """
     Find nearest simplex to target by finding the nearest convex hull facet and
@@ -170,12 +199,12 @@ def find_nearest_simplex(triangulation, target):
     simplex_ind: int
         Index of the nearest simplex to a target point.
     """
-    qhull = triangulation.convex_hull
+    simplex_inds, qhull = find_regular_simplices(triangulation)
     qhull_points = triangulation.points[qhull]
 
     nearest_facet_ind = find_nearest_facet(qhull_points, target)
     facet_points = qhull_points[nearest_facet_ind]
 
-    simplices_points = triangulation.points[triangulation.simplices]
+    simplices_points = triangulation.points[triangulation.simplices[simplex_inds]]
 
-    return find_simplex_to_facet(simplices_points, facet_points)
+    return simplex_inds[find_simplex_to_facet(simplices_points, facet_points)]
diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index 08d2c60..baaa4c2 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -7,7 +7,7 @@ import numpy as np
 from scipy.spatial import Delaunay
 
 from .nearest_simplex_extrapolator import ParametrizedNearestSimplexExtrapolator
-from .utils import find_simplex_to_facet, point_facet_angle
+from .utils import find_regular_simplices, find_simplex_to_facet, point_facet_angle
 
 __all__ = ["ParametrizedVisibleEdgesExtrapolator"]
 
@@ -34,8 +34,7 @@ def find_visible_facets(grid_points, target_point):
         (thus a line for M=2)
     """
     triag = Delaunay(grid_points)
-    # order the facets by the indices of their grid points
-    facets = triag.points[np.unique(np.sort(triag.convex_hull, axis=1), axis=0)]
+    facets = triag.points[find_regular_simplices(triag)[1]]
 
     def signed_area(point):
         # twice the signed area of the triangles spanned by point and each facet
@@ -148,13 +147,14 @@ class ParametrizedVisibleEdgesExtrapolator(ParametrizedNearestSimplexExtrapolato
             if visible_facet_points.shape[0] == 1:
                 return super().extrapolate(target_point)
             else:
+                simplex_inds, _ = find_regular_simplices(self.triangulation)
                 simplices_points = self.triangulation.points[
-                    self.triangulation.simplices
+                    self.triangulation.simplices[simplex_inds]
                 ]
 
                 visible_simplices_indices = np.array(
                     [
-                        find_simplex_to_facet(simplices_points, facet)
+                        simplex_inds[find_simplex_to_facet(simplices_points, facet)]
                         for facet in visible_facet_points
                     ]
                 )
-- 
2.43.0


From a67169ebae55ab0cfd148436591cb678185c6196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 43/54] fix: nan for targets next to degenerate simplices at
 the border of the grid

---
 pyirf/interpolation/component_estimators.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index ba5db31..40cdc0d 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -97,7 +97,15 @@ class BaseComponentEstimator:
         else:
             # Delaunay.find_simplex() returns -1 for points outside the grids convex hull
             simplex_ind = self.triangulation.find_simplex(target_point)
-            return simplex_ind >= 0
+            if simplex_ind < 0:
+                return False
+
+            # Next to degenerate simplices, find_simplex accepts points further outside
+            # of the grid than the interpolation does, which is undefined there
+            target = np.ravel(target_point)
+            transform = self.triangulation.transform[simplex_ind].reshape(-1, len(target))
+            coordinates = transform[:-1] @ (target - transform[-1])
+            return min(coordinates.min(), 1 - coordinates.sum()) > -1e-8
 
     def __call__(self, target_point):
         """Inter-/ Extrapolation as needed and sanity checking of
-- 
2.43.0


From 4a4ea9dc11ea40cdfe526ce29af076fc6b3530fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 44/54] fix: moment morphing fails for templates with a single
 filled bin due to rounding

---
 pyirf/interpolation/moment_morph_interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index 86a3593..6e99a96 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -45,9 +45,9 @@ def _estimate_mean_std(bin_edges, binned_pdf, normalization):
     )
 
     # Set std to 0.5*width for all those templates that have only one bin =/= 0. In those
-    # cases mids-mean = 0 and therefore std = 0. Uses the width of the one bin with
+    # cases mids-mean = 0 and therefore std = 0 (up to rounding). Uses the width of the one bin with
     # binned_pdf!=0
-    mask = std == 0
+    mask = np.count_nonzero(binned_pdf, axis=-1) == 1
     if np.any(mask):
         width = np.diff(bin_edges)
         # std of a uniform distribution inside the bin
-- 
2.43.0


From ff2440e7ebd6af0f63f0d6bb035132b010293749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 45/54] fix: moment morphing returns zeros for PDFs of
 quantities with large values

---
 pyirf/interpolation/moment_morph_interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index 6e99a96..140ac91 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -210,7 +210,8 @@ def moment_morph_estimation(bin_edges, binned_pdf, coefficients, normalization):
 
     # Catch all those templates, where at least one used template histogram is all zeros.
     # Templates without weight are not used, e.g. if the target is a grid point
-    empty = np.isclose(np.sum(binned_pdf, axis=-1), 0)
+    bin_widths = get_bin_width(bin_edges, normalization)
+    empty = np.isclose(np.sum(binned_pdf * bin_widths, axis=-1), 0)
     used = ~np.isclose(np.ravel(coefficients), 0)
     zero_templates = np.any(empty[used], axis=0)
 
@@ -267,7 +268,6 @@ def moment_morph_estimation(bin_edges, binned_pdf, coefficients, normalization):
 
     # Re-Normalize, needed, as the estimation of the std used above is not exact but the result is scaled with
     # the estimated std
-    bin_widths = get_bin_width(bin_edges, normalization)
     norm = np.expand_dims(np.sum(f_new * bin_widths, axis=-1), -1)
 
     return np.divide(f_new, norm, out=np.zeros_like(f_new), where=norm != 0).reshape(
-- 
2.43.0


From 805ad02eb92950ee3e7a3b9df514e87f91c9762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:37 +0000
Subject: [PATCH 46/54] fix: fill values are mixed into rad max by visible
 edges extrapolation

---
 pyirf/interpolation/component_estimators.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 40cdc0d..1b744d9 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -18,6 +18,7 @@ from .griddata_interpolator import GridDataInterpolator
 from .nearest_neighbor_searcher import BaseNearestNeighborSearcher
 from .quantile_interpolator import QuantileInterpolator
 from .utils import find_nearest_simplex
+from .visible_edges_extrapolator import ParametrizedVisibleEdgesExtrapolator
 
 __all__ = [
     "BaseComponentEstimator",
@@ -635,6 +636,18 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
                     self.triangulation, target_point.squeeze()
                 )
 
+                # Blending over all visible edges would mix in fill-values of simplices
+                # that are not considered below, only use the nearest one in this case
+                if isinstance(estimator, ParametrizedVisibleEdgesExtrapolator):
+                    nearest = super(
+                        ParametrizedVisibleEdgesExtrapolator, estimator
+                    ).extrapolate(target_point)
+                    full_estimation = np.where(
+                        np.any(self.params >= self.fill_val, axis=0),
+                        np.clip(nearest, 0, None),
+                        full_estimation,
+                    )
+
             simplex_nodes_indices = self.triangulation.simplices[
                 target_simplex
             ].squeeze()
-- 
2.43.0


From c26ece84772e63709c234fe012eac141a50fc0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:45 +0000
Subject: [PATCH 47/54] fix: solid angle of small cones suffers from
 cancellation

---
 pyirf/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/utils.py b/pyirf/utils.py
index cda7225..5f9ac9e 100644
--- a/pyirf/utils.py
+++ b/pyirf/utils.py
@@ -183,7 +183,8 @@ def cone_solid_angle(angle):
         Solid angle of a view cone with opening angle ``angle``.
 
     """
-    solid_angle = 2 * np.pi * (1 - np.cos(angle)) * u.sr
+    # same as 2 * pi * (1 - cos(angle)), but without cancellation for small angles
+    solid_angle = 4 * np.pi * np.sin(angle / 2) ** 2 * u.sr
     return solid_angle
 
 
-- 
2.43.0


From 04dc6c6ba6f6bdb39a55623cf66c82ad3f4533be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 48/54] fix: edges that do not match are joined if their unit
 makes them small

---
 pyirf/binning.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index 8a2024f..e6b441c 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -39,7 +39,12 @@ def join_bin_lo_hi(bin_lo, bin_hi):
         The joint bins
     """
 
-    if np.allclose(bin_lo[..., 1:], bin_hi[..., :-1], rtol=1.0e-5):
+    # relative to the bin widths, a fixed value would depend on the unit of the edges
+    widths = np.abs(bin_hi - bin_lo)
+    widths = widths[np.isfinite(widths)]
+    atol = 1e-8 * np.min(widths) if len(widths) > 0 else 0
+
+    if np.allclose(bin_lo[..., 1:], bin_hi[..., :-1], rtol=1.0e-5, atol=atol):
         last_axis = len(bin_lo.shape) - 1
         bins = np.concatenate((bin_lo, bin_hi[..., -1:]), axis=last_axis)
         return bins
-- 
2.43.0


From 56e0e0527a0d8617dba2ac99a9278c158e23b85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:34 +0000
Subject: [PATCH 49/54] fix: quantile interpolation smears PDFs with small
 contents far from the peak

The densities between the midpoints of two quantiles were linearly interpolated.
Where quantiles are far apart, e.g. next to the peak of a PDF with few outliers,
this created a shoulder containing up to 80 % of the PDF. Differentiate the
cdf at the bin mids instead, which is the inverse of how the ppf is computed.
---
 pyirf/interpolation/quantile_interpolator.py | 40 +++++++-------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/pyirf/interpolation/quantile_interpolator.py b/pyirf/interpolation/quantile_interpolator.py
index 9bd5053..42a8c0c 100644
--- a/pyirf/interpolation/quantile_interpolator.py
+++ b/pyirf/interpolation/quantile_interpolator.py
@@ -110,34 +110,22 @@ def pdf_from_ppf(bin_edges, interp_ppfs, quantiles):
     pdf_values: numpy.ndarray, shape=(1,...,n_bins)
         Recomputed, binned pdf at target_point
     """
-    # recalculate pdf values through numerical differentiation
-    pdf_interpolant = np.nan_to_num(np.diff(quantiles) / np.diff(interp_ppfs, axis=-1))
+    # The cdf is the inverse of the ppf, as in ppf_values the content of a bin is
+    # located between its and the previous mid
+    bin_mids = bin_center(bin_edges)
 
-    # Unconventional solution to make this usable with np.apply_along_axis for readability
-    # The ppf bin-mids are computed since the pdf-values are derived through derivation
-    # from the ppf-values
-    xyconcat = np.concatenate(
-        (interp_ppfs[..., :-1] + np.diff(interp_ppfs) / 2, pdf_interpolant), axis=-1
-    )
+    def interpolate_cdf(ppf):
+        # empty pdfs
+        if np.any(np.isnan(ppf)):
+            return np.zeros_like(bin_mids)
+
+        # assure ppf is increasing despite rounding
+        return np.interp(bin_mids, np.maximum.accumulate(ppf), quantiles)
 
-    def interpolate_ppf(xy):
-        ppf = xy[: len(xy) // 2]
-        pdf = xy[len(xy) // 2 :]
-        interpolate = interp1d(ppf, pdf, bounds_error=False, fill_value=(0, 0))
-        result = np.nan_to_num(interpolate(bin_edges[:-1]))
-        return result
-
-    # Interpolate pdf samples and evaluate at bin edges, weight with the bin_width to estimate
-    # correct bin height via the midpoint rule formulation of the trapezoidal rule
-    pdf_values = np.apply_along_axis(interpolate_ppf, -1, xyconcat)
-
-    # No bin edge might be inside of a pdf that is narrower than the bins, put
-    # everything into the bin containing the median in this case.
-    # As in ppf_values, the content of a bin is located between its and the previous mid
-    median = np.median(interp_ppfs, axis=-1)
-    lost = ~np.any(pdf_values, axis=-1) & np.isfinite(median)
-    median_bin = np.searchsorted(bin_center(bin_edges), median[lost])
-    pdf_values[lost, np.minimum(median_bin, len(bin_edges) - 2)] = 1
+    cdfs = np.apply_along_axis(interpolate_cdf, -1, interp_ppfs)
+
+    # recalculate pdf values through numerical differentiation
+    pdf_values = np.diff(cdfs, prepend=0, axis=-1) / np.diff(bin_edges)
 
     return pdf_values
 
-- 
2.43.0


From 4580a4204599ee27febc327575d4eb9253d55345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:18 +0000
Subject: [PATCH 50/54] fix: quantile interpolation fills gaps in PDFs

The content of the first filled bin after empty ones was spread over the empty
bins, as only the first of the equal cdf values was used for its ppf.
---
 pyirf/interpolation/quantile_interpolator.py | 27 ++++----------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/pyirf/interpolation/quantile_interpolator.py b/pyirf/interpolation/quantile_interpolator.py
index 42a8c0c..0b66960 100644
--- a/pyirf/interpolation/quantile_interpolator.py
+++ b/pyirf/interpolation/quantile_interpolator.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.interpolate import griddata, interp1d
+from scipy.interpolate import griddata
 
 from ..binning import bin_center
 from .base_interpolators import DiscretePDFInterpolator, PDFNormalization
@@ -46,34 +46,17 @@ def ppf_values(bin_mids, cdfs, quantiles):
     def cropped_interp(cdf):
         """
         create ppf-values through inverse interpolation of the cdf, avoiding repeating 0 and 1 entries
-        around the first and last bins as well as repeating values due to zero bins
-        in between filled bins. Both cases would result in division by zero errors when computing
-        the interpolation polynom.
+        around the first and last bins. Empty bins in between filled bins, for which the cdf is
+        constant, result in a step of the ppf.
         """
 
         # Find last 0 and first 1 entry
         last_0 = np.nonzero(cdf == 0)[0][-1] if cdf[0] == 0 else 0
         first_1 = np.nonzero(cdf == 1.0)[0][0]
-
-        # Predefine selection mask
-        selection = np.ones(len(cdf), dtype=bool)
-
-        # Keep only the first of subsequently matching values
-        selection[1:] = cdf[1:] != cdf[:-1]
-
-        # Keep only the last 0 and first 1 entry
-        selection[:last_0] = False
-        selection[last_0] = True
-        selection[first_1 + 1 :] = False
-        selection[first_1] = True
+        selection = slice(last_0, first_1 + 1)
 
         # create ppf values from selected bins
-        return interp1d(
-            cdf[selection],
-            bin_mids[selection],
-            bounds_error=False,
-            fill_value="extrapolate",
-        )(quantiles)
+        return np.interp(quantiles, cdf[selection], bin_mids[selection])
 
     # create ppf values from cdf samples via interpolation of the cdfs
     # return nan for empty pdfs
-- 
2.43.0


From 3acb04da6bf9026813faed375101a830ed3bb1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:17 +0000
Subject: [PATCH 51/54] fix: wrong number of simulated showers for spectral
 indices close to -1

---
 pyirf/simulations.py | 5 +++--
 pyirf/spectral.py    | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index ac89e7e..304bf11 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -288,9 +288,10 @@ def _powerlaw_pdf_integral(index, e_low, e_high, e_min, e_max):
     if index == -1:
         return np.log(e_high / e_low) / np.log(e_max / e_min)
 
+    # the difference of the powers, without cancellation for indices close to -1
     int_index = index + 1
-    normalization = 1 / (e_max ** int_index - e_min ** int_index)
-    e_term = e_high ** int_index - e_low ** int_index
+    normalization = 1 / np.expm1(int_index * np.log(e_max / e_min))
+    e_term = (e_low / e_min) ** int_index * np.expm1(int_index * np.log(e_high / e_low))
     return e_term * normalization
 
 
diff --git a/pyirf/spectral.py b/pyirf/spectral.py
index d4af302..3aa20e4 100644
--- a/pyirf/spectral.py
+++ b/pyirf/spectral.py
@@ -137,7 +137,9 @@ class PowerLaw:
             delta = np.log((e_max / e_min).to_value(u.one))
             nom = e_ref**index * n_showers
         else:
-            delta = e_max ** (index + 1) - e_min ** (index + 1)
+            # the difference of the powers, without cancellation for indices close to -1
+            log_range = np.log((e_max / e_min).to_value(u.one))
+            delta = e_min ** (index + 1) * np.expm1((index + 1) * log_range)
             nom = (index + 1) * e_ref**index * n_showers
         denom = (A * obstime * solid_angle) * delta
 
-- 
2.43.0


From 8435b954fdcfebb3f34c946e1e5f34f5a7d992d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:09 +0000
Subject: [PATCH 52/54] fix: events in gaps of a cut table are cut with the
 preceding bin

---
 pyirf/cuts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index e171c0c..7e56897 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -192,6 +192,8 @@ def evaluate_binned_cut(values, bin_values, cut_table, op):
 
     bins = np.append(cut_table["low"], cut_table["high"][-1])
     bin_index, valid = calculate_bin_indices(bin_values, bins)
+    # there might be gaps between the bins of the table
+    valid[valid] = bin_values[valid] < cut_table["high"][bin_index[valid]]
     return evaluate_binned_cut_by_index(values, bin_index, valid, cut_table, op)
 
 
-- 
2.43.0


From a46409935cec902a2af3aa7c6bbb7cdbe6b283e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:41 +0000
Subject: [PATCH 53/54] fix: distance to line segments nearly parallel to an
 axis

The parameter of the footpoint was computed from the differences of the
first coordinate, which is only rounding noise for segments like
(0.1 * 3, 0) to (0.3, 1). The distance to the nearer corner was returned
then and the extrapolation used the wrong simplex.
---
 pyirf/interpolation/utils.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/pyirf/interpolation/utils.py b/pyirf/interpolation/utils.py
index f186b51..000676b 100644
--- a/pyirf/interpolation/utils.py
+++ b/pyirf/interpolation/utils.py
@@ -36,22 +36,13 @@ def plumb_point_dist(line, target):
     B = line[1]
     P = target
 
-    # Costruct the footpoint/plumb point of the target projected onto
-    # both lines OA + r1*AB (F1) and OB + r1*BA (F2), for details see
+    # Find the parameter values r1/r2, at which the footpoint/plumb point of the target
+    # projected onto both lines A + r1*AB and B + r2*BA lies, for details see
     # https://en.wikipedia.org/wiki/Distance_from_a_point_to_a_line#Vector_formulation
-    F1 = A + np.dot(P - A, B - A) * (B - A) / np.dot(B - A, B - A)
-    F2 = B + np.dot(P - B, A - B) * (A - B) / np.dot(A - B, A - B)
-
-    # Find, at which parameter value r1/r2 the plumb point lies on line F1/F2
-    if B[0] - A[0] == 0:
-        r1 = (F1[1] - A[1]) / (B[1] - A[1])
-    else:
-        r1 = (F1[0] - A[0]) / (B[0] - A[0])
-
-    if A[0] - B[0] == 0:
-        r2 = (F2[1] - B[1]) / (A[1] - B[1])
-    else:
-        r2 = (F2[0] - B[0]) / (A[0] - B[0])
+    # Computing them from the coordinates of the footpoint is not stable if one
+    # coordinate of A and B is nearly the same.
+    r1 = np.dot(P - A, B - A) / np.dot(B - A, B - A)
+    r2 = np.dot(P - B, A - B) / np.dot(A - B, A - B)
 
     # If |r1| + |r2| == 1, the plomb point lies between A and B, thus the
     # distance is the seareched one. In cases where the plumb point is A or B
-- 
2.43.0


From 0db43c4ec8e5adb8e5fee305d1ef0af940b9b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:37 +0000
Subject: [PATCH 54/54] fix: histograms with a single bin cannot be resampled

---
 pyirf/binning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index e6b441c..06cfc90 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -291,7 +291,8 @@ def resample_histogram1d(data, old_edges, new_edges, axis=0):
         cumsum,
         bounds_error=False,
         fill_value=(0, np.take(cumsum, -1, axis=axis)),
-        kind="quadratic",
+        # two points (a single bin) only define a line
+        kind="quadratic" if len(old_edges) > 2 else "linear",
         axis=axis,
     )
 
-- 
2.43.0

