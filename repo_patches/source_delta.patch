From f5c2d6d88fc81710fe7a65c497529d88fa1d9db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:14 +0000
Subject: [PATCH 001/117] fix: MVC: treat a pixel missing in any of the three
 maps as missing

A NaN in only one or two of the centroid, moment 0 and line width arrays was
left in place and turned the whole power spectrum into NaN.
---
 turbustat/statistics/mvc/mvc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index d284fef..547d16f 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -79,10 +79,10 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
         self.shape = self.centroid.shape
 
         # Get rid of nans.
-        isnan = np.logical_and(np.isnan(self.centroid),
-                               np.isnan(self.moment0))
-        isnan = np.logical_and(isnan,
-                               np.isnan(self.linewidth))
+        isnan = np.logical_or(np.isnan(self.centroid),
+                              np.isnan(self.moment0))
+        isnan = np.logical_or(isnan,
+                              np.isnan(self.linewidth))
 
         if isnan.any():
             # Need to make copies to avoid making changes to original data
-- 
2.43.0


From f538a4a6f34f5bd36df1984a97eb53942d2353a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:14 +0000
Subject: [PATCH 002/117] fix: VCA: honour channel widths given in a unit other
 than the cube's

The ratio of the widths kept a km/m factor, so 0.2 km/s for 100 m/s channels
silently selected one channel.
---
 turbustat/statistics/vca_vcs/slice_thickness.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/slice_thickness.py b/turbustat/statistics/vca_vcs/slice_thickness.py
index 33c542c..f3413a6 100644
--- a/turbustat/statistics/vca_vcs/slice_thickness.py
+++ b/turbustat/statistics/vca_vcs/slice_thickness.py
@@ -109,7 +109,9 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
             if channel_width.unit.is_equivalent(u.pix):
                 channel_width = int((np.ceil(channel_width.value)))
             elif channel_width.unit.is_equivalent(cube.spectral_axis.unit):
-                channel_width = int((np.ceil(channel_width / orig_width)).value)
+                ratio = (channel_width / orig_width)
+                ratio = ratio.to(u.dimensionless_unscaled).value
+                channel_width = int(np.ceil(ratio))
             else:
                 raise u.UnitsError("channel_width must be given in pixel units"
                                    " or the same spectral unit as the cube.")
-- 
2.43.0


From 9f758734f3e9baaf6572fee6071f65f9569030f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:34 +0000
Subject: [PATCH 003/117] fix: VCS: return the break-less fit when several
 candidate breaks all fail

With two or more break points estimated by the spline and none accepted, the
whole array was handed to the final fit, which raised a ValueError.
---
 turbustat/statistics/vca_vcs/vcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 50edf6f..a5033b2 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -197,6 +197,7 @@ class VCS(BaseStatisticMixIn):
                 if i >= breaks.size:
                     warnings.warn("No good break point found. Returned fit\
                                    does not include a break!")
+                    breaks = breaks[-1]
                     break
 
             # return self
-- 
2.43.0


From 63abf34e0c872b3ba25a3cc4d1acd04f8019801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:22 +0000
Subject: [PATCH 004/117] fix: 2D power-law fit with fixed ellipticity: align
 covariance errors with parameters

---
 turbustat/statistics/elliptical_powerlaw.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index 7b51b77..c96317c 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -181,7 +181,11 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
                      "carefully.")
                 stderrs = np.zeros((4,)) * np.nan
             else:
-                stderrs = np.sqrt(np.abs(np.diag(cov_matrix)))
+                # The covariance only includes the free parameters
+                stderrs = np.zeros((4,))
+                free = [not fit_model.fixed[name]
+                        for name in fit_model.param_names]
+                stderrs[free] = np.sqrt(np.abs(np.diag(cov_matrix)))
 
         params = fit_model.parameters
     else:
-- 
2.43.0


From 1712e337da9b87d000cca3b8afd8b1dd409fa212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:54 +0000
Subject: [PATCH 005/117] fix: Lm_Seg: drop the weights of the non-finite
 points that are dropped

---
 turbustat/statistics/lm_seg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index 0f972d1..da91d25 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -65,6 +65,8 @@ class Lm_Seg(object):
 
         self.y = self.y[good_vals]
         self.x = self.x[good_vals]
+        if self.weights is not None:
+            self.weights = self.weights[good_vals]
 
         if self.x.size <= 3 or self.y.size <= 3:
             raise Warning("Not enough finite points to fit.")
-- 
2.43.0


From fa3772c298dbc91b639cabb101f9948e6884922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:13 +0000
Subject: [PATCH 006/117] fix: DeltaVariance: return the kept convolved arrays
 and weights of the last run

---
 turbustat/statistics/delta_variance/delta_variance.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 989d282..19f5d32 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -178,6 +178,9 @@ class DeltaVariance(BaseStatisticMixIn):
         self._delta_var = np.empty((len(self.lags)))
         self._delta_var_error = np.empty((len(self.lags)))
 
+        self._convolved_arrays = []
+        self._convolved_weights = []
+
         if show_progress:
             bar = ProgressBar(len(self.lags))
 
@@ -267,14 +270,14 @@ class DeltaVariance(BaseStatisticMixIn):
         if len(self._convolved_arrays) == 0:
             warn("Run `DeltaVariance.compute_deltavar` with "
                  "`keep_convolve_arrays=True`")
-        return self._convolve_arrays
+        return self._convolved_arrays
 
     @property
     def convolve_weights(self):
         if len(self._convolved_weights) == 0:
             warn("Run `DeltaVariance.compute_deltavar` with "
                  "`keep_convolve_arrays=True`")
-        return self._convolve_arrays
+        return self._convolved_weights
 
     @property
     def delta_var(self):
-- 
2.43.0


From a8176323f367e282165b82c65dce92b4ddd138fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:13 +0000
Subject: [PATCH 007/117] fix: DeltaVariance: lags set in angular or physical
 units are kept in pixels

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 19f5d32..5201a18 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -116,7 +116,7 @@ class DeltaVariance(BaseStatisticMixIn):
                              " the image size. Remove these lags from the "
                              "array.")
 
-        self._lags = values
+        self._lags = pix_lags
 
     @property
     def weights(self):
-- 
2.43.0


From 75328eaa84632a4953fa2f0c2995dca5ffec15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:13 +0000
Subject: [PATCH 008/117] fix: DeltaVariance_Distance: test dataset2, not
 dataset1, for a computed statistic

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 5201a18..29b3da4 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -723,7 +723,7 @@ class DeltaVariance_Distance(object):
             _given_data1 = True
             dataset1 = copy(input_data(dataset1, no_header=False))
 
-        if isinstance(dataset1, DeltaVariance):
+        if isinstance(dataset2, DeltaVariance):
             _given_data2 = False
             self.delvar2 = dataset2
         else:
-- 
2.43.0


From 7a3a41b63c91d453dcb6a41cb5125736f98d215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:13 +0000
Subject: [PATCH 009/117] fix: DeltaVariance_Distance: accept the documented
 lags2

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 29b3da4..5a9f3d4 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -713,7 +713,7 @@ class DeltaVariance_Distance(object):
 
     def __init__(self, dataset1, dataset2, weights1=None, weights2=None,
                  diam_ratio=1.5, lags=None, use_common_lags=True,
-                 delvar_kwargs={}, delvar2_kwargs=None):
+                 delvar_kwargs={}, delvar2_kwargs=None, lags2=None):
         super(DeltaVariance_Distance, self).__init__()
 
         if isinstance(dataset1, DeltaVariance):
-- 
2.43.0


From 9f63e08ea2a9dc8554496126932710805af4ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:13 +0000
Subject: [PATCH 010/117] fix: DeltaVariance_Distance: re-run given statistics
 at the common lags

---
 turbustat/statistics/delta_variance/delta_variance.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 5a9f3d4..2464564 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -798,7 +798,8 @@ class DeltaVariance_Distance(object):
         else:
             # Check if we need to re-run the statistic if the lags are wrong.
             if lags1 is not None:
-                if not (self.delvar1.lags == lags1).all():
+                if not np.array_equal(self.delvar1.lags, lags1):
+                    self.delvar1.lags = lags1
                     self.delvar1.run(**delvar_kwargs)
 
             if not hasattr(self.delvar1, "_slope"):
@@ -818,7 +819,8 @@ class DeltaVariance_Distance(object):
             self.delvar2.run(**delvar2_kwargs)
         else:
             if lags2 is not None:
-                if not (self.delvar2.lags == lags2).all():
+                if not np.array_equal(self.delvar2.lags, lags2):
+                    self.delvar2.lags = lags2
                     self.delvar2.run(**delvar2_kwargs)
 
             if not hasattr(self.delvar2, "_slope"):
@@ -826,7 +828,7 @@ class DeltaVariance_Distance(object):
                      " slope. Re-running delta variance.")
                 if lags2 is not None:
                     self.delvar2._lags = lags2
-                self.delvar2.run(**delvar_kwargs)
+                self.delvar2.run(**delvar2_kwargs)
 
     @property
     def curve_distance(self):
-- 
2.43.0


From 36d257fbcd9b7aa2dd012adc48ca94b0fe3577fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:14 +0000
Subject: [PATCH 011/117] fix: DeltaVariance: missing data carries no weight
 with user weights

---
 turbustat/statistics/delta_variance/delta_variance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 2464564..24a3bef 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -68,7 +68,11 @@ class DeltaVariance(BaseStatisticMixIn):
             # self.weights = np.ones(self.data.shape)
             self.weights = np.isfinite(self.data).astype(float)
         else:
-            self.weights = input_data(weights, no_header=True)
+            # Missing data carries no weight
+            weights = input_data(weights, no_header=True)
+            missing = np.logical_or(np.isnan(weights), np.isnan(self.data)) \
+                if weights.shape == self.data.shape else False
+            self.weights = np.where(missing, 0., weights)
 
         if distance is not None:
             self.distance = distance
-- 
2.43.0


From 0bd23a0a062437ff1ce441661ddcf8f3f250c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:31 +0000
Subject: [PATCH 012/117] fix: Wavelet: the fitted break is a scale in pixels,
 not an inverse pixel

---
 turbustat/statistics/wavelets/wavelet_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 0057818..305a127 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -321,7 +321,7 @@ class Wavelet(BaseStatisticMixIn):
                     x = x[good_pts]
                     y = y[good_pts]
 
-                    self._brk = 10**model.brk / u.pix
+                    self._brk = 10**model.brk * u.pix
 
                     self._slope = model.slopes
 
@@ -331,12 +331,12 @@ class Wavelet(BaseStatisticMixIn):
 
                         self._slope_err = stderrs[1:-1]
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] / u.pix
+                            stderrs[-1] * u.pix
 
                     else:
                         self._slope_err = model.slope_errs
                         self._brk_err = np.log(10) * self.brk.value * \
-                            model.brk_err / u.pix
+                            model.brk_err * u.pix
 
                     self.fit = model.fit
 
-- 
2.43.0


From 36c758a7ceaf80cf0c66ccc0513e5b7e137d5b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:31 +0000
Subject: [PATCH 013/117] fix: Wavelet_Distance: honour the number of scales

---
 turbustat/statistics/wavelets/wavelet_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 305a127..05e36e8 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -655,7 +655,7 @@ class Wavelet_Distance(object):
                      "fitted slope. Computing Wavelet transform.")
                 needs_run = True
         else:
-            self.wt1 = Wavelet(dataset1, scales=scales)
+            self.wt1 = Wavelet(dataset1, scales=scales, num=num)
             needs_run = True
 
         if needs_run:
@@ -672,7 +672,7 @@ class Wavelet_Distance(object):
                      "fitted slope. Computing Wavelet transform.")
                 needs_run = True
         else:
-            self.wt2 = Wavelet(dataset2, scales=scales)
+            self.wt2 = Wavelet(dataset2, scales=scales, num=num)
             needs_run = True
 
         if needs_run:
-- 
2.43.0


From e2a362c7d95dbcbd91d9130de37622617528c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:58 +0000
Subject: [PATCH 014/117] fix: SCF: compare the boundary option by value, not
 identity

---
 turbustat/statistics/scf/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index fdb0cde..38def2f 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -199,7 +199,7 @@ class SCF(BaseStatisticMixIn):
                     shift_func = fourier_shift
                 tmp = shift_func(tmp, y_shift, axis=2)
 
-            if boundary is "cut":
+            if boundary == "cut":
                 # Always round up to the nearest integer.
                 x_shift = np.ceil(x_shift).astype(int)
                 y_shift = np.ceil(y_shift).astype(int)
@@ -219,7 +219,7 @@ class SCF(BaseStatisticMixIn):
 
                 data_slice = (slice(None), x_slice_data, y_slice_data)
                 tmp_slice = (slice(None), x_slice_tmp, y_slice_tmp)
-            elif boundary is "continuous":
+            elif boundary == "continuous":
                 data_slice = (slice(None),) * 3
                 tmp_slice = (slice(None),) * 3
 
-- 
2.43.0


From a309dd8fa7920c886ae0f106b59365fc1f6651ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:58 +0000
Subject: [PATCH 015/117] fix: SCF_Distance: accept a computed SCF together
 with a cube

---
 turbustat/statistics/scf/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 38def2f..c7d6c30 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -866,7 +866,7 @@ class SCF_Distance(object):
             else:
                 roll_lags1 = roll_lags
 
-            if not _has_data1:
+            if not _has_data2:
                 roll_lags2 = self.scf2._to_pixel(self.scf2.roll_lags)
             else:
                 roll_lags2 = roll_lags
-- 
2.43.0


From 0ebd56f66d74667a56a7e2a8465a367182dc9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:58 +0000
Subject: [PATCH 016/117] fix: SCF_Distance: recompute a given SCF whose number
 of lags differs

---
 turbustat/statistics/scf/scf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index c7d6c30..4783d94 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -897,7 +897,7 @@ class SCF_Distance(object):
             needs_run1 = False
 
             if roll_lags1.size != self.scf1.roll_lags.size:
-                lag_check = True
+                lag_check = False
             else:
                 lag_check = (roll_lags1 == self.scf1._to_pixel(self.scf1.roll_lags)).all()
 
@@ -907,6 +907,7 @@ class SCF_Distance(object):
                      " sets. Recomputing SCF.")
                 needs_run1 = True
                 self.scf1.roll_lags = roll_lags1
+                self.scf1.size = roll_lags1.size
 
             compute_check = hasattr(self.scf1, "_scf_spectrum")
             if not compute_check:
@@ -928,7 +929,7 @@ class SCF_Distance(object):
             needs_run2 = False
 
             if roll_lags2.size != self.scf2.roll_lags.size:
-                lag_check = True
+                lag_check = False
             else:
                 lag_check = (roll_lags2 == self.scf2._to_pixel(self.scf2.roll_lags)).all()
 
@@ -938,6 +939,7 @@ class SCF_Distance(object):
                      " sets. Recomputing SCF.")
                 needs_run2 = True
                 self.scf2.roll_lags = roll_lags2
+                self.scf2.size = roll_lags2.size
 
             compute_check = hasattr(self.scf2, "_scf_spectrum")
             if not compute_check:
@@ -952,8 +954,7 @@ class SCF_Distance(object):
             # params
             self.scf2.compute_spectrum()
 
-        if not needs_run1 and not needs_run2:
-            self.size = self.scf1.size
+        self.size = self.scf1.size
 
     def distance_metric(self, weighted=True, verbose=False,
                         plot_kwargs1={'color': 'b', 'marker': 'D',
-- 
2.43.0


From 789e7b4136f52e7bfe05202621a0249b3a168593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:58 +0000
Subject: [PATCH 017/117] fix: SCF: missing spectra do not count as perfectly
 correlated pairs

---
 turbustat/statistics/scf/scf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 4783d94..d367e26 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -223,11 +223,14 @@ class SCF(BaseStatisticMixIn):
                 data_slice = (slice(None),) * 3
                 tmp_slice = (slice(None),) * 3
 
+            # Only compare channels that are valid in both spectra
+            diff = self.data[data_slice] - tmp[tmp_slice]
+            valid = np.isfinite(diff)
+
             values = \
-                np.nansum(((self.data[data_slice] - tmp[tmp_slice]) ** 2),
-                          axis=0) / \
-                (np.nansum(self.data[data_slice] ** 2, axis=0) +
-                 np.nansum(tmp[tmp_slice] ** 2, axis=0))
+                np.sum(diff ** 2, axis=0, where=valid) / \
+                (np.sum(self.data[data_slice] ** 2, axis=0, where=valid) +
+                 np.sum(tmp[tmp_slice] ** 2, axis=0, where=valid))
 
             scf_value = 1. - \
                 np.sqrt(np.nansum(values) / np.sum(np.isfinite(values)))
-- 
2.43.0


From 4772861cf744d4fd09cddc0c7ede04b002f5f7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:28 +0000
Subject: [PATCH 018/117] fix: PCA.noise_ACF: average the noise components
 without flipping the sign

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 18d5766..0fc20f4 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -332,7 +332,7 @@ class PCA(BaseStatisticMixIn):
 
         acors = self.autocorr_images(n_eigs=n_eigs)
 
-        noise_ACF = np.nansum(acors, axis=0) / float(n_eigs)
+        noise_ACF = np.nansum(acors, axis=0) / float(acors.shape[0])
 
         return noise_ACF
 
-- 
2.43.0


From 886223b269c92ac87aeea4f6c704cd8f7e956e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:39 +0000
Subject: [PATCH 019/117] fix: PCA: eigenimages and autocorrelations keep the
 sky shape, also for one component

---
 turbustat/statistics/pca/pca.py | 34 +++++++++++----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 0fc20f4..44ed59f 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -222,7 +222,8 @@ class PCA(BaseStatisticMixIn):
             # n_eigs of those.
             iterat = self._valid_eigenvectors()[n_eigs:]
 
-        for ct, idx in enumerate(iterat):
+        eigimgs = []
+        for idx in iterat:
             eigimg = np.zeros(self.data.shape[1:], dtype=float)
             for channel in range(self.data.shape[0]):
                 if self._mean_sub:
@@ -234,15 +235,9 @@ class PCA(BaseStatisticMixIn):
                     eigimg += np.nan_to_num(self.data[channel] *
                                             np.real_if_close(
                                                 self.eigvecs[channel, idx]))
-            if ct == 0:
-                eigimgs = eigimg
-            else:
-                eigimgs = np.dstack((eigimgs, eigimg))
+            eigimgs.append(eigimg)
 
-        if eigimgs.ndim == 3:
-            return eigimgs.swapaxes(0, 2)
-        else:
-            return eigimgs
+        return np.array(eigimgs)
 
     def autocorr_images(self, n_eigs=None):
         '''
@@ -267,21 +262,16 @@ class PCA(BaseStatisticMixIn):
         # Calculate the eigenimages
         eigimgs = self.eigimages(n_eigs=n_eigs)
 
-        for idx, image in enumerate(eigimgs):
+        acors = []
+        for image in eigimgs:
             fftx = np.fft.fft2(image)
             fftxs = np.conjugate(fftx)
             acor = np.fft.ifft2((fftx - fftx.mean()) * (fftxs - fftxs.mean()))
             acor = np.fft.fftshift(acor)
 
-            if idx == 0:
-                acors = acor.real
-            else:
-                acors = np.dstack((acors, acor.real))
+            acors.append(acor.real)
 
-        if acors.ndim == 3:
-            return acors.swapaxes(0, 2)
-        else:
-            return acors
+        return np.array(acors)
 
     def autocorr_spec(self, n_eigs=None):
         '''
@@ -302,16 +292,14 @@ class PCA(BaseStatisticMixIn):
         if n_eigs is None:
             n_eigs = self.n_eigs
 
+        acors = []
         for idx in range(n_eigs):
             fftx = np.fft.fft(self.eigvecs[:, idx])
             fftxs = np.conjugate(fftx)
             acor = np.fft.ifft((fftx - fftx.mean()) * (fftxs - fftxs.mean()))
-            if idx == 0:
-                acors = acor.real
-            else:
-                acors = np.dstack((acors, acor.real))
+            acors.append(acor.real)
 
-        return acors.swapaxes(0, 1).squeeze()
+        return np.array(acors).T
 
     def noise_ACF(self, n_eigs=-10):
         '''
-- 
2.43.0


From 52ed868fc595e8843569bb75db17cd149ef8a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:39 +0000
Subject: [PATCH 020/117] fix: PCA.model: evaluate the intercept

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 44ed59f..bd33ebd 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -636,7 +636,7 @@ class PCA(BaseStatisticMixIn):
         '''
         Model with the fit parameters from `~PCA.fit_plaw`
         '''
-        return self.index * x + np.log10(self.intercept)
+        return self.index * x + np.log10(self.intercept().value)
 
     def sonic_length(self, T_k=10 * u.K, mu=1.36, use_gamma=True,
                      unit=u.pix):
-- 
2.43.0


From b1da43148549d8861afeb9c8e5125fc891cb7b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:19 +0000
Subject: [PATCH 021/117] fix: PCA.sonic_length: sampled error range uses the
 sampled slopes

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index bd33ebd..b7c5ed5 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -718,7 +718,7 @@ class PCA(BaseStatisticMixIn):
                 slopes = np.array([brunt_index_correct(slope)
                                    for slope in slopes])
 
-            all_lambds = np.power(c_s / 10 ** intercepts, 1. / index)
+            all_lambds = np.power(c_s.value / 10 ** intercepts, 1. / slopes)
 
             lambd_error_range = np.percentile(all_lambds, percentiles)
 
-- 
2.43.0


From e65c63f295b338612675cfe7d22e24fe823d7a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:19 +0000
Subject: [PATCH 022/117] fix: channel covariance: leave pixels missing in
 either channel out of the pair

---
 turbustat/statistics/threeD_to_twoD.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index 73e614f..8f544f7 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -134,9 +134,6 @@ def var_cov_cube(cube, mean_sub=False, progress_bar=True):
         bar = ProgressBar(n_velchan)
 
     for i, chan in enumerate(_iter_2D(cube)):
-        # Set the nans to tiny values
-        chan[np.isnan(chan)] = np.finfo(chan.dtype).eps
-
         norm_chan = chan
         if mean_sub:
             norm_chan -= np.nanmean(chan)
-- 
2.43.0


From f9e05ec888b326699713599de849e4aa5594c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:35 +0000
Subject: [PATCH 023/117] fix: PCA Gaussian width fit: start away from the
 degenerate equal-width point

---
 turbustat/statistics/pca/width_estimate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index 36c2755..4669415 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -403,8 +403,9 @@ def fit_2D_gaussian(xmat, ymat, z):
     Return fitted model parameters
     '''
 
+    # theta is degenerate for equal widths. Start from unequal ones.
     g = astropy_models.Gaussian2D(x_mean=[0], y_mean=[0], x_stddev=[1],
-                                  y_stddev=[1], amplitude=z.max(),
+                                  y_stddev=[2], amplitude=z.max(),
                                   theta=[0],
                                   fixed={'amplitude': True,
                                          'x_mean': True,
-- 
2.43.0


From 2cb4979e20a9ed4ba2ad8837039b61079590c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:35 +0000
Subject: [PATCH 024/117] fix: PCA xinterpolate widths: scale the minor axis by
 the fitted aspect

---
 turbustat/statistics/pca/width_estimate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index 4669415..9456824 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -139,7 +139,7 @@ def WidthEstimate2D(inList, method='contour', noise_ACF=0,
                 theta = output.theta_0.value
 
             rmat = ((xmat * np.cos(theta) + ymat * np.sin(theta))**2 +
-                    (-xmat * np.sin(theta) + ymat * np.cos(theta))**2 *
+                    (-xmat * np.sin(theta) + ymat * np.cos(theta))**2 /
                     aspect**2)**0.5
             rvec = rmat.ravel()
             zvec = z.ravel()
@@ -151,7 +151,7 @@ def WidthEstimate2D(inList, method='contour', noise_ACF=0,
             spl = LSQUnivariateSpline(zvec, rvec, zvec[dz:-dz:dz])
 
             x_scales[idx] = spl(np.exp(-1)) / np.sqrt(2)
-            y_scales[idx] = spl(np.exp(-1)) / np.sqrt(2)
+            y_scales[idx] = np.abs(aspect) * spl(np.exp(-1)) / np.sqrt(2)
 
             # Need to implement some error estimation
             x_scale_errors[idx] = 0.0
-- 
2.43.0


From 4ae001482082da04d6cd7da16223fa800097a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:35 +0000
Subject: [PATCH 025/117] fix: PCA spectral widths: components without a usable
 local minimum

---
 turbustat/statistics/pca/width_estimate.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index 9456824..e06f7db 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -314,7 +314,14 @@ def WidthEstimate1D(inList, method='walk-down'):
         x = np.fft.fftfreq(len(y)) * len(y)
         if method == 'interpolate':
             minima = argrelmin(y)[0]
-            if minima[0] > 1:
+            if minima.size == 0:
+                # Monotonic up to the largest lag
+                minima = np.array([(y.size - 1) // 2])
+            if minima[0] <= 1:
+                warn("Interpolation failed.")
+                scales[idx] = np.nan
+                scale_errors[idx] = np.nan
+            else:
                 warn("Error estimation not implemented for interpolation!")
                 interpolator = interp1d(y[0:minima[0] + 1], x[0:minima[0] + 1])
                 try:
@@ -328,7 +335,7 @@ def WidthEstimate1D(inList, method='walk-down'):
                                   fixed={'amplitude': True, 'mean': True})
             fit_g = fitting.LevMarLSQFitter()
             minima = argrelmin(y)[0]
-            if minima[0] > 1:
+            if minima.size > 0 and minima[0] > 1:
                 xtrans = np.abs(x)[0:minima[0]]
                 yfit = y[0:minima[0]]
             else:
@@ -352,7 +359,7 @@ def WidthEstimate1D(inList, method='walk-down'):
                 scales[idx] = np.abs(output.stddev.value) * np.sqrt(2)
             scale_errors[idx] = errors[-1] * np.sqrt(2)
         elif method == "walk-down":
-            y /= y.max()
+            y = y / y.max()
             # Starting from the first point, start walking down the curve until
             # 1/e is reached
             for i, val in enumerate(y):
-- 
2.43.0


From 7437facd29223a10a382477cf0380df9a201e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:52 +0000
Subject: [PATCH 026/117] fix: Bispectrum: wavevectors wrap along each axis, so
 unequal axes work

---
 turbustat/statistics/pspec_bispec/bispec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turbustat/statistics/pspec_bispec/bispec.py b/turbustat/statistics/pspec_bispec/bispec.py
index d1072a9..5b02b74 100644
--- a/turbustat/statistics/pspec_bispec/bispec.py
+++ b/turbustat/statistics/pspec_bispec/bispec.py
@@ -147,6 +147,10 @@ class Bispectrum(BaseStatisticMixIn):
                                       k2mag * np.sin(ang2))
                                   for ang1, ang2 in zip(phi1, phi2)])
 
+                # The transform is periodic along each axis
+                k1x, k2x, k3x = [k % self.shape[0] for k in (k1x, k2x, k3x)]
+                k1y, k2y, k3y = [k % self.shape[1] for k in (k1y, k2y, k3y)]
+
                 samps = fftarr[k1x, k1y] * fftarr[k2x, k2y] * conjfft[k3x, k3y]
 
                 self._bispectrum[k1mag, k2mag] = np.sum(samps)
-- 
2.43.0


From e9fcdbbcfd307eee970fec889c13c2d6614d3dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:52 +0000
Subject: [PATCH 027/117] fix: Bispectrum.tracker: count repeated samples

---
 turbustat/statistics/pspec_bispec/bispec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/bispec.py b/turbustat/statistics/pspec_bispec/bispec.py
index 5b02b74..c747124 100644
--- a/turbustat/statistics/pspec_bispec/bispec.py
+++ b/turbustat/statistics/pspec_bispec/bispec.py
@@ -116,7 +116,7 @@ class Bispectrum(BaseStatisticMixIn):
 
         self._bispectrum = np.zeros(bispec_shape, dtype=complex)
         self._bicoherence = np.zeros(bispec_shape, dtype=float)
-        self._tracker = np.zeros(self.shape, dtype=np.int16)
+        self._tracker = np.zeros(self.shape, dtype=int)
 
         biconorm = np.ones_like(self.bispectrum, dtype=float)
 
@@ -158,9 +158,9 @@ class Bispectrum(BaseStatisticMixIn):
                 biconorm[k1mag, k2mag] = np.sum(np.abs(samps))
 
                 # Track where we're sampling from in fourier space
-                self._tracker[k1x, k1y] += 1
-                self._tracker[k2x, k2y] += 1
-                self._tracker[k3x, k3y] += 1
+                np.add.at(self._tracker, (k1x, k1y), 1)
+                np.add.at(self._tracker, (k2x, k2y), 1)
+                np.add.at(self._tracker, (k3x, k3y), 1)
 
                 if show_progress:
                     bar.update(n + 1)
-- 
2.43.0


From 167f3452a94f9ef12ec370c6ca24bbcc38e5b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:24 +0000
Subject: [PATCH 028/117] fix: Bispectrum: zero bicoherence, not NaN, where
 there is no power

---
 turbustat/statistics/pspec_bispec/bispec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/pspec_bispec/bispec.py b/turbustat/statistics/pspec_bispec/bispec.py
index c747124..68cae45 100644
--- a/turbustat/statistics/pspec_bispec/bispec.py
+++ b/turbustat/statistics/pspec_bispec/bispec.py
@@ -165,6 +165,9 @@ class Bispectrum(BaseStatisticMixIn):
                 if show_progress:
                     bar.update(n + 1)
 
+        # No power in any of the samples
+        biconorm[biconorm == 0.] = 1.
+
         self._bicoherence = (np.abs(self.bispectrum) / biconorm)
         self._bispectrum_amp = np.log10(np.abs(self.bispectrum))
 
-- 
2.43.0


From 58ca70f7249918490712f59e55c09668f11e580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:47 +0000
Subject: [PATCH 029/117] fix: Genus_Distance: honour the number of thresholds

---
 turbustat/statistics/genus/genus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index b90d0f5..36ea353 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -553,12 +553,14 @@ class Genus_Distance(object):
         img2 = standardize(img2)
 
         self.genus1 = Genus(img1, smoothing_radii=smoothing_radii,
+                            numpts=numpts,
                             min_value=min_value[0], max_value=max_value[0],
                             lowdens_percent=lowdens_percent[0],
                             highdens_percent=highdens_percent[0])
         self.genus1.run(**genus_kwargs)
 
         self.genus2 = Genus(img2, smoothing_radii=smoothing_radii,
+                            numpts=numpts,
                             min_value=min_value[1], max_value=max_value[1],
                             lowdens_percent=lowdens_percent[1],
                             highdens_percent=highdens_percent[1])
-- 
2.43.0


From c43e2a51581c023f49c40cd70935dfc019063d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:47 +0000
Subject: [PATCH 030/117] fix: Genus table: one table per smoothed image

---
 turbustat/statistics/genus/genus.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 36ea353..cfc5eae 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -378,8 +378,6 @@ class Genus(BaseStatisticMixIn):
 
             tab.add_column(Column(std_vals, name='data_std'))
 
-            genus_tables.append(tab)
-
             if hasattr(radius, 'unit'):
                 radius_vals = ([radius.value] * len(self.thresholds)) * radius.unit
             else:
-- 
2.43.0


From 8e725e066e0af45b1ebcb9cfbfc877806d163419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:47 +0000
Subject: [PATCH 031/117] fix: Genus: beam area from FWHMs is 2 pi FWHM^2 / (8
 ln 2)

---
 turbustat/statistics/genus/genus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index cfc5eae..2621cbc 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -273,7 +273,7 @@ class Genus(BaseStatisticMixIn):
             major = self._to_pixel(major)
             minor = self._to_pixel(minor)
             # the area of a Gaussian beam is 2 pi sigma^2, and major/minor are FWHMs
-            pix_area = 2 * np.pi * major * minor / np.sqrt(8*np.log(2))
+            pix_area = 2 * np.pi * major * minor / (8*np.log(2))
             min_size = int(np.floor(pix_area.value))
         else:
             if isinstance(min_size, u.Quantity):
-- 
2.43.0


From 190aec8e185f6a62e497753bee60b91df93e5b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:47 +0000
Subject: [PATCH 032/117] fix: Genus: matched kernel has the shape of the data

---
 turbustat/statistics/genus/genus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 2621cbc..67c39cc 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -306,8 +306,8 @@ class Genus(BaseStatisticMixIn):
             else:
                 if match_kernel:
                     kernel = Gaussian2DKernel(width,
-                                              x_size=self.data.shape[0],
-                                              y_size=self.data.shape[1])
+                                              x_size=self.data.shape[1],
+                                              y_size=self.data.shape[0])
                 else:
                     kernel = Gaussian2DKernel(width)
 
-- 
2.43.0


From 31e90ffd3a13ff2a365f50c9885dcfbe54953235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:47 +0000
Subject: [PATCH 033/117] fix: Genus: accept smoothing radii as a list or a
 single value

---
 turbustat/statistics/genus/genus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 67c39cc..54428d9 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -187,6 +187,8 @@ class Genus(BaseStatisticMixIn):
         # Allow passing an empty list/array when no smoothing is chosen.
         if self._enable_smoothing:
 
+            values = np.atleast_1d(values)
+
             if np.any(values < 1.0):
                 raise ValueError("All smoothing radii must be larger than one"
                                 " pixel.")
-- 
2.43.0


From c52146714fb4ead486eef5172e779321e57ff32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:47 +0000
Subject: [PATCH 034/117] fix: Genus: require a unit on max_value when the data
 has one

---
 turbustat/statistics/genus/genus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 54428d9..3eeab2a 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -141,7 +141,7 @@ class Genus(BaseStatisticMixIn):
                 if not hasattr(max_value, 'unit') and hasattr(self.data, 'unit'):
                     max_value *= self.data.unit
 
-            if hasattr(max_value, 'unit') and hasattr(self.data, 'unit'):
+            if hasattr(self.data, 'unit'):
                 if not hasattr(max_value, 'unit'):
                     raise TypeError("data has units of {}. 'max_value' must "
                                     "have equivalent units."
-- 
2.43.0


From a2da84379d708c1f2289b9a78940807459cb40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:28 +0000
Subject: [PATCH 035/117] fix: Genus: percentiles override looser value limits,
 as documented

---
 turbustat/statistics/genus/genus.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 3eeab2a..69d3d54 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -131,6 +131,11 @@ class Genus(BaseStatisticMixIn):
 
                 min_value = min_value.to(self.data.unit)
 
+            # The percentile overrides a smaller minimum
+            if lowdens_percent != 0.0:
+                min_value = max(min_value, np.nanpercentile(self.data,
+                                                            lowdens_percent))
+
             if max_value is None:
 
                 if highdens_percent == 100.0:
@@ -152,6 +157,11 @@ class Genus(BaseStatisticMixIn):
 
                 max_value = max_value.to(self.data.unit)
 
+            # The percentile overrides a larger maximum
+            if highdens_percent != 100.0:
+                max_value = min(max_value, np.nanpercentile(self.data,
+                                                            highdens_percent))
+
             self._thresholds = np.linspace(min_value, max_value, numpts)
 
         self._enable_smoothing = enable_smoothing
-- 
2.43.0


From 74678c211c31295d136fdf1e57738f56a01d703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:40 +0000
Subject: [PATCH 036/117] fix: StatMoments.run: pass on the minimum valid
 fraction

---
 turbustat/statistics/stat_moments/highstatmoments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 41e95fd..ecb6c75 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -469,6 +469,7 @@ class StatMoments(BaseStatisticMixIn):
 
         self.array_moments()
         self.compute_spatial_distrib(periodic=periodic, radius=radius,
+                                     min_frac=min_frac,
                                      show_progress=show_progress)
         self.make_spatial_histograms(**hist_kwargs)
 
-- 
2.43.0


From 95dbdf5d459ee52921801b616bc3bb536e562b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:40 +0000
Subject: [PATCH 037/117] fix: StatMoments_Distance: keep the bin count of a
 recomputed statistic

---
 turbustat/statistics/stat_moments/highstatmoments.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index ecb6c75..77f6acb 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -594,7 +594,6 @@ class StatMoments_Distance(object):
                               " or common radius found by "
                               "StatMoments_Distance. Recomputing `moments1`.")
                 self.moments1.radius = radius1
-                self.moments1.nbins = nbins
                 needs_run = True
 
         if needs_run:
-- 
2.43.0


From 227b7cc45db7a1b0fd8d59cc3223911ed2f15109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:40 +0000
Subject: [PATCH 038/117] fix: StatMoments: missing pixels carry no weight in
 the moments

---
 turbustat/statistics/stat_moments/highstatmoments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 77f6acb..b68927b 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -791,6 +791,9 @@ def compute_moments(img, weights):
 
     '''
 
+    # Missing pixels carry no weight
+    weights = np.where(np.isfinite(img), weights, np.nan)
+
     mean = np.nansum(img * weights) / np.nansum(weights)
     variance = np.nansum(weights * (img - mean) ** 2.) / np.nansum(weights)
 
-- 
2.43.0


From 80f79fb2d899fc8119310b680b2586358585d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:40 +0000
Subject: [PATCH 039/117] fix: StatMoments: round the radius down, as
 documented, not up on round-off

---
 turbustat/statistics/stat_moments/highstatmoments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index b68927b..ee73411 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -135,7 +135,8 @@ class StatMoments(BaseStatisticMixIn):
 
         # Convert to pixels. We need this to be an integer so round down to
         # the nearest integer values
-        pix_rad = np.ceil(self._to_pixel(self.radius).value).astype(int)
+        # (allowing for round-off in the unit conversion).
+        pix_rad = int(np.floor(self._to_pixel(self.radius).value + 1e-6))
 
         if periodic:
             pad_img = np.pad(self.data, pix_rad, mode="wrap")
-- 
2.43.0


From eda93b9af8ca25f6cf80ce18ed00bd34cd81bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:24 +0000
Subject: [PATCH 040/117] fix: PDF_Distance: compare the statistic option by
 value, not identity

---
 turbustat/statistics/pdf/compare_pdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index cfd0eaa..4219a57 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -693,17 +693,17 @@ class PDF_Distance(object):
             Save the figure when a file name is given.
         '''
 
-        if statistic is 'all':
+        if statistic == 'all':
             self.compute_hellinger_distance()
             self.compute_ks_distance()
             # self.compute_ad_distance()
             if self._do_fit:
                 self.compute_lognormal_distance()
-        elif statistic is 'hellinger':
+        elif statistic == 'hellinger':
             self.compute_hellinger_distance()
-        elif statistic is 'ks':
+        elif statistic == 'ks':
             self.compute_ks_distance()
-        elif statistic is 'lognormal':
+        elif statistic == 'lognormal':
             if not self._do_fit:
                 raise Exception("Fitting must be enabled to compute the"
                                 " lognormal distance.")
-- 
2.43.0


From be6357b92bfc162c7e2564ba4e44220c879daedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:24 +0000
Subject: [PATCH 041/117] fix: PDF: a second make_pdf does not use the bin
 centres as edges

---
 turbustat/statistics/pdf/compare_pdf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 4219a57..a2101dd 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -75,6 +75,7 @@ class PDF(BaseStatisticMixIn):
             self._normalization_type = "None"
 
         self._bins = bins
+        self._input_bins = bins
 
         self._pdf = None
         self._ecdf = None
@@ -92,16 +93,17 @@ class PDF(BaseStatisticMixIn):
         '''
 
         if bins is not None:
-            self._bins = bins
+            self._input_bins = bins
+
+        bins = self._input_bins
 
         # If the number of bins is not given, use sqrt of data length.
-        if self.bins is None:
-            self._bins = np.sqrt(self.data.shape[0])
-            self._bins = int(np.round(self.bins))
+        if bins is None:
+            bins = int(np.round(np.sqrt(self.data.shape[0])))
 
         # norm_weights = np.ones_like(self.data) / self.data.shape[0]
 
-        self._pdf, bin_edges = np.histogram(self.data, bins=self.bins,
+        self._pdf, bin_edges = np.histogram(self.data, bins=bins,
                                             density=True)
                                             # weights=norm_weights)
 
-- 
2.43.0


From f99c26d9c2671ed40239e273cb7642a5f9876b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:24 +0000
Subject: [PATCH 042/117] fix: PDF.fit_pdf: allow both loc and scale to be
 fixed

---
 turbustat/statistics/pdf/compare_pdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index a2101dd..33e0fd3 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -242,6 +242,10 @@ class PDF(BaseStatisticMixIn):
                     scale = params[-1]
                     loc = self._loc
                     cut = -1
+                else:
+                    loc = self._loc
+                    scale = self._scale
+                    cut = None
 
                 loglikes = \
                     model.logpdf(self.endog, *params[:cut],
@@ -278,7 +282,7 @@ class PDF(BaseStatisticMixIn):
 
         # Do an initial fit with the scipy model
         if floc and fscale:
-            init_params = model.fit(self.data)
+            init_params = model.fit(self.data, floc=loc, fscale=scale)[:-2]
         elif floc:
             init_params = model.fit(self.data, floc=loc)
             # Remove loc from the params
-- 
2.43.0


From c20b5b9679c593e69e49e8acc3f64a69b730a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:34 +0000
Subject: [PATCH 043/117] fix: Tsallis: lags in angular or physical units do
 not lose a pixel to round-off

---
 turbustat/statistics/tsallis/tsallis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/tsallis/tsallis.py b/turbustat/statistics/tsallis/tsallis.py
index 2ec342c..d1dd7e0 100644
--- a/turbustat/statistics/tsallis/tsallis.py
+++ b/turbustat/statistics/tsallis/tsallis.py
@@ -67,7 +67,7 @@ class Tsallis(BaseStatisticMixIn):
             raise e
 
         # The radius should be larger than a pixel
-        if np.any(pix_rad.value < 1):
+        if np.any(pix_rad.value < 1 - 1e-6):
             raise ValueError("One of the chosen lags is smaller than one "
                              "pixel."
                              " Ensure that all lag values are larger than one "
@@ -110,8 +110,10 @@ class Tsallis(BaseStatisticMixIn):
                                      self.data.shape[1]))
         self._lag_distribs = np.empty((len(self.lags), 2, num_bins))
 
-        # Convert the lags into pixels
-        pix_lags = np.floor(self._to_pixel(self.lags).value).astype(int)
+        # Convert the lags into pixels (allowing for round-off in the unit
+        # conversion)
+        pix_lags = \
+            np.floor(self._to_pixel(self.lags).value + 1e-6).astype(int)
 
         for i, lag in enumerate(pix_lags):
             if periodic:
-- 
2.43.0


From 3d99732581ac4429ebac6d7c8a0b5cb46f6eb8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:32 +0000
Subject: [PATCH 044/117] fix: Cramer: compare the data format by value, not
 identity

---
 turbustat/statistics/threeD_to_twoD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index 8f544f7..c008368 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -69,7 +69,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
     Rearrange data into a 2D object using the given format.
     '''
 
-    if data_format is "spectra":
+    if data_format == "spectra":
         if num_spec is None:
             raise ValueError('Must specify num_spec for data format',
                              'spectra.')
@@ -89,7 +89,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
 
         data_matrix = cube[:, x, y]
 
-    elif data_format is "intensity":
+    elif data_format == "intensity":
         data_matrix = intensity_data(cube, noise_lim=noise_lim,
                                      p=p)
 
-- 
2.43.0


From e4357ac317ad68b4ba3e11ea5b3d7b6b0bb38cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:32 +0000
Subject: [PATCH 045/117] fix: Cramer: pick the brightest spectra of non-square
 cubes

---
 turbustat/statistics/threeD_to_twoD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index c008368..8e0f82f 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -84,7 +84,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
         y = np.empty((num_spec,), dtype=int)
 
         for i in range(num_spec):
-            x[i] = int(bright_spectra[i] / cube.shape[1])
+            x[i] = int(bright_spectra[i] // cube.shape[2])
             y[i] = int(bright_spectra[i] % cube.shape[2])
 
         data_matrix = cube[:, x, y]
-- 
2.43.0


From 723af6dfc323fe5de3baa672640dc95487a5c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:32 +0000
Subject: [PATCH 046/117] fix: Cramer_Distance: leave the global random state
 alone

---
 turbustat/statistics/cramer/cramer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/cramer/cramer.py b/turbustat/statistics/cramer/cramer.py
index 1bc1d59..aade6b7 100644
--- a/turbustat/statistics/cramer/cramer.py
+++ b/turbustat/statistics/cramer/cramer.py
@@ -95,7 +95,7 @@ class Cramer_Distance(object):
         if samps1 != samps2:
 
             # Set the seed due to the sampling
-            np.random.seed(seed)
+            rng = np.random.RandomState(seed)
 
             if samps1 < samps2:
 
@@ -103,8 +103,8 @@ class Cramer_Distance(object):
 
                 for i in range(self.data_matrix2.shape[0]):
                     new_data[i, :] = \
-                        np.random.choice(self.data_matrix2[i, :], samps1,
-                                         replace=False)
+                        rng.choice(self.data_matrix2[i, :], samps1,
+                                   replace=False)
 
                 self._data_matrix2 = new_data
 
@@ -114,8 +114,8 @@ class Cramer_Distance(object):
 
                 for i in range(self.data_matrix1.shape[0]):
                     new_data[i, :] = \
-                        np.random.choice(self.data_matrix1[i, :], samps2,
-                                         replace=False)
+                        rng.choice(self.data_matrix1[i, :], samps2,
+                                   replace=False)
 
                 self._data_matrix1 = new_data
 
-- 
2.43.0


From 338b985f9ad2f9d4f2e7648cd58f87350e2db728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:20 +0000
Subject: [PATCH 047/117] fix: Moments.make_moments(units=False): strip the
 unit of the line width

---
 turbustat/moments/make_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index 0b3ce45..dd96831 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -136,7 +136,7 @@ class Moments(object):
         if not units:
             self._moment0 = self._moment0.value
             self._moment1 = self._moment1.value
-            self._moment2 = self._moment2.value
+            self._linewidth = self._linewidth.value
 
     def make_moment_errors(self, axis=0, scale=None):
         '''
-- 
2.43.0


From 56d668e84618565f80deb1d7ac45cfa1fe704909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:20 +0000
Subject: [PATCH 048/117] fix: Moments.make_moment_errors: use the given scale

---
 turbustat/moments/make_moments.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index dd96831..9d0c5bc 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -151,7 +151,10 @@ class Moments(object):
         if not hasattr(self, "_moment0"):
             raise ValueError("Run Moments.make_moments first.")
 
-        if self.scale is None and scale is None:
+        if scale is None:
+            scale = self.scale
+
+        if scale is None:
             warn("scale not set to the rms noise and will not be used in "
                  "error calculations.")
             scale = 0.0 * self.cube.unit
@@ -160,9 +163,7 @@ class Moments(object):
             self._moment1_err = np.zeros_like(self.moment1)
             self._linewidth_err = np.zeros_like(self.linewidth)
 
-        elif self.scale is not None:
-            scale = self.scale
-
+        else:
             self._moment0_err = moment0_error(self.cube, scale,
                                               how=self.moment_how, axis=axis)
             self._moment1_err = moment1_error(self.cube, scale,
-- 
2.43.0


From 64ac135854f40a5bef038673283aff43ef87b925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:20 +0000
Subject: [PATCH 049/117] fix: Moments.from_fits: apply the saved mask

---
 turbustat/moments/make_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index 9d0c5bc..28f6c2b 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -395,7 +395,7 @@ class Moments(object):
 
         if mask_name is not None:
             mask = fits.getdata(mask_name)
-            self.with_mask(mask=mask)
+            self.apply_mask(mask.astype(bool))
 
         # Moment 0
         if moment0 is not None:
-- 
2.43.0


From 14da7cf5a2a1a3d557e1803389d7b47fe8f5d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:20 +0000
Subject: [PATCH 050/117] fix: Moments: the zeroth moment has the unit of an
 integral

---
 turbustat/moments/make_moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index 28f6c2b..e65ff64 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -273,7 +273,8 @@ class Moments(object):
         Generate headers for the moments.
         '''
 
-        bunits = [self.cube.unit, self.cube.spectral_axis.unit,
+        bunits = [self.cube.unit * self.cube.spectral_axis.unit,
+                  self.cube.spectral_axis.unit,
                   self.cube.spectral_axis.unit,
                   self.cube.unit * self.cube.spectral_axis.unit]
 
-- 
2.43.0


From 29f9a3ca5d68cd78965079565d601477b59abc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:20 +0000
Subject: [PATCH 051/117] fix: moment errors: the documented 'ray' method falls
 back to 'slice'

---
 turbustat/moments/_moment_errs.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/turbustat/moments/_moment_errs.py b/turbustat/moments/_moment_errs.py
index 93340f2..6aeea5a 100644
--- a/turbustat/moments/_moment_errs.py
+++ b/turbustat/moments/_moment_errs.py
@@ -52,10 +52,9 @@ def moment0_error(cube, scale, axis=0, how='auto'):
     if how == "auto":
         how = iterator_strategy(cube, 0)
 
-        if how == "ray":
-            warn("Automatically selected 'ray' which isn't implemented. Using"
-                 " 'slice' instead.")
-            how = 'slice'
+    if how == "ray":
+        warn("'ray' isn't implemented for the errors. Using 'slice' instead.")
+        how = 'slice'
 
     if how == "cube":
         moment0_err = _cube0(cube, axis, scale)
@@ -105,10 +104,9 @@ def moment1_error(cube, scale, axis=0, how='auto', moment0=None, moment1=None):
     if how == "auto":
         how = iterator_strategy(cube, 0)
 
-        if how == "ray":
-            warn("Automatically selected 'ray' which isn't implemented. Using"
-                 " 'slice' instead.")
-            how = 'slice'
+    if how == "ray":
+        warn("'ray' isn't implemented for the errors. Using 'slice' instead.")
+        how = 'slice'
 
     # Compute moments if they aren't given.
     if moment0 is None:
@@ -167,10 +165,9 @@ def moment2_error(cube, scale, axis=0, how='auto', moment0=None, moment1=None,
     if how == "auto":
         how = iterator_strategy(cube, 0)
 
-        if how == "ray":
-            warn("Automatically selected 'ray' which isn't implemented. Using"
-                 " 'slice' instead.")
-            how = 'slice'
+    if how == "ray":
+        warn("'ray' isn't implemented for the errors. Using 'slice' instead.")
+        how = 'slice'
 
     # Compute moments if they aren't given.
     if moment0 is None:
-- 
2.43.0


From e2deefa23ee7cbc8b56a457321abadae4d95040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:20 +0000
Subject: [PATCH 052/117] fix: zeroth moment error: missing where nothing was
 summed, for both methods

---
 turbustat/moments/_moment_errs.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/turbustat/moments/_moment_errs.py b/turbustat/moments/_moment_errs.py
index 6aeea5a..bbf4aa7 100644
--- a/turbustat/moments/_moment_errs.py
+++ b/turbustat/moments/_moment_errs.py
@@ -396,10 +396,13 @@ def _cube0(cube, axis, scale):
     else:
         noise_plane = scale
 
+    include = cube._mask.include(data=cube._data, wcs=cube._wcs)
+
     error_arr = \
-        np.sqrt(
-            np.sum(cube._mask.include(data=cube._data, wcs=cube._wcs) *
-                   noise_plane**2, axis=axis)) * cube._pix_size_slice(axis)
+        np.sqrt(np.sum(include * noise_plane**2, axis=axis)) * \
+        cube._pix_size_slice(axis)
+
+    error_arr[~include.any(axis=axis)] = np.nan
 
     return error_arr
 
-- 
2.43.0


From 3f2476d67edc2740a0b05753377aecf84e1b97b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:20 +0000
Subject: [PATCH 053/117] fix: centroid and line width errors: masked channels
 add no noise

---
 turbustat/moments/_moment_errs.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/turbustat/moments/_moment_errs.py b/turbustat/moments/_moment_errs.py
index bbf4aa7..962ba10 100644
--- a/turbustat/moments/_moment_errs.py
+++ b/turbustat/moments/_moment_errs.py
@@ -311,7 +311,10 @@ def _slice1(cube, axis, scale, moment0, moment1):
         else:
             noise_plane = scale
 
-        result += np.power((term1 - term2) * noise_plane, 2)
+        include = cube._mask.include(data=cube._data, wcs=cube._wcs,
+                                     view=tuple(view))
+
+        result += include * np.power((term1 - term2) * noise_plane, 2)
 
     return np.sqrt(result)
 
@@ -373,7 +376,10 @@ def _slice2(cube, axis, scale, moment0, moment1, moment2,
         else:
             noise_plane = scale
 
-        term1 += np.power((term11 - term12) * noise_plane, 2)
+        include = cube._mask.include(data=cube._data, wcs=cube._wcs,
+                                     view=tuple(view))
+
+        term1 += include * np.power((term11 - term12) * noise_plane, 2)
 
         term2 += np.nan_to_num(plane) * (pix_cen[tuple(view)] - moment1)
 
@@ -438,7 +444,10 @@ def _cube1(cube, axis, scale, moment0, moment1):
     term1 = pix_cen / axis_sum
     term2 = moment1 / axis_sum
 
-    result = np.sqrt(np.sum(np.power((term1 - term2) *
+    include = cube._mask.include(data=cube._data, wcs=cube._wcs)
+
+    result = np.sqrt(np.sum(include *
+                            np.power((term1 - term2) *
                                      np.nan_to_num(noise_plane), 2),
                             axis=axis))
 
@@ -476,7 +485,10 @@ def _cube2(cube, axis, scale, moment0, moment1, moment2,
     term11 = np.power((pix_cen - moment1), 2) / axis_sum
     term12 = moment2 / axis_sum
 
-    term1 = np.sum(np.power((term11 - term12) * noise_plane, 2), axis=axis)
+    include = cube._mask.include(data=cube._data, wcs=cube._wcs)
+
+    term1 = np.sum(include * np.power((term11 - term12) * noise_plane, 2),
+                   axis=axis)
 
     term21 = u.Quantity(np.nan_to_num(plane) * (pix_cen - moment1))
 
-- 
2.43.0


From ee0d6272a587c8ad959e02bc1ce772c3045c1f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:14 +0000
Subject: [PATCH 054/117] fix: simulated fields of odd size have the requested
 shape

---
 turbustat/simulator/gen_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/simulator/gen_field.py b/turbustat/simulator/gen_field.py
index a4a1d0f..42266d9 100644
--- a/turbustat/simulator/gen_field.py
+++ b/turbustat/simulator/gen_field.py
@@ -122,7 +122,7 @@ def make_3dfield(imsize, powerlaw=2.0, amp=1.0,
     output[0, 0, 0] = output[0, 0, 0].real + 1j * 0.0
     output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
 
-    newmap = np.fft.irfftn(output)
+    newmap = np.fft.irfftn(output, s=(imsize,) * 3)
 
     # Normalize to the correct amplitude.
     newmap /= (np.sqrt(np.sum(newmap**2)) / np.sqrt(newmap.size)) / amp
@@ -252,6 +252,6 @@ def make_extended(imsize, powerlaw=2.0, theta=0., ellip=1.,
 
         return np.fft.fftshift(full_powermap)
 
-    newmap = np.fft.irfft2(output)
+    newmap = np.fft.irfft2(output, s=(imsize, imsize))
 
     return newmap
-- 
2.43.0


From 77b2db565f7a3f8ae93d9b88a021b306f94b7d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:14 +0000
Subject: [PATCH 055/117] fix: simulated fields of odd size: no symmetry to
 impose at the highest frequency

---
 turbustat/simulator/gen_field.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/turbustat/simulator/gen_field.py b/turbustat/simulator/gen_field.py
index 42266d9..b2890a4 100644
--- a/turbustat/simulator/gen_field.py
+++ b/turbustat/simulator/gen_field.py
@@ -97,30 +97,22 @@ def make_3dfield(imsize, powerlaw=2.0, amp=1.0,
 
     else:
 
+        # There is no Nyquist frequency
         output[1:Np1 + 1, 1:Np1 + 1, 0] = \
             np.conj(output[imsize:Np1:-1, imsize:Np1:-1, 0])
-        output[1:Np1 + 1, 1:Np1 + 1, -1] = \
-            np.conj(output[imsize:Np1:-1, imsize:Np1:-1, -1])
 
         # And the conjugates off the diagonal must also equal:
         output[1:Np1 + 1, imsize:Np1:-1, 0] = \
             np.conj(output[imsize:Np1:-1, 1:Np1 + 1, 0])
-        output[1:Np1 + 1, imsize:Np1:-1, -1] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, -1])
-        output[1:Np1 + 1, imsize:Np1:-1, 0] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, 0])
-        output[1:Np1 + 1, imsize:Np1:-1, -1] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, -1])
 
         # The 2D equivalents along the 0 frequency
         output[1:Np1 + 1, 0, 0] = np.conj(output[imsize:Np1:-1, 0, 0])
-        output[1:Np1 + 1, 0, -1] = np.conj(output[imsize:Np1:-1, 0, -1])
         output[0, 1:Np1 + 1, 0] = np.conj(output[0, imsize:Np1:-1, 0])
-        output[0, 1:Np1 + 1, -1] = np.conj(output[0, imsize:Np1:-1, -1])
 
     # Zero freq components must have no imaginary part to be own conjugate
     output[0, 0, 0] = output[0, 0, 0].real + 1j * 0.0
-    output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
+    if imsize % 2 == 0:
+        output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
 
     newmap = np.fft.irfftn(output, s=(imsize,) * 3)
 
@@ -224,11 +216,12 @@ def make_extended(imsize, powerlaw=2.0, theta=0., ellip=1.,
         output[Np1, -1] = output[Np1, -1].real + 1j * 0.0
 
     else:
+        # There is no Nyquist frequency
         output[1:Np1 + 1, 0] = np.conj(output[imsize:Np1:-1, 0])
-        output[1:Np1 + 1, -1] = np.conj(output[imsize:Np1:-1, -1])
 
     # Zero freq components must have no imaginary part to be own conjugate
-    output[0, -1] = output[0, -1].real + 1j * 0.0
+    if imsize % 2 == 0:
+        output[0, -1] = output[0, -1].real + 1j * 0.0
     output[0, 0] = output[0, 0].real + 1j * 0.0
 
     if return_fft:
-- 
2.43.0


From 8d453870cae1317b7c0c2ab090e0604ceb133012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:38 +0000
Subject: [PATCH 056/117] fix: synthetic spectra: do not lose gas that lies on
 a channel edge

---
 turbustat/simulator/spectrum.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/turbustat/simulator/spectrum.pyx b/turbustat/simulator/spectrum.pyx
index 4de3b18..a34bef4 100644
--- a/turbustat/simulator/spectrum.pyx
+++ b/turbustat/simulator/spectrum.pyx
@@ -47,7 +47,10 @@ def generate_spectrum(np.ndarray[np.float64_t, ndim=1] vel,
     for i, (vel_l, vel_h) in enumerate(zip(vel_edges[:-1], vel_edges[1:])):
 
         # Find locations of all contributions at this velocity
-        contribs = (vel > vel_l) & (vel < vel_h)
+        # Each channel includes its lower edge, and the last one its upper edge
+        contribs = (vel >= vel_l) & (vel < vel_h)
+        if i == spectrum.shape[0] - 1:
+            contribs = (vel >= vel_l) & (vel <= vel_h)
 
         if not contribs.any():
             continue
-- 
2.43.0


From 9733c337fae541da8dc6b7251b72ad67a00ea9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:38 +0000
Subject: [PATCH 057/117] fix: make_ppv: velocity limits and channel width in
 units other than the field's

---
 turbustat/simulator/make_cube.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/turbustat/simulator/make_cube.py b/turbustat/simulator/make_cube.py
index 8b61321..22452ec 100644
--- a/turbustat/simulator/make_cube.py
+++ b/turbustat/simulator/make_cube.py
@@ -124,6 +124,9 @@ def make_ppv(vel_field, dens_field, los_axis=0,
     if v_min > v_max:
         raise ValueError("v_min > v_max is not allowed.")
 
+    v_min = v_min.to(vel_field.unit)
+    v_max = v_max.to(vel_field.unit)
+
     del_v = v_max - v_min
 
     # m=1 assumption.
@@ -147,7 +150,7 @@ def make_ppv(vel_field, dens_field, los_axis=0,
         N_chan = int(np.ceil(del_v / (v_eff / 2.)).value)
 
     else:
-        N_chan = int(np.ceil(del_v / chan_width))
+        N_chan = int(np.ceil((del_v / chan_width).to(u.one).value))
 
     if verbose:
         print("Number of spectral channels {}".format(N_chan))
-- 
2.43.0


From 18f5a54a5b77f3615a253df71951b2061fac641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:38 +0000
Subject: [PATCH 058/117] fix: make_ppv: reject fields of different shapes,
 which read out of bounds

---
 turbustat/simulator/make_cube.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/turbustat/simulator/make_cube.py b/turbustat/simulator/make_cube.py
index 22452ec..93185f6 100644
--- a/turbustat/simulator/make_cube.py
+++ b/turbustat/simulator/make_cube.py
@@ -97,6 +97,11 @@ def make_ppv(vel_field, dens_field, los_axis=0,
     if (dens_field.value < 0.).any():
         raise ValueError("The density field contains negative values.")
 
+    # The spectra are made without bounds checks
+    if vel_field.shape != dens_field.shape:
+        raise ValueError("The velocity and density fields must have the same"
+                         " shape.")
+
     v_therm_sq = (co.k_B * T / m).to(vel_field.unit**2)
 
     # Estimate the velocity dispersion when not given.
-- 
2.43.0


From 25ae8ca01b1bb1bc41d478b28c6a6da0a4ecbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:35 +0000
Subject: [PATCH 059/117] fix: simulated headers: reference pixel at the centre
 of non-square data

---
 turbustat/io/sim_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/io/sim_tools.py b/turbustat/io/sim_tools.py
index 51cb56a..f6bc7ce 100644
--- a/turbustat/io/sim_tools.py
+++ b/turbustat/io/sim_tools.py
@@ -66,8 +66,8 @@ def create_cube_header(pixel_scale, spec_pixel_scale, beamfwhm, imshape,
               'BMAJ': beamfwhm.to(u.deg).value,
               'BMIN': beamfwhm.to(u.deg).value,
               'BPA': 0.0,
-              'CRPIX1': imshape[1] / 2.,
-              'CRPIX2': imshape[2] / 2.,
+              'CRPIX1': imshape[2] / 2.,
+              'CRPIX2': imshape[1] / 2.,
               'CRVAL1': 0.0,
               'CRVAL2': 0.0,
               'CTYPE1': 'GLON-CAR',
@@ -117,8 +117,8 @@ def create_image_header(pixel_scale, beamfwhm, imshape,
               'BMAJ': beamfwhm.to(u.deg).value,
               'BMIN': beamfwhm.to(u.deg).value,
               'BPA': 0.0,
-              'CRPIX1': imshape[0] / 2.,
-              'CRPIX2': imshape[1] / 2.,
+              'CRPIX1': imshape[1] / 2.,
+              'CRPIX2': imshape[0] / 2.,
               'CRVAL1': 0.0,
               'CRVAL2': 0.0,
               'CTYPE1': 'GLON-CAR',
-- 
2.43.0


From a54154e2bd9c8c3a3eadb316c6210779f3a25845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:21 +0000
Subject: [PATCH 060/117] fix: Dendrogram_Stats: accept min_deltas as a list or
 a single value

---
 turbustat/statistics/dendrograms/dendro_stats.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 784e79e..a3b5a43 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -96,15 +96,14 @@ class Dendrogram_Stats(BaseStatisticMixIn):
         if "min_delta" in self.dendro_params and value is None:
             self._min_deltas = np.array([self.dendro_params["min_delta"]])
         else:
+            value = np.atleast_1d(value)
+
             # Multiple values given. Ensure they are in increasing order
             if not (np.diff(value) > 0).all():
                 raise ValueError("Multiple values of min_delta must be given "
                                  "in increasing order.")
 
-            if not isinstance(value, np.ndarray):
-                self._min_deltas = np.array([value])
-            else:
-                self._min_deltas = value
+            self._min_deltas = value
 
     def autoset_min_deltas(self, num=10):
         '''
-- 
2.43.0


From 0edeafef414a6618facf68698835a839085f54b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:21 +0000
Subject: [PATCH 061/117] fix: Dendrogram_Stats.make_hists: use the given bins
 at every height

---
 turbustat/statistics/dendrograms/dendro_stats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index a3b5a43..64713dd 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -221,17 +221,18 @@ class Dendrogram_Stats(BaseStatisticMixIn):
 
         hists = []
 
+        user_bins = kwargs.pop('bins', None)
+
         for value in self.values:
 
             if len(value) < min_number:
                 hists.append([np.zeros((0, ))] * 2)
                 continue
 
-            if 'bins' not in kwargs:
+            if user_bins is None:
                 bins = int(np.sqrt(len(value)))
             else:
-                bins = kwargs['bins']
-                kwargs.pop('bins')
+                bins = user_bins
 
             hist, bins = np.histogram(value, bins=bins, **kwargs)
             bin_cents = (bins[:-1] + bins[1:]) / 2
-- 
2.43.0


From 719ebc94c74143e22991d6bb91abbee50b6567bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:21 +0000
Subject: [PATCH 062/117] fix: Dendrogram_Distance: re-run given statistics at
 the common heights

---
 turbustat/statistics/dendrograms/dendro_stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 64713dd..771ddf5 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -547,11 +547,12 @@ class Dendrogram_Distance(object):
             self.dendro1 = dataset1
             # Check if we need to re-run the stat
             has_slope = hasattr(self.dendro1, "_tail_slope")
-            match_deltas = (self.dendro1.min_deltas == min_deltas).all()
+            match_deltas = np.array_equal(self.dendro1.min_deltas, min_deltas)
             if not has_slope or not match_deltas:
                 warn("Dendrogram_Stats needs to be re-run for dataset1 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
+                self.dendro1.min_deltas = min_deltas
                 dendro_kwargs.pop('make_hists', None)
                 dendro_kwargs.pop('verbose', None)
                 self.dendro1.run(verbose=False, make_hists=False,
@@ -570,11 +571,12 @@ class Dendrogram_Distance(object):
             self.dendro2 = dataset2
             # Check if we need to re-run the stat
             has_slope = hasattr(self.dendro2, "_tail_slope")
-            match_deltas = (self.dendro2.min_deltas == min_deltas).all()
+            match_deltas = np.array_equal(self.dendro2.min_deltas, min_deltas)
             if not has_slope or not match_deltas:
                 warn("Dendrogram_Stats needs to be re-run for dataset2 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
+                self.dendro2.min_deltas = min_deltas
                 dendro_kwargs.pop('make_hists', None)
                 dendro_kwargs.pop('verbose', None)
                 self.dendro2.run(verbose=False, make_hists=False,
-- 
2.43.0


From df5725723f478482cfb7866f7b7c14c65906bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:21 +0000
Subject: [PATCH 063/117] fix: Dendrogram_Distance: do not remove entries from
 the given dictionaries

---
 turbustat/statistics/dendrograms/dendro_stats.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 771ddf5..63d215a 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -539,6 +539,10 @@ class Dendrogram_Distance(object):
         if dendro2_kwargs is None:
             dendro2_kwargs = dendro_kwargs
 
+        # Leave the given dictionaries as they are
+        dendro_kwargs = dict(dendro_kwargs)
+        dendro2_kwargs = dict(dendro2_kwargs)
+
         # if fiducial_model is not None:
         #     self.dendro1 = fiducial_model
         # elif isinstance(dataset1, str):
@@ -577,16 +581,16 @@ class Dendrogram_Distance(object):
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
                 self.dendro2.min_deltas = min_deltas
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
+                dendro2_kwargs.pop('make_hists', None)
+                dendro2_kwargs.pop('verbose', None)
                 self.dendro2.run(verbose=False, make_hists=False,
                                  **dendro2_kwargs)
         else:
             self.dendro2 = \
                 Dendrogram_Stats(dataset2, min_deltas=min_deltas,
                                  dendro_params=dendro_params2)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
+            dendro2_kwargs.pop('make_hists', None)
+            dendro2_kwargs.pop('verbose', None)
             self.dendro2.run(verbose=False, make_hists=False,
                              **dendro2_kwargs)
 
-- 
2.43.0


From 13492bb7efcfa157fa5baa7bd0a2f2b93ab22331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:21 +0000
Subject: [PATCH 064/117] fix: Dendrogram_Distance: the histogram distance can
 be computed again

---
 .../statistics/dendrograms/dendro_stats.py    | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 63d215a..e72c8a9 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -722,27 +722,27 @@ class Dendrogram_Distance(object):
         '''
 
         if self.nbins == "best":
-            self.nbins = [np.floor(np.sqrt((n1 + n2) / 2.)) for n1, n2 in
-                          zip(self.dendro1.numfeatures[:self.cutoff],
-                              self.dendro2.numfeatures[:self.cutoff])]
+            nbins = [np.floor(np.sqrt((n1 + n2) / 2.)) for n1, n2 in
+                     zip(self.dendro1.numfeatures[:self.cutoff],
+                         self.dendro2.numfeatures[:self.cutoff])]
         else:
-            self.nbins = [self.nbins] * \
+            nbins = [self.nbins] * \
                 len(self.dendro1.numfeatures[:self.cutoff])
 
-        self.nbins = np.array(self.nbins, dtype=int)
+        nbins = np.array(nbins, dtype=int)
 
         self.histograms1 = \
             np.empty((len(self.dendro1.numfeatures[:self.cutoff]),
-                      np.max(self.nbins)))
+                      np.max(nbins)))
         self.histograms2 = \
             np.empty((len(self.dendro2.numfeatures[:self.cutoff]),
-                      np.max(self.nbins)))
+                      np.max(nbins)))
 
         self.bins = []
 
         for n, (data1, data2, nbin) in enumerate(
                 zip(self.dendro1.values[:self.cutoff],
-                    self.dendro2.values[:self.cutoff], self.nbins)):
+                    self.dendro2.values[:self.cutoff], nbins)):
 
             stand_data1 = standardize(data1)
             stand_data2 = standardize(data2)
@@ -755,13 +755,13 @@ class Dendrogram_Distance(object):
             hist1 = np.histogram(stand_data1, bins=bins,
                                  density=True)[0]
             self.histograms1[n, :] = \
-                np.append(hist1, (np.max(self.nbins) -
+                np.append(hist1, (np.max(nbins) -
                                   bins.size + 1) * [np.nan])
 
             hist2 = np.histogram(stand_data2, bins=bins,
                                  density=True)[0]
             self.histograms2[n, :] = \
-                np.append(hist2, (np.max(self.nbins) -
+                np.append(hist2, (np.max(nbins) -
                                   bins.size + 1) * [np.nan])
 
             # Normalize
@@ -800,7 +800,7 @@ class Dendrogram_Distance(object):
             ax1.set_ylabel("ECDF")
             for n in range(len(self.dendro1.min_deltas[:self.cutoff])):
                 ax1.plot((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                         self.mecdf1[n, :][:self.nbins[n]],
+                         self.mecdf1[n, :][:nbins[n]],
                          plot_kwargs1['symbol'],
                          color=plot_kwargs1['color'])
             ax1.axes.xaxis.set_ticklabels([])
@@ -810,7 +810,7 @@ class Dendrogram_Distance(object):
             ax2.axes.yaxis.set_ticklabels([])
             for n in range(len(self.dendro2.min_deltas[:self.cutoff])):
                 ax2.plot((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                         self.mecdf2[n, :][:self.nbins[n]],
+                         self.mecdf2[n, :][:nbins[n]],
                          plot_kwargs2['symbol'],
                          color=plot_kwargs2['color'])
             ax3 = plt.subplot(2, 2, 3)
@@ -818,7 +818,7 @@ class Dendrogram_Distance(object):
             for n in range(len(self.dendro1.min_deltas[:self.cutoff])):
                 bin_width = self.bins[n][1] - self.bins[n][0]
                 ax3.bar((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                        self.histograms1[n, :][:self.nbins[n]],
+                        self.histograms1[n, :][:nbins[n]],
                         align="center", width=bin_width, alpha=0.25,
                         color=plot_kwargs1['color'])
 
@@ -827,7 +827,7 @@ class Dendrogram_Distance(object):
             for n in range(len(self.dendro2.min_deltas[:self.cutoff])):
                 bin_width = self.bins[n][1] - self.bins[n][0]
                 ax4.bar((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                        self.histograms2[n, :][:self.nbins[n]],
+                        self.histograms2[n, :][:nbins[n]],
                         align="center", width=bin_width, alpha=0.25,
                         color=plot_kwargs2['color'])
 
-- 
2.43.0


From 3e09ff2aa729799104d9aca27bcee8277c273115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:21 +0000
Subject: [PATCH 065/117] fix: mecdf: rows padded with NaN have an ECDF

---
 turbustat/statistics/dendrograms/mecdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/dendrograms/mecdf.py b/turbustat/statistics/dendrograms/mecdf.py
index fe273b1..e999036 100644
--- a/turbustat/statistics/dendrograms/mecdf.py
+++ b/turbustat/statistics/dendrograms/mecdf.py
@@ -35,6 +35,6 @@ def mecdf(arr):
     ecdf = np.empty(arr.shape)
 
     for n in range(nrows):
-        ecdf[n, :] = np.cumsum(arr[n, :]/np.sum(arr[n, :].astype(float)))
+        ecdf[n, :] = np.cumsum(arr[n, :]/np.nansum(arr[n, :].astype(float)))
 
     return ecdf
-- 
2.43.0


From b54316212da41a481a5e933664b0ee27a3ff3085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 066/117] fix: Dendrogram_Stats: prune a given dendrogram to
 the smallest height too

---
 turbustat/statistics/dendrograms/dendro_stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index e72c8a9..3ec07b3 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -172,6 +172,9 @@ class Dendrogram_Stats(BaseStatisticMixIn):
                                    neighbours=neighbours)
         else:
             d = dendro_obj
+            if d.params['min_delta'] < self.min_deltas[0]:
+                d.prune(min_delta=self.min_deltas[0])
+
         self._numfeatures[0] = len(d)
         self._values.append(np.array([struct.vmax for struct in
                                       d.all_structures]))
-- 
2.43.0


From 77a9b54322e565350aba4802cf3db0b89f837f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 067/117] fix: Dendrogram_Stats: save the dendrogram when asked
 to

---
 turbustat/statistics/dendrograms/dendro_stats.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 3ec07b3..37b96a9 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -175,6 +175,12 @@ class Dendrogram_Stats(BaseStatisticMixIn):
             if d.params['min_delta'] < self.min_deltas[0]:
                 d.prune(min_delta=self.min_deltas[0])
 
+        if save_dendro:
+            if dendro_name is None:
+                raise ValueError("dendro_name must be given to save the"
+                                 " dendrogram.")
+            d.save_to("{}.hdf5".format(dendro_name))
+
         self._numfeatures[0] = len(d)
         self._values.append(np.array([struct.vmax for struct in
                                       d.all_structures]))
-- 
2.43.0


From 30f6533a317585aa02b886f9e6f426bbbb6a0cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:44 +0000
Subject: [PATCH 068/117] fix: Dendrogram_Stats.load_dendrogram: the statistic
 needs a header

---
 turbustat/statistics/dendrograms/dendro_stats.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 37b96a9..806b004 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -334,7 +334,7 @@ class Dendrogram_Stats(BaseStatisticMixIn):
         return self._tail_slope_err
 
     @staticmethod
-    def load_dendrogram(hdf5_file, min_deltas=None):
+    def load_dendrogram(hdf5_file, min_deltas=None, header=None):
         '''
         Load in a previously saved dendrogram. **Requires pyHDF5**
 
@@ -344,11 +344,18 @@ class Dendrogram_Stats(BaseStatisticMixIn):
             Name of saved file.
         min_deltas : numpy.ndarray or list
             Minimum deltas of leaves in the dendrogram.
+        header : FITS header, optional
+            The header of the data. Only needed when the dendrogram was saved
+            without WCS information.
         '''
 
         dendro = Dendrogram.load_from(hdf5_file)
 
-        self = Dendrogram_Stats(dendro.data, min_deltas=min_deltas,
+        if header is None and dendro.wcs is not None:
+            header = dendro.wcs.to_header()
+
+        self = Dendrogram_Stats(dendro.data, header=header,
+                                min_deltas=min_deltas,
                                 dendro_params=dendro.params)
 
         return self
-- 
2.43.0


From 42e3deb2e43218e3bdbe55bca7c12199f81f0708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:10 +0000
Subject: [PATCH 069/117] fix: distance_metric must not change the plotting
 keywords it is given

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 ++
 turbustat/statistics/dendrograms/dendro_stats.py      | 4 ++++
 turbustat/statistics/mvc/mvc.py                       | 2 ++
 turbustat/statistics/pca/pca.py                       | 2 ++
 turbustat/statistics/pdf/compare_pdf.py               | 2 ++
 turbustat/statistics/pspec_bispec/pspec.py            | 2 ++
 turbustat/statistics/scf/scf.py                       | 2 ++
 turbustat/statistics/stat_moments/highstatmoments.py  | 2 ++
 turbustat/statistics/vca_vcs/vca.py                   | 2 ++
 turbustat/statistics/vca_vcs/vcs.py                   | 2 ++
 turbustat/statistics/wavelets/wavelet_transform.py    | 2 ++
 11 files changed, 24 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 24a3bef..1004ad4 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -935,6 +935,8 @@ class DeltaVariance_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 806b004..cc48c26 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -669,6 +669,8 @@ class Dendrogram_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
@@ -796,6 +798,8 @@ class Dendrogram_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 547d16f..14054d7 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -469,6 +469,8 @@ class MVC_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index b7c5ed5..09a9950 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -1151,6 +1151,8 @@ class PCA_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 33e0fd3..bbf1d7c 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -728,6 +728,8 @@ class PDF_Distance(object):
             defaults1 = {'color': 'b', 'marker': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'marker': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index bc040aa..f6095b9 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -369,6 +369,8 @@ class PSpec_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index d367e26..c039870 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -1011,6 +1011,8 @@ class SCF_Distance(object):
             defaults1 = {'color': 'b', 'marker': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'marker': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index ee73411..4a190ea 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -697,6 +697,8 @@ class StatMoments_Distance(object):
             defaults1 = {'color': 'b', 'label': '1'}
             defaults2 = {'color': 'g', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 8baa9d8..8d44618 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -356,6 +356,8 @@ class VCA_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index a5033b2..c772534 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -516,6 +516,8 @@ class VCS_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 05e36e8..54f9ece 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -718,6 +718,8 @@ class Wavelet_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
-- 
2.43.0


From 8a7511f6a5f179a7248611e0d6f257887e782b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:31 +0000
Subject: [PATCH 070/117] fix: VCA_Distance ignored radial_pspec_kwargs2

---
 turbustat/statistics/vca_vcs/vca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 8d44618..253cd95 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -308,7 +308,7 @@ class VCA_Distance(object):
             self.vca2.run(fit_kwargs={'brk': breaks[1]},
                           low_cut=low_cut[1],
                           high_cut=high_cut[1],
-                          radial_pspec_kwargs=radial_pspec_kwargs,
+                          radial_pspec_kwargs=radial_pspec_kwargs2,
                           fit_2D=False)
 
     def distance_metric(self, verbose=False, xunit=u.pix**-1,
-- 
2.43.0


From 7167a1f47a81d398e08c471b8284a696db5dbd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:31 +0000
Subject: [PATCH 071/117] fix: PSpec_Distance failed when pspec_kwargs carried
 fit_kwargs

---
 turbustat/statistics/pspec_bispec/pspec.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index f6095b9..271b278 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -286,11 +286,11 @@ class PSpec_Distance(object):
             this_pspec_kwargs.pop('high_cut', None)
             this_pspec_kwargs.pop('fit_2D', None)
 
-            if 'fit_kwargs' in this_pspec_kwargs:
-                this_pspec_kwargs['fit_kwargs'].pop('brk', None)
+            fit_kwargs = dict(this_pspec_kwargs.pop('fit_kwargs', {}))
+            fit_kwargs['brk'] = breaks[0]
 
             self.pspec1.run(low_cut=low_cut[0], high_cut=high_cut[0],
-                            fit_kwargs={'brk': breaks[0]},
+                            fit_kwargs=fit_kwargs,
                             fit_2D=False,
                             **this_pspec_kwargs)
         # else:
@@ -314,11 +314,11 @@ class PSpec_Distance(object):
             this_pspec2_kwargs.pop('high_cut', None)
             this_pspec2_kwargs.pop('fit_2D', None)
 
-            if 'fit_kwargs' in this_pspec2_kwargs:
-                this_pspec2_kwargs['fit_kwargs'].pop('brk', None)
+            fit_kwargs = dict(this_pspec2_kwargs.pop('fit_kwargs', {}))
+            fit_kwargs['brk'] = breaks[1]
 
             self.pspec2.run(low_cut=low_cut[1], high_cut=high_cut[1],
-                            fit_kwargs={'brk': breaks[1]},
+                            fit_kwargs=fit_kwargs,
                             fit_2D=False,
                             **this_pspec2_kwargs)
 
-- 
2.43.0


From 9f3599b1c2ba71ffc7e19120f8ac7879b7b4c74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:31 +0000
Subject: [PATCH 072/117] fix: SCF_Distance with differing numbers of lags
 raised AttributeError

---
 turbustat/statistics/scf/scf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index c039870..829316b 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -874,7 +874,8 @@ class SCF_Distance(object):
             else:
                 roll_lags2 = roll_lags
 
-            if not (roll_lags1 == roll_lags2).all():
+            if roll_lags1.size != roll_lags2.size or \
+                    not (roll_lags1 == roll_lags2).all():
                 raise ValueError("The roll lags must match when using pre-computed SCFs.")
 
         elif scale > 1.0:
-- 
2.43.0


From 75567e487af6d0e4e56a97412f03f23076df4fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:47 +0000
Subject: [PATCH 073/117] fix: VCS took the log of break points that were
 already logged

---
 turbustat/statistics/vca_vcs/vcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index c772534..3380c39 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -202,7 +202,7 @@ class VCS(BaseStatisticMixIn):
 
             # return self
 
-        if not log_break:
+        elif not log_break:
             breaks = np.log10(breaks)
 
         # Fit the final model with whichever breaks were passed.
-- 
2.43.0


From 78e874763b8d3eec29e178f8cab5cb90b638ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:02 +0000
Subject: [PATCH 074/117] fix: Bispectrum computed something for data that is
 not an image

---
 turbustat/statistics/pspec_bispec/bispec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/pspec_bispec/bispec.py b/turbustat/statistics/pspec_bispec/bispec.py
index 68cae45..8fdaf19 100644
--- a/turbustat/statistics/pspec_bispec/bispec.py
+++ b/turbustat/statistics/pspec_bispec/bispec.py
@@ -55,6 +55,9 @@ class Bispectrum(BaseStatisticMixIn):
         self.data = input_data(img, no_header=True)
         self.shape = self.data.shape
 
+        if self.data.ndim != 2:
+            raise TypeError("Bispectrum requires a 2D image.")
+
         # Set nans to min
         isnan = np.isnan(self.data)
         if isnan.any():
-- 
2.43.0


From c510cc57d7e1566343b2f3c71dbae7ac9296ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:02 +0000
Subject: [PATCH 075/117] fix: statistics failed on spectral-cube objects,
 integer and non-native data

input_data handed on the brightness unit and the storage type of the data.
---
 turbustat/io/input_base.py          | 31 +++++++++++++++++++++++++++--
 turbustat/statistics/genus/genus.py |  5 +++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/turbustat/io/input_base.py b/turbustat/io/input_base.py
index 08ed027..181acbc 100644
--- a/turbustat/io/input_base.py
+++ b/turbustat/io/input_base.py
@@ -3,6 +3,7 @@ from __future__ import print_function, absolute_import, division
 
 from astropy.io.fits.hdu.image import _ImageBaseHDU
 from astropy.io import fits
+import astropy.units as u
 import numpy as np
 
 try:
@@ -24,7 +25,28 @@ twod_types = ["spectral_cube.Projection", "spectral_cube.Slice"]
 threed_types = ["SpectralCube"]
 
 
-def input_data(data, no_header=False, need_copy=False):
+def plain_array(data, keep_units=False):
+    '''
+    Return the data as an array that can be calculated with: without a
+    brightness unit, in the native byte order and, for data stored as integers,
+    as floating point values.
+    '''
+
+    if not isinstance(data, np.ndarray):
+        return data
+
+    if isinstance(data, u.Quantity) and not keep_units:
+        data = data.value
+
+    if data.dtype.kind in "bui":
+        data = data.astype(np.float64)
+    elif not data.dtype.isnative:
+        data = data.astype(data.dtype.newbyteorder("="))
+
+    return data
+
+
+def input_data(data, no_header=False, need_copy=False, keep_units=False):
     '''
     Accept a variety of input data forms and return those expected by the
     various statistics.
@@ -40,6 +62,9 @@ def input_data(data, no_header=False, need_copy=False):
         When enabled, returns only the data without the header.
     need_copy : bool, optional
         Return a copy of the data when enabled.
+    keep_units : bool, optional
+        Keep the brightness unit of the data. By default, the values are
+        returned without the unit.
 
     Returns
     -------
@@ -72,7 +97,7 @@ def input_data(data, no_header=False, need_copy=False):
         elif isinstance(data, tuple) or isinstance(data, list):
             if len(data) != 2:
                 raise TypeError("Must have two items: data and the header.")
-            output_data = data
+            output_data = [make_copy(data[0], need_copy), data[1]]
 
         elif isinstance(data, np.ndarray):
             if not no_header:
@@ -88,6 +113,8 @@ def input_data(data, no_header=False, need_copy=False):
                             " or a tuple or list containing the data and"
                             " header, in that order.")
 
+    output_data[0] = plain_array(output_data[0], keep_units=keep_units)
+
     if no_header:
         return output_data[0]
 
diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 69d3d54..40f8618 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -82,11 +82,12 @@ class Genus(BaseStatisticMixIn):
 
         if isinstance(img, np.ndarray):
             self.need_header_flag = False
-            self.data = input_data(img, no_header=True)
+            self.data = input_data(img, no_header=True, keep_units=True)
             self.header = None
         else:
             self.need_header_flag = True
-            self.data, self.header = input_data(img, no_header=False)
+            self.data, self.header = input_data(img, no_header=False,
+                                                keep_units=True)
 
         if distance is not None:
             self.distance = distance
-- 
2.43.0


From 61683fe22b9a4095eeee484a1dac43ff8449edb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:27 +0000
Subject: [PATCH 076/117] fix: MVC failed for maps with a degenerate axis

---
 turbustat/statistics/mvc/mvc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 14054d7..1d543f8 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -63,12 +63,13 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
             self.header = header
 
         self.data = self.centroid
+        self._centroid = self.data
 
         if distance is not None:
             self.distance = distance
 
-        self._moment0 = input_data(moment0, no_header=True)
-        self._linewidth = input_data(linewidth, no_header=True)
+        self._moment0 = input_data(moment0, no_header=True).squeeze()
+        self._linewidth = input_data(linewidth, no_header=True).squeeze()
 
         shape_check1 = self.centroid.shape == self.moment0.shape
         shape_check2 = self.centroid.shape == self.linewidth.shape
-- 
2.43.0


From f79627ec319178e14e806ec70867fa2b94f60091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:54 +0000
Subject: [PATCH 077/117] fix: Bispectrum: refuse data that is not an image
 when computing

---
 turbustat/statistics/pspec_bispec/bispec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/bispec.py b/turbustat/statistics/pspec_bispec/bispec.py
index 8fdaf19..d99cc9e 100644
--- a/turbustat/statistics/pspec_bispec/bispec.py
+++ b/turbustat/statistics/pspec_bispec/bispec.py
@@ -55,9 +55,6 @@ class Bispectrum(BaseStatisticMixIn):
         self.data = input_data(img, no_header=True)
         self.shape = self.data.shape
 
-        if self.data.ndim != 2:
-            raise TypeError("Bispectrum requires a 2D image.")
-
         # Set nans to min
         isnan = np.isnan(self.data)
         if isnan.any():
@@ -93,6 +90,9 @@ class Bispectrum(BaseStatisticMixIn):
             for a list of accepted kwargs.
         '''
 
+        if self.data.ndim != 2:
+            raise TypeError("Bispectrum requires a 2D image.")
+
         if mean_subtract:
             norm_data = self.data - self.data.mean()
         else:
-- 
2.43.0


From 342c9fdc58b6ffcf22065a1041987e04585bc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:22 +0000
Subject: [PATCH 078/117] fix: PDF with a fitted model could not be saved

---
 turbustat/statistics/pdf/compare_pdf.py | 100 +++++++++++++-----------
 1 file changed, 56 insertions(+), 44 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index bbf1d7c..1344b3c 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -12,6 +12,61 @@ from ..base_statistic import BaseStatisticMixIn
 from ...io import common_types, twod_types, threed_types, input_data
 
 
+class Likelihood(GenericLikelihoodModel):
+    '''
+    Likelihood of a `~scipy.stats` distribution, whose `loc` and `scale` may be
+    held fixed.
+    '''
+
+    def __init__(self, endog, scipy_model, floc, loc, fscale, scale):
+
+        # Get the number of parameters from shapes.
+        # Add one for scales, since we're assuming loc is frozen.
+        # Keeping loc=0 is appropriate for log-normal models.
+        self.nparams = 1 if scipy_model.shapes is None else \
+            len(scipy_model.shapes.split(",")) + 1
+
+        self._scipy_model = scipy_model
+        self._floc = floc
+        self._loc = loc
+        self._fscale = fscale
+        self._scale = scale
+
+        super(Likelihood, self).__init__(endog)
+
+    def loglike(self, params):
+        if np.isnan(params).any():
+            return - np.inf
+
+        if not self._floc and not self._fscale:
+            loc = params[-2]
+            scale = params[-1]
+            cut = -2
+        elif not self._floc:
+            loc = params[-1]
+            scale = self._scale
+            cut = -1
+        elif not self._fscale:
+            scale = params[-1]
+            loc = self._loc
+            cut = -1
+        else:
+            loc = self._loc
+            scale = self._scale
+            cut = None
+
+        loglikes = \
+            self._scipy_model.logpdf(self.endog, *params[:cut],
+                                     scale=scale,
+                                     loc=loc)
+
+        if not np.isfinite(loglikes).all():
+            return -np.inf
+
+        else:
+            return loglikes.sum()
+
+
 class PDF(BaseStatisticMixIn):
     '''
     Create the PDF of a given array.
@@ -215,49 +270,6 @@ class PDF(BaseStatisticMixIn):
 
         self._do_fit = True
 
-        class Likelihood(GenericLikelihoodModel):
-
-            # Get the number of parameters from shapes.
-            # Add one for scales, since we're assuming loc is frozen.
-            # Keeping loc=0 is appropriate for log-normal models.
-            nparams = 1 if model.shapes is None else \
-                len(model.shapes.split(",")) + 1
-
-            _loc = loc
-            _scale = scale
-
-            def loglike(self, params):
-                if np.isnan(params).any():
-                    return - np.inf
-
-                if not floc and not fscale:
-                    loc = params[-2]
-                    scale = params[-1]
-                    cut = -2
-                elif not floc:
-                    loc = params[-1]
-                    scale = self._scale
-                    cut = -1
-                elif not fscale:
-                    scale = params[-1]
-                    loc = self._loc
-                    cut = -1
-                else:
-                    loc = self._loc
-                    scale = self._scale
-                    cut = None
-
-                loglikes = \
-                    model.logpdf(self.endog, *params[:cut],
-                                 scale=scale,
-                                 loc=loc)
-
-                if not np.isfinite(loglikes).all():
-                    return -np.inf
-
-                else:
-                    return loglikes.sum()
-
         def emcee_fit(model, init_params, burnin=200, steps=2000, thin=10):
 
             try:
@@ -296,7 +308,7 @@ class PDF(BaseStatisticMixIn):
 
         init_params = np.array(init_params)
 
-        self._model = Likelihood(self.data)
+        self._model = Likelihood(self.data, model, floc, loc, fscale, scale)
 
         self._scipy_model = model
 
-- 
2.43.0


From 6321c0a684339fd73b41f5e9396a3525ba2a9ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:39 +0000
Subject: [PATCH 079/117] fix: PowerSpectrum changed the weights given and
 refused HDU weights

---
 turbustat/statistics/pspec_bispec/pspec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 271b278..04cfb81 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -10,7 +10,7 @@ from copy import copy
 from ..rfft_to_fft import rfft_to_fft
 from ..base_pspec2 import StatisticBase_PSpec2D
 from ..base_statistic import BaseStatisticMixIn
-from ...io import common_types, twod_types
+from ...io import common_types, twod_types, input_data
 from ..fitting_utils import check_fit_limits
 
 
@@ -53,6 +53,7 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
             # Get rid of all NaNs
             isnan = np.isnan(self.data)
 
+            weights = input_data(weights, no_header=True).copy()
             weights[np.isnan(weights)] = 0.0
             weights[isnan] = 0.0
             self.data[isnan] = 0.0
-- 
2.43.0


From dba454b84fb0c56a2af6c2ceba37fcc165c2f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:39 +0000
Subject: [PATCH 080/117] fix: run() removed entries from the keyword
 dictionaries it is given

---
 turbustat/statistics/mvc/mvc.py            | 1 +
 turbustat/statistics/pspec_bispec/pspec.py | 2 ++
 turbustat/statistics/vca_vcs/vca.py        | 2 ++
 turbustat/statistics/vca_vcs/vcs.py        | 1 +
 4 files changed, 6 insertions(+)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 1d543f8..8fb5180 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -274,6 +274,7 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 04cfb81..0b131f4 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -178,10 +178,12 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
         # Pop fit_unbinned if given as kwarg in dict.
+        fit_kwargs = dict(fit_kwargs)
         if fit_kwargs.get('fit_unbinned') is not None:
             fit_kwargs.pop('fit_unbinned')
 
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 253cd95..b2a90cb 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -183,10 +183,12 @@ class VCA(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
         # Pop fit_unbinned if given as kwarg in dict.
+        fit_kwargs = dict(fit_kwargs)
         if fit_kwargs.get('fit_unbinned') is not None:
             fit_kwargs.pop('fit_unbinned')
 
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 3380c39..8b7b452 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -372,6 +372,7 @@ class VCS(BaseStatisticMixIn):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
         self.compute_pspec(use_pyfftw=use_pyfftw, threads=threads,
-- 
2.43.0


From 28739d19a47bf3c3701ffd99f731b0d28c37ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:12 +0000
Subject: [PATCH 081/117] fix: the fit to a power spectrum was drawn wrongly or
 not at all

A model with a break raised an error, and the line was drawn in the wrong
place when the x-axis is not in pixel units.
---
 turbustat/statistics/base_pspec2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 3af1cba..0ca9324 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -716,7 +716,12 @@ class StatisticBase_PSpec2D(object):
 
         xvals_plot = np.log10(xvals[fit_index]).ravel()
         # y_fit = self.fit.fittedvalues
-        y_fit = self.fit.predict(sm.add_constant(xvals_plot))
+        # The model is fit in pixel units
+        xvals_fit = np.log10(self.freqs.value[fit_index])
+        if isinstance(self.slope, np.ndarray):
+            y_fit = self._model.model(xvals_fit)
+        else:
+            y_fit = self.fit.predict(sm.add_constant(xvals_fit))
 
         ax_1D.plot(xvals_plot, y_fit, linestyle='-',
                    label=label, linewidth=3, color=fit_color)
-- 
2.43.0


From 08eefcea679b74b3befcdd3ea6b7979590d34264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:46 +0000
Subject: [PATCH 082/117] fix: PDF kept the bins of an earlier run

---
 turbustat/statistics/pdf/compare_pdf.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 1344b3c..e7b6778 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -147,10 +147,8 @@ class PDF(BaseStatisticMixIn):
             Bins to compute the PDF from. Overrides initial bin input.
         '''
 
-        if bins is not None:
-            self._input_bins = bins
-
-        bins = self._input_bins
+        if bins is None:
+            bins = self._input_bins
 
         # If the number of bins is not given, use sqrt of data length.
         if bins is None:
-- 
2.43.0


From 0124f1e0528201d7dab7507b6c43c9be993246e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:14 +0000
Subject: [PATCH 083/117] fix: brk_err was left over from an earlier fit, or
 missing

---
 turbustat/statistics/base_pspec2.py                   | 3 ++-
 turbustat/statistics/delta_variance/delta_variance.py | 2 ++
 turbustat/statistics/wavelets/wavelet_transform.py    | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 0ca9324..35b74c2 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -277,9 +277,10 @@ class StatisticBase_PSpec2D(object):
                                without break.")
         else:
             self._brk = None
-            self._brk_err = None
 
         if self.brk is None:
+            self._brk_err = None
+
             x = sm.add_constant(x)
 
             if weighted_fit:
diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 1004ad4..66b5c90 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -414,6 +414,8 @@ class DeltaVariance(BaseStatisticMixIn):
         # model failed.
         if self.brk is None:
 
+            self._brk_err = None
+
             x = sm.add_constant(x)
 
             # model = sm.OLS(y, x, missing='drop')
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 54f9ece..4da61a1 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -352,6 +352,8 @@ class Wavelet(BaseStatisticMixIn):
         # model failed.
         if self.brk is None:
 
+            self._brk_err = None
+
             x = sm.add_constant(x)
 
             if weighted_fit:
-- 
2.43.0


From e3b87a853d534322ee5f9851a19c41e864689b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:20 +0000
Subject: [PATCH 084/117] fix: Genus lost a pixel of min_size given with units

---
 turbustat/statistics/genus/genus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 40f8618..837098b 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -293,7 +293,8 @@ class Genus(BaseStatisticMixIn):
                 # Convert to pixel area
                 min_size = self._to_pixel_area(min_size)
 
-                min_size = int(np.floor(min_size.value))
+                # Allow for rounding in the unit conversion
+                min_size = int(np.floor(min_size.value + 1e-6))
             else:
                 min_size = int(min_size)
 
-- 
2.43.0


From b664eb49c32da175e4462c75f0822e384e50d84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:20 +0000
Subject: [PATCH 085/117] fix: SCF lags of whole pixels in other units were
 taken as fractional

---
 turbustat/statistics/scf/scf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 829316b..45d999c 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -170,6 +170,12 @@ class SCF(BaseStatisticMixIn):
         # Convert the lags into pixel units.
         pix_lags = self._to_pixel(self.roll_lags).value
 
+        # Lags of whole pixels need not be exact when converted from other
+        # units
+        whole_lags = np.round(pix_lags)
+        pix_lags = np.where(np.abs(pix_lags - whole_lags) < 1e-6,
+                            whole_lags, pix_lags)
+
         dx = pix_lags.copy()
         dy = pix_lags.copy()
 
-- 
2.43.0


From f5d841f72ab2ceb203533d238d0e127f69c34efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:20 +0000
Subject: [PATCH 086/117] fix: DeltaVariance drew wrong residuals when the axis
 is not in pixels

---
 turbustat/statistics/delta_variance/delta_variance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 66b5c90..a62c81c 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -579,7 +579,8 @@ class DeltaVariance(BaseStatisticMixIn):
         ax.grid(True)
 
         if show_residual:
-            resids = self.delta_var - 10**self.fitted_model(np.log10(lags))
+            resids = self.delta_var - \
+                10**self.fitted_model(np.log10(self.lags.value))
             ax_r.errorbar(lags[fin_vals], resids[fin_vals],
                           yerr=self.delta_var_error[fin_vals],
                           fmt="{}-".format(symbol), color=color,
-- 
2.43.0


From cfd32521cdfc08a3315f958a7d3ef0bcf27d4921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:20 +0000
Subject: [PATCH 087/117] fix: scales at the allowed limit were refused when
 given in other units

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 turbustat/statistics/stat_moments/highstatmoments.py  | 4 ++--
 turbustat/statistics/wavelets/wavelet_transform.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index a62c81c..65ec7e4 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -108,7 +108,7 @@ class DeltaVariance(BaseStatisticMixIn):
 
         pix_lags = self._to_pixel(values)
 
-        if np.any(pix_lags.value < 1):
+        if np.any(pix_lags.value < 1 - 1e-6):
             raise ValueError("At least one of the lags is smaller than one "
                              "pixel. Remove these lags from the array.")
 
diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 4a190ea..253e315 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -82,12 +82,12 @@ class StatMoments(BaseStatisticMixIn):
             raise e
 
         # The radius should be larger than a pixel
-        if pix_rad.value < 2:
+        if pix_rad.value < 2 - 1e-6:
             raise ValueError("The chosen radius is smaller than two pixels. "
                              "Increase the size of the radius.")
 
         # Finally, limit the radius to a maximum of half the image size.
-        if pix_rad.value > min(self.data.shape) / 2.:
+        if pix_rad.value > min(self.data.shape) / 2. + 1e-6:
             raise ValueError("The chosen radius is larger than half the image "
                              "size. Reduce the size of the radius.")
 
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 4da61a1..7591e29 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -93,7 +93,7 @@ class Wavelet(BaseStatisticMixIn):
             raise e
 
         # The radius should be larger than a pixel
-        if np.any(pix_scal.value < 1):
+        if np.any(pix_scal.value < 1 - 1e-6):
             raise ValueError("One of the chosen lags is smaller than one "
                              "pixel."
                              " Ensure that all lag values are larger than one "
-- 
2.43.0


From 38854c8f509f319e3b05ee9215b3c485dc513fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:07 +0000
Subject: [PATCH 088/117] fix: a Genus smoothing radius of one pixel was
 refused in other units

---
 turbustat/statistics/genus/genus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 837098b..821433c 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -200,7 +200,7 @@ class Genus(BaseStatisticMixIn):
 
             values = np.atleast_1d(values)
 
-            if np.any(values < 1.0):
+            if np.any(values < 1.0 - 1e-6):
                 raise ValueError("All smoothing radii must be larger than one"
                                 " pixel.")
 
-- 
2.43.0


From ab852485fc5614fc8c11c0fe5c611bf015d951a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:03 +0000
Subject: [PATCH 089/117] fix: StatMoments_Distance failed for objects saved
 without the data

---
 .../statistics/stat_moments/highstatmoments.py     | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 253e315..8c27af6 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -566,8 +566,18 @@ class StatMoments_Distance(object):
             radius2 = radius
 
         if nbins is None:
-            size1 = image1[0].size if _has_data1 else self.moments1.data.size
-            size2 = image2[0].size if _has_data2 else self.moments2.data.size
+            # The data is not kept in saved StatMoments objects. The maps of
+            # the moments have the same size.
+            sizes = []
+            for img, mom in ((image1[0] if _has_data1 else None,
+                              getattr(self, 'moments1', None)),
+                             (image2[0] if _has_data2 else None,
+                              getattr(self, 'moments2', None))):
+                if img is None:
+                    img = mom.data
+                sizes.append(mom.kurtosis_array.size if img is None
+                             else img.size)
+            size1, size2 = sizes
             self.nbins = _auto_nbins(size1, size2)
         else:
             self.nbins = nbins
-- 
2.43.0


From 3f676b9df6df950e0393df813050c5e79c73ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:46 +0000
Subject: [PATCH 090/117] fix: save_results left copies of the data in the file

---
 turbustat/statistics/base_statistic.py | 4 ++++
 turbustat/statistics/mvc/mvc.py        | 1 +
 2 files changed, 5 insertions(+)

diff --git a/turbustat/statistics/base_statistic.py b/turbustat/statistics/base_statistic.py
index 4b9aa9d..560fdfb 100644
--- a/turbustat/statistics/base_statistic.py
+++ b/turbustat/statistics/base_statistic.py
@@ -146,6 +146,10 @@ class BaseStatisticMixIn(object):
         # Don't keep the whole cube unless keep_data enabled.
         if not keep_data:
             self_copy._data = None
+            # Some statistics hold another copy of the data
+            for name in ['img', 'weighted_data']:
+                if hasattr(self_copy, name):
+                    setattr(self_copy, name, None)
 
         with open(output_name, 'wb') as output:
                 pickle.dump(self_copy, output, -1)
diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 8fb5180..e202586 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -218,6 +218,7 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
 
         # Don't keep the whole cube unless keep_data enabled.
         if not keep_data:
+            self_copy._data = None
             self_copy._centroid = None
             self_copy._moment0 = None
             self_copy._linewidth = None
-- 
2.43.0


From 0ad0838eff3d36affee52f2168da7552b0415ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:46 +0000
Subject: [PATCH 091/117] fix: DeltaVariance_Distance failed for objects saved
 without the data

---
 .../delta_variance/delta_variance.py          | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 65ec7e4..9bd321f 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -675,6 +675,17 @@ class DeltaVariance(BaseStatisticMixIn):
         return self
 
 
+def _same_lags(delvar, lags):
+    '''
+    Check if the lags are the ones used by a `~DeltaVariance` object, up to
+    rounding.
+    '''
+    pix_lags = delvar._to_pixel(lags)
+
+    return delvar.lags.shape == pix_lags.shape and \
+        np.allclose(delvar.lags.value, pix_lags.value, rtol=1e-8, atol=0.)
+
+
 class DeltaVariance_Distance(object):
 
     """
@@ -747,11 +758,11 @@ class DeltaVariance_Distance(object):
                 if _given_data1:
                     shape1 = dataset1[0].shape
                 else:
-                    shape1 = self.delvar1.data.shape
+                    shape1 = self.delvar1.weights.shape
                 if _given_data2:
                     shape2 = dataset2[0].shape
                 else:
-                    shape2 = self.delvar2.data.shape
+                    shape2 = self.delvar2.weights.shape
 
                 if min(shape1) > min(shape2):
                     lags = \
@@ -805,7 +816,7 @@ class DeltaVariance_Distance(object):
         else:
             # Check if we need to re-run the statistic if the lags are wrong.
             if lags1 is not None:
-                if not np.array_equal(self.delvar1.lags, lags1):
+                if not _same_lags(self.delvar1, lags1):
                     self.delvar1.lags = lags1
                     self.delvar1.run(**delvar_kwargs)
 
@@ -826,7 +837,7 @@ class DeltaVariance_Distance(object):
             self.delvar2.run(**delvar2_kwargs)
         else:
             if lags2 is not None:
-                if not np.array_equal(self.delvar2.lags, lags2):
+                if not _same_lags(self.delvar2, lags2):
                     self.delvar2.lags = lags2
                     self.delvar2.run(**delvar2_kwargs)
 
-- 
2.43.0


From b3834657c97022b2bacdfaced5d3a16575c5e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:07 +0000
Subject: [PATCH 092/117] fix: VCA merged one channel too many when the width
 is a whole number of channels

---
 turbustat/statistics/vca_vcs/slice_thickness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/slice_thickness.py b/turbustat/statistics/vca_vcs/slice_thickness.py
index f3413a6..947b8fa 100644
--- a/turbustat/statistics/vca_vcs/slice_thickness.py
+++ b/turbustat/statistics/vca_vcs/slice_thickness.py
@@ -111,7 +111,8 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
             elif channel_width.unit.is_equivalent(cube.spectral_axis.unit):
                 ratio = (channel_width / orig_width)
                 ratio = ratio.to(u.dimensionless_unscaled).value
-                channel_width = int(np.ceil(ratio))
+                # Allow for rounding in the unit conversion
+                channel_width = int(np.ceil(ratio - 1e-6))
             else:
                 raise u.UnitsError("channel_width must be given in pixel units"
                                    " or the same spectral unit as the cube.")
-- 
2.43.0


From b94fabfd3f9585cecb76576c3369eba03fe2688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:07 +0000
Subject: [PATCH 093/117] fix: spectral_regrid_cube ignored downsamp_function

---
 turbustat/statistics/vca_vcs/slice_thickness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/slice_thickness.py b/turbustat/statistics/vca_vcs/slice_thickness.py
index 947b8fa..b644961 100644
--- a/turbustat/statistics/vca_vcs/slice_thickness.py
+++ b/turbustat/statistics/vca_vcs/slice_thickness.py
@@ -117,7 +117,8 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
                 raise u.UnitsError("channel_width must be given in pixel units"
                                    " or the same spectral unit as the cube.")
 
-        return cube.downsample_axis(channel_width, axis=0)
+        return cube.downsample_axis(channel_width, axis=0,
+                                    estimator=downsamp_function)
 
     else:
         # Must then be regrid
-- 
2.43.0


From 7f8be9aa7648392f59c326669af8a976eb0c9629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:46 +0000
Subject: [PATCH 094/117] fix: bootstrap errors of a weighted fit use the
 weighted design matrix

The resampled values are the weighted ones (wendog + wresid) but they were
fit against the unweighted design matrix, so the errors of a weighted fit
were those of an unrelated regression.
---
 turbustat/statistics/fitting_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/fitting_utils.py b/turbustat/statistics/fitting_utils.py
index edc9beb..f96aec5 100644
--- a/turbustat/statistics/fitting_utils.py
+++ b/turbustat/statistics/fitting_utils.py
@@ -335,7 +335,7 @@ def residual_bootstrap(fit_model, nboot=1000, seed=38574895,
             y_resamp = y + y_res[np.random.choice(y_res.size - 1, y_res.size)]
 
             resamp_mod = fit_model.model.__class__(y_resamp,
-                                                   fit_model.model.exog)
+                                                   fit_model.model.wexog)
             resamp_fit = resamp_mod.fit(**fit_kwargs)
 
             if debug:
-- 
2.43.0


From 6444c215f28bdb4000da38630df4627e17539fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:46 +0000
Subject: [PATCH 095/117] fix: residual bootstrap draws from all of the
 residuals

The last residual was never drawn.
---
 turbustat/statistics/fitting_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/fitting_utils.py b/turbustat/statistics/fitting_utils.py
index f96aec5..aa0f7f9 100644
--- a/turbustat/statistics/fitting_utils.py
+++ b/turbustat/statistics/fitting_utils.py
@@ -332,7 +332,7 @@ def residual_bootstrap(fit_model, nboot=1000, seed=38574895,
 
         for _ in range(nboot):
 
-            y_resamp = y + y_res[np.random.choice(y_res.size - 1, y_res.size)]
+            y_resamp = y + y_res[np.random.choice(y_res.size, y_res.size)]
 
             resamp_mod = fit_model.model.__class__(y_resamp,
                                                    fit_model.model.wexog)
-- 
2.43.0


From 42b0651ad6e696aa2c0727a75e3d03e603fd2272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:33 +0000
Subject: [PATCH 096/117] fix: ellipse axes keep their order whatever the sign
 of the eigenvector

The semi-axes were swapped (and the angle turned by 90 degrees) depending on
the arbitrary sign returned by the eigenvalue solver, so the bootstrap errors
of the axes included the difference between them.
---
 turbustat/statistics/stats_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index c355f22..32e7e74 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -280,6 +280,10 @@ class EllipseModel(object):
         # seeks for empty matrix
         if 0 in a1.shape or len(a1.ravel()) != 3:
             return False
+        # The sign of an eigenvector is arbitrary. Fix it so that the width is
+        # always the semi-major axis.
+        if a1[0, 0] < 0:
+            a1 = -a1
         a, b, c = a1.ravel()
 
         # |d f g> = -S3^(-1)*S2^(T)*|a b c> [eqn. 24]
-- 
2.43.0


From 6871f3f90eaa99bfa31b546f305dc2d3e648524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:26 +0000
Subject: [PATCH 097/117] fix: ellipse parameters are real numbers

Round-off can make the two unused eigenvalues a complex pair, which made all
fitted parameters complex.
---
 turbustat/statistics/stats_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index 32e7e74..cbe22e3 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -272,6 +272,8 @@ class EllipseModel(object):
         # M*|a b c >=l|a b c >. Find eigenvalues and eigenvectors
         # from this equation [eqn. 28]
         eig_vals, eig_vecs = np.linalg.eig(M)
+        # The other two may be a complex pair from round-off.
+        eig_vecs = np.real(eig_vecs)
 
         # eigenvector must meet constraint 4ac - b^2 to be valid.
         cond = 4 * np.multiply(eig_vecs[0, :], eig_vecs[2, :]) \
-- 
2.43.0


From 3642643153595efa6a013a2649529f90aa493265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:22 +0000
Subject: [PATCH 098/117] fix: break error of segmented fits is divided by the
 slope change

---
 turbustat/statistics/lm_seg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index da91d25..fbba100 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -202,7 +202,7 @@ class Lm_Seg(object):
         self._errs = self.fit.bse
 
         if not self.break_fail_flag:
-            self.brk_err = brk_errs(self.params, fit.cov_params())
+            self.brk_err = brk_errs(self.params, self.fit.cov_params())
         else:
             self.brk_err = 0.0
 
@@ -300,4 +300,5 @@ def brk_errs(params, cov):
     # Correlation b/w gamma and beta
     term3 = 2 * cov[3, 2] * (params[3] / params[2])
 
-    return np.sqrt(term1 + term2 + term3)
+    # The break is updated by gamma / beta
+    return np.sqrt(term1 + term2 - term3) / np.abs(params[2])
-- 
2.43.0


From c8fbb27d6abd426be45087fd89c49c4bb4c4754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:22 +0000
Subject: [PATCH 099/117] fix: bootstrapped errors of segmented fits belong to
 the slopes and the break

---
 turbustat/statistics/base_pspec2.py            |  8 +++-----
 .../delta_variance/delta_variance.py           |  8 +++-----
 turbustat/statistics/lm_seg.py                 | 18 ++++++++++++++++++
 turbustat/statistics/vca_vcs/vcs.py            | 11 +++++------
 .../statistics/wavelets/wavelet_transform.py   |  8 +++-----
 5 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 35b74c2..bc37611 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -255,12 +255,10 @@ class StatisticBase_PSpec2D(object):
                     self._slope = brk_fit.slopes
 
                     if bootstrap:
-                        stderrs = residual_bootstrap(brk_fit.fit,
-                                                     **bootstrap_kwargs)
-
-                        self._slope_err = stderrs[1:-1]
+                        self._slope_err, brk_err = \
+                            brk_fit.bootstrap_errs(**bootstrap_kwargs)
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] / u.pix
+                            brk_err / u.pix
 
                     else:
                         self._slope_err = brk_fit.slope_errs
diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 9bd321f..cd476ee 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -388,12 +388,10 @@ class DeltaVariance(BaseStatisticMixIn):
                     self._slope = model.slopes
 
                     if bootstrap:
-                        stderrs = residual_bootstrap(model.fit,
-                                                     **bootstrap_kwargs)
-
-                        self._slope_err = stderrs[1:-1]
+                        self._slope_err, brk_err = \
+                            model.bootstrap_errs(**bootstrap_kwargs)
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] * u.pix
+                            brk_err * u.pix
 
                     else:
                         self._slope_err = model.slope_errs
diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index fbba100..daf8cc7 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -33,6 +33,8 @@ import numpy as np
 import warnings
 from copy import copy
 
+from .fitting_utils import residual_bootstrap
+
 
 class Lm_Seg(object):
     """
@@ -245,6 +247,22 @@ class Lm_Seg(object):
                     np.sqrt(self.param_errs[s + 1] **
                             2 + self._slope_errs[:s]**2)
 
+    def bootstrap_errs(self, **bootstrap_kwargs):
+        '''
+        Standard errors of the slopes and the break point from resampling the
+        residuals at the fitted break.
+        '''
+        bootstrap_kwargs['return_samps'] = True
+        samps = residual_bootstrap(self.fit, **bootstrap_kwargs)
+
+        if self.break_fail_flag:
+            return np.std(samps[:, 1:2], axis=0), 0.0
+
+        slope_errs = np.std(np.cumsum(samps[:, 1:3], axis=1), axis=0)
+        brk_err = brk_errs(self.params, np.cov(samps, rowvar=False))
+
+        return slope_errs, brk_err
+
     @property
     def slopes(self):
         return self._slopes
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 8b7b452..a6707b2 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -10,7 +10,7 @@ from ..lm_seg import Lm_Seg
 from ..rfft_to_fft import rfft_to_fft
 from ..base_statistic import BaseStatisticMixIn
 from ...io import common_types, threed_types
-from ..fitting_utils import clip_func, residual_bootstrap
+from ..fitting_utils import clip_func
 
 
 class VCS(BaseStatisticMixIn):
@@ -210,12 +210,11 @@ class VCS(BaseStatisticMixIn):
         self.fit.fit_model(verbose=fit_verbose, cov_type='HC3')
 
         if bootstrap:
-            stderrs = residual_bootstrap(self.fit.fit,
-                                         **bootstrap_kwargs)
-
-            self._slope_errs = stderrs[1:-1]
+            self._slope_errs, self._brk_err = \
+                self.fit.bootstrap_errs(**bootstrap_kwargs)
         else:
             self._slope_errs = self.fit.slope_errs
+            self._brk_err = self.fit.brk_err
 
         self._slope = self.fit.slopes
 
@@ -247,7 +246,7 @@ class VCS(BaseStatisticMixIn):
         '''
         1-sigma on the break point.
         '''
-        return self.fit.brk_err
+        return self._brk_err
 
     def plot_fit(self, save_name=None, xunit=u.pix**-1, color='r',
                  symbol='o', fit_color='k', label=None, show_residual=True):
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 7591e29..278bb45 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -326,12 +326,10 @@ class Wavelet(BaseStatisticMixIn):
                     self._slope = model.slopes
 
                     if bootstrap:
-                        stderrs = residual_bootstrap(model.fit,
-                                                     **bootstrap_kwargs)
-
-                        self._slope_err = stderrs[1:-1]
+                        self._slope_err, brk_err = \
+                            model.bootstrap_errs(**bootstrap_kwargs)
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] * u.pix
+                            brk_err * u.pix
 
                     else:
                         self._slope_err = model.slope_errs
-- 
2.43.0


From 7cb6f3db5d53aa661dd7aace4bec6719d2b43295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:18 +0000
Subject: [PATCH 100/117] fix: PCA plot shows the requested number of
 eigenvalues

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 09a9950..8e9ce4a 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -791,7 +791,7 @@ class PCA(BaseStatisticMixIn):
             if n_eigs is None:
                 n_eigs = self.n_eigs
 
-            plt.bar(np.arange(1, self.n_eigs + 1), self.eigvals[:n_eigs],
+            plt.bar(np.arange(1, n_eigs + 1), self.eigvals[:n_eigs],
                     0.5, color=color)
             plt.xlim([0, n_eigs + 1])
             plt.xlabel('Eigenvalues')
-- 
2.43.0


From 9581764831ccb05fe451466295ff648fac7afc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:18 +0000
Subject: [PATCH 101/117] fix: Tsallis plot with a single lag

---
 turbustat/statistics/tsallis/tsallis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/tsallis/tsallis.py b/turbustat/statistics/tsallis/tsallis.py
index d1dd7e0..a6634b7 100644
--- a/turbustat/statistics/tsallis/tsallis.py
+++ b/turbustat/statistics/tsallis/tsallis.py
@@ -292,7 +292,9 @@ class Tsallis(BaseStatisticMixIn):
         if fit_color is None:
             fit_color = color
 
-        fig, axes = plt.subplots(len(self.lags), 1, sharex=True)
+        fig, axes = plt.subplots(len(self.lags), 1, sharex=True,
+                                 squeeze=False)
+        axes = axes.ravel()
 
         for vals in zip(self.lags, self.lag_distribs,
                         self.lag_arrays, self.tsallis_params,
-- 
2.43.0


From 9322561c456bf819c63b5a66ca15366b17a999be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:18 +0000
Subject: [PATCH 102/117] fix: dendrogram plot of a histogram with one bin

---
 turbustat/statistics/dendrograms/dendro_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index cc48c26..6e15fb6 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -405,7 +405,7 @@ class Dendrogram_Stats(BaseStatisticMixIn):
             for bins, vals in self.hists:
                 if bins.size < 1:
                     continue
-                bin_width = np.abs(bins[1] - bins[0])
+                bin_width = np.abs(bins[1] - bins[0]) if bins.size > 1 else 1.
                 ax2.bar(bins, vals, align="center",
                         width=bin_width, alpha=0.25,
                         color=color)
-- 
2.43.0


From 37de8ddc34b4b8c93e404cfd236c2559b2e96e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:20 +0000
Subject: [PATCH 103/117] fix: PCA spatial width errors of the Gaussian fit:
 count every pixel

The surface was fit on 2D arrays, for which the number of degrees of freedom
is taken from the first axis alone. The width errors were too large by
about the square root of the number of columns.
---
 turbustat/statistics/pca/width_estimate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index e06f7db..f1be3e6 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -420,7 +420,9 @@ def fit_2D_gaussian(xmat, ymat, z):
         astropy_models.Const2D(amplitude=[np.percentile(z, 10)])
 
     fit_g = fitting.LevMarLSQFitter()
-    output = fit_g(g, xmat, ymat, z)
+    # Use flat arrays. The covariance matrix is scaled by the length of the
+    # first axis, which has to be the number of data points.
+    output = fit_g(g, xmat.ravel(), ymat.ravel(), z.ravel())
     cov = fit_g.fit_info['param_cov']
 
     if cov is None:
-- 
2.43.0


From 827235ae9a80b61532690c02b669b5feecf681a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:11 +0000
Subject: [PATCH 104/117] fix: errors of the 2D elliptical fit come from the
 fit that is kept

The second fit, with theta offset by pi/2, re-used the fitter of the first
one. When the second fit was kept the errors were NaN, and otherwise they
were those of the discarded fit.
---
 turbustat/statistics/elliptical_powerlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index c96317c..dab13f6 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -114,8 +114,8 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
             model_f = LogEllipticalPowerLaw2D(*p0_f)
 
             fitter_f = fitting.LevMarLSQFitter()
-            fit_model_f = fitter(model_f, x, y, values, weights=weights,
-                                 estimate_jacobian=True)
+            fit_model_f = fitter_f(model_f, x, y, values, weights=weights,
+                                   estimate_jacobian=True)
 
             resids_f = np.sum(np.abs(values - fit_model_f(x, y)))
 
-- 
2.43.0


From b817887419bd0ddc04f049065616663b9613936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:44 +0000
Subject: [PATCH 105/117] fix: delta-variance: pixels kept as missing carry no
 weight

With preserve_nan the missing pixels were left out of the sum of squares but
their weights were still included in the normalization.
---
 turbustat/statistics/delta_variance/delta_variance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index cd476ee..3cb5a6c 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -982,6 +982,9 @@ def _delvar(array, weight, lag):
     '''
     arr_cent = array.copy() - np.nanmean(array, axis=None)
 
+    # Missing values do not contribute to the total weight
+    weight = np.where(np.isnan(arr_cent), np.nan, weight)
+
     val = np.nansum(arr_cent ** 2. * weight) /\
         np.nansum(weight)
 
-- 
2.43.0


From cdd7e8f41399c92415067386f583f207176ced72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:32 +0000
Subject: [PATCH 106/117] fix: delta-variance: interpolate the weights over
 missing pixels too

With nan_treatment='interpolate' the filtered map is interpolated over the
missing pixels but the weights treated them as measured zeros/ones, so the
result depended on a constant offset of the map.
---
 turbustat/statistics/delta_variance/delta_variance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 3cb5a6c..e47b526 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -206,6 +206,10 @@ class DeltaVariance(BaseStatisticMixIn):
                 raise ValueError("boundary must be 'wrap' or 'fill'. "
                                  "Given {}".format(boundary))
 
+            if nan_treatment == 'interpolate':
+                # Interpolate the weights over the same pixels as the image
+                pad_weights = np.where(np.isnan(pad_img), np.nan, pad_weights)
+
             img_core = \
                 convolution_wrapper(pad_img, core, boundary=boundary,
                                     fill_value=0. if nan_treatment=='fill' else np.nan,
-- 
2.43.0


From d6290b1195b133dab592b66d083f90f1835bf83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:41 +0000
Subject: [PATCH 107/117] fix: choose PCA noise components relative to the
 largest eigenvalue

The absolute machine precision made the noise autocorrelation, and so the
spatial widths, depend on the unit of the cube: none was left in faint data
stored in single precision.
---
 turbustat/statistics/pca/pca.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 8e9ce4a..8ce5757 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -192,7 +192,11 @@ class PCA(BaseStatisticMixIn):
         get for empty channels).
         '''
 
-        return np.where(self.eigvals >= np.finfo(self.data.dtype).eps)[0]
+        # Relative to the largest eigenvalue, so that the unit of the data does
+        # not matter.
+        limit = np.finfo(self.data.dtype).eps * self.eigvals.max()
+
+        return np.where(self.eigvals >= limit)[0]
 
     def eigimages(self, n_eigs=None):
         '''
-- 
2.43.0


From fc23a69c274783bddfa1a2da7bc4cbaf0624640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:49 +0000
Subject: [PATCH 108/117] fix: make_ppv: no extra channel when the range is a
 whole number of widths

---
 turbustat/simulator/make_cube.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/turbustat/simulator/make_cube.py b/turbustat/simulator/make_cube.py
index 93185f6..d5d001b 100644
--- a/turbustat/simulator/make_cube.py
+++ b/turbustat/simulator/make_cube.py
@@ -155,7 +155,10 @@ def make_ppv(vel_field, dens_field, los_axis=0,
         N_chan = int(np.ceil(del_v / (v_eff / 2.)).value)
 
     else:
-        N_chan = int(np.ceil((del_v / chan_width).to(u.one).value))
+        # Rounding should not add a channel when the range is a whole number
+        # of widths
+        n_widths = (del_v / chan_width).to(u.one).value
+        N_chan = int(np.ceil(n_widths * (1 - 1e-10)))
 
     if verbose:
         print("Number of spectral channels {}".format(N_chan))
-- 
2.43.0


From f3909d0f87ad18ad14a2409b11aa31b514b50b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 109/117] fix: VCS: count spectra with missing channels
 whatever their sign

---
 turbustat/statistics/vca_vcs/vcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index a6707b2..241d568 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -66,7 +66,7 @@ class VCS(BaseStatisticMixIn):
 
         if self._has_nan_flag:
             # Is this the best way to be averaging the data?
-            good_pixel_count = np.sum(self.data.max(axis=0) != 0)
+            good_pixel_count = np.sum((self.data != 0).any(axis=0))
         else:
             good_pixel_count = \
                 float(self.data.shape[1] * self.data.shape[2])
-- 
2.43.0


From 88e5d383a1278b61b7ad74ae61399f0ef052239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:41 +0000
Subject: [PATCH 110/117] fix: PCA: start Gaussian spectral fits near the width

---
 turbustat/statistics/pca/width_estimate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index f1be3e6..b086203 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -331,7 +331,11 @@ def WidthEstimate1D(inList, method='walk-down'):
                     scales[idx] = np.nan
                 # scale_errors[idx] = ??
         elif method == 'fit':
-            g = models.Gaussian1D(amplitude=y[0], mean=[0], stddev=[10],
+            # Start from about the 1/e width. The fit may not recover from a
+            # poor initial guess.
+            guess = max(np.argmax(y < y[0] * np.exp(-1)), 1) / np.sqrt(2)
+
+            g = models.Gaussian1D(amplitude=y[0], mean=[0], stddev=[guess],
                                   fixed={'amplitude': True, 'mean': True})
             fit_g = fitting.LevMarLSQFitter()
             minima = argrelmin(y)[0]
-- 
2.43.0


From e2acf25549a5f546216dac8a6ef4efa482c40b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:58 +0000
Subject: [PATCH 111/117] fix: PCA.find_spatial_widths: use the given distance

---
 turbustat/statistics/pca/pca.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 8ce5757..050617c 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -364,6 +364,9 @@ class PCA(BaseStatisticMixIn):
             `turbustat.statistics.stats_utils.EllipseModel.estimate_stderrs`.
 
         '''
+        if distance is not None:
+            self.distance = distance
+
         # Try reading beam width from the header is it is not given.
         if brunt_beamcorrect:
             if beam_fwhm is None:
-- 
2.43.0


From c8f29645a100b839a465fcd8a456cfdac085b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:29 +0000
Subject: [PATCH 112/117] fix: PCA.autocorr_spec: return the last spectra for
 negative n_eigs

---
 turbustat/statistics/pca/pca.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 050617c..18d2bf1 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -296,8 +296,14 @@ class PCA(BaseStatisticMixIn):
         if n_eigs is None:
             n_eigs = self.n_eigs
 
+        if n_eigs < 0:
+            # The last valid components, as in `~PCA.eigimages`.
+            iterat = self._valid_eigenvectors()[n_eigs:]
+        else:
+            iterat = range(n_eigs)
+
         acors = []
-        for idx in range(n_eigs):
+        for idx in iterat:
             fftx = np.fft.fft(self.eigvecs[:, idx])
             fftxs = np.conjugate(fftx)
             acor = np.fft.ifft((fftx - fftx.mean()) * (fftxs - fftxs.mean()))
-- 
2.43.0


From 2f2375fe5cd990a324b361042970ea0b6ef8a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:24 +0000
Subject: [PATCH 113/117] fix: PCA: use the innermost 1/e contour about the
 peak

---
 turbustat/statistics/pca/width_estimate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index b086203..86b701f 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -169,7 +169,9 @@ def WidthEstimate2D(inList, method='contour', noise_ACF=0,
             if len(paths) > 0:
                 pidx = np.where([p.contains_point((0, 0)) for p in paths])[0]
                 if pidx.shape[0] > 0:
-                    good_path = paths[pidx[0]]
+                    # Use the innermost contour about the peak
+                    good_path = min([paths[i] for i in pidx],
+                                    key=lambda p: np.abs(p.vertices).max())
 
                     output = fit_2D_ellipse(good_path.vertices, **fit_kwargs)
                     (y_scales[idx], x_scales[idx], y_scale_errors[idx],
-- 
2.43.0


From 67702764165d4edd45783dbcf55120d676269e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:29 +0000
Subject: [PATCH 114/117] fix: Lm_Seg.model: bend at the fitted break, not at
 the nearest given point

---
 turbustat/statistics/lm_seg.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index daf8cc7..0c3eb3e 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -213,10 +213,11 @@ class Lm_Seg(object):
     def model(self, x=None, model_return=False):
         p = self.params
 
-        trans_pt = np.abs(x - self.brk).argmin()
-
-        mod_eqn = lambda k: p[0] + p[1] * k * (k < self.brk) + \
-            ((p[1] + p[2]) * k + (-p[2]) * k[trans_pt]) * (k >= self.brk)
+        if self.break_fail_flag:
+            mod_eqn = lambda k: p[0] + p[1] * k
+        else:
+            mod_eqn = lambda k: p[0] + p[1] * k + \
+                p[2] * (k - self.brk) * (k >= self.brk)
 
         if model_return or x is None:
             return mod_eqn
-- 
2.43.0


From 80b3c1519c29808c60fb920b32551b67f15ba4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:37 +0000
Subject: [PATCH 115/117] fix: power-spectrum distances: accept one break for
 both data sets

A scalar Quantity is an ndarray, so PSpec_Distance, MVC_Distance and
VCA_Distance indexed it as if it held one break per data set and raised a
TypeError.
---
 turbustat/statistics/mvc/mvc.py            | 3 ++-
 turbustat/statistics/pspec_bispec/pspec.py | 3 ++-
 turbustat/statistics/vca_vcs/vca.py        | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index e202586..995d3e7 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -385,7 +385,8 @@ class MVC_Distance(object):
 
         low_cut, high_cut = check_fit_limits(low_cut, high_cut)
 
-        if not isinstance(breaks, list) and not isinstance(breaks, np.ndarray):
+        # A single Quantity is an ndarray without dimensions.
+        if not isinstance(breaks, list) and np.ndim(breaks) == 0:
             breaks = [breaks] * 2
 
         if pspec2_kwargs is None:
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 0b131f4..281b830 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -264,7 +264,8 @@ class PSpec_Distance(object):
 
         low_cut, high_cut = check_fit_limits(low_cut, high_cut)
 
-        if not isinstance(breaks, list) and not isinstance(breaks, np.ndarray):
+        # A single Quantity is an ndarray without dimensions.
+        if not isinstance(breaks, list) and np.ndim(breaks) == 0:
             breaks = [breaks] * 2
 
         if pspec2_kwargs is None:
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index b2a90cb..5e9aa39 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -269,7 +269,8 @@ class VCA_Distance(object):
 
         low_cut, high_cut = check_fit_limits(low_cut, high_cut)
 
-        if not isinstance(breaks, list) and not isinstance(breaks, np.ndarray):
+        # A single Quantity is an ndarray without dimensions.
+        if not isinstance(breaks, list) and np.ndim(breaks) == 0:
             breaks = [breaks] * 2
 
         if radial_pspec_kwargs2 is None:
-- 
2.43.0


From 7724e6a932d0df6ed3f8344078fc9f4799a4009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:04 +0000
Subject: [PATCH 116/117] fix: Genus_Distance: normalise both curves by the
 area on the sky

Only the first curve was adjusted, and by the ratio of the pixel sizes rather
than of their areas, so the distance of images with different pixels depended
on their order and was non-zero for the same curves of the same field.
---
 turbustat/statistics/genus/genus.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 821433c..156228a 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -619,12 +619,17 @@ class Genus_Distance(object):
 
         points = np.linspace(min_pt, max_pt, 2 * num_pts)
 
-        # Divide each by the area of the data. genus1 is additionally
-        # adjusted by the scale factor of the angular size between the
-        # datasets.
-        genus1 = self.genus1.genus_stats[0, :] / \
-            float(self.genus1.data.size / self.scale)
-        genus2 = self.genus2.genus_stats[0, :] / float(self.genus2.data.size)
+        # Divide each by the area of the data. The scale is the ratio of the
+        # pixel sizes, so both areas are in pixels of the coarser grid.
+        area1 = float(self.genus1.data.size)
+        area2 = float(self.genus2.data.size)
+        if self.scale > 1:
+            area1 /= self.scale**2
+        else:
+            area2 *= self.scale**2
+
+        genus1 = self.genus1.genus_stats[0, :] / area1
+        genus2 = self.genus2.genus_stats[0, :] / area2
 
         interp1 = \
             InterpolatedUnivariateSpline(self.genus1.thresholds,
-- 
2.43.0


From 55e7ab771519eb7ebcb55f1d877453f31210548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:19 +0000
Subject: [PATCH 117/117] fix: PCA_Distance: computed PCAs can use all of their
 eigenvalues

The check meant to catch n_eigs exceeding the number of channels also refused
as many as there are, which is accepted for the cubes themselves.
---
 turbustat/statistics/pca/pca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 18d2bf1..212b7d4 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -1083,7 +1083,7 @@ class PCA_Distance(object):
                      " defined. Re-running PCA decomposition.")
             else:
                 self.pca1.n_eigs = n_eigs
-                if n_eigs >= self.pca1.eigvals.size:
+                if n_eigs > self.pca1.eigvals.size:
                     raise ValueError("n_eigs exceeds the total number of "
                                      "spectral channel for the class given "
                                      "as `cube1`. Choose a smaller `n_eigs`.")
@@ -1107,7 +1107,7 @@ class PCA_Distance(object):
                      " defined. Re-running PCA decomposition.")
             else:
                 self.pca2.n_eigs = n_eigs
-                if n_eigs >= self.pca2.eigvals.size:
+                if n_eigs > self.pca2.eigvals.size:
                     raise ValueError("n_eigs exceeds the total number of "
                                      "spectral channel for the class given "
                                      "as `cube2`. Choose a smaller `n_eigs`.")
-- 
2.43.0

