From a79f00b469def75b12b62db6b82cde2e30e83a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:03 +0000
Subject: [PATCH 01/52] fix: weights of missing pixels do not count in the
 image moments

---
 turbustat/statistics/stat_moments/highstatmoments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 41e95fd..22abfed 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -791,6 +791,9 @@ def compute_moments(img, weights):
 
     '''
 
+    # Only pixels with a finite value count towards the total weight
+    weights = np.where(np.isfinite(img), weights, np.nan)
+
     mean = np.nansum(img * weights) / np.nansum(weights)
     variance = np.nansum(weights * (img - mean) ** 2.) / np.nansum(weights)
 
-- 
2.43.0


From 04c2d5161b51e7939efbc6c89ed8a7130aca97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:03 +0000
Subject: [PATCH 02/52] fix: StatMoments.run passes min_frac on

---
 turbustat/statistics/stat_moments/highstatmoments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 22abfed..e6a9d17 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -469,6 +469,7 @@ class StatMoments(BaseStatisticMixIn):
 
         self.array_moments()
         self.compute_spatial_distrib(periodic=periodic, radius=radius,
+                                     min_frac=min_frac,
                                      show_progress=show_progress)
         self.make_spatial_histograms(**hist_kwargs)
 
-- 
2.43.0


From 33c9421fa693eace536c8d036c4d777038886168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:24 +0000
Subject: [PATCH 03/52] fix: delta-variance lags set in angular or physical
 units are used in pixels

---
 turbustat/statistics/delta_variance/delta_variance.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 989d282..11bc38a 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -181,7 +181,7 @@ class DeltaVariance(BaseStatisticMixIn):
         if show_progress:
             bar = ProgressBar(len(self.lags))
 
-        for i, lag in enumerate(self.lags.value):
+        for i, lag in enumerate(self._to_pixel(self.lags).value):
             core = core_kernel(lag, self.data.shape[0], self.data.shape[1])
             annulus = annulus_kernel(lag, self.diam_ratio, self.data.shape[0],
                                      self.data.shape[1])
@@ -314,7 +314,8 @@ class DeltaVariance(BaseStatisticMixIn):
             Show fit summary when enabled.
         '''
 
-        x = np.log10(self.lags.value)
+        pix_lags = self._to_pixel(self.lags)
+        x = np.log10(pix_lags.value)
         y = np.log10(self.delta_var)
 
         if xlow is not None:
@@ -324,7 +325,7 @@ class DeltaVariance(BaseStatisticMixIn):
         else:
             lower_limit = \
                 np.ones_like(self.delta_var, dtype=bool)
-            xlow = self.lags.min() * 0.99
+            xlow = pix_lags.min() * 0.99
 
         if xhigh is not None:
             xhigh = self._to_pixel(xhigh)
@@ -333,7 +334,7 @@ class DeltaVariance(BaseStatisticMixIn):
         else:
             upper_limit = \
                 np.ones_like(self.delta_var, dtype=bool)
-            xhigh = self.lags.max() * 1.01
+            xhigh = pix_lags.max() * 1.01
 
         self._fit_range = [xlow, xhigh]
 
-- 
2.43.0


From 332f763f756ef6b207ae8c98d1d0ce6ed2e21bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:24 +0000
Subject: [PATCH 04/52] fix: missing pixels carry no weight in the
 delta-variance

---
 turbustat/statistics/delta_variance/delta_variance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 11bc38a..2f1c188 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -958,6 +958,9 @@ def _delvar(array, weight, lag):
     '''
     Computes the delta variance of the given array.
     '''
+    # Missing values in the array carry no weight
+    weight = np.where(np.isnan(array), np.nan, weight)
+
     arr_cent = array.copy() - np.nanmean(array, axis=None)
 
     val = np.nansum(arr_cent ** 2. * weight) /\
-- 
2.43.0


From 56bc92c5e033489f1b47873e7438411ad4b6ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:24 +0000
Subject: [PATCH 05/52] fix: DeltaVariance.convolve_arrays and convolve_weights
 return the kept arrays

---
 turbustat/statistics/delta_variance/delta_variance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 2f1c188..ebe054b 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -267,14 +267,14 @@ class DeltaVariance(BaseStatisticMixIn):
         if len(self._convolved_arrays) == 0:
             warn("Run `DeltaVariance.compute_deltavar` with "
                  "`keep_convolve_arrays=True`")
-        return self._convolve_arrays
+        return self._convolved_arrays
 
     @property
     def convolve_weights(self):
         if len(self._convolved_weights) == 0:
             warn("Run `DeltaVariance.compute_deltavar` with "
                  "`keep_convolve_arrays=True`")
-        return self._convolve_arrays
+        return self._convolved_weights
 
     @property
     def delta_var(self):
-- 
2.43.0


From 49327f4e79dc5efaaa08813a6d9e87730c76ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:54 +0000
Subject: [PATCH 06/52] fix: DeltaVariance_Distance handles pre-computed
 classes and lags2 as documented

---
 .../delta_variance/delta_variance.py           | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index ebe054b..60982de 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -711,7 +711,7 @@ class DeltaVariance_Distance(object):
 
     def __init__(self, dataset1, dataset2, weights1=None, weights2=None,
                  diam_ratio=1.5, lags=None, use_common_lags=True,
-                 delvar_kwargs={}, delvar2_kwargs=None):
+                 delvar_kwargs={}, delvar2_kwargs=None, lags2=None):
         super(DeltaVariance_Distance, self).__init__()
 
         if isinstance(dataset1, DeltaVariance):
@@ -721,7 +721,7 @@ class DeltaVariance_Distance(object):
             _given_data1 = True
             dataset1 = copy(input_data(dataset1, no_header=False))
 
-        if isinstance(dataset1, DeltaVariance):
+        if isinstance(dataset2, DeltaVariance):
             _given_data2 = False
             self.delvar2 = dataset2
         else:
@@ -730,6 +730,12 @@ class DeltaVariance_Distance(object):
 
         self._common_lags = use_common_lags
 
+        # As in `DeltaVariance`, lags without a unit are in pixels
+        if lags is not None and not hasattr(lags, "value"):
+            lags = lags * u.pix
+        if lags2 is not None and not hasattr(lags2, "value"):
+            lags2 = lags2 * u.pix
+
         # Create a default set of lags, in pixels
         if use_common_lags:
             if lags is None:
@@ -796,7 +802,8 @@ class DeltaVariance_Distance(object):
         else:
             # Check if we need to re-run the statistic if the lags are wrong.
             if lags1 is not None:
-                if not (self.delvar1.lags == lags1).all():
+                if not np.array_equal(self.delvar1.lags, lags1):
+                    self.delvar1.lags = lags1
                     self.delvar1.run(**delvar_kwargs)
 
             if not hasattr(self.delvar1, "_slope"):
@@ -816,7 +823,8 @@ class DeltaVariance_Distance(object):
             self.delvar2.run(**delvar2_kwargs)
         else:
             if lags2 is not None:
-                if not (self.delvar2.lags == lags2).all():
+                if not np.array_equal(self.delvar2.lags, lags2):
+                    self.delvar2.lags = lags2
                     self.delvar2.run(**delvar2_kwargs)
 
             if not hasattr(self.delvar2, "_slope"):
@@ -824,7 +832,7 @@ class DeltaVariance_Distance(object):
                      " slope. Re-running delta variance.")
                 if lags2 is not None:
                     self.delvar2._lags = lags2
-                self.delvar2.run(**delvar_kwargs)
+                self.delvar2.run(**delvar2_kwargs)
 
     @property
     def curve_distance(self):
-- 
2.43.0


From fa706944bed5563dc6d0a53edb1659ebf6bc86ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:54 +0000
Subject: [PATCH 07/52] fix: common delta-variance lags given in angular units
 are not rescaled

---
 turbustat/statistics/delta_variance/delta_variance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 60982de..bd5df24 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -774,7 +774,8 @@ class DeltaVariance_Distance(object):
 
             scale = common_scale(wcs1, wcs2)
 
-            if scale == 1.0:
+            if scale == 1.0 or not lags.unit.is_equivalent(u.pix):
+                # Angular and physical lags are already common
                 lags1 = lags
                 lags2 = lags
             elif scale > 1.0:
-- 
2.43.0


From e8ec2c347a45203585ff73aac60e22a095aa1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:54 +0000
Subject: [PATCH 08/52] fix: SCF_Distance with one pre-computed SCF uses the
 lags of the right dataset

---
 turbustat/statistics/scf/scf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index fdb0cde..dffbadb 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -866,12 +866,12 @@ class SCF_Distance(object):
             else:
                 roll_lags1 = roll_lags
 
-            if not _has_data1:
+            if not _has_data2:
                 roll_lags2 = self.scf2._to_pixel(self.scf2.roll_lags)
             else:
                 roll_lags2 = roll_lags
 
-            if not (roll_lags1 == roll_lags2).all():
+            if not np.array_equal(roll_lags1, roll_lags2):
                 raise ValueError("The roll lags must match when using pre-computed SCFs.")
 
         elif scale > 1.0:
@@ -897,7 +897,7 @@ class SCF_Distance(object):
             needs_run1 = False
 
             if roll_lags1.size != self.scf1.roll_lags.size:
-                lag_check = True
+                lag_check = False
             else:
                 lag_check = (roll_lags1 == self.scf1._to_pixel(self.scf1.roll_lags)).all()
 
@@ -928,7 +928,7 @@ class SCF_Distance(object):
             needs_run2 = False
 
             if roll_lags2.size != self.scf2.roll_lags.size:
-                lag_check = True
+                lag_check = False
             else:
                 lag_check = (roll_lags2 == self.scf2._to_pixel(self.scf2.roll_lags)).all()
 
-- 
2.43.0


From a58ad8c3497adb6f22d5e4564c9f3e510f37cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:54 +0000
Subject: [PATCH 09/52] fix: StatMoments_Distance keeps a usable number of bins
 when recomputing

---
 turbustat/statistics/stat_moments/highstatmoments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index e6a9d17..492685b 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -594,7 +594,7 @@ class StatMoments_Distance(object):
                               " or common radius found by "
                               "StatMoments_Distance. Recomputing `moments1`.")
                 self.moments1.radius = radius1
-                self.moments1.nbins = nbins
+                self.moments1.nbins = self.nbins
                 needs_run = True
 
         if needs_run:
-- 
2.43.0


From 085e73d5bb8552d129753c7de09a4298236334ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:11 +0000
Subject: [PATCH 10/52] fix: wavelet break point is a scale in pixels, not an
 inverse

---
 turbustat/statistics/wavelets/wavelet_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 0057818..305a127 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -321,7 +321,7 @@ class Wavelet(BaseStatisticMixIn):
                     x = x[good_pts]
                     y = y[good_pts]
 
-                    self._brk = 10**model.brk / u.pix
+                    self._brk = 10**model.brk * u.pix
 
                     self._slope = model.slopes
 
@@ -331,12 +331,12 @@ class Wavelet(BaseStatisticMixIn):
 
                         self._slope_err = stderrs[1:-1]
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] / u.pix
+                            stderrs[-1] * u.pix
 
                     else:
                         self._slope_err = model.slope_errs
                         self._brk_err = np.log(10) * self.brk.value * \
-                            model.brk_err / u.pix
+                            model.brk_err * u.pix
 
                     self.fit = model.fit
 
-- 
2.43.0


From 359c77e28c0a962f0f885a77e6838352355790d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:21 +0000
Subject: [PATCH 11/52] fix: VCS fit keeps the highest positive frequency of an
 odd number of channels

---
 turbustat/statistics/vca_vcs/vcs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 50edf6f..6c19bcc 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -139,8 +139,8 @@ class VCS(BaseStatisticMixIn):
         # component when fitting. We'll cut off the total power frequency too
         # in case it causes an extra break point (which seems to happen).
         shape = self.freqs.size
-        rfreqs = self.freqs[1:shape // 2].value
-        ps1D = self.ps1D[1:shape // 2]
+        rfreqs = self.freqs[1:(shape + 1) // 2].value
+        ps1D = self.ps1D[1:(shape + 1) // 2]
 
         y = np.log10(ps1D[clip_func(rfreqs, self.low_cut.value,
                                     self.high_cut.value)])
@@ -294,8 +294,8 @@ class VCS(BaseStatisticMixIn):
             ")$^{-1})$"
 
         shape = self.freqs.size
-        rfreqs = self.freqs[1:shape // 2]
-        ps1D = self.ps1D[1:shape // 2]
+        rfreqs = self.freqs[1:(shape + 1) // 2]
+        ps1D = self.ps1D[1:(shape + 1) // 2]
 
         good_interval = clip_func(rfreqs.value, self.low_cut.value,
                                   self.high_cut.value)
-- 
2.43.0


From 3aff9d1a68f0e81afc3d700cb21f656c559b1272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:25 +0000
Subject: [PATCH 12/52] fix: Genus keeps the header of a Projection

---
 turbustat/statistics/genus/genus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index b90d0f5..25168f0 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -80,7 +80,8 @@ class Genus(BaseStatisticMixIn):
                  distance=None):
         super(Genus, self).__init__()
 
-        if isinstance(img, np.ndarray):
+        # Projections are arrays too, but have a header
+        if isinstance(img, np.ndarray) and not hasattr(img, "header"):
             self.need_header_flag = False
             self.data = input_data(img, no_header=True)
             self.header = None
-- 
2.43.0


From 8c76b93cf3f92d2e658c4bdbdef1a2616a6ac28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:09 +0000
Subject: [PATCH 13/52] fix: PowerSpectrum does not alter the given weights

---
 turbustat/statistics/pspec_bispec/pspec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index bc040aa..8edb76e 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -53,6 +53,8 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
             # Get rid of all NaNs
             isnan = np.isnan(self.data)
 
+            # Do not alter the given array
+            weights = weights.copy()
             weights[np.isnan(weights)] = 0.0
             weights[isnan] = 0.0
             self.data[isnan] = 0.0
-- 
2.43.0


From 657ce827b4fe719476db7244857e2680ea2bec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:09 +0000
Subject: [PATCH 14/52] fix: PSpec_Distance accepts fit_kwargs and does not
 alter them

---
 turbustat/statistics/pspec_bispec/pspec.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 8edb76e..22d34d7 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -288,11 +288,11 @@ class PSpec_Distance(object):
             this_pspec_kwargs.pop('high_cut', None)
             this_pspec_kwargs.pop('fit_2D', None)
 
-            if 'fit_kwargs' in this_pspec_kwargs:
-                this_pspec_kwargs['fit_kwargs'].pop('brk', None)
+            fit_kwargs = dict(this_pspec_kwargs.pop('fit_kwargs', {}))
+            fit_kwargs['brk'] = breaks[0]
 
             self.pspec1.run(low_cut=low_cut[0], high_cut=high_cut[0],
-                            fit_kwargs={'brk': breaks[0]},
+                            fit_kwargs=fit_kwargs,
                             fit_2D=False,
                             **this_pspec_kwargs)
         # else:
@@ -316,11 +316,11 @@ class PSpec_Distance(object):
             this_pspec2_kwargs.pop('high_cut', None)
             this_pspec2_kwargs.pop('fit_2D', None)
 
-            if 'fit_kwargs' in this_pspec2_kwargs:
-                this_pspec2_kwargs['fit_kwargs'].pop('brk', None)
+            fit_kwargs = dict(this_pspec2_kwargs.pop('fit_kwargs', {}))
+            fit_kwargs['brk'] = breaks[1]
 
             self.pspec2.run(low_cut=low_cut[1], high_cut=high_cut[1],
-                            fit_kwargs={'brk': breaks[1]},
+                            fit_kwargs=fit_kwargs,
                             fit_2D=False,
                             **this_pspec2_kwargs)
 
-- 
2.43.0


From 0c9bc657c23b4a8243e8fe4dd7a36113ead56997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:09 +0000
Subject: [PATCH 15/52] fix: re-making a PDF uses the given bins, not the bin
 centres as edges

---
 turbustat/statistics/pdf/compare_pdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index cfd0eaa..e8f5f63 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -75,6 +75,7 @@ class PDF(BaseStatisticMixIn):
             self._normalization_type = "None"
 
         self._bins = bins
+        self._input_bins = bins
 
         self._pdf = None
         self._ecdf = None
@@ -92,7 +93,10 @@ class PDF(BaseStatisticMixIn):
         '''
 
         if bins is not None:
-            self._bins = bins
+            self._input_bins = bins
+
+        # `bins` holds the centres afterwards. Start from the given bins.
+        self._bins = self._input_bins
 
         # If the number of bins is not given, use sqrt of data length.
         if self.bins is None:
-- 
2.43.0


From 60f300f379230d85942c9dd44868461e500e8157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:09 +0000
Subject: [PATCH 16/52] fix: Cramer_Distance does not reset the global random
 state

---
 turbustat/statistics/cramer/cramer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/cramer/cramer.py b/turbustat/statistics/cramer/cramer.py
index 1bc1d59..aade6b7 100644
--- a/turbustat/statistics/cramer/cramer.py
+++ b/turbustat/statistics/cramer/cramer.py
@@ -95,7 +95,7 @@ class Cramer_Distance(object):
         if samps1 != samps2:
 
             # Set the seed due to the sampling
-            np.random.seed(seed)
+            rng = np.random.RandomState(seed)
 
             if samps1 < samps2:
 
@@ -103,8 +103,8 @@ class Cramer_Distance(object):
 
                 for i in range(self.data_matrix2.shape[0]):
                     new_data[i, :] = \
-                        np.random.choice(self.data_matrix2[i, :], samps1,
-                                         replace=False)
+                        rng.choice(self.data_matrix2[i, :], samps1,
+                                   replace=False)
 
                 self._data_matrix2 = new_data
 
@@ -114,8 +114,8 @@ class Cramer_Distance(object):
 
                 for i in range(self.data_matrix1.shape[0]):
                     new_data[i, :] = \
-                        np.random.choice(self.data_matrix1[i, :], samps2,
-                                         replace=False)
+                        rng.choice(self.data_matrix1[i, :], samps2,
+                                   replace=False)
 
                 self._data_matrix1 = new_data
 
-- 
2.43.0


From 5cc1a981564827f1f95662fdcb795b3a86dc5240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:09 +0000
Subject: [PATCH 17/52] fix: brightest spectra are taken from the right pixels
 in non-square maps

---
 turbustat/statistics/threeD_to_twoD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index 73e614f..959ffa9 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -84,7 +84,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
         y = np.empty((num_spec,), dtype=int)
 
         for i in range(num_spec):
-            x[i] = int(bright_spectra[i] / cube.shape[1])
+            x[i] = int(bright_spectra[i] // cube.shape[2])
             y[i] = int(bright_spectra[i] % cube.shape[2])
 
         data_matrix = cube[:, x, y]
-- 
2.43.0


From 5d47322441be0170bd608ddd8269d80ecd79bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:09 +0000
Subject: [PATCH 18/52] fix: missing values in the brightest spectra contain no
 emission

---
 turbustat/statistics/threeD_to_twoD.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index 959ffa9..de7ffe1 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -88,6 +88,8 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
             y[i] = int(bright_spectra[i] % cube.shape[2])
 
         data_matrix = cube[:, x, y]
+        # Missing values contain no emission
+        data_matrix[np.isnan(data_matrix)] = 0.
 
     elif data_format is "intensity":
         data_matrix = intensity_data(cube, noise_lim=noise_lim,
-- 
2.43.0


From fd3a3d9a6104109180ca72051a602e34ee18c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:31 +0000
Subject: [PATCH 19/52] fix: Dendrogram_Distance does not alter the given
 keyword dictionaries

---
 turbustat/statistics/dendrograms/dendro_stats.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 784e79e..d3be1ea 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -539,6 +539,13 @@ class Dendrogram_Distance(object):
         if dendro2_kwargs is None:
             dendro2_kwargs = dendro_kwargs
 
+        # These are always set below. Use copies to not alter the inputs.
+        dendro_kwargs = dict(dendro_kwargs)
+        dendro2_kwargs = dict(dendro2_kwargs)
+        for kwargs in (dendro_kwargs, dendro2_kwargs):
+            kwargs.pop('make_hists', None)
+            kwargs.pop('verbose', None)
+
         # if fiducial_model is not None:
         #     self.dendro1 = fiducial_model
         # elif isinstance(dataset1, str):
@@ -552,15 +559,11 @@ class Dendrogram_Distance(object):
                 warn("Dendrogram_Stats needs to be re-run for dataset1 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
                 self.dendro1.run(verbose=False, make_hists=False,
                                  **dendro_kwargs)
         else:
             self.dendro1 = Dendrogram_Stats(dataset1, min_deltas=min_deltas,
                                             dendro_params=dendro_params1)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
             self.dendro1.run(verbose=False, make_hists=False,
                              **dendro_kwargs)
 
@@ -575,16 +578,12 @@ class Dendrogram_Distance(object):
                 warn("Dendrogram_Stats needs to be re-run for dataset2 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
                 self.dendro2.run(verbose=False, make_hists=False,
                                  **dendro2_kwargs)
         else:
             self.dendro2 = \
                 Dendrogram_Stats(dataset2, min_deltas=min_deltas,
                                  dendro_params=dendro_params2)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
             self.dendro2.run(verbose=False, make_hists=False,
                              **dendro2_kwargs)
 
-- 
2.43.0


From 9b98e59642f595f33002eaa0f53cbc84a001a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:32 +0000
Subject: [PATCH 20/52] fix: a segmented fit drops the weights of unusable
 points and checks the break on the fitted range

---
 turbustat/statistics/lm_seg.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index 0f972d1..de49198 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -48,10 +48,6 @@ class Lm_Seg(object):
         if not np.isfinite(self.brk):
             raise ValueError("brk must be a finite value.")
 
-        # Make sure the starting break point is in range of the data
-        if self.x.max() < self.brk or self.x.min() > self.brk:
-            raise ValueError("brk is outside the range in x.")
-
         if weights is not None:
             if x.size != weights.size:
                 raise ValueError("weights must have the same shape as x and y")
@@ -65,10 +61,16 @@ class Lm_Seg(object):
 
         self.y = self.y[good_vals]
         self.x = self.x[good_vals]
+        if self.weights is not None:
+            self.weights = self.weights[good_vals]
 
         if self.x.size <= 3 or self.y.size <= 3:
             raise Warning("Not enough finite points to fit.")
 
+        # Make sure the starting break point is in range of the data
+        if self.x.max() < self.brk or self.x.min() > self.brk:
+            raise ValueError("brk is outside the range in x.")
+
     def fit_model(self, tol=1e-3, iter_max=100, h_step=2.0, epsil_0=10,
                   constant=True, verbose=True, missing='drop', **fit_kwargs):
         '''
-- 
2.43.0


From b3171c846621ac3fecbb55edd872dce7aae01413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:32 +0000
Subject: [PATCH 21/52] fix: a segmented fit can start from a break at the
 smallest x

---
 turbustat/statistics/lm_seg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index de49198..6be3a6b 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -117,7 +117,7 @@ class Lm_Seg(object):
 
             X_all = np.vstack([self.x, U, V]).T
             if constant:
-                X_all = sm.add_constant(X_all)
+                X_all = sm.add_constant(X_all, has_constant='add')
 
             if self.weights is None:
                 model = sm.OLS(self.y, X_all, missing=missing)
@@ -189,7 +189,7 @@ class Lm_Seg(object):
             V = deriv_max(self.x, self.brk)
 
             X_all = np.vstack([self.x, U, V]).T
-            X_all = sm.add_constant(X_all)
+            X_all = sm.add_constant(X_all, has_constant='add')
 
         if self.weights is None:
             model = sm.OLS(self.y, X_all, missing=missing)
-- 
2.43.0


From 7eed320a3cc950241cc018eb7c128411b43a7303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:32 +0000
Subject: [PATCH 22/52] fix: masked channels do not add noise to the errors of
 the higher moments

---
 turbustat/moments/_moment_errs.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/turbustat/moments/_moment_errs.py b/turbustat/moments/_moment_errs.py
index 93340f2..49ed2af 100644
--- a/turbustat/moments/_moment_errs.py
+++ b/turbustat/moments/_moment_errs.py
@@ -306,6 +306,9 @@ def _slice1(cube, axis, scale, moment0, moment1):
     for i in range(cube.shape[axis]):
         view[axis] = i
 
+        plane = cube._mask.include(data=cube._data, wcs=cube._wcs,
+                                   view=tuple(view))
+
         term1 = pix_cen[tuple(view)] / axis_sum
 
         if _scale_cube:
@@ -314,7 +317,8 @@ def _slice1(cube, axis, scale, moment0, moment1):
         else:
             noise_plane = scale
 
-        result += np.power((term1 - term2) * noise_plane, 2)
+        # Only the unmasked channels contribute to the moments.
+        result += plane * np.power((term1 - term2) * noise_plane, 2)
 
     return np.sqrt(result)
 
@@ -376,7 +380,11 @@ def _slice2(cube, axis, scale, moment0, moment1, moment2,
         else:
             noise_plane = scale
 
-        term1 += np.power((term11 - term12) * noise_plane, 2)
+        # Only the unmasked channels contribute to the moments.
+        valid_plane = cube._mask.include(data=cube._data, wcs=cube._wcs,
+                                         view=tuple(view))
+
+        term1 += valid_plane * np.power((term11 - term12) * noise_plane, 2)
 
         term2 += np.nan_to_num(plane) * (pix_cen[tuple(view)] - moment1)
 
@@ -438,8 +446,11 @@ def _cube1(cube, axis, scale, moment0, moment1):
     term1 = pix_cen / axis_sum
     term2 = moment1 / axis_sum
 
-    result = np.sqrt(np.sum(np.power((term1 - term2) *
-                                     np.nan_to_num(noise_plane), 2),
+    # Only the unmasked channels contribute to the moments.
+    valid = cube._mask.include(data=cube._data, wcs=cube._wcs)
+
+    result = np.sqrt(np.sum(valid * np.power((term1 - term2) *
+                                             np.nan_to_num(noise_plane), 2),
                             axis=axis))
 
     good_pix = np.isfinite(moment0) + np.isfinite(moment1)
@@ -476,7 +487,11 @@ def _cube2(cube, axis, scale, moment0, moment1, moment2,
     term11 = np.power((pix_cen - moment1), 2) / axis_sum
     term12 = moment2 / axis_sum
 
-    term1 = np.sum(np.power((term11 - term12) * noise_plane, 2), axis=axis)
+    # Only the unmasked channels contribute to the moments.
+    valid = cube._mask.include(data=cube._data, wcs=cube._wcs)
+
+    term1 = np.sum(valid * np.power((term11 - term12) * noise_plane, 2),
+                   axis=axis)
 
     term21 = u.Quantity(np.nan_to_num(plane) * (pix_cen - moment1))
 
-- 
2.43.0


From d7d4d864fb7d0c54341be6167ad86b865cf9be34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:32 +0000
Subject: [PATCH 23/52] fix: Moments.make_moment_errors uses the noise level it
 is given

---
 turbustat/moments/make_moments.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index 0b3ce45..c770ebf 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -151,16 +151,18 @@ class Moments(object):
         if not hasattr(self, "_moment0"):
             raise ValueError("Run Moments.make_moments first.")
 
-        if self.scale is None and scale is None:
+        if scale is not None:
+            self.scale = scale
+
+        if self.scale is None:
             warn("scale not set to the rms noise and will not be used in "
                  "error calculations.")
-            scale = 0.0 * self.cube.unit
 
             self._moment0_err = np.zeros_like(self.moment0)
             self._moment1_err = np.zeros_like(self.moment1)
             self._linewidth_err = np.zeros_like(self.linewidth)
 
-        elif self.scale is not None:
+        else:
             scale = self.scale
 
             self._moment0_err = moment0_error(self.cube, scale,
-- 
2.43.0


From 0fa4d3b2a2856c85ef6e59457e6040051a6273a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:41 +0000
Subject: [PATCH 24/52] fix: the data format of a cube sample is compared by
 value

---
 turbustat/statistics/threeD_to_twoD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index de7ffe1..b25a9c1 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -69,7 +69,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
     Rearrange data into a 2D object using the given format.
     '''
 
-    if data_format is "spectra":
+    if data_format == "spectra":
         if num_spec is None:
             raise ValueError('Must specify num_spec for data format',
                              'spectra.')
@@ -91,7 +91,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
         # Missing values contain no emission
         data_matrix[np.isnan(data_matrix)] = 0.
 
-    elif data_format is "intensity":
+    elif data_format == "intensity":
         data_matrix = intensity_data(cube, noise_lim=noise_lim,
                                      p=p)
 
-- 
2.43.0


From 56d1a44bbb70b88c876e8bcf67b2d0b8862c3359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:41 +0000
Subject: [PATCH 25/52] fix: the SCF boundary option is compared by value

---
 turbustat/statistics/scf/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index dffbadb..0b30c5d 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -199,7 +199,7 @@ class SCF(BaseStatisticMixIn):
                     shift_func = fourier_shift
                 tmp = shift_func(tmp, y_shift, axis=2)
 
-            if boundary is "cut":
+            if boundary == "cut":
                 # Always round up to the nearest integer.
                 x_shift = np.ceil(x_shift).astype(int)
                 y_shift = np.ceil(y_shift).astype(int)
@@ -219,7 +219,7 @@ class SCF(BaseStatisticMixIn):
 
                 data_slice = (slice(None), x_slice_data, y_slice_data)
                 tmp_slice = (slice(None), x_slice_tmp, y_slice_tmp)
-            elif boundary is "continuous":
+            elif boundary == "continuous":
                 data_slice = (slice(None),) * 3
                 tmp_slice = (slice(None),) * 3
 
-- 
2.43.0


From 97ce3b7a660212d717aac99ac8c4a56f603dec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:14 +0000
Subject: [PATCH 26/52] fix: eigenimages keep the orientation of the map, for
 one component as for several

---
 turbustat/statistics/pca/pca.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 18d5766..4c8fa4f 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -240,7 +240,7 @@ class PCA(BaseStatisticMixIn):
                 eigimgs = np.dstack((eigimgs, eigimg))
 
         if eigimgs.ndim == 3:
-            return eigimgs.swapaxes(0, 2)
+            return np.rollaxis(eigimgs, 2)
         else:
             return eigimgs
 
@@ -267,6 +267,10 @@ class PCA(BaseStatisticMixIn):
         # Calculate the eigenimages
         eigimgs = self.eigimages(n_eigs=n_eigs)
 
+        # A single eigenimage is returned as a 2D array
+        if eigimgs.ndim == 2:
+            eigimgs = eigimgs[np.newaxis]
+
         for idx, image in enumerate(eigimgs):
             fftx = np.fft.fft2(image)
             fftxs = np.conjugate(fftx)
@@ -279,7 +283,7 @@ class PCA(BaseStatisticMixIn):
                 acors = np.dstack((acors, acor.real))
 
         if acors.ndim == 3:
-            return acors.swapaxes(0, 2)
+            return np.rollaxis(acors, 2)
         else:
             return acors
 
-- 
2.43.0


From 980ba7dbe9baba9ecbb3017bc55be84400e1b01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:14 +0000
Subject: [PATCH 27/52] fix: the noise autocorrelation of PCA is the mean over
 the components used

---
 turbustat/statistics/pca/pca.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 4c8fa4f..08a447b 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -336,7 +336,10 @@ class PCA(BaseStatisticMixIn):
 
         acors = self.autocorr_images(n_eigs=n_eigs)
 
-        noise_ACF = np.nansum(acors, axis=0) / float(n_eigs)
+        if acors.ndim == 2:
+            acors = acors[np.newaxis]
+
+        noise_ACF = np.nansum(acors, axis=0) / float(len(acors))
 
         return noise_ACF
 
-- 
2.43.0


From 70bf2aa64cf8549021f516a5b1a2b168b20c3184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:20 +0000
Subject: [PATCH 28/52] fix: spectral width estimates leave the given
 autocorrelations unchanged

---
 turbustat/statistics/pca/width_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index 36c2755..b88ea03 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -352,7 +352,7 @@ def WidthEstimate1D(inList, method='walk-down'):
                 scales[idx] = np.abs(output.stddev.value) * np.sqrt(2)
             scale_errors[idx] = errors[-1] * np.sqrt(2)
         elif method == "walk-down":
-            y /= y.max()
+            y = y / y.max()
             # Starting from the first point, start walking down the curve until
             # 1/e is reached
             for i, val in enumerate(y):
-- 
2.43.0


From 57d9b72d0f3c0ee5aa60c61bf8c1fcf353deb12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:20 +0000
Subject: [PATCH 29/52] fix: the PCA size-linewidth model can be evaluated

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 08a447b..389afcb 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -655,7 +655,7 @@ class PCA(BaseStatisticMixIn):
         '''
         Model with the fit parameters from `~PCA.fit_plaw`
         '''
-        return self.index * x + np.log10(self.intercept)
+        return self.index * x + np.log10(self.intercept().value)
 
     def sonic_length(self, T_k=10 * u.K, mu=1.36, use_gamma=True,
                      unit=u.pix):
-- 
2.43.0


From d0bbb13dd0c5ca9676256f5b15df226d70fd3658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:00 +0000
Subject: [PATCH 30/52] fix: the minimum region of the genus is the area of the
 Gaussian beam

---
 turbustat/statistics/genus/genus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 25168f0..88afa13 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -274,7 +274,7 @@ class Genus(BaseStatisticMixIn):
             major = self._to_pixel(major)
             minor = self._to_pixel(minor)
             # the area of a Gaussian beam is 2 pi sigma^2, and major/minor are FWHMs
-            pix_area = 2 * np.pi * major * minor / np.sqrt(8*np.log(2))
+            pix_area = 2 * np.pi * major * minor / (8*np.log(2))
             min_size = int(np.floor(pix_area.value))
         else:
             if isinstance(min_size, u.Quantity):
-- 
2.43.0


From 975fb69f7d242edd7c8d2e1236f057ee71773f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:00 +0000
Subject: [PATCH 31/52] fix: one genus table per smoothed image

---
 turbustat/statistics/genus/genus.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 88afa13..c727171 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -379,8 +379,6 @@ class Genus(BaseStatisticMixIn):
 
             tab.add_column(Column(std_vals, name='data_std'))
 
-            genus_tables.append(tab)
-
             if hasattr(radius, 'unit'):
                 radius_vals = ([radius.value] * len(self.thresholds)) * radius.unit
             else:
-- 
2.43.0


From f0a730196c8e6ee9c06a669641af6fff7d66fd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:00 +0000
Subject: [PATCH 32/52] fix: a maximum without the units of the image is
 refused by Genus

---
 turbustat/statistics/genus/genus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index c727171..396d137 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -142,7 +142,7 @@ class Genus(BaseStatisticMixIn):
                 if not hasattr(max_value, 'unit') and hasattr(self.data, 'unit'):
                     max_value *= self.data.unit
 
-            if hasattr(max_value, 'unit') and hasattr(self.data, 'unit'):
+            if hasattr(self.data, 'unit'):
                 if not hasattr(max_value, 'unit'):
                     raise TypeError("data has units of {}. 'max_value' must "
                                     "have equivalent units."
-- 
2.43.0


From 0d922ec97b627b15322182e200a3167a3de79d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:00 +0000
Subject: [PATCH 33/52] fix: removing small regions leaves the given mask
 unchanged

---
 turbustat/statistics/genus/genus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 396d137..9eb5f72 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -672,6 +672,8 @@ def remove_small_objects(arr, min_size, connectivity=2):
         Connectivity of the neighborhood.
     '''
 
+    arr = arr.copy()
+
     struct = nd.generate_binary_structure(arr.ndim, connectivity)
 
     labels, num = nd.label(arr, struct)
-- 
2.43.0


From 597fe48df5a06db63612d34e39fae150a8fd1ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:00 +0000
Subject: [PATCH 34/52] fix: Genus_Distance uses the requested number of
 thresholds

---
 turbustat/statistics/genus/genus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 9eb5f72..627971f 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -552,12 +552,14 @@ class Genus_Distance(object):
         img2 = standardize(img2)
 
         self.genus1 = Genus(img1, smoothing_radii=smoothing_radii,
+                            numpts=numpts,
                             min_value=min_value[0], max_value=max_value[0],
                             lowdens_percent=lowdens_percent[0],
                             highdens_percent=highdens_percent[0])
         self.genus1.run(**genus_kwargs)
 
         self.genus2 = Genus(img2, smoothing_radii=smoothing_radii,
+                            numpts=numpts,
                             min_value=min_value[1], max_value=max_value[1],
                             lowdens_percent=lowdens_percent[1],
                             highdens_percent=highdens_percent[1])
-- 
2.43.0


From fdc85ef7697eeccbc35d2b650a8b59666f35fafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:00 +0000
Subject: [PATCH 35/52] fix: match_kernel gives the genus kernel the shape of
 the image

---
 turbustat/statistics/genus/genus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 627971f..1b6126c 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -307,8 +307,8 @@ class Genus(BaseStatisticMixIn):
             else:
                 if match_kernel:
                     kernel = Gaussian2DKernel(width,
-                                              x_size=self.data.shape[0],
-                                              y_size=self.data.shape[1])
+                                              x_size=self.data.shape[1],
+                                              y_size=self.data.shape[0])
                 else:
                     kernel = Gaussian2DKernel(width)
 
-- 
2.43.0


From 39f0ea32c63680b2841956f29fe2eaf8fa79e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:30 +0000
Subject: [PATCH 36/52] fix: percentile limits override wider value limits of
 Genus, as documented

---
 turbustat/statistics/genus/genus.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 1b6126c..c9659ba 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -132,6 +132,15 @@ class Genus(BaseStatisticMixIn):
 
                 min_value = min_value.to(self.data.unit)
 
+            # A higher lower percentile overrides min_value
+            if lowdens_percent != 0.0:
+                low_value = np.nanpercentile(self.data, lowdens_percent)
+
+                if not hasattr(low_value, 'unit') and hasattr(self.data, 'unit'):
+                    low_value *= self.data.unit
+
+                min_value = max(min_value, low_value)
+
             if max_value is None:
 
                 if highdens_percent == 100.0:
@@ -153,6 +162,15 @@ class Genus(BaseStatisticMixIn):
 
                 max_value = max_value.to(self.data.unit)
 
+            # A lower upper percentile overrides max_value
+            if highdens_percent != 100.0:
+                high_value = np.nanpercentile(self.data, highdens_percent)
+
+                if not hasattr(high_value, 'unit') and hasattr(self.data, 'unit'):
+                    high_value *= self.data.unit
+
+                max_value = min(max_value, high_value)
+
             self._thresholds = np.linspace(min_value, max_value, numpts)
 
         self._enable_smoothing = enable_smoothing
-- 
2.43.0


From a116ae778f82e279ea0b7d07560797c8ad3d52c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:38 +0000
Subject: [PATCH 37/52] fix: simulated fields of odd size have the requested
 shape

---
 turbustat/simulator/gen_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/simulator/gen_field.py b/turbustat/simulator/gen_field.py
index a4a1d0f..082b377 100644
--- a/turbustat/simulator/gen_field.py
+++ b/turbustat/simulator/gen_field.py
@@ -122,7 +122,7 @@ def make_3dfield(imsize, powerlaw=2.0, amp=1.0,
     output[0, 0, 0] = output[0, 0, 0].real + 1j * 0.0
     output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
 
-    newmap = np.fft.irfftn(output)
+    newmap = np.fft.irfftn(output, s=(imsize, imsize, imsize))
 
     # Normalize to the correct amplitude.
     newmap /= (np.sqrt(np.sum(newmap**2)) / np.sqrt(newmap.size)) / amp
@@ -252,6 +252,6 @@ def make_extended(imsize, powerlaw=2.0, theta=0., ellip=1.,
 
         return np.fft.fftshift(full_powermap)
 
-    newmap = np.fft.irfft2(output)
+    newmap = np.fft.irfft2(output, s=(imsize, imsize))
 
     return newmap
-- 
2.43.0


From 23da901cd95f833e8fe073333fd565ffae29017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:49 +0000
Subject: [PATCH 38/52] fix: simulated fields of odd size keep the power law at
 their highest frequencies

---
 turbustat/simulator/gen_field.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/turbustat/simulator/gen_field.py b/turbustat/simulator/gen_field.py
index 082b377..aa7c19d 100644
--- a/turbustat/simulator/gen_field.py
+++ b/turbustat/simulator/gen_field.py
@@ -94,33 +94,25 @@ def make_3dfield(imsize, powerlaw=2.0, amp=1.0,
         output[0, Np1, -1] = output[0, Np1, -1].real + 1j * 0.0
         output[Np1, Np1, 0] = output[Np1, Np1, 0].real + 1j * 0.0
         output[Np1, Np1, -1] = output[Np1, Np1, -1].real + 1j * 0.0
+        output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
 
     else:
+        # There is no N/2 frequency for odd shapes: only the 0 frequency plane
+        # holds its own conjugates.
 
         output[1:Np1 + 1, 1:Np1 + 1, 0] = \
             np.conj(output[imsize:Np1:-1, imsize:Np1:-1, 0])
-        output[1:Np1 + 1, 1:Np1 + 1, -1] = \
-            np.conj(output[imsize:Np1:-1, imsize:Np1:-1, -1])
 
         # And the conjugates off the diagonal must also equal:
         output[1:Np1 + 1, imsize:Np1:-1, 0] = \
             np.conj(output[imsize:Np1:-1, 1:Np1 + 1, 0])
-        output[1:Np1 + 1, imsize:Np1:-1, -1] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, -1])
-        output[1:Np1 + 1, imsize:Np1:-1, 0] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, 0])
-        output[1:Np1 + 1, imsize:Np1:-1, -1] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, -1])
 
         # The 2D equivalents along the 0 frequency
         output[1:Np1 + 1, 0, 0] = np.conj(output[imsize:Np1:-1, 0, 0])
-        output[1:Np1 + 1, 0, -1] = np.conj(output[imsize:Np1:-1, 0, -1])
         output[0, 1:Np1 + 1, 0] = np.conj(output[0, imsize:Np1:-1, 0])
-        output[0, 1:Np1 + 1, -1] = np.conj(output[0, imsize:Np1:-1, -1])
 
     # Zero freq components must have no imaginary part to be own conjugate
     output[0, 0, 0] = output[0, 0, 0].real + 1j * 0.0
-    output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
 
     newmap = np.fft.irfftn(output, s=(imsize, imsize, imsize))
 
@@ -222,13 +214,14 @@ def make_extended(imsize, powerlaw=2.0, theta=0., ellip=1.,
         output[1:Np1, -1] = np.conj(output[imsize:Np1:-1, -1])
         output[Np1, 0] = output[Np1, 0].real + 1j * 0.0
         output[Np1, -1] = output[Np1, -1].real + 1j * 0.0
+        output[0, -1] = output[0, -1].real + 1j * 0.0
 
     else:
+        # There is no N/2 frequency for odd shapes: only the 0 frequency column
+        # holds its own conjugates.
         output[1:Np1 + 1, 0] = np.conj(output[imsize:Np1:-1, 0])
-        output[1:Np1 + 1, -1] = np.conj(output[imsize:Np1:-1, -1])
 
     # Zero freq components must have no imaginary part to be own conjugate
-    output[0, -1] = output[0, -1].real + 1j * 0.0
     output[0, 0] = output[0, 0].real + 1j * 0.0
 
     if return_fft:
-- 
2.43.0


From 34156546484ce04b7329443b1c7afa3ae4b50fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:34 +0000
Subject: [PATCH 39/52] fix: bispectra of images that are not square

---
 turbustat/statistics/pspec_bispec/bispec.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/turbustat/statistics/pspec_bispec/bispec.py b/turbustat/statistics/pspec_bispec/bispec.py
index d1072a9..830471e 100644
--- a/turbustat/statistics/pspec_bispec/bispec.py
+++ b/turbustat/statistics/pspec_bispec/bispec.py
@@ -147,6 +147,11 @@ class Bispectrum(BaseStatisticMixIn):
                                       k2mag * np.sin(ang2))
                                   for ang1, ang2 in zip(phi1, phi2)])
 
+                # The FFT is periodic: wrap the wave vectors onto its grid. This
+                # matters for images that are not square.
+                k1x, k2x, k3x = [k % self.shape[0] for k in (k1x, k2x, k3x)]
+                k1y, k2y, k3y = [k % self.shape[1] for k in (k1y, k2y, k3y)]
+
                 samps = fftarr[k1x, k1y] * fftarr[k2x, k2y] * conjfft[k3x, k3y]
 
                 self._bispectrum[k1mag, k2mag] = np.sum(samps)
-- 
2.43.0


From bd4571ff8810be244737d47570d727823584c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:59 +0000
Subject: [PATCH 40/52] fix: simulated fields with a power-law index of zero
 have zero mean

nan**0 is 1, so that the zero frequency, flagged with a NaN radius, kept its
power when the index is 0.
---
 turbustat/simulator/gen_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/simulator/gen_field.py b/turbustat/simulator/gen_field.py
index aa7c19d..559e0e6 100644
--- a/turbustat/simulator/gen_field.py
+++ b/turbustat/simulator/gen_field.py
@@ -53,7 +53,7 @@ def make_3dfield(imsize, powerlaw=2.0, amp=1.0,
 
     output = (rr**(-powerlaw / 2.)).astype('complex') * phases
 
-    output[np.isnan(output)] = 0. + 1j * 0.0
+    output[np.isnan(rr)] = 0. + 1j * 0.0
 
     # Impose symmetry
     # From https://dsp.stackexchange.com/questions/26312/numpys-real-fft-rfft-losing-power
@@ -205,7 +205,7 @@ def make_extended(imsize, powerlaw=2.0, theta=0., ellip=1.,
 
     output = (rr**(-powerlaw / 2.)).astype('complex') * phases
 
-    output[np.isnan(output)] = 0.
+    output[np.isnan(rr)] = 0.
 
     # Impose symmetry
     # From https://dsp.stackexchange.com/questions/26312/numpys-real-fft-rfft-losing-power
-- 
2.43.0


From 477391b87de52fe85cf24b0c58dfa23d34a16e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:19 +0000
Subject: [PATCH 41/52] fix: drop all copies of the input data in save_results
 when keep_data is disabled

---
 turbustat/statistics/base_statistic.py     | 6 +++++-
 turbustat/statistics/mvc/mvc.py            | 1 +
 turbustat/statistics/pdf/compare_pdf.py    | 2 ++
 turbustat/statistics/pspec_bispec/pspec.py | 2 ++
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/base_statistic.py b/turbustat/statistics/base_statistic.py
index 4b9aa9d..46e35d6 100644
--- a/turbustat/statistics/base_statistic.py
+++ b/turbustat/statistics/base_statistic.py
@@ -31,6 +31,9 @@ class BaseStatisticMixIn(object):
     # Disable this when the data property will not be used.
     no_data_flag = False
 
+    # Attributes that hold the input data. Not saved by default.
+    _input_attrs = ('_data',)
+
     @property
     def header(self):
         return self._header
@@ -145,7 +148,8 @@ class BaseStatisticMixIn(object):
 
         # Don't keep the whole cube unless keep_data enabled.
         if not keep_data:
-            self_copy._data = None
+            for attr in self._input_attrs:
+                setattr(self_copy, attr, None)
 
         with open(output_name, 'wb') as output:
                 pickle.dump(self_copy, output, -1)
diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index d284fef..0037f7c 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -217,6 +217,7 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
 
         # Don't keep the whole cube unless keep_data enabled.
         if not keep_data:
+            self_copy._data = None
             self_copy._centroid = None
             self_copy._moment0 = None
             self_copy._linewidth = None
diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index e8f5f63..3d76989 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -41,6 +41,8 @@ class PDF(BaseStatisticMixIn):
     __doc__ %= {"dtypes": " or ".join(common_types + twod_types +
                                       threed_types)}
 
+    _input_attrs = ('_data', 'img')
+
     def __init__(self, img, min_val=-np.inf, bins=None, weights=None,
                  normalization_type=None):
         super(PDF, self).__init__()
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 22d34d7..2dec738 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -35,6 +35,8 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
 
     __doc__ %= {"dtypes": " or ".join(common_types + twod_types)}
 
+    _input_attrs = ('_data', 'weighted_data')
+
     def __init__(self, img, header=None, weights=None, distance=None,
                  beam=None):
         super(PowerSpectrum, self).__init__()
-- 
2.43.0


From e13d7793d0e5fd28bde01fb2cce2f0ace74e234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:37 +0000
Subject: [PATCH 42/52] fix: allow a PDF with a fitted model to be saved

The likelihood class was local to fit_pdf, so that the fitted model could not
be pickled and save_results failed after a fit.
---
 turbustat/statistics/pdf/compare_pdf.py | 92 ++++++++++++++-----------
 1 file changed, 52 insertions(+), 40 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 3d76989..7db2e4f 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -12,6 +12,57 @@ from ..base_statistic import BaseStatisticMixIn
 from ...io import common_types, twod_types, threed_types, input_data
 
 
+class _Likelihood(GenericLikelihoodModel):
+    '''
+    Likelihood of a scipy distribution. Defined here, rather than where it is
+    used in `~PDF.fit_pdf`, so that the fitted model can be pickled.
+    '''
+
+    def __init__(self, endog, model, floc, loc, fscale, scale):
+
+        # Get the number of parameters from shapes.
+        # Add one for scales, since we're assuming loc is frozen.
+        # Keeping loc=0 is appropriate for log-normal models.
+        self.nparams = 1 if model.shapes is None else \
+            len(model.shapes.split(",")) + 1
+
+        self._scipy_model = model
+        self._floc = floc
+        self._loc = loc
+        self._fscale = fscale
+        self._scale = scale
+
+        super(_Likelihood, self).__init__(endog)
+
+    def loglike(self, params):
+        if np.isnan(params).any():
+            return - np.inf
+
+        if not self._floc and not self._fscale:
+            loc = params[-2]
+            scale = params[-1]
+            cut = -2
+        elif not self._floc:
+            loc = params[-1]
+            scale = self._scale
+            cut = -1
+        elif not self._fscale:
+            scale = params[-1]
+            loc = self._loc
+            cut = -1
+
+        loglikes = \
+            self._scipy_model.logpdf(self.endog, *params[:cut],
+                                     scale=scale,
+                                     loc=loc)
+
+        if not np.isfinite(loglikes).all():
+            return -np.inf
+
+        else:
+            return loglikes.sum()
+
+
 class PDF(BaseStatisticMixIn):
     '''
     Create the PDF of a given array.
@@ -219,45 +270,6 @@ class PDF(BaseStatisticMixIn):
 
         self._do_fit = True
 
-        class Likelihood(GenericLikelihoodModel):
-
-            # Get the number of parameters from shapes.
-            # Add one for scales, since we're assuming loc is frozen.
-            # Keeping loc=0 is appropriate for log-normal models.
-            nparams = 1 if model.shapes is None else \
-                len(model.shapes.split(",")) + 1
-
-            _loc = loc
-            _scale = scale
-
-            def loglike(self, params):
-                if np.isnan(params).any():
-                    return - np.inf
-
-                if not floc and not fscale:
-                    loc = params[-2]
-                    scale = params[-1]
-                    cut = -2
-                elif not floc:
-                    loc = params[-1]
-                    scale = self._scale
-                    cut = -1
-                elif not fscale:
-                    scale = params[-1]
-                    loc = self._loc
-                    cut = -1
-
-                loglikes = \
-                    model.logpdf(self.endog, *params[:cut],
-                                 scale=scale,
-                                 loc=loc)
-
-                if not np.isfinite(loglikes).all():
-                    return -np.inf
-
-                else:
-                    return loglikes.sum()
-
         def emcee_fit(model, init_params, burnin=200, steps=2000, thin=10):
 
             try:
@@ -296,7 +308,7 @@ class PDF(BaseStatisticMixIn):
 
         init_params = np.array(init_params)
 
-        self._model = Likelihood(self.data)
+        self._model = _Likelihood(self.data, model, floc, loc, fscale, scale)
 
         self._scipy_model = model
 
-- 
2.43.0


From d98fff32ca97b9ffe4abb39eb536735a74da4eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:09 +0000
Subject: [PATCH 43/52] fix: treat lags without an independent pixel as
 undetermined in the delta-variance

The error is infinite when the map holds fewer valid pixels than the area of
the kernel. Report the value as NaN, like the other undetermined lags.
---
 turbustat/statistics/delta_variance/delta_variance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index bd5df24..0dd27a2 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -252,7 +252,8 @@ class DeltaVariance(BaseStatisticMixIn):
 
             val, err = _delvar(conv_arr, conv_weight, lag)
 
-            if (val <= 0) or (err <= 0) or np.isnan(val) or np.isnan(err):
+            if (val <= 0) or (err <= 0) or not np.isfinite(val) or \
+                    not np.isfinite(err):
                 self._delta_var[i] = np.nan
                 self._delta_var_error[i] = np.nan
             else:
-- 
2.43.0


From c02f979757aadf56014375ff6d2a50a3e581a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:59 +0000
Subject: [PATCH 44/52] fix: spectral widths of monotonic autocorrelations with
 an odd number of channels

---
 turbustat/statistics/pca/width_estimate.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index b88ea03..c86a5e9 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -313,7 +313,7 @@ def WidthEstimate1D(inList, method='walk-down'):
     for idx, y in enumerate(inList.T):
         x = np.fft.fftfreq(len(y)) * len(y)
         if method == 'interpolate':
-            minima = argrelmin(y)[0]
+            minima = _first_minima(y)
             if minima[0] > 1:
                 warn("Error estimation not implemented for interpolation!")
                 interpolator = interp1d(y[0:minima[0] + 1], x[0:minima[0] + 1])
@@ -327,7 +327,7 @@ def WidthEstimate1D(inList, method='walk-down'):
             g = models.Gaussian1D(amplitude=y[0], mean=[0], stddev=[10],
                                   fixed={'amplitude': True, 'mean': True})
             fit_g = fitting.LevMarLSQFitter()
-            minima = argrelmin(y)[0]
+            minima = _first_minima(y)
             if minima[0] > 1:
                 xtrans = np.abs(x)[0:minima[0]]
                 yfit = y[0:minima[0]]
@@ -377,6 +377,20 @@ def WidthEstimate1D(inList, method='walk-down'):
     return scales, scale_errors
 
 
+def _first_minima(y):
+    '''
+    Local minima of an autocorrelation spectrum. The two central points of a
+    monotonic spectrum with odd length are equal, and so neither is a strict
+    minimum.
+    '''
+    minima = argrelmin(y)[0]
+
+    if minima.size == 0:
+        minima = np.array([(y.size - 1) // 2])
+
+    return minima
+
+
 def fit_2D_ellipse(pts, **bootstrap_kwargs):
     '''
     Return ellipse widths
-- 
2.43.0


From cdf27a850a4e096cfd7f23ec215a8a64952c5467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:19 +0000
Subject: [PATCH 45/52] fix: no break uncertainty is left over from an earlier
 fit when a fit has no break

---
 turbustat/statistics/base_pspec2.py                   | 3 ++-
 turbustat/statistics/delta_variance/delta_variance.py | 1 +
 turbustat/statistics/wavelets/wavelet_transform.py    | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 3af1cba..bf92e05 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -277,9 +277,10 @@ class StatisticBase_PSpec2D(object):
                                without break.")
         else:
             self._brk = None
-            self._brk_err = None
 
         if self.brk is None:
+            self._brk_err = None
+
             x = sm.add_constant(x)
 
             if weighted_fit:
diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 0dd27a2..80de36c 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -408,6 +408,7 @@ class DeltaVariance(BaseStatisticMixIn):
         # Revert to model without break if none is given, or if the segmented
         # model failed.
         if self.brk is None:
+            self._brk_err = None
 
             x = sm.add_constant(x)
 
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 305a127..7278610 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -351,6 +351,7 @@ class Wavelet(BaseStatisticMixIn):
         # Revert to model without break if none is given, or if the segmented
         # model failed.
         if self.brk is None:
+            self._brk_err = None
 
             x = sm.add_constant(x)
 
-- 
2.43.0


From f035ba65cd054282df02d0c33c5766c7168abf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:00 +0000
Subject: [PATCH 46/52] fix: uncertainties of an elliptical power-law fit
 belong to the fit that is returned

---
 turbustat/statistics/elliptical_powerlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index 7b51b77..de31e82 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -114,8 +114,8 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
             model_f = LogEllipticalPowerLaw2D(*p0_f)
 
             fitter_f = fitting.LevMarLSQFitter()
-            fit_model_f = fitter(model_f, x, y, values, weights=weights,
-                                 estimate_jacobian=True)
+            fit_model_f = fitter_f(model_f, x, y, values, weights=weights,
+                                   estimate_jacobian=True)
 
             resids_f = np.sum(np.abs(values - fit_model_f(x, y)))
 
-- 
2.43.0


From 14e52b7283139cc356091b6a83229f12fdd2e44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:00 +0000
Subject: [PATCH 47/52] fix: elliptical power-law fits with fixed ellipse
 parameters report one uncertainty per parameter

---
 turbustat/statistics/elliptical_powerlaw.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index de31e82..a943a99 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -181,7 +181,11 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
                      "carefully.")
                 stderrs = np.zeros((4,)) * np.nan
             else:
-                stderrs = np.sqrt(np.abs(np.diag(cov_matrix)))
+                # Fixed parameters are not in the covariance matrix
+                free = [i for i, name in enumerate(fit_model.param_names)
+                        if not fit_model.fixed[name]]
+                stderrs = np.zeros((4,))
+                stderrs[free] = np.sqrt(np.abs(np.diag(cov_matrix)))
 
         params = fit_model.parameters
     else:
-- 
2.43.0


From 62da72482d76b414a458db2e03f49122dc976106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:00 +0000
Subject: [PATCH 48/52] fix: dendrogram histogram distances can be computed
 again on the same object

---
 .../statistics/dendrograms/dendro_stats.py    | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index d3be1ea..9eff7f8 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -715,27 +715,27 @@ class Dendrogram_Distance(object):
         '''
 
         if self.nbins == "best":
-            self.nbins = [np.floor(np.sqrt((n1 + n2) / 2.)) for n1, n2 in
-                          zip(self.dendro1.numfeatures[:self.cutoff],
-                              self.dendro2.numfeatures[:self.cutoff])]
+            nbins = [np.floor(np.sqrt((n1 + n2) / 2.)) for n1, n2 in
+                     zip(self.dendro1.numfeatures[:self.cutoff],
+                         self.dendro2.numfeatures[:self.cutoff])]
         else:
-            self.nbins = [self.nbins] * \
+            nbins = [self.nbins] * \
                 len(self.dendro1.numfeatures[:self.cutoff])
 
-        self.nbins = np.array(self.nbins, dtype=int)
+        nbins = np.array(nbins, dtype=int)
 
         self.histograms1 = \
             np.empty((len(self.dendro1.numfeatures[:self.cutoff]),
-                      np.max(self.nbins)))
+                      np.max(nbins)))
         self.histograms2 = \
             np.empty((len(self.dendro2.numfeatures[:self.cutoff]),
-                      np.max(self.nbins)))
+                      np.max(nbins)))
 
         self.bins = []
 
         for n, (data1, data2, nbin) in enumerate(
                 zip(self.dendro1.values[:self.cutoff],
-                    self.dendro2.values[:self.cutoff], self.nbins)):
+                    self.dendro2.values[:self.cutoff], nbins)):
 
             stand_data1 = standardize(data1)
             stand_data2 = standardize(data2)
@@ -748,13 +748,13 @@ class Dendrogram_Distance(object):
             hist1 = np.histogram(stand_data1, bins=bins,
                                  density=True)[0]
             self.histograms1[n, :] = \
-                np.append(hist1, (np.max(self.nbins) -
+                np.append(hist1, (np.max(nbins) -
                                   bins.size + 1) * [np.nan])
 
             hist2 = np.histogram(stand_data2, bins=bins,
                                  density=True)[0]
             self.histograms2[n, :] = \
-                np.append(hist2, (np.max(self.nbins) -
+                np.append(hist2, (np.max(nbins) -
                                   bins.size + 1) * [np.nan])
 
             # Normalize
@@ -793,7 +793,7 @@ class Dendrogram_Distance(object):
             ax1.set_ylabel("ECDF")
             for n in range(len(self.dendro1.min_deltas[:self.cutoff])):
                 ax1.plot((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                         self.mecdf1[n, :][:self.nbins[n]],
+                         self.mecdf1[n, :][:nbins[n]],
                          plot_kwargs1['symbol'],
                          color=plot_kwargs1['color'])
             ax1.axes.xaxis.set_ticklabels([])
@@ -803,7 +803,7 @@ class Dendrogram_Distance(object):
             ax2.axes.yaxis.set_ticklabels([])
             for n in range(len(self.dendro2.min_deltas[:self.cutoff])):
                 ax2.plot((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                         self.mecdf2[n, :][:self.nbins[n]],
+                         self.mecdf2[n, :][:nbins[n]],
                          plot_kwargs2['symbol'],
                          color=plot_kwargs2['color'])
             ax3 = plt.subplot(2, 2, 3)
@@ -811,7 +811,7 @@ class Dendrogram_Distance(object):
             for n in range(len(self.dendro1.min_deltas[:self.cutoff])):
                 bin_width = self.bins[n][1] - self.bins[n][0]
                 ax3.bar((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                        self.histograms1[n, :][:self.nbins[n]],
+                        self.histograms1[n, :][:nbins[n]],
                         align="center", width=bin_width, alpha=0.25,
                         color=plot_kwargs1['color'])
 
@@ -820,7 +820,7 @@ class Dendrogram_Distance(object):
             for n in range(len(self.dendro2.min_deltas[:self.cutoff])):
                 bin_width = self.bins[n][1] - self.bins[n][0]
                 ax4.bar((self.bins[n][:-1] + self.bins[n][1:]) / 2,
-                        self.histograms2[n, :][:self.nbins[n]],
+                        self.histograms2[n, :][:nbins[n]],
                         align="center", width=bin_width, alpha=0.25,
                         color=plot_kwargs2['color'])
 
-- 
2.43.0


From e40676c32249ffe6a4f446542588f82853b3ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:00 +0000
Subject: [PATCH 49/52] fix: VCA_Distance uses radial_pspec_kwargs2 for the
 second cube

---
 turbustat/statistics/vca_vcs/vca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 8baa9d8..8021f6f 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -308,7 +308,7 @@ class VCA_Distance(object):
             self.vca2.run(fit_kwargs={'brk': breaks[1]},
                           low_cut=low_cut[1],
                           high_cut=high_cut[1],
-                          radial_pspec_kwargs=radial_pspec_kwargs,
+                          radial_pspec_kwargs=radial_pspec_kwargs2,
                           fit_2D=False)
 
     def distance_metric(self, verbose=False, xunit=u.pix**-1,
-- 
2.43.0


From 6ec1cb6a344dfc5d2358ba71334e41d15605c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:00 +0000
Subject: [PATCH 50/52] fix: distance plots leave the caller's plot options
 unchanged

---
 turbustat/statistics/delta_variance/delta_variance.py | 3 +++
 turbustat/statistics/dendrograms/dendro_stats.py      | 6 ++++++
 turbustat/statistics/mvc/mvc.py                       | 3 +++
 turbustat/statistics/pca/pca.py                       | 3 +++
 turbustat/statistics/pdf/compare_pdf.py               | 3 +++
 turbustat/statistics/pspec_bispec/pspec.py            | 3 +++
 turbustat/statistics/scf/scf.py                       | 3 +++
 turbustat/statistics/stat_moments/highstatmoments.py  | 3 +++
 turbustat/statistics/vca_vcs/vca.py                   | 3 +++
 turbustat/statistics/vca_vcs/vcs.py                   | 3 +++
 turbustat/statistics/wavelets/wavelet_transform.py    | 3 +++
 11 files changed, 36 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 80de36c..f968047 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -938,6 +938,9 @@ class DeltaVariance_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 9eff7f8..5606c5d 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -646,6 +646,9 @@ class Dendrogram_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
@@ -773,6 +776,9 @@ class Dendrogram_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 0037f7c..b830797 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -470,6 +470,9 @@ class MVC_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 389afcb..563b22d 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -1170,6 +1170,9 @@ class PCA_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 7db2e4f..8b2ce64 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -740,6 +740,9 @@ class PDF_Distance(object):
             defaults1 = {'color': 'b', 'marker': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'marker': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 2dec738..1cd630f 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -373,6 +373,9 @@ class PSpec_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 0b30c5d..ef96f00 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -1007,6 +1007,9 @@ class SCF_Distance(object):
             defaults1 = {'color': 'b', 'marker': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'marker': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 492685b..ae04da1 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -697,6 +697,9 @@ class StatMoments_Distance(object):
             defaults1 = {'color': 'b', 'label': '1'}
             defaults2 = {'color': 'g', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 8021f6f..bbaa0e1 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -356,6 +356,9 @@ class VCA_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 6c19bcc..c6ca033 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -515,6 +515,9 @@ class VCS_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 7278610..3a936d2 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -719,6 +719,9 @@ class Wavelet_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
-- 
2.43.0


From 8117f40abf5d1d1e986eaf4fe3c4e57123ab4259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:49 +0000
Subject: [PATCH 51/52] fix: power spectrum runs leave the caller's option
 dictionaries unchanged

---
 turbustat/statistics/mvc/mvc.py            | 3 ++-
 turbustat/statistics/pspec_bispec/pspec.py | 4 +++-
 turbustat/statistics/vca_vcs/vca.py        | 4 +++-
 turbustat/statistics/vca_vcs/vcs.py        | 3 ++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index b830797..5e72736 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -273,7 +273,8 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
         fit_kwargs : Passed to `~MVC.fit_pspec`.
         '''
 
-        # Remove threads if in dict
+        # Remove threads if in dict. Use a copy to not alter the input.
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 1cd630f..eee6b51 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -180,11 +180,13 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
             Plot the x-axis as the wavenumber rather than spatial frequency.
         '''
 
-        # Remove threads if in dict
+        # Remove threads if in dict. Use a copy to not alter the input.
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
         # Pop fit_unbinned if given as kwarg in dict.
+        fit_kwargs = dict(fit_kwargs)
         if fit_kwargs.get('fit_unbinned') is not None:
             fit_kwargs.pop('fit_unbinned')
 
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index bbaa0e1..1ce0277 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -182,11 +182,13 @@ class VCA(BaseStatisticMixIn, StatisticBase_PSpec2D):
         fit_kwargs : Passed to `~VCA.fit_pspec`.
         '''
 
-        # Remove threads if in dict
+        # Remove threads if in dict. Use a copy to not alter the input.
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
         # Pop fit_unbinned if given as kwarg in dict.
+        fit_kwargs = dict(fit_kwargs)
         if fit_kwargs.get('fit_unbinned') is not None:
             fit_kwargs.pop('fit_unbinned')
 
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index c6ca033..580fbb2 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -370,7 +370,8 @@ class VCS(BaseStatisticMixIn):
         fit_kwargs : Passed to `~VCS.fit_pspec`.
         '''
 
-        # Remove threads if in dict
+        # Remove threads if in dict. Use a copy to not alter the input.
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
         self.compute_pspec(use_pyfftw=use_pyfftw, threads=threads,
-- 
2.43.0


From f526c6cbf363993461f76c2dadca6175c8a9f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:49 +0000
Subject: [PATCH 52/52] fix: convolved arrays of the delta-variance are those
 of the last run only

---
 turbustat/statistics/delta_variance/delta_variance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index f968047..86aefd6 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -178,6 +178,10 @@ class DeltaVariance(BaseStatisticMixIn):
         self._delta_var = np.empty((len(self.lags)))
         self._delta_var_error = np.empty((len(self.lags)))
 
+        # Do not mix with the arrays of an earlier run
+        self._convolved_arrays = []
+        self._convolved_weights = []
+
         if show_progress:
             bar = ProgressBar(len(self.lags))
 
-- 
2.43.0

