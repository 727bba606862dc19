From e3267d1f4d2b07a0b6d1b13a5e2f3fb02ac8a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:51 +0000
Subject: [PATCH 001/102] fix: M5OptimalStacker declares the limiting-depth
 column it reads

---
 rubin_sim/maf/stackers/m5_optimal_stacker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/stackers/m5_optimal_stacker.py b/rubin_sim/maf/stackers/m5_optimal_stacker.py
index 58fe538..d201643 100644
--- a/rubin_sim/maf/stackers/m5_optimal_stacker.py
+++ b/rubin_sim/maf/stackers/m5_optimal_stacker.py
@@ -85,6 +85,7 @@ class M5OptimalStacker(BaseStacker):
             dec_col,
             sky_bright_col,
             seeing_col,
+            m5_col,
             filter_col,
             moon_alt_col,
             sun_alt_col,
-- 
2.43.0


From 3685e151110052e0d1da2dd4c7d7b154a950752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:51 +0000
Subject: [PATCH 002/102] fix: TeffStacker.units is a list with one entry per
 added column

---
 rubin_sim/maf/stackers/teff_stacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/teff_stacker.py b/rubin_sim/maf/stackers/teff_stacker.py
index e311431..e5629d3 100644
--- a/rubin_sim/maf/stackers/teff_stacker.py
+++ b/rubin_sim/maf/stackers/teff_stacker.py
@@ -127,7 +127,7 @@ class TeffStacker(BaseStacker):
         if self.normed and self.exptime_col not in self.cols_req:
             self.cols_req.append(self.exptime_col)
 
-        self.units = "" if self.normed else "seconds"
+        self.units = ["" if self.normed else "seconds"]
 
     def _run(self, sim_data, cols_present=False):
         if cols_present:
-- 
2.43.0


From 610780b2488f76c06c1313ec236cd98f1044421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:51 +0000
Subject: [PATCH 003/102] fix: MoMagStacker units match its columns and
 cols_req is always set

---
 rubin_sim/maf/stackers/mo_stackers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/mo_stackers.py b/rubin_sim/maf/stackers/mo_stackers.py
index 819de25..c75a34a 100644
--- a/rubin_sim/maf/stackers/mo_stackers.py
+++ b/rubin_sim/maf/stackers/mo_stackers.py
@@ -134,6 +134,7 @@ class MoMagStacker(BaseMoStacker):
             ]
         else:
             self.mag_stacker = AppMagNullStacker()
+            self.cols_req = [m5_col] + self.mag_stacker.cols_req
         self.snr_stacker = SNRStacker(
             app_mag_col="appMag",
             m5_col=m5_col,
@@ -142,7 +143,7 @@ class MoMagStacker(BaseMoStacker):
             random_seed=random_seed,
         )
 
-        self.units = ["mag", "mag", "SNR", ""]
+        self.units = ["mag", "SNR", ""]
 
     def _run(self, sso_obs, href, hval):
         # hval = current H value (useful if cloning over H range),
-- 
2.43.0


From ed4947efafae85697b8a4d689baf7510f35f62a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:51 +0000
Subject: [PATCH 004/102] fix: ZenithDistStacker sets units in radians mode;
 Dcr2Stacker uses a supplied zstacker and declares all its units

---
 rubin_sim/maf/stackers/general_stackers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 7f394bd..d222cdd 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -278,7 +278,7 @@ class ZenithDistStacker(BaseStacker):
         if self.degrees:
             self.units = ["degrees"]
         else:
-            self.unit = ["radians"]
+            self.units = ["radians"]
         self.cols_req = [self.alt_col]
 
     def _run(self, sim_data, cols_present=False):
@@ -562,7 +562,7 @@ class Dcr2Stacker(BaseStacker):
         zstacker=None,
         pastacker=None,
     ):
-        self.units = ["arcsec", "arcsec"]
+        self.units = ["arcsec^2", "arcsec^2", "arcsec^2", "arcsec^2"]
 
         # Calculated using a flat SED, units are arcseconds^2
         if dcr2_magnitudes is None:
@@ -590,7 +590,7 @@ class Dcr2Stacker(BaseStacker):
         if zstacker is None:
             self.zstacker = ZenithDistStacker(alt_col=alt_col, degrees=self.degrees)
         else:
-            self.ztacker = zstacker
+            self.zstacker = zstacker
 
         if pastacker is None:
             self.pastacker = ParallacticAngleStacker(
-- 
2.43.0


From 6b6846dba56f7309919873062e5c160707b89523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:58 +0000
Subject: [PATCH 005/102] fix: metrics forward filter/exposure-time columns to
 the metrics they wrap, and declare them

---
 rubin_sim/maf/maf_contrib/lss_metrics.py         | 16 ++++++++++++----
 .../galaxy_counts_metric_extended.py             |  2 +-
 rubin_sim/maf/metrics/uniformity_metrics.py      |  4 +++-
 .../metrics/weak_lensing_systematics_metric.py   |  2 +-
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/lss_metrics.py b/rubin_sim/maf/maf_contrib/lss_metrics.py
index ac59f3f..a25139a 100644
--- a/rubin_sim/maf/maf_contrib/lss_metrics.py
+++ b/rubin_sim/maf/maf_contrib/lss_metrics.py
@@ -13,12 +13,20 @@ class GalaxyCountsMetric(BaseMetric):
     coadded depth.
     """
 
-    def __init__(self, m5_col="fiveSigmaDepth", nside=128, metric_name="GalaxyCounts", **kwargs):
+    def __init__(
+        self, m5_col="fiveSigmaDepth", nside=128, metric_name="GalaxyCounts", filter_col="band", **kwargs
+    ):
         self.m5_col = m5_col
-        super(GalaxyCountsMetric, self).__init__(col=self.m5_col, metric_name=metric_name, **kwargs)
+        self.filter_col = filter_col
         # Use the extinction corrected coadded depth metric to calculate
         # the depth at each point.
-        self.coaddmetric = ExgalM5(m5_col=self.m5_col)
+        self.coaddmetric = ExgalM5(m5_col=self.m5_col, filter_col=self.filter_col)
+        super(GalaxyCountsMetric, self).__init__(
+            col=[self.m5_col, self.filter_col],
+            maps=self.coaddmetric.maps,
+            metric_name=metric_name,
+            **kwargs,
+        )
         # Total of 41253.0 galaxies across the sky (at what magnitude?).
         # This didn't seem to work quite right for me..
         self.scale = 41253.0 / hp.nside2npix(nside) / 5000.0
@@ -34,7 +42,7 @@ class GalaxyCountsMetric(BaseMetric):
 
     def run(self, data_slice, slice_point=None):
         # Calculate the coadded depth.
-        coaddm5 = self.coaddmetric.run(data_slice)
+        coaddm5 = self.coaddmetric.run(data_slice, slice_point)
         # Calculate the number of galaxies.
         # From Carroll et al, 2014 SPIE (http://arxiv.org/abs/1501.04733)
         # I'm not entirely certain this gives a properly calibrated number
diff --git a/rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py b/rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py
index 94a8aac..de1d4be 100644
--- a/rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py
+++ b/rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py
@@ -100,7 +100,7 @@ class GalaxyCountsMetricExtended(BaseMetric):
         # Specific band (e.g. r-band) will be provided by the sql constraint.
         if self.include_dust_extinction:
             # include dust extinction when calculating the co-added depth
-            self.coaddmetric = ExgalM5(m5_col=self.m5_col)
+            self.coaddmetric = ExgalM5(m5_col=self.m5_col, filter_col=self.filter_col)
         else:
             self.coaddmetric = Coaddm5Metric(m5_col=self.m5_col)
 
diff --git a/rubin_sim/maf/metrics/uniformity_metrics.py b/rubin_sim/maf/metrics/uniformity_metrics.py
index 97d1659..efce211 100644
--- a/rubin_sim/maf/metrics/uniformity_metrics.py
+++ b/rubin_sim/maf/metrics/uniformity_metrics.py
@@ -335,7 +335,9 @@ class NestedRIZExptimeExgalM5Metric(BaseMetric):
 
         cols = [self.m5_col, self.filter_col, self.exptime_col]
         super().__init__(cols, metric_name=metric_name, maps=maps, badval=badval, **kwargs)
-        self.riz_exptime_metric = RIZDetectionCoaddExposureTime(ebvlim=extinction_cut)
+        self.riz_exptime_metric = RIZDetectionCoaddExposureTime(
+            exp_time_col=exptime_col, filter_col=filter_col, ebvlim=extinction_cut
+        )
         self.exgalm5_metric = ExgalM5WithCuts(
             m5_col=m5_col,
             filter_col=filter_col,
diff --git a/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py b/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
index 54e0c4e..07a2c65 100644
--- a/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
+++ b/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
@@ -42,7 +42,7 @@ class ExgalM5WithCuts(BaseMetric):
         self.lsst_filter = lsst_filter
         # I thought about inheriting from ExGalM5 instead, but the columns
         # specification is more complicated
-        self.exgal_m5 = ExgalM5(m5_col=m5_col, units=units)
+        self.exgal_m5 = ExgalM5(m5_col=m5_col, filter_col=filter_col, units=units)
         super().__init__(
             col=[self.m5_col, self.filter_col],
             metric_name=metric_name,
-- 
2.43.0


From cd00ab4f079dcd2bba5e4ad913e8d192bbb80e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:58 +0000
Subject: [PATCH 006/102] fix: metrics declare every visit column they read

---
 rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py | 6 +++---
 rubin_sim/maf/metrics/calibration_metrics.py           | 1 +
 rubin_sim/maf/metrics/simple_metrics.py                | 5 ++++-
 rubin_sim/maf/metrics/sn_cadence_metric.py             | 4 +++-
 rubin_sim/maf/metrics/sn_snr_metric.py                 | 4 +++-
 5 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py b/rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py
index a5cfa54..7fe1534 100644
--- a/rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py
+++ b/rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py
@@ -39,9 +39,9 @@ class PhotometricSelfCalUniformityMetric(BaseMetric):
         filter_name="r",
     ):
         cols = [
-            "observationid",
-            "fieldra",
-            "fielddec",
+            "observationId",
+            "fieldRA",
+            "fieldDec",
             "fiveSigmaDepth",
             "rotSkyPos",
             "filter",
diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 87e7584..c68ff54 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -480,6 +480,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
             "dec_dcr_amp",
             seeing_col,
             m5_col,
+            filter_col,
         ]
         super(ParallaxDcrDegenMetric, self).__init__(cols, metric_name=metric_name, units=units, **kwargs)
         self.mags = {}
diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index f2b5bde..ba4df21 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -94,7 +94,10 @@ class Coaddm5Metric(BaseMetric):
         self.filter_name = filter_name
         self.filter_col = filter_col
         self.m5_col = m5_col
-        super().__init__(col=m5_col, metric_name=metric_name, units=units, **kwargs)
+        cols = [m5_col]
+        if filter_name is not None:
+            cols.append(filter_col)
+        super().__init__(col=cols, metric_name=metric_name, units=units, **kwargs)
 
     @staticmethod
     def coadd(single_visit_m5s):
diff --git a/rubin_sim/maf/metrics/sn_cadence_metric.py b/rubin_sim/maf/metrics/sn_cadence_metric.py
index 5b8dd1b..6fefbc0 100644
--- a/rubin_sim/maf/metrics/sn_cadence_metric.py
+++ b/rubin_sim/maf/metrics/sn_cadence_metric.py
@@ -60,6 +60,8 @@ class SNCadenceMetric(metrics.BaseMetric):
             self.vistime_col,
             self.exptime_col,
             self.season_col,
+            self.ra_col,
+            self.dec_col,
         ]
         if coadd:
             cols += ["coadd"]
@@ -73,7 +75,7 @@ class SNCadenceMetric(metrics.BaseMetric):
     def run(self, data_slice, slice_point=None):
         # Cut down to only include filters in correct wave range.
 
-        good_filters = np.isin(data_slice["filter"], self.filter_names)
+        good_filters = np.isin(data_slice[self.filter_col], self.filter_names)
         data_slice = data_slice[good_filters]
         if data_slice.size == 0:
             return None
diff --git a/rubin_sim/maf/metrics/sn_snr_metric.py b/rubin_sim/maf/metrics/sn_snr_metric.py
index ca8f742..829deb4 100644
--- a/rubin_sim/maf/metrics/sn_snr_metric.py
+++ b/rubin_sim/maf/metrics/sn_snr_metric.py
@@ -72,6 +72,8 @@ class SNSNRMetric(metrics.BaseMetric):
             self.vistime_col,
             self.exptime_col,
             self.season_col,
+            self.ra_col,
+            self.dec_col,
         ]
         if coadd:
             cols += ["coadd"]
@@ -107,7 +109,7 @@ class SNSNRMetric(metrics.BaseMetric):
         -------
         detection rate : `float`
         """
-        good_filters = np.isin(data_slice["filter"], self.filter_names)
+        good_filters = np.isin(data_slice[self.filter_col], self.filter_names)
         data_slice = data_slice[good_filters]
         if data_slice.size == 0:
             return None
-- 
2.43.0


From 7740279f4e773bc3a62eea49aac6e0b4c2c73bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:58 +0000
Subject: [PATCH 007/102] fix: metrics do not write to the visits they share
 with other metrics

---
 rubin_sim/maf/metrics/galplane_time_sampling_metrics.py | 3 +--
 rubin_sim/maf/metrics/string_count_metric.py            | 6 ++++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
index e00a8f4..69048b0 100644
--- a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
+++ b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
@@ -213,8 +213,7 @@ class GalPlaneSeasonGapsTimescaleMetric(BaseMetric):
         ):
             return self.badval
         # Find the length of the gaps between each season
-        times = data_slice[self.mjd_col]
-        times.sort()
+        times = np.sort(data_slice[self.mjd_col])
         # data = np.sort(data_slice[self.mjd_col], order=self.mjd_col)
         # SlicePoints ra/dec are always in radians -
         # convert to degrees to calculate season
diff --git a/rubin_sim/maf/metrics/string_count_metric.py b/rubin_sim/maf/metrics/string_count_metric.py
index f8c5b1a..50f17b1 100644
--- a/rubin_sim/maf/metrics/string_count_metric.py
+++ b/rubin_sim/maf/metrics/string_count_metric.py
@@ -66,9 +66,11 @@ class StringCountMetric(BaseMetric):
                         replace_col.append(val)
                 else:
                     replace_col.append(val)
-            data_slice[self.col] = replace_col
+            col_values = replace_col
+        else:
+            col_values = data_slice[self.col]
 
-        counter = Counter(data_slice[self.col])
+        counter = Counter(col_values)
         # convert to a numpy array
         lables = list(counter.keys())
         # Numpy can't handle empty string as a dtype
-- 
2.43.0


From 9131344b46d6f3f9b1ac6594a0031d4a1a402752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:58 +0000
Subject: [PATCH 008/102] fix: metrics do not carry values from one slice into
 the next

---
 rubin_sim/maf/maf_contrib/microlensing_metric.py     |  4 ++--
 .../maf/maf_contrib/transient_ascii_sed_metric.py    |  9 ++++++---
 rubin_sim/maf/metrics/mo_summary_metrics.py          | 12 ++++++------
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/microlensing_metric.py b/rubin_sim/maf/maf_contrib/microlensing_metric.py
index c4cdc38..bf0279b 100644
--- a/rubin_sim/maf/maf_contrib/microlensing_metric.py
+++ b/rubin_sim/maf/maf_contrib/microlensing_metric.py
@@ -378,8 +378,8 @@ class MicrolensingMetric(metrics.BaseMetric):
                     fs=fs,
                     fb=fb,
                 )
-                self.mags[filtername] = slice_point["apparent_m_{}".format(filtername)]
-                amplified_mags[infilt] = self.mags[filtername] - 2.5 * np.log10(amplitudes[infilt])
+                mag = slice_point["apparent_m_{}".format(filtername)]
+                amplified_mags[infilt] = mag - 2.5 * np.log10(amplitudes[infilt])
 
             else:
                 amplified_mags[infilt] = self.mags[filtername] - 2.5 * np.log10(amplitudes[infilt])
diff --git a/rubin_sim/maf/maf_contrib/transient_ascii_sed_metric.py b/rubin_sim/maf/maf_contrib/transient_ascii_sed_metric.py
index 4e8fb70..e8df4d7 100644
--- a/rubin_sim/maf/maf_contrib/transient_ascii_sed_metric.py
+++ b/rubin_sim/maf/maf_contrib/transient_ascii_sed_metric.py
@@ -133,8 +133,10 @@ class TransientAsciiSEDMetric(BaseMetric):
             **kwargs,
         )
         # Continue setting the initial attributes.
-        self.survey_duration = survey_duration
-        self.survey_start = survey_start
+        # The values requested here; the values used for each slice are
+        # derived from these and the data in that slice.
+        self.min_survey_duration = survey_duration
+        self.input_survey_start = survey_start
         self.detect_snr = detect_snr
         self.num_pre_time = num_pre_time
         self.pre_time = pre_time
@@ -506,9 +508,10 @@ class TransientAsciiSEDMetric(BaseMetric):
         data_slice_time_span = (data_slice[self.mjd_col].max() - data_slice[self.mjd_col].min()) / 365.25
         # Take the maximum time delta, either specified or from the slicer, to
         # be the survey duration.
-        self.survey_duration = np.max([data_slice_time_span, self.survey_duration])
+        self.survey_duration = np.max([data_slice_time_span, self.min_survey_duration])
 
         # Set the survey start based on the slicer unless otherwise specified.
+        self.survey_start = self.input_survey_start
         if self.survey_start is None:
             self.survey_start = data_slice[self.mjd_col].min()
         return data_slice
diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 451d8a1..9f93685 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -392,6 +392,7 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
     """
 
     def __init__(self, times, hval=None, cumulative=None, hindex=0.33, **kwargs):
+        self.requested_hval = hval
         self.hval = hval
         self.times = times
         self.hindex = hindex
@@ -449,14 +450,13 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
             for i, t in enumerate(self.times):
                 completeness[i] = integrate_over_h(completeness[i], h_vals)
         # To save the summary statistic, we must pick out a given H value.
-        if self.hval is None:
+        if self.requested_hval is None:
             hidx = len(h_vals) // 2
-            self.hval = h_vals[hidx]
-            self._set_labels()
         else:
-            hidx = np.where(np.abs(h_vals - self.hval) == np.abs(h_vals - self.hval).min())[0][0]
-            self.hval = h_vals[hidx]
-            self._set_labels()
+            dh = np.abs(h_vals - self.requested_hval)
+            hidx = np.where(dh == dh.min())[0][0]
+        self.hval = h_vals[hidx]
+        self._set_labels()
         summary_val = np.empty(len(self.times), dtype=[("name", np.str_, 20), ("value", float)])
         summary_val["value"] = completeness[:, hidx]
         for i, time in enumerate(self.times):
-- 
2.43.0


From 2de8d812f729599f555a24189e8586cab3bb3751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:58 +0000
Subject: [PATCH 009/102] fix: GRBTransientMetric uses a supplied survey_start

---
 rubin_sim/maf/maf_contrib/grb_transient_metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/grb_transient_metric.py b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
index 89eb910..eaeddd7 100644
--- a/rubin_sim/maf/maf_contrib/grb_transient_metric.py
+++ b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
@@ -158,7 +158,8 @@ class GRBTransientMetric(metrics.BaseMetric):
             n_trans_max += np.floor(self.survey_duration / (self.trans_duration / 365.25))
             if tshift != 0:
                 n_trans_max -= 1
-            if self.survey_start is None:
+            survey_start = self.survey_start
+            if survey_start is None:
                 survey_start = data_slice[self.mjd_col].min()
             time = (data_slice[self.mjd_col] - survey_start + tshift) % self.trans_duration
 
-- 
2.43.0


From 9312afe66b3557352d31a7c1253e0803a0e3e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 010/102] fix: SNNSNMetric applies dust extinction to its own
 copy of the visits

---
 rubin_sim/maf/metrics/sn_n_sn_metric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/sn_n_sn_metric.py b/rubin_sim/maf/metrics/sn_n_sn_metric.py
index cdfe15e..f58947a 100644
--- a/rubin_sim/maf/metrics/sn_n_sn_metric.py
+++ b/rubin_sim/maf/metrics/sn_n_sn_metric.py
@@ -251,6 +251,8 @@ class SNNSNMetric(BaseMetric):
                 in_filt = np.where(data_slice[self.filter_col] == filtername)[0]
                 a_x = self.ax1[filtername] * slice_point["ebv"]
                 new_m5[in_filt] = data_slice[self.m5_col][in_filt] - a_x
+            # Do not change the visits shared with other metrics
+            data_slice = data_slice.copy()
             data_slice[self.m5_col] = new_m5
 
         # select observations filter
-- 
2.43.0


From dbb2b1a1059c6d82fc5ac44839cc918ebfb9b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 011/102] fix: GalPlaneSeasonGapsTimescaleMetric asks for the
 map it reads

---
 rubin_sim/maf/metrics/galplane_time_sampling_metrics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
index 69048b0..7d98396 100644
--- a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
+++ b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
@@ -200,7 +200,12 @@ class GalPlaneSeasonGapsTimescaleMetric(BaseMetric):
             tau_reduce_name = f"reduce_Tau_{tau:.1f}".replace(".", "_")
             newmethod = help_set_reduce_func(self, None, tau)
             setattr(self, tau_reduce_name, MethodType(newmethod, tau_reduce_name))
-        super().__init__(col=[self.mjd_col, self.m5_col], metric_name=metric_name, **kwargs)
+        super().__init__(
+            col=[self.mjd_col, self.m5_col],
+            metric_name=metric_name,
+            maps=["GalacticPlanePriorityMap"],
+            **kwargs,
+        )
         for i, tau in enumerate(self.tau_var):
             self.reduce_order[f"reduce_Tau_{tau:.1f}".replace(".", "_").replace("reduce", "")] = i
 
-- 
2.43.0


From ab409b7ec00ce0a6b427d73bef16fa7a55150813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:24 +0000
Subject: [PATCH 012/102] fix: Sed.renormalize_sed works when normalizing fnu

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index ca1523c..f5392fe 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1502,7 +1502,7 @@ class Sed:
                     + "is outside defined wavelength range."
                 )
             if gap == 0:
-                fnu_atpt = numpy.interp(lambdanorm, wavelen, flambda, left=None, right=None)
+                fnu_atpt = numpy.interp(lambdanorm, wavelen, fnu, left=None, right=None)
                 gapval = fnu_atpt
             else:
                 lambdapt = numpy.arange(lambdanorm - gap, lambdanorm + gap, wavelen_step, dtype=float)
@@ -1516,7 +1516,7 @@ class Sed:
                 )
             konst = normvalue / gapval
             fnu = fnu * konst
-            wavelen, flambda = self.fnutoflambda(wavelen, fnu)
+            wavelen, flambda = self.fnu_toflambda(wavelen, fnu)
         if update_self:
             self.wavelen = wavelen
             self.flambda = flambda
-- 
2.43.0


From a0da07924cebc16b7624c7016b3963704c76df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:24 +0000
Subject: [PATCH 013/102] fix: phaseGap batch uses the current PhaseGapMetric
 interface and applies extraSql

---
 rubin_sim/maf/batches/time_sci_batch.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/batches/time_sci_batch.py b/rubin_sim/maf/batches/time_sci_batch.py
index 9506202..99c1ecc 100644
--- a/rubin_sim/maf/batches/time_sci_batch.py
+++ b/rubin_sim/maf/batches/time_sci_batch.py
@@ -69,8 +69,7 @@ def phaseGap(
     if info_label is not None:
         info_labels = [combine_info_labels(m, info_label) for m in info_labels]
     if extraSql is not None and len(extraSql) > 0:
-        for sql in sqls:
-            sqls[sql] = "(%s) and (%s)" % (sqls[sql], extraSql)
+        sqls = ["(%s) and (%s)" % (sql, extraSql) if len(sql) > 0 else extraSql for sql in sqls]
 
     for sql, md, f in zip(sqls, info_labels, filter_names):
         for period in periods:
@@ -80,14 +79,14 @@ def phaseGap(
                 "caption": "Maximum phase gap, given a period of %.2f days." % period,
             }
             metric = metrics.PhaseGapMetric(
-                nPeriods=1,
-                periodMin=period,
-                periodMax=period,
-                nVisitsMin=5,
+                n_periods=1,
+                period_min=period,
+                period_max=period,
+                n_visits_min=5,
                 metric_name="PhaseGap %.1f day" % period,
             )
-            metric.reduceFuncs = {metric.reduceFuncs["reduceLargestGap"]}
-            metric.reduceOrder = {0}
+            metric.reduce_funcs = {"largest_gap": metric.reduce_funcs["largest_gap"]}
+            metric.reduce_order = {"largest_gap": 0}
             bundle = mb.MetricBundle(
                 metric,
                 slicer,
-- 
2.43.0


From cd2eaa0a91666942e610f78162118102805e4686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:24 +0000
Subject: [PATCH 014/102] fix: calls to metrics and plotters use parameters the
 callee accepts

---
 rubin_sim/maf/batches/radar_limited.py             | 2 +-
 rubin_sim/maf/metrics/cadence_metrics.py           | 2 +-
 rubin_sim/maf/metrics/cosmology_summary_metrics.py | 8 ++++----
 rubin_sim/maf/plots/hg_plotters.py                 | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/batches/radar_limited.py b/rubin_sim/maf/batches/radar_limited.py
index 4014085..08784f4 100644
--- a/rubin_sim/maf/batches/radar_limited.py
+++ b/rubin_sim/maf/batches/radar_limited.py
@@ -532,7 +532,7 @@ def radar_limited(
         sqlconstraint += " and scheduler_note not like 'DD%'"
         info_label = f"{bandpass} band non-DD year {yr_cut}"
         ThreebyTwoSummary_simple = metrics.StaticProbesFoMEmulatorMetricSimple(
-            nside=nside, year=yr_cut, metric_name="3x2ptFoM_simple"
+            year=yr_cut, metric_name="3x2ptFoM_simple"
         )
         ThreebyTwoSummary = maf.StaticProbesFoMEmulatorMetric(nside=nside, metric_name="3x2ptFoM")
 
diff --git a/rubin_sim/maf/metrics/cadence_metrics.py b/rubin_sim/maf/metrics/cadence_metrics.py
index 5e29bd9..29dc694 100644
--- a/rubin_sim/maf/metrics/cadence_metrics.py
+++ b/rubin_sim/maf/metrics/cadence_metrics.py
@@ -21,7 +21,7 @@ class FSMetric(BaseMetric):
     def __init__(self, filter_col="band", metric_name="fS", **kwargs):
         self.filter_col = filter_col
         cols = [self.filter_col]
-        super().__init__(cols=cols, metric_name=metric_name, units="fS", **kwargs)
+        super().__init__(col=cols, metric_name=metric_name, units="fS", **kwargs)
 
     def run(self, data_slice, slice_point=None):
         # We could import this from the m5_flat_sed values,
diff --git a/rubin_sim/maf/metrics/cosmology_summary_metrics.py b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
index 89eb1c6..7633b00 100644
--- a/rubin_sim/maf/metrics/cosmology_summary_metrics.py
+++ b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
@@ -1010,11 +1010,11 @@ class UDropoutsNumbersShallowestDepth(BaseMetric):
     """
 
     def __init__(self, filter_list=["u", "g", "r", "i", "z", "y"], **kwargs):
-        super().__init__(col="metricdata", percentile=5, **kwargs)
+        super().__init__(col="metricdata", **kwargs)
         # Set mask_val, so that we receive metric_values.filled(mask_val)
         self.mask_val = hp.UNSEEN
         self.badval = hp.UNSEEN
-        self.percentileMetric = PercentileMetric(percentile=5, name="percentile")
+        self.percentileMetric = PercentileMetric(col="metricdata", percentile=5, metric_name="percentile")
         self.filter_list = filter_list
 
     def run(self, data_slice, slice_point=None):
@@ -1176,11 +1176,11 @@ class UDropoutsArea(BaseMetric):
     """
 
     def __init__(self, filter_list=["u", "g", "r", "i", "z", "y"], **kwargs):
-        super().__init__(col="metricdata", percentile=5, **kwargs)
+        super().__init__(col="metricdata", **kwargs)
         # Set mask_val, so that we receive metric_values.filled(mask_val)
         self.mask_val = hp.UNSEEN
         self.badval = hp.UNSEEN
-        self.percentileMetric = PercentileMetric(percentile=5, name="percentile")
+        self.percentileMetric = PercentileMetric(col="metricdata", percentile=5, metric_name="percentile")
         self.filter_list = filter_list
 
     def run(self, data_slice, slice_point=None):
diff --git a/rubin_sim/maf/plots/hg_plotters.py b/rubin_sim/maf/plots/hg_plotters.py
index 2eaa2b6..34a463f 100644
--- a/rubin_sim/maf/plots/hg_plotters.py
+++ b/rubin_sim/maf/plots/hg_plotters.py
@@ -146,7 +146,7 @@ class GeneralHourglassPlot(BasePlotter):
 
         ax = fig.add_axes([0, 0, 1, 1])  # pylint: disable=invalid-name
         color_mappable = self._plot_one_axis(intervals, ax)
-        self._add_axis_labels(ax, self.plot_dict)
+        self._add_axis_labels(ax)
         return [color_mappable, np.array([ax])]
 
     def _plot_one_axis(self, intervals, ax, epoch_mjd=None):  # pylint: disable=invalid-name
@@ -612,7 +612,7 @@ class RangeHourglassPlot(GeneralHourglassPlot):
         """
         ax = fig.add_axes([0, 0, 1, 1])  # pylint: disable=invalid-name
         color_mappable = self._plot_dates(intervals, self.start_date, self.end_date, ax)
-        self._add_axis_labels(ax, self.plot_dict)
+        self._add_axis_labels(ax)
         return color_mappable, np.array([ax])
 
 
-- 
2.43.0


From cd10ec311f941c889b4d101a6441b36b5e5f746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:24 +0000
Subject: [PATCH 015/102] fix: calc_wd_colors imports rubin_sim.phot_utils by
 its current name

---
 rubin_sim/maf/utils/stellar_mags.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/utils/stellar_mags.py b/rubin_sim/maf/utils/stellar_mags.py
index 2b454cc..9ddcd4b 100644
--- a/rubin_sim/maf/utils/stellar_mags.py
+++ b/rubin_sim/maf/utils/stellar_mags.py
@@ -15,7 +15,7 @@ def calc_wd_colors():
 
         from lsst.utils import getPackageDir
 
-        from rubin_sim.photUtils import Bandpass, Sed
+        from rubin_sim.phot_utils import Bandpass, Sed
     except ImportError:
         "Need to setup sims_photUtils to generate WD magnitudes."
 
@@ -38,15 +38,15 @@ def calc_wd_colors():
             dtype=list(zip(["wave", "trans"], [float] * 2)),
         )
         temp_b = Bandpass()
-        temp_b.setBandpass(bp["wave"], bp["trans"])
+        temp_b.set_bandpass(bp["wave"], bp["trans"])
         bps.append(temp_b)
 
     # Read in the SEDs and compute mags
     mags = []
     for filename in files:
         star = Sed()
-        star.readSED_flambda(filename)
-        single_mags = [star.calcMag(band) for band in bps]
+        star.read_sed_flambda(filename)
+        single_mags = [star.calc_mag(band) for band in bps]
         mags.append([single_mags[i - 1] - single_mags[i] for i in range(1, 6)])
 
     for maglist, fn, name in zip(mags, fns, names):
-- 
2.43.0


From fe2fde903493c8ccab7820df995d2c90a77f1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:50 +0000
Subject: [PATCH 016/102] fix: unsupported option values raise ValueError
 instead of an unassigned variable

---
 rubin_sim/maf/maf_contrib/intervals_between_obs_metric.py | 3 +++
 rubin_sim/maf/maf_contrib/presto_color_kne_pop_metric.py  | 2 ++
 rubin_sim/maf/run_comparison/microlensing_compare.py      | 2 ++
 rubin_sim/maf/run_moving_calc.py                          | 2 ++
 rubin_sim/maf/utils/stellar_mags.py                       | 2 +-
 rubin_sim/phot_utils/sed.py                               | 2 ++
 6 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/intervals_between_obs_metric.py b/rubin_sim/maf/maf_contrib/intervals_between_obs_metric.py
index f608e36..7bc03b8 100644
--- a/rubin_sim/maf/maf_contrib/intervals_between_obs_metric.py
+++ b/rubin_sim/maf/maf_contrib/intervals_between_obs_metric.py
@@ -65,4 +65,7 @@ class IntervalsBetweenObsMetric(BaseMetric):
         elif self.stat == "std":
             result = np.std(obs_diff)
 
+        else:
+            raise ValueError("stat must be one of 'mean', 'median' or 'std', not %s" % self.stat)
+
         return result
diff --git a/rubin_sim/maf/maf_contrib/presto_color_kne_pop_metric.py b/rubin_sim/maf/maf_contrib/presto_color_kne_pop_metric.py
index 107a323..46c6ce4 100644
--- a/rubin_sim/maf/maf_contrib/presto_color_kne_pop_metric.py
+++ b/rubin_sim/maf/maf_contrib/presto_color_kne_pop_metric.py
@@ -60,6 +60,8 @@ def _load_hash(
         file_path = os.path.join(data_dir, "maf", file_galactic)
     elif skyregion == "extragalactic":
         file_path = os.path.join(data_dir, "maf", file_extragalactic)
+    else:
+        raise ValueError("skyregion must be 'galactic' or 'extragalactic', not %s" % skyregion)
 
     with open(file_path, "rb") as f:
         _load_hash.InfoDict = pickle.load(f)
diff --git a/rubin_sim/maf/run_comparison/microlensing_compare.py b/rubin_sim/maf/run_comparison/microlensing_compare.py
index 4fbc295..f44fcc3 100644
--- a/rubin_sim/maf/run_comparison/microlensing_compare.py
+++ b/rubin_sim/maf/run_comparison/microlensing_compare.py
@@ -138,6 +138,8 @@ def get_results(df, run_type, fisher_sigmat_e_t_e_cutoff=0.1):
     elif run_type == "Fisher":
         # Fraction of events with sigmatE/tE below the cutoff of 0.1
         result = len(np.where(df["metric_values"] < fisher_sigmat_e_t_e_cutoff)[0]) / total
+    else:
+        raise ValueError("run_type must be one of 'detect', 'Npts' or 'Fisher', not %s" % run_type)
 
     return result
 
diff --git a/rubin_sim/maf/run_moving_calc.py b/rubin_sim/maf/run_moving_calc.py
index a3c354b..9adae8f 100755
--- a/rubin_sim/maf/run_moving_calc.py
+++ b/rubin_sim/maf/run_moving_calc.py
@@ -132,6 +132,8 @@ def run_moving_calc():
         h_mark = args.h_mark
     if args.characterization is not None:
         characterization = args.characterization
+    if characterization.lower() not in ("inner", "outer"):
+        raise ValueError("characterization must be 'inner' or 'outer', not %s" % characterization)
     Hrange = np.arange(h_min, h_max + h_step, h_step)
 
     # Default parameters for metric setup.
diff --git a/rubin_sim/maf/utils/stellar_mags.py b/rubin_sim/maf/utils/stellar_mags.py
index 9ddcd4b..bca9cbd 100644
--- a/rubin_sim/maf/utils/stellar_mags.py
+++ b/rubin_sim/maf/utils/stellar_mags.py
@@ -17,7 +17,7 @@ def calc_wd_colors():
 
         from rubin_sim.phot_utils import Bandpass, Sed
     except ImportError:
-        "Need to setup sims_photUtils to generate WD magnitudes."
+        raise ImportError("Need to setup sims_photUtils to generate WD magnitudes.")
 
     names = ["HeWD_25200_80", "WD_11000_85", "WD_3000_85"]
     fns = [
diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index f5392fe..fed0d82 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1517,6 +1517,8 @@ class Sed:
             konst = normvalue / gapval
             fnu = fnu * konst
             wavelen, flambda = self.fnu_toflambda(wavelen, fnu)
+        else:
+            raise ValueError("normflux must be 'flambda' or 'fnu', not %s" % normflux)
         if update_self:
             self.wavelen = wavelen
             self.flambda = flambda
-- 
2.43.0


From a9f27f136212900b6f5d9fd15a17a88f6deed6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:50 +0000
Subject: [PATCH 017/102] fix: assign survey_start, color_limits, colorbar
 label, idx_order and k_atm on every path

---
 rubin_sim/maf/metrics/transient_metrics.py    | 2 ++
 rubin_sim/maf/plots/hg_plotters.py            | 8 ++++----
 rubin_sim/maf/plots/mo_plotters.py            | 2 +-
 rubin_sim/maf/run_comparison/summary_plots.py | 6 ++++--
 rubin_sim/maf/stackers/general_stackers.py    | 9 +++++----
 5 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/maf/metrics/transient_metrics.py b/rubin_sim/maf/metrics/transient_metrics.py
index fe66128..d95b656 100644
--- a/rubin_sim/maf/metrics/transient_metrics.py
+++ b/rubin_sim/maf/metrics/transient_metrics.py
@@ -196,6 +196,8 @@ class TransientMetric(BaseMetric):
                 n_trans_max -= 1
             if self.survey_start is None:
                 survey_start = data_slice[self.mjd_col].min()
+            else:
+                survey_start = self.survey_start
             time = (data_slice[self.mjd_col] - survey_start + tshift) % self.trans_duration
 
             # Which lightcurve does each point belong to
diff --git a/rubin_sim/maf/plots/hg_plotters.py b/rubin_sim/maf/plots/hg_plotters.py
index 34a463f..56cc556 100644
--- a/rubin_sim/maf/plots/hg_plotters.py
+++ b/rubin_sim/maf/plots/hg_plotters.py
@@ -289,13 +289,13 @@ class GeneralHourglassPlot(BasePlotter):
         # Manages the mapping of metric values to colors in the
         # horizonatal lines in the hourglass plot.
         cmap = self.plot_dict["cmap"]
+        try:
+            color_limits = self.plot_dict["color_limits"]
+        except KeyError:
+            color_limits = (values.min(), values.max())
         if values.max() == values.min():
             colors = cmap(0.5)
         else:
-            try:
-                color_limits = self.plot_dict["color_limits"]
-            except KeyError:
-                color_limits = (values.min(), values.max())
             colors = cmap((values - color_limits[0]) / (color_limits[1] - color_limits[0]))
 
         norm = mpl.colors.Normalize(vmin=color_limits[0], vmax=color_limits[1])
diff --git a/rubin_sim/maf/plots/mo_plotters.py b/rubin_sim/maf/plots/mo_plotters.py
index 0e8b99b..bdd4819 100644
--- a/rubin_sim/maf/plots/mo_plotters.py
+++ b/rubin_sim/maf/plots/mo_plotters.py
@@ -351,7 +351,7 @@ class MetricVsOrbitPoints(BasePlotter):
             label = plot_dict["label"]
             if label is None:
                 label = ""
-        cbar.set_label(label + " @ H=%.1f" % (hval))
+            cbar.set_label(label + " @ H=%.1f" % (hval))
         plt.title(plot_dict["title"])
         plt.xlabel(plot_dict["xlabel"])
         plt.ylabel(plot_dict["ylabel"])
diff --git a/rubin_sim/maf/run_comparison/summary_plots.py b/rubin_sim/maf/run_comparison/summary_plots.py
index 3f26343..ae4010b 100644
--- a/rubin_sim/maf/run_comparison/summary_plots.py
+++ b/rubin_sim/maf/run_comparison/summary_plots.py
@@ -330,11 +330,13 @@ def plot_run_metric(
 
     plot_df.set_index("color", inplace=True)
 
-    # 'color' or 'plot_df.index' is now either 'run' or 'metric'
+    # 'color' or 'plot_df.index' is now 'run' or 'metric' (or binned 'value')
     if color_quantity == "run":
         idx_order = run_order
-    if color_quantity == "metric":
+    elif color_quantity == "metric":
         idx_order = metric_order
+    else:
+        idx_order = plot_df.index.dropna().unique().sort_values()
     for idx in idx_order:  # plot_df.index.unique():
         # Due to weirdness with matplotlib arg handling,
         # make sure we get to pass the style argument
diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index d222cdd..20ecad7 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -81,11 +81,12 @@ class SaturationStacker(BaseStacker):
         self.km = km
 
     def _run(self, sim_data, cols_present=False):
-        if self.zeropoints is None:
+        if self.zeropoints is None or self.km is None:
             zp_inst, k_atm = load_inst_zeropoints()
-            self.zeropoints = zp_inst
-        if self.km is None:
-            self.km = k_atm
+            if self.zeropoints is None:
+                self.zeropoints = zp_inst
+            if self.km is None:
+                self.km = k_atm
         for filtername in np.unique(sim_data[self.filter_col]):
             in_filt = np.where(sim_data[self.filter_col] == filtername)[0]
             # Calculate the length of the on-sky time per EXPOSURE
-- 
2.43.0


From 0e540655551bc8a4a27db6eb79ab5d20d9b2dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:50 +0000
Subject: [PATCH 018/102] fix: default wavelength step of
 Sed.multiply_sed/renormalize_sed; SNSNRMetric.gen_fakes uses the current
 interface

---
 rubin_sim/maf/metrics/sn_snr_metric.py | 18 ++++++++++++++----
 rubin_sim/phot_utils/sed.py            |  4 ++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/metrics/sn_snr_metric.py b/rubin_sim/maf/metrics/sn_snr_metric.py
index 829deb4..6748790 100644
--- a/rubin_sim/maf/metrics/sn_snr_metric.py
+++ b/rubin_sim/maf/metrics/sn_snr_metric.py
@@ -469,8 +469,8 @@ class SNSNRMetric(metrics.BaseMetric):
             # build the configuration file
 
             config_fake = {}
-            config_fake["Ra"] = field_ra
-            config_fake["Dec"] = field_dec
+            config_fake["ra"] = field_ra
+            config_fake["dec"] = field_dec
             config_fake["bands"] = [band]
             config_fake["Cadence"] = [cadence]
             config_fake["MJD_min"] = [mjd_min]
@@ -479,9 +479,19 @@ class SNSNRMetric(metrics.BaseMetric):
             m5_nocoadd = m5 - 1.25 * np.log10(float(nvisits) * tvisit / 30.0)
             config_fake["m5"] = [m5_nocoadd]
             config_fake["seasons"] = [val["season"]]
-            config_fake["Exposure_Time"] = [30.0]
+            config_fake["exposure__time"] = [30.0]
             config_fake["shift_days"] = 0.0
-            fake_obs_season = GenerateFakeObservations(config_fake).Observations
+            fake_obs_season = GenerateFakeObservations(
+                config_fake,
+                mjd_col=self.mjd_col,
+                ra_col=self.ra_col,
+                dec_col=self.dec_col,
+                filter_col=self.filter_col,
+                m5_col=self.m5_col,
+                exptime_col=self.exptime_col,
+                nexp_col=self.nexp_col,
+                season_col=self.season_col,
+            ).observations
             if fake_obs is None:
                 fake_obs = fake_obs_season
             else:
diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index fed0d82..90447f7 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1146,7 +1146,7 @@ class Sed:
         """
 
         if wavelen_step is None:
-            wavelen_step = self._phys_params.wavelenstep
+            wavelen_step = 0.1
 
         # Check if the wavelength arrays are equal
         # (in which case do not resample)
@@ -1430,7 +1430,7 @@ class Sed:
         # Start normalizing wavelen/flambda.
 
         if wavelen_step is None:
-            wavelen_step = self._phys_params.wavelenstep
+            wavelen_step = 0.1
 
         if normflux == "flambda":
             update_self = self._check_use_self(wavelen, flambda)
-- 
2.43.0


From 21934d778408ce97140ef6788b77b73ddfd1e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 019/102] fix: leaving out an optional argument no longer leads
 to None being used as a value

---
 rubin_sim/maf/metrics/summary_metrics.py     | 2 ++
 rubin_sim/maf/plots/hg_plotters.py           | 2 +-
 rubin_sim/maf/run_comparison/archive.py      | 2 +-
 rubin_sim/moving_objects/direct_obs.py       | 2 ++
 rubin_sim/phot_utils/bandpass.py             | 2 +-
 rubin_sim/phot_utils/sed.py                  | 2 ++
 rubin_sim/skybrightness/interp_components.py | 2 ++
 rubin_sim/skybrightness/sky_model.py         | 2 ++
 8 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/summary_metrics.py b/rubin_sim/maf/metrics/summary_metrics.py
index 72a35d7..ee0e878 100644
--- a/rubin_sim/maf/metrics/summary_metrics.py
+++ b/rubin_sim/maf/metrics/summary_metrics.py
@@ -31,6 +31,8 @@ class FootprintFractionMetric(BaseMetric):
 
     def __init__(self, footprint=None, n_min=1, **kwargs):
         super().__init__(**kwargs)
+        if footprint is None:
+            raise ValueError("A HEALpix footprint to compare to must be specified.")
         self.footprint = footprint
         self.nside = hp.npix2nside(footprint.size)
         self.npix = np.where(self.footprint > 0)[0].size
diff --git a/rubin_sim/maf/plots/hg_plotters.py b/rubin_sim/maf/plots/hg_plotters.py
index 56cc556..3d60b40 100644
--- a/rubin_sim/maf/plots/hg_plotters.py
+++ b/rubin_sim/maf/plots/hg_plotters.py
@@ -149,7 +149,7 @@ class GeneralHourglassPlot(BasePlotter):
         self._add_axis_labels(ax)
         return [color_mappable, np.array([ax])]
 
-    def _plot_one_axis(self, intervals, ax, epoch_mjd=None):  # pylint: disable=invalid-name
+    def _plot_one_axis(self, intervals, ax, epoch_mjd=0):  # pylint: disable=invalid-name
         """Actually add the data to one axis of an hourglass plot
 
         includes adding the twilight/transit lines, does not include any
diff --git a/rubin_sim/maf/run_comparison/archive.py b/rubin_sim/maf/run_comparison/archive.py
index 30f3fa0..3e56122 100644
--- a/rubin_sim/maf/run_comparison/archive.py
+++ b/rubin_sim/maf/run_comparison/archive.py
@@ -565,7 +565,7 @@ def describe_families(
                 print(description)
                 print(these_runs.set_index("run"))
 
-    if plot_metric_subset is not None:
+    if plot_metric_subset is not None and summary is not None:
         these_runs = family_runs["run"].values
         if baseline_run is not None and baseline_run not in these_runs:
             these_runs = np.concatenate([[baseline_run], these_runs])
diff --git a/rubin_sim/moving_objects/direct_obs.py b/rubin_sim/moving_objects/direct_obs.py
index db3040f..2abe10c 100644
--- a/rubin_sim/moving_objects/direct_obs.py
+++ b/rubin_sim/moving_objects/direct_obs.py
@@ -183,6 +183,8 @@ class DirectObs(BaseObs):
             MJD values for each pre-computed position.
         """
 
+        if object_mjds is not None and object_positions is None:
+            raise ValueError("object_positions must be provided along with object_mjds.")
         # If we are trying to use pre-computed positions,
         # check that the MJDs span the necessary time.
         if object_mjds is not None:
diff --git a/rubin_sim/phot_utils/bandpass.py b/rubin_sim/phot_utils/bandpass.py
index 02abb87..cad6d33 100644
--- a/rubin_sim/phot_utils/bandpass.py
+++ b/rubin_sim/phot_utils/bandpass.py
@@ -295,7 +295,7 @@ class Bandpass:
         wavelen_max = wavelen_max
         wavelen_step = wavelen_step
         # Is method acting on self.wavelen/sb or passed in wavelen/sb?
-        update_self = (wavelen is None) & (sb is None)
+        update_self = self.check_use_self(wavelen, sb)
         if update_self:
             wavelen = self.wavelen
             sb = self.sb
diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 90447f7..4cd501c 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1106,6 +1106,8 @@ class Sed:
         # Input parameters for reddening can include any of 3 parameters;
         # only 2 are independent.
         # Figure out what parameters were given, and see if self-consistent.
+        if (a_v is None) and (ebv is None):
+            raise ValueError("Must specify at least one of a_v or ebv.")
         if r_v == 3.1:
             if a_v is None:
                 a_v = r_v * ebv
diff --git a/rubin_sim/skybrightness/interp_components.py b/rubin_sim/skybrightness/interp_components.py
index 887e9bc..c766413 100644
--- a/rubin_sim/skybrightness/interp_components.py
+++ b/rubin_sim/skybrightness/interp_components.py
@@ -162,6 +162,8 @@ class BaseSingleInterp:
     """
 
     def __init__(self, comp_name=None, sorted_order=["airmass", "nightTimes"], mags=False):
+        if comp_name is None:
+            raise ValueError("A sky component name must be specified.")
         self.mags = mags
 
         data_dir = os.path.join(get_data_dir(), "skybrightness", "ESO_Spectra/" + comp_name)
diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index b0518f5..6cadc7b 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -751,6 +751,8 @@ class SkyModel:
             for i, f in enumerate(self.filter_names):
                 mags_back[f] = mags[i]
         else:
+            if bandpasses is None:
+                raise ValueError("Must specify bandpasses when calculating spectra (mags=False).")
             mags_back = {}
             for key in bandpasses:
                 mags = np.zeros(self.npts, dtype=float) - 666
-- 
2.43.0


From d65e5c48f3d7590e22e5c34f6a561f9a3759db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:55 +0000
Subject: [PATCH 020/102] fix: CountRatioMetric units, ModelObservatory nside
 and completeness hindex options take effect

---
 rubin_sim/maf/metrics/mo_summary_metrics.py             | 6 +++---
 rubin_sim/maf/metrics/simple_metrics.py                 | 2 +-
 rubin_sim/satellite_constellations/model_observatory.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 9f93685..6edf916 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -77,7 +77,7 @@ def pha_dndh_granvik(hvalues, **kwargs):
 
 
 def pha_dndh_grav(hvalues, **kwargs):
-    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff[hvalues][-1])) / 0.1
+    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff(hvalues)[-1])) / 0.1
     y1 = 23.5 * np.power(10, 0.35 * (hvalues - 18.5))
     dndh = y1 * binratio
     return dndh
@@ -352,7 +352,7 @@ class MoCompletenessMetric(BaseMoMetric):
             completeness = n_found.astype(float) / n_all.astype(float)
             completeness = np.where(n_all == 0, 0, completeness)
         if self.cumulative:
-            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, Hindex=self.hindex)
+            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, hindex=self.hindex)
             summary_val = np.empty(len(completeness_int), dtype=[("name", np.str_, 20), ("value", float)])
             summary_val["value"] = completeness_int
             for i, Hval in enumerate(h_vals):
@@ -448,7 +448,7 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
         completeness = completeness_h.swapaxes(0, 1)
         if self.cumulative:
             for i, t in enumerate(self.times):
-                completeness[i] = integrate_over_h(completeness[i], h_vals)
+                completeness[i] = integrate_over_h(completeness[i], h_vals, hindex=self.hindex)
         # To save the summary statistic, we must pick out a given H value.
         if self.requested_hval is None:
             hidx = len(h_vals) // 2
diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index ba4df21..acfece2 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -265,7 +265,7 @@ class CountRatioMetric(BaseMetric):
         self.norm_val = float(norm_val)
         if metric_name is None:
             metric_name = "CountRatio %s div %.1f" % (col, norm_val)
-        super(CountRatioMetric, self).__init__(col=col, metric_name=metric_name, **kwargs)
+        super(CountRatioMetric, self).__init__(col=col, metric_name=metric_name, units=units, **kwargs)
 
     def run(self, data_slice, slice_point=None):
         return len(data_slice[self.colname]) / self.norm_val
diff --git a/rubin_sim/satellite_constellations/model_observatory.py b/rubin_sim/satellite_constellations/model_observatory.py
index 43186f9..ec85a10 100644
--- a/rubin_sim/satellite_constellations/model_observatory.py
+++ b/rubin_sim/satellite_constellations/model_observatory.py
@@ -77,7 +77,7 @@ class ModelObservatory(oMO):
 
         # Run the rest of the regular __init__ steps
         super().__init__(
-            nside=None,
+            nside=nside,
             mjd_start=self.mjd_start,
             seed=seed,
             alt_min=alt_min,
-- 
2.43.0


From b5d07e9bcb208220453f832078be18176d1ba899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:55 +0000
Subject: [PATCH 021/102] fix: run_moving_calc reports a missing simulation_db;
 drop unused time grid

---
 rubin_sim/maf/run_moving_calc.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/rubin_sim/maf/run_moving_calc.py b/rubin_sim/maf/run_moving_calc.py
index 9adae8f..97e007e 100755
--- a/rubin_sim/maf/run_moving_calc.py
+++ b/rubin_sim/maf/run_moving_calc.py
@@ -4,7 +4,6 @@ import argparse
 import os
 
 import numpy as np
-from rubin_scheduler.utils import SURVEY_START_MJD
 
 from rubin_sim.maf.slicers import MoObjSlicer
 
@@ -107,12 +106,12 @@ def run_moving_calc():
     )
     args = parser.parse_args()
 
-    run_name = os.path.split(args.simulation_db)[-1].replace(".db", "")
-
-    if args.orbit_file is None or args.obs_file is None:
-        print("Must specify an orbit_file and an obs_file to calculate the metrics.")
+    if args.orbit_file is None or args.obs_file is None or args.simulation_db is None:
+        print("Must specify an orbit_file, an obs_file and a simulation_db to calculate the metrics.")
         exit()
 
+    run_name = os.path.split(args.simulation_db)[-1].replace(".db", "")
+
     # Get default H and other values:
     defaults = batches.ss_population_defaults(args.objtype)
     h_min = defaults["h_range"][0]
@@ -136,16 +135,6 @@ def run_moving_calc():
         raise ValueError("characterization must be 'inner' or 'outer', not %s" % characterization)
     Hrange = np.arange(h_min, h_max + h_step, h_step)
 
-    # Default parameters for metric setup.
-    if args.start_time is None:
-        start_time = SURVEY_START_MJD
-    else:
-        start_time = args.start_time
-
-    stepsize = 365 / 2.0
-    times = np.arange(0, args.n_years_max * 365 + stepsize / 2, stepsize)
-    times += start_time
-
     # Set up results_db.
     if not (os.path.isdir(args.out_dir)):
         try:
-- 
2.43.0


From 7d9afbf660ee3deefe0978bd3dbf8bd4239002b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:55 +0000
Subject: [PATCH 022/102] fix: use the monopole-subtracted data, full bad-value
 mask, captions and uncached slicer that were computed and dropped

---
 rubin_sim/maf/batches/radar_limited.py             | 3 ++-
 rubin_sim/maf/batches/science_radar_batch.py       | 1 +
 rubin_sim/maf/batches/srd_batch.py                 | 1 +
 rubin_sim/maf/metrics/cosmology_summary_metrics.py | 7 +++----
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/batches/radar_limited.py b/rubin_sim/maf/batches/radar_limited.py
index 08784f4..151d37f 100644
--- a/rubin_sim/maf/batches/radar_limited.py
+++ b/rubin_sim/maf/batches/radar_limited.py
@@ -266,6 +266,7 @@ def radar_limited(
         )
         caption = "Correlation between parallax offset magnitude and hour angle for a r=%.1f star." % (rmag)
         caption += " (0 is good, near -1 or 1 is bad)."
+        displayDict["caption"] = caption
         bundle = mb.MetricBundle(
             metric,
             healpixslicer,
@@ -483,7 +484,7 @@ def radar_limited(
         metric = metrics.SurfaceBrightLimitMetric()
         bundle = mb.MetricBundle(
             metric,
-            healpixslicer,
+            slicer,
             sql,
             display_dict=displayDict,
             summary_metrics=summary,
diff --git a/rubin_sim/maf/batches/science_radar_batch.py b/rubin_sim/maf/batches/science_radar_batch.py
index 3256c22..29e0e70 100644
--- a/rubin_sim/maf/batches/science_radar_batch.py
+++ b/rubin_sim/maf/batches/science_radar_batch.py
@@ -270,6 +270,7 @@ def science_radar_batch(
         )
         caption = "Correlation between parallax offset magnitude and hour angle for a r=%.1f star." % (rmag)
         caption += " (0 is good, near -1 or 1 is bad)."
+        displayDict["caption"] = caption
         bundle = mb.MetricBundle(
             metric,
             healpixslicer,
diff --git a/rubin_sim/maf/batches/srd_batch.py b/rubin_sim/maf/batches/srd_batch.py
index e1a7e34..d038929 100644
--- a/rubin_sim/maf/batches/srd_batch.py
+++ b/rubin_sim/maf/batches/srd_batch.py
@@ -341,6 +341,7 @@ def astrometryBatch(
         )
         caption = "Correlation between parallax offset magnitude and hour angle for a r=%.1f star." % (rmag)
         caption += " (0 is good, near -1 or 1 is bad)."
+        displayDict["caption"] = caption
         bundle = mb.MetricBundle(
             metric,
             slicer,
diff --git a/rubin_sim/maf/metrics/cosmology_summary_metrics.py b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
index 7633b00..c4f0060 100644
--- a/rubin_sim/maf/metrics/cosmology_summary_metrics.py
+++ b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
@@ -78,9 +78,8 @@ class TotalPowerMetric(BaseMetric):
         if self.remove_monopole:
             data = hp.remove_monopole(data, verbose=False, bad=self.mask_val)
         if self.remove_dipole:
-            cl = hp.anafast(hp.remove_dipole(data_slice[self.colname]))
-        else:
-            cl = hp.anafast(data_slice[self.colname])
+            data = hp.remove_dipole(data)
+        cl = hp.anafast(data)
         ell = np.arange(np.size(cl))
         condition = np.where((ell <= self.lmax) & (ell >= self.lmin))[0]
         totalpower = np.sum(cl[condition] * (2 * ell[condition] + 1))
@@ -828,7 +827,7 @@ class UniformAreaFoMFractionMetric(BaseMetric):
         # (nan, -666) are recast as hp.UNSEEN
         ind = data_slice_arr["riz_exptime"] == -666
         ind |= ~np.isfinite(data_slice_arr["riz_exptime"])
-        ind = data_slice_arr["exgal_m5"] == -666
+        ind |= data_slice_arr["exgal_m5"] == -666
         ind |= ~np.isfinite(data_slice_arr["exgal_m5"])
         data_slice_arr["exgal_m5"][ind.ravel()] = hp.UNSEEN
         data_slice_arr["riz_exptime"][ind.ravel()] = hp.UNSEEN
-- 
2.43.0


From 8f5921f49301b116585169b1ab57cc41b6004afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:55 +0000
Subject: [PATCH 023/102] fix: drop values that were computed and never used

---
 rubin_sim/maf/generate_ss.py                                | 4 ++--
 rubin_sim/maf/maf_contrib/grb_transient_metric.py           | 6 ------
 rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py   | 1 -
 .../maf/maf_contrib/static_probes_fom_summary_metric.py     | 1 -
 rubin_sim/maf/run_comparison/summary_plots.py               | 5 +----
 rubin_sim/moving_objects/chebyshev_utils.py                 | 1 -
 rubin_sim/sim_archive/prototype.py                          | 2 +-
 7 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/rubin_sim/maf/generate_ss.py b/rubin_sim/maf/generate_ss.py
index 5adeda3..3bfc1f7 100755
--- a/rubin_sim/maf/generate_ss.py
+++ b/rubin_sim/maf/generate_ss.py
@@ -98,7 +98,7 @@ def generate_ss_commands(
             # Create the results DB so multiple threads
             # don't try to create it later
             # This isn't used in this script, but needs to exist on-disk.
-            results_db = db.ResultsDb(out_dir=out_dir)
+            db.ResultsDb(out_dir=out_dir).close()
         for pop in pops:
             for run, filename in zip(runs, dbfiles):
                 objtype = objtypes[pop]
@@ -129,7 +129,7 @@ def generate_ss_commands(
                 pass
             # Create the results DB so multiple threads
             # don't try to create it later
-            results_db = db.ResultsDb(out_dir=out_dir)  # noqa F841
+            db.ResultsDb(out_dir=out_dir).close()
             outfile = f"{run}_ss_script.sh"
             if split:
                 output_file = open(outfile, "w")
diff --git a/rubin_sim/maf/maf_contrib/grb_transient_metric.py b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
index eaeddd7..bb8b136 100644
--- a/rubin_sim/maf/maf_contrib/grb_transient_metric.py
+++ b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
@@ -147,8 +147,6 @@ class GRBTransientMetric(metrics.BaseMetric):
         Calculate the detectability of a transient with the
         specified lightcurve.
         """
-        # Total number of transients that could go off back-to-back
-        n_trans_max = np.floor(self.survey_duration / (self.trans_duration / 365.25))
         tshifts = np.arange(self.n_phase_check) * self.trans_duration / float(self.n_phase_check)
         n_trans_max = 0
         for tshift in tshifts:
@@ -168,9 +166,6 @@ class GRBTransientMetric(metrics.BaseMetric):
 
             lc_mags = self.light_curve(time, data_slice[self.filter_col])
 
-            # How many criteria needs to be passed
-            detect_thresh = 0
-
             # Flag points that are above the SNR limit
             detected = np.zeros(data_slice.size, dtype=int)
             detected[np.where(lc_mags < data_slice[self.m5_col] + self.detect_m5_plus)] += 1
@@ -194,7 +189,6 @@ class GRBTransientMetric(metrics.BaseMetric):
             ulc_number = np.unique(lc_number)
             left = np.searchsorted(lc_number, ulc_number)
             right = np.searchsorted(lc_number, ulc_number, side="right")
-            detect_thresh += self.n_filters
 
             # iterate over the lightcurves
             for le, ri in zip(left, right):
diff --git a/rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py b/rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py
index d8d2e17..3ce74a0 100644
--- a/rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py
+++ b/rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py
@@ -84,7 +84,6 @@ def dist_calc(mass, band):
 
 def starcount_bymass(eq_ra, eq_dec, m1, m2, band):
     masses = np.linspace(m1, m2, num=20)
-    totmass = IMF(m1, m2)
     totmass = IMF(0.2, 1.04)
     massbins = IMF(masses[:-1], masses[1:])
     massfractions = massbins / totmass
diff --git a/rubin_sim/maf/maf_contrib/static_probes_fom_summary_metric.py b/rubin_sim/maf/maf_contrib/static_probes_fom_summary_metric.py
index ba3800f..de790c8 100644
--- a/rubin_sim/maf/maf_contrib/static_probes_fom_summary_metric.py
+++ b/rubin_sim/maf/maf_contrib/static_probes_fom_summary_metric.py
@@ -341,7 +341,6 @@ class StaticProbesFoMEmulatorMetric(BaseMetric):
         x_params = ["area", "depth", "shear_m", "sigma_z", "sig_delta_z", "sig_sigma_z"]
         scaler_x = StandardScaler()
         scaler_y = StandardScaler()
-        X = df_unscaled.drop("FOM", axis=1)
         X = pd.DataFrame(scaler_x.fit_transform(df_unscaled.drop("FOM", axis=1)), columns=x_params)
         Y = pd.DataFrame(
             scaler_y.fit_transform(np.array(df_unscaled["FOM"]).reshape(-1, 1)),
diff --git a/rubin_sim/maf/run_comparison/summary_plots.py b/rubin_sim/maf/run_comparison/summary_plots.py
index ae4010b..ede69d5 100644
--- a/rubin_sim/maf/run_comparison/summary_plots.py
+++ b/rubin_sim/maf/run_comparison/summary_plots.py
@@ -616,13 +616,10 @@ def plot_run_metric_uncert(
         extra_levels = list(set(metric_subset.index.names) - set(["metric"]))
         metric_subset = metric_subset.droplevel(extra_levels).groupby(level="metric").first()
 
-    # Pull original order for metric & runs from summary
+    # Pull original order for runs from summary
     run_order = summary.index.values
-    metric_order = summary.columns.values
     if run_label_map is not None:
         run_order = [run_label_map[r] for r in run_order]
-    if metric_label_map is not None:
-        metric_order = [metric_label_map[m] for m in metric_order]
 
     if ax is None:
         fig, ax = plt.subplots(figsize=(10, 6))
diff --git a/rubin_sim/moving_objects/chebyshev_utils.py b/rubin_sim/moving_objects/chebyshev_utils.py
index db8d505..7e90b7a 100644
--- a/rubin_sim/moving_objects/chebyshev_utils.py
+++ b/rubin_sim/moving_objects/chebyshev_utils.py
@@ -54,7 +54,6 @@ def chebeval(x, p, interval=(-1.0, 1.0), do_velocity=True, mask=False):
     y1 = t
     v0 = np.zeros_like(t)
     v1 = np.ones_like(t)
-    v2 = 4.0 * t
     t = 2.0 * t
     N = len(p)
 
diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index e1b19d0..f74fea1 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -726,7 +726,7 @@ def compile_sim_archive_metadata_cli(*args: Any) -> None:
     else:
         compilation_resource = ResourcePath(compilation_uri)
 
-    compilation_resource = compile_sim_metadata(archive_uri, compilation_resource, append=append)
+    compile_sim_metadata(archive_uri, compilation_resource, append=append)
 
 
 def find_latest_prenight_sim_for_nights(
-- 
2.43.0


From 789d34c3a5a7c3333787755b9f874efc3c3ccdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:36 +0000
Subject: [PATCH 024/102] fix: supernova metrics and rates return a value on
 every path

---
 rubin_sim/maf/metrics/sn_cadence_metric.py |  2 +-
 rubin_sim/maf/metrics/sn_snr_metric.py     | 17 ++++++++---------
 rubin_sim/maf/utils/sn_n_sn_utils.py       |  1 +
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/rubin_sim/maf/metrics/sn_cadence_metric.py b/rubin_sim/maf/metrics/sn_cadence_metric.py
index 6fefbc0..8f46518 100644
--- a/rubin_sim/maf/metrics/sn_cadence_metric.py
+++ b/rubin_sim/maf/metrics/sn_cadence_metric.py
@@ -78,7 +78,7 @@ class SNCadenceMetric(metrics.BaseMetric):
         good_filters = np.isin(data_slice[self.filter_col], self.filter_names)
         data_slice = data_slice[good_filters]
         if data_slice.size == 0:
-            return None
+            return self.badval
         data_slice.sort(order=self.mjd_col)
 
         r = []
diff --git a/rubin_sim/maf/metrics/sn_snr_metric.py b/rubin_sim/maf/metrics/sn_snr_metric.py
index 6748790..7d54c77 100644
--- a/rubin_sim/maf/metrics/sn_snr_metric.py
+++ b/rubin_sim/maf/metrics/sn_snr_metric.py
@@ -112,7 +112,7 @@ class SNSNRMetric(metrics.BaseMetric):
         good_filters = np.isin(data_slice[self.filter_col], self.filter_names)
         data_slice = data_slice[good_filters]
         if data_slice.size == 0:
-            return None
+            return self.badval
         data_slice.sort(order=self.mjd_col)
 
         if self.season != -1:
@@ -714,14 +714,13 @@ class SNSNRMetric(metrics.BaseMetric):
         -------
         tab : array with the following fields:
         """
-        if tab is None or len(tab) == 1:
+        if tab is None or len(tab) <= 1:
             return tab
 
-        if len(tab) > 1:
-            diff = tab["MJD_min"][1:] - tab["MJD_max"][:-1]
-            idb = np.argwhere(diff < 20.0)
-            if len(idb) >= 1:
-                tab["MJD_min"][idb + 1] = tab["MJD_max"][idb] + 20.0
-                tab["season_length"][idb + 1] = tab["MJD_max"][idb + 1] - tab["MJD_min"][idb + 1]
+        diff = tab["MJD_min"][1:] - tab["MJD_max"][:-1]
+        idb = np.argwhere(diff < 20.0)
+        if len(idb) >= 1:
+            tab["MJD_min"][idb + 1] = tab["MJD_max"][idb] + 20.0
+            tab["season_length"][idb + 1] = tab["MJD_max"][idb + 1] - tab["MJD_min"][idb + 1]
 
-            return tab[tab["season_length"] > 30.0]
+        return tab[tab["season_length"] > 30.0]
diff --git a/rubin_sim/maf/utils/sn_n_sn_utils.py b/rubin_sim/maf/utils/sn_n_sn_utils.py
index 02a482b..ba1f5be 100644
--- a/rubin_sim/maf/utils/sn_n_sn_utils.py
+++ b/rubin_sim/maf/utils/sn_n_sn_utils.py
@@ -814,6 +814,7 @@ class SnRate:
             return self.perrett_rate(z)
         if self.rate == "Dilday":
             return self.dilday_rate(z)
+        raise ValueError(f"Unknown supernova rate {self.rate!r}: use 'Ripoche', 'Perrett' or 'Dilday'")
 
 
 class CovColor:
-- 
2.43.0


From 26d81537711e2ca999d0cff71ee53454e1f443eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:15 +0000
Subject: [PATCH 025/102] fix: raise the errors, apply the assignments and fill
 the texts that were written but had no effect

---
 rubin_sim/maf/db/results_db.py                         |  2 +-
 .../maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py     |  2 +-
 .../maf/maf_contrib/star_counts/starcount_bymass.py    | 10 ++++++----
 rubin_sim/maf/metric_bundles/metric_bundle_group.py    |  2 +-
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py       |  2 +-
 rubin_sim/maf/metrics/surfb_metric.py                  |  2 +-
 rubin_sim/maf/utils/opsim_utils.py                     |  2 +-
 rubin_sim/moving_objects/orbits.py                     |  7 +++++--
 rubin_sim/phot_utils/bandpass.py                       |  3 ---
 rubin_sim/sim_archive/vseqmetadata.py                  |  2 +-
 10 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index f991889..dd41f73 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -734,7 +734,7 @@ class ResultsDb:
         if slName == "UniSlicer":
             slName = ""
         name = " ".join([sName, metric_name, metric_info_label, slName]).rstrip(" ").lstrip(" ")
-        name.replace(",", "")
+        name = name.replace(",", "")
         return name
 
     def get_summary_stats(
diff --git a/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py b/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py
index 5add365..991ef39 100644
--- a/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py
+++ b/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py
@@ -58,7 +58,7 @@ def make__fake_old_galaxy_lf(int_b, mu, filtername):
         Filter in which to produce the simulated luminosity function.
     """
     if filtername == "y":
-        filtername == "Y"
+        filtername = "Y"
     model_bmag = 6.856379  # integrated B mag of the model LF being read
     # Read a simulated luminosity function of [M/H]=-1.5, 10 Gyr stellar
     # population:
diff --git a/rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py b/rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py
index 3ce74a0..af1c7a8 100644
--- a/rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py
+++ b/rubin_sim/maf/maf_contrib/star_counts/starcount_bymass.py
@@ -60,10 +60,12 @@ def noise_calc(band):
     sigma_sys = 0.005
 
     def fun(x):
-        sigma_sys**2
-        +(0.04 - gamma[band]) * 10 ** (0.4 * (x - m5[band]))
-        +gamma[band] * 10 ** (0.8 * (x - m5[band]))
-        -(sigma**2)
+        return (
+            sigma_sys**2
+            + (0.04 - gamma[band]) * 10 ** (0.4 * (x - m5[band]))
+            + gamma[band] * 10 ** (0.8 * (x - m5[band]))
+            - (sigma**2)
+        )
 
     return newton(fun, 25)
 
diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index bdb893b..8d0a6eb 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -165,7 +165,7 @@ class MetricBundleGroup:
             return False
         if metric_bundle1.slicer != metric_bundle2.slicer:
             return False
-        if metric_bundle1.maps_list.sort() != metric_bundle2.maps_list.sort():
+        if sorted(metric_bundle1.maps_list) != sorted(metric_bundle2.maps_list):
             return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 5a51260..edcd4e6 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -413,7 +413,7 @@ class MoMetricBundleGroup:
             return False
         if metric_bundle1.slicer != metric_bundle2.slicer:
             return False
-        if metric_bundle1.maps_list.sort() != metric_bundle2.maps_list.sort():
+        if sorted(metric_bundle1.maps_list) != sorted(metric_bundle2.maps_list):
             return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
diff --git a/rubin_sim/maf/metrics/surfb_metric.py b/rubin_sim/maf/metrics/surfb_metric.py
index 0a9e20d..6874816 100644
--- a/rubin_sim/maf/metrics/surfb_metric.py
+++ b/rubin_sim/maf/metrics/surfb_metric.py
@@ -150,7 +150,7 @@ class SurfaceBrightLimitMetric(BaseMetric):
     def run(self, data_slice, slice_point):
         filtername = np.unique(data_slice[self.filter_col])
         if np.size(filtername) > 1:
-            ValueError("Can only coadd depth in single filter, got filters %s" % filtername)
+            raise ValueError("Can only coadd depth in single filter, got filters %s" % filtername)
         filtername = filtername[0]
 
         # Scale up readnoise if the visit was split into multiple snaps
diff --git a/rubin_sim/maf/utils/opsim_utils.py b/rubin_sim/maf/utils/opsim_utils.py
index 8ee17ad..a56fbcf 100644
--- a/rubin_sim/maf/utils/opsim_utils.py
+++ b/rubin_sim/maf/utils/opsim_utils.py
@@ -107,7 +107,7 @@ def get_sim_data(
                 "Maybe it does not exist, or maybe you need to install lsst.resources."
             )
     else:
-        raise RuntimeError("Cannot find {db_con}.")
+        raise RuntimeError(f"Cannot find {db_con}.")
 
     if len(sim_data) == 0:
         raise UserWarning("No data found matching sqlconstraint %s" % (sqlconstraint))
diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index e33f0bf..3d647cc 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -429,7 +429,8 @@ class Orbits:
             "!!OID",
             "!!S3MID",
             "OID",
-            "S3MID" "objid(int)",
+            "S3MID",
+            "objid(int)",
             "full_name",
             "#name",
         ]
@@ -483,7 +484,9 @@ class Orbits:
             if np.min(orbits["inc"]) < 0:
                 negative_incs = np.where(orbits["inc"].values < 0)[0]
                 negative_ids = orbits["obj_id"].values[negative_incs]
-                ValueError("Negative orbital inclinations not supported. Problem obj_ids=%s" % negative_ids)
+                raise ValueError(
+                    "Negative orbital inclinations not supported. Problem obj_ids=%s" % negative_ids
+                )
 
         # Validate and assign orbits to self.
         self.set_orbits(orbits)
diff --git a/rubin_sim/phot_utils/bandpass.py b/rubin_sim/phot_utils/bandpass.py
index cad6d33..cfcaaca 100644
--- a/rubin_sim/phot_utils/bandpass.py
+++ b/rubin_sim/phot_utils/bandpass.py
@@ -370,9 +370,6 @@ class Bandpass:
         # The typical LSST exposure time is 15s and this is default here,
         # but typical zp_t definition is for 1s.
         # SED class uses flambda in ergs/cm^2/s/nm, so need effarea in cm^2.
-        #
-        # Check dlambda value for integral.
-        self.wavelen[1] - self.wavelen[0]
         # Set up flat source of arbitrary brightness,
         # but where the units of fnu are Jansky (for AB mag zeropoint = -8.9).
         flatsource = Sed()
diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 6e4fcb0..a23b3ee 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1153,7 +1153,7 @@ class VisitSequenceArchiveMetadata:
 
         if already_exists:
             if not update:
-                raise ValueError("A file of type {file_type} is already registered for {visitseq_uuid}")
+                raise ValueError(f"A file of type {file_type} is already registered for {visitseq_uuid}")
 
             query = sql.SQL(
                 "UPDATE {}.files SET file_sha256={}, file_url={} WHERE visitseq_uuid={} AND file_type={}"
-- 
2.43.0


From d1e0792346a5bb4858fed3669f6e70b5d9ad4cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:50 +0000
Subject: [PATCH 026/102] fix: group bundles only with all-compatible bundles;
 drop a condition that was always true and an unused loop

---
 .../maf/metric_bundles/metric_bundle_group.py | 33 ++++++++-----------
 .../maf/metric_bundles/mo_metric_bundle.py    | 32 ++++++++----------
 rubin_sim/maf/utils/sn_n_sn_utils.py          |  7 ----
 3 files changed, 26 insertions(+), 46 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index 8d0a6eb..5f8bb6f 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -185,25 +185,19 @@ class MetricBundleGroup:
         for k, b in self.current_bundle_dict.items():
             found_compatible = False
             for compatible_list in compatible_lists:
-                comparison_metric_bundle_key = compatible_list[0]
-                compatible = self._check_compatible(self.bundle_dict[comparison_metric_bundle_key], b)
-                if compatible:
-                    # Must compare all metricBundles in each subset
-                    # (if they are a potential match),
-                    #  as the stackers could be different
-                    #  (and one could be incompatible,
-                    #  not necessarily the first)
-                    for comparison_metric_bundle_key in compatible_list[1:]:
-                        compatible = self._check_compatible(self.bundle_dict[comparison_metric_bundle_key], b)
-                        if not compatible:
-                            # If we find one which is not compatible,
-                            # stop and go on to the
-                            # next subset list.
-                            break
-                    # Otherwise, we reached the end of the subset
+                # Must compare all metricBundles in each subset
+                # as the stackers could be different
+                # (and one could be incompatible,
+                #  not necessarily the first)
+                found_compatible = all(
+                    self._check_compatible(self.bundle_dict[comparison_metric_bundle_key], b)
+                    for comparison_metric_bundle_key in compatible_list
+                )
+                if found_compatible:
+                    # We reached the end of the subset
                     # and they were all compatible.
-                    found_compatible = True
                     compatible_list.append(k)
+                    break
             if not found_compatible:
                 # Didn't find a pre-existing compatible set; make a new one.
                 compatible_lists.append(
@@ -447,9 +441,8 @@ class MetricBundleGroup:
         slicer = list(b_dict.values())[0].slicer
         slicer.setup_slicer(self.sim_data, maps=uniq_maps)
         # Copy the slicer (after setup) back into the individual metricBundles.
-        if slicer.slicer_name != "HealpixSlicer" or slicer.slicer_name != "UniSlicer":
-            for b in b_dict.values():
-                b.slicer = slicer
+        for b in b_dict.values():
+            b.slicer = slicer
 
         # Set up (masked) arrays to store metric data in each metricBundle.
         for b in b_dict.values():
diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index edcd4e6..8f96f03 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -453,25 +453,19 @@ class MoMetricBundleGroup:
                 )
                 continue
             found_compatible = False
-            checked_all = False
-            while not (found_compatible) and not (checked_all):
-                # Go through the existing lists in compatible_lists, to see
-                # if this metricBundle matches.
-                for compatible_list in compatible_lists:
-                    # Compare to all the metricBundles in this subset,
-                    # to check all stackers are compatible.
-                    found_compatible = True
-                    for comparison_key in compatible_list:
-                        compatible = self._check_compatible(self.bundle_dict[comparison_key], b)
-                        if not compatible:
-                            # Found a metricBundle which is not compatible,
-                            # so stop and go onto the next subset.
-                            found_compatible = False
-                            break
-                checked_all = True
-            if found_compatible:
-                compatible_list.append(k)
-            else:
+            # Go through the existing lists in compatible_lists, to see
+            # if this metricBundle matches.
+            for compatible_list in compatible_lists:
+                # Compare to all the metricBundles in this subset,
+                # to check all stackers are compatible.
+                found_compatible = all(
+                    self._check_compatible(self.bundle_dict[comparison_key], b)
+                    for comparison_key in compatible_list
+                )
+                if found_compatible:
+                    compatible_list.append(k)
+                    break
+            if not found_compatible:
                 compatible_lists.append(
                     [
                         k,
diff --git a/rubin_sim/maf/utils/sn_n_sn_utils.py b/rubin_sim/maf/utils/sn_n_sn_utils.py
index ba1f5be..18389d5 100644
--- a/rubin_sim/maf/utils/sn_n_sn_utils.py
+++ b/rubin_sim/maf/utils/sn_n_sn_utils.py
@@ -414,13 +414,6 @@ class LoadReference:
 
         lc_reference = {}
 
-        list_files = [gamma_name]
-        for j in range(len(x1_colors)):
-            x1 = x1_colors[j][0]
-            color = x1_colors[j][1]
-            fname = "LC_{}_{}_380.0_800.0_ebvofMW_0.0_vstack.hdf5".format(x1, color)
-            list_files += [fname]
-
         # gamma_reference
         self.gamma_reference = os.path.join(template_dir, gamma_name)
 
-- 
2.43.0


From 6a81ee3447680ae43d2fcfab552925e17dcaf6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:53 +0000
Subject: [PATCH 027/102] fix: batches use the filter or field of the current
 bundle, not the last one of an earlier loop

---
 rubin_sim/maf/batches/ddf_batch.py               | 4 ++--
 rubin_sim/maf/batches/radar_limited.py           | 2 +-
 rubin_sim/maf/batches/science_radar_batch.py     | 2 +-
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/batches/ddf_batch.py b/rubin_sim/maf/batches/ddf_batch.py
index 7152446..664f9c1 100644
--- a/rubin_sim/maf/batches/ddf_batch.py
+++ b/rubin_sim/maf/batches/ddf_batch.py
@@ -563,7 +563,7 @@ def ddfBatch(
             pass
         else:
             displayDict["caption"] = f"Number of visits per night for {fieldname}."
-            displayDict["order"] = orders[f]
+            displayDict["order"] = orders["all"]
             metric = maf.CountMetric("observationStartMJD", metric_name=f"{fieldname} Nvisits Per Night")
             slicer = maf.OneDSlicer(slice_col_name="night", bin_size=1, badval=0)
             plot_dict = {"filled_data": True}
@@ -689,7 +689,7 @@ def ddfBatch(
             maf.MetricBundle(
                 metric,
                 ptslicer,
-                fieldsqls[f],
+                fieldsqls["all"],
                 info_label=info_labels["all"],
                 run_name=run_name,
                 summary_metrics=[maf.MeanMetric()],
diff --git a/rubin_sim/maf/batches/radar_limited.py b/rubin_sim/maf/batches/radar_limited.py
index 151d37f..e44fca0 100644
--- a/rubin_sim/maf/batches/radar_limited.py
+++ b/rubin_sim/maf/batches/radar_limited.py
@@ -479,7 +479,7 @@ def radar_limited(
     summary = [metrics.MedianMetric()]
     for filtername in "ugrizy":
         displayDict["caption"] = "Surface brightness limit in %s, no extinction applied." % filtername
-        displayDict["order"] = filterorders[f]
+        displayDict["order"] = filterorders[filtername]
         sql = "filter='%s'" % filtername
         metric = metrics.SurfaceBrightLimitMetric()
         bundle = mb.MetricBundle(
diff --git a/rubin_sim/maf/batches/science_radar_batch.py b/rubin_sim/maf/batches/science_radar_batch.py
index 29e0e70..db86795 100644
--- a/rubin_sim/maf/batches/science_radar_batch.py
+++ b/rubin_sim/maf/batches/science_radar_batch.py
@@ -509,7 +509,7 @@ def science_radar_batch(
     summary = [metrics.MedianMetric()]
     for filtername in "ugrizy":
         displayDict["caption"] = "Surface brightness limit in %s, no extinction applied." % filtername
-        displayDict["order"] = filterorders[f]
+        displayDict["order"] = filterorders[filtername]
         sql = "band='%s'" % filtername
         metric = metrics.SurfaceBrightLimitMetric()
         bundle = mb.MetricBundle(
diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 8f96f03..86af9b8 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -449,7 +449,7 @@ class MoMetricBundleGroup:
             except KeyError:
                 warnings.warn(
                     "Received %s in testkeys, but this is not present in self.bundle_dict."
-                    "Will continue, but this is not expected."
+                    "Will continue, but this is not expected." % k
                 )
                 continue
             found_compatible = False
-- 
2.43.0


From 1490964b6603ffeb129f1190a824d458f61aa7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:13 +0000
Subject: [PATCH 028/102] fix: write to the array, filter and counter that are
 used, not to copies, stale selections or branches never taken

---
 .../maf/maf_contrib/grb_transient_metric.py   | 19 +++++++++----------
 .../maf/maf_contrib/microlensing_metric.py    | 10 ++++++----
 rubin_sim/maf/metrics/agn_time_lag_metric.py  |  8 ++++----
 rubin_sim/phot_utils/sed.py                   |  2 +-
 4 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/grb_transient_metric.py b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
index bb8b136..20e2bcb 100644
--- a/rubin_sim/maf/maf_contrib/grb_transient_metric.py
+++ b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
@@ -149,6 +149,15 @@ class GRBTransientMetric(metrics.BaseMetric):
         """
         tshifts = np.arange(self.n_phase_check) * self.trans_duration / float(self.n_phase_check)
         n_trans_max = 0
+        bandcounter = {
+            "u": 0,
+            "g": 0,
+            "r": 0,
+            "i": 0,
+            "z": 0,
+            "y": 0,
+            "any": 0,
+        }  # define zeroed out counter
         for tshift in tshifts:
             # Compute the total number of back-to-back transients
             # are possible to detect
@@ -170,16 +179,6 @@ class GRBTransientMetric(metrics.BaseMetric):
             detected = np.zeros(data_slice.size, dtype=int)
             detected[np.where(lc_mags < data_slice[self.m5_col] + self.detect_m5_plus)] += 1
 
-            bandcounter = {
-                "u": 0,
-                "g": 0,
-                "r": 0,
-                "i": 0,
-                "z": 0,
-                "y": 0,
-                "any": 0,
-            }  # define zeroed out counter
-
             # make sure things are sorted by time
             ord = np.argsort(data_slice[self.mjd_col])
             data_slice = data_slice[ord]
diff --git a/rubin_sim/maf/maf_contrib/microlensing_metric.py b/rubin_sim/maf/maf_contrib/microlensing_metric.py
index bf0279b..fe93c77 100644
--- a/rubin_sim/maf/maf_contrib/microlensing_metric.py
+++ b/rubin_sim/maf/maf_contrib/microlensing_metric.py
@@ -218,11 +218,11 @@ def fisher_matrix(t, t0, te, u0, fs, fb, snr, filters="ugriz", filter_name="i"):
         # err = flux_err[i]
         matrix = np.zeros((npars, npars))
         derivatives = coefficients_pspl(t_value, t0, te, u0, fs, fb)
-        fsfb_derivatives = 2 * len(filters) * [0]
+        fsfb_derivatives = np.zeros(2 * len(filters))
         fbdiff, fsdiff = coefficients_fsfb(t_value, t0, te, u0, fs, fb)
-        np.array(fsfb_derivatives)[filter_index * 2] = fsdiff
-        np.array(fsfb_derivatives)[filter_index * 2 + 1] = fbdiff
-        derivatives = derivatives + fsfb_derivatives
+        fsfb_derivatives[filter_index * 2] = fsdiff
+        fsfb_derivatives[filter_index * 2 + 1] = fbdiff
+        derivatives = list(derivatives) + list(fsfb_derivatives)
         for idx in range(npars):
             for jdx in range(idx, npars):
                 matrix[idx, jdx] = derivatives[idx] * derivatives[jdx]
@@ -453,6 +453,8 @@ class MicrolensingMetric(metrics.BaseMetric):
                 n_post.append(len(outfilt))
 
             elif self.metric_calc == "Fisher":
+                # observations in the given filter
+                infilt = np.where(data_slice[self.filter_col] == filtername)[0]
                 if individual_mags is True:
                     fs = slice_point["apparent_m_no_blend_{}".format(filtername)]
                     fb = slice_point["apparent_m_{}".format(filtername)] - fs
diff --git a/rubin_sim/maf/metrics/agn_time_lag_metric.py b/rubin_sim/maf/metrics/agn_time_lag_metric.py
index 4e154bc..5fcb2d0 100644
--- a/rubin_sim/maf/metrics/agn_time_lag_metric.py
+++ b/rubin_sim/maf/metrics/agn_time_lag_metric.py
@@ -62,7 +62,7 @@ class AgnTimeLagMetric(BaseMetric):
             m5 = np.zeros(len(data_slice))
             for filtername in filterlist:
                 in_filt = np.where(data_slice[self.filter_col] == filtername)[0]
-                a_x = self.ax1[data_slice[self.filter_col][0]] * slice_point["ebv"]
+                a_x = self.ax1[filtername] * slice_point["ebv"]
                 m5[in_filt] = data_slice[self.m5_col][in_filt] - a_x
         else:
             m5 = data_slice[self.m5_col]
@@ -71,14 +71,14 @@ class AgnTimeLagMetric(BaseMetric):
         mjds = np.zeros(len(data_slice))
         for filtername in filterlist:
             in_filt = np.where(data_slice[self.filter_col] == filtername)[0]
-            if filtername in ("u", "i", "z", "y", "r", "g"):
+            if filtername in ("u", "i", "z", "y"):
                 mjds[in_filt] = data_slice[self.mjd_col][in_filt]
             elif filtername == "g":
                 faint = np.where(m5[in_filt] > self.g_cutoff)
-                mjds[in_filt][faint] = data_slice[self.mjd_col][in_filt][faint]
+                mjds[in_filt[faint]] = data_slice[self.mjd_col][in_filt][faint]
             elif filtername == "r":
                 faint = np.where(m5[in_filt] > self.r_cutoff)
-                mjds[in_filt][faint] = data_slice[self.mjd_col][in_filt][faint]
+                mjds[in_filt[faint]] = data_slice[self.mjd_col][in_filt][faint]
         # Remove the visits which were not faint enough
         mjds = mjds[np.where(mjds > 0)]
 
diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 4cd501c..fad53f0 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -426,7 +426,7 @@ class Sed:
 
         if self.flambda is None and other.flambda is not None:
             return False
-        if other.flambda is not None and self.flambda is None:
+        if self.flambda is not None and other.flambda is None:
             return False
         if self.flambda is not None:
             try:
-- 
2.43.0


From 873101689fb6f08e8095c2ab041991c70fc33e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 029/102] fix: star count metrics use the point's coordinates
 and a working coordinate conversion

---
 rubin_sim/maf/maf_contrib/star_count_mass_metric.py |  6 +++---
 rubin_sim/maf/maf_contrib/star_count_metric.py      |  8 ++++----
 rubin_sim/maf/maf_contrib/star_counts/coords.py     | 11 +++++------
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/star_count_mass_metric.py b/rubin_sim/maf/maf_contrib/star_count_mass_metric.py
index 7c29011..4c779c4 100644
--- a/rubin_sim/maf/maf_contrib/star_count_mass_metric.py
+++ b/rubin_sim/maf/maf_contrib/star_count_mass_metric.py
@@ -59,6 +59,6 @@ class StarCountMassMetric(BaseMetric):
         super(StarCountMassMetric, self).__init__(col=[], **kwargs)
 
     def run(self, data_slice, slice_point=None):
-        self.dec_col = np.degrees(data_slice[0][3])
-        self.ra_col = np.degrees(data_slice[0][2])
-        return starcount_bymass.starcount_bymass(self.ra_col, self.dec_col, self.m1, self.m2, self.band)
+        dec = np.degrees(slice_point["dec"])
+        ra = np.degrees(slice_point["ra"])
+        return starcount_bymass.starcount_bymass(ra, dec, self.m1, self.m2, self.band)
diff --git a/rubin_sim/maf/maf_contrib/star_count_metric.py b/rubin_sim/maf/maf_contrib/star_count_metric.py
index 4aa1589..b885884 100644
--- a/rubin_sim/maf/maf_contrib/star_count_metric.py
+++ b/rubin_sim/maf/maf_contrib/star_count_metric.py
@@ -4,7 +4,7 @@ import numpy as np
 
 from rubin_sim.maf.metrics import BaseMetric
 
-from .star_counts import starcount
+from .star_counts.starcount import starcount
 
 # Example for CountMetric
 # Mike Lund - Vanderbilt University
@@ -51,6 +51,6 @@ class StarCountMetric(BaseMetric):
         super(StarCountMetric, self).__init__(col=[], **kwargs)
 
     def run(self, data_slice, slice_point=None):
-        self.dec_col = np.degrees(data_slice[0][3])
-        self.ra_col = np.degrees(data_slice[0][2])
-        return starcount(self.ra_col, self.dec_col, self.d1, self.d2)
+        dec = np.degrees(slice_point["dec"])
+        ra = np.degrees(slice_point["ra"])
+        return starcount(ra, dec, self.d1, self.d2)
diff --git a/rubin_sim/maf/maf_contrib/star_counts/coords.py b/rubin_sim/maf/maf_contrib/star_counts/coords.py
index 76f0715..54d9a3b 100644
--- a/rubin_sim/maf/maf_contrib/star_counts/coords.py
+++ b/rubin_sim/maf/maf_contrib/star_counts/coords.py
@@ -67,8 +67,9 @@ def eq_gal2(eq_ra, eq_dec):
         coscbd = 1
     elif coscbd < -1:
         coscbd = -1
-    cbd = np.arccos(coscbd)
-    if cbd - CBD < 32.9319:
+    # coscbd is the cosine of the longitude relative to the ascending node
+    node = np.radians(32.9319)
+    if np.abs(np.cos(CBD + node) - coscbd) < np.abs(np.cos(CBD - node) - coscbd):
         l_deg = 360.0 - np.degrees(CBD)
     else:
         l_deg = np.degrees(CBD)
@@ -77,13 +78,11 @@ def eq_gal2(eq_ra, eq_dec):
 
 def eq_gal3(eq_ra, eq_dec):
     # assume input ra, dec are in deg
-    coordset = SkyCoord(
-        ra=np.radians(eq_ra) * u.radians, dec=np.rad(eq_dec) * u.rad, frame="icrs", unit="deg"
-    )
+    coordset = SkyCoord(ra=eq_ra * u.deg, dec=eq_dec * u.deg, frame="icrs")
     # convert to galactic
     galactic = coordset.galactic
     # return b,l in deg
-    return galactic.b.value, galactic.l.values
+    return galactic.b.deg, galactic.l.deg
 
 
 def gal_cyn(b_deg, l_deg, dist):
-- 
2.43.0


From 7c895c6335f1382998f77f1efa365321f27ec54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 030/102] fix: angles are converted to the unit in which they
 are used

---
 rubin_sim/maf/plots/neo_distance_plotter.py | 5 +++--
 rubin_sim/maf/stackers/coord_stackers.py    | 8 +++-----
 rubin_sim/maf/stackers/general_stackers.py  | 2 +-
 rubin_sim/maf/stackers/neo_dist_stacker.py  | 7 ++-----
 rubin_sim/moving_objects/base_obs.py        | 9 +++++++--
 rubin_sim/skybrightness/sky_model.py        | 2 +-
 6 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/rubin_sim/maf/plots/neo_distance_plotter.py b/rubin_sim/maf/plots/neo_distance_plotter.py
index 5682ae0..74a8817 100644
--- a/rubin_sim/maf/plots/neo_distance_plotter.py
+++ b/rubin_sim/maf/plots/neo_distance_plotter.py
@@ -48,8 +48,9 @@ class NeoDistancePlotter(BasePlotter):
         }
         self.filter_col_name = "filter"
         self.step = step
-        self.eclip_max = np.radians(eclip_max)
-        self.eclip_min = np.radians(eclip_min)
+        # The eclipLat column is in degrees
+        self.eclip_max = eclip_max
+        self.eclip_min = eclip_min
 
     def __call__(self, metric_value, slicer, user_plot_dict, fig=None):
         """
diff --git a/rubin_sim/maf/stackers/coord_stackers.py b/rubin_sim/maf/stackers/coord_stackers.py
index eab5663..9986a5f 100644
--- a/rubin_sim/maf/stackers/coord_stackers.py
+++ b/rubin_sim/maf/stackers/coord_stackers.py
@@ -96,13 +96,11 @@ class GalacticStacker(BaseStacker):
         self.ra_col = ra_col
         self.dec_col = dec_col
         self.degrees = degrees
-        if self.degrees:
-            self.units = ["degrees", "degrees"]
-        else:
-            self.units = ["radians", "radians"]
+        # The galactic coordinates are always in radians.
+        self.units = ["radians", "radians"]
 
     def _run(self, sim_data, cols_present=False):
-        # raCol and DecCol in radians, gall/b in radians.
+        # raCol and DecCol in degrees or radians, gall/b in radians.
         if cols_present:
             # Column already present in data;
             # assume it is correct and does not need recalculating.
diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 20ecad7..03b2864 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -738,7 +738,7 @@ class ParallacticAngleStacker(BaseStacker):
         self.degrees = degrees
         self.mjd_col = mjd_col
         self.site = Site(name=site)
-        self.units = ["radians"]
+        self.units = ["degrees"] if self.degrees else ["radians"]
         self.cols_req = [self.ra_col, self.dec_col, self.mjd_col, self.lst_col]
         self.ha_stacker = HourAngleStacker(lst_col=lst_col, ra_col=ra_col, degrees=self.degrees)
 
diff --git a/rubin_sim/maf/stackers/neo_dist_stacker.py b/rubin_sim/maf/stackers/neo_dist_stacker.py
index cfa57ee..7238da9 100644
--- a/rubin_sim/maf/stackers/neo_dist_stacker.py
+++ b/rubin_sim/maf/stackers/neo_dist_stacker.py
@@ -111,11 +111,8 @@ class NEODistStacker(BaseStacker):
         sim_data["NEOHelioX"][outer] = sim_data["MaxGeoDist"][outer] * np.sin(np.pi - elong_rad[outer])
         sim_data["NEOHelioY"][outer] = sim_data["MaxGeoDist"][outer] * np.cos(np.pi - elong_rad[outer]) + 1.0
 
-        # Flip the X coord if sun az is negative?
-        if sim_data[self.az_col].min() < -np.pi / 2.0:
-            halfval = 180.0
-        else:
-            halfval = np.pi
+        # Flip the X coord if sun az is negative? Azimuths are in degrees.
+        halfval = 180.0
         flip = np.where(
             ((sim_data[self.sun_az_col] > halfval) & (sim_data[self.az_col] > halfval))
             | ((sim_data[self.sun_az_col] < halfval) & (sim_data[self.az_col] > halfval))
diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 0e2ae63..aead14c 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -395,8 +395,13 @@ class BaseObs:
         return self._sso_in_rectangle_fov(ephems, obs_data, self.x_tol, self.y_tol)
 
     def _sso_in_rectangle_fov(self, ephems, obs_data, x_tol, y_tol):
-        delta_dec = np.abs(ephems["dec"] - obs_data[self.obs_dec])
-        delta_ra = np.abs((ephems["ra"] - obs_data[self.obs_ra]) * np.cos(np.radians(obs_data[self.obs_dec])))
+        obs_ra = obs_data[self.obs_ra]
+        obs_dec = obs_data[self.obs_dec]
+        if not self.obs_degrees:
+            obs_ra = np.degrees(obs_ra)
+            obs_dec = np.degrees(obs_dec)
+        delta_dec = np.abs(ephems["dec"] - obs_dec)
+        delta_ra = np.abs((ephems["ra"] - obs_ra) * np.cos(np.radians(obs_dec)))
         idx_obs = np.where((delta_dec <= y_tol) & (delta_ra <= x_tol))[0]
         return idx_obs
 
diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 6cadc7b..7f1b34a 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -609,7 +609,7 @@ class SkyModel:
         else:
             self.airmass = airmass
             self.alts = np.pi / 2.0 - np.arccos(1.0 / airmass)
-        self.moon_targ_sep = haversine(self.azs, self.alts, moon_az, self.moon_alt)
+        self.moon_targ_sep = haversine(self.azs, self.alts, self.moon_az, self.moon_alt)
         self.npts = np.size(self.airmass)
         self._init_points()
 
-- 
2.43.0


From 4f962423e9db4d7689c359e97fcfe7c5663e1d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:39 +0000
Subject: [PATCH 031/102] fix: drop a figure choice that could never be made in
 the run comparison plots

---
 rubin_sim/maf/run_comparison/summary_plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/run_comparison/summary_plots.py b/rubin_sim/maf/run_comparison/summary_plots.py
index ede69d5..bbe543d 100644
--- a/rubin_sim/maf/run_comparison/summary_plots.py
+++ b/rubin_sim/maf/run_comparison/summary_plots.py
@@ -310,7 +310,7 @@ def plot_run_metric(
     if ax is None:
         fig, ax = plt.subplots(figsize=(10, 6))
     else:
-        fig = plt.Figure(figsize=(6, 10)) if ax is None else ax.get_figure()
+        fig = ax.get_figure()
 
     # make the linestyles and symbols list the same length as cmap
     try:
@@ -492,7 +492,7 @@ def plot_run_metric_mesh(
     if ax is None:
         fig, ax = plt.subplots(figsize=(6, 6))
     else:
-        fig = plt.Figure(figsize=(6, 10)) if ax is None else ax.get_figure()
+        fig = ax.get_figure()
 
     y_nums, x_nums = (
         np.arange(norm_summary.shape[1] + 1),
-- 
2.43.0


From 080cc4a4a5857d17bbfb106bf09848a9d2841fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:10 +0000
Subject: [PATCH 032/102] fix: keep the optional values given to a constructor,
 and compute the missing ones

---
 rubin_sim/maf/metrics/agnstructure.py              |  2 ++
 rubin_sim/maf/metrics/cosmology_summary_metrics.py |  2 ++
 rubin_sim/maf/metrics/surfb_metric.py              | 13 +++++--------
 rubin_sim/maf/slicers/movie_slicer.py              |  2 ++
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/metrics/agnstructure.py b/rubin_sim/maf/metrics/agnstructure.py
index 8835399..e8dcbd1 100644
--- a/rubin_sim/maf/metrics/agnstructure.py
+++ b/rubin_sim/maf/metrics/agnstructure.py
@@ -69,6 +69,8 @@ class SFUncertMetric(BaseMetric):
             # If weight is none, set weight so that sum over bins = 1
             self.weight = np.ones(len(self.bins) - 1)
             self.weight /= self.weight.sum()
+        else:
+            self.weight = weight
         self.metric_name = metric_name
         self.mag = mag
         self.snr_cut = snr_cut
diff --git a/rubin_sim/maf/metrics/cosmology_summary_metrics.py b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
index c4f0060..8534bb7 100644
--- a/rubin_sim/maf/metrics/cosmology_summary_metrics.py
+++ b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
@@ -122,6 +122,8 @@ class StaticProbesFoMEmulatorMetricSimple(BaseMetric):
         super().__init__(col=col, **kwargs)
         if col is None:
             self.col = "metricdata"
+        else:
+            self.col = col
         self.year = year
         # Set a mask_val so that all metric data is passed
         # for summary calculation, even masked values.
diff --git a/rubin_sim/maf/metrics/surfb_metric.py b/rubin_sim/maf/metrics/surfb_metric.py
index 6874816..0a32a99 100644
--- a/rubin_sim/maf/metrics/surfb_metric.py
+++ b/rubin_sim/maf/metrics/surfb_metric.py
@@ -138,14 +138,11 @@ class SurfaceBrightLimitMetric(BaseMetric):
         self.nsigma = nsigma
         self.tot_area = tot_area
 
-        # Compute default zeropoints
-        if zpt is None:
-            zp_inst, k_atm = load_inst_zeropoints()
-            self.zpt = zp_inst
-            self.k_atm = k_atm
-        else:
-            self.zpt = zpt
-            self.k_atm = k_atm
+        # Compute default zeropoints and atmospheric extinction
+        if zpt is None or k_atm is None:
+            zp_inst, k_atm_inst = load_inst_zeropoints()
+        self.zpt = zp_inst if zpt is None else zpt
+        self.k_atm = k_atm_inst if k_atm is None else k_atm
 
     def run(self, data_slice, slice_point):
         filtername = np.unique(data_slice[self.filter_col])
diff --git a/rubin_sim/maf/slicers/movie_slicer.py b/rubin_sim/maf/slicers/movie_slicer.py
index abd9c25..0bed562 100644
--- a/rubin_sim/maf/slicers/movie_slicer.py
+++ b/rubin_sim/maf/slicers/movie_slicer.py
@@ -81,6 +81,8 @@ class MovieSlicer(BaseSlicer):
         if slice_col_units is None:
             co = ColInfo()
             self.slice_col_units = co.get_units(self.slice_col_name)
+        else:
+            self.slice_col_units = slice_col_units
         self.slicer_init = {
             "slice_col_name": self.slice_col_name,
             "slice_col_units": slice_col_units,
-- 
2.43.0


From a49ccebc3ec69a6c71a06f26ff3a1cc453dbcc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:23 +0000
Subject: [PATCH 033/102] fix: moving object and n-d plotters read the plot
 settings and slicer attributes that are set

---
 rubin_sim/maf/plots/mo_plotters.py | 23 +++++++++++------------
 rubin_sim/maf/plots/nd_plotters.py | 16 ++++++++--------
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/rubin_sim/maf/plots/mo_plotters.py b/rubin_sim/maf/plots/mo_plotters.py
index bdd4819..a031d73 100644
--- a/rubin_sim/maf/plots/mo_plotters.py
+++ b/rubin_sim/maf/plots/mo_plotters.py
@@ -31,6 +31,7 @@ class MetricVsH(BasePlotter):
             "xlabel": "H (mag)",
             "ylabel": None,
             "label": None,
+            "linestyle": "-",
             "np_reduce": None,
             "nbins": None,
             "albedo": None,
@@ -41,8 +42,6 @@ class MetricVsH(BasePlotter):
         self.min_hrange = 1.0
 
     def __call__(self, metric_value, slicer, user_plot_dict, fig=None):
-        if "linestyle" not in user_plot_dict:
-            user_plot_dict["linestyle"] = "-"
         plot_dict = {}
         plot_dict.update(self.default_plot_dict)
         plot_dict.update(user_plot_dict)
@@ -195,23 +194,23 @@ class MetricVsOrbit(BasePlotter):
         nybins = len(ybins)
         # Identify the relevant metric_values for the Hvalue we want to plot.
         hvals = slicer.slice_points["H"]
-        hwidth = plot_dict["hwidth"]
+        hwidth = plot_dict["Hwidth"]
         if hwidth is None:
             hwidth = 1.0
         if len(hvals) == slicer.shape[1]:
-            if plot_dict["hval"] is None:
+            if plot_dict["h_val"] is None:
                 hidx = int(len(hvals) / 2)
                 hval = hvals[hidx]
             else:
-                hval = plot_dict["hval"]
+                hval = plot_dict["h_val"]
                 hidx = np.where(np.abs(hvals - hval) == np.abs(hvals - hval).min())[0]
                 hidx = hidx[0]
         else:
-            if plot_dict["hval"] is None:
+            if plot_dict["h_val"] is None:
                 hval = np.median(hvals)
                 hidx = np.where(np.abs(hvals - hval) <= hwidth / 2.0)[0]
             else:
-                hval = plot_dict["hvals"]
+                hval = plot_dict["h_val"]
                 hidx = np.where(np.abs(hvals - hval) <= hwidth / 2.0)[0]
         if len(hvals) == slicer.shape[1]:
             m_vals = np.swapaxes(metric_value, 1, 0)[hidx].filled()
@@ -294,23 +293,23 @@ class MetricVsOrbitPoints(BasePlotter):
         yvals = slicer.slice_points["orbits"][plot_dict["yaxis"]]
         # Identify the relevant metric_values for the Hvalue we want to plot.
         hvals = slicer.slice_points["H"]
-        hwidth = plot_dict["hwidth"]
+        hwidth = plot_dict["Hwidth"]
         if hwidth is None:
             hwidth = 1.0
         if len(hvals) == slicer.shape[1]:
-            if plot_dict["hval"] is None:
+            if plot_dict["h_val"] is None:
                 hidx = int(len(hvals) / 2)
                 hval = hvals[hidx]
             else:
-                hval = plot_dict["hval"]
+                hval = plot_dict["h_val"]
                 hidx = np.where(np.abs(hvals - hval) == np.abs(hvals - hval).min())[0]
                 hidx = hidx[0]
         else:
-            if plot_dict["hval"] is None:
+            if plot_dict["h_val"] is None:
                 hval = np.median(hvals)
                 hidx = np.where(np.abs(hvals - hval) <= hwidth / 2.0)[0]
             else:
-                hval = plot_dict["hvals"]
+                hval = plot_dict["h_val"]
                 hidx = np.where(np.abs(hvals - hval) <= hwidth / 2.0)[0]
         if len(hvals) == slicer.shape[1]:
             m_vals = np.swapaxes(metric_value, 1, 0)[hidx]
diff --git a/rubin_sim/maf/plots/nd_plotters.py b/rubin_sim/maf/plots/nd_plotters.py
index 885e243..da79aeb 100644
--- a/rubin_sim/maf/plots/nd_plotters.py
+++ b/rubin_sim/maf/plots/nd_plotters.py
@@ -13,7 +13,7 @@ perceptual_rainbow = make_pr_cmap()
 
 class TwoDSubsetData(BasePlotter):
     """
-    Plot 2 axes from the slicer.sliceColList, identified by
+    Plot 2 axes from the slicer.slice_col_list, identified by
     plot_dict['xaxis']/['yaxis'], given the metric_values at all
     slicepoints [sums over non-visible axes].
     """
@@ -24,7 +24,7 @@ class TwoDSubsetData(BasePlotter):
         self.default_plot_dict = {
             "title": None,
             "xlabel": None,
-            "ylable": None,
+            "ylabel": None,
             "units": None,
             "log_scale": False,
             "clims": None,
@@ -73,7 +73,7 @@ class TwoDSubsetData(BasePlotter):
         md = metric_values.reshape(newshape)
         # Sum over other dimensions.
         # Note that masked values are not included in sum.
-        sumaxes = list(range(slicer.nD))
+        sumaxes = list(range(slicer.n_d))
         sumaxes.remove(xaxis)
         sumaxes.remove(yaxis)
         sumaxes = tuple(sumaxes)
@@ -101,11 +101,11 @@ class TwoDSubsetData(BasePlotter):
             )
         xlabel = plot_dict["xlabel"]
         if xlabel is None:
-            xlabel = slicer.sliceColList[xaxis]
+            xlabel = slicer.slice_col_list[xaxis]
         plt.xlabel(xlabel)
         ylabel = plot_dict["ylabel"]
         if ylabel is None:
-            ylabel = slicer.sliceColList[yaxis]
+            ylabel = slicer.slice_col_list[yaxis]
         plt.ylabel(ylabel)
         cb = plt.colorbar(
             im,
@@ -121,7 +121,7 @@ class TwoDSubsetData(BasePlotter):
 
 class OneDSubsetData(BasePlotter):
     """
-    Plot a single axes from the sliceColList, identified by plot_dict['axis'],
+    Plot a single axes from the slice_col_list, identified by plot_dict['axis'],
     given the metric_values at all slicepoints [sums over non-visible axes].
     """
 
@@ -183,7 +183,7 @@ class OneDSubsetData(BasePlotter):
         md = metric_values.reshape(newshape)
         # Sum over other dimensions.
         # Note that masked values are not included in sum.
-        sumaxes = list(range(slicer.nD))
+        sumaxes = list(range(slicer.n_d))
         sumaxes.remove(axis)
         sumaxes = tuple(sumaxes)
         md = md.sum(sumaxes)
@@ -210,7 +210,7 @@ class OneDSubsetData(BasePlotter):
         plt.ylabel(plot_dict["ylabel"])
         xlabel = plot_dict["xlabel"]
         if xlabel is None:
-            xlabel = slicer.sliceColName[axis]
+            xlabel = slicer.slice_col_list[axis]
             if plot_dict["units"] is not None:
                 xlabel += " (" + plot_dict["units"] + ")"
         plt.xlabel(xlabel)
-- 
2.43.0


From 25065a68be0f8b0d2f0647edf4f2f98b32428354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:20 +0000
Subject: [PATCH 034/102] fix: slicers save the settings with which they can be
 rebuilt

---
 rubin_sim/maf/slicers/base_spatial_slicer.py   |  4 ++++
 rubin_sim/maf/slicers/healpix_slicer.py        |  6 ++++++
 rubin_sim/maf/slicers/movie_slicer.py          |  6 ++++++
 rubin_sim/maf/slicers/time_interval_slicers.py | 17 +++++++++++++++++
 rubin_sim/maf/slicers/user_points_slicer.py    | 10 ++++++++--
 5 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/slicers/base_spatial_slicer.py b/rubin_sim/maf/slicers/base_spatial_slicer.py
index cc2f4fc..f092c9e 100644
--- a/rubin_sim/maf/slicers/base_spatial_slicer.py
+++ b/rubin_sim/maf/slicers/base_spatial_slicer.py
@@ -94,6 +94,10 @@ class BaseSpatialSlicer(BaseSlicer):
             "radius": self.radius,
             "badval": self.badval,
             "use_camera": self.use_camera,
+            "rot_sky_pos_col_name": self.rotSkyPosColName,
+            "lat_lon_deg": self.latLonDeg,
+            "camera_radius": self.camera_radius,
+            "camera_footprint_file": self.camera_footprint_file,
         }
         # RA and Dec are required slice_point info for any spatial slicer.
         # slice_point RA/Dec are in radians.
diff --git a/rubin_sim/maf/slicers/healpix_slicer.py b/rubin_sim/maf/slicers/healpix_slicer.py
index 12a6323..e6d8e2d 100644
--- a/rubin_sim/maf/slicers/healpix_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_slicer.py
@@ -138,6 +138,12 @@ class HealpixSlicer(BaseSpatialSlicer):
             "lon_col": lon_col,
             "lat_col": lat_col,
             "radius": radius,
+            "lat_lon_deg": lat_lon_deg,
+            "use_camera": use_camera,
+            "camera_radius": camera_radius,
+            "camera_footprint_file": camera_footprint_file,
+            "rot_sky_pos_col_name": rot_sky_pos_col_name,
+            "badval": badval,
         }
         self.use_cache = use_cache
         if use_cache:
diff --git a/rubin_sim/maf/slicers/movie_slicer.py b/rubin_sim/maf/slicers/movie_slicer.py
index 0bed562..f39cda3 100644
--- a/rubin_sim/maf/slicers/movie_slicer.py
+++ b/rubin_sim/maf/slicers/movie_slicer.py
@@ -87,6 +87,12 @@ class MovieSlicer(BaseSlicer):
             "slice_col_name": self.slice_col_name,
             "slice_col_units": slice_col_units,
             "badval": badval,
+            "bins": bins,
+            "bin_min": bin_min,
+            "bin_max": bin_max,
+            "bin_size": bin_size,
+            "cumulative": cumulative,
+            "force_no_ffmpeg": force_no_ffmpeg,
         }
 
     def setup_slicer(self, sim_data, maps=None):
diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index e5cca06..8ca4b21 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -59,6 +59,11 @@ class TimeIntervalSlicer(BaseSlicer):
         self.interval_seconds = interval_seconds
         self.mjd_column_name = mjd_column_name
         self.columns_needed = [mjd_column_name]
+        self.slicer_init = {
+            "interval_seconds": interval_seconds,
+            "mjd_column_name": mjd_column_name,
+            "badval": badval,
+        }
         self.sim_idxs = defaultdict(list)  # pylint: disable=invalid-name
 
     def setup_slicer(self, sim_data, maps=None):
@@ -160,6 +165,12 @@ class BlockIntervalSlicer(TimeIntervalSlicer):
             duration_column_name,
             note_column_name,
         ]
+        self.slicer_init = {
+            "mjd_column_name": mjd_column_name,
+            "duration_column_name": duration_column_name,
+            "note_column_name": note_column_name,
+            "badval": badval,
+        }
         self.sim_idxs = defaultdict(list)  # pylint: disable=invalid-name
 
     def setup_slicer(self, sim_data, maps=None):
@@ -250,6 +261,12 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
         self.duration_column_name = duration_column_name
         self.extra_column_names = extra_column_names
         self.columns_needed = [mjd_column_name, duration_column_name]
+        self.slicer_init = {
+            "mjd_column_name": mjd_column_name,
+            "duration_column_name": duration_column_name,
+            "extra_column_names": extra_column_names,
+            "badval": badval,
+        }
         self.sim_idxs = None  # pylint: disable=invalid-name
 
     def setup_slicer(self, sim_data, maps=None):
diff --git a/rubin_sim/maf/slicers/user_points_slicer.py b/rubin_sim/maf/slicers/user_points_slicer.py
index 8f02ff0..477bf9f 100644
--- a/rubin_sim/maf/slicers/user_points_slicer.py
+++ b/rubin_sim/maf/slicers/user_points_slicer.py
@@ -109,11 +109,17 @@ class UserPointsSlicer(BaseSpatialSlicer):
         self.nslice = np.size(ra)
         self.shape = self.nslice
         self.slicer_init = {
-            "ra": ra,
-            "dec": dec,
+            "ra": np.degrees(ra),
+            "dec": np.degrees(dec),
             "lon_col": lon_col,
             "lat_col": lat_col,
             "radius": radius,
+            "lat_lon_deg": lat_lon_deg,
+            "use_camera": use_camera,
+            "camera_radius": camera_radius,
+            "camera_footprint_file": camera_footprint_file,
+            "rot_sky_pos_col_name": rot_sky_pos_col_name,
+            "badval": badval,
         }
         self.plot_funcs = [BaseSkyMap, BaseHistogram]
 
-- 
2.43.0


From a964f448c53c6a29ae1573d640b2687436d750f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:08 +0000
Subject: [PATCH 035/102] fix: column names given by options are used wherever
 the column is read

---
 rubin_sim/maf/metrics/sn_n_sn_metric.py |  5 +++--
 rubin_sim/maf/metrics/sn_sl_metric.py   |  2 +-
 rubin_sim/maf/utils/maf_utils.py        |  2 +-
 rubin_sim/maf/utils/sn_n_sn_utils.py    | 10 +++++++---
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/maf/metrics/sn_n_sn_metric.py b/rubin_sim/maf/metrics/sn_n_sn_metric.py
index f58947a..f7838dc 100644
--- a/rubin_sim/maf/metrics/sn_n_sn_metric.py
+++ b/rubin_sim/maf/metrics/sn_n_sn_metric.py
@@ -183,6 +183,7 @@ class SNNSNMetric(BaseMetric):
                 self.seeing_col,
                 self.snr_min,
                 light_output=False,
+                night_col=self.night_col,
             )
         # loading parameters
         self.zmin = zmin  # zmin for the study
@@ -528,7 +529,7 @@ class SNNSNMetric(BaseMetric):
         if len(grp) > 5:
             # to = grp.groupby(['night'])[self.mjd_col].median().sort_values()
             # df['cadence'] = np.mean(to.diff())
-            nights = np.sort(grp["night"].unique())
+            nights = np.sort(grp[self.night_col].unique())
             diff = np.asarray(nights[1:] - nights[:-1])
             df["cadence"] = np.median(diff).item()
 
@@ -706,7 +707,7 @@ class SNNSNMetric(BaseMetric):
         ]:
             resdf[vv] = self.get_sum(lcarr, vv, len(delta_t), flag)
 
-        nights = np.tile(lcarr["night"], (len(delta_t), 1))
+        nights = np.tile(lcarr[self.night_col], (len(delta_t), 1))
         phases = np.tile(lcarr["phase"], (len(delta_t), 1))
 
         flagph = phases >= 0.0
diff --git a/rubin_sim/maf/metrics/sn_sl_metric.py b/rubin_sim/maf/metrics/sn_sl_metric.py
index ff51795..dcecb59 100644
--- a/rubin_sim/maf/metrics/sn_sl_metric.py
+++ b/rubin_sim/maf/metrics/sn_sl_metric.py
@@ -206,7 +206,7 @@ class SNSLMetric(metrics.BaseMetric):
                 n_lensed_s_ne__ia += 0
             else:
                 # Find the cadence (days) between visits within the season
-                cadence = np.diff(night_slice["observationStartMJD"][s_idx])
+                cadence = np.diff(night_slice[self.mjd_col][s_idx])
                 # But only the values between nights, not within nights
                 cadence = np.median(cadence[np.where(cadence > 0.4)])
                 # Season length in years
diff --git a/rubin_sim/maf/utils/maf_utils.py b/rubin_sim/maf/utils/maf_utils.py
index 47dc9a2..c23687f 100644
--- a/rubin_sim/maf/utils/maf_utils.py
+++ b/rubin_sim/maf/utils/maf_utils.py
@@ -86,7 +86,7 @@ def collapse_night(
         )
 
     night_slice = np.concatenate([night_slice[f] for f in night_slice])
-    night_slice.sort(order=["observationStartMJD"])
+    night_slice.sort(order=[mjd_col])
 
     return night_slice
 
diff --git a/rubin_sim/maf/utils/sn_n_sn_utils.py b/rubin_sim/maf/utils/sn_n_sn_utils.py
index 18389d5..d2c0639 100644
--- a/rubin_sim/maf/utils/sn_n_sn_utils.py
+++ b/rubin_sim/maf/utils/sn_n_sn_utils.py
@@ -59,6 +59,8 @@ class LcfastNew:
         blue cutoff for SN
     redcutoff : `float`, optional
         red cutoff for SN
+    night_col : `str`, optional
+        name of the night col in data to simulate
     """
 
     def __init__(
@@ -78,6 +80,7 @@ class LcfastNew:
         ebvof_mw=-1.0,
         bluecutoff=380.0,
         redcutoff=800.0,
+        night_col="night",
     ):
         # grab all vals
         self.filter_col = filter_col
@@ -87,6 +90,7 @@ class LcfastNew:
         self.season_col = season_col
         self.nexp_col = nexp_col
         self.seeing_col = seeing_col
+        self.night_col = night_col
 
         self.x1 = x1
         self.color = color
@@ -237,7 +241,7 @@ class LcfastNew:
             self.exptime_col,
             self.nexp_col,
             self.seeing_col,
-            "night",
+            self.night_col,
         ]
 
         # take columns common with obs cols
@@ -270,7 +274,7 @@ class LcfastNew:
         lc.loc[:, "color"] = self.color
 
         # estimate errors
-        lc["snr_m5"] = m52snr(lc["mag"], lc["fiveSigmaDepth"])
+        lc["snr_m5"] = m52snr(lc["mag"], lc[self.m5_col])
         lc["fluxerr_photo"] = lc["flux"] / lc["snr_m5"]
         lc["magerr"] = (2.5 / np.log(10.0)) / lc["snr_m5"]
 
@@ -288,7 +292,7 @@ class LcfastNew:
         #    lc = self.dust_corrections(lc, ebvof_mw)
 
         # remove lc points with no detectable flux
-        idx = lc["mag"] < lc["fiveSigmaDepth"] + 0.5
+        idx = lc["mag"] < lc[self.m5_col] + 0.5
         lc_flux = lc[idx]
 
         return lc_flux
-- 
2.43.0


From 1b65dacf6149ed9456d0a472c96557f20918d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:08 +0000
Subject: [PATCH 036/102] fix: SNSNRMetric reads the positions under the names
 they are stored

---
 rubin_sim/maf/metrics/sn_snr_metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/sn_snr_metric.py b/rubin_sim/maf/metrics/sn_snr_metric.py
index 7d54c77..2eb0af0 100644
--- a/rubin_sim/maf/metrics/sn_snr_metric.py
+++ b/rubin_sim/maf/metrics/sn_snr_metric.py
@@ -668,8 +668,8 @@ class SNSNRMetric(metrics.BaseMetric):
             frac_obs_name_ref (float)
         """
 
-        ra = np.mean(snr_obs["fieldRA"])
-        dec = np.mean(snr_obs["fieldDec"])
+        ra = np.mean(snr_obs["field_ra"])
+        dec = np.mean(snr_obs["field_dec"])
         band = np.unique(snr_obs["band"])[0]
 
         rtot = []
-- 
2.43.0


From c628266333ffd969769ecf76d65dfdfd9a25a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:11 +0000
Subject: [PATCH 037/102] fix: ResultsDb.update_display leaves the caller's
 display_dict unchanged

---
 rubin_sim/maf/db/results_db.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index dd41f73..caa9561 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -495,6 +495,7 @@ class ResultsDb:
             else:
                 return
         # Then go ahead and add new display_dict.
+        display_dict = dict(display_dict)
         for k in display_dict:
             if display_dict[k] is None:
                 display_dict[k] = "NULL"
-- 
2.43.0


From 4fb77c5971499ae4ec7fedf79912dbdda63147a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:37 +0000
Subject: [PATCH 038/102] fix: plotting with mask_below or color_min leaves the
 metric values' own mask unchanged

---
 rubin_sim/maf/plots/spatial_plotters.py | 1 +
 rubin_sim/maf/plots/two_d_plotters.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rubin_sim/maf/plots/spatial_plotters.py b/rubin_sim/maf/plots/spatial_plotters.py
index 9347c3a..bb92405 100644
--- a/rubin_sim/maf/plots/spatial_plotters.py
+++ b/rubin_sim/maf/plots/spatial_plotters.py
@@ -189,6 +189,7 @@ class HealpixSkyMap(BasePlotter):
 
         if plot_dict["mask_below"] is not None:
             to_mask = np.where(metric_value <= plot_dict["mask_below"])[0]
+            metric_value = metric_value.copy()
             metric_value.mask[to_mask] = True
             badval = hp.UNSEEN
         else:
diff --git a/rubin_sim/maf/plots/two_d_plotters.py b/rubin_sim/maf/plots/two_d_plotters.py
index c8861ee..5f616f5 100644
--- a/rubin_sim/maf/plots/two_d_plotters.py
+++ b/rubin_sim/maf/plots/two_d_plotters.py
@@ -78,6 +78,7 @@ class TwoDMap(BasePlotter):
         # Mask out values below the color minimum so they show up as white
         if plot_dict["color_min"] is not None:
             low_vals = np.where(metric_value.data < plot_dict["color_min"])
+            metric_value = metric_value.copy()
             metric_value.mask[low_vals] = True
 
         if fig is None:
-- 
2.43.0


From f8dd6ee803e8b68cc8092175c887e57c0ea3f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:37 +0000
Subject: [PATCH 039/102] fix: plot_run_metric_uncert leaves the shared
 colorcet palette unchanged

---
 rubin_sim/maf/run_comparison/summary_plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/run_comparison/summary_plots.py b/rubin_sim/maf/run_comparison/summary_plots.py
index bbe543d..fe98c87 100644
--- a/rubin_sim/maf/run_comparison/summary_plots.py
+++ b/rubin_sim/maf/run_comparison/summary_plots.py
@@ -634,10 +634,10 @@ def plot_run_metric_uncert(
     # make the linestyles and symbols list the same length as cmap, for cycler
     try:
         num_colors = len(cmap)
-        colors = cmap
+        colors = list(cmap)
     except TypeError:
         num_colors = len(cmap.colors)
-        colors = cmap.colors
+        colors = list(cmap.colors)
     ls_grow = int(np.ceil(num_colors / len(linestyles)))
     linestyles = (list(linestyles) * ls_grow)[:num_colors]
     marker_grow = int(np.ceil(num_colors / len(markers)))
-- 
2.43.0


From 6e09b81c354d90bd7cb2f88c94bc41c2f8ac594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:37 +0000
Subject: [PATCH 040/102] fix: ChebyValues.get_ephemerides leaves the requested
 obj_ids unchanged and checks them

---
 rubin_sim/moving_objects/cheby_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index 6137443..d83d68d 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -190,7 +190,7 @@ class ChebyValues:
             if isinstance(obj_ids, str) or isinstance(obj_ids, int):
                 obj_ids = np.array([obj_ids])
             obj_match = np.isin(self.coeffs["obj_id"], obj_ids)
-            ephemerides["obj_id"] = obj_ids
+            ephemerides["obj_id"] = np.array(obj_ids)
         # Now find ephemeris values.
         ephemerides["time"] = np.zeros((len(ephemerides["obj_id"]), ntimes), float) + times
         for k in self.ephemeris_keys:
-- 
2.43.0


From a34bb902a90502eff901e2fc9acf338f37d4e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:37 +0000
Subject: [PATCH 041/102] fix: Orbits.set_orbits leaves the caller's DataFrame
 unchanged

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 3d647cc..ef5fddd 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -126,7 +126,7 @@ class Orbits:
         elif isinstance(orbits, pd.DataFrame):
             # This was a pandas dataframe ..
             # but we probably want to drop the index and recount.
-            orbits.reset_index(drop=True, inplace=True)
+            orbits = orbits.reset_index(drop=True)
 
         if "index" in orbits:
             del orbits["index"]
-- 
2.43.0


From 48cbd11ba1babb298a7a937946080cf4960bf250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:37 +0000
Subject: [PATCH 042/102] fix: fetch_sim_for_nights leaves the caller's
 stackers and arguments unchanged

---
 rubin_sim/sim_archive/future_vsarch.py | 4 ++--
 rubin_sim/sim_archive/prototype.py     | 4 ++--
 rubin_sim/sim_archive/sim_archive.py   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/sim_archive/future_vsarch.py b/rubin_sim/sim_archive/future_vsarch.py
index 7df68fb..caac5fe 100644
--- a/rubin_sim/sim_archive/future_vsarch.py
+++ b/rubin_sim/sim_archive/future_vsarch.py
@@ -378,7 +378,7 @@ def _fetch_sim_for_nights(
             stackers = get_sim_data_kwargs["stackers"]
         else:
             stackers = []
-    assert isinstance(stackers, list)
+    stackers = list(stackers)
 
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in stackers]
     if not dayobsiso_requested:
@@ -390,7 +390,7 @@ def _fetch_sim_for_nights(
         if get_sim_data_kwargs is None:
             get_sim_data_kwargs = {}
         assert isinstance(get_sim_data_kwargs, dict)
-        get_sim_data_kwargs["stackers"] = stackers
+        get_sim_data_kwargs = {**get_sim_data_kwargs, "stackers": stackers}
         visits_recarray = get_sim_data(opsim_rp, **get_sim_data_kwargs)
         visits = pd.DataFrame(visits_recarray)
     else:
diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index f74fea1..8480b5f 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -886,8 +886,8 @@ def fetch_sim_for_nights(
     assert isinstance(get_sim_data_kwargs, dict)
 
     # Limit visits returned to the nights we requested
-    if "stackers" not in get_sim_data_kwargs:
-        get_sim_data_kwargs["stackers"] = []
+    get_sim_data_kwargs = dict(get_sim_data_kwargs)
+    get_sim_data_kwargs["stackers"] = list(get_sim_data_kwargs.get("stackers", []))
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in get_sim_data_kwargs["stackers"]]
     if not dayobsiso_requested:
         # We want it to filter out dates that were not requested,
diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 9b8fc21..36ff9ee 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -471,7 +471,7 @@ def fetch_sim_for_nights(
             stackers = get_sim_data_kwargs["stackers"]
         else:
             stackers = []
-    assert isinstance(stackers, list)
+    stackers = list(stackers)
 
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in stackers]
     if not dayobsiso_requested:
@@ -483,7 +483,7 @@ def fetch_sim_for_nights(
         if get_sim_data_kwargs is None:
             get_sim_data_kwargs = {}
         assert isinstance(get_sim_data_kwargs, dict)
-        get_sim_data_kwargs["stackers"] = stackers
+        get_sim_data_kwargs = {**get_sim_data_kwargs, "stackers": stackers}
         visits_recarray = get_sim_data(opsim_rp, **get_sim_data_kwargs)
         visits = pd.DataFrame(visits_recarray)
     else:
-- 
2.43.0


From 3c77fc7657d1e7dbabd8316fd106b9fc3c8dda21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:37 +0000
Subject: [PATCH 043/102] fix: make_sim_data_dir leaves the caller's
 opsim_metadata unchanged

---
 rubin_sim/sim_archive/sim_archive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 36ff9ee..65a1d1d 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -151,6 +151,7 @@ def make_sim_data_dir(
 
     if opsim_metadata is None:
         opsim_metadata = {}
+    opsim_metadata = dict(opsim_metadata)
 
     opsim_metadata["scheduler_version"] = rubin_scheduler.__version__
     opsim_metadata["host"] = socket.getfqdn()
-- 
2.43.0


From 2ca02c50e254946ef8e22e1b583e255d78ddaddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:38 +0000
Subject: [PATCH 044/102] fix: VisitSequenceArchiveMetadata leaves the caller's
 connection arguments unchanged

---
 rubin_sim/sim_archive/vseqmetadata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index a23b3ee..fb38cab 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -180,8 +180,7 @@ class VisitSequenceArchiveMetadata:
             metadata_db_schema = VSARCHIVE_PGSCHEMA
         assert isinstance(metadata_db_schema, str)
 
-        if not isinstance(metadata_db_kwargs, dict):
-            metadata_db_kwargs = {} if metadata_db_kwargs is None else dict(metadata_db_kwargs)
+        metadata_db_kwargs = {} if metadata_db_kwargs is None else dict(metadata_db_kwargs)
         assert isinstance(metadata_db_kwargs, dict)
 
         if "database" not in metadata_db_kwargs or metadata_db_kwargs["database"] is None:
-- 
2.43.0


From acab600b89e05c9544225239dd6f77ed220f3cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:38 +0000
Subject: [PATCH 045/102] fix: TwilightInterp leaves the caller's fit_results
 unchanged

---
 rubin_sim/skybrightness/interp_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/interp_components.py b/rubin_sim/skybrightness/interp_components.py
index c766413..7be9e2f 100644
--- a/rubin_sim/skybrightness/interp_components.py
+++ b/rubin_sim/skybrightness/interp_components.py
@@ -480,7 +480,7 @@ class TwilightInterp:
                 2.32325117e-04,
             ]
         else:
-            self.fit_results = fit_results
+            self.fit_results = {key: list(fit) for key, fit in fit_results.items()}
 
         # Take out any filters that don't have fit results
         self.filter_names = [key for key in self.filter_names if key in self.fit_results]
-- 
2.43.0


From b77af89922e748c79154b2c01b8d008fd536d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:38 +0000
Subject: [PATCH 046/102] fix: LsqrSolver leaves the caller's observations in
 their order

---
 rubin_sim/selfcal/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/solver.py b/rubin_sim/selfcal/solver.py
index 5d770c9..c4eb6df 100644
--- a/rubin_sim/selfcal/solver.py
+++ b/rubin_sim/selfcal/solver.py
@@ -38,7 +38,7 @@ class LsqrSolver:
         self.atol = atol
         self.btol = btol
         self.iter_lim = iter_lim
-        self.observations = observations
+        self.observations = observations.copy()
         self.show = show
 
     def run(self):
-- 
2.43.0


From b60230021caff594c18cbfed56d75f5058c10846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 047/102] fix: TwoDMap does not carry the axis label of one
 slicer over to the next

---
 rubin_sim/maf/plots/two_d_plotters.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/plots/two_d_plotters.py b/rubin_sim/maf/plots/two_d_plotters.py
index 5f616f5..a3d62e7 100644
--- a/rubin_sim/maf/plots/two_d_plotters.py
+++ b/rubin_sim/maf/plots/two_d_plotters.py
@@ -55,13 +55,12 @@ class TwoDMap(BasePlotter):
         fig : `matplotlib.figure.Figure`
             Figure with the plot.
         """
-        if "Healpix" in slicer.slicer_name:
-            self.default_plot_dict["ylabel"] = "Healpix ID"
-        elif "User" in slicer.slicer_name:
-            self.default_plot_dict["ylabel"] = "User Field ID"
-
         plot_dict = {}
         plot_dict.update(self.default_plot_dict)
+        if "Healpix" in slicer.slicer_name:
+            plot_dict["ylabel"] = "Healpix ID"
+        elif "User" in slicer.slicer_name:
+            plot_dict["ylabel"] = "User Field ID"
         # Don't clobber with None
         for key in user_plot_dict:
             if user_plot_dict[key] is not None:
-- 
2.43.0


From 0ed3ed04c2f374f56c236296d8ba10d3aa61c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 048/102] fix: MagicDiscoveryMetric looks at the nights of the
 visible observations

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index a06e2a1..a74a477 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -870,7 +870,7 @@ class MagicDiscoveryMetric(BaseMoMetric):
         vis = _set_vis(sso_obs, self.snr_limit, self.snr_col, self.vis_col)
         if len(vis) < self.n_obs:
             return self.badval
-        t_nights = np.sort(sso_obs[self.night_col])[vis]
+        t_nights = np.sort(sso_obs[self.night_col][vis])
         u_nights = np.unique(t_nights)
         indx_w = np.searchsorted(t_nights, u_nights, "left")
         indx_p = np.searchsorted(t_nights - self.t_window, u_nights, "left")
-- 
2.43.0


From d606a01baeec012f762bfcf2b7f3708f543f9bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 049/102] fix: HighVelocityNightsMetric does not depend on the
 order of the observations

---
 rubin_sim/maf/metrics/mo_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index a74a477..98b2307 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -962,7 +962,7 @@ class HighVelocityNightsMetric(BaseMoMetric):
         )[0]
         if len(high_velocity_obs) == 0:
             return 0
-        nights = sso_obs[self.night_col][vis][high_velocity_obs]
+        nights = np.sort(sso_obs[self.night_col][vis][high_velocity_obs])
         n = np.unique(nights)
         n_idx = np.searchsorted(nights, n)
         # Count the number of observations per night (except last night)
@@ -974,7 +974,7 @@ class HighVelocityNightsMetric(BaseMoMetric):
         # (this is already looking at only high velocity observations).
         n_with_x_obs = n[np.where(obs_per_night >= self.n_obs_per_night)]
         if len(n_with_x_obs) > 0:
-            found = sso_obs[np.where(sso_obs[self.night_col] == n_with_x_obs[0])][self.mjd_col][0]
+            found = sso_obs[np.where(sso_obs[self.night_col] == n_with_x_obs[0])][self.mjd_col].min()
         else:
             found = self.badval
         return found
-- 
2.43.0


From c543eea62dc4fafb69f8ff5c38234a90eab0cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 050/102] fix: InstantaneousColorMetric does not depend on the
 order of the observations

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 98b2307..8ad4ea1 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -1326,7 +1326,7 @@ class InstantaneousColorMetric(BaseMoMetric):
             return 0
         b_one_obs = np.where(sso_obs[self.filter_col][vis] == self.b_one)[0]
         b_two_obs = np.where(sso_obs[self.filter_col][vis] == self.b_two)[0]
-        timesb_one = sso_obs[self.mjd_col][vis][b_one_obs]
+        timesb_one = np.sort(sso_obs[self.mjd_col][vis][b_one_obs])
         timesb_two = sso_obs[self.mjd_col][vis][b_two_obs]
         if len(timesb_one) == 0 or len(timesb_two) == 0:
             return 0
-- 
2.43.0


From a800b0721aab9acf033c256f57352302f660b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 051/102] fix: DiscoveryMetric reports discoveries as positions
 in the time-ordered observations

---
 rubin_sim/maf/metrics/mo_metrics.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 8ad4ea1..71f409c 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -436,7 +436,7 @@ class DiscoveryMetric(BaseMoMetric):
             & (n_idx_many_end + 1 - n_idx_many > self.n_obs_per_night)
             & (times_end - times_start > self.t_max)
         )[0]
-        for i, j, c in zip(vis_sort[n_idx_many][check], vis_sort[n_idx_many_end][check], check):
+        for i, j, c in zip(n_idx_many[check], n_idx_many_end[check], check):
             t = sso_obs[self.mjd_col][vis][vis_sort][i : j + 1]
             dtimes = (np.roll(t, 1 - self.n_obs_per_night) - t)[:-1]
             tidx = np.where((dtimes >= self.t_min) & (dtimes <= self.t_max))[0]
@@ -445,14 +445,14 @@ class DiscoveryMetric(BaseMoMetric):
         # 'good' provides mask for observations which could count as
         # 'good to make tracklets' against sso_obs[vis_sort][n_idx_many].
         # Now identify tracklets which can make tracks.
-        good_idx = vis_sort[n_idx_many][good == 1]
-        good_idx_ends = vis_sort[n_idx_many_end][good == 1]
+        good_idx = n_idx_many[good == 1]
+        good_idx_ends = n_idx_many_end[good == 1]
         # print 'good tracklets', nights[good_idx]
         if len(good_idx) < self.n_nights_per_window:
             return self.badval
         delta_nights = (
-            np.roll(sso_obs[self.night_col][vis][good_idx], 1 - self.n_nights_per_window)
-            - sso_obs[self.night_col][vis][good_idx]
+            np.roll(nights[good_idx], 1 - self.n_nights_per_window)
+            - nights[good_idx]
         )
         # Identify the index in sso_obs[vis][good_idx] (sorted by mjd)
         # where the discovery opportunity starts.
@@ -461,7 +461,7 @@ class DiscoveryMetric(BaseMoMetric):
         end_idxs = np.zeros(len(start_idxs), dtype="int")
         for i, sIdx in enumerate(start_idxs):
             in_window = np.where(
-                sso_obs[self.night_col][vis][good_idx] - sso_obs[self.night_col][vis][good_idx][sIdx]
+                nights[good_idx] - nights[good_idx][sIdx]
                 <= self.t_window
             )[0]
             end_idxs[i] = in_window.max()
-- 
2.43.0


From 348db79d4cf6edbae200ad2922abdd294f0c9303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 052/102] fix: PeriodicMetric does not depend on the order of
 the visits

---
 rubin_sim/maf/maf_contrib/periodic_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/periodic_metric.py b/rubin_sim/maf/maf_contrib/periodic_metric.py
index 658bca6..b877693 100644
--- a/rubin_sim/maf/maf_contrib/periodic_metric.py
+++ b/rubin_sim/maf/maf_contrib/periodic_metric.py
@@ -32,7 +32,7 @@ class PeriodicMetric(BaseMetric):
         frq_pts = 30000.0
         max_frq = 25.0
         times = data_slice[self.time_col]
-        times = times - times[0]  # change times to smaller numbers
+        times = times - np.min(times)  # change times to smaller numbers
         use_jd = np.array(times)
         window_frq = np.arange(frq_pts) * max_frq / frq_pts
         window_val = np.zeros_like(window_frq, dtype="float")
-- 
2.43.0


From 9f12603289e73d4f0d3e98fb343139f3b3fa0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 053/102] fix: OverheadStacker compares each visit with the one
 before it in time

---
 rubin_sim/maf/stackers/general_stackers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 03b2864..0913b2e 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -823,10 +823,12 @@ class OverheadStacker(BaseStacker):
         # This is all non-exposure time required for this visit --
         # includes slew time to this target, any shutter overheads for this
         # visit, and any readouts not absorbed in slewtime for this visit.
+        # The previous visit is the previous one in time.
+        time_order = np.argsort(sim_data[self.mjd_col], kind="stable")
         observation_end_mjd = sim_data[self.mjd_col] + sim_data[self.visit_time_col] / (24 * 60 * 60)
-        overhead = (
-            np.diff(observation_end_mjd, prepend=np.nan) * 24 * 60 * 60 - sim_data[self.exposure_time_col]
-        )
+        time_since_previous = np.empty(len(sim_data), dtype=float)
+        time_since_previous[time_order] = np.diff(observation_end_mjd[time_order], prepend=np.nan)
+        overhead = time_since_previous * 24 * 60 * 60 - sim_data[self.exposure_time_col]
 
         # Rough heuristic not to count downtime due to weather or instrument
         # problems as overhead.  A more reliable way to do this would be to
@@ -843,7 +845,8 @@ class OverheadStacker(BaseStacker):
         # even in this case, we would still not want to include gaps between
         # nights.
         day_obs_mjd = self.day_obs_mjd_stacker.run(sim_data)["day_obs_mjd"]
-        different_night = np.diff(day_obs_mjd, prepend=np.nan) != 0
+        different_night = np.empty(len(sim_data), dtype=bool)
+        different_night[time_order] = np.diff(day_obs_mjd[time_order], prepend=np.nan) != 0
         overhead[different_night] = np.nan
 
         sim_data[self.cols_added[0]] = overhead
-- 
2.43.0


From 50169746f47cbf7d338c10e639d31a18f329a626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:31 +0000
Subject: [PATCH 054/102] fix: ProperMotionMetric's normalisation does not
 depend on the order of the visits

---
 rubin_sim/maf/metrics/calibration_metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index c68ff54..a03e980 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -239,6 +239,8 @@ class ProperMotionMetric(BaseMetric):
             self.comment += "Values closer to 1 indicate more optimal scheduling."
 
     def run(self, data_slice, slice_point=None):
+        # The normalized version splits the visits into earlier and later ones.
+        data_slice.sort(order=self.mjd_col)
         filters = np.unique(data_slice[self.filter_col])
         filters = [str(f) for f in filters]
         precis = np.zeros(data_slice.size, dtype="float")
-- 
2.43.0


From 614ac54e78324170e43e08f91ea28c05f0b90b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:05 +0000
Subject: [PATCH 055/102] fix: SaturationStacker marks the saturated visits
 themselves, not others of the same number

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 0913b2e..3e4d4e7 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -115,7 +115,7 @@ class SaturationStacker(BaseStacker):
                 sim_data[self.airmass_col][in_filt] - 1.0
             )
             # Explicitly make sure if sky has saturated we return NaN
-            sim_data["saturation_mag"][np.where(remaining_counts_peak < 0)] = np.nan
+            sim_data["saturation_mag"][in_filt[remaining_counts_peak < 0]] = np.nan
 
         return sim_data
 
-- 
2.43.0


From 0b7bd6e35530e1faf5d9086164c36484ab16ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:28 +0000
Subject: [PATCH 056/102] fix: generate_kn_pop_slicer uses the seed when given
 event positions

---
 rubin_sim/maf/maf_contrib/kne_metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/maf_contrib/kne_metrics.py b/rubin_sim/maf/maf_contrib/kne_metrics.py
index 931defc..166d398 100644
--- a/rubin_sim/maf/maf_contrib/kne_metrics.py
+++ b/rubin_sim/maf/maf_contrib/kne_metrics.py
@@ -454,6 +454,8 @@ def generate_kn_pop_slicer(
 
     if ra is None:
         ra, dec = uniform_sphere(n_events, seed=seed)
+    else:
+        np.random.seed(seed)
 
     peak_times = np.random.uniform(low=t_start, high=t_end, size=n_events)
     file_indx = np.floor(np.random.uniform(low=0, high=n_files, size=n_events)).astype(int)
-- 
2.43.0


From c0d734236f03a083d83fb3bfae3b6bfee2bbcb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:29 +0000
Subject: [PATCH 057/102] fix: the periodic star metrics draw from a generator
 of their own seed

---
 rubin_sim/maf/maf_contrib/periodic_star_metric.py     |  4 ++--
 .../maf_contrib/periodic_star_modulation_metric.py    | 11 +++++------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/periodic_star_metric.py b/rubin_sim/maf/maf_contrib/periodic_star_metric.py
index 635d9e0..bf10b3d 100644
--- a/rubin_sim/maf/maf_contrib/periodic_star_metric.py
+++ b/rubin_sim/maf/maf_contrib/periodic_star_metric.py
@@ -116,7 +116,7 @@ class PeriodicStarMetric(BaseMetric):
         self.means = np.array(means)
         self.mag_tol = mag_tol
         self.n_bands = n_bands
-        np.random.seed(seed)
+        self.rng = np.random.default_rng(seed)
         self.filter2index = {"u": 3, "g": 4, "r": 5, "i": 6, "z": 7, "y": 8}
 
     def run(self, data_slice, slice_point=None):
@@ -145,7 +145,7 @@ class PeriodicStarMetric(BaseMetric):
         for i in np.arange(self.n_monte):
             snr = m52snr(true_lc, data_slice[self.m5_col])
             dmag = 2.5 * np.log10(1.0 + 1.0 / snr)
-            noise = np.random.randn(true_lc.size) * dmag
+            noise = self.rng.standard_normal(true_lc.size) * dmag
             # Suppress warnings about failing on covariance
             fit_obj = PeriodicStar(t["filter"])
             with warnings.catch_warnings():
diff --git a/rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py b/rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py
index 909a950..98d9b72 100644
--- a/rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py
+++ b/rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py
@@ -1,6 +1,5 @@
 __all__ = ("PeriodicStarModulationMetric",)
 
-import random
 import warnings
 
 import numpy as np
@@ -125,7 +124,7 @@ class PeriodicStarModulationMetric(BaseMetric):
         self.means = np.array(means)
         self.mag_tol = mag_tol
         self.n_bands = n_bands
-        np.random.seed(seed)
+        self.rng = np.random.default_rng(seed)
         self.filter2index = {"u": 3, "g": 4, "r": 5, "i": 6, "z": 7, "y": 8}
 
     def run(self, data_slice, slice_point=None):
@@ -167,11 +166,11 @@ class PeriodicStarModulationMetric(BaseMetric):
                 # slightly different periods and amplitudes (+/- 10 %)
                 # to mimic true stars. random phase offsets to mimic
                 # observation starting at random phase
-                true_period = random.uniform(0.9, 1.1) * self.period
-                true_amplitude = random.uniform(0.9, 1.1) * self.amplitude
+                true_period = self.rng.uniform(0.9, 1.1) * self.period
+                true_amplitude = self.rng.uniform(0.9, 1.1) * self.amplitude
                 if np.isnan(self.phase):
                     # a random phase (in days) should be assigned
-                    true_phase = random.uniform(0, 1) * self.period
+                    true_phase = self.rng.uniform(0, 1) * self.period
                 else:
                     true_phase = self.phase
 
@@ -184,7 +183,7 @@ class PeriodicStarModulationMetric(BaseMetric):
                 for i in np.arange(self.n_monte):
                     snr = m52snr(true_lc, m5_subrun)
                     dmag = 2.5 * np.log10(1.0 + 1.0 / snr)
-                    noise = np.random.randn(true_lc.size) * dmag
+                    noise = self.rng.standard_normal(true_lc.size) * dmag
                     # Suppress warnings about failing on covariance
                     fit_obj = PeriodicStar(t_subrun["filter"])
                     # check if we have enough points
-- 
2.43.0


From da5df40015d0a0ad913e63aca1fd209bb8b6163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:29 +0000
Subject: [PATCH 058/102] fix: XRB outburst parameters follow the seed

---
 rubin_sim/maf/maf_contrib/xrb_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/xrb_metrics.py b/rubin_sim/maf/maf_contrib/xrb_metrics.py
index 655cbcb..09baf3e 100644
--- a/rubin_sim/maf/maf_contrib/xrb_metrics.py
+++ b/rubin_sim/maf/maf_contrib/xrb_metrics.py
@@ -103,7 +103,7 @@ class XrbLc:
         flip = self.rng.uniform(size=size)
         w = flip > 0.5
         tau_rise = np.zeros(size) * np.nan
-        tau_rise[w] = loguniform.rvs(0.5, 50, size=np.sum(w))
+        tau_rise[w] = loguniform.rvs(0.5, 50, size=np.sum(w), random_state=self.rng)
         tau_rise[~w] = self.rng.lognormal(0, 0.2, size=np.sum(~w)) + 0.3
 
         # amplitude = rng.lognormal(9,1,size=1)[0]
@@ -485,7 +485,7 @@ def generate_xrb_pop_slicer(t_start=1, t_end=3652, n_events=10000, seed=42):
 
     nsamples, nfields = xrb_sample.shape
 
-    xrb_lc_gen = XrbLc()
+    xrb_lc_gen = XrbLc(seed=seed)
 
     # select a random subsample
     event_idxs = rng.choice(np.arange(nsamples), size=n_events, replace=True)
-- 
2.43.0


From 9cbdfaa860da312db572f8914d7722ffc0053c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:29 +0000
Subject: [PATCH 059/102] fix: Orbits.assign_sed uses the random_seed of every
 call

---
 rubin_sim/moving_objects/orbits.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index ef5fddd..3d6b3a6 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -248,13 +248,12 @@ class Orbits:
         else:
             raise ValueError("Need either a or q (plus e) in orbit data frame.")
 
-        if not hasattr(self, "_rng"):
-            if random_seed is not None:
-                self._rng = np.random.RandomState(random_seed)
-            else:
-                self._rng = np.random.RandomState(42)
+        if random_seed is not None:
+            rng = np.random.RandomState(random_seed)
+        else:
+            rng = np.random.RandomState(42)
 
-        chance = self._rng.random_sample(len(orbits))
+        chance = rng.random_sample(len(orbits))
         prob_c = 0.5 * a - 1.0
         # if chance <= prob_c:
         sedvals = np.where(chance <= prob_c, "C.dat", "S.dat")
-- 
2.43.0


From fa56b4ce4781cfac945afecdf8c5d0a306d3d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:29 +0000
Subject: [PATCH 060/102] fix: the random plot colors are the same for the same
 bundles

---
 rubin_sim/maf/plots/plot_handler.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/plots/plot_handler.py b/rubin_sim/maf/plots/plot_handler.py
index 0fb605b..7a0f1f4 100644
--- a/rubin_sim/maf/plots/plot_handler.py
+++ b/rubin_sim/maf/plots/plot_handler.py
@@ -479,12 +479,8 @@ class PlotHandler:
         #  (say, the metrics were all in the same filter)
         #  then go ahead and generate random colors.
         if (len(self.m_bundles) > 1) and (len(np.unique(colors)) == 1):
-            colors = [
-                np.random.rand(
-                    3,
-                )
-                for m_b in self.m_bundles
-            ]
+            rng = np.random.default_rng(42)
+            colors = [rng.random(3) for m_b in self.m_bundles]
         return colors
 
     def _build_cbar_format(self):
-- 
2.43.0


From e1e4e98bb87f18642a691fd1fc3124cdfa2f0453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:49 +0000
Subject: [PATCH 061/102] fix: GRBTransientMetric draws the burst magnitudes
 from a seeded generator

---
 rubin_sim/maf/maf_contrib/grb_transient_metric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/grb_transient_metric.py b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
index 20e2bcb..a1775d2 100644
--- a/rubin_sim/maf/maf_contrib/grb_transient_metric.py
+++ b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
@@ -70,6 +70,8 @@ class GRBTransientMetric(metrics.BaseMetric):
         detection criteria, but would not if the observations were offset
         by a phase-shift.
         Default 1.
+    seed : `int`, optional
+        Seed for the random peak magnitudes. Default 42.
     """
 
     def __init__(
@@ -89,6 +91,7 @@ class GRBTransientMetric(metrics.BaseMetric):
         n_filters=1,
         min_delta_mag=0.0,
         n_phase_check=1,
+        seed=42,
         **kwargs,
     ):
         self.mjd_col = mjd_col
@@ -111,6 +114,7 @@ class GRBTransientMetric(metrics.BaseMetric):
         self.n_filters = n_filters
         self.min_delta_mag = min_delta_mag
         self.n_phase_check = n_phase_check
+        self.rng = np.random.default_rng(seed)
         self.peak_time = 0.0
         self.reduce_order = {
             "Bandu": 0,
@@ -131,7 +135,7 @@ class GRBTransientMetric(metrics.BaseMetric):
         lc_mags = np.zeros(time.size, dtype=float)
 
         decline = np.where(time > self.peak_time)
-        apparent_mag_1min = np.random.randn() * self.apparent_mag_1min_sigma + self.apparent_mag_1min_mean
+        apparent_mag_1min = self.rng.standard_normal() * self.apparent_mag_1min_sigma + self.apparent_mag_1min_mean
         lc_mags[decline] += apparent_mag_1min + self.alpha * 2.5 * np.log10(
             (time[decline] - self.peak_time) * 24.0 * 60.0
         )
-- 
2.43.0


From 8fcdd4a58190745966245ef3343d25ba2714f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:49 +0000
Subject: [PATCH 062/102] fix: VarDepth draws its noise realizations from a
 seeded generator

---
 rubin_sim/maf/maf_contrib/var_depth_metric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/var_depth_metric.py b/rubin_sim/maf/maf_contrib/var_depth_metric.py
index 15d965b..181cfef 100644
--- a/rubin_sim/maf/maf_contrib/var_depth_metric.py
+++ b/rubin_sim/maf/maf_contrib/var_depth_metric.py
@@ -27,6 +27,8 @@ class VarDepth(BaseMetric):
         Sqrt total pulsational power meant to be recovered.
     magres : `float`, opt
         desired resolution of variability depth result.
+    seed : `int`, opt
+        Seed for the noise realizations.
     """
 
     def __init__(
@@ -38,6 +40,7 @@ class VarDepth(BaseMetric):
         numruns=10000,
         signal=0.01,
         magres=0.01,
+        seed=42,
         **kwargs,
     ):
         self.m5col = m5_col
@@ -46,6 +49,7 @@ class VarDepth(BaseMetric):
         self.numruns = numruns
         self.signal = signal
         self.magres = magres
+        self.rng = np.random.default_rng(seed)
         super(VarDepth, self).__init__(col=m5_col, metric_name=metric_name, **kwargs)
 
     def run(self, data_slice, slice_point=None):
@@ -72,7 +76,7 @@ class VarDepth(BaseMetric):
         # Simulate the measured noise-only variances at a reference magnitude
         for i in np.arange(self.numruns):
             # random realization of the Gaussian error distributions
-            scatter = np.random.randn(N) * sigmaref
+            scatter = self.rng.standard_normal(N) * sigmaref
             noiseonlyvar[i] = np.var(scatter)  # store the noise-only variance
 
         # Since we are treating the underlying signal being representable by a
-- 
2.43.0


From 6c3dd094debeee7de886dd28f3228a6d89a67cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:49 +0000
Subject: [PATCH 063/102] fix: KnownObjectsMetric picks the successful
 observations from a seeded generator

---
 rubin_sim/maf/metrics/mo_metrics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 71f409c..54116ec 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -1412,6 +1412,9 @@ class KnownObjectsMetric(BaseMoMetric):
     eff4 : `float`, opt
         The efficiency of observations during the fourth (last) period.
         Default 0.2
+    seed : `int`, opt
+        Seed for the random choice of the observations that succeed.
+        Default 42.
     """
 
     def __init__(
@@ -1430,9 +1433,11 @@ class KnownObjectsMetric(BaseMoMetric):
         eff4=0.2,
         elong_col="Elongation",
         mjd_col="MJD(UTC)",
+        seed=42,
         **kwargs,
     ):
         super().__init__(**kwargs)
+        self.rng = np.random.default_rng(seed)
         self.elong_thresh = elong_thresh
         self.elong_col = elong_col
         self.v_mag_thresh1 = v_mag_thresh1
@@ -1452,7 +1457,7 @@ class KnownObjectsMetric(BaseMoMetric):
     def _pick_obs(self, potential_obs_times, eff):
         # From a set of potential observations, apply an efficiency
         # And return the minimum time (if any)
-        rand_pick = np.random.rand(len(potential_obs_times))
+        rand_pick = self.rng.random(len(potential_obs_times))
         picked = np.where(rand_pick <= eff)[0]
         if len(picked) > 0:
             disc_time = potential_obs_times[picked].min()
-- 
2.43.0


From 13a8e381db3d2f22a97549313ac6d81cde2f9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:24 +0000
Subject: [PATCH 064/102] fix: the numbering of the KN and TDE light curves
 does not depend on how the files are listed

---
 rubin_sim/maf/maf_contrib/kne_metrics.py     | 4 ++--
 rubin_sim/maf/maf_contrib/tdes_pop_metric.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/kne_metrics.py b/rubin_sim/maf/maf_contrib/kne_metrics.py
index 166d398..ca9ad59 100644
--- a/rubin_sim/maf/maf_contrib/kne_metrics.py
+++ b/rubin_sim/maf/maf_contrib/kne_metrics.py
@@ -29,7 +29,7 @@ def get_kne_filename(inj_params_list=None):
     """
     # Get files, model grid developed by M. Bulla
     datadir = get_data_dir()
-    file_list = glob.glob(os.path.join(datadir, "maf", "bns", "*.dat"))
+    file_list = sorted(glob.glob(os.path.join(datadir, "maf", "bns", "*.dat")))
 
     # If no specific parameters passed - return everything.
     if inj_params_list is None or len(inj_params_list) == 0:
@@ -90,7 +90,7 @@ class KnLc:
         if file_list is None:
             datadir = get_data_dir()
             # Get files, model grid developed by M. Bulla
-            file_list = glob.glob(os.path.join(datadir, "maf", "bns", "*.dat"))
+            file_list = sorted(glob.glob(os.path.join(datadir, "maf", "bns", "*.dat")))
 
         filts = ["u", "g", "r", "i", "z", "y"]
         magidxs = [1, 2, 3, 4, 5, 6]
diff --git a/rubin_sim/maf/maf_contrib/tdes_pop_metric.py b/rubin_sim/maf/maf_contrib/tdes_pop_metric.py
index 2d44c09..aac92d4 100644
--- a/rubin_sim/maf/maf_contrib/tdes_pop_metric.py
+++ b/rubin_sim/maf/maf_contrib/tdes_pop_metric.py
@@ -26,7 +26,7 @@ class TdeLc:
     def __init__(self, file_list=None):
         if file_list is None:
             sims_maf_contrib_dir = get_data_dir()
-            file_list = glob.glob(os.path.join(sims_maf_contrib_dir, "maf/tde/*.dat"))
+            file_list = sorted(glob.glob(os.path.join(sims_maf_contrib_dir, "maf/tde/*.dat")))
 
         lcs = []
         for filename in file_list:
-- 
2.43.0


From ac95cc680e5bab5efbdbd68f712a8a5c2609bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:24 +0000
Subject: [PATCH 065/102] fix: get_baseline picks the same file however the
 directory is listed

---
 rubin_sim/data/rs_download_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/data/rs_download_data.py b/rubin_sim/data/rs_download_data.py
index db9b334..358040e 100644
--- a/rubin_sim/data/rs_download_data.py
+++ b/rubin_sim/data/rs_download_data.py
@@ -30,7 +30,7 @@ def get_baseline() -> str:
     """
     dd = get_data_dir()
     path = os.path.join(dd, "sim_baseline")
-    file = glob.glob(path + "/*10yrs.db")[0]
+    file = sorted(glob.glob(path + "/*10yrs.db"))[0]
     return file
 
 
-- 
2.43.0


From f05102c45b970499a50257aa47c17868ddcf5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:24 +0000
Subject: [PATCH 066/102] fix: run_moving_fractions names its figures after the
 same metric file however the directory is listed

---
 rubin_sim/maf/run_moving_fractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/run_moving_fractions.py b/rubin_sim/maf/run_moving_fractions.py
index 79169e0..8bff10d 100755
--- a/rubin_sim/maf/run_moving_fractions.py
+++ b/rubin_sim/maf/run_moving_fractions.py
@@ -67,7 +67,7 @@ def run_moving_fractions():
         matchstring = os.path.join(args.work_dir, "*MOOB.npz")
     else:
         matchstring = os.path.join(args.work_dir, f"*{args.metadata}*MOOB.npz")
-    metricfiles = glob.glob(matchstring)
+    metricfiles = sorted(glob.glob(matchstring))
     metric_names = []
     for m in metricfiles:
         mname = os.path.split(m)[-1].replace("_MOOB.npz", "")
-- 
2.43.0


From 66dca3e7e3c3c4a08fda33708e6a617614fb4088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:24 +0000
Subject: [PATCH 067/102] fix: the SED cache is compared for the same files on
 every run

---
 rubin_sim/phot_utils/sed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index fad53f0..39ba13e 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -180,7 +180,7 @@ def _compare_cached_versus_uncached():
 
     dtype = numpy.dtype([("wavelen", float), ("flambda", float)])
 
-    sed_name_list = os.listdir(sed_dir)
+    sed_name_list = sorted(os.listdir(sed_dir))
     msg = (
         "An SED loaded from the pickled cache is not "
         "identical to the same SED loaded from ASCII; "
-- 
2.43.0


From 67edb12f864fc8be66eecb2e218086f3ab0a9255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:24 +0000
Subject: [PATCH 068/102] fix: the titles, labels and file names of joint plots
 are the same on every run

---
 rubin_sim/maf/plots/plot_handler.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/maf/plots/plot_handler.py b/rubin_sim/maf/plots/plot_handler.py
index 7a0f1f4..99e4923 100644
--- a/rubin_sim/maf/plots/plot_handler.py
+++ b/rubin_sim/maf/plots/plot_handler.py
@@ -242,12 +242,12 @@ class PlotHandler:
                         joint_name.append(filterlist)
                     else:
                         # Otherwise, just join and put into joint_name.
-                        joint_name.append("".join(tmp))
+                        joint_name.append("".join(sorted(tmp)))
                 joint_name = " ".join(joint_name)
             # If the metric names are not the same length,
             # just join everything.
             else:
-                joint_name = " ".join(self.metric_names)
+                joint_name = " ".join(sorted(self.metric_names))
         self.joint_metric_names = joint_name
 
     def _combine_run_names(self):
@@ -257,7 +257,7 @@ class PlotHandler:
         self.run_names = set()
         for m_b in self.m_bundles:
             self.run_names.add(m_b.run_name)
-        self.joint_run_names = " ".join(self.run_names)
+        self.joint_run_names = " ".join(sorted(self.run_names))
 
     def _combine_metadata(self):
         """
@@ -276,7 +276,7 @@ class PlotHandler:
             # splitting on some values we expect to separate
             # info_label clauses.
             splitmetas = []
-            for m in self.info_label:
+            for m in sorted(self.info_label):
                 # Try to split info_label into separate phrases
                 # (filter / proposal / constraint..).
                 if " and " in m:
@@ -299,7 +299,7 @@ class PlotHandler:
             diffsplit = []
             for d in diff:
                 if len(d) > 0:
-                    m = set([x.split() for x in d][0])
+                    m = set(sorted(d)[0].split())
                 else:
                     m = set()
                 diffsplit.append(m)
@@ -313,7 +313,7 @@ class PlotHandler:
                 # (so it goes 'g', 'g dithered', etc.)
                 tmp = []
                 for d in diff:
-                    tmp.append(list(d)[0])
+                    tmp.append(sorted(d)[0])
                 diff = tmp
                 xlengths = [len(x) for x in diff]
                 idx = np.argsort(xlengths)
@@ -334,14 +334,14 @@ class PlotHandler:
                     if d not in diffdiff_ordered:
                         diffdiff_end.append(d)
                 diffdiff = diffdiff_ordered + diffdiff_end
-                diffdiff = [" ".join(c) for c in diffdiff]
+                diffdiff = [" ".join(sorted(c)) for c in diffdiff]
             # And put it all back together.
             combo = (
                 ", ".join(["".join(c) for c in diffdiff])
                 + " "
-                + " ".join(["".join(d) for d in diffcommon])
+                + " ".join(["".join(d) for d in sorted(diffcommon)])
                 + " "
-                + " ".join(["".join(e) for e in common])
+                + " ".join(["".join(e) for e in sorted(common)])
             )
             self.joint_metadata = combo
 
@@ -353,7 +353,7 @@ class PlotHandler:
         for m_b in self.m_bundles:
             if m_b.constraint is not None:
                 constraints.add(m_b.constraint)
-        self.constraints = "; ".join(constraints)
+        self.constraints = "; ".join(sorted(constraints))
 
     def _build_title(self):
         """
@@ -395,7 +395,7 @@ class PlotHandler:
                 xlabel = set()
                 for m_b in self.m_bundles:
                     xlabel.add(m_b.slicer.slice_col_name)
-                xlabel = ", ".join(xlabel)
+                xlabel = ", ".join(sorted(xlabel))
                 ylabel = self.joint_metric_names
         elif plot_func.plot_type == "MetricVsH":
             if len(self.m_bundles) == 1:
-- 
2.43.0


From 000da955613702d9b3752fd11f0ee0cd9081c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:25 +0000
Subject: [PATCH 069/102] fix: the columns queried for the moving object
 observations come in the same order on every run

---
 rubin_sim/moving_objects/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/utils.py b/rubin_sim/moving_objects/utils.py
index 966cccc..3f7344e 100644
--- a/rubin_sim/moving_objects/utils.py
+++ b/rubin_sim/moving_objects/utils.py
@@ -52,7 +52,7 @@ def read_observations(simfile, colmap, constraint=None, dbcols=None):
     ]
 
     cols = min_cols + more_cols
-    cols = list(set(cols))
+    cols = list(dict.fromkeys(cols))
     logging.info("Querying for columns:\n %s" % (cols))
 
     # Go ahead and query for all of the observations.
-- 
2.43.0


From 5eb4d219e268f014eeeb95642f577a4581d4527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:39 +0000
Subject: [PATCH 070/102] fix: the astrometry and DCR metrics accept an SED
 template again

---
 rubin_sim/maf/metrics/calibration_metrics.py | 11 +++++------
 rubin_sim/maf/metrics/dcr_metric.py          |  3 +--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index a03e980..0e5eb95 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -7,7 +7,6 @@ __all__ = (
 )
 
 import numpy as np
-import rubin_scheduler.utils as utils
 from scipy.optimize import curve_fit
 
 import rubin_sim.maf.utils as mafUtils
@@ -78,7 +77,7 @@ class ParallaxMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         self.normalize = normalize
         self.comment = (
@@ -216,7 +215,7 @@ class ProperMotionMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         self.normalize = normalize
         self.baseline = baseline
@@ -361,7 +360,7 @@ class ParallaxCoverageMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         caption = "Parallax factor coverage for an r=%.2f star (0 is bad, 0.5-1 is good). " % (rmag)
         caption += "One expects the parallax factor coverage to vary because stars on the ecliptic "
@@ -439,7 +438,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
         r-band magnitude of the fiducual star that is being used (mag).
     SedTemplate : `str`
         The SED template to use for fiducia star colors,
-        passed to rubin_scheduler.utils.stellarMags.
+        passed to rubin_sim.maf.utils.stellar_mags.
         Default 'flat'
     tol : `float`
         Tolerance for how well curve_fit needs to work before
@@ -490,7 +489,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
             for f in ["u", "g", "r", "i", "z", "y"]:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
 
     def _positions(self, x, a, b):
diff --git a/rubin_sim/maf/metrics/dcr_metric.py b/rubin_sim/maf/metrics/dcr_metric.py
index 23d9d67..9e14272 100644
--- a/rubin_sim/maf/metrics/dcr_metric.py
+++ b/rubin_sim/maf/metrics/dcr_metric.py
@@ -1,7 +1,6 @@
 __all__ = ("DcrPrecisionMetric",)
 
 import numpy as np
-import rubin_scheduler.utils as utils
 
 import rubin_sim.maf.utils as mafUtils
 
@@ -41,7 +40,7 @@ class DcrPrecisionMetric(BaseMetric):
             for f in self.filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         cols = [
             "ra_dcr_amp",
             "dec_dcr_amp",
-- 
2.43.0


From 7d87ab40db80fb3fc7bf315773e1359d621ce717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:39 +0000
Subject: [PATCH 071/102] fix: StaticProbesFoMEmulatorMetricSimple interpolates
 the figure of merit

---
 rubin_sim/maf/metrics/cosmology_summary_metrics.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/metrics/cosmology_summary_metrics.py b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
index 8534bb7..5ca39cd 100644
--- a/rubin_sim/maf/metrics/cosmology_summary_metrics.py
+++ b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
@@ -171,7 +171,7 @@ class StaticProbesFoMEmulatorMetricSimple(BaseMetric):
             ]
 
         elif self.year == 6:
-            areas = [10000, 15000, 2000]
+            areas = [10000, 15000, 20000]
             depths = [25.9, 26.1, 26.3]
             fom_arr = [
                 [2.346060e02, 2.414678e02, 2.852043e02],
@@ -192,10 +192,8 @@ class StaticProbesFoMEmulatorMetricSimple(BaseMetric):
             return self.badval
 
         # Interpolate FoM to the actual values for this sim
-        areas = [[i] * 3 for i in areas]
-        depths = [depths] * 3
-        f = interpolate.RectBivateateSpline(np.ravel(areas), np.ravel(depths), np.ravel(fom_arr))
-        fom = f(area, median_depth)[0]
+        f = interpolate.RectBivariateSpline(areas, depths, fom_arr, kx=1, ky=1)
+        fom = f(area, median_depth)[0][0]
         return fom
 
 
-- 
2.43.0


From eb2e691c867abd4ca682823d47b8faa51c3ff8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:39 +0000
Subject: [PATCH 072/102] fix: UDropoutsNumbersShallowestDepth integrates with
 a function numpy has

---
 rubin_sim/maf/metrics/cosmology_summary_metrics.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/cosmology_summary_metrics.py b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
index 5ca39cd..7bb32d7 100644
--- a/rubin_sim/maf/metrics/cosmology_summary_metrics.py
+++ b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
@@ -16,6 +16,12 @@ from copy import deepcopy
 
 import healpy as hp
 import numpy as np
+
+try:
+    from numpy import trapezoid as trapezoid
+except ImportError:
+    from numpy import trapz as trapezoid
+
 from astropy import units as u
 from astropy.coordinates import SkyCoord
 from scipy import interpolate
@@ -1129,7 +1135,7 @@ class UDropoutsNumbersShallowestDepth(BaseMetric):
             n_dm /= deg_per_Mpc**2
 
             # Integrate the luminosity function
-            n = np.trapz(n_dm, m_grid)
+            n = trapezoid(n_dm, m_grid)
 
             return n.value
 
-- 
2.43.0


From f1425633b664d451949e14087f6c8808e102fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:39 +0000
Subject: [PATCH 073/102] fix: PeriodicMetric no longer needs np.float

---
 rubin_sim/maf/maf_contrib/periodic_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/periodic_metric.py b/rubin_sim/maf/maf_contrib/periodic_metric.py
index b877693..82108e4 100644
--- a/rubin_sim/maf/maf_contrib/periodic_metric.py
+++ b/rubin_sim/maf/maf_contrib/periodic_metric.py
@@ -38,7 +38,7 @@ class PeriodicMetric(BaseMetric):
         window_val = np.zeros_like(window_frq, dtype="float")
         for x, frq in enumerate(window_frq):
             window_val[x] = np.sum(np.cos(-2.0 * np.pi * frq * use_jd))
-        window_val /= np.float(use_jd.size)
+        window_val /= float(use_jd.size)
         secondpeak = np.sort(window_val)[-2]
         totalsum = (np.sum(window_val) - np.sort(window_val)[-1]) / (frq_pts - 1)
         data = np.asarray([secondpeak, totalsum])
-- 
2.43.0


From f697b8da9d61c2555ad30358b52a04a5a11e4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:39 +0000
Subject: [PATCH 074/102] fix: OneDSlicer warns about bins given twice

---
 rubin_sim/maf/slicers/one_d_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/one_d_slicer.py b/rubin_sim/maf/slicers/one_d_slicer.py
index 55d091d..9515534 100644
--- a/rubin_sim/maf/slicers/one_d_slicer.py
+++ b/rubin_sim/maf/slicers/one_d_slicer.py
@@ -66,7 +66,7 @@ class OneDSlicer(BaseSlicer):
         # Forget binmin/max/stepsize if bins was set
         if self.bins is not None:
             if bin_min is not None or bin_max is not None or bin_size is not None:
-                warnings.warning(
+                warnings.warn(
                     f"Both bins and one of the bin_min/bin_max/bin_size was specified. "
                     f"Using bins ({self.bins} values only."
                 )
-- 
2.43.0


From 55e5844e013bda871ae03c8f32f3160c24bc2425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:39 +0000
Subject: [PATCH 075/102] fix: drive_sim returns the path of the simulation
 archive directory

---
 rubin_sim/sim_archive/sim_archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 65a1d1d..b352aa1 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -319,7 +319,7 @@ def drive_sim(
             opsim_metadata=opsim_metadata,
         )
 
-        resource_path = ResourcePath(data_dir.name, forceDirctory=True)  # type: ignore
+        resource_path = ResourcePath(data_dir.name, forceDirectory=True)  # type: ignore
 
     results = sim_results + (resource_path,)
     return results
-- 
2.43.0


From a2b0d81a6148dadc23924dc1a7562558dac044c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:39 +0000
Subject: [PATCH 076/102] fix: the satellite ModelObservatory can be made again

---
 rubin_sim/satellite_constellations/model_observatory.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rubin_sim/satellite_constellations/model_observatory.py b/rubin_sim/satellite_constellations/model_observatory.py
index ec85a10..d0ad1a1 100644
--- a/rubin_sim/satellite_constellations/model_observatory.py
+++ b/rubin_sim/satellite_constellations/model_observatory.py
@@ -49,7 +49,6 @@ class ModelObservatory(oMO):
         self,
         nside=None,
         mjd_start=SURVEY_START_MJD,
-        seed=42,
         alt_min=5.0,
         lax_dome=True,
         cloud_limit=0.3,
@@ -79,7 +78,6 @@ class ModelObservatory(oMO):
         super().__init__(
             nside=nside,
             mjd_start=self.mjd_start,
-            seed=seed,
             alt_min=alt_min,
             lax_dome=lax_dome,
             cloud_limit=cloud_limit,
-- 
2.43.0


From 343c8dc53761be5a2d3b5f7973c183a94e8e5fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 077/102] fix: the data of a metric can be served as JSON or
 npz

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 rubin_sim/maf/show_maf.py                     | 8 ++++----
 rubin_sim/maf/web/maf_run_results.py          | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 22a0dc0..6aab83d 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -549,7 +549,7 @@ class MetricBundle:
         io = self.slicer.output_json(
             self.metric_values,
             metric_name=self.metric.name,
-            simDataName=self.run_name,
+            sim_data_name=self.run_name,
             info_label=self.info_label,
             plot_dict=self.plot_dict,
         )
diff --git a/rubin_sim/maf/show_maf.py b/rubin_sim/maf/show_maf.py
index ca460b4..36f8208 100755
--- a/rubin_sim/maf/show_maf.py
+++ b/rubin_sim/maf/show_maf.py
@@ -72,16 +72,16 @@ class DataHandler(web.RequestHandler):
             datatype = datatype.decode("utf-8")
         else:
             datatype = "npz"
-        run = runlist.getRun(runId)
-        metric = run.metricIdsToMetrics([metricId])
+        run = runlist.get_run(runId)
+        metric = run.metric_ids_to_metrics([metricId])
         if datatype == "npz":
-            npz = run.getNpz(metric)
+            npz = run.get_npz(metric)
             if npz is None:
                 self.write("No npz file available.")
             else:
                 self.redirect(npz)
         elif datatype == "json":
-            jsn = run.getJson(metric)
+            jsn = run.get_json(metric)
             if jsn is None:
                 self.write("No JSON file available.")
             else:
diff --git a/rubin_sim/maf/web/maf_run_results.py b/rubin_sim/maf/web/maf_run_results.py
index 5198b84..02fd160 100644
--- a/rubin_sim/maf/web/maf_run_results.py
+++ b/rubin_sim/maf/web/maf_run_results.py
@@ -140,7 +140,7 @@ class MafRunResults:
         io = m_b.output_json()
         if io is None:
             return None
-        return io.get_value()
+        return io.getvalue()
 
     def get_npz(self, metric):
         """
-- 
2.43.0


From bba9c5bc4e1ae7996386b70677dbccd4258fe197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 078/102] fix: a metric bundle saved without an info_label can
 be read

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 6aab83d..991d2ea 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -601,7 +601,7 @@ class MetricBundle:
             if "summary_values" in header:
                 self.summary_values = header["summary_values"]
         if self.info_label is None:
-            self._build_metadata()
+            self._build_metadata(self.info_label)
         path, head = os.path.split(filename)
         self.file_root = head.replace(".npz", "")
         self.set_plot_funcs(None)
-- 
2.43.0


From 966fba100426008a8fb646caface9a11f39c1d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 079/102] fix: MetricBundle.plot works with a given plotter

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 991d2ea..c49052e 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -808,7 +808,7 @@ class MetricBundle:
         made_plots = {}
         if plot_func is not None:
             fig = plot_handler.plot(plot_func, outfile_suffix=outfile_suffix)
-            made_plots[plot_func.plotType] = fig
+            made_plots[plot_func.plot_type] = fig
         else:
             for plot_func in self.plot_funcs:
                 fig = plot_handler.plot(plot_func, outfile_suffix=outfile_suffix)
-- 
2.43.0


From 2df9b9df1f1b2ebb3747b3d46566f3c7e6a33611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 080/102] fix: the reduced values of a metric can be read back
 from disk

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index 5f8bb6f..c83a047 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -1,5 +1,6 @@
 __all__ = ("make_bundles_dict_from_list", "MetricBundleGroup")
 
+import copy
 import os
 import sys
 import warnings
@@ -774,7 +775,7 @@ class MetricBundleGroup:
             if len(bundle.metric.reduce_funcs) > 0:
                 orig_metric_name = bundle.metric.name
                 for reduce_func in bundle.metric.reduce_funcs.values():
-                    reduce_name = orig_metric_name + "_" + reduce_func.__name__.replace("reduce", "")
+                    reduce_name = orig_metric_name + "_" + reduce_func.__name__.replace("reduce_", "")
                     # Borrow the fileRoot in b (we'll reset it appropriately)
                     bundle.metric.name = reduce_name
                     bundle._build_file_root()
@@ -786,14 +787,14 @@ class MetricBundleGroup:
                         # display_dict exactly as they would have been made
                         # if you calculated the reduce metric from scratch.
                         newmetric_bundle = MetricBundle(
-                            metric=bundle.metric,
+                            metric=copy.copy(bundle.metric),
                             slicer=bundle.slicer,
                             constraint=bundle.constraint,
                             stacker_list=bundle.stacker_list,
                             run_name=bundle.run_name,
                             info_label=bundle.info_label,
-                            plot_dict=bundle.plotDict,
-                            display_dict=bundle.displayDict,
+                            plot_dict=bundle.plot_dict,
+                            display_dict=bundle.display_dict,
                             summary_metrics=bundle.summary_metrics,
                             maps_list=bundle.maps_list,
                             file_root=bundle.file_root,
-- 
2.43.0


From 776656a2fbdeea214096291325f64bd56ab948de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 081/102] fix: combined moving object subsets carry the joint
 values

---
 rubin_sim/maf/batches/moving_objects_batch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/batches/moving_objects_batch.py b/rubin_sim/maf/batches/moving_objects_batch.py
index 26909d2..86dac02 100644
--- a/rubin_sim/maf/batches/moving_objects_batch.py
+++ b/rubin_sim/maf/batches/moving_objects_batch.py
@@ -1578,10 +1578,10 @@ def combine_subsets(mbSubsets):
     for i in mbSubsets:
         metric_values += mbSubsets[i].metric_values.filled(0)
         metric_values_mask = np.where(metric_values_mask & mbSubsets[i].metric_values.mask, True, False)
-    joint.metricValues = ma.MaskedArray(data=metric_values, mask=metric_values_mask, fill_value=0)
+    joint.metric_values = ma.MaskedArray(data=metric_values, mask=metric_values_mask, fill_value=0)
     joint.info_label = first.info_label
     joint.run_name = first.run_name
     joint.file_root = first.file_root.replace(".npz", "")
-    joint.plotDict = first.plotDict
+    joint.plot_dict = first.plot_dict
     joint.display_dict = first.display_dict
     return joint
-- 
2.43.0


From 26906a41ad263b114cd5af77c439c0b2e9223c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 082/102] fix: LVDwarfsMetric counts stars to the coadded depth
 of the visits

---
 rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py b/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py
index 991ef39..81108d9 100644
--- a/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py
+++ b/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py
@@ -329,7 +329,7 @@ class LVDwarfsMetric(BaseMetric):
         # (this is a bit of a hack to get the starDensityMetric to
         # calculate the nstars at this mag exactly)
         star_i5 = min(27.9, i5)
-        self.star_density_metric.magLimit = star_i5
+        self.star_density_metric.mag_limit = star_i5
 
         nstar_sqarcsec = self.star_density_metric.run(data_slice, slice_point)
 
-- 
2.43.0


From d83ab8470e1dc2209a9b486df9acf03136d48aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 083/102] fix: microlensing_compare reads the results databases

---
 rubin_sim/maf/run_comparison/microlensing_compare.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/run_comparison/microlensing_compare.py b/rubin_sim/maf/run_comparison/microlensing_compare.py
index f44fcc3..8693028 100644
--- a/rubin_sim/maf/run_comparison/microlensing_compare.py
+++ b/rubin_sim/maf/run_comparison/microlensing_compare.py
@@ -476,7 +476,7 @@ def get_results_dbs(result_db_path):
         result_db = db.ResultsDb(database=result_db)
 
         # Don't add empty results.db file,
-        if len(result_db.getAllMetricIds()) > 0:
+        if len(result_db.get_all_metric_ids()) > 0:
             result_dbs[run_name] = result_db
 
     return result_dbs
@@ -504,10 +504,10 @@ def bundle_dict_from_disk(result_db, run_name, metric_data_path):
     """
 
     bundle_dict = {}
-    display_info = result_db.getMetricDisplayInfo()
+    display_info = result_db.get_metric_display_info()
     for item in display_info:
         metric_name = item["metric_name"]
-        metric_file_name = item["metricDataFile"]
+        metric_file_name = item["metric_datafile"]
         metric_id = item["metric_id"]
         newbundle = metricBundles.create_empty_metric_bundle()
         newbundle.read(os.path.join(metric_data_path, metric_file_name))
-- 
2.43.0


From ad58573704236889c23f7a0c4aa033714c428e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 084/102] fix: DiscoveryVelocityMetric can be made

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 54116ec..9c26a10 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -686,7 +686,7 @@ class DiscoveryVelocityMetric(BaseChildMetric):
     def __init__(self, parent_discovery_metric, badval=-999, **kwargs):
         super().__init__(parent_discovery_metric, badval=badval, **kwargs)
         self.i = 0
-        self.snr_limit = parent_discovery_metric.snrLimit
+        self.snr_limit = parent_discovery_metric.snr_limit
 
     def run(self, sso_obs, orb, hval, metric_values):
         if self.i >= len(metric_values["start"]):
-- 
2.43.0


From 02e3fd3865cf9c7cc0ab0a781b2da67de4d24e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 085/102] fix: MoMetricBundleGroup.plot_all reports plots that
 fail and carries on

---
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 86af9b8..b353d03 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -632,7 +632,7 @@ class MoMetricBundleGroup:
                 )
             except ValueError as ve:
                 message = "Plotting failed for metricBundle %s." % (b.file_root)
-                message += " Error message: %s" % (ve.message)
+                message += " Error message: %s" % (ve)
                 warnings.warn(message)
             if closefigs:
                 plt.close("all")
-- 
2.43.0


From 08ae7ac5a6f743d72da4a513a7081b8d75125c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 086/102] fix: cache_lsst_seds carries on without the cache
 when it does not validate

---
 rubin_sim/phot_utils/sed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 39ba13e..4929f45 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -354,7 +354,7 @@ def cache_lsst_seds(wavelen_min=None, wavelen_max=None, cache_dir=None):
         _validate_sed_cache()
         _compare_cached_versus_uncached()
     except SedCacheError as ee:
-        print(ee.message)
+        print(ee)
         print("Cannot use cache of LSST SEDs")
         _global_lsst_sed_cache = None
         pass
-- 
2.43.0


From cf99a3e27e327ace70939d4c5ead18981eaeb200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 087/102] fix: TrackingDb says that it cannot create its
 database

---
 rubin_sim/maf/db/tracking_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index e8a13ee..9b332c9 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -86,7 +86,7 @@ class TrackingDb:
         try:
             Base.metadata.create_all(engine)
         except DatabaseError:
-            raise DatabaseError(
+            raise ValueError(
                 "Cannot create a %s database at %s. Check directory exists." % (self.driver, self.database)
             )
 
-- 
2.43.0


From 9d0443c5cc754509ccd0a14a83dd0669028d7bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:33 +0000
Subject: [PATCH 088/102] fix: NFollowStacker passes the observatory latitude
 and longitude in order

---
 rubin_sim/maf/stackers/n_follow_stacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/n_follow_stacker.py b/rubin_sim/maf/stackers/n_follow_stacker.py
index 692eb9b..b0948e9 100644
--- a/rubin_sim/maf/stackers/n_follow_stacker.py
+++ b/rubin_sim/maf/stackers/n_follow_stacker.py
@@ -171,8 +171,8 @@ class NFollowStacker(BaseStacker):
                 alt, az = ra_dec2_alt_az(
                     ra,
                     dec,
-                    obs_lon,
                     obs_lat,
+                    obs_lon,
                     sim_data[self.mjd_col] + step / 24.0,
                     altonly=True,
                 )
-- 
2.43.0


From a9a37535528468c5dcfef47ddf5c25c68e6ee449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:33 +0000
Subject: [PATCH 089/102] fix: ParallaxCoverageMetric hands its parallax
 amplitudes over in the order _weighted_r names them

---
 rubin_sim/maf/metrics/calibration_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 0e5eb95..5afd48e 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -408,7 +408,7 @@ class ParallaxCoverageMetric(BaseMetric):
             snr[in_filt] = mafUtils.m52snr(self.mags[str(filt)], data_slice[self.m5_col][in_filt])
 
         weights = self._compute_weights(data_slice, snr)
-        ave_r = self._weighted_r(data_slice["ra_pi_amp"], data_slice["dec_pi_amp"], weights)
+        ave_r = self._weighted_r(data_slice["dec_pi_amp"], data_slice["ra_pi_amp"], weights)
         if self.theta_range > 0:
             theta_check = self._theta_check(data_slice["ra_pi_amp"], data_slice["dec_pi_amp"], snr)
         else:
-- 
2.43.0


From a7baa0227849cae0d89aaf63660be70a2f24f8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:41 +0000
Subject: [PATCH 090/102] fix: the reduce functions of TripletBandMetric,
 GRBTransientMetric and VisitGroupsMetric have an order

---
 .../maf/maf_contrib/grb_transient_metric.py      | 16 ++++++++--------
 rubin_sim/maf/maf_contrib/triplet_metric.py      | 13 +++++++------
 rubin_sim/maf/metrics/visit_groups_metric.py     | 12 ++++++------
 3 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/grb_transient_metric.py b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
index a1775d2..7f865bd 100644
--- a/rubin_sim/maf/maf_contrib/grb_transient_metric.py
+++ b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
@@ -117,14 +117,14 @@ class GRBTransientMetric(metrics.BaseMetric):
         self.rng = np.random.default_rng(seed)
         self.peak_time = 0.0
         self.reduce_order = {
-            "Bandu": 0,
-            "Bandg": 1,
-            "Bandr": 2,
-            "Bandi": 3,
-            "Bandz": 4,
-            "Bandy": 5,
-            "Band1FiltAvg": 6,
-            "BandanyNfilters": 7,
+            "bandu": 0,
+            "bandg": 1,
+            "bandr": 2,
+            "bandi": 3,
+            "bandz": 4,
+            "bandy": 5,
+            "band1_filt_avg": 6,
+            "bandany_nfilters": 7,
         }
 
     def light_curve(self, time, filters):
diff --git a/rubin_sim/maf/maf_contrib/triplet_metric.py b/rubin_sim/maf/maf_contrib/triplet_metric.py
index e8ac639..db6b187 100644
--- a/rubin_sim/maf/maf_contrib/triplet_metric.py
+++ b/rubin_sim/maf/maf_contrib/triplet_metric.py
@@ -76,12 +76,13 @@ class TripletBandMetric(BaseMetric):
         self.ratiomin = kwargs.pop("RatioMin", 1)
         super(TripletBandMetric, self).__init__(col=[self.time_col, self.filter_col], **kwargs)
         self.reduce_order = {
-            "Bandu": 0,
-            "Bandg": 1,
-            "Bandr": 2,
-            "Bandi": 3,
-            "Bandz": 4,
-            "Bandy": 5,
+            "bandu": 0,
+            "bandg": 1,
+            "bandr": 2,
+            "bandi": 3,
+            "bandz": 4,
+            "bandy": 5,
+            "bandall": 6,
         }
 
     def run(self, data_slice, slice_point=None):
diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index 00450f6..89ec1cd 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -122,12 +122,12 @@ class VisitGroupsMetric(BaseMetric):
             col=[self.times, self.nights], metric_name=metric_name, **kwargs
         )
         self.reduce_order = {
-            "Median": 0,
-            "NNightsWithNVisits": 1,
-            "NVisitsInWindow": 2,
-            "NNightsInWindow": 3,
-            "NLunations": 4,
-            "MaxSeqLunations": 5,
+            "median": 0,
+            "n_nights_with_n_visits": 1,
+            "n_visits_in_window": 2,
+            "n_nights_in_window": 3,
+            "n_lunations": 4,
+            "max_seq_lunations": 5,
         }
         self.comment = "Evaluation of the number of visits within a night, with separations between "
         self.comment += "tMin %.1f and tMax %.1f minutes." % (
-- 
2.43.0


From e976cde4ba48b353b05cc1216fe33028bfb34d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:41 +0000
Subject: [PATCH 091/102] fix: GalPlaneSeasonGapsTimescalesMetric orders its
 reduce functions under their names

---
 rubin_sim/maf/metrics/galplane_time_sampling_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
index 7d98396..0d35d79 100644
--- a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
+++ b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
@@ -207,7 +207,7 @@ class GalPlaneSeasonGapsTimescaleMetric(BaseMetric):
             **kwargs,
         )
         for i, tau in enumerate(self.tau_var):
-            self.reduce_order[f"reduce_Tau_{tau:.1f}".replace(".", "_").replace("reduce", "")] = i
+            self.reduce_order[f"Tau_{tau:.1f}".replace(".", "_")] = i
 
     def run(self, data_slice, slice_point):
         # Check if we want to evaluate this part of the sky,
-- 
2.43.0


From 836c347778c6ad7d549b08def266d6df2bc2c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 092/102] fix: glanceBatch applies its sql_constraint to every
 bundle

---
 rubin_sim/maf/batches/glance_batch.py | 43 +++++++++++++++------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/rubin_sim/maf/batches/glance_batch.py b/rubin_sim/maf/batches/glance_batch.py
index 5a6fbc0..cfcc9c7 100644
--- a/rubin_sim/maf/batches/glance_batch.py
+++ b/rubin_sim/maf/batches/glance_batch.py
@@ -64,10 +64,13 @@ def glanceBatch(
 
     bundle_list = []
 
-    if sql_constraint is None:
-        sqlC = ""
-    else:
-        sqlC = "(%s) and" % sql_constraint
+    def add_constraint(sql):
+        """Combine a selection with the sql_constraint, if there is one."""
+        if not sql_constraint:
+            return sql
+        if not sql:
+            return sql_constraint
+        return "(%s) and (%s)" % (sql_constraint, sql)
 
     if slicer_camera == "LSST":
         spatial_slicer = slicers.HealpixSlicer
@@ -76,7 +79,7 @@ def glanceBatch(
     else:
         raise ValueError("Camera must be LSST or Comcam")
 
-    sql_per_filt = ["%s %s='%s'" % (sqlC, colmap["filter"], filtername) for filtername in filternames]
+    sql_per_filt = [add_constraint("%s='%s'" % (colmap["filter"], filtername)) for filtername in filternames]
     sql_per_and_all_filters = [sql_constraint] + sql_per_filt
 
     standardStats = standard_summary()
@@ -144,7 +147,7 @@ def glanceBatch(
         bundle_list.append(bundle)
 
     # alt az of long gaps
-    sql = "scheduler_note = 'long'"
+    sql = add_constraint("scheduler_note = 'long'")
     metric = metrics.CountMetric(colmap["mjd"], metric_name="Nvisits long")
     bundle = metric_bundles.MetricBundle(
         metric,
@@ -156,7 +159,7 @@ def glanceBatch(
     )
     bundle_list.append(bundle)
 
-    sql = "scheduler_note like 'blob_long%'"
+    sql = add_constraint("scheduler_note like 'blob_long%'")
     metric = metrics.CountMetric(colmap["mjd"], metric_name="Nvisits blob long")
     bundle = metric_bundles.MetricBundle(
         metric,
@@ -168,7 +171,7 @@ def glanceBatch(
     )
     bundle_list.append(bundle)
 
-    sql = "scheduler_note like '%neo%' or scheduler_note like '%near_sun%'"
+    sql = add_constraint("scheduler_note like '%neo%' or scheduler_note like '%near_sun%'")
     metric = metrics.CountMetric(colmap["mjd"], metric_name="Nvisits twilight near sun")
     bundle = metric_bundles.MetricBundle(
         metric,
@@ -182,7 +185,7 @@ def glanceBatch(
 
     # alt,az pf ToO
 
-    sql = "scheduler_note like 'ToO%'"
+    sql = add_constraint("scheduler_note like 'ToO%'")
     metric = metrics.CountMetric(colmap["mjd"], metric_name="Nvisits long")
     bundle = metric_bundles.MetricBundle(
         metric,
@@ -265,6 +268,7 @@ def glanceBatch(
     rolling_sqls.append("night < 365.25")
     rolling_sqls.append("night > %f and night < %f" % (365.25 * 2.5, 365.25 * 3.5))
     rolling_sqls.append("night > %f and night < %f" % (365.25 * 3.5, 365.25 * 4.5))
+    rolling_sqls = [add_constraint(sql) for sql in rolling_sqls]
     for metric, sql in zip(rolling_metrics, rolling_sqls):
         bundle = metric_bundles.MetricBundle(
             metric,
@@ -277,7 +281,7 @@ def glanceBatch(
         bundle_list.append(bundle)
 
     # Make a cumulative plot of a WFD spot
-    sql = "scheduler_note not like '%NEO%' and scheduler_note not like '%near_sun%'"
+    sql = add_constraint("scheduler_note not like '%NEO%' and scheduler_note not like '%near_sun%'")
     uslicer = slicers.UserPointsSlicer(ra=0, dec=-20)
     metric = metrics.CumulativeMetric()
     metricb = metric_bundles.MetricBundle(
@@ -349,7 +353,7 @@ def glanceBatch(
     displayDict["caption"] = "Fraction of observations that are in pairs"
     displayDict["subgroup"] = "Solar System"
 
-    sql = "%s (band='g' or band='r' or band='i')" % sqlC
+    sql = add_constraint("(band='g' or band='r' or band='i')")
     pairSlicer = slicers.HealpixSlicer(
         nside=pairnside,
         lat_col=colmap["dec"],
@@ -368,7 +372,7 @@ def glanceBatch(
         metric = metrics.StringCountMetric(
             col=colmap["scheduler_note_root"], percent=True, metric_name="Percents", clip_end=False
         )
-        sql = ""
+        sql = add_constraint("")
         slicer = slicers.UniSlicer()
         bundle = metric_bundles.MetricBundle(metric, slicer, sql, display_dict=displayDict)
         bundle_list.append(bundle)
@@ -385,7 +389,7 @@ def glanceBatch(
         metric = metrics.StringCountMetric(
             col=colmap["scheduler_note_root"], percent=True, metric_name="Percents", clip_end=False
         )
-        sql = (
+        sql = add_constraint(
             "scheduler_note like 'pair%%' or scheduler_note like 'twilight%%' or scheduler_note like 'blob%%'"
         )
         slicer = slicers.UniSlicer()
@@ -404,7 +408,7 @@ def glanceBatch(
     displayDict["subgroup"] = ""
     for ddf in ddf_surveys:
         label = ddf.replace("DD:", "")
-        sql = f"scheduler_note like 'DD:{label}%'"
+        sql = add_constraint(f"scheduler_note like 'DD:{label}%'")
         slicer = slicers.UniSlicer()
         metric = metrics.CumulativeMetric()
         metricb = metric_bundles.MetricBundle(
@@ -422,7 +426,7 @@ def glanceBatch(
     displayDict = {}
     displayDict["group"] = "Basic Stats"
     displayDict["subgroup"] = "Saturation"
-    sql = ""
+    sql = add_constraint("")
     metric = metrics.SkySaturationMetric()
     summary = metrics.SumMetric()
     slicer = slicers.UniSlicer()
@@ -495,7 +499,7 @@ def glanceBatch(
     bundle = metric_bundles.MetricBundle(
         metric,
         slicer,
-        "",
+        add_constraint(""),
         plot_dict=plotDict,
         display_dict=displayDict,
         summary_metrics=summaryMetrics,
@@ -512,7 +516,7 @@ def glanceBatch(
     sky = EuclidOverlapFootprint(nside=nside_foot, smc_radius=4, lmc_radius=6)
     footprints_hp_array, labels = sky.return_maps()
     for filtername in filternames:
-        sql = "band='%s' and night < 365" % filtername
+        sql = add_constraint("band='%s' and night < 365" % filtername)
         metric = metrics.CountMetric(col="night", metric_name="N year 1")
         summary_stat = metrics.FootprintFractionMetric(
             footprint=footprints_hp_array[filtername],
@@ -538,7 +542,7 @@ def glanceBatch(
         lat_lon_deg=colmap["raDecDeg"],
     )
     for filtername in filternames:
-        sql = "band='%s' and scheduler_note like 'ToO%%'" % filtername
+        sql = add_constraint("band='%s' and scheduler_note like 'ToO%%'" % filtername)
         metric = metrics.CountMetric(col=colmap["mjd"], metric_name="N ToO")
         bundle = metric_bundles.MetricBundle(
             metric,
@@ -554,6 +558,7 @@ def glanceBatch(
     too_sqls = ["scheduler_note like 'ToO, %" + "t%i'" % hour for hour in [0, 1, 2, 4, 24, 48]] + [
         "scheduler_note like 'ToO, %'"
     ]
+    too_sqls = [add_constraint(sql) for sql in too_sqls]
     slicer = slicers.UniSlicer()
     for sql in too_sqls:
         metric = metrics.CountMetric(col="night")
@@ -585,7 +590,7 @@ def glanceBatch(
 
     # Add basic slew stats.
     try:
-        slewDict = slewBasics(colmap=colmap, run_name=run_name)
+        slewDict = slewBasics(colmap=colmap, run_name=run_name, sql_constraint=sql_constraint)
         bd.update(slewDict)
     except KeyError as e:
         warnings.warn("Could not add slew stats: missing required key %s from colmap" % (e))
-- 
2.43.0


From 7fd5b067d013e3e75babdfe7127a487ab343f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 093/102] fix: ddfBatch applies its extra_sql, and labels it,
 in every bundle

---
 rubin_sim/maf/batches/ddf_batch.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/maf/batches/ddf_batch.py b/rubin_sim/maf/batches/ddf_batch.py
index 664f9c1..7640e2f 100644
--- a/rubin_sim/maf/batches/ddf_batch.py
+++ b/rubin_sim/maf/batches/ddf_batch.py
@@ -116,6 +116,8 @@ def ddfBatch(
         extra_info_label=extra_info_label,
         band_col=band_col,
     )
+    # What to add to the labels which do not come from info_labels.
+    extra_labels = [label for label in [extra_info_label or extra_sql] if label]
 
     summary_stats = [maf.MeanMetric(), maf.MedianMetric(), maf.SumMetric()]
     depth_stats = [maf.MedianMetric()]
@@ -160,8 +162,8 @@ def ddfBatch(
             maf.MetricBundle(
                 metric,
                 ddf_slicers_sne[ddf],
-                constraint="",
-                info_label=" ".join([fieldname, "all bands, only DDF observations"]),
+                constraint=sqls["all"],
+                info_label=" ".join([fieldname] + extra_labels + ["all bands, only DDF observations"]),
                 plot_dict=plotDict,
                 plot_funcs=plotFuncs,
                 summary_metrics=summary_stats,
@@ -206,8 +208,8 @@ def ddfBatch(
             maf.MetricBundle(
                 metric,
                 slicer,
-                "",
-                info_label=" ".join([fieldname]),
+                sqls["all"],
+                info_label=" ".join([fieldname] + extra_labels),
                 summary_metrics=lightcurve_summary(),
                 display_dict=displayDict,
                 plot_funcs=[],
@@ -223,6 +225,8 @@ def ddfBatch(
             "gri": f"{band_col}='g' or {band_col}='r' or {band_col}='i'",
             "riz": f"{band_col}='r' or {band_col}='i' or {band_col}='z'",
         }
+        if sqls["all"]:
+            sqls_gri = {k: f"({sqls['all']}) and ({sql})" for k, sql in sqls_gri.items()}
 
         for sql in sqls_gri:
             metrics = [
@@ -243,7 +247,7 @@ def ddfBatch(
                         metric,
                         ddf_slicers[ddf],
                         sqls_gri[sql],
-                        info_label=" ".join([fieldname]),
+                        info_label=" ".join([fieldname] + extra_labels),
                         plot_dict=plotDict,
                         plot_funcs=plotFuncs,
                         summary_metrics=summary_stats,
@@ -262,6 +266,8 @@ def ddfBatch(
             "gri": f"{band_col}='g' or {band_col}='r' or {band_col}='i'",
             "riz": f"{band_col}='r' or {band_col}='i' or {band_col}='z'",
         }
+        if sqls["all"]:
+            sqls_gri = {k: f"({sqls['all']}) and ({sql})" for k, sql in sqls_gri.items()}
 
         for sql in sqls_gri:
             metric = maf.WeakLensingNvisits(
@@ -277,7 +283,7 @@ def ddfBatch(
                     metric,
                     ddf_slicers[ddf],
                     sqls_gri[sql],
-                    info_label=" ".join([fieldname, sql]),
+                    info_label=" ".join([fieldname] + extra_labels + [sql]),
                     plot_dict=plotDict,
                     plot_funcs=plotFuncs,
                     summary_metrics=summary_stats,
@@ -502,7 +508,7 @@ def ddfBatch(
             fieldsql = f"scheduler_note like '%{fieldname}%'"
             for f in filterlist:
                 if len(sqls[f]) > 0:
-                    fieldsqls[f] = fieldsql + " and " + sqls[f]
+                    fieldsqls[f] = f"{fieldsql} and ({sqls[f]})"
                 else:
                     fieldsqls[f] = fieldsql
 
-- 
2.43.0


From c15c599f6e1c808278bbf34a619b96db11d8ef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 094/102] fix: the batches select bands in the band column,
 with the caller's selection enclosed

---
 rubin_sim/maf/batches/radar_limited.py       |  8 ++++----
 rubin_sim/maf/batches/science_radar_batch.py |  4 ++--
 rubin_sim/maf/batches/srd_batch.py           |  4 ++--
 rubin_sim/maf/batches/time_batch.py          | 12 ++++++------
 rubin_sim/maf/run_selfcal_metric.py          |  2 +-
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/rubin_sim/maf/batches/radar_limited.py b/rubin_sim/maf/batches/radar_limited.py
index e44fca0..47bf79c 100644
--- a/rubin_sim/maf/batches/radar_limited.py
+++ b/rubin_sim/maf/batches/radar_limited.py
@@ -480,7 +480,7 @@ def radar_limited(
     for filtername in "ugrizy":
         displayDict["caption"] = "Surface brightness limit in %s, no extinction applied." % filtername
         displayDict["order"] = filterorders[filtername]
-        sql = "filter='%s'" % filtername
+        sql = "band='%s'" % filtername
         metric = metrics.SurfaceBrightLimitMetric()
         bundle = mb.MetricBundle(
             metric,
@@ -582,7 +582,7 @@ def radar_limited(
     subgroupCount += 1
     displayDict["subgroup"] = f"{subgroupCount}: WL"
     displayDict["order"] = 0
-    sqlconstraint = "scheduler_note not like 'DD%' and (filter='g' or filter='r' or filter='i')"
+    sqlconstraint = "scheduler_note not like 'DD%' and (band='g' or band='r' or band='i')"
     info_label = "gri band non-DD"
     minExpTime = 15
     m = metrics.WeakLensingNvisits(
@@ -614,7 +614,7 @@ def radar_limited(
     for year in [10]:
         sqlconstraint = (
             "scheduler_note not like 'DD%'"
-            + " and (filter='g' or filter='r' or filter='i') and night < %i" % (year * 365.25)
+            + " and (band='g' or band='r' or band='i') and night < %i" % (year * 365.25)
         )
         m = metrics.WeakLensingNvisits(
             lsst_filter=bandpass,
@@ -650,7 +650,7 @@ def radar_limited(
 
         sqlconstraint = (
             "scheduler_note not like 'DD%'"
-            + " and (filter='r' or filter='i' or filter='z') and night < %i" % (year * 365.25)
+            + " and (band='r' or band='i' or band='z') and night < %i" % (year * 365.25)
         )
         m = metrics.WeakLensingNvisits(
             lsst_filter=bandpass,
diff --git a/rubin_sim/maf/batches/science_radar_batch.py b/rubin_sim/maf/batches/science_radar_batch.py
index db86795..5e321bb 100644
--- a/rubin_sim/maf/batches/science_radar_batch.py
+++ b/rubin_sim/maf/batches/science_radar_batch.py
@@ -1747,7 +1747,7 @@ def science_radar_batch(
     i_starMap = maf.maps.StellarDensityMap(filtername="i")
     lv_slicer = maf.maf_contrib.generate_known_lv_dwarf_slicer()
     lv_metric = maf.maf_contrib.LVDwarfsMetric()
-    sqlconstraint = "(filter = 'i' OR filter = 'g')"
+    sqlconstraint = "(band = 'i' OR band = 'g')"
     info_label = "gi"
     cutoff = -6.4
     summary_metrics = [
@@ -1794,7 +1794,7 @@ def science_radar_batch(
         "star-galaxy separation), over the southern celestial pole,"
         "to a distance of 0.1 Mpc."
     )
-    sqlconstraint = "(filter = 'i' OR filter = 'g') and fieldDec < -60"
+    sqlconstraint = "(band = 'i' OR band = 'g') and fieldDec < -60"
     info_label = "gi SCP"
     lv_metric3 = maf.maf_contrib.LVDwarfsMetric(distlim=0.1 * u.Mpc)  # for a distance limit, healpix map
     summary_area = maf.metrics.AreaThresholdMetric(lower_threshold=0.0, metric_name="Area M_v>0.0")
diff --git a/rubin_sim/maf/batches/srd_batch.py b/rubin_sim/maf/batches/srd_batch.py
index d038929..619516f 100644
--- a/rubin_sim/maf/batches/srd_batch.py
+++ b/rubin_sim/maf/batches/srd_batch.py
@@ -363,9 +363,9 @@ def astrometryBatch(
     else:
         yinfo = f"{info_label} y band only"
     if len(sql) == 0:
-        ysql = "filter == 'y'"
+        ysql = f"{band_col} = 'y'"
     else:
-        ysql = f"{sql} and filter == 'y'"
+        ysql = f"({sql}) and {band_col} = 'y'"
     plotDict = {"x_min": 0, "x_max": 15, "color_min": 0, "color_max": 15}
     metric = metrics.ParallaxMetric(
         metric_name="Parallax Uncert @ %.1f" % (ymag),
diff --git a/rubin_sim/maf/batches/time_batch.py b/rubin_sim/maf/batches/time_batch.py
index 6ca391f..dc52c34 100644
--- a/rubin_sim/maf/batches/time_batch.py
+++ b/rubin_sim/maf/batches/time_batch.py
@@ -214,16 +214,16 @@ def intraNight(
         bundleList.append(bundle)
     # subsets of adjacent filters
     filtersubsets = {
-        "ug": "(filter = 'u' or filter = 'g')",
-        "gr": "(filter = 'g' or filter = 'r')",
-        "ri": "(filter = 'r' or filter = 'i')",
-        "iz": "(filter = 'i' or filter = 'z')",
-        "zy": "(filter = 'z' or filter = 'y')",
+        "ug": "(band = 'u' or band = 'g')",
+        "gr": "(band = 'g' or band = 'r')",
+        "ri": "(band = 'r' or band = 'i')",
+        "iz": "(band = 'i' or band = 'z')",
+        "zy": "(band = 'z' or band = 'y')",
     }
     sqls = [extraSql]
     if extraSql is not None and len(extraSql) > 0:
         for fi in filtersubsets:
-            sqls.append(f"{extraSql} and {filtersubsets[fi]}")
+            sqls.append(f"({extraSql}) and {filtersubsets[fi]}")
     else:
         for fi in filtersubsets:
             sqls.append(f"{filtersubsets[fi]}")
diff --git a/rubin_sim/maf/run_selfcal_metric.py b/rubin_sim/maf/run_selfcal_metric.py
index 4eecf2e..a55246b 100755
--- a/rubin_sim/maf/run_selfcal_metric.py
+++ b/rubin_sim/maf/run_selfcal_metric.py
@@ -53,7 +53,7 @@ def run_selfcal_metric():
     sql = "scheduler_note not like '%DD%'"
     # And run on only year 1 (?)
     sql += " and night < 366"
-    sql += " and filter='%s'" % args.filter
+    sql += " and band='%s'" % args.filter
 
     bundle = MetricBundle(
         selfcal_metric, slicer, sql, run_name=sim_name, info_label="year 1 no-DD %s" % args.filter
-- 
2.43.0


From e6cd1314c2cca8fe01ca20cbfc18f2a9da231592 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 095/102] fix: bd_colors gives the L3 colors as a dictionary
 like the other types

---
 rubin_sim/maf/metrics/brown_dwarf_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/brown_dwarf_metric.py b/rubin_sim/maf/metrics/brown_dwarf_metric.py
index 7ba5719..ee27fb6 100644
--- a/rubin_sim/maf/metrics/brown_dwarf_metric.py
+++ b/rubin_sim/maf/metrics/brown_dwarf_metric.py
@@ -22,7 +22,7 @@ def bd_colors(spec_type):
     result["L0"] = {"i": 16.00, "z": 14.52, "y": 13.58}
     result["L1"] = {"i": 16.41, "z": 14.93, "y": 13.97}
     result["L2"] = {"i": 16.73, "z": 15.30, "y": 14.33}
-    result["L3"] = ({"i": 17.4, "z": 15.88, "y": 14.89},)
+    result["L3"] = {"i": 17.4, "z": 15.88, "y": 14.89}
     result["L4"] = {"i": 18.35, "z": 16.68, "y": 15.66}
     result["L5"] = {"i": 18.71, "z": 16.94, "y": 15.87}
     result["L6"] = {"i": 19.27, "z": 17.35, "y": 16.27}
-- 
2.43.0


From 607ef80bae0ed09217e07b7883475bb86c730634 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 096/102] fix: ResultsDb retries a locked database, and closes
 its session when a display is kept

---
 rubin_sim/maf/db/results_db.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index caa9561..6f32f40 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -11,12 +11,11 @@ import datetime
 import os
 import time
 import warnings
-from sqlite3 import OperationalError
 
 import numpy as np
 from sqlalchemy import Column, Float, ForeignKey, Integer, String, create_engine
 from sqlalchemy.engine import url
-from sqlalchemy.exc import DatabaseError
+from sqlalchemy.exc import DatabaseError, OperationalError
 from sqlalchemy.orm import backref, declarative_base, relationship, sessionmaker
 from sqlalchemy.sql import text
 
@@ -493,6 +492,7 @@ class ResultsDb:
                 for d in displayinfo:
                     self.session.delete(d)
             else:
+                self.close()
                 return
         # Then go ahead and add new display_dict.
         display_dict = dict(display_dict)
@@ -578,7 +578,6 @@ class ResultsDb:
         # Allow for special summary statistics which return data in a
         # np.ndarray with 'name' and 'value' columns.
         self.open()
-        tries = 0
         if isinstance(summary_value, np.ndarray) and summary_value.dtype.names is not None:
             if ("name" in summary_value.dtype.names) and ("value" in summary_value.dtype.names):
                 for value in summary_value:
@@ -587,22 +586,25 @@ class ResultsDb:
                         sSuffix = sSuffix.decode("utf-8")
                     else:
                         sSuffix = str(sSuffix)
-                    summarystat = SummaryStatRow(
-                        metric_id=metric_id,
-                        summary_name=summary_name + " " + sSuffix,
-                        summary_value=value["value"],
-                    )
-                    success = False
                     # This can hit a locked database if running in parallel
                     # have it try a few times before actually failing
                     # since nothing should be writing for a long time.
-                    while (not success) & (tries < ntry):
+                    tries = 0
+                    while True:
+                        summarystat = SummaryStatRow(
+                            metric_id=metric_id,
+                            summary_name=summary_name + " " + sSuffix,
+                            summary_value=value["value"],
+                        )
                         try:
                             self.session.add(summarystat)
                             self.session.commit()
-                            success = True
+                            break
                         except OperationalError:
+                            self.session.rollback()
                             tries += 1
+                            if tries >= ntry:
+                                raise
                             time.sleep(pause_time)
             else:
                 warnings.warn("Warning! Cannot save non-conforming summary statistic.")
-- 
2.43.0


From 002bdc18f79f6763832638ce67e17bbe5b3d0acf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 097/102] fix: make_fbs_tracking_db closes its databases

---
 rubin_sim/maf/make_fbs_tracking_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/make_fbs_tracking_db.py b/rubin_sim/maf/make_fbs_tracking_db.py
index ae1fefe..5b700a0 100644
--- a/rubin_sim/maf/make_fbs_tracking_db.py
+++ b/rubin_sim/maf/make_fbs_tracking_db.py
@@ -59,6 +59,7 @@ def make_fbs_tracking_db():
             query = "select Value from info where Parameter like 'rubin_%.__version__'"
             result = pd.read_sql(query, conn)
             sched_version = result.iloc[0, 0]
+            conn.close()
 
             # Look for metrics in any of the above sets
             for k in batches:
@@ -88,3 +89,5 @@ def make_fbs_tracking_db():
                         db_file=db_file,
                     )
                     print("Used MAF RunID %d" % (runId))
+
+    tracking_db.close()
-- 
2.43.0


From 3eeaf3bc11100deceaf81018b70d3abb70ab3932 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 098/102] fix: simulations can be looked up for a telescope
 without tags

---
 rubin_sim/sim_archive/vseqmetadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index fb38cab..f6dd708 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1473,7 +1473,7 @@ class VisitSequenceArchiveMetadata:
             FROM {}.simulations_extra AS s
             WHERE %s BETWEEN first_day_obs AND last_day_obs
                 AND %s BETWEEN first_day_obs AND last_day_obs
-                AND telescope = %
+                AND telescope = %s
                 AND creation_time >= NOW() - INTERVAL '%s days'
             """
             query_params = (first_day_obs, last_day_obs, telescope, max_simulation_age)
@@ -1560,7 +1560,7 @@ class VisitSequenceArchiveMetadata:
             FROM {}.simulations_extra AS s
             LEFT JOIN aggstats AS ns ON s.visitseq_uuid=ns.visitseq_uuid
             WHERE %s BETWEEN first_day_obs AND last_day_obs
-                AND telescope = %
+                AND telescope = %s
                 AND creation_time >= NOW() - INTERVAL '%s days'
             """
             query_params = (day_obs, day_obs, telescope, max_simulation_age)
-- 
2.43.0


From bd4ef1e6f1d94bc60e7c5a20cd9b600c0380e0ad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 099/102] fix: sim_metadata_yaml names the simulated dates as
 they are read back

---
 rubin_sim/sim_archive/vseqmetadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index f6dd708..6049161 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1713,11 +1713,11 @@ class VisitSequenceArchiveMetadata:
             metadata["creation_time"] = metadata_seq["creation_time"].isoformat()
 
         if metadata_seq.first_day_obs is not None or metadata_seq.last_day_obs is not None:
-            metadata["simulation_dates"] = {}
+            metadata["simulated_dates"] = {}
             if metadata_seq.first_day_obs is not None:
-                metadata["simulation_dates"]["first"] = metadata_seq.first_day_obs
+                metadata["simulated_dates"]["first"] = metadata_seq.first_day_obs
             if metadata_seq.last_day_obs is not None:
-                metadata["simulation_dates"]["last"] = metadata_seq.last_day_obs
+                metadata["simulated_dates"]["last"] = metadata_seq.last_day_obs
 
         if metadata_seq.files is not None:
             metadata["files"] = {}
-- 
2.43.0


From 70577ceee5889e138f3ed21cd162637e61f3db98 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:47:17 +0000
Subject: [PATCH 100/102] fix: tracking database rows show their own comment
 and version

---
 rubin_sim/maf/db/tracking_db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index 9b332c9..a718a70 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -43,8 +43,8 @@ class RunRow(Base):
                 self.maf_run_id,
                 self.run_group,
                 self.run_name,
-                self.maf_comment,
-                self.maf_version,
+                self.run_comment,
+                self.run_version,
                 self.run_date,
                 self.maf_comment,
                 self.maf_version,
-- 
2.43.0


From 2afe92494a4e67122317a6618d33c45c86ae64a6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 101/102] fix: recording nightly statistics no longer uses up
 the connection pool

---
 rubin_sim/sim_archive/vseqmetadata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 6049161..9af76a3 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1295,8 +1295,7 @@ class VisitSequenceArchiveMetadata:
 
         # pandas to_sql fails with the native psycopg2, only
         # works with sqlalchemy
-        engine = sqlalchemy.create_engine("postgresql+psycopg2://", creator=self.pg_pool.getconn)
-        with engine.connect() as conn:
+        with self.sa_engine.connect() as conn:
             num_rows_added = stats_df.to_sql(
                 "nightly_stats", conn, schema=self.metadata_db_schema, if_exists="append", index=False
             )
-- 
2.43.0


From 368cf6f18cdd26ccc69d3ffff1b26c6f549636fa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 102/102] fix: a conda environment is recorded with both its
 hash and its contents, or neither

---
 rubin_sim/sim_archive/vseqmetadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 9af76a3..8b0c400 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1364,7 +1364,7 @@ class VisitSequenceArchiveMetadata:
             ``None`` (the default) uses the current
             conda environment.
         """
-        if conda_env_hash is None != conda_env_json is None:
+        if (conda_env_hash is None) != (conda_env_json is None):
             raise ValueError("conda_env_hash and conda_env_json must both be set, or neither.")
 
         if conda_env_hash is None:
-- 
2.43.0

