From 14a51e306833f4ae93197984db6ce95ced318f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 01/29] fix: average every integration of a 4-D dark reference

Integrations beyond the number of science integrations were left at zero,
so a later exposure segment (integration_start > 1), which subtracts the
last dark integration, had nothing subtracted.
---
 src/stcal/dark_current/dark_sub.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/stcal/dark_current/dark_sub.py b/src/stcal/dark_current/dark_sub.py
index d792ef0..767c756 100644
--- a/src/stcal/dark_current/dark_sub.py
+++ b/src/stcal/dark_current/dark_sub.py
@@ -281,14 +281,10 @@ def average_dark_frames_4d(dark_data, nints, ngroups, nframes, groupgap):
     # Do a direct copy of the 2-d DQ array into the new dark
     avg_dark.groupdq = dark_data.groupdq
 
-    # check if the number of integrations in dark reference file
-    # is less than science data.  If so then we only need to find the
-    # average for dint integrations, otherwise we find the average for
-    # nints.  (if science data only has 1 integration then there is no
-    # need to average the second integration of the dark refefence file)
+    # Average every integration of the dark reference file: an exposure
+    # segment that does not start at integration 1 subtracts the last one,
+    # however few integrations the segment itself has.
     num_ints = dint
-    if dint > nints:
-        num_ints = nints
 
     # Loop over valid integrations in dark reference file
     # Loop over the groups of the input science data, copying or
-- 
2.43.0


From 4bf7782db6caa13d371a3a5fe7b365de755f15e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 02/29] fix: leave unusable integrations out of the median rate
 of one-group ramps

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index 7267993..aa7f7a6 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2303,6 +2303,10 @@ median_rate_1ngroup(
 
     for (integ = 0; integ < rd->nints; integ++) {
         idx = get_ramp_index(rd, integ, 0);
+        /* Unusable integrations have no rate, as in median_rate_default. */
+        if ((pr->groupdq[idx] & rd->dnu) || isnan(pr->data[idx])) {
+            continue;
+        }
         accum_mrate += (pr->data[idx] / timing);
     }
     pr->median_rate = accum_mrate / (real_t) rd->nints;
-- 
2.43.0


From 831e0e647da639b2729d8ebc3ef8bd22f0e1b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 03/29] fix: use the frame time for the median rate of
 one-group ramps taken from frame zero

---
 src/stcal/ramp_fitting/src/slope_fitter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/src/slope_fitter.c b/src/stcal/ramp_fitting/src/slope_fitter.c
index aa7f7a6..13868d7 100644
--- a/src/stcal/ramp_fitting/src/slope_fitter.c
+++ b/src/stcal/ramp_fitting/src/slope_fitter.c
@@ -2299,7 +2299,7 @@ median_rate_1ngroup(
 {
     npy_intp idx, integ;
     real_t accum_mrate = 0.;
-    real_t timing = rd->one_group_time;
+    real_t timing;
 
     for (integ = 0; integ < rd->nints; integ++) {
         idx = get_ramp_index(rd, integ, 0);
@@ -2307,6 +2307,7 @@ median_rate_1ngroup(
         if ((pr->groupdq[idx] & rd->dnu) || isnan(pr->data[idx])) {
             continue;
         }
+        timing = pr->is_zframe[integ] ? rd->frame_time : rd->one_group_time;
         accum_mrate += (pr->data[idx] / timing);
     }
     pr->median_rate = accum_mrate / (real_t) rd->nints;
-- 
2.43.0


From 01d03d563a91001e14f8d23ef9cad1f9645a112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 04/29] fix: byte-swap a foreign-endian zeroframe before
 passing it to the C extension

---
 src/stcal/ramp_fitting/ols_fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 86f8a13..25cff8e 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -663,6 +663,8 @@ def endianness_handler(ramp_data, gain_2d, readnoise_2d):
     ramp_data.average_dark_current, _ = handle_array_endianness(ramp_data.average_dark_current, sys_order)
     ramp_data.groupdq, _ = handle_array_endianness(ramp_data.groupdq, sys_order)
     ramp_data.pixeldq, _ = handle_array_endianness(ramp_data.pixeldq, sys_order)
+    if ramp_data.zeroframe is not None:
+        ramp_data.zeroframe, _ = handle_array_endianness(ramp_data.zeroframe, sys_order)
 
     return ramp_data, gain_2d, readnoise_2d, (rn_bswap, gain_bswap)
 
-- 
2.43.0


From 1dd6d816b6e7b9f545ee33ec50544517cdea0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 05/29] fix: carry one-group suppression over to the row slices
 of ramp fitting

---
 src/stcal/ramp_fitting/ols_fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 25cff8e..9ed8220 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -517,6 +517,8 @@ def slice_ramp_data(ramp_data, start_row, nrows):
     else:
         ramp_data_slice.orig_gdq = None
 
+    ramp_data_slice.suppress_one_group_ramps = ramp_data.suppress_one_group_ramps
+
     # Slice info
     ramp_data_slice.start_row = start_row
     ramp_data_slice.num_rows = nrows
-- 
2.43.0


From 5aca47f79a79bdd2092f34ec5e35eeb67656c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 06/29] fix: accept as many images as announced in the on-disk
 median, not as many as sections

---
 src/stcal/outlier_detection/median.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stcal/outlier_detection/median.py b/src/stcal/outlier_detection/median.py
index cb3c40a..e3b13ea 100644
--- a/src/stcal/outlier_detection/median.py
+++ b/src/stcal/outlier_detection/median.py
@@ -334,8 +334,8 @@ class _OnDiskMedian:
         Split data into ``nsections`` sections and write/append each section to
         the corresponding temporary file.
         """
-        if self._n_adds >= self.nsections:
-            msg = f"Too many calls to add_image. Expected at most {self.nsections} input models."
+        if self._n_adds >= self._expected_nframes:
+            msg = f"Too many calls to add_image. Expected at most {self._expected_nframes} input models."
             raise IndexError(msg)
         self._validate_data(data)
         self._n_adds += 1
-- 
2.43.0


From e8517716814c107b7909cf2a5d15a06872c852c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 07/29] fix: leave images without a sky out of the global
 minimum of skymatch

---
 src/stcal/skymatch/skymatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/skymatch/skymatch.py b/src/stcal/skymatch/skymatch.py
index 12881d9..fbe1441 100644
--- a/src/stcal/skymatch/skymatch.py
+++ b/src/stcal/skymatch/skymatch.py
@@ -305,7 +305,7 @@ drizzlepac/astrodrizzle.html>`_.
         for img in images:
             sky = img.calc_sky(delta=not subtract)[0]
             sky_deltas.append(sky)
-            if do_global and (minsky is None or sky < minsky):
+            if do_global and sky is not None and (minsky is None or sky < minsky):
                 minsky = sky
 
         if do_global:
-- 
2.43.0


From f52709054059b572902eca57070c9ae1f51f7ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 08/29] fix: start the counts of resampled groups and models
 anew after finalizing

---
 src/stcal/resample/resample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 4315f6f..d7cdac7 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -645,6 +645,8 @@ class Resample:
         """
         # set up an empty output model (don't allocate arrays at this time):
         if not hasattr(self, "_output_model") or self.is_finalized():
+            self._group_ids = []
+            self._n_res_models = 0
             self._output_model = self.create_output_model()
 
         if n_input_models is None:
-- 
2.43.0


From fd94f98e31dcf7b344b63227388ce68752c7834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 09/29] fix: do not weight the variances of a model without
 read noise by an earlier model's read noise

---
 src/stcal/resample/resample.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index d7cdac7..f3390d5 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -1146,12 +1146,17 @@ class Resample:
 
         # Set the weight for the image from the weight type
         if self.weight_type.startswith("ivm"):
-            rn_var_info = self._variance_info.get("var_rnoise", {})
-            rn_var = rn_var_info.get("var", None)
+            # only this model's own read noise counts, not that of an earlier one
+            rn_var = None
+            if self._check_var_array(model, "var_rnoise"):
+                rn_var = self._variance_info.get("var_rnoise", {}).get("var", None)
             if rn_var is not None:
                 mask = (rn_var > 0) & np.isfinite(rn_var)
                 weight = np.zeros(self.output_array_shape)
                 weight[mask] = np.reciprocal(rn_var[mask])
+            else:
+                # equal weighting, as in build_driz_weight
+                weight = np.ones(self.output_array_shape)
 
         elif self.weight_type == "exptime":
             t, _ = get_tmeasure(model)
-- 
2.43.0


From 0aee1e4c52994c71d51e78d66093133ed652571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 10/29] fix: do not divide by a possibly zero factor when
 leaving out two resultant differences

---
 src/stcal/ramp_fitting/likely_fit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 978f1dc..74e5e09 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -746,8 +746,9 @@ def compute_jump_detects(result, ndiffs, diffs2use, dC, dB, A, B, C, scale, beta
     with warnings.catch_warnings():
         warnings.simplefilter("ignore")
         # best-fit a, b, c
-        c = bcpj_fac / cpj_fac - (B * dC[1:] - dB[1:] * C) / cjck_fac
-        c /= cjck_fac / cpj_fac - (dC[1:] ** 2 - C * Cinv_diag[1:]) / cjck_fac
+        # (cjck_fac may be zero, so it must not be divided by)
+        c = bcpj_fac * cjck_fac - (B * dC[1:] - dB[1:] * C) * cpj_fac
+        c /= cjck_fac**2 - (dC[1:] ** 2 - C * Cinv_diag[1:]) * cpj_fac
         b = (bcpj_fac - c * cjck_fac) / cpj_fac
         a = (B - b * dC[:-1] - c * dC[1:]) / C
         result.countrate_two_omit = a
-- 
2.43.0


From 0048d5a0b4b2d828aa66be88ef0095236fc7d0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 11/29] fix: make the likelihood fit work without a count rate
 guess

---
 src/stcal/ramp_fitting/likely_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 74e5e09..b2d817b 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -571,7 +571,7 @@ def fit_ramps(
 
     # diffs is (ngroups, ncols) of the current row
     if count_rate_guess is None:
-        count_rate_guess = initial_count_rate_guess(covar, diffs, diffs2use)
+        count_rate_guess = initial_count_rate_guess(diffs, diffs2use)
 
     alpha_tuple, beta_tuple, scale = compute_alphas_betas(
         count_rate_guess, gain, rnoise, covar, rescale, diffs, dn_scale
-- 
2.43.0


From e4411e616cdc364fd051b9ad97c5526ab1f9efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 12/29] fix: do not change the caller's read pattern when frame
 zero splits the first resultant

---
 src/stcal/ramp_fitting/likely_fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index b2d817b..c983f83 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -371,7 +371,8 @@ def get_readtimes(ramp_data):
         A list of frame times for each frame used in the computation of the ramp.
     """
     if ramp_data.read_pattern is not None:
-        return ramp_data.read_pattern
+        # a copy, since the fit may split the first resultant
+        return list(ramp_data.read_pattern)
 
     ngroups = ramp_data.data.shape[1]
     tot_frames = ramp_data.nframes + ramp_data.groupgap
-- 
2.43.0


From 60d5541b350cb758c5f0aaacdd3cf4c09f1edbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:33 +0000
Subject: [PATCH 13/29] fix: return the whole fit of a single ramp, not only
 its intercept

---
 src/stcal/ramp_fitting/ols_cas22_fit.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/stcal/ramp_fitting/ols_cas22_fit.py b/src/stcal/ramp_fitting/ols_cas22_fit.py
index 533cebd..45b8ba9 100644
--- a/src/stcal/ramp_fitting/ols_cas22_fit.py
+++ b/src/stcal/ramp_fitting/ols_cas22_fit.py
@@ -133,10 +133,6 @@ def fit_ramps_casertano(
     variances = output.variances.reshape(orig_shape[1:] + (3,))
     dq = output.dq.reshape(orig_shape)
 
-    if resultants.shape != orig_shape:
-        parameters = parameters[0]
-        variances = variances[0]
-
     if resultants_unit is not None:
         parameters = parameters * resultants_unit
 
-- 
2.43.0


From 8fb924d5464d1eb02c8ec20cede39468ae6f11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:33 +0000
Subject: [PATCH 14/29] fix: give fits of resultants with a unit in electrons

---
 src/stcal/ramp_fitting/ols_cas22_fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/ols_cas22_fit.py b/src/stcal/ramp_fitting/ols_cas22_fit.py
index 45b8ba9..b2e6a12 100644
--- a/src/stcal/ramp_fitting/ols_cas22_fit.py
+++ b/src/stcal/ramp_fitting/ols_cas22_fit.py
@@ -134,7 +134,8 @@ def fit_ramps_casertano(
     dq = output.dq.reshape(orig_shape)
 
     if resultants_unit is not None:
-        parameters = parameters * resultants_unit
+        # the resultants were converted to electrons
+        parameters = parameters * u.electron
 
     # return ols_cas22.RampFitOutputs(output.fits, parameters, variances, dq)
     return ols_cas22.RampFitOutputs(parameters, variances, dq)
-- 
2.43.0


From 15c15185e0e887c19af0ad124e3242b0c1fc8f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:12 +0000
Subject: [PATCH 15/29] fix: find snowballs in integrations of two groups

---
 src/stcal/jump/jump.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 9069ed6..351e37a 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -348,6 +348,8 @@ def flag_large_events(gdq, jump_flag, sat_flag, jump_data):
                 next_sat = np.bitwise_and(next_gdq, sat_flag)
                 not_current_sat = np.logical_not(current_sat)
                 next_new_sat = next_sat * not_current_sat
+            else:
+                next_new_sat = np.zeros_like(new_sat)
 
             next_sat_ellipses = find_ellipses(next_new_sat, sat_flag, jump_data.min_sat_area)
             sat_ellipses = find_ellipses(new_sat, sat_flag, jump_data.min_sat_area)
-- 
2.43.0


From 759efed1d4bee7a8a7265b89d9654e4d2e0aec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:12 +0000
Subject: [PATCH 16/29] fix: keep the other flags of samples in the extended
 core of a snowball

---
 src/stcal/jump/jump.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 351e37a..d203faa 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -449,7 +449,10 @@ def extend_saturation(cube, grp, sat_ellipses, jump_data, persist_jumps):
 
             is_sat = sat_ellipse == satcolor
             for i in range(grp, cube.shape[0]):
-                cube[i][iy1:iy2, ix1:ix2][is_sat] = jump_data.fl_sat
+                # saturated samples are no longer jumps; all other flags stay
+                region = cube[i][iy1:iy2, ix1:ix2]
+                region[is_sat] &= ~np.uint8(jump_data.fl_jump)
+                region[is_sat] |= np.uint8(jump_data.fl_sat)
 
             ax1, ax2 = (ellipse[1][0], ellipse[1][1])
             indx, persist_ellipse = ellipse_subim(ceny, cenx, ax1, ax2, alpha, satcolor, (nrows, ncols))
-- 
2.43.0


From 20128d4752831ca130e662c899bdde566ec5d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:12 +0000
Subject: [PATCH 17/29] fix: measure the distance of snowballs from the far
 column by the number of columns

---
 src/stcal/jump/jump.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index d203faa..4bd12a0 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -673,7 +673,7 @@ def make_snowballs(
     """
     nints, ngroups, nrows, ncols = gdq.shape
     low_threshold = jump_data.edge_size
-    high_threshold = max(0, nrows - jump_data.edge_size)
+    high_threshold = (max(0, ncols - jump_data.edge_size), max(0, nrows - jump_data.edge_size))
 
     # This routine will create a list of snowballs (ellipses) that have the
     # center of the saturation circle within the enclosing jump rectangle.
@@ -764,8 +764,8 @@ def near_edge(jump, low_threshold, high_threshold):
         Low threshold distance from the edge of the detector where saturated cores are not
         required for snowball detection.
 
-    high_threshold : int
-        High threshold distance from the edge of the detector where saturated cores are not
+    high_threshold : tuple of int
+        High threshold distances (x, y) from the edge of the detector where saturated cores are not
         required for snowball detection.
 
     Returns
@@ -776,8 +776,8 @@ def near_edge(jump, low_threshold, high_threshold):
     return (
         jump[0][0] < low_threshold
         or jump[0][1] < low_threshold
-        or jump[0][0] > high_threshold
-        or jump[0][1] > high_threshold
+        or jump[0][0] > high_threshold[0]
+        or jump[0][1] > high_threshold[1]
     )
 
 
-- 
2.43.0


From 9d2611f7b76059696eb1468fe69ab4bee46fd6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:58 +0000
Subject: [PATCH 18/29] fix: compare saturated cores with the orientation of
 the jump region

The orientation of the regions is measured from the row axis, while
point_inside_ellipse() takes an angle measured from the column axis, so
that saturated cores off the centre of an elongated region were missed.
---
 src/stcal/jump/jump.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 4bd12a0..a9d58e8 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -684,13 +684,16 @@ def make_snowballs(
             # center of the jump ellipse
             snowballs.append(jump)
         else:
+            # The orientation of the ellipses is measured from the row axis;
+            # point_inside_ellipse() takes the angle from the column axis.
+            outline = (jump[0], jump[1], 90 - jump[2])
             for sat in sat_ellipses:
-                if point_inside_ellipse(sat[0], jump) and jump not in snowballs:
+                if point_inside_ellipse(sat[0], outline) and jump not in snowballs:
                     snowballs.append(jump)
             if group < ngroups - 1:
                 # Is there saturation inside the jump in the next group?
                 for next_sat in next_sat_ellipses:
-                    if (point_inside_ellipse(next_sat[0], jump)) and jump not in snowballs:
+                    if (point_inside_ellipse(next_sat[0], outline)) and jump not in snowballs:
                         snowballs.append(jump)
 
     # extend the saturated ellipses that are larger than the min_sat_radius
-- 
2.43.0


From 02945eaa38824b92c705c14c1a7396f155de7f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:05 +0000
Subject: [PATCH 19/29] fix: leave invalid samples out of the shower search
 whatever their other flags

Samples were only set to NaN when their flag word was exactly one of five
values, so that e.g. saturated samples with a jump, or with any other
flag, took part in the median of the differences.
---
 src/stcal/jump/jump.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index a9d58e8..f160f7c 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -1223,13 +1223,8 @@ def nan_invalid_data(data, gdq, jump_data):
     data : ndarray
         NaN'd cience data 4D float
     """
-    jump_dnu_flag = jump_data.fl_jump + jump_data.fl_dnu
-    sat_dnu_flag = jump_data.fl_sat + jump_data.fl_dnu
-    data[gdq == jump_dnu_flag] = np.nan
-    data[gdq == sat_dnu_flag] = np.nan
-    data[gdq == jump_data.fl_sat] = np.nan
-    data[gdq == jump_data.fl_jump] = np.nan
-    data[gdq == jump_data.fl_dnu] = np.nan
+    invalid_flags = jump_data.fl_jump | jump_data.fl_sat | jump_data.fl_dnu
+    data[np.bitwise_and(gdq, invalid_flags) != 0] = np.nan
 
     return data
 
-- 
2.43.0


From 2e64f487e8a3a8c974cc202dc659091f825b4898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:05 +0000
Subject: [PATCH 20/29] fix: recognise reference pixels with further flags in
 the shower search

---
 src/stcal/jump/jump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index f160f7c..6a02e4e 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -823,7 +823,7 @@ def find_faint_extended(indata, ingdq, pdq, readnoise_2d, jump_data, min_diffs_f
 
     data = nan_invalid_data(data, gdq, jump_data)
 
-    refy, refx = np.where(pdq == refpix_flag)
+    refy, refx = np.where(np.bitwise_and(pdq.astype(np.uint32), np.uint32(refpix_flag)) != 0)
     gdq[:, :, refy, refx] = jump_data.fl_dnu
     first_diffs = np.diff(data, axis=1)
     del data
-- 
2.43.0


From af28dfb02c1234220b425f07108ab5ccd9f205b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:52 +0000
Subject: [PATCH 21/29] fix: keep the corners of combined footprints that
 almost coincide

A corner was dropped from the outline of combined footprints when the
point before it was less than 0.05 pixels away, although that point was
itself dropped for lying on a straight edge: two footprints shifted by
0.03 pixels along one axis were combined into a line.
---
 src/stcal/alignment/resample_utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index 93c7a5e..8aba0a1 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -194,6 +194,13 @@ def _simplify_by_angle(coords, point_thresh=5e-2, angle_thresh=1e-6):
     np.ndarray
         2D array of shape (M, 2) representing the simplified polygon vertices.
     """
+    # Check closeness
+    # We only need to check closeness in one direction, to avoid removing both points
+    # if there's a duplicated pair. Wrapped indices ensure no bugs with first/last points.
+    # Drop these points first, so that the angles are those at the points that are left.
+    step = np.abs(coords - np.roll(coords, 1, axis=0))
+    coords = coords[~((step[:, 0] < point_thresh) & (step[:, 1] < point_thresh))]
+
     # Indices for previous, current, next points (wrap around)
     n = len(coords)
     idx_prev = np.arange(-1, n - 1)
@@ -208,17 +215,12 @@ def _simplify_by_angle(coords, point_thresh=5e-2, angle_thresh=1e-6):
     v1 = p1 - p0
     v2 = p2 - p1
 
-    # Check closeness
-    # We only need to check closeness in one direction, to avoid removing both points
-    # if there's a duplicated pair. Wrapped indices ensure no bugs with first/last points.
-    close = (np.abs(v1[:, 0]) < point_thresh) & (np.abs(v1[:, 1]) < point_thresh)
-
     # Slopes
     m1 = v1[:, 1] / (v1[:, 0] + 1e-12)
     m2 = v2[:, 1] / (v2[:, 0] + 1e-12)
     delta_theta = np.arctan((m2 - m1) / (1 + m1 * m2))
 
-    collinear = close | (np.abs(delta_theta) < angle_thresh)
+    collinear = np.abs(delta_theta) < angle_thresh
 
     # Keep only non-collinear points
     return coords[~collinear]
-- 
2.43.0


From f109d7283b410a963e51a712b7d191b7e1f4bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:10 +0000
Subject: [PATCH 22/29] fix: intersect combined footprints with a region that
 cuts them into parts

Overlaps of several parts, or touching in points or lines only, failed
with an AttributeError.
---
 src/stcal/alignment/resample_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index 8aba0a1..0b02ab0 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -165,8 +165,10 @@ def _intersect_with_bbox(polygons, bbox):
     for polygon in polygons:
         polygon = shapely.geometry.Polygon(polygon)
         intersection = shapely.intersection(polygon, intersect_polygon)
-        if not intersection.is_empty:
-            final_polygons.append(_convert_to_array(intersection))
+        # The overlap may have several parts; those without an area do not count
+        for part in getattr(intersection, "geoms", [intersection]):
+            if isinstance(part, shapely.geometry.Polygon) and not part.is_empty:
+                final_polygons.append(_convert_to_array(part))
     return final_polygons
 
 
-- 
2.43.0


From 8210b699ef68c2504c15bb558d40f8483545b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:37 +0000
Subject: [PATCH 23/29] fix: fall back to the nominal pixel area where the mean
 one is not available

---
 src/stcal/resample/resample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index f3390d5..9d976ab 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -377,6 +377,7 @@ class Resample:
                     f"'{model['filename']}'. "
                     'Using "nominal" pixel area instead.'
                 )
+                pixel_area = model["pixelarea_steradians"]
         else:
             pixel_area = model["pixelarea_steradians"]
             if pixel_area is None or pixel_area <= 0:
-- 
2.43.0


From bfaf50c072ee4cf75320312aad992081623f3864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:37 +0000
Subject: [PATCH 24/29] fix: resample spectra in flux density units without a
 pixel scale ratio

Without a ratio the weights, errors and variances are not scaled; the
scale of the data was computed as 1 / None.
---
 src/stcal/resample/resample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 9d976ab..25fbe22 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -596,6 +596,7 @@ class Resample:
             photom_pixel_area
             and "SPECTRAL" in wcs.output_frame.axes_type
             and is_flux_density(model["bunit_data"])
+            and self.pixel_scale_ratio is not None
         ):
             # If input image is in flux density units, correct the
             # flux for the user-specified change to the spatial dimension
-- 
2.43.0


From a0c5dc1722fdb51c69fcd67dbb77ff521f0d6693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 25/29] fix: count the groups for sigma clipping over all
 integrations

Only the unusable groups of the last integration were left out when
deciding whether the jump step has to be skipped.
---
 src/stcal/jump/twopoint_difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/jump/twopoint_difference.py b/src/stcal/jump/twopoint_difference.py
index 952cb41..6e26f88 100644
--- a/src/stcal/jump/twopoint_difference.py
+++ b/src/stcal/jump/twopoint_difference.py
@@ -663,7 +663,7 @@ def groups_all_set_dnu(nints, ngroups, gdq, twopt_p):
     if twopt_p.only_use_ints:
         total_sigclip_groups = nints
     else:
-        total_sigclip_groups = nints * ngroups - num_flagged_grps
+        total_sigclip_groups = nints * ngroups - total_flagged_grps
 
     min_usable_groups = ngroups - max_flagged_grps
     total_groups = nints * ngroups - total_flagged_grps
-- 
2.43.0


From 7b39f89269d018db3433cd665ecb07cab0473edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 26/29] fix: return no sources where none are asked for

---
 src/stcal/tweakreg/astrometric_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stcal/tweakreg/astrometric_utils.py b/src/stcal/tweakreg/astrometric_utils.py
index 7b084d7..bca91da 100644
--- a/src/stcal/tweakreg/astrometric_utils.py
+++ b/src/stcal/tweakreg/astrometric_utils.py
@@ -105,8 +105,10 @@ def create_astrometric_catalog(
     # Should 'num_sources' be a negative value, it will return the faintest
     # 'num_sources' sources.
     if num_sources is not None:
-        indx = -1 * num_sources
-        ref_table = ref_table[:indx] if num_sources < 0 else ref_table[indx:]
+        if num_sources < 0:
+            ref_table = ref_table[:-num_sources]
+        else:
+            ref_table = ref_table[max(len(ref_table) - num_sources, 0) :]
 
     # Write out table to a file, if specified
     if output is not None:
-- 
2.43.0


From 4b4dec31b4e7f1e602e5f2048e90f2b648cc70f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 27/29] fix: keep the vertices of an image outline no further
 apart than the step

---
 src/stcal/skymatch/skyimage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stcal/skymatch/skyimage.py b/src/stcal/skymatch/skyimage.py
index d8f7ab9..2315cec 100644
--- a/src/stcal/skymatch/skyimage.py
+++ b/src/stcal/skymatch/skyimage.py
@@ -51,8 +51,8 @@ def _calc_bounding_polygon(image, wcs_fwd, stepsize=None):
         nint_x = 2
         nint_y = 2
     else:
-        nint_x = max(2, int(np.ceil((nx + 1.0) / stepsize)))
-        nint_y = max(2, int(np.ceil((ny + 1.0) / stepsize)))
+        nint_x = int(np.ceil(nx / stepsize)) + 1
+        nint_y = int(np.ceil(ny / stepsize)) + 1
 
     xs = np.linspace(-0.5, nx - 0.5, nint_x, dtype=float)
     ys = np.linspace(-0.5, ny - 0.5, nint_y, dtype=float)[1:-1]
-- 
2.43.0


From c473d7ba84b07a9b76401d4651250452941fccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:36 +0000
Subject: [PATCH 28/29] fix: use the minimum number of groups asked for without
 row slices too

With one slice it was replaced by three, so that the setting had no effect
and the flags depended on the number of slices.
---
 src/stcal/jump/jump.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 6a02e4e..08689e9 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -90,7 +90,6 @@ def detect_jumps_data(jump_data):
 
     twopt_params = TwoPointParams(jump_data)
     if n_slices == 1:
-        twopt_params.minimum_groups = 3
         gdq, row_below_dq, row_above_dq, total_primary_crs = twopt.find_crs(
             data, gdq, readnoise_2d, twopt_params
         )
-- 
2.43.0


From 1336e0a51ceb10e962b2ea1022ecd4c39ad32ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:35 +0000
Subject: [PATCH 29/29] fix: set up ramps too short for LIKELY as the OLS_C fit
 they get

With fewer than four groups the LIKELY algorithm falls back to OLS_C, but the
ramp class had been created for LIKELY, so the original group flags were not
kept and groups flagged for charge loss were left out of the read noise
variance.
---
 src/stcal/ramp_fitting/ramp_fit.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/stcal/ramp_fitting/ramp_fit.py b/src/stcal/ramp_fitting/ramp_fit.py
index a65dd3f..0cb1356 100644
--- a/src/stcal/ramp_fitting/ramp_fit.py
+++ b/src/stcal/ramp_fitting/ramp_fit.py
@@ -188,6 +188,16 @@ def ramp_fit(
         # ramps having more than one group.
         suppress_one_group = False
 
+    if algorithm.upper() == "LIKELY" and model.data.shape[1] < likely_fit.LIKELY_MIN_NGROUPS:
+        # These ramps are fitted with OLS_C, and the internal ramp class has to
+        # be set up for it, or groups flagged for charge loss are not handled.
+        log.info(
+            "The LIKELY ramp fitting algorithm needs at least %d groups, not %d; using OLS_C instead.",
+            likely_fit.LIKELY_MIN_NGROUPS,
+            model.data.shape[1],
+        )
+        algorithm = "OLS_C"
+
     # Create an instance of the internal ramp class, using only values needed
     # for ramp fitting from the to remove further ramp fitting dependence on
     # data models.
-- 
2.43.0

