From fc4c189211d1162c7aff70523be7c67ac91d85b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:59 +0000
Subject: [PATCH 01/30] fix: tag_missing_data keeps the invalid placeholder for
 bool and narrow integer data

-99999 does not fit in bool, (u)int8 or (u)int16: the placeholder wrapped
around to another value (97 for int8), which later code read as a response.
---
 estimation/utilities/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index 595f800..87a7d11 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -24,7 +24,9 @@ def tag_missing_data(dataset, valid_responses):
                          invalid_fill
     """
     mask = np.isin(dataset, valid_responses)
-    output = dataset.copy()
+    # Booleans and narrow integers cannot hold the invalid placeholder
+    output = (dataset.astype('int') if dataset.dtype.kind in 'bui'
+              else dataset.copy())
     output[~mask] = INVALID_RESPONSE
     
     return output
-- 
2.43.0


From 26a6bfe08382409432a1583bf172c053f2667fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 02/30] fix: create_beta_LUT accepts the last discrimination of
 its table

The documented range ends at alpha_stop, but evaluating there raised an
IndexError because the upper neighbour does not exist.
---
 estimation/utilities/look_up_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estimation/utilities/look_up_table.py b/estimation/utilities/look_up_table.py
index 98ccd2b..bdb9f35 100644
--- a/estimation/utilities/look_up_table.py
+++ b/estimation/utilities/look_up_table.py
@@ -66,8 +66,8 @@ def create_beta_LUT(alpha, beta, options=None):
     # return function that returns beta value
     def interpolate_function(alpha_value, p_value):
         tmp = interp_a(alpha_value)
-        tmpL = int(tmp)
-        tmpH = int(tmp + 1)
+        tmpL = min(int(tmp), alpha.size - 2)
+        tmpH = tmpL + 1
         dx = tmp - tmpL
         return ((1 - dx) * func_list[tmpL](p_value) + 
                 dx * func_list[tmpH](p_value))        
-- 
2.43.0


From 47dc914505d6a3ce22d3e71360c918e38a092322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:47 +0000
Subject: [PATCH 03/30] fix: accept True/False response matrices and narrow
 integer data in estimation

The documentation asks for a matrix of True/False values, but boolean data
raised IndexError/TypeError (used as an index, or subtracted), and the linear
category index overflowed for int8 data.
---
 estimation/unidimensional/dichotomous/ability_estimation.py | 2 +-
 estimation/unidimensional/dichotomous/rasch_mml.py          | 1 +
 estimation/utilities/polytomous_utils.py                    | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/ability_estimation.py b/estimation/unidimensional/dichotomous/ability_estimation.py
index 0d7bb89..9e0854a 100644
--- a/estimation/unidimensional/dichotomous/ability_estimation.py
+++ b/estimation/unidimensional/dichotomous/ability_estimation.py
@@ -136,7 +136,7 @@ def ability_eap(dataset, difficulty, discrimination, options=None):
                                  dtype='float')
 
     invalid_response_mask = dataset == INVALID_RESPONSE
-    unique_sets = dataset.copy()
+    unique_sets = dataset.astype('int')
     unique_sets[invalid_response_mask] = 0 # For Indexing, fixed later
 
     theta, weights = _get_quadrature_points(quad_n, quad_start, quad_stop)
diff --git a/estimation/unidimensional/dichotomous/rasch_mml.py b/estimation/unidimensional/dichotomous/rasch_mml.py
index 144f03d..2232aec 100644
--- a/estimation/unidimensional/dichotomous/rasch_mml.py
+++ b/estimation/unidimensional/dichotomous/rasch_mml.py
@@ -79,6 +79,7 @@ def onepl_mml(dataset, alpha=None, options=None):
 
     unique_sets, counts = np.unique(dataset, axis=1, return_counts=True)
     invalid_response_mask = unique_sets == INVALID_RESPONSE
+    unique_sets = unique_sets.astype('int')
     unique_sets[invalid_response_mask] = 0 # For Indexing, fixed later
 
     discrimination = np.ones((n_items,))
diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 8c79791..969a6e6 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -43,7 +43,7 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
         valid_response_mask = dataset != INVALID_RESPONSE
     
     betas_length = np.zeros((n_items,), dtype='int')
-    the_output = dataset.copy()
+    the_output = dataset.astype('int')
     the_output -= min_value
     
     # Loop over rows, determine the number of unique
-- 
2.43.0


From b977e6f76cb6bb8013afc6447d9ff4e6a2884cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 04/30] fix: ability_mle and ability_3pl_mle handle missing
 responses in no-estimate cases

The sign was taken from the minimum response, which is the missing marker
when an all-incorrect respondent skipped an item, so they got +no_estimate;
the 3PL version did not recognize the marker at all, and a respondent with no
responses received an ability instead of no_estimate.
---
 .../unidimensional/dichotomous/ability_estimation.py   | 10 ++++------
 .../unidimensional/dichotomous/ability_threepl.py      |  7 ++++---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/ability_estimation.py b/estimation/unidimensional/dichotomous/ability_estimation.py
index 9e0854a..64f83bd 100644
--- a/estimation/unidimensional/dichotomous/ability_estimation.py
+++ b/estimation/unidimensional/dichotomous/ability_estimation.py
@@ -33,11 +33,10 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     Returns:
         abilities: (1d array) estimated abilities
     """
-    # Find any missing data
-    bad_mask = dataset == INVALID_RESPONSE
-
     # Locations where endorsement isn't constant
-    mask = ~(np.ma.masked_array(dataset, bad_mask).var(axis=0) == 0)
+    has_true = np.any(dataset == 1, axis=0)
+    has_false = np.any(dataset == 0, axis=0)
+    mask = has_true & has_false
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -51,8 +50,7 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
-    thetas[mask2] *= -1
+    thetas[has_false & ~has_true] *= -1
 
     return thetas
 
diff --git a/estimation/unidimensional/dichotomous/ability_threepl.py b/estimation/unidimensional/dichotomous/ability_threepl.py
index 9974f5a..18e69b0 100644
--- a/estimation/unidimensional/dichotomous/ability_threepl.py
+++ b/estimation/unidimensional/dichotomous/ability_threepl.py
@@ -31,7 +31,9 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
         abilities: (1d array) estimated abilities
     """
     # Locations where endorsement isn't constant
-    mask = np.nanvar(dataset, axis=0) > 0
+    has_true = np.any(dataset == 1, axis=0)
+    has_false = np.any(dataset == 0, axis=0)
+    mask = has_true & has_false
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -46,8 +48,7 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
-    thetas[mask2] *= -1
+    thetas[has_false & ~has_true] *= -1
 
     return thetas
 
-- 
2.43.0


From 99d80fac2b84fef376c4968adb4f1ff9e5ccf5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 05/30] fix: contingency_table counts scales that include
 negative values

The linear index vals1 * (stop + 1) + vals2 is not unique when start_val is
negative (e.g. a -2..2 Likert scale), so pairs were counted in several cells.
---
 common/polychoric.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index 7c45253..a0a94f3 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -44,11 +44,10 @@ def contingency_table(vals1, vals2, start_val=1, stop_val=5):
     n_vals = stop_val - start_val + 1
     cont_table = np.zeros((n_vals, n_vals))
 
-    linear_ndx = vals1 * (stop_val+1) + vals2
     for ndx1, ndx2 in product(range(start_val, n_vals+start_val), 
                               range(start_val, n_vals+start_val)):
-        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero(ndx1*(stop_val+1)+ndx2
-                                                                      == linear_ndx)
+        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero((vals1 == ndx1) &
+                                                                      (vals2 == ndx2))
     return cont_table
 
 
-- 
2.43.0


From 1792df3dbbf6c17896127cb5c1287be840df1420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 06/30] fix: create_synthetic_irt_dichotomous keeps fractional
 scalars with integer difficulty

full_like inherited the integer dtype, so a scalar discrimination or guessing
parameter was truncated (0.2 guessing became 0).
---
 synthetic/dichotomous.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/synthetic/dichotomous.py b/synthetic/dichotomous.py
index fa2e79f..2c7c016 100644
--- a/synthetic/dichotomous.py
+++ b/synthetic/dichotomous.py
@@ -32,18 +32,18 @@ def create_synthetic_irt_dichotomous(difficulty, discrimination, thetas,
     rng = np.random.default_rng(seed)
 
     if np.size(discrimination) == 1:
-        discrimination = np.full_like(difficulty, discrimination)
+        discrimination = np.full_like(difficulty, discrimination, dtype='float')
 
     if np.size(guessing) == 1:
-        guessing = np.full_like(difficulty, guessing)
+        guessing = np.full_like(difficulty, guessing, dtype='float')
 
     if np.ndim(discrimination) == 1:
         kernel = thetas[None, :] - difficulty[:, None]
-        kernel *= discrimination[:, None]
+        kernel = kernel * discrimination[:, None]
 
     elif np.ndim(discrimination) == 2:
         kernel = discrimination @ thetas
-        kernel += difficulty[:, None]
+        kernel = kernel + difficulty[:, None]
     
     else:
         raise AssertionError("Discrimination dimensions are not 1 or 2, "
-- 
2.43.0


From 27736e1a443778e82c24f5d61ae7ae773bfe492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:48 +0000
Subject: [PATCH 07/30] fix: graded unfolding difficulty check requires skew
 symmetry

Only the sum of the centered parameters was tested, so asymmetric sets such
as [-2, 1, 0, 1, 0] were accepted and simulated a different model.
---
 synthetic/polytomous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synthetic/polytomous.py b/synthetic/polytomous.py
index c496cb2..82cfc8c 100644
--- a/synthetic/polytomous.py
+++ b/synthetic/polytomous.py
@@ -115,7 +115,8 @@ def _check_difficulty_parameters(difficulty, model):
         adjusted_difficulty = (difficulty -
                                difficulty[:, middle_index][:, None])
 
-        if not np.all(np.abs(adjusted_difficulty.sum(axis=1)) < 1e-7):
+        if not np.all(np.abs(adjusted_difficulty +
+                             adjusted_difficulty[:, ::-1]) < 1e-7):
             raise AssertionError("Difficulty Parameters must be "
                                  "symmetric about offset")
 
-- 
2.43.0


From e529ee24169edbcb3c327cc57c9b3abab6467fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 08/30] fix: joint maximum likelihood drops respondents without
 any valid response

Such a respondent has no estimable ability, yet was kept when trimming: a
made-up ability near the search bound shifted the scale of every item
estimate (and 0 / 0 raised a warning).
---
 estimation/utilities/polytomous_utils.py | 5 +++--
 estimation/utilities/utils.py            | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 969a6e6..0c0bbc5 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -35,10 +35,11 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
     if trim_ends:
         raw_score_sums = np.sum(dataset, where=valid_response_mask, axis=0)
         valid_score_sums = np.count_nonzero(valid_response_mask, axis=0)
-        ratio_score_sums = raw_score_sums / valid_score_sums
+        ratio_score_sums = raw_score_sums / np.maximum(valid_score_sums, 1)
 
         mask = ((ratio_score_sums == min_value) | 
-                (ratio_score_sums == max_value))
+                (ratio_score_sums == max_value) |
+                (valid_score_sums == 0))
         dataset = dataset[:, ~mask]
         valid_response_mask = dataset != INVALID_RESPONSE
     
diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index 87a7d11..a943f48 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -122,6 +122,7 @@ def trim_response_set_and_counts(response_sets, counts):
 
     # Remove response sets where output is all true/false
     mask = ~(np.ma.masked_array(response_sets, bad_mask).var(axis=0) == 0)
+    mask = np.ma.getdata(mask) & ~bad_mask.all(axis=0)
     response_sets = response_sets[:, mask]
     counts = counts[mask]
 
-- 
2.43.0


From a7ccbee8da079ab47fb302a4894c25686b3cee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 09/30] fix: Cronbach alpha and item-rest correlations ignore
 participants without usable responses

A participant with no response (or none on the other items) has a mean of
0 / 0, which turned the whole statistic into NaN.
---
 common/cronbach_alpha.py               | 2 ++
 estimation/utilities/ctt_statistics.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/cronbach_alpha.py b/common/cronbach_alpha.py
index c2e0975..81b0fa3 100644
--- a/common/cronbach_alpha.py
+++ b/common/cronbach_alpha.py
@@ -21,6 +21,8 @@ def cronbach_alpha(data):
     """
     n_items = data.shape[0]
 
+    # Only participants with a response contribute
+    data = data[:, np.any(data != INVALID_RESPONSE, axis=0)]
     valid_mask = data != INVALID_RESPONSE
     
     item_variance = np.var(data, axis=1, ddof=1, where=valid_mask).sum()
diff --git a/estimation/utilities/ctt_statistics.py b/estimation/utilities/ctt_statistics.py
index 5445cc7..c223f24 100644
--- a/estimation/utilities/ctt_statistics.py
+++ b/estimation/utilities/ctt_statistics.py
@@ -49,7 +49,8 @@ def classical_test_statistics(dataset, start_value=1, stop_value=5):
         total_sub_score = dataset_subset.mean(axis=0, 
                                               where=valid_mask_subset)
         
-        valid_item_mask = valid_mask[item_ndx]
+        # A rest score requires a response to another item
+        valid_item_mask = valid_mask[item_ndx] & valid_mask_subset.any(axis=0)
         
         total_sub_score_valid = total_sub_score[valid_item_mask]
         dataset_valid = dataset[item_ndx][valid_item_mask]
-- 
2.43.0


From 43f957616ac38fc6690cf9d2807ce2dc7e7b8c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:09 +0000
Subject: [PATCH 10/30] fix: multidimensional estimation accepts True/False
 response matrices

The category range was taken as booleans, which cannot be subtracted.
---
 estimation/multidimensional/multidimensional_initial_guess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/multidimensional/multidimensional_initial_guess.py b/estimation/multidimensional/multidimensional_initial_guess.py
index 5852f51..96f8ca7 100644
--- a/estimation/multidimensional/multidimensional_initial_guess.py
+++ b/estimation/multidimensional/multidimensional_initial_guess.py
@@ -52,7 +52,7 @@ def initial_guess_md(dataset, n_factors, options=None):
     valid_mask = dataset != INVALID_RESPONSE
 
     unique_values = np.unique(dataset[valid_mask])
-    start_value, stop_value = unique_values[0], unique_values[-1]
+    start_value, stop_value = int(unique_values[0]), int(unique_values[-1])
 
     correlation = polychoric_correlation(dataset, start_value,
                                          stop_value, options['num_processors'])
-- 
2.43.0


From 2f9821ace0f6293c29cdc8bf6848dbbf7e82663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:29 +0000
Subject: [PATCH 11/30] fix: ability_3pl_eap returns an array for a single
 participant

The partial integral was squeezed, so one participant produced a scalar.
---
 estimation/unidimensional/dichotomous/partial_integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/unidimensional/dichotomous/partial_integrals.py b/estimation/unidimensional/dichotomous/partial_integrals.py
index f0edd0a..5dd2e0a 100644
--- a/estimation/unidimensional/dichotomous/partial_integrals.py
+++ b/estimation/unidimensional/dichotomous/partial_integrals.py
@@ -60,4 +60,4 @@ def _compute_partial_integral_3pl(theta, difficulty, discrimination, guessing, t
     otpt = (1.0 / (1.0 + np.exp(kernel))) * (1 - guessing[:, None, None])
     otpt += 0.5 * (1 - the_sign[:, :, None]) * guessing[:, None, None]
 
-    return otpt.prod(axis=0).squeeze()
+    return otpt.prod(axis=0)
-- 
2.43.0


From ff64ffc54280548b1c1cdcbf30f7aac6f82d3b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 12/30] fix: ability_3pl_eap works without guessing parameters

guessing=None is the default in its signature, but raised a TypeError.
---
 estimation/unidimensional/dichotomous/ability_threepl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/estimation/unidimensional/dichotomous/ability_threepl.py b/estimation/unidimensional/dichotomous/ability_threepl.py
index 18e69b0..dae4e34 100644
--- a/estimation/unidimensional/dichotomous/ability_threepl.py
+++ b/estimation/unidimensional/dichotomous/ability_threepl.py
@@ -133,6 +133,9 @@ def ability_3pl_eap(dataset, difficulty, discrimination,
     quad_start, quad_stop = options['quadrature_bounds']
     quad_n = options['quadrature_n']
 
+    if guessing is None:
+        guessing = np.zeros_like(difficulty, dtype='float')
+
     the_sign = convert_responses_to_kernel_sign(dataset)
 
     theta, _ = _get_quadrature_points(quad_n, quad_start, quad_stop)
-- 
2.43.0


From 2a9c0323dd3b9ba8c7d80c98c5b65e0fd8a3c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 13/30] fix: gum_mml reflects the estimated latent distribution
 along with delta

---
 estimation/unidimensional/polytomous/gum_mml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/estimation/unidimensional/polytomous/gum_mml.py b/estimation/unidimensional/polytomous/gum_mml.py
index b20555f..148fa5a 100644
--- a/estimation/unidimensional/polytomous/gum_mml.py
+++ b/estimation/unidimensional/polytomous/gum_mml.py
@@ -152,7 +152,14 @@ def gum_mml(dataset, delta_sign=(0, 1), options=None):
             break
 
     # Adjust delta values to conform to delta sign
-    delta *= np.sign(delta[delta_ndx]) * delta_multiplier
+    delta_reflection = np.sign(delta[delta_ndx]) * delta_multiplier
+    delta *= delta_reflection
+
+    # Reflecting delta also reflects the distribution estimated with it
+    if delta_reflection < 0 and options['estimate_distribution'] and iteration > 0:
+        cubic_spline = latent_pdf.cubic_splines[-1]
+        cubic_spline.update_coefficients(cubic_spline.coefficients[2:-2][::-1].copy())
+        distribution_x_weight = cubic_spline(theta) * latent_pdf.weights
 
     # Recompute partial int for later calculations
     partial_int = np.ones((responses.shape[1], theta.size))
-- 
2.43.0


From e044b0847a0b30e6be1fff6cda36d0e12832334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 14/30] fix: gum_mml keeps the deltas when the oriented item
 sits exactly at zero

---
 estimation/unidimensional/polytomous/gum_mml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estimation/unidimensional/polytomous/gum_mml.py b/estimation/unidimensional/polytomous/gum_mml.py
index 148fa5a..d3ea9ac 100644
--- a/estimation/unidimensional/polytomous/gum_mml.py
+++ b/estimation/unidimensional/polytomous/gum_mml.py
@@ -152,8 +152,10 @@ def gum_mml(dataset, delta_sign=(0, 1), options=None):
             break
 
     # Adjust delta values to conform to delta sign
+    # (a delta of zero has no sign and asks for no reflection)
     delta_reflection = np.sign(delta[delta_ndx]) * delta_multiplier
-    delta *= delta_reflection
+    if delta_reflection < 0:
+        delta *= delta_reflection
 
     # Reflecting delta also reflects the distribution estimated with it
     if delta_reflection < 0 and options['estimate_distribution'] and iteration > 0:
-- 
2.43.0


From ee9eade8ab6dda8a57ec60bbc3c059f5994a1b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:48 +0000
Subject: [PATCH 15/30] fix: polytomous estimation accepts response matrices of
 floating point type

---
 estimation/utilities/polytomous_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 0c0bbc5..691d32e 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -45,7 +45,7 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
     
     betas_length = np.zeros((n_items,), dtype='int')
     the_output = dataset.astype('int')
-    the_output -= min_value
+    the_output -= int(min_value)
     
     # Loop over rows, determine the number of unique
     # responses, and replace with linear indexing
-- 
2.43.0


From 696c51388edcfcca80657f9c7e055e6cc4c8d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 16/30] fix: multidimensional graded model starts from
 descending intercepts

---
 estimation/multidimensional/multidimensional_mml_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/multidimensional/multidimensional_mml_methods.py b/estimation/multidimensional/multidimensional_mml_methods.py
index ee33b72..7867b75 100644
--- a/estimation/multidimensional/multidimensional_mml_methods.py
+++ b/estimation/multidimensional/multidimensional_mml_methods.py
@@ -139,7 +139,7 @@ def multidimensional_grm_mml(dataset, n_factors, options=None):
         for ndx in range(n_items):
             end_ndx = cumulative_item_counts[ndx]
             start_ndx = start_indices[ndx] + 1
-            betas[start_ndx:end_ndx] = np.linspace(-1, 1,
+            betas[start_ndx:end_ndx] = np.linspace(1, -1,
                                                    item_counts[ndx] - 1)
 
     betas_roll = np.roll(betas, -1)
-- 
2.43.0


From 42571bc7a6fcb24ffc60302333c04f431f0f04ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 17/30] fix: principal components of a singular matrix have
 finite loadings

Rounding leaves the zero eigenvalues slightly negative, whose square root
made the loadings of those factors NaN.
---
 factoranalysis/pca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factoranalysis/pca.py b/factoranalysis/pca.py
index 6d575ef..9332281 100644
--- a/factoranalysis/pca.py
+++ b/factoranalysis/pca.py
@@ -25,7 +25,7 @@ def principal_components_analysis(input_matrix, n_factors=None):
     eigenvalues = eigenvalues[-n_factors:][::-1]
     loadings = loadings[:, -n_factors:][:, ::-1]
 
-    # Scale Loadings
-    loadings *= np.sqrt(eigenvalues).reshape(1, -1)
+    # Scale Loadings, rounding may leave zero eigenvalues slightly negative
+    loadings *= np.sqrt(np.maximum(eigenvalues, 0)).reshape(1, -1)
 
     return loadings, eigenvalues, np.zeros((input_matrix.shape[0]))
\ No newline at end of file
-- 
2.43.0


From 87856874ad202908b213ae9b9965d40094424738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:50 +0000
Subject: [PATCH 18/30] fix: principal axis factoring keeps unique variances
 within their bounds

The unguarded acceleration of the fixed point could jump to unique
variances of -200 for an ordinary covariance matrix and converge there,
or never converge. Extrapolations outside of zero and the total variance
now fall back to the plain iteration.
---
 factoranalysis/paf.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/factoranalysis/paf.py b/factoranalysis/paf.py
index 2cce806..48019c5 100644
--- a/factoranalysis/paf.py
+++ b/factoranalysis/paf.py
@@ -1,7 +1,5 @@
 import numpy as np
 
-from scipy.optimize import fixed_point
-
 from girth.factoranalysis import principal_components_analysis as pca
 
 
@@ -15,6 +13,33 @@ def _paf_fixed_point_iterate(unique_variance, input_matrix, n_factors):
     return np.diag(input_matrix - facts @ facts.T)
 
 
+def _accelerated_fixed_point(initial_guess, args, tolerance, max_iterations):
+    """Steffensen's method, keeping unique variances within their bounds."""
+    total_variance = np.diag(args[0])
+    previous = np.asarray(initial_guess, dtype='float')
+
+    for _ in range(max_iterations):
+        first = _paf_fixed_point_iterate(previous, *args)
+        second = _paf_fixed_point_iterate(first, *args)
+
+        curvature = second - 2 * first + previous
+        safe_curvature = np.where(curvature == 0, 1, curvature)
+        current = previous - np.square(first - previous) / safe_curvature
+
+        # Extrapolations that leave the bounds converge to garbage
+        overshoot = (current < 0) | (current > total_variance)
+        current = np.where(overshoot | (curvature == 0), second, current)
+
+        change = np.abs(current - previous)
+        if np.all(change < tolerance * np.where(previous == 0, 1, np.abs(previous))):
+            return current
+
+        previous = current
+
+    raise RuntimeError(f"Failed to converge after {max_iterations} iterations, "
+                       f"value is {current}")
+
+
 def principal_axis_factor(input_matrix, n_factors, initial_guess=None,
                           max_iterations=2000, tolerance=0.001):
     """Performs Principal Axis Factor Analysis on a symmetric matrix.
@@ -35,8 +60,8 @@ def principal_axis_factor(input_matrix, n_factors, initial_guess=None,
         initial_guess = np.zeros((input_matrix.shape[0]))
 
     args = (input_matrix, n_factors)
-    unique_variance = fixed_point(_paf_fixed_point_iterate, initial_guess,
-                                  args=args, xtol=tolerance, maxiter=max_iterations)
+    unique_variance = _accelerated_fixed_point(initial_guess, args,
+                                               tolerance, max_iterations)
 
     loadings, eigenvalues, _ = pca(input_matrix - np.diag(unique_variance), 
                                    n_factors)
-- 
2.43.0


From 5d030f17a720ba9f0f0144dbeb5c600ed5e7e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 19/30] fix: minimum rank factor analysis starts from positive
 unique variances

A principal axis start with a negative unique variance (Heywood case)
gave NaN starting values, and the singular value decomposition failed.
---
 factoranalysis/minimum_rank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factoranalysis/minimum_rank.py b/factoranalysis/minimum_rank.py
index 97ae00a..ecc0233 100644
--- a/factoranalysis/minimum_rank.py
+++ b/factoranalysis/minimum_rank.py
@@ -56,7 +56,8 @@ def minimum_rank_factor_analysis(correlation_matrix, n_factors,
 
     args = (correlation_cholesky, n_factors)
     bounds = [(1, 100),] * (correlation_matrix.shape[0])
-    initial_guess = 1 / np.sqrt(initial_guess)
+    # Principal axis factor may return negative values (Heywood case)
+    initial_guess = 1 / np.sqrt(np.maximum(initial_guess, 1e-4))
     
     result = minimize(_mrfa_min_func, initial_guess, args, method='SLSQP',
                       bounds=bounds, options={'maxiter': n_iter}, jac=True)
-- 
2.43.0


From 7c7b05253ef457f320705ac0479f1e970d4429ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 20/30] fix: graded response probabilities do not cancel to
 zero far above the thresholds

---
 .../unidimensional/polytomous/partial_integrals_poly.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/estimation/unidimensional/polytomous/partial_integrals_poly.py b/estimation/unidimensional/polytomous/partial_integrals_poly.py
index d9089cf..8fbcaa7 100644
--- a/estimation/unidimensional/polytomous/partial_integrals_poly.py
+++ b/estimation/unidimensional/polytomous/partial_integrals_poly.py
@@ -11,6 +11,10 @@ def _graded_partial_integral(theta, betas, betas_roll,
     graded_prob = expit(temp1) 
     graded_prob -= expit(temp2)
 
+    # Far above both thresholds the upper tails cancel, the lower ones do not
+    far_above = temp2 > 15
+    graded_prob[far_above] = expit(-temp2[far_above]) - expit(-temp1[far_above])
+
     # Set all the responses and fix afterward
     temp_output = graded_prob[response_set, :]
     temp_output[invalid_response_mask] = 1.0
-- 
2.43.0


From 6207015ffcddae155f068757e739d79cbc20dde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 21/30] fix: conditional Rasch accepts responses stored as
 floating point numbers

---
 estimation/unidimensional/dichotomous/rasch_conditional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/unidimensional/dichotomous/rasch_conditional.py b/estimation/unidimensional/dichotomous/rasch_conditional.py
index 2bec43e..b8f4802 100644
--- a/estimation/unidimensional/dichotomous/rasch_conditional.py
+++ b/estimation/unidimensional/dichotomous/rasch_conditional.py
@@ -56,7 +56,7 @@ def rasch_conditional(dataset, discrimination=1, options=None):
     # Remove the zero and full count values
     unique_sets, counts = trim_response_set_and_counts(unique_sets, counts)
 
-    response_set_sums = unique_sets.sum(axis=0)
+    response_set_sums = unique_sets.sum(axis=0).astype('int')
 
     for iteration in range(options['max_iteration']):
         previous_betas = betas.copy()
-- 
2.43.0


From 7078caa0dffcce32becb09e7a084f262123b92a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 22/30] fix: entropy accepts integer arrays

---
 common/entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/entropy.py b/common/entropy.py
index b9cad89..490c8df 100644
--- a/common/entropy.py
+++ b/common/entropy.py
@@ -15,7 +15,7 @@ def entropy(the_array, axis=1):
     Return:
         entropy value
     """
-    power = the_array * the_array
+    power = np.multiply(the_array, the_array, dtype='float64')
     sum_power = power.sum(axis=axis)
     if axis:
         power /= sum_power.reshape(-1, 1)
-- 
2.43.0


From af5a3accc6c616210021eaa4bb2b0a8afa6baaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 23/30] fix: tagging missing data in half precision keeps the
 placeholder

---
 estimation/utilities/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index a943f48..ff7258d 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -24,9 +24,13 @@ def tag_missing_data(dataset, valid_responses):
                          invalid_fill
     """
     mask = np.isin(dataset, valid_responses)
-    # Booleans and narrow integers cannot hold the invalid placeholder
-    output = (dataset.astype('int') if dataset.dtype.kind in 'bui'
-              else dataset.copy())
+    # Booleans, narrow integers and half precision cannot hold the invalid placeholder
+    if dataset.dtype.kind in 'bui':
+        output = dataset.astype('int')
+    elif dataset.dtype == 'float16':
+        output = dataset.astype('float32')
+    else:
+        output = dataset.copy()
     output[~mask] = INVALID_RESPONSE
     
     return output
-- 
2.43.0


From a76e598a6b86f4e3e9650b9ea8c3be0283b43105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 24/30] fix: principal axis factoring of small variances
 iterates from zero

The change of the first iteration, starting from unique variances of zero,
was compared to the tolerance itself. For a covariance matrix of variances
below the tolerance the iteration stopped there, far from the fixed point.
It is now compared to the tolerance times the total variance.
---
 factoranalysis/paf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factoranalysis/paf.py b/factoranalysis/paf.py
index 48019c5..cc01391 100644
--- a/factoranalysis/paf.py
+++ b/factoranalysis/paf.py
@@ -31,7 +31,8 @@ def _accelerated_fixed_point(initial_guess, args, tolerance, max_iterations):
         current = np.where(overshoot | (curvature == 0), second, current)
 
         change = np.abs(current - previous)
-        if np.all(change < tolerance * np.where(previous == 0, 1, np.abs(previous))):
+        scale = np.where(previous == 0, total_variance, np.abs(previous))
+        if np.all(change < tolerance * scale):
             return current
 
         previous = current
-- 
2.43.0


From 73e36ec686d48ac8dc63af92ef43102489d1ef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 25/30] fix: principal axis factoring converges where the plain
 iteration does

Unique variances whose steps grow or turn around were extrapolated as well,
which could keep all of them from settling in 2000 iterations on problems
the plain iteration solves in 70. They now take the plain iteration.
---
 factoranalysis/paf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/factoranalysis/paf.py b/factoranalysis/paf.py
index cc01391..a0da1ee 100644
--- a/factoranalysis/paf.py
+++ b/factoranalysis/paf.py
@@ -26,9 +26,13 @@ def _accelerated_fixed_point(initial_guess, args, tolerance, max_iterations):
         safe_curvature = np.where(curvature == 0, 1, curvature)
         current = previous - np.square(first - previous) / safe_curvature
 
+        # Extrapolate a shrinking step only, others never settle
+        shrinks = np.abs(second - first) < np.abs(first - previous)
+        shrinks &= (second - first) * (first - previous) > 0
+
         # Extrapolations that leave the bounds converge to garbage
         overshoot = (current < 0) | (current > total_variance)
-        current = np.where(overshoot | (curvature == 0), second, current)
+        current = np.where(shrinks & ~overshoot, current, second)
 
         change = np.abs(current - previous)
         scale = np.where(previous == 0, total_variance, np.abs(previous))
-- 
2.43.0


From baff5e9eeb2e84e4fc6b3aaf28b9ec820ee65d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 26/30] fix: maximum likelihood factor analysis of small
 variances stays finite

Unique variances were kept above 1e-6 in the units of the input. Covariances
of variances below that returned loadings of nan. The floor is now relative
to the variance of the item.
---
 factoranalysis/maximum_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factoranalysis/maximum_likelihood.py b/factoranalysis/maximum_likelihood.py
index b69415f..3155cbc 100644
--- a/factoranalysis/maximum_likelihood.py
+++ b/factoranalysis/maximum_likelihood.py
@@ -66,7 +66,7 @@ def maximum_likelihood_factor_analysis(input_matrix, n_factors, tolerance=1e-7,
             selected_row = lower_chol @ inv_B[0]
             selected_row = selected_row.dot(selected_row)
             omega = (selected_row - scalar) / scalar**2
-            uvars[ndx] = max(1e-6, (omega + 1) * uvars[ndx])
+            uvars[ndx] = max(1e-6 * input_matrix[ndx, ndx], (omega + 1) * uvars[ndx])
             
             # Recursively update Inverse of B
             selected_column = inv_B[0, ndx+1:] * (-omega / (1 + omega * scalar))
-- 
2.43.0


From 6dc38748d3b44073f496584d9ce9e83f3daed43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 27/30] fix: entropy of a row of zeros is zero

A row without any loading divided zero by zero. The entropy was nan and
sparsify_loadings raised LinAlgError for loadings with such a row.
---
 common/entropy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/entropy.py b/common/entropy.py
index 490c8df..c976bd3 100644
--- a/common/entropy.py
+++ b/common/entropy.py
@@ -17,6 +17,8 @@ def entropy(the_array, axis=1):
     """
     power = np.multiply(the_array, the_array, dtype='float64')
     sum_power = power.sum(axis=axis)
+    # All zeros have no entropy
+    sum_power = np.where(sum_power == 0, 1, sum_power)
     if axis:
         power /= sum_power.reshape(-1, 1)
     else:
-- 
2.43.0


From 1477fe49eaf303ac4aad62dc3dcebf3e7bbf3842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 28/30] fix: unfolding model iterates until the item locations
 settle too

---
 estimation/unidimensional/polytomous/gum_mml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estimation/unidimensional/polytomous/gum_mml.py b/estimation/unidimensional/polytomous/gum_mml.py
index d3ea9ac..9554737 100644
--- a/estimation/unidimensional/polytomous/gum_mml.py
+++ b/estimation/unidimensional/polytomous/gum_mml.py
@@ -148,7 +148,9 @@ def gum_mml(dataset, delta_sign=(0, 1), options=None):
 
             partial_int *= new_values
 
-        if np.abs(previous_discrimination - discrimination).max() < 1e-3:
+        # Discriminations on their bounds do not change while locations still do
+        if (np.abs(previous_discrimination - discrimination).max() < 1e-3 and
+            np.abs(previous_delta - delta).max() < 1e-2):
             break
 
     # Adjust delta values to conform to delta sign
-- 
2.43.0


From 49bfd8b2ec6bd4d48b995973d3f609ea9e4a6f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 29/30] fix: partial credit model iterates until the
 difficulties settle too

---
 estimation/unidimensional/polytomous/pcm_mml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estimation/unidimensional/polytomous/pcm_mml.py b/estimation/unidimensional/polytomous/pcm_mml.py
index 0625628..cabcafb 100644
--- a/estimation/unidimensional/polytomous/pcm_mml.py
+++ b/estimation/unidimensional/polytomous/pcm_mml.py
@@ -125,7 +125,9 @@ def pcm_mml(dataset, options=None):
 
             partial_int *= new_values
 
-        if np.abs(previous_discrimination - discrimination).max() < 1e-3:
+        # Discriminations on their bounds do not change while difficulties still do
+        if (np.abs(previous_discrimination - discrimination).max() < 1e-3 and
+            np.nanmax(np.abs(previous_betas - betas)) < 1e-2):
             break
 
     # Recompute partial int for later calculations
-- 
2.43.0


From 82d1e4ad1eb2fe21122b9b76d4dc432bd1dee5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 30/30] fix: maximum likelihood factor analysis keeps the
 fractions of an integer start

---
 factoranalysis/maximum_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factoranalysis/maximum_likelihood.py b/factoranalysis/maximum_likelihood.py
index 3155cbc..e67c41e 100644
--- a/factoranalysis/maximum_likelihood.py
+++ b/factoranalysis/maximum_likelihood.py
@@ -36,7 +36,7 @@ def maximum_likelihood_factor_analysis(input_matrix, n_factors, tolerance=1e-7,
     if initial_guess is None:
         uvars = np.diag(input_matrix - loads @ loads.T).copy()
     else:
-        uvars = initial_guess.copy()
+        uvars = np.array(initial_guess, dtype='float')
     
     identity_items = np.eye(n_items)
 
-- 
2.43.0

