From b48ba0b8762f63d5e6fb7158a26731ae5444ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:05 +0000
Subject: [PATCH 01/22] fix: convert_wide_to_long no longer depends on
 availability_vars ordering

---
 src/pylogit/choice_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index c9653d7..8d1baa7 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1629,8 +1629,8 @@ def convert_wide_to_long(wide_data,
     # Create the observation id column,
     #####
     # Determine the various availability values for each observation
-    wide_availability_values = wide_data[list(
-        availability_vars.values())].values
+    # (columns follow the order of sorted_alt_ids, as all other arrays below do)
+    wide_availability_values = wide_data[sorted_availability_cols].values
     new_obs_id_col = (wide_availability_values *
                       wide_data[obs_id_col].values[:, None]).ravel()
     # Make sure the observation id column has an integer data type
-- 
2.43.0


From b8fbeb7063884a524c3a12f547ad251f9c84357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:20 +0000
Subject: [PATCH 02/22] fix: convert_long_to_wide aligns choices with
 observations by id

---
 src/pylogit/choice_tools.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 8d1baa7..974d4d4 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1142,8 +1142,13 @@ def convert_long_to_wide(long_data,
     #####
     # Create the choice column in the wide data format
     #####
-    new_df[choice_col] = long_data.loc[long_data[choice_col] == 1,
-                                       alt_id_col].values
+    # Match each choice to its observation by id, since the chosen rows need not
+    # appear in the same order as the observations' first rows.
+    chosen_rows = long_data.loc[long_data[choice_col] == 1]
+    obs_to_choice = dict(zip(chosen_rows[obs_id_col].values,
+                             chosen_rows[alt_id_col].values))
+    new_df[choice_col] =\
+        np.array([obs_to_choice[x] for x in new_df[obs_id_col].values])
 
     #####
     # Create the availability columns
-- 
2.43.0


From 96c95c2abd678c5425a8ce7f190312ece9a21217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:36 +0000
Subject: [PATCH 03/22] fix: convert_long_to_wide works without
 alternative-varying variables

---
 src/pylogit/choice_tools.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 974d4d4..d693ab7 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1234,17 +1234,13 @@ def convert_long_to_wide(long_data,
         # Store the current alternative specific variable columns/dataframe
         alt_specific_dfs.append(obs_to_var_df)
 
-    # Combine all of the various alternative specific variable dataframes
-    final_alt_specific_df = pd.concat(alt_specific_dfs, axis=1)
-
     ##########
     # Construct the final wide format dataframe to be returned
     ##########
     final_wide_df = pd.concat([new_df[[obs_id_col]],
                                new_df[[choice_col]],
                                availability_df,
-                               new_df[ind_vars],
-                               final_alt_specific_df],
+                               new_df[ind_vars]] + alt_specific_dfs,
                               axis=1)
 
     # Make sure one has the correct number of rows and columns in
-- 
2.43.0


From 02760a828d2a75d876cb7b62904aacc3b704e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:06 +0000
Subject: [PATCH 04/22] fix: convert_long_to_wide detects multiple/missing
 choices per observation

---
 src/pylogit/choice_tools.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index d693ab7..addfe0f 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -495,8 +495,8 @@ def check_dataframe_for_duplicate_records(obs_id_col, alt_id_col, df):
 
 def ensure_num_chosen_alts_equals_num_obs(obs_id_col, choice_col, df):
     """
-    Checks that the total number of recorded choices equals the total number of
-    observations. If this is not the case, raise helpful ValueError messages.
+    Checks that exactly one choice is recorded for each of the observations. If
+    this is not the case, raise helpful ValueError messages.
 
     Parameters
     ----------
@@ -514,14 +514,15 @@ def ensure_num_chosen_alts_equals_num_obs(obs_id_col, choice_col, df):
     -------
     None.
     """
-    num_obs = df[obs_id_col].unique().shape[0]
-    num_choices = df[choice_col].sum()
+    # Count choices per observation: totals alone would let an observation
+    # with two choices mask another observation with none.
+    num_choices = df.groupby(obs_id_col)[choice_col].sum()
 
-    if num_choices < num_obs:
+    if (num_choices < 1).any():
         msg = "One or more observations have not chosen one "
         msg_2 = "of the alternatives available to him/her"
         raise ValueError(msg + msg_2)
-    if num_choices > num_obs:
+    if (num_choices > 1).any():
         msg = "One or more observations has chosen multiple alternatives"
         raise ValueError(msg)
 
-- 
2.43.0


From 9d0d4aaa2484d310d2816579bddd4334ba6372e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:19 +0000
Subject: [PATCH 05/22] fix: contiguity check is not defeated by unsigned
 observation ids

---
 src/pylogit/choice_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index addfe0f..ad882e6 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1453,7 +1453,7 @@ def ensure_contiguity_in_observation_rows(obs_id_vector):
     """
     # Check that the choice situation id for each row is larger than or equal
     # to the choice situation id of the preceding row.
-    contiguity_check_array = (obs_id_vector[1:] - obs_id_vector[:-1]) >= 0
+    contiguity_check_array = obs_id_vector[1:] >= obs_id_vector[:-1]
     if not contiguity_check_array.all():
         problem_ids = obs_id_vector[np.where(~contiguity_check_array)]
         msg_1 = "All rows pertaining to a given choice situation must be "
-- 
2.43.0


From 715be7259545383864c09c95614261635c3dd19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:56 +0000
Subject: [PATCH 06/22] fix: fit_mle uses the weights it is passed instead of
 ignoring them

---
 src/pylogit/asym_logit.py        | 7 ++++++-
 src/pylogit/clog_log.py          | 7 ++++++-
 src/pylogit/conditional_logit.py | 7 ++++++-
 src/pylogit/mixed_logit.py       | 7 ++++++-
 src/pylogit/nested_logit.py      | 7 ++++++-
 src/pylogit/scobit.py            | 7 ++++++-
 src/pylogit/uneven_logit.py      | 7 ++++++-
 7 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index 301dc9a..1d69c5c 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -927,6 +927,7 @@ class MNAL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -989,6 +990,9 @@ class MNAL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            One non-negative weight per row of `data`, used to weight the
+            log-likelihood that is maximized. Default == None.
 
         Returns
         -------
@@ -1073,7 +1077,8 @@ class MNAL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=weights)
         # Set the derivative functions for estimation
         asym_estimator.set_derivatives()
 
diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index 59ac3d0..8f9d008 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -621,6 +621,7 @@ class MNCL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -677,6 +678,9 @@ class MNCL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            One non-negative weight per row of `data`, used to weight the
+            log-likelihood that is maximized. Default == None.
 
         Returns
         -------
@@ -738,7 +742,8 @@ class MNCL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=weights)
         # Set the derivative functions for estimation
         clog_estimator.set_derivatives()
 
diff --git a/src/pylogit/conditional_logit.py b/src/pylogit/conditional_logit.py
index 9688b26..d74bf80 100644
--- a/src/pylogit/conditional_logit.py
+++ b/src/pylogit/conditional_logit.py
@@ -312,6 +312,7 @@ class MNL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -348,6 +349,9 @@ class MNL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            One non-negative weight per row of `data`, used to weight the
+            log-likelihood that is maximized. Default == None.
 
         Returns
         -------
@@ -383,7 +387,8 @@ class MNL(base_mcm.MNDC_Model):
                                      ridge,
                                      zero_vector,
                                      split_param_vec,
-                                     constrained_pos=constrained_pos)
+                                     constrained_pos=constrained_pos,
+                                     weights=weights)
         # Set the derivative functions for estimation
         mnl_estimator.set_derivatives()
 
diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 41716ac..a8423eb 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -500,6 +500,7 @@ class MixedLogit(base_mcm.MNDC_Model):
                 maxiter=1000,
                 ridge=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -548,6 +549,9 @@ class MixedLogit(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            One non-negative weight per row of `data`, used to weight the
+            log-likelihood that is maximized. Default == None.
 
         Returns
         -------
@@ -594,7 +598,8 @@ class MixedLogit(base_mcm.MNDC_Model):
                                         ridge,
                                         zero_vector,
                                         split_param_vec,
-                                        constrained_pos=constrained_pos)
+                                        constrained_pos=constrained_pos,
+                                        weights=weights)
 
         # Perform one final check on the length of the initial values
         mixl_estimator.check_length_of_initial_values(init_vals)
diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index 5b3a6da..abff5f6 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -447,6 +447,7 @@ class NestedLogit(base_mcm.MNDC_Model):
                 maxiter=1000,
                 ridge=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -486,6 +487,9 @@ class NestedLogit(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            One non-negative weight per row of `data`, used to weight the
+            log-likelihood that is maximized. Default == None.
 
         Returns
         -------
@@ -529,7 +533,8 @@ class NestedLogit(base_mcm.MNDC_Model):
                           ridge,
                           zero_vector,
                           split_param_vec]
-        estimator_kwargs = {"constrained_pos": final_constrained_pos}
+        estimator_kwargs = {"constrained_pos": final_constrained_pos,
+                            "weights": weights}
         nested_estimator = NestedEstimator(*estimator_args,
                                            **estimator_kwargs)
 
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 13256f8..0004965 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -737,6 +737,7 @@ class MNSL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -798,6 +799,9 @@ class MNSL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            One non-negative weight per row of `data`, used to weight the
+            log-likelihood that is maximized. Default == None.
 
         Returns
         -------
@@ -880,7 +884,8 @@ class MNSL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=weights)
         # Set the derivative functions for estimation
         scobit_estimator.set_derivatives()
 
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index 701e722..ec409dc 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -737,6 +737,7 @@ class MNUL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -798,6 +799,9 @@ class MNUL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            One non-negative weight per row of `data`, used to weight the
+            log-likelihood that is maximized. Default == None.
 
         Returns
         -------
@@ -881,7 +885,8 @@ class MNUL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=weights)
         # Set the derivative functions for estimation
         uneven_estimator.set_derivatives()
 
-- 
2.43.0


From 3692115e5ea23a5dd9e2a1ee198bb1e43a361070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:27 +0000
Subject: [PATCH 07/22] fix: nests without available alternatives no longer
 distort nested logit derivatives

---
 src/pylogit/nested_choice_calcs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pylogit/nested_choice_calcs.py b/src/pylogit/nested_choice_calcs.py
index c949a38..e653071 100644
--- a/src/pylogit/nested_choice_calcs.py
+++ b/src/pylogit/nested_choice_calcs.py
@@ -593,8 +593,9 @@ def calc_nested_gradient(orig_nest_coefs,
     ##########
     # Calculate the term that onlny depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
-    # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # A sum of zero means no alternatives from the nest are available to the
+    # observation, so the nest makes no contribution to the observation's terms
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters
@@ -770,8 +771,9 @@ def calc_bhhh_hessian_approximation(orig_nest_coefs,
     ##########
     # Calculate the term that only depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
-    # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # A sum of zero means no alternatives from the nest are available to the
+    # observation, so the nest makes no contribution to the observation's terms
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters. Note we do not sum this object since
-- 
2.43.0


From 3e207a4065a168e7f7baab63a1a3086f8aa1461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:42 +0000
Subject: [PATCH 08/22] fix: NestedLogit instances can be saved with to_pickle

---
 src/pylogit/nested_logit.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index abff5f6..cface37 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -106,6 +106,14 @@ def split_param_vec(all_params, rows_to_nests, return_all_types=False):
         return orig_nest_coefs, index_coefs
 
 
+def nested_utility_transform(sys_utility_array, *args, **kwargs):
+    """
+    Returns the systematic utilities as a 2D column vector. Defined at the
+    module level so that NestedLogit instances can be pickled.
+    """
+    return sys_utility_array[:, None]
+
+
 class NestedEstimator(EstimationObj):
     """
     Estimation object for the 2-level Nested Logit Model.
@@ -433,7 +441,7 @@ class NestedLogit(base_mcm.MNDC_Model):
         ##########
         # Store the utility transform function
         ##########
-        self.utility_transform = lambda x, *args, **kwargs: x[:, None]
+        self.utility_transform = nested_utility_transform
 
         return None
 
-- 
2.43.0


From 331721ce43eac18f69e31084d6e78982c053eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:00 +0000
Subject: [PATCH 09/22] fix: optimizers that use the hessian respect
 constrained_pos

---
 src/pylogit/estimation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/estimation.py b/src/pylogit/estimation.py
index c899fc7..71e1ee1 100644
--- a/src/pylogit/estimation.py
+++ b/src/pylogit/estimation.py
@@ -224,7 +224,13 @@ class EstimationObj(object):
         Calculate and return the negative of the hessian for this model and
         dataset.
         """
-        return -1 * self.convenience_calc_hessian(params)
+        neg_hessian = -1 * self.convenience_calc_hessian(params)
+        # Keep curvature-based optimizers from moving constrained parameters
+        if self.constrained_pos is not None:
+            neg_hessian[self.constrained_pos, :] = 0
+            neg_hessian[:, self.constrained_pos] = 0
+            neg_hessian[self.constrained_pos, self.constrained_pos] = 1
+        return neg_hessian
 
 
 class LogitTypeEstimator(EstimationObj):
-- 
2.43.0


From 808fe8f7de10b3adc30daf2324e91de00dc4f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:43 +0000
Subject: [PATCH 10/22] fix: panel_predict matches draws to individuals by id

---
 src/pylogit/mixed_logit.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index a8423eb..ef3cefd 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -874,7 +874,15 @@ class MixedLogit(base_mcm.MNDC_Model):
 
         # Create the 3D design matrix for those choice situations, using the
         # draws that were just taken from the mixing distributions of interest.
-        past_draw_list = [x[new_unique_mix_id_repeats, :] for x in draw_list]
+        # Note the rows of draw_list follow the order of the new ids whereas the
+        # columns of the past mappings follow the order of the old ids.
+        new_id_to_row = {new_id: row for row, new_id
+                         in enumerate(orig_order_unique_ids_new)}
+        past_draw_rows =\
+            np.array([new_id_to_row[old_id] for old_id in
+                      orig_order_unique_ids_old[old_unique_mix_id_repeats]],
+                     dtype=int)
+        past_draw_list = [x[past_draw_rows, :] for x in draw_list]
         design_args = (past_design_2d,
                        past_draw_list,
                        self.mixing_pos,
-- 
2.43.0


From b2c22187534b26f1f28541f59c39e6aa8432e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:58 +0000
Subject: [PATCH 11/22] fix: mixed logit calculations work with a single draw

---
 src/pylogit/choice_calcs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_calcs.py b/src/pylogit/choice_calcs.py
index 5e24be5..f275b29 100644
--- a/src/pylogit/choice_calcs.py
+++ b/src/pylogit/choice_calcs.py
@@ -156,7 +156,11 @@ def calc_probabilities(beta,
     individual_denominators = np.asarray(rows_to_obs.transpose().dot(
                                                     long_exponentials))
     long_denominators = np.asarray(rows_to_obs.dot(individual_denominators))
-    if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+    # Probabilities stay 2D whenever there are multiple columns of them, or when
+    # a 3D design matrix was passed (i.e. one column per draw, even if only one)
+    return_2d_probs = len(design.shape) >= 3 or (
+        len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1)
+    if return_2d_probs:
         long_probs = (long_exponentials / long_denominators)
     else:
         long_probs = (long_exponentials / long_denominators).ravel()
@@ -170,7 +174,7 @@ def calc_probabilities(beta,
         # chosen_probs will be of shape (num_observations,)
         chosen_exponentials = np.asarray(
                          chosen_row_to_obs.transpose().dot(long_exponentials))
-        if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+        if return_2d_probs:
             chosen_probs = chosen_exponentials / individual_denominators
         else:
             chosen_probs = (chosen_exponentials /
-- 
2.43.0


From d542a03c52da01dc74da698830762dde0d18b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:12 +0000
Subject: [PATCH 12/22] fix: utility transforms accept 2D parameter arrays with
 one column

---
 src/pylogit/asym_logit.py   | 4 ++--
 src/pylogit/clog_log.py     | 2 +-
 src/pylogit/scobit.py       | 2 +-
 src/pylogit/uneven_logit.py | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index 1d69c5c..354e602 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -160,7 +160,7 @@ def _convert_eta_to_c(eta, ref_position):
     replace_list.remove(ref_position)
 
     # Initialize an array for the vector of shape parameters, c
-    if len(eta.shape) > 1 and eta.shape[1] > 1:
+    if len(eta.shape) > 1:
         # Get an array of zeros with shape
         # (num_possible_alternatives, num_parameter_samples). This is used when
         # working with samples from a Bayesian posterior distribution
@@ -318,7 +318,7 @@ def _asym_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index 8f9d008..0eefd2c 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -183,7 +183,7 @@ def _cloglog_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 0004965..a1491eb 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -157,7 +157,7 @@ def _scobit_utility_transform(systematic_utilities,
         needed_idxs = range(intercept_params.shape[0] + 1)
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index ec409dc..8f60c8c 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -213,7 +213,7 @@ def _uneven_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
-- 
2.43.0


From 8d57b77fae6692a58072fd67656878ce5f763e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:43 +0000
Subject: [PATCH 13/22] fix: scobit without outside intercepts accepts 2D
 parameter arrays

---
 src/pylogit/scobit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index a1491eb..a2dc982 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -173,8 +173,9 @@ def _scobit_utility_transform(systematic_utilities,
             all_intercepts[needed_idxs] = intercept_params
     else:
         # Create a full set of intercept parameters including the intercept
-        # constrained to zero
-        all_intercepts = np.zeros(rows_to_alts.shape[1])
+        # constrained to zero (one column per column of shape parameters, if 2D)
+        all_intercepts =\
+            np.zeros((rows_to_alts.shape[1],) + shape_params.shape[1:])
 
     # Figure out what intercept values correspond to each row of the
     # systematic utilities
-- 
2.43.0


From d52e26098b3159424bac03894ce0928e866621a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:58 +0000
Subject: [PATCH 14/22] fix: nested and mixed logit predict return both chosen
 and long probabilities as documented

---
 src/pylogit/base_multinomial_cm_v2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 22cb803..1f760bb 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1913,7 +1913,9 @@ class MNDC_Model(object):
             # Get the 'natural' nest coefficients for prediction
             new_natural_nests = naturalize_nest_coefs(new_nest_coefs)
             # Determine the return string for the nested logit model
-            if return_long_probs:
+            if return_long_probs and choice_col is not None:
+                return_string = "long_and_chosen_probs"
+            elif return_long_probs:
                 return_string = "long_probs"
             else:
                 return_string = "chosen_probs"
@@ -1957,6 +1959,8 @@ class MNDC_Model(object):
                            "chosen_row_to_obs": new_chosen_to_obs,
                            "return_long_probs": return_long_probs}
             prob_array = calc_probabilities(*prob_args, **prob_kwargs)
+            if isinstance(prob_array, tuple):
+                return tuple(x.mean(axis=1) for x in prob_array)
             return prob_array.mean(axis=1)
 
         else:
-- 
2.43.0


From 6569f84a83f24250f61c2204a5df7c2675d75955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 15/22] fix: MNL bootstrap/jackknife replicates honour the
 passed estimation arguments

---
 src/pylogit/bootstrap_mle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pylogit/bootstrap_mle.py b/src/pylogit/bootstrap_mle.py
index 7556ef7..61d8e6f 100644
--- a/src/pylogit/bootstrap_mle.py
+++ b/src/pylogit/bootstrap_mle.py
@@ -289,6 +289,11 @@ def retrieve_point_est(orig_model_obj,
         The dictionary returned by `scipy.optimize` after estimating the
         desired choice model.
     """
+    # If the final model is an MNL, then fit_kwargs describe the MNL estimation.
+    model_is_mnl =\
+        orig_model_obj.model_type == model_type_to_display_name["MNL"]
+    if model_is_mnl and mnl_fit_kwargs is None:
+        mnl_fit_kwargs = dict(fit_kwargs)
     # Get the MNL point estimate for the parameters of this bootstrap sample.
     mnl_point, mnl_obj = get_mnl_point_est(orig_model_obj,
                                            new_df,
-- 
2.43.0


From 076d27cec341330a546c7497a8ec88755641e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:56 +0000
Subject: [PATCH 16/22] fix: mixed logit accepts designs made only of integer
 columns

---
 src/pylogit/mixed_logit_calcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit_calcs.py b/src/pylogit/mixed_logit_calcs.py
index 1973eba..f77cac3 100755
--- a/src/pylogit/mixed_logit_calcs.py
+++ b/src/pylogit/mixed_logit_calcs.py
@@ -151,7 +151,7 @@ def create_expanded_design_for_mixing(design,
     # variables that are being mixed over.
     arrays_for_mixing = design[:, mixing_pos]
     expanded_design = np.concatenate((design, arrays_for_mixing),
-                                     axis=1).copy()
+                                     axis=1).astype(float)
     design_3d = np.repeat(expanded_design[:, None, :],
                           repeats=num_draws,
                           axis=1)
-- 
2.43.0


From af119318396771474634c6e2e171d54cdcc405dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:58 +0000
Subject: [PATCH 17/22] fix: overflow guards in nested logit keep the ordering
 of alternatives

---
 src/pylogit/nested_choice_calcs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pylogit/nested_choice_calcs.py b/src/pylogit/nested_choice_calcs.py
index e653071..4305a0a 100644
--- a/src/pylogit/nested_choice_calcs.py
+++ b/src/pylogit/nested_choice_calcs.py
@@ -134,8 +134,9 @@ def calc_nested_probs(nest_coefs,
     # Calculate the e^(scaled-index) = exp(V / lambda)
     exp_scaled_index = np.exp(scaled_index)
 
-    # Guard against overflow
-    inf_idx = np.isposinf(exp_scaled_index)
+    # Guard against overflow. All values above the replacement are replaced, so
+    # that larger indices never lead to smaller exponentiated indices.
+    inf_idx = exp_scaled_index > max_comp_value
     exp_scaled_index[inf_idx] = max_comp_value
     # Guard against underflow. Note that I'm not sure this is the best place or
     # best way to perform such guarding. If all of an observations indices
@@ -144,7 +145,7 @@ def calc_nested_probs(nest_coefs,
     # probability. However, replacing underflowed values here may result in
     # incorrectly assigning probabilities of either zero for all alternatives
     # or 1 / num_alternatives for all alternatives.
-    zero_idx = (exp_scaled_index == 0)
+    zero_idx = (exp_scaled_index < min_comp_value)
     exp_scaled_index[zero_idx] = min_comp_value
 
     # Calculate the log-sum for each nest, for each observation. Note that the
-- 
2.43.0


From 25079e8fb16d889ab2b811b8905c792ff206a1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:59 +0000
Subject: [PATCH 18/22] fix: mixed logit works when a coefficient name contains
 'Sigma '

---
 src/pylogit/base_multinomial_cm_v2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 1f760bb..f7a1d4f 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1397,11 +1397,11 @@ class MNDC_Model(object):
         # an error will be raised when creating the coefs series because we
         # will have added the mixing variables twice. The condition below
         # should prevent this error.
-        already_included = any(["Sigma " in x for x in self.ind_var_names])
-
-        if self.mixing_vars is not None and not already_included:
+        if self.mixing_vars is not None:
             new_ind_var_names = ["Sigma " + x for x in self.mixing_vars]
-            self.ind_var_names += new_ind_var_names
+            num_new_names = len(new_ind_var_names)
+            if self.ind_var_names[-1 * num_new_names:] != new_ind_var_names:
+                self.ind_var_names += new_ind_var_names
         return None
 
     def store_fit_results(self, results_dict):
-- 
2.43.0


From 85740060af402396e0a0579f1eb183f25ffab635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:34 +0000
Subject: [PATCH 19/22] fix: ABC intervals handle parameters without measurable
 curvature

---
 src/pylogit/bootstrap_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/bootstrap_abc.py b/src/pylogit/bootstrap_abc.py
index 91a5885..b773d68 100644
--- a/src/pylogit/bootstrap_abc.py
+++ b/src/pylogit/bootstrap_abc.py
@@ -743,7 +743,7 @@ def efron_quadratic_coef_abc(model_object,
     if diff_idx.any():
         quadratic_coef[diff_idx] =\
             ((term_1[diff_idx] - term_2[diff_idx] + term_3[diff_idx]) /
-             denominator)
+             denominator[diff_idx])
     return quadratic_coef
 
 
-- 
2.43.0


From 8fdeb9530ec330aaa94dbec1a6bf807f8fdf6d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:46 +0000
Subject: [PATCH 20/22] fix: calc_conf_intervals uses the same perturbation
 size as calc_abc_interval by default

---
 src/pylogit/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/bootstrap.py b/src/pylogit/bootstrap.py
index 0dab7ae..bc1737b 100644
--- a/src/pylogit/bootstrap.py
+++ b/src/pylogit/bootstrap.py
@@ -794,7 +794,7 @@ class Boot(object):
                             conf_percentage,
                             interval_type='all',
                             init_vals=None,
-                            epsilon=abc.EPSILON,
+                            epsilon=0.001,
                             **fit_kwargs):
         """
         Calculates percentile, bias-corrected and accelerated, and approximate
@@ -817,7 +817,7 @@ class Boot(object):
             Should denote the 'very small' value being used to calculate the
             desired finite difference approximations to the various influence
             functions for the 'abc' intervals. Should be close to zero.
-            Default == sys.float_info.epsilon.
+            Default == 0.001.
         fit_kwargs : additional keyword arguments, optional.
             Should contain any additional kwargs used to alter the default
             behavior of `model_obj.fit_mle` and thereby enforce conformity with
-- 
2.43.0


From 379157c117f5d392073a58a3fcc811c92409cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:52 +0000
Subject: [PATCH 21/22] fix: overflow guards in scobit keep the ordering of
 alternatives

---
 src/pylogit/scobit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index a2dc982..e6ee6c2 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -190,11 +190,13 @@ def _scobit_utility_transform(systematic_utilities,
 
     # Calculate the data dependent part of the transformation
     # Also, along the way, guard against numeric underflow or overflow
+    # (replace all values above the maximum, not only infinite ones, so that
+    # smaller utilities never lead to larger transformed utilities)
     exp_neg_v = np.exp(-1 * systematic_utilities)
-    exp_neg_v[np.isposinf(exp_neg_v)] = max_comp_value
+    exp_neg_v[exp_neg_v > max_comp_value] = max_comp_value
 
     powered_term = np.power(1 + exp_neg_v, long_natural_shapes)
-    powered_term[np.isposinf(powered_term)] = max_comp_value
+    powered_term[powered_term > max_comp_value] = max_comp_value
 
     term_2 = np.log(powered_term - 1)
     # Guard against overvlow
-- 
2.43.0


From 0bb3a44257f3d9d7e575746b152a6b0e85e883f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:23 +0000
Subject: [PATCH 22/22] fix: bootstrap leaves the passed mnl_fit_kwargs
 unchanged

---
 src/pylogit/bootstrap_mle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/bootstrap_mle.py b/src/pylogit/bootstrap_mle.py
index 61d8e6f..fe1c3c1 100644
--- a/src/pylogit/bootstrap_mle.py
+++ b/src/pylogit/bootstrap_mle.py
@@ -202,7 +202,9 @@ def get_mnl_point_est(orig_model_obj,
         if mnl_fit_kwargs is None:
             mnl_fit_kwargs = {}
 
-    # Alter the mnl_fit_kwargs to ensure that we only perform point estimation
+    # Alter (a copy of) the mnl_fit_kwargs to ensure that we only perform point
+    # estimation
+    mnl_fit_kwargs = dict(mnl_fit_kwargs)
     mnl_fit_kwargs["just_point"] = True
     # Use BFGS by default to estimate the MNL since it works well for the MNL.
     if "method" not in mnl_fit_kwargs:
-- 
2.43.0

