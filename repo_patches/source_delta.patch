From f426803cfdc890a9db91cb92dc0f167b0abe3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:50 +0000
Subject: [PATCH 01/20] fix: repeat observed factors for each mixture element
 in sigma points

---
 skillmodels/kalman_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/kalman_filters.py b/skillmodels/kalman_filters.py
index c84a73a..a509dd0 100644
--- a/skillmodels/kalman_filters.py
+++ b/skillmodels/kalman_filters.py
@@ -261,7 +261,7 @@ def _calculate_sigma_points(states, upper_chols, scaling_factor, observed_factor
     sigma_points = sigma_points.at[:, :, 1 : n_fac + 1].add(scaled_upper_chols)
     sigma_points = sigma_points.at[:, :, n_fac + 1 :].add(-scaled_upper_chols)
 
-    observed_part = observed_factors.repeat(n_sigma, axis=0).reshape(
+    observed_part = observed_factors.repeat(n_mixtures * n_sigma, axis=0).reshape(
         n_obs, n_mixtures, n_sigma, n_observed
     )
 
-- 
2.43.0


From b7cdd63e07480a5402a76a19288b1f8f81edba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:17 +0000
Subject: [PATCH 02/20] fix: assign anchoring parameters to the right factors
 if outcomes are unordered

---
 skillmodels/process_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index b573870..8379a58 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -160,7 +160,10 @@ def _process_anchoring(model_dict):
     if "anchoring" in model_dict:
         anchinfo.update(model_dict["anchoring"])
         anchinfo["anchoring"] = True
-        anchinfo["factors"] = list(anchinfo["outcomes"])
+        # use the order of the latent factors because the anchoring parameters are
+        # assigned to factors by position when params are parsed.
+        order = list(model_dict["factors"])
+        anchinfo["factors"] = sorted(anchinfo["outcomes"], key=order.index)
 
     return anchinfo
 
-- 
2.43.0


From bd4d52005d4404b99777f6d1ee81134b57ef4488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:43 +0000
Subject: [PATCH 03/20] fix: allow any factor name when parsing transition
 parameters

---
 skillmodels/parse_params.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skillmodels/parse_params.py b/skillmodels/parse_params.py
index 382dd30..bf0bbe9 100644
--- a/skillmodels/parse_params.py
+++ b/skillmodels/parse_params.py
@@ -52,8 +52,9 @@ def create_parsing_info(params_index, update_info, labels, anchoring):
     # "trans_coeffs"
     pos_dict = {}
     for factor in labels["latent_factors"]:
-        helper = pd.DataFrame(index=params_index)
-        loc = helper.query(f"category == 'transition' & name1 == '{factor}'").index
+        is_transition = params_index.get_level_values("category") == "transition"
+        is_factor = params_index.get_level_values("name1") == factor
+        loc = params_index[is_transition & is_factor]
         pos_dict[factor] = _get_positional_selector_from_loc(range_sr, loc)
 
     parsing_info["transition"] = pos_dict
-- 
2.43.0


From 448167f422c6208248eb23e0dfa182c11828e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:16 +0000
Subject: [PATCH 04/20] fix: bound only diagonal entries of initial cholcovs
 for factor names with hyphens

---
 skillmodels/constraints.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skillmodels/constraints.py b/skillmodels/constraints.py
index 6e4ae29..4819dc6 100644
--- a/skillmodels/constraints.py
+++ b/skillmodels/constraints.py
@@ -68,6 +68,12 @@ def add_bounds(params_df, bounds_distance=0.0):
 
         cholcov_index = df.query("category == 'initial_cholcovs'").index.tolist()
         ind_tups = [tup for tup in cholcov_index if _is_diagonal_entry(tup)]
+        # names with hyphens are ambiguous, e.g. "a-a-a-a" could stand for the factors
+        # "a" and "a-a-a". Thus use the list of factors if it is known.
+        factors = df.query("category == 'initial_states'").index
+        if len(factors) > 0:
+            diagonal = {f"{fac}-{fac}" for fac in factors.get_level_values("name2")}
+            ind_tups = [tup for tup in ind_tups if tup[-1] in diagonal]
         df.loc[ind_tups, "lower_bound"] = bounds_distance
 
     return df
-- 
2.43.0


From f03e4f4aa64e26c024203f2a14e90a36c8b70b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:47 +0000
Subject: [PATCH 05/20] fix: label debug data of mixture models with the right
 individual

---
 skillmodels/process_debug_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index b923d93..d7938a5 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -95,7 +95,7 @@ def _create_post_update_states(filtered_states, factors, update_info):
     for (period, meas), data in zip(update_info.index, filtered_states):
         df = _convert_state_array_to_df(data, factors)
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        df["id"] = np.arange(len(data)).repeat(data.shape[1])
         df["measurement"] = meas
         to_concat.append(df)
 
@@ -164,7 +164,7 @@ def _process_residuals(residuals, update_info):
         df = pd.DataFrame(data.reshape(-1, 1), columns=["residual"])
         df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        df["id"] = np.arange(n_obs).repeat(n_mixtures)
         df["measurement"] = meas
         to_concat.append(df)
     return pd.concat(to_concat)
-- 
2.43.0


From a3be4cdc231f544e0b3d09b5b9ee386c198d977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:58 +0000
Subject: [PATCH 06/20] fix: keep observed factors of individuals with missing
 controls

---
 skillmodels/process_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 9222005..37ee48a 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -34,11 +34,13 @@ def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
     df = _add_copies_of_anchoring_outcome(df, anchoring_info)
     _check_data(df, update_info, labels, purpose=purpose)
     n_obs = int(len(df) / len(labels["periods"]))
+    # needs to be done first because observed factors remain valid (and are needed in
+    # the predict step) if the controls of an individual are missing.
+    observed_data = _generate_observed_factor_array(df, labels, n_obs)
     df = _handle_controls_with_missings(df, labels["controls"], update_info)
     if purpose == "estimation":
         meas_data = _generate_measurements_array(df, update_info, n_obs)
     control_data = _generate_controls_array(df, labels, n_obs)
-    observed_data = _generate_observed_factor_array(df, labels, n_obs)
 
     if purpose == "estimation":
         out = (meas_data, control_data, observed_data)
-- 
2.43.0


From 53ee6a4a98e38da05425a911e440fba1833b2710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:56 +0000
Subject: [PATCH 07/20] fix: allow simulation data without measurements and
 anchoring outcomes

---
 skillmodels/process_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 37ee48a..6501051 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -31,14 +31,15 @@ def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
     """
     df = pre_process_data(df, labels["periods"])
     df["constant"] = 1
-    df = _add_copies_of_anchoring_outcome(df, anchoring_info)
+    if purpose == "estimation":
+        df = _add_copies_of_anchoring_outcome(df, anchoring_info)
     _check_data(df, update_info, labels, purpose=purpose)
     n_obs = int(len(df) / len(labels["periods"]))
     # needs to be done first because observed factors remain valid (and are needed in
     # the predict step) if the controls of an individual are missing.
     observed_data = _generate_observed_factor_array(df, labels, n_obs)
-    df = _handle_controls_with_missings(df, labels["controls"], update_info)
     if purpose == "estimation":
+        df = _handle_controls_with_missings(df, labels["controls"], update_info)
         meas_data = _generate_measurements_array(df, update_info, n_obs)
     control_data = _generate_controls_array(df, labels, n_obs)
 
-- 
2.43.0


From dd8f87c416f346ea9261f5c96ba9e8a0f6b4d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:23 +0000
Subject: [PATCH 08/20] fix: ignore unused index levels when balancing the
 panel

---
 skillmodels/process_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 6501051..e7e48a1 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -69,6 +69,7 @@ def pre_process_data(df, periods):
 
     # replace existing codes for periods and
     df.index.names = ["id", "period"]
+    df.index = df.index.remove_unused_levels()
     for level in [0, 1]:
         df.index = df.index.set_levels(range(len(df.index.levels[level])), level=level)
 
-- 
2.43.0


From 74f6620f6af7336e2c3b5b934a84139c21143312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 09/20] fix: do not share normalizations between full and
 reduced model

---
 skillmodels/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/utilities.py b/skillmodels/utilities.py
index 03994df..700816e 100644
--- a/skillmodels/utilities.py
+++ b/skillmodels/utilities.py
@@ -241,7 +241,7 @@ def reduce_n_periods(model_dict, new_n_periods, params=None):
             out["factors"][factor]["measurements"], new_n_periods
         )
 
-        norminfo = model_dict["factors"][factor].get("normalizations", {})
+        norminfo = out["factors"][factor].get("normalizations", {})
         if "loadings" in norminfo:
             out["factors"][factor]["normalizations"][
                 "loadings"
-- 
2.43.0


From 1c9a7bffd96f2581e029daa51067427029a17369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 10/20] fix: allow arbitrary factor names in correlation tables

---
 skillmodels/correlation_heatmap.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 18471b4..6ac4c47 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -297,9 +297,7 @@ def _get_measurement_data_for_single_period(
     measurements = []
 
     for fac in latent_factors:
-        measurements += period_info.query(
-            f"{fac} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        measurements += _get_factor_measurements(period_info, fac)
     for fac in observed_factors:
         measurements.append(fac)
     df = data.query(f"{update_info.index.names[0]}=={period}")[measurements]
@@ -397,9 +395,7 @@ def _get_quasi_factor_scores_data_for_single_period(
     period_info = update_info.loc[period].reset_index()
     to_concat = []
     for factor in latent_factors:
-        period_factor_measurements = period_info.query(
-            f"{factor} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        period_factor_measurements = _get_factor_measurements(period_info, factor)
         df = data.query(f"{update_info.index.names[0]}=={period}")[
             period_factor_measurements
         ]
@@ -515,9 +511,7 @@ def _get_factor_scores_data_for_single_period(
     leave_out_meas = loadings_count[loadings_count > 1].index.to_list()
     to_concat = []
     for factor in latent_factors:
-        period_factor_measurements = period_info.query(
-            f"{factor} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        period_factor_measurements = _get_factor_measurements(period_info, factor)
         period_factor_measurements = [
             m for m in period_factor_measurements if m not in leave_out_meas
         ]
@@ -569,6 +563,13 @@ def _get_factor_scores_data_for_multiple_periods(
     return df
 
 
+def _get_factor_measurements(period_info, factor):
+    """Get list of measurements of a factor. Works for arbitrary factor names."""
+    is_measurement = period_info["purpose"] == "measurement"
+    selected = period_info[factor].astype(bool) & is_measurement
+    return period_info.loc[selected, "variable"].to_list()
+
+
 def _process_factors(model, factors):
     "Process factors to get a tuple of lists."
     if not factors:
-- 
2.43.0


From 96ca6e9d5cc2e382c1492f7cc45d249a6040d59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 11/20] fix: handle periods with only anchoring updates in
 filtered states

---
 skillmodels/process_debug_data.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index d7938a5..c94f094 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -125,17 +125,19 @@ def _create_filtered_states(filtered_states, log_mixture_weights, update_info, f
 
     agg_states = (filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
 
-    keep = []
-    for i, (period, measurement) in enumerate(update_info.index):
-        last_measurement = update_info.query(
-            f"purpose == 'measurement' & period == {period}"
-        ).index[-1][1]
+    periods = update_info.index.get_level_values("period")
+    is_measurement = update_info["purpose"] == "measurement"
 
-        if measurement == last_measurement:
-            keep.append(i)
+    keep = {}
+    for period in periods.unique():
+        candidates = np.flatnonzero((periods == period) & is_measurement)
+        if len(candidates) == 0:
+            # There are only anchoring updates, which do not change the states.
+            candidates = np.flatnonzero(periods == period)
+        keep[period] = candidates[-1]
 
     to_concat = []
-    for period, i in enumerate(keep):
+    for period, i in keep.items():
         df = pd.DataFrame(data=agg_states[i], columns=factors)
         df["period"] = period
         df["id"] = np.arange(len(df))
-- 
2.43.0


From 3ccf34b893b117bd9b4e78fb43869ecd6d0da755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 12/20] fix: align observed factors with states in distribution
 plots

---
 skillmodels/visualize_factor_distributions.py | 58 +++++++++----------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 9f1ee6d..64a178a 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -10,6 +10,7 @@ from plotly.subplots import make_subplots
 from scipy.stats import gaussian_kde
 
 from skillmodels.filtered_states import get_filtered_states
+from skillmodels.process_data import pre_process_data
 from skillmodels.process_model import process_model
 from skillmodels.utils_plotting import get_layout_kwargs
 from skillmodels.utils_plotting import get_make_subplot_kwargs
@@ -210,7 +211,7 @@ def univariate_densities(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     scenarios = df["scenario"].unique()
     plots_dict = {}
@@ -314,7 +315,7 @@ def bivariate_density_contours(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data=data, factors=factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     contour_kwargs = _process_contour_kwargs(
@@ -429,7 +430,7 @@ def bivariate_density_surfaces(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     layout_kwargs = _process_layout_kwargs_3d(
@@ -474,27 +475,19 @@ def bivariate_density_surfaces(
 
 def _process_data(states, period, factors, observed_states=None):
     if isinstance(states, pd.DataFrame):
-        to_concat = []
-        for fac in factors:
-            if fac in states:
-                to_concat.append(states.query(f"period == {period}")[fac])
-        data = pd.concat(to_concat, axis=1)
-        data["scenario"] = "none"
-    else:
-        if not isinstance(states, dict):
-            states = {i: df for i, df in enumerate(states)}
-        to_concat = []
-        for name, df in states.items():
-            df = df.query(f"period == {period}")[factors]
-            df["scenario"] = name
-            to_concat.append(df)
-        data = pd.concat(to_concat)
-    data = data.reset_index()
-    if observed_states is not None:
-        data = pd.concat(
-            [data, observed_states.query(f"period == {period}").reset_index()], axis=1
-        )
-    return data
+        states = {"none": states}
+    elif not isinstance(states, dict):
+        states = {i: df for i, df in enumerate(states)}
+    to_concat = []
+    for name, df in states.items():
+        df = df.query(f"period == {period}")
+        df = df[[fac for fac in factors if fac in df]].reset_index(drop=True)
+        if observed_states is not None:
+            obs = observed_states.query(f"period == {period}").reset_index(drop=True)
+            df = pd.concat([df, obs[[fac for fac in obs if fac not in df]]], axis=1)
+        df["scenario"] = name
+        to_concat.append(df)
+    return pd.concat(to_concat, ignore_index=True)
 
 
 def _process_distplot_kwargs(
@@ -622,14 +615,15 @@ def _get_factors(factors, observed_factors, model):
     return factors
 
 
-def _get_data_observed_factors(data, factors):
-    """Get data with observed factors if any."""
-    to_concat = []
-    for fac in factors:
-        if fac in data:
-            to_concat.append(data[fac])
-    if len(to_concat) >= 1:
-        observed_states = pd.DataFrame(pd.concat(to_concat))
+def _get_data_observed_factors(data, factors, model):
+    """Get data with observed factors if any.
+
+    The rows are in the same order as the rows of the filtered or simulated states.
+
+    """
+    observed = [fac for fac in factors if fac in model["labels"]["observed_factors"]]
+    if observed:
+        observed_states = pre_process_data(data, model["labels"]["periods"])[observed]
     else:
         observed_states = None
     return observed_states
-- 
2.43.0


From 5b00412f5650dcc4ac1a243a187bbb9167b5b0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 13/20] fix: do not transpose densities in contour plots

---
 skillmodels/visualize_factor_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 64a178a..8568c28 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -342,7 +342,7 @@ def bivariate_density_contours(
                 contour = go.Contour(
                     x=x[:, 0],
                     y=y[0, :],
-                    z=z,
+                    z=z.T,  # rows of z belong to y, columns to x
                     line={"color": getattr(px.colors.qualitative, lines_colorscale)[i]},
                 )
                 fig.add_trace(contour)
-- 
2.43.0


From d70e5742ae80f0834e9450e45669a1db756debfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:08 +0000
Subject: [PATCH 14/20] fix: default colour range of trimmed correlation
 heatmaps

---
 skillmodels/correlation_heatmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 6ac4c47..170904b 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -722,7 +722,10 @@ def _get_heatmap_kwargs(
 
     """
     if zmax is None:
-        zmax = np.abs(corr.to_numpy())[np.tril_indices_from(corr, k=-1)].max()
+        # corr is not square with a diagonal in the usual place if it was trimmed
+        off_diagonal = corr.index.to_numpy()[:, np.newaxis] != corr.columns.to_numpy()
+        candidates = np.abs(corr.to_numpy())[off_diagonal & corr.notnull().to_numpy()]
+        zmax = candidates.max() if len(candidates) > 0 else 1
     if zmin is None:
         zmin = -zmax
     if zmid is None:
-- 
2.43.0


From 58a2d75ad600826e508b4e02cb21fcb9e47b275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:59 +0000
Subject: [PATCH 15/20] fix: combined figures added entries to the factor
 mapping of the caller

---
 skillmodels/visualize_factor_distributions.py | 1 +
 skillmodels/visualize_transition_equations.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 8568c28..49cb9ed 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -588,6 +588,7 @@ def _process_factor_mapping_dist(mapper, factors):
     if mapper is None:
         mapper = {fac: fac for fac in factors}
     else:
+        mapper = dict(mapper)
         for fac in factors:
             if fac not in mapper:
                 mapper[fac] = fac
diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 023f1d5..fb9bd48 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -473,6 +473,7 @@ def _process_factor_mapping_trans(factor_mapper, output_factors, input_factors):
     if factor_mapper is None:
         factor_mapper = {fac: fac for fac in all_factors}
     else:
+        factor_mapper = dict(factor_mapper)
         for fac in all_factors:
             if fac not in factor_mapper:
                 factor_mapper[fac] = fac
-- 
2.43.0


From 98b7d6df00ac814eac1a2b7e6f5a4e940ad201c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:18 +0000
Subject: [PATCH 16/20] fix: density contours of the eleventh and later
 scenarios were dropped

Each scenario took its own entry of the list of ten colors; start over instead.
---
 skillmodels/visualize_factor_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 49cb9ed..f02b0a7 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -326,6 +326,7 @@ def bivariate_density_contours(
         showcolorbar,
     )
     layout_kwargs = _process_layout_kwargs(layout_kwargs)
+    colors = getattr(px.colors.qualitative, lines_colorscale)
     pairs = []
     for fac1 in factors:
         for fac2 in factors:
@@ -343,7 +344,7 @@ def bivariate_density_contours(
                     x=x[:, 0],
                     y=y[0, :],
                     z=z.T,  # rows of z belong to y, columns to x
-                    line={"color": getattr(px.colors.qualitative, lines_colorscale)[i]},
+                    line={"color": colors[i % len(colors)]},
                 )
                 fig.add_trace(contour)
                 fig.update_traces(**contour_kwargs)
-- 
2.43.0


From 58f755002a0a37fd44346cc2a918ec2bcfbeab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:44 +0000
Subject: [PATCH 17/20] fix: measurements with a loading of zero made factor
 scores infinite

---
 skillmodels/correlation_heatmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 170904b..d5fe7a0 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -512,8 +512,11 @@ def _get_factor_scores_data_for_single_period(
     to_concat = []
     for factor in latent_factors:
         period_factor_measurements = _get_factor_measurements(period_info, factor)
+        # a measurement with a loading of zero does not measure the factor
         period_factor_measurements = [
-            m for m in period_factor_measurements if m not in leave_out_meas
+            m
+            for m in period_factor_measurements
+            if m not in leave_out_meas and loadings.loc[(m, factor)] != 0
         ]
         df = data.query(f"{update_info.index.names[0]}=={period}")[
             period_factor_measurements
-- 
2.43.0


From 470b9684d2f52b63268b163284866befe7140536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:13 +0000
Subject: [PATCH 18/20] fix: estimation_options are optional, as documented

---
 skillmodels/process_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index 8379a58..82fcf6d 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -75,7 +75,7 @@ def get_dimensions(model_dict):
         "n_periods": max(all_n_periods),
         # plus 1 for the constant
         "n_controls": len(model_dict.get("controls", [])) + 1,
-        "n_mixtures": model_dict["estimation_options"].get("n_mixtures", 1),
+        "n_mixtures": model_dict.get("estimation_options", {}).get("n_mixtures", 1),
     }
     dims["n_all_factors"] = dims["n_latent_factors"] + dims["n_observed_factors"]
     return dims
-- 
2.43.0


From 5d868744466f01ad0252bc6af751264b9e231a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:11 +0000
Subject: [PATCH 19/20] fix: constant factors can have any name, as documented

---
 skillmodels/process_model.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index 82fcf6d..da4f820 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -3,7 +3,6 @@ from functools import partial
 import numpy as np
 import pandas as pd
 from dags import concatenate_functions
-from dags.signature import rename_arguments
 from jax import vmap
 from pandas import DataFrame
 
@@ -180,7 +179,7 @@ def _get_transition_info(model_dict, labels):
         if isinstance(spec, str):
             func = getattr(tf, spec)
             if spec == "constant":
-                func = rename_arguments(func, mapper={"state": factor})
+                func = _constant_at_position(all_factors.index(factor))
             func_list.append(extract_params(func, key=factor))
             param_names.append(getattr(tf, f"params_{spec}")(all_factors))
         elif callable(spec):
@@ -235,6 +234,19 @@ def _get_transition_info(model_dict, labels):
     return out
 
 
+def _constant_at_position(pos):
+    """Select the state at pos without using the name of the factor as an argument.
+
+    Factor names can be any string, not just valid python identifiers.
+
+    """
+
+    def constant(states, params):
+        return tf.constant(states[pos], params)
+
+    return constant
+
+
 def _get_update_info(model_dict, dimensions, labels, anchoring_info):
     """Construct a DataFrame with information on each Kalman update.
 
-- 
2.43.0


From 94306409f2c96d0db913cf8b5cb8e6804e91fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:27 +0000
Subject: [PATCH 20/20] fix: models with one period could be specified but not
 estimated or simulated

---
 skillmodels/constraints.py         | 4 +++-
 skillmodels/likelihood_function.py | 9 +++++++++
 skillmodels/parse_params.py        | 4 +++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/skillmodels/constraints.py b/skillmodels/constraints.py
index 4819dc6..7b1ba43 100644
--- a/skillmodels/constraints.py
+++ b/skillmodels/constraints.py
@@ -64,7 +64,9 @@ def add_bounds(params_df, bounds_distance=0.0):
         if "lower_bound" not in df.columns:
             df["lower_bound"] = -np.inf
         df.loc["meas_sds", "lower_bound"] = bounds_distance
-        df.loc["shock_sds", "lower_bound"] = bounds_distance
+        # there are no shocks if there is only one period
+        if "shock_sds" in df.index.get_level_values("category"):
+            df.loc["shock_sds", "lower_bound"] = bounds_distance
 
         cholcov_index = df.query("category == 'initial_cholcovs'").index.tolist()
         ind_tups = [tup for tup in cholcov_index if _is_diagonal_entry(tup)]
diff --git a/skillmodels/likelihood_function.py b/skillmodels/likelihood_function.py
index b846209..68b5936 100644
--- a/skillmodels/likelihood_function.py
+++ b/skillmodels/likelihood_function.py
@@ -343,6 +343,15 @@ def _scan_body(
         update_kwargs,
     )
 
+    # a model with only one period has no predict steps
+    if len(pardict["shock_sds"]) == 0:
+        new_state = {
+            "states": states,
+            "upper_chols": upper_chols,
+            "log_mixture_weights": log_mixture_weights,
+        }
+        return new_state, {"loglikes": loglikes, **info, "states": states}
+
     # ==================================================================================
     # create arguments needed for predict step
     # ==================================================================================
diff --git a/skillmodels/parse_params.py b/skillmodels/parse_params.py
index bf0bbe9..153e6d2 100644
--- a/skillmodels/parse_params.py
+++ b/skillmodels/parse_params.py
@@ -204,7 +204,9 @@ def _get_transition_params(params, info, labels):
     n_periods = len(labels["periods"])
     for factor in labels["latent_factors"]:
         ilocs = t_info[factor]
-        trans_params[factor] = params[ilocs].reshape(n_periods - 1, -1)
+        # the number of columns cannot be inferred if there is only one period
+        n_params = -1 if n_periods > 1 else 0
+        trans_params[factor] = params[ilocs].reshape(n_periods - 1, n_params)
     return trans_params
 
 
-- 
2.43.0

