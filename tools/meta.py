"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = "model_checking"
NOTE = ("Bounded: holds for every real value of the symbolic quantities within the sizes and "
        "intervals listed in the evidence. Reals stand in for floating point; float witnesses "
        "of every configuration are run through the real code as well. Trusts the symbolic "
        "models of the numpy/jax primitives in symx, the reference in checks/oracle.py and z3.")


def P(id_, title, statement, over, text, why, files, mech, technique, reason=None, note=""):
    files = [f if f.startswith("skillmodels/") else "skillmodels/" + f for f in files]
    mech = [{"name": n, "where": "skillmodels/" + w} for n, w in mech]
    return dict(id=id_, title=title, statement=statement,
                quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": files, "mechanism": mech}, technique=technique,
                reason=reason, note=note)


IN, CF, HI = "inputs", "configurations", "histories"
SYM = "symbolic execution of the real code over reals, decided by z3 / exact polynomial identity"

PROPS = [
 P("C01", "A measurement update is the exact Bayesian update of a linear Gaussian state",
   "For every prior mean, prior covariance, measurement, control variable and measurement "
   "parameter, incorporating one measurement yields the conditional mean and covariance of the "
   "state given the measurement, and the log density of the measurement under the prior. The "
   "covariance factor that is returned reproduces that covariance and stays triangular.",
   [IN], "every prior (full-rank factor), measurement value, control, loading, intercept and "
   "noise standard deviation, for 1 to 3 factors",
   "Tests compare a few hand-picked numerical cases; the identity is over a continuum of priors "
   "and parameters, and errors that vanish for the sampled cases (sign of a factor, zero "
   "loadings, non-unit controls) go unseen.",
   ["kalman_filters.py"], [("kalman_update", "kalman_filters.py")], SYM),
 P("C02", "A missing measurement leaves an individual's state untouched",
   "If a measurement of an individual is missing, its mean, covariance and mixture weights "
   "after the update equal those before and its likelihood contribution is zero. All other "
   "individuals in the same batch are updated exactly as they would be without it.",
   [IN], "every pattern of missing measurements in a batch and every value of the remaining data, "
   "state and parameters",
   "Tests use one pattern of missing values; the guarantee is over all patterns and values.",
   ["kalman_filters.py"], [("kalman_update masks non finite measurements", "kalman_filters.py")],
   SYM),
 P("C03", "Mixture weights follow Bayes' rule and stay normalized",
   "After a measurement, the weight of each mixture element is its prior weight times the "
   "density of the measurement under that element, normalized to sum to one. The likelihood "
   "contribution is the log of the weighted sum of densities.",
   [IN], "every prior weight, state, covariance, measurement and parameter for 2 and 3 elements",
   "Tests check one element or a few numeric examples; the identity is over all weights.",
   ["kalman_filters.py"], [("kalman_update with several mixtures", "kalman_filters.py")], SYM),
 P("C04", "The prediction step propagates mean and covariance of the transition",
   "The predicted mean and covariance are the weighted moments of the transition function over "
   "the deterministic set of points that represents the current distribution, plus the variance "
   "of the shocks. For linear transitions they equal the exact mean and covariance; each "
   "mixture element and individual is predicted on its own, with its own observed factors.",
   [IN, CF], "every state, covariance, observed factor value, shock variance and transition "
   "parameter, for models with 1-3 factors, 1-2 mixture elements, 1-2 individuals",
   "Tests compare with one external filter implementation on a few random linear draws, never "
   "with observed factors together with mixtures.",
   ["kalman_filters.py"], [("kalman_predict", "kalman_filters.py"),
                           ("transform_sigma_points", "kalman_filters.py")], SYM),
 P("C05", "Deterministic sample points reproduce mean and covariance",
   "The points and weights that represent a normal distribution in the prediction step have "
   "exactly its mean and covariance, the weights sum to one, and observed factors are constant "
   "across points.",
   [IN], "every mean and covariance factor, 1-4 factors, several spread parameters",
   "Tests check one numeric example of the points.",
   ["kalman_filters.py"], [("_calculate_sigma_points", "kalman_filters.py"),
                           ("calculate_sigma_scaling_factor_and_weights", "kalman_filters.py")],
   SYM),
 P("C06", "Transition functions compute the documented formula by parameter name",
   "Each built-in transition function equals its documented formula when its parameters are "
   "matched by their published names, for every state and parameter vector. The robust translog "
   "is the translog of states that are limited to +-1e12.",
   [IN, CF], "every state and parameter value, 1-4 factors, all built-in functions",
   "Tests evaluate each function at one point with coefficients that hide permutations.",
   ["transition_functions.py"], [("parameter name lists and functions",
                                  "transition_functions.py")], SYM),
 P("C07", "The law of motion of a model uses each factor's own function and arguments",
   "In every model, the next value of each latent factor is computed by the function chosen for "
   "that factor, from the factor values bound by name and from the parameters of that factor "
   "and period; user-defined functions receive their arguments by name in any order.",
   [IN, CF], "every state and parameter value across models that mix built-in and user-defined "
   "functions, observed factors and factor orders",
   "Tests only inspect the shape of the assembled function for one model.",
   ["process_model.py", "parse_params.py"], [("_get_transition_info", "process_model.py")], SYM),
 P("C08", "Anchoring puts the law of motion into units of the outcome and back",
   "With anchoring, factors enter the transition function scaled and shifted by the loading and "
   "intercept of their own outcome in that period, and results are converted back with those of "
   "the next period; factors without an outcome are unaffected. The same holds for the "
   "conversion of estimated or simulated states into anchored units.",
   [IN, CF], "every state and parameter value over all combinations of anchored factors, order "
   "of outcomes, shared outcomes, free or fixed intercepts",
   "Tests cover one anchored factor with one outcome.",
   ["process_model.py", "parse_params.py", "kalman_filters.py", "filtered_states.py"],
   [("_process_anchoring", "process_model.py"),
    ("_get_anchoring_scaling_factors", "parse_params.py"),
    ("anchor_states_df", "filtered_states.py")], SYM),
 P("C09", "Every parameter is used exactly where its label says",
   "The parameter table has exactly one entry per model quantity, and the value in a row is used "
   "for the category, period, equation and factor its label names, and nowhere else. This holds "
   "for any factor, measurement and control names.",
   [IN, CF], "every value of all parameters over models with shared measurements, missing "
   "periods, mixtures, anchoring and unusual names",
   "Tests check shapes and a handful of entries of one model.",
   ["params_index.py", "parse_params.py"], [("get_params_index", "params_index.py"),
                                            ("create_parsing_info", "parse_params.py"),
                                            ("parse_params", "parse_params.py")], SYM),
 P("C10", "The order of rows in the parameter table does not matter",
   "Passing the same parameters in any row order, with extra columns, gives the same likelihood "
   "and simulated laws; a table that lacks required rows or holds superfluous ones is refused "
   "or completed as documented, never misassigned.",
   [IN, CF], "every parameter value and several row permutations, missing and extra rows",
   "Tests always pass tables in the order in which the package generates them.",
   ["likelihood_function.py", "simulate_data.py"],
   [("_get_jnp_params_vec", "likelihood_function.py")], SYM),
 P("C11", "Constraints admit exactly the parameter vectors the specification describes",
   "A parameter vector satisfies all returned constraints if and only if it respects the "
   "normalizations, stages, fixed anchoring parameters, constant factors, mixture weights and "
   "identification rules of the specification.",
   [IN, CF], "every parameter vector over models with normalizations, stages, mixtures, anchoring "
   "and production functions with parameter restrictions",
   "Tests compare lists of constraints for one setup at a time; the set of admitted vectors is "
   "never characterized.",
   ["constraints.py"], [("get_constraints", "constraints.py")],
   "constraint lists turned into z3 formulas; equivalence with an independent description"),
 P("C12", "Bounds keep variances positive and restrict nothing else",
   "Lower bounds are put on all standard deviations and on the diagonal of the initial "
   "covariance factors, at the requested distance from zero, and on no other parameter.",
   [IN, CF], "every distance and every model of the family, including unusual factor names",
   "Tests check one small table.",
   ["constraints.py"], [("add_bounds", "constraints.py")], SYM),
 P("C13", "The likelihood is the sum of the filter's steps over individuals and periods",
   "The log likelihood equals the recursion that starts at the initial distribution, updates "
   "with every measurement of a period, weights, predicts to the next period and repeats; for "
   "small linear models it equals the log density of the data under the joint normal "
   "distribution that the model implies.",
   [IN, CF, HI], "every data and parameter value of small models with all combinations of "
   "controls, observed factors, anchoring, mixtures and uneven numbers of measurements",
   "Tests pin a single number for a few large models; errors that change values would have to "
   "be in that single number.",
   ["likelihood_function.py"], [("_log_likelihood_jax", "likelihood_function.py"),
                                ("_scan_body", "likelihood_function.py")], SYM),
 P("C14", "Individuals are independent of each other",
   "The likelihood contribution and the states of an individual depend on the data of that "
   "individual only: changing, dropping, adding or reordering other individuals leaves them "
   "unchanged.",
   [IN, CF], "every data value and parameter for 2-3 individuals",
   "Tests never vary the composition of the sample.",
   ["likelihood_function.py", "kalman_filters.py"],
   [("batched filter", "likelihood_function.py")], SYM),
 P("C15", "Clipping of contributions follows the documented rule",
   "Soft clipping is monotone, close to the identity inside the bounds and bounded outside, as "
   "the documented formula states; the likelihood sums the clipped contributions with the "
   "configured bounds and hardness (hardness 1 and no upper bound unless configured), and "
   "disabled bounds change nothing.",
   [IN, CF], "every contribution and every bound and hardness",
   "Tests evaluate one array.",
   ["clipping.py", "likelihood_function.py"], [("soft_clipping", "clipping.py")], SYM),
 P("C16", "Debug output reports the filter's quantities under the right labels",
   "Residuals, their standard deviations, contributions and states reported for a measurement, "
   "period, individual and mixture element are those the filter computed at that step; a missing "
   "measurement has no residual.",
   [IN, CF], "every value of states and contributions over models with mixtures and several "
   "measurements per period",
   "Tests only check one model without mixtures.",
   ["process_debug_data.py", "likelihood_function.py"],
   [("process_debug_data", "process_debug_data.py")], SYM),
 P("C17", "Data reach the filter at the right individual, period and variable",
   "However the panel is presented (row order, identifiers, period labels, absent rows, surplus "
   "rows, filtered frames), every cell is used for its own individual, period and variable, and "
   "cells that are absent count as missing.",
   [IN, CF], "every cell value over nine presentations of the same panel and ten model structures",
   "Tests use one balanced or slightly unbalanced frame with generic labels.",
   ["process_data.py"], [("pre_process_data", "process_data.py")], SYM),
 P("C18", "A missing control only discards the measurements of its own row",
   "If a control variable of an individual is missing in a period, only that individual's "
   "measurements of that period are ignored; all other data of the individual and of others, "
   "including observed factors, are used, and the likelihood stays finite.",
   [IN, CF], "every pattern of missing controls and every data and parameter value",
   "Tests check a table with a single period and no observed factors.",
   ["process_data.py"], [("_handle_controls_with_missings", "process_data.py")], SYM),
 P("C19", "Unusable data are refused, usable data are accepted",
   "Estimation is refused with an error if and only if a needed variable is absent, a "
   "measurement does not vary, a control is missing entirely in a period or an observed factor "
   "has missing values; simulation needs controls and observed factors only, "
   "and no data set at all if the model has neither.",
   [IN, CF], "every coincidence of values of 3-4 cells; every gap at every variable and period",
   "Tests never exercise the refusals.",
   ["process_data.py"], [("_check_data", "process_data.py")], SYM),
 P("C21", "Simulated data follow the model's equations",
   "Every simulated data set is generated by the model: initial states are draws from the initial "
   "distribution of the drawn mixture element, later states are the transition functions of the "
   "previous states and observed factors plus a shock with the model's standard deviation, and "
   "every measurement is its control part plus loadings times states plus noise with its "
   "standard deviation, each with a draw of its own.",
   [IN, CF], "every parameter, control, observed factor and random draw, for small models",
   "Tests only check shapes or one noiseless measurement equation; which parameters and which "
   "draws enter which equation is invisible in sampled output.",
   ["simulate_data.py"], [("simulate_dataset", "simulate_data.py")],
   SYM + "; random generators replaced by symbolic draws"),
 P("C22", "A policy shifts exactly its factor after its period",
   "A policy in a period before the last adds its effect (plus noise of its standard deviation) "
   "to its own factor in that period and to nothing else; everything after follows from the "
   "model's equations. Policies on the same factor add up, none means no change, and a negative "
   "standard deviation is refused.",
   [IN, CF], "every effect size, standard deviation, draw and parameter; 0 to 3 policies",
   "Tests use one policy and compare means of one draw.",
   ["simulate_data.py"], [("_get_shock", "simulate_data.py")],
   SYM + "; random generators replaced by symbolic draws"),
 P("C25", "Filtered states are the estimates after a period, in both units",
   "The filtered states of an individual and period are the weighted average of the updated "
   "mixture means at the end of that period; the anchored version is their conversion with the "
   "parameters of that period, and reported ranges are the minima and maxima per period.",
   [IN, CF], "every data and parameter value of small models",
   "Tests compare shapes or one stored data set.",
   ["filtered_states.py", "process_debug_data.py"],
   [("get_filtered_states", "filtered_states.py"),
    ("_create_filtered_states", "process_debug_data.py")], SYM),
 P("C20", "Invalid specifications are refused and valid ones become the model they describe",
   "A specification with a stagemap of the wrong length or with stages that do not start at 0 "
   "and grow by at most one, a normalized loading of zero, a normalization of a variable that "
   "does not measure that factor in that period, or entries of the wrong type (flags, outcome "
   "and measurement names, lists of measurements and normalizations, unknown transition "
   "functions) is refused. Every other specification is accepted, and the processed model has "
   "the periods, stages, factors, controls, normalizations and measurement system that were "
   "specified.",
   [IN, CF], "every sequence of integer stages, every value of a normalization, every model "
   "structure of the family",
   "Tests check a handful of invalid specifications and compare one processed model.",
   ["check_model.py", "process_model.py"],
   [("check_model", "check_model.py"), ("check_stagemap", "check_model.py"),
    ("process_model", "process_model.py")],
   SYM + "; stages are symbolic integers"),
 P("C23", "Editing a specification changes only what was asked for and keeps parameters",
   "Removing or extracting factors, removing measurements or controls, switching between linear "
   "and translog and reducing the number of periods give the specification without the removed "
   "parts and with everything else as it was. Parameters that are passed along keep their values "
   "wherever the new model still has them; the new table has exactly the parameters of the new "
   "model. Updating parameter values changes exactly the rows both tables have, later tables "
   "winning.",
   [IN, HI], "every parameter value and row order; single edits and sequences of edits on many "
   "model structures",
   "Tests apply each edit once to one model and check one or two entries.",
   ["utilities.py"],
   [("remove_factors", "utilities.py"), ("reduce_n_periods", "utilities.py"),
    ("update_parameter_values", "utilities.py")], SYM),
 P("C24", "Calls leave their arguments alone and do not depend on earlier calls",
   "Building and evaluating the likelihood, filtering, simulating, editing specifications, "
   "computing correlations, plotting and combining figures do not change the model "
   "specification, the parameters, the data, the states, the policies, figures or other arguments "
   "they get; changing what an edit "
   "returned does not reach into its input. Results depend on what the arguments hold at the "
   "call: evaluating the likelihood again, after other evaluations or after tables, data or "
   "specifications were changed in place, gives the same result as in a fresh session.",
   [HI, IN], "every parameter and data value, sequences of calls on several model structures",
   "Tests build fresh inputs for each call and look at return values only.",
   ["likelihood_function.py", "process_data.py", "simulate_data.py", "utilities.py"],
   [("get_maximization_inputs", "likelihood_function.py"), ("pre_process_data", "process_data.py"),
    ("simulate_dataset", "simulate_data.py"), ("reduce_n_periods", "utilities.py")], SYM),
 P("C26", "Plotted transition equations are the transition functions of the model",
   "For each combination of an input and an output factor, the plotted curve is the transition "
   "function of the output in the chosen period with that period's parameters, over a grid from "
   "the lower to the upper end of the input's range in that period, with the other factors at "
   "the requested quantiles of their states in that period or averaged over all individuals. "
   "Periods without a transition are refused. In the combined figure, each cell holds the plot of "
   "the output of its row and the input of its column under the right labels.",
   [IN, CF], "every state, observed factor, range and parameter of small models, every quantile "
   "and period listed in the evidence",
   "Tests only run the function and look at the number of plots.",
   ["visualize_transition_equations.py"],
   [("get_transition_plots", "visualize_transition_equations.py")],
   SYM),
 P("C27", "The gradient is the derivative of the log likelihood and is finite",
   "Gradient and jacobian that are handed to optimizers are the derivative of the value with "
   "respect to each parameter, in the order of the parameter table, whatever the row order of "
   "the parameters passed in. They are finite in the presence of missing measurements, and all "
   "interfaces (value, gradient, both at once) agree.",
   [IN, CF], "every parameter and data value of small models, every pattern of missing cells in "
   "the bounds",
   "Tests evaluate the gradient for a few models at one point each; NaN gradients through masked "
   "branches appear only for particular patterns of missing values.",
   ["likelihood_function.py", "kalman_filters.py"],
   [("kalman_update masks invalid measurements", "kalman_filters.py"),
    ("gradient", "likelihood_function.py")],
   "the gradient program of jax is executed symbolically and compared with the symbolic "
   "derivative of the value, decided by z3 / exact polynomial identity"),
 P("C28", "Reported correlations are those of the named variables",
   "The correlation tables of measurements, quasi scores and scores hold the Pearson correlation "
   "of the variables, periods and individuals their labels name, using all individuals observed "
   "in both; scores are means of (measurement - intercept) / loading with the parameters of that "
   "period. The heatmap shows exactly the requested entries in the right cells; unless given, its "
   "colour range is symmetric and ends at the largest absolute correlation between different "
   "variables that is shown.",
   [IN, CF], "every data and parameter value, selections of factors and periods, row orders and "
   "missing cells in the bounds",
   "Tests compare two stored data sets in standard order.",
   ["correlation_heatmap.py"],
   [("get_measurements_corr", "correlation_heatmap.py"),
    ("get_scores_corr", "correlation_heatmap.py"),
    ("plot_correlation_heatmap", "correlation_heatmap.py")],
   SYM),
 P("C29", "Density plots show the states of the factors, period and individuals they name",
   "Univariate and bivariate densities of filtered, simulated or given states are estimated from "
   "exactly the states of the named factors in the requested period, one value per individual and "
   "scenario, with latent and observed factors of the same individual paired; bivariate densities "
   "are shown at the grid points from the smallest to the largest value at which they were "
   "evaluated. In the combined figure each cell holds the plot of the factors of its row and "
   "column.",
   [IN, CF], "every state and observed factor, selections of factors, orders of the data, "
   "scenarios and figure layouts in the bounds",
   "Tests only run the plotting code, with one observed factor at most and data that are already "
   "sorted and balanced.",
   ["visualize_factor_distributions.py"],
   [("univariate_densities", "visualize_factor_distributions.py"),
    ("bivariate_density_contours", "visualize_factor_distributions.py"),
    ("combine_distribution_plots", "visualize_factor_distributions.py")],
   SYM + "; kernel density estimators are replaced by a polynomial that identifies its input"),
]

NOT_APPLICABLE = [
 P("N01", "Filtering stays accurate in floating point",
   "In double precision, the square-root filter keeps covariance factors finite and relative "
   "errors of states and likelihoods small for every well-posed model, however many updates.",
   [IN], "every data set and parameter vector, long panels",
   "Rounding errors build up only for particular magnitudes and long sequences.",
   ["kalman_filters.py"], [("square-root updates", "kalman_filters.py")], None,
   reason="The reference semantics of the checks are exact reals. Bit-precise floating point "
   "through QR factorizations, exp and log of 30-100 chained operations on 64 bit floats is far "
   "beyond z3, cvc5 and cbmc (a single 64 bit division chain times out), and the transcendental "
   "functions have no bit-precise definition in the code under test."),
 P("N02", "Simulated draws have the distributions of the model",
   "Initial states, shocks and measurement errors of simulated data are independent draws from "
   "the normal distributions (or mixtures) of the model.",
   [IN], "every seed and sample size",
   "A sample can only be tested statistically.",
   ["simulate_data.py"], [("generate_start_states", "simulate_data.py")], None,
   reason="The distribution of numpy's random generator is a property of compiled library code "
   "over its 2^n states, not of this repository; C21 and C22 decide how draws are used, with the "
   "arguments given to the generator."),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS + NOT_APPLICABLE, key=lambda p: p["id"]):
            f.write(json.dumps({k: p[k] for k in (
                "id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    man = {
        "version": 1, "setup_cmd": "true",
        "checks": [dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}",
                        thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                        technique=p["technique"], level=LEVEL,
                        level_note=NOTE + (" " + p["note"] if p["note"] else ""))
                   for p in sorted(PROPS, key=lambda p: p["id"])],
        "not_applicable": [dict(property=p["id"], reason=p["reason"]) for p in NOT_APPLICABLE],
        "notes": "No hooks in /repo: the real functions are executed on symbolic values as is.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
