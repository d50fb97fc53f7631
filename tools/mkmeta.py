#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, output is committed)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pylogit/"
MODELS = [S + f for f in ("conditional_logit.py", "asym_logit.py", "clog_log.py", "scobit.py", "uneven_logit.py",
                          "nested_logit.py", "mixed_logit.py")]
BOOT = [S + f for f in ("bootstrap.py", "bootstrap_sampler.py", "bootstrap_utils.py", "bootstrap_mle.py", "bootstrap_calcs.py",
                        "bootstrap_abc.py")]

P = []


def p(pid, title, statement, over, qtext, why, files, mech, observe, technique, note):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note))


p("P01", "Predicted probabilities follow each model's definition",
  "For every one of the seven model types, the probabilities returned by prediction (long format, chosen alternatives, or both; for "
  "one parameter vector or several at once; on estimation data or new data, given as a frame or a file; with given or estimated "
  "parameters) equal the closed-form choice probabilities that define the model, row by row, in the order of the rows supplied.",
  ["inputs", "configurations"],
  "all well-formed data sets (any number of alternatives, varying choice sets, row orders, id and dtype styles), specifications, "
  "nesting structures, shape/intercept references and parameter values of ordinary magnitude",
  "The unit tests use one five-row data set, one specification per model and a couple of parameter vectors, mostly computed by the "
  "same formulas; varying choice sets, row orders, several parameter columns and new data are hardly touched.",
  MODELS + [S + "choice_calcs.py", S + "nested_choice_calcs.py", S + "mixed_logit_calcs.py", S + "base_multinomial_cm_v2.py"],
  [("calc_probabilities / calc_nested_probs / calc_mixed probabilities", S + "choice_calcs.py, nested_choice_calcs.py"),
   ("utility transforms per model", "split_param_vec / *_utility_transform in each model module"),
   ("predict", S + "base_multinomial_cm_v2.py, nested_logit.py, mixed_logit.py")],
  ["predict()", "long_fitted_probs / fitted_probs after estimation"],
  "property-based testing (Hypothesis) against an independent pure-Python reference model",
  "random exploration; bounded data sizes (<=8 observations, <=4 alternatives)")
p("P02", "Predictions are valid distributions at any parameter magnitude",
  "For any finite data and parameters, however large, the predicted probabilities of each choice situation are finite, lie between 0 and "
  "1 and sum to one over its available alternatives, chosen probabilities equal the corresponding rows, and log-likelihoods stay finite "
  "and non-positive. Of two alternatives of one choice situation that differ only in systematic utility, the better one never gets the "
  "lower probability.",
  ["inputs"], "parameters from ordinary size up to 1e9 times that, for all model types and data sets",
  "Overflow behaviour depends on which exponent, shape, nest or draw saturates first; tests sample a few hand-made extreme values.",
  [S + "choice_calcs.py", S + "nested_choice_calcs.py", S + "scobit.py", S + "asym_logit.py", S + "uneven_logit.py", S + "clog_log.py"],
  [("overflow/underflow guards", "utility transforms and probability functions")], ["predict()"],
  "property-based testing: invariants (range, normalisation, weak monotonicity) over extreme magnitudes",
  "random exploration; weak monotonicity with tolerance 1e-9")
p("P03", "Predictions do not depend on labels, row order or unrelated observations",
  "Shuffling rows, changing the index, the column order, the column names, the observation ids or (order-preservingly) the alternative ids "
  "merely relabels predictions and leaves the log-likelihood unchanged, and the prediction for a choice situation does not depend on which "
  "other choice situations are in the data. In the logit-kernel models adding the same amount to all alternatives' utilities changes "
  "nothing, and in the multinomial logit removing an alternative leaves the ratios of the others unchanged.",
  ["inputs", "configurations"], "all data sets, permutations, relabelings, subsets and model types",
  "Every test uses one fixed row order and consecutive ids; a dependence on ordering, dtype or id values passes all of them.",
  [S + "choice_tools.py", S + "base_multinomial_cm_v2.py"] + MODELS,
  [("id-to-row mapping matrices", S + "choice_tools.py create_long_form_mappings"), ("design creation", S + "choice_tools.py create_design_matrix")],
  ["predict()", "log-likelihood"],
  "metamorphic property-based testing (permutation, relabelling, restriction, shift, IIA)", "random exploration")
p("P04", "The log-likelihood is the weighted, penalised sum over observations",
  "For every model, parameter vector, observation weighting and ridge penalty, the log-likelihood that is maximised (and the final and "
  "null log-likelihoods reported after estimation) equals the sum over observations (decision makers, for panel mixed logit) of weight "
  "times log probability of the observed choice(s), minus the documented penalty.",
  ["inputs", "configurations"], "all data sets, parameters, non-negative weights, ridge values and model types",
  "Tests check one parameter vector per model on one data set, mostly without weights.",
  [S + "choice_calcs.py", S + "nested_choice_calcs.py", S + "mixed_logit_calcs.py", S + "estimation.py"],
  [("log-likelihood functions", "calc_log_likelihood, calc_nested_log_likelihood, calc_mixed_log_likelihood"),
   ("null log-likelihood", S + "estimation.py estimate()")],
  ["convenience_calc_log_likelihood", "llf, null_log_likelihood"],
  "property-based testing against an independent reference likelihood", "random exploration")
p("P05", "Gradients equal the derivative of the log-likelihood",
  "For every model, data set, parameter vector, weighting and ridge penalty, the analytic gradient used in estimation equals the exact "
  "derivative of the log-likelihood with respect to each parameter, except that entries of parameters held fixed are zero.",
  ["inputs", "configurations"], "all data sets, models, parameters, weights, ridge values and fixed-parameter sets",
  "A chain-rule error in a branch (a reference alternative, a saturated exponent, an empty nest, a weight) shows only for data that "
  "reaches it; tests evaluate one point.",
  [S + "choice_calcs.py", S + "nested_choice_calcs.py", S + "mixed_logit_calcs.py"] + MODELS,
  [("gradient functions", "calc_gradient, calc_nested_gradient, calc_mixed_gradient"), ("per-model derivative functions", "*_transform_deriv_*")],
  ["convenience_calc_gradient"],
  "property-based testing; oracle: forward-mode automatic differentiation of the reference likelihood", "random exploration; tolerance 1e-6 relative")
p("P06", "Hessian and information matrices match their definitions",
  "For every model, data set, parameter vector, weighting and penalty the second-derivative matrix used for standard errors is symmetric "
  "and equals its definition: minus the expected information (the exact second derivative for the multinomial logit) or, for nested and "
  "mixed logit, minus the sum of outer products of scores. For the logit-type models the reported Fisher information equals the weighted sum "
  "of score outer products.",
  ["inputs", "configurations"], "all data sets, models, parameters, weights and (non-negative) penalties",
  "Tests evaluate one point on one tiny data set.",
  [S + "choice_calcs.py", S + "nested_choice_calcs.py", S + "mixed_logit_calcs.py", S + "estimation.py"],
  [("hessian", "calc_hessian, calc_bhhh_hessian_approximation*"), ("fisher information", "calc_fisher_info_matrix")],
  ["convenience_calc_hessian", "convenience_calc_fisher_approx", "cov, robust_cov"],
  "property-based testing; oracle: score outer products from automatic differentiation", "random exploration")
p("P07", "Estimation returns a maximum of the stated criterion",
  "Whatever optimiser, start values, weights, ridge penalty or fixed parameters are used, estimation never ends with a lower criterion than "
  "it started with, reports parameters whose log-likelihood and gradient are those reported, and has a vanishing (free) gradient whenever it "
  "reports convergence; for the multinomial logit the estimates are the unique maximum.",
  ["inputs", "configurations", "programs"], "all estimable data sets and estimation options of all seven models",
  "Tests compare with stored estimates for one data set per model with default options.",
  [S + "estimation.py", S + "base_multinomial_cm_v2.py"] + MODELS,
  [("estimate", S + "estimation.py"), ("fit_mle", "each model module")], ["fit_mle results"],
  "property-based testing against an independent damped-Newton maximiser and first-order conditions", "random exploration; ill-conditioned cases skipped")
p("P08", "Parameters held fixed keep their start values exactly",
  "Every parameter listed as constrained at estimation keeps exactly its start value in the reported estimates, whichever model and "
  "gradient-based optimiser is used, whatever the order of the list, while the others are optimised given those values.",
  ["inputs", "configurations"], "all models, constrained subsets, start values and gradient-based optimisers",
  "Tests constrain one parameter once with the default optimiser.",
  [S + "estimation.py", S + "choice_calcs.py"],
  [("constrained_pos handling", S + "estimation.py EstimationObj / estimate")], ["params after fit_mle"],
  "property-based testing: exact invariance of constrained entries + constrained optimum reference", "random exploration")
p("P09", "Reported statistics are consistent with the estimates",
  "After any estimation, every reported statistic (standard errors, t-statistics, p-values, their robust variants, covariance matrices, "
  "confidence intervals, rho-squared values, AIC, BIC, degrees of freedom, residuals, individual chi-squares and the summary tables) is the "
  "textbook function of the estimates, log-likelihoods, hessian and score products, attached to the right parameter name.",
  ["inputs", "configurations"], "all models, data sets, options, name styles, alpha levels and coefficient selections",
  "Tests check tables on one fitted example and formulas on mocks.",
  [S + "base_multinomial_cm_v2.py", S + "estimation.py", S + "display_names.py"],
  [("_store_fit_results and its helpers", S + "base_multinomial_cm_v2.py"), ("convert_cov / get_statsmodels_summary / conf_int / print_summaries", S + "base_multinomial_cm_v2.py")],
  ["attributes and tables after fit_mle"],
  "property-based testing: recomputation of every reported quantity from first principles", "random exploration")
p("P10", "Integer weights are equivalent to replicating observations",
  "Estimating or evaluating any model with integer observation weights gives the same criterion, derivatives, information matrices and "
  "estimates as using each observation that many times, weight zero removes an observation, unit weights equal no weights, and all are "
  "linear in the weights.",
  ["inputs"], "all data sets, models and weight vectors",
  "No test estimates with weights and compares with replicated data.",
  [S + "choice_calcs.py", S + "nested_choice_calcs.py", S + "mixed_logit_calcs.py", S + "estimation.py"],
  [("weights argument", "all calc_* functions and fit_mle")], ["criterion and derivatives", "fit_mle(weights=)"],
  "metamorphic property-based testing (weighting vs physical replication)", "random exploration")
p("P11", "The design matrix realises the specification",
  "For every data set and every specification (generic variables, alternative-specific ones, arbitrary groups of alternatives, intercepts, "
  "custom names), each column of the design contains the variable's value in exactly the rows of the alternatives it was specified for and "
  "zero elsewhere, columns follow the order of the specification, and each carries its specified or documented default name.",
  ["inputs", "configurations"], "all data sets and specifications",
  "Tests use a couple of fixed specifications on one frame.",
  [S + "choice_tools.py"], [("create_design_matrix", S + "choice_tools.py"), ("spec/name checks", S + "choice_tools.py, " + S + "base_multinomial_cm_v2.py")],
  ["create_design_matrix", "model.design, model.ind_var_names"],
  "property-based testing: cell-by-cell comparison with a reference", "random exploration")
p("P12", "Row mappings exactly reflect ids, choices and nests",
  "For every data set in any row order, the mappings from rows to observations, alternatives, chosen rows, nests and decision makers have a "
  "one exactly where the row belongs to the column's id and zero elsewhere, with columns in the documented order, and sparse and dense "
  "versions agree.",
  ["inputs"], "all long-format data sets, row orders, id values and nestings",
  "Tests use a handful of sorted ids.",
  [S + "choice_tools.py", S + "base_multinomial_cm_v2.py", S + "nested_logit.py"],
  [("create_long_form_mappings / create_sparse_mapping", S + "choice_tools.py"), ("get_mappings_for_fit", S + "base_multinomial_cm_v2.py")],
  ["mapping matrices"], "property-based testing: incidence computed row by row", "random exploration")
p("P13", "Wide-to-long conversion preserves every value",
  "Converting any valid wide data set to long format yields exactly one row per observation and available alternative, carrying the "
  "observation's individual variables, that alternative's value of each alternative-specific variable, and a choice indicator that is one "
  "exactly for the chosen alternative, whatever the order of the arguments, rows, ids or columns.",
  ["inputs"], "all valid wide data sets and argument orders",
  "Tests convert one frame with arguments listed in one order.",
  [S + "choice_tools.py"], [("convert_wide_to_long", S + "choice_tools.py")], ["returned frame"],
  "property-based testing: cell-by-cell comparison with a reference conversion", "random exploration")
p("P14", "Long-to-wide conversion preserves every value and round-trips",
  "Converting any valid long data set to wide format yields exactly one row per observation with its choice, availabilities, individual "
  "variables and each alternative's variable values (the stated null value where unavailable), whatever the row order, and converting "
  "back and forth returns the original data.",
  ["inputs"], "all valid long data sets, row orders, variable partitions, null values and names",
  "Tests convert one sorted frame.",
  [S + "choice_tools.py"], [("convert_long_to_wide", S + "choice_tools.py")], ["returned frame"],
  "property-based testing: reference conversion and round trips", "random exploration")
p("P15", "Malformed requests are rejected, well-formed ones accepted",
  "A request that violates a documented requirement of construction, estimation, prediction, data conversion, bootstrap or saving raises an "
  "error instead of returning a wrong answer, wherever in the input the violation is; the same request without the violation succeeds. "
  "A rejected request leaves the user's data and the model as they were.",
  ["inputs", "configurations"], "all valid inputs combined with one malformation (87 kinds) at any position",
  "Each validation is tested with one malformed value at one position, and acceptance of unusual valid input hardly at all.",
  [S + "choice_tools.py", S + "base_multinomial_cm_v2.py", S + "pylogit.py", S + "nested_logit.py", S + "mixed_logit.py", S + "estimation.py"] + BOOT,
  [("ensure_*/check_* validators", "all modules")], ["exceptions"],
  "property-based testing: valid input + single injected malformation", "random exploration")
p("P16", "Mixed logit simulation draws are seeded, normal and integrate correctly",
  "Simulation draws are standard normal, independent across decision makers and coefficients, one set per decision maker in documented "
  "order, and a function of the seed alone; simulated probabilities and likelihoods converge to the exact integrals over the random "
  "coefficients.",
  ["inputs", "configurations"], "all numbers of units, draws, coefficients and seeds; all mixed logit models",
  "Tests look at shapes and one seed.",
  [S + "mixed_logit_calcs.py", S + "mixed_logit.py"], [("get_normal_draws, create_expanded_design_for_mixing, panel probabilities", S + "mixed_logit_calcs.py")],
  ["get_normal_draws", "predict/fit_mle with seed"],
  "property-based testing; oracles: statistical tests at >=6.5 sd, Gauss-Hermite quadrature", "random exploration; statistical bounds with false-alarm rate < 1e-6")
p("P17", "Panel prediction conditions on each person's own past choices",
  "Panel prediction for a decision maker seen in estimation averages choice probabilities over that person's draws weighted by how well each "
  "draw explains that person's own observed choices, uses unweighted draws for people not seen, and is unaffected by the order of people or "
  "the presence of others.",
  ["inputs"], "all estimated mixed logit models and new data sets with known, unknown and mixed decision makers in any order",
  "Tests use one fixed panel with people in estimation order.",
  [S + "mixed_logit.py", S + "mixed_logit_calcs.py"], [("panel_predict", S + "mixed_logit.py")], ["panel_predict()"],
  "property-based testing against a log-space posterior reference", "random exploration")
p("P18", "Bootstrap samples are stratified, uniform, reproducible and faithful",
  "Every bootstrap sample draws, with replacement and uniformly, from the observations that chose each alternative exactly as many "
  "observations as originally chose it, is a function of the seed, and the resampled data set contains for every draw a complete, unaltered "
  "copy of all of that observation's rows under its own new id.",
  ["inputs"], "all long data sets, row orders, numbers of samples and seeds",
  "Tests check one data set and one seed.",
  [S + "bootstrap_sampler.py"], [("create_cross_sectional_bootstrap_samples, create_bootstrap_dataframe", S + "bootstrap_sampler.py")],
  ["sampled ids and frames"], "property-based testing: invariants, frequencies (7.5 sd) and cell-by-cell comparison", "random exploration")
p("P19", "Bootstrap and jackknife replicates are refits on the resampled data",
  "Each bootstrap (jackknife) replicate equals the estimate obtained by fitting the same model, with the same options, to the corresponding "
  "resampled (leave-one-out) data, replicates are stored with the right parameter labels in order, and the replicate log-likelihoods and "
  "gradient norms are those of the replicates on the original data.",
  ["inputs", "configurations"], "all estimable data sets, models supported by the bootstrap, seeds and estimation options",
  "Tests mock most of the estimation.",
  BOOT, [("generate_bootstrap_replicates, generate_jackknife_replicates, calc_log_likes_for_replicates", S + "bootstrap.py"),
         ("retrieve_point_est", S + "bootstrap_mle.py")],
  ["Boot replicates"], "differential property-based testing against independent refits", "random exploration")
p("P20", "Percentile and BCa intervals are the documented order statistics",
  "For every array of replicates and every level, percentile and bias-corrected accelerated interval ends are the order statistics given by "
  "their definitions, hence equivariant under monotone maps, invariant to replicate order and nested in the level, and the interval tables "
  "label each end, level, method and parameter correctly.",
  ["inputs"], "all replicate arrays, estimates, jackknife values and levels",
  "Tests check one array against one published example.",
  [S + "bootstrap_calcs.py", S + "bootstrap.py", S + "bootstrap_utils.py"], [("calc_percentile_interval, calc_bca_interval", S + "bootstrap_calcs.py"), ("calc_conf_intervals", S + "bootstrap.py")],
  ["interval arrays and tables"], "property-based testing against reference order statistics; metamorphic relations", "random exploration")
p("P21", "ABC intervals follow the published approximation",
  "For multinomial logit models the approximate bootstrap confidence interval of each parameter equals the published formula evaluated at the "
  "weighted maximum-likelihood estimator's influence values, for every data set, level, weighting and ridge, directly or via the interval table.",
  ["inputs"], "all well-conditioned data sets, levels, perturbation sizes and estimation options",
  "Tests compare with stored numbers for one data set.",
  [S + "bootstrap_abc.py", S + "bootstrap.py"], [("calc_abc_interval and its ingredients", S + "bootstrap_abc.py")],
  ["calc_abc_interval", "calc_conf_intervals"], "differential property-based testing against an independent implementation", "random exploration; tolerance 0.2 % of interval length")
p("P22", "Results depend only on the current inputs, and inputs are never altered",
  "For any sequence of operations on a model (estimations, predictions, reports, bootstraps, conversions, rejected calls, use of other models), "
  "each result equals that of a freshly built model given only the latest estimation's inputs, regardless of global random state, and no "
  "user-owned data, parameter array or option object is modified (except the documented addition of an intercept column).",
  ["histories", "inputs"], "all operation sequences on all model types",
  "Tests call each method once on a new object.",
  [S + "base_multinomial_cm_v2.py", S + "estimation.py", S + "choice_tools.py"] + MODELS,
  [("model state", "attributes set by fit_mle and _store_fit_results"), ("copying of user data", S + "choice_tools.py, " + S + "base_multinomial_cm_v2.py")],
  ["all results along a history"], "stateful property-based testing against a fresh-object model", "random exploration of histories up to 8 operations")
p("P23", "A saved model behaves like the original",
  "Saving any model (estimated or not) to a file and loading it gives an object whose reported results are equal and whose later predictions, "
  "estimations and reports are the same as the original's; saving does not change the original and always ends in the documented file name.",
  ["inputs", "histories"], "all models, estimation options, file names and later operations",
  "Tests pickle one model and compare two attributes.",
  [S + "base_multinomial_cm_v2.py", S + "nested_logit.py", S + "mixed_logit.py"], [("to_pickle", S + "base_multinomial_cm_v2.py"), ("__getstate__/__setstate__ or picklable attributes", "model modules")],
  ["loaded object"], "property-based testing: save/load round trip then differential operations", "random exploration; files live in a temporary directory")
p("P24", "Models coincide where theory says they must",
  "Each flexible model gives the same probabilities and likelihood as the multinomial logit at the parameter values where it reduces to it "
  "(unit nest coefficients or single-alternative nests, zero variances, unit shapes, equal asymmetry shapes), and outside intercepts act like "
  "alternative-specific constants.",
  ["inputs"], "all data sets, specifications and coefficients", "Tests never compare two model types.",
  MODELS, [("per-model utility transforms", "model modules")], ["predict()", "log-likelihood"],
  "differential property-based testing between model types", "random exploration")


EXTRA = os.path.join(HERE, "tools", "mkmeta_extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for q in P:
        fh.write(json.dumps({
            "id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["qtext"]}, "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                        "observe_at": q["observe"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "true",
       "checks": [{"property": q["id"], "quick_cmd": "python3-vt check.py %s quick" % q["id"],
                   "thorough_cmd": "python3-vt check.py %s thorough" % q["id"],
                   "evidence_file": "evidence/%s.json" % q["id"], "technique": q["technique"], "level": "exploration",
                   "level_note": q["note"]} for q in P],
       "not_applicable": []}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
