"""Property -> facets (generator + executable oracle + case counts)."""
from vp import gen
from vp.gen import ALL7, LOGIT

from vp.reg import F, PROPS, prop, scale_for  # noqa: F401


# ------------------------------------------------------------------ P01
def g_predict(types, max_obs=6):
    def g(d):
        new = d.b(1, 2)
        ds = gen.dataset(d, max_obs=4 if new else max_obs, mix=True, perm="any" if not new else "none",
                         steps=8)
        t = d.pick(types)
        if t == "Mixed Logit":
            ds.pop("perm", None)
        m = gen.model(d, ds, [t], max_mix=d.pick([3, 3, 6]))
        case = {"ds": ds, "m": m}
        target = ds
        if new:
            case["ds2"] = target = gen.dataset(d, max_obs=max_obs, mix=True, perm="any", alts=ds["alts"],
                                               n_vars=len(ds["vars"]), steps=8, cols=ds.get("cols") or {})
            if "cols" not in ds:
                target.pop("cols", None)
        gen.huge_ids(d, target)
        s = scale_for(t) * d.pick([1, 1, 1, 4, 8])
        if t in LOGIT and d.b(1, 3):
            case["params"] = [gen.params(d, m, ds, s) for _ in range(d.i(1, 3))]
        else:
            case["params"] = gen.params(d, m, ds, s)
        case["mode"] = d.pick(["long", "long", "chosen", "both"])
        case["with_choice"] = d.b(1, 2)
        case["csv"] = d.b(1, 10)
        if t == "Mixed Logit":
            case["nd"] = d.i(1, 5)
            case["seed"] = d.i(1, 5000)
        elif not ds.get("perm"):
            case["prefit"] = d.b(1, 6)
        case["no_ints"] = d.b(1, 6)
        return case
    return g


def g_partial(d):
    """new data in which some alternatives do not occur (models without alternative-specific parameters)"""
    t = d.pick(["MNL", "Nested Logit", "Mixed Logit"])
    ds = gen.dataset(d, max_obs=3, mix=True, steps=8, min_J=3)
    m = gen.model(d, ds, [t], icept=False)
    sub = sorted(d.subset(ds["alts"], lo=2))
    m["spec"] = [[v, "all_same"] for v, _ in m["spec"]]
    m["names"] = [[v, "b " + v] for v, _ in m["spec"]]
    if t == "Mixed Logit":
        m["mixvars"] = ["b " + m["spec"][d.i(0, len(m["spec"]) - 1)][0]]
    new = gen.dataset(d, max_obs=4, mix=True, perm="any", alts=sub, n_vars=len(ds["vars"]), steps=8, cols=ds.get("cols") or {})
    if "cols" not in ds:
        new.pop("cols", None)
    case = {"ds": ds, "ds2": new, "m": m, "params": gen.params(d, m, ds, scale_for(t)), "mode": d.pick(["long", "chosen", "both"]),
            "with_choice": d.b(1, 2), "csv": False}
    if t == "Mixed Logit":
        case["nd"] = d.i(1, 4)
        case["seed"] = d.i(1, 5000)
    return case


def g_fitted(types):
    def g(d):
        t = d.pick(types)
        ds = gen.dataset(d, min_obs=3, max_obs=8, mix=True, steps=6, max_J=3)
        m = gen.model(d, ds, [t])
        case = {"ds": ds, "m": m, "maxiter": d.i(1, 6)}
        case["init"] = [0.5 * x for x in gen.params(d, m, ds, 0.5)]
        if t == "Mixed Logit":
            case["nd"] = d.i(1, 4)
            case["seed"] = d.i(1, 5000)
        return case
    return g


prop("P01",
     "Random long-format data sets (2-4 alternatives, varying choice sets, row orders, id styles, dtypes), random "
     "specifications, names, nests, mixing variables and parameter values for all seven models; predict (1-D and 2-D "
     "parameters, long/chosen/both, new or estimation data, frame or CSV) is compared row by row with an independent "
     "pure-Python definition. Non-trivial: the expected probabilities are not all equal (range > 1e-6).",
     ["utilities small enough that the floating point clipping of the library is not active (|h| <= 600, scobit |v| <= 25)",
      "mixed logit draws are taken from the library's own draw function for the same seed (their properties are P16)"],
     [F("predict", g_predict(LOGIT + ["Nested Logit"]), 2400, 40000),
      F("predict_mixed", g_predict(["Mixed Logit"]), 400, 8000, facet="predict"),
      F("predict_partial", g_partial, 400, 6000, facet="predict"),
      F("fitted", g_fitted(ALL7), 240, 4000)])


# ------------------------------------------------------------------ P02
def g_valid(d):
    t = d.pick(ALL7)
    ds = gen.dataset(d, max_obs=4, mix=True, perm="any", steps=8)
    if t == "Mixed Logit":
        ds.pop("perm", None)
    m = gen.model(d, ds, [t])
    case = {"ds": ds, "m": m}
    mag = d.pick([1, 30, 300, 3e3, 1e5, 1e9])
    mag2 = d.pick([1, 1, 10, 100, 1000])
    v = gen.params(d, m, ds, 1.0)
    K = gen.n_index(m, ds) + (len(m["mixvars"]) if m.get("mixvars") else 0)
    case["params"] = [x * mag2 for x in v[:len(v) - K]] + [(x if x else 0.5) * mag for x in v[len(v) - K:]]
    if t in ("Scobit", "Uneven", "Asym", "Cloglog") and d.b(1, 3):
        case["params"][:len(v) - K] = [0.0 if t in ("Asym", "Cloglog") else v[0] * mag2] * (len(v) - K)
        if m.get("iref") is not None and t in ("Scobit", "Uneven"):
            J = len(ds["alts"])
            case["params"][J:2 * J - 1] = [0.0] * (J - 1)
    if t == "Mixed Logit":
        case["nd"] = d.i(1, 4)
        case["seed"] = d.i(1, 5000)
    elif d.b(1, 3):
        near_threshold(d, case, len(v) - K, K)
    return case


def g_limits(d):
    t = d.pick(["MNL", "Asym", "Cloglog", "Scobit", "Uneven", "Asym", "Scobit", "Uneven"])
    ds = gen.dataset(d, max_obs=4, mix=True, perm="any", steps=8)
    m = gen.model(d, ds, [t])
    K = gen.n_index(m, ds)
    v = gen.params(d, m, ds, 1.0)
    mag = d.pick([1, 1, 4, 30, 300, 3e3])
    mag2 = d.pick([1, 3, 10, 20, 40, 100, 1000])
    if t == "Asym":
        mag2 = min(mag2, 100)
    J = len(ds["alts"])
    ns = J if t in ("Scobit", "Uneven") else J - 1 if t == "Asym" else 0
    return {"ds": ds, "m": m, "params": [x * mag2 for x in v[:ns]] + [x * min(mag2, 40) for x in v[ns:len(v) - K]] +
            [x * mag for x in v[len(v) - K:]]}


def near_threshold(d, case, first, K):
    """utilities of almost equal size on both sides of a floating point threshold (overflow of exp, of the
    library's replacement values, of squares and products of these, ...)"""
    ds, m = case["ds"], case["m"]
    for s in ds["vars"].values():
        s["dtype"] = "float64"
        s["vals"] = [100.0 + x for x in s["vals"]]
    T = d.pick([709.8, 700.0, 690.8, 745.0, 355.0, 345.4, 36.0, 30.0, 16.0, 6.3]) * d.pick([1, 1, 1, 0.5, 2]) * d.pick([1, -1])
    pos = d.i(0, K - 1)
    if d.b(1, 2):
        case["params"][first:] = [0.0] * K
    else:
        case["params"][first:] = [x * 0.01 for x in d.grid(K, 4, 0.5)]
    case["params"][first + pos] = T / 100.0
    if m["type"] == "Nested Logit":
        case["params"][:first] = [d.pick([0.0, 20.0, 0.0, 3.0])] * first
    elif d.b(1, 2):
        case["params"][:first] = [0.0] * first


prop("P02",
     "Random data sets and models of all seven types with parameters from 1 to 1e9 times ordinary size; every prediction must be "
     "finite, in [0, 1] and sum to one over each observation's alternatives, and within each observation (at equal shapes and "
     "outside intercepts, resp. within nests and with equal nest coefficients) an alternative of higher systematic utility never "
     "gets a smaller probability. Non-trivial: some systematic utility beyond 30 in size. Second search: shapes, intercepts and "
     "coefficients of up to 3000 times ordinary size against transformed utilities in exact log space: an alternative that dominates by "
     "60 or more gets all the probability, and probabilities are exact where nothing saturates. Non-trivial: an observation compared.",
     ["where the library's underflow guards (pinned by its tests) act, only dominance is compared", "design values and parameters are finite", "weak monotonicity is checked up to rounding of the utilities themselves"], [F("valid", g_valid, 4000, 60000), F("limits", g_limits, 2400, 40000)])


# ------------------------------------------------------------------ P03
def full_obs_dataset(d, **k):
    """data set plus the index of an observation offering every alternative"""
    ds = gen.dataset(d, **k)
    J = len(ds["alts"])
    full = [q for q, o in enumerate(ds["obs"]) if len(o["alts"]) == J]
    return ds, full[0]


def g_row_order(d):
    ds, full = full_obs_dataset(d, min_obs=1, max_obs=5, mix=True, steps=8)
    t = d.pick(ALL7)
    m = gen.model(d, ds, [t])
    n, J = len(ds["obs"]), len(ds["alts"])
    rows = sum(len(o["alts"]) for o in ds["obs"])
    ids, cur = [], d.i(0, 400)
    for b in d.bytes(n):
        ids.append(cur)
        cur += 1 + b % 7
    return {"ds": ds, "m": m, "params": gen.params(d, m, ds, scale_for(t)), "perm": d.perm(rows),
            "index": d.pick(["default", "dup", "str", "reversed"]), "new_ids": ids, "new_alts": gen.alt_ids(d, J),
            "within": d.perm(J), "nd": d.i(1, 3), "seed": d.i(1, 5000)}


def g_obs_indep(d):
    ds, full = full_obs_dataset(d, min_obs=2, max_obs=6, perm="none", steps=8)
    t = d.pick(LOGIT + ["Nested Logit"])
    m = gen.model(d, ds, [t])
    n = len(ds["obs"])
    return {"ds": ds, "m": m, "params": gen.params(d, m, ds, scale_for(t)), "full": full,
            "keep": d.subset(range(n), 0, n)}


def g_shift(d):
    ds, full = full_obs_dataset(d, min_obs=1, max_obs=5, min_J=2, max_J=4, mix=True, steps=8)
    t = d.pick(["MNL", "MNL", "Nested Logit", "Mixed Logit"])
    m = gen.model(d, ds, [t])
    # make sure a generic variable exists to shift
    if not any(s == "all_same" and v != "intercept" for v, s in m["spec"]) and d.b(3, 4):
        for q, (v, s) in enumerate(m["spec"]):
            if v != "intercept":
                m["spec"][q] = [v, "all_same"]
                break
        m.pop("names", None)
        if t == "Mixed Logit":
            from vp import ref
            m["mixvars"] = ref.spec_names(m["spec"], ds["alts"])[:1]
    return {"ds": ds, "m": m, "params": gen.params(d, m, ds, 1.0), "shift": d.grid(len(ds["obs"]), 10, 0.5),
            "full": full, "drop_obs": d.i(0, 10), "drop_alt": d.i(0, 5), "nd": d.i(1, 3), "seed": d.i(1, 5000)}


prop("P03",
     "Random data sets/models/parameters; predictions are recomputed after (a) shuffling all rows, index and columns, "
     "(b) relabelling observation ids, alternative ids (order preserving) and column names, (c) reordering rows within "
     "observations, (d) removing the other observations; for MNL/nested/mixed also after adding a constant to all "
     "alternatives, and for MNL after dropping an alternative. Non-trivial: more than one observation (or a non-zero "
     "shift) and non-constant probabilities.",
     ["mixed logit is compared without row shuffling because simulation draws are assigned to units by order of appearance"],
     [F("row_order", g_row_order, 500, 9000), F("obs_indep", g_obs_indep, 500, 9000), F("shift", g_shift, 500, 9000)])


# ------------------------------------------------------------------ P24
def g_equiv(d):
    ds = gen.dataset(d, max_obs=4, mix=True, perm="any", steps=8)
    kind = d.pick(["nested", "mixed", "scobit", "uneven", "asym"])
    if kind == "mixed":
        ds.pop("perm", None)
    m = gen.model(d, ds, ["MNL"])
    J = len(ds["alts"])
    K = gen.n_index(m, ds)
    case = {"ds": ds, "m": m, "kind": kind, "betas": [x * 0.125 for x in d.grid(K, 8, 1)],
            "iref": d.pick([None] + list(range(J))), "sref": d.i(0, J - 1), "nd": d.i(1, 3), "seed": d.i(1, 5000)}
    if kind == "nested":
        case["nests"] = gen.nests(d, ds["alts"])
        case["big"] = float(d.pick([16, 20, 30, 40]))
    if kind == "mixed":
        case["mixpos"] = sorted(set([d.i(0, K - 1), d.i(0, K - 1)]))
    return case


def g_equiv2(d):
    ds = gen.dataset(d, max_obs=4, steps=8)
    m = gen.model(d, ds, ["MNL"], exotic_names=False)
    J = len(ds["alts"])
    K = gen.n_index(m, ds)
    return {"ds": ds, "m": m, "betas": [x * 0.125 for x in d.grid(K, 8, 1)],
            "iref": d.pick(list(range(J))), "nest_params": [x * 0.25 for x in d.grid(J, 8, 1)]}


prop("P24",
     "Random data sets and coefficients; predictions of one model are compared with those of another that must coincide: nested "
     "logit with unit nest coefficients (or one alternative per nest), mixed logit with zero variance, scobit and uneven logit with "
     "unit shapes (with outside intercepts equal to constants in the index), and asymmetric logit at equal shapes versus the MNL "
     "they reduce to. Non-trivial: the probabilities are not all equal.",
     ["utilities of ordinary size"], [F("equiv", g_equiv, 800, 12000), F("equiv_special", g_equiv2, 400, 6000)])


# ------------------------------------------------------------------ P04 - P06
def g_calc(types, ridge_types=ALL7, ridge=True, weights=True, max_obs=6, max_J=4, constrained=False, max_vars=3, factors=(2, 4, 8)):
    def g(d):
        t = d.pick(types)
        panel = t == "Mixed Logit" and d.b(1, 3)
        if panel:
            ds = gen.long_panel(d)
        else:
            ds = gen.dataset(d, max_obs=max_obs, mix=True, steps=8, max_J=max_J, n_vars=d.i(1, max_vars))
        m = gen.model(d, ds, [t], max_mix=d.pick([3, 3, 6]))
        n = gen.n_params(m, ds)
        case = {"ds": ds, "m": m, "params": gen.params(d, m, ds, scale_for(t)),
                "params2": gen.params(d, m, ds, scale_for(t))}
        if d.b(1, 4):
            # larger utilities
            K = gen.n_index(m, ds) + (len(m["mixvars"]) if m.get("mixvars") else 0)
            f = d.pick(list(factors))
            case["params"][n - K:] = [x * f for x in case["params"][n - K:]]
        if weights and d.b(1, 2):
            case["weights"] = d.weights(len(ds["obs"]))
        if ridge and t in ridge_types and d.b(1, 3):
            case["ridge"] = d.pick([0.5, 0.1, 1, 3.25, 0])
        if constrained and d.b(1, 3):
            case["constrained"] = sorted(set(d.i(0, n - 1) for _ in range(d.i(0, 3))))
        if t == "Mixed Logit":
            case["nd"] = d.i(1, 4)
            case["seed"] = d.i(1, 5000)
        return case
    return g


def g_ll_fit(d):
    t = d.pick(ALL7)
    ds = gen.dataset(d, min_obs=3, max_obs=7, mix=True, steps=6, max_J=3)
    m = gen.model(d, ds, [t])
    case = {"ds": ds, "m": m, "maxiter": d.i(1, 6), "init": [0.5 * x for x in gen.params(d, m, ds, 0.5)],
            "ridge": d.pick([0.25, 0.5, 1])}
    if d.b(1, 2):
        case["weights"] = d.weights(len(ds["obs"]))
    if t == "Mixed Logit":
        case["nd"] = d.i(1, 4)
        case["seed"] = d.i(1, 5000)
    return case


prop("P04",
     "Random data, models, parameters, observation weights (including zero) and ridge values for all seven models; the "
     "library's log-likelihood (and the reported final / null log-likelihood after estimation) is compared with an "
     "independent pure-Python one. Non-trivial: |log-likelihood| > 1e-3 at a non-zero parameter vector.",
     ["weights are constant within an observation (within a mixing unit for mixed logit)",
      "utilities small enough that floating point clipping is inactive"],
     [F("loglik", g_calc(ALL7, factors=(2, 8, 32, 64)), 1600, 24000), F("ll_fit", g_ll_fit, 240, 3000)])

prop("P05",
     "Random data, models, parameters, weights, ridge values and constrained positions; the library's analytic gradient "
     "is compared with forward-mode automatic differentiation of an independent log-likelihood, also on re-evaluation at "
     "a second point. Non-trivial: some gradient entry exceeds 1e-6.",
     ["nested logit with ridge: exactly the deviation of the open known finding is tolerated", "points on the kink of the asymmetric transformation excluded"],
     [F("gradient", g_calc(ALL7, constrained=True), 1600, 24000)])

prop("P06",
     "Random data, models, parameters, weights and ridge values; hessian and Fisher information are compared with "
     "-sum w sum_j p_j s_j s_j' (expected information; MNL: also the differenced exact gradient), resp. the BHHH matrix "
     "for nested and mixed logit, with scores s from automatic differentiation. Non-trivial: some entry exceeds 1e-6.",
     ["mixed logit hessian and Fisher information with ridge: exactly the deviations of the open known findings are tolerated"],
     [F("hessian", g_calc(ALL7, max_obs=5), 1200, 18000),
      F("mnl_curvature", g_calc(["MNL"], max_obs=5), 400, 6000)])


# ------------------------------------------------------------------ P07 - P10
def g_mle_mnl(d):
    ds = gen.dataset(d, min_obs=4, max_obs=14, max_J=4, steps=6, unit=0.5, n_vars=d.i(1, 2))
    m = gen.model(d, ds, ["MNL"])
    n = gen.n_params(m, ds)
    case = {"ds": ds, "m": m, "init": [x * 0.25 for x in d.grid(n, 4, 1)],
            "method": d.pick(["BFGS", "BFGS", "BFGS", "Newton-CG", "dogleg", "trust-ncg"])}
    if not d.b(1, 3):
        case["ridge"] = d.pick([0.5, 0.1, 1, 2.5])
    if d.b(1, 2):
        case["weights"] = d.weights(len(ds["obs"]))
    if d.b(1, 3) and n > 1:
        case["constrained"] = sorted(set(d.i(0, n - 1) for _ in range(d.i(1, 2))))
    if d.b(1, 4):
        case["just_point"] = True
    return case


def g_mle_other(types):
    def g(d):
        t = d.pick(types)
        ds = gen.dataset(d, min_obs=3, max_obs=8, mix=True, steps=6, max_J=3, n_vars=d.i(1, 2))
        m = gen.model(d, ds, [t])
        n = gen.n_params(m, ds)
        case = {"ds": ds, "m": m, "init": [0.5 * x for x in gen.params(d, m, ds, 0.5)],
                "maxiter": d.pick([1000, 1000, 3])}
        if t != "Nested Logit":
            case["ridge"] = d.pick([0.5, 1, 0.25])
        if d.b(1, 3):
            case["weights"] = d.weights(len(ds["obs"]))
        if d.b(1, 4):
            case["constrained"] = sorted(set(d.i(0, n - 1) for _ in range(d.i(1, 2))))
        if d.b(1, 3) and t in ("Asym", "Scobit", "Uneven"):
            case["split_init"] = True
        if t == "Mixed Logit":
            case["nd"] = d.i(1, 4)
            case["seed"] = d.i(1, 5000)
        return case
    return g


def g_constrained(d):
    t = d.pick(ALL7)
    ds = gen.dataset(d, min_obs=3, max_obs=7, mix=True, steps=6, max_J=3, n_vars=d.i(1, 2))
    m = gen.model(d, ds, [t])
    n = gen.n_params(m, ds)
    case = {"ds": ds, "m": m, "init": [0.5 * x for x in gen.params(d, m, ds, 0.5)], "maxiter": d.pick([30, 5])}
    case["method"] = d.pick(["BFGS", "BFGS", "Newton-CG", "L-BFGS-B", "CG", "TNC"])
    if t != "Nested Logit":
        case["ridge"] = d.pick([0.5, 1, 0.25])
    k = d.i(1, max(1, n - 1))
    case["constrained"] = sorted(d.perm(n)[:k]) if d.b(2, 3) else d.perm(n)[:k]
    if d.b(1, 4):
        case["weights"] = d.weights(len(ds["obs"]))
    if t == "Mixed Logit":
        case["nd"] = d.i(1, 4)
        case["seed"] = d.i(1, 5000)
    return case


def g_inference(d):
    t = d.pick(ALL7)
    ds = gen.dataset(d, min_obs=4, max_obs=10, mix=True, steps=6, max_J=3, n_vars=d.i(1, 2))
    m = gen.model(d, ds, [t])
    if t in ("Asym", "Scobit", "Uneven") and d.b(1, 3):
        m["unnamed_shapes"] = True
    if t in ("Asym", "Scobit", "Uneven", "Cloglog") and d.b(1, 3):
        m["unnamed_ints"] = True
    n = gen.n_params(m, ds)
    case = {"ds": ds, "m": m, "init": [0.5 * x for x in gen.params(d, m, ds, 0.5)], "maxiter": d.pick([4, 1, 10]),
            "alpha": d.pick([0.05, 0.1, 0.01, 0.32, 0.5, 1e-3, 1e-5, 0.9, 0.9999]), "coefs": d.perm(n)[:d.i(1, n)], "sm": d.b(1, 3)}
    if d.b(1, 2):
        case["ridge"] = d.pick([0.5, 1, 0.25])
    if d.b(1, 3):
        case["weights"] = d.weights(len(ds["obs"]))
        f = d.pick([1, 1, 400, 4000])
        case["weights"] = [x * f for x in case["weights"]]
    if d.b(1, 3):
        case["constrained"] = d.perm(n)[:d.i(1, min(3, n))]
    if t == "Mixed Logit":
        case["nd"] = d.i(1, 4)
        case["seed"] = d.i(1, 5000)
    return case


def g_weights_repl(d):
    t = d.pick(ALL7)
    ds, full = full_obs_dataset(d, min_obs=2, max_obs=5, mix=True, steps=8, max_J=3)
    m = gen.model(d, ds, [t])
    case = {"ds": ds, "m": m, "full": full, "params": gen.params(d, m, ds, scale_for(t)),
            "counts": [1 + x for x in d.grid(len(ds["obs"]), 1, 1)], "scale": d.pick([2.0, 0.5, 3.5, 2.0 ** -14, 0.01, 1e-6, 5000.0])}
    if d.b(1, 3):
        case["ridge"] = d.pick([0.5, 1])
    if d.b(1, 3):
        case["counts"] = [b % 4 for b in d.bytes(len(ds["obs"]))]
    if t == "Mixed Logit":
        case["nd"] = d.i(1, 4)
        case["seed"] = d.i(1, 5000)
    return case


def g_weights_fit(d):
    t = d.pick(["MNL", "MNL", "MNL", "Asym", "Cloglog", "Scobit", "Uneven", "Nested Logit"])
    ds, full = full_obs_dataset(d, min_obs=3, max_obs=8, steps=6, max_J=3, n_vars=d.i(1, 2))
    m = gen.model(d, ds, [t])
    n = gen.n_params(m, ds)
    case = {"ds": ds, "m": m, "full": full, "init": [0.25 * x for x in gen.params(d, m, ds, 0.5)],
            "counts": [b % 4 for b in d.bytes(len(ds["obs"]))]}
    if t != "Nested Logit":
        case["ridge"] = d.pick([0.5, 1, 0.25])
    if t != "MNL":
        case["maxiter"] = 2
    return case


prop("P07",
     "Random data sets are estimated. MNL: estimates, likelihood and (constrained/weighted/ridge) optimum are compared "
     "with an independent damped-Newton maximiser for several optimisers; all models: final log-likelihood >= starting "
     "one, reported gradient equals the exact one and vanishes (<=1e-4) whenever convergence is reported. Non-trivial: "
     "optimum away from zero / likelihood improved.",
     ["MNL cases whose reference maximum does not exist or is ill-conditioned (>1e6) are skipped",
      "hessian-singular data is out of domain", "nested logit is estimated without ridge (open known finding)"],
     [F("mle_mnl", g_mle_mnl, 700, 9000), F("mle_other", g_mle_other(["Asym", "Cloglog", "Scobit", "Uneven", "Nested Logit", "Mixed Logit"]), 240, 3000)])
prop("P08",
     "Random models of all seven types estimated with random constrained positions, start values and gradient-based "
     "optimisers. Non-trivial: the likelihood gradient at the start is non-zero for a constrained parameter (so an "
     "unconstrained step would move it).",
     ["gradient-based optimisers only (derivative-free ones are an open known finding)"],
     [F("constrained", g_constrained, 480, 6000), F("mle_mnl_c", g_mle_mnl, 240, 3000, facet="mle_mnl")])
prop("P09",
     "Random models of all seven types estimated for a few iterations with random weights, ridge, constraints; every "
     "reported quantity is recomputed from the estimates, the reference gradient/hessian/score outer product and the "
     "textbook formulas (math.erfc, bisected normal quantile). Non-trivial: at least one finite standard error.",
     ["covariance identities are checked when cond(hessian) < 1e7"],
     [F("inference", g_inference, 700, 9000)])
prop("P10",
     "Random models of all seven types, integer weights 0-3; criterion, gradient, hessian and score outer product are "
     "compared with an unweighted data set in which observations (mixing units) are physically replicated, and full "
     "estimation runs likewise. Non-trivial: some weight differs from 1 and the log-likelihood is not ~0.",
     ["weights constant within an observation / mixing unit"],
     [F("weights_repl", g_weights_repl, 700, 10000), F("weights_fit", g_weights_fit, 200, 2500)])


from vp import props_boot, props_data, props_mixed, props_state  # noqa: E402,F401  (register P11-P23)
