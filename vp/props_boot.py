"""Generators for the bootstrap (P18-P21)."""
from vp import gen, ref
from vp.gen import LOGIT
from vp.reg import F, prop, scale_for


def g_resample(d):
    big = d.b(1, 2)
    ds = gen.dataset(d, min_obs=2, max_obs=12 if big else 6, max_J=4, n_vars=1, perm="any")
    return {"ds": ds, "S": d.pick([1, 2, 5, 20, 60, 150]), "seed": d.pick([None, 0, 1]) if d.b(1, 4) else d.i(1, 9999),
            "stir": d.i(0, 50)}


def g_boot_frame(d):
    ds = gen.dataset(d, min_obs=1, max_obs=7, max_J=4, perm="any")
    return {"ds": ds, "draws": [b % 64 for b in d.bytes(d.i(1, 9))], "id_dtype": d.pick(["float64", "int64", "float64"]),
            "col": d.pick([None, "boot id", "k"]), "text": d.b(1, 3), "touch": d.b(1, 3), "S": d.i(1, 4)}


prop("P18",
     "Random long data sets in any row order, numbers of samples and seeds: every sample is compared with the number of "
     "observations per chosen alternative, draw frequencies with the uniform distribution (7.5 standard errors), seeds for "
     "reproducibility; resampled frames are compared cell by cell with the original rows. Non-trivial: several samples and a "
     "group of several observations / a repeated id.",
     ["statistical bounds: the probability of a false alarm per run is below 1e-6"],
     [F("resample", g_resample, 1200, 15000), F("boot_frame", g_boot_frame, 800, 10000)])


# ------------------------------------------------------------------ P19
def boot_data(d, max_obs=9, max_J=3, **k):
    """every alternative is chosen, and available to at least two observations"""
    J = d.i(2, max_J)
    alts = gen.alt_ids(d, J)
    ds = gen.dataset(d, min_obs=max(4, J + 1), max_obs=max_obs, n_vars=d.i(1, 2), alts=alts, all_chosen=True,
                     full_choice_sets=d.b(1, 2), steps=6, unit=0.5, **k)
    n = {a: sum(1 for o in ds["obs"] if a in o["alts"]) for a in alts}
    if min(n.values()) < 2:
        # make the last observation offer everything: rebuild its rows with simple values
        o = ds["obs"][-1]
        for a in alts:
            if a not in o["alts"]:
                o["alts"].append(a)
                for v in ds["vars"].values():
                    v["vals"].append(1)
        n = {a: sum(1 for o in ds["obs"] if a in o["alts"]) for a in alts}
        if min(n.values()) < 2:
            o = ds["obs"][0]
            miss = [a for a in alts if a not in o["alts"]]
            k0 = len(o["alts"])
            o["alts"].extend(miss)
            for v in ds["vars"].values():
                v["vals"][k0:k0] = [2] * len(miss)
    return ds


def g_boot_mnl(d):
    ds = boot_data(d)
    m = gen.model(d, ds, ["MNL"])
    n = gen.n_params(m, ds)
    case = {"ds": ds, "m": m, "mle": [x * 0.25 for x in d.grid(n, 6, 1)], "S": d.i(1, 3), "seed": d.pick([0, 1]) if d.b(1, 8) else d.i(1, 9999),
            "which": d.pick(["boot", "jack", "both"])}
    if not d.b(1, 5):
        case["ridge"] = d.pick([0.5, 0.1, 1, 2.5])
    if d.b(1, 3):
        case["init"] = [x * 0.25 for x in d.grid(n, 4, 1)]
    if d.b(1, 3) and n > 1:
        case["constrained"] = sorted(set(d.i(0, n - 1) for _ in range(d.i(1, 2))))
    if d.b(1, 4):
        case["method"] = d.pick(["Newton-CG", "L-BFGS-B"])
        if case["method"] == "L-BFGS-B":
            case["gradient_tol"] = 1e-8
            case["loss_tol"] = 1e-12
    if d.b(1, 5):
        case["via_mnl_kwargs"] = True
    return case


def g_boot_other(d):
    ds = boot_data(d, max_obs=6)
    t = d.pick(["Asym", "Scobit", "Uneven", "Cloglog", "Nested Logit"])
    m = gen.model(d, ds, [t], exotic_names=False, icept=False)
    names = []
    J = len(ds["alts"])
    for v, s in m["spec"]:
        names.append([v, "b " + v] if s == "all_same" else [v, ["b %s %d" % (v, q) for q in range(J if s == "all_diff" else len(s))]])
    m["names"] = names
    n = gen.n_params(m, ds)
    mnl = {"type": "MNL", "spec": [list(x) for x in m["spec"]], "names": [list(x) for x in names]}
    if m.get("iref") is not None and t != "Nested Logit":
        sub = [a for q, a in enumerate(ds["alts"]) if q != m["iref"]]
        at = d.i(0, len(mnl["spec"]))
        mnl["spec"].insert(at, ["intercept", sub])
        mnl["names"].insert(at, ["intercept", ["asc_%d" % q for q in range(J - 1)]])
    case = {"ds": ds, "m": m, "mnl": mnl, "mle": [x * 0.125 for x in d.grid(n, 6, 1)], "S": d.i(1, 2), "seed": d.pick([0, 1]) if d.b(1, 8) else d.i(1, 9999),
            "which": d.pick(["boot", "boot", "jack"]), "own_init": d.b(1, 2), "init": [0.25 * x for x in gen.params(d, m, ds, 0.5)],
            "ridge": d.pick([0.5, 1, 0.25]), "mnl_ridge": d.pick([0.5, 1]), "maxiter": d.pick([5, 12])}
    if d.b(1, 4):
        case["constrained"] = sorted(set(d.i(0, n - 1) for _ in range(d.i(1, 2))))
    if d.b(1, 3):
        # options whose effect shows in the estimates
        case["mnl_opts"] = {"method": d.pick(["L-BFGS-B", "Newton-CG", "BFGS"]), "maxiter": d.pick([1, 2])}
    if d.b(1, 4):
        case["method"] = "L-BFGS-B"
        case["maxiter"] = d.pick([2, 3, 5])
    return case


def g_boot_scores(d):
    t = d.pick(LOGIT + ["Nested Logit", "Mixed Logit"])
    ds = gen.dataset(d, max_obs=5, steps=8, max_J=3, n_vars=d.i(1, 2), mix=t == "Mixed Logit")
    m = gen.model(d, ds, [t])
    n = gen.n_params(m, ds)
    if t == "Mixed Logit":
        for q, o in enumerate(ds["obs"]):
            o["mix"] = 3 + 2 * q
        return {"ds": ds, "m": m, "reps": [gen.params(d, m, ds, 1.0) for _ in range(d.i(1, 4))],
                "which": d.pick(["bootstrap", "jackknife"]), "nd": d.i(1, 6), "seed": d.i(1, 5000)}
    case = {"ds": ds, "m": m, "reps": [gen.params(d, m, ds, scale_for(t)) for _ in range(d.i(1, 4))],
            "which": d.pick(["bootstrap", "jackknife"])}
    if d.b(1, 2):
        case["weights"] = d.weights(len(ds["obs"]))
    if t != "Nested Logit" and d.b(1, 2):
        case["ridge"] = d.pick([0.5, 0.1, 1])
    if d.b(1, 4):
        case["constrained"] = [d.i(0, n - 1)]
    return case


prop("P19",
     "Random data sets, specifications, seeds, ridge values, constraints and start values: MNL bootstrap and jackknife replicates "
     "are compared with an independent damped-Newton maximiser on the resampled / reduced data; the other models' replicates with "
     "a separate construction and estimation on independently assembled resampled data from the documented start values; the "
     "log-likelihoods and gradient norms of replicates with reference values. Non-trivial: at least two replicates with a "
     "well-defined optimum / replicates of different likelihood.",
     ["every alternative is chosen at least once and available to two observations, so that every resample can be estimated",
      "mixed logit: only the log-likelihoods of given replicates (estimating replicates is not supported by the bootstrap code)"],
     [F("boot_mnl", g_boot_mnl, 320, 4000), F("boot_other", g_boot_other, 160, 2000), F("boot_scores", g_boot_scores, 400, 5000)])


# ------------------------------------------------------------------ P20
CONFS = [95, 90, 99, 50, 80, 99.9, 68.27, 97.5, 1, 33.3]


def replicates(d, n, K, ties=True):
    tie = ties and d.b(1, 3)
    cols = [d.grid(n, 6 if tie else 120, 0.125) for _ in range(K)]
    return [[cols[k][r] + (0 if tie else 0.001 * ((r * 7919 + k) % 101)) for k in range(K)] for r in range(n)]


def more(d, reps):
    """rarely, many more replicates"""
    if not d.b(1, 40):
        return reps
    return [[round(x + 0.0137 * ((j * 31) % 17), 9) for x in r] for j in range(d.i(10, 40)) for r in reps]


def units(d, K):
    """units of measurement of the parameters: powers of two, so that scaling is exact"""
    if d.b(1, 2):
        return [0] * K
    return [d.pick([0, 0, -24, -40, 20, -12]) for _ in range(K)]


def g_percentile(d):
    n, K = d.i(2, 60), d.i(1, 4)
    reps = more(d, replicates(d, n, K))
    n = len(reps)
    return {"reps": reps, "unit": units(d, K), "conf": d.pick(CONFS) if d.b(2, 3) else d.i(1, 9999) / 100.0,
            "conf2": d.i(1, 9999) / 100.0, "perm": d.perm(n) if n <= 60 else list(range(n))[::-1]}


def g_bca(d):
    n, K = d.i(5, 60), d.i(1, 4)
    J = d.i(2, 12)
    reps = more(d, replicates(d, n, K))
    mle = []
    for k in range(K):
        col = sorted(set(r[k] for r in reps))
        mle.append(col[d.i(min(1, len(col) - 1), len(col) - 1)])
        if d.b(1, 2):
            mle[-1] -= 0.03
    jack = [[x for x in row] for row in replicates(d, J, K)]
    if d.b(1, 6):
        for row in jack:
            row[0] = 0.5
    return {"reps": reps, "jack": jack, "mle": mle, "conf": d.pick(CONFS) if d.b(2, 3) else d.i(1, 9999) / 100.0,
            "unit": units(d, K)}


def g_interval_tables(d):
    ds = gen.dataset(d, max_obs=2, max_J=3, n_vars=1, steps=6)
    m = gen.model(d, ds, LOGIT + ["Nested Logit"])
    K = gen.n_params(m, ds)
    n = d.i(5, 40)
    reps = replicates(d, n, K)
    mle = []
    for k in range(K):
        col = sorted(set(r[k] for r in reps))
        mle.append(col[min(len(col) - 1, 1 + d.i(0, len(col) - 1))] - (0.03 if len(col) > 2 else 0))
    return {"ds": ds, "m": m, "reps": reps, "jack": replicates(d, d.i(2, 8), K), "mle": mle, "conf": d.pick(CONFS), "unit": units(d, K),
            "via": d.pick(["conf", "direct"])}


prop("P20",
     "Random replicate arrays (2-60 replicates, 1-4 parameters, with and without ties), estimates, jackknife values and "
     "confidence levels; percentile and BCa interval ends are compared with the order statistics selected by a reference "
     "implementation of the definitions (either neighbour where the position is integer up to rounding), plus equivariance, "
     "permutation invariance and nesting in the level, and the labelled tables. Non-trivial: more than three distinct replicates.",
     ["BCa: replicates on both sides of the estimate, 1 - a(z0+z) > 0.02"],
     [F("percentile", g_percentile, 1600, 20000), F("bca", g_bca, 1600, 20000), F("interval_tables", g_interval_tables, 480, 6000)])


# ------------------------------------------------------------------ P21
def g_abc(d):
    ds = gen.dataset(d, min_obs=5, max_obs=9, max_J=3, n_vars=d.i(1, 2), steps=4, unit=0.5, ints=False)
    for k, v in enumerate(sorted(ds["vars"])):
        # no constant columns: every coefficient must matter
        s = ds["vars"][v]
        s["vals"] = [x + 0.5 * ((r * 7 + 3 * k) % 5 - 2) for r, x in enumerate(s["vals"])]
    m = gen.model(d, ds, ["MNL"])
    spec = m["spec"]
    m["spec"] = spec[:2]
    if m.get("names"):
        m["names"] = m["names"][:2]
    K = gen.n_params(m, ds)
    case = {"ds": ds, "m": m, "conf": d.pick([80, 50, 68.27, 90, 95]), "eps": d.pick([0.02, 0.05, 0.01, None]),
            "init": [x * 0.25 for x in d.grid(K, 3, 1)], "via": d.pick(["direct", "conf", "all"])}
    case["ridge"] = d.pick([0.02, 0.05, 0.1, 0.3])
    if d.b(1, 4):
        case["weights"] = [1.0 + 0.5 * (b % 3) for b in d.bytes(len(ds["obs"]))]
    return case


def g_abc_parts(d):
    n, K = d.i(1, 12), d.i(1, 4)
    return {"plus": [d.grid(K, 60, 0.125) for _ in range(n)], "minus": [d.grid(K, 60, 0.125) for _ in range(n)],
            "theta": d.grid(K, 12, 0.25), "eps": d.pick([0.001, 0.01, 0.05, 1e-4]), "scale": d.pick([1.0, 1.0, 0.01, 1e-3, 1e-5]), "units": [int(x) for x in d.grid(K, 3, 1)]}


def g_long_weights(d):
    ds = gen.dataset(d, max_obs=8, n_vars=1)
    m = gen.model(d, ds, ["MNL"])
    C = d.i(0, 4)
    n = len(ds["obs"])
    return {"ds": ds, "m": m, "cols": C, "w": [x * 0.125 for x in d.grid(n * max(C, 1), 40, 1)], "maps": d.b(1, 2)}


prop("P21",
     "Random small MNL data sets, levels, perturbation sizes, ridge values, user weights and start values; the ABC interval is "
     "compared with an independent implementation of the published formulas around an independent weighted maximum likelihood "
     "estimator (tolerance 0.2% of the interval's length); ingredients are compared on arbitrary arrays. Non-trivial: several "
     "parameters or a visibly asymmetric interval.",
     ["cases in which a perturbed weight becomes negative or the optimum is ill-conditioned are out of domain",
      "with the library's default perturbation size optimiser noise dominates: the tolerance is 30% of the interval's length"],
     [F("abc", g_abc, 320, 4000), F("abc_parts", g_abc_parts, 800, 10000), F("long_weights", g_long_weights, 400, 5000)])
