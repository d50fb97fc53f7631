"""Bootstrap resampling (P18), replicates (P19) and confidence intervals (P20, P21)."""
import math
from collections import Counter, OrderedDict

import numpy as np
import pandas as pd

from vp import ref
from vp.common import DS, M, Skip, Violation, arr, close, get_draws, require, sut
from vp.f_calc import guard, ref_gradient
from vp.f_fit import newton
from vp.f_mixed import stir
from vp.f_probs import fit_or_skip, fitted_mixed


# ------------------------------------------------------------------------------ resampling
def binom_tail(n, p, k):
    """probability of a count at least as extreme, on its side, as k"""
    if p >= 1:
        return 1.0 if k == n else 0.0
    f = [math.exp(math.lgamma(n + 1) - math.lgamma(j + 1) - math.lgamma(n - j + 1) + j * math.log(p) + (n - j) * math.log(1 - p))
         for j in (range(k + 1) if k <= n * p else range(k, n + 1))]
    return sum(f)


def p_resample(case, out):
    """Every bootstrap sample draws, with replacement and uniformly, as many observations from those that
    chose each alternative as the data has."""
    from pylogit import bootstrap_sampler as bs
    ds = DS(case["ds"])
    f = ds.frame()
    o, a, c = f[ds.c["obs"]].values, f[ds.c["alt"]].values, f[ds.c["ch"]].values
    keep = [x.copy() for x in (o, a, c)]
    S = case["S"]
    stir(case["stir"])
    got = arr(sut(bs.create_cross_sectional_bootstrap_samples, o, a, c, S, seed=case["seed"]), (S, ds.n_obs), "resampled ids")
    for x, y in zip((o, a, c), keep):
        require(np.array_equal(x, y), "resampling modified its arguments")
    chosen = {float(ds.obs_ids[k]): ds.alt_of[ds.obs_ch[k]] for k in range(ds.n_obs)}
    groups = Counter(chosen.values())
    members = {}
    for i, alt in chosen.items():
        members.setdefault(alt, []).append(i)
    freq = Counter()
    repeats = distinct = False
    for row in got.tolist():
        require(all(i in chosen for i in row), "resampled ids %s contain an id that is not in the data", row)
        require(Counter(chosen[i] for i in row) == groups,
                "a bootstrap sample has %s observations per chosen alternative, the data has %s",
                dict(Counter(chosen[i] for i in row)), dict(groups))
        freq.update(row)
        repeats = repeats or len(set(row)) < len(row)
        distinct = distinct or row != got[0].tolist()
    # log-probability of a sample without repetition / of a given sample
    lp_norep = sum(math.lgamma(g + 1) - g * math.log(g) for g in groups.values())
    lp_same = -sum(g * math.log(g) for g in groups.values())
    if S * lp_norep < -25:
        require(repeats, "%d samples without a single repeated observation: not drawn with replacement", S)
        out.label("replacement visible")
    if (S - 1) * lp_same < -25:
        require(distinct, "all %d samples are identical", S)
    few = [g for g in groups.values() if g > 1]
    if few and S <= 5:
        # the same over several calls: every group is drawn from with replacement, uniformly, also in single small samples
        lp = max(math.lgamma(g + 1) - g * math.log(g) for g in few)
        calls = min(60, int(math.ceil(30 / -lp / S)))
        seen = set()
        count = Counter()
        for k in range(calls):
            sd = None if case["seed"] is None else case["seed"] + 1 + k
            for row in arr(sut(bs.create_cross_sectional_bootstrap_samples, o, a, c, S, seed=sd)).tolist():
                count.update(row)
                for i, times in Counter(row).items():
                    if times > 1:
                        seen.add(chosen[i])
        for alt, ids in members.items():
            g = len(ids)
            if g > 1 and calls * S * (math.lgamma(g + 1) - g * math.log(g)) < -25:
                require(alt in seen, "%d times %d samples without a single repeated observation among those that chose %s: not drawn with "
                        "replacement", calls, S, alt)
            for i in ids:
                require(binom_tail(calls * S * g, 1.0 / g, count[i]) > 1e-12, "observation %s was drawn %d times in %d draws from %d observations",
                        i, count[i], calls * S * g, g)
        out.label("many small samples")
    for alt, ids in members.items():
        g = len(ids)
        n, p = S * g, 1.0 / g
        sd = math.sqrt(n * p * (1 - p))
        for i in ids:
            require(abs(freq[i] - n * p) <= 7.5 * sd + 8, "observation %s was drawn %d times, expected %.0f +- %.1f",
                    i, freq[i], n * p, sd)
    if case["seed"] is not None:
        stir(case["stir"] + 9)
        again = arr(sut(bs.create_cross_sectional_bootstrap_samples, o, a, c, S, seed=case["seed"]))
        require(np.array_equal(got, again), "the same seed gave different bootstrap samples")
    if S * lp_same < -25:
        s2 = None if case["seed"] is None else case["seed"] + 1
        other = arr(sut(bs.create_cross_sectional_bootstrap_samples, o, a, c, S, seed=s2))
        require(not np.array_equal(got, other), "another seed gave the same bootstrap samples")
        out.label("seed visible")
    out.nt = max(groups.values()) > 1 and S > 1
    out.label("shuffled" if ds.perm else "grouped")


def p_boot_frame(case, out):
    """The resampled data holds, for the k-th drawn id, an exact copy of that observation's rows, marked k."""
    from pylogit import bootstrap_sampler as bs
    ds = DS(case["ds"])
    df = ds.frame()
    if case.get("text"):
        df["note"] = ["r%d" % i for i in range(len(df))]
    keep = df.copy(deep=True)
    oc = ds.c["obs"]
    gd = sut(bs.create_deepcopied_groupby_dict, df, oc)
    ids = [ds.obs_ids[k % ds.n_obs] for k in case["draws"]]
    ids_arr = np.array(ids, dtype=case["id_dtype"])
    kw = {} if case.get("col") is None else {"boot_id_col": case["col"]}
    col = case.get("col") or "bootstrap_id"
    for rnd in range(2):
        got = sut(bs.create_bootstrap_dataframe, df, oc, ids_arr, gd, **kw)
        rows = []
        vals = keep[oc].values.tolist()
        for k, i in enumerate(ids):
            rows += [(r, k + 1) for r, v in enumerate(vals) if v == i]
        exp = keep.iloc[[r for r, _ in rows]].reset_index(drop=True)
        exp[col] = [k for _, k in rows]
        require(sorted(map(str, got.columns)) == sorted(map(str, exp.columns)), "columns %s, expected %s", list(got.columns), list(exp.columns))
        require(len(got) == len(exp), "%d rows, expected %d", len(got), len(exp))
        for cn in exp.columns:
            require(got[cn].values.tolist() == exp[cn].values.tolist(), "column %s is %s, expected %s", cn,
                    got[cn].values.tolist()[:20], exp[cn].values.tolist()[:20])
            require(cn == col or got[cn].dtype == keep[cn].dtype, "column %s changed its type to %s", cn, got[cn].dtype)
        require(len(set(got.index)) == len(got), "row labels of the resampled data are not unique")
        require(df.equals(keep) and list(df.columns) == list(keep.columns), "the original data was modified")
        # the copies are independent of the original and of each other
        if len(got):
            v = sorted(ds.raw["vars"])[0]
            got[v] = got[v] * 0 + 1
    if case.get("touch") and len(df):
        v = sorted(ds.raw["vars"])[0]
        old = keep.copy(deep=True)
        df.loc[:, v] = df[v] * 0
        got = sut(bs.create_bootstrap_dataframe, df, oc, ids_arr, gd, **kw)
        require(got[v].values.tolist() == [old[v].values.tolist()[r] for r, _ in rows],
                "the stored copies follow later changes of the data")
    n = len(ids)
    S = case["S"]
    idm = np.asarray(sut(bs.create_bootstrap_id_array, np.tile(ids_arr, (S, 1))))
    require(idm.shape == (S, n) and (idm == np.arange(1, n + 1)[None, :]).all(), "bootstrap ids are %s", idm.tolist()[:2])
    out.nt = len(set(ids)) < len(ids) and ds.n_obs > 1
    out.label("dtype:" + case["id_dtype"], "shuffled" if ds.perm else "grouped")


# ------------------------------------------------------------------------------ replicates
def fit_kw(case):
    k = {"method": case.get("method", "BFGS")}
    for q in ("ridge", "gradient_tol", "loss_tol", "maxiter"):
        if case.get(q) is not None:
            k[q] = case[q]
    if case.get("constrained"):
        k["constrained_pos"] = list(case["constrained"])
    return k


def make_boot(m, mo, mle):
    from pylogit import bootstrap as pb
    return sut(pb.Boot, mo, np.array(mle, dtype=float))


def frame_of(df, rows, names, what):
    require(isinstance(df, pd.DataFrame), "%s is not a data frame", what)
    require(list(df.columns) == list(names), "%s has columns %s, expected %s", what, list(df.columns), list(names))
    return arr(df.values, (rows, len(names)), what)


def check_optimum(m, x, counts, ridge, fixed, init, what, out):
    """x must maximise the likelihood of the sample in which observation k occurs counts[k] times"""
    free = [q for q in range(m.n_params) if q not in fixed]
    start = [float(v) if q in fixed else 0.0 for q, v in enumerate(init)]
    if free:
        res = newton(m, [float(c) for c in counts], ridge, free, start, None)
        if res is None or res[2] > 1e5:
            return False
        best, f, cond = res
    else:
        best, f, cond = start, m.ref_loglik(start, weights=counts, ridge=ridge), 1.0
    for q in fixed:
        require(float(x[q]) == float(init[q]), "%s: constrained parameter %d is %r, fixed at %r", what, q, float(x[q]), init[q])
    got = m.ref_loglik(x.tolist(), weights=counts, ridge=ridge)
    require(f - got <= 1e-5 * (1 + abs(f)), "%s reaches log-likelihood %r on its sample, the maximum is %r", what, got, f)
    tol = 2e-3 * (1 + max(abs(v) for v in best)) * max(1.0, cond / 200.0)
    if tol < 0.1:
        close(x, best, what, rtol=0, atol=tol)
    return True


def p_boot_mnl(case, out):
    """Bootstrap replicates of an MNL are the estimates on the resampled data; jackknife replicates those on
    the data without one observation, in ascending order of the ids."""
    from pylogit import bootstrap_sampler as bs
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    mo = m.create()
    mle = case["mle"]
    boot = make_boot(m, mo, mle)
    require(list(boot.mle_params.index) == m.all_names(), "parameter names %s, expected %s", list(boot.mle_params.index), m.all_names())
    close(boot.mle_params.values, mle, "stored estimates", rtol=0, atol=0)
    ridge = case.get("ridge")
    fixed = set(case.get("constrained") or [])
    init = case.get("init") or [0.0] * m.n_params
    kw = fit_kw(case)
    if case.get("init"):
        kw["mnl_init_vals"] = np.array(init, dtype=float)
    if case.get("via_mnl_kwargs"):
        # the options may equally be handed over as a dictionary
        kw = {"mnl_fit_kwargs": dict(print_res=False, **{k: v for k, v in kw.items() if k != "mnl_init_vals"}),
              **({"mnl_init_vals": kw["mnl_init_vals"]} if "mnl_init_vals" in kw else {})}
    checked = 0
    before = mo.data.copy(deep=True)
    if case["which"] != "jack":
        S = case["S"]
        f = mo.data
        ids = arr(sut(bs.create_cross_sectional_bootstrap_samples, f[ds.c["obs"]].values, f[ds.c["alt"]].values,
                      f[ds.c["ch"]].values, S, seed=case["seed"]), (S, ds.n_obs), "resampled ids")
        stir(4)
        boot_or_skip(boot.generate_bootstrap_replicates, S, boot_seed=case["seed"], **kw)
        reps = frame_of(boot.bootstrap_replicates, S, m.all_names(), "bootstrap_replicates")
        pos = {float(i): k for k, i in enumerate(ds.obs_ids)}
        for s in range(S):
            cnt = [0] * ds.n_obs
            for i in ids[s].tolist():
                cnt[pos[i]] += 1
            checked += check_optimum(m, reps[s], cnt, ridge, fixed, init, "bootstrap replicate %d" % s, out)
        out.label("bootstrap")
    if case["which"] != "boot":
        boot_or_skip(boot.generate_jackknife_replicates, **kw)
        reps = frame_of(boot.jackknife_replicates, ds.n_obs, m.all_names(), "jackknife_replicates")
        asc = sorted(range(ds.n_obs), key=lambda k: ds.obs_ids[k])
        for r, k in enumerate(asc):
            cnt = [1] * ds.n_obs
            cnt[k] = 0
            checked += check_optimum(m, reps[r], cnt, ridge, fixed, init, "jackknife replicate %d" % r, out)
        out.label("jackknife")
    require(mo.data.equals(before), "the model's data was modified")
    require(not hasattr(mo, "params"), "generating replicates stored estimates on the model")
    out.nt = checked >= 2
    out.label("ridge" if ridge else "no ridge")
    if fixed:
        out.label("constrained")


def boot_or_skip(fn, *a, **k):
    try:
        return sut(fn, *a, **k)
    except Violation as v:
        if "LinAlgError" in str(v) or "infs or NaNs" in str(v):
            raise Skip("hessian not invertible")
        raise


def _nudge(start, eps, fixed):
    x = np.array(start, dtype=float) + eps
    for q in fixed or []:
        x[q] = start[q]
    return x


def p_boot_other(case, out):
    """Replicates of the other models: the estimates the library itself produces for the resampled data,
    started from the MNL estimates on that data."""
    import pylogit
    from pylogit import bootstrap_sampler as bs
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    mo = m.create()
    mm = M(case["mnl"], ds)
    mnl = mm.create()
    boot = make_boot(m, mo, case["mle"])
    names = m.all_names()
    require(list(boot.mle_params.index) == names, "parameter names %s, expected %s", list(boot.mle_params.index), names)
    ridge = case["ridge"]
    kw = dict(method=case.get("method", "BFGS"), ridge=ridge, maxiter=case["maxiter"])
    if case.get("constrained"):
        kw["constrained_pos"] = list(case["constrained"])
    mnl_kw = dict(print_res=False, ridge=case["mnl_ridge"])
    mnl_kw.update(case.get("mnl_opts") or {})
    calls = []

    def extract(orig, series, n):
        require(orig is mo, "init value function was given another model")
        require(list(series.index) == mm.all_names(), "MNL estimates are labelled %s, expected %s", list(series.index), mm.all_names())
        calls.append(series.values.copy())
        return np.array(case["init"], dtype=float) + (0.01 * float(np.tanh(series.values.sum())))
    ek = {"extract_init_vals": extract} if case["own_init"] else {}
    f = mo.data.copy(deep=True)
    oc = ds.c["obs"]
    if case["which"] == "boot":
        S = case["S"]
        ids = arr(sut(bs.create_cross_sectional_bootstrap_samples, f[oc].values, f[ds.c["alt"]].values, f[ds.c["ch"]].values, S,
                      seed=case["seed"]), (S, ds.n_obs), "resampled ids").tolist()
        boot_or_skip(boot.generate_bootstrap_replicates, S, mnl_obj=mnl, mnl_init_vals=np.zeros(mm.n_params),
                     mnl_fit_kwargs=dict(mnl_kw), boot_seed=case["seed"], **dict(kw, **ek))
        reps = frame_of(boot.bootstrap_replicates, S, names, "bootstrap_replicates")
    else:
        asc = sorted(ds.obs_ids)
        ids = [[float(i) for i in asc if i != j] for j in asc]
        boot_or_skip(boot.generate_jackknife_replicates, mnl_obj=mnl, mnl_init_vals=np.zeros(mm.n_params),
                     mnl_fit_kwargs=dict(mnl_kw), **dict(kw, **ek))
        reps = frame_of(boot.jackknife_replicates, len(ids), names, "jackknife_replicates")
    vals = f[oc].values
    c = ds.c
    for s in range(len(ids))[:case["S"]]:
        parts = []
        for k, i in enumerate(ids[s]):
            sub = f[vals == i].copy()
            sub["own id"] = k + 1
            parts.append(sub)
        nd = pd.concat(parts, ignore_index=True)
        one = sut(pylogit.create_choice_model, nd.copy(), c["alt"], "own id", c["ch"], mm.od_spec(), "MNL", **mm.kwargs())
        pt = arr(boot_or_skip(one.fit_mle, np.zeros(mm.n_params), just_point=True, **mnl_kw)["x"])
        if case["own_init"]:
            start = np.array(case["init"], dtype=float) + 0.01 * float(np.tanh(pt.sum()))
        else:
            # documented default: MNL estimates for index and intercepts (asymmetric logit: index divided by
            # log J), zero for everything else
            ser = dict(zip(mm.all_names(), pt.tolist()))
            ns, ni = m.n_shapes(), m.n_ints()
            nn = len(m.nests) if m.nests else 0
            start = [0.0] * (nn + ns)
            if ni:
                start += [ser[q] for q in m.int_names()]
                idx = [ser[q] for q in m.index_names]
            else:
                idx = pt.tolist()
            if m.type == "Asym":
                idx = [v / math.log(ds.J) for v in idx]
            start = np.array(start + idx)
        two = sut(pylogit.create_choice_model, nd.copy(), c["alt"], "own id", c["ch"], m.od_spec(), m.type, **m.kwargs())
        r = arr(boot_or_skip(two.fit_mle, start, just_point=True, print_res=False, **kw)["x"], (m.n_params,), "estimates")
        if not np.isfinite(r).all():
            continue
        # numerically chaotic runs (a kink of the likelihood on the path) say nothing: skip those
        chaotic = False
        for eps in (1e-9, -1e-9):
            three = sut(pylogit.create_choice_model, nd.copy(), c["alt"], "own id", c["ch"], m.od_spec(), m.type, **m.kwargs())
            r2 = arr(boot_or_skip(three.fit_mle, _nudge(start, eps, case.get("constrained")), just_point=True, print_res=False, **kw)["x"])
            chaotic = chaotic or not np.isfinite(r2).all() or float(np.abs(r2 - r).max()) > 1e-5
        if chaotic:
            out.label("chaotic replicate skipped")
            continue
        close(reps[s], r, "replicate %d of %s" % (s, m.type), rtol=2e-4, atol=2e-4)
        out.nt = True
    if case["own_init"]:
        require(len(calls) == len(ids), "init values were extracted %d times for %d replicates", len(calls), len(ids))
    out.label("model:" + m.type, case["which"], "own init" if case["own_init"] else "default init")


def p_boot_scores(case, out):
    """Log-likelihoods and gradient norms reported for the replicates are those of the original data at the
    replicates."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    reps = case["reps"]
    for v in reps:
        guard(m, v)
    mo = m.create()
    if m.type == "Mixed Logit":
        fitted_mixed(mo, m)
    boot = make_boot(m, mo, reps[0])
    which = case["which"]
    setattr(boot, which + "_replicates", pd.DataFrame(np.array(reps, dtype=float), columns=boot.mle_params.index))
    if m.type == "Mixed Logit":
        # one choice per decision maker, so that simulated probabilities and simulated likelihood agree
        nd, s = case["nd"], case["seed"]
        stir(s % 17)
        got = sut(boot.calc_log_likes_for_replicates, replicates=which, num_draws=nd, seed=s)
        draws = get_draws(len(ds.mixers), nd, m.n_mix, s)
        exp = []
        for v in reps:
            ker = np.exp(np.array(m.ref_kernel(v, draws))).mean(axis=1)
            exp.append(sum(math.log(ker[r]) for r in ds.obs_ch))
        close(np.atleast_1d(np.asarray(got)), exp, "log-likelihoods of the replicates (Mixed Logit)", rtol=1e-8, atol=1e-8)
        close(np.asarray(getattr(boot, which + "_log_likelihoods")), exp, "stored log-likelihoods", rtol=1e-8, atol=1e-8)
        out.nt = len(reps) > 1 and max(exp) - min(exp) > 1e-6
        out.label("model:" + m.type, which)
        return
    got = sut(boot.calc_log_likes_for_replicates, replicates=which)
    exp = [m.ref_loglik(v) for v in reps]
    tol = 1e-6 if m.type in ("Scobit", "Cloglog") else 1e-8
    got = np.atleast_1d(np.asarray(got))  # one replicate: a scalar
    close(got, exp, "log-likelihoods of the replicates (%s)" % m.type, rtol=tol, atol=tol)
    ser = getattr(boot, which + "_log_likelihoods")
    close(np.asarray(ser), exp, "stored log-likelihoods", rtol=tol, atol=tol)
    w = case.get("weights")
    lw = None if w is None else m.long_weights(w)
    ridge = case.get("ridge")
    con = case.get("constrained")
    norms = sut(boot.calc_gradient_norm_for_replicates, replicates=which, ridge=ridge, constrained_pos=con, weights=lw)
    e2 = []
    for v in reps:
        g = ref_gradient(m, v, None, w, ridge)
        e2.append(math.sqrt(sum(x * x for x in g)))
    close(norms, e2, "gradient norms of the replicates (%s)" % m.type, rtol=1e-5, atol=1e-6 * (1 + max(e2)))
    out.nt = len(reps) > 1 and max(exp) - min(exp) > 1e-6
    out.label("model:" + m.type, which)


# ------------------------------------------------------------------------------ percentile / BCa
def rank(v, q, upper):
    """candidate order statistics: position q/100*(n-1), rounded down (up for the upper end); both
    neighbours when the position is an integer up to rounding error"""
    s = sorted(v)
    h = q / 100.0 * (len(s) - 1)
    k = round(h)
    if abs(h - k) < 1e-7:
        if upper:
            ks = (k, k + 1)
        else:
            ks = (k - 1, k)
        # exactly on an order statistic both roundings must give it; allow for noise in q itself
        ks = tuple(ks)
    else:
        ks = (math.ceil(h),) if upper else (math.floor(h),)
    return [s[min(max(z, 0), len(s) - 1)] for z in ks]


def expect_in(x, cands, what):
    require(any(abs(x - c) <= 1e-12 * abs(c) for c in cands), "%s is %r, expected %s", what, float(x), cands)


def in_units(case, *arrays):
    """the arrays with the columns in the units of measurement of the case"""
    u = case.get("unit")
    return [np.array(a, dtype=float) * (2.0 ** np.array(u, dtype=float) if u else 1.0) for a in arrays]


def label_of(conf):
    a = 100.0 - conf
    return ["{:.3g}%".format(a / 2.0), "{:.3g}%".format(100 - a / 2.0)]


def p_percentile(case, out):
    """Percentile intervals: the order statistics at alpha/2 (rounded down) and 1-alpha/2 (rounded up)."""
    from pylogit import bootstrap_calcs as bc
    B, = in_units(case, case["reps"])
    n, K = B.shape
    conf = case["conf"]
    keep = B.copy()
    got = arr(sut(bc.calc_percentile_interval, B, conf), (2, K), "percentile interval")
    require(np.array_equal(B, keep), "replicates were modified")
    a = 100.0 - conf
    for k in range(K):
        expect_in(got[0, k], rank(B[:, k], a / 2.0, False), "lower end of the %s%% percentile interval" % conf)
        expect_in(got[1, k], rank(B[:, k], 100.0 - a / 2.0, True), "upper end of the %s%% percentile interval" % conf)
    require((got[0] <= got[1]).all(), "lower end above upper end")
    # order of the replicates is irrelevant; increasing transformations carry over; wider level, wider interval
    again = arr(sut(bc.calc_percentile_interval, B[case["perm"]], conf))
    require(np.array_equal(again, got), "the interval depends on the order of the replicates")
    t = arr(sut(bc.calc_percentile_interval, 2.0 * B + 1.0, conf))
    close(t, 2.0 * got + 1.0, "interval of transformed replicates", rtol=1e-12, atol=1e-12)
    neg = arr(sut(bc.calc_percentile_interval, -B, conf))
    for k in range(K):
        expect_in(-neg[1, k], rank(B[:, k], a / 2.0, False), "mirrored lower end")
    c2 = case["conf2"]
    if c2 > conf + 1e-6:
        g2 = arr(sut(bc.calc_percentile_interval, B, c2))
        require((g2[0] <= got[0]).all() and (g2[1] >= got[1]).all(), "the %s%% interval does not contain the %s%% interval", c2, conf)
        out.label("nested levels")
    out.nt = len(set(B[:, 0].tolist())) > 3
    out.label("n=%d" % (10 * (n // 10)))


def bca_reference(B, Jk, mle, conf, k):
    n = len(B)
    cnt = sum(1 for b in B if b < mle)
    if cnt == 0 or cnt == n:
        raise Skip("all replicates on one side of the estimate")
    z0 = ref.norm_ppf(cnt / float(n))
    mean = sum(Jk) / len(Jk)
    d = [mean - x for x in Jk]
    s2 = sum(x * x for x in d)
    acc = 0.0 if s2 == 0 else sum(x ** 3 for x in d) / (6 * s2 ** 1.5)
    res = []
    al = (100.0 - conf) / 100.0
    for p in (al / 2, 1 - al / 2):
        z = z0 + ref.norm_ppf(p)
        den = 1 - acc * z
        if den < 0.02:
            raise Skip("acceleration too large")
        res.append(100 * ref.norm_cdf(z0 + z / den))
    return z0, acc, res


def tie_guard(B, mle):
    if any(abs(b - mle) < 1e-12 * max(abs(b), abs(mle)) and b != mle for b in B):
        raise Skip("tie up to rounding")


def p_bca(case, out):
    """BCa intervals follow Efron's definition; labels and columns of the reported tables."""
    from pylogit import bootstrap_calcs as bc
    B, Jk, mle = in_units(case, case["reps"], case["jack"], case["mle"])
    n, K = B.shape
    conf = case["conf"]
    exps = []
    for k in range(K):
        tie_guard(B[:, k], mle[k])
        exps.append(bca_reference(B[:, k].tolist(), Jk[:, k].tolist(), float(mle[k]), conf, k))
    z0 = arr(sut(bc.calc_bias_correction_bca, B, mle), (K,), "bias correction")
    close(z0, [e[0] for e in exps], "bias correction", rtol=1e-6, atol=1e-7)
    acc = arr(sut(bc.calc_acceleration_bca, Jk), (K,), "acceleration")
    close(acc, [e[1] for e in exps], "acceleration", rtol=1e-6, atol=1e-8)
    a = 100.0 - conf
    lo = arr(sut(bc.calc_lower_bca_percentile, a, z0, acc), (K,), "lower percentile")
    hi = arr(sut(bc.calc_upper_bca_percentile, a, z0, acc), (K,), "upper percentile")
    close(lo, [e[2][0] for e in exps], "lower BCa percentile", rtol=1e-5, atol=1e-6)
    close(hi, [e[2][1] for e in exps], "upper BCa percentile", rtol=1e-5, atol=1e-6)
    keep = B.copy(), Jk.copy(), mle.copy()
    got = arr(sut(bc.calc_bca_interval, B, Jk, mle, conf), (2, K), "BCa interval")
    require(all(np.array_equal(x, y) for x, y in zip((B, Jk, mle), keep)), "arguments were modified")
    for k in range(K):
        for end in (0, 1):
            q = exps[k][2][end]
            h = q / 100.0 * (n - 1)
            if abs(h - round(h)) < 1e-4:
                s = sorted(B[:, k])
                c = [s[min(max(z, 0), n - 1)] for z in (round(h) - 1, round(h), round(h) + 1)]
            else:
                c = rank(B[:, k], q, end == 1)
            expect_in(got[end, k], c, "%s end of the %s%% BCa interval of parameter %d" % (("lower", "upper")[end], conf, k))
    out.nt = len(set(B[:, 0].tolist())) > 3
    if max(abs(e[0]) for e in exps) > 0.1:
        out.label("biased")
    if max(abs(e[1]) for e in exps) > 0.01:
        out.label("accelerated")


def p_interval_tables(case, out):
    """The tables a user reads: one row per parameter (named), one column per end, and columns of one table do
    not depend on which other parameters are in it."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    mo = m.create()
    B, Jk, mle = in_units(case, case["reps"], case["jack"], case["mle"])
    boot = make_boot(m, mo, mle.tolist())
    names = m.all_names()
    conf = case["conf"]
    exps = []
    for k in range(m.n_params):
        tie_guard(B[:, k], mle[k])
        exps.append(bca_reference(B[:, k].tolist(), Jk[:, k].tolist(), float(mle[k]), conf, k))
    boot.bootstrap_replicates = pd.DataFrame(B, columns=boot.mle_params.index)
    boot.jackknife_replicates = pd.DataFrame(Jk, columns=boot.mle_params.index)
    via = case["via"]
    if via == "conf":
        sut(boot.calc_conf_intervals, conf, interval_type="pi")
        sut(boot.calc_conf_intervals, conf, interval_type="bca")
    else:
        sut(boot.calc_percentile_interval, conf)
        sut(boot.calc_bca_interval, conf)
    a = 100.0 - conf
    n = len(B)
    for tab, what in ((boot.percentile_interval, "percentile_interval"), (boot.bca_interval, "bca_interval")):
        require(isinstance(tab, pd.DataFrame) and list(tab.index) == names, "%s is not labelled by the parameters", what)
        require(list(tab.columns) == label_of(conf), "%s has columns %s, expected %s", what, list(tab.columns), label_of(conf))
    P, Q = boot.percentile_interval.values, boot.bca_interval.values
    for k in range(m.n_params):
        expect_in(P[k, 0], rank(B[:, k], a / 2.0, False), "percentile lower end of %s" % names[k])
        expect_in(P[k, 1], rank(B[:, k], 100 - a / 2.0, True), "percentile upper end of %s" % names[k])
        for end in (0, 1):
            q = exps[k][2][end]
            h = q / 100.0 * (n - 1)
            s = sorted(B[:, k])
            c = [s[min(max(z, 0), n - 1)] for z in (round(h) - 1, round(h), round(h) + 1)] if abs(h - round(h)) < 1e-4 else rank(B[:, k], q, end == 1)
            expect_in(Q[k, end], c, "BCa end %d of %s" % (end, names[k]))
    out.nt = n > 4 and m.n_params > 1
    out.label("model:" + m.type)


# ------------------------------------------------------------------------------ ABC
class AbcRef(object):
    """Efron & Tibshirani's ABC intervals around an independent weighted maximum likelihood estimator"""

    def __init__(self, m, ridge, user_w):
        self.m, self.ridge, self.uw = m, ridge, user_w
        self.n, self.K = m.ds.n_obs, m.n_params

    def T(self, w):
        if min(w) < 0:
            raise Skip("negative weights")
        w = [a * b for a, b in zip(w, self.uw)] if self.uw else list(w)
        r = newton(self.m, w, self.ridge, list(range(self.K)), [0.0] * self.K, None)
        if r is None:
            raise Skip("no maximum")
        scale = sum(w)
        if r[2] > 300 * 1 or scale <= 0:
            raise Skip("ill-conditioned")
        return r[0]

    def interval(self, theta, conf, e):
        n, K = self.n, self.K
        w0 = [1.0 / n] * n
        plus, minus = [], []
        for i in range(n):
            plus.append(self.T([(1 - e) * w + (e if j == i else 0) for j, w in enumerate(w0)]))
            minus.append(self.T([(1 + e) * w - (e if j == i else 0) for j, w in enumerate(w0)]))
        lo, hi = [], []
        for k in range(K):
            inf = [(p[k] - q[k]) / (2 * e) for p, q in zip(plus, minus)]
            inf2 = [(p[k] - 2 * theta[k] + q[k]) / e ** 2 for p, q in zip(plus, minus)]
            ss = sum(x * x for x in inf)
            se = math.sqrt(ss) / n
            if se < 1e-4:
                raise Skip("parameter without influence")
            a = sum(x ** 3 for x in inf) / (6 * ss ** 1.5)
            bias = sum(inf2) / (2.0 * n * n)
            d = [x / (n * n * se) for x in inf]
            cq = (self.T([w + e * x for w, x in zip(w0, d)])[k] - 2 * theta[k] +
                  self.T([w - e * x for w, x in zip(w0, d)])[k]) / (2 * se * e * e)
            g = bias / se - cq
            arg = 2 * ref.norm_cdf(a) * ref.norm_cdf(-g)
            if not 0.01 < arg < 0.99:
                raise Skip("extreme bias correction")
            z0 = ref.norm_ppf(arg)
            al = (100.0 - conf) / 200.0
            ends = []
            for p in (al, 1 - al):
                z = z0 + ref.norm_ppf(p)
                den = 1 - a * z
                if abs(den) < 0.2:
                    raise Skip("extreme acceleration")
                lam = z / den ** 2
                ends.append(self.T([w + lam * x for w, x in zip(w0, d)])[k])
            lo.append(ends[0])
            hi.append(ends[1])
        return lo, hi


def p_abc(case, out):
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    ridge = case.get("ridge")
    uw = case.get("weights")
    R = AbcRef(m, ridge, uw)
    conf, e = case["conf"], case["eps"] or 0.01
    ek = {"epsilon": e} if case["eps"] else {}  # default perturbation: slightly less accurate
    theta = R.T([1.0 / ds.n_obs] * ds.n_obs)
    lo, hi = R.interval(theta, conf, e)
    mo = m.create()
    boot = make_boot(m, mo, theta)
    kw = dict(ridge=ridge, gradient_tol=1e-10, loss_tol=1e-14, print_res=False)
    if uw:
        kw["weights"] = m.long_weights(uw)
    init = np.array(case["init"], dtype=float)
    keep_kw = dict(kw)
    names = m.all_names()
    tab_names = label_of(conf)
    if case["via"] == "all":
        # other tables along with it
        B = np.array([[t + 0.1 * (((7 * r + 3 * k) % 11) - 5) for k, t in enumerate(theta)] for r in range(11)])
        boot.bootstrap_replicates = pd.DataFrame(B, columns=names)
        boot.jackknife_replicates = pd.DataFrame(B[::-1] * 0.5, columns=names)
        boot_or_skip(boot.calc_conf_intervals, conf, interval_type="all", init_vals=init, **dict(kw, **ek))
        al = boot.all_intervals
        exp_cols = [(t, c) for t in ("percentile_interval", "BCa_interval", "ABC_interval") for c in tab_names]
        require(list(al.columns) == exp_cols, "all_intervals has columns %s, expected %s", list(al.columns), exp_cols)
        require(list(al.index) == names, "all_intervals is not labelled by the parameters")
        for t, attr in (("percentile_interval", "percentile_interval"), ("BCa_interval", "bca_interval"), ("ABC_interval", "abc_interval")):
            close(al[t].values, getattr(boot, attr).values, "all_intervals[%s]" % t, rtol=0, atol=0)
    elif case["via"] == "conf":
        boot_or_skip(boot.calc_conf_intervals, conf, interval_type="abc", init_vals=init, **dict(kw, **ek))
    else:
        boot_or_skip(boot.calc_abc_interval, conf, init, **dict(kw, **ek))
    tab = boot.abc_interval
    require(list(tab.index) == names and list(tab.columns) == tab_names, "abc_interval has labels %s x %s", list(tab.index), list(tab.columns))
    got = arr(tab.values, (m.n_params, 2), "ABC interval")
    for k in range(m.n_params):
        tol = (2e-3 if ek else 0.3) * abs(hi[k] - lo[k]) + 2e-5
        require(abs(got[k, 0] - lo[k]) <= tol and abs(got[k, 1] - hi[k]) <= tol,
                "ABC interval of %s is (%r, %r), expected (%r, %r)", names[k], float(got[k, 0]), float(got[k, 1]), lo[k], hi[k])
    require(np.array_equal(init, np.array(case["init"], dtype=float)), "start values were modified")
    if uw:
        require(np.array_equal(kw["weights"], keep_kw["weights"]), "weights were modified")
    require(not hasattr(mo, "params"), "interval calculation stored estimates on the model")
    out.nt = m.n_params > 1 or max(abs(a + b - 2 * t) for a, b, t in zip(lo, hi, theta)) > 1e-3
    out.label("via:" + case["via"], "given eps" if ek else "default eps", "weighted" if uw else "unweighted", "n=%d" % ds.n_obs)


def p_abc_parts(case, out):
    """The ABC ingredients on arbitrary inputs: influence values, standard error, acceleration, bias, curvature."""
    from pylogit import bootstrap_abc as ba
    P, Q = np.array(case["plus"], dtype=float), np.array(case["minus"], dtype=float)
    th = np.array(case["theta"], dtype=float)
    e = case["eps"]
    s = case["scale"]
    P, Q = th + s * P, th + s * Q
    n, K = P.shape
    inf = arr(sut(ba.calc_empirical_influence_abc, P, Q, e), (n, K), "influence values")
    e_inf = (P - Q) / (2 * e)
    close(inf, e_inf, "influence values", rtol=1e-9, atol=2e-12 / e)
    i2 = arr(sut(ba.calc_2nd_order_influence_abc, th, P, Q, e), (n, K), "second order influence values")
    close(i2, (P - 2 * th + Q) / e ** 2, "second order influence values", rtol=1e-6, atol=4e-12 / e ** 2)
    if (np.abs(e_inf).max(axis=0) < 1e-3).any():
        out.nt = n > 2
        return
    # every coefficient in its own unit of measurement
    unit = 2.0 ** (8 * np.array(case.get("units") or [0] * K))
    ss = (e_inf ** 2).sum(axis=0)
    se = np.sqrt(ss) / n * unit
    close(arr(sut(ba.calc_std_error_abc, e_inf * unit)) / unit, se / unit, "standard error", rtol=1e-9, atol=0)
    acc = (e_inf ** 3).sum(axis=0) / (6 * ss ** 1.5)
    close(sut(ba.calc_acceleration_abc, e_inf * unit), acc, "acceleration", rtol=1e-7, atol=1e-9)
    e_i2 = (P - 2 * th + Q) / e ** 2
    bias = e_i2.sum(axis=0) / (2.0 * n * n) * unit
    close(arr(sut(ba.calc_bias_abc, e_i2 * unit)) / unit, bias / unit, "bias", rtol=1e-9, atol=1e-12 * np.abs(e_i2).max())
    cq = np.array(case["theta"]) * 0.25
    g = arr(sut(ba.calc_total_curvature_abc, bias, se, cq), (K,), "total curvature")
    close(g, bias / se - cq, "total curvature", rtol=1e-9, atol=1e-9)
    gg = np.clip(bias / se - cq, -2, 2)
    z0 = arr(sut(ba.calc_bias_correction_abc, acc, gg), (K,), "bias correction")
    for k in range(K):
        v = 2 * ref.norm_cdf(float(acc[k])) * ref.norm_cdf(-float(gg[k]))
        if 1e-6 < v < 1 - 1e-6:
            require(abs(z0[k] - ref.norm_ppf(v)) < 1e-6, "bias correction %r, expected %r", float(z0[k]), ref.norm_ppf(v))
    out.nt = n > 2
    out.label("eps=%g" % e)


def p_long_weights(case, out):
    """Weights per observation (one column per parameter) are handed to every row of the observation."""
    from pylogit import bootstrap_abc as ba
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    mo = m.create()
    C = case["cols"]
    W = np.array(case["w"], dtype=float).reshape(ds.n_obs, max(C, 1))
    if C == 0:
        W = W[:, 0]
    kw = {}
    if case["maps"]:
        kw["rows_to_obs"] = sut(mo.get_mappings_for_fit)["rows_to_obs"]
    got = sut(ba.create_long_form_weights, mo, W, **kw)
    exp = np.array([W[ds.obs_of[r]] for r in ds.order()])
    close(got, exp, "long weights", rtol=1e-12, atol=0)
    out.nt = ds.n_obs > 1
