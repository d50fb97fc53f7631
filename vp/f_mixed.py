"""Facets about simulation in mixed logit (P16) and conditioning on past choices (P17)."""
import math

import numpy as np

from vp import ref
from vp.common import DS, M, Skip, Violation, arr, close, get_draws, require, sut
from vp.f_probs import fit_or_skip, fitted_mixed, in_domain, obs_order, predict_kwargs, split_result


def stir(k):
    """leave the global random generator in an unrelated state"""
    np.random.seed(1000003 + 7 * k)
    np.random.rand(1 + k % 5)


def p_draws(case, out):
    """Standard normal, independent over variables, units and draws; a function of the seed."""
    from pylogit import mixed_logit_calcs as mlc
    n, R, K, s = case["n"], case["nd"], case["k"], case["seed"]
    stir(case["stir"])
    a = sut(mlc.get_normal_draws, n, R, K, seed=s)
    require(len(a) == K, "%d arrays of draws for %d random coefficients", len(a), K)
    a = [arr(x, (n, R), "draws").copy() for x in a]
    stir(case["stir"] + 1)
    b = sut(mlc.get_normal_draws, n, R, K, seed=s)
    for x, y in zip(a, b):
        require(np.array_equal(x, np.asarray(y)), "the same seed gave different draws")
    c = sut(mlc.get_normal_draws, n, R, K, seed=s + 1)
    require(not np.array_equal(a[0], np.asarray(c[0])), "seeds %d and %d gave the same draws", s, s + 1)
    stir(5)
    u1 = arr(sut(mlc.get_normal_draws, n, R, K)[0])
    u2 = arr(sut(mlc.get_normal_draws, n, R, K)[0])
    require(not np.array_equal(u1, u2), "two unseeded calls gave the same draws")
    allv = np.concatenate([x.ravel() for x in a])
    require(len(set(allv.tolist())) == allv.size, "draws repeat")
    require(np.isfinite(allv).all(), "non-finite draws")
    N = allv.size

    def moments(v, what):
        k = v.size
        if k < 30:
            return
        # 6.5 standard errors
        require(abs(v.mean()) < 6.5 / math.sqrt(k), "%s have mean %r (n=%d)", what, float(v.mean()), k)
        require(abs((v ** 2).mean() - 1) < 6.5 * math.sqrt(2.0 / k), "%s have second moment %r (n=%d)", what, float((v ** 2).mean()), k)
        s = np.sort(v)
        F = np.array([0.5 * math.erfc(-q / math.sqrt(2)) for q in s])
        i = np.arange(k)
        dist = max(np.max(F - i / k), np.max((i + 1.0) / k - F))
        require(dist < 3.0 / math.sqrt(k), "%s are not standard normal: distance %.3f (n=%d)", what, dist, k)

    def uncorr(x, y, what):
        if x.size >= 60:
            r = float((x * y).mean())
            require(abs(r) < 7.0 / math.sqrt(x.size), "%s are correlated: %r (n=%d)", what, r, x.size)
    moments(allv, "draws")
    for x in a:
        moments(x.ravel(), "draws of one coefficient")
        uncorr(x[1:].ravel(), x[:-1].ravel(), "draws of neighbouring units")
        uncorr(x[:, 1:].ravel(), x[:, :-1].ravel(), "successive draws of one unit")
    for i in range(K):
        for j in range(i):
            uncorr(a[i].ravel(), a[j].ravel(), "draws of two coefficients")
    # averages over units / draws of the same coefficient: variance 1/n resp. 1/R
    for x in a:
        if n >= 30:
            moments(x.mean(axis=1) * math.sqrt(R), "unit means")
        if R >= 30:
            moments(x.mean(axis=0) * math.sqrt(n), "draw means")
    out.nt = N >= 30
    out.label("n>=30" if n >= 30 else "n<30", "R>=30" if R >= 30 else "R<30", "k=%d" % K)


def p_draw_seed(case, out):
    """Results are a function of data, parameters, number of draws and seed; another seed gives another
    simulation, and different units get different draws."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    flat = case["params"]
    nd, s = case["nd"], case["seed"]
    mo = m.create()
    fitted_mixed(mo, m)
    pl = m.param_list(flat)
    stir(1)
    p1 = arr(sut(mo.predict, ds.frame(), param_list=pl, num_draws=nd, seed=s), (ds.n_rows,), "probabilities")
    stir(2)
    p2 = arr(sut(mo.predict, ds.frame(), param_list=pl, num_draws=nd, seed=s), (ds.n_rows,), "probabilities")
    require(np.array_equal(p1, p2), "the same seed gave different predictions")
    sens = max(abs(flat[m.K + q]) for q in range(m.n_mix)) > 0.2
    p3 = arr(sut(mo.predict, ds.frame(), param_list=pl, num_draws=nd, seed=s + 1), (ds.n_rows,), "probabilities")
    # does any row's probability react to the draws at all?
    draws = get_draws(len(ds.mixers), nd, m.n_mix, s)
    ker = np.exp(np.array(m.ref_kernel(flat, draws)))
    other = np.exp(np.array(m.ref_kernel(flat, get_draws(len(ds.mixers), nd, m.n_mix, s + 1))))
    reacts = sens and float(np.max(np.abs(ker.mean(1) - other.mean(1)))) > 1e-6
    if reacts:
        require(float(np.max(np.abs(p1 - p3))) > 1e-9, "another seed gave the same predictions")
    # estimation: same seed -> identical results, whatever happened to the global generator
    init = np.array(case["init"])
    res = []
    for k in range(2):
        mk = m.create()
        stir(3 + k)
        fit_or_skip(mk, m, init, nd=nd, seed=s, ridge=0.3, maxiter=2, print_res=False)
        res.append((arr(mk.params), float(mk.log_likelihood)))
    require(np.array_equal(res[0][0], res[1][0], equal_nan=True) and
            (res[0][1] == res[1][1] or res[0][1] != res[0][1]), "the same seed gave different estimates")
    # panel prediction
    q = []
    for k in range(2):
        stir(8 + k)
        q.append(arr(sut(mk.panel_predict, ds.frame(), nd, seed=s), (ds.n_rows,), "panel probabilities"))
    require(np.array_equal(q[0], q[1], equal_nan=True), "the same seed gave different panel predictions")
    out.nt = reacts
    out.label("draws=%d" % min(nd, 5))


# ------------------------------------------------------------------------------ the integral
def p_integral(case, out):
    """With many draws the simulated probabilities approach the integral over the normal mixing
    distribution, and the simulated likelihood the integral of the product over a unit's choices."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    flat, R, s = case["params"], case["nd"], case["seed"]
    if not in_domain(m, flat):
        raise Skip("domain")
    # trapezoid rule on a grid (exponentially accurate for this integrand); every other node gives the coarser
    # rule that tells whether the grid is fine enough (long sequences of choices make the integrand narrow)
    h = 0.1 if m.n_mix == 1 else 0.5
    K = int(round(8.0 / h))
    gx = range(-K, K + 1)
    wt = [h * math.exp(-0.5 * (k * h) ** 2) / math.sqrt(2 * math.pi) for k in gx]
    if m.n_mix == 1:
        nodes = [([k * h], w, k % 2 == 0) for k, w in zip(gx, wt)]
    else:
        nodes = [([k * h, l * h], w * v, k % 2 == 0 and l % 2 == 0) for k, w in zip(gx, wt) for l, v in zip(gx, wt)]
    nodes = [z for z in nodes if z[1] > 1e-14]
    Q = len(nodes)
    W = np.array([z[1] for z in nodes])
    W2 = W * np.array([2.0 ** m.n_mix if z[2] else 0.0 for z in nodes])
    p = m.P(flat)
    ker = np.zeros((ds.n_rows, Q))
    seen = {}
    for idx in ds.obs_rows:
        xr, al = [m.rows[r] for r in idx], [ds.alt_of[r] for r in idx]
        key = repr((xr, al))
        if key not in seen:
            seen[key] = [[math.exp(v) for v in ref.log_probs_obs("Mixed Logit", p, xr, al, ds.pos_of, ds.J, draws=z[0],
                                                                 mixing_pos=m.mixpos)] for z in nodes]
        for q, lp in enumerate(seen[key]):
            for r, v in zip(idx, lp):
                ker[r, q] = v
    mean = ker.dot(W)
    sd = np.sqrt(np.maximum(0, (ker ** 2).dot(W) - mean ** 2))
    if np.max(np.abs(ker.dot(W2) - mean)) > 0.01:
        raise Skip("quadrature too coarse")
    tol = 7.0 * sd / math.sqrt(R) + 2e-4
    mo = m.create()
    fitted_mixed(mo, m)
    got = arr(sut(mo.predict, ds.frame(), param_list=m.param_list(flat), num_draws=R, seed=s), (ds.n_rows,), "probabilities")
    order = ds.order()
    for i, r in enumerate(order):
        require(abs(got[i] - mean[r]) <= tol[r], "simulated probability %r with %d draws, integral %r (7 standard errors: %.3g)",
                float(got[i]), R, float(mean[r]), float(tol[r]))
    # likelihood at fixed parameters: estimation with everything constrained
    tot, var, sep = 0.0, 0.0, 0.0
    for u in ds.mixers:
        ch = [ds.obs_ch[o] for o in range(ds.n_obs) if ds.mix_of[ds.obs_ch[o]] == u]
        L = np.prod(ker[ch], axis=0)
        mu = float(L.dot(W))
        if not mu > 0 or abs(float(L.dot(W2)) / mu - 1) > 0.02:
            raise Skip("quadrature too coarse")
        v = max(0.0, float((L ** 2).dot(W)) - mu * mu)
        tot += math.log(mu)
        sep += sum(math.log(mean[r]) for r in ch)
        rel = v / mu / mu / R
        if rel > 0.01:
            raise Skip("simulation too noisy")
        var += rel
    mk = m.create()
    sut(mk.fit_mle, np.array(flat), R, seed=s, constrained_pos=list(range(m.n_params)), print_res=False, maxiter=1)
    close(mk.params, flat, "fully constrained estimates", rtol=0, atol=0)
    ll = float(mk.log_likelihood)
    t = 7.0 * math.sqrt(var) + 4 * var * len(ds.mixers) + 1e-3
    require(abs(ll - tot) <= t, "simulated log-likelihood %r with %d draws, integral %r (tolerance %.3g)", ll, R, tot, t)
    out.nt = bool(np.max(np.abs(mean - np.array([math.exp(q) for q in _fixed(m, flat)]))) > np.min(tol))
    if abs(tot - sep) > 2 * t:
        out.label("panel correlation visible")
    out.label("mix=%d" % m.n_mix)


def _fixed(m, flat):
    """log-probabilities at the mean coefficients"""
    z = [[[0.0]] * len(m.ds.mixers)] * m.n_mix
    return [row[0] for row in m.ref_kernel(flat, z)]


# ------------------------------------------------------------------------------ panel_predict
def p_panel(case, out):
    """Units with past choices are predicted with their draws weighted by the likelihood of their own past
    choices; new units with equal weights."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    ds2 = DS(case["ds2"])
    m2 = M(case["m"], ds2)
    mo = m.create()
    nd, s = case["nd"], case["seed"]
    init = case["init"]
    con = list(range(m.n_params)) if case.get("fixed") else None
    fit_or_skip(mo, m, init, nd=3, seed=11, ridge=0.25, print_res=False, maxiter=2, constrained_pos=con)
    flat = arr(mo.params, (m.n_params,), "params").tolist()
    if not all(math.isfinite(x) for x in flat) or not in_domain(m, flat) or not in_domain(m2, flat):
        raise Skip("estimates outside the numeric domain of the reference")
    mixers = []
    for r in ds2.order():
        if ds2.mix_of[r] not in mixers:
            mixers.append(ds2.mix_of[r])
    ds2.mixers = mixers
    draws = get_draws(len(mixers), nd, m.n_mix, s)
    ker = np.array(m2.ref_kernel(flat, draws))  # rows x R (log)
    # weights
    W = {}
    p = m.P(flat)
    informative = 0.0
    for i, u in enumerate(mixers):
        past = [o for o in range(ds.n_obs) if ds.mix_of[ds.obs_ch[o]] == u]
        lw = [0.0] * nd
        for r in range(nd):
            for o in past:
                idx = ds.obs_rows[o]
                lp = ref.log_probs_obs("Mixed Logit", p, [m.rows[q] for q in idx], [ds.alt_of[q] for q in idx],
                                       ds.pos_of, ds.J, draws=[d[i][r] for d in draws], mixing_pos=m.mixpos)
                lw[r] += lp[idx.index(ds.obs_ch[o])]
        if min(lw) < -400:
            raise Skip("past likelihood below the floating point range")
        mx = max(lw)
        e = [math.exp(q - mx) for q in lw]
        W[u] = [q / sum(e) for q in e]
        if past:
            informative = max(informative, max(W[u]) - min(W[u]))
    exp = np.array([sum(w * math.exp(q) for w, q in zip(W[ds2.mix_of[r]], ker[r])) for r in range(ds2.n_rows)])
    mode = case["mode"]
    df = ds2.frame(choice=mode != "long" or case.get("with_choice", True))
    keep = df.copy()
    stir(3)
    res = sut(mo.panel_predict, df, nd, seed=s, **predict_kwargs(mode, ds2))
    ch, lg = split_result(res, mode, ds2.n_rows, ds2.n_obs, False, 1)
    if lg is not None:
        close(lg, exp[ds2.order()], "panel predictions", rtol=1e-7, atol=1e-11)
    if ch is not None:
        close(ch, [exp[ds2.obs_ch[o]] for o in obs_order(ds2)], "chosen panel predictions", rtol=1e-7, atol=1e-11)
    same = df[list(keep.columns)]
    require(same.equals(keep) and set(df.columns) - set(keep.columns) <= {"intercept"}, "panel_predict changed the data it was given")
    known = [u for u in mixers if u in ds.mixers]
    out.nt = bool(known) and informative > 1e-3 and float(np.ptp(exp)) > 1e-6
    out.label("overlap:all" if len(known) == len(mixers) else ("overlap:some" if known else "overlap:none"), "mode:" + mode)
    if known and [u for u in ds.mixers if u in known] != known:
        out.label("different order of units")
    if len(known) < len(ds.mixers):
        out.label("past units not predicted")
