"""Facets about predicted probabilities."""
import math

import numpy as np
import pandas as pd

from vp import ref
from vp.common import (DS, M, Skip, Violation, arr, attach_design3d, close, finite, fresh_estimator, get_draws, require, scratch, sut)


def fitted_mixed(mo, m):
    """Mixed logit only accepts explicit parameters after estimation: one cheap iteration."""
    sut(mo.fit_mle, np.full(m.n_params, 0.1), 2, seed=1, maxiter=1, print_res=False, ridge=0.37)


def in_domain(m, flat, vmax=25.0, hmax=600.0):
    try:
        mv, mh = m.max_abs_h(flat)
    except (OverflowError, ValueError, ZeroDivisionError):
        return False
    return mh <= hmax and (m.type not in ("Scobit",) or mv <= vmax)


def split_result(res, mode, n_rows, n_obs, two_d, R):
    """normalise predict's return value -> (chosen or None, long or None)"""
    sh_l = (n_rows, R) if two_d else (n_rows,)
    sh_c = (n_obs, R) if two_d else (n_obs,)

    def fix(a, sh, what):
        a = arr(a, None, what)
        if two_d and R == 1 and a.ndim == 1:
            a = a[:, None]
        if tuple(a.shape) != sh:
            raise Violation("%s has shape %s, expected %s" % (what, a.shape, sh))
        return a
    if mode == "long":
        return None, fix(res, sh_l, "long probabilities")
    if mode == "chosen":
        return fix(res, sh_c, "chosen probabilities"), None
    require(isinstance(res, (tuple, list)) and len(res) == 2,
            "predict(return_long_probs=True, choice_col=...) did not return two arrays")
    return fix(res[0], sh_c, "chosen probabilities"), fix(res[1], sh_l, "long probabilities")


def obs_order(ds):
    """observation indices in order of first appearance in the frame"""
    seen = []
    for r in ds.order():
        o = ds.obs_of[r]
        if o not in seen:
            seen.append(o)
    return seen


def predict_kwargs(mode, ds):
    k = {"return_long_probs": mode != "chosen"}
    if mode != "long":
        k["choice_col"] = ds.c["ch"]
    return k


def p_predict(case, out):
    """predict(...) with explicit parameters equals the model definition."""
    ds, ds2 = DS(case["ds"]), DS(case.get("ds2") or case["ds"])
    m, m2 = M(case["m"], ds), M(case["m"], ds2)
    flats = case["params"]
    two_d = isinstance(flats[0], list)
    vecs = flats if two_d else [flats]
    for v in vecs:
        if not in_domain(m2, v):
            raise Skip("outside the numeric domain of the reference")
    mixed = m.type == "Mixed Logit"
    mo = case.get("_mo")
    if mo is None:
        mo = m.create()
        if mixed:
            fitted_mixed(mo, m)
        elif case.get("prefit"):
            # given parameters decide, also on an estimated model
            fit_or_skip(mo, m, [0.1] * m.n_params, maxiter=1, print_res=False, ridge=0.37)
    mode = case["mode"]
    kw = predict_kwargs(mode, ds2)
    if mixed:
        kw.update(num_draws=case["nd"], seed=case["seed"])
    df = ds2.frame(choice=mode != "long" or case.get("with_choice", True))
    pl = m.param_list(flats)
    if case.get("no_ints") and m.n_ints():
        # intercepts left out of the given parameters: there are none
        pl[1] = None
        at = len(m.nests or []) + m.n_shapes()
        vecs = [v[:at] + [0.0] * m.n_ints() + v[at + m.n_ints():] for v in vecs]
        out.label("without-intercepts")
    keep = [None if x is None else x.copy() for x in pl]
    if case.get("csv"):
        with scratch() as d:
            p = d + "/new_data.csv"
            df.to_csv(p, index=False)
            res = sut(mo.predict, p, param_list=pl, **kw)
    else:
        res = sut(mo.predict, df, param_list=pl, **kw)
    for a, b in zip(pl, keep):
        require(a is None or np.array_equal(a, b), "predict modified the parameter arrays it was given")
    ch, lg = split_result(res, mode, ds2.n_rows, ds2.n_obs, two_d, len(vecs))
    draws = None
    if mixed:
        # mixing units in order of appearance in the frame that was predicted
        mixers = []
        for r in ds2.order():
            if ds2.mix_of[r] not in mixers:
                mixers.append(ds2.mix_of[r])
        ds2.mixers = mixers
        draws = get_draws(len(mixers), case["nd"], m.n_mix, case["seed"])
    exp = []
    for v in vecs:
        if mixed:
            ker = m2.ref_kernel(v, draws)
            exp.append([sum(math.exp(q) for q in row) / len(row) for row in ker])
        else:
            exp.append([math.exp(q) for q in m2.ref_log_probs(v)])
    exp = np.array(exp).T
    order = ds2.order()
    rt = 2e-7 if m.type in ("Scobit", "Cloglog") else 1e-8
    if lg is not None:
        close(lg, exp[order] if two_d else exp[order, 0], "long probabilities (%s)" % m.type, rtol=rt, atol=1e-12)
    if ch is not None:
        e = np.array([exp[ds2.obs_ch[o]] for o in obs_order(ds2)])
        close(ch, e if two_d else e[:, 0], "chosen probabilities (%s)" % m.type, rtol=rt, atol=1e-12)
    out.nt = ds2.n_obs >= 1 and float(np.ptp(exp)) > 1e-6
    out.label("model:" + m.type, "mode:" + mode, "2d" if two_d else "1d",
              "new-data" if case.get("ds2") else "same-data", "shuffled" if ds2.perm else "grouped",
              "csv" if case.get("csv") else "frame")
    if m.iref is not None:
        out.label("outside-intercepts")


def fit_kwargs(m, case):
    k = dict(print_res=False, method=case.get("method", "BFGS"), maxiter=case.get("maxiter", 5))
    if case.get("ridge") is not None:
        k["ridge"] = case["ridge"]
    return k


def fit(mo, m, init, nd=None, seed=None, **k):
    init = np.array(init, dtype=float)
    if m.type == "Mixed Logit":
        return sut(mo.fit_mle, init, nd, seed=seed, **k)
    return sut(mo.fit_mle, init, **k)


def fit_or_skip(mo, m, init, **k):
    """Estimation needs an invertible hessian; data where it is exactly singular is out of domain."""
    try:
        return fit(mo, m, init, **k)
    except Violation as v:
        if "LinAlgError" in str(v) or "infs or NaNs" in str(v):
            raise Skip("hessian not invertible")
        raise


def p_fitted(case, out):
    """After estimation: stored fitted probabilities and predict() without parameters agree with the
    definition at the stored estimates."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    mo = m.create()
    fit_or_skip(mo, m, case["init"], nd=case.get("nd"), seed=case.get("seed"), ridge=0.25, print_res=False,
                maxiter=case["maxiter"])
    flat = arr(mo.params, (m.n_params,), "params").tolist()
    require(list(mo.params.index) == m.all_names(), "parameter names %s, expected %s", list(mo.params.index), m.all_names())
    if not all(math.isfinite(x) for x in flat) or not in_domain(m, flat):
        raise Skip("estimates outside the numeric domain of the reference")
    rt, at = (1e-6, 1e-9)
    if m.type == "Mixed Logit":
        draws = get_draws(len(ds.mixers), case["nd"], m.n_mix, case["seed"])
        ker = m.ref_kernel(flat, draws)
        kp = np.exp(np.array(ker))
        close(mo.long_fitted_probs, kp, "long_fitted_probs", rtol=rt, atol=at)
        # chosen probabilities: per observation and draw
        close(mo.fitted_probs, kp[ds.obs_ch], "fitted_probs", rtol=rt, atol=at)
        exp = kp.mean(axis=1)
        got = sut(mo.predict, ds.frame(), num_draws=case["nd"], seed=case["seed"])
    else:
        exp = np.exp(np.array(m.ref_log_probs(flat)))
        close(mo.long_fitted_probs, exp, "long_fitted_probs", rtol=rt, atol=at)
        close(mo.fitted_probs, exp[ds.obs_ch], "fitted_probs", rtol=rt, atol=at)
        got = sut(mo.predict, ds.frame())
    close(got, exp, "predict() at the estimates", rtol=rt, atol=at)
    out.nt = float(np.ptp(exp)) > 1e-6
    out.label("model:" + m.type)


# -------------------------------------------------------------------------------- validity
def check_distribution(lg, ds, what, order=None):
    """every probability finite and in [0, 1]; the rows of an observation sum to one"""
    a = finite(lg, what)
    if a.ndim == 1:
        a = a[:, None]
    require((a >= 0).all() and (a <= 1 + 1e-9).all(), "%s outside [0, 1]: min %r max %r", what, float(a.min()), float(a.max()))
    order = ds.order()
    inv = {r: i for i, r in enumerate(order)}
    for o, idx in enumerate(ds.obs_rows):
        s = a[[inv[r] for r in idx]].sum(axis=0)
        require((np.abs(s - 1) <= 1e-8).all(), "%s of observation %s sum to %s", what, ds.obs_ids[o], s.tolist())


def alt_kinds(m, flat):
    """alternative id -> (shape, outside intercept, nest): alternatives of equal kind differ only in
    their systematic utility"""
    J = m.ds.J
    ns, ni = m.n_shapes(), m.n_ints()
    sh = flat[:ns] if ns else []
    if m.type == "Asym":
        sh = ref.full_vector(sh, m.sref, J)
    if not ns:
        sh = [0.0] * J
    ints = ref.full_vector(flat[ns:ns + ni], m.iref, J) if ni else [0.0] * J
    return {a: (sh[i], ints[i], m.nest_of[a] if m.nest_of else 0) for a, i in m.ds.pos_of.items()}


def p_valid(case, out):
    """Any finite utilities, however large: predict yields a probability distribution; the
    log-likelihood and chosen probabilities stay finite."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    mo = m.create()
    flat = case["params"]
    mixed = m.type == "Mixed Logit"
    df = ds.frame()
    if mixed:
        fitted_mixed(mo, m)
        ch, lg = sut(mo.predict, df, param_list=m.param_list(flat), num_draws=case["nd"], seed=case["seed"],
                     choice_col=ds.c["ch"])
    else:
        ch, lg = sut(mo.predict, df, param_list=m.param_list(flat), choice_col=ds.c["ch"])
    arr(lg, (ds.n_rows,), "long probabilities")
    arr(ch, (ds.n_obs,), "chosen probabilities")
    check_distribution(lg, ds, "predicted probabilities (%s)" % m.type)
    c = finite(ch, "chosen probabilities")
    require((c >= 0).all() and (c <= 1 + 1e-9).all(), "chosen probabilities outside [0,1]")
    inv = {r: i for i, r in enumerate(ds.order())}
    la = arr(lg)
    for q, o in enumerate(obs_order(ds)):
        e = la[inv[ds.obs_ch[o]]]
        require(abs(c[q] - e) <= 1e-9, "chosen probability of observation %s is %r, the row says %r",
                ds.obs_ids[o], float(c[q]), float(e))
    betas = flat[len(flat) - m.K - m.n_mix:][:m.K]
    vs = [float(ref.dot(m.rows[r], betas)) for r in range(ds.n_rows)]
    if not mixed:
        # weak monotonicity: of two alternatives of one choice situation that differ only in their
        # systematic utility, the more attractive one is never the less likely one
        kind = alt_kinds(m, flat)
        for idx in ds.obs_rows:
            for a in idx:
                for b in idx:
                    if vs[a] > vs[b] and kind[ds.alt_of[a]] == kind[ds.alt_of[b]]:
                        out.label("compared")
                        require(la[inv[a]] >= la[inv[b]] - 1e-9,
                                "utility %r > %r but probability %r < %r", vs[a], vs[b], float(la[inv[a]]), float(la[inv[b]]))
    if ds.perm is None and not mixed:
        est = fresh_estimator(mo, m, m.n_params)
        ll = sut(est.convenience_calc_log_likelihood, np.array(flat))
        ll = arr(ll, None, "log-likelihood").ravel()
        require(ll.size == 1 and np.isfinite(ll[0]) and ll[0] <= 1e-6, "log-likelihood is %s", ll.tolist())
        e = sum(math.log(float(la[inv[r]]) or 1e-300) for r in ds.obs_ch)
        require(abs(ll[0] - e) <= 1e-6 * (1 + abs(e)), "log-likelihood is %r, the chosen alternatives' probabilities give %r",
                float(ll[0]), e)
    if mixed:
        # the likelihood of a unit's sequence of choices lies between that of its best draw divided by the number of
        # draws and the mean over the draws (sequence probabilities below the floating point range count as 1e-300)
        nd = case["nd"]
        attach_design3d(mo, m, get_draws(len(ds.mixers), nd, m.n_mix, case["seed"]))
        est = fresh_estimator(mo, m, m.n_params)
        ll = arr(sut(est.convenience_calc_log_likelihood, np.array(flat)), None, "log-likelihood").ravel()
        require(ll.size == 1 and np.isfinite(ll[0]), "log-likelihood is %s", ll.tolist())
        ker = arr(sut(est.convenience_calc_probs, np.array(flat))[1]).reshape((ds.n_rows, nd))
        lo = hi = 0.0
        for u in ds.mixers:
            ch_rows = [ds.obs_ch[o] for o in range(ds.n_obs) if ds.mix_of[ds.obs_ch[o]] == u]
            S = [sum(math.log(float(ker[r, q]) or 1e-300) for r in ch_rows) for q in range(nd)]
            lo += max(S) - math.log(nd)
            hi += math.log(sum(max(math.exp(x), 1e-300) for x in S) / nd)
            if max(S) < -745:
                out.label("sequence below the floating point range")
        tol = 1e-6 * (1 + abs(lo))
        require(lo - tol <= ll[0] <= hi + tol, "simulated log-likelihood is %r; the probabilities of the chosen alternatives "
                "allow [%r, %r]", float(ll[0]), lo, hi)
    mx = max(abs(v) for v in vs)
    out.nt = mx > 30
    out.label("model:" + m.type, "|v|>700" if mx > 700 else ("|v|>30" if mx > 30 else "|v|<=30"))


def lossy(m, shapes, v, h, a):
    """the library's underflow guards (pinned by its tests) may move this transformed utility outwards"""
    if m.type == "Cloglog":
        return v < -18.0
    if m.type == "Scobit":
        return h > 18.0 or v > 18.0
    if m.type == "Asym" and v < 0:
        full = list(shapes)
        full.insert(m.sref, 0.0)
        return full[a] > 20.0 + max(x for i, x in enumerate(full) if i != a)
    return False


def p_limits(case, out):
    """Parameters of any magnitude: an alternative whose exact transformed utility exceeds the others' by a wide margin gets
    (almost) all the probability, and where nothing saturates the probabilities are the exact ones."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    flat = case["params"]
    mo = m.create()
    lg = sut(mo.predict, ds.frame(), param_list=m.param_list(flat), choice_col=None)
    la = arr(lg, (ds.n_rows,), "long probabilities")
    inv = {r: i for i, r in enumerate(ds.order())}
    pos = 0
    shapes = ints = None
    if m.n_shapes():
        shapes = flat[:m.n_shapes()]
        pos = m.n_shapes()
    ints = [0.0] * ds.J
    if m.n_ints():
        ints = ref.full_vector(flat[pos:pos + m.n_ints()], m.iref, ds.J)
        pos += m.n_ints()
    betas = flat[pos:]
    decided = exact = 0
    for o, idx in enumerate(ds.obs_rows):
        vs = [float(ref.dot(m.rows[r], betas)) for r in idx]
        hs = [ref.wide_h(m.type, v, ds.pos_of[ds.alt_of[r]], ds.J, shapes, m.sref, ints) for v, r in zip(vs, idx)]
        got = [float(la[inv[r]]) for r in idx]
        if m.type == "Scobit" and min(vs) < -600.0:
            continue
        loss = [lossy(m, shapes, v, h - ints[ds.pos_of[ds.alt_of[r]]], ds.pos_of[ds.alt_of[r]]) for v, h, r in zip(vs, hs, idx)]
        if any(loss):
            out.label("underflow")
        elif max(abs(h) for h in hs) <= 600.0:
            d = ref.LSE(hs)
            exact += len(idx) > 1
            for g, h, v in zip(got, hs, vs):
                e = math.exp(h - d)
                require(abs(g - e) <= 1e-6 + 1e-14 * max(abs(x) for x in hs), "observation %s: probability %r, expected %r (utilities %s, transformed %s)",
                        ds.obs_ids[o], g, e, vs, hs)
            continue
        if len(idx) > 1:
            cl = [min(600.0, max(-600.0, h)) for h in hs]
            t = max(range(len(cl)), key=lambda q: cl[q])
            rest = [q for q in range(len(cl)) if q != t]
            # scobit's guard moves upwards, the others downwards
            if any(loss) and (any(loss[q] for q in rest) if m.type == "Scobit" else loss[t]):
                continue
            if all(cl[t] - cl[q] >= 60.0 for q in rest):
                decided += 1
                require(got[t] >= 1 - 1e-6, "observation %s: probability %r of the alternative that dominates (utilities %s, transformed %s)",
                        ds.obs_ids[o], got[t], vs, hs)
    out.nt = decided + exact > 0
    out.label("model:" + m.type)
    if decided:
        out.label("saturated")
    if exact:
        out.label("exact")
