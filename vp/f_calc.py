"""Log-likelihood, gradient, hessian and information matrices against the reference."""
import math

import numpy as np

from vp import ref
from vp.common import (DS, M, Skip, Violation, arr, attach_design3d, close, close_any, finite, fresh_estimator, get_draws,
                       require, sut)
from vp.f_probs import fit_or_skip, in_domain


def setup(case):
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    mo = m.create()
    draws = None
    if m.type == "Mixed Logit":
        draws = get_draws(len(ds.mixers), case["nd"], m.n_mix, case["seed"])
        attach_design3d(mo, m, draws)
    w = case.get("weights")
    if w is not None:
        w = w[:len(ds.mixers)] if m.type == "Mixed Logit" else w[:ds.n_obs]
    lw = None if w is None else m.long_weights(w)
    return ds, m, mo, draws, w, lw


def guard(m, flat, hmax=200.0, draws=None):
    if draws is not None:
        # a sequence of choices whose probability is not representable
        ker = np.array(m.ref_kernel(flat, draws))
        for mx in m.ds.mixers:
            seq = sum(ker[r] for r in m.ds.obs_ch if m.ds.mix_of[r] == mx)
            if float(np.max(seq)) < -600:
                raise Skip("probability of a sequence of choices not representable in floating point")
    if not in_domain(m, flat, vmax=20, hmax=hmax):
        raise Skip("outside the numeric domain of the reference")
    if m.type == "Asym":
        # the transformation has a kink at zero: no derivative oracle on top of it
        b = flat[len(flat) - m.K:]
        for r in m.rows:
            v = sum(x * y for x, y in zip(r, b))
            if abs(v) < 1e-9 and any(x * y != 0 for x, y in zip(r, b)):
                raise Skip("utility at the kink of the asymmetric transformation")
    if m.type == "Mixed Logit":
        sig = flat[len(flat) - m.n_mix:]
        if max(abs(s) for s in sig) > 5:
            raise Skip("large sigma")


def scalar(x, what):
    a = arr(x, None, what).ravel()
    require(a.size == 1, "%s is not a scalar: shape %s", what, a.shape)
    return float(a[0])


def labels(out, m, case, ds):
    out.label("model:" + m.type)
    if case.get("weights") is not None:
        out.label("weighted")
    if case.get("ridge") is not None:
        out.label("ridge")
    if any(len(i) == 1 for i in ds.obs_rows):
        out.label("single-alternative set")
    if m.iref is not None:
        out.label("outside-intercepts")
    if m.type == "Mixed Logit" and ds.n_obs > 11:
        out.label("long panel")
    if ds.J > 4:
        out.label("5-11 alternatives")


def p_loglik(case, out):
    ds, m, mo, draws, w, lw = setup(case)
    flat = case["params"]
    guard(m, flat, draws=draws)
    est = fresh_estimator(mo, m, m.n_params, ridge=case.get("ridge"), weights=lw)
    exp = m.ref_loglik(flat, draws=draws, weights=w, ridge=case.get("ridge"))
    got = scalar(sut(est.convenience_calc_log_likelihood, np.array(flat)), "log-likelihood")
    tol = 1e-6 if m.type in ("Scobit", "Cloglog") else 1e-9
    require(abs(got - exp) <= tol * (1 + abs(exp)), "%s log-likelihood is %r, expected %r", m.type, got, exp)
    pair = sut(est.calc_neg_log_likelihood_and_neg_gradient, np.array(flat))
    require(isinstance(pair, (tuple, list)) and len(pair) == 2, "objective does not return (value, gradient)")
    got = scalar(pair[0], "objective")
    require(abs(got + exp) <= tol * (1 + abs(exp)), "%s objective is %r, expected %r", m.type, got, -exp)
    # chosen / long probabilities used for the likelihood
    ch, lg = sut(est.convenience_calc_probs, np.array(flat))
    if m.type == "Mixed Logit":
        ker = np.exp(np.array(m.ref_kernel(flat, draws)))
        close(arr(lg).reshape(ker.shape), ker, "estimator probabilities", rtol=1e-7, atol=1e-12)
        close(arr(ch).reshape(ker[ds.obs_ch].shape), ker[ds.obs_ch], "estimator chosen probabilities", rtol=1e-7, atol=1e-12)
    else:
        pr = np.exp(np.array(m.ref_log_probs(flat)))
        close(lg, pr, "estimator probabilities", rtol=2e-7, atol=1e-12)
        close(ch, pr[ds.obs_ch], "estimator chosen probabilities", rtol=2e-7, atol=1e-12)
    out.nt = abs(exp) > 1e-3 and any(x != 0 for x in flat)
    labels(out, m, case, ds)


def p_ll_fit(case, out):
    """The log-likelihoods reported by estimation: at the estimates, and at zero."""
    ds, m, mo, _, w, lw = setup(dict(case, nd=case.get("nd", 1), seed=case.get("seed", 1)))
    ridge = case.get("ridge")
    k = dict(print_res=False, maxiter=case["maxiter"], ridge=ridge)
    if lw is not None:
        k["weights"] = lw
    fit_or_skip(mo, m, case["init"], nd=case.get("nd"), seed=case.get("seed"), **k)
    flat = arr(mo.params, (m.n_params,), "params").tolist()
    if not all(math.isfinite(x) for x in flat):
        raise Skip("estimates not finite")
    draws = get_draws(len(ds.mixers), case["nd"], m.n_mix, case["seed"]) if m.type == "Mixed Logit" else None
    guard(m, flat, hmax=300)
    exp = m.ref_loglik(flat, draws=draws, weights=w, ridge=ridge)
    got = scalar(mo.log_likelihood, "log_likelihood")
    require(abs(got - exp) <= 1e-6 * (1 + abs(exp)), "%s reported log-likelihood %r, at the reported estimates it is %r",
            m.type, got, exp)
    exp0 = m.ref_loglik([0.0] * m.n_params, draws=draws, weights=w, ridge=ridge)
    got0 = scalar(mo.null_log_likelihood, "null_log_likelihood")
    require(abs(got0 - exp0) <= 1e-6 * (1 + abs(exp0)), "%s reported null log-likelihood %r, expected %r", m.type, got0, exp0)
    out.nt = abs(exp) > 1e-3
    labels(out, m, case, ds)


def ref_gradient(m, flat, draws, w, ridge):
    return grad_of(m.ref_loglik(ref.seed_duals(flat), draws=draws, weights=w, ridge=ridge), len(flat))


def known_gradient(case, m, flat, draws, w, ridge):
    """open finding: with ridge, the nest entries of the nested gradient use (20 - x) in place of the derivative"""
    if not (m.nests and ridge is not None) or case.get("strict"):
        return []
    e = np.array(ref_gradient(m, flat, draws, w, ridge))
    e0 = np.array(ref_gradient(m, flat, draws, w, None))
    for q in range(len(m.nests)):
        e[q] = e0[q] - 2 * ridge * (20 - flat[q])
    return [e]


def known_hessian(case, m, exp, ridge):
    """open finding: the ridge term of the mixed logit's hessian has the wrong sign"""
    if m.type != "Mixed Logit" or ridge is None or case.get("strict"):
        return []
    return [exp + 4 * ridge * np.identity(exp.shape[0])]


def known_fisher(case, F, ridge):
    """open finding: with ridge, twice the penalty is subtracted from the information matrix"""
    n = F.shape[0]
    if ridge is None:
        return [F]
    return [F, F + 2 * ridge * np.identity(n)] + ([] if case.get("strict") else [F - 2 * ridge * np.identity(n)])


def grad_of(x, n):
    return x.g if isinstance(x, ref.Dual) else [0.0] * n


def p_gradient(case, out):
    ds, m, mo, draws, w, lw = setup(case)
    flat = case["params"]
    guard(m, flat, draws=draws)
    ridge = case.get("ridge")
    est = fresh_estimator(mo, m, m.n_params, ridge=ridge, weights=lw, constrained_pos=case.get("constrained"))
    exp = np.array(ref_gradient(m, flat, draws, w, ridge))
    known = known_gradient(case, m, flat, draws, w, ridge)
    sc = 1.0 + float(np.abs(exp).max())
    tol = 2e-6 if m.type in ("Scobit", "Cloglog") else 1e-7
    got = sut(est.convenience_calc_gradient, np.array(flat))
    close_any(arr(got).ravel(), [exp] + known, "%s gradient" % m.type, rtol=tol, atol=tol * sc)
    pair = sut(est.calc_neg_log_likelihood_and_neg_gradient, np.array(flat))
    e2 = [-e for e in [exp] + known]
    for p in case.get("constrained") or []:
        for e in e2:
            e[p] = 0.0
    close_any(arr(pair[1]).ravel(), e2, "%s objective gradient" % m.type, rtol=tol, atol=tol * sc)
    # evaluating elsewhere and coming back gives the same answer (work arrays are reused internally)
    other = np.array(case["params2"])
    sut(est.convenience_calc_gradient, other)
    got2 = sut(est.convenience_calc_gradient, np.array(flat))
    close_any(arr(got2).ravel(), [exp] + known, "%s gradient on re-evaluation" % m.type, rtol=tol, atol=tol * sc)
    out.nt = float(np.abs(exp).max()) > 1e-6
    labels(out, m, case, ds)


def ref_scores(m, flat, draws, all_alts):
    """per observation (mixing unit for mixed): list of (probability, score vector) over the available
    alternatives, or just the chosen one's score"""
    ds = m.ds
    d = ref.seed_duals(flat)
    if m.type == "Mixed Logit":
        out = []
        for q, mx in enumerate(ds.mixers):
            w = [1.0 if z == q else 0.0 for z in range(len(ds.mixers))]
            v = m.ref_loglik(d, draws=draws, weights=w)
            out.append([(1.0, grad_of(v, len(flat)))])
        return out
    lp = m.ref_log_probs(d)
    out = []
    for o, idx in enumerate(ds.obs_rows):
        rows = idx if all_alts else [ds.obs_ch[o]]
        out.append([(math.exp(ref.val(lp[r])) if all_alts else 1.0, grad_of(lp[r], len(flat))) for r in rows])
    return out


def outer_sum(scores, w, n):
    H = np.zeros((n, n))
    for o, lst in enumerate(scores):
        for p, g in lst:
            g = np.array(g, dtype=float)
            H += (1.0 if w is None else w[o]) * p * np.outer(g, g)
    return H


def p_hessian(case, out):
    ds, m, mo, draws, w, lw = setup(case)
    flat = case["params"]
    guard(m, flat, hmax=100, draws=draws)
    ridge = case.get("ridge")
    n = m.n_params
    bhhh = m.type in ("Nested Logit", "Mixed Logit")
    est = fresh_estimator(mo, m, n, ridge=ridge, weights=lw)
    exp = -outer_sum(ref_scores(m, flat, draws, not bhhh), w, n)
    if ridge is not None:
        exp -= 2 * ridge * np.identity(n)
    sc = 1.0 + float(np.abs(exp).max())
    tol = 2e-6 if m.type in ("Scobit", "Cloglog") else 1e-7
    for k in range(2):
        got = arr(sut(est.convenience_calc_hessian, np.array(flat)), (n, n), "hessian")
        close_any(got, [exp] + known_hessian(case, m, exp, ridge), "%s hessian" % m.type, rtol=tol, atol=tol * sc)
        if k == 0:
            sut(est.convenience_calc_hessian, np.array(case["params2"]))
            sut(est.convenience_calc_gradient, np.array(case["params2"]))
    close_any(arr(sut(est.calc_neg_hessian, np.array(flat)), (n, n)), [-e for e in [exp] + known_hessian(case, m, exp, ridge)], "%s negative hessian" % m.type, rtol=tol, atol=tol * sc)
    if not bhhh:
        F = outer_sum(ref_scores(m, flat, draws, False), w, n)
        got = arr(sut(est.convenience_calc_fisher_approx, np.array(flat)), (n, n), "fisher information")
        close_any(got, known_fisher(case, F, ridge), "%s fisher information" % m.type, rtol=tol, atol=tol * (1 + float(np.abs(F).max())))
    out.nt = float(np.abs(exp).max()) > 1e-6
    labels(out, m, case, ds)


def p_mnl_curvature(case, out):
    """MNL: the hessian is the exact second derivative of the log-likelihood (checked by differencing
    the exact reference gradient), symmetric and negative semi-definite."""
    ds, m, mo, draws, w, lw = setup(case)
    flat = case["params"]
    guard(m, flat, hmax=60)
    n = m.n_params
    est = fresh_estimator(mo, m, n, ridge=case.get("ridge"), weights=lw)
    got = arr(sut(est.convenience_calc_hessian, np.array(flat)), (n, n), "hessian")
    h = 1e-5
    num = np.zeros((n, n))
    for k in range(n):
        a = list(flat)
        b = list(flat)
        a[k] += h
        b[k] -= h
        num[k] = (np.array(ref_gradient(m, a, None, w, case.get("ridge"))) -
                  np.array(ref_gradient(m, b, None, w, case.get("ridge")))) / (2 * h)
    sc = 1 + float(np.abs(num).max())
    close(got, num, "MNL hessian vs differenced gradient", rtol=1e-5, atol=1e-6 * sc)
    require(float(np.abs(got - got.T).max()) <= 1e-9 * sc, "hessian not symmetric")
    ev = np.linalg.eigvalsh((got + got.T) / 2)
    require(float(ev.max()) <= 1e-8 * sc, "hessian has a positive eigenvalue %r", float(ev.max()))
    out.nt = float(np.abs(num).max()) > 1e-6
    labels(out, m, case, ds)
