"""Estimation: optimality, constraints, reported inference, weights."""
import math

import numpy as np

from vp import ref
from vp.common import (DS, M, Skip, Violation, arr, attach_design3d, close, close_any, finite, fresh_estimator, get_draws,
                       require, sut)
from vp.f_calc import guard, known_fisher, known_gradient, known_hessian, outer_sum, ref_gradient, ref_scores, scalar
from vp.f_probs import fit_or_skip, in_domain


def obs_weights(case, m):
    w = case.get("weights")
    if w is None:
        return None
    return w[:len(m.ds.mixers)] if m.type == "Mixed Logit" else w[:m.ds.n_obs]


def run_fit(case, m, mo, **extra):
    w = obs_weights(case, m)
    k = dict(print_res=False, method=case.get("method", "BFGS"), maxiter=case.get("maxiter", 1000),
             ridge=case.get("ridge"))
    if w is not None:
        k["weights"] = m.long_weights(w)
    if case.get("constrained"):
        k["constrained_pos"] = list(case["constrained"])
    if case.get("gtol"):
        k["gradient_tol"] = case["gtol"]
        k["loss_tol"] = case["gtol"]
    k.update(extra)
    init = np.array(case["init"], dtype=float)
    keep = init.copy()
    r = fit_or_skip(mo, m, init, nd=case.get("nd"), seed=case.get("seed"), **k)
    return r


def newton(m, w, ridge, free, start, fixed_vals):
    """reference maximiser of the MNL log-likelihood over the free positions (damped Newton)"""
    n = m.n_params
    x = list(start)
    f = m.ref_loglik(x, weights=w, ridge=ridge)
    for _ in range(100):
        g = ref_gradient(m, x, None, w, ridge)
        H = -outer_sum(ref_scores(m, x, None, True), w, n)
        if ridge is not None:
            H -= 2 * ridge * np.identity(n)
        A = [[-float(H[a][b]) for b in free] for a in free]
        step = ref.solve(A, [g[a] for a in free])
        if step is None:
            return None
        if max(abs(s) for s in step) < 1e-11:
            break
        t = 1.0
        while t > 1e-8:
            y = list(x)
            for a, s in zip(free, step):
                y[a] += t * s
            fy = m.ref_loglik(y, weights=w, ridge=ridge)
            if fy >= f - 1e-13:
                break
            t /= 2
        else:
            break
        x, f = y, fy
        if max(abs(v) for v in x) > 25:
            return None
    g = ref_gradient(m, x, None, w, ridge)
    if max(abs(g[a]) for a in free) > 1e-7:
        return None
    A = np.array(A)
    return x, f, float(np.linalg.cond(A))


def p_mle_mnl(case, out):
    """MNL: the estimates are the (weighted, penalised, constrained) maximum likelihood estimates."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    w = obs_weights(case, m)
    if w is not None and not any(w):
        raise Skip("all weights zero")
    ridge = case.get("ridge")
    fixed = set(case.get("constrained") or [])
    free = [q for q in range(m.n_params) if q not in fixed]
    if not free:
        raise Skip("nothing to estimate")
    start = [float(x) if q in fixed else 0.0 for q, x in enumerate(case["init"])]
    res = newton(m, w, ridge, free, start, None)
    if res is None or res[2] > 1e6:
        raise Skip("no well-defined maximum")
    best, f, cond = res
    mo = m.create()
    if case.get("just_point"):
        r = run_fit(case, m, mo, just_point=True)
        require(r is not None and "x" in r, "just_point did not return the estimates")
        x = arr(r["x"], (m.n_params,), "point estimates")
        require(not hasattr(mo, "params"), "just_point stored results on the model")
    else:
        run_fit(case, m, mo)
        x = arr(mo.params, (m.n_params,), "params")
        require(list(mo.params.index) == m.all_names(), "parameter names %s expected %s", list(mo.params.index), m.all_names())
        ll = scalar(mo.log_likelihood, "log_likelihood")
        e = m.ref_loglik(x.tolist(), weights=w, ridge=ridge)
        require(abs(ll - e) <= 1e-7 * (1 + abs(e)), "reported log-likelihood %r, at the estimates it is %r", ll, e)
    for q in fixed:
        require(float(x[q]) == float(case["init"][q]), "constrained parameter %d moved from %r to %r", q, case["init"][q], float(x[q]))
    got = m.ref_loglik(x.tolist(), weights=w, ridge=ridge)
    require(f - got <= 1e-5 * (1 + abs(f)), "estimates reach log-likelihood %r, the maximum is %r", got, f)
    tol = 2e-3 * (1 + max(abs(v) for v in best)) * max(1.0, cond / 200.0)
    if tol < 0.2:
        close(x, best, "estimates", rtol=0, atol=tol)
    out.nt = max(abs(v) for v in best) > 1e-3
    out.label("method:" + case.get("method", "BFGS"), "ridge" if ridge else "no ridge",
              "weighted" if w is not None else "unweighted")
    if fixed:
        out.label("constrained")


def p_mle_other(case, out):
    """All models: estimation never ends below the starting log-likelihood, and when it reports
    convergence the log-likelihood is stationary at the estimates in every free direction."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    w = obs_weights(case, m)
    ridge = case.get("ridge")
    init = case["init"]
    guard(m, init, hmax=100)
    mo = m.create()
    if case.get("split_init") and m.n_shapes():
        ns, ni = m.n_shapes(), m.n_ints()
        kw = dict(init_shapes=np.array(init[:ns]), init_coefs=np.array(init[ns + ni:]))
        if ni:
            kw["init_intercepts"] = np.array(init[ns:ns + ni])
        k = dict(print_res=False, maxiter=case.get("maxiter", 1000), ridge=ridge, method=case.get("method", "BFGS"))
        if w is not None:
            k["weights"] = m.long_weights(w)
        if case.get("constrained"):
            k["constrained_pos"] = list(case["constrained"])
        k.update(kw)
        try:
            sut(mo.fit_mle, None, **k)
        except Violation as v:
            if "LinAlgError" in str(v) or "infs or NaNs" in str(v):
                raise Skip("hessian not invertible")
            raise
        out.label("split-init")
    else:
        run_fit(case, m, mo)
    x = arr(mo.params, (m.n_params,), "params").tolist()
    require(list(mo.params.index) == m.all_names(), "parameter names %s expected %s", list(mo.params.index), m.all_names())
    if not all(math.isfinite(v) for v in x):
        raise Skip("diverged")
    guard(m, x, hmax=300)
    draws = get_draws(len(ds.mixers), case["nd"], m.n_mix, case["seed"]) if m.type == "Mixed Logit" else None
    f0 = m.ref_loglik(init, draws=draws, weights=w, ridge=ridge)
    f1 = m.ref_loglik(x, draws=draws, weights=w, ridge=ridge)
    require(f1 >= f0 - 1e-6 * (1 + abs(f0)), "%s estimation went from log-likelihood %r down to %r", m.type, f0, f1)
    fixed = set(case.get("constrained") or [])
    if m.nests:
        fixed |= {i for i, (n, al) in enumerate(m.nests) if len(al) == 1}
    for q in fixed:
        require(x[q] == float(init[q]), "constrained parameter %d moved from %r to %r", q, init[q], x[q])
    g = ref_gradient(m, x, draws, w, ridge)
    got_g = arr(mo.gradient, (m.n_params,), "gradient")
    sc = 1 + max(abs(v) for v in g)
    close(got_g, g, "reported gradient", rtol=1e-5, atol=1e-5 * sc)
    require(isinstance(mo.estimation_success, (bool, np.bool_, int)), "estimation_success is %r", mo.estimation_success)
    if mo.estimation_success and case.get("method", "BFGS") == "BFGS" and case.get("maxiter", 1000) >= 1000:
        mx = max([abs(v) for q, v in enumerate(g) if q not in fixed] or [0.0])
        require(mx <= 1e-4, "%s estimation reports convergence but the gradient is %r", m.type, mx)
        out.label("converged")
    if m.type != "Asym" and case.get("method", "BFGS") == "BFGS" and case.get("maxiter", 1000) >= 1000:
        # a start far from stationarity cannot be returned as it is
        g0 = ref_gradient(m, init, draws, w, ridge)
        m0 = max([abs(v) for q, v in enumerate(g0) if q not in fixed] or [0.0])
        if m0 > 0.5:
            require(f1 > f0, "%s estimation made no progress from a non-stationary start", m.type)
    out.nt = f1 > f0 + 1e-6
    out.label("model:" + m.type)
    if fixed:
        out.label("constrained")


def p_constrained(case, out):
    """constrained positions keep exactly their starting values and carry no inference."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    mo = m.create()
    init = [float(v) for v in case["init"]]
    cons = list(case["constrained"])
    keep = list(cons)
    w = obs_weights(case, m)
    k = dict(print_res=False, method=case["method"], maxiter=case.get("maxiter", 30), ridge=case.get("ridge"),
             constrained_pos=cons)
    if w is not None:
        k["weights"] = m.long_weights(w)
    fit_or_skip(mo, m, init, nd=case.get("nd"), seed=case.get("seed"), **k)
    require(cons == keep, "fit_mle modified the list of constrained positions")
    fixed = set(cons)
    if m.nests:
        fixed |= {i for i, (n, al) in enumerate(m.nests) if len(al) == 1}
    x = arr(mo.params, (m.n_params,), "params")
    require(list(mo.params.index) == m.all_names(), "parameter names %s expected %s", list(mo.params.index), m.all_names())
    for q in fixed:
        require(float(x[q]) == init[q], "%s/%s: constrained parameter %d moved from %r to %r", m.type, case["method"], q,
                init[q], float(x[q]))
        for a in ("standard_errors", "tvalues", "pvalues", "robust_std_errs", "robust_t_stats", "robust_p_vals"):
            v = arr(getattr(mo, a), (m.n_params,), a)
            require(np.isnan(v[q]), "%s of constrained parameter %d is %r, not NaN", a, q, float(v[q]))
    sm = mo.summary
    for q in fixed:
        require(np.isnan(arr(sm["std_err"])[q]), "summary shows a standard error for a constrained parameter")
    # the free parameters do move when the start is not stationary
    free = [q for q in range(m.n_params) if q not in fixed]
    for q in free:
        se = arr(mo.standard_errors)[q]
        cv = arr(mo.cov)[q, q]
        if cv > 0:
            require(np.isfinite(se) and abs(se - math.sqrt(cv)) <= 1e-8 * (1 + se), "standard error of free parameter %d", q)
    if all(math.isfinite(v) for v in x) and free:
        draws = get_draws(len(ds.mixers), case["nd"], m.n_mix, case["seed"]) if m.type == "Mixed Logit" else None
        try:
            guard(m, init, hmax=100)
            guard(m, x.tolist(), hmax=300)
        except Skip:
            out.nt = True
            return
        ridge = case.get("ridge")
        f0 = m.ref_loglik(init, draws=draws, weights=w, ridge=ridge)
        f1 = m.ref_loglik(x.tolist(), draws=draws, weights=w, ridge=ridge)
        require(f1 >= f0 - 1e-6 * (1 + abs(f0)), "estimation went from log-likelihood %r down to %r", f0, f1)
        g0 = ref_gradient(m, init, draws, w, ridge)
        big = max(abs(g0[q]) for q in free)
        if big > 0.5 and m.type != "Asym" and case["method"] in ("BFGS", "Newton-CG", "L-BFGS-B"):
            require(f1 > f0, "no free parameter was estimated (gradient %r at the start)", big)
            out.label("free moved")
        out.nt = any(abs(g0[q]) > 1e-4 for q in fixed)
    out.label("model:" + m.type, "method:" + case["method"])


# ------------------------------------------------------------------------------ inference
def p_inference(case, out):
    """Everything reported after estimation follows from the estimates, the log-likelihood, the
    hessian and the score outer product by the textbook formulas."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    mo = m.create()
    run_fit(case, m, mo)
    n = m.n_params
    names = m.all_names()
    w = obs_weights(case, m)
    ridge = case.get("ridge")
    P = arr(mo.params, (n,), "params")
    if not np.isfinite(P).all():
        raise Skip("diverged")
    fixed = set(case.get("constrained") or [])
    if m.nests:
        fixed |= {i for i, (_, al) in enumerate(m.nests) if len(al) == 1}
    for a in ("params", "gradient", "hessian", "cov", "standard_errors", "tvalues", "pvalues", "fisher_information",
              "robust_cov", "robust_std_errs", "robust_t_stats", "robust_p_vals"):
        o = getattr(mo, a)
        require(list(o.index) == names, "%s is indexed by %s, expected %s", a, list(o.index), names)
        if getattr(o, "ndim", 1) == 2:
            require(list(o.columns) == names, "%s has columns %s, expected %s", a, list(o.columns), names)
    # blocks
    nn, ns, ni = len(m.nests) if m.nests else 0, m.n_shapes(), m.n_ints()
    blocks = [("nests", 0, nn), ("shapes", nn, nn + ns), ("intercepts", nn + ns, nn + ns + ni), ("coefs", nn + ns + ni, n)]
    for a, lo, hi in blocks:
        o = getattr(mo, a)
        if lo == hi:
            require(o is None, "%s is %r although the model has none", a, o)
        else:
            require(list(o.index) == names[lo:hi], "%s is indexed by %s, expected %s", a, list(o.index), names[lo:hi])
            close(o, P[lo:hi], a, rtol=0, atol=0)
    H = arr(mo.hessian, (n, n), "hessian")
    F = arr(mo.fisher_information, (n, n), "fisher_information")
    draws = get_draws(len(ds.mixers), case["nd"], m.n_mix, case["seed"]) if m.type == "Mixed Logit" else None
    bhhh = m.type in ("Nested Logit", "Mixed Logit")
    exact = True
    try:
        guard(m, P.tolist(), hmax=100)
    except Skip:
        exact = False
    if exact:
        tol = 1e-5
        g = np.array(ref_gradient(m, P.tolist(), draws, w, ridge))
        close_any(mo.gradient, [g] + known_gradient(case, m, P.tolist(), draws, w, ridge), "gradient", rtol=tol,
                  atol=tol * (1 + np.abs(g).max()))
        eH = -outer_sum(ref_scores(m, P.tolist(), draws, not bhhh), w, n)
        if ridge is not None:
            eH -= 2 * ridge * np.identity(n)
        alts = [eH] + known_hessian(case, m, eH, ridge)
        if bhhh:
            for e in alts:
                for q in fixed:
                    e[q, :] = 0
                    e[:, q] = 0
                    e[q, q] = -1
        close_any(H, alts, "hessian", rtol=tol, atol=tol * (1 + np.abs(eH).max()))
        if not bhhh:
            eF = outer_sum(ref_scores(m, P.tolist(), draws, False), w, n)
            close_any(F, known_fisher(case, eF, ridge), "fisher_information", rtol=tol, atol=tol * (1 + np.abs(eF).max()))
    # covariance: cov * (-H) = I (well conditioned only)
    C = arr(mo.cov, (n, n), "cov")
    if np.linalg.cond(H) < 1e7:
        I = C.dot(-H)
        require(float(np.abs(I - np.identity(n)).max()) < 1e-6, "cov is not the inverse of the negative hessian")
        R = arr(mo.robust_cov, (n, n), "robust_cov")
        eR = C.dot(F).dot(C)
        # forward error bound of C F C when C is recomputed from H
        scale = np.abs(C).max() ** 2 * np.abs(F).max() * n * n
        close(R, eR, "robust_cov", rtol=1e-6, atol=scale * (1e-12 + 1e-14 * float(np.linalg.cond(H))))
        out.label("well-conditioned")
    nan = float("nan")
    SE = [nan if q in fixed or not C[q, q] >= 0 else math.sqrt(C[q, q]) for q in range(n)]
    close(mo.standard_errors, SE, "standard_errors", rtol=1e-9, atol=0)
    R = arr(mo.robust_cov)
    RSE = [nan if q in fixed or not R[q, q] >= 0 else math.sqrt(R[q, q]) for q in range(n)]
    close(mo.robust_std_errs, RSE, "robust_std_errs", rtol=1e-9, atol=0)
    t_exp, p_exp = [], []
    for se, ta, pa in ((SE, "tvalues", "pvalues"), (RSE, "robust_t_stats", "robust_p_vals")):
        T = [nan if (s != s or s == 0) else P[q] / s for q, s in enumerate(se)]
        gotT = arr(getattr(mo, ta))
        gotP = arr(getattr(mo, pa))
        for q in range(n):
            if se[q] == 0:
                continue
            if T[q] != T[q]:
                require(np.isnan(gotT[q]) and np.isnan(gotP[q]), "%s[%d]=%r, %s=%r, expected NaN", ta, q, gotT[q], pa, gotP[q])
            else:
                require(abs(gotT[q] - T[q]) <= 1e-8 * (1 + abs(T[q])), "%s[%d] is %r, expected %r", ta, q, gotT[q], T[q])
                e = math.erfc(abs(T[q]) / math.sqrt(2.0))
                require(abs(gotP[q] - e) <= 1e-8, "%s[%d] is %r, expected %r", pa, q, gotP[q], e)
                if e > 1e-250:
                    # also to relative precision: small p-values are the ones that get reported
                    require(abs(gotP[q] - e) <= 1e-3 * e, "%s[%d] is %r, expected %r", pa, q, gotP[q], e)
                    if e < 1e-17:
                        out.label("p-value below 1e-17")
    # scalars
    ll, ll0 = scalar(mo.log_likelihood, "log_likelihood"), scalar(mo.null_log_likelihood, "null")
    N = ds.n_obs
    require(int(mo.nobs) == N, "nobs is %r, expected %d", mo.nobs, N)
    require(int(mo.df_model) == n and int(mo.df_resid) == N - n, "degrees of freedom %r/%r", mo.df_model, mo.df_resid)
    for a, e in (("aic", -2 * ll + 2 * n), ("bic", -2 * ll + math.log(N) * n), ("llf", ll)):
        v = scalar(getattr(mo, a), a)
        require(abs(v - e) <= 1e-8 * (1 + abs(e)), "%s is %r, expected %r", a, v, e)
    if abs(ll0) > 1e-9:
        e = 1 - ll / ll0
        require(abs(scalar(mo.rho_squared, "rho_squared") - e) <= 1e-8 * (1 + abs(e)), "rho_squared %r expected %r", mo.rho_squared, e)
        e = 1 - (ll - n) / ll0
        require(abs(scalar(mo.rho_bar_squared, "rho_bar_squared") - e) <= 1e-8 * (1 + abs(e)), "rho_bar_squared %r expected %r",
                mo.rho_bar_squared, e)
    close(mo.bse, arr(mo.standard_errors), "bse", rtol=0, atol=0)
    # residuals and chi squares
    lp = arr(mo.long_fitted_probs)
    y = np.array(ds.ch_of, dtype=float)
    if lp.ndim == 2:
        y = y[:, None]
    res = y - lp
    close(mo.long_residuals, res, "long_residuals", rtol=1e-9, atol=1e-12)
    chi = np.array([(res[i] ** 2 / lp[i]).sum(axis=0) for i in ds.obs_rows])
    close(mo.ind_chi_squareds, chi, "ind_chi_squareds", rtol=1e-8, atol=1e-10)
    require(abs(float(np.sum(arr(mo.chi_square))) - chi.sum()) <= 1e-7 * (1 + abs(chi.sum())), "chi_square is %r, expected %r",
            mo.chi_square, float(chi.sum()))
    # confidence intervals
    a = case["alpha"]
    z = ref.norm_ppf(1 - a / 2.0)
    raw = sut(mo.conf_int, alpha=a)
    require(isinstance(raw, np.ndarray), "conf_int returned a %s, expected an array by default", type(raw).__name__)
    gotCI = arr(raw, (n, 2), "conf_int")
    z05 = ref.norm_ppf(0.975)
    dflt = arr(sut(mo.conf_int), (n, 2), "conf_int")
    for q in range(n):
        if abs(SE[q]) < 1e150:
            e = [P[q] - z05 * SE[q], P[q] + z05 * SE[q]]
            require(float(np.abs(dflt[q] - e).max()) <= 1e-7 * (1 + abs(P[q]) + z05 * SE[q]), "default confidence interval %d is %s, expected %s",
                    q, dflt[q].tolist(), e)
    for q in range(n):
        if SE[q] != SE[q]:
            require(np.isnan(gotCI[q]).all(), "conf_int of parameter %d should be NaN, is %s", q, gotCI[q].tolist())
        elif SE[q] < 1e150:
            for side, s in ((0, -1), (1, 1)):
                e = P[q] + s * z * SE[q]
                require(abs(gotCI[q, side] - e) <= 1e-7 * (1 + abs(e) + z * SE[q]), "conf_int[%d,%d] is %r, expected %r", q, side,
                        float(gotCI[q, side]), e)
    if len(set(names)) == n:
        sub = [names[q] for q in case["coefs"] if q < n] or names[:1]
        df = sut(mo.conf_int, alpha=a, coefs=sub, return_df=True)
        require(list(df.index) == sub and list(df.columns) == ["lower", "upper"], "conf_int frame labels %s %s", list(df.index), list(df.columns))
        close(df, gotCI[[names.index(s) for s in sub]], "conf_int(coefs)", rtol=1e-12, atol=0)
    # tables
    sm = mo.summary
    cols = [("parameters", "params"), ("std_err", "standard_errors"), ("t_stats", "tvalues"), ("p_values", "pvalues"),
            ("robust_std_err", "robust_std_errs"), ("robust_t_stats", "robust_t_stats"), ("robust_p_values", "robust_p_vals")]
    require(list(sm.columns) == [c for c, _ in cols], "summary columns %s", list(sm.columns))
    require(list(sm.index) == names, "summary index %s", list(sm.index))
    for c, at in cols:
        close(sm[c], arr(getattr(mo, at)), "summary column " + c, rtol=0, atol=0)
    fs = mo.fit_summary
    for lab, v in (("Number of Parameters", n), ("Number of Observations", N), ("Null Log-Likelihood", ll0),
                   ("Fitted Log-Likelihood", ll), ("Rho-Squared", mo.rho_squared), ("Rho-Bar-Squared", mo.rho_bar_squared)):
        g = float(fs[lab])
        require(g == float(v) or (g != g and float(v) != float(v)), "fit_summary[%s] is %r, expected %r", lab, fs[lab], v)
    if case.get("sm"):
        s = sut(mo.get_statsmodels_summary, alpha=a)
        txt = str(s)
        for nm in names:
            require(nm in txt, "parameter %s missing from the statsmodels summary", nm)
        require("{:,.3f}".format(ll) in txt and "{:,.3f}".format(mo.aic) in txt, "log-likelihood or AIC missing from the summary")
        top = {}
        for row in s.tables[0].data:
            for k in range(0, len(row) - 1, 2):
                top[str(row[k]).strip().rstrip(":")] = str(row[k + 1]).strip().replace(",", "")
        for lab, v, dec in (("No. Observations", N, 0), ("Df Model", n, 0), ("Df Residuals", N - n, 0), ("AIC", mo.aic, 3), ("BIC", mo.bic, 3),
                            ("Log-Likelihood", ll, 3), ("LL-Null", ll0, 3), ("Pseudo R-squ.", mo.rho_squared, 3),
                            ("Pseudo R-bar-squ.", mo.rho_bar_squared, 3)):
            require(lab in top, "%s missing from the statsmodels summary", lab)
            v, g = float(v), float(top[lab])
            require(v != v or abs(v) > 1e12 or abs(g - v) <= 0.51 * 10 ** -dec + 1e-9 * abs(v), "statsmodels summary: %s is %s, expected %r", lab, top[lab], v)
        require(top.get("Dep. Variable") == str(ds.c["ch"]).strip(), "statsmodels summary: dependent variable %r", top.get("Dep. Variable"))
        body = s.tables[1].data
        require(len(body) == n + 1, "statsmodels summary has %d parameter rows, expected %d", len(body) - 1, n)
        for q in range(n):
            row = body[q + 1]
            require(str(row[0]).strip() == names[q].strip(), "statsmodels summary: row %d is %r, expected %r", q, row[0], names[q])
            exp = [P[q], SE[q], arr(mo.tvalues)[q], arr(mo.pvalues)[q], gotCI[q, 0], gotCI[q, 1]]
            for c, e in enumerate(exp):
                g = float(str(row[c + 1]).strip())
                require((e != e and g != g) or not abs(e) < 1e12 or abs(g - e) <= (1e-3 if abs(e) < 1e3 else 0.1) * abs(e) + 6e-4,
                        "statsmodels summary: %s column %d is %s, expected %r", names[q], c, row[c + 1], e)
        out.label("statsmodels")
    out.nt = bool(np.isfinite(SE).any())
    out.label("model:" + m.type)
    if w is not None:
        out.label("weighted")
    if fixed:
        out.label("constrained")


# ------------------------------------------------------------------------------ weights
def replicate(raw, counts):
    """each observation repeated counts[i] times under new ascending ids"""
    new = {k: v for k, v in raw.items() if k not in ("obs", "vars", "perm")}
    new["obs"], rows, k, nid = [], [], 0, 1
    for q, o in enumerate(raw["obs"]):
        r = list(range(k, k + len(o["alts"])))
        k += len(o["alts"])
        for c in range(counts[q]):
            new["obs"].append(dict(o, id=nid, src=q))
            nid += 1
            rows += r
    new["vars"] = {v: {"dtype": s["dtype"], "vals": [s["vals"][r] for r in rows]} for v, s in raw["vars"].items()}
    return new


def p_weights_repl(case, out):
    """An observation with integer weight k counts exactly like k identical observations (0: absent)."""
    raw = case["ds"]
    ds = DS(raw)
    m = M(case["m"], ds)
    flat = case["params"]
    mixed = m.type == "Mixed Logit"
    units = len(ds.mixers) if mixed else ds.n_obs
    cnt = [int(c) for c in case["counts"][:units]]
    # keep every alternative in the replicated data
    full = case["full"]
    fu = ds.mixers.index(raw["obs"][full]["mix"]) if mixed else full
    cnt[fu] = max(1, cnt[fu])
    if mixed:
        mi = {mx: q for q, mx in enumerate(ds.mixers)}
        raw2 = {k: v for k, v in raw.items() if k not in ("obs", "vars", "perm")}
        raw2["obs"], rows, nid = [], [], 1
        starts = ds.obs_rows
        newmix, src = 1, []
        for q, mx in enumerate(ds.mixers):
            for c in range(cnt[q]):
                for o, od in enumerate(raw["obs"]):
                    if od["mix"] == mx:
                        raw2["obs"].append(dict(od, id=nid, mix=newmix))
                        nid += 1
                        rows += starts[o]
                newmix += 1
                src.append(q)
        raw2["vars"] = {v: {"dtype": s["dtype"], "vals": [s["vals"][r] for r in rows]} for v, s in raw["vars"].items()}
    else:
        raw2 = replicate(raw, cnt)
    ds2 = DS(raw2)
    m2 = M(case["m"], ds2)
    mo, mo2 = m.create(), m2.create()
    if mixed:
        draws = get_draws(units, case["nd"], m.n_mix, case["seed"])
        attach_design3d(mo, m, draws)
        attach_design3d(mo2, m2, [[d[q] for q in src] for d in draws])
    ridge = case.get("ridge")
    lw = m.long_weights(cnt)
    a = fresh_estimator(mo, m, m.n_params, ridge=ridge, weights=lw)
    b = fresh_estimator(mo2, m2, m.n_params, ridge=ridge)
    x = np.array(flat)
    la, lb = scalar(sut(a.convenience_calc_log_likelihood, x), "ll"), scalar(sut(b.convenience_calc_log_likelihood, x), "ll")
    require(abs(la - lb) <= 1e-8 * (1 + abs(lb)), "%s: weighted log-likelihood %r, replicated %r", m.type, la, lb)
    for nm in ("convenience_calc_gradient", "convenience_calc_hessian", "convenience_calc_fisher_approx"):
        u, v = arr(sut(getattr(a, nm), x)), arr(sut(getattr(b, nm), x))
        if not np.isfinite(v).all():
            raise Skip("not finite")
        close(u, v, "%s: weighted %s vs replicated observations" % (m.type, nm[len("convenience_calc_"):]), rtol=1e-7,
              atol=1e-8 * (1 + np.abs(v).max()))
    # scaling all weights scales the (unpenalised) criterion
    if ridge is None:
        c = case["scale"]
        s = fresh_estimator(mo, m, m.n_params, weights=c * lw)
        ls = scalar(sut(s.convenience_calc_log_likelihood, x), "ll")
        require(abs(ls - c * la) <= 1e-8 * c * (1 + abs(la)), "scaling the weights by %r scales the log-likelihood by %r", c, ls / la if la else 0)
        for nm in ("convenience_calc_gradient", "convenience_calc_hessian", "convenience_calc_fisher_approx"):
            if nm == "convenience_calc_fisher_approx" and m.type in ("Nested Logit", "Mixed Logit"):
                continue  # documented placeholder
            u, v = arr(sut(getattr(s, nm), x)) / c, arr(sut(getattr(a, nm), x))
            close(u, v, "%s: %s after scaling the weights by %r" % (m.type, nm[len("convenience_calc_"):], c), rtol=1e-7,
                  atol=1e-9 * (1 + np.abs(v).max()))
    # unit weights change nothing
    one = fresh_estimator(mo, m, m.n_params, ridge=ridge, weights=np.ones(ds.n_rows))
    none = fresh_estimator(mo, m, m.n_params, ridge=ridge)
    require(abs(scalar(sut(one.convenience_calc_log_likelihood, x), "ll") - scalar(sut(none.convenience_calc_log_likelihood, x), "ll")) <= 1e-9,
            "unit weights change the log-likelihood")
    out.nt = any(c != 1 for c in cnt) and abs(lb) > 1e-3
    out.label("model:" + m.type)
    if any(c == 0 for c in cnt):
        out.label("zero weights")


def p_weights_fit(case, out):
    """fit_mle with integer weights gives the results of fit_mle on replicated observations."""
    raw = case["ds"]
    ds = DS(raw)
    m = M(case["m"], ds)
    cnt = [int(c) for c in case["counts"][:ds.n_obs]]
    cnt[case["full"]] = max(1, cnt[case["full"]])
    ds2 = DS(replicate(raw, cnt))
    m2 = M(case["m"], ds2)
    mo, mo2 = m.create(), m2.create()
    ridge = case.get("ridge")
    k = dict(print_res=False, ridge=ridge, maxiter=case.get("maxiter", 1000))
    fit_or_skip(mo, m, case["init"], weights=m.long_weights(cnt), **k)
    fit_or_skip(mo2, m2, case["init"], **k)
    a, b = arr(mo.params, (m.n_params,)), arr(mo2.params, (m.n_params,))
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        raise Skip("diverged")
    if m.type == "MNL":
        close(a, b, "estimates with weights vs with replicated observations", rtol=1e-3, atol=1e-3)
    la, lb = scalar(mo.log_likelihood, "ll"), scalar(mo2.log_likelihood, "ll")
    require(abs(la - lb) <= 1e-3 * (1 + abs(lb)), "%s: final log-likelihood with weights %r, with replicated observations %r", m.type, la, lb)
    l0a, l0b = scalar(mo.null_log_likelihood, "ll0"), scalar(mo2.null_log_likelihood, "ll0")
    require(abs(l0a - l0b) <= 1e-7 * (1 + abs(l0b)), "null log-likelihood with weights %r, replicated %r", l0a, l0b)
    if m.type == "MNL":
        for at in ("standard_errors", "robust_std_errs"):
            close(getattr(mo, at), arr(getattr(mo2, at)), at + " with weights vs replicated observations", rtol=1e-2, atol=1e-3)
    out.nt = any(c != 1 for c in cnt) and abs(lb - l0b) > 1e-3
    out.label("model:" + m.type)
