"""Histories of operations on one model object (P22) and persistence (P23)."""
import math
import os
import pickle

import numpy as np
import pandas as pd

from vp.common import DS, M, Skip, Violation, arr, fresh_estimator, require, scratch, sut
from vp.f_mixed import stir

OBSERVED = ["params", "coefs", "intercepts", "shapes", "nests", "standard_errors", "tvalues", "pvalues", "robust_std_errs",
            "robust_t_stats", "robust_p_vals", "cov", "robust_cov", "hessian", "gradient", "fisher_information",
            "log_likelihood", "null_log_likelihood", "rho_squared", "rho_bar_squared", "aic", "bic", "fitted_probs",
            "long_fitted_probs", "long_residuals", "ind_chi_squareds", "chi_square", "nobs", "df_model", "df_resid", "llf",
            "bse", "estimation_success", "summary", "fit_summary", "constrained_pos"]
NOTHING = "<absent>"


def observe(mo):
    return {a: getattr(mo, a, NOTHING) for a in OBSERVED}


def same(x, y):
    """equal up to rounding; NaN equals NaN"""
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return type(x) is type(y) and x == y
    if isinstance(x, (pd.Series, pd.DataFrame)) or isinstance(y, (pd.Series, pd.DataFrame)):
        if type(x) is not type(y) or x.shape != y.shape or list(x.index) != list(y.index):
            return False
        if isinstance(x, pd.DataFrame) and list(map(str, x.columns)) != list(map(str, y.columns)):
            return False
        a, b = x.values, y.values
        if a.dtype == object or b.dtype == object:
            return all(same(p, q) for p, q in zip(a.ravel().tolist(), b.ravel().tolist()))
        return same(a, b)
    if isinstance(x, (tuple, list)):
        return isinstance(y, (tuple, list)) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, dict):
        return isinstance(y, dict) and sorted(x) == sorted(y) and all(same(x[k], y[k]) for k in x)
    if hasattr(x, "toarray"):
        return hasattr(y, "toarray") and same(x.toarray(), y.toarray())
    try:
        a, b = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    except (TypeError, ValueError):
        return x == y
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        ok = (np.abs(a - b) <= 1e-9 + 1e-7 * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))
    return bool(ok.all())


def require_same(x, y, what):
    if not same(x, y):
        raise Violation("%s: %s, expected %s" % (what, str(x)[:300], str(y)[:300]))


def check_observed(got, exp, what):
    for a in OBSERVED:
        require_same(got[a], exp[a], "%s: attribute %s" % (what, a))


class Frame(object):
    """a user's data frame that must stay as it is (an intercept column may be added)"""

    def __init__(self, df):
        self.df = df
        self.keep = df.copy(deep=True)

    def edit(self, col):
        for df in (self.df, self.keep):
            df[col] = df[col].values[::-1].copy()

    def check(self, what):
        extra = [c for c in self.df.columns if c not in self.keep.columns]
        require(set(extra) <= {"intercept"}, "%s added columns %s to the user's data", what, extra)
        require([c for c in self.df.columns if c not in extra] == list(self.keep.columns), "%s removed or reordered columns of the user's data", what)
        require(self.df[list(self.keep.columns)].equals(self.keep), "%s changed the user's data", what)
        require(list(self.df.index) == list(self.keep.index), "%s changed the row labels of the user's data", what)


def fit_args(m, case, op):
    init = np.array(case["inits"][op["a"] % len(case["inits"])], dtype=float)
    k = dict(print_res=False, ridge=[0.5, 1, 0.25][op["b"] % 3], maxiter=[1, 3, 2][op["a"] % 3])
    if op.get("w"):
        w = case["weights"][:len(m.ds.mixers)] if m.type == "Mixed Logit" else case["weights"][:m.ds.n_obs]
        k["weights"] = m.long_weights(w)
    if op.get("con"):
        k["constrained_pos"] = [op["b"] % m.n_params]
    if m.type == "Mixed Logit":
        k["seed"] = 1 + op["b"] % 5
        return (init, 1 + op["a"] % 3), k
    return (init,), k


def do_fit(mo, args, k):
    try:
        return mo.fit_mle(*args, **k)
    except np.linalg.LinAlgError:
        raise Skip("hessian not invertible")
    except ValueError as e:
        if "infs or NaNs" in str(e):
            raise Skip("hessian not finite")
        raise Violation("estimation on valid input raised ValueError: %s" % e)
    except (Skip, Violation):
        raise
    except Exception as e:
        raise Violation("estimation on valid input raised %s: %s" % (type(e).__name__, e))


def perform(mo, m, case, op, frames, state):
    """runs one operation; returns (comparable result, new state).  state: arguments of the last estimation
    whose results the model holds, or None"""
    ds, ds2 = m.ds, case["_ds2"]
    kind = op["op"]
    mixed = m.type == "Mixed Logit"
    if kind == "fit":
        args, k = fit_args(m, case, op)
        keep = args[0].copy(), None if "weights" not in k else k["weights"].copy(), list(k.get("constrained_pos") or [])
        do_fit(mo, args, k)
        require(np.array_equal(args[0], keep[0]), "estimation changed the start values it was given")
        require(keep[1] is None or np.array_equal(k["weights"], keep[1]), "estimation changed the weights it was given")
        require(list(k.get("constrained_pos") or []) == keep[2], "estimation changed the list of constrained positions it was given")
        return None, (args, k)
    if kind == "point":
        args, k = fit_args(m, case, op)
        r = do_fit(mo, args, dict(k, just_point=True))
        return {"x": np.asarray(r["x"]), "fun": float(np.ravel(r["fun"])[0])}, state
    if kind in ("predict", "predict_here"):
        fr = frames[0] if kind == "predict_here" else frames[1 + op.get("f", 0) % (len(frames) - 1)]
        if mixed and state is None:
            return None, state
        pl = None
        if op["a"] % 3 or state is None:
            vec = case["params"][op["a"] % len(case["params"])]
            if op["b"] % 3 == 0 and m.type not in ("Mixed Logit", "Nested Logit"):
                vec = case["params"]
            pl = m.param_list(vec)
            if op["b"] % 5 == 1:
                pl[1] = None
        keep = None if pl is None else [None if x is None else x.copy() for x in pl]
        kw = {}
        if op["b"] % 2:
            kw["choice_col"] = ds2.c["ch"]
        if mixed:
            kw.update(num_draws=1 + op["a"] % 3, seed=1 + op["b"] % 4)
        r = sut(mo.predict, fr.df, param_list=pl, **kw)
        require(keep is None or all(x is None or np.array_equal(x, y) for x, y in zip(pl, keep)), "prediction changed the parameters it was given")
        return r, state
    if kind == "panel":
        if not mixed or state is None:
            return None, state
        return sut(mo.panel_predict, frames[1 + op.get("f", 0) % (len(frames) - 1)].df, 1 + op["a"] % 3, seed=1 + op["b"] % 4), state
    if kind == "report":
        if state is None:
            return None, state
        res = [sut(mo.conf_int, alpha=[0.05, 0.1, 0.32][op["a"] % 3]), sut(mo.conf_int, return_df=True)]
        sut(mo.print_summaries)
        if op["b"] % 4 == 0 and not m.raw.get("unnamed_shapes"):
            s = sut(mo.get_statsmodels_summary)
            res.append([[str(c) for c in row] for row in s.tables[-1].data])
        return res, state
    if kind == "mappings":
        return dict(sut(mo.get_mappings_for_fit)), state
    if kind == "bad_fit":
        args, k = fit_args(m, case, op)
        bad = [lambda: mo.fit_mle(np.append(args[0], 0.0), *args[1:], **k), lambda: mo.fit_mle(*args, **dict(k, ridge="x")),
               lambda: mo.fit_mle(*args, **dict(k, weights=np.ones(m.ds.n_rows + 1)))][op["b"] % 3]
        expect_reject(bad, "an invalid estimation")
        return None, state
    if kind == "bad_predict":
        if mixed and state is None:
            return None, state
        pl = m.param_list(case["params"][0])
        pl[0] = np.append(pl[0], 1.0)
        expect_reject(lambda: mo.predict(frames[1].df, param_list=pl, **({"num_draws": 2, "seed": 1} if mixed else {})), "an invalid prediction")
        expect_reject(lambda: mo.predict(frames[1].df.drop(columns=[ds.c["alt"]]), **({"num_draws": 2, "seed": 1} if mixed else {})),
                      "prediction without alternatives")
        return None, state
    if kind == "boot":
        if m.type not in ("MNL",):
            return None, state
        from pylogit.bootstrap import Boot
        b = sut(Boot, mo, np.array(case["params"][0]))
        try:
            b.generate_bootstrap_replicates(2, boot_seed=1 + op["a"], ridge=0.5, maxiter=3)
        except np.linalg.LinAlgError:
            raise Skip("hessian not invertible")
        sut(b.calc_gradient_norm_for_replicates)
        return b.bootstrap_replicates, state
    if kind == "convert":
        import pylogit
        c = ds.c
        w = sut(pylogit.convert_long_to_wide, frames[0].df, [], sorted(ds.raw["vars"]), {}, c["obs"], c["alt"], c["ch"])
        return w, state
    if kind == "other":
        # another model on the same data frame
        import pylogit
        c = ds.c
        o = sut(pylogit.create_choice_model, frames[0].df, c["alt"], c["obs"], c["ch"], m.od_spec(), "MNL",
                **({"names": m.od_names()} if m.od_names() else {}))
        do_fit(o, (np.zeros(m.K),), dict(print_res=False, ridge=0.5, maxiter=2))
        return o.params, state
    raise AssertionError(kind)


def expect_reject(fn, what):
    try:
        fn()
    except Exception:
        return
    raise Violation("%s was accepted" % what)


def p_history(case, out):
    """After any history of operations a model answers exactly as a fresh model that was only given the last
    estimation; nothing the user passed in is modified; the global random state is irrelevant."""
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    case = dict(case)
    ds2 = DS(case["ds2"])
    case["_ds2"] = ds2
    frames = [Frame(ds.frame()), Frame(ds2.frame())]
    if case.get("ds3"):
        frames.append(Frame(DS(case["ds3"]).frame()))
    mo = m.create(data=frames[0].df)
    state = None
    steps = 0
    fits = 0
    stateful = False
    for i, op in enumerate(case["ops"]):
        stir(13 * i)
        what = "step %d (%s) after %s" % (i, op["op"], [o["op"] for o in case["ops"][:i]])
        if op["op"] == "pickle":
            with scratch() as d:
                sut(mo.to_pickle, d + "/m.pkl")
                with open(d + "/m.pkl", "rb") as fh:
                    mo = sut(pickle.load, fh)
            res, new_state = None, state
        elif op["op"] == "edit":
            # the user changes a data frame of their own between two calls
            frames[1 + op["a"] % (len(frames) - 1)].edit(sorted(ds2.raw["vars"])[op["b"] % len(ds2.raw["vars"])])
            res, new_state = None, state
        else:
            res, new_state = perform(mo, m, case, op, frames, state)
        for f in frames:
            f.check(what)
        # the same on a fresh model
        stir(1000 + 7 * i)
        fresh_frames = [Frame(f.keep.copy(deep=True)) for f in frames]
        fm = m.create(data=fresh_frames[0].df)
        if state is not None:
            do_fit(fm, (state[0][0].copy(),) + tuple(state[0][1:]), dict(state[1]))
        if op["op"] in ("pickle", "edit"):
            exp = None
        else:
            exp, _ = perform(fm, m, case, op, fresh_frames, state)
        require_same(res, exp, what + ": result")
        check_observed(observe(mo), observe(fm), what)
        if fits and op["op"] not in ("fit",):
            stateful = True
        if op["op"] == "fit":
            stateful = stateful or fits > 0
            fits += 1
        state = new_state
        steps += 1
        out.label("op:" + op["op"])
    out.nt = stateful and steps > 2
    out.label("model:" + m.type)


def p_est_history(case, out):
    """Any order of evaluations (criterion, gradient, hessian, information, probabilities) on estimation objects that
    share one model: each result equals that of a fresh object, and no argument or model attribute changes."""
    from vp.common import fresh_estimator
    from vp.f_calc import setup
    ds, m, mo, draws, w, lw = setup(case)

    def est(model, k):
        return fresh_estimator(model, m, m.n_params, ridge=case["ridges"][k], weights=None if k else lw,
                               constrained_pos=case["con"] if k else None)

    def call(e, kind, th):
        keep = th.copy()
        r = {"ll": lambda: e.convenience_calc_log_likelihood(th), "grad": lambda: e.convenience_calc_gradient(th),
             "hess": lambda: e.convenience_calc_hessian(th), "fisher": lambda: e.convenience_calc_fisher_approx(th),
             "probs": lambda: e.convenience_calc_probs(th), "obj": lambda: e.calc_neg_log_likelihood_and_neg_gradient(th),
             "nhess": lambda: e.calc_neg_hessian(th)}[kind]
        res = sut(r)
        require(np.array_equal(th, keep), "%s changed the parameters it was given", kind)
        return res
    ests = [est(mo, 0), est(mo, 1)]
    design = np.array(mo.design, copy=True)
    frame = mo.data.copy(deep=True)
    kept = []
    for i, op in enumerate(case["eops"]):
        k = op["e"] % 2
        th = np.array(case["points"][op["p"] % len(case["points"])], dtype=float)
        if op["k"] == "fisher" and m.type in ("Nested Logit", "Mixed Logit"):
            continue
        res = call(ests[k], op["k"], th)
        exp = call(est(setup(case)[2], k), op["k"], th)
        what = "evaluation %d (%s on object %d) after %s" % (i, op["k"], k, [(o["k"], o["e"] % 2) for o in case["eops"][:i]])
        require_same(res, exp, what)
        kept.append((res, exp, what))
    for res, exp, what in kept:
        require_same(res, exp, what + ", looked at again after later evaluations")
    require(np.array_equal(np.asarray(mo.design), design), "the evaluations changed the model's design matrix")
    require(mo.data.equals(frame), "the evaluations changed the model's data")
    out.nt = len(kept) > 2 and len(set(o["k"] for o in case["eops"])) > 1
    out.label("model:" + m.type)


def p_interleave(case, out):
    """Several unrelated models of the same kind and size used in turn in one process: each answer is the
    reference answer for its own inputs."""
    from vp.common import Out
    from vp.f_calc import p_gradient, p_hessian, p_loglik
    from vp.f_probs import p_predict
    fn = {"predict": p_predict, "ll": p_loglik, "grad": p_gradient, "hess": p_hessian}
    done = 0
    nt = 0
    for i, op in enumerate(case["seq"]):
        o = Out()
        try:
            fn[op[0]](case["subs"][op[1] % len(case["subs"])], o)
        except Skip:
            continue
        except Violation as v:
            raise Violation("step %d (%s) after %s: %s" % (i, op, case["seq"][:i], v))
        done += 1
        nt += bool(o.nt)
    out.nt = done > 1 and nt > 0
    out.label("model:" + case["subs"][0]["m"]["type"])


def p_predict_seq(case, out):
    """One model predicting a series of data sets (some of the same shape): each answer is the reference answer."""
    from vp.common import Out
    from vp.f_probs import fitted_mixed, p_predict
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    own = Frame(ds.frame())
    mo = m.create(data=own.df)
    if m.type == "Mixed Logit":
        fitted_mixed(mo, m)
    done = nt = 0
    for i, st in enumerate(case["seq"]):
        sub = {"ds": case["ds"], "m": case["m"], "ds2": case["frames"][st[0] % len(case["frames"])],
               "params": case["params"][st[1] % len(case["params"])], "mode": st[2], "with_choice": True, "csv": False, "_mo": mo,
               "nd": case.get("nd"), "seed": case.get("seed", 0) + st[1]}
        o = Out()
        try:
            p_predict(sub, o)
        except Skip:
            continue
        except Violation as v:
            raise Violation("prediction %d (%s) after %s: %s" % (i, st, case["seq"][:i], v))
        done += 1
        nt += bool(o.nt)
    # the user goes on working with the frame the model was built from and predicts for its new content
    kw = {"num_draws": case["nd"], "seed": 1 + case.get("seed", 0)} if m.type == "Mixed Logit" else {}
    for i, col in enumerate(sorted(ds.raw["vars"])):
        pl = m.param_list(case["params"][i % len(case["params"])])
        require_same(sut(mo.predict, own.df, param_list=pl, **kw), sut(m.create().predict if not kw else mo.predict, own.keep.copy(deep=True), param_list=pl, **kw),
                     "prediction for the model's own data frame after its user edited %d columns" % i)
        own.edit(col)
    out.nt = done > 1 and nt > 0
    out.label("model:" + m.type)


def p_boot_inputs(case, out):
    """A bootstrap analysis leaves everything it was handed as it was: both models, their data, the estimates, start values and
    option objects; repeating it gives the same replicates."""
    import copy
    from pylogit.bootstrap import Boot
    from vp.f_boot import boot_or_skip
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    frame = Frame(ds.frame())
    mo = m.create(data=frame.df)
    mle = np.array(case["mle"], dtype=float)
    is_mnl = m.type == "MNL"
    opts = {"print_res": False, "ridge": case.get("mnl_ridge", 0.5), "maxiter": 5}
    cons = list(case.get("constrained") or [])
    kw = dict(method="BFGS", ridge=case.get("ridge", 0.5), maxiter=4)
    if cons:
        kw["constrained_pos"] = cons
    init = np.array(case.get("init") or [0.0] * m.n_params, dtype=float)
    given = [mle, init, cons, opts]
    if is_mnl:
        kw["mnl_init_vals"] = init
        if case.get("via_mnl_kwargs"):
            kw["mnl_fit_kwargs"] = opts
    else:
        mm = M(case["mnl"], ds)
        mnl = mm.create(data=frame.df)
        start = np.zeros(mm.n_params)
        given.append(start)
        kw.update(mnl_obj=mnl, mnl_init_vals=start, mnl_fit_kwargs=opts)
        if case.get("own_init"):
            kw["extract_init_vals"] = lambda o, ser, n: init
    keep = copy.deepcopy(given)
    was = observe(mo)
    was_mnl = None if is_mnl else observe(mnl)
    design = np.array(mo.design, copy=True)
    res = []
    for rnd in range(2):
        boot = sut(Boot, mo, mle)
        stir(rnd)
        if case["which"] != "jack":
            boot_or_skip(boot.generate_bootstrap_replicates, case["S"] + 1, boot_seed=case["seed"], **kw)
            res.append(boot.bootstrap_replicates)
            for c in (90, 50):
                sut(boot.calc_percentile_interval, c)
            sut(boot.calc_gradient_norm_for_replicates)
            sut(boot.calc_log_likes_for_replicates)
        if case["which"] != "boot":
            boot_or_skip(boot.generate_jackknife_replicates, **kw)
            res.append(boot.jackknife_replicates)
        names = ["estimates", "start values", "constrained positions", "estimation options", "MNL start values"]
        for nm, a, b in zip(names, given, keep):
            require_same(a, b, "the bootstrap changed the user's " + nm)
        frame.check("the bootstrap")
        check_observed(observe(mo), was, "the bootstrap changed the model")
        require_same(np.asarray(mo.design), design, "the bootstrap changed the design")
        if not is_mnl:
            check_observed(observe(mnl), was_mnl, "the bootstrap changed the MNL model")
    h = len(res) // 2
    for a, b in zip(res[:h], res[h:]):
        require_same(b, a, "repeating the bootstrap with the same seed")
    out.nt = True
    out.label("model:" + m.type, "which:" + case["which"])


# ------------------------------------------------------------------------------ persistence
def p_pickle(case, out):
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    case = dict(case)
    ds2 = DS(case["ds2"])
    case["_ds2"] = ds2
    frames = [Frame(ds.frame()), Frame(ds2.frame())]
    mo = m.create(data=frames[0].df)
    state = None
    if case["fitted"]:
        _, state = perform(mo, m, case, dict(case["fit"], op="fit"), frames, None)
    before = observe(mo)
    name = case["name"]
    with scratch() as d:
        path = os.path.join(d, name)
        final = path if name.endswith(".pkl") else path + ".pkl"
        if case.get("exists"):
            with open(final, "wb") as fh:
                fh.write(b"x" * 100000)
        sut(mo.to_pickle, path)
        require(os.listdir(d) == [os.path.basename(final)], "saving to %r created %s", name, os.listdir(d))
        with open(final, "rb") as fh:
            lo = sut(pickle.load, fh)
    require(type(lo) is type(mo), "loaded object is a %s", type(lo))
    check_observed(observe(mo), before, "saving changed the model")
    check_observed(observe(lo), before, "loaded model")
    for f in frames:
        f.check("saving")
    for a in ("alt_id_col", "obs_id_col", "choice_col", "model_type", "ind_var_names", "shape_names", "intercept_names", "nest_names",
              "mixing_vars", "mixing_id_col", "shape_ref_position", "intercept_ref_position"):
        require_same(getattr(lo, a, NOTHING), getattr(mo, a, NOTHING), "loaded model: " + a)
    require_same(np.asarray(lo.design), np.asarray(mo.design), "loaded model: design matrix")
    for a in sorted(vars(mo)):
        x = getattr(mo, a)
        if not a.startswith("_") and a != "data" and not callable(x) and not isinstance(x, dict):
            require_same(getattr(lo, a, NOTHING), x, "loaded model: " + a)
    if state is not None:
        # the criterion and its derivatives, as used by the bootstrap and diagnostics
        at = np.array(case["params"][0], dtype=float)
        res = []
        for obj in (mo, lo):
            est = fresh_estimator(obj, m, m.n_params, ridge=0.5)
            res.append([sut(est.convenience_calc_log_likelihood, at), sut(est.convenience_calc_gradient, at),
                        sut(est.convenience_calc_hessian, at)])
        require_same(res[1], res[0], "criterion of the loaded model")
    require(list(lo.data.columns) == list(mo.data.columns) and lo.data.equals(mo.data), "loaded model: data differs")
    # it answers like the original
    for op in case["ops"]:
        r1, s1 = perform(mo, m, case, op, frames, state)
        r2, s2 = perform(lo, m, case, op, frames, state)
        require_same(r2, r1, "%s on the loaded model" % op["op"])
        check_observed(observe(lo), observe(mo), "%s on the loaded model" % op["op"])
        state = s1
        out.label("op:" + op["op"])
    out.nt = bool(case["fitted"])
    out.label("model:" + m.type, "fitted" if case["fitted"] else "unfitted")
