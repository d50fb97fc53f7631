"""Invariances of predictions and likelihoods; equivalences between models."""
import math

import numpy as np

from vp import ref
from vp.common import (DS, M, Skip, Violation, arr, close, finite, fresh_estimator, get_draws, require, sut)
from vp.f_probs import fitted_mixed, in_domain


def long_probs(mo, m, ds, flat, case, df=None):
    df = ds.frame() if df is None else df
    kw = {}
    if m.type == "Mixed Logit":
        kw = dict(num_draws=case["nd"], seed=case["seed"])
    return arr(sut(mo.predict, df, param_list=m.param_list(flat), **kw), (df.shape[0],), "long probabilities")


def loglik(mo, m, flat):
    est = fresh_estimator(mo, m, m.n_params)
    v = arr(sut(est.convenience_calc_log_likelihood, np.array(flat, dtype=float)), None, "log-likelihood").ravel()
    require(v.size == 1, "log-likelihood is not a scalar")
    return float(v[0])


def by_row(ds, probs):
    """probabilities keyed by (observation index, alternative)"""
    return {(ds.obs_of[r], ds.alt_of[r]): float(probs[i]) for i, r in enumerate(ds.order())}


def sub_dataset(raw, keep):
    """the data set restricted to the observations `keep` (indices)"""
    new = {k: v for k, v in raw.items() if k not in ("obs", "vars", "perm")}
    new["obs"], rows, k = [], [], 0
    pos = []
    for o in raw["obs"]:
        pos.append(list(range(k, k + len(o["alts"]))))
        k += len(o["alts"])
    for q in keep:
        new["obs"].append(raw["obs"][q])
        rows += pos[q]
    new["vars"] = {v: {"dtype": s["dtype"], "vals": [s["vals"][r] for r in rows]} for v, s in raw["vars"].items()}
    return new


def relabel_spec(spec, amap):
    out = []
    for v, s in spec:
        if isinstance(s, list):
            s = [[amap[a] for a in g] if isinstance(g, list) else amap[g] for g in s]
        out.append([v, s])
    return out


def p_row_order(case, out):
    """Shuffling the rows of the frame shuffles predictions and changes nothing else; neither do the
    observation ids, the alternative ids (order preserved), the column names or the index."""
    raw = dict(case["ds"])
    raw.pop("perm", None)
    ds = DS(raw)
    m = M(case["m"], ds)
    flat = case["params"]
    mo = m.create()
    mixed = m.type == "Mixed Logit"
    if mixed:
        fitted_mixed(mo, m)
    base = by_row(ds, long_probs(mo, m, ds, flat, case))
    ll = None if mixed else loglik(mo, m, flat)

    # (a) any row order, different index, different column order
    raw2 = dict(raw)
    raw2["perm"] = case["perm"]
    raw2["index"] = case["index"]
    raw2["col_rev"] = not raw.get("col_rev")
    if mixed:
        # draws are assigned to mixing units by order of appearance: keep that order
        raw2.pop("perm")
    ds2 = DS(raw2)
    got = by_row(ds2, long_probs(mo, m, ds2, flat, case))
    cmp_rows(base, got, "after shuffling the rows")
    # model created on the shuffled frame
    m2 = M(case["m"], ds2)
    mo2 = m2.create()
    if mixed:
        fitted_mixed(mo2, m2)
    got = by_row(ds, long_probs(mo2, m2, ds, flat, case))
    cmp_rows(base, got, "when the model was created from shuffled rows")

    # (b) relabelled observation ids (ascending), alternative ids (order preserving), columns
    amap = {a: b for a, b in zip(raw["alts"], case["new_alts"])}
    raw3 = dict(raw)
    raw3["alts"] = case["new_alts"]
    raw3["obs"] = [dict(o, id=i, alts=[amap[a] for a in o["alts"]]) for o, i in zip(raw["obs"], case["new_ids"])]
    raw3["cols"] = {"obs": "situation", "alt": "mode", "ch": "picked", "mix": "who"}
    mraw = dict(case["m"])
    mraw["spec"] = relabel_spec(mraw["spec"], amap)
    if mraw.get("nests"):
        mraw["nests"] = [[n, [amap[a] for a in al]] for n, al in mraw["nests"]]
    if mraw.get("mixvars"):
        old = m.index_names
        new = M({k: v for k, v in mraw.items() if k != "mixvars"}, DS(raw3)).index_names
        mraw["mixvars"] = [new[old.index(v)] for v in mraw["mixvars"]]
    ds3 = DS(raw3)
    m3 = M(mraw, ds3)
    mo3 = m3.create()
    if mixed:
        fitted_mixed(mo3, m3)
    got = by_row(ds3, long_probs(mo3, m3, ds3, flat, case))
    cmp_rows(base, {(o, a): got[(o, amap[a])] for (o, a) in base}, "after relabelling ids and columns")
    if not mixed:
        ll3 = loglik(mo3, m3, flat)
        require(abs(ll3 - ll) <= 1e-8 * (1 + abs(ll)), "log-likelihood %r became %r after relabelling", ll, ll3)
        # (c) the log-likelihood does not depend on the order of the observations' alternatives
        p = case["within"]
        raw4 = dict(raw)
        raw4["obs"], rows, k = [], [], 0
        for o in raw["obs"]:
            n = len(o["alts"])
            q = [z for z in p if z < n]
            raw4["obs"].append(dict(o, alts=[o["alts"][z] for z in q], ch=q.index(o["ch"])))
            rows += [k + z for z in q]
            k += n
        raw4["vars"] = {v: {"dtype": s["dtype"], "vals": [s["vals"][r] for r in rows]} for v, s in raw["vars"].items()}
        ds4 = DS(raw4)
        m4 = M(case["m"], ds4)
        ll4 = loglik(m4.create(), m4, flat)
        require(abs(ll4 - ll) <= 1e-8 * (1 + abs(ll)),
                "log-likelihood %r became %r after reordering rows within observations", ll, ll4)
    vals = list(base.values())
    out.nt = max(vals) - min(vals) > 1e-6 and ds.n_obs > 1
    out.label("model:" + m.type)


def cmp_rows(base, got, what, tol=1e-9):
    require(set(base) == set(got), "rows differ %s", what)
    for k in base:
        require(abs(base[k] - got[k]) <= tol, "%s the probability of (observation #%d, alternative %s) "
                "is %r instead of %r", what, k[0], k[1], got[k], base[k])


def p_obs_indep(case, out):
    """Predictions for an observation depend on that observation only, and the log-likelihood is the
    sum of the observations' contributions."""
    raw = dict(case["ds"])
    ds = DS(raw)
    m = M(case["m"], ds)
    flat = case["params"]
    mo = m.create()
    if m.type == "Mixed Logit":
        raise Skip("draws depend on the number of mixing units")
    base = by_row(ds, long_probs(mo, m, ds, flat, case))
    keep = sorted(case["keep"])
    # observation `full` offers every alternative, so each part still has all of them
    full = case["full"]
    parts = sorted(set(keep) | {full})
    rest = [o for o in range(ds.n_obs) if o not in keep or o == full]
    got = {}
    lls = []
    for part in (parts, rest):
        raw2 = sub_dataset(raw, part)
        ds2 = DS(raw2)
        pr = by_row(ds2, long_probs(mo, m, ds2, flat, case))
        for (o, a), v in pr.items():
            got[(part[o], a)] = v
            require(abs(v - base[(part[o], a)]) <= 1e-9,
                    "probability of (observation %s, alternative %s) is %r, but %r when other observations are removed",
                    ds.obs_ids[part[o]], a, base[(part[o], a)], v)
        m2 = M(case["m"], ds2)
        lls.append(loglik(m2.create(), m2, flat))
    require(set(got) == set(base), "rows lost")
    ll = loglik(mo, m, flat)
    ds_f = DS(sub_dataset(raw, [full]))
    m_f = M(case["m"], ds_f)
    llf = loglik(m_f.create(), m_f, flat)
    require(abs(lls[0] + lls[1] - llf - ll) <= 1e-8 * (1 + abs(ll)),
            "log-likelihood %r is not the sum of the parts %r + %r - %r", ll, lls[0], lls[1], llf)
    vals = list(base.values())
    out.nt = len(parts) < ds.n_obs and max(vals) - min(vals) > 1e-6
    out.label("model:" + m.type)


def p_shift(case, out):
    """Only utility differences matter (MNL, nested, mixed); MNL obeys independence of irrelevant
    alternatives."""
    raw = dict(case["ds"])
    raw.pop("perm", None)
    ds = DS(raw)
    mraw = case["m"]
    m = M(mraw, ds)
    flat = case["params"]
    mo = m.create()
    if m.type == "Mixed Logit":
        fitted_mixed(mo, m)
    if not in_domain(m, flat, hmax=250):
        raise Skip("utilities too large")
    base = by_row(ds, long_probs(mo, m, ds, flat, case))
    same = [v for v, s in mraw["spec"] if s == "all_same" and v != "intercept"]
    did = False
    if same:
        v = same[0]
        raw2 = dict(raw)
        raw2["vars"] = dict(raw["vars"])
        vals = [float(x) + case["shift"][ds.obs_of[r]] for r, x in enumerate(raw["vars"][v]["vals"])]
        raw2["vars"][v] = {"dtype": "float64", "vals": vals}
        ds2 = DS(raw2)
        if not in_domain(M(mraw, ds2), flat, hmax=250):
            raise Skip("utilities too large")
        got = by_row(ds2, long_probs(mo, m, ds2, flat, case))
        cmp_rows(base, got, "after adding a constant to every alternative of an observation", 1e-8)
        did = any(s != 0 for s in case["shift"][:ds.n_obs])
        out.label("shifted")
    if m.type == "MNL" and ds.n_obs > 1:
        # drop one unchosen alternative from observation `o` (another observation keeps the universe)
        o = case["drop_obs"] % ds.n_obs
        if o != case["full"] and len(raw["obs"][o]["alts"]) > 2:
            k = case["drop_alt"] % len(raw["obs"][o]["alts"])
            gone = raw["obs"][o]["alts"][k]
            row = ds.obs_rows[o][k]
            raw3 = dict(raw)
            raw3["obs"] = [dict(z) for z in raw["obs"]]
            raw3["obs"][o]["alts"] = [a for a in raw["obs"][o]["alts"] if a != gone]
            raw3["obs"][o]["ch"] = 0
            raw3["vars"] = {v: {"dtype": s["dtype"], "vals": [x for r, x in enumerate(s["vals"]) if r != row]}
                            for v, s in raw["vars"].items()}
            ds3 = DS(raw3)
            got = by_row(ds3, long_probs(mo, m, ds3, flat, case))
            left = 1.0 - base[(o, gone)]
            if left > 1e-6:
                for (q, a), v in got.items():
                    e = base[(q, a)] / left if q == o else base[(q, a)]
                    require(abs(v - e) <= 1e-8, "dropping an alternative changed the odds of the others: %r vs %r", v, e)
                out.label("iia")
                did = True
    vals = list(base.values())
    out.nt = did and max(vals) - min(vals) > 1e-6
    out.label("model:" + m.type)


def p_equiv(case, out):
    """Nested models coincide with the simpler model at the parameter values that reduce them to it."""
    raw = case["ds"]
    ds = DS(raw)
    kind = case["kind"]
    spec = case["m"]["spec"]
    betas = case["betas"]
    base_raw = {"type": "MNL", "spec": spec, "names": case["m"].get("names")}
    mb = M(base_raw, ds)
    mob = mb.create()
    mraw = dict(base_raw)
    J = ds.J
    tol = 1e-8
    sign = 1.0
    if kind == "nested":
        mraw.update(type="Nested Logit", nests=case["nests"])
        flat = [case["big"]] * len(case["nests"]) + betas
        lam = 1.0 / (1.0 + math.exp(-case["big"]))
        tol = 1e-6 + 200 * (1 - lam)
    elif kind == "mixed":
        names = M(dict(base_raw), ds).index_names
        mraw.update(type="Mixed Logit", mixvars=[names[q] for q in case["mixpos"] if q < len(names)] or names[:1])
        flat = betas + [0.0] * len(mraw["mixvars"])
    elif kind == "scobit":
        mraw.update(type="Scobit", iref=case["iref"])
        flat = [0.0] * J + ([0.0] * (J - 1) if case["iref"] is not None else []) + betas
        tol = 1e-6
    elif kind == "uneven":
        mraw.update(type="Uneven", iref=case["iref"])
        flat = [0.0] * J + ([0.0] * (J - 1) if case["iref"] is not None else []) + betas
    elif kind == "asym":
        # equal shapes: h = v * log(J) + const
        mraw.update(type="Asym", iref=case["iref"], sref=case["sref"])
        flat = [0.0] * (J - 1) + ([0.0] * (J - 1) if case["iref"] is not None else []) + betas
        sign = math.log(J)
    else:
        raise ValueError(kind)
    m = M(mraw, ds)
    if not in_domain(m, flat, vmax=20, hmax=300) or not in_domain(mb, [b * sign for b in betas], hmax=300):
        raise Skip("utilities too large")
    mo = m.create()
    if kind == "mixed":
        fitted_mixed(mo, m)
    exp = long_probs(mob, mb, ds, [b * sign for b in betas], case)
    got = long_probs(mo, m, ds, flat, case)
    close(got, exp, "%s probabilities vs MNL" % kind, rtol=0, atol=tol)
    if ds.perm is None and kind != "mixed":
        a, b = loglik(mo, m, flat), loglik(mob, mb, [b * sign for b in betas])
        if kind != "nested":
            require(abs(a - b) <= 1e-5 * (1 + abs(b)), "%s log-likelihood %r vs MNL %r", kind, a, b)
    out.nt = float(np.ptp(exp)) > 1e-6
    out.label("kind:" + kind)


def p_equiv_special(case, out):
    """Two further reductions: a nested logit whose nests all hold one alternative is an MNL whatever
    the nest coefficients; outside intercepts equal alternative specific constants in the index."""
    raw = dict(case["ds"])
    raw.pop("perm", None)
    if raw.get("icept"):
        raw["icept"] = True
    ds = DS(raw)
    J = ds.J
    betas = case["betas"]
    base_raw = {"type": "MNL", "spec": case["m"]["spec"]}
    mb = M(base_raw, ds)
    mob = mb.create()
    exp = long_probs(mob, mb, ds, betas, case)
    m = M(dict(base_raw, type="Nested Logit", nests=[["n%d" % a, [a]] for a in ds.alts]), ds)
    flat = case["nest_params"][:J] + betas
    if not in_domain(m, flat, hmax=300):
        raise Skip("utilities too large")
    close(long_probs(m.create(), m, ds, flat, case), exp, "singleton nests vs MNL", rtol=0, atol=1e-8)
    if not any(v == "intercept" for v, _ in case["m"]["spec"]):
        # scobit/uneven with unit shapes and outside intercepts == MNL with ASCs
        iref = case["iref"] if case["iref"] is not None else 0
        ascs = case["nest_params"][:J - 1]
        ma = M({"type": "MNL", "spec": case["m"]["spec"] + [["intercept", [a for i, a in enumerate(ds.alts) if i != iref]]]}, ds)
        e2 = long_probs(ma.create(), ma, ds, betas + ascs, case)
        for t in ("Uneven", "Scobit"):
            mt = M(dict(base_raw, type=t, iref=iref), ds)
            fl = [0.0] * J + ascs + betas
            if not in_domain(mt, fl, vmax=20, hmax=300):
                raise Skip("utilities too large")
            close(long_probs(mt.create(), mt, ds, fl, case), e2, "%s with unit shapes vs MNL with constants" % t,
                  rtol=0, atol=1e-6)
    out.nt = float(np.ptp(exp)) > 1e-6
