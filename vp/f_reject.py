"""Malformed input is rejected (an exception is raised), well-formed input is accepted, and a
rejected call leaves the data and the model usable."""
from collections import OrderedDict

import numpy as np
import pandas as pd

from vp import ref
from vp.common import DS, M, Skip, Violation, arr, rejects, require, scratch, sut
from vp.f_data import Wide


def od(x):
    return OrderedDict(x)


# ------------------------------------------------------------------ model construction
def construct(m, data, c, **over):
    import pylogit
    k = m.kwargs()
    a = {"alt_id_col": c["alt"], "obs_id_col": c["obs"], "choice_col": c["ch"], "specification": m.od_spec(),
         "model_type": m.type}
    k.update(a)
    for q, v in over.items():
        if v == "__drop__":
            k.pop(q, None)
        else:
            k[q] = v
    return pylogit.create_choice_model(data, **k)


def mut_create(case, m, ds):
    """-> (data, overrides) or None when the mutation does not apply to this model"""
    kind, a, b = case["kind"], case["a"], case["b"]
    f = ds.frame()
    spec = m.od_spec()
    vs = [v for v in spec if v != "intercept"]
    v = vs[a % len(vs)]
    if kind == "unknown model type":
        return f, {"model_type": ["Probit", "mnl", "", "Nested", None][a % 5]}
    if kind in ("missing alt column", "missing obs column", "missing choice column"):
        col = {"missing alt column": "alt", "missing obs column": "obs", "missing choice column": "ch"}[kind]
        if b % 2:
            return f, {{"alt": "alt_id_col", "obs": "obs_id_col", "ch": "choice_col"}[col]: "no such column"}
        return f.drop(columns=[ds.c[col]]), {}
    if kind == "variable not in data":
        if b % 2:
            return f.drop(columns=[v]), {}
        sp = od(list(spec.items()) + [("not there", "all_same")])
        return f, {"specification": sp, "names": "__drop__"}
    if kind == "specification not ordered":
        return f, {"specification": list(spec.items()) if a % 2 else dict(spec)}
    if kind == "bad specification value":
        sp = od(spec)
        bad = ["all_different", "same", 3, None, {"a": 1}][b % 5]
        sp[v] = bad
        return f, {"specification": sp, "names": "__drop__"}
    if kind == "unknown alternative in specification":
        sp = od(spec)
        unk = max(ds.alts) + 1 + b % 5
        if a % 2:
            sp[v] = [ds.alts[0], unk]
        else:
            sp[v] = [[ds.alts[-1], unk]]
        return f, {"specification": sp, "names": "__drop__"}
    if kind == "nested too deep":
        sp = od(spec)
        sp[v] = [[[ds.alts[0]], ds.alts[1]]]
        return f, {"specification": sp, "names": "__drop__"}
    if kind in ("names do not match", "names not ordered"):
        nm = []
        for vv, s in m.spec:
            if s == "all_same":
                nm.append((vv, "n " + vv))
            else:
                nm.append((vv, ["n%d %s" % (q, vv) for q in range(ds.J if s == "all_diff" else len(s))]))
        if kind == "names not ordered":
            return (f, {"names": dict(nm) if a % 2 else nm}) if not m.mixvars else None
        nm = od(nm)
        q = list(nm)[b % len(nm)]
        if a % 4 == 0:
            del nm[q]
            nm["other name"] = "zzz"
        elif a % 4 == 1:
            del nm[q]
        elif isinstance(nm[q], list):
            nm[q] = nm[q][:-1] if a % 4 == 2 else nm[q] + ["extra"]
        else:
            nm[q] = [nm[q]]
        if m.mixvars:
            return None
        return f, {"names": nm}
    if kind == "non-finite value":
        # one to three bad cells, in one column or several (two of them may cancel out in a sum)
        bad = [float("nan"), float("inf"), float("-inf")]
        for q in range(1 + a // 3 % 3):
            vq = v if a // 9 % 2 else vs[(a + q) % len(vs)]
            f[vq] = f[vq].astype("float32" if a // 18 % 3 == 2 else float)
            f.iloc[(b + 7 * q) % len(f), list(f.columns).index(vq)] = bad[(a + q) % 3 if b % 2 else (1 + (a + q) % 2)]
        return f, {}
    if kind == "text value":
        f[v] = f[v].astype(object)
        f.iloc[b % len(f), list(f.columns).index(v)] = ["text", "1.5", "", None][a // 7 % 4]
        return f, {}
    if kind == "data is not a frame":
        return [f.values.tolist(), f.values, {"a": 1}, None, 7][a % 5], {}
    if kind == "not a csv path":
        return ["data.txt", "data.xlsx", "", "data.csv.gz"][a % 4], {}
    if kind.startswith("nest"):
        if not m.nests:
            return None
        ns = od((n, list(al)) for n, al in m.nests)
        first = list(ns)[b % len(ns)]
        if kind == "nest spec missing":
            return f, {"nest_spec": "__drop__" if a % 2 else None}
        if kind == "nest lacks an alternative":
            if len(ns[first]) > 1:
                del ns[first][a % len(ns[first])]
            elif len(ns) > 1:
                del ns[first]
            else:
                return None
        elif kind == "nest repeats an alternative":
            x = ds.alts[a % ds.J]
            if b % 2:
                ns[first].append(x)
            else:
                ns["extra nest"] = [x]
        elif kind == "nest has an unknown alternative":
            ns[first].append(max(ds.alts) + 1 + a % 5)
        elif kind == "nest names one alternative twice instead of another":
            # as many ids as there are alternatives
            x, y = ds.alts[a % ds.J], ds.alts[(a + 1 + b % (ds.J - 1)) % ds.J]
            for n in ns:
                ns[n] = [y if z == x else z for z in ns[n]]
        elif kind == "nest names an unknown alternative instead of another":
            x = ds.alts[a % ds.J]
            for n in ns:
                ns[n] = [max(ds.alts) + 1 + b % 5 if z == x else z for z in ns[n]]
        elif kind == "nest is empty":
            ns["empty nest"] = []
        elif kind == "nest not ordered":
            return f, {"nest_spec": list(ns.items())}
        elif kind == "nest has non-integer ids":
            ns[first] = [str(x) if a % 2 else float(x) for x in ns[first]]
        elif kind == "nest values not lists":
            ns[first] = tuple(ns[first]) if a % 2 else ns[first][0]
        elif kind == "nest keys not strings":
            ns = od((q if a % 2 == 0 or n == first else n, al) for q, (n, al) in enumerate(ns.items()))
        return f, {"nest_spec": ns}
    if kind == "mixing variable unknown":
        if not m.mixvars:
            return None
        mv = list(m.mixvars)
        mv[a % len(mv)] = "not a coefficient"
        return f, {"mixing_vars": mv if b % 2 else m.mixvars + ["zzz"]}
    if kind == "mixed with outside intercepts":
        if not m.mixvars:
            return None
        return f, {"intercept_ref_pos": a % ds.J}
    if kind == "asym without reference":
        if m.type != "Asym":
            return None
        return f, {"shape_ref_pos": [None, "0", 0.5][a % 3]}
    if kind == "reference out of range":
        opts = []
        if m.int_names():
            opts.append("intercept_ref_pos")
        if m.type == "Asym" and m.shape_names():
            opts.append("shape_ref_pos")
        if not opts:
            return None
        return f, {opts[b % len(opts)]: [-1, ds.J, ds.J + 3, -ds.J][a % 4]}
    if kind == "wrong number of names":
        opts = []
        if m.int_names():
            opts.append("intercept_names")
        if m.shape_names():
            opts.append("shape_names")
        if not opts:
            return None
        k = opts[b % len(opts)]
        nm = list(m.kwargs()[k])
        return f, {k: (nm + ["more"]) if a % 2 else nm[:-1]}
    if kind == "intercept names without reference":
        if not m.int_names():
            return None
        return f, {"intercept_ref_pos": None}
    raise KeyError(kind)


CREATE_KINDS = ["unknown model type", "missing alt column", "missing obs column", "missing choice column",
                "variable not in data", "specification not ordered", "bad specification value",
                "unknown alternative in specification", "nested too deep", "names do not match", "names not ordered", "non-finite value",
                "text value", "data is not a frame", "not a csv path", "nest spec missing", "nest lacks an alternative",
                "nest repeats an alternative", "nest has an unknown alternative", "nest is empty", "nest not ordered",
                "nest names one alternative twice instead of another", "nest names an unknown alternative instead of another",
                "nest has non-integer ids", "nest values not lists", "nest keys not strings", "mixing variable unknown",
                "mixed with outside intercepts", "asym without reference", "reference out of range",
                "wrong number of names", "intercept names without reference"]


def p_reject_create(case, out):
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    f = ds.frame()
    before = f.copy(deep=True)
    sut(construct, m, f, ds.c)
    cols = [c for c in f.columns if c != "intercept" or "intercept" in before]
    require(f[cols].equals(before[cols]), "building a model changed the data")
    r = mut_create(case, m, ds)
    if r is None:
        raise Skip("mutation does not apply")
    data, over = r
    if isinstance(data, pd.DataFrame):
        keep = data.copy(deep=True)
    require(rejects(construct, m, data, ds.c, **over), "%s: model construction accepted malformed input (%s)", m.type, case["kind"])
    if isinstance(data, pd.DataFrame):
        require(data[list(keep.columns)].equals(keep), "a rejected construction changed the data")
    out.nt = True
    out.label("kind:" + case["kind"], "model:" + m.type)


# ------------------------------------------------------------------ estimation
FIT_KINDS = ["wrong number of start values", "ridge not a number", "rows not contiguous", "negative weight",
             "wrong number of weights", "weights not 1D", "weights not an array", "unused start value arguments",
             "start values missing", "split start values of wrong length", "number of draws", "draw seed"]


def p_reject_fit(case, out):
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    kind, a, b = case["kind"], case["a"], case["b"]
    mo = m.create()
    mixed = m.type == "Mixed Logit"
    init = np.array(case["init"], dtype=float)
    k = {"print_res": False, "maxiter": 2, "just_point": True}
    pos = [init.copy()]
    if mixed:
        pos.append(2)
        k["seed"] = 5
    good = sut(mo.fit_mle, *pos, **k)
    gx = arr(good["x"], (m.n_params,), "estimates")
    target = mo
    if kind == "wrong number of start values":
        n = m.n_params + [1, -1, 2, -2, m.n_params][a % 5]
        pos[0] = np.zeros(max(0, n))
    elif kind == "ridge not a number":
        k["ridge"] = ["0.5", [0.5], np.array([0.5]), {}][a % 4]
    elif kind == "rows not contiguous":
        if ds.n_obs < 2:
            raise Skip("one observation only")
        raw = dict(case["ds"])
        o = a % (ds.n_obs - 1)
        rows = list(range(ds.n_rows))
        if b % 2 and len(ds.obs_rows[o]) > 1:
            # one row of an observation is moved behind the next observation
            r = ds.obs_rows[o][0]
            rows.remove(r)
            rows.insert(rows.index(ds.obs_rows[o + 1][-1]) + 1, r)
        else:
            x, y = ds.obs_rows[o][-1], ds.obs_rows[o + 1][0]
            i, j = rows.index(x), rows.index(y)
            rows[i], rows[j] = rows[j], rows[i]
            if len(ds.obs_rows[o]) == 1 and len(ds.obs_rows[o + 1]) == 1:
                raise Skip("still contiguous")
        raw["perm"] = rows
        ds2 = DS(raw)
        target = M(case["m"], ds2).create()
    elif kind == "negative weight":
        w = np.ones(ds.n_rows)
        for q in range(1 + a // 3 % 2):
            w[(b + 5 * q) % ds.n_rows] = [-1.0, -1e-9, float("-inf")][a % 3]
        if a // 6 % 2:
            w = np.where(w > 0, 100.0, w)
        k["weights"] = w
    elif kind == "wrong number of weights":
        n = [ds.n_rows + 1, max(0, ds.n_rows - 1), ds.n_obs if ds.n_obs != ds.n_rows else ds.n_rows + 2, 0][a % 4]
        k["weights"] = np.ones(n)
    elif kind == "weights not 1D":
        k["weights"] = np.ones((ds.n_rows, 1)) if a % 2 else np.ones((1, ds.n_rows))
    elif kind == "weights not an array":
        k["weights"] = [1.0] * ds.n_rows if a % 2 else pd.Series(np.ones(ds.n_rows))
    elif kind == "unused start value arguments":
        if m.type not in ("MNL", "Nested Logit", "Mixed Logit"):
            raise Skip("arguments are used")
        k[["init_shapes", "init_intercepts", "init_coefs"][a % 3]] = np.zeros(2)
    elif kind == "start values missing":
        if m.type not in ("Asym", "Scobit", "Uneven"):
            raise Skip("no split start values")
        pos[0] = None
        if a % 2:
            k["init_coefs"] = np.zeros(m.K)
    elif kind == "split start values of wrong length":
        if m.type not in ("Asym", "Scobit", "Uneven"):
            raise Skip("no split start values")
        pos[0] = None
        which = a % (3 if m.n_ints() else 2)
        d = 1 if b % 2 else -1
        k["init_shapes"] = np.zeros(m.n_shapes() + (d if which == 0 else 0))
        k["init_coefs"] = np.zeros(m.K + (d if which == 1 else 0))
        if m.n_ints():
            k["init_intercepts"] = np.zeros(m.n_ints() + (d if which == 2 else 0))
    elif kind == "number of draws":
        if not mixed:
            raise Skip("no draws")
        pos[1] = [0, -3, 2.5, "5", None][a % 5]
    elif kind == "draw seed":
        if not mixed:
            raise Skip("no draws")
        k["seed"] = [-1, 1.5, "7", [3], 0][a % 5]
    require(rejects(target.fit_mle, *pos, **k), "%s: fit_mle accepted malformed input (%s)", m.type, kind)
    # the model still works
    pos2 = [init.copy()] + ([2] if mixed else [])
    k2 = {"print_res": False, "maxiter": 2, "just_point": True}
    if mixed:
        k2["seed"] = 5
    again = arr(sut(mo.fit_mle, *pos2, **k2)["x"], (m.n_params,), "estimates")
    require(((again == gx) | (np.isnan(again) & np.isnan(gx))).all(), "a rejected call changed later estimates")
    out.nt = True
    out.label("kind:" + kind, "model:" + m.type)


# ------------------------------------------------------------------ prediction
PRED_KINDS = ["parameter list type", "parameter list length", "parameter not an array", "wrong number of index coefficients",
              "wrong number of intercepts", "wrong number of shapes", "wrong number of nests", "mixed dimensions",
              "different numbers of columns", "3D parameters", "missing obs column", "missing alt column", "missing variable",
              "no choice column for chosen probabilities", "data is not a frame", "not a csv path", "missing mixing column",
              "number of draws", "draw seed"]


def p_reject_predict(case, out):
    from vp.f_probs import fitted_mixed
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    kind, a, b = case["kind"], case["a"], case["b"]
    mo = m.create()
    mixed = m.type == "Mixed Logit"
    k = {"return_long_probs": True}
    if mixed:
        fitted_mixed(mo, m)
        k.update(num_draws=2, seed=3)
    flat = list(case["params"])
    pl = m.param_list(flat)
    data = ds.frame()
    good = arr(sut(mo.predict, data, param_list=pl, **k))
    bad = list(pl)
    slots = {"wrong number of index coefficients": 0, "wrong number of intercepts": 1, "wrong number of shapes": 2,
             "wrong number of nests": 3}
    d2 = data
    if kind == "parameter list type":
        bad = [tuple(bad), np.array(flat), bad[0], {"0": bad[0]}][a % 4]
    elif kind == "parameter list length":
        bad = bad[:3] if a % 2 else bad + [None]
    elif kind == "parameter not an array":
        q = [i for i, x in enumerate(bad) if x is not None]
        q = q[b % len(q)]
        bad[q] = list(bad[q]) if a % 2 else (pd.Series(bad[q]) if a % 4 == 0 else tuple(bad[q]))
    elif kind in slots:
        q = slots[kind]
        if bad[q] is None:
            if m.type in ("Asym", "Scobit", "Uneven", "Cloglog", "Nested Logit") or True:
                raise Skip("no such parameters")
        bad[q] = np.append(bad[q], 0.0) if a % 2 else bad[q][:-1]
    elif kind == "mixed dimensions":
        q = [i for i, x in enumerate(bad) if x is not None]
        if len(q) < 2:
            raise Skip("one parameter array only")
        q = q[b % len(q)]
        bad[q] = bad[q][:, None]
    elif kind == "different numbers of columns":
        q = [i for i, x in enumerate(bad) if x is not None]
        if len(q) < 2:
            raise Skip("one parameter array only")
        bad = [None if x is None else np.tile(x[:, None], (1, 2)) for x in bad]
        q = q[b % len(q)]
        bad[q] = np.tile(bad[q][:, :1], (1, 3 if a % 2 else 1))
    elif kind == "3D parameters":
        bad = [None if x is None else x[:, None, None] for x in bad]
    elif kind == "missing obs column":
        d2 = data.drop(columns=[ds.c["obs"]])
    elif kind == "missing alt column":
        d2 = data.drop(columns=[ds.c["alt"]])
    elif kind == "missing mixing column":
        d2 = data.drop(columns=[ds.c["mix"]])
    elif kind == "number of draws":
        k["num_draws"] = [0, -3, 2.5, "5", None][a % 5]
    elif kind == "draw seed":
        k["seed"] = [-1, 1.5, "7", [3], 0][a % 5]
    elif kind == "missing variable":
        vs = [v for v, _ in m.spec if v != "intercept"]
        d2 = data.drop(columns=[vs[a % len(vs)]])
    elif kind == "no choice column for chosen probabilities":
        k["return_long_probs"] = False
    elif kind == "data is not a frame":
        d2 = [data.values, data.values.tolist(), None, {"a": [1]}][a % 4]
    elif kind == "not a csv path":
        d2 = ["new.txt", "new.parquet", ""][a % 3]
    require(rejects(mo.predict, d2, param_list=bad, **k), "%s: predict accepted malformed input (%s)", m.type, kind)
    k["return_long_probs"] = True
    if mixed:
        k.update(num_draws=2, seed=3)
    again = arr(sut(mo.predict, data, param_list=pl, **k), good.shape)
    require((again == good).all(), "a rejected call changed later predictions")
    out.nt = True
    out.label("kind:" + kind, "model:" + m.type)


# ------------------------------------------------------------------ conversion
LONG_KINDS = ["duplicated row", "no choice", "two choices", "choice moved to another observation", "missing individual variable", "missing alternative variable",
              "missing subset variable", "missing id column", "alternative names not a dict", "unknown alternative named"]


def p_reject_long(case, out):
    from pylogit import choice_tools as ct
    ds = DS(case["ds"])
    kind, a, b = case["kind"], case["a"], case["b"]
    f = ds.frame()
    c = ds.c
    ind, av, sub = list(case["ind"]), list(case["alt_vars"]), OrderedDict((v, list(x)) for v, x in case["subset"])
    args = [f, ind, av, sub, c["obs"], c["alt"], c["ch"]]
    k = {}
    sut(ct.convert_long_to_wide, *args)
    if kind == "duplicated row":
        i = a % len(f)
        extra = f.iloc[[i]].copy()
        if b % 3:
            # the same observation and alternative with other values, not chosen
            extra[c["ch"]] = 0
            for v in av + list(sub):
                extra[v] = extra[v] + 1
        k2 = (b * 7 + a) % (len(f) + 1)
        args[0] = pd.concat([f.iloc[:k2], extra, f.iloc[k2:]])
    elif kind == "choice moved to another observation":
        # the totals still agree: one observation has two choices, another none
        g = f.copy()
        col = list(g.columns).index(c["ch"])
        o = a % ds.n_obs
        order = ds.order()
        rest = [q for q, r in enumerate(order) if ds.obs_of[r] != o and not ds.ch_of[r]]
        if not rest:
            raise Skip("no row to move the choice to")
        g.iloc[[q for q, r in enumerate(order) if ds.obs_of[r] == o and ds.ch_of[r]][0], col] = 0
        g.iloc[rest[b % len(rest)], col] = 1
        args[0] = g
    elif kind in ("no choice", "two choices"):
        g = f.copy()
        o = a % ds.n_obs
        pos = [q for q, r in enumerate(ds.order()) if ds.obs_of[r] == o]
        ch = [q for q in pos if ds.ch_of[ds.order()[q]]][0]
        col = list(g.columns).index(c["ch"])
        if kind == "no choice":
            g.iloc[ch, col] = 0
        else:
            rest = [q for q in pos if q != ch]
            if not rest:
                raise Skip("one alternative only")
            g.iloc[rest[b % len(rest)], col] = 1
            if b % 3 == 0 and ds.n_obs > 1:
                # ... and one observation without a choice, so that the totals agree
                o2 = (o + 1) % ds.n_obs
                p2 = [q for q, r in enumerate(ds.order()) if ds.obs_of[r] == o2]
                for q in p2:
                    g.iloc[q, col] = 0
        args[0] = g
    elif kind == "missing individual variable":
        args[1] = ind + ["not there"]
    elif kind == "missing alternative variable":
        args[2] = av + ["not there"]
    elif kind == "missing subset variable":
        args[3] = OrderedDict(list(sub.items()) + [("not there", [ds.alts[0]])])
    elif kind == "missing id column":
        args[4 + a % 3] = "not there"
    elif kind == "alternative names not a dict":
        k["alt_name_dict"] = [["a"] * ds.J, "names", tuple(ds.alts)][a % 3]
    elif kind == "unknown alternative named":
        k["alt_name_dict"] = dict([(x, "n%d" % x) for x in ds.alts] + [(max(ds.alts) + 1 + a % 3, "unknown")])
    keep = args[0].copy(deep=True)
    require(rejects(ct.convert_long_to_wide, *args, **k), "convert_long_to_wide accepted malformed input (%s)", kind)
    require(args[0].equals(keep), "a rejected conversion changed the data")
    out.nt = True
    out.label("kind:" + kind)


WIDE_KINDS = ["duplicated observation", "missing choice", "unlisted choice", "unavailable choice", "alternative never chosen",
              "missing individual variable", "missing availability column", "missing alternative column", "missing id column",
              "missing choice column", "alternative variable for an unknown alternative"]


def p_reject_wide(case, out):
    from pylogit import choice_tools as ct
    W = Wide(case["w"])
    kind, a, b = case["kind"], case["a"], case["b"]
    f = W.frame()
    ind, alt_vars, av = W.args()
    c = W.c
    sut(ct.convert_wide_to_long, f, ind, alt_vars, av, c["obs"], c["ch"])
    g = f.copy()
    oc, cc = list(g.columns).index(c["obs"]), list(g.columns).index(c["ch"])
    n = len(g)
    obs_col, ch_col = c["obs"], c["ch"]
    if kind == "duplicated observation":
        i = a % n
        j = (i + 1 + b % (n - 1)) % n
        g.iloc[i, oc] = g.iloc[j, oc]
    elif kind == "missing choice":
        g[c["ch"]] = g[c["ch"]].astype(float)
        g.iloc[a % n, cc] = np.nan
    elif kind == "unlisted choice":
        g.iloc[a % n, cc] = max(W.alts) + 1 + b % 3
    elif kind == "unavailable choice":
        i = a % n
        alt = case["w"]["rows"][i]["ch"]
        col = list(g.columns).index(W.av(alt))
        g.iloc[i, col] = False if case["w"]["av_dtypes"][W.alts.index(alt)] == "bool" else 0
    elif kind == "alternative never chosen":
        unk = max(W.alts) + 1 + b % 3
        g["extra av"] = 1
        av[unk] = "extra av"
        if a % 2:
            av.move_to_end(unk, last=False)
    elif kind == "missing individual variable":
        ind = ind + ["not there"]
    elif kind == "missing availability column":
        av[list(av)[a % len(av)]] = "not there"
    elif kind == "missing alternative column":
        if not alt_vars:
            raise Skip("no alternative specific variables")
        v = list(alt_vars)[a % len(alt_vars)]
        q = list(alt_vars[v])[b % len(alt_vars[v])]
        alt_vars[v][q] = "not there"
    elif kind == "missing id column":
        obs_col = "not there"
    elif kind == "missing choice column":
        ch_col = "not there"
    elif kind == "alternative variable for an unknown alternative":
        if not alt_vars:
            raise Skip("no alternative specific variables")
        v = list(alt_vars)[a % len(alt_vars)]
        alt_vars[v][max(W.alts) + 1 + b % 3] = list(alt_vars[v].values())[0]
    keep = g.copy(deep=True)
    require(rejects(ct.convert_wide_to_long, g, ind, alt_vars, av, obs_col, ch_col),
            "convert_wide_to_long accepted malformed input (%s)", kind)
    require(g.equals(keep), "a rejected conversion changed the data")
    out.nt = True
    out.label("kind:" + kind)


# ------------------------------------------------------------------ bootstrap
BOOT_KINDS = ["confidence level", "interval type", "replicate type", "bootstrap seed", "replicates not 2D", "resampled id unknown",
              "bootstrap id column exists", "observation column missing", "pickle path"]


def p_reject_boot(case, out):
    from pylogit import bootstrap as pb, bootstrap_calcs as bc, bootstrap_sampler as bs
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    kind, a, b = case["kind"], case["a"], case["b"]
    mo = m.create()
    mle = np.array(case["params"], dtype=float)
    boot = sut(pb.Boot, mo, mle)
    R = 5
    reps = np.array([[x + 0.1 * ((i * 7 + j * 3) % 5 - 2) for j, x in enumerate(mle)] for i in range(R)])
    boot.bootstrap_replicates = pd.DataFrame(reps, columns=boot.mle_params.index)
    boot.jackknife_replicates = pd.DataFrame(reps[::-1], columns=boot.mle_params.index)
    sut(boot.calc_conf_intervals, 50, interval_type="pi")
    bad_conf = [0, 100, -5, 150, 100.0001, "95", None, [95], -1e-9][a % 9]
    if kind == "confidence level":
        fn = [lambda: boot.calc_conf_intervals(bad_conf, interval_type="pi"),
              lambda: boot.calc_conf_intervals(bad_conf, interval_type="bca"),
              lambda: bc.calc_percentile_interval(reps, bad_conf),
              lambda: bc.calc_bca_interval(reps, reps, mle, bad_conf)][b % 4]
        require(rejects(fn), "confidence level %r accepted", bad_conf)
    elif kind == "interval type":
        t = ["percentile", "BCA", "", None, "ALL"][a % 5]
        require(rejects(boot.calc_conf_intervals, 90, interval_type=t), "interval type %r accepted", t)
    elif kind == "replicate type":
        t = ["boot", "Bootstrap", "", None, "jack"][a % 5]
        fn = [boot.calc_log_likes_for_replicates, boot.calc_gradient_norm_for_replicates][b % 2]
        require(rejects(fn, replicates=t), "replicate type %r accepted", t)
    elif kind == "bootstrap seed":
        s = ["5", 2.5, [1]][a % 3]
        f = ds.frame()
        require(rejects(bs.create_cross_sectional_bootstrap_samples, f[ds.c["obs"]].values, f[ds.c["alt"]].values,
                        f[ds.c["ch"]].values, 2, seed=s), "bootstrap seed %r accepted", s)
    elif kind == "replicates not 2D":
        bad = [reps[0], reps[None], reps.tolist(), pd.DataFrame(reps)][a % 4]
        fn = [lambda: bc.calc_percentile_interval(bad, 90), lambda: bc.calc_bca_interval(bad, reps, mle, 90),
              lambda: bc.calc_bca_interval(reps, bad, mle, 90)][b % 3]
        require(rejects(fn), "replicates of the wrong form accepted")
    else:
        f = ds.frame()
        g = sut(bs.create_deepcopied_groupby_dict, f, ds.c["obs"])
        ids = np.array(ds.obs_ids, dtype=float)
        sut(bs.create_bootstrap_dataframe, f, ds.c["obs"], ids, g)
        if kind == "resampled id unknown":
            ids[b % len(ids)] = max(ds.obs_ids) + 1 + a % 7
            require(rejects(bs.create_bootstrap_dataframe, f, ds.c["obs"], ids, g), "unknown observation id accepted")
        elif kind == "bootstrap id column exists":
            f2 = f.copy()
            f2["bootstrap_id"] = 1
            require(rejects(bs.create_bootstrap_dataframe, f2, ds.c["obs"], ids, g), "existing bootstrap id column accepted")
            require(rejects(bs.create_bootstrap_dataframe, f, ds.c["obs"], ids, g, boot_id_col=ds.c["alt"]), "existing column accepted")
        elif kind == "observation column missing":
            require(rejects(bs.create_bootstrap_dataframe, f, "not there", ids, g), "missing observation column accepted")
        elif kind == "pickle path":
            require(rejects(mo.to_pickle, [None, 5, ["x.pkl"], b"x.pkl"][a % 4]), "pickle path of the wrong type accepted")
    out.nt = True
    out.label("kind:" + kind)
