"""Data handling: design matrices, mappings, wide/long conversion."""
import math
import os
from collections import OrderedDict

import numpy as np
import pandas as pd

from vp import ref
from vp.common import DS, DT, M, Skip, Violation, arr, require, scratch, sut


def same(a, b):
    a, b = float(a), float(b)
    return a == b or (a != a and b != b)


def check_frame(df, cols, rows, what):
    """df must have exactly these columns and these rows (in this order)"""
    require(isinstance(df, pd.DataFrame), "%s is a %s", what, type(df).__name__)
    require(list(df.columns) == list(cols), "%s has columns %s, expected %s", what, list(df.columns), list(cols))
    require(len(df) == len(rows), "%s has %d rows, expected %d", what, len(df), len(rows))
    for j, c in enumerate(cols):
        got = df.iloc[:, j].tolist()
        for i, r in enumerate(rows):
            if not same(got[i], r[j]):
                raise Violation("%s: row %d column %s is %r, expected %r" % (what, i, c, got[i], r[j]))


# ------------------------------------------------------------------------------ design
def p_design(case, out):
    """The design matrix holds, per coefficient, the variable's value on the rows of the alternatives
    that share the coefficient and zero elsewhere; columns and names follow the specification."""
    import pylogit
    from pylogit import choice_tools as ct
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    order = ds.order()
    exp = [m.rows[r] for r in order]
    via = case["via"]
    if via == "csv":
        with scratch() as d:
            path = os.path.join(d, "long data.csv")
            ds.frame().to_csv(path, index=False)
            mo = m.create(path)
            design, names = mo.design, mo.ind_var_names
    elif via == "model":
        mo = m.create()
        design, names = mo.design, mo.ind_var_names
    else:
        f = ds.frame()
        if any(v == "intercept" for v, _ in m.spec) and "intercept" not in f:
            f["intercept"] = 1.0
        keep = f.copy(deep=True)
        res = sut(ct.create_design_matrix, f, m.od_spec(), ds.c["alt"], names=m.od_names())
        require(isinstance(res, tuple) and len(res) == 2, "create_design_matrix did not return two results")
        design, names = res
        require(f.equals(keep), "create_design_matrix modified the data")
    design = arr(design, (ds.n_rows, m.K), "design matrix")
    for i, row in enumerate(exp):
        for k in range(m.K):
            require(float(design[i, k]) == row[k], "design[%d, %s] is %r, expected %r", i, m.index_names[k], float(design[i, k]), row[k])
    require(list(names) == m.index_names, "coefficient names %s, expected %s", list(names), m.index_names)
    if via == "api":
        require(list(f.columns) == list(keep.columns), "columns changed")
    flat = [x for r in exp for x in r]
    out.nt = any(flat) and len(set(flat)) > 1
    out.label("via:" + via, "shuffled rows" if ds.perm else "grouped rows")
    if any(isinstance(s, list) and any(isinstance(g, list) for g in s) for _, s in m.spec):
        out.label("grouped alternatives")


# ------------------------------------------------------------------------------ mappings
def p_mappings(case, out):
    """rows_to_obs / alts / nests / mixers and chosen_row_to_obs are the 0/1 incidence matrices of the data."""
    from pylogit import choice_tools as ct
    ds = DS(case["ds"])
    m = M(case["m"], ds)
    order = ds.order()
    f = ds.frame()
    keep = f.copy(deep=True)
    c = ds.c
    nest_spec = OrderedDict((n, list(a)) for n, a in case["nests"]) if case.get("nests") else None
    if case["via"] == "model":
        mo = m.create(f)
        got = sut(mo.get_mappings_for_fit, dense=case["dense"])
        nest_spec = OrderedDict((n, list(a)) for n, a in m.nests) if m.nests else None
        with_choice, with_mix = True, bool(m.mixvars)
    else:
        with_choice, with_mix = case["choice"], case["mix"]
        got = sut(ct.create_long_form_mappings, f, c["obs"], c["alt"], choice_col=c["ch"] if with_choice else None,
                  nest_spec=nest_spec, mix_id_col=c["mix"] if with_mix else None, dense=case["dense"])
        require(f.equals(keep), "create_long_form_mappings modified the data")

    def first_order(vals):
        s = []
        for v in vals:
            if v not in s:
                s.append(v)
        return s
    obs = [ds.obs_of[r] for r in order]
    uo = first_order(obs)
    alt = [ds.alt_of[r] for r in order]
    mix = [ds.mix_of[r] for r in order]
    um = first_order(mix)
    exp = {"rows_to_obs": [[int(o == u) for u in uo] for o in obs],
           "rows_to_alts": [[int(a == u) for u in ds.alts] for a in alt],
           "chosen_row_to_obs": [[int(o == u and ds.ch_of[r]) for u in uo] for o, r in zip(obs, order)] if with_choice else None,
           "rows_to_nests": None, "rows_to_mixers": [[int(x == u) for u in um] for x in mix] if with_mix else None}
    if nest_spec is not None:
        exp["rows_to_nests"] = [[int(a in nest_spec[n]) for n in nest_spec] for a in alt]
    for k, e in exp.items():
        require(k in got, "mapping %s missing", k)
        g = got[k]
        if e is None:
            require(g is None, "%s should be None", k)
            continue
        if case["dense"]:
            require(isinstance(g, np.ndarray), "%s is not dense", k)
        g = arr(g, (len(e), len(e[0])), k)
        bad = np.where(g != np.array(e))
        require(len(bad[0]) == 0, "%s differs from the incidence matrix at %s", k, [int(z[0]) for z in bad if len(z)])
    out.nt = ds.n_obs > 1
    out.label("dense" if case["dense"] else "sparse", "via:" + case["via"], "shuffled rows" if ds.perm else "grouped rows")
    if nest_spec:
        out.label("nests")


def p_id_mapping(case, out):
    """create_sparse_mapping: row i, column k is 1 iff id i equals unique id k (ids outside the given set: empty row)."""
    from pylogit import choice_tools as ct
    ids = np.array(case["ids"], dtype=DT[case["dtype"]])
    keep = ids.copy()
    uniq = case.get("uniq")
    first = []
    for v in case["ids"]:
        if v not in first:
            first.append(v)
    cols = first if uniq is None else uniq
    g = sut(ct.create_sparse_mapping, ids, unique_ids=None if uniq is None else np.array(uniq, dtype=DT[case["dtype"]]))
    g = arr(g, (len(ids), len(cols)), "sparse mapping")
    e = np.array([[float(v == u) for u in cols] for v in case["ids"]])
    require((g == e).all(), "sparse mapping of %s onto %s is %s", case["ids"], cols, g.tolist())
    o = sut(ct.get_original_order_unique_ids, ids)
    require(list(np.asarray(o).tolist()) == [float(x) if "float" in case["dtype"] else x for x in first],
            "unique ids in original order: %s expected %s", np.asarray(o).tolist(), first)
    h = arr(sut(ct.create_row_to_some_id_col_mapping, ids), (len(ids), len(first)), "row-to-id mapping")
    require((h == np.array([[float(v == u) for u in first] for v in case["ids"]])).all(), "row-to-id mapping is wrong")
    require((ids == keep).all(), "the id array was modified")
    out.nt = len(first) > 1
    if uniq is not None and set(case["ids"]) - set(uniq):
        out.label("ids outside the given set")


# ------------------------------------------------------------------------------ wide -> long
class Wide(object):
    def __init__(self, w):
        self.w = w
        self.alts = w["alts"]
        self.c = w["cols"]

    def frame(self):
        w, c = self.w, self.c
        d = OrderedDict()
        n = len(w["rows"])
        d[c["obs"]] = np.array([r["id"] for r in w["rows"]], dtype=DT[w.get("id_dtype", "int64")])
        d[c["ch"]] = np.array([r["ch"] for r in w["rows"]], dtype=DT[w.get("ch_dtype", "int64")])
        for j, a in enumerate(self.alts):
            d[self.av(a)] = np.array([r["av"][j] for r in w["rows"]], dtype=DT[w["av_dtypes"][j]])
        for v in w["ind"]:
            d[v] = np.array([r["ind"][v] for r in w["rows"]], dtype=DT[w["ind_dtypes"][v]])
        for v, al in w["alt_vars"]:
            for a in al:
                vals = [r["alt"][v][str(a)] for r in w["rows"]]
                d[self.col(v, a)] = np.array([float("nan") if x is None else x for x in vals],
                                             dtype=float if any(x is None for x in vals) else
                                             DT[w.get("own_dtypes", {}).get("%s|%d" % (v, a)) or w.get("alt_dtype", "float64")])
        for v in w.get("extra", []):
            d[v] = np.arange(n)
        df = pd.DataFrame(d)
        if w.get("col_rev"):
            df = df[list(df.columns)[::-1]]
        if w.get("index") == "dup":
            df.index = np.zeros(n, dtype=int)
        elif w.get("index") == "reversed":
            df.index = np.arange(n)[::-1]
        return df

    def av(self, a):
        return "%s%s" % (self.w["av_prefix"], a)

    def col(self, v, a):
        return "%s_%s" % (v, a)

    def args(self):
        w = self.w
        alt_vars = OrderedDict()
        for v, al in w["alt_vars"]:
            alt_vars[v] = dict((a, self.col(v, a)) for a in al)
        av = OrderedDict((a, self.av(a)) for a in w["av_order"])
        return list(w["ind"]), alt_vars, av

    def long_rows(self):
        """expected long data: per wide row, per available alternative in ascending order"""
        w = self.w
        out = []
        for r in w["rows"]:
            for j, a in enumerate(self.alts):
                if not r["av"][j]:
                    continue
                row = [r["id"], a, int(r["ch"] == a)] + [r["ind"][v] for v in w["ind"]]
                for v, al in w["alt_vars"]:
                    x = r["alt"][v][str(a)] if a in al else 0.0
                    row.append(float("nan") if x is None else x)
                out.append(row)
        return out

    def long_cols(self):
        w = self.w
        return [self.c["obs"], w.get("new_alt") or "alt_id", self.c["ch"]] + list(w["ind"]) + [v for v, _ in w["alt_vars"]]


def p_wide_to_long(case, out):
    from pylogit import choice_tools as ct
    W = Wide(case["w"])
    w = case["w"]
    f = W.frame()
    keep = f.copy(deep=True)
    ind, alt_vars, av = W.args()
    k = {}
    if w.get("new_alt"):
        k["new_alt_id_name"] = w["new_alt"]
    got = sut(ct.convert_wide_to_long, f, ind, alt_vars, av, W.c["obs"], W.c["ch"], **k)
    check_frame(got, W.long_cols(), W.long_rows(), "long data")
    require(f.equals(keep) and list(f.columns) == list(keep.columns), "convert_wide_to_long modified the wide data")
    require(list(ind) == list(w["ind"]) and list(av) == list(w["av_order"]), "convert_wide_to_long modified its arguments")
    missing = any(0 in r["av"] for r in w["rows"])
    out.nt = len(w["rows"]) > 1 and len(W.alts) > 1
    out.label("unavailable alternatives" if missing else "all available")
    if w["av_order"] != sorted(w["av_order"]):
        out.label("availability listed out of order")


# ------------------------------------------------------------------------------ long -> wide
def expected_wide(ds, ind, alt_vars, subset, names, null, vals):
    order = ds.order()
    seen = []
    for r in order:
        if ds.obs_of[r] not in seen:
            seen.append(ds.obs_of[r])
    nm = (lambda a: names[str(a)]) if names else (lambda a: "%d" % a)
    cols = [ds.c["obs"], ds.c["ch"]] + ["availability_" + nm(a) for a in ds.alts] + list(ind)
    pairs = []
    for v in alt_vars:
        pairs += [(v, a) for a in ds.alts]
    for v, al in subset:
        pairs += [(v, a) for a in ds.alts if a in al]
    cols += ["%s_%s" % (v, nm(a)) for v, a in pairs]
    rows = []
    for o in seen:
        by = {ds.alt_of[r]: r for r in ds.obs_rows[o]}
        row = [ds.obs_ids[o], ds.alt_of[ds.obs_ch[o]]] + [int(a in by) for a in ds.alts]
        row += [vals[v][ds.obs_rows[o][0]] for v in ind]
        row += [vals[v][by[a]] if a in by else null for v, a in pairs]
        rows.append(row)
    return cols, rows


def p_long_to_wide(case, out):
    from pylogit import choice_tools as ct
    ds = DS(case["ds"])
    f = ds.frame()
    for v in case.get("drop", []):
        del f[v]
    keep = f.copy(deep=True)
    vals = {v: [float("nan") if x is None else x for x in s["vals"]] for v, s in ds.raw["vars"].items()}
    vals[ds.c["mix"]] = ds.mix_of
    null = float("nan") if case["null"] is None else case["null"]
    ind, av, sub = list(case["ind"]), list(case["alt_vars"]), OrderedDict((v, list(a)) for v, a in case["subset"])
    k = {}
    if case.get("names"):
        k["alt_name_dict"] = {a: case["names"][str(a)] for a in ds.alts}
    if case["null"] is not None or case.get("pass_null"):
        k["null_value"] = null
    got = sut(ct.convert_long_to_wide, f, ind, av, sub, ds.c["obs"], ds.c["alt"], ds.c["ch"], **k)
    cols, rows = expected_wide(ds, ind, av, case["subset"], case.get("names"), null, vals)
    check_frame(got, cols, rows, "wide data")
    require(f.equals(keep) and list(f.columns) == list(keep.columns), "convert_long_to_wide modified the long data")
    out.nt = ds.n_obs > 1
    out.label("shuffled rows" if ds.perm else "grouped rows")
    if any(len(o["alts"]) < ds.J for o in ds.raw["obs"]):
        out.label("unavailable alternatives")
    # round trip (needs every alternative chosen at least once)
    if len(set(ds.alt_of[r] for r in ds.obs_ch)) == ds.J and not case.get("names"):
        alt_vars = OrderedDict()
        for v in av:
            alt_vars[v] = dict((a, "%s_%d" % (v, a)) for a in ds.alts)
        for v, al in case["subset"]:
            alt_vars[v] = dict((a, "%s_%d" % (v, a)) for a in al)
        back = sut(ct.convert_wide_to_long, got, ind, alt_vars, OrderedDict((a, "availability_%d" % a) for a in ds.alts),
                   ds.c["obs"], ds.c["ch"], new_alt_id_name=ds.c["alt"])
        exp = []
        seen = []
        for r in ds.order():
            if ds.obs_of[r] not in seen:
                seen.append(ds.obs_of[r])
        sub_of = dict((v, set(a)) for v, a in case["subset"])
        for o in seen:
            for r in sorted(ds.obs_rows[o], key=lambda q: ds.alt_of[q]):
                row = [ds.obs_ids[o], ds.alt_of[r], ds.ch_of[r]] + [vals[v][r] for v in ind]
                row += [vals[v][r] if (v not in sub_of or ds.alt_of[r] in sub_of[v]) else 0.0 for v in alt_vars]
                exp.append(row)
        check_frame(back, [ds.c["obs"], ds.c["alt"], ds.c["ch"]] + ind + list(alt_vars), exp, "long data after a round trip")
        out.label("round trip")


def p_wide_roundtrip(case, out):
    """wide -> long -> wide returns the original wide data (unavailable cells: null value)."""
    from pylogit import choice_tools as ct
    W = Wide(case["w"])
    w = case["w"]
    ind, alt_vars, av = W.args()
    altcol = w.get("new_alt") or "alt_id"
    long = sut(ct.convert_wide_to_long, W.frame(), ind, alt_vars, av, W.c["obs"], W.c["ch"], new_alt_id_name=altcol)
    full = [v for v, al in w["alt_vars"] if len(al) == len(W.alts)]
    sub = OrderedDict((v, list(al)) for v, al in w["alt_vars"] if len(al) < len(W.alts))
    if len(ind) == 0 and not full and not sub:
        raise Skip("nothing to convert")
    back = sut(ct.convert_long_to_wide, long, ind, full, sub, W.c["obs"], altcol, W.c["ch"])
    cols = [W.c["obs"], W.c["ch"]] + ["availability_%d" % a for a in W.alts] + ind
    pairs = [(v, a) for v in full for a in W.alts] + [(v, a) for v in sub for a in W.alts if a in sub[v]]
    cols += ["%s_%d" % p for p in pairs]
    rows = []
    for r in w["rows"]:
        row = [r["id"], r["ch"]] + [int(bool(x)) for x in r["av"]] + [r["ind"][v] for v in ind]
        for v, a in pairs:
            x = r["alt"][v][str(a)]
            row.append(float("nan") if x is None or not r["av"][W.alts.index(a)] else x)
        rows.append(row)
    check_frame(back, cols, rows, "wide data after a round trip")
    out.nt = len(w["rows"]) > 1
