"""Hypothesis-driven generators.  Every case is a plain JSON value; every random choice comes from
the Hypothesis data source, so a case shrinks as one value and replays without Hypothesis."""
from hypothesis import strategies as st

from vp import ref

_INT = {}


def _ints(lo, hi):
    k = (lo, hi)
    if k not in _INT:
        _INT[k] = st.integers(lo, hi)
    return _INT[k]


class D(object):
    def __init__(self, draw):
        self.draw = draw

    def i(self, lo, hi):
        return self.draw(_ints(lo, hi))

    def pick(self, seq):
        return seq[self.i(0, len(seq) - 1)]

    def b(self, num=1, den=2):
        """True with probability num/den (shrinks to False)"""
        return self.i(0, den - 1) >= den - num

    def bytes(self, n):
        return self.draw(st.binary(min_size=n, max_size=n))

    def grid(self, n, steps, unit):
        """n values k*unit, |k| <= steps; shrinks towards 0"""
        m = 2 * steps + 1
        out = []
        for c in self.bytes(n):
            k = c % m
            k = (k + 1) // 2 if k % 2 else -(k // 2)
            out.append(round(k * unit, 10) if unit != 1 else k)
        return out

    def perm(self, n):
        """random permutation of range(n) (identity when shrunk)"""
        keys = self.bytes(n)
        return [i for _, i in sorted((keys[i], i) for i in range(n))]

    def subset(self, seq, lo=0, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else hi
        k = self.i(lo, hi)
        p = self.perm(len(seq))
        return [seq[i] for i in sorted(p[:k])]

    def weights(self, n, zero=True):
        kind = self.i(0, 2)
        bs = self.bytes(n)
        if kind == 0:
            w = [float(1 + b % 3) for b in bs]
        elif kind == 1:
            w = [0.25 * (1 + b % 12) for b in bs]
        else:
            w = [round(0.1 + 0.37 * (b % 9), 6) for b in bs]
        if zero and n > 1:
            for j in range(1, n):
                if bs[j] >= 230:
                    w[j] = 0.0
        return w


# ---------------------------------------------------------------------------- data sets
def alt_ids(d, J):
    k = d.i(0, 4)
    if k == 0:
        return list(range(1, J + 1))
    if k == 1:
        return list(range(0, J))
    if k == 2:
        out, cur = [], d.i(0, 3)
        for b in d.bytes(J):
            out.append(cur)
            cur += 1 + b % 4
        return out
    if k == 3:
        return [10 * (j + 1) for j in range(J)]
    if d.b(1, 3):
        lo = d.pick([2 ** 24 - 1, 1000001, 250])
        return list(range(lo, lo + J))
    return list(range(d.i(2, 20), 99))[:J]


def obs_ids(d, n):
    k = d.i(0, 4)
    if k == 0:
        return list(range(1, n + 1))
    if k == 1:
        return list(range(0, n))
    if k == 4:
        # long identifiers (phone numbers, survey codes): neighbours differ in the last digits only
        cur = d.pick([2 ** 24 - 1, 2 ** 31 - 3, 10 ** 9 + 7, 6045550100, 2 ** 40 + 1])
    else:
        cur = d.i(0, 50) if k == 2 else d.i(1, 2) * 1000
    out = []
    for b in d.bytes(n):
        out.append(cur)
        cur += 1 + b % 5
    return out


COLS = [None, None, None,
        {"obs": "custom id", "alt": "alternative", "ch": "chosen", "mix": "person"},
        {"obs": "o", "alt": "a", "ch": "y", "mix": "m"}]


def repeat_obs(obs, vs, times, same_units):
    """the observations `times` times over, with increasing ids and shifted values of the real variables"""
    step = max(o["id"] for o in obs) - min(o["id"] for o in obs) + 1
    out = []
    for c in range(times):
        for o in obs:
            q = dict(o, id=o["id"] + c * step, alts=list(o["alts"]))
            if c:
                q["ch"] = (o["ch"] + c) % len(o["alts"])
            if "mix" in o and not same_units:
                q["mix"] = o["mix"] + 100 * c
            out.append(q)
    for v in vs.values():
        base = v["vals"]
        real = v["dtype"].startswith("float")
        v["vals"] = [round(x + 0.25 * ((3 * c) % 5 - (2 if c else 0)), 6) if real else x for c in range(times) for x in base]
    return out, [o["id"] for o in out]


def dataset(d, min_obs=1, max_obs=7, min_J=2, max_J=4, n_vars=None, mix=False, all_chosen=False,
            full_choice_sets=False, min_set=1, exotic=True, perm="none", steps=12, unit=0.25,
            ints=True, single_sets=True, alts=None, cols=None):
    """perm: 'none' (rows grouped by observation), 'within' handled by alternative order,
    'any' (rows of the whole frame shuffled; prediction only)."""
    tile = 1
    if max_J >= 3 and alts is None and max_obs >= 4 and d.b(1, 48):
        # rarely, many observations (a few hundred rows): the observations below, repeated with other values
        tile = d.i(8, 24)
    elif max_J >= 4 and alts is None and d.b(1, 16):
        # now and then something larger: thresholds on sizes, ids of two digits, ...
        alts = alt_ids(d, d.i(5, 11))
        max_obs = max(max_obs, 18)
    if alts is None:
        alts = alt_ids(d, d.i(min_J, max_J))
    J = len(alts)
    n = d.i(max(min_obs, J if all_chosen else 1), max(max_obs, J if all_chosen else 1))
    ids = obs_ids(d, n)
    obs = []
    avail = d.i(0, 2)  # 0: always all alternatives, 1: some missing, 2: many missing
    if full_choice_sets:
        avail = 0
    shuffle = d.b(1, 2)
    full_at = d.i(0, n - 1)
    if mix:
        mixstyle = d.i(0, 2)
    for k in range(n):
        a = list(alts)
        if avail and k != full_at:
            lo = min_set if single_sets else max(2, min_set)
            a = d.subset(alts, lo=min(lo, J))
        if shuffle:
            p = d.perm(len(a))
            a = [a[q] for q in p]
        o = {"id": ids[k], "alts": a, "ch": d.i(0, len(a) - 1)}
        if mix:
            if mixstyle == 0:
                o["mix"] = 1 + k // 2
            elif mixstyle == 1:
                o["mix"] = 1 + k
            else:
                o["mix"] = d.i(1, 4) * 5
        obs.append(o)
    if all_chosen:
        # every alternative chosen at least once: spread over the first observations
        for j, alt in enumerate(alts):
            o = obs[j]
            if alt not in o["alts"]:
                o["alts"].append(alt)
            o["ch"] = o["alts"].index(alt)
    # every alternative must occur in the data
    present = set()
    for o in obs:
        present.update(o["alts"])
    miss = [x for x in alts if x not in present]
    obs[full_at]["alts"].extend(miss)
    rows = sum(len(o["alts"]) for o in obs)
    nv = d.i(1, 3) if n_vars is None else n_vars
    vs = {}
    for k in range(nv):
        kind = d.i(0, 5 if ints else 1)
        name = "x%d" % (k + 1)
        if kind <= 1:
            vs[name] = {"dtype": d.pick(["float64", "float64", "float64", "float32"]),
                        "vals": [float(x) for x in d.grid(rows, steps, unit)]}
        elif kind == 2:
            vs[name] = {"dtype": "float64", "vals": [round(x * 1.0 + 0.013 * x * x, 6) for x in d.grid(rows, steps, unit)]}
        elif kind == 3:
            hi = max(1, int(steps * unit))
            dt = d.pick(["int64", "int64", "int32", "int8", "uint8"])
            vals = [int(x) for x in d.grid(rows, hi, 1)]
            vs[name] = {"dtype": dt, "vals": [abs(x) for x in vals] if dt == "uint8" else vals}
        elif kind == 4:
            vs[name] = {"dtype": d.pick(["int64", "float64", "uint8", "int32"]), "vals": [int(x) % 2 for x in d.bytes(rows)]}
        else:
            # constant within an observation (person characteristic)
            per = d.grid(n, steps, unit)
            vals = []
            for q, o in enumerate(obs):
                vals.extend([float(per[q])] * len(o["alts"]))
            vs[name] = {"dtype": "float64", "vals": vals}
    if tile > 1:
        obs, ids = repeat_obs(obs, vs, tile, d.b(1, 2))
        rows *= tile
    if mix:
        k = d.i(0, 5)
        for o in obs:
            # identifiers of decision makers starting from zero, or long ones
            o["mix"] += {4: -1, 5: 6045550100}.get(k, 0)
    ds = {"alts": alts, "obs": obs, "vars": vs}
    if exotic:
        ds["index"] = d.pick(["default", "default", "offset", "reversed", "dup", "str"])
        c = d.pick(COLS) if cols is None else cols
        if c:
            ds["cols"] = c
        if d.b(1, 4):
            ds["icept"] = d.pick([True, True, 2.5, -0.5])
        if d.b(1, 4):
            ds["col_rev"] = True
        top = max(ids)
        ds["obs_dtype"] = d.pick(["int64", "int64", "float64", "int32" if top < 2 ** 31 else "int64",
                                  "uint16" if top < 2 ** 16 else "float64"])
        ds["alt_dtype"] = d.pick(["int64", "int64", "int32"])
        ds["ch_dtype"] = d.pick(["int64", "int64", "float64", "int32", "bool", "uint8"])
    if perm == "any" and d.b(1, 2):
        ds["perm"] = d.perm(rows)
    return ds


def variable_spec(d, var, alts, allow_all_same=True, allow_all_diff=True):
    k = d.i(0, 4)
    if k <= 1 and allow_all_same:
        return "all_same"
    if k == 2 and allow_all_diff:
        return "all_diff"
    if k == 3:
        # single alternatives and/or groups, in any order
        p = [alts[q] for q in d.perm(len(alts))]
        take = p[:d.i(1, len(p))]
        out = []
        q = 0
        while q < len(take):
            if d.b(1, 2) and q + 1 < len(take):
                size = d.i(1, len(take) - q)
                out.append(take[q:q + size])
                q += size
            else:
                out.append(take[q])
                q += 1
        return out
    p = [alts[q] for q in d.perm(len(alts))]
    return [p[:d.i(1, len(p))]]


def model(d, ds, types, named=True, exotic_names=True, icept=True, max_K=8, need_named_params=False, max_mix=2):
    """A model description compatible with the data set."""
    t = d.pick(types)
    alts = ds["alts"]
    J = len(alts)
    spec = []
    intercept_in_index = False
    if icept and d.b(1, 3) and t in ("MNL", "Nested Logit", "Mixed Logit", "Scobit", "Uneven", "Asym", "Cloglog"):
        base = d.i(0, J - 1)
        sub = [a for q, a in enumerate(alts) if q != base]
        spec.append(["intercept", sub])
        intercept_in_index = True
    vs = sorted(ds["vars"])
    for v in vs:
        spec.append([v, variable_spec(d, v, alts)])
    if len(spec) > 1:
        p = d.perm(len(spec))
        spec = [spec[q] for q in p]
    m = {"type": t, "spec": spec}
    if exotic_names and d.b(1, 3):
        names = []
        pre = d.pick(["b ", "b ", "Sigma "])
        for v, s in spec:
            if s == "all_same":
                names.append([v, pre + v])
            else:
                k = J if s == "all_diff" else len(s)
                names.append([v, ["b %s, part %d" % (v, q) for q in range(k)]])
        m["names"] = names
    if t in ("Asym", "Scobit", "Uneven", "Cloglog"):
        m["iref"] = None if (t != "Cloglog" and d.b(1, 3)) or d.b(1, 4) else d.i(0, J - 1)
        if t == "Asym":
            m["sref"] = d.i(0, J - 1)
    if t == "Nested Logit":
        m["nests"] = nests(d, alts)
    if t == "Mixed Logit":
        nm = []
        for v, s in (m.get("names") or []):
            nm.extend(s if isinstance(s, list) else [s])
        if not nm:
            nm = ref.spec_names(spec, alts)
        k = d.i(1, min(max_mix, len(nm)))
        p = d.perm(len(nm))[:k]
        m["mixvars"] = [nm[q] for q in p]
    return m


def nests(d, alts):
    J = len(alts)
    n_n = d.i(1, J)
    assign = [d.i(0, n_n - 1) for _ in alts]
    p = d.perm(J)
    out = {}
    for a_i in p:
        out.setdefault(assign[a_i], []).append(alts[a_i])
    keys = list(out)
    return [["Nest %d" % (k + 1) if q % 2 else "nest%d" % (k + 1), out[k]] for q, k in enumerate(keys)]


def n_index(m, ds):
    return len(ref.spec_columns(m["spec"], ds["alts"]))


def n_params(m, ds):
    return ref.n_params(m["type"], len(ds["alts"]), n_index(m, ds), m.get("iref"),
                        len(m["nests"]) if m.get("nests") else 0, len(m["mixvars"]) if m.get("mixvars") else 0)


def params(d, m, ds, scale=1.0):
    """flat parameter vector (nests, shapes, intercepts, index[, sigmas])"""
    t = m["type"]
    J = len(ds["alts"])
    out = []
    if t == "Nested Logit":
        # lambda between 0.27 and 0.98
        out += [round(-1.0 + 0.5 * (b % 11), 6) for b in d.bytes(len(m["nests"]))]
    if t in ("Scobit", "Uneven"):
        out += [x * 0.25 for x in d.grid(J, 6, 1)]
    if t == "Asym":
        out += [x * 0.25 for x in d.grid(J - 1, 8, 1)]
    if t in ("Asym", "Scobit", "Uneven", "Cloglog") and m.get("iref") is not None:
        out += [x * 0.25 for x in d.grid(J - 1, 8, 1)]
    K = n_index(m, ds)
    unit = 0.125 * scale
    out += [x * unit for x in d.grid(K, 8, 1)]
    if m.get("mixvars"):
        out += [x * 0.25 for x in d.grid(len(m["mixvars"]), 8, 1)]
    if d.b(1, 10):
        # close to, but not at, the values where a model simplifies: shapes near their neutral value, nest coefficients near one,
        # small utilities
        f = d.pick([2.0 ** -6, 2.0 ** -8, 2.0 ** -11])
        k = len(m["nests"]) if m.get("nests") else {"Scobit": J, "Uneven": J, "Asym": J - 1}.get(t, 0)
        if k and d.b(3, 4):
            out[:k] = [x + 5.0 for x in out[:k]] if t == "Nested Logit" else [x * f for x in out[:k]]
        else:
            out[-K:] = [x * f for x in out[-K:]]
    return [float(x) for x in out]


def huge_ids(d, ds):
    """now and then identifiers beyond the integers a double represents exactly (19-digit keys)"""
    if d.b(1, 8):
        base = d.pick([2 ** 53 + 1, 9 * 10 ** 18])
        for o in ds["obs"]:
            o["id"] += base
        ds["obs_dtype"] = "int64"
    return ds


LOGIT = ["MNL", "Asym", "Cloglog", "Scobit", "Uneven"]
ALL7 = LOGIT + ["Nested Logit", "Mixed Logit"]


def long_panel(d, n_vars=1):
    """a data set with few decision makers and many choice situations each (tiny sequence probabilities)"""
    ds = dataset(d, min_obs=12, max_obs=60, max_J=3, mix=True, steps=8, n_vars=n_vars)
    k = d.i(1, 2)
    for q, o in enumerate(ds["obs"]):
        o["mix"] = 1 + q % k
    return ds
