"""Generators for the data handling properties (P11-P15)."""
from vp import gen
from vp.gen import ALL7, LOGIT
from vp.reg import F, prop


# ------------------------------------------------------------------ P11, P12
def g_design(d):
    ds = gen.dataset(d, max_obs=6, max_J=5, mix=True, perm="any", n_vars=d.i(1, 4))
    m = gen.model(d, ds, ["MNL"])
    return {"ds": ds, "m": m, "via": d.pick(["api", "model", "api", "csv"])}


def g_mappings(d):
    ds = gen.huge_ids(d, gen.dataset(d, max_obs=7, max_J=5, mix=True, perm="any", n_vars=1))
    m = gen.model(d, ds, ["MNL", "Nested Logit", "Mixed Logit"])
    case = {"ds": ds, "m": m, "via": d.pick(["api", "model"]), "dense": d.b(1, 2), "choice": d.b(2, 3), "mix": d.b(1, 2)}
    if d.b(1, 2):
        case["nests"] = gen.nests(d, ds["alts"])
    return case


def g_id_mapping(d):
    n = d.i(1, 12)
    k = d.i(1, 6)
    pool = [x * d.pick([1, 1, 3, 100]) for x in d.grid(k, 9, 1)]
    dt = d.pick(["int64", "float64", "int32"])
    ids = [pool[b % k] for b in d.bytes(n)]
    if dt == "float64":
        pool = [x / 2.0 for x in pool]
        ids = [x / 2.0 for x in ids]
    case = {"ids": ids, "dtype": dt}
    if d.b(1, 2):
        u = []
        for x in [pool[q] for q in d.perm(k)]:
            if x not in u:
                u.append(x)
        case["uniq"] = u[:d.i(1, len(u))]
        if not set(case["uniq"]) & set(ids):
            case["uniq"] = [ids[0]] + case["uniq"]
    return case


prop("P11",
     "Random data sets (2-5 alternatives, all row orders, dtypes, index types, CSV input) and random specifications "
     "(generic, alternative-specific, arbitrary groups of alternatives, custom names); the design matrix, coefficient "
     "order and names are compared cell by cell with a reference. Non-trivial: the matrix is not constant.",
     ["alternative ids are integers; variables are finite numbers"],
     [F("design", g_design, 2400, 30000)])
prop("P12",
     "Random data sets (any row order) with choices, nests and mixing ids; every mapping (sparse and dense, direct and via "
     "a model) is compared with the incidence matrix computed row by row. Non-trivial: more than one observation / id.",
     [], [F("mappings", g_mappings, 2000, 25000), F("id_mapping", g_id_mapping, 1200, 15000)])


# ------------------------------------------------------------------ P13, P14
WCOLS = [{"obs": "obs_id", "ch": "choice"}, {"obs": "custom id", "ch": "chosen alt"}, {"obs": "o", "ch": "y"}]


def wide(d, nan=True, plain=False):
    J = d.i(2, 4)
    alts = gen.alt_ids(d, J)
    n = d.i(J, J + 5)
    style = d.i(0, 2)
    if style == 0:
        ids = gen.obs_ids(d, n)
    else:
        cur, ids = d.i(0, 30), []
        for b in d.bytes(n):
            ids.append(cur)
            cur += 1 + b % 6
    if d.b(1, 3):
        ids = [ids[q] for q in d.perm(n)]
    ind = ["i%d" % (q + 1) for q in range(d.i(0, 2))]
    n_alt = d.i(0 if ind else 1, 3)
    alt_vars = []
    for q in range(n_alt):
        al = list(alts) if d.b(1, 2) else d.subset(alts, 1)
        p = d.perm(len(al))
        alt_vars.append(["v%d" % (q + 1), [al[z] for z in p]])
    p = d.perm(n)
    rows = []
    alt_dt = d.pick(["float64", "int64", "float32"])
    # columns of one variable may have different types
    own = {}
    if d.b(1, 3):
        for v, al in alt_vars:
            for a in al:
                own["%s|%d" % (v, a)] = d.pick(["float64", "int64", "float32", "int8"])
    missing = d.b(1, 8)
    for q in range(n):
        ch = d.i(0, J - 1)
        rows.append({"id": ids[q], "ch": ch})
    for j in range(J):
        rows[p[j]]["ch"] = j
    many = d.i(0, 2)
    for q in range(n):
        ch = rows[q]["ch"]
        rows[q]["av"] = [1 if (j == ch or many == 0 or b % (many + 2)) else 0 for j, b in enumerate(d.bytes(J))]
        rows[q]["ch"] = alts[ch]
        rows[q]["ind"] = dict(zip(ind, d.grid(len(ind), 9, 1)))
        rows[q]["alt"] = {}
        for v, al in alt_vars:
            vals = d.grid(len(al), 20, 1)
            vals = [x * 0.25 if own.get("%s|%d" % (v, a), alt_dt)[:3] != "int" else x for x, a in zip(vals, al)]
            rows[q]["alt"][v] = {str(a): x for a, x in zip(al, vals)}
            if missing and d.b(1, 4):
                rows[q]["alt"][v][str(al[0])] = None
            if nan and d.b(1, 6):
                for a in al:
                    if not rows[q]["av"][alts.index(a)]:
                        rows[q]["alt"][v][str(a)] = None
    w = {"alts": alts, "rows": rows, "cols": d.pick(WCOLS), "ind": ind, "alt_vars": alt_vars, "alt_dtype": alt_dt,
         "ind_dtypes": {v: d.pick(["float64", "int64", "int8", "float32"]) for v in ind},
         "av_dtypes": [d.pick(["int64", "int64", "bool", "float64", "uint8"]) for _ in alts] if d.b(1, 3) else ["int64"] * J,
         "av_prefix": d.pick(["av_", "availability ", "AV"]), "av_order": [alts[q] for q in d.perm(J)],
         "index": d.pick(["default", "dup", "reversed"]), "col_rev": d.b(1, 4),
         "id_dtype": d.pick(["int64", "int64", "int32" if max(ids) < 2 ** 31 else "int64", "float64"]), "ch_dtype": d.pick(["int64", "int64", "int32", "float64"])}
    if d.b(1, 2):
        w["new_alt"] = d.pick(["alternative", "mode id"])
    if own:
        w["own_dtypes"] = own
    if d.b(1, 4):
        w["extra"] = ["unused"]
    if d.b(1, 3):
        # fractional individual variables
        for v in ind:
            if w["ind_dtypes"][v].startswith("float"):
                for r in rows:
                    r["ind"][v] = r["ind"][v] * 0.25
    return w


def g_wide(d):
    return {"w": wide(d)}


def g_long(d):
    ds = gen.dataset(d, min_obs=1, max_obs=7, max_J=4, mix=True, perm="any", n_vars=d.i(1, 3), ints=False,
                     all_chosen=d.b(1, 2))
    ds.pop("icept", None)
    n = len(ds["obs"])
    # person characteristics
    ind = []
    for q in range(d.i(0, 2)):
        per = d.grid(n, 9, 1)
        vals = []
        for k, o in enumerate(ds["obs"]):
            vals.extend([per[k]] * len(o["alts"]))
        nm = "person%d" % (q + 1)
        ds["vars"][nm] = {"dtype": d.pick(["int64", "float64"]), "vals": vals}
        ind.append(nm)
    alt_vars, subset = [], []
    for v in sorted(ds["vars"]):
        if v in ind:
            continue
        if d.b(1, 6):
            s = ds["vars"][v]
            s["dtype"] = "float64"
            s["vals"] = [None if b % 5 == 0 else x for x, b in zip(s["vals"], d.bytes(len(s["vals"])))]
        k = d.i(0, 3)
        if k <= 1:
            alt_vars.append(v)
        elif k == 2:
            al = d.subset(ds["alts"], 1)
            subset.append([v, [al[q] for q in d.perm(len(al))]])
    if d.b(1, 2):
        alt_vars = [alt_vars[q] for q in d.perm(len(alt_vars))]
        ind = [ind[q] for q in d.perm(len(ind))]
    case = {"ds": ds, "ind": ind, "alt_vars": alt_vars, "subset": subset, "null": d.pick([None, None, -99.0, 0.0, 7]),
            "pass_null": d.b(1, 3)}
    if d.b(1, 3):
        case["names"] = {str(a): d.pick(["mode ", "alt", ""]) + "n%d" % a for a in ds["alts"]}
    return case


prop("P13",
     "Random wide data sets (ids in any order, missing availability, NaN for unavailable alternatives, alternative "
     "specific variables for any subset of alternatives, all argument orders and dtypes); the long data is compared cell "
     "by cell with a reference. Non-trivial: at least two rows and two alternatives.",
     ["every alternative is chosen at least once (documented requirement)", "observation and alternative ids are integers"],
     [F("wide_to_long", g_wide, 1600, 20000)])
prop("P14",
     "Random long data sets (any row order, missing values, subsets of alternatives, alternative names, null values) "
     "are converted to wide and compared cell by cell with a reference, then converted back; random wide data sets "
     "make the opposite round trip. Non-trivial: more than one observation.",
     ["individual variables are constant within an observation"],
     [F("long_to_wide", g_long, 1600, 20000), F("wide_roundtrip", g_wide, 800, 8000)])


# ------------------------------------------------------------------ P15
CREATE_KINDS = ["unknown model type", "missing alt column", "missing obs column", "missing choice column",
                "variable not in data", "specification not ordered", "bad specification value",
                "unknown alternative in specification", "nested too deep", "names do not match", "names not ordered", "non-finite value",
                "text value", "data is not a frame", "not a csv path", "mixing variable unknown",
                "mixed with outside intercepts", "asym without reference", "reference out of range",
                "wrong number of names", "intercept names without reference"]
NEST_KINDS = ["nest spec missing", "nest lacks an alternative",
              "nest repeats an alternative", "nest has an unknown alternative", "nest is empty", "nest not ordered",
              "nest names one alternative twice instead of another", "nest names an unknown alternative instead of another",
              "nest has non-integer ids", "nest values not lists", "nest keys not strings"]
FIT_KINDS = ["wrong number of start values", "ridge not a number", "rows not contiguous", "negative weight",
             "wrong number of weights", "weights not 1D", "weights not an array", "unused start value arguments",
             "start values missing", "split start values of wrong length", "number of draws", "draw seed"]
PRED_KINDS = ["parameter list type", "parameter list length", "parameter not an array", "wrong number of index coefficients",
              "wrong number of intercepts", "wrong number of shapes", "wrong number of nests", "mixed dimensions",
              "different numbers of columns", "3D parameters", "missing obs column", "missing alt column", "missing variable",
              "no choice column for chosen probabilities", "data is not a frame", "not a csv path", "missing mixing column",
              "number of draws", "draw seed"]
LONG_KINDS = ["duplicated row", "no choice", "two choices", "choice moved to another observation", "missing individual variable", "missing alternative variable",
              "missing subset variable", "missing id column", "alternative names not a dict", "unknown alternative named"]
WIDE_KINDS = ["duplicated observation", "missing choice", "unlisted choice", "unavailable choice", "alternative never chosen",
              "missing individual variable", "missing availability column", "missing alternative column", "missing id column",
              "missing choice column", "alternative variable for an unknown alternative"]
BOOT_KINDS = ["confidence level", "interval type", "replicate type", "bootstrap seed", "replicates not 2D", "resampled id unknown",
              "bootstrap id column exists", "observation column missing", "pickle path"]

TYPES_FOR = {"mixing variable unknown": ["Mixed Logit"], "mixed with outside intercepts": ["Mixed Logit"],
             "asym without reference": ["Asym"], "reference out of range": ["Asym", "Scobit", "Uneven", "Cloglog"],
             "wrong number of names": ["Asym", "Scobit", "Uneven"], "intercept names without reference": ["Scobit", "Uneven", "Cloglog"],
             "unused start value arguments": ["MNL", "Nested Logit", "Mixed Logit"],
             "start values missing": ["Asym", "Scobit", "Uneven"],
             "split start values of wrong length": ["Asym", "Scobit", "Uneven"], "number of draws": ["Mixed Logit"],
             "draw seed": ["Mixed Logit"], "missing mixing column": ["Mixed Logit"], "wrong number of intercepts": ["Asym", "Scobit", "Uneven", "Cloglog"],
             "wrong number of shapes": ["Asym", "Scobit", "Uneven"], "wrong number of nests": ["Nested Logit"],
             "mixed dimensions": ["Asym", "Scobit", "Uneven"], "different numbers of columns": ["Asym", "Scobit", "Uneven"],
             "names do not match": LOGIT + ["Nested Logit"], "names not ordered": LOGIT + ["Nested Logit"]}


def g_reject_create(d):
    kind = d.pick(CREATE_KINDS + NEST_KINDS)
    types = ["Nested Logit"] if kind in NEST_KINDS else TYPES_FOR.get(kind, ALL7)
    ds = gen.dataset(d, max_obs=4, mix=True, perm="any", n_vars=d.i(1, 2))
    m = gen.model(d, ds, types)
    return {"ds": ds, "m": m, "kind": kind, "a": d.i(0, 60), "b": d.i(0, 60)}


def g_reject_fit(d):
    kind = d.pick(FIT_KINDS)
    ds = gen.dataset(d, min_obs=2, max_obs=5, mix=True, n_vars=d.i(1, 2), steps=6, max_J=3)
    m = gen.model(d, ds, TYPES_FOR.get(kind, ALL7))
    return {"ds": ds, "m": m, "kind": kind, "a": d.i(0, 60), "b": d.i(0, 60),
            "init": [0.5 * x for x in gen.params(d, m, ds, 0.5)]}


def g_reject_predict(d):
    kind = d.pick(PRED_KINDS)
    ds = gen.dataset(d, max_obs=4, mix=True, n_vars=d.i(1, 2), steps=6, max_J=3)
    m = gen.model(d, ds, TYPES_FOR.get(kind, ALL7))
    return {"ds": ds, "m": m, "kind": kind, "a": d.i(0, 60), "b": d.i(0, 60), "params": gen.params(d, m, ds, 0.5)}


def g_reject_long(d):
    case = g_long(d)
    case.pop("names", None)
    case.update(kind=d.pick(LONG_KINDS), a=d.i(0, 60), b=d.i(0, 60))
    return case


def g_reject_wide(d):
    return {"w": wide(d), "kind": d.pick(WIDE_KINDS), "a": d.i(0, 60), "b": d.i(0, 60)}


def g_reject_boot(d):
    ds = gen.dataset(d, max_obs=5, n_vars=d.i(1, 2), steps=6, max_J=3)
    m = gen.model(d, ds, ["MNL", "Scobit", "Nested Logit"])
    return {"ds": ds, "m": m, "kind": d.pick(BOOT_KINDS), "a": d.i(0, 60), "b": d.i(0, 60), "params": gen.params(d, m, ds, 0.5)}


prop("P15",
     "Random valid inputs for model construction, estimation, prediction, wide/long conversion and bootstrap are each "
     "combined with one malformation (93 kinds, at one or more random positions: a NaN cell, one negative weight, one split "
     "observation, one alternative in two nests, ...); the valid input must be accepted, the malformed one must raise, and "
     "data and model must be unaffected by the rejected call. Non-trivial: every case that is not skipped.",
     ["only malformations the library documents or checks itself are included"],
     [F("reject_create", g_reject_create, 1600, 16000), F("reject_fit", g_reject_fit, 560, 6000),
      F("reject_predict", g_reject_predict, 800, 8000), F("reject_long", g_reject_long, 480, 5000),
      F("reject_wide", g_reject_wide, 560, 6000), F("reject_boot", g_reject_boot, 480, 5000)])
