"""Generators for histories and persistence (P22, P23)."""
import copy

from vp import gen
from vp.gen import ALL7
from vp.props_boot import g_boot_mnl, g_boot_other
from vp.reg import F, prop, scale_for

OPS = ["fit", "fit", "fit", "predict", "predict", "predict_here", "point", "report", "mappings", "bad_fit", "bad_predict", "boot",
       "convert", "other", "pickle", "panel", "edit"]


def an_op(d, kinds=OPS):
    op = {"op": d.pick(kinds), "a": d.i(0, 30), "b": d.i(0, 30)}
    if op["op"] in ("predict", "panel"):
        op["f"] = d.i(0, 1)
    if op["op"] in ("fit", "point", "bad_fit"):
        if d.b(1, 3):
            op["w"] = 1
        if d.b(1, 3):
            op["con"] = 1
    return op


def base(d):
    t = d.pick(ALL7)
    ds = gen.dataset(d, min_obs=2, max_obs=4, mix=True, steps=6, max_J=3, n_vars=d.i(1, 2), all_chosen=True)
    m = gen.model(d, ds, [t])
    ds2 = gen.dataset(d, min_obs=1, max_obs=3, mix=True, steps=6, alts=ds["alts"], n_vars=len(ds["vars"]),
                      cols=ds.get("cols") or {}, perm="any")
    if "cols" not in ds:
        ds2.pop("cols", None)
    return {"ds": ds, "m": m, "ds2": ds2, "params": [gen.params(d, m, ds, 0.5 * scale_for(t)) for _ in range(2)],
            "inits": [[0.5 * x for x in gen.params(d, m, ds, 0.5)] for _ in range(2)], "weights": d.weights(len(ds["obs"]), zero=False)}


def variant(d, ds):
    """a data set of the same size whose observations are laid out differently"""
    ds = copy.deepcopy(ds)
    ids = [o["id"] for o in ds["obs"]]
    p = d.perm(len(ids))
    ds["obs"] = [ds["obs"][q] for q in p]
    for o, i in zip(ds["obs"], ids):
        o["id"] = i
    return ds


def g_est_history(d):
    t = d.pick(ALL7)
    ds = gen.dataset(d, max_obs=4, mix=True, steps=8, max_J=3, n_vars=d.i(1, 2))
    m = gen.model(d, ds, [t])
    n = gen.n_params(m, ds)
    case = {"ds": ds, "m": m, "points": [gen.params(d, m, ds, scale_for(t)) for _ in range(3)],
            "ridges": [d.pick([None, 0.5]), d.pick([1, None])], "con": d.pick([None, [0], [n - 1]]),
            "eops": [{"k": d.pick(["ll", "grad", "hess", "fisher", "probs", "obj", "nhess"]), "e": d.i(0, 1), "p": d.i(0, 2)}
                     for _ in range(d.i(2, 7))]}
    if d.b(1, 2):
        case["weights"] = d.weights(len(ds["obs"]))
    if t == "Mixed Logit":
        case["nd"] = d.i(1, 3)
        case["seed"] = d.i(1, 5000)
    return case


def g_interleave(d):
    t = d.pick(ALL7)
    ds = gen.dataset(d, min_obs=2, max_obs=4, mix=True, steps=8, max_J=3, n_vars=d.i(1, 2))
    m = gen.model(d, ds, [t])
    one = {"ds": ds, "m": m, "params": gen.params(d, m, ds, scale_for(t)), "params2": gen.params(d, m, ds, scale_for(t)),
           "mode": "long", "with_choice": d.b(1, 2), "csv": False}
    if t == "Mixed Logit":
        one["nd"] = d.i(1, 3)
        one["seed"] = d.i(1, 5000)
    subs = [one]
    for _ in range(d.i(1, 2)):
        o = dict(subs[0])
        if d.b(2, 3):
            o["ds"] = variant(d, ds)
        if d.b(1, 2):
            # same sizes, other reference positions / nests
            m2 = copy.deepcopy(m)
            J = len(ds["alts"])
            if m2.get("iref") is not None:
                m2["iref"] = d.i(0, J - 1)
            if m2.get("sref") is not None:
                m2["sref"] = d.i(0, J - 1)
            if m2.get("nests") and len(m2["nests"]) > 1:
                m2["nests"] = [[a[0], b[1]] for a, b in zip(m2["nests"], m2["nests"][::-1])]
            o["m"] = m2
        if d.b(1, 2):
            o["params"] = gen.params(d, m, ds, scale_for(t))
        if d.b(1, 3):
            o["weights"] = d.weights(len(ds["obs"]))
        if d.b(1, 3):
            o["ridge"] = 0.5
        subs.append(o)
    return {"subs": subs, "seq": [[d.pick(["predict", "ll", "grad", "hess"]), d.i(0, 2)] for _ in range(d.i(2, 5))]}


def g_predict_seq(d):
    t = d.pick(ALL7)
    ds = gen.dataset(d, min_obs=2, max_obs=4, mix=True, steps=8, max_J=4, n_vars=d.i(1, 2))
    m = gen.model(d, ds, [t])
    new = gen.dataset(d, min_obs=2, max_obs=4, mix=True, steps=8, alts=ds["alts"], n_vars=len(ds["vars"]), cols=ds.get("cols") or {},
                      perm="any")
    if "cols" not in ds:
        new.pop("cols", None)
    frames = [d.pick([new, ds])]
    for _ in range(d.i(1, 2)):
        frames.append(variant(d, frames[0]) if d.b(3, 4) else d.pick([new, ds]))
    case = {"ds": ds, "m": m, "frames": frames, "params": [gen.params(d, m, ds, scale_for(t)) for _ in range(2)],
            "seq": [[d.i(0, 2), d.i(0, 1), d.pick(["long", "long", "chosen", "both"])] for _ in range(d.i(2, 5))]}
    if t == "Mixed Logit":
        case["nd"] = d.i(1, 3)
        case["seed"] = d.i(1, 5000)
    return case


def g_boot_inputs(d):
    return g_boot_mnl(d) if d.b(1, 3) else g_boot_other(d)


def g_history(d):
    case = base(d)
    case["ds3"] = variant(d, case["ds2"])
    kinds = list(OPS)
    if case["m"]["type"] != "Mixed Logit":
        kinds.remove("panel")
    else:
        kinds += ["panel"]
    if case["m"]["type"] != "MNL":
        kinds.remove("boot")
    case["ops"] = [an_op(d, kinds) for _ in range(d.i(2, 7))]
    if d.b(2, 3):
        case["ops"].insert(0, dict(an_op(d, ["fit"])))
    return case


def g_pickle(d):
    case = base(d)
    case["fitted"] = d.b(3, 4)
    case["fit"] = an_op(d, ["fit"])
    case["name"] = d.pick(["model.pkl", "model", "my.model", "a b", "pkl", "x.pkl.bak"])
    case["exists"] = d.b(1, 4)
    kinds = ["predict", "predict_here", "fit", "report", "mappings", "point"] + (["panel"] if case["m"]["type"] == "Mixed Logit" else [])
    case["ops"] = [an_op(d, kinds) for _ in range(d.i(1, 3))]
    return case


prop("P22",
     "Random histories of 2-8 operations (estimation with varying options, point estimation, prediction with and without explicit "
     "parameters, reports, bootstrap, conversion, a second model on the same frame, save/load, rejected calls) on one model of any "
     "of the seven types; after every step the result and all reported attributes are compared with a fresh model that only "
     "received the last estimation, under a different global random state, and all user-owned frames and arrays with their copies; "
     "prediction data includes frames of equal shape laid out differently and frames the user changed in place between calls. "
     "Random orders of evaluations on estimation objects sharing a model, and of calls on several models of equal size used in "
     "turn in one process, are compared with fresh objects resp. the pure-Python reference. "
     "Non-trivial: at least three steps with an operation after an estimation.",
     ["adding an intercept column to the user's frame is the one documented modification",
      "the frame a model was built from is not changed by the user afterwards"],
     [F("history", g_history, 240, 4000), F("est_history", g_est_history, 320, 5000), F("interleave", g_interleave, 320, 5000),
      F("predict_seq", g_predict_seq, 400, 6000), F("boot_inputs", g_boot_inputs, 120, 1500)])
prop("P23",
     "Random models of all seven types, estimated with random options or not; saved under names with and without extension (new "
     "or existing file), loaded, compared attribute by attribute, and then driven through the same random operations as the "
     "original. Non-trivial: an estimated model.",
     ["loading uses Python's pickle module, as documented"],
     [F("pickle", g_pickle, 400, 5000)])
