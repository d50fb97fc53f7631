"""Generators for simulation in mixed logit (P16, P17)."""
from vp import gen
from vp.reg import F, prop


def g_draws(d):
    big = d.b(1, 20)
    return {"n": d.pick([1, 400, 120]) if big else d.pick([1, 2, 3, 5, 10, 30, 45, 60]),
            "nd": d.pick([300, 500, 1100]) if big else d.pick([1, 2, 3, 7, 20, 40, 90, 150]), "k": d.i(1, 3) if big or d.b(2, 3) else d.i(4, 9),
            "seed": d.pick([1, 2, 2 ** 31, 2 ** 32 - 9]) if d.b(1, 12) else d.i(1, 60000), "stir": d.i(0, 50)}


def g_draw_seed(d):
    ds = gen.dataset(d, min_obs=2, max_obs=5, mix=True, steps=8, max_J=3, n_vars=d.i(1, 2))
    m = gen.model(d, ds, ["Mixed Logit"])
    return {"ds": ds, "m": m, "params": with_sigmas(d, m, gen.params(d, m, ds, 1.0)), "init": gen.params(d, m, ds, 0.5), "nd": d.i(1, 6),
            "seed": d.i(1, 5000)}


def sigmas(d, k):
    return [0.375 * (x if x else 4) for x in d.grid(k, 6, 1)]


def with_sigmas(d, m, v):
    k = len(m["mixvars"])
    v[len(v) - k:] = sigmas(d, k)
    return v


def g_integral(d):
    ds = gen.dataset(d, min_obs=2, max_obs=6, mix=True, steps=6, max_J=3, n_vars=d.i(1, 2), perm="none")
    m = gen.model(d, ds, ["Mixed Logit"])
    v = gen.params(d, m, ds, 1.0)
    k = len(m["mixvars"])
    v[len(v) - k:] = sigmas(d, k)
    if d.b(2, 3):
        # panel: few decision makers
        for q, o in enumerate(ds["obs"]):
            o["mix"] = 1 + (q % 2 if d.b(1, 3) else 0)
    return {"ds": ds, "m": m, "params": v, "nd": d.pick([3000, 2000, 1000]), "seed": d.pick([1, 2, 2 ** 31, 2 ** 32 - 9]) if d.b(1, 12) else d.i(1, 60000)}


def g_sim_ll(d):
    """the simulated likelihood of long and short panels at given draws"""
    ds = gen.long_panel(d, d.i(1, 2)) if d.b(1, 2) else gen.dataset(d, max_obs=6, mix=True, steps=8, n_vars=d.i(1, 3))
    m = gen.model(d, ds, ["Mixed Logit"], max_mix=3)
    v = gen.params(d, m, ds, d.pick([1.0, 3.0]))
    return {"ds": ds, "m": m, "params": v, "params2": v, "nd": d.pick([1, 2, 3, 7, 40]), "seed": d.pick([1, 2, 2 ** 31, 2 ** 32 - 9]) if d.b(1, 12) else d.i(1, 60000)}


def g_panel(d):
    if d.b(1, 5):
        ds = gen.long_panel(d)
    else:
        ds = gen.dataset(d, min_obs=2, max_obs=6, mix=True, steps=8, max_J=3, n_vars=d.i(1, 2))
    m = gen.model(d, ds, ["Mixed Logit"])
    ds2 = gen.dataset(d, min_obs=1, max_obs=6, mix=True, steps=8, alts=ds["alts"], n_vars=len(ds["vars"]),
                      cols=ds.get("cols") or {}, perm="any")
    if "cols" not in ds:
        ds2.pop("cols", None)
    units = sorted(set(o["mix"] for o in ds["obs"]))
    style = d.i(0, 3)
    if style == 0:
        # only known units, in any order
        for o in ds2["obs"]:
            o["mix"] = d.pick(units)
    elif style == 1:
        for o in ds2["obs"]:
            o["mix"] = d.pick(units + [91, 92, 3])
    elif style == 2 and d.b(1, 2):
        for o in ds2["obs"]:
            o["mix"] = 50 + d.i(0, 3)
    return {"ds": ds, "m": m, "ds2": ds2, "init": with_sigmas(d, m, gen.params(d, m, ds, 1.0)), "fixed": d.b(2, 3), "nd": d.i(1, 5),
            "seed": d.i(1, 5000), "mode": d.pick(["long", "chosen", "both"]), "with_choice": d.b(1, 2)}


prop("P16",
     "Random numbers of units, draws, random coefficients and seeds: draws are checked for shape, reproducibility from the seed "
     "alone, and standard normality/independence (bounds at >= 6.5 standard errors); random mixed logit models: predictions and "
     "estimates are a function of the seed, and with 1000-3000 draws agree with 24-point Gauss-Hermite quadrature of the choice "
     "probability and of the likelihood of each unit's whole sequence of choices (7 simulation standard errors); the simulated "
     "log-likelihood of panels of up to 60 situations per unit equals the mean over the draws in log space. Non-trivial: at "
     "least 30 draws / the draws matter / the integral differs visibly from the probability at the mean coefficients.",
     ["statistical bounds: the probability of a false alarm per run is below 1e-6"],
     [F("draws", g_draws, 640, 8000), F("draw_seed", g_draw_seed, 320, 4000), F("integral", g_integral, 240, 3000),
      F("sim_ll", g_sim_ll, 320, 4000, facet="loglik")])
prop("P17",
     "Random estimated mixed logit models and random new data sets whose decision makers are all, partly or not at all known from "
     "estimation, in any order; predictions are compared with the draw-by-draw posterior formula computed in log space. "
     "Non-trivial: a known decision maker whose past choices make draws differ in weight.",
     ["past sequence log-likelihood above -400 (floating point range)"],
     [F("panel", g_panel, 1600, 12000)])
