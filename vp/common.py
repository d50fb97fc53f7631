"""Worker-side helpers (run under the interpreter that has pylogit)."""
import math
import os
import shutil
import sys
import tempfile
import warnings
from collections import OrderedDict

import numpy as np
import pandas as pd

from vp import ref

warnings.simplefilter("ignore")
np.seterr(all="ignore")


class Violation(Exception):
    pass


class Skip(Exception):
    """The generated case lies outside the property's domain (counted, never a pass)."""


class Out(object):
    """Result of one evaluated case."""

    def __init__(self):
        self.nt = False
        self.labels = []

    def label(self, *ls):
        self.labels.extend(ls)


def sut(fn, *a, **k):
    """Call the system under test on VALID input: any exception is a violation."""
    try:
        return fn(*a, **k)
    except (Violation, Skip, KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        import traceback
        tb = traceback.format_exc().strip().splitlines()
        raise Violation("call %s on valid input raised %s: %s | %s" % (
            getattr(fn, "__name__", str(fn)), type(e).__name__, str(e)[:300],
            " / ".join(x.strip() for x in tb[-5:-1])[:600]))


def rejects(fn, *a, **k):
    """Call on INVALID input; True when it raises a Python exception."""
    try:
        fn(*a, **k)
    except (Violation, Skip, KeyboardInterrupt, MemoryError):
        raise
    except Exception:
        return True
    return False


def require(cond, msg, *fmt):
    if not cond:
        raise Violation(msg % fmt if fmt else msg)


def arr(x, shape=None, what="value"):
    """Convert an output to a float ndarray of the expected shape or raise Violation."""
    try:
        if hasattr(x, "toarray"):
            x = x.toarray()
        if hasattr(x, "values"):
            x = x.values
        a = np.asarray(x, dtype=float)
    except Exception as e:
        raise Violation("%s is not numeric: %r (%s)" % (what, type(x), e))
    if shape is not None and tuple(a.shape) != tuple(shape):
        raise Violation("%s has shape %s, expected %s" % (what, a.shape, tuple(shape)))
    return a


def getattr_v(obj, name):
    try:
        return getattr(obj, name)
    except AttributeError:
        raise Violation("missing attribute %s" % name)


def close(got, exp, what, rtol=1e-8, atol=1e-10, shape=True):
    exp = np.asarray(exp, dtype=float)
    got = arr(got, exp.shape if shape else None, what)
    bad = ~((np.abs(got - exp) <= atol + rtol * np.abs(exp)) |
            (np.isnan(got) & np.isnan(exp)) | (got == exp))
    if bad.any():
        i = tuple(int(z[0]) for z in np.where(bad))
        raise Violation("%s differs from the expected value at %s: got %r expected %r "
                        "(max abs diff %.3g)" % (what, i, float(got[i]) if got.ndim else float(got),
                                                 float(exp[i]) if exp.ndim else float(exp),
                                                 float(np.nanmax(np.abs(np.where(bad, got - exp, 0))))))


def close_any(got, exps, what, **k):
    """like close, for the first expected value; the others are known findings: exactly these deviations
    are tolerated, nothing else"""
    first = None
    for e in exps:
        try:
            close(got, e, what, **k)
            return
        except Violation as v:
            first = first or v
    raise first


def isclose(a, b, rtol=1e-8, atol=1e-10):
    return abs(a - b) <= atol + rtol * abs(b)


def finite(x, what):
    a = arr(x, None, what)
    if not np.isfinite(a).all():
        raise Violation("%s contains non-finite values: %s" % (what, a.ravel()[:12].tolist()))
    return a


class quiet(object):
    """tqdm etc. write to stderr; nothing needed (worker stderr is /dev/null)."""


# --------------------------------------------------------------------------------------
# data sets
# --------------------------------------------------------------------------------------
DT = {"float64": np.float64, "float32": np.float32, "int64": np.int64, "int32": np.int32,
      "uint8": np.uint8, "int8": np.int8, "uint16": np.uint16, "bool": np.bool_}


class DS(object):
    """One generated long-format data set."""

    def __init__(self, ds):
        self.raw = ds
        self.alts = list(ds["alts"])
        self.J = len(self.alts)
        self.pos_of = {a: i for i, a in enumerate(self.alts)}
        self.c = ds.get("cols") or {"obs": "obs_id", "alt": "alt_id", "ch": "choice", "mix": "mix_id"}
        self.obs_ids, self.obs_of, self.alt_of, self.ch_of, self.mix_of = [], [], [], [], []
        self.obs_rows, self.obs_ch = [], []
        self.x = []
        k = 0
        for oi, o in enumerate(ds["obs"]):
            self.obs_ids.append(o["id"])
            idx = []
            for j, a in enumerate(o["alts"]):
                self.obs_of.append(oi)
                self.alt_of.append(a)
                self.ch_of.append(1 if j == o["ch"] else 0)
                self.mix_of.append(o.get("mix", 0))
                self.x.append({v: d["vals"][k] for v, d in ds["vars"].items()})
                if ds.get("icept"):
                    # a column of the user's own, not necessarily of ones
                    self.x[-1]["intercept"] = float(ds["icept"])
                idx.append(k)
                k += 1
            self.obs_rows.append(idx)
            self.obs_ch.append(idx[o["ch"]])
        self.n_rows = k
        self.n_obs = len(self.obs_ids)
        # mixing units in order of first appearance
        self.mixers = []
        for o in ds["obs"]:
            if o.get("mix", 0) not in self.mixers:
                self.mixers.append(o.get("mix", 0))
        self.perm = ds.get("perm")  # row order used in the data frame

    def frame(self, choice=True, extra=None):
        c = self.c
        order = self.perm if self.perm is not None else list(range(self.n_rows))
        d = OrderedDict()
        oid_dt = DT[self.raw.get("obs_dtype", "int64")]
        d[c["obs"]] = np.array([self.obs_ids[self.obs_of[r]] for r in order], dtype=oid_dt)
        d[c["alt"]] = np.array([self.alt_of[r] for r in order], dtype=DT[self.raw.get("alt_dtype", "int64")])
        if choice:
            dt = self.raw.get("ch_dtype", "int64")
            d[c["ch"]] = np.array([self.ch_of[r] for r in order], dtype=DT[dt])
        d[c["mix"]] = np.array([self.mix_of[r] for r in order], dtype=np.int64)
        for v, spec in self.raw["vars"].items():
            d[v] = np.array([float("nan") if spec["vals"][r] is None else spec["vals"][r] for r in order], dtype=DT[spec.get("dtype", "float64")])
        if self.raw.get("icept"):
            d["intercept"] = float(self.raw["icept"]) * np.ones(len(order))
        if extra:
            for k2, v2 in extra.items():
                d[k2] = v2
        names = list(d.keys())
        if self.raw.get("col_rev"):
            names = names[::-1]
        df = pd.DataFrame(d)[names]
        n = len(order)
        ix = self.raw.get("index", "default")
        if ix == "offset":
            df.index = np.arange(n) + 7
        elif ix == "reversed":
            df.index = np.arange(n)[::-1]
        elif ix == "dup":
            df.index = np.zeros(n, dtype=int)
        elif ix == "str":
            df.index = ["r%d" % ((i * 7) % n) if n % 7 else "r%d" % i for i in range(n)]
        return df

    def order(self):
        return self.perm if self.perm is not None else list(range(self.n_rows))


MODEL_SHAPES = {"MNL": False, "Asym": True, "Cloglog": False, "Scobit": True, "Uneven": True,
                "Nested Logit": False, "Mixed Logit": False}


class M(object):
    """Model description -> constructor kwargs, parameter layout and reference."""

    def __init__(self, m, ds):
        self.raw = m
        self.ds = ds
        self.type = m["type"]
        self.spec = m["spec"]
        self.cols = ref.spec_columns(self.spec, ds.alts)
        self.K = len(self.cols)
        self.iref = m.get("iref")
        self.sref = m.get("sref")
        self.nests = m.get("nests")
        self.nest_of = None
        if self.nests:
            self.nest_of = {}
            for i, (nm, al) in enumerate(self.nests):
                for a in al:
                    self.nest_of[a] = i
        self.index_names = self._names()
        self.mixvars = m.get("mixvars")
        self.n_mix = len(self.mixvars) if self.mixvars else 0
        self.mixpos = [self.index_names.index(v) for v in self.mixvars] if self.mixvars else None
        self.n_params = ref.n_params(self.type, ds.J, self.K, self.iref,
                                     len(self.nests) if self.nests else 0, self.n_mix)
        self.rows = [ref.design_row(self.cols, ds.alt_of[r], ds.x[r]) for r in range(ds.n_rows)]

    def _names(self):
        names = self.raw.get("names")
        if names:
            out = []
            for var, nm in names:
                if isinstance(nm, list):
                    out.extend(nm)
                else:
                    out.append(nm)
            return out
        return ref.spec_names(self.spec, self.ds.alts)

    def od_spec(self):
        return OrderedDict((v, s) for v, s in self.spec)

    def od_names(self):
        n = self.raw.get("names")
        return OrderedDict((v, s) for v, s in n) if n else None

    def n_shapes(self):
        return {"Asym": self.ds.J - 1, "Scobit": self.ds.J, "Uneven": self.ds.J}.get(self.type, 0)

    def n_ints(self):
        return self.ds.J - 1 if (self.iref is not None and
                                 self.type in ("Asym", "Scobit", "Uneven", "Cloglog")) else 0

    def shape_names(self):
        if not self.n_shapes() or self.raw.get("unnamed_shapes"):
            return None
        return ["shape_%d" % i for i in range(self.n_shapes())]

    def int_names(self):
        if not self.n_ints() or self.raw.get("unnamed_ints"):
            return None
        return ["asc_%d" % i for i in range(self.n_ints())]

    def kwargs(self):
        k = {}
        if self.iref is not None:
            k["intercept_ref_pos"] = self.iref
            if self.int_names():
                k["intercept_names"] = self.int_names()
        if self.type == "Asym":
            k["shape_ref_pos"] = self.sref
        if self.shape_names():
            k["shape_names"] = self.shape_names()
        if self.nests:
            k["nest_spec"] = OrderedDict((n, list(a)) for n, a in self.nests)
        if self.mixvars:
            k["mixing_id_col"] = self.ds.c["mix"]
            k["mixing_vars"] = list(self.mixvars)
        if self.od_names() is not None:
            k["names"] = self.od_names()
        return k

    def create(self, data=None):
        import pylogit
        c = self.ds.c
        data = self.ds.frame() if data is None else data
        return sut(pylogit.create_choice_model, data, c["alt"], c["obs"], c["ch"],
                   self.od_spec(), self.type, **self.kwargs())

    def all_names(self):
        """Parameter names in estimation order, after estimation."""
        out = []
        if self.nests:
            out += [n for n, _ in self.nests]
        ns, ni = self.n_shapes(), self.n_ints()
        if ns:
            out += self.shape_names() or ["Shape_%d" % i for i in range(1, ns + 1)]
        if ni:
            out += self.int_names() or ["Outside_ASC_%d" % i for i in range(1, ni + 1)]
        out += self.index_names
        if self.mixvars:
            out += ["Sigma " + v for v in self.mixvars]
        return out

    def P(self, flat):
        return ref.P(self.type, list(flat), self.ds.J, self.K, self.iref, self.sref,
                     len(self.nests) if self.nests else 0, self.n_mix)

    def param_list(self, flat):
        """[index, intercepts, shapes, nests] 1D arrays (or 2D if flat is list of vectors)."""
        two_d = isinstance(flat[0], (list, tuple))
        vecs = flat if two_d else [flat]
        n_nest = len(self.nests) if self.nests else 0
        sizes = [n_nest, self.n_shapes(), self.n_ints(), self.K + self.n_mix]
        out = []
        pos = 0
        for s in sizes:
            block = np.array([v[pos:pos + s] for v in vecs], dtype=float).T
            pos += s
            out.append(None if s == 0 else (block if two_d else block[:, 0]))
        return out[::-1]

    # ---------------------------------------------------------------- reference values
    def ref_log_probs(self, flat, draws=None):
        """list per row of log-prob (non mixed)"""
        p = self.P(flat)
        out = [None] * self.ds.n_rows
        for idx in self.ds.obs_rows:
            lp = ref.log_probs_obs(self.type, p, [self.rows[r] for r in idx],
                                   [self.ds.alt_of[r] for r in idx], self.ds.pos_of, self.ds.J,
                                   nest_of=self.nest_of)
            for r, q in zip(idx, lp):
                out[r] = q
        return out

    def ref_kernel(self, flat, draws):
        """mixed: rows x R kernel log-probs. draws[k][mixer][r]"""
        p = self.P(flat)
        R = len(draws[0][0])
        mix_idx = {m: i for i, m in enumerate(self.ds.mixers)}
        out = [None] * self.ds.n_rows
        for idx in self.ds.obs_rows:
            mi = mix_idx[self.ds.mix_of[idx[0]]]
            per = []
            for r in range(R):
                per.append(ref.log_probs_obs("Mixed Logit", p, [self.rows[q] for q in idx],
                                             [self.ds.alt_of[q] for q in idx], self.ds.pos_of,
                                             self.ds.J, draws=[d[mi][r] for d in draws],
                                             mixing_pos=self.mixpos))
            for j, q in enumerate(idx):
                out[q] = [per[r][j] for r in range(R)]
        return out

    def ref_loglik(self, flat, draws=None, weights=None, ridge=None):
        """weights: one per observation (per mixer for mixed)."""
        ds = self.ds
        ll = 0.0
        if self.type == "Mixed Logit":
            ker = self.ref_kernel(flat, draws)
            R = len(draws[0][0])
            for mi, m in enumerate(ds.mixers):
                chosen = [ds.obs_ch[o] for o in range(ds.n_obs) if ds.mix_of[ds.obs_ch[o]] == m]
                seqs = []
                for r in range(R):
                    s = 0.0
                    for q in chosen:
                        s = s + ker[q][r]
                    seqs.append(s)
                w = 1.0 if weights is None else weights[mi]
                if w:
                    ll = ll + w * (ref.LSE(seqs) - math.log(R))
        else:
            lp = self.ref_log_probs(flat)
            for o in range(ds.n_obs):
                w = 1.0 if weights is None else weights[o]
                if w:
                    ll = ll + w * lp[ds.obs_ch[o]]
        if ridge is not None:
            pen = 0.0
            vals = list(flat)
            if self.type == "Nested Logit":
                k = len(self.nests)
                vals = [1.0 / (1.0 + ref.E(-1.0 * t)) - 1.0 for t in vals[:k]] + vals[k:]
            for t in vals:
                pen = pen + t * t
            ll = ll - ridge * pen
        return ll

    def long_weights(self, weights):
        """expand per-observation (or per-mixer) weights to the rows of the frame"""
        ds = self.ds
        if self.type == "Mixed Logit":
            mix_idx = {m: i for i, m in enumerate(ds.mixers)}
            return np.array([float(weights[mix_idx[ds.mix_of[r]]]) for r in ds.order()])
        return np.array([float(weights[ds.obs_of[r]]) for r in ds.order()])

    def max_abs_h(self, flat):
        """largest |systematic utility| and |transformed utility| (domain guard)"""
        p = self.P(flat)
        mv = mh = 0.0
        for r in range(self.ds.n_rows):
            v = ref.dot(self.rows[r], p.betas[:self.K])
            v = ref.val(v)
            mv = max(mv, abs(v))
            if self.type == "Cloglog" and not -18.0 < v < 6.3:
                return mv, 1e9
            if self.type == "Nested Logit":
                lam = 1.0 / (1.0 + math.exp(-p.nests[self.nest_of[self.ds.alt_of[r]]]))
                mh = max(mh, abs(v / lam))
                continue
            h = ref.transform(self.type, v, self.ds.pos_of[self.ds.alt_of[r]], self.ds.J,
                              p.nat_shapes, p.full_ints)
            if self.type == "Scobit" and h - p.full_ints[self.ds.pos_of[self.ds.alt_of[r]]] > 18.0:
                return mv, 1e9
            mh = max(mh, abs(h))
        return mv, mh


def get_draws(n_mixers, num_draws, n_vars, seed):
    """The draws the library itself uses for a given seed, as nested lists [var][mixer][r]."""
    from pylogit import mixed_logit_calcs as mlc
    dl = sut(mlc.get_normal_draws, n_mixers, num_draws, n_vars, seed=seed)
    out = []
    require(len(dl) == n_vars, "get_normal_draws returned %d arrays for %d variables", len(dl), n_vars)
    for d in dl:
        out.append(arr(d, (n_mixers, num_draws), "draws").tolist())
    return out


def fresh_estimator(mo, m, n_params, ridge=None, weights=None, constrained_pos=None,
                    num_draws=None, seed=None, draws=None):
    from pylogit.construct_estimator import create_estimation_obj
    est = sut(create_estimation_obj, mo, np.zeros(n_params), ridge=ridge,
              constrained_pos=constrained_pos, weights=weights)
    if hasattr(est, "set_derivatives"):
        sut(est.set_derivatives)
    return est


def attach_design3d(mo, m, draws):
    """Mixed logit: give an unestimated model the expanded design for known draws."""
    from pylogit import mixed_logit_calcs as mlc
    maps = sut(mo.get_mappings_for_fit)
    mo.design_3d = sut(mlc.create_expanded_design_for_mixing, mo.design,
                       [np.array(d) for d in draws], m.mixpos, maps["rows_to_mixers"])


class scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vp_case_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
