"""Pure-Python reference models (no numpy, nothing imported from pylogit).

Every function works both on floats and on `Dual` numbers (forward-mode automatic
differentiation), so one definition of a model yields the reference probabilities, the
reference log-likelihood and its exact gradient.
"""
import math


class Dual(object):
    """value + gradient (list)."""
    __slots__ = ("v", "g")

    def __init__(self, v, g):
        self.v = v
        self.g = g

    def _c(self, o):
        return o if isinstance(o, Dual) else None

    def __add__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v + o.v, [a + b for a, b in zip(self.g, o.g)])
        return Dual(self.v + o, self.g)
    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.v, [-a for a in self.g])

    def __sub__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v - o.v, [a - b for a, b in zip(self.g, o.g)])
        return Dual(self.v - o, self.g)

    def __rsub__(self, o):
        return Dual(o - self.v, [-a for a in self.g])

    def __mul__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v * o.v,
                        [a * o.v + b * self.v for a, b in zip(self.g, o.g)])
        return Dual(self.v * o, [a * o for a in self.g])
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Dual):
            r = self.v / o.v
            return Dual(r, [(a - r * b) / o.v for a, b in zip(self.g, o.g)])
        return Dual(self.v / o, [a / o for a in self.g])

    def __rtruediv__(self, o):
        r = o / self.v
        return Dual(r, [-r * b / self.v for b in self.g])


def val(x):
    return x.v if isinstance(x, Dual) else float(x)


def E(x):
    if isinstance(x, Dual):
        e = math.exp(x.v)
        return Dual(e, [e * a for a in x.g])
    return math.exp(x)


def L(x):
    if isinstance(x, Dual):
        return Dual(math.log(x.v), [a / x.v for a in x.g])
    return math.log(x)


def L1P(x):
    """log(1 + x), accurate for small x"""
    if isinstance(x, Dual):
        return Dual(math.log1p(x.v), [a / (1.0 + x.v) for a in x.g])
    return math.log1p(x)


def EM1(x):
    """exp(x) - 1, accurate for small x"""
    if isinstance(x, Dual):
        e = math.exp(x.v)
        return Dual(math.expm1(x.v), [e * a for a in x.g])
    return math.expm1(x)


def LSE(xs):
    m = max(val(x) for x in xs)
    s = 0.0
    for x in xs:
        s = s + E(x - m)
    return L(s) + m


def seed_duals(params):
    n = len(params)
    return [Dual(float(p), [1.0 if i == j else 0.0 for j in range(n)])
            for i, p in enumerate(params)]


# --------------------------------------------------------------------------------------
# utilities
# --------------------------------------------------------------------------------------
def spec_columns(spec, alt_ids):
    """spec: list of [var, spec] -> list of (var, set-of-alt-ids or None for every alt)."""
    out = []
    for var, s in spec:
        if s == "all_same":
            out.append((var, None))
        elif s == "all_diff":
            for a in sorted(alt_ids):
                out.append((var, frozenset([a])))
        else:
            for grp in s:
                if isinstance(grp, list):
                    out.append((var, frozenset(grp)))
                else:
                    out.append((var, frozenset([grp])))
    return out


def spec_names(spec, alt_ids):
    out = []
    for var, s in spec:
        if s == "all_same":
            out.append(var)
        elif s == "all_diff":
            out.extend("{}_{}".format(var, a) for a in sorted(alt_ids))
        else:
            out.extend("{}_{}".format(var, g) for g in s)
    return out


def design_row(cols, alt, x):
    """x: dict var -> value for this row (intercept implied 1)."""
    r = []
    for var, alts in cols:
        xv = x.get(var, 1.0) if var == "intercept" else x[var]
        r.append(float(xv) if (alts is None or alt in alts) else 0.0)
    return r


def dot(row, betas):
    s = 0.0
    for a, b in zip(row, betas):
        if a != 0.0:
            s = s + b * a
    return s


def full_vector(free, ref_pos, J):
    """insert a 0 at ref_pos."""
    if free is None:
        return [0.0] * J
    out = list(free)
    if ref_pos is not None:
        out.insert(ref_pos, 0.0)
    return out


def asym_c(eta, ref_pos, J):
    full = list(eta)
    full.insert(ref_pos, 0.0)
    lse = LSE(full)
    return [E(f - lse) for f in full]


def transform(model, v, a, J, shapes, ints):
    """h(v) for the alternative with sorted position a.

    shapes: natural per-alternative shape values (c for asym; exp(shape) otherwise)."""
    if model in ("MNL", "Mixed Logit", "Nested Logit"):
        return v
    if model == "Cloglog":
        ev = E(v)
        if val(ev) > 30.0:
            # log(exp(x) - 1) = x + log(1 - exp(-x))
            t = ev + L1P(-1.0 * E(-1.0 * ev))
        else:
            t = L(EM1(ev))
        return t + ints[a]
    if model == "Scobit":
        # -log((1+e^-v)^c - 1)
        c = shapes[a]
        return ints[a] - L(EM1(c * L1P(E(-1.0 * v))))
    if model == "Uneven":
        c = shapes[a]
        return ints[a] + v + L1P(E(-1.0 * v)) - L1P(E(-1.0 * (c * v)))
    if model == "Asym":
        c = shapes[a]
        lc = L(c)
        mult = lc if val(v) >= 0 else L((1.0 - c) / float(J - 1))
        return ints[a] + lc - v * mult
    raise ValueError(model)


class P(object):
    """Unpacked parameters, from a flat vector ordered (nests, shapes, intercepts, index)."""

    def __init__(self, model, flat, J, K, iref, sref, n_nests, n_mix=0):
        pos = 0
        self.nests = self.shapes = self.ints = None
        if model == "Nested Logit":
            self.nests = flat[pos:pos + n_nests]
            pos += n_nests
        if model in ("Scobit", "Uneven"):
            self.shapes = flat[pos:pos + J]
            pos += J
        if model == "Asym":
            self.shapes = flat[pos:pos + J - 1]
            pos += J - 1
        if model in ("Scobit", "Uneven", "Asym", "Cloglog") and iref is not None:
            self.ints = flat[pos:pos + J - 1]
            pos += J - 1
        self.betas = flat[pos:pos + K + n_mix]
        pos += K + n_mix
        assert pos == len(flat), (pos, len(flat), model)
        self.full_ints = full_vector(self.ints, iref, J)
        if model in ("Scobit", "Uneven"):
            self.nat_shapes = [E(s) for s in self.shapes]
        elif model == "Asym":
            self.nat_shapes = asym_c(self.shapes, sref, J)
        else:
            self.nat_shapes = None


def n_params(model, J, K, iref, n_nests=0, n_mix=0):
    n = K
    if model == "Nested Logit":
        n += n_nests
    if model in ("Scobit", "Uneven"):
        n += J
    if model == "Asym":
        n += J - 1
    if model in ("Scobit", "Uneven", "Asym", "Cloglog") and iref is not None:
        n += J - 1
    if model == "Mixed Logit":
        n += n_mix
    return n


def log_probs_obs(model, p, rows, alts, pos_of, J, nest_of=None, draws=None, mixing_pos=None):
    """log-probabilities of the rows of ONE observation.

    rows: design rows; alts: alt id per row; pos_of: alt id -> sorted position
    draws (mixed only): list per mixing variable of one draw -> returns kernel log-probs."""
    if model == "Nested Logit":
        lam = [1.0 / (1.0 + E(-1.0 * t)) for t in p.nests]
        vs = [dot(r, p.betas) for r in rows]
        nest_idx = [nest_of[a] for a in alts]
        present = sorted(set(nest_idx))
        logS = {}
        for m in present:
            logS[m] = LSE([vs[i] / lam[m] for i in range(len(rows)) if nest_idx[i] == m])
        denom = LSE([lam[m] * logS[m] for m in present])
        return [vs[i] / lam[nest_idx[i]] + (lam[nest_idx[i]] - 1.0) * logS[nest_idx[i]] - denom
                for i in range(len(rows))]
    if model == "Mixed Logit":
        K = len(rows[0])
        vs = []
        for r in rows:
            v = dot(r, p.betas[:K])
            for k, mp in enumerate(mixing_pos):
                if r[mp] != 0.0:
                    v = v + p.betas[K + k] * (r[mp] * draws[k])
            vs.append(v)
        d = LSE(vs)
        return [v - d for v in vs]
    hs = [transform(model, dot(r, p.betas), pos_of[a], J, p.nat_shapes, p.full_ints)
          for r, a in zip(rows, alts)]
    d = LSE(hs)
    return [h - d for h in hs]


def solve(A, b):
    """Gaussian elimination with partial pivoting; returns None when singular."""
    n = len(A)
    M = [list(A[i]) + [b[i]] for i in range(n)]
    for c in range(n):
        piv = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[piv][c]) < 1e-13:
            return None
        M[c], M[piv] = M[piv], M[c]
        for r in range(n):
            if r != c and M[r][c] != 0.0:
                f = M[r][c] / M[c][c]
                for k in range(c, n + 1):
                    M[r][k] -= f * M[c][k]
    return [M[i][n] / M[i][i] for i in range(n)]


def inverse(A):
    n = len(A)
    cols = []
    for j in range(n):
        x = solve(A, [1.0 if i == j else 0.0 for i in range(n)])
        if x is None:
            return None
        cols.append(x)
    return [[cols[j][i] for j in range(n)] for i in range(n)]


def norm_cdf(z):
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


def norm_ppf(p):
    """inverse normal cdf by bisection + Newton (only needs math.erfc)."""
    if p <= 0.0:
        return -math.inf
    if p >= 1.0:
        return math.inf
    lo, hi = -40.0, 40.0
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if norm_cdf(mid) < p:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


# --------------------------------------------------------------------------------------
# transformed utilities for parameters of any magnitude
# --------------------------------------------------------------------------------------
INF = float("inf")


def _exp(x):
    return INF if x > 709.0 else math.exp(x)


def _log1pexp(x):
    """log(1 + e^x)"""
    if x > 40.0:
        return x
    return math.log1p(math.exp(x)) if x > -745.0 else 0.0


def wide_h(model, v, a, J, shapes, sref, ints):
    """h(v) in log space, valid for any finite argument (may be infinite); shapes: raw parameters"""
    if model == "Cloglog":
        e = _exp(v)
        if e > 30.0:
            h = e
        elif v < -30.0:
            h = v
        else:
            h = math.log(math.expm1(e))
    elif model == "Scobit":
        # t = c log(1 + e^-v);  h = -log(e^t - 1)
        l1 = _log1pexp(-v)
        lt = shapes[a] + (-v if v > 40.0 else math.log(l1))
        if lt < -30.0:
            h = -lt
        elif lt > math.log(40.0):
            h = -_exp(lt)
        else:
            h = -math.log(math.expm1(math.exp(lt)))
    elif model == "Uneven":
        c = _exp(shapes[a])
        cv = 0.0 if v == 0.0 else c * v
        if cv == -INF:
            h = -INF
        else:
            h = v + _log1pexp(-v) - _log1pexp(-cv)
            if v < -40.0 and cv < -40.0:
                h = cv
    elif model == "Asym":
        full = list(shapes)
        full.insert(sref, 0.0)
        lse = LSE(full)
        lc = full[a] - lse
        if v >= 0:
            h = lc - v * lc
        else:
            l1 = LSE([x for i, x in enumerate(full) if i != a]) - lse - math.log(J - 1.0)
            h = lc - v * l1
    else:
        h = v
    return h + ints[a]
