"""Shared pieces of the table contracts: layouts, stubs of the statistics front ends, run-time oracles."""
import itertools
import math
import numpy as rnp
from pyvc.verify import stub, require
from . import oracle

INF = float("inf")
NAN = float("nan")
ML = "mlpaper.mlpaper."
GM = [ML + f for f in ("get_mean_and_EB", "get_test", "get_mean_EB_test")]
METHODS = ["t", "bernstein", "boot"]


def names(v, name, pool, k):
    """k distinct labels in a chosen order"""
    p = v.choice(name, list(itertools.permutations(pool, k)) if not v.sym else [tuple(pool[:k]), tuple(pool[:k][::-1])][: 1 if k < 2 else 2])
    return list(p)


def colorder(v, keys):
    """the columns of a table may come in any order"""
    if v.sym:
        return v.choice("cols", [keys, keys[::-1]] if len(keys) > 1 else [keys])
    o = v.choice("cols", list(range(6)))
    r = rnp.random.RandomState(o)
    return keys if o == 0 else [keys[i] for i in r.permutation(len(keys))]


# --- statistics front ends as opaque functions of their arguments (contracts: C02, C07) ----------------
def _chk(v, x, lower, upper, method):
    np = v.np
    require(np.ndim(x) == 1)
    require(x.shape[0] >= 1)
    require(np.logical_not(np.any(np.isnan(x))))
    require(np.all(lower <= x))
    require(np.all(x <= upper))
    require(method in METHODS)


def _eb(v, x, conf, lower, upper, method, min_EB):
    return v.opaque("EB:" + method, no, [x, conf, lower, upper, min_EB], lo=0, inf=True)


def _p(v, x, lower, upper, method):
    return v.opaque("p:" + method, no, [x, lower, upper], lo=0, hi=1)


def no(v, *a):
    from pyvc.core import Unsupported

    raise Unsupported("statistics not inlined")


@stub(GM[0])
def _me(v, x, confidence=0.95, min_EB=0.0, lower=-INF, upper=INF, method="t"):
    _chk(v, x, lower, upper, method)
    return v.np.mean(x), _eb(v, x, confidence, lower, upper, method, min_EB)


@stub(GM[1])
def _t(v, x, lower=-INF, upper=INF, method="t"):
    _chk(v, x, lower, upper, method)
    return _p(v, x, lower, upper, method)


@stub(GM[2])
def _met(v, x, confidence=0.95, min_EB=0.0, lower=-INF, upper=INF, method="t"):
    _chk(v, x, lower, upper, method)
    return v.np.mean(x), _eb(v, x, confidence, lower, upper, method, min_EB), _p(v, x, lower, upper, method)


# --- expected cells ------------------------------------------------------------------------------------
def illcond(x):
    """the statistics of nearly constant data are dominated by rounding"""
    x = rnp.asarray(x, dtype=float)
    if len(x) < 2 or not rnp.all(rnp.isfinite(x)):
        return False
    s, m = rnp.std(x), rnp.max(rnp.abs(x))
    return 0 < s < 1e-6 * m


def eb_is(v, got, x, conf, lower, upper, method, scale=1.0):
    """got is the (clipped) error bar of the mean of x; scale: magnitude of the data x was computed from"""
    if v.sym:
        return v.same(got, _eb(v, x, conf, lower, upper, method, 0.0))
    x = rnp.asarray(x, dtype=float)
    mu = float(rnp.mean(x))
    if not math.isnan(mu):
        mu = min(max(mu, lower), upper)
    sc = max(scale, float(rnp.max(rnp.abs(x[rnp.isfinite(x)]), initial=0.0)), 1e-300)
    if method == "boot" and len(x) > 1 and rnp.all(rnp.isfinite(x)):
        hi = max(upper - mu, mu - lower)
        return any(oracle.eb_ok(got, b, mu, conf, scale=sc) or (hi < INF and oracle.near(got, hi, scale=sc) and not oracle.eb_lt(b, mu, conf, hi - 1e-7 * sc)) for b in boots(v, x))
    if method == "bernstein":
        e = oracle.bern_stats(x, conf, lower, upper)[1]
    else:
        e = oracle.t_stats(x, conf)[1]
    return oracle.near(got, oracle.clip_eb(mu, e, lower, upper), scale=sc)


def boots(v, x):
    d = [rnp.array(r) for r in v._rec if rnp.ndim(r) == 2 and r.shape[1] == len(x)]
    if not d:
        v.reject()
    return [(r @ x) / len(x) for r in d]


def p_is(v, got, x, lower, upper, method, scale=1.0):
    if v.sym:
        return v.same(got, _p(v, x, lower, upper, method))
    x = rnp.asarray(x, dtype=float)
    if illcond(x) or (rnp.max(rnp.abs(x), initial=0.0) < 1e-6 * scale and rnp.any(x != 0)):
        return 0.0 <= got <= 1.0
    if method == "boot" and len(x) > 1 and rnp.all(rnp.isfinite(x)):
        sc = float(rnp.max(rnp.abs(x)))
        return any(oracle.sig_ok(got, b, 0.0, tol=1e-9 * max(sc, 1e-300)) for b in boots(v, x))
    if method == "bernstein":
        e = oracle.bern_stats(x, 0.5, lower, upper)[2]
    else:
        e = oracle.t_stats(x, 0.5)[2]
    return e is None or oracle.near(got, e, rtol=1e-5, scale=1e-12)


def sub(v, n, a, b):
    return v.make_array(n, lambda i: v.at(a, i) - v.at(b, i))


# --- loss tables: the metric functions are parameters; the contract supplies recording ones ------------
class Metric:
    """metric(y, *pred) returning an arbitrary vector, remembering what it was called with"""

    def __init__(self, v, name, n, args):
        self.v, self.name, self.n, self.nargs, self.calls = v, name, n, args, []

    def __call__(self, y, *pred):
        v = self.v
        out = v.array("out:%s:%d" % (self.name, len(self.calls)), self.n)
        self.calls.append(([a.copy() for a in (y,) + pred], out.copy()))
        return out

    def came_from(self, col, good):
        """the column is the metric's answer to a call with good(args)"""
        v, n = self.v, self.n
        if v.sym:
            from pyvc import verify as V

            k = V._okey(col)
            hit = [c for c in self.calls if V._okey(c[1]) == k]
            for c in hit or self.calls:
                if len(c[0]) != self.nargs:
                    return False
            conds = [v.and_(good(*c[0]), True if hit else v.all(n, lambda i: v.same(v.at(col, i), v.at(c[1], i)))) for c in hit or self.calls]
            return v.or_(*conds) if conds else False
        return any(len(c[0]) == self.nargs and rnp.array_equal(c[1], col) and good(*c[0]) for c in self.calls)


def vec_same(v, n, a, b, scale=None):
    if not v.sym:
        return a.shape == b.shape and bool(rnp.allclose(a, b, rtol=1e-9, atol=1e-12 if scale is None else scale, equal_nan=True))
    if a.ndim != 1 or a.ndim != b.ndim:
        return False
    return v.and_(v.eq(a.shape[0], n), v.all(n, lambda i: v.same(v.at(a, i), v.at(b, i))))
