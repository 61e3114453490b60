"""numpy facade used by the code under verification (trusted contracts of numpy)."""
import builtins
import math
import z3
import numpy as _np
from . import core, red, arr
from .core import *  # noqa
from .core import B, R, I, And, Or, Not, Ite, Implies, Iff, lit, num, ctx
from .arr import SArr, asarr, ew, reduce, dim_t, dim_same, from_list, SRange, cast, kind_of_dtype, nonneg_dim, is_sym, sel_list
from .arr import r_sum, r_all, r_any, r_ext, r_mean, r_argmin


class Mod:
    """module facade: unknown attributes are outside the verifier's reach"""

    def __init__(self, name, **kw):
        self.__dict__["_name"] = name
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        c = ctx()
        if c is not None:
            c.unsupported = "%s.%s" % (self._name, k)
        raise Unsupported("%s.%s" % (self._name, k))


USED = set()


def api(fn):
    def w(*a, **k):
        USED.add(fn.__name__)
        r = fn(*a, **k)
        return SBool(r) if isinstance(r, bool) else r  # numpy bools, not python ones (~ differs)

    w.__name__ = fn.__name__
    w._np = True
    return w


def is_conc(x):
    """no symbolic content -> could be delegated; only for scalars"""
    return not isinstance(x, SArr) and not is_sym(x)


np = Mod("np")
D = np.__dict__
D["inf"] = math.inf
D["Inf"] = math.inf
D["nan"] = math.nan
D["NaN"] = math.nan
D["pi"] = SFlt(core.PI)
D["newaxis"] = None
D["float64"] = arr.SFloatType
D["float_"] = arr.SFloatType
D["int64"] = arr.SIntType
D["int_"] = arr.SIntType
D["bool_"] = arr.SBoolType
D["ndarray"] = SArr


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


D["errstate"] = errstate


def reg(*names):
    def deco(fn):
        f = api(fn)
        for n in names or (fn.__name__,):
            D[n] = f
        return f

    return deco


@reg("ndim")
def ndim(x):
    if isinstance(x, SArr):
        return x.ndim
    if scalar_like(x) or isinstance(x, str):
        return 0
    return asarr(x).ndim


@reg("shape")
def shape(x):
    if isinstance(x, SArr):
        return x.shape
    if scalar_like(x):
        return ()
    return asarr(x).shape


@reg("size")
def size(x):
    return asarr(x).size


def elem1(name, f, out=None):
    def g(x, **k):
        return ew(f, x, out=out)

    g.__name__ = name
    D[name] = api(g)


elem1("isnan", core.fisnan, "b")
elem1("isfinite", core.fisfin, "b")
elem1("isinf", core.fisinf, "b")
elem1("exp", core.fexp)
elem1("log", core.flog)
elem1("sqrt", core.fsqrt)
elem1("abs", lambda a: core.unary("abs", a))
D["absolute"] = D["fabs"] = D["abs"]
elem1("negative", lambda a: core.unary("neg", a))
elem1("square", lambda a: core.arith("mul", a, a))
elem1("logical_not", lambda a: mkbool(Not(boolt(a))), "b")
D["invert"] = D["logical_not"]


def ffloor(a):
    if kind(a) != "f":
        return flt(a)
    x = flt(a)
    return SFlt(z3.ToReal(z3.ToInt(x.v)) if num(x.v) is None else R(math.floor(num(x.v))), x.nan, x.pinf, x.ninf)


def fceil(a):
    if kind(a) != "f":
        return flt(a)
    x = flt(a)
    return SFlt(-z3.ToReal(z3.ToInt(-x.v)) if num(x.v) is None else R(math.ceil(num(x.v))), x.nan, x.pinf, x.ninf)


elem1("floor", ffloor)
elem1("ceil", fceil)


def fsign(a):
    x = flt(a)
    return SFlt(Ite(Or(x.pinf, And(x.fin, core.lt(R(0), x.v))), R(1), Ite(Or(x.ninf, And(x.fin, core.lt(x.v, R(0)))), R(-1), R(0))), x.nan)


elem1("sign", fsign)


def elem2(name, f, out=None):
    def g(a, b, **k):
        if k.get("out") is not None or k.get("where") is not None:
            raise Unsupported("ufunc out/where")
        return ew(f, a, b, out=out)

    g.__name__ = name
    D[name] = api(g)


for n_, o_ in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("true_divide", "truediv"), ("divide", "truediv"), ("floor_divide", "floordiv"), ("mod", "mod")):
    elem2(n_, (lambda o: lambda a, b: core.arith(o, a, b))(o_))
for n_, o_ in (("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"), ("equal", "eq"), ("not_equal", "ne")):
    elem2(n_, (lambda o: lambda a, b: core.cmp(o, a, b))(o_), "b")
elem2("logical_and", lambda a, b: mkbool(And(boolt(a), boolt(b))), "b")
elem2("logical_or", lambda a, b: mkbool(Or(boolt(a), boolt(b))), "b")
elem2("logical_xor", lambda a, b: mkbool(Not(Iff(boolt(a), boolt(b)))), "b")
elem2("fmax", core.ffmax)
elem2("fmin", core.ffmin)
elem2("power", core.power)


def _redundant(name, a, b):
    """maximum(c, x) = x when c <= x holds for every element (and dually)"""
    for c, x in ((a, b), (b, a)):
        if isinstance(x, SArr) and scalar_like(c) and not isinstance(c, SArr) and kind(c) != "b" and any(is_sym(q) for q in x.shape):
            if kind(c) == "f" and x.kind != "f":
                if not (isinstance(c, float) and c.is_integer()):
                    continue
            cx = ctx()
            idx = [z3.Int(cx.name("gen")) for _ in range(x.ndim)]
            e = flt(x.at(*idx))
            fc = flt(c)
            if lit(e.nan) is not False or lit(fc.fin) is not True:
                continue
            k = len(cx.pc)
            for i, d in zip(idx, x.shape):
                cx.pc += [i >= 0, i < dim_t(d)]
            ok = cx.entails(Or(e.pinf, core.le(fc.v, e.v)) if name == "maximum" else Or(e.ninf, core.le(e.v, fc.v)))
            del cx.pc[k:]
            if ok:
                return x if kind(c) != "f" or x.kind == "f" else x.astype(float)
    return None


class _Ufunc2:
    def __init__(self, name, f):
        self.f = f
        self.__name__ = name

    def __call__(self, a, b, **k):
        USED.add(self.__name__)
        s = _redundant(self.__name__, a, b)
        return ew(self.f, a, b) if s is None else s

    def accumulate(self, a, axis=0):
        USED.add(self.__name__ + ".accumulate")
        a = asarr(a)
        ax = axis if axis >= 0 else axis + a.ndim
        g = a.snap()
        n = a.shape[ax]
        if not is_sym(n):
            def get(*idx):
                k = idx[ax]
                r = None
                vals = []
                for i in range(n):
                    ii = list(idx)
                    ii[ax] = z3.IntVal(i)
                    v = g(*ii)
                    r = v if r is None else self.f(r, v)
                    vals.append(r)
                return sel_list(vals, k)

            return SArr(a.shape, get, a.kind)
        if self.__name__ != "maximum":
            raise Unsupported("accumulate")

        def get(*idx):
            k = idx[ax]

            def body(i):
                ii = list(idx)
                ii[ax] = i
                return flt(g(*ii)).v

            r, p = red.make("cummax", dim_t(n), body)
            t = red.app(r, "cummax", p, k)
            return SFlt(t) if a.kind == "f" else mkint(z3.ToInt(t))

        pr = flt(g(*[z3.Int("?probe%d" % q) for q in range(a.ndim)]))
        if lit(pr.fin) is not True:
            raise Unsupported("accumulate non finite")
        return SArr(a.shape, get, a.kind)

    def reduce(self, a, axis=0):
        w = "max" if self.__name__ == "maximum" else "min"
        return reduce(lambda n, f, k: r_ext(n, f, k, w), a, axis)


D["maximum"] = _Ufunc2("maximum", core.fmaximum)
D["minimum"] = _Ufunc2("minimum", core.fminimum)


@reg("clip")
def clip(a, a_min=None, a_max=None, **k):
    def f(x, lo, hi):
        if lo is not None:
            x = core.fmaximum(x, lo)
        if hi is not None:
            x = core.fminimum(x, hi)
        return x

    if a_min is None:
        return ew(lambda x, h: f(x, None, h), a, a_max)
    if a_max is None:
        return ew(lambda x, l: f(x, l, None), a, a_min)
    return ew(f, a, a_min, a_max)


@reg("isclose")
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        x, y = flt(x), flt(y)
        d = flt(core.unary("abs", core.arith("sub", x, y)))
        tol = flt(core.arith("add", flt(atol), core.arith("mul", flt(rtol), core.unary("abs", y))))
        c = And(x.fin, y.fin, core.le(d.v, tol.v))
        return mkbool(Or(c, boolt(core.cmp("eq", x, y))))

    return ew(f, a, b, out="b")


@reg("allclose")
def allclose(a, b, **k):
    r = isclose(a, b, **k)
    return np.all(r)


@reg("any")
def any_(a, axis=None, keepdims=False, **k):
    if scalar_like(a):
        return mkbool(boolt(a))
    return reduce(r_any, a, axis, keepdims)


@reg("all")
def all_(a, axis=None, keepdims=False, **k):
    if scalar_like(a):
        return mkbool(boolt(a))
    return reduce(r_all, a, axis, keepdims)


@reg("sum")
def sum_(a, axis=None, keepdims=False, dtype=None, **k):
    if hasattr(a, "_is_series"):
        a = a._sym_values()
    return reduce(r_sum, a, axis, keepdims)


@reg("count_nonzero")
def count_nonzero(a, axis=None):
    return sum_(ew(lambda x: mkbool(boolt(x)), a, out="b"), axis)


@reg("mean")
def mean(a, axis=None, keepdims=False, **k):
    if hasattr(a, "_is_series"):
        a = a._sym_values()
    return reduce(r_mean, a, axis, keepdims)


@reg("average")
def average(a, axis=None, weights=None):
    if weights is None:
        return mean(a, axis)
    return ew(lambda p, q: core.arith("truediv", p, q), sum_(asarr(a) * asarr(weights), axis), sum_(ew(lambda x, y: y, a, weights), axis))


def _var(n, f, k, ddof):
    m = r_mean(n, f, k)
    s = r_sum(n, lambda i: (lambda d: core.arith("mul", d, d))(core.arith("sub", flt(f(i)), m)), "f")
    return core.arith("truediv", s, core.arith("sub", n, ddof))


@reg("var")
def var(a, axis=None, ddof=0, keepdims=False, **k):
    return reduce(lambda n, f, kk: _var(n, f, kk, ddof), a, axis, keepdims)


@reg("std")
def std(a, axis=None, ddof=0, keepdims=False, **k):
    return ew(core.fsqrt, var(a, axis, ddof, keepdims))


@reg("max", "amax")
def max_(a, axis=None, keepdims=False):
    return reduce(lambda n, f, k: r_ext(n, f, k, "max"), a, axis, keepdims)


@reg("min", "amin")
def min_(a, axis=None, keepdims=False):
    return reduce(lambda n, f, k: r_ext(n, f, k, "min"), a, axis, keepdims)


@reg("ptp")
def ptp(a, axis=None):
    return max_(a, axis) - min_(a, axis)


@reg("nansum")
def nansum(a, axis=None, keepdims=False):
    def f(x):
        x = flt(x)
        return ite(x.nan, SFlt(R(0)), x)

    return sum_(ew(f, a), axis, keepdims)


@reg("argmin")
def argmin(a, axis=None):
    return reduce(lambda n, f, k: r_argmin(n, f, k, 1), a, axis)


@reg("argmax")
def argmax(a, axis=None):
    return reduce(lambda n, f, k: r_argmin(n, f, k, -1), a, axis)


def sort_key(get):
    p = get(z3.Int("?probe9"))
    x = flt(p)
    if lit(x.fin) is not True:
        raise Unsupported("sorting possibly non finite values")
    return lambda i: flt(get(i)).v


def argsort1(n, g, stable):
    """-> getter of permutation"""
    if not is_sym(n):
        idx = []
        for i in range(n):
            v = g(z3.IntVal(i))
            j = len(idx)
            while j > 0 and bool(core.cmp("lt", v, g(z3.IntVal(idx[j - 1])))):
                j -= 1
            idx.insert(j, i)
        return lambda k: sel_list(idx, k)
    r, p = red.make("perm" if stable else "permu", dim_t(n), sort_key(g))
    red.uf(r, "pinv", *red.ROLES["pinv"])
    f = lambda k: SInt(red.app(r, "perm", p, k))
    f.inverse = lambda k: SInt(red.app(r, "pinv", p, k))
    return f


@reg("argsort")
def argsort(a, axis=-1, kind=None, **k):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("nd argsort")
    stable = kind in ("mergesort", "stable")
    n, g = a.shape[0], argsort1(a.shape[0], a.snap(), stable)
    out = SArr(a.shape, g, "i")
    if is_sym(n):
        out.__dict__["inverse"] = g.inverse  # ghost: position of an index in the sorted order
    return out


@reg("sort")
def sort(a, axis=-1, kind=None):
    a = asarr(a)
    g = a.snap()
    if a.ndim == 1:
        pi = argsort1(a.shape[0], g, False)
        return SArr(a.shape, lambda k: g(intt(pi(k))), a.kind)
    raise Unsupported("nd sort")


@reg("diff")
def diff(a, n=1, axis=-1, **kw):
    if n != 1 or kw:
        raise Unsupported("diff args")
    a = asarr(a)
    ax = axis if axis >= 0 else axis + a.ndim
    g = a.snap()
    d = a.shape[ax]
    nd = nonneg_dim(dim_t(d) - 1)
    sh = a.shape[:ax] + (nd,) + a.shape[ax + 1 :]

    def get(*idx):
        i2 = list(idx)
        i2[ax] = z3.simplify(i2[ax] + 1)
        x, y = g(*i2), g(*idx)
        if a.kind == "b":
            return core.cmp("ne", x, y)
        return core.arith("sub", x, y)

    return SArr(sh, get, a.kind)


@reg("cumsum")
def cumsum(a, axis=None, **k):
    a = asarr(a)
    if axis is None and a.ndim != 1:
        raise Unsupported("flat cumsum")
    ax = 0 if axis is None else (axis if axis >= 0 else axis + a.ndim)
    g = a.snap()
    n = a.shape[ax]
    kk = "i" if a.kind in "bi" else "f"

    def get(*idx):
        k = idx[ax]

        def f(i):
            ii = list(idx)
            ii[ax] = i
            return g(*ii)

        if not is_sym(n):
            acc, vals = (0 if kk == "i" else flt(0)), []
            for i in range(n):
                acc = core.arith("add", acc, f(z3.IntVal(i)))
                vals.append(acc)
            return sel_list(vals, k)
        z = 0 if kk == "i" else SFlt(R(0))
        return r_sum(n, lambda i: ite(i <= k, cast(f(i), kk), z), kk)

    return SArr(a.shape, get, kk)


@reg("where")
def where(c, x=None, y=None):
    if x is None and y is None:
        c = asarr(c)
        if c.ndim != 1:
            raise Unsupported("nd where")
        m = ew(lambda v: mkbool(boolt(v)), c, out="b")
        ln, get, _ = arr.nonzero1(m)
        return (SArr((ln,), get, "i"),)
    return ew(lambda p, q, r: ite(boolt(p), q, r), c, x, y)


@reg("nonzero")
def nonzero_(c):
    return where(c)


@reg("flatnonzero")
def flatnonzero(c):
    return where(c)[0]


def mkfill(sh, v, k):
    if scalar_like(sh):
        sh = (sh,)
    sh = tuple(norm(s) for s in sh)
    v = cast(v, k)
    return SArr(sh, lambda *i: v, k)


@reg("zeros")
def zeros(sh, dtype=None):
    return mkfill(sh, 0, kind_of_dtype(dtype))


@reg("ones")
def ones(sh, dtype=None):
    return mkfill(sh, 1, kind_of_dtype(dtype))


@reg("full")
def full(sh, v, dtype=None):
    if isinstance(v, SArr):
        raise Unsupported("full array")
    return mkfill(sh, v, kind_of_dtype(dtype) if dtype is not None else kind(v))


@reg("zeros_like")
def zeros_like(a, dtype=None):
    a = asarr(a)
    return mkfill(a.shape, 0, kind_of_dtype(dtype) if dtype is not None else a.kind)


@reg("ones_like")
def ones_like(a, dtype=None):
    a = asarr(a)
    return mkfill(a.shape, 1, kind_of_dtype(dtype) if dtype is not None else a.kind)


@reg("full_like")
def full_like(a, v, dtype=None):
    a = asarr(a)
    return mkfill(a.shape, v, kind_of_dtype(dtype) if dtype is not None else a.kind)


@reg("eye", "identity")
def eye(n, m=None, dtype=None):
    m = n if m is None else m
    k = kind_of_dtype(dtype)
    return SArr((n, m), lambda i, j: cast(ite(core.eq(i, j), 1, 0), k), k)


@reg("array", "asarray", "asanyarray")
def array(x, dtype=None, copy=True, **k):
    if hasattr(x, "_is_series"):
        x = x._sym_values()
    a = asarr(x)
    if dtype is not None:
        return a.astype(dtype)
    return a.copy() if isinstance(x, SArr) and k.get("ndmin") is None else a


D["asarray"] = api(lambda x, dtype=None, **k: (asarr(x) if dtype is None else (asarr(x) if kind_of_dtype(dtype) == asarr(x).kind else asarr(x).astype(dtype))))


@reg("copy")
def copy(a, **k):
    return asarr(a).copy()


@reg("atleast_1d")
def atleast_1d(a):
    a = asarr(a)
    if a.ndim == 0:
        v = a.at()
        return from_list([v])
    return a


@reg("arange")
def arange(*a, **k):
    dt = k.get("dtype")
    if builtins.any(kind(x) == "f" for x in a):
        raise Unsupported("float arange")
    if len(a) == 1:
        a = (0, a[0])
    r = asarr(SRange(*a)) if builtins.any(is_sym(x) for x in a) else asarr(range(*a))
    return r if dt is None else r.astype(dt)


@reg("linspace")
def linspace(a, b, n=50, **k):
    if k:
        raise Unsupported("linspace args")
    a, b = flt(a), flt(b)
    if is_sym(n):
        raise Unsupported("symbolic linspace")
    st = core.arith("truediv", core.arith("sub", b, a), n - 1) if n > 1 else flt(0)
    return SArr((n,), lambda i: core.arith("add", a, core.arith("mul", st, mkint(i))), "f")


@reg("dot", "matmul")
def dot(a, b):
    a, b = asarr(a), asarr(b)
    ga, gb = a.snap(), b.snap()
    if a.ndim == 1 and b.ndim == 1:
        if not dim_same(a.shape[0], b.shape[0]):
            raise ValueError("shapes not aligned")
        return r_sum(a.shape[0], lambda i: core.arith("mul", ga(i), gb(i)), "f")
    if a.ndim == 2 and b.ndim == 2:
        if not dim_same(a.shape[1], b.shape[0]):
            raise ValueError("shapes not aligned")
        n = a.shape[1]
        return SArr((a.shape[0], b.shape[1]), lambda i, j: r_sum(n, lambda q: core.arith("mul", ga(i, q), gb(q, j)), "f"), "f")
    if a.ndim == 2 and b.ndim == 1:
        if not dim_same(a.shape[1], b.shape[0]):
            raise ValueError("shapes not aligned")
        n = a.shape[1]
        return SArr((a.shape[0],), lambda i: r_sum(n, lambda q: core.arith("mul", ga(i, q), gb(q)), "f"), "f")
    raise Unsupported("dot")


SArr.__matmul__ = lambda self, o: dot(self, o)
arr.METHODS["dot"] = dot


def concat1(parts, ax=0):
    parts = [asarr(p) for p in parts]
    if len(parts) == 0:
        raise ValueError("need at least one array to concatenate")
    nd = parts[0].ndim
    for p in parts:
        if p.ndim != nd:
            raise ValueError("all the input array dimensions must match")
    ax = ax if ax >= 0 else ax + nd
    k = arr.join_kinds([p.kind for p in parts if not (not is_sym(p.shape[ax]) and p.shape[ax] == 0)] or [parts[0].kind])
    for p in parts[1:]:
        for d in range(nd):
            if d != ax and not dim_same(p.shape[d], parts[0].shape[d]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match")
    gs = [p.snap() for p in parts]
    offs = [z3.IntVal(0)]
    for p in parts:
        offs.append(z3.simplify(offs[-1] + dim_t(p.shape[ax])))
    tot = mkint(offs[-1])
    sh = parts[0].shape[:ax] + (tot,) + parts[0].shape[ax + 1 :]

    def get(*idx):
        i = idx[ax]
        r = None
        n = num(i)
        for q in range(len(parts) - 1, -1, -1):
            lo, hi = offs[q], offs[q + 1]
            if n is not None and num(lo) is not None and num(hi) is not None:
                if not (num(lo) <= n < num(hi)):
                    continue
            if not is_sym(parts[q].shape[ax]) and parts[q].shape[ax] == 0:
                continue
            ii = list(idx)
            ii[ax] = z3.simplify(i - lo)
            v = cast(gs[q](*ii), k)
            r = v if r is None else ite(i < hi, v, r)
        return r

    return SArr(sh, get, k)


@reg("concatenate")
def concatenate(parts, axis=0, **k):
    return concat1(list(parts), axis)


@reg("append")
def append(a, b, axis=None):
    b = asarr(b)
    if b.ndim == 0:
        b = from_list([b.at()])
    return concat1([asarr(a), b], axis or 0)


@reg("insert")
def insert(a, i, v, axis=None):
    a = asarr(a)
    if a.ndim == 1 and i == 0 and scalar_like(v):
        return concat1([from_list([cast(v, a.kind)]), a])
    raise Unsupported("insert")


@reg("hstack")
def hstack(parts):
    parts = [asarr(p) for p in parts]
    parts = [from_list([p.at()]) if p.ndim == 0 else p for p in parts]
    return concat1(parts, 0 if parts[0].ndim == 1 else 1)


@reg("vstack")
def vstack(parts):
    parts = [asarr(p) for p in parts]
    return concat1([p[None, :] if p.ndim == 1 else p for p in parts], 0)


class _R:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, (slice, str)):
                raise Unsupported("r_ slice")
            a = asarr(k)
            parts.append(from_list([a.at()]) if a.ndim == 0 else a)
        return concat1(parts, 0)


class _C:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            a = asarr(k)
            if a.ndim == 1:
                a = a[:, None]
            parts.append(a)
        return concat1(parts, 1)


D["r_"] = _R()
D["c_"] = _C()


@reg("column_stack")
def column_stack(parts):
    return _C()[tuple(parts)]


@reg("stack")
def stack(parts, axis=0):
    parts = [asarr(p) for p in parts]
    if parts[0].ndim == 1 and axis in (1, -1):
        return concat1([p[:, None] for p in parts], 1)
    if parts[0].ndim == 1 and axis == 0:
        return concat1([p[None, :] for p in parts], 0)
    raise Unsupported("stack")


@reg("transpose")
def transpose(a):
    return asarr(a).T


@reg("expand_dims")
def expand_dims(a, axis):
    a = asarr(a)
    if a.ndim == 1:
        return a[None, :] if axis == 0 else a[:, None]
    raise Unsupported("expand_dims")


@reg("squeeze")
def squeeze(a, axis=None):
    a = asarr(a)
    if a.ndim == 2 and not is_sym(a.shape[1]) and a.shape[1] == 1 and axis in (1, -1):
        return a[:, 0]
    if a.ndim == 2 and not is_sym(a.shape[0]) and a.shape[0] == 1 and axis in (0,):
        return a[0, :]
    raise Unsupported("squeeze")


@reg("broadcast_to")
def broadcast_to(a, sh):
    a = asarr(a)
    g = arr.bget(a, len(sh))
    return SArr(tuple(sh), lambda *i: g(*i), a.kind)


@reg("unique")
def unique(a, **k):
    if k:
        raise Unsupported("unique args")
    a = asarr(a)
    g = a.snap()
    n = a.shape[0]
    if a.ndim != 1:
        raise Unsupported("nd unique")
    if not is_sym(n):
        pi = argsort1(n, g, True)
        idx = [pi(z3.IntVal(i)) for i in range(n)]
        vals = []
        for q in idx:
            v = g(z3.IntVal(q))
            if not vals or bool(core.cmp("ne", v, vals[-1])):
                vals.append(v)
        if not vals:
            return SArr((0,), lambda i: 0.0, a.kind)
        return from_list(vals, a.kind)
    r, p = red.make("uniq", dim_t(n), sort_key(g))
    for role in ("uval", "uidx", "urank", "ucnt"):
        red.uf(r, role, *red.ROLES[role])
    m = mkint(red.app(r, "ucnt", p))
    return SArr((m,), lambda i: SFlt(red.app(r, "uval", p, i)) if a.kind == "f" else mkint(z3.ToInt(red.app(r, "uval", p, i))), a.kind)


@reg("searchsorted")
def searchsorted(a, v, side="left", **k):
    if k:
        raise Unsupported("searchsorted args")
    a = asarr(a)
    g = a.snap()
    n = a.shape[0]
    if not is_sym(n):
        # count, valid for a sorted array; sortedness is checked
        for i in range(n - 1):
            if not ctx().entails(boolt(core.cmp("le", g(z3.IntVal(i)), g(z3.IntVal(i + 1))))):
                raise Unsupported("searchsorted of unsorted array")

        def f(x):
            t = z3.IntVal(0)
            for i in range(n):
                c = core.cmp("le", g(z3.IntVal(i)), x) if side == "right" else core.cmp("lt", g(z3.IntVal(i)), x)
                t = t + z3.If(B(boolt(c)), 1, 0)
            return mkint(z3.simplify(t))

        return ew(f, v, out="i")
    # leading -inf handled by splitting it off
    pr = flt(g(z3.Int("?probe9")))
    off = 0
    if lit(pr.fin) is not True:
        g0 = g
        first = flt(g0(z3.IntVal(0)))
        if lit(z3.simplify(B(first.ninf))) is True:
            n1 = nonneg_dim(dim_t(n) - 1)
            g = lambda i: g0(z3.simplify(i + 1))
            pr1 = flt(g(z3.Int("?probe9")))
            fin = lambda i: Implies(And(i >= 0), flt(g(i)).fin)
            if not ctx().entails(red.ALL(dim_t(n1), fin)):
                raise Unsupported("searchsorted non finite")
            n = n1
            off = 1
        else:
            if not ctx().entails(red.ALL(dim_t(n), lambda i: flt(g(i)).fin)):
                raise Unsupported("searchsorted non finite")
    nt = dim_t(n)
    srt = red.ALL(z3.simplify(nt - 1), lambda i: flt(g(i)).v <= flt(g(z3.simplify(i + 1))).v)
    if not ctx().entails(srt):
        # pairwise form (e.g. from strictness of all pairs)
        raise Unsupported("searchsorted: cannot show the array is sorted")
    r, p = red.make("ss", nt, lambda i: flt(g(i)).v)
    role = "ssr" if side == "right" else "ssl"

    def f(x):
        x = flt(x)
        t = red.app(r, role, p, x.v)
        if lit(x.fin) is not True:
            t = z3.If(B(x.ninf), 0, z3.If(B(x.fin), t, nt))
        return mkint(z3.simplify(t + off)) if off else mkint(t)

    return ew(f, v, out="i")


@reg("trapz")
def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    if x is None:
        raise Unsupported("trapz dx")
    x = asarr(x)
    d = diff(x, axis=axis)
    ax = axis if axis >= 0 else axis + y.ndim
    k1 = tuple([slice(None)] * ax + [slice(1, None)])
    k0 = tuple([slice(None)] * ax + [slice(None, -1)])
    t = (d * (y[k1] + y[k0])) / 2.0
    return sum_(t, axis=axis)


@reg("percentile")
def percentile(a, q, axis=None, interpolation=None, method=None, **k):
    return _quant(a, core.arith("truediv", q, 100), axis, interpolation or method or "linear")


@reg("quantile")
def quantile(a, q, axis=None, interpolation=None, method=None, **k):
    return _quant(a, q, axis, interpolation or method or "linear")


def _quant(a, q, axis, how):
    a = asarr(a)
    if axis not in (0, None) or (axis is None and a.ndim != 1):
        raise Unsupported("percentile axis")
    n = a.shape[0]
    g = a.snap()
    q = flt(q)
    if not ctx().fork(B(And(q.fin, core.le(R(0), q.v), core.le(q.v, R(1))))):
        raise ValueError("Percentiles must be in the range [0, 100]")
    nt = dim_t(n)
    if not ctx().fork(B(core.le(I(1), nt))):
        raise IndexError("percentile of empty")
    pos = z3.simplify(q.v * R(z3.simplify(nt - 1)))
    lo, hi = z3.ToInt(pos), -z3.ToInt(-pos)

    def get(*rest):
        gg = lambda i: g(i, *rest)
        if not is_sym(n):
            pi = None
            # order statistics by sorting network (ite)
            vals = [gg(z3.IntVal(i)) for i in range(n)]
            for i in range(n):
                for j in range(n - 1 - i):
                    x, y = vals[j], vals[j + 1]
                    vals[j], vals[j + 1] = core.fminimum(x, y), core.fmaximum(x, y)
            osel = lambda kk: sel_list(vals, z3.simplify(kk))
        else:
            pi = argsort1(n, gg, False)
            osel = lambda kk: gg(intt(pi(kk)))
        if how == "lower":
            return osel(lo)
        if how == "higher":
            return osel(hi)
        if how == "linear":
            f = SFlt(pos - z3.ToReal(lo))
            x, y = osel(lo), osel(hi)
            return core.arith("add", x, core.arith("mul", core.arith("sub", y, x), f))
        if how == "midpoint":
            return core.arith("truediv", core.arith("add", osel(lo), osel(hi)), 2)
        raise Unsupported("percentile method " + str(how))

    if a.ndim == 1:
        return get()
    return SArr(a.shape[1:], get, "f")


@reg("median")
def median(a, axis=None):
    return _quant(a, 0.5, axis, "linear")


@reg("roots")
def roots(p):
    """roots of a real quadratic (contract of numpy.roots for three coefficients)"""
    p = asarr(p)
    if is_sym(p.shape[0]) or p.shape[0] != 3:
        raise Unsupported("roots of degree != 2")
    a, b, c = [flt(p.at(z3.IntVal(i))) for i in range(3)]
    if not ctx().fork(B(And(a.fin, b.fin, c.fin))):
        raise ValueError("array must not contain infs or NaNs")
    if not ctx().fork(B(Not(core.eq(a.v, R(0))))):
        raise Unsupported("roots: zero leading coefficient")
    disc = b.v * b.v - 4 * a.v * c.v
    if not ctx().fork(z3.simplify(disc >= 0)):
        raise Unsupported("complex roots")
    r1, r2 = z3.Real(ctx().name("root")), z3.Real(ctx().name("root"))
    c_ = ctx()
    # Vieta: exactly the two real roots, in unspecified order
    c_.pc.append(r1 + r2 == -b.v / a.v)
    c_.pc.append(r1 * r2 == c.v / a.v)
    c_.pc.append(a.v * r1 * r1 + b.v * r1 + c.v == 0)
    c_.pc.append(a.v * r2 * r2 + b.v * r2 + c.v == 0)
    return from_list([SFlt(r1), SFlt(r2)])


@reg("repeat")
def repeat(a, n, axis=None):
    a = asarr(a)
    g = a.snap()
    if a.ndim == 0:
        return SArr((n,), lambda i: g(), a.kind)
    if not is_sym(a.shape[0]) and a.shape[0] == 1 and (axis == 0 or (axis is None and a.ndim == 1)):
        return SArr((n,) + a.shape[1:], lambda i, *r: g(z3.IntVal(0), *r), a.kind)
    raise Unsupported("repeat")


@reg("tile")
def tile(a, reps):
    a = asarr(a)
    g = a.snap()
    if isinstance(reps, tuple) and len(reps) == 2 and reps[1] == 1 and a.ndim == 1:
        return SArr((reps[0],) + a.shape, lambda i, j: g(j), a.kind)
    if a.ndim == 1 and not is_sym(a.shape[0]) and a.shape[0] == 1 and not isinstance(reps, tuple):
        return SArr((reps,), lambda i: g(z3.IntVal(0)), a.kind)
    if a.ndim == 0 and not isinstance(reps, tuple):
        return SArr((reps,), lambda i: g(), a.kind)
    raise Unsupported("tile")


NEXT = z3.Function("NEXTAFTER", z3.RealSort(), z3.RealSort())
red.ARRAY_FACTS["NEXTAFTER"] = lambda x: NEXT(x) > x


@reg("nextafter")
def nextafter(x, y):
    if not (isinstance(y, float) and y == math.inf):
        raise Unsupported("nextafter direction")

    def f(a):
        a = flt(a)
        return SFlt(NEXT(a.v), a.nan, a.pinf, False)

    return ew(f, x)


@reg("isin")
def isin(a, b, **k):
    b = asarr(b)
    gb = b.snap()
    return ew(lambda x: arr.r_any(b.shape[0], lambda i: core.cmp("eq", x, gb(i))), a, out="b")


D["in1d"] = D["isin"]


@reg("take")
def take(a, i, axis=None):
    a = asarr(a)
    if axis is None and a.ndim == 1:
        return a[i]
    return a[tuple([slice(None)] * axis + [i])]


@reg("logaddexp")
def logaddexp(a, b):
    raise Unsupported("logaddexp")


class vectorize:
    """np.vectorize: only the marker; calls go through a contract or row-wise execution"""

    def __init__(self, f, otypes=None, excluded=None, signature=None, **k):
        self.pyfunc, self.signature, self.excluded = f, signature, excluded

    def __call__(self, *args, **kw):
        if self.signature is None:
            raise Unsupported("vectorize without signature")
        sig = self.signature.split("->")[0]
        core_nd = [len([x for x in s.strip().strip("()").split(",") if x]) for s in sig.replace(" ", "").split("),(")]
        arrs, others = list(args[: len(core_nd)]), list(args[len(core_nd) :])
        arrs = [asarr(a) for a in arrs]
        extra = [a.shape[: a.ndim - nd] for a, nd in zip(arrs, core_nd)]
        bs = arr.bshape(extra)
        if len(bs) == 0:
            return self.pyfunc(*(arrs + others), **kw)
        if len(bs) != 1:
            raise Unsupported("vectorize >1 batch dims")

        def row(i):
            rs = []
            for a, nd in zip(arrs, core_nd):
                if a.ndim > nd:
                    g = a.snap()
                    j = z3.IntVal(0) if (not is_sym(a.shape[0]) and a.shape[0] == 1) else i
                    rs.append(SArr(a.shape[1:], (lambda g, j: lambda *q: g(j, *q))(g, j), a.kind))
                else:
                    rs.append(a)
            return self.pyfunc(*(rs + others), **kw)

        n = bs[0]
        if not is_sym(n):
            rows = [asarr(row(z3.IntVal(i))) for i in range(n)]
            if not rows:
                raise Unsupported("vectorize empty")
            gs = [r.snap() for r in rows]
            return SArr((n,) + rows[0].shape, lambda i, *q: sel_list([g(*q) for g in gs], i), rows[0].kind)
        # one generic row: every decision taken for it must be forced
        b = z3.Int(ctx().name("row"))
        c = ctx()
        if not c.entails(dim_t(n) >= 1):
            raise Unsupported("vectorize over a possibly empty batch")
        c.pc.append(z3.And(b >= 0, b < dim_t(n)))
        old = c.generic
        c.generic = (old or []) + [b]
        try:
            res = asarr(row(b))
        finally:
            c.generic = old
        g = res.snap()

        def sub(x, i):
            def s(t):
                return z3.substitute(t, (b, i)) if isinstance(t, z3.ExprRef) else t

            if isinstance(x, SFlt):
                return SFlt(s(x.v), s(x.nan), s(x.pinf), s(x.ninf))
            if isinstance(x, SInt):
                return mkint(s(x.t))
            if isinstance(x, SBool):
                return mkbool(s(x.t))
            return x

        return SArr((n,) + res.shape, lambda i, *q: sub(g(*q), i), res.kind)


D["vectorize"] = vectorize

# ---------------------------------------------------------------- random
random = Mod("np.random")
D["random"] = random
RD = random.__dict__


def multinomial(N, p, size=None):
    USED.add("random.multinomial")
    p = asarr(p)
    if is_sym(size) or isinstance(size, int):
        Bn = size
    elif isinstance(size, tuple) and len(size) == 1:
        Bn = size[0]
    else:
        raise Unsupported("multinomial size")
    c = ctx()
    n = p.shape[0]
    w = z3.Function(c.name("multinom"), z3.IntSort(), z3.IntSort(), z3.IntSort())
    red.ARRAY_FACTS[w.name()] = lambda b, i: w(b, i) >= 0
    Nt = intt(N)
    # contract: p sums to one, entries nonneg
    pg = p.snap()
    tot = flt(r_sum(n, pg, "f"))
    oks = And(tot.fin, core.eq(tot.v, R(1)))
    if not ctx().entails(oks):
        raise Unsupported("multinomial: cannot show the probabilities sum to one")
    c.notes.setdefault("multinom", []).append((w, n, N, Bn, p))
    if is_sym(n):
        b = z3.Int("?q0")
        row = red.ISUM(dim_t(n), lambda i: w(b, i))
        rn = row.decl().name()
        red.FORALL[rn] = [red.Quant([b], row == Nt, {rn})]
    else:
        facts = []
        if is_sym(Bn):
            b = z3.Int("?q0")
            t = z3.IntVal(0)
            for i in range(n):
                t = t + w(b, i)
            red.FORALL[w.name()] = [red.Quant([b], t == Nt, {w.name()})]
        else:
            for bb in range(Bn):
                t = z3.IntVal(0)
                for i in range(n):
                    t = t + w(bb, i)
                    c.pc.append(w(bb, i) >= 0)
                c.pc.append(t == Nt)
    return SArr((Bn, n), lambda b, i: SInt(w(b, i)), "i")


RD["multinomial"] = multinomial


def rand(*sh):
    USED.add("random.rand")
    c = ctx()
    u = z3.Function(c.name("rand"), *([z3.IntSort()] * max(1, len(sh)) + [z3.RealSort()]))
    red.ARRAY_FACTS[u.name()] = lambda *i: z3.And(u(*i) >= 0, u(*i) < 1)
    c.notes.setdefault("rand", []).append(u)
    if not sh:
        return SFlt(u(0))
    return SArr(sh, lambda *i: SFlt(u(*i)), "f")


RD["rand"] = rand
RD["random_sample"] = lambda size=None: rand(size) if size is not None else rand()


def uniform(low=0.0, high=1.0, size=None):
    r = rand(size) if size is not None and not isinstance(size, tuple) else (rand(*size) if size is not None else rand())
    return low + (high - low) * r


RD["uniform"] = uniform


def choice(x, size=None, replace=True, p=None):
    USED.add("random.choice")
    if replace or p is not None or size is None:
        raise Unsupported("choice with replacement")
    xx = asarr(x) if not scalar_like(x) else asarr(SRange(0, x) if is_sym(x) else range(x))
    n = xx.shape[0]
    c = ctx()
    if not c.fork(B(core.le(intt(size), dim_t(n)))):
        raise ValueError("Cannot take a larger sample than population when 'replace=False'")
    ch = z3.Function(c.name("choice"), z3.IntSort(), z3.IntSort())
    chi = z3.Function(c.name("choiceinv"), z3.IntSort(), z3.IntSort())
    nt = dim_t(n)
    mt = intt(size)
    v = z3.Int("?q0")
    red.FORALL[ch.name()] = [
        red.Quant([v], z3.Implies(z3.And(v >= 0, v < mt), z3.And(ch(v) >= 0, ch(v) < nt, chi(ch(v)) == v)), {ch.name()})
    ]
    if not is_sym(size):
        for i in range(int(size)):
            c.pc.append(z3.And(ch(i) >= 0, ch(i) < nt))
            for j in range(i):
                c.pc.append(ch(i) != ch(j))
    c.notes.setdefault("choice", []).append((ch, chi, n, size))
    g = xx.snap()
    out = SArr((size,), lambda k: g(ch(k)), xx.kind)
    if is_sym(n) and z3.simplify(intt(g(z3.Int("?probe7"))) if xx.kind == "i" else z3.IntVal(0)).eq(z3.Int("?probe7")):
        # positions drawn without replacement: exactly m of the n positions are drawn
        drawn = lambda i: z3.And(chi(i) >= 0, chi(i) < mt, ch(chi(i)) == i)
        c.pc.append(red.ISUM(nt, lambda i: z3.If(drawn(i), I(1), I(0))) == mt)
        out.drawn = drawn
    return out


RD["choice"] = choice

# SArr methods delegating here
for _n in ("any", "all", "sum", "mean", "std", "var", "max", "min", "argmin", "argmax", "cumsum", "argsort", "clip", "repeat", "nonzero", "take", "squeeze", "ptp", "searchsorted"):
    arr.METHODS[_n] = D[_n]


def _sortinplace(a, **k):
    r = sort(a)
    a._assign_all(r)


arr.METHODS["sort"] = _sortinplace
arr.METHODS["fill"] = lambda a, v: a.__setitem__(tuple([slice(None)] * a.ndim), v)
arr.METHODS["transpose"] = lambda a: a.T
arr.METHODS["view"] = lambda a, *k: arr._uns("view")
