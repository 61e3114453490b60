"""scipy / joblib facades: trusted contracts of the dependencies."""
import z3
from . import core, red, arr, npf
from .core import SFlt, SInt, R, And, Or, Not, Ite, flt, lit, mkbool, Unsupported, ctx, arith, cmp, boolt, B
from .arr import SArr, asarr, ew, is_sym, dim_t

# Student t: survival function and quantile, uninterpreted but axiomatised
TSF = z3.Function("TSF", z3.RealSort(), z3.RealSort(), z3.RealSort())  # P(T > t), df
TPPF = z3.Function("TPPF", z3.RealSort(), z3.RealSort(), z3.RealSort())


def tdist_axioms(ground, done):
    out = []
    sf, pp = ground.get("TSF", []), ground.get("TPPF", [])
    for g in sf:
        k = ("TSF", g.get_id())
        if k in done:
            continue
        done.add(k)
        t, d = g.children()
        out += [z3.Implies(d > 0, z3.And(g > 0, g < 1, (t > 0) == (g < R("1/2")), (t == 0) == (g == R("1/2"))))]
    for g in pp:
        k = ("TPPF", g.get_id())
        if k in done:
            continue
        done.add(k)
        q, d = g.children()
        out += [z3.Implies(z3.And(d > 0, q > 0, q < 1), z3.And(TSF(g, d) == 1 - q, (q > R("1/2")) == (g > 0), (q == R("1/2")) == (g == 0)))]
    allsf = ground.get("TSF", [])
    for i in range(len(allsf)):
        for j in range(i):
            a, b = allsf[i], allsf[j]
            k = ("TSFP", a.get_id(), b.get_id())
            if k in done:
                continue
            done.add(k)
            out.append(z3.Implies(z3.And(a.arg(1) == b.arg(1), a.arg(1) > 0), z3.And((a.arg(0) < b.arg(0)) == (a > b), (a.arg(0) == b.arg(0)) == (a == b))))
    for i in range(len(pp)):
        for j in range(i):
            a, b = pp[i], pp[j]
            k = ("TPPFP", a.get_id(), b.get_id())
            if k in done:
                continue
            done.add(k)
            out.append(z3.Implies(z3.And(a.arg(1) == b.arg(1), a.arg(1) > 0, a.arg(0) + b.arg(0) == 1, a.arg(0) > 0, a.arg(0) < 1), a == -b))
            out.append(z3.Implies(z3.And(a.arg(1) == b.arg(1), a.arg(1) > 0, a.arg(0) > 0, a.arg(0) < 1, b.arg(0) > 0, b.arg(0) < 1), (a.arg(0) < b.arg(0)) == (a < b)))
    return out


red.EXTRA_AXIOMS.append(tdist_axioms)


def sem(a, axis=0, ddof=1, **k):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("sem nd")
    return npf.np.std(a, ddof=ddof) / npf.np.sqrt(a.shape[0])


def ttest_1samp(a, popmean, axis=0, **k):
    """t = (mean - popmean)/sem, p = 2 P(T_{n-1} > |t|); nan for n<2 or 0/0"""
    if k:
        raise Unsupported("ttest options")
    a = asarr(a)
    n = a.shape[0]
    if not ctx().fork(dim_t(n) >= 2 if is_sym(n) else n >= 2):
        return _TT(float("nan"), float("nan"))
    num_ = flt(arith("sub", npf.np.mean(a), popmean))
    den = flt(sem(a))
    t = flt(arith("truediv", num_, den))
    df = arith("sub", n, 1)
    at = flt(core.unary("abs", t))
    p = SFlt(Ite(at.pinf, R(0), 2 * TSF(at.v, flt(df).v)), t.nan, False, False)
    return _TT(t, p)


class _TT(tuple):
    def __new__(cls, s, p):
        o = tuple.__new__(cls, (s, p))
        o.statistic, o.pvalue = s, p
        return o


class T:
    @staticmethod
    def interval(confidence=None, df=None, loc=0, scale=1, **k):
        if "alpha" in k:
            confidence = k["alpha"]
        c, d = flt(confidence), flt(df)
        a = (R(1) + c.v) / 2
        q = SFlt(TPPF(z3.simplify(a), d.v))
        lo, hi = arith("mul", core.unary("neg", q), scale), arith("mul", q, scale)
        return arith("add", lo, loc), arith("add", hi, loc)

    @staticmethod
    def ppf(q, df, loc=0, scale=1):
        return arith("add", arith("mul", SFlt(TPPF(flt(q).v, flt(df).v)), scale), loc)

    @staticmethod
    def isf(q, df, loc=0, scale=1):
        return T.ppf(arith("sub", 1.0, q), df, loc, scale)

    @staticmethod
    def sf(t, df, loc=0, scale=1):
        t = flt(t)
        return SFlt(Ite(t.pinf, R(0), Ite(t.ninf, R(1), TSF(t.v, flt(df).v))), t.nan)

    @staticmethod
    def cdf(t, df, loc=0, scale=1):
        return arith("sub", 1.0, T.sf(t, df))


class Norm:
    @staticmethod
    def logpdf(x, loc=0, scale=1):
        def f(x, m, s):
            z = arith("truediv", arith("sub", x, m), s)
            s = flt(s)
            r = arith("sub", arith("mul", -0.5, arith("mul", z, z)), core.flog(s))
            return arith("sub", r, SFlt(core.LOG(2 * core.PI) / 2))

        return ew(f, x, loc, scale)

    @staticmethod
    def pdf(x, loc=0, scale=1):
        return npf.np.exp(Norm.logpdf(x, loc, scale))


def logsumexp(a, axis=None, b=None, keepdims=False, **k):
    if b is not None or k:
        raise Unsupported("logsumexp options")
    a = asarr(a)

    def fn(n, f, kk):
        def u(i):
            x = flt(f(i))
            if x.lg is not None:
                return x.lg
            return flt(core.fexp(x)).v

        pr = flt(f(z3.Int("?probe9")) if is_sym(n) else f(z3.IntVal(0)))
        if lit(pr.nan) is not False or lit(pr.pinf) is not False:
            raise Unsupported("logsumexp of nan/inf")
        s = red.SUM(dim_t(n), u) if is_sym(n) else None
        if s is None:
            s = R(0)
            for i in range(n):
                s = core.radd(s, u(z3.IntVal(i)))
        return core.logof(s)

    return arr.reduce(fn, a, axis, keepdims)


class NotMemorized:
    def __init__(self, *a, **k):
        pass

    def cache(self, f=None, **k):
        if f is None:
            return lambda g: g
        return f


class Interp1d:
    def __init__(self, x, y, kind="linear", assume_sorted=False, **k):
        if kind != "linear" or not assume_sorted or k:
            raise Unsupported("interp1d options")
        self.x, self.y = asarr(x), asarr(y)

    def __call__(self, xg):
        return linear_interp(asarr(xg), self.x, self.y)


def linear_interp(xg, x, y):
    """scipy.interpolate.interp1d(kind='linear', assume_sorted=True) on float data is numpy.interp plus a range check:
    j = last knot <= v; y_j at a knot, else y_j + slope*(v-x_j); out of range -> ValueError"""
    n = x.shape[0]
    gx, gy = x.snap(), y.snap()
    nt = dim_t(n)
    c = ctx()
    xgg = xg.snap()
    lo_ok = red.ALL(dim_t(xg.shape[0]), lambda i: boolt(cmp("ge", xgg(i), gx(z3.IntVal(0)))))
    hi_ok = red.ALL(dim_t(xg.shape[0]), lambda i: boolt(cmp("le", xgg(i), gx(z3.simplify(nt - 1)))))
    if not c.fork(B(And(lo_ok, hi_ok))):
        raise ValueError("A value in x_new is outside the interpolation range.")
    pos = npf.np.searchsorted(x, xg, side="right")
    pg = asarr(pos).snap()

    def get(i):
        j = z3.simplify(core.intt(pg(i)) - 1)
        k = z3.simplify(z3.If(j >= nt - 1, nt - 1, j + 1))
        x0, x1, y0, y1 = flt(gx(j)), flt(gx(k)), flt(gy(j)), flt(gy(k))
        v = flt(xgg(i))
        if not (lit(y0.fin) is True and lit(y1.fin) is True):
            raise Unsupported("interp of non finite")
        sl = arith("truediv", arith("sub", y1, y0), arith("sub", x1, x0))
        val = arith("add", arith("mul", sl, arith("sub", v, x0)), y0)
        return core.ite(z3.Or(j >= nt - 1, x0.v == v.v), y0, val)

    return SArr((xg.shape[0],), get, "f")


def install(F):
    ss = npf.Mod("scipy.stats", sem=sem, ttest_1samp=ttest_1samp, t=T, norm=Norm)
    F["scipy.stats"] = ss
    F["scipy.special"] = npf.Mod("scipy.special", logsumexp=logsumexp)
    F["scipy.interpolate"] = npf.Mod("scipy.interpolate", interp1d=Interp1d)
    F["joblib"] = npf.Mod("joblib", Memory=NotMemorized)
    F["scipy"] = npf.Mod("scipy", stats=ss, special=F["scipy.special"], interpolate=F["scipy.interpolate"])
