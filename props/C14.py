"""C14: area, step functions, interpolation, de-duplication."""
import math
import numpy as rnp
from pyvc.verify import contract, stub, require

UT = "mlpaper.util."
INF = float("inf")


def knots(r, sh):
    """sorted knots with ties, wide and tiny gaps"""
    st = r.randint(6)
    n = sh[-1]
    if st == 0:
        a = r.randint(0, 4, size=sh).astype(float)
    elif st == 1:
        a = rnp.round(r.rand(*sh), 1)
    elif st == 2:
        a = r.rand(*sh)
    elif st == 3:
        a = r.choice([0.0, 1e-300, 1.0, 1.0 + 2.3e-16, 2.0], size=sh)
    elif st == 4:
        a = rnp.full(sh, float(r.randint(-1, 2)))
    else:
        a = r.randn(*sh) * 10.0 ** r.randint(-3, 4)
    return rnp.sort(a, axis=-1)


def uniq(r, sh):
    n = sh[-1]
    a = rnp.unique(knots(r, (3 * n + 3,)))
    b = rnp.concatenate((a, a[-1] + 1.0 + rnp.abs(a[-1]) + rnp.arange(n) * (1.0 + rnp.abs(a[-1]))))
    return rnp.sort(r.permutation(b)[:n])


def area_spec(v, x, y, b, m, kind):
    if kind == "previous":
        return v.sum(m - 1, lambda t: v.at(y, b, t) * (v.at(x, b, t + 1) - v.at(x, b, t)))
    return v.sum(m - 1, lambda t: (v.at(x, b, t + 1) - v.at(x, b, t)) * (v.at(y, b, t + 1) + v.at(y, b, t)) / 2.0)


@contract("C14", "area", [UT + "area"], cases=[{"kind": "previous"}, {"kind": "linear"}], n_rand=200)
def area(v):
    nb = v.dim("nb", 1, small=[1, 2])
    m = v.dim("m", 2, small=[2, 3])
    x = v.array("x", (nb, m), gen=knots)
    y = v.array("y", (nb, m))
    k = v.case["kind"]
    r = v.call(v.m("util").area, x, y, k) if v.choice("kw", [True, False]) else v.call(v.m("util").area, x_curve=x, y_curve=y, kind=k)
    v.ensures("shape", v.and_(len(r.shape) == 1, v.eq(r.shape[0], nb)))
    sc = {} if v.sym else {"scale": float(rnp.max(rnp.abs(y)) * max(1e-300, rnp.max(x) - rnp.min(x)))}
    v.ensures_all("area", nb, lambda b: v.same(v.at(r, b), area_spec(v, x, y, b, m, k), **sc))
    v.unchanged("inputs-unchanged", x, y)


@contract("C14", "area-special", [UT + "area"], cases=[{"kind": "previous"}, {"kind": "linear"}], n_rand=300, modes="r")
def area_special(v):
    """infinite and NaN values: zero-width steps contribute nothing, NaN is rejected"""
    nb, m = v.dim("nb", 1, hi=3), v.dim("m", 1, hi=8)
    x = v.array("x", (nb, m), gen=knots, ext="nan" if v.choice("xnan", [True, False], w=[1, 4]) else None)
    y = v.array("y", (nb, m), ext=v.choice("yext", ["inf", "any"], w=[4, 1]))
    k = v.case["kind"]
    o = v.run(v.m("util").area, x, y, k)
    if m < 2 or rnp.isnan(x).any() or rnp.isnan(y).any():
        v.must_reject(o, "nan-or-too-short-rejected")
        return
    exp = []
    for b in range(nb):
        t = 0.0
        for i in range(m - 1):
            d = x[b, i + 1] - x[b, i]
            if k == "previous":
                t += 0.0 if (d == 0 and math.isinf(y[b, i])) else y[b, i] * d
            else:
                t += float(rnp.float64(d) * rnp.float64(y[b, i] + y[b, i + 1]) / 2.0)
        exp.append(t)
    if any(math.isnan(t) for t in exp):
        v.must_reject(o, "undefined-area-rejected")
        return
    v.ensures("no-exception", o.raised is None)
    sc = {"scale": float(rnp.max(rnp.abs(rnp.where(rnp.isfinite(y), y, 0.0))) * (rnp.max(x) - rnp.min(x)) + 1e-300)}
    v.ensures_all("area", nb, lambda b: v.same(o.value[b], exp[b], **sc))


@contract("C14", "area-kind", [UT + "area"], n_rand=20, modes="pr")
def area_kind(v):
    x = v.array("x", (2, 3), gen=knots)
    y = v.array("y", (2, 3))
    v.must_reject(v.run(v.m("util").area, x, y, v.choice("k", ["next", "cubic", "", None])), "unknown-kind-rejected")
    v.must_reject(v.run(v.m("util").area, x, v.array("y2", (2, 4)), "linear"), "shape-mismatch-rejected")


def grid(v, name, n, x, inside=False):
    """grid points on, between and (unless inside) before the knots"""

    def gen(r, sh):
        k = len(x)
        if k == 0:
            return r.randn(*sh)
        a, b = r.randint(0, k, size=sh), r.randint(0, k, size=sh)
        st = r.rand(*sh)
        out = rnp.where(st < 0.4, x[a], rnp.where(st < 0.8, 0.5 * (x[a] + x[b]), x[a] + r.randn(*sh)))
        near = rnp.nextafter(x[a], r.choice([-INF, INF]))
        out = rnp.where(r.rand(*sh) < 0.1, near, out)
        return rnp.clip(out, x.min(), x.max()) if inside else out

    return v.array(name, n, gen=gen)


@contract("C14", "step", [UT + "eval_step_func"], cases=[{"ival": i, "srt": s} for i in (False, True) for s in (False, True)], n_rand=250, budget=40)
def step(v):
    n, ng = v.dim("n", 0 if v.case["ival"] else 1, small=[1, 2]), v.dim("ng", 0, small=[1])
    x = v.array("x", n, gen=uniq)
    if v.case["srt"]:
        v.assume_sorted(x, n, strict=True)
    elif not v.sym:
        p = v.array("perm", n, kind="i", gen=lambda r, sh: r.permutation(sh[0]))
        x = x[p]
    else:
        v.assume_distinct(x, n)
    y = v.array("y", n)
    g = grid(v, "g", ng, x)
    X, Y = (lambda i: v.at(x, i)), (lambda i: v.at(y, i))
    kw = {"assume_sorted": v.case["srt"]} if v.case["srt"] or not v.choice("kw", [True, False]) else {}
    if v.case["ival"]:
        iv = v.real("ival")
        r = v.call(v.m("util").eval_step_func, g, x, y, iv, **kw)
    else:
        if v.sym:
            k0 = v.int("kmin", 0, n - 1)  # no grid point lies before the smallest knot
            v.assume_each(ng, lambda q: v.le0(X(k0), v.at(g, q)), on=[g])
        elif ng:
            g = rnp.maximum(g, x.min())
        r = v.call(v.m("util").eval_step_func, g, x, y, **kw)
    v.ensures("shape", v.and_(len(r.shape) == 1, v.eq(r.shape[0], ng)))
    def val(q):
        gq, rq = v.at(g, q), v.at(r, q)
        bf = v.all(n, lambda j: v.gt0(X(j), gq))
        ini = v.implies(bf, v.eq(rq, iv)) if v.case["ival"] else True
        # k: any knot that is the last one at or before gq
        ks = [v.int("k", 0, n - 1)] if v.sym else range(n)
        knot = v.and_(*[v.implies(v.and_(v.le0(X(k), gq), v.all(n, lambda j: v.or_(v.gt0(X(j), gq), v.le0(X(j), X(k))))), v.eq(rq, Y(k))) for k in ks])
        return v.and_(ini, knot)

    v.ensures_all("value-of-last-knot", ng, val)
    v.unchanged("inputs-unchanged", x, y, g)


@contract("C14", "step-rejects", [UT + "eval_step_func"], n_rand=60, modes="r")
def step_rejects(v):
    n = v.dim("n", 2)
    x = v.array("x", n, gen=uniq)
    y = v.array("y", n)
    g = grid(v, "g", v.dim("ng", 1), x, inside=True)
    f = v.m("util").eval_step_func
    j = v.int("j", 1, n - 1)
    how = v.choice("how", ["dup", "nan", "unsorted", "before", "shape"])
    if how == "dup":
        x[j] = x[j - 1]
        o = v.run(f, g, x, y)
    elif how == "nan":
        x[j] = rnp.nan
        o = v.run(f, g, x, y)
    elif how == "unsorted":
        x[j - 1], x[j] = x[j], x[j - 1]
        o = v.run(f, g, x, y, assume_sorted=True)
    elif how == "before":
        g[0] = x[0] - abs(x[0]) - 1.0
        o = v.run(f, g, x, y)
    else:
        o = v.run(f, g, x, y[:-1])
    v.must_reject(o)


@contract("C14", "unique-last", [UT + "unique_take_last"], cases=[{"y": True}, {"y": False}], n_rand=250)
def unique_last(v):
    n = v.dim("n", 0, small=[0, 1, 2, 3])
    x = v.array("x", n, gen=knots)
    v.assume_sorted(x, n)
    y = v.array("y", n) if v.case["y"] else None
    ux, uy = v.call(v.m("util").unique_take_last, x, y) if v.case["y"] or v.choice("kw", [True, False]) else v.call(v.m("util").unique_take_last, x)
    m = ux.shape[0]

    def hint(i):
        if v.sym and not v.bounded:
            w = v.last_at(x, v.at(x, i))
            v.mention(v.at(x, w), v.at(x, w + 1))
        return m

    v.ensures("shape", v.le0(m, n))
    v.ensures_all("strictly-increasing", m - 1, lambda i: v.gt0(v.at(ux, i + 1), v.at(ux, i)))
    v.ensures_all("no-value-lost", n, lambda i: v.any(hint(i), lambda k: v.eq(v.at(ux, k), v.at(x, i))))
    if v.case["y"]:
        v.ensures("y-shape", v.eq(uy.shape[0], m))

        def group(k):
            # i: the last index of a group of equal x
            i = v.int("i", 0, n - 1) if v.sym else v.last_at(x, v.at(ux, k))
            nxt = v.or_(v.eq(i, n - 1), v.gt0(v.at(x, i + 1), v.at(x, i))) if v.sym else True
            return v.implies(v.and_(nxt, v.eq(v.at(ux, k), v.at(x, i))), v.eq(v.at(uy, k), v.at(y, i)))

        v.ensures_all("last-of-each-group", m, group)
        v.ensures_all("values-of-x", m, lambda k: v.any(n, lambda i: v.eq(v.at(ux, k), v.at(x, i))))
    else:
        v.ensures("no-y", uy is None)
        v.ensures_all("values-of-x", m, lambda k: v.any(n, lambda i: v.eq(v.at(ux, k), v.at(x, i))))
    v.unchanged("inputs-unchanged", x, *([y] if y is not None else []))


@stub(UT + "unique_take_last")
def utl_stub(v, xp, yp=None):
    """contract unique-last: ux[k] = xp[src(k)] with src(k) the last index of its group, all groups kept in order"""
    import z3
    from pyvc import verify as V, red, npf
    from pyvc.core import SInt, ctx, intt
    from pyvc.arr import SArr

    np = npf.np
    require(xp.ndim == 1 and (yp is None or yp.shape == xp.shape))
    require(not bool(np.any(np.isnan(xp))))
    require(bool(np.all(np.diff(xp) >= 0)))
    n = intt(xp.shape[0])
    i = V.OPAQUE.setdefault(("utl", V._okey(xp)), (len(V.OPAQUE), xp))[0]
    IS = z3.IntSort()
    src, rk = z3.Function("utl%d:src" % i, IS, IS), z3.Function("utl%d:rank" % i, IS, IS)
    m = z3.Int("utl%d:m" % i)
    ctx().assume(z3.And(m >= 0, m <= n, z3.Implies(n >= 1, m >= 1)))
    g = xp.snap()
    X = lambda j: g(j).v
    k, j = z3.Int("?qk"), z3.Int("?qj")
    ink = z3.And(k >= 0, k < m)
    red.add_forall([k], z3.Implies(ink, z3.And(src(k) >= 0, src(k) < n, z3.Or(src(k) == n - 1, X(src(k) + 1) > X(src(k))))), [src.name()])
    red.add_forall([k, j], z3.Implies(z3.And(ink, k < j, j < m), z3.And(src(k) < src(j), X(src(k)) < X(src(j)))), [src.name()])
    red.add_forall([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(rk(j) >= 0, rk(j) < m, src(rk(j)) >= j, X(src(rk(j))) == X(j))), [rk.name()])
    M = SInt(m)
    ux = SArr((M,), lambda q: g(src(q)), xp.kind)
    if yp is None:
        return ux, None
    h = yp.snap()
    return ux, SArr((M,), lambda q: h(src(q)), yp.kind)


@contract("C14", "unique-rejects", [UT + "unique_take_last"], cases=[{"bad": "nan"}, {"bad": "unsorted"}, {"bad": "shape"}], n_rand=30, modes="pr")
def unique_rejects(v):
    n = v.dim("n", 2)
    x = v.array("x", n, gen=knots)
    y = v.array("y", n)
    j = v.int("j", 1, n - 1)
    if v.case["bad"] == "nan":
        x[j] = float("nan")
    elif v.case["bad"] == "unsorted":
        v.mention(v.at(x, j), v.at(x, j - 1))
        x[j - 1] = v.at(x, j) + v.real("d", 0.0, 5.0, open="l")
        v.assume(v.gt0(v.at(x, j - 1), v.at(x, j)))
    else:
        y = v.array("y2", n + 1)
    v.must_reject(v.run(v.m("util").unique_take_last, x, y))


@contract("C14", "cummax-strict", [UT + "cummax_strict"], n_rand=250, modes="br")
def cummax(v):
    n = v.dim("n", 0, small=[0, 1, 2, 3])
    x = v.array("x", n, gen=lambda r, sh: r.choice([knots(r, sh), r.randn(*sh)][r.randint(2)], size=sh) if sh[0] else rnp.zeros(sh))
    x0 = x.copy()
    inplace = v.choice("copy", ["default", "copy", "inplace"])
    f = v.m("util").cummax_strict
    r = v.call(f, x) if inplace == "default" else v.call(f, x, copy=inplace == "copy")
    v.ensures("shape", v.eq(r.shape[0], n))
    v.ensures_all("strictly-increasing", n - 1, lambda i: v.gt0(v.at(r, i + 1), v.at(r, i)))
    v.ensures_all("at-least-the-input", n, lambda i: v.le0(v.at(x0, i), v.at(r, i)))
    if inplace != "inplace":
        v.ensures_all("input-unchanged", n, lambda i: v.eq(v.at(x, i), v.at(x0, i)))
    if not v.sym:
        cm = -INF
        for i in range(n):
            cm = max(float(rnp.nextafter(cm, INF)), float(x0[i])) if i else float(x0[0])
            v.ensures("minimal-increase", r[i] == cm)


@contract("C14", "interp-previous", [UT + "_interp1d", UT + "eval_step_func", UT + "unique_take_last"], n_rand=250, budget=40, stubs=[UT + "unique_take_last"])
def interp_prev(v):
    interp(v, "previous")


@contract("C14", "interp-linear", [UT + "_interp1d"], n_rand=250, modes="pbr", budget=40)
def interp_lin(v):
    interp(v, "linear")


def interp(v, kind):
    n, ng = v.dim("n", 2, small=[2, 3]), v.dim("ng", 1, small=[1])
    x = v.array("x", n, gen=knots)
    v.assume_sorted(x, n)
    y = v.array("y", n)
    g = grid(v, "g", ng, x, inside=True)
    v.assume_each(ng, lambda q: v.and_(v.le0(v.at(x, 0), v.at(g, q)), v.le0(v.at(g, q), v.at(x, n - 1))), on=[g])
    vec = v.choice("vectorised", [False, True]) if not v.sym else False
    U = v.m("util")
    if vec:
        r = v.call(U.interp1d, g, x[None, :], y[None, :], kind)[0]
    elif kind == "linear" and v.choice("dflt", [True, False]):
        r = v.call(U._interp1d, g, x, y)
    else:
        r = v.call(U._interp1d, g, x, y, kind)
    v.ensures("shape", v.and_(len(r.shape) == 1, v.eq(r.shape[0], ng)))

    def ok(q):
        gq, rq = v.at(g, q), v.at(r, q)
        # last knot at or before gq
        lastk = lambda k: v.and_(v.le0(v.at(x, k), gq), v.or_(v.eq(k, n - 1), v.and_(v.le0(k + 1, n - 1), v.gt0(v.at(x, v.ite(v.eq(k, n - 1), k, k + 1)), gq))))
        if kind == "previous":
            return v.any(n, lambda k: v.and_(lastk(k), v.eq(rq, v.at(y, k))))

        def lin(k):
            k1 = v.ite(v.eq(k, n - 1), k, k + 1)
            x0, x1, y0, y1 = v.at(x, k), v.at(x, k1), v.at(y, k), v.at(y, k1)
            if v.sym:
                return v.ite(v.or_(v.eq(k, n - 1), v.eq(x0, gq)), v.eq(rq, y0), v.eq((rq - y0) * (x1 - x0), (y1 - y0) * (gq - x0)))
            if k == n - 1 or x0 == gq:
                return rq == y0
            # rounding in the slope is relative to the distance of the knots
            return v.same(rq, y0 + (y1 - y0) * ((gq - x0) / (x1 - x0)), scale=max(abs(y0), abs(y1), 1e-300))

        return v.any(n, lambda k: v.and_(lastk(k), lin(k)))

    v.ensures_all("value", ng, ok)
    v.unchanged("inputs-unchanged", x, y, g)


@contract("C14", "interp-rejects", [UT + "_interp1d"], n_rand=60, modes="r")
def interp_rejects(v):
    n = v.dim("n", 2)
    x = v.array("x", n, gen=uniq)
    y = v.array("y", n)
    g = grid(v, "g", v.dim("ng", 1), x, inside=True)
    j = v.int("j", 1, n - 1)
    how = v.choice("how", ["nan", "unsorted", "before", "after", "next", "short"])
    kind = v.choice("kind", ["previous", "linear"])
    if how == "nan":
        x[j] = rnp.nan
    elif how == "unsorted":
        x[j - 1], x[j] = x[j], x[j - 1]
    elif how == "before":
        g[0] = x[0] - abs(x[0]) - 1.0
    elif how == "after":
        g[0] = x[-1] + abs(x[-1]) + 1.0
        kind = "linear"
    elif how == "next":
        kind = "next"
    else:
        x, y = x[:1], y[:1]
    v.must_reject(v.run(v.m("util")._interp1d, g, x, y, kind))
