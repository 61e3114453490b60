"""C06: bootstrap interval primitives."""
from pyvc.verify import contract, stub, require
from . import spec

INF = float("inf")
B = ["mlpaper.boot_util." + f for f in ("boot_weights", "confidence_to_percentiles", "percentile", "basic", "error_bar", "significance")]
CONF = lambda r: r.choice([0.95, 0.5, 0.9, 0.99, 0.999, 0.8, 0.1, r.rand()])
EXT = lambda v: None if v.sym else "inf"
ASSUMPTIONS = ["numpy.random.multinomial returns nonnegative integer counts summing to N; numpy.percentile(lower/higher) returns order statistics"]


def conf_(v):
    return v.real("conf", 0.0, 1.0, open="lh", gen=CONF)


def q_lo(v, n, conf):
    return (1.0 - conf) / 2.0 * (n - 1)


def q_hi(v, n, conf):
    return (1.0 - (1.0 - conf) / 2.0) * (n - 1)


@contract("C06", "boot_weights", [B[0]], cases=[{"eps": False}, {"eps": True}], n_rand=60)
def boot_weights(v):
    N, nb = v.dim("N", 1), v.dim("n_boot", 1)
    v.seed()
    m = v.m("boot_util")
    if v.case["eps"]:
        eps = v.real("eps", 0.0, 1.0, gen=lambda r: r.choice([0.0, 1e-10, 0.5, 1.0]))
        w = v.call(m.boot_weights, N, nb, eps)
    else:
        eps = 0.0
        w = v.call(m.boot_weights, N, nb)
    v.ensures("shape", v.and_(v.eq(w.shape[0], nb), v.eq(w.shape[1], N), len(w.shape) == 2))
    v.ensures_all("at-least-epsilon", nb, lambda b: v.all(N, lambda i: v.le0(eps, v.at(w, b, i))))
    if not v.case["eps"]:
        v.ensures_all("replicates-have-N-cases", nb, lambda b: v.same(v.sum(N, lambda i: v.at(w, b, i)), N))
    if v.sym:
        for c, n, NN, Bn, p in v.notes("multinom"):
            cnt = lambda b, i: v.int_term(c(b.t if hasattr(b, "t") else b, i.t if hasattr(i, "t") else i))
            v.ensures_all("count-or-epsilon", nb, lambda b: v.all(N, lambda i: v.same(v.at(w, b, i), v.max(eps, cnt(b, i)))))

            def atleast(b):
                v.mention(v.sum(N, lambda i: cnt(b, i)))
                return v.le(v.flt(N), v.sum(N, lambda i: v.at(w, b, i)))

            v.ensures_all("at-least-N", nb, atleast)
            return
    v.ensures_all("count-or-epsilon", nb, lambda b: v.all(N, lambda i: v.or_(v.eq(v.at(w, b, i), eps), v.is_int(v.at(w, b, i)))))
    v.ensures_all("at-least-N", nb, lambda b: v.le(v.flt(N), v.sum(N, lambda i: v.at(w, b, i))))


@contract("C06", "boot_weights.distribution", [B[0]], n_rand=8)
def distribution(v):
    """every case is equally likely in every draw"""
    N = v.dim("N", 1, hi=None if v.sym else 9)
    m = v.m("boot_util")
    v.seed()
    if v.sym:
        nb = v.dim("n_boot", 1)
        v.call(m.boot_weights, N, nb)
        for w, n, NN, Bn, p in v.notes("multinom"):
            v.ensures_all("uniform", n, lambda i: v.same(v.at(p, i) * N, 1.0))
            v.ensures("N-draws", v.and_(v.eq(NN, N), v.eq(n, N)))
        return
    nb = 4000
    w = v.call(m.boot_weights, N, nb)
    mean, var = w.mean(axis=0), w.var(axis=0)
    tv = 1.0 - 1.0 / N
    v.ensures("uniform", bool((abs(mean - 1.0) < 7 * (tv / nb) ** 0.5 + 1e-12).all()))
    v.ensures("N-draws", bool((abs(var - tv) < 0.5 * tv + 1e-12).all()))


@contract("C06", "confidence_to_percentiles", [B[1]], n_rand=300)
def c2p(v):
    c = v.ext("conf", ("fin", "nan", "inf", "-inf"), gen=lambda r: r.choice([0.95, 0.0, 1.0, -0.5, 1.5, r.rand(), r.rand()]))
    ok = v.and_(v.gt0(c, 0.0), v.gt0(1.0, c))
    o = v.run(v.m("boot_util").confidence_to_percentiles, c)
    v.outcome_pre(o, ok)
    LB, UB = o.value
    v.ensures("lower", v.same(LB, 50.0 * (1.0 - c)))
    v.ensures("upper", v.same(UB, 50.0 * (1.0 + c)))
    v.ensures("ordered", v.and_(v.lt(LB, UB), v.lt(0.0, LB), v.lt(UB, 100.0)))


@contract("C06", "percentile", [B[2]], stubs=[B[1]], n_rand=300)
def percentile(v):
    n = v.dim("n", 1)
    x = v.array("x", n, ext=EXT(v))
    conf = conf_(v)
    LB, UB = v.call(v.m("boot_util").percentile, x, conf)
    v.ensures("lower-order-statistic", v.order_stat(LB, n, lambda i: v.at(x, i), q_lo(v, n, conf), "lower"))
    v.ensures("upper-order-statistic", v.order_stat(UB, n, lambda i: v.at(x, i), q_hi(v, n, conf), "higher"))
    v.ensures("ordered", v.le0(LB, UB))
    v.unchanged("frame", x)


@contract("C06", "percentile.columns", [B[2]], stubs=[B[1]], n_rand=200)
def percentile2(v):
    n, k = v.dim("n", 1), v.dim("k", 0)
    x = v.array("x", (n, k), ext=EXT(v))
    conf = conf_(v)
    LB, UB = v.call(v.m("boot_util").percentile, x, conf)
    v.ensures("shape", v.and_(len(LB.shape) == 1, len(UB.shape) == 1, v.eq(LB.shape[0], k), v.eq(UB.shape[0], k)))
    v.ensures_all("lower-order-statistic", k, lambda j: v.order_stat(v.at(LB, j), n, lambda i: v.at(x, i, j), q_lo(v, n, conf), "lower"))
    v.ensures_all("upper-order-statistic", k, lambda j: v.order_stat(v.at(UB, j), n, lambda i: v.at(x, i, j), q_hi(v, n, conf), "higher"))


@contract("C06", "basic", [B[3]], stubs=[B[1]], n_rand=300)
def basic(v):
    n = v.dim("n", 1)
    x = v.array("x", n, ext=EXT(v))
    conf = conf_(v)
    o = v.real("orig")
    LB, UB = v.call(v.m("boot_util").basic, x, o, conf)
    v.ensures("upper-reflected", v.order_stat(2 * o - UB, n, lambda i: v.at(x, i), q_lo(v, n, conf), "lower") if v.sym else _refl(v, UB, o, x, n, q_lo(v, n, conf), "lower"))
    v.ensures("lower-reflected", v.order_stat(2 * o - LB, n, lambda i: v.at(x, i), q_hi(v, n, conf), "higher") if v.sym else _refl(v, LB, o, x, n, q_hi(v, n, conf), "higher"))
    v.ensures("ordered", v.le(LB, UB))


def _refl(v, r, o, x, n, pos, how):
    return any(v.same(r, 2 * o - u) for u in cand(v, x, n, pos, how))


def cand(v, x, n, pos, how):
    """run time: the order statistics a rounding of pos may select"""
    import math

    s = sorted(float(t) for t in x)
    fl = math.floor if how == "lower" else math.ceil
    return {s[min(max(fl(pos + d), 0), n - 1)] for d in (-1e-7, 0.0, 1e-7)}


@contract("C06", "basic.columns", [B[3]], stubs=[B[1]], n_rand=150)
def basic2(v):
    n, k = v.dim("n", 1), v.dim("k", 0)
    x = v.array("x", (n, k))
    o = v.array("orig", k)
    conf = conf_(v)
    LB, UB = v.call(v.m("boot_util").basic, x, o, conf)
    f = lambda j: (lambda i: v.at(x, i, j))
    if v.sym:
        v.ensures_all("upper-reflected", k, lambda j: v.order_stat(2 * v.at(o, j) - v.at(UB, j), n, f(j), q_lo(v, n, conf), "lower"))
        v.ensures_all("lower-reflected", k, lambda j: v.order_stat(2 * v.at(o, j) - v.at(LB, j), n, f(j), q_hi(v, n, conf), "higher"))
    else:
        v.ensures_all("upper-reflected", k, lambda j: _refl(v, UB[j], o[j], x[:, j], n, q_lo(v, n, conf), "lower"))
        v.ensures_all("lower-reflected", k, lambda j: _refl(v, LB[j], o[j], x[:, j], n, q_hi(v, n, conf), "higher"))


@contract("C06", "error_bar", [B[4]], stubs=[B[1]], n_rand=400)
def error_bar(v):
    n = v.dim("n", 1)
    x = v.array("x", n, ext=EXT(v))
    conf = conf_(v)
    o = v.real("orig")
    e = v.call(v.m("boot_util").error_bar, x, o, conf)
    if v.sym:
        f = lambda i: v.at(x, i)
        import z3

        LB = v.kth(n, f, v.floor(q_lo(v, n, conf)))
        UB = v.kth(n, f, v.ceil(q_hi(v, n, conf)))
        v.ensures("value", v.same(e, v.max(UB - o, o - LB)))
        v.ensures("covers-percentile-interval", v.and_(v.le(o - e, LB), v.le(UB, o + e)))
    else:
        v.ensures("value", any(v.same(e, max(u - o, o - l)) for l in cand(v, x, n, q_lo(v, n, conf), "lower") for u in cand(v, x, n, q_hi(v, n, conf), "higher")))
    v.ensures("nonneg", v.le0(0.0, e))


def frac(v, n, f):
    return v.isum(n, lambda i: v.ite(f(i), 1, 0)) / n


@contract("C06", "significance", [B[5]], cases=[{"ref": "scalar"}, {"ref": "array"}], n_rand=300)
def significance(v):
    n = v.dim("n", 1)
    x = v.array("x", n, ext=EXT(v), gen=None)
    if v.case["ref"] == "scalar":
        ref = v.real("ref", gen=lambda r: r.choice([0.0, 1.0, -1.0, r.randn()]))
        g = lambda i: ref
    else:
        ref = v.array("ref", n, ext=EXT(v))
        g = lambda i: v.at(ref, i)
    p = v.call(v.m("boot_util").significance, x, ref)
    a = frac(v, n, lambda i: v.le0(v.at(x, i), g(i)))
    b = frac(v, n, lambda i: v.le0(g(i), v.at(x, i)))
    v.ensures("value", v.same(p, v.min(1.0, 2.0 * v.min(a, b))))
    v.ensures("range", v.and_(v.le0(0.0, p), v.le0(p, 1.0)))


@contract("C06", "coherent", [B[2], B[5]], n_rand=400)
def coherent(v):
    """a reference outside the percentile interval always has p < 1 - confidence"""
    n = v.dim("n", 1)
    x = v.array("x", n)
    conf = conf_(v)
    ref = v.real("ref", gen=lambda r: r.choice([0.0, 1.0, -1.0, r.randn()]))
    m = v.m("boot_util")
    LB, UB = v.call(m.percentile, x, conf)
    p = v.call(m.significance, x, ref)
    f = lambda i: v.at(x, i)
    v.order_stat_lemma(n, f, q_lo(v, n, conf), "lower", ref)
    v.order_stat_lemma(n, f, q_hi(v, n, conf), "higher", ref)
    v.mention(v.isum(n, lambda i: v.ite(v.gt0(ref, f(i)), 1, 0)))
    v.ensures("below", v.implies(v.gt0(LB, ref), v.lt(p, 1.0 - conf)))
    ge = v.isum(n, lambda i: v.ite(v.le0(ref, f(i)), 1, 0))
    v.step("above-count", v.implies(v.gt0(ref, UB), v.le(ge, (n - 1) * ((1.0 - conf) / 2.0))))
    v.step("above-half", v.implies(v.gt0(ref, UB), v.lt(2.0 * ge, n * (1.0 - conf))))
    v.step("above-p", v.le(p, 2.0 * (ge / n)))
    v.ensures("above", v.implies(v.gt0(ref, UB), v.lt(p, 1.0 - conf)))


@contract("C06", "nan-rejected", B[2:], cases=[{"fn": f} for f in ("percentile", "basic", "error_bar", "significance")], n_rand=60)
def nan(v):
    n = v.dim("n", 1)
    x = v.array("x", n, ext="nan")
    v.assume(v.anynan(x))
    f = getattr(v.m("boot_util"), v.case["fn"])
    v.must_reject(v.run(f, x) if v.case["fn"] == "percentile" else v.run(f, x, 0.0))


@contract("C06", "defaults-95", B[2:5], n_rand=60)
def defaults(v):
    n = v.dim("n", 1)
    x = v.array("x", n)
    o = v.real("orig")
    m = v.m("boot_util")
    a, b = v.call(m.percentile, x), v.call(m.percentile, x, 0.95)
    c, d = v.call(m.basic, x, o), v.call(m.basic, x, o, 0.95)
    e, f = v.call(m.error_bar, x, o), v.call(m.error_bar, x, o, 0.95)
    v.ensures("percentile", v.and_(v.same(a[0], b[0]), v.same(a[1], b[1])))
    v.ensures("basic", v.and_(v.same(c[0], d[0]), v.same(c[1], d[1])))
    v.ensures("error_bar", v.same(e, f))


@stub(B[1])
def _c2p(v, confidence):
    require(v.and_(v.gt0(confidence, 0.0), v.gt0(1.0, confidence)))
    return 50.0 * (1.0 - confidence), 50.0 * (1.0 + confidence)
