"""C05: empirical Bernstein error bar and test."""
from pyvc.verify import contract, stub, require
from . import spec

ASSUMPTIONS = ["numpy.roots returns the two real roots of a quadratic with a>0>=c (order unspecified)"]
CONF = lambda r: r.choice([0.95, 0.5, 0.99, r.rand()])


def data(v, n, ext=None):
    lower = v.real("lower", gen=lambda r: r.choice([0.0, -1.0, -2.5, 3.0]))
    R = v.real("range", 0.0, gen=lambda r: r.choice([1.0, 2.0, 0.0, 5.5, 1e3]))
    upper = lower + R
    if v.sym:
        x = v.array("x", n, fact=lambda i, t: v.and_(v.le0(lower, v.flt(t)), v.le0(v.flt(t), upper)))
    else:
        x = v.array("x", n, lo=lower, hi=upper)
    return x, lower, upper


@contract("C05", "bernstein_EB", ["mlpaper.mlpaper.bernstein_EB"], n_rand=300)
def bernstein_EB(v):
    n = v.dim("n")
    x, lower, upper = data(v, n)
    conf = v.real("conf", 0.0, 1.0, open="lh", gen=CONF)
    r = v.call(v.m("mlpaper").bernstein_EB, x, lower, upper, conf)
    v.ensures("value", v.same(r, spec.bern_eb(v, x, lower, upper, conf)))
    v.ensures("nonneg", v.le(0.0, r))


@contract("C05", "bernstein_EB.default", ["mlpaper.mlpaper.bernstein_EB"], n_rand=50)
def bernstein_EB_default(v):
    n = v.dim("n", 2)
    x, lower, upper = data(v, n)
    r = v.call(v.m("mlpaper").bernstein_EB, x, lower, upper)
    v.ensures("default-confidence-95", v.same(r, spec.bern_eb(v, x, lower, upper, 0.95)))


@contract("C05", "bernstein_EB.infinite-range", ["mlpaper.mlpaper.bernstein_EB"], n_rand=100)
def bernstein_EB_inf(v):
    n = v.dim("n")
    x = v.array("x", n)
    conf = v.real("conf", 0.0, 1.0, open="lh", gen=CONF)
    r = v.call(v.m("mlpaper").bernstein_EB, x, -float("inf"), float("inf"), conf)
    v.ensures("infinite", v.same(r, float("inf")))


@contract("C05", "bernstein.rejects", ["mlpaper.mlpaper.bernstein_EB", "mlpaper.mlpaper.bernstein_test"], n_rand=400, cases=[{"f": "EB"}, {"f": "test"}])
def rejects(v):
    n = v.dim("n")
    x = v.array("x", n, ext="nan")
    lower = v.ext("lower", ("fin", "-inf"), gen=lambda r: r.choice([-3.0, -10.0, 0.0]))
    upper = v.ext("upper", ("fin", "inf"), gen=lambda r: r.choice([3.0, 10.0, 1.0]))
    f = v.m("mlpaper")
    ok = v.and_(
        v.not_(v.anynan(x)),
        v.le0(0.0, upper - lower),
        v.all(n, lambda i: v.and_(v.le0(lower, v.at(x, i)), v.le0(v.at(x, i), upper))),
    )
    v.assume(v.not_(ok))
    o = v.run(f.bernstein_EB, x, lower, upper, 0.9) if v.case["f"] == "EB" else v.run(f.bernstein_test, x, lower, upper)
    v.must_reject(o)


@contract("C05", "bernstein_test", ["mlpaper.mlpaper.bernstein_test"], n_rand=300, tmo=25000)
def bernstein_test(v):
    n = v.dim("n")
    x, lower, upper = data(v, n)
    r = v.call(v.m("mlpaper").bernstein_test, x, lower, upper)
    v.ensures("range", v.and_(v.le(0.0, r), v.le(r, 1.0)))
    v.ensures("value", v.same(r, spec.bern_p(v, x, lower, upper)))


@contract("C05", "bernstein_test.infinite-range", ["mlpaper.mlpaper.bernstein_test"], n_rand=100)
def bernstein_test_inf(v):
    n = v.dim("n")
    x = v.array("x", n)
    r = v.call(v.m("mlpaper").bernstein_test, x, -float("inf"), float("inf"))
    v.ensures("no-range-no-evidence", v.same(r, 1.0))


def bern_pv(v, a, b, c):
    r = (v.sqrt(b * b + 4.0 * a * c) - b) / (2.0 * a)
    return v.min(1.0, 3.0 * v.exp(-(r * r)))


def bern_lemma(v, a, b, c, conf):
    A = v.log(3.0 / (1.0 - conf))
    return v.implies(
        v.and_(v.gt0(a, 0.0), v.le0(0.0, b), v.le0(0.0, c)),
        v.iff(v.le0(bern_pv(v, a, b, c), 1.0 - conf), v.le0(a * A + b * v.sqrt(A), c)),
    )


@contract("C05", "lemma.quadratic-bound", [], modes="p")
def bern_lemma_proof(v):
    """pure lemma over the reals: the Bernstein bound as a quadratic in sqrt(log(3/delta)) is inverted by its root"""
    a, b, c = v.real("a", 0.0, open="l"), v.real("b", 0.0), v.real("c", 0.0)
    conf = v.real("conf", 0.0, 1.0, open="lh")
    A = v.log(3.0 / (1.0 - conf))
    s = v.sqrt(A)
    d = v.sqrt(b * b + 4.0 * a * c)
    r = (d - b) / (2.0 * a)
    v.ensures("d>=b", v.le0(b, d))
    v.ensures("r>=0", v.le0(0.0, r))
    v.ensures("root", v.same(a * r * r + b * r, c))
    v.ensures("A>=0", v.gt0(A, 0.0))
    v.ensures("s", v.and_(v.le0(0.0, s), v.same(s * s, A)))
    v.ensures("order", v.iff(v.le0(a * A + b * s, c), v.le0(s, r)))
    v.ensures("squares", v.iff(v.le0(s, r), v.le0(A, r * r)))
    e = v.exp(-(r * r))
    v.ensures("exp", v.iff(v.le0(A, r * r), v.le0(3.0 * e, 1.0 - conf)))
    v.ensures("lemma", bern_lemma(v, a, b, c, conf))


@contract(
    "C05", "bernstein_duality", ["mlpaper.mlpaper.bernstein_test", "mlpaper.mlpaper.bernstein_EB"],
    stubs=["mlpaper.mlpaper.bernstein_test", "mlpaper.mlpaper.bernstein_EB"], n_rand=300, transparent=True,
)
def duality(v):
    n = v.dim("n", 2)
    x, lower, upper = data(v, n)
    conf = v.real("conf", 0.0, 1.0, open="lh", gen=lambda r: r.rand())
    v.assume(v.gt0(upper - lower, 0.0))
    m = v.m("mlpaper")
    p, EB = v.call(m.bernstein_test, x, lower, upper), v.call(m.bernstein_EB, x, lower, upper, conf)
    if v.near(p, 1.0 - conf) or v.near(v.abs(spec.mean(v, x)), EB):
        return
    a, b, c = 3.0 * (upper - lower) / n, v.sqrt(spec.var(v, x, 0)) * v.sqrt(2.0 / n), v.abs(spec.mean(v, x))
    v.lemma(bern_lemma(v, a, b, c, conf))
    if v.sym:
        A = v.log(3.0 / (1.0 - conf))
        v.ensures("rewrite-EB", v.same(EB, a * A + b * v.sqrt(A)))
        v.ensures("rewrite-p", v.same(p, bern_pv(v, a, b, c)))
    v.ensures("rejects-iff-interval-excludes-zero", v.iff(v.le(p, 1.0 - conf), v.le(EB, v.abs(spec.mean(v, x)))))


def _pre(v, x, lower, upper):
    n = v.len(x)
    require(v.not_(v.anynan(x)))
    require(v.le0(0.0, upper - lower))
    require(v.all(n, lambda i: v.and_(v.le0(lower, v.at(x, i)), v.le0(v.at(x, i), upper))))


@stub("mlpaper.mlpaper.bernstein_EB")
def _b_EB(v, x, lower, upper, confidence=0.95):
    _pre(v, x, lower, upper)
    require(v.and_(v.gt0(confidence, 0.0), v.gt0(1.0, confidence)))
    return spec.o_bern_eb(v, x, lower, upper, confidence)


@stub("mlpaper.mlpaper.bernstein_test")
def _b_test(v, x, lower, upper):
    _pre(v, x, lower, upper)
    return spec.o_bern_p(v, x, lower, upper)
