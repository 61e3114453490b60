"""C02: mean / error bar / p-value front ends agree with the chosen method and with each other."""
from pyvc.verify import contract, include
from . import spec
from . import C01, C04, C05  # noqa: F401

INF = float("inf")
STUBS = ["mlpaper.mlpaper." + f for f in ("t_EB", "t_test", "bernstein_EB", "bernstein_test", "clip_EB")] + ["mlpaper.util.clip_chk"]
M = ["mlpaper.mlpaper.get_mean_and_EB", "mlpaper.mlpaper.get_test", "mlpaper.mlpaper.get_mean_EB_test"]


def limits(v):
    lower = v.ext("lower", ("fin", "-inf"), gen=lambda r: r.choice([0.0, -1.0, -3.5, 2.0]))
    if isinstance(lower, float) and lower == -INF:
        upper = v.ext("upper", ("inf", "fin"), gen=lambda r: r.choice([0.0, 1.0, 4.0]))
    else:
        k = v.choice("upper:kind", ("fin", "inf"))
        upper = INF if k == "inf" else lower + v.real("range", 0.0, gen=lambda r: r.choice([0.0, 1.0, 2.0, 7.25]))
    v.bounds(lower, upper)
    return lower, upper


def data(v, n, lower, upper):
    if v.sym:
        return v.array("x", n, fact=lambda i, t: v.and_(v.le0(lower, v.flt(t)), v.le0(v.flt(t), upper)))
    return v.array("x", n, lo=None if lower == -INF else lower, hi=None if upper == INF else upper)


def eb_spec(v, method, x, conf, lower, upper):
    return spec.o_t_eb(v, x, conf) if method == "t" else spec.o_bern_eb(v, x, lower, upper, conf)


def p_spec(v, method, x, lower, upper):
    return spec.o_t_p(v, x) if method == "t" else spec.o_bern_p(v, x, lower, upper)


CASES = [{"method": m, "fn": f} for m in ("t", "bernstein") for f in ("get_mean_and_EB", "get_test", "get_mean_EB_test")]


@contract("C02", "front-ends", M, cases=CASES, stubs=STUBS, n_rand=250)
def front(v):
    n = v.dim("n", 1)
    lower, upper = limits(v)
    x = data(v, n, lower, upper)
    conf = v.real("conf", 0.0, 1.0, open="lh", gen=C05.CONF)
    min_EB = v.real("min_EB", 0.0, gen=lambda r: r.choice([0.0, 0.0, 0.1, 0.5]))
    v.assume(v.not_(v.gt0(2 * min_EB, upper - lower)))
    m, f, meth = v.m("mlpaper"), v.case["fn"], v.case["method"]
    mu = EB = p = None
    if f == "get_mean_and_EB":
        mu, EB = v.call(m.get_mean_and_EB, x, conf, min_EB, lower, upper, meth)
    elif f == "get_test":
        p = v.call(m.get_test, x, lower, upper, meth)
    else:
        mu, EB, p = v.call(m.get_mean_EB_test, x, conf, min_EB, lower, upper, meth)
    mean = spec.mean(v, x)
    if mu is not None:
        v.ensures("mean", v.same(mu, mean))
        v.ensures("EB", v.same(EB, spec.clip_eb(v, mean, eb_spec(v, meth, x, conf, lower, upper), lower, upper, min_EB)))
        v.ensures("EB>=min_EB", v.le(min_EB, EB))
        v.ensures("EB-informative", v.le(EB, spec.eb_trivial(v, mean, lower, upper)))
    if p is not None:
        v.ensures("p", v.same(p, p_spec(v, meth, x, lower, upper)))
        v.ensures("p-range", v.and_(v.le(0.0, p), v.le(p, 1.0)))
    v.unchanged("frame", x)


@contract("C02", "front-ends.defaults", M, stubs=STUBS, n_rand=60)
def defaults(v):
    n = v.dim("n", 1)
    x = v.array("x", n)
    m = v.m("mlpaper")
    mu, EB = v.call(m.get_mean_and_EB, x)
    p = v.call(m.get_test, x)
    mu2, EB2, p2 = v.call(m.get_mean_EB_test, x)
    e = spec.o_t_eb(v, x, 0.95)
    v.ensures("t-95-unlimited", v.and_(v.same(EB, e), v.same(EB2, e)))
    v.ensures("mean", v.and_(v.same(mu, spec.mean(v, x)), v.same(mu2, spec.mean(v, x))))
    v.ensures("p", v.and_(v.same(p, spec.o_t_p(v, x)), v.same(p2, spec.o_t_p(v, x))))


@contract("C02", "front-ends.reject", M, cases=[{"fn": f, "method": m} for f in ("get_mean_and_EB", "get_mean_EB_test") for m in ("t", "bernstein", "boot", "typo")], n_rand=150)
def reject(v):
    n = v.dim("n", 1)
    lower = v.ext("lower", ("fin", "-inf"), gen=lambda r: r.choice([-1.0, 0.0, -5.0]))
    upper = v.ext("upper", ("fin", "inf"), gen=lambda r: r.choice([1.0, 2.0, 5.0]))
    x = v.array("x", n, ext="any")
    meth = v.case["method"]
    if meth != "typo":
        v.assume(v.not_(v.all(n, lambda i: v.and_(v.le0(lower, v.at(x, i)), v.le0(v.at(x, i), upper)))))
    v.must_reject(v.run(getattr(v.m("mlpaper"), v.case["fn"]), x, 0.95, 0.0, lower, upper, meth))


include("C02", "C01")
include("C02", "C04")
include("C02", "C05")
