"""C03: degenerate samples never produce confident conclusions."""
from pyvc.verify import contract, include, stub, require
from . import spec
from . import C02

INF = float("inf")
F = ["t_EB", "t_test", "bernstein_EB", "bernstein_test", "boot_EB", "boot_test", "_boot_EB_and_test"]


@contract("C03", "degenerate.primitives", ["mlpaper.mlpaper." + f for f in F], cases=[{"fn": f, "why": w} for f in F for w in ("short", "inf")], n_rand=60)
def prim(v):
    if v.case["why"] == "short":
        n = v.choice("n", [0, 1])
        x = v.array("x", n, ext="inf")
    else:
        n = v.dim("n", 1)
        x = v.array("x", n, ext="inf")
        v.assume(v.not_(v.allfin(x)))
    lower = v.ext("lower", ("-inf", "fin"), gen=lambda r: r.choice([-1.0, -100.0]))
    upper = v.ext("upper", ("inf", "fin"), gen=lambda r: r.choice([1.0, 100.0]))
    m, f = v.m("mlpaper"), v.case["fn"]
    if f.startswith("bern"):
        v.assume(v.le0(0.0, upper - lower))
        v.assume(v.all(n, lambda i: v.and_(v.le0(lower, v.at(x, i)), v.le0(v.at(x, i), upper))))
    v.seed()
    if f == "_boot_EB_and_test":
        EB, p, CI = v.call(m._boot_EB_and_test, x)
        v.ensures("no-information", v.and_(v.same(EB, INF), v.same(p, 1.0), v.same(CI[0], -INF), v.same(CI[1], INF)))
        return
    args = {"t_EB": (), "t_test": (), "boot_EB": (), "boot_test": ()}.get(f, (lower, upper))
    r = v.call(getattr(m, f), x, *args)
    if f.endswith("test"):
        v.ensures("p=1", v.same(r, 1.0))
    elif f == "bernstein_EB":
        v.ensures("EB=range", v.same(r, upper - lower))
    else:
        v.ensures("EB=inf", v.same(r, INF))


STUBS = C02.STUBS + ["mlpaper.mlpaper." + f for f in ("boot_EB", "boot_test", "_boot_EB_and_test")]


def boot_pre(v, x):
    require(v.not_(v.anynan(x)))


# what the front ends may assume of the bootstrap routines on degenerate samples (proved by degenerate.primitives)
@stub("mlpaper.mlpaper.boot_EB")
def _boot_EB(v, x, confidence=0.95, n_boot=1000):
    boot_pre(v, x)
    return v.opaque("boot_eb", None, (x, confidence, n_boot), lo=0, inf=True, facts=lambda v, r: v.implies(spec.degenerate(v, x), v.eq(r, INF)))


@stub("mlpaper.mlpaper.boot_test")
def _boot_test(v, x, n_boot=1000):
    boot_pre(v, x)
    return v.opaque("boot_p", None, (x, n_boot), lo=0, hi=1, facts=lambda v, r: v.implies(spec.degenerate(v, x), v.eq(r, 1.0)))


@stub("mlpaper.mlpaper._boot_EB_and_test")
def _boot_both(v, x, confidence=0.95, n_boot=1000, return_EB=True, return_test=True, return_CI=False):
    EB = _boot_EB(v, x, confidence, n_boot)
    p = _boot_test(v, x, n_boot)
    return (EB, p, None)


CASES = [{"method": m, "fn": f, "why": w} for m in ("t", "bernstein", "boot") for f in ("get_mean_and_EB", "get_test", "get_mean_EB_test") for w in ("short", "inf")]


@contract("C03", "degenerate.front-ends", C02.M, cases=CASES, stubs=STUBS, n_rand=60)
def front(v):
    lower, upper = C02.limits(v)
    why, m, f, meth = v.case["why"], v.m("mlpaper"), v.case["fn"], v.case["method"]
    if why == "short":
        n = 1
        x = C02.data(v, n, lower, upper)
    else:
        n = v.dim("n", 1)
        x = v.array("x", n, ext="inf")
        v.assume(v.not_(v.allfin(x)))
        v.assume(v.all(n, lambda i: v.and_(v.le0(lower, v.at(x, i)), v.le0(v.at(x, i), upper))))
        # +inf and -inf together have no mean
        v.assume(v.not_(v.and_(v.any(n, lambda i: v.eq(v.at(x, i), INF)), v.any(n, lambda i: v.eq(v.at(x, i), -INF)))))
    v.seed()
    EB = p = None
    if f == "get_mean_and_EB":
        mu, EB = v.call(m.get_mean_and_EB, x, lower=lower, upper=upper, method=meth)
    elif f == "get_test":
        p = v.call(m.get_test, x, lower=lower, upper=upper, method=meth)
    else:
        mu, EB, p = v.call(m.get_mean_EB_test, x, lower=lower, upper=upper, method=meth)
    if EB is not None:
        t = spec.eb_trivial(v, mu, lower, upper)
        v.ensures("trivial-EB", v.same(EB, t))
        if why == "short":
            v.ensures("mean", v.same(mu, v.at(x, 0)))
    if p is not None:
        v.ensures("p=1", v.same(p, 1.0))


@contract("C03", "nan-rejected", ["mlpaper.mlpaper." + f for f in F] + C02.M, cases=[{"fn": f} for f in F + ["get_mean_and_EB", "get_test", "get_mean_EB_test"]], n_rand=60)
def nan(v):
    n = v.dim("n", 1)
    x = v.array("x", n, ext="any")
    v.assume(v.anynan(x))
    m, f = v.m("mlpaper"), v.case["fn"]
    v.seed()
    if f.startswith("bern"):
        v.must_reject(v.run(getattr(m, f), x, -INF, INF))
    elif f.startswith("get_"):
        meth = v.choice("method", ["t", "bernstein", "boot"])
        v.must_reject(v.run(getattr(m, f), x, method=meth))
    else:
        v.must_reject(v.run(getattr(m, f), x))
