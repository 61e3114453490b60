"""C24: tie-breaking noise."""
from pyvc.verify import contract

F = ["mlpaper.util.epsilon_noise"]


def gen(r, sh):
    st = r.randint(6)
    if st == 0:
        return r.randint(-3, 4, size=sh)
    if st == 1:
        return r.randn(*sh)
    if st == 2:
        return r.choice([0.0, 1e-9, 1.0, 1.0 + 1e-9, -5.0, 1e6], size=sh)
    if st == 3:
        return 2.0 + 0.0 * r.rand(*sh)
    if st == 4:
        return r.randint(0, 3, size=sh) * 10.0 ** r.randint(-6, 6)
    return -(2.0 ** r.randint(-20, 20, size=sh))


def setup(v):
    n = v.dim("n", 0)
    x = v.array("x", n, gen=gen)
    kw = {}
    if v.case["opt"]:
        kw["default_epsilon"] = v.real("eps", 0.0, open="l", gen=lambda r: 10.0 ** r.randint(-10, 4))
        kw["max_epsilon"] = v.real("max_eps", 0.0, open="l", gen=lambda r: 10.0 ** r.randint(-10, 4))
    mx = kw.get("max_epsilon", 1.0)
    v.seed()
    if not v.sym:
        x0 = x.copy()
        # floats must resolve the noise
        u = v.np.unique(x)
        gap = min(v.np.diff(u).min() if len(u) > 1 else kw.get("default_epsilon", 1e-10), mx)
        v.assume(gap > 1e-13 * max(1.0, abs(x).max() if n else 1.0))
    r = v.call(v.m("util").epsilon_noise, x, **kw)
    v.ensures("shape", v.and_(len(r.shape) == 1, v.eq(r.shape[0], n)))
    v.unchanged("frame", x)
    if not v.sym:
        v.ensures("input-unchanged", bool((x == x0).all()))
    return n, x, r, mx, kw.get("default_epsilon", 1e-10)


CASES = [{"opt": False}, {"opt": True}]


@contract("C24", "order", F, cases=CASES, n_rand=300)
def order(v):
    n, x, r, mx, eps = setup(v)
    if v.sym:
        i = v.int("i", 0, n - 1)
        j = v.int("j", 0, n - 1)
        v.ensures("order-kept", v.implies(v.lt(v.at(x, i), v.at(x, j)), v.lt(v.at(r, i), v.at(r, j))))
    else:
        v.ensures("order-kept", all(r[i] < r[j] for i in range(n) for j in range(n) if x[i] < x[j]))


@contract("C24", "size", F, cases=CASES, n_rand=300)
def size(v):
    n, x, r, mx, eps = setup(v)
    if v.sym:
        i = v.int("i", 0, n - 1)
        j = v.int("j", 0, n - 1)
        k = v.int("k", 0, n - 1)
        d = v.abs(v.at(r, i) - v.at(x, i))
        v.ensures("at-most-half-the-maximum", v.le(2.0 * d, mx))
        v.ensures("at-most-half-any-gap", v.implies(v.lt(v.at(x, j), v.at(x, k)), v.le(2.0 * d, v.at(x, k) - v.at(x, j))))
        v.ensures("default-when-constant", v.implies(v.all(n, lambda q: v.eq(v.at(x, q), v.at(x, i))), v.le(2.0 * d, eps)))
    else:
        u = v.np.unique(x)
        gap = v.np.diff(u).min() if len(u) > 1 else eps
        tol = 4e-16 * (abs(x).max() if n else 1.0)
        v.ensures("at-most-half-the-gap", all(2 * abs(r[i] - x[i]) <= min(gap, mx) * (1 + 1e-9) + tol for i in range(n)))


@contract("C24", "breaks-ties", F, modes="r", cases=CASES, n_rand=100)
def ties(v):
    """all values distinct (probability one; the gap is far above the float resolution)"""
    n, x, r, mx, eps = setup(v)
    u = v.np.unique(x)
    gap = min(v.np.diff(u).min() if len(u) > 1 else eps, mx)
    v.assume(gap > 1e-8 * max(1.0, abs(x).max() if n else 1.0))
    v.ensures("distinct", len(set(r.tolist())) == n)


@contract("C24", "rejects", F, cases=[{"why": "inf"}, {"why": "2d"}], n_rand=30)
def rejects(v):
    if v.case["why"] == "2d":
        x = v.array("x", (v.dim("n", 1), v.dim("m", 1)))
    else:
        x = v.array("x", v.dim("n", 1), ext="any")
        v.assume(v.not_(v.allfin(x)))
    v.must_reject(v.run(v.m("util").epsilon_noise, x))
