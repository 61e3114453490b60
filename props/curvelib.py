"""Specification of the binary count curves shared by C12, C13, C15."""
import numpy as rnp
from pyvc.verify import stub, require, SymEnv

PC = "mlpaper.perf_curves."
CC = PC + "_binary_clf_curve"
AP = PC + "_add_pseudo_points"
INF = float("inf")
EPS = 1e-10


def scores(r, sh):
    st = r.randint(5)
    if st == 0:
        return r.randint(0, 3, size=sh)
    if st == 1:
        return r.randn(*sh)
    if st == 2:
        return r.choice([0.0, 1e-12, 1.0, 1.0 + 3e-16, -1e300, 1e300], size=sh)
    if st == 3:
        return r.rand(*sh) * (r.rand(*sh) < 0.5)
    return r.rand() + 0.0 * r.randn(*sh)


def wgen(r, sh):
    st = r.randint(4)
    if st == 0:
        return r.rand(*sh) + 1e-6
    if st == 1:
        return rnp.maximum(r.poisson(1.0, size=sh), 1e-10)
    if st == 2:
        return rnp.tile(r.choice([1.0, 2.0, 0.5]), sh)
    return r.choice([1.0, 2.0, 3.0, 1e-10, 0.5], size=sh)


def setup(v, lo=1):
    n = v.dim("n", lo, small=None if lo == 0 else [1, 2] if v.case.get("w") else [1, 2, 3])
    y = v.array("y", n, kind="b")
    s = v.array("s", n, gen=scores)
    if v.case.get("w"):
        nb = v.dim("n_boot", 1, small=[1, 2], hi=None if v.sym else 5)
        w = v.array("w", (nb, n), lo=0.0, open="l", gen=wgen)
        W = lambda b, i: v.at(w, b, i)
    else:
        nb, w = 1, None
        W = lambda b, i: 1.0
    return n, nb, y, s, w, W


def npos(v, n, y, W, b, c=None):
    return v.sum(n, lambda i: v.ite(v.at(y, i) if c is None else v.and_(v.at(y, i), c(i)), W(b, i), 0.0))


def nneg(v, n, y, W, b, c=None):
    return v.sum(n, lambda i: v.ite(v.not_(v.at(y, i)) if c is None else v.and_(v.not_(v.at(y, i)), c(i)), W(b, i), 0.0))


def tp(v, n, y, s, W, b, thr):
    """weight of positives with score >= thr; a class that is absent is replaced by EPS times the other"""
    ge = lambda i: v.le0(thr, v.at(s, i))
    P = npos(v, n, y, W, b, ge)
    if v.sym:
        return v.ite(v.any(n, lambda i: v.at(y, i)), P, EPS * nneg(v, n, y, W, b, ge))
    return P if any(y) else EPS * nneg(v, n, y, W, b, ge)


def fp(v, n, y, s, W, b, thr):
    ge = lambda i: v.le0(thr, v.at(s, i))
    N = nneg(v, n, y, W, b, ge)
    if v.sym:
        return v.ite(v.all(n, lambda i: v.at(y, i)), EPS * npos(v, n, y, W, b, ge), N)
    return EPS * npos(v, n, y, W, b, ge) if all(y) else N


def sc(v, w, b, n):
    """run time: rounding of the cumulative sums is relative to the total weight"""
    return {} if v.sym else {"scale": 1e-6 * (float(n) if w is None else float(w[b].sum()))}


def thresholds(v, thr, n, s):
    m = thr.shape[0]
    v.ensures("first-threshold-infinite", v.eq(v.at(thr, 0), INF))
    v.ensures_all("thresholds-decrease", m - 1, lambda t: v.gt0(v.at(thr, t), v.at(thr, t + 1)))
    v.ensures_all("thresholds-are-scores", m - 1, lambda t: v.any(n, lambda i: v.eq(v.at(s, i), v.at(thr, t + 1))))
    v.ensures_all("every-score-is-a-threshold", n, lambda i: v.any(m - 1, lambda t: v.eq(v.at(s, i), v.at(thr, t + 1))))


class Counts:
    """the counts (FP(b,t), TP(b,t)) at the thresholds of the curve, m of them.
    proof: those of the contract of _binary_clf_curve; run time: counted independently, one threshold at a time"""

    def __init__(self, v, n, nb, y, s, w, W):
        self.v, self.nb, self.n, self.w = v, nb, n, w
        if v.sym:
            self.F, self.T, self.thr = v.call(v.m("perf_curves")._binary_clf_curve, y, s, w)
            self.m = self.thr.shape[0]
        else:
            u = sorted(set(float(x) for x in s), reverse=True)
            self.thr = rnp.array([INF] + u)
            self.m = len(u) + 1
            self.F = rnp.array([[fp(v, n, y, s, W, b, t) for t in self.thr] for b in range(nb)])
            self.T = rnp.array([[tp(v, n, y, s, W, b, t) for t in self.thr] for b in range(nb)])
            self.tot = rnp.array([float(n) if w is None else float(sum(w[b])) for b in range(nb)])

    def fp(self, b, t):
        return self.v.at(self.F, b, t)

    def tp(self, b, t):
        return self.v.at(self.T, b, t)

    def N(self, b):
        return self.v.at(self.F, b, self.m - 1)

    def P(self, b):
        return self.v.at(self.T, b, self.m - 1)

    def tol(self, b):
        """run time: absolute rounding error that a count carries (cumulative sums, subtraction)"""
        return 1e-13 * self.tot[b]


@stub(CC)
def clf_stub(v, y, s, w=None, **k):
    import z3
    from pyvc import verify as V, red, npf
    from pyvc.core import SInt, SFlt, ctx, intt, mkint, mkbool
    from pyvc.arr import SArr

    if "sample_weight" in k:
        w = k.pop("sample_weight")
    require(not k)
    np = npf.np
    require(y.ndim == 1 and y.kind == "b")
    require(s.shape == y.shape and np.all(np.isfinite(s)))
    require(y.shape[0] >= 1)
    nb = 1
    if w is not None:
        require(w.ndim == 2 and w.shape[1] == y.shape[0] and w.shape[0] >= 1)
        require(np.all(np.isfinite(w)) and np.all(w > 0))
        nb = w.shape[0]
    key = ("clf", V._okey(y), V._okey(s), None if w is None else V._okey(w))
    i = V.OPAQUE.setdefault(key, (len(V.OPAQUE), (y, s, w)))[0]
    conc = not V.is_sym(y.shape[0])
    m = SInt(z3.Int("clf%d:m" % i))
    ctx().assume(m.t >= 2)
    ctx().assume(m.t <= intt(y.shape[0]) + 1)
    zero = lambda b, t, val: z3.Implies(t == 0, val == 0)
    F = v.array("clf%d:fps" % i, (nb, m), lo=0.0, fact=zero)
    T = v.array("clf%d:tps" % i, (nb, m), lo=0.0, fact=zero)
    H = v.array("clf%d:thr" % i, (m,))
    del v.consts[:]
    b, t = z3.Int("?qb"), z3.Int("?qt")
    fF = lambda b, t: F.at(b, t).v
    fT = lambda b, t: T.at(b, t).v
    rng = z3.And(b >= 0, b < intt(nb), t >= 0, t < m.t)
    last = m.t - 1
    red.add_forall([b, t], z3.Implies(rng, z3.And(fF(b, t) <= fF(b, last), fT(b, t) <= fT(b, last), fF(b, last) > 0, fT(b, last) > 0)), [F.tag, T.tag])
    red.add_forall([b, t], z3.Implies(z3.And(rng, t >= 1), z3.And(fF(b, t) + fT(b, t) > 0, fF(b, t - 1) <= fF(b, t), fT(b, t - 1) <= fT(b, t))), [F.tag, T.tag])
    red.add_forall([b, t], z3.Implies(z3.And(rng, t < last), z3.And(fF(b, t) <= fF(b, t + 1), fT(b, t) <= fT(b, t + 1))), [F.tag, T.tag])
    red.add_forall([b, t], z3.Implies(z3.And(rng, t == 0, m.t > 1), fF(b, 1) + fT(b, 1) > 0), [F.tag, T.tag])
    Hx = SArr((m,), lambda t: SFlt(H.at(t).v, pinf=(t == 0)), "f")
    return F, T, Hx
