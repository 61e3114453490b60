"""C12: binary count curves and ROC."""
from pyvc.verify import contract
from props.curvelib import *  # noqa: F401,F403
from props.curvelib import setup, thresholds, tp, fp, sc, Counts, CC, AP, PC

CASES = [{"w": False}, {"w": True}]


@contract("C12", "thresholds", [CC, AP], cases=CASES[1:], n_rand=200, max_paths=400, modes="br")
@contract("C12", "thresholds", [CC, AP], cases=CASES[:1], n_rand=200, max_paths=400, budget=120)
def thr_(v):
    n, nb, y, s, w, W = setup(v)
    fps, tps, thr = v.call(v.m("perf_curves")._binary_clf_curve, y, s, w)
    m = thr.shape[0]
    v.ensures("shape", v.and_(len(fps.shape) == 2, len(tps.shape) == 2, len(thr.shape) == 1, v.eq(fps.shape[0], nb), v.eq(tps.shape[0], nb), v.eq(fps.shape[1], m), v.eq(tps.shape[1], m), v.le0(2, m)))
    v.ensures("first-threshold-infinite", v.eq(v.at(thr, 0), INF))
    v.ensures_all("thresholds-decrease", m - 1, lambda t: v.gt0(v.at(thr, t), v.at(thr, t + 1)))
    v.ensures_all("thresholds-are-scores", m - 1, lambda t: v.any(n, lambda i: v.eq(v.at(s, i), v.at(thr, t + 1))))
    v.ensures_all("starts-at-zero", nb, lambda b: v.and_(v.eq(v.at(fps, b, 0), 0.0), v.eq(v.at(tps, b, 0), 0.0)))


@contract("C12", "count-facts", [CC, AP], cases=CASES, n_rand=100, max_paths=400, modes="br")
def count_facts(v):
    n, nb, y, s, w, W = setup(v)
    fps, tps, thr = v.call(v.m("perf_curves")._binary_clf_curve, y, s, w)
    m = thr.shape[0]
    v.ensures("at-most-one-threshold-per-case", v.le0(m, n + 1))
    v.ensures_all("monotone-to-a-positive-total", nb, lambda b: v.and_(v.gt0(v.at(fps, b, m - 1), 0.0), v.gt0(v.at(tps, b, m - 1), 0.0), v.all(m - 1, lambda t: v.and_(v.le0(v.at(fps, b, t), v.at(fps, b, t + 1)), v.le0(v.at(tps, b, t), v.at(tps, b, t + 1)), v.gt0(v.at(fps, b, t + 1) + v.at(tps, b, t + 1), 0.0)))))


@contract("C12", "counts", [CC, AP], cases=CASES, n_rand=200, modes="br", max_paths=400)
def counts(v):
    n, nb, y, s, w, W = setup(v)
    fps, tps, thr = v.call(v.m("perf_curves")._binary_clf_curve, y, s, w)
    m = thr.shape[0]
    v.ensures_all("every-score-is-a-threshold", n, lambda i: v.any(m - 1, lambda t: v.eq(v.at(s, i), v.at(thr, t + 1))))
    for b in [v.int("b", 0, nb - 1)] if v.sym else range(nb):
        v.ensures_all("true-positives", m - 1, lambda t: v.same(v.at(tps, b, t + 1), tp(v, n, y, s, W, b, v.at(thr, t + 1)), **sc(v, w, b, n)))
        v.ensures_all("false-positives", m - 1, lambda t: v.same(v.at(fps, b, t + 1), fp(v, n, y, s, W, b, v.at(thr, t + 1)), **sc(v, w, b, n)))


def ratio(v, r, num, den, tol, lo=0.0):
    """r == num/den; run time: num and den carry an absolute error tol"""
    if v.sym:
        return v.same(r, num / den)
    if not (den > 0):
        return False
    t = min(1.0, 4 * tol / den + 1e-9)
    return abs(float(r) - num / den) <= t


@contract("C12", "roc", [PC + "roc_curve", CC, AP], cases=CASES, stubs=[CC], n_rand=300)
def roc(v):
    n, nb, y, s, w, W = setup(v)
    c0 = (y.copy(), s.copy(), None if w is None else w.copy())
    r = v.call(v.m("perf_curves").roc_curve, y, s, w) if v.choice("kw", [True, False]) else v.call(v.m("perf_curves").roc_curve, y, s, sample_weight=w)
    (x, yy, kind), thr = r
    C = Counts(v, n, nb, y, s, w, W)
    m = C.m
    v.ensures("shape", v.and_(len(x.shape) == 2, len(yy.shape) == 2, v.eq(x.shape[0], nb), v.eq(yy.shape[0], nb), v.eq(x.shape[1], m), v.eq(yy.shape[1], m), v.eq(thr.shape[0], m)))
    v.ensures("piecewise-linear", kind == "linear")
    v.ensures_all("thresholds", m, lambda t: v.eq(v.at(thr, t), v.at(C.thr, t)))
    for b in [v.int("b", 0, nb - 1)] if v.sym else range(nb):
        tl = None if v.sym else C.tol(b)
        v.ensures_all("false-positive-rate", m, lambda t: ratio(v, v.at(x, b, t), C.fp(b, t), C.N(b), tl))
        v.ensures_all("true-positive-rate", m, lambda t: ratio(v, v.at(yy, b, t), C.tp(b, t), C.P(b), tl))
        v.ensures("from-0-0", v.and_(v.eq(v.at(x, b, 0), 0.0), v.eq(v.at(yy, b, 0), 0.0)))
        v.ensures("to-1-1", v.and_(v.eq(v.at(x, b, m - 1), 1.0), v.eq(v.at(yy, b, m - 1), 1.0)))
        v.ensures_all("monotone", m - 1, lambda t: v.and_(v.le0(v.at(x, b, t), v.at(x, b, t + 1)), v.le0(v.at(yy, b, t), v.at(yy, b, t + 1))))
    if not v.sym:
        v.ensures("inputs-unchanged", (y == c0[0]).all() and (s == c0[1]).all() and (w is None or (w == c0[2]).all()))
    v.unchanged("inputs-unchanged", y, s, *([] if w is None else [w]))


@contract("C12", "rejects", [PC + "roc_curve", CC], cases=[{"bad": b} for b in ("empty", "nan", "inf", "weight0", "weightneg", "weightnan", "shape", "wshape")], n_rand=30, modes="pr")
def rejects(v):
    bad = v.case["bad"]
    n = v.dim("n", 1)
    y = v.array("y", n, kind="b")
    s = v.array("s", n)
    w = None
    j = v.int("j", 0, n - 1)
    f = v.m("perf_curves").roc_curve
    if bad == "empty":
        y, s = v.np.zeros(0, dtype=bool), v.np.zeros(0)
    elif bad in ("nan", "inf"):
        v.mention(v.at(s, j))
        s[j] = float(bad)
    elif bad == "shape":
        s = v.array("s2", n + 1)
    elif bad == "wshape":
        w = v.array("w", (1, n + 1), lo=0.5, hi=2.0)
    else:
        w = v.array("w", (1, n), lo=0.5, hi=2.0)
        w[0, j] = {"weight0": 0.0, "weightneg": -1.0, "weightnan": float("nan")}[bad]
    v.must_reject(v.run(f, y, s, w))
