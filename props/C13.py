"""C13: recall-precision and precision-recall-gain curves."""
from pyvc.verify import contract, include
from props.curvelib import setup, Counts, CC, AP, PC, INF
from props.C12 import ratio

include("C13", "C12", "counts", "count-facts")
CASES = [{"w": False}, {"w": True}]


def close(v, a, b, err):
    """run time: a == b up to the absolute error err"""
    if v.sym:
        return v.same(a, b)
    a, b = float(a), float(b)
    if a == b:
        return True
    return abs(a - b) <= err + 1e-9 * max(1.0, abs(b))


@contract("C13", "recall-precision", [PC + "recall_precision_curve", CC, AP], cases=CASES, stubs=[CC], n_rand=300)
def rp(v):
    n, nb, y, s, w, W = setup(v)
    c0 = (y.copy(), s.copy(), None if w is None else w.copy())
    (x, yy, kind), thr = v.call(v.m("perf_curves").recall_precision_curve, y, s, w)
    C = Counts(v, n, nb, y, s, w, W)
    m = C.m
    v.ensures("shape", v.and_(len(x.shape) == 2, len(yy.shape) == 2, v.eq(x.shape[0], nb), v.eq(yy.shape[0], nb), v.eq(x.shape[1], m), v.eq(yy.shape[1], m), v.eq(thr.shape[0], m)))
    v.ensures("step-function", kind == "previous")
    v.ensures_all("thresholds", m, lambda t: v.eq(v.at(thr, t), v.at(C.thr, t)))
    for b in [v.int("b", 0, nb - 1)] if v.sym else range(nb):
        tl = None if v.sym else C.tol(b)
        v.ensures_all("recall", m, lambda t: ratio(v, v.at(x, b, t), C.tp(b, t), C.P(b), tl))
        v.ensures_all("precision", m - 1, lambda t: ratio(v, v.at(yy, b, t + 1), C.tp(b, t + 1), C.tp(b, t + 1) + C.fp(b, t + 1), tl))
        v.ensures("first-precision", v.eq(v.at(yy, b, 0), v.at(yy, b, 1)))
        v.ensures("recall-from-0-to-1", v.and_(v.eq(v.at(x, b, 0), 0.0), v.eq(v.at(x, b, m - 1), 1.0)))
        v.ensures_all("recall-monotone", m - 1, lambda t: v.le0(v.at(x, b, t), v.at(x, b, t + 1)))
        v.ensures_all("within-0-1", m, lambda t: v.and_(v.le0(0.0, v.at(x, b, t)), v.le0(v.at(x, b, t), 1.0), v.le0(0.0, v.at(yy, b, t)), v.le0(v.at(yy, b, t), 1.0)))
    if not v.sym:
        v.ensures("inputs-unchanged", (y == c0[0]).all() and (s == c0[1]).all() and (w is None or (w == c0[2]).all()))
    v.unchanged("inputs-unchanged", y, s, *([] if w is None else [w]))


def gain(v, P, N, num, tp):
    """1 - P*num/(N*tp) = (x - pi)/((1 - pi) x) for x = tp/(tp+num), pi = P/(P+N)"""
    return 1.0 - (P * num) / (N * tp)


@contract("C13", "precision-recall-gain", [PC + "prg_curve", CC, AP], cases=CASES, stubs=[CC], n_rand=300)
def prg(v):
    n, nb, y, s, w, W = setup(v)
    (x, yy, kind), thr = v.call(v.m("perf_curves").prg_curve, y, s, w)
    C = Counts(v, n, nb, y, s, w, W)
    m = C.m
    v.ensures("shape", v.and_(len(x.shape) == 2, len(yy.shape) == 2, v.eq(x.shape[0], nb), v.eq(yy.shape[0], nb), v.eq(x.shape[1], m), v.eq(yy.shape[1], m), v.eq(thr.shape[0], m)))
    v.ensures("step-function", kind == "previous")
    v.ensures_all("thresholds", m, lambda t: v.eq(v.at(thr, t), v.at(C.thr, t)))
    for b in [v.int("b", 0, nb - 1)] if v.sym else range(nb):
        P, N = C.P(b), C.N(b)

        def rg(t):
            got = v.at(x, b, t)
            tp = C.tp(b, t)
            if v.sym:
                return v.ite(v.eq(tp, 0.0), v.eq(got, 0.0), v.same(got, v.max(0.0, gain(v, P, N, P - tp, tp))))
            if tp == 0:
                return got == 0.0
            e = C.tol(b)
            q = P / N * (P - tp) / tp
            err = abs(q) * (4 * e / P + 4 * e / N + 4 * e / tp) + 4 * P / N * e / tp
            return close(v, got, max(0.0, 1.0 - q), min(err, 1.0))

        def pg(t):
            got = v.at(yy, b, t)
            tp, fp = C.tp(b, t), C.fp(b, t)
            if v.sym:
                return v.ite(v.eq(tp, 0.0), v.eq(got, -INF), v.same(got, gain(v, P, N, fp, tp)))
            if tp == 0:
                return got == -INF
            e = C.tol(b)
            q = P / N * fp / tp
            return close(v, got, 1.0 - q, abs(q) * (4 * e / P + 4 * e / N + 4 * e / tp) + 4 * P / N * e / tp)

        v.ensures_all("recall-gain", m, rg)
        v.ensures_all("precision-gain", m - 1, lambda t: pg(t + 1))
        v.ensures("first-precision-gain", v.eq(v.at(yy, b, 0), v.at(yy, b, 1)))
        v.ensures("recall-gain-from-0-to-1", v.and_(v.eq(v.at(x, b, 0), 0.0), v.eq(v.at(x, b, m - 1), 1.0)))
        v.ensures_all("recall-gain-monotone", m - 1, lambda t: v.le0(v.at(x, b, t), v.at(x, b, t + 1)))
        v.ensures_all("bounds", m, lambda t: v.and_(v.le0(0.0, v.at(x, b, t)), v.le0(v.at(x, b, t), 1.0), v.le0(v.at(yy, b, t), 1.0)))
    v.unchanged("inputs-unchanged", y, s, *([] if w is None else [w]))
