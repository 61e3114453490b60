"""C15: bootstrap of a performance curve."""
import math
import numpy as rnp
from pyvc.verify import contract, stub, require, include
from . import oracle, C06, C07, C14
from .common import labels

INF = float("inf")
CL = "mlpaper.classification."
F = [CL + "curve_boot", CL + "check_curve"]
STUBS = ["mlpaper.boot_util." + f for f in ("error_bar", "significance", "percentile")] + ["mlpaper.util.area", "mlpaper.util.interp1d"]
ASSUMPTIONS = ["numpy.random.multinomial returns nonnegative integer counts summing to N"]
EPS = 1e-10


def o_area(v, x, y, kind):
    return v.opaque_array("area:" + kind, (x, y), (x.shape[0],))


def o_interp(v, g, x, y, kind):
    return v.opaque_array("interp:" + kind, (g, x, y), (x.shape[0], g.shape[0]))


@stub("mlpaper.util.area")
def _area(v, x_curve, y_curve, kind):
    """C14 area"""
    np = v.np
    require(x_curve.ndim == 2 and y_curve.ndim == 2)
    require(x_curve.shape[1] >= 2)
    require(np.logical_not(np.any(np.isnan(x_curve))))
    require(np.logical_not(np.any(np.isnan(y_curve))))
    require(kind in ("previous", "linear"))
    return o_area(v, x_curve, y_curve, kind)


@stub("mlpaper.util.interp1d")
def _interp(v, x_grid, x_curve, y_curve, kind):
    require(x_curve.ndim == 2 and y_curve.ndim == 2 and x_grid.ndim == 1)
    require(kind in ("previous", "linear"))
    return o_interp(v, x_grid, x_curve, y_curve, kind)


class Curve:
    """curve function supplied by the contract: any curve that is sorted in x and covers the grid (proof),
    a weighted ROC / recall-precision / gain curve computed independently (run time)"""

    def __init__(self, v, kind, g0, g1):
        self.v, self.kind, self.g0, self.g1, self.calls = v, kind, g0, g1, []

    def __call__(self, y_true, y_score, sample_weight=None):
        v = self.v
        q = len(self.calls)
        y, s, w = y_true, y_score, sample_weight
        if v.sym:
            import z3
            from pyvc import red
            from pyvc.core import intt, flt

            nb = 1 if w is None else w.shape[0]
            m = v.dim("m:%d" % q, 2, small=[2])
            X, Y = v.array("X:%d" % q, (nb, m)), v.array("Y:%d" % q, (nb, m))
            b, t = z3.Int("?qb"), z3.Int("?qt")
            at = lambda b, t: X.at(b, t).v
            last = intt(m) - 1
            fact = z3.And(z3.Implies(z3.And(b >= 0, b < intt(nb), t >= 0, t < last), at(b, t) <= at(b, t + 1)))
            ends = z3.Implies(z3.And(b >= 0, b < intt(nb)), z3.And(at(b, z3.IntVal(0)) <= flt(self.g0).v, at(b, last) >= flt(self.g1).v))
            if v.bounded:
                for bb in range(int(nb)):
                    v.assume(z3.substitute(ends, (b, z3.IntVal(bb))))
                    for tt in range(int(m) - 1):
                        v.assume(z3.substitute(fact, (b, z3.IntVal(bb)), (t, z3.IntVal(tt))))
            else:
                red.add_forall([b, t], fact, [X.tag])
                red.add_forall([b], ends, [X.tag])
            curve = (X, Y, self.kind)
        else:
            f = {"roc": oracle.roc, "rp": oracle.rp, "prg": oracle.prg}[self.kind]
            curve = f(rnp.asarray(y), rnp.asarray(s), None if w is None else rnp.asarray(w))[0]
        self.calls.append((y.copy(), s.copy(), None if w is None else w.copy(), curve))
        return curve, None


def gridgen(r, sh):
    st = r.randint(3)
    a = r.rand(*sh) if st == 0 else rnp.linspace(0, 1, sh[0]) if st == 1 else rnp.round(r.rand(*sh), 1)
    return rnp.sort(a)


def scores(r, sh):
    st = r.randint(4)
    a = r.randn(*sh)
    if st == 1:
        a = r.randint(0, 3, size=sh).astype(float)
    if st == 2:
        a = a * 0.0 + r.randint(0, 2)
    return a


def setup(v):
    n = v.dim("n", 1, small=[1, 2], hi=None if v.sym else 25)
    nb = v.dim("n_boot", 1, small=[1, 2], hi=None if v.sym else 60)
    y = labels(v, "y", n, 2, v.choice("ykind", ["i", "b"]))
    lp = v.array("lp", (n, 2), gen=scores)
    ref = v.array("ref", (n, 2), gen=scores) if v.case["ref"] == "paired" else v.real("refv", gen=lambda r: r.choice([0.5, 0.0, 0.3, 1.0]))
    conf = C06.conf_(v)
    return n, nb, y, lp, ref, conf


CASES = [{"ref": r, "pw": p, "grid": g} for r in ("scalar", "paired") for p in (False, True) for g in (False, True)]


@contract("C15", "curve_boot", F, cases=CASES, stubs=STUBS, n_rand=60, budget=60, modes="pr")
def curve_boot(v):
    n, nb, y, lp, ref, conf = setup(v)
    if v.case["grid"]:
        ng = v.dim("ng", 1, small=[1, 2])
        g = v.array("g", ng, gen=gridgen)
        v.assume_sorted(g, ng)
    else:
        ng = 100
        g = v.np.linspace(0.0, 1.0, 100)
    kind = v.choice("kind", ["previous", "linear"] if v.sym else ["roc", "rp", "prg"])
    cf = Curve(v, kind, v.at(g, 0), v.at(g, ng - 1))
    if not v.sym and kind == "prg":
        v.assume(not y.all() and y.any())
    v.seed()
    v.watch_draws()
    kw = dict(curve_f=cf, n_boot=nb, pairwise_CI=v.case["pw"], confidence=conf)
    if v.case["grid"]:
        kw["x_grid"] = g
    if v.sym:
        (auc, EB, p), C = v.call(v.m("classification").curve_boot, y, lp, ref, **kw)
    else:
        o = v.run(v.m("classification").curve_boot, y, lp, ref, **kw)
        (auc, EB, p), C = result(v, o, {"roc": oracle.roc, "rp": oracle.rp, "prg": oracle.prg}[kind], y, lp, ref if v.case["ref"] == "paired" else None, v.case["pw"])
    v.ensures("curve-columns", list(C.columns) == ["xgrid", "ygrid", "LB", "UB"])
    v.ensures("curve-rows", v.range_rows(C, ng))
    paired = v.case["ref"] == "paired"
    d = v.draws()
    if not d and not v.sym:
        v.reject()
    v.ensures("one-resample", v.and_(len(d) == 1, v.eq(d[0][0], nb), v.eq(d[0][1], n)))
    W = d[0][2]
    col = lambda a, j: v.make_array(n, lambda i: v.at(a, i, j))
    if v.sym:
        from pyvc import verify as V

        yb = v.make_boolarray(n, lambda i: v.not_(v.eq(v.at(y, i), 0)) if y.kind == "i" else v.at(y, i))

        def find(s, weighted):
            """the curve of these scores on the original data / on the replicates"""
            for c in cf.calls:
                if (c[2] is not None) == weighted and V._okey(c[1]) == V._okey(s):
                    v.ensures("curve-of-the-labels", v.and_(v.eq(c[0].shape[0], n), c[0].kind == "b", v.all(n, lambda i: v.iff(v.at(c[0], i), v.at(yb, i)))))
                    v.ensures("curve-of-the-scores", v.and_(v.eq(c[1].shape[0], n), v.all(n, lambda i: v.same(v.at(c[1], i), v.at(s, i)))))
                    if weighted:
                        w = c[2]
                        v.ensures("replicate-weights-shape", v.and_(len(w.shape) == 2, v.eq(w.shape[0], nb), v.eq(w.shape[1], n)))
                        v.ensures_all("replicate-weights", nb, lambda b: v.all(n, lambda i: v.same(v.at(w, b, i), v.max(EPS, v.flt(W(b, i))))))
                    return c[3]
            from pyvc.core import Unsupported

            raise Unsupported("curve call not recognised")

        s1 = col(lp, 1)
        c0, cb = find(s1, False), find(s1, True)
        A0, Ab = o_area(v, *c0), o_area(v, *cb)
        a0 = v.at(A0, 0)
        if paired:
            r0, rb = find(col(ref, 1), False), find(col(ref, 1), True)
            R0 = v.at(o_area(v, *r0), 0)
            Rb_ = o_area(v, *rb)
            Rb = lambda b: v.at(Rb_, b)
        else:
            R0, Rb_, Rb = ref, ref, lambda b: ref
        v.ensures("summary", v.same(auc, a0))
        if v.case["pw"]:
            v.ensures("error-bar-of-difference", v.same(EB, C07.o_eb(v, v.make_array(nb, lambda b: v.at(Ab, b) - Rb(b)), a0 - R0, conf)))
        else:
            v.ensures("error-bar", v.same(EB, C07.o_eb(v, Ab, a0, conf)))
        v.ensures("p-value", v.same(p, C07.o_sig(v, Ab, Rb_)))
        v.ensures("p-range", v.and_(v.le0(0.0, p), v.le0(p, 1.0)))
        v.ensures_all("grid", ng, lambda i: v.same(v.at(v.col(C, "xgrid"), i), v.at(g, i)))
        I0, Ib = o_interp(v, g, *c0), o_interp(v, g, *cb)
        v.ensures_all("curve-values", ng, lambda i: v.same(v.at(v.col(C, "ygrid"), i), v.at(I0, 0, i)))
        L, U = C07._pc(v, Ib, conf)
        v.ensures_all("lower-limit", ng, lambda i: v.same(v.at(v.col(C, "LB"), i), v.at(L, i)))
        v.ensures_all("upper-limit", ng, lambda i: v.same(v.at(v.col(C, "UB"), i), v.at(U, i)))
        return
    w = rnp.array([[max(EPS, W(b, i)) for i in range(n)] for b in range(nb)], dtype=float)
    f = {"roc": oracle.roc, "rp": oracle.rp, "prg": oracle.prg}[kind]
    check(v, f, y, lp, ref if paired else None, ref, w, g, auc, EB, p, C, conf, v.case["pw"], exact=False)


def within(lo, x, hi, tol=1e-6):
    le = lambda a, b: a <= b or (math.isfinite(a) and math.isfinite(b) and a - b <= tol * max(1.0, abs(a), abs(b)))
    return le(lo, x) and le(x, hi)


def defined(v, f, y, lp, refp, pw, w):
    """with pairwise CIs the difference of two infinite gain areas is undefined (rejected)"""
    if not pw or refp is None:
        return True
    yb = rnp.asarray(y).astype(bool)
    for q in (None, w):
        with rnp.errstate(all="ignore"):
            if rnp.any(rnp.isnan(oracle.area(*f(yb, lp[:, 1], q)[0]) - oracle.area(*f(yb, refp[:, 1], q)[0]))):
                return False
    return True


def result(v, o, f, y, lp, refp, pw):
    if o.raised is not None:
        if v._rec and not defined(v, f, y, lp, refp, pw, rnp.maximum(EPS, v._rec[0])):
            v.reject()
        v.call(raise_, o.raised)
    return o.value


def raise_(e):
    raise e


def check(v, f, y, lp, refp, refv, w, g, auc, EB, p, C, conf, pw, exact):
    for name, ok in verdicts(f, y, lp, refp, refv, w, g, auc, EB, p, C, conf, pw):
        v.ensures(name, ok)


def verdicts(f, y, lp, refp, refv, w, g, auc, EB, p, C, conf, pw):
    """(obligation, holds) for a result of curve_boot, given the replicate weights"""
    yb = rnp.asarray(y).astype(bool)
    c0, cb = f(yb, lp[:, 1])[0], f(yb, lp[:, 1], w)[0]
    a0, ab = oracle.area(*c0)[0], oracle.area(*cb)
    if refp is not None:
        R0, Rb = oracle.area(*f(yb, refp[:, 1])[0])[0], oracle.area(*f(yb, refp[:, 1], w)[0])
    else:
        R0, Rb = refv, refv
    yield "summary", oracle.near(auc, a0)
    if EB is not None:
        with rnp.errstate(all="ignore"):
            dif = ab - Rb
        if pw:
            yield "error-bar-of-difference", oracle.eb_ok(EB, dif, a0 - R0, conf)
        else:
            yield "error-bar", oracle.eb_ok(EB, ab, a0, conf)
    if p is not None:
        yield "p-value", oracle.sig_ok(p, ab, Rb)
    yield "grid", bool(rnp.array_equal(C["xgrid"].values, g))
    # grid points within rounding of a knot may fall on either side of the step
    lo0, hi0 = oracle.interp_range(g, *c0)
    lob, hib = oracle.interp_range(g, *cb)
    yield "curve-values", all(within(lo0[0, j], C["ygrid"].values[j], hi0[0, j]) for j in range(len(g)))
    for j in range(len(g)):
        L, U = oracle.pct(lob[:, j], conf)[0], oracle.pct(hib[:, j], conf)[0]
        yield "lower-limit", within(min(L), C["LB"].values[j], max(U))
        L, U = oracle.pct(lob[:, j], conf)[1], oracle.pct(hib[:, j], conf)[1]
        yield "upper-limit", within(min(L), C["UB"].values[j], max(U))


CURVES = {"roc_curve": oracle.roc, "recall_precision_curve": oracle.rp, "prg_curve": oracle.prg}


@contract("C15", "standard-curves", F + ["mlpaper.perf_curves." + c for c in CURVES], cases=[{"ref": r, "pw": p} for r in ("scalar", "paired") for p in (False, True)], n_rand=60, modes="r")
def std(v):
    """end to end with the package's own curves and defaults"""
    n, nb, y, lp, ref, conf = setup(v)
    name = v.choice("curve", ["roc_curve", "recall_precision_curve", "prg_curve", None])
    if name == "prg_curve":
        v.assume(not y.all() and y.any())
    kw = {}
    if name is not None:
        kw["curve_f"] = getattr(v.m("perf_curves"), name)
    dflt = v.choice("dflt", [False, True], w=[3, 1])
    g = rnp.linspace(0.0, 1.0, 100)
    if v.choice("grid", [True, False]):
        g = v.array("g", v.dim("ng", 1), gen=gridgen)
        v.assume_sorted(g, len(g))
        kw["x_grid"] = g
    if dflt:
        conf, pw = 0.95, False
        v.assume(n <= 6)
    else:
        pw = v.case["pw"]
        kw.update(n_boot=nb, pairwise_CI=pw, confidence=conf)
    keep = lp.copy(), y.copy()
    v.seed()
    v.watch_draws()
    kw["ref"] = ref
    o = v.run(v.m("classification").curve_boot, y, lp, **kw)
    (auc, EB, p), C = result(v, o, CURVES[name or "roc_curve"], y, lp, ref if v.case["ref"] == "paired" else None, pw)
    v.ensures("inputs-unchanged", bool(rnp.array_equal(lp, keep[0]) and rnp.array_equal(y, keep[1])))
    d = v.draws()
    if not d:
        v.reject()
    v.ensures("one-resample", len(d) == 1 and d[0][0] == (1000 if dflt else nb) and d[0][1] == n)
    w = rnp.maximum(EPS, v._rec[0])
    if dflt:
        w = w[:, :]
    v.ensures("curve-columns", list(C.columns) == ["xgrid", "ygrid", "LB", "UB"])
    f = CURVES[name or "roc_curve"]
    check(v, f, y, lp, ref if v.case["ref"] == "paired" else None, ref, w, g, auc, EB, p, C, conf, pw, exact=True)


@contract("C15", "rejects", F, cases=[{"why": w} for w in ("nan", "nanref", "labels", "shape", "n_boot", "three")], stubs=STUBS, n_rand=40, modes="pr")
def rejects(v):
    why = v.case["why"]
    n = v.dim("n", 1, small=[1, 2])
    k = 3 if why == "three" else 2
    lp = v.array("lp", (n, k), ext="nan" if why == "nan" else None, gen=scores)
    y = labels(v, "y", n, 2)
    ref = v.array("ref", (n, 2), ext="nan" if why == "nanref" else None, gen=scores)
    nb = 0 if why == "n_boot" else 3
    if why == "nan":
        v.assume(v.any(n, lambda i: v.or_(v.isnan(v.at(lp, i, 0)), v.isnan(v.at(lp, i, 1)))))
    elif why == "nanref":
        v.assume(v.any(n, lambda i: v.or_(v.isnan(v.at(ref, i, 0)), v.isnan(v.at(ref, i, 1)))))
    elif why == "labels":
        y = v.array("y2", n, kind="i")
        v.assume(v.any(n, lambda i: v.or_(v.at(y, i) < 0, v.at(y, i) > 1)))
    elif why == "shape":
        m = v.dim("m", 1, small=[1, 2])
        v.assume(v.not_(v.eq(m, n)))
        ref = v.array("ref2", (m, 2))
    cf = Curve(v, "linear" if v.sym else "roc", 0.0, 1.0)
    v.seed()
    v.must_reject(v.run(v.m("classification").curve_boot, y, lp, ref, curve_f=cf, n_boot=nb, x_grid=v.np.linspace(0.0, 1.0, 3)), "rejects-" + why)
