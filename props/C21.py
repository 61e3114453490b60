"""C21: prediction tables, built-in baselines, one-call benchmarks."""
import contextlib
import io
import math
import shutil
import tempfile
import numpy as rnp
import pandas as pd
from pyvc.verify import contract, stub
from . import oracle, tables, C08, C10, C16
from .common import labels
from .tables import INF

CL, RG = "mlpaper.classification.", "mlpaper.regression."
GP, GG = CL + "get_pred_log_prob", RG + "get_gauss_pred"
NO = C10.NO


# --- estimators supplied by the contract ---------------------------------------------------------------
class Est:
    """records what it is fitted on and asked for, answers with an arbitrary array"""

    def __init__(self, out):
        self.out, self.fits, self.preds = out, [], []

    def fit(self, X, y):
        self.fits.append((X.copy(), y.copy(), len(self.preds)))
        return self

    def ask(self, X, how):
        self.preds.append((X.copy(), len(self.fits), how))


class LogEst(Est):
    def predict_log_proba(self, X):
        self.ask(X, "log")
        return self.out

    def predict_proba(self, X):
        raise RuntimeError("not to be used")


class ProbEst(Est):
    """no predict_log_proba"""

    def predict_proba(self, X):
        self.ask(X, "prob")
        return self.out


class NoLogEst(ProbEst):
    """sklearn style: predict_log_proba exists but fails"""

    def predict_log_proba(self, X):
        raise NotImplementedError("predict_log_proba")


class StdEst(Est):
    def predict(self, X, return_std=False):
        self.ask(X, "std" if return_std else "mean")
        return self.out if return_std else self.out[0]


class MeanEst(Est):
    def predict(self, X):
        self.ask(X, "mean")
        return self.out[0]


def same2(v, a, b):
    if not v.sym:
        return a.shape == b.shape and a.dtype == b.dtype and rnp.array_equal(a, b)
    if a.ndim != b.ndim:
        return False
    if a.ndim == 1:
        return v.and_(v.eq(a.shape[0], b.shape[0]), v.all(b.shape[0], lambda i: v.eq(v.at(a, i), v.at(b, i))))
    return v.and_(v.eq(a.shape[0], b.shape[0]), v.eq(a.shape[1], b.shape[1]), v.all(b.shape[0], lambda i: v.all(b.shape[1], lambda j: v.eq(v.at(a, i, j), v.at(b, i, j)))))


def judge(v, E, Xa, ya, Xb, tag):
    v.ensures("fitted-before-predicting" + tag, len(E.fits) >= 1 and len(E.preds) >= 1 and E.fits[0][2] == 0 and all(p[1] >= 1 for p in E.preds))
    v.ensures("fitted-on-training-data-only" + tag, v.and_(*[v.and_(same2(v, f[0], Xa), same2(v, f[1], ya)) for f in E.fits]))
    v.ensures("asked-for-test-inputs" + tag, v.and_(*[same2(v, p[0], Xb) for p in E.preds]))


def data(v, nd=2, kind="f"):
    nt, ns, d = v.dim("n_train", 1, small=[1, 2], hi=None if v.sym else 12), v.dim("n_test", 1, small=[1, 2], hi=None if v.sym else 12), v.dim("d", 0 if not v.sym else 1, small=[1], hi=None if v.sym else 4)
    ex = (2,) if nd == 3 else ()
    return nt, ns, d, v.array("Xa", (nt, d) + ex, kind=kind), v.array("Xb", (ns, d) + ex, kind=kind)


def quiet(v, f, *a, **k):
    """call with the standard output captured"""
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        return v.call(f, *a, **k)


SHAPES = {"1x1": (1, 1), "2x1": (2, 1), "2x2": (2, 2), "3x2": (3, 2)}


def floorgen(r):
    return -(10.0 ** r.uniform(-3, 3))


@contract("C21", "get_pred_log_prob", [GP], cases=[{"shape": s, "est": e, "floor": f} for s in SHAPES for e in ("log", "prob", "nolog") for f in (None, "real")], stubs=[NO], n_rand=25)
def pred_log_prob(v):
    k, nk = SHAPES[v.case["shape"]] if v.sym else (v.choice("k", [1, 2, 3, 5]), v.choice("nk", [1, 2, 3]))
    methods = tables.names(v, "methods", ["svm", "gp", "iid"], nk)
    nd = 2 if v.sym else v.choice("nd", [2, 2, 3])
    nt, ns, d, Xa, Xb = data(v, nd, "f" if v.sym else v.choice("Xkind", ["f", "i"]))
    ya = labels(v, "ya", nt, k) if v.sym or k != 2 or v.choice("ykind", ["i", "b"]) == "i" else labels(v, "ya", nt, k, "b")
    lp, D = {}, {}
    cls = {"log": LogEst, "prob": ProbEst, "nolog": NoLogEst}[v.case["est"]]
    for q, m in enumerate(methods):
        raw = v.case["est"] == "log"
        if v.sym:
            p = v.array("p:%d" % q, (ns, k)) if raw else v.array("p:%d" % q, (ns, k), lo=0.0, open="l")
            lp[m] = p if raw else v.make_array2(ns, k, lambda i, j, p=p: v.exp(v.log(v.at(p, i, j))), log=True)
        else:
            p = v.array("p:%d" % q, (ns, k), lo=0.0, gen=lambda r, sh: r.choice([0.0, 1.0, 0.3, 1e-5], size=sh) * r.rand(*sh) + (r.rand() < 0.7) * 1e-3)
            v.assume(bool((p.sum(axis=1) > 0).all()))
            with rnp.errstate(divide="ignore"):
                lp[m] = rnp.log(p)
            if raw:
                p = lp[m]
        D[m] = cls(p.copy())
    kw = {}
    fl = -INF
    if v.case["floor"]:
        fl = kw["min_log_prob"] = v.real("floor", hi=0.0, open="h", gen=floorgen)
    if not v.sym and v.choice("verbose", [False, True]):
        kw["verbose"] = True
    keep = [a.copy() for a in (Xa, ya, Xb)]
    T = quiet(v, v.m("classification").get_pred_log_prob, Xa, ya, Xb, k, D, **kw)
    v.ensures("is-a-table", v.is_frame(T))
    v.ensures("one-row-per-test-case", v.range_rows(T, ns))
    v.ensures("columns-are-method-x-label", list(T.columns) == [(m, j) for m in methods for j in range(k)] and list(T.columns.names) == ["method", "label"])
    for m in methods:
        judge(v, D[m], *keep, "")
        if v.sym:
            S = [lambda i, j=j: v.exp(v.np.maximum(fl, v.at(lp[m], i, j))) for j in range(k)]
            for j in range(k):
                v.ensures("floored-then-normalised-prediction", v.all(ns, lambda i: v.same(v.exp(v.at(v.col(T, (m, j)), i)), S[j](i) / sum((S[q](i) for q in range(1, k)), S[0](i)))))
        else:
            e = oracle.lognorm(rnp.maximum(fl, lp[m]))
            for j in range(k):
                g = v.col(T, (m, j))
                v.ensures("floored-then-normalised-prediction", all(oracle.near(g[i], e[i, j], rtol=1e-9, scale=1.0) for i in range(ns)))
    for a, b in zip((Xa, ya, Xb), keep):
        v.ensures("inputs-unchanged", same2(v, a, b))


@contract("C21", "get_gauss_pred", [GG], cases=[{"nk": s, "est": e, "floor": f} for s in (1, 2) for e in ("std", "mean") for f in (None, "real")], n_rand=40)
def gauss_pred(v):
    nk = v.case["nk"] if v.sym else v.choice("nk", [1, 2, 3])
    methods = tables.names(v, "methods", ["svm", "gp", "iid"], nk)
    nt, ns, d, Xa, Xb = data(v, 2, "f" if v.sym else v.choice("Xkind", ["f", "i"]))
    ya = v.array("ya", nt)
    mu, std, D = {}, {}, {}
    for q, m in enumerate(methods):
        mu[m] = v.array("mu:%d" % q, ns)
        std[m] = v.array("std:%d" % q, ns, lo=0.0)
        D[m] = (StdEst if v.case["est"] == "std" else MeanEst)((mu[m].copy(), std[m].copy()))
    kw = {}
    fl = 0.0
    if v.case["floor"]:
        fl = kw["min_std"] = v.real("floor", lo=0.0)
    if not v.sym and v.choice("verbose", [False, True]):
        kw["verbose"] = True
    keep = [a.copy() for a in (Xa, ya, Xb)]
    T = quiet(v, v.m("regression").get_gauss_pred, Xa, ya, Xb, D, **kw)
    v.ensures("is-a-table", v.is_frame(T))
    v.ensures("one-row-per-test-case", v.range_rows(T, ns))
    v.ensures("columns-are-method-x-moment", list(T.columns) == [(m, j) for m in methods for j in ("mu", "std")] and list(T.columns.names) == ["method", "moment"])
    for m in methods:
        judge(v, D[m], *keep, "")
        a, b = v.col(T, (m, "mu")), v.col(T, (m, "std"))
        v.ensures("mean-as-predicted", v.all(ns, lambda i: v.same(v.at(a, i), v.at(mu[m], i))))
        s = lambda i: v.at(std[m], i) if v.case["est"] == "std" else 1.0
        v.ensures("std-as-predicted-but-at-least-min_std", v.all(ns, lambda i: v.same(v.at(b, i), v.max(fl, s(i)))))
    for x, y in zip((Xa, ya, Xb), keep):
        v.ensures("inputs-unchanged", same2(v, x, y))


WHY = ("no-test", "1d", "ndim", "features", "y-length", "X-kind", "floor", "pred-rows", "pred-cols")


@contract("C21", "get_pred_log_prob.rejects", [GP], cases=[{"why": w} for w in WHY + ("y-kind", "y-high", "y-low")], stubs=[NO], n_rand=12)
def class_rejects(v):
    why = v.case["why"]
    k = 2
    o = bad(v, why, k)
    Xa, ya, Xb, out, fl = o
    v.must_reject(v.run(v.m("classification").get_pred_log_prob, Xa, ya, Xb, k, {"m": LogEst(out)}, min_log_prob=fl), "rejects-" + why)


@contract("C21", "get_gauss_pred.rejects", [GG], cases=[{"why": w} for w in WHY if w != "pred-cols"], n_rand=12)
def regr_rejects(v):
    why = v.case["why"]
    Xa, ya, Xb, out, fl = bad(v, why, 2, regr=True)
    v.must_reject(v.run(v.m("regression").get_gauss_pred, Xa, ya, Xb, {"m": StdEst(out)}, min_std=fl), "rejects-" + why)


def bad(v, why, k, regr=False):
    nt, ns, d = v.dim("n_train", 1, small=[1, 2], hi=None if v.sym else 6), v.dim("n_test", 1, small=[1, 2], hi=None if v.sym else 6), v.dim("d", 1, small=[1, 2], hi=None if v.sym else 3)
    dn = lambda q, x: v.dim(q, 1, small=[1, 2], hi=None if v.sym else 7)
    other = None
    if why in ("features", "y-length", "pred-rows", "pred-cols"):
        other = v.dim("other", 1, small=[1, 2, 3], hi=None if v.sym else 7)
        v.assume(v.not_(v.eq(other, {"features": d, "y-length": nt, "pred-rows": ns, "pred-cols": k}[why])))
    if why == "no-test":
        ns = 0
    Xa = v.array("Xa", nt if why == "1d" else (nt, d))
    if why == "ndim":
        Xb = v.array("Xb", (ns, d, 1))
    elif why == "1d":
        Xb = v.array("Xb", ns)
    else:
        Xb = v.array("Xb", (ns, other if why == "features" else d), kind="i" if why == "X-kind" else "f")
    ny = other if why == "y-length" else nt
    if regr:
        ya = v.array("ya", ny)
        nr = other if why == "pred-rows" else ns
        which = v.choice("which", ["mu", "std"])
        out = (v.array("mu", nr if which == "mu" else ns), v.array("std", nr if which == "std" else ns, lo=0.0))
        fl = v.real("floor", hi=0.0, open="h", gen=lambda r: -r.rand()) if why == "floor" else 0.0
        return Xa, ya, Xb, out, fl
    if why == "y-kind":
        ya = v.array("ya", ny, lo=0.0, hi=1.0)
    elif why in ("y-high", "y-low"):
        ya = v.array("ya", ny, kind="i", lo=-2, hi=4)
        v.assume(v.any(ny, lambda i: v.gt0(v.at(ya, i), k - 1) if why == "y-high" else v.gt0(0, v.at(ya, i))))
    else:
        ya = labels(v, "ya", ny, k)
    out = v.array("out", (other if why == "pred-rows" else ns, other if why == "pred-cols" else k))
    fl = v.real("floor", lo=0.0, gen=lambda r: r.choice([0.0, 0.5])) if why == "floor" else -INF
    return Xa, ya, Xb, out, fl


# --- the baselines ---------------------------------------------------------------------------------------
@contract("C21", "classification.JustNoise", [CL + "JustNoise"], cases=[{"k": k, "y": y, "pc": p} for k, y in ((1, "i"), (2, "i"), (2, "b"), (3, "i"), (None, "i")) for p in (None, "real")], n_rand=40)
def class_noise(v):
    k = v.case["k"]
    if k is None:  # the default: two labels
        k, kw = 2, {}
    else:
        kw = {"n_labels": k}
    nt, ns = v.dim("n_train", 1, small=[1, 2]), v.dim("n_test", 0, small=[1, 2])
    pc = 0.0
    if v.case["pc"]:
        pc = kw["pseudo_count"] = v.real("pc", lo=0.0)
    Xa, Xb = v.array("Xa", (nt, 1)), v.array("Xb", (ns, 1))
    ya = labels(v, "ya", nt, k, v.case["y"])
    J = v.call(v.m("classification").JustNoise, **kw)
    v.call(J.fit, Xa, ya)
    r = v.call(J.predict_log_proba, Xb)
    v.ensures("shape", v.and_(len(r.shape) == 2, v.eq(r.shape[0], ns), v.eq(r.shape[1], k)))
    for j in range(k):
        hit = (lambda i: v.ite(v.at(ya, i), 1, 0) if j else v.ite(v.at(ya, i), 0, 1)) if v.case["y"] == "b" else (lambda i: v.ite(v.eq(v.at(ya, i), j), 1, 0))
        c = v.isum(nt, hit)
        f = (v.flt(c) + pc) / (v.flt(nt) + pc * k)
        v.ensures_all("training-label-frequency", ns, lambda i: v.same(v.exp(v.at(r, i, j)), f))


@contract("C21", "regression.JustNoise", [RG + "JustNoise"], n_rand=80)
def regr_noise(v):
    nt, ns = v.dim("n_train", 2, small=[2, 3]), v.dim("n_test", 0, small=[1, 2])
    Xa, Xb, ya = v.array("Xa", (nt, 1)), v.array("Xb", (ns, 1)), v.array("ya", nt)
    J = v.call(v.m("regression").JustNoise)
    v.call(J.fit, Xa, ya)
    o = v.call(J.predict, Xb, return_std=True) if v.choice("kw", [True, False]) else v.call(J.predict, Xb)
    v.ensures("pair", len(o) == 2)
    mu, std = o
    v.ensures("shapes", v.and_(len(mu.shape) == 1, len(std.shape) == 1, v.eq(mu.shape[0], ns), v.eq(std.shape[0], ns)))
    m = v.sum(nt, lambda i: v.at(ya, i)) / v.flt(nt)
    S = v.sum(nt, lambda i: (v.at(ya, i) - m) * (v.at(ya, i) - m)) / v.flt(nt)
    sc = None if v.sym else max(1.0, float(rnp.abs(ya).max()))
    v.ensures_all("training-mean", ns, lambda i: v.same(v.at(mu, i), m, scale=sc))
    v.ensures_all("training-std-nonnegative", ns, lambda i: v.le(0.0, v.at(std, i)))
    if v.sym:
        v.ensures_all("training-std", ns, lambda i: v.same(v.at(std, i) * v.at(std, i), S))
    else:
        v.ensures_all("training-std", ns, lambda i: v.same(v.at(std, i), math.sqrt(S), scale=sc))


# --- checkpoints (joblib is not modelled: run time only) -------------------------------------------------
class Toy:
    """deterministic, picklable: predictions depend on all of its parameter, the training set and the input"""

    def __init__(self, a, k=0):
        self.a, self.k = a, k

    def fit(self, X, y):
        self.w = float(rnp.sum(rnp.cos(X)) + rnp.sum(rnp.sin(3.0 * y))) + self.a

    def base(self, X):
        return rnp.sin(self.w + X.reshape(len(X), -1).sum(axis=1))

    def predict_log_proba(self, X):
        p = 1.5 + rnp.sin(self.base(X)[:, None] * (1.0 + rnp.arange(self.k)))
        return rnp.log(p / p.sum(axis=1, keepdims=True))

    def predict(self, X, return_std=False):
        m = self.base(X)
        return (m, 0.1 + m * m) if return_std else m


@contract("C21", "checkpoint", [GP, GG], n_rand=25, modes="r")
def checkpoint(v):
    """a checkpoint folder shared by any sequence of calls never changes a result"""
    r = rnp.random.RandomState(v.int("s", 0, 10**6))
    d = tempfile.mkdtemp(prefix="vpchk")
    try:
        C, G = v.m("classification").get_pred_log_prob, v.m("regression").get_gauss_pred
        Xs = [r.randn(4, 2) for _ in range(2)]
        Yc = [r.randint(0, 2, size=4) for _ in range(2)]
        Yr = [r.randn(4) for _ in range(2)]
        for step in range(6):
            Xa, Xb, a = Xs[r.randint(2)], Xs[r.randint(2)], r.choice([0.0, 1.0])
            D = lambda k=2: {"m": Toy(a, k), "n": Toy(1.0 - a, k)}
            if r.rand() < 0.5:
                y, kw = Yc[r.randint(2)], dict(min_log_prob=r.choice([-1.0, -INF]))
                e, g = v.call(C, Xa, y, Xb, 2, D(), **kw), v.call(C, Xa, y, Xb, 2, D(), checkpointdir=d, **kw)
            else:
                y, kw = Yr[r.randint(2)], dict(min_std=r.choice([0.0, 0.5]))
                e, g = v.call(G, Xa, y, Xb, D(), **kw), v.call(G, Xa, y, Xb, D(), checkpointdir=d, **kw)
            v.ensures("same-with-checkpoints", list(e.columns) == list(g.columns) and list(e.index) == list(g.index) and rnp.array_equal(e.values, g.values))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --- one-call benchmarks ---------------------------------------------------------------------------------
def note(kind, rec):
    return C16.note(kind, rec)


@stub(GP)
def _gp(v, X_train, y_train, X_test, n_labels, methods, min_log_prob=-INF, verbose=False, checkpointdir=None):
    rec = dict(a=(X_train, y_train, X_test, n_labels, methods), fl=min_log_prob, out=("predictions",))
    note("pred", rec)
    return rec["out"]


@stub(GG)
def _gg(v, X_train, y_train, X_test, methods, min_std=0.0, verbose=False, checkpointdir=None):
    rec = dict(a=(X_train, y_train, X_test, methods), fl=min_std, out=("predictions",))
    note("pred", rec)
    return rec["out"]


@stub(CL + "summary_table")
def _st(v, log_pred_prob_table, y, loss_dict, curve_dict, ref_method, x_grid=None, n_boot=1000, pairwise_CI=False, confidence=0.95, method_EB="t", limits={}):
    note("sum", dict(tbl=log_pred_prob_table, y=y, ld=loss_dict, cd=curve_dict, ref=ref_method, pw=pairwise_CI, rest=(x_grid, n_boot, confidence), meth=method_EB, lim=dict(limits)))
    return ("full",), ("dump",)


@stub(RG + "loss_table")
def _rlt(v, pred_tbl, y, metrics_dict):
    note("rlt", dict(tbl=pred_tbl, y=y, d=metrics_dict, out=("losses",)))
    return v.notes("rlt")[-1]["out"]


@stub(RG + "loss_summary_table")
def _rls(v, loss_table, ref_method, pairwise_CI=False, confidence=0.95, method_EB="t", limits={}):
    note("rls", dict(loss=loss_table, ref=ref_method, pw=pairwise_CI, conf=confidence, meth=method_EB, lim=dict(limits)))
    return ("summary",)


def opts(v):
    if v.case["args"]:
        return dict(pairwise_CI=v.choice("pw", [True, False]), method_EB="boot", limits={"q": (0.0, 2.0)})
    return {}


@contract("C21", "classification.just_benchmark", [CL + "just_benchmark"], cases=[{"args": False}, {"args": True}], stubs=[GP, CL + "summary_table"], modes="p")
def class_bench(v):
    nt, ns, d, Xa, Xb = data(v)
    ya, yb = labels(v, "ya", nt, 2), labels(v, "yb", ns, 2)
    M, LD, CD = {"m": "estimator"}, {"q": "loss"}, {"c": "curve"}
    kw = opts(v)
    fl = -INF
    if kw:
        fl = v.real("floor", hi=0.0, open="h")
    out = v.call(v.m("classification").just_benchmark, Xa, ya, Xb, yb, 2, M, LD, CD, "m", **(dict(kw, min_pred_log_prob=fl) if kw else {}))
    P, S = v.notes("pred"), v.notes("sum")
    v.ensures("predict-then-summarise", len(P) == 1 and len(S) == 1 and S[0]["tbl"] is P[0]["out"])
    p, s = P[0], S[0]
    v.ensures("prediction-arguments", p["a"][0] is Xa and p["a"][1] is ya and p["a"][2] is Xb and p["a"][3] == 2 and p["a"][4] == M)
    v.ensures("floor", v.same(p["fl"], fl))
    v.ensures("judged-on-test-labels", s["y"] is yb)
    v.ensures("metrics", s["ld"] == LD and s["cd"] == CD and s["ref"] == "m" and s["rest"] == (None, 1000, 0.95))
    v.ensures("options", s["pw"] == kw.get("pairwise_CI", False) and s["meth"] == kw.get("method_EB", "t") and s["lim"] == kw.get("limits", {}))
    v.ensures("result", out == (("full",), ("dump",)))


@contract("C21", "regression.just_benchmark", [RG + "just_benchmark"], cases=[{"args": False}, {"args": True}], stubs=[GG, RG + "loss_table", RG + "loss_summary_table"], modes="p")
def regr_bench(v):
    nt, ns, d, Xa, Xb = data(v)
    ya, yb = v.array("ya", nt), v.array("yb", ns)
    M, LD = {"m": "estimator"}, {"q": "loss"}
    kw = opts(v)
    fl = 0.0
    if kw:
        fl = v.real("floor", lo=0.0)
    out = v.call(v.m("regression").just_benchmark, Xa, ya, Xb, yb, M, LD, "m", **(dict(kw, min_std=fl) if kw else {}))
    P, L, S = v.notes("pred"), v.notes("rlt"), v.notes("rls")
    v.ensures("predict-losses-summary", len(P) == 1 and len(L) == 1 and len(S) == 1 and L[0]["tbl"] is P[0]["out"] and S[0]["loss"] is L[0]["out"])
    p, l, s = P[0], L[0], S[0]
    v.ensures("prediction-arguments", p["a"][0] is Xa and p["a"][1] is ya and p["a"][2] is Xb and p["a"][3] == M)
    v.ensures("floor", v.same(p["fl"], fl))
    v.ensures("judged-on-test-targets", l["y"] is yb)
    v.ensures("metrics", l["d"] == LD and s["ref"] == "m" and s["conf"] == 0.95)
    v.ensures("options", s["pw"] == kw.get("pairwise_CI", False) and s["meth"] == kw.get("method_EB", "t") and s["lim"] == kw.get("limits", {}))
    v.ensures("result", out == ("summary",))


@contract("C21", "just_benchmark.rejects", [CL + "just_benchmark", RG + "just_benchmark"], cases=[{"which": "c"}, {"which": "r"}], n_rand=10, modes="r")
def bench_rejects(v):
    r = rnp.random.RandomState(v.int("s", 0, 10**6))
    Xa, Xb = r.randn(4, 1), r.randn(3, 1)
    if v.case["which"] == "c":
        m = v.m("classification")
        o = v.run(m.just_benchmark, Xa, rnp.array([0, 1, 0, 1]), Xb, rnp.array([True, False, True]), 2, {"m": Toy(0, 2)}, {"q": m.log_loss}, {}, "m")
    else:
        m = v.m("regression")
        o = v.run(m.just_benchmark, Xa, r.randn(4), Xb, rnp.array([1, 2, 3]), {"m": Toy(0)}, {"q": m.square_loss}, "m")
    v.must_reject(o, "rejects-label-type-mismatch")


@contract("C21", "classification.just_benchmark.end-to-end", [CL + "just_benchmark"], n_rand=25, modes="r")
def class_bench_run(v):
    m_ = v.m("classification")
    r = rnp.random.RandomState(v.int("s", 0, 10**6))
    nt, ns = v.dim("n_train", 1, hi=8), v.dim("n_test", 1, hi=10)
    Xa, Xb = r.randn(nt, 2), r.randn(ns, 2)
    ya, yb = r.randint(0, 2, size=nt), r.randint(0, 2, size=ns)
    M = {"svm": Toy(1.0, 2), "gp": Toy(2.0, 2)}
    ref = v.choice("ref", ["svm", "gp"])
    CD = {c: m_.STD_BINARY_CURVES[c] for c in v.choice("curves", [("AUC",), ("AP", "AUC"), ()])}
    LD = {c: m_.STD_CLASS_LOSS[c] for c in v.choice("losses", [("NLL", "zero_one"), ("sphere", "Brier"), ("zero_one",)])}
    pw, meth, lim = v.choice("pw", [True, False]), v.choice("meth", ["t", "bernstein", "boot"]), v.choice("lim", [{}, {"zero_one": (0.0, 1.0), "Brier": (0.0, 4.0)}])
    fl = v.choice("floor", [-INF, -0.9])
    kw = dict(pairwise_CI=pw, method_EB=meth, limits=lim, min_pred_log_prob=fl) if v.choice("kw", [True, True, False]) else {}
    if not kw:
        pw, meth, lim, fl = False, "t", {}, -INF
    v.assume(len(CD) > 0)
    v.seed()
    v.watch_draws()
    T, dump = v.call(m_.just_benchmark, Xa, ya, Xb, yb, 2, M, LD, CD, ref, **kw)
    tbl = v.call(m_.get_pred_log_prob, Xa, ya, Xb, 2, M, min_log_prob=fl)
    C16.check_summary(v, T, dump, {m: rnp.array(tbl[m].values) for m in M}, yb, list(M), ref, ns, LD, CD, lim, 0.95, pw, meth, 1000, None)


@contract("C21", "regression.just_benchmark.end-to-end", [RG + "just_benchmark"], n_rand=60, modes="r")
def regr_bench_run(v):
    m_ = v.m("regression")
    r = rnp.random.RandomState(v.int("s", 0, 10**6))
    nt, ns = v.dim("n_train", 1, hi=8), v.dim("n_test", 1, hi=10)
    Xa, Xb, ya, yb = r.randn(nt, 2), r.randn(ns, 2), r.randn(nt), r.randn(ns)
    M = {"svm": Toy(1.0), "gp": Toy(2.0), "a": Toy(3.0)}
    ref = v.choice("ref", ["svm", "gp"])
    LD = {c: m_.STD_REGR_LOSS[c] for c in v.choice("losses", [("NLL", "MSE"), ("MAE",)])}
    pw, meth = v.choice("pw", [True, False]), v.choice("meth", ["t", "bernstein", "boot"])
    lim = v.choice("lim", [{}, {"MAE": (0.0, 100.0)}])
    fl = v.choice("floor", [0.0, 0.5])
    kw = dict(pairwise_CI=pw, method_EB=meth, limits=lim, min_std=fl) if v.choice("kw", [True, True, False]) else {}
    if not kw:
        pw, meth, lim, fl = False, "t", {}, 0.0
    v.seed()
    v.watch_draws()
    T = v.call(m_.just_benchmark, Xa, ya, Xb, yb, M, LD, ref, **kw)
    C16.shape_ok(v, T, list(M), list(LD))
    L = {}
    for m in M:
        M[m].fit(Xa, ya)
        mu, s = M[m].predict(Xb, return_std=True)
        s = rnp.maximum(fl, s)
        dd = yb - mu
        L["MSE", m], L["MAE", m], L["NLL", m] = dd**2, abs(dd), rnp.log(s) + 0.5 * math.log(2 * math.pi) + 0.5 * (dd / s) ** 2
    for q in LD:
        lo, hi = lim.get(q, (-INF, INF))
        for m in M:
            mu, EB, p = (v.cell(T, m, (q, s)) for s in ("mean", "error", "p"))
            x, dl = L[q, m], L[q, m] - L[q, ref]
            sc = max(1.0, abs(x).max(), abs(L[q, ref]).max())
            v.ensures("mean", oracle.near(mu, x.mean(), scale=sc))
            rr = hi - lo
            if pw and m == ref:
                v.ensures("error", rnp.isnan(EB))
            else:
                z = (dl, -rr, rr) if pw else (x, lo, hi)
                v.ensures("error", tables.eb_is(v, EB, z[0], 0.95, z[1], z[2], meth, sc) or (ns > 1 and rnp.std(z[0]) < 1e-6 * sc))
            v.ensures("p", rnp.isnan(p) if m == ref else rnp.std(dl) < 1e-6 * sc and ns > 1 or tables.p_is(v, p, dl, -rr, rr, meth, sc))
