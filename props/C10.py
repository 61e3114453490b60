"""C10: normalisation and the classification loss table."""
from pyvc.verify import contract, stub, require
from .common import logprobs, labels

NO = "mlpaper.util.normalize"


def shiftgen(r, sh):
    return r.choice([0.0, 1.0, 30.0, 1000.0, -1e5, 1e-6]) * r.randn(*sh)


@contract("C10", "normalize", [NO], n_rand=300)
def normalize(v):
    n, k = v.dim("n", 0), v.dim("k", 1, hi=None if v.sym else 8)
    lp = logprobs(v, "lp", n, k)
    if not v.sym:
        keep = lp.copy()
    r = v.call(v.m("util").normalize, lp)
    v.ensures("shape", v.and_(len(r.shape) == 2, v.eq(r.shape[0], n), v.eq(r.shape[1], k)))
    v.ensures_all("rows-are-distributions", n, lambda i: v.same(v.sum(k, lambda j: v.exp(v.at(r, i, j))), 1.0))
    if v.sym:
        S = lambda i: v.sum(k, lambda j: v.exp(v.at(lp, i, j)))
        v.ensures_all("constant-shift-per-row", n, lambda i: v.all(k, lambda j: v.eq(v.exp(v.at(r, i, j)) * S(i), v.exp(v.at(lp, i, j)))))
    else:
        import math

        for i in range(n):
            j = int(v.np.argmax(lp[i]))
            c = lp[i, j] - r[i, j]
            v.ensures("constant-shift-per-row", v.isfin(c) and all(v.same(lp[i, q], r[i, q] + c, scale=max(1.0, abs(lp[i, j]))) for q in range(k)))
        v.ensures("input-unchanged", bool(v.np.array_equal(lp, keep)))
    v.unchanged("frame", lp)


@contract("C10", "normalize.idempotent", [NO], n_rand=150)
def idem(v):
    n, k = v.dim("n", 0), v.dim("k", 1, hi=None if v.sym else 8)
    lp = logprobs(v, "lp", n, k, norm=True)
    r = v.call(v.m("util").normalize, lp)
    v.ensures_all("normalised-rows-unchanged", n, lambda i: v.all(k, lambda j: v.same(v.at(r, i, j), v.at(lp, i, j))))


@contract("C10", "normalize.scale", [NO], n_rand=150)
def scale(v):
    """multiplying the probabilities of a row by any positive constant does not matter"""
    n, k = v.dim("n", 0), v.dim("k", 1, hi=None if v.sym else 8)
    lp = logprobs(v, "lp", n, k)
    if v.sym:
        c = v.array("c", n, lo=0.0, open="l")
        lp2 = v.make_array2(n, k, lambda i, j: v.exp(v.at(lp, i, j)) * v.at(c, i), log=True)
    else:
        c = v.array("c", n, gen=shiftgen)
        lp2 = lp + c[:, None]
    f = v.m("util").normalize
    a, b = v.call(f, lp), v.call(f, lp2)
    if v.sym:
        v.ensures_all("scale-invariant", n, lambda i: v.all(k, lambda j: v.eq(v.exp(v.at(a, i, j)), v.exp(v.at(b, i, j)))))
    else:
        v.ensures_all("scale-invariant", n, lambda i: v.all(k, lambda j: v.same(v.at(a, i, j), v.at(b, i, j), scale=max(1.0, abs(c[i]) , abs(lp[i][v.np.isfinite(lp[i])]).max()))))


@contract("C10", "normalize.rejects", [NO], cases=[{"why": "1d"}, {"why": "no labels"}], n_rand=20)
def rejects(v):
    if v.case["why"] == "1d":
        lp = v.array("lp", v.dim("n", 1))
    else:
        lp = v.array("lp", (v.dim("n", 1), 0))
    v.must_reject(v.run(v.m("util").normalize, lp))


# --- the loss table ----------------------------------------------------------------------------------
import pandas as pd
import numpy as rnp
from . import tables, oracle

LT = ["mlpaper.classification.loss_table"]
SHAPES = {"1x1x2": (1, 1, 2), "2x1x1": (2, 1, 1), "2x2x2": (2, 2, 2), "1x2x3": (1, 2, 3)}


@stub(NO)
def _normalize(v, pred_log_prob):
    """contract 'normalize': exp(result) = exp(input) / row sum of exp(input)"""
    from pyvc import core
    from pyvc.arr import SArr

    lp = pred_log_prob
    require(lp.ndim == 2)
    require(lp.shape[1] >= 1)
    n, k = lp.shape
    g = lp.copy()
    S = {}

    def get(i, j):
        return core.logof(core.flt(v.exp(g.at(i, j))).v / core.flt(v.sum(k, lambda q: v.exp(g.at(i, core.intt(q))))).v)

    return SArr((n, k), get, "f")


def setup_table(v):
    """log prediction table with columns in any method order"""
    nm, nk, k = SHAPES[v.case["shape"]] if v.sym else v.choice("shape", [(1, 1, 2), (2, 1, 1), (2, 2, 2), (1, 2, 3), (3, 3, 2), (2, 4, 5)])
    methods = tables.names(v, "methods", ["svm", "gp", "iid", "zz"][: max(nk, 3)], nk)
    n = v.dim("n", 1, small=[1, 2])
    keys = [(m, j) for m in methods for j in range(k)]
    if nk > 1 and v.choice("interleave", [False, True]):
        keys = [(m, j) for j in range(k) for m in methods]
    lp = {}
    for q, m in enumerate(methods):
        lp[m] = logprobs(v, "lp:%d" % q, n, k)
    y = labels(v, "y", n, k)
    cols = [v.make_array(n, lambda i, m=m, j=j: v.at(lp[m], i, j)) for m, j in keys]
    tbl = v.frame(cols, pd.MultiIndex.from_tuples(keys, names=["method", "label"]), n)
    return nm, methods, n, k, lp, y, keys, tbl


@contract("C10", "table", LT, cases=[{"shape": s, "norm": b} for s in SHAPES for b in (None, False, True)], stubs=[NO], n_rand=60)
def table(v):
    nm, methods, n, k, lp, y, keys, tbl = setup_table(v)
    metrics = {q: tables.Metric(v, q, n, 2) for q in ["zz", "NLL", "b"][:nm]}
    kw = {} if v.case["norm"] is None else {"assume_normalized": v.case["norm"]}
    T = v.call(v.m("classification").loss_table, tbl, y, metrics, **kw)
    v.ensures("is-a-table", v.is_frame(T))
    v.ensures("rows-of-the-predictions", v.same_rows(T, tbl))
    v.ensures("columns-are-metric-x-method", sorted(T.columns) == sorted((q, m) for q in metrics for m in methods) and list(T.columns.names) == ["metric", "method"])

    def good(m):
        def f(yy, pp):
            if len(pp.shape) != 2:
                return False
            c = [v.eq(pp.shape[0], n), v.eq(pp.shape[1], k)]
            if not v.sym:
                if not all(c) or not rnp.array_equal(yy, y):
                    return False
                want = lp[m] if v.case["norm"] else oracle.lognorm(lp[m])
                return bool(rnp.allclose(pp, want, rtol=1e-9, atol=1e-9 * max(1.0, rnp.abs(lp[m][rnp.isfinite(lp[m])]).max(initial=0.0))))
            c.append(tables.vec_same(v, n, yy, y))
            S = lambda i: v.sum(k, lambda j: v.exp(v.at(lp[m], i, j)))
            for j in range(k):
                if v.case["norm"]:
                    c.append(v.all(n, lambda i: v.same(v.at(pp, i, j), v.at(lp[m], i, j))))
                else:
                    c.append(v.all(n, lambda i: v.same(v.exp(v.at(pp, i, j)), v.exp(v.at(lp[m], i, j)) / S(i))))
            return v.and_(*c)

        return f

    for q in metrics:
        for m in methods:
            v.ensures("metric-of-own-%spredictions" % ("" if v.case["norm"] else "normalised-"), metrics[q].came_from(v.col(T, (q, m)), good(m)))
    for m, j in keys:
        v.ensures("input-unchanged", v.all(n, lambda i: v.same(v.at(v.col(tbl, (m, j)), i), v.at(lp[m], i, j))))


@contract("C10", "table.std-losses", LT, n_rand=150, modes="r")
def std_losses(v):
    """the standard loss dictionary gives the proper scores of the normalised predictions"""
    nm, methods, n, k, lp, y, keys, tbl = setup_table(v)
    m_ = v.m("classification")
    D = m_.STD_CLASS_LOSS
    v.ensures("standard-losses", sorted(D) == ["Brier", "NLL", "sphere", "zero_one"])
    v.assume(k > 1)
    an = v.choice("norm", [False, True])
    if an:
        for q, m in enumerate(methods):
            lp[m] = oracle.lognorm(lp[m])
        tbl = v.frame([lp[m][:, j] for m, j in keys], tbl.columns, n, index=tbl.index)
    T = v.call(m_.loss_table, tbl, y, D, assume_normalized=an)
    for m in methods:
        P = oracle.lognorm(lp[m])
        for q in D:
            c = v.col(T, (q, m))
            e = oracle.class_loss(q, y, P)
            sc = max(1.0, rnp.abs(lp[m][rnp.isfinite(lp[m])]).max(initial=0.0))
            v.ensures("loss-" + q, all(any(oracle.near(c[i], w, rtol=1e-8, scale=sc if q == "NLL" else 10.0) for w in e[i]) for i in range(n)))


@contract("C10", "table.rejects", LT, stubs=[NO], cases=[{"why": w, "norm": b} for w in ("nan", "order", "length") for b in (False, True)], n_rand=40)
def table_rejects(v):
    why = v.case["why"]
    n = v.dim("n", 1, small=[1, 2])
    a, b, c, d = (v.array(q, n, ext="nan" if why == "nan" else None) for q in "abcd")
    ny = v.dim("ny", 1, small=[1, 2]) if why == "length" else n
    y = v.array("y", ny, kind="i", lo=0, hi=1)
    keys = [("A", 0), ("A", 1), ("B", 0), ("B", 1)]
    if why == "order":
        keys = [keys[i] for i in v.choice("perm", [(1, 0, 2, 3), (0, 1, 3, 2)])]
    if why == "nan":
        v.assume(v.or_(*[v.any(n, lambda i, q=q: v.isnan(v.at(q, i))) for q in (a, b, c, d)]))
    if why == "length":
        v.assume(v.not_(v.eq(n, ny)))
    tbl = v.frame([a, b, c, d], pd.MultiIndex.from_tuples(keys, names=["method", "label"]), n)
    M = {"q": tables.Metric(v, "q", n, 2)}
    v.must_reject(v.run(v.m("classification").loss_table, tbl, y, M, assume_normalized=v.case["norm"]), "rejects-" + why)
