"""C11: regression losses and loss table."""
import math
from pyvc.verify import contract, stub, require

RG = "mlpaper.regression."
FN = ("square_loss", "abs_loss", "log_loss")
SV_ = RG + "shape_and_validate"


def gstd(r, sh):
    return 10.0 ** r.uniform(-4, 4, size=sh) if r.rand() < 0.5 else r.choice([0.5, 1.0, 2.0], size=sh)


def setup(v):
    n = v.dim("n", 1)
    return n, v.array("y", n), v.array("mu", n), v.array("std", n, lo=0.0, open="l", gen=gstd)


@contract("C11", "losses", [RG + f for f in FN] + [SV_], cases=[{"fn": f} for f in FN], n_rand=300)
def losses(v):
    n, y, mu, std = setup(v)
    if not v.sym:
        keep = (y.copy(), mu.copy(), std.copy())
    r = v.call(getattr(v.m("regression"), v.case["fn"]), y, mu, std)
    v.ensures("shape", v.and_(len(r.shape) == 1, v.eq(r.shape[0], n)))

    def e(i):
        d = v.at(y, i) - v.at(mu, i)
        if v.case["fn"] == "square_loss":
            return d * d
        if v.case["fn"] == "abs_loss":
            return v.abs(d)
        s = v.at(std, i)
        z = d / s
        return v.log(s) + 0.5 * v.log(2.0 * v.np.pi) + 0.5 * (z * z)

    v.ensures_all("value", n, lambda i: v.same(v.at(r, i), e(i)))
    v.unchanged("frame", y, mu, std)
    if not v.sym:
        v.ensures("inputs-unchanged", all((a == b).all() for a, b in zip(keep, (y, mu, std))))


@contract("C11", "rejects", [RG + f for f in FN] + [SV_], cases=[{"fn": f, "why": w} for f in FN for w in ("y", "mu", "std", "sign", "len_mu", "len_std", "empty")], n_rand=30)
def rejects(v):
    why = v.case["why"]
    n = 0 if why == "empty" else v.dim("n", 1)
    ext = lambda k: "any" if why == k else None
    y = v.array("y", n, ext=ext("y"))
    m = v.dim("m", 1) if why == "len_mu" else n
    s = v.dim("m", 1) if why == "len_std" else n
    if why in ("len_mu", "len_std"):
        v.assume(v.not_(v.eq(n, m if why == "len_mu" else s)))
    mu = v.array("mu", m, ext=ext("mu"))
    if why == "sign":
        std = v.array("std", s)
        v.assume(v.any(n, lambda i: v.le0(v.at(std, i), 0.0)))
    else:
        std = v.array("std", s, lo=0.0, open="l", ext=ext("std"), gen=gstd)
    for k, a in (("y", y), ("mu", mu), ("std", std)):
        if why == k:
            v.assume(v.not_(v.allfin(a)))
    v.must_reject(v.run(getattr(v.m("regression"), v.case["fn"]), y, mu, std))


# --- the loss table ----------------------------------------------------------------------------------
import pandas as pd
import numpy as rnp
from . import tables, oracle

LT = [RG + "loss_table"]
SHAPES = {"1x1": (1, 1), "2x1": (2, 1), "2x2": (2, 2), "1x3": (1, 3)}


def setup_table(v):
    nm, nk = SHAPES[v.case["shape"]] if v.sym else v.choice("shape", [(1, 1), (2, 1), (2, 2), (1, 3), (3, 4)])
    methods = tables.names(v, "methods", ["svm", "gp", "iid", "zz"][: max(nk, 3)], nk)
    n = v.dim("n", 1, small=[1, 2])
    mu = {m: v.array("mu:%d" % q, n) for q, m in enumerate(methods)}
    std = {m: v.array("std:%d" % q, n, lo=0.0, open="l", gen=gstd) for q, m in enumerate(methods)}
    y = v.array("y", n)
    keys = tables.colorder(v, [(m, s) for m in methods for s in ("mu", "std")])
    tbl = v.frame([mu[m] if s == "mu" else std[m] for m, s in keys], pd.MultiIndex.from_tuples(keys, names=["method", "moment"]), n)
    return nm, methods, n, mu, std, y, tbl


@contract("C11", "table", LT, cases=[{"shape": s} for s in SHAPES], n_rand=80)
def table(v):
    nm, methods, n, mu, std, y, tbl = setup_table(v)
    metrics = {q: tables.Metric(v, q, n, 3) for q in ["zz", "NLL", "b"][:nm]}
    T = v.call(v.m("regression").loss_table, tbl, y, metrics)
    v.ensures("is-a-table", v.is_frame(T))
    v.ensures("rows-of-the-predictions", v.same_rows(T, tbl))
    v.ensures("columns-are-metric-x-method", sorted(T.columns) == sorted((q, m) for q in metrics for m in methods) and list(T.columns.names) == ["metric", "method"])
    for q in metrics:
        for m in methods:
            good = lambda a, b, c, m=m: v.and_(tables.vec_same(v, n, a, y), tables.vec_same(v, n, b, mu[m]), tables.vec_same(v, n, c, std[m]))
            v.ensures("metric-of-own-predictions", metrics[q].came_from(v.col(T, (q, m)), good))
    for m in methods:
        v.ensures("input-unchanged", v.and_(tables.vec_same(v, n, v.col(tbl, (m, "mu")), mu[m]), tables.vec_same(v, n, v.col(tbl, (m, "std")), std[m])))


@contract("C11", "table.std-losses", LT + [RG + f for f in FN], n_rand=100, modes="r")
def std_losses(v):
    nm, methods, n, mu, std, y, tbl = setup_table(v)
    m_ = v.m("regression")
    D = m_.STD_REGR_LOSS
    v.ensures("standard-losses", sorted(D) == ["MAE", "MSE", "NLL"])
    T = v.call(m_.loss_table, tbl, y, D)
    for m in methods:
        for i in range(n):
            d = y[i] - mu[m][i]
            s = std[m][i]
            e = {"MSE": d * d, "MAE": abs(d), "NLL": math.log(s) + 0.5 * math.log(2 * math.pi) + 0.5 * (d / s) ** 2}
            for q in D:
                v.ensures("loss-" + q, oracle.near(v.col(T, (q, m))[i], e[q], rtol=1e-8))


@contract("C11", "table.rejects", LT, cases=[{"why": "length"}, {"why": "moments"}], n_rand=30)
def table_rejects(v):
    why = v.case["why"]
    n = v.dim("n", 1, small=[1, 2])
    ny = v.dim("ny", 1, small=[1, 2]) if why == "length" else n
    a, b, y = v.array("a", n), v.array("b", n, lo=0.0, open="l"), v.array("y", ny)
    if why == "length":
        v.assume(v.not_(v.eq(n, ny)))
    tbl = v.frame([a, b], pd.MultiIndex.from_tuples([("A", "mu"), ("A", "std" if why == "length" else "sd")], names=["method", "moment"]), n)
    M = {"q": tables.Metric(v, "q", n, 3)}
    v.must_reject(v.run(v.m("regression").loss_table, tbl, y, M), "rejects-" + why)
