"""C08: loss summary table."""
import pandas as pd
import numpy as rnp
from pyvc.verify import contract
from . import spec, tables, oracle
from .tables import INF

F = ["mlpaper.mlpaper.loss_summary_table"]
CONF = lambda r: r.choice([0.95, 0.5, 0.9, 0.99, r.rand() * 0.98 + 0.01])
SHAPES = {"1x1": (1, 1), "1x2": (1, 2), "2x2": (2, 2), "1x3": (1, 3)}


def setup(v):
    nm, nk = SHAPES[v.case["shape"]] if v.sym else v.choice("shape", [(1, 1), (1, 2), (2, 2), (1, 3), (3, 2), (2, 4)])
    metrics = tables.names(v, "metrics", ["NLL", "zero_one", "Brier", "a"][: max(nm, 3)], nm)
    methods = tables.names(v, "methods", ["svm", "gp", "iid", "zz"][: max(nk, 3)], nk)
    ref = v.choice("ref", methods)
    lim = {}
    for q, m in enumerate(metrics):
        k = v.choice("lim:%d" % q, ["none", "both", "lower"]) if q == 0 or not v.sym else "none"
        if k != "none":
            lo = v.real("lo:%d" % q, gen=lambda r: r.choice([0.0, -1.0, 0.5]))
            lim[m] = (lo, INF if k == "lower" else lo + v.real("rg:%d" % q, 0.0, gen=lambda r: r.choice([1.0, 2.0, 0.0, 10.0])))
    v.limits = lim
    n = v.dim("n", 1, small=[1, 2])
    keys = tables.colorder(v, [(m, k) for m in metrics for k in methods])
    cols = {}
    for m, k in keys:
        lo, hi = lim.get(m, (-INF, INF))
        v.bounds(lo, hi)
        nm_ = "loss:%d:%d" % (metrics.index(m), methods.index(k))
        if v.sym:
            cols[m, k] = v.array(nm_, n, fact=lambda i, t, lo=lo, hi=hi: v.and_(v.le0(lo, v.flt(t)), v.le0(v.flt(t), hi)))
        else:
            cols[m, k] = v.array(nm_, n, gen=lambda r, sh, lo=lo, hi=hi: losses(r, sh, lo, hi))
    columns = pd.MultiIndex.from_tuples(keys, names=["metric", "method"])
    return n, metrics, methods, ref, lim, cols, v.frame([cols[k] for k in keys], columns, n)


def losses(r, sh, lo, hi):
    st = r.randint(5)
    a = r.rand(*sh)
    if st == 1:
        a = (r.rand(*sh) < 0.3) * 1.0
    elif st == 2:
        a = rnp.round(r.rand(*sh), 1)
    elif st == 3:
        a = rnp.zeros(sh) + r.choice([0.0, 1.0, 0.25])
    if lo > -INF and hi < INF:
        return rnp.clip(lo + (hi - lo) * a, lo, hi)
    if lo > -INF:
        return rnp.maximum(lo, lo + a * r.choice([1.0, 50.0]))
    a = (a - r.choice([0.0, 0.5])) * r.choice([1.0, 100.0])
    if st == 4 and r.rand() < 0.3:
        a[r.rand(*sh) < 0.3] = INF
    return a


def call(v, tbl, ref, lim, pw, conf, meth):
    kw = {}
    if pw is not None:
        kw["pairwise_CI"] = pw
    if conf is not None:
        kw["confidence"] = conf
    if meth is not None:
        kw["method_EB"] = meth
    if lim:
        kw["limits"] = lim
    return v.run(v.m("mlpaper").loss_summary_table, tbl, ref, **kw)


CASES = [{"shape": s, "pw": p} for s in SHAPES for p in (True, False)]


@contract("C08", "cells", F, cases=CASES, stubs=tables.GM, n_rand=80, max_paths=400)
def cells(v):
    n, metrics, methods, ref, lim, cols, tbl = setup(v)
    pw = v.case["pw"]
    conf = v.real("conf", 0.0, 1.0, open="lh", gen=CONF)
    meth = v.choice("method", ["t", "bernstein", "boot"] if not v.sym else ["bernstein"])
    check(v, n, metrics, methods, ref, lim, cols, tbl, pw, conf, meth)


@contract("C08", "defaults", F, stubs=tables.GM, cases=[{"shape": "1x2"}], n_rand=40)
def defaults(v):
    n, metrics, methods, ref, lim, cols, tbl = setup(v)
    check(v, n, metrics, methods, ref, lim, cols, tbl, None, None, None)


def check(v, n, metrics, methods, ref, lim, cols, tbl, pw, conf, meth):
    v.seed()
    v.watch_draws()
    for m in metrics:
        if not v.sym:
            for k in methods:
                with rnp.errstate(all="ignore"):
                    v.assume(not rnp.any(rnp.isnan(cols[m, k] - cols[m, ref])))
    o = call(v, tbl, ref, dict(lim), pw, conf, meth)
    if o.raised is not None:
        v.call(lambda: raise_(o.raised))
    T = o.value
    pw = False if pw is None else pw  # documented default
    conf = 0.95 if conf is None else conf
    meth = "t" if meth is None else meth
    v.ensures("is-a-table", v.is_frame(T))
    v.ensures("rows-are-the-methods", sorted(v.row_labels(T)) == sorted(methods))
    v.ensures("columns-are-metrics-x-stats", sorted(T.columns) == sorted((m, s) for m in metrics for s in ("mean", "error", "p")))
    v.ensures("names", list(T.columns.names) == ["metric", "stat"] and list(T.index.names) == ["method"])
    for m in metrics:
        lo, hi = lim.get(m, (-INF, INF))
        for k in methods:
            tag = "[%s,%s]" % (("m%d" % metrics.index(m)), "ref" if k == ref else "method")
            mu, EB, p = (v.cell(T, k, (m, s)) for s in ("mean", "error", "p"))
            x = cols[m, k]
            sc = 1.0 if v.sym else max([1e-300] + [abs(q) for c in (x, cols[m, ref]) for q in c if abs(q) < INF])
            if v.sym:
                v.ensures("mean" + tag, v.same(mu, spec.mean(v, x)))
            else:
                v.ensures("mean" + tag, oracle.near(mu, rnp.mean(x), scale=sc))
            r = hi - lo
            d = tables.sub(v, n, x, cols[m, ref])
            if not pw:
                v.ensures("error" + tag, tables.eb_is(v, EB, x, conf, lo, hi, meth, sc))
            elif k == ref:
                v.ensures("error-NaN" + tag, v.isnan(EB))
            else:
                v.ensures("error" + tag, tables.eb_is(v, EB, d, conf, -r, r, meth, sc))
            if k == ref:
                v.ensures("p-NaN" + tag, v.isnan(p))
            else:
                v.ensures("p" + tag, tables.p_is(v, p, d, -r, r, meth, sc))
    for key, c in cols.items():
        v.ensures("input-unchanged", v.all(n, lambda i: v.same(v.at(v.col(tbl, key), i), v.at(c, i))))


def raise_(e):
    raise e


@contract("C08", "rejects", F, stubs=tables.GM, cases=[{"shape": "1x2"}], n_rand=80)
def rejects(v):
    """NaN or out-of-limits losses, unknown reference: rejected, whoever they belong to"""
    n = v.dim("n", 1, small=[1, 2])
    lo = v.real("lo", gen=lambda r: r.choice([0.0, -1.0]))
    hi = lo + v.real("rg", 0.0, gen=lambda r: r.choice([1.0, 3.0]))
    a = v.array("a", n, ext="any", gen=lambda r, sh: lo + (hi - lo) * r.rand(*sh) + (r.rand() < 0.6) * r.randn(*sh) * (r.rand(*sh) < 0.3))
    b = v.array("b", n, ext="any", gen=lambda r, sh: lo + (hi - lo) * r.rand(*sh) + (r.rand() < 0.6) * r.randn(*sh) * (r.rand(*sh) < 0.3))
    tbl = v.frame([a, b], pd.MultiIndex.from_tuples([("m", "A"), ("m", "B")], names=["metric", "method"]), n)
    ok = v.and_(*[v.all(n, lambda i, x=x: v.and_(v.le0(lo, v.at(x, i)), v.le0(v.at(x, i), hi))) for x in (a, b)])
    which = v.choice("which", ["limits", "ref", "nan"])
    pw = v.choice("pw", [True, False])
    if which == "ref":
        v.assume(ok)
        v.must_reject(v.run(v.m("mlpaper").loss_summary_table, tbl, "C", pw, limits={"m": (lo, hi)}), "rejects-unknown-reference")
    elif which == "limits":
        v.assume(v.not_(ok))
        v.must_reject(v.run(v.m("mlpaper").loss_summary_table, tbl, "A", pw, limits={"m": (lo, hi)}), "rejects-losses-outside-limits")
    else:
        v.assume(v.or_(v.any(n, lambda i: v.isnan(v.at(a, i))), v.any(n, lambda i: v.isnan(v.at(b, i)))))
        v.must_reject(v.run(v.m("mlpaper").loss_summary_table, tbl, "A", pw), "rejects-NaN")
