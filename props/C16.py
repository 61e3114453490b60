"""C16: curve summary table and overall summary table."""
import numpy as rnp
import pandas as pd
from pyvc.verify import contract, stub, require
from . import oracle, tables, C06, C08, C15
from .common import logprobs, labels
from .tables import INF

CL = "mlpaper.classification."
CB, CST, LT, LST = CL + "curve_boot", CL + "curve_summary_table", CL + "loss_table", CL + "loss_summary_table"
SHAPES = {"1x1": (1, 1), "2x1": (2, 1), "1x2": (1, 2), "2x2": (2, 2)}


def note(kind, rec):
    from pyvc.core import ctx

    L = ctx().notes.setdefault(kind, [])
    L.append(rec)
    return len(L) - 1


def scalars(v, tag):
    import z3
    from pyvc.core import SFlt

    return tuple(SFlt(z3.Real("%s:%s" % (tag, s))) for s in ("mean", "error", "p"))


@stub(CB)
def _curve_boot(v, y, log_pred_prob, ref, curve_f="roc", x_grid=None, n_boot=1000, pairwise_CI=False, confidence=0.95):
    """C15; every call gives its own arbitrary result, remembered with its arguments"""
    rec = dict(y=y.copy(), lp=log_pred_prob.copy(), ref=ref, curve_f=curve_f, x_grid=x_grid, n_boot=n_boot, pw=pairwise_CI, conf=confidence)
    q = note("curve_boot", rec)
    rec["out"] = scalars(v, "cb%d" % q)
    rec["curve"] = "curve of call %d" % q
    return rec["out"], rec["curve"]


def fake_frame(v, tag, methods, metrics):
    from pyvc import pdf, arr
    import z3
    from pyvc.core import SFlt

    cols = pd.MultiIndex.from_product([metrics, ("mean", "error", "p")], names=["metric", "stat"])
    ix = pd.Index(sorted(methods), name="method")
    cs = [pdf.cellcol([SFlt(z3.Real("%s:%d:%d" % (tag, r, c))) for r in range(len(ix))]) for c in range(len(cols))]
    return pdf.SFrame(cs, cols, ix)


@stub(CST)
def _cst(v, log_pred_prob_table, y, curve_dict, ref_method, x_grid=None, n_boot=1000, pairwise_CI=False, confidence=0.95):
    rec = dict(tbl=log_pred_prob_table, y=y, d=curve_dict, ref=ref_method, x_grid=x_grid, n_boot=n_boot, pw=pairwise_CI, conf=confidence)
    note("cst", rec)
    rec["out"] = fake_frame(v, "cst", log_pred_prob_table.columns.levels[0], list(curve_dict))
    rec["dump"] = {"dump": 1}
    return rec["out"].copy(), rec["dump"]


@stub(LT)
def _lt(v, log_pred_prob_table, y, metrics_dict, assume_normalized=False):
    rec = dict(tbl=log_pred_prob_table, y=y, d=metrics_dict, norm=assume_normalized, out=("loss table",))
    note("lt", rec)
    return rec["out"]


@stub(LST)
def _lst(v, loss_table, ref_method, pairwise_CI=False, confidence=0.95, method_EB="t", limits={}):
    rec = dict(loss=loss_table, ref=ref_method, pw=pairwise_CI, conf=confidence, meth=method_EB, limits=dict(limits))
    note("lst", rec)
    t = v.notes("lt")[-1]
    rec["out"] = fake_frame(v, "lst", t["tbl"].columns.levels[0], sorted(t["d"]))
    return rec["out"].copy()


def setup(v, k=2):
    nm, nk = SHAPES[v.case["shape"]] if v.sym else v.choice("shape", [(1, 1), (2, 1), (1, 2), (2, 2), (1, 3)])
    methods = tables.names(v, "methods", ["svm", "gp", "iid"], nk)
    ref = v.choice("ref", methods)
    n = v.dim("n", 1, small=[1, 2], hi=None if v.sym else 12)
    lp = {m: logprobs(v, "lp:%d" % q, n, k, zeros=False) for q, m in enumerate(methods)}
    y = labels(v, "y", n, k)
    keys = [(m, j) for m in methods for j in range(k)]
    cols = [v.make_array(n, lambda i, m=m, j=j: v.at(lp[m], i, j)) for m, j in keys]
    tbl = v.frame(cols, pd.MultiIndex.from_tuples(keys, names=["method", "label"]), n)
    return nm, methods, ref, n, lp, y, keys, tbl


def grid(v):
    if v.choice("grid", [False, True]):
        ng = v.dim("ng", 1, small=[1, 2])
        g = v.array("g", ng, gen=C15.gridgen, lo=0.0, hi=1.0)
        v.assume_sorted(g, ng)
        return g
    return None


def shape_ok(v, T, methods, metrics):
    v.ensures("is-a-table", v.is_frame(T))
    v.ensures("rows-are-the-methods", sorted(v.row_labels(T)) == sorted(methods) and list(T.index.names) == ["method"])
    v.ensures("columns", sorted(T.columns) == sorted((c, s) for c in metrics for s in ("mean", "error", "p")) and list(T.columns.names) == ["metric", "stat"])


CURVES = {"AUC": ("roc_curve", oracle.roc), "AP": ("recall_precision_curve", oracle.rp), "AUPRG": ("prg_curve", oracle.prg)}


@contract("C16", "curve_summary_table", [CST], cases=[{"shape": s, "pw": p} for s in SHAPES for p in (None, False, True)], stubs=[CB], n_rand=25, budget=60, modes="pr")
def curve_summary(v):
    nm, methods, ref, n, lp, y, keys, tbl = setup(v)
    nb = v.dim("n_boot", 1, small=[1, 2], hi=None if v.sym else 40)
    conf = C06.conf_(v)
    g = grid(v)
    pw = v.case["pw"]
    kw = {} if pw is None else {"pairwise_CI": pw}
    if g is not None:
        kw["x_grid"] = g
    pw = bool(pw)
    names = ["AP", "AUC", "AUPRG"][:nm] if v.sym else list(v.choice("curves", [("AUC", "AP"), ("AP", "AUPRG"), ("AUPRG", "AUC")])[:nm])
    if v.sym:
        D = {c: "curve function " + c for c in names}
    else:
        D = {c: getattr(v.m("perf_curves"), CURVES[c][0]) for c in names}
        if "AUPRG" in D:
            v.assume(y.any() and not y.all())
    v.seed()
    v.watch_draws()
    o = v.run(v.m("classification").curve_summary_table, tbl, y, dict(D), ref, n_boot=nb, confidence=conf, **kw)
    if o.raised is not None:
        if not v.sym and "AUPRG" in D and pw and any(not C15.defined(v, oracle.prg, y, lp[m], lp[ref], pw, rnp.maximum(1e-10, r)) for m in methods for r in v._rec):
            v.reject()
        v.call(C15.raise_, o.raised)
    T, dump = o.value
    shape_ok(v, T, methods, names)
    v.ensures("one-curve-per-method-and-metric", sorted(dump) == sorted((m, c) for m in methods for c in names))
    gg = rnp.linspace(0.0, 1.0, 100) if g is None and not v.sym else g
    for m in methods:
        for c in names:
            tag = "[%s]" % ("ref" if m == ref else "method")
            mu, EB, p = (v.cell(T, m, (c, s)) for s in ("mean", "error", "p"))
            if m == ref:
                v.ensures("p-NaN" + tag, v.isnan(p))
                if pw:
                    v.ensures("error-NaN" + tag, v.isnan(EB))
            elif v.sym is False:
                v.ensures("p-range" + tag, 0 <= p <= 1)
            if v.sym:
                hit = [r for r in v.notes("curve_boot") if r["curve"] == dump[m, c]]
                v.ensures("curve-from-one-bootstrap" + tag, len(hit) == 1)
                r = hit[0]
                same2 = lambda a, b: v.and_(len(a.shape) == 2, v.eq(a.shape[0], n), v.eq(a.shape[1], 2), *[v.all(n, lambda i: v.same(v.at(a, i, j), v.at(b, i, j))) for j in (0, 1)])
                v.ensures("own-curve-function" + tag, r["curve_f"] == D[c])
                v.ensures("own-predictions" + tag, same2(r["lp"], lp[m]))
                v.ensures("reference-predictions" + tag, same2(r["ref"], lp[ref]))
                v.ensures("labels" + tag, tables.vec_same(v, n, r["y"], y))
                v.ensures("options" + tag, v.and_(r["pw"] is pw or r["pw"] == pw, v.same(r["conf"], conf), v.eq(r["n_boot"], nb)))
                if g is None:
                    v.ensures("grid" + tag, r["x_grid"] is None)
                else:
                    v.ensures("grid" + tag, tables.vec_same(v, g.shape[0], r["x_grid"], g))
                v.ensures("mean" + tag, v.same(mu, r["out"][0]))
                if not (pw and m == ref):
                    v.ensures("error" + tag, v.same(EB, r["out"][1]))
                if m != ref:
                    v.ensures("p" + tag, v.same(p, r["out"][2]))
            else:
                rec = [r for r in v._rec if r.ndim == 2 and r.shape == (nb, n)]
                if not v._rec:
                    v.reject()
                v.ensures("replicates" + tag, len(rec) > 0)
                v.ensures("cell-and-curve-of-own-predictions" + tag, any(all(ok for _, ok in C15.verdicts(CURVES[c][1], y, lp[m], lp[ref], None, rnp.maximum(1e-10, r), gg, mu, None if pw and m == ref else EB, None if m == ref else p, dump[m, c], conf, pw)) for r in rec))
    for m, j in keys:
        v.ensures("input-unchanged", v.all(n, lambda i: v.same(v.at(v.col(tbl, (m, j)), i), v.at(lp[m], i, j))))


@contract("C16", "summary_table", [CL + "summary_table"], cases=[{"shape": s, "args": a} for s in SHAPES for a in (False, True)], stubs=[CST, LT, LST], n_rand=15, modes="p")
def summary(v):
    """composition: losses, loss summary and curve summary of the same predictions with the same options"""
    nm, methods, ref, n, lp, y, keys, tbl = setup(v)
    LD = {q: "loss " + q for q in ["zz", "NLL"][:nm]}
    CD = {"AUC": "roc"}
    conf, nb, pw, meth, lim, g = 0.95, 1000, False, "t", {}, None
    kw = {}
    if v.case["args"]:
        conf, nb, pw, meth = C06.conf_(v), v.dim("n_boot", 1), v.choice("pw", [True, False]), "bernstein"
        lim = {"NLL": (0.0, INF)}
        g = v.array("g", v.dim("ng", 1))
        kw = dict(x_grid=g, n_boot=nb, pairwise_CI=pw, confidence=conf, method_EB=meth, limits=lim)
    T, dump = v.call(v.m("classification").summary_table, tbl, y, dict(LD), dict(CD), ref, **kw)
    shape_ok(v, T, methods, list(LD) + list(CD))
    cs, lt, ls = v.notes("cst"), v.notes("lt"), v.notes("lst")
    v.ensures("each-part-once", len(cs) == 1 and len(lt) == 1 and len(ls) == 1)
    cs, lt, ls = cs[0], lt[0], ls[0]
    v.ensures("same-predictions", cs["tbl"] is tbl and lt["tbl"] is tbl)
    v.ensures("same-labels", cs["y"] is y and lt["y"] is y)
    v.ensures("metric-dictionaries", cs["d"] == CD and lt["d"] == LD)
    v.ensures("normalised", lt["norm"] is False)
    v.ensures("loss-summary-of-the-losses", ls["loss"] is lt["out"])
    v.ensures("reference", cs["ref"] == ref and ls["ref"] == ref)
    v.ensures("options", v.and_(cs["pw"] == pw, ls["pw"] == pw, v.same(cs["conf"], conf), v.same(ls["conf"], conf), v.eq(cs["n_boot"], nb), ls["meth"] == meth, ls["limits"] == lim))
    v.ensures("grid", cs["x_grid"] is g)
    v.ensures("dump", dump == cs["dump"])
    for m in methods:
        for src, D in ((ls["out"], LD), (cs["out"], CD)):
            for c in D:
                for s in ("mean", "error", "p"):
                    v.ensures("cell", v.same(v.cell(T, m, (c, s)), v.cell(src, m, (c, s))))


@contract("C16", "summary_table.end-to-end", [CL + "summary_table", CST, LT, "mlpaper.mlpaper.loss_summary_table"], n_rand=60, modes="r")
def summary_run(v):
    nm, methods, ref, n, lp, y, keys, tbl = setup(v)
    m_ = v.m("classification")
    v.ensures("standard-curves", sorted(m_.STD_BINARY_CURVES) == sorted(CURVES) and all(m_.STD_BINARY_CURVES[c].__name__ == CURVES[c][0] for c in CURVES))
    CD = {c: m_.STD_BINARY_CURVES[c] for c in v.choice("curves", [("AUC",), ("AP", "AUC"), ("AP",)])}
    LD = {c: m_.STD_CLASS_LOSS[c] for c in v.choice("losses", [("NLL", "zero_one"), ("sphere", "Brier"), ("zero_one",)])}
    conf, pw, meth = C06.conf_(v), v.choice("pw", [True, False]), v.choice("meth", ["t", "bernstein", "boot"])
    nb = v.dim("n_boot", 1, hi=30)
    lim = v.choice("lim", [{}, {"zero_one": (0.0, 1.0), "Brier": (0.0, 4.0)}])
    g = grid(v)
    kw = {} if g is None else {"x_grid": g}
    v.seed()
    v.watch_draws()
    T, dump = v.call(m_.summary_table, tbl, y, LD, CD, ref, n_boot=nb, pairwise_CI=pw, confidence=conf, method_EB=meth, limits=lim, **kw)
    check_summary(v, T, dump, lp, y, methods, ref, n, LD, CD, lim, conf, pw, meth, nb, g)


def check_summary(v, T, dump, lp, y, methods, ref, n, LD, CD, lim, conf, pw, meth, nb, g):
    """overall summary of the (unnormalised) predictions lp against the oracles"""
    shape_ok(v, T, methods, list(LD) + list(CD))
    v.ensures("one-curve-per-method-and-metric", sorted(dump) == sorted((m, c) for m in methods for c in CD))
    if not v._rec:
        v.reject()
    P = {m: oracle.lognorm(lp[m]) for m in methods}
    L = {}
    for q in LD:
        for m in methods:
            e = oracle.class_loss(q, y, P[m])
            v.assume(all(len(w) == 1 for w in e))
            L[q, m] = rnp.array([w[0] for w in e])
    for q in LD:
        lo, hi = lim.get(q, (-INF, INF))
        for m in methods:
            mu, EB, p = (v.cell(T, m, (q, s)) for s in ("mean", "error", "p"))
            x, d = L[q, m], L[q, m] - L[q, ref]
            sc = max(1.0, abs(x).max(), abs(L[q, ref]).max())
            v.ensures("loss-mean", oracle.near(mu, x.mean(), scale=sc))
            r = hi - lo
            if not pw:
                v.ensures("loss-error", tables.eb_is(v, EB, x, conf, lo, hi, meth, sc) or rnp.std(x) < 1e-6 * sc)
            else:
                v.ensures("loss-error", rnp.isnan(EB) if m == ref else tables.eb_is(v, EB, d, conf, -r, r, meth, sc) or rnp.std(d) < 1e-6 * sc)
            v.ensures("loss-p", rnp.isnan(p) if m == ref else rnp.std(d) < 1e-6 * sc or tables.p_is(v, p, d, -r, r, meth, sc))
    gg = rnp.linspace(0.0, 1.0, 100) if g is None else g
    rec = [r for r in v._rec if r.ndim == 2 and r.shape == (nb, n)]
    for m in methods:
        for c in CD:
            mu, EB, p = (v.cell(T, m, (c, s)) for s in ("mean", "error", "p"))
            if m == ref:
                v.ensures("curve-p-NaN", rnp.isnan(p) and (not pw or rnp.isnan(EB)))
            v.ensures("curve-cell", any(all(ok for _, ok in C15.verdicts(CURVES[c][1], y, lp[m], lp[ref], None, rnp.maximum(1e-10, r), gg, mu, None if pw and m == ref else EB, None if m == ref else p, dump[m, c], conf, pw)) for r in rec))
