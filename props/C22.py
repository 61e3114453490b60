"""C22: train/test splits of data frames."""
import math
import numpy as rnp
import pandas as pd
from pyvc.verify import contract

DS = "mlpaper.data_splitter."
FLAGS = [(False, False), (True, False), (False, True), (True, True)]  # assume_sorted, assume_unique


def fracgen(r):
    k = r.randint(4)
    return r.rand() if k == 0 else r.choice([0.0, 1.0, 0.5, 0.25, 0.8]) if k == 1 else r.randint(0, 11) / 10.0 if k == 2 else r.randint(0, 8) / 7.0 if r.rand() < 0.9 else 1.0


def frac_(v, name="frac"):
    f = v.real(name, lo=0.0, hi=1.0, gen=lambda r: min(1.0, fracgen(r)))
    return f


def sizes(frac, n):
    """admissible rounded-up sizes (the product is computed in floating point)"""
    return {min(n, max(0, math.ceil(frac * n + d))) for d in (-1e-9, 0.0, 1e-9)}


def ceil_of(v, frac, n):
    return v.ceil(frac * v.flt(n))


# --- subsets -------------------------------------------------------------------------------------------
@contract("C22", "rand_subset", [DS + "rand_subset"], n_rand=150)
def rand_subset(v):
    n = v.dim("n", 1)
    x = v.array("x", n)
    v.assume_distinct(x, n)
    f = frac_(v)
    v.seed()
    r = v.call(v.m("data_splitter").rand_subset, x if v.sym or v.choice("as", ["array", "list"]) == "array" else x.tolist(), f)
    m = v.len(r)
    if v.sym:
        v.ensures("rounded-up-size", v.eq(m, ceil_of(v, f, n)))
        i, j = v.int("i", 0), v.int("j", 0)
        v.ensures("members", v.implies(v.and_(v.le0(i, m - 1)), v.any(n, lambda q: v.eq(v.at(x, q), v.at(r, i)))))
        v.ensures("no-repetition", v.implies(v.and_(v.le0(i, m - 1), v.le0(j, i - 1)), v.not_(v.eq(v.at(r, i), v.at(r, j)))))
    else:
        v.ensures("rounded-up-size", m in sizes(f, n))
        v.ensures("members", set(r.tolist()) <= set(x.tolist()) and len(set(r.tolist())) == m)
    v.unchanged("frame", x)


@contract("C22", "rand_mask", [DS + "rand_mask", DS + "rand_subset"], n_rand=150)
def rand_mask(v):
    n = v.dim("n", 1)
    f = frac_(v)
    v.seed()
    r = v.call(v.m("data_splitter").rand_mask, n, f)
    v.ensures("shape", v.and_(len(r.shape) == 1, v.eq(r.shape[0], n), r.dtype.kind == "b"))
    c = v.isum(n, lambda i: v.ite(v.at(r, i), 1, 0))
    if v.sym:
        v.ensures("rounded-up-count", v.eq(c, ceil_of(v, f, n)))
    else:
        v.ensures("rounded-up-count", c in sizes(f, n))


@contract("C22", "subset.rejects", [DS + "rand_subset", DS + "rand_mask"], cases=[{"fn": "rand_subset"}, {"fn": "rand_mask"}], n_rand=30)
def subset_rejects(v):
    n = v.dim("n", 1)
    f = v.ext("frac", which=("fin", "nan", "inf"))
    v.assume(v.not_(v.and_(v.le0(0.0, f), v.le0(f, 1.0))))
    x = v.array("x", n) if v.case["fn"] == "rand_subset" else n
    v.must_reject(v.run(getattr(v.m("data_splitter"), v.case["fn"]), x, f))


# --- one series ----------------------------------------------------------------------------------------
def vals(v, n, srt, uni, name="x", kinds=False):
    """values of the split feature; declared sorted / unique only if they are"""
    if v.sym:
        x = v.array(name, n)
        if srt:
            v.assume_sorted(x, n, strict=uni)
        elif uni:
            v.assume_distinct(x, n)
        return x
    g = lambda r, sh: rnp.round(r.randn(*sh) * r.choice([1.0, 3.0, 100.0]), int(r.randint(0, 3))) if r.rand() < 0.7 else r.randn(*sh) * 10.0 ** r.randint(-5, 6)
    x = v.array(name, n, gen=g)
    if uni:
        x = rnp.array(sorted(set(x.tolist()), key=lambda t: hash((t, 7))))
    if kinds:
        d = v.choice("dtype:" + name, ["float", "int", "str", "date"])
        if d == "int":
            x = rnp.array([int(math.floor(t)) for t in x] if not uni else rnp.argsort(rnp.argsort(x)), dtype=int)
        elif d == "str":
            x = rnp.array(["s%012.6f" % (t + 1e4 if abs(t) < 1e4 else t % 1e4) for t in x] if not uni else ["s%03d" % t for t in rnp.argsort(rnp.argsort(x))], dtype=object)
        elif d == "date":
            x = (rnp.array([int(math.floor(t)) % 100000 for t in x] if not uni else rnp.argsort(x), dtype="int64") * 10 ** 9).astype("datetime64[ns]")
    if srt:
        x = rnp.sort(x)
    return x


def spec_mask(v, kind, x, n, frac, srt, uni):
    """i -> is the row in the training part (symbolic)"""
    if kind == "linear":
        lo = -v.np.max(-x)
        hi = v.np.max(x)
        p = (1.0 - frac) * lo + frac * hi
        return lambda i: v.le0(v.at(x, i), p)
    if kind == "ordered":
        if srt and uni:
            U, at = n, lambda k: v.at(x, k)
        elif uni:
            U, at = n, lambda k: v.kth(n, lambda i: v.at(x, i), k)
        else:
            c = v.np.unique(x)
            U, at = c.shape[0], lambda k: v.at(c, k)
        k = v.ceil(frac * v.flt(U)) - 1
        k = v.ite(v.le0(0, k), k, 0)
        p = at(k)
        return lambda i: v.le0(v.at(x, i), p)
    raise ValueError(kind)


def judge(v, kind, x, frac, t):
    """run time: is the boolean mask t an admissible split of the values x?"""
    t = rnp.asarray(t)
    tr, te = set(x[t].tolist()), set(x[~t].tolist())
    U = sorted(set(x.tolist()))
    v.ensures("equal-values-stay-together", not (tr & te))
    if kind == "random":
        v.ensures("rounded-up-number-of-values", len(tr) in sizes(frac, len(U)))
        return
    v.ensures("train-precedes-test", not tr or not te or max(tr) < min(te))
    if kind == "ordered":
        v.ensures("rounded-up-number-of-values", len(tr) in {max(1, s) for s in sizes(frac, len(U))})
    else:
        lo, hi = U[0], U[-1]
        p = (1.0 - frac) * lo + frac * hi
        tol = 1e-12 * max(abs(lo), abs(hi))
        v.ensures("values-up-to-the-dividing-point", all(q in tr for q in U if q <= p - tol or q == lo) and not any(q in tr for q in U if q > p + tol))
        if frac == 1.0:
            v.ensures("all-for-fraction-one", not te)


SPL = {"random": "random_split_series", "ordered": "ordered_split_series", "linear": "linear_split_series"}


def rows(v, n):
    if v.sym:
        return None
    k = v.choice("rows", ["range", "perm", "str", "dup"])
    return rnp.arange(n) if k == "range" else rnp.arange(n)[::-1] * 3 - 1 if k == "perm" else ["r%d" % ((i * 7) % 10) + "x" * i for i in range(n)] if k == "str" else rnp.arange(n) // 2


@contract("C22", "series", [DS + f for f in SPL.values()], cases=[{"kind": k, "srt": a, "uni": b, "opt": o} for k in ("ordered", "linear") for a, b in FLAGS for o in ((False, True) if not (a or b) else (True,))], n_rand=80)
def series(v):
    kind, srt, uni = v.case["kind"], v.case["srt"], v.case["uni"]
    n = v.dim("n", 1, small=[1, 2])
    x = vals(v, n, srt, uni, kinds=kind == "ordered")
    f = frac_(v)
    S = v.series(x, rows(v, len(x)) if not v.sym else None)
    kw = dict(assume_sorted=srt, assume_unique=uni) if v.case["opt"] else {}
    r = v.call(getattr(v.m("data_splitter"), SPL[kind]), S, f, **kw)
    v.ensures("boolean-series", v.is_series(r) and r.dtype.kind == "b")
    v.ensures("index", v.same_rows(r, S))
    if v.sym:
        t = spec_mask(v, kind, x, n, f, srt, uni)
        v.ensures("length", v.eq(v.len(r), n))
        v.ensures_all("train-mask", n, lambda i: v.iff(v.at(r.values, i), t(i)))
        v.unchanged("frame", x)
    else:
        judge(v, kind, x, f, r.values)
        v.ensures("input-unchanged", rnp.array_equal(S.values, x))


@contract("C22", "series.random", [DS + "random_split_series", DS + "rand_subset", DS + "rand_mask"], cases=[{"srt": a, "uni": b, "opt": o} for a, b in FLAGS for o in ((False, True) if not (a or b) else (True,))], n_rand=100)
def series_random(v):
    srt, uni = v.case["srt"], v.case["uni"]
    n = v.dim("n", 1, small=[1, 2])
    x = vals(v, n, srt, uni, kinds=True)
    f = frac_(v)
    v.seed()
    S = v.series(x, rows(v, len(x)) if not v.sym else None)
    kw = dict(assume_sorted=srt, assume_unique=uni) if v.case["opt"] else {}
    r = v.call(v.m("data_splitter").random_split_series, S, f, **kw)
    v.ensures("boolean-series", v.is_series(r) and r.dtype.kind == "b")
    v.ensures("index", v.same_rows(r, S))
    if v.sym:
        v.ensures("length", v.eq(v.len(r), n))
        i, j = v.int("i", 0), v.int("j", 0)
        rng = v.and_(v.le0(i, n - 1), v.le0(j, n - 1))
        v.ensures("equal-values-stay-together", v.implies(v.and_(rng, v.eq(v.at(x, i), v.at(x, j))), v.iff(v.at(r.values, i), v.at(r.values, j))))
        D = v.notes("choice")
        v.ensures("one-draw", len(D) == 1)
        ch, chi, U, m = D[0]
        if uni:
            v.ensures("rounded-up-number-of-values", v.eq(v.isum(n, lambda i: v.ite(v.at(r.values, i), 1, 0)), ceil_of(v, f, n)))
        else:
            u = v.np_unique_first(x)
            v.ensures("rounded-up-number-of-values", v.and_(v.eq(m, ceil_of(v, f, U)), v.eq(U, u.shape[0])))
            v.ensures_all("train-is-the-drawn-values", n, lambda i: v.iff(v.at(r.values, i), v.any(m, lambda q: v.eq(v.at(x, i), v.at(u, v.int_term(ch(v._int(q))))))))
        v.unchanged("frame", x)
    else:
        judge(v, "random", x, f, r.values)
        if uni:
            rnp.random.seed(v.inputs["seed"])
            r2 = v.call(v.m("data_splitter").random_split_series, S, f)
            v.ensures("declared-unique-changes-nothing", list(r2.values) == list(r.values))
        v.ensures("input-unchanged", rnp.array_equal(S.values, x))


@contract("C22", "series.rejects", [DS + f for f in SPL.values()], cases=[{"kind": k, "why": w} for k in SPL for w in ("nan", "frac")], n_rand=30)
def series_rejects(v):
    n = v.dim("n", 1, small=[1, 2])
    x = v.array("x", n, ext="nan" if v.case["why"] == "nan" else None)
    if v.case["why"] == "nan":
        v.assume(v.anynan(x))
        f = frac_(v)
    else:
        f = v.ext("frac", which=("fin", "nan", "inf"))
        v.assume(v.not_(v.and_(v.le0(0.0, f), v.le0(f, 1.0))))
    S = v.series(x, rows(v, n))
    v.must_reject(v.run(getattr(v.m("data_splitter"), SPL[v.case["kind"]]), S, f), "rejects-" + v.case["why"])


@contract("C22", "index_to_series", [DS + "index_to_series"], n_rand=40)
def index_to_series(v):
    n = v.dim("n", 0)
    if v.sym:
        x = v.array("x", n)
        from pyvc import pdf

        I = pdf.SIndex(n, values=x)
        r = v.call(v.m("data_splitter").index_to_series, I)
        v.ensures("index", r.index is I)
        v.ensures("values", v.and_(v.eq(v.len(r), n), v.all(n, lambda i: v.same(v.at(r.values, i), v.at(x, i)))))
    else:
        I = pd.Index(rows(v, n))
        r = v.call(v.m("data_splitter").index_to_series, I)
        v.ensures("index", r.index.equals(I))
        v.ensures("values", list(r.values) == list(I))


# --- frames --------------------------------------------------------------------------------------------
LAY = {
    "default": None,
    "ordered": [("a", "ordered")], "linear": [("a", "linear")], "random": [("a", "random")], "index": [(None, "ordered")],
    "two": [("a", "ordered"), ("b", "linear")], "mixed": [("b", "linear"), (None, "ordered")], "rand2": [("a", "linear"), ("b", "random")],
    "three": [("a", "linear"), ("b", "linear"), (None, "linear")], "four": [("a", "linear"), ("b", "linear"), (None, "linear"), ("c", "linear")], "three'": [("b", "linear"), (None, "linear"), ("a", "ordered")],
}


@contract("C22", "split_df", [DS + f for f in ["split_df", "index_to_series"] + list(SPL.values())], cases=[{"lay": k} for k in LAY], n_rand=60, budget=120)
def split_df(v):
    n = v.dim("n", 1, small=[1, 2])
    x = {"a": vals(v, n, False, False, "a", kinds=v.case["lay"] in ("ordered", "random")), "b": vals(v, n, False, False, "b"), "c": v.array("c", n)}
    if v.sym:
        ix = v.array("ix", n)
        df = v.frame([x[k] for k in "abc"], pd.Index(["a", "b", "c"]), n, index=ix)
        x[None] = ix
    else:
        ix = rows(v, n) if v.case["lay"][:4] not in ("thre", "four") else v.array("ix", n)
        df = pd.DataFrame({k: x[k] for k in "abc"}, index=ix)
        if v.choice("extra", [False, True]):
            df["d"] = ["s%d" % (i % 3) for i in range(n)]
        x[None] = rnp.array(df.index)
        keep = df.copy()
    lay = LAY[v.case["lay"]]
    v.seed()
    if lay is None:
        fr = {None: 0.8}
        lay = [(None, "random")]
        out = v.call(v.m("data_splitter").split_df, df)
    else:
        fr = {k: frac_(v, "frac:%s" % k) for k, _ in lay}
        out = v.call(v.m("data_splitter").split_df, df, {k: (s, fr[k]) for k, s in lay})
    v.ensures("three-frames", len(out) == 3)
    if v.sym:
        T = []
        for k, s in lay:
            if s == "random":
                u = v.np_unique_first(x[k])
                D = v.notes("choice")
                v.ensures("one-draw", len(D) == 1)
                ch, chi, U, m = D[0]
                v.ensures("rounded-up-number-of-values", v.and_(v.eq(m, ceil_of(v, fr[k], U)), v.eq(U, u.shape[0])))
                T.append(lambda i, k=k, u=u, m=m, ch=ch: v.any(m, lambda q: v.eq(v.at(x[k], i), v.at(u, v.int_term(ch(v._int(q)))))))
            else:
                T.append(spec_mask(v, s, x[k], n, fr[k], False, False))
        from pyvc import pdf

        tr = lambda i: v.and_(*[t(i) for t in T])
        te = lambda i: v.and_(*[v.not_(t(i)) for t in T])
        un = lambda i: v.and_(v.not_(tr(i)), v.not_(te(i)))
        for nm, o, w in zip(("train", "test", "unused"), out, (tr, te, un)):
            v.ensures("rows-of-the-input-" + nm, isinstance(o, pdf.Filtered) and list(o.columns) == list("abc") and o.base.index is df.index)
            for k in "abc":
                v.ensures("contents-" + nm, v.all(n, lambda i: v.same(v.at(v.col(o.base, k), i), v.at(x[k], i))))
            v.ensures_all("selection-" + nm, n, lambda i: v.iff(v.at(o.mask, i), w(i)))
        for k in "abc":
            v.ensures("input-unchanged", v.all(n, lambda i: v.same(v.at(v.col(df, k), i), v.at(x[k], i))))
        return
    check_frames(v, df, keep, out, [(k, s, fr[k]) for k, s in lay], x)


def check_frames(v, df, keep, out, lay, x):
    n = len(df)
    v.ensures("input-unchanged", df.equals(keep) and list(df.columns) == list(keep.columns) and df.index.equals(keep.index))
    # the parts are disjoint sets of whole rows in their order: match greedily by (index, contents)
    where = []
    key = lambda f, i: (f.index[i],) + tuple(f.iloc[i].tolist())
    K = [key(keep, i) for i in range(n)]
    v.assume(len(set(K)) == n or len(lay) == 1)
    for o in out:
        v.ensures("columns-kept", list(o.columns) == list(keep.columns) and all(a == b for a, b in zip(o.dtypes, keep.dtypes)))
        p, L = 0, []
        for i in range(len(o)):
            k = key(o, i)
            while p < n and not (K[p] == k):
                p += 1
            v.ensures("rows-kept-in-order", p < n)
            L.append(p)
            p += 1
        where.append(L)
    if len(set(K)) == n:
        v.ensures("every-row-once", sorted(sum(where, [])) == list(range(n)))
    else:
        v.ensures("every-row-once", sum(len(w) for w in where) == n)
        v.reject()
    part = rnp.empty(n, dtype=object)
    for nm, L in zip(("train", "test", "unused"), where):
        part[L] = nm
    if len(lay) == 1:
        k, s, f = lay[0]
        v.ensures("nothing-unused-for-one-feature", not where[2])
        judge(v, s, x[k], f, part == "train")
        return
    # several features: values of a feature that occur in train are all on the train side, those in test on the test side
    for k, s, f in lay:
        tr, te = set(x[k][part == "train"].tolist()), set(x[k][part == "test"].tolist())
        v.ensures("disjoint-in-every-feature", not (tr & te))
    masks = []
    for k, s, f in lay:
        if s == "random":
            masks.append(None)
            continue
        U = sorted(set(x[k].tolist()))
        if s == "ordered":
            c = {U[max(1, q) - 1] for q in sizes(f, len(U))}
        else:
            p = (1.0 - f) * U[0] + f * U[-1]
            v.assume(all(abs(q - p) > 1e-9 * max(abs(U[0]), abs(U[-1])) or q == U[0] for q in U))
            c = {max(p, U[0])}
        v.assume(len(c) == 1)
        c = c.pop()
        masks.append(rnp.array([q <= c for q in x[k]]))
    if all(m is not None for m in masks):
        A, O = rnp.all(masks, axis=0), rnp.any(masks, axis=0)
        v.ensures("train-iff-selected-by-all", rnp.array_equal(part == "train", A))
        v.ensures("test-iff-selected-by-none", rnp.array_equal(part == "test", ~O))
    else:
        # the random feature's choice is visible through the rows the other features decide
        q = [i for i, m in enumerate(masks) if m is None][0]
        k, s, f = lay[q]
        other = masks[1 - q]
        v.ensures("train-and-test-agree-with-the-other-feature", not (part == "train")[~other].any() and not (part == "test")[other].any())
        side = {}
        for i in range(n):
            if part[i] == "unused":
                sd = not other[i]
            else:
                sd = part[i] == "train"
            v.ensures("equal-values-stay-together", side.setdefault(x[k][i], sd) == sd)
        v.ensures("rounded-up-number-of-values", sum(side.values()) in sizes(f, len(side)))


@contract("C22", "split_df.flags", [DS + "split_df"], n_rand=120, modes="r")
def split_flags(v):
    """declaring a feature sorted or unique (when it is) does not change the split"""
    n = v.dim("n", 1)
    srt, uni = v.choice("flags", FLAGS)
    a = vals(v, n, srt, uni, "a")
    n = len(a)
    b = vals(v, n, False, False, "b")
    df = pd.DataFrame({"a": a, "b": b}, index=rows(v, n))
    keep = df.copy()
    s = v.choice("kind", ["random", "ordered", "linear"])
    f = frac_(v)
    sp = {"a": (s, f)}
    if v.choice("two", [False, True]):
        sp["b"] = ("ordered", 0.5)
    kw = {}
    if srt:
        kw["assume_sorted"] = ["a"]
    if uni:
        kw["assume_unique"] = ("a",)
    v.seed()
    o2 = v.call(v.m("data_splitter").split_df, df, sp)
    v.seed_again()
    o1 = v.call(v.m("data_splitter").split_df, df, sp, **kw)
    for p, q in zip(o1, o2):
        v.ensures("declared-properties-change-nothing", p.equals(q) and p.index.equals(q.index))
    v.ensures("input-unchanged", df.equals(keep))


@contract("C22", "split_df.rejects", [DS + "split_df"], cases=[{"why": w} for w in ("empty-frame", "no-splits", "missing-feature", "unknown-kind", "none-column", "nan", "frac", "nan-index")], n_rand=30)
def split_rejects(v):
    why = v.case["why"]
    n = 0 if why == "empty-frame" else v.dim("n", 1, small=[1, 2])
    a = v.array("a", n, ext="nan" if why == "nan" else None)
    ix = v.array("ix", n, ext="nan" if why == "nan-index" else None)
    if why == "nan":
        v.assume(v.anynan(a))
    if why == "nan-index":
        v.assume(v.anynan(ix))
    cols = [None] if why == "none-column" else ["a"]
    if why == "none-column":
        if v.sym:
            df = v.frame([a], pd.Index([None], dtype=object), n, index=ix)
        else:
            df = pd.DataFrame(rnp.array(a)[:, None], columns=pd.Index([None], dtype=object), index=ix)
    else:
        df = v.frame([a], pd.Index(["a"]), n, index=ix)
    f = 0.5
    if why == "frac":
        f = v.ext("frac", which=("fin", "nan", "inf"))
        v.assume(v.not_(v.and_(v.le0(0.0, f), v.le0(f, 1.0))))
    k = v.choice("kind", ["random", "ordered", "linear"])
    sp = {} if why == "no-splits" else {"zz" if why == "missing-feature" else None if why in ("none-column", "nan-index") else "a": ("sideways" if why == "unknown-kind" else k, f)}
    v.must_reject(v.run(v.m("data_splitter").split_df, df, sp), "rejects-" + why)
