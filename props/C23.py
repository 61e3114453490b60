"""C23: lagged features."""
import numpy as rnp
import pandas as pd
from pyvc.verify import contract

F = ["mlpaper.data_splitter.build_lag_df"]
COLS = {"str": pd.Index(["a", "b", "c"]), "one": pd.Index(["x"]), "int": pd.Index([3, 1, 2], name="f"), "two": pd.MultiIndex.from_tuples([("a", "x"), ("a", "y"), ("b", "x")], names=["p", "q"]), "unnamed": pd.MultiIndex.from_tuples([("a", 1, "x"), ("b", 2, "y")])}
FEAT = {"str": [["a"], ["c", "a"], ["a", "b", "c"], []], "one": [["x"]], "int": [[3, 2], [1]], "two": [[("a", "y")], [("b", "x"), ("a", "x")]], "unnamed": [[("b", 2, "y")]]}


def key(c):
    return tuple(c) if isinstance(c, tuple) else (c,)


def isnan(t):
    return bool(pd.isnull(t))


@contract("C23", "build_lag_df", F, cases=[{"cols": k, "lags": n, "sub": s} for k, n, s in [("str", 1, 0), ("str", 1, 1), ("str", 2, 0), ("str", 2, 2), ("str", 3, 1), ("str", 3, 0), ("str", 4, 2), ("str", 3, 3), ("str", 3, 4), ("one", 4, 0), ("one", 2, 1), ("int", 3, 1), ("int", 2, 0), ("two", 3, 0), ("two", 3, 1), ("two", 2, 2), ("unnamed", 3, 0), ("unnamed", 2, 1), ("one", 12, 0), ("str", 6, 1)]], n_rand=60)
def lag(v):
    cols = COLS[v.case["cols"]]
    L, sub = v.case["lags"], v.case["sub"]
    feat = FEAT[v.case["cols"]][sub - 1] if sub else None
    n = v.dim("n", 0, small=[0, 1, 3])
    st = v.int("stride", gen=lambda r: int(r.choice([1, 1, 2, 3, 0, -1, -2, 7])))
    x = []
    for q in range(len(cols)):
        a = v.array("x%d" % q, n, ext="nan")
        if not v.sym:
            d = v.choice("dtype%d" % q, ["f", "f", "i", "s", "d", "b"])
            a = rnp.array(a) if d == "f" else rnp.nan_to_num(a).astype(int) if d == "i" else rnp.array(["t%.3f" % t for t in a], dtype=object) if d == "s" else rnp.nan_to_num(a).astype("int64").astype("datetime64[D]").astype("datetime64[ns]") if d == "d" else rnp.nan_to_num(a) > 0
        x.append(a)
    ix = None
    if v.sym:
        df = v.frame(x, cols, n)
    else:
        k = v.choice("rows", ["range", "perm", "str", "dup", "dec", "same"])
        ix = pd.Index({"range": list(range(n)), "perm": [(i * 7 + 3) % 11 for i in range(n)], "str": ["r%d" % i for i in range(n)], "dup": [i // 2 for i in range(n)], "dec": list(range(n, 0, -1)), "same": [5] * n}[k], name=v.choice("rowname", [None, "t"]))
        df = pd.concat([pd.Series(a, index=range(n)) for a in x], axis=1)
        df.columns, df.index = cols, ix
        keep = df.copy(deep=True)
    kw = {}
    if v.sym or v.choice("pass-stride", [True, True, False]):
        kw["stride"] = st
    else:
        st = 1
    if feat is not None:
        kw["features"] = feat if v.sym else v.choice("features-as", [feat, tuple(feat), pd.Index(feat, tupleize_cols=False), {"k": feat}])
        if isinstance(kw["features"], dict):
            kw["features"] = iter(feat)
    r = v.call(v.m("data_splitter").build_lag_df, df, L, **kw)
    v.ensures("frame", v.is_frame(r))
    v.ensures("rows", v.and_(v.eq(v.len(r), n), v.same_rows(r, df)))
    v.ensures("column-names", list(r.columns.names) == list(cols.names) + ["lag"])
    want = {}
    for q, c in enumerate(cols):
        for k in range(L):
            if k == 0 or feat is None or c in feat:
                want[key(c) + ("L%d" % k,)] = (q, k)
    v.ensures("columns", len(r.columns) == len(want) and set(r.columns) == set(want))
    for c, (q, k) in want.items():
        if v.sym:
            got = v.col(r, c)
            if k == 0:
                v.ensures_all("original-columns", n, lambda i: v.same(v.at(got, i), v.at(x[q], i)))
            else:
                s = st * k

                def f(i):
                    src = i - s
                    return v.same(v.at(got, i), v.ite(v.and_(v.le0(0, src), v.le0(src, n - 1)), v.at(x[q], src), float("nan")))

                v.ensures_all("value-lag-strides-earlier", n, f)
        else:
            got = r[c]
            v.ensures("one-column", isinstance(got, pd.Series))
            a = pd.Series(x[q])
            for i in range(n):
                j = i - st * k
                g = got.iloc[i]
                if not 0 <= j < n:
                    v.ensures("missing-where-no-row", isnan(g))
                else:
                    t = a.iloc[j]
                    v.ensures("original-columns" if k == 0 else "value-lag-strides-earlier", (isnan(g) and isnan(t)) or g == t)
            if k == 0:
                v.ensures("original-dtype", got.dtype == df.dtypes.iloc[q])
    if v.sym:
        for q in range(len(cols)):
            v.ensures("input-unchanged", v.all(n, lambda i: v.same(v.at(df._cols[q], i), v.at(x[q], i))))
        v.ensures("input-unchanged", list(df.columns) == list(cols))
    else:
        v.ensures("input-unchanged", df.equals(keep) and df.columns.equals(cols) and df.index.equals(ix) and list(df.dtypes) == list(keep.dtypes))
