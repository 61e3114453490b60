"""C20: formatted tables and headers."""
from decimal import Decimal
from fractions import Fraction
import math
import pandas as pd
from pyvc.verify import contract, stub, require
from pyvc.core import Unsupported, intt, ctx
from . import declib as D
from . import C17

SP = "mlpaper.sciprint."
FT = [SP + f for f in ("format_table", "find_shift", "get_shift_range", "print_estimate", "print_pval", "pad_num_str", "find_last_dig", "all_same", "decimal_all_finite", "decimal_1ek")]

PREFIX = dict(zip([-24, -21, -18, -15, -12, -9, -6, -3, -2, -1, 0, 3, 6, 9, 12, 15, 18, 21, 24], ["y", "z", "a", "f", "p", "n", "u", "m", "c", "d", "", "k", "M", "G", "T", "P", "E", "Z", "Y"]))


def tail(s):
    """characters from the last digit before the decimal point on"""
    q = s.find(".")
    if q < 0:
        q = s.find("(")
    return len(s) - (q if q >= 0 else len(s))


def gentable(v, lo=-6, hi=3):
    """table of Decimals with its cells"""
    metrics, methods = D.names(v, "metrics", 3), D.names(v, "methods", 4)
    X = {}
    for b, c in enumerate(metrics):
        base = v.int("base%d" % b, gen=lambda r: int(r.randint(lo, hi + 1)))
        pdg = v.int("pd%d" % b, 1, 6, gen=lambda r: int(r.choice([2, 4, 4])))
        for a, m in enumerate(methods):
            n = "%d,%d" % (a, b)
            e = v.int("e" + n, gen=lambda r: int(base + r.randint(-2, 3)))
            mu = D.dec(v.int("s" + n, 0, 1, gen=lambda r: int(r.rand() < 0.3)), D.ascoef(v, "c" + n), e)
            k = v.choice("k" + n, ["x", "0", "inf", "nan"], w=[6, 1, 1, 1])
            EB = Decimal(k) if k != "x" else D.dec(0, v.int("EB" + n, 1, gen=lambda r: D.coef(r, int(r.randint(1, 4)))), e)
            p = Decimal("nan") if v.choice("pk" + n, [False, False, False, True]) else D.dec(0, v.int("p" + n, 0, 10**pdg, gen=lambda r: int(r.choice([0, 1, 10**pdg, r.randint(10**pdg)]))), -pdg)
            X[m, (c, "mean")], X[m, (c, "error")], X[m, (c, "p")] = mu, EB, p
    return metrics, methods, X


def check_table(v, T, S, metrics, methods, X, mod, pad, lo, hi, nf):
    """T, S: the strings and shifts for the cells X"""
    v.ensures("rows", list(T.index) == list(methods))
    v.ensures("columns", sorted(T.columns) == sorted((c, s) for c in metrics for s in ("estimate", "p")) and list(T.columns.names) == ["metric", "stat"])
    v.ensures("shift-of-every-metric", set(S) == set(metrics))
    for c in metrics:
        a = D.dec(1, 1, lo[c]) if c in lo else None
        b = D.dec(0, 1, hi[c]) if c in hi else None
        mus, EBs, col = [], [], []
        sh = int(S[c])
        for m in methods:
            mu, EB, p = [X[m, (c, s)] for s in ("mean", "error", "p")]
            if not mu.is_nan() and (a is None or mu >= a) and (b is None or mu <= b):
                mus.append(mu)
                EBs.append(EB)
            s = T.at[m, (c, "estimate")]
            v.ensures("text", isinstance(s, str))
            col.append(s)
            D.check_estimate(v, s.rstrip(" ") if pad else s, mu, EB, sh, a, b, nf)
            check_p(v, T.at[m, (c, "p")], p, nf)
        if mod is None:
            v.ensures("no-shift-requested", sh == 0)
        else:
            D.check_shift(v, sh, mus, EBs, mod)
        if pad:
            t = [tail(s.rstrip(" ")) for s in col]
            v.ensures("decimal-points-aligned", all(len(s) - (len(s.rstrip(" ")) - q) == max(t) for s, q in zip(col, t)))


def check_p(v, s, p, nf):
    if p.is_nan():
        return v.ensures("p-non-finite-text", s == nf.get("nan", "nan"))
    val, ex = D.parts(p)[0], p.as_tuple().exponent
    below = val <= D.p10(ex)
    v.ensures("p-below-smallest", s.startswith("<") == below)
    v.ensures("p-value", D.read(s[1:] if below else s) == (max(val, D.p10(ex)) if below else val, -ex))


def setup(v):
    metrics, methods, X = gentable(v)
    lo, hi = D.limits(v, "lo", metrics, -3, 3, 0.25), D.limits(v, "hi", metrics, -3, 3, 0.25)
    mod = v.choice("mod", [None, 1, 1, 2, 3, 3])
    nf = v.choice("nonfin", D.NF)
    # means outside the limits may be infinite, and means may be missing
    for a, m in enumerate(methods):
        for b, c in enumerate(metrics):
            k = v.choice("inf%d,%d" % (a, b), ["no", "hi", "lo", "nan"], w=[12, 1, 1, 1])
            if k == "hi" and c in hi:
                X[m, (c, "mean")] = Decimal("inf")
            if k == "lo" and c in lo:
                X[m, (c, "mean")] = Decimal("-inf")
            if k == "nan":
                X[m, (c, "mean")] = Decimal("nan")
    if mod is None:
        for m in methods:
            for c in metrics:
                mu = X[m, (c, "mean")]
                if mu.is_finite() and mu.as_tuple().exponent > 0:
                    e = -mu.as_tuple().exponent
                    X[m, (c, "mean")] = mu.scaleb(e)
                    if X[m, (c, "error")].is_finite():
                        X[m, (c, "error")] = X[m, (c, "error")].scaleb(e) if X[m, (c, "error")] else X[m, (c, "error")]
    return metrics, methods, X, lo, hi, mod, nf


@contract("C20", "format_table", FT, n_rand=500, modes="r")
def format_table(v):
    metrics, methods, X, lo, hi, mod, nf = setup(v)
    cols = D.column_order(v, metrics)
    T = D.table(X, methods, cols)
    keep = T.copy()
    kw = {}
    if lo:
        kw["crap_limit_min"] = lo
    if hi:
        kw["crap_limit_max"] = hi
    if nf:
        kw["non_finite_fmt"] = nf
    if mod is not None:
        kw["shift_mod"] = mod
    pad = v.choice("pad", [True, True, False])
    if not pad or v.choice("pass-pad", [True, False]):
        kw["pad"] = pad
    R, S = v.call(v.m("sciprint").format_table, T, **kw)
    v.ensures("input-unchanged", list(T.columns) == cols and all(str(T.at[m, c]) == str(keep.at[m, c]) for m in methods for c in cols))
    check_table(v, R, S, metrics, methods, X, mod, pad, lo, hi, nf)


@contract("C20", "format_table.rejects", [SP + "format_table"], cases=[{"why": w} for w in ("names", "row-name", "stats", "inf-mean", "p-digits", "empty")], n_rand=25, modes="r")
def rejects(v):
    metrics, methods, X = gentable(v, -6, -3)
    cols = [(c, s) for c in metrics for s in ("mean", "error", "p")]
    why = v.case["why"]
    bm, bc = methods[v.int("row", 0, len(methods) - 1)], metrics[v.int("col", 0, len(metrics) - 1)]
    if why == "inf-mean":
        X[bm, (bc, "mean")] = Decimal(v.choice("what", ["inf", "-inf"]))
    if why == "p-digits":
        v.assume(len(methods) > 1)
        for i, m in enumerate(methods):
            X[m, (bc, "p")] = D.dec(0, 25, -2 - (m == bm))
    if why == "stats":
        cols = [(c, s if s != "p" else "pval") for c, s in cols]
        X = {(m, (c, s if s != "p" else "pval")): q for (m, (c, s)), q in X.items()}
    T = D.table(X, methods, cols)
    if why == "names":
        T.columns.names = ["metric", "what"]
    if why == "row-name":
        T.index.name = None
    if why == "empty":
        T = T.iloc[:0]
    v.must_reject(v.run(v.m("sciprint").format_table, T), "rejects-" + why)


@contract("C20", "pad_num_str", [SP + "pad_num_str", SP + "find_last_dig"], n_rand=300, modes="r")
def pad_num_str(v):
    L = []
    for i in range(v.int("n", 1, 6)):
        d = D.gendec(v, "d%d" % i, -5, 3)
        s = "{0:,f}".format(d)
        k = v.choice("k%d" % i, ["plain", "EB", "<", "nan"], w=[3, 3, 1, 1])
        L.append(s if k == "plain" else s + "(%d)" % v.int("EB%d" % i, 0, 9999) if k == "EB" else "<" + s if k == "<" else "nan")
    pad = v.choice("pad", [" ", "~", None])
    R = v.call(v.m("sciprint").pad_num_str, L, *([] if pad is None else [pad]))
    pad = pad or " "
    R = list(R)
    v.ensures("one-per-entry", len(R) == len(L))
    t = [tail(s) for s in L]
    for r, s, q in zip(R, L, t):
        v.ensures("original-then-padding", r == s + pad * (max(t) - q))
    for i, s in enumerate(L):
        p = v.call(v.m("sciprint").find_last_dig, s)
        v.ensures("last-digit-before-point", p == len(s) - tail(s) - 1)


def header(metric, stat, shift, unit, use_prefix, tex):
    """documented header: values are the metric multiplied by 10**shift, i.e. shown in units of 10**-shift"""
    if stat == "p":
        h = "p"
    else:
        h = metric.replace("_", " ")
        sh = (r" $\times 10^{%d}$" % shift if tex else " x 1e%d" % shift) if shift else ""
        if unit is None:
            h += sh
        elif use_prefix and -shift in PREFIX:
            h += " (%s%s)" % (r"$\mu$" if tex and shift == 6 else PREFIX[-shift], unit)
        else:
            h += sh + " (%s)" % unit
    return "{%s}" % h if tex else h


def units(v, metrics):
    return {m: u for i, m in enumerate(metrics) for u in [v.choice("unit%d" % i, [None, "s", "nats", "%"])] if u is not None}


@contract("C20", "adjust_headers", [SP + "adjust_headers"], n_rand=600, modes="r")
def adjust_headers(v):
    metrics = D.names(v, "metrics", 4)
    S = {m: v.int("shift%d" % i, gen=lambda r: int(r.choice([0, 3, -3, 6, 1, -1, 2, -2, 4, r.randint(-27, 28)]))) for i, m in enumerate(metrics)}
    U = units(v, metrics)
    up, tex = v.choice("prefix", [True, False]), v.choice("tex", [True, False])
    H = D.column_order(v, metrics, ("estimate", "p"))
    H2 = H if v.choice("as", ["list", "index"]) == "list" else pd.MultiIndex.from_tuples(H, names=["metric", "stat"])
    kw = {}
    if not up or v.choice("pp", [True, False]):
        kw["use_prefix"] = up
    if tex or v.choice("pt", [True, False]):
        kw["use_tex"] = tex
    R = v.call(v.m("sciprint").adjust_headers, H2, S, U, **kw)
    v.ensures("one-per-column", len(R) == len(H))
    for r, (m, s) in zip(R, H):
        v.ensures("header", r == header(m, s, S[m], U.get(m), up, tex))
    v.ensures("inputs-unchanged", set(S) == set(metrics) and all(u in metrics for u in U))


@contract("C20", "table_to_string", [SP + "table_to_string", SP + "adjust_headers"], n_rand=80, modes="r")
def table_to_string(v):
    metrics, methods = D.names(v, "metrics", 3), D.names(v, "methods", 4)
    S = {m: v.int("shift%d" % i, gen=lambda r: int(r.choice([0, 3, -3, 6, 1, -1, 2]))) for i, m in enumerate(metrics)}
    U = units(v, metrics)
    cols = D.column_order(v, metrics, ("estimate", "p"))
    X = {(m, c): "%d.%d(%d)" % (v.int("a%d,%d" % (i, j), 0, 99999), i, j) for i, m in enumerate(methods) for j, c in enumerate(cols)}
    T = D.table(X, methods, cols)
    up = v.choice("prefix", [True, False])
    s = v.call(v.m("sciprint").table_to_string, T, S, U, **({} if up else {"use_prefix": False}))
    want = pd.DataFrame([[X[m, c] for c in cols] for m in methods], index=methods, columns=[header(m, q, S[m], U.get(m), up, False) for m, q in cols]).to_string()
    v.ensures("rendered-table", s == want)
    v.ensures("input-unchanged", list(T.columns) == cols and T.index.name == "method" and list(T.index) == methods)


def render(T, S, U, up):
    return pd.DataFrame(T.values, index=list(T.index), columns=[header(m, q, int(S[m]), U.get(m), up, False) for m, q in T.columns]).to_string()


@contract("C20", "just_format_it", [SP + f for f in ("just_format_it", "decimalize", "format_table", "table_to_string", "adjust_headers")], n_rand=150, modes="r")
def just_format_it(v):
    metrics, methods = D.names(v, "metrics", 3), D.names(v, "methods", 4)
    X = {}
    for a, m in enumerate(methods):
        for b, c in enumerate(metrics):
            n = "%d,%d" % (a, b)
            X[m, (c, "mean")] = v.real("x" + n, gen=lambda r: float(r.randn() * 10.0 ** r.randint(-2, 3))) if v.choice("xk" + n, [True, False], w=[12, 1]) else math.nan
            X[m, (c, "error")] = v.real("e" + n, 0.0, gen=lambda r: float(r.choice([abs(r.randn()) * 10.0 ** r.randint(-3, 2), 0.5, 0.0])))
            X[m, (c, "p")] = v.real("p" + n, 0.0, 1.0, gen=lambda r: float(r.rand() ** 4)) if v.choice("pk" + n, [True, True, False]) else math.nan
    U = units(v, metrics)
    kw = {}
    if U or v.choice("pu", [True, False]):
        kw["unit_dict"] = U
    mod = v.choice("mod", [None, 1, 3])
    if mod:
        kw["shift_mod"] = mod
    lo, hi = D.limits(v, "lo", metrics, -2, 3, 0.25), D.limits(v, "hi", metrics, -2, 3, 0.25)
    lim = D.limits(v, "EB", metrics, -2, 2, 0.3)
    nf = v.choice("nonfin", D.NF)
    if lo:
        kw["crap_limit_min"] = lo
    if hi:
        kw["crap_limit_max"] = hi
    if lim:
        kw["EB_limit"] = lim
    if nf:
        kw["non_finite_fmt"] = nf
    up = v.choice("prefix", [True, False])
    if not up:
        kw["use_prefix"] = False
    cols = D.column_order(v, metrics)
    T = D.table(X, methods, cols, float)
    keep = T.copy()
    tex = v.choice("tex", [False, False, True])
    if tex:
        kw["use_tex"] = True
    with Latex() as L:
        o = v.run(v.m("sciprint").just_format_it, T, **kw)
    sp = v.m("sciprint")
    o2 = v.run(sp.decimalize, T, **({"EB_limit": lim} if lim else {}))
    if o2.raised is None:
        o2 = v.run(sp.format_table, o2.value, shift_mod=mod, crap_limit_max=hi, crap_limit_min=lo, non_finite_fmt=nf)
    v.ensures("same-rejections", (o.raised is None) == (o2.raised is None))
    if o2.raised is not None:
        v.reject()
    A, S = o2.value
    if tex:
        check_latex(v, L, o.value, [list(r) for r in A.values], methods, [header(m, q, int(S[m]), U.get(m), up, True) for m, q in A.columns])
    else:
        v.ensures("rounded-formatted-rendered", o.value == render(A, S, U, up))
    v.ensures("input-unchanged", T.equals(keep) and list(T.columns) == cols and T.index.name == "method")
    # the intermediate results are those of the two steps' own contracts
    R = sp.decimalize(T, EB_limit=lim)
    Y = {(m, c): R.at[m, c] for m in methods for c in cols}
    for m in methods:
        for c in metrics:
            C17.check_cell(v, Y[m, (c, "mean")], Y[m, (c, "error")], Y[m, (c, "p")], X[m, (c, "mean")], X[m, (c, "error")], X[m, (c, "p")], 2, 4, 5, lim.get(c))
    check_table(v, A, S, metrics, methods, Y, mod, True, lo, hi, nf)


# --- proofs --------------------------------------------------------------------------------------------
def sym_tail(v, s):
    """characters from the decimal point (or the error, or the end) on: symbolic number text"""
    d, p, n = s.find("."), s.find("("), s._sym_len()
    return n - v.ite(d >= 0, d, v.ite(p >= 0, p, n))


def numtext(v, name):
    """any number text: not empty, starts with a digit or sign"""
    from pyvc import decf as F

    n = v.int(name + ":len", 1)
    s = F.SStr(name, intt(n))
    for c in ".(":
        v.assume(v.not_(s.find(c) == 0))
    v.assume(v.not_(v.and_(s.find(".") >= 0, s.find("(") >= 0, s.find(".") > s.find("("))))
    return s


@contract("C20", "find_last_dig.proof", [SP + "find_last_dig"], modes="p")
def find_last_dig_all(v):
    from pyvc import decf as F

    s = numtext(v, "s")
    p = v.call(v.m("sciprint").find_last_dig, s)
    v.ensures("last-digit-before-point", v.eq(p, s._sym_len() - sym_tail(v, s) - 1))


@contract("C20", "pad_num_str.proof", [SP + "pad_num_str", SP + "find_last_dig"], modes="p", cases=[{"n": n} for n in (1, 2, 3)], max_paths=600)
def pad_all(v):
    from pyvc import decf as F

    L = [numtext(v, "s%d" % i) for i in range(v.case["n"])]
    pad = v.choice("pad", [None, "~"])
    R = v.call(v.m("sciprint").pad_num_str, L, *([] if pad is None else [pad]))
    R = list(R)
    v.ensures("one-per-entry", len(R) == len(L))
    t = [sym_tail(v, s) for s in L]
    for r, s, q in zip(R, L, t):
        # the original text followed by some copies of the padding character, as many as align the points
        P = r.parts if isinstance(r, F.SCat) else [r]
        ch = pad or " "
        ok = P[0] is s and all(isinstance(q_, F.SRep) and q_.s == ch or isinstance(q_, str) and set(q_) <= {ch} for q_ in P[1:])
        v.ensures("original-then-padding", ok)
        if not ok:
            return
        k = 0
        for q_ in P[1:]:
            k = k + (len(q_) if isinstance(q_, str) else q_._sym_len())
        for u in t:
            v.ensures("as-long-as-the-longest-tail", k + q >= u)
        v.ensures("no-longer", v.or_(*[v.eq(k + q, u) for u in t]))


def note(k, *x):
    ctx().notes.setdefault(k, []).append(x)


@stub("mlpaper.sciprint.find_shift")
def find_shift_spec(v, mean_list, err_list, shift_mod=1):
    """contract of find_shift (C19): some shift that keeps all digits of the means"""
    from pyvc import decf as F

    mus, EBs = list(mean_list), list(err_list)
    require(len(mus) == len(EBs))
    for m in mus:
        require(F.known_finite(m))
    require(shift_mod >= 1)
    if not mus:
        s = 0
    else:
        s = v.int("shift%d" % len(ctx().notes.get("shift", ())))
        for m in mus:
            v.assume(s <= -F.expo(m))
    note("shift", mus, EBs, shift_mod, s)
    return s


def opt(a, k, names, defaults):
    """bind optional arguments"""
    d = dict(zip(names, defaults))
    if len(a) > len(names) or any(q not in d for q in k):
        raise TypeError("arguments")
    d.update(zip(names, a))
    d.update(k)
    return d


def print_estimate_text(v, mu, EB, shift=0, *a, **k):
    """contract of print_estimate (C18): text determined by its arguments"""
    from pyvc import decf as F

    o = opt(a, k, ("min_clip", "max_clip", "below_fmt", "above_fmt", "non_finite_fmt"), (F.special(False, True), F.special(False, False), "<{0:,f}", ">{0:,f}", {}))
    if o["below_fmt"] != "<{0:,f}" or o["above_fmt"] != ">{0:,f}":
        raise Unsupported("other formats")
    lo, hi = o["min_clip"], o["max_clip"]
    require(F.dec(lo) < hi)
    if isinstance(mu, F.SDec) and v.cond(v.and_(lo <= mu, mu <= hi)):
        require(F.expo(mu) + shift <= 0)
        e = F.dec(EB)
        require(v.or_(v.not_(e.is_finite()), F.value(e) == 0, v.and_(F.value(e) > 0, F.expo(e) == F.expo(mu))))
    return F.tok("estimate", mu, EB, shift, lo, hi, o["non_finite_fmt"])


def print_pval_text(v, pval, *a, **k):
    from pyvc import decf as F

    o = opt(a, k, ("below_fmt", "non_finite_fmt"), ("<{0:,f}", {}))
    if o["below_fmt"] != "<{0:,f}":
        raise Unsupported("other formats")
    if isinstance(pval, F.SDec):
        require(v.and_(0 <= pval, pval <= 1))
    return F.tok("pval", pval, o["non_finite_fmt"])


def pad_text(v, num_str_list, pad=" "):
    from pyvc import decf as F

    L = list(num_str_list)
    require(len(L) >= 1)
    if pad != " ":
        raise Unsupported("other padding")
    return [s + F.tok("pad", L, i) for i, s in enumerate(L)]


def same_dec(v, a, b):
    """the same Decimal"""
    from pyvc import decf as F

    if a is b:
        return True
    if isinstance(a, F.SDec) != isinstance(b, F.SDec):
        x = a if isinstance(a, F.SDec) else b
        if F.lit(x.fin) is True:
            return False
    a, b = F.dec(a), F.dec(b)
    return v.or_(v.and_(a.is_nan(), b.is_nan()), v.and_(a.is_infinite(), b.is_infinite(), v.iff(a.is_signed(), b.is_signed())), v.and_(a.is_finite(), b.is_finite(), F.value(a) == F.value(b), F.expo(a) == F.expo(b)))


def same_limit(v, d, k, neg):
    """the clip limit: -10^k / 10^k, or none"""
    from pyvc import decf as F

    d = F.dec(d)
    if k is None:
        return v.and_(v.not_(d.is_nan()), d.is_infinite(), v.iff(d.is_signed(), neg))
    return v.and_(d.is_finite(), F.value(d) == (-1 if neg else 1) * F.ten(k))


def made(P):
    """text that was not made by the printing functions themselves is left to the run-time contract"""
    if any(isinstance(p, str) or p[0] not in ("estimate", "pval", "pad") for p in P):
        raise Unsupported("text not made by print_estimate / print_pval")


LAY = {"1x1": (["m"], ["a"]), "2x1": (["b m", "A"], ["x_1"]), "2x2": (["b", "a"], ["Z", "m"]), "1x2": (["only"], ["q", "Q"])}
LAYOUTS = [{"lay": "1x1", "kinds": "all", "lim": q, "mod": m} for q in ("none", "hi", "lo", "both") for m in (None, 3)]
LAYOUTS += [{"lay": l, "kinds": "x", "lim": q, "mod": m} for l, q, m in (("2x1", "none", 1), ("2x1", "hi", 3), ("2x1", "lo", None), ("1x2", "hi", 3), ("2x2", "none", 3), ("2x2", "none", None))]
ORDERS = {"std": lambda L: L, "rev": lambda L: L[::-1], "bystat": lambda L: sorted(L, key=lambda q: (q[1], q[0]))}


@contract("C20", "format_table.proof", [SP + "format_table", SP + "all_same", SP + "decimal_all_finite", SP + "decimal_1ek"], modes="p", cases=LAYOUTS, cone=True, max_paths=500,
          stubs=[SP + "find_shift", (SP + "print_estimate", print_estimate_text), (SP + "print_pval", print_pval_text), (SP + "pad_num_str", pad_text)])
def format_table_all(v):
    from pyvc import decf as F
    from .C18 import symdec, sym_err

    if not v.stubs_on:
        raise Unsupported("only over the contracts of the printing functions")
    methods, metrics = LAY[v.case["lay"]]
    mod = v.case["mod"]
    X, lo, hi = {}, {}, {}
    for b, c in enumerate(metrics):
        if v.case["lim"] in ("hi", "both") and b == 0:
            hi[c] = v.int("hi%d" % b)
        if v.case["lim"] in ("lo", "both") and b == 0:
            lo[c] = v.int("lo%d" % b)
        d = v.int("pdigits%d" % b, 1)
        for a, m in enumerate(methods):
            n = "%d,%d" % (a, b)
            k = "x" if v.case["kinds"] == "x" else v.choice("kind" + n, ["x", "nan"] + ["inf"] * (c in hi) + ["-inf"] * (c in lo))
            mu = symdec(v, "mu" + n) if k == "x" else F.special(k == "nan", k == "-inf")
            EB = sym_err(v, mu, "EB" + n, ("x", "0", "inf", "nan") if v.case["kinds"] == "all" and k == "x" else ("x",))
            if v.case["kinds"] == "all" and v.choice("pk" + n, ["x", "nan"]) == "nan":
                p = F.special(True, False)
            else:
                p = F.build(0, v.int("p" + n, 0), -d)
                v.assume(F.value(p) <= 1)
            if mod is None and k == "x":
                v.assume(F.expo(mu) <= 0)
            X[m, (c, "mean")], X[m, (c, "error")], X[m, (c, "p")] = mu, EB, p
    cols = ORDERS["std" if v.case["kinds"] == "all" else v.choice("order", ["std", "rev", "bystat"])]([(c, s) for c in metrics for s in ("mean", "error", "p")])
    T = D.table(X, methods, cols)
    nf = v.choice("nf", [{}, {"nan": "--"}])
    kw = {}
    if lo:
        kw["crap_limit_min"] = lo
    if hi:
        kw["crap_limit_max"] = hi
    if nf:
        kw["non_finite_fmt"] = nf
    if mod is not None:
        kw["shift_mod"] = mod
    pad = v.choice("pad", [True, False, None])
    if pad is not None:
        kw["pad"] = pad
    o = F.run_text(v, v.m("sciprint").format_table, T, **kw)
    if o.raised is not None:
        v.ensures("no-exception", False)
        return
    R, S = o.value
    v.ensures("rows", list(R.index) == methods)
    v.ensures("columns", sorted(R.columns) == sorted((c, s) for c in metrics for s in ("estimate", "p")) and list(R.columns.names) == ["metric", "stat"])
    v.ensures("shift-of-every-metric", set(S) == set(metrics))
    v.ensures("input-unchanged", list(T.columns) == cols and all(T.at[m, c] is X[m, c] for m in methods for c in cols))
    for c in metrics:
        a, b = lo.get(c), hi.get(c)
        kept = []
        for m in methods:
            mu = X[m, (c, "mean")]
            if isinstance(mu, F.SDec):
                inside = v.and_(True if a is None else F.value(mu) >= -F.ten(a), True if b is None else F.value(mu) <= F.ten(b))
                if v.cond(inside):
                    kept.append(m)
        if mod is None:
            v.ensures("no-shift-requested", v.eq(S[c], 0))
        else:
            calls = [q for q in v.notes("shift") if q[3] is S[c]] if kept else []
            if kept:
                v.ensures("shift-found-for-the-metric", len(calls) >= 1)
                for mus, EBs, md, _ in calls[:1]:
                    v.ensures("step", md == mod)
                    v.ensures("all-and-only-shown-means", len(mus) == len(EBs) == len(kept))
                    if len(mus) != len(kept):
                        continue
                    for x, e, m in zip(mus, EBs, kept):
                        v.ensures("shift-of-shown-means", same_dec(v, x, X[m, (c, "mean")]))
                        v.ensures("shift-of-shown-errors", same_dec(v, e, X[m, (c, "error")]))
            else:
                v.ensures("no-shown-means-no-shift", v.eq(S[c], 0))
        texts = []
        for m in methods:
            P = F.parts(R.at[m, (c, "estimate")]) if isinstance(R.at[m, (c, "estimate")], str) else []
            if pad is not False and len(P) == 2 and P[1][0] == "pad":
                texts.append((P[1][1], P[1][2]))
                P = P[:1]
            made(P)
            v.ensures("estimate-text", len(P) == 1 and P[0][0] == "estimate")
            if not (len(P) == 1 and P[0][0] == "estimate"):
                return
            mu, EB, sh, l, h, f = P[0][1:]
            v.ensures("estimate-mean", same_dec(v, mu, X[m, (c, "mean")]))
            v.ensures("estimate-error", same_dec(v, EB, X[m, (c, "error")]))
            v.ensures("estimate-shift", v.eq(sh, S[c]))
            v.ensures("estimate-lower-limit", same_limit(v, l, a, True))
            v.ensures("estimate-upper-limit", same_limit(v, h, b, False))
            v.ensures("non-finite-text", f == nf)
            P = F.parts(R.at[m, (c, "p")]) if isinstance(R.at[m, (c, "p")], str) else []
            made(P)
            v.ensures("p-text", len(P) == 1 and P[0][0] == "pval")
            if not (len(P) == 1 and P[0][0] == "pval"):
                return
            v.ensures("p-value", same_dec(v, P[0][1], X[m, (c, "p")]))
            v.ensures("p-non-finite-text", P[0][2] == nf)
        if pad is not False:
            v.ensures("all-padded", len(texts) == len(methods))
            if len(texts) == len(methods):
                want = [R.at[m, (c, "estimate")] for m in methods]
                for i, (L, k) in enumerate(texts):
                    v.ensures("aligned-with-its-own-column", sorted(L) == sorted(texts[0][0]) and len(L) == len(methods) and want[i].startswith(L[k]))
                v.ensures("aligned-once", sorted(k for _, k in texts) == list(range(len(methods))))


@contract("C20", "format_table.rejects.proof", [SP + "format_table", SP + "all_same", SP + "decimal_all_finite"], modes="p", cases=[{"why": w} for w in ("p-digits", "inf-mean", "stats", "names", "row-name", "empty")], cone=True,
          stubs=[SP + "find_shift", (SP + "print_estimate", print_estimate_text), (SP + "print_pval", print_pval_text), (SP + "pad_num_str", pad_text)])
def format_table_rejects(v):
    from pyvc import decf as F
    from .C18 import symdec, sym_err

    why = v.case["why"]
    methods, metrics = ["b", "a"], ["x", "y"]
    bad = v.choice("bad", metrics)
    X = {}
    for c in metrics:
        for m in methods:
            mu = symdec(v, "mu" + m + c)
            v.assume(F.expo(mu) <= 0)
            X[m, (c, "mean")], X[m, (c, "error")] = mu, sym_err(v, mu, "EB" + m + c, ("x",))
            d = v.int("digits" + m + c, 1) if why == "p-digits" and c == bad else 4
            X[m, (c, "p")] = F.build(0, v.int("p" + m + c, 0), -d)
            v.assume(F.value(X[m, (c, "p")]) <= 1)
    if why == "p-digits":
        v.assume(v.not_(F.expo(X["a", (bad, "p")]) == F.expo(X["b", (bad, "p")])))
    if why == "inf-mean":
        X[v.choice("row", methods), (bad, "mean")] = F.special(False, v.choice("neg", [True, False]))
    cols = [(c, s) for c in metrics for s in ("mean", "error", "p")]
    if why == "stats":
        cols = [(c, s if s != "p" else "pval") for c, s in cols]
        X = {(m, (c, s if s != "p" else "pval")): q for (m, (c, s)), q in X.items()}
    T = D.table(X, methods, cols)
    if why == "names":
        T.columns.names = ["metric", "what"]
    if why == "row-name":
        T.index.name = None
    if why == "empty":
        T = T.iloc[:0]
    v.must_reject(F.run_text(v, v.m("sciprint").format_table, T, **v.choice("kw", [{}, {"shift_mod": 3}])), "rejects-" + why)


# --- headers -------------------------------------------------------------------------------------------
def sym_header(v, s, metric, stat, shift, unit, up, tex):
    """the text s is the documented header, for a symbolic shift"""
    from pyvc import decf as F

    P = F.parts(s) if isinstance(s, str) else []
    if any(not isinstance(p, str) and p[0] != "int" for p in P):
        raise Unsupported("header text")
    k = None
    if stat != "p" and unit is not None and up:
        for q in PREFIX:
            if v.cond(shift == -q):
                k = q
                break
    if stat == "p" or k is not None or v.cond(shift == 0):
        # no number appears in it
        c = -k if k is not None else 0
        return v.ensures("header", P == [header(metric, stat, c, unit, up and k is not None, tex)])
    a, b = header(metric, stat, 777777, unit, False, tex).split("777777")
    v.ensures("header", len(P) == 3 and P[0] == a and P[2] == b if b else len(P) == 2 and P[0] == a)
    if len(P) >= 2 and not isinstance(P[1], str):
        v.ensures("header-exponent", v.eq(P[1][1], shift))


@contract("C20", "adjust_headers.proof", [SP + "adjust_headers"], modes="p", cases=[{"prefix": p, "tex": t} for p in (True, False) for t in (True, False)], max_paths=400)
def adjust_headers_all(v):
    from pyvc import decf as F

    up, tex = v.case["prefix"], v.case["tex"]
    metrics = ["Log_Loss", "a b"]
    U = v.choice("units", [{}, {"a b": "s"}, {"Log_Loss": "nats", "other": "m"}])
    known = v.choice("which", [0, 1])  # the other shift is a plain number
    S = {m: v.int("shift") if i == known else 3 for i, m in enumerate(metrics)}
    H = v.choice("order", [[("Log_Loss", "estimate"), ("Log_Loss", "p"), ("a b", "estimate"), ("a b", "p")], [("a b", "p"), ("Log_Loss", "estimate"), ("a b", "estimate"), ("Log_Loss", "p")]])
    kw = {"use_tex": True} if tex else {}
    if not up:
        kw["use_prefix"] = False
    o = F.run_text(v, v.m("sciprint").adjust_headers, H, S, U, **kw)
    if o.raised is not None:
        return v.ensures("no-exception", False)
    R = list(o.value)
    v.ensures("one-per-column", len(R) == len(H))
    for r, (m, s) in zip(R, H):
        if m == metrics[known]:
            sym_header(v, r, m, s, S[m], U.get(m), up, tex)
        else:
            v.ensures("header-of-known-shift", r == header(m, s, 3, U.get(m), up, tex))


@contract("C20", "adjust_headers.rejects.proof", [SP + "adjust_headers"], modes="p", cases=[{"why": w} for w in ("metric", "stat")])
def adjust_headers_rejects(v):
    from pyvc import decf as F

    H = [("a", "estimate"), ("b", "p")] if v.case["why"] == "metric" else [("a", "estimate"), ("a", "mean")]
    v.must_reject(F.run_text(v, v.m("sciprint").adjust_headers, H, {"a": v.int("shift")}, {}), "rejects-unknown-" + v.case["why"])


# --- the one-stop call ---------------------------------------------------------------------------------
def jf_decimalize(v, T, *a, **k):
    o = opt(a, k, ("err_digits", "pval_digits", "default_digits", "EB_limit"), (2, 4, 5, {}))
    note("dec", T, o, r := object())
    return r


def jf_format(v, T, *a, **k):
    o = opt(a, k, ("shift_mod", "pad", "crap_limit_max", "crap_limit_min", "non_finite_fmt"), (None, True, {}, {}, {}))
    note("fmt", T, o, r := (object(), object()))
    return r


def jf_render(tex):
    def f(v, T, S, U, *a, **k):
        o = opt(a, k, ("use_prefix",), (True,))
        note("out", T, S, U, o, tex, r := "rendered-%s" % tex)
        return r

    return f


@contract("C20", "just_format_it.proof", [SP + "just_format_it"], modes="p", cases=[{"given": g} for g in ("none", "all", "some")], max_paths=100,
          stubs=[(SP + "decimalize", jf_decimalize), (SP + "format_table", jf_format), (SP + "table_to_string", jf_render(False)), (SP + "table_to_latex", jf_render(True))])
def just_format_it_all(v):
    if not v.stubs_on:
        raise Unsupported("only over the contracts of the steps")
    full = {"unit_dict": {"m": "s"}, "shift_mod": v.int("mod", 1), "crap_limit_max": {"m": v.int("hi")}, "crap_limit_min": {"m": v.int("lo")}, "EB_limit": {"m": v.int("EB")}, "non_finite_fmt": {"nan": "--"},
            "use_tex": v.choice("tex", [True, False]), "use_prefix": v.choice("prefix", [True, False])}
    g = v.case["given"]
    kw = full if g == "all" else {} if g == "none" else {q: full[q] for i, q in enumerate(sorted(full)) if i % 2 == v.choice("part", [0, 1])}
    eff = dict({"unit_dict": {}, "shift_mod": None, "crap_limit_max": {}, "crap_limit_min": {}, "EB_limit": {}, "non_finite_fmt": {}, "use_tex": False, "use_prefix": True}, **kw)
    T = object()
    o = v.run(v.m("sciprint").just_format_it, T, **kw)
    if o.raised is not None:
        return v.ensures("no-exception", False)
    dec, fmt, out = v.notes("dec") or [], v.notes("fmt") or [], v.notes("out") or []
    if not (len(dec) == len(fmt) == len(out) == 1):
        raise Unsupported("steps taken differently")
    (T1, o1, r1), (T2, o2, r2), (T3, S3, U3, o3, tex, r3) = dec[0], fmt[0], out[0]

    def same(a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            return v.and_(set(a) == set(b), *[same(a[q], b[q]) for q in a if q in b])
        if isinstance(a, (str, bool)) or a is None or b is None or isinstance(b, (str, bool)):
            return a is b or a == b
        return v.eq(a, b)

    v.ensures("rounds-the-table", T1 is T)
    v.ensures("default-digits", (o1["err_digits"], o1["pval_digits"], o1["default_digits"]) == (2, 4, 5))
    v.ensures("error-limits", same(o1["EB_limit"], eff["EB_limit"]))
    v.ensures("formats-the-rounded-table", T2 is r1)
    v.ensures("shift-step", same(o2["shift_mod"], eff["shift_mod"]))
    v.ensures("upper-limits", same(o2["crap_limit_max"], eff["crap_limit_max"]))
    v.ensures("lower-limits", same(o2["crap_limit_min"], eff["crap_limit_min"]))
    v.ensures("non-finite-text", same(o2["non_finite_fmt"], eff["non_finite_fmt"]))
    v.ensures("aligned", o2["pad"] is True or o2["pad"] == True)  # noqa: E712
    v.ensures("renders-the-formatted-table", T3 is r2[0] and S3 is r2[1])
    v.ensures("units", same(U3, eff["unit_dict"]))
    v.ensures("prefixes", o3["use_prefix"] == eff["use_prefix"])
    v.ensures("requested-output", tex == eff["use_tex"])
    v.ensures("returns-it", o.value == r3)


# --- LaTeX: pandas' own export needs jinja2, which is not installed: a stand-in records what it is given
class Latex:
    def __enter__(self):
        self.calls = []
        self.old = pd.DataFrame.to_latex
        pd.DataFrame.to_latex = lambda T, *a, **k: self.calls.append((T.copy(), a, k)) or "latex-%d" % len(self.calls)
        return self

    def __exit__(self, *a):
        pd.DataFrame.to_latex = self.old


def check_latex(v, L, s, cells, rows, heads):
    if len(L.calls) != 1 or s != "latex-1":
        v.reject()  # exported by other means
    T, a, k = L.calls[0]
    v.ensures("headers", list(T.columns) == heads)
    v.ensures("cells", [list(r) for r in T.values] == cells)
    v.ensures("rows", list(T.index) == rows)
    v.ensures("latex-source-kept", k.get("escape") is False)
    f = k.get("column_format")
    v.ensures("one-format-per-column", f is None or len([c for c in f if c.isalpha()]) == 1 + len(heads))


@contract("C20", "table_to_latex", [SP + "table_to_latex", SP + "adjust_headers"], n_rand=80, modes="r")
def table_to_latex(v):
    metrics, methods = D.names(v, "metrics", 3), D.names(v, "methods", 4)
    S = {m: v.int("shift%d" % i, gen=lambda r: int(r.choice([0, 3, -3, 6, 1, -1, 2, 5]))) for i, m in enumerate(metrics)}
    U = units(v, metrics)
    cols = D.column_order(v, metrics, ("estimate", "p"))
    X = {(m, c): "%d.%d(%d)" % (v.int("a%d,%d" % (i, j), 0, 99999), i, j) for i, m in enumerate(methods) for j, c in enumerate(cols)}
    T = D.table(X, methods, cols)
    up = v.choice("prefix", [True, False])
    with Latex() as L:
        s = v.call(v.m("sciprint").table_to_latex, T, S, U, **({} if up else {"use_prefix": False}))
    check_latex(v, L, s, [[X[m, c] for c in cols] for m in methods], methods, [header(m, q, S[m], U.get(m), up, True) for m, q in cols])
    v.ensures("input-unchanged", list(T.columns) == cols and T.index.name == "method" and list(T.index) == methods)
