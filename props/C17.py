"""C17: rounding a results table."""
import math
from decimal import Decimal
from fractions import Fraction
import numpy as rnp
import pandas as pd
from pyvc.verify import contract, stub, require
from . import declib as D

SP = "mlpaper.sciprint."


def err(v, name):
    k = v.choice(name + ":kind", ["x", "0", "inf", "nan"], w=[12, 1, 1, 1])
    return v.real(name, 0.0, gen=lambda r: D.floatval(r, False)) if k == "x" else float(k)


def mean(v, name, EB):
    k = v.choice(name + ":kind", ["x", "inf", "-inf", "nan"], w=[12, 1, 1, 1])
    if k != "x":
        return float(k)
    if v.choice(name + ":tie", [False, False, True]) and math.isfinite(EB) and EB > 0:
        # exactly or nearly half a unit of the error's last digit
        q = v.int(name + ":k", 0, 2000)
        return float((q + 0.5) * 10.0 ** (math.floor(math.log10(EB)) - 1)) * (-1) ** q
    return v.real(name, gen=lambda r: D.floatval(r) * (1.0 if r.rand() < 0.5 else max(1e-12, min(abs(EB), 1e12)) if math.isfinite(EB) else 1.0))


def check_cell(v, mu, EB, p, x, e, pv, ed, pd_, dd, lim):
    """(mu, EB, p) are the Decimals for the floats (x, e, pv)"""
    E = e
    if math.isfinite(e) and lim is not None and D.sig(Fraction(e), ed, D.ceil_to)[0] > D.p10(lim):
        v.ensures("error-beyond-limit-is-infinite", EB.is_infinite() and EB > 0)
        E = math.inf
    elif math.isinf(e):
        v.ensures("error-infinite", EB.is_infinite() and EB > 0)
    else:
        D.same_sig(v, "error", EB, e, ed, D.ceil_to)
    if math.isfinite(E) and E > 0:
        if math.isnan(x):
            v.ensures("mean-nan", mu.is_nan())
        else:
            ex = EB.as_tuple().exponent
            v.ensures("mean-finite", mu.is_finite())
            v.ensures("mean-same-last-place", mu.as_tuple().exponent == ex)
            v.ensures("mean-half-up", D.parts(mu)[0] == D.half_up_to(Fraction(x), ex))
    else:
        D.same_sig(v, "mean-default", mu, x, dd, D.half_up_to)
    if math.isnan(pv):
        v.ensures("p-nan", p.is_nan())
    else:
        v.ensures("p-last-place", p.is_finite() and p.as_tuple().exponent == -pd_)
        v.ensures("p-rounded-up", D.parts(p)[0] == D.ceil_to(Fraction(pv), -pd_))


@contract("C17", "decimalize", [SP + f for f in ("decimalize", "create_decimal", "decimal_1ek", "decimal_from_tuple", "ensure_tuple_of_ints")], n_rand=400, modes="r")
def decimalize(v):
    metrics, methods = D.names(v, "metrics", 3), D.names(v, "methods", 4)
    ed = v.int("err_digits", 1, 5, gen=lambda r: int(r.choice([1, 2, 2, 3, 5])))
    pdg = v.int("pval_digits", 1, 8, gen=lambda r: int(r.choice([1, 2, 4, 4, 8])))
    dd = v.int("default_digits", 1, 9, gen=lambda r: int(r.choice([1, 3, 5, 5, 9])))
    if v.choice("defaults", [True, False]):
        kw, ed, pdg, dd = {}, 2, 4, 5
    else:
        kw = dict(err_digits=ed, pval_digits=pdg, default_digits=dd)
    lim = D.limits(v, "EB_limit", metrics, -3, 4)
    if lim or v.choice("pass-limit", [True, False]):
        kw["EB_limit"] = lim
    cols = D.column_order(v, metrics)
    X = {}
    for a, m in enumerate(methods):
        for b, c in enumerate(metrics):
            n = "%d,%d" % (a, b)
            e = err(v, "e" + n)
            x = mean(v, "x" + n, e)
            p = v.real("p" + n, 0.0, 1.0, gen=lambda r: float(r.choice([r.rand(), 0.0, 1.0, r.rand() ** 8, 1e-4, 0.05, 0.5, r.randint(0, 1001) / 1000.0, 5e-324]))) if v.choice("pk" + n, [True, False], w=[8, 1]) else math.nan
            if math.isfinite(e) and e > 0 and (lim.get(c) is None or D.sig(Fraction(e), ed, D.ceil_to)[0] <= D.p10(lim[c])):
                v.assume(not math.isinf(x))
                v.assume(math.isnan(x) or x == 0 or D.adj(Fraction(x)) - (D.adj(Fraction(e)) - 30) < 25 + 30 - ed)  # within the 28 digits of the decimal context
            X[m, (c, "mean")], X[m, (c, "error")], X[m, (c, "p")] = x, e, p
    T = D.table(X, methods, cols, float)
    keep = T.copy()
    R = v.call(v.m("sciprint").decimalize, T, **kw)
    v.ensures("rows", list(R.index) == methods and R.index.name == "method")
    v.ensures("columns", list(R.columns) == cols and list(R.columns.names) == ["metric", "stat"])
    v.ensures("input-unchanged", T.equals(keep) and list(T.columns) == cols)
    for m in methods:
        for c in metrics:
            g = [R.at[m, (c, s)] for s in ("mean", "error", "p")]
            v.ensures("decimals", all(isinstance(q, Decimal) for q in g))
            check_cell(v, g[0], g[1], g[2], X[m, (c, "mean")], X[m, (c, "error")], X[m, (c, "p")], ed, pdg, dd, lim.get(c))


@contract("C17", "decimalize.rejects", [SP + "decimalize", SP + "create_decimal"], cases=[{"why": w} for w in ("negative-error", "p-above-one", "negative-p", "err_digits", "pval_digits", "default_digits", "column-names", "row-name", "stats")], n_rand=25, modes="r")
def rejects(v):
    why = v.case["why"]
    metrics, methods = D.names(v, "metrics", 3), D.names(v, "methods", 3)
    X = {}
    for a, m in enumerate(methods):
        for b, c in enumerate(metrics):
            n = "%d,%d" % (a, b)
            X[m, (c, "mean")] = v.real("x" + n, -5.0, 5.0)
            X[m, (c, "error")] = v.real("e" + n, 0.01, 5.0) if why != "default_digits" else 0.0
            X[m, (c, "p")] = v.real("p" + n, 0.0, 1.0)
    bm, bc = methods[v.int("row", 0, len(methods) - 1)], metrics[v.int("col", 0, len(metrics) - 1)]
    kw = {}
    cols = D.column_order(v, metrics)
    if why == "negative-error":
        X[bm, (bc, "error")] = v.real("bad", hi=-1e-9, gen=lambda r: -float(r.choice([1.0, 0.01, r.rand(), math.inf])))
    elif why == "p-above-one":
        X[bm, (bc, "p")] = v.real("bad", lo=1.0, open="l", gen=lambda r: float(r.choice([1.0002, 2.0, 1.5])))
    elif why == "negative-p":
        X[bm, (bc, "p")] = v.real("bad", hi=0.0, open="h", gen=lambda r: -float(r.choice([0.0002, 2.0, 0.5])))
    elif why.endswith("digits"):
        kw[why] = v.int("bad", hi=0, gen=lambda r: int(r.choice([0, -1, -3])))
    if why == "stats":
        # a metric without one of its three statistics
        X2 = {(m, ("mean" if c[1] == "p" else c[1]) if False else c): q for (m, c), q in X.items()}
        cols = [(c, s if s != "p" else "pval") for c, s in cols]
        X = {(m, (c, s if s != "p" else "pval")): q for (m, (c, s)), q in X2.items()}
    T = D.table(X, methods, cols, float)
    if why == "column-names":
        T.columns.names = v.choice("cn", [["metric", None], ["stat", "metric"], [None, None]])
    if why == "row-name":
        T.index.name = v.choice("rn", [None, "Method"])
    v.must_reject(v.run(v.m("sciprint").decimalize, T, **kw), "rejects-" + why)


@contract("C17", "create_decimal", [SP + "create_decimal"], n_rand=400, modes="r")
def create_decimal(v):
    x = v.ext("x", gen=lambda r: D.floatval(r))
    d = v.int("digits", 1, 20)
    k = v.choice("rounding", ["default", "ROUND_HALF_UP", "ROUND_CEILING", "ROUND_FLOOR"])
    f = v.m("sciprint").create_decimal
    import decimal

    before = (decimal.getcontext().prec, decimal.getcontext().rounding)
    y = v.call(f, x, d) if k == "default" else v.call(f, x, d, k)
    v.ensures("decimal-context-restored", (decimal.getcontext().prec, decimal.getcontext().rounding) == before)
    how = {"ROUND_CEILING": D.ceil_to, "ROUND_FLOOR": lambda q, e: -D.ceil_to(-q, e)}.get(k, D.half_up_to)
    D.same_sig(v, "rounded", y, x, d, how)


@contract("C17", "decimal_eps", [SP + "decimal_eps", SP + "decimal_1ek"], n_rand=100, modes="r")
def decimal_eps(v):
    d = D.gendec(v, "d")
    y = v.call(v.m("sciprint").decimal_eps, d)
    v.ensures("unit-in-last-place", D.parts(y)[0] == D.p10(d.as_tuple().exponent))
    k = v.int("k", gen=D.magnitude)
    s = v.choice("signed", [True, False])
    y = v.call(v.m("sciprint").decimal_1ek, k, s)
    v.ensures("power-of-ten", D.parts(y)[0] == (-1 if s else 1) * D.p10(k))


# --- deductive contracts: all values -------------------------------------------------------------------
DZ = [SP + f for f in ("decimalize", "create_decimal", "decimal_1ek", "decimal_from_tuple", "ensure_tuple_of_ints")]


def sym_sig(v, name, d, x, digits, mode):
    """d is the real x rounded to at most `digits` significant digits (exactly that many unless nothing was lost)"""
    from pyvc import decf as F

    v.ensures(name + "-finite", F.known_finite(d))
    v.ensures(name + "-rounded", F.rounded(mode, x, d))
    v.ensures(name + "-significant-digits", F.n_digits(d) <= digits)
    v.ensures(name + "-no-needless-rounding", v.or_(F.n_digits(d) == digits, F.value(d) == x))


@contract("C17", "create_decimal.proof", [SP + "create_decimal"], cases=[{"rounding": r} for r in ("default", "ROUND_HALF_UP", "ROUND_CEILING", "ROUND_FLOOR")], modes="p")
def create_decimal_all(v):
    from pyvc import decf as F

    x, n = v.real("x"), v.int("digits", 1)
    r = v.case["rounding"]
    a = () if r == "default" else (r,)
    f = v.m("sciprint").create_decimal
    y = v.call(f, x, n, *a)
    sym_sig(v, "rounded", y, x, n, "ROUND_HALF_UP" if r == "default" else r)
    for k in ("nan", "inf", "-inf"):
        v.ensures("special-kept", F.same_special(v.call(f, float(k), n, *a), k))
    bad = v.int("bad")
    v.assume(bad < 1)
    v.must_reject(v.run(f, x, bad, *a), "rejects-no-digits")
    v.ensures("decimal-context-restored", len(F.CTX) == 1 and F.CTX[0].prec == 28)


@stub("mlpaper.sciprint.create_decimal")
def create_decimal_spec(v, x, digits, rounding="ROUND_HALF_UP"):
    """contract of create_decimal (proved by create_decimal.proof) at its call sites"""
    from pyvc import decf as F

    require(digits >= 1)
    return F.sig_spec(x, digits, rounding)


LAY = [{"methods": a, "metrics": b, "order": o, "digits": d, "kinds": k}
       for a, b, o, d, k in [("m", "x", "std", (2, 4, 5), "all"), ("m", "x", "rev", (1, 3, 1), "all"), ("m", "x", "std", (5, 8, 9), "all"),
                             ("ba", "x", "std", (2, 4, 5), "fin"), ("m", "yx", "rev", (2, 4, 5), "fin"), ("ba", "yx", "mixed", (3, 2, 4), "fin"), ("bac", "x", "std", (2, 4, 5), "fin")]]


@contract("C17", "decimalize.proof", DZ, cases=LAY, modes="p", max_paths=600, stubs=["mlpaper.sciprint.create_decimal"], cone=True)
def decimalize_all(v):
    from pyvc import decf as F

    ed, pdg, dd = v.case["digits"]
    methods, metrics = list(v.case["methods"]), list(v.case["metrics"])
    cols = [(m, s) for m in metrics for s in ("mean", "error", "p")]
    if v.case["order"] == "rev":
        cols = cols[::-1]
    elif v.case["order"] == "mixed":
        cols = [(m, s) for s in ("p", "mean", "error") for m in metrics]
    full = v.case["kinds"] == "all"
    lim, X = {}, {}
    for b, c in enumerate(metrics):
        if (v.choice("limit", [True, False]) if full else b == 0):
            lim[c] = v.int("limit:" + c)
        for m in methods:
            n = m + c
            e = v.ext("e" + n, which=("fin", "inf", "nan") if full else ("fin",), lo=0.0)
            if not full:
                v.assume(e > 0)
            x = v.ext("x" + n) if full else v.real("x" + n)
            p = v.ext("p" + n, which=("fin", "nan") if full else ("fin",), lo=0.0, hi=1.0)
            usable = not isinstance(e, float) and v.cond(e > 0) and (c not in lim or v.cond(e <= F.ten(lim[c])))
            if usable:
                if isinstance(x, float) and math.isinf(x):
                    return  # outside the domain: an infinite mean with a usable error bar
                if not isinstance(x, float):
                    v.assume(v.abs(x) < 10 ** (27 - ed) * e)  # within the 28 digits of the decimal context
            X[m, (c, "mean")], X[m, (c, "error")], X[m, (c, "p")] = x, e, p
            X[m, c] = usable
    T = F.table(X, methods, cols)
    kw = {} if (ed, pdg, dd) == (2, 4, 5) else dict(err_digits=ed, pval_digits=pdg, default_digits=dd)
    if lim:
        kw["EB_limit"] = lim
    R = v.call(v.m("sciprint").decimalize, T, **kw)
    v.ensures("rows", list(R.index) == methods and R.index.name == "method")
    v.ensures("columns", list(R.columns) == cols and list(R.columns.names) == ["metric", "stat"])
    for m in methods:
        for c in metrics:
            mu, EB, p = [R.at[m, (c, s)] for s in ("mean", "error", "p")]
            x, e, pv = [X[m, (c, s)] for s in ("mean", "error", "p")]
            if isinstance(e, float):
                v.ensures("error-special-kept", F.same_special(EB, str(e)))
            elif X[m, c] or v.cond(e == 0):
                sym_sig(v, "error", EB, e, ed, "ROUND_CEILING")
                v.ensures("error-non-negative", F.value(EB) >= 0)
            else:
                v.ensures("error-beyond-limit-is-infinite", F.same_special(EB, "inf"))
            if isinstance(x, float):
                v.ensures("mean-special-kept", F.same_special(mu, str(x)))
            elif X[m, c]:
                v.ensures("mean-finite", F.known_finite(mu))
                v.ensures("mean-same-last-place", F.expo(mu) == F.expo(EB))
                v.ensures("mean-half-up", F.rounded("ROUND_HALF_UP", x, mu))
            else:
                sym_sig(v, "mean-default", mu, x, dd, "ROUND_HALF_UP")
            if isinstance(pv, float):
                v.ensures("p-special-kept", F.same_special(p, "nan"))
            else:
                v.ensures("p-finite", F.known_finite(p))
                v.ensures("p-last-place", F.expo(p) == -pdg)
                v.ensures("p-rounded-up", F.rounded("ROUND_CEILING", pv, p))


@contract("C17", "decimalize.rejects.proof", DZ, cases=[{"why": w} for w in ("negative-error", "p-above-one", "negative-p")], modes="p")
def decimalize_rejects_all(v):
    from pyvc import decf as F

    e, x, p = v.real("e", 0.0), v.real("x"), v.real("p", 0.0, 1.0)
    v.assume(e > 0)
    v.assume(v.abs(x) < 10 ** 24 * e)
    why = v.case["why"]
    if why == "negative-error":
        e = v.real("bad")
        v.assume(e < 0)
    elif why == "p-above-one":
        p = v.real("bad")
        v.assume(p > 1)
    else:
        p = v.real("bad")
        v.assume(p <= -0.0001)
    T = F.table({("m", ("x", "mean")): x, ("m", ("x", "error")): e, ("m", ("x", "p")): p}, ["m"], [("x", "mean"), ("x", "error"), ("x", "p")])
    v.must_reject(v.run(v.m("sciprint").decimalize, T), "rejects-" + why)


@contract("C17", "decimal_eps.proof", [SP + f for f in ("decimal_eps", "decimal_1ek", "decimal_from_tuple", "ensure_tuple_of_ints")], modes="p")
def decimal_eps_all(v):
    from pyvc import decf as F

    k = v.int("k")
    s = v.choice("signed", [True, False])
    y = v.call(v.m("sciprint").decimal_1ek, k, s)
    v.ensures("power-of-ten", F.value(y) == (-F.ten(k) if s else F.ten(k)))
    v.ensures("one-digit", v.and_(F.expo(y) == k, F.n_digits(y) == 1))
    v.ensures("infinite-limit", F.same_special(v.call(v.m("sciprint").decimal_1ek, "F", s), "-inf" if s else "inf"))
    d = F.build(v.int("d:s", 0, 1), v.int("d:c", 0), v.int("d:e"))
    y = v.call(v.m("sciprint").decimal_eps, d)
    v.ensures("unit-in-last-place", v.and_(F.value(y) == F.ten(F.expo(d)), F.expo(y) == F.expo(d)))
