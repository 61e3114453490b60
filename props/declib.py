"""Independent exact-arithmetic oracles and generators for the decimal formatting properties (run time)."""
import math
import re
from decimal import Decimal, DecimalTuple
from fractions import Fraction
import numpy as rnp
import pandas as pd
from pyvc.verify import Reject


def dec(neg, coef, expo):
    if abs(int(expo)) > 400 or abs(int(coef)) >= 10**28:
        raise Reject()  # outside the domain of the run-time contracts
    return Decimal(DecimalTuple(int(bool(neg)), tuple(int(c) for c in str(int(coef))), int(expo)))


def p10(k):
    return Fraction(10) ** k


def parts(d):
    """(value, number of digits, exponent) of a finite Decimal"""
    t = d.as_tuple()
    c = int("".join(map(str, t.digits)))
    return (-1 if t.sign else 1) * Fraction(c) * p10(t.exponent), len(str(c)), t.exponent


def adj(x):
    """floor(log10|x|) of a nonzero Fraction"""
    x = abs(x)
    k = len(str(x.numerator)) - len(str(x.denominator))
    while p10(k) > x:
        k -= 1
    while p10(k + 1) <= x:
        k += 1
    return k


def ceil_to(x, e):
    return Fraction(math.ceil(x / p10(e))) * p10(e)


def half_up_to(x, e):
    q = abs(x) / p10(e)
    k = math.floor(q + Fraction(1, 2))
    return (-1 if x < 0 else 1) * Fraction(k) * p10(e)


def sig(x, digits, how):
    """the Fraction x rounded to `digits` significant digits: (value, exponent of the last kept digit or None if exact)"""
    if x == 0:
        return x, None
    e = adj(x) - digits + 1
    r = how(x, e)
    if r == x:
        return r, None
    if r != 0 and adj(r) > adj(x):
        e += 1
    return r, e


def same_sig(v, name, d, x, digits, how):
    """Decimal d is the float x rounded to that many significant digits"""
    if math.isnan(x):
        return v.ensures(name + "-nan", d.is_nan())
    if math.isinf(x):
        return v.ensures(name + "-inf", d.is_infinite() and (d > 0) == (x > 0))
    r, e = sig(Fraction(x), digits, how)
    v.ensures(name + "-finite", d.is_finite())
    val, nd, ex = parts(d)
    v.ensures(name + "-value", val == r)
    v.ensures(name + "-significant-digits", nd <= digits if e is None else (ex == e and nd == digits))


NUM = re.compile(r"^(-?)(\d{1,3}(?:,\d{3})*)(?:\.(\d+))?$")


def read(s):
    """parse a printed number: (value, fractional digits); None if it is not in standard notation"""
    m = NUM.match(s)
    if not m:
        return None
    ip = m.group(2).replace(",", "")
    if len(ip) > 1 and ip[0] == "0":
        return None
    fp = m.group(3) or ""
    return (-1 if m.group(1) else 1) * Fraction(int(ip + fp)) / p10(len(fp)), len(fp)


def check_estimate(v, s, mu, EB, shift, lo, hi, nonfin, below="<", above=">"):
    """s is the printed form of mu(EB) at that shift with limits lo, hi (None: unlimited)"""
    v.ensures("is-string", isinstance(s, str))
    if not mu.is_nan() and hi is not None and mu > hi:
        v.ensures("above-limit", s.startswith(above))
        r = read(s[len(above):])
        return v.ensures("above-limit-value", r is not None and r[0] == parts(hi)[0] * p10(shift))
    if not mu.is_nan() and lo is not None and mu < lo:
        v.ensures("below-limit", s.startswith(below))
        r = read(s[len(below):])
        return v.ensures("below-limit-value", r is not None and r[0] == parts(lo)[0] * p10(shift))
    if not mu.is_finite():
        k = "nan" if mu.is_nan() else "inf" if mu > 0 else "-inf"
        return v.ensures("non-finite-text", s == nonfin.get(k, k))
    body = s
    if EB.is_finite():
        v.ensures("error-in-parentheses", s.endswith(")") and s.count("(") == 1)
        body, e = s[:-1].split("(")
        v.ensures("error-digits-only", e.isdigit() and (e == "0" or e[0] != "0"))
        # in units of the last printed digit
        v.ensures("error-value", Fraction(int(e)) * p10(mu.as_tuple().exponent) == parts(EB)[0])
    r = read(body)
    v.ensures("standard-notation", r is not None)
    v.ensures("mean-value", r[0] == parts(mu)[0] * p10(shift))
    v.ensures("mean-digits-kept", r[1] == -(mu.as_tuple().exponent + shift))
    v.ensures("mean-sign", (body[0] == "-") == bool(mu.as_tuple().sign))


def width(mu, EB, shift):
    """printed characters without separators"""
    neg, digs, e = mu.as_tuple()
    e += shift
    n = max(len(digs) + e, 1) - e
    if EB.is_finite():
        n += 2 + len(EB.as_tuple().digits)
    return n + (1 if neg else 0)


def shift_range(mus, mod):
    """documented limits of the search"""
    mx = min(-m.as_tuple().exponent for m in mus)
    mx -= mx % mod
    mn = min(-m.adjusted() for m in mus)
    mn += -mn % mod
    return min(mn, mx), mx, mn > mx


def check_shift(v, s, mus, EBs, mod):
    """s is an admissible shift that minimises the longest entry, the smallest in magnitude of those"""
    s = int(s)
    if not mus:
        return v.ensures("empty-no-shift", s == 0)
    mn, mx, _ = shift_range(mus, mod)
    v.ensures("multiple-of-step", s % mod == 0)
    v.ensures("admissible", mn <= s <= mx)
    W = {k: max(width(m, e, k) for m, e in zip(mus, EBs)) for k in range(mn, mx + 1) if k % mod == 0}
    v.ensures("minimal-width", W[s] == min(W.values()))
    v.ensures("smallest-shift-on-ties", all(abs(k) >= abs(s) for k in W if W[k] == W[s]))


# --- generators ----------------------------------------------------------------------------------------
def magnitude(r):
    k = r.randint(5)
    if k == 0:
        return int(r.randint(-3, 4))
    if k == 1:
        return int(r.randint(-30, 30))
    return int(r.randint(-8, 9))


def coef(r, nd=None):
    nd = int(r.randint(1, 8)) if nd is None else nd
    k = r.randint(5)
    if k == 0:
        return 10 ** (nd - 1)
    if k == 1:
        return 10 ** nd - 1
    return int("".join([str(r.randint(1, 10))] + [str(r.randint(10)) for _ in range(nd - 1)]))


def floatval(r, sign=True):
    """floats with short, tied, carrying and long expansions"""
    k = r.randint(8)
    if k == 0:
        x = r.rand() * 10.0 ** magnitude(r)
    elif k == 1:
        x = float(dec(0, coef(r), magnitude(r)))
    elif k == 2:
        x = r.randint(0, 2000) / 2.0 ** r.randint(0, 12)  # exact binary fractions: ties
    elif k == 3:
        x = float("9" * r.randint(1, 6) + "." + "9" * r.randint(0, 6) + "%d" % r.randint(10)) * 10.0 ** r.randint(-6, 3)
    elif k == 4:
        x = float(r.choice([0.0, 1.0, 10.0, 100.0, 0.5, 0.25, 0.125, 2.5, 1e-3, 1e5, 12345.0, 0.1, 0.05]))
    elif k == 5:
        x = abs(r.randn()) * 10.0 ** r.randint(-3, 4)
    elif k == 6:
        x = r.randint(0, 10000) / 1000.0
    else:
        x = r.rand()
    return -x if sign and r.rand() < 0.4 else x


def ascoef(v, name, nd=None):
    return v.int(name, 0, gen=lambda r: coef(r, nd) if r.rand() > 0.07 else 0)


def gendec(v, name, lo=-12, hi=12, neg=True, nd=None):
    e = v.int(name + ":e", gen=lambda r: int(r.randint(lo, hi + 1)))
    s = v.int(name + ":s", 0, 1, gen=lambda r: int(neg and r.rand() < 0.4))
    c = ascoef(v, name + ":c", nd)
    return dec(s, c, e)


NF = [{}, {}, {"nan": "--"}, {"nan": "N/A", "inf": r"\infty", "-inf": r"-\infty"}]


def names(v, what, mx):
    """labels of methods / metrics"""
    k = v.choice(what + ":names", ["abc", "rev", "odd"])
    n = v.int(what + ":n", 1, mx)
    L = {"abc": ["Log_Loss", "brier", "zero one", "AUC"], "rev": ["z", "y_2", "x", "a"], "odd": ["b", "B", "aa", "a_b_c"]}[k][:n]
    return L


def column_order(v, metrics, stats=("mean", "error", "p")):
    L = [(m, s) for m in metrics for s in stats]
    k = v.choice("column-order", ["std", "std", "rev", "bystat", "perm"])
    if k == "rev":
        L = L[::-1]
    elif k == "bystat":
        L = [(m, s) for s in stats[::-1] for m in metrics]
    elif k == "perm":
        p = v.int("column-perm", 0, 10 ** 9)
        rnp.random.RandomState(p).shuffle(L)
    return L


def limits(v, what, metrics, lo, hi, p=0.4):
    """dict metric -> integer, with metrics missing"""
    D = {}
    for q, m in enumerate(metrics):
        k = v.int("%s%d" % (what, q), lo - 1, hi, gen=lambda r: int(r.randint(lo, hi + 1)) if r.rand() < p else lo - 1)
        if k >= lo:
            D[m] = k
    if D and v.choice(what + ":extra", [False, False, True]):
        D["not a metric"] = 0
    return D


def table(cells, methods, cols, dtype=None):
    T = pd.DataFrame(index=pd.Index(methods, name="method"), columns=pd.MultiIndex.from_tuples(cols, names=["metric", "stat"]), dtype=object)
    for m in methods:
        for c in cols:
            T.at[m, c] = cells[m, c]
    return T.astype(dtype) if dtype else T
