"""C18: printed estimates and p-values."""
import math
from decimal import Decimal
from fractions import Fraction
from pyvc.verify import contract
from . import declib as D

SP = "mlpaper.sciprint."
PE = [SP + f for f in ("print_estimate", "digit_str", "decimal_to_dot", "as_tuple_chk")]


def errof(v, mu, name="EB"):
    k = v.choice(name + ":kind", ["x", "0", "0.00", "inf", "nan"], w=[8, 1, 1, 1, 1])
    if k in ("inf", "nan", "0"):
        return Decimal(k)
    e = mu.as_tuple().exponent if mu.is_finite() else 0
    if k == "0.00":
        return D.dec(0, 0, v.int(name + ":e", gen=lambda r: int(r.randint(-6, 4))))
    return D.dec(0, v.int(name + ":c", 1, gen=lambda r: D.coef(r, int(r.randint(1, 4)))), e)


def clips(v, mu):
    lo = hi = None
    k = v.choice("clips", ["none", "hi", "lo", "both", "at"], w=[4, 2, 2, 2, 1])
    g = lambda r: int(r.randint(-4, 6))
    if k in ("hi", "both"):
        hi = D.dec(0, v.int("hi:c", 1, gen=lambda r: int(r.choice([1, 1, 5, 12]))), v.int("hi:e", gen=g))
    if k in ("lo", "both"):
        lo = D.dec(v.int("lo:s", 0, 1), v.int("lo:c", 1, gen=lambda r: int(r.choice([1, 1, 5, 12]))), v.int("lo:e", gen=g))
        v.assume(hi is None or lo < hi)
    if k == "at" and mu.is_finite():
        if v.choice("at", [True, False]):
            hi = mu
        else:
            lo = mu
    return lo, hi


@contract("C18", "print_estimate", PE, n_rand=1500, modes="r")
def print_estimate(v):
    k = v.choice("mu:kind", ["x", "inf", "-inf", "nan"], w=[14, 1, 1, 1])
    mu = D.gendec(v, "mu", -9, 4) if k == "x" else Decimal(k)
    EB = errof(v, mu)
    lo, hi = clips(v, mu)
    top = -mu.as_tuple().exponent if mu.is_finite() else 0
    shift = v.int("shift", gen=lambda r: int(r.choice([min(0, top), top, top - r.randint(0, 8), top + 1])))
    nf = v.choice("nonfin", D.NF)
    clipped = not mu.is_nan() and ((hi is not None and mu > hi) or (lo is not None and mu < lo))
    if mu.is_finite() and not clipped:
        v.assume(shift <= top)
    kw = {}
    if lo is not None:
        kw["min_clip"] = lo
    if hi is not None:
        kw["max_clip"] = hi
    if nf:
        kw["non_finite_fmt"] = nf
    if shift or v.choice("pass-shift", [True, False]):
        kw["shift"] = shift if v.choice("shift-as", ["int", "numpy"]) == "int" else __import__("numpy").int64(shift)
    below, above = "<", ">"
    if v.choice("fmt", ["default", "default", "own"]) == "own":
        kw["below_fmt"], kw["above_fmt"] = "under {0:,f}", "over {0:,f}"
        below, above = "under ", "over "
    s = v.call(v.m("sciprint").print_estimate, mu, EB, **kw)
    D.check_estimate(v, s, mu, EB, shift, lo, hi, nf, below, above)


@contract("C18", "print_estimate.rejects", PE, cases=[{"why": w} for w in ("shift", "quantum", "negative", "clips", "nan-clip")], n_rand=60, modes="r")
def rejects(v):
    why = v.case["why"]
    mu = D.gendec(v, "mu", -9, 4)
    EB = D.dec(0, v.int("EB:c", 1, 99), mu.as_tuple().exponent)
    top = -mu.as_tuple().exponent
    kw = dict(shift=top)
    if why == "shift":
        kw["shift"] = top + v.int("over", 1, 6)
    elif why == "quantum":
        EB = D.dec(0, v.int("EB:c", 1, 99), top * -1 + v.int("off", -3, 3))
        v.assume(EB.as_tuple().exponent != mu.as_tuple().exponent)
    elif why == "negative":
        EB = -EB
    elif why == "clips":
        a, b = sorted([D.gendec(v, "a"), D.gendec(v, "b")])
        kw.update(min_clip=b, max_clip=a)
    elif why == "nan-clip":
        kw[v.choice("which", ["min_clip", "max_clip"])] = Decimal("nan")
    v.must_reject(v.run(v.m("sciprint").print_estimate, mu, EB, **kw), "rejects-" + why)


@contract("C18", "print_pval", [SP + "print_pval", SP + "decimal_eps"], n_rand=500, modes="r")
def print_pval(v):
    d = v.int("digits", 1, 12)
    if v.choice("kind", ["x", "nan"], w=[8, 1]) == "nan":
        p = Decimal("nan")
    else:
        p = D.dec(0, v.int("p:c", 0, 10**d, gen=lambda r: int(r.choice([0, 1, 2, 10**d, 10**d - 1, 5 * 10 ** (d - 1), 11, 9]) if r.rand() < 0.6 else r.randint(0, min(10**d, 2**62) + 1))), -d)
    nf = v.choice("nonfin", D.NF)
    kw = {"non_finite_fmt": nf} if nf else {}
    below = "<"
    if v.choice("fmt", ["default", "own"]) == "own":
        below = "p below "
        kw["below_fmt"] = "p below {0:,f}"
    s = v.call(v.m("sciprint").print_pval, p, **kw)
    if p.is_nan():
        return v.ensures("non-finite-text", s == nf.get("nan", "nan"))
    val = D.parts(p)[0]
    if val <= D.p10(-d):
        v.ensures("below-smallest", s.startswith(below))
        r = D.read(s[len(below):])
        v.ensures("below-smallest-value", r is not None and r == (D.p10(-d), d))
    else:
        r = D.read(s)
        v.ensures("p-value", r is not None and r == (val, d))


@contract("C18", "print_pval.rejects", [SP + "print_pval"], n_rand=60, modes="r")
def pval_rejects(v):
    d = v.int("digits", 1, 6)
    p = D.dec(v.int("s", 0, 1), v.int("c", 1, 3 * 10**d), -d)
    v.assume(p < 0 or p > 1)
    v.must_reject(v.run(v.m("sciprint").print_pval, p), "rejects-outside-unit-interval")


@contract("C18", "digit_str", [SP + "digit_str", SP + "decimal_to_dot", SP + "as_tuple_chk"], n_rand=100, modes="r")
def digit_str(v):
    d = D.gendec(v, "d")
    s = v.call(v.m("sciprint").digit_str, d)
    v.ensures("digits", s == "".join(map(str, d.as_tuple().digits)))
    t = v.call(v.m("sciprint").decimal_to_dot, d)
    v.ensures("to-dot", bool(t) == (d.as_tuple().exponent <= 0))
    b = Decimal(v.choice("bad", ["nan", "inf", "-inf"]))
    v.ensures("non-finite-not-to-dot", not v.call(v.m("sciprint").decimal_to_dot, b))
    v.must_reject(v.run(v.m("sciprint").digit_str, b), "rejects-non-finite")


# --- deductive contracts: all values -------------------------------------------------------------------
def symdec(v, name, neg=True, lo=0):
    """any finite Decimal within the 28 digits of the decimal context"""
    from pyvc import decf as F

    d = F.build(v.int(name + ":s", 0, 1) if neg else 0, v.int(name + ":c", lo), v.int(name + ":e"))
    v.assume(F.n_digits(d) <= 28)
    return d


def sym_err(v, mu, name="EB", kinds=("x", "0", "0.00", "inf", "nan")):
    from pyvc import decf as F

    k = v.choice(name + ":kind", kinds)
    if k in ("inf", "nan"):
        return F.special(k == "nan", False)
    if k == "0":
        return F.build(0, 0, 0)
    if k == "0.00":
        return F.build(0, 0, v.int(name + ":e"))
    e = F.expo(mu) if isinstance(mu, F.SDec) else v.int(name + ":e")
    EB = F.build(0, v.int(name + ":c", 1), e)
    return EB


def sym_text(v, name, s, *want):
    """the text s is made of these pieces: literals, ('number', value, fraction digits or None) and ('digits', Decimal)"""
    from pyvc import decf as F

    P = F.parts(s) if isinstance(s, str) else None
    W = [w for w in want if w != ""]
    v.ensures(name + "-form", P is not None and len(P) == len(W) and all(isinstance(p, str) and p == w if isinstance(w, str) else isinstance(p, tuple) and p[0] == {"number": "format", "digits": "digits"}[w[0]] for p, w in zip(P, W)))
    for p, w in zip(P or (), W):
        if isinstance(w, str) or isinstance(p, str) or p[0] != {"number": "format", "digits": "digits"}[w[0]]:
            continue
        if w[0] == "number":
            v.ensures(name + "-standard-notation", p[1] == ",f")
            v.ensures(name + "-value", F.value(p[2]) == w[1])
            if w[2] is not None:
                v.ensures(name + "-fraction-digits", -F.expo(p[2]) == w[2])
                v.ensures(name + "-sign", v.iff(p[2].is_signed(), w[3]))
        else:
            v.ensures(name + "-digits", F.coef(p[1]) == F.coef(w[1]))


def sym_estimate(v, s, mu, EB, shift, lo, hi, nf, below="<", above=">"):
    from pyvc import decf as F

    if not isinstance(mu, F.SDec):
        k = "nan" if mu.is_nan() else "-inf" if mu.is_signed() else "inf"
        if k == "inf" and hi is not None:
            return sym_text(v, "above-limit", s, above, ("number", F.value(hi) * F.ten(shift), None))
        if k == "-inf" and lo is not None:
            return sym_text(v, "below-limit", s, below, ("number", F.value(lo) * F.ten(shift), None))
        return v.ensures("non-finite-text", s == nf.get(k, k))
    if hi is not None and v.cond(F.value(mu) > F.value(hi)):
        return sym_text(v, "above-limit", s, above, ("number", F.value(hi) * F.ten(shift), None))
    if lo is not None and v.cond(F.value(mu) < F.value(lo)):
        return sym_text(v, "below-limit", s, below, ("number", F.value(lo) * F.ten(shift), None))
    num = ("number", F.value(mu) * F.ten(shift), -(F.expo(mu) + shift), mu.is_signed())
    if isinstance(EB, F.SDec):
        sym_text(v, "estimate", s, num, "(", ("digits", EB), ")")
        v.ensures("error-in-units-of-last-digit", v.or_(F.value(EB) == 0, F.expo(EB) == F.expo(mu)))
    else:
        sym_text(v, "estimate", s, num)


NFS = [{}, {"nan": "--", "inf": "oo"}, {"-inf": "minus"}]


@contract("C18", "print_estimate.proof", PE, modes="p", cases=[{"clips": c, "fmt": f} for c in ("none", "hi", "lo", "both") for f in ("default", "own")], max_paths=600, cone=True)
def print_estimate_all(v):
    from pyvc import decf as F

    k = v.choice("mu:kind", ["x", "inf", "-inf", "nan"])
    mu = symdec(v, "mu") if k == "x" else F.special(k == "nan", k == "-inf")
    EB = sym_err(v, mu)
    lo = hi = None
    if v.case["clips"] in ("hi", "both"):
        hi = symdec(v, "hi")
    if v.case["clips"] in ("lo", "both"):
        lo = symdec(v, "lo")
    if lo is not None and hi is not None:
        v.assume(F.value(lo) < F.value(hi))
    shift = v.int("shift")
    nf = NFS[0] if k == "x" else v.choice("nonfin", NFS)
    kw, below, above = {}, "<", ">"
    if lo is not None:
        kw["min_clip"] = lo
    if hi is not None:
        kw["max_clip"] = hi
    if nf:
        kw["non_finite_fmt"] = nf
    v.inputs["clips"] = ["none", "hi", "lo", "both"].index(v.case["clips"])
    v.inputs["fmt"] = 2 * (v.case["fmt"] == "own")
    if v.case["fmt"] == "own":
        kw["below_fmt"], kw["above_fmt"] = "under {0:,f} !", "over {0:,f}"
    o = F.run_text(v, v.m("sciprint").print_estimate, mu, EB, shift, **kw)
    if o.raised is not None:
        # only when digits before the decimal point would be missing
        v.ensures("raises-only-when-shifted-too-far", v.and_(k == "x", F.expo(mu) + shift > 0) if k == "x" else False)
        return
    if k == "x" and not ((hi is not None and v.cond(F.value(mu) > F.value(hi))) or (lo is not None and v.cond(F.value(mu) < F.value(lo)))):
        v.ensures("to-the-decimal-point", F.expo(mu) + shift <= 0)
    if v.case["fmt"] == "own" and isinstance(o.value, str) and o.value.endswith(" !"):
        sym_estimate(v, o.value[:-2], mu, EB, shift, lo, hi, nf, "under ", "over ")
    elif v.case["fmt"] == "own":
        sym_estimate(v, o.value, mu, EB, shift, lo, hi, nf, "no clip", "over ")
    else:
        sym_estimate(v, o.value, mu, EB, shift, lo, hi, nf)


@contract("C18", "print_estimate.rejects.proof", PE, modes="p", cases=[{"why": w} for w in ("shift", "quantum", "negative", "clips", "nan-clip", "inf-clip")], cone=True)
def print_estimate_rejects_all(v):
    from pyvc import decf as F

    why = v.case["why"]
    mu = symdec(v, "mu")
    EB = F.build(0, v.int("EB:c", 1), F.expo(mu))
    shift = v.int("shift")
    kw = {}
    if why == "shift":
        v.assume(shift > -F.expo(mu))
    else:
        v.assume(shift <= -F.expo(mu))
    if why == "quantum":
        EB = F.build(0, v.int("EB:c2", 1), v.int("EB:e"))
        v.assume(v.not_(F.expo(EB) == F.expo(mu)))
    elif why == "negative":
        EB = EB.copy_negate()
    elif why == "clips":
        a, b = symdec(v, "a"), symdec(v, "b")
        v.assume(F.value(a) >= F.value(b))
        kw.update(min_clip=a, max_clip=b)
    elif why == "nan-clip":
        kw[v.choice("which", ["min_clip", "max_clip"])] = F.special(True, False)
    elif why == "inf-clip":
        kw.update(v.choice("which", [{"min_clip": F.special(False, False)}, {"max_clip": F.special(False, True)}]))
    v.must_reject(F.run_text(v, v.m("sciprint").print_estimate, mu, EB, shift, **kw), "rejects-" + why)


@contract("C18", "print_pval.proof", [SP + f for f in ("print_pval", "decimal_eps", "decimal_1ek", "decimal_from_tuple")], modes="p", cone=True)
def print_pval_all(v):
    from pyvc import decf as F

    k = v.choice("kind", ["x", "nan"])
    nf = v.choice("nonfin", NFS) if k == "nan" else {}
    own = v.choice("fmt", ["default", "own"]) == "own"
    kw = {"below_fmt": "p below {0:,f}"} if own else {}
    if nf:
        kw["non_finite_fmt"] = nf
    f = v.m("sciprint").print_pval
    if k == "nan":
        o = F.run_text(v, f, F.special(True, False), **kw)
        return v.ensures("non-finite-text", o.raised is None and o.value == nf.get("nan", "nan"))
    d = v.int("digits", 1)
    p = F.build(0, v.int("p:c", 0), -d)
    v.assume(F.value(p) <= 1)
    o = F.run_text(v, f, p, **kw)
    v.ensures("no-exception", o.raised is None)
    u = F.ten(-d)
    if v.cond(F.value(p) <= u):
        sym_text(v, "below-smallest", o.value, "p below " if own else "<", ("number", u, d, False))
    else:
        sym_text(v, "p", o.value, ("number", F.value(p), d, False))


@contract("C18", "print_pval.rejects.proof", [SP + "print_pval"], modes="p", cone=True)
def print_pval_rejects_all(v):
    from pyvc import decf as F

    p = F.build(v.int("p:s", 0, 1), v.int("p:c", 0), -v.int("digits", 1))
    v.assume(v.or_(F.value(p) < 0, F.value(p) > 1))
    v.must_reject(F.run_text(v, v.m("sciprint").print_pval, p), "rejects-outside-unit-interval")


@contract("C18", "digit_str.proof", [SP + f for f in ("digit_str", "decimal_to_dot", "as_tuple_chk")], modes="p", cone=True)
def digit_str_all(v):
    from pyvc import decf as F

    d = symdec(v, "d")
    o = F.run_text(v, v.m("sciprint").digit_str, d)
    v.ensures("no-exception", o.raised is None)
    sym_text(v, "coefficient", o.value, ("digits", d))
    v.ensures("to-dot", v.iff(v.call(v.m("sciprint").decimal_to_dot, d), F.expo(d) <= 0))
    for k in ("nan", "inf", "-inf"):
        b = F.special(k == "nan", k == "-inf")
        v.ensures("non-finite-not-to-dot", v.not_(v.call(v.m("sciprint").decimal_to_dot, b)))
        v.must_reject(v.run(v.m("sciprint").digit_str, b), "rejects-non-finite")
