"""decimal facade: finite Decimals are (sign, coefficient, exponent) with their exact value; strings made from them are
symbolic text (tokens inside ordinary str objects).

Assumed contracts on `decimal` (General Decimal Arithmetic specification): exact conversion from float, rounding of unary
plus / quantize in every rounding mode, scaleb, comparisons, specials, str.format of a Decimal.
"""
import decimal as rd
import re
import sys
from fractions import Fraction
import z3
from . import core, npf
from .core import lit, SBool, SInt, SFlt, Unsupported, is_sym, ctx, mkint, mkbool, flt, norm, intt, B, And, Or, Not, Implies, Ite, R, I
from .npf import USED

P10 = z3.Function("p10", z3.IntSort(), z3.RealSort())
ND = z3.Function("ndigits", z3.RealSort(), z3.IntSort(), z3.IntSort())
FC = z3.Function("float_coef", z3.RealSort(), z3.IntSort())
FE = z3.Function("float_expo", z3.RealSort(), z3.IntSort())

MODES = ("ROUND_CEILING", "ROUND_FLOOR", "ROUND_UP", "ROUND_DOWN", "ROUND_HALF_UP", "ROUND_HALF_DOWN", "ROUND_HALF_EVEN")


def uns(m):
    c = ctx()
    if c is not None:
        c.unsupported = m
    raise Unsupported(m)


def p10(k):
    n = core.num(k)
    if n is not None:
        return R(Fraction(10) ** int(n))
    return P10(k)


def rabs(v):
    return z3.If(v >= 0, v, -v)


class SDec:
    __slots__ = ("nan", "inf", "neg", "c", "e", "v", "nd")
    __array_priority__ = 4000

    def __init__(self, nan, inf, neg, c, e, v, nd):
        self.nan, self.inf, self.neg, self.c, self.e, self.v, self.nd = nan, inf, neg, c, e, v, nd

    def facts(self):
        """representation facts of a finite decimal"""
        u = rabs(self.v)
        return [self.c >= 0, self.nd >= 1, (self.c == 0) == (self.v == 0), z3.Implies(B(self.neg), self.v <= 0), z3.Implies(B(Not(self.neg)), self.v >= 0),
                z3.Implies(self.v != 0, z3.And(p10(z3.simplify(self.e + self.nd - 1)) <= u, u < p10(z3.simplify(self.e + self.nd)))), z3.Implies(self.v == 0, self.nd == 1)]

    # -- classification
    @property
    def fin(self):
        return Not(Or(self.nan, self.inf))

    def flt(self):
        return SFlt(self.v, nan=self.nan, pinf=And(self.inf, Not(self.neg)), ninf=And(self.inf, self.neg))

    def is_nan(self):
        return mkbool(self.nan)

    is_qnan = is_nan

    def is_snan(self):
        return False

    def is_finite(self):
        return mkbool(self.fin)

    def is_infinite(self):
        return mkbool(self.inf)

    def is_zero(self):
        return mkbool(And(self.fin, self.v == 0))

    def is_signed(self):
        return mkbool(self.neg)

    def __bool__(self):
        return not bool(self.is_zero())

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "SDec(%s)" % str(self.v)[:60]

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, rd.Decimal):
            o = const(o)
        if isinstance(o, SDec):
            f = o.flt()
        elif core.scalar_like(o):
            f = flt(o)
        else:
            return NotImplemented
        n = Or(self.nan, f.nan)
        if op in ("eq", "ne"):
            r = core.cmp("eq", self.flt(), f)
            return r if op == "eq" else (not r if isinstance(r, bool) else ~r)
        if fork(n):
            raise rd.InvalidOperation([rd.InvalidOperation])
        return core.cmp(op, self.flt(), f)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    # -- parts
    def as_tuple(self):
        if fork(self.nan):
            return rd.DecimalTuple(0, (), "n")
        sign = mkint(Ite(self.neg, z3.IntVal(1), z3.IntVal(0)))
        if fork(self.inf):
            return rd.DecimalTuple(sign, (0,), "F")
        return rd.DecimalTuple(sign, Digits(self), mkint(self.e))

    def adjusted(self):
        if not fork(self.fin):
            return 0
        return mkint(z3.simplify(self.e + self.nd - 1))

    def copy_abs(self):
        return SDec(self.nan, self.inf, False, self.c, self.e, rabs(self.v), self.nd)

    def copy_negate(self):
        return SDec(self.nan, self.inf, Not(self.neg), self.c, self.e, -self.v, self.nd)

    def _fits(self, what):
        """the operation rounds to the context unless the digits fit"""
        if not fork(Or(Not(self.fin), self.nd <= I(intt(CTX[-1].prec)))):
            uns(what + " that rounds")

    def __neg__(self):
        self._fits("negation")
        return self.copy_negate()

    def __abs__(self):
        self._fits("abs")
        return self.copy_abs()

    def __pos__(self):
        USED.add("decimal rounding to context precision")
        c = CTX[-1]
        p, m = I(intt(c.prec)), c.rounding
        if m not in MODES:
            uns("rounding mode %r" % (m,))
        if fork(Not(self.fin)):
            return self
        if fork(self.nd <= p):
            assume(rabs(self.v) < p10(z3.simplify(self.e + p)))  # follows from the number of digits
            return self
        if fork(self.v == 0):
            return SDec(False, False, self.neg, I(0), self.e, R(0), I(1))  # not reached: one digit
        V = z3.Function("sig_v_" + m, z3.RealSort(), z3.IntSort(), z3.RealSort())(self.v, p)
        E = z3.Function("sig_e_" + m, z3.RealSort(), z3.IntSort(), z3.IntSort())(self.v, p)
        C = z3.Function("sig_c_" + m, z3.RealSort(), z3.IntSort(), z3.IntSort())(self.v, p)
        r = SDec(False, False, self.neg, C, E, V, p)
        assume(*mode_facts(m, self.v, V, p10(E)), *fixed(self.v, V), V != 0, E > self.e, *r.facts())
        return r

    def quantize(self, exp, rounding=None, context=None):
        USED.add("decimal.quantize")
        if context is not None:
            uns("quantize with a context")
        exp = dec(exp)
        m = rounding or CTX[-1].rounding
        if m not in MODES:
            uns("rounding mode %r" % (m,))
        if fork(Or(self.nan, exp.nan)):
            return special(True, False)
        if fork(Or(self.inf, exp.inf)):
            if fork(And(self.inf, exp.inf)):
                return special(False, fork(self.neg))
            raise rd.InvalidOperation([rd.InvalidOperation])
        return self._q(exp.e, m)

    def _q(self, e, m, check=True):
        V = z3.Function("quant_v_" + m, z3.RealSort(), z3.IntSort(), z3.RealSort())(self.v, e)
        C = z3.Function("quant_c_" + m, z3.RealSort(), z3.IntSort(), z3.IntSort())(self.v, e)
        r = SDec(False, False, self.neg, C, e, V, ND(V, e))
        assume(*mode_facts(m, self.v, V, p10(e)), *[z3.Implies(e <= 0, q) for q in fixed(self.v, V)], *r.facts())
        if check and not fork(rabs(V) < p10(z3.simplify(e + I(intt(CTX[-1].prec))))):
            raise rd.InvalidOperation([rd.InvalidOperation])
        return r

    def scaleb(self, k, context=None):
        USED.add("decimal.scaleb")
        if isinstance(k, SDec):
            uns("scaleb by a Decimal")
        k = I(intt(k))
        self._fits("scaleb")
        n = core.num(k)
        if n == 0:
            return self
        v = self.v * p10(k)
        return SDec(self.nan, self.inf, self.neg, self.c, z3.simplify(self.e + k), v, self.nd)

    # -- conversion
    def _sym_float(self):
        if fork(self.nan):
            return float("nan")
        if fork(self.inf):
            return float("-inf") if fork(self.neg) else float("inf")
        return SFlt(self.v)

    def _sym_int(self):
        uns("int of a Decimal")

    def __float__(self):
        uns("float of a Decimal through C")

    __int__ = __float__

    def __format__(self, spec):
        if lit(self.fin) is not True:
            uns("format of a possibly non-finite Decimal")
        if not re.fullmatch(r",?(\.\d+)?f", spec):
            uns("Decimal format %r" % spec)
        return tok("format", spec, self)

    def __str__(self):
        if not from_repo():
            return repr(self)
        uns("str of a Decimal")

    def __getattr__(self, k):
        if k.startswith("__") or not from_repo():
            raise AttributeError(k)
        uns("Decimal." + k)


def from_repo():
    """is this access made by the code under verification (and not by pandas probing the object)?"""
    return sys._getframe(2).f_globals.get("__name__", "").startswith("mlpaper")


class XDec(rd.Decimal):
    """a known NaN or infinity"""

    def __new__(cls, x):
        return rd.Decimal.__new__(cls, x)

    def quantize(self, exp, rounding=None, context=None):
        return const(self).quantize(exp, rounding, context)

    def scaleb(self, k, context=None):
        return self

    def __pos__(self):
        return self

    def __neg__(self):
        return special(self.is_nan(), not self.is_signed())

    def __abs__(self):
        return special(self.is_nan(), False)

    copy_abs, copy_negate = __abs__, __neg__

    def _cmp(self, o, op):
        if isinstance(o, (SDec, SInt, SFlt)) or type(o) in (int, float, bool):
            return const(self)._cmp(o, op)
        return getattr(rd.Decimal, "__%s__" % op)(self, o)

    __hash__ = rd.Decimal.__hash__


for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(XDec, "__%s__" % _n, (lambda n: lambda self, o: self._cmp(o, n))(_n))


def special(nan, neg):
    return XDec("NaN") if nan else XDec("-Infinity" if neg else "Infinity")


def _no(name):
    def f(self, *a):
        uns("Decimal " + name)

    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "rfloordiv", "mod", "rmod", "pow", "rpow", "divmod", "round"):
    setattr(SDec, "__%s__" % _n, _no(_n))


def fork(c):
    l = core.lit(c)
    return l if l is not None else ctx().fork(B(c))


def assume(*fs):
    c = ctx()
    for f in fs:
        if c is not None:
            c.assume(f)


def fixed(x, y):
    """rounding is monotone and leaves -1, 0 and 1 alone"""
    out = []
    for k in (-1, 0, 1):
        out += [z3.Implies(x <= k, y <= k), z3.Implies(x >= k, y >= k)]
    return out


def mode_facts(m, x, y, u):
    """y is x rounded to a multiple of u"""
    up, a = y - x, rabs
    if m == "ROUND_CEILING":
        return [up >= 0, up < u]
    if m == "ROUND_FLOOR":
        return [up <= 0, -up < u]
    same = [z3.Implies(x >= 0, y >= 0), z3.Implies(x <= 0, y <= 0)]
    if m == "ROUND_UP":
        return same + [a(y) >= a(x), a(y) - a(x) < u]
    if m == "ROUND_DOWN":
        return same + [a(y) <= a(x), a(x) - a(y) < u]
    h = [2 * a(up) <= u]
    if m == "ROUND_HALF_UP":
        return same + h + [z3.Implies(2 * a(up) == u, a(y) > a(x))]
    if m == "ROUND_HALF_DOWN":
        return same + h + [z3.Implies(2 * a(up) == u, a(y) < a(x))]
    return same + h


# ---------------------------------------------------------------------------
def const(d):
    t = d.as_tuple()
    if d.is_nan():
        return SDec(True, False, bool(t.sign), I(0), I(0), R(0), I(1))
    if d.is_infinite():
        return SDec(False, True, bool(t.sign), I(0), I(0), R(0), I(1))
    c = int("".join(map(str, t.digits)) or "0")
    return SDec(False, False, bool(t.sign), I(c), I(t.exponent), R((-1 if t.sign else 1) * c * Fraction(10) ** t.exponent), I(len(str(c))))


def from_flt(x):
    e, c = FE(x.v), FC(x.v)
    if lit(x.nan) is True:
        return special(True, False)
    if lit(x.pinf) is True or lit(x.ninf) is True:
        return special(False, lit(x.ninf) is True)
    n = core.num(x.v)
    if n is not None:
        if lit(x.fin) is True and Fraction(float(n)) == n:
            return const(rd.Decimal(float(n)))
        uns("Decimal of a constant")
    r = SDec(x.nan, Or(x.pinf, x.ninf), Or(x.ninf, And(Not(x.nan), Not(x.pinf), x.v < 0)), c, e, x.v, ND(x.v, e))
    assume(*r.facts())
    return r


def from_tuple(sign, digits, expo):
    if isinstance(digits, Digits):
        d = digits.d
        if is_sym(expo) or isinstance(expo, int):
            e = I(intt(expo))
            neg = core.boolt(core.cmp("ne", sign, 0))
            return SDec(False, False, neg, d.c, e, Ite(neg, R(-1), R(1)) * z3.ToReal(d.c) * p10(e), d.nd)
        uns("Decimal from tuple")
    if any(is_sym(q) for q in digits):
        uns("Decimal from symbolic digits")
    if is_sym(sign):
        if fork(core.boolt(core.cmp("ne", sign, 0))):
            return from_tuple(1, digits, expo)
        return from_tuple(0, digits, expo)
    if not is_sym(expo):
        return const(rd.Decimal(rd.DecimalTuple(int(sign), tuple(digits), expo)))
    c = int("".join(map(str, digits)) or "0")
    e = I(intt(expo))
    return SDec(False, False, bool(sign), I(c), e, R(-c if sign else c) * p10(e), I(len(str(c))))


def dec(x):
    if isinstance(x, SDec):
        return x
    if isinstance(x, rd.Decimal):
        return const(x)
    if isinstance(x, SFlt) and lit(x.fin) is not True and (lit(x.nan) or lit(x.pinf) or lit(x.ninf)):
        return const(special(lit(x.nan) is True, lit(x.ninf) is True))
    if isinstance(x, rd.DecimalTuple) or isinstance(x, (tuple, list)) and len(x) == 3:
        return from_tuple(*x)
    if isinstance(x, str):
        return const(rd.Decimal(x))
    x = norm(x)
    if isinstance(x, (bool, int)):
        return const(rd.Decimal(int(x)))
    if isinstance(x, float):
        return const(rd.Decimal(x))
    if isinstance(x, SFlt):
        return from_flt(x)
    if isinstance(x, SInt):
        c = z3.If(x.t >= 0, x.t, -x.t)
        r = SDec(False, False, x.t < 0, c, I(0), z3.ToReal(x.t), ND(z3.ToReal(x.t), I(0)))
        assume(*r.facts())
        return r
    raise TypeError("conversion to Decimal is not supported")


def known(d):
    """Decimals that are certainly NaN or infinite are plain values"""
    if isinstance(d, SDec):
        if lit(d.nan) is True:
            return special(True, False)
        if lit(d.inf) is True and lit(d.neg) is not None:
            return special(False, lit(d.neg))
    return d


def build(neg, c, e, v=None):
    """finite decimal from (symbolic) sign, coefficient and exponent"""
    neg = core.boolt(core.cmp("ne", neg, 0)) if not isinstance(neg, (bool, z3.BoolRef)) else neg
    c, e = I(intt(c)), I(intt(e))
    n = core.num(e)
    m = z3.ToReal(c) * R(Fraction(10) ** int(n)) if n is not None else VAL(c, e)
    V = z3.simplify(z3.If(B(neg), -m, m))
    r = SDec(False, False, neg, c, e, V, ND(m, e))
    assume(m >= 0, (c == 0) == (m == 0), z3.Implies(c >= 1, m >= p10(e)), *r.facts())
    return r


VAL = z3.Function("dec_val", z3.IntSort(), z3.IntSort(), z3.RealSort())


class Digits:
    """the digits of a coefficient; only their text can be used (a run of digits is one chunk)"""

    def __init__(self, d):
        self.d = d

    def _sym_len(self):
        return mkint(self.d.nd)

    def __len__(self):
        uns("number of digits through C")

    def __iter__(self):
        if fork(self.d.nd == 1):
            return iter([Digit(self.d, "all")])
        if fork(self.d.nd == 2):
            return iter([Digit(self.d, "first"), Digit(self.d, "last")])
        return iter([Digit(self.d, "first"), Digit(self.d, "middle"), Digit(self.d, "last")])

    def __eq__(self, o):
        uns("comparison of digits")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        uns("digits." + k)


class Digit:
    def __init__(self, d, which):
        self.d, self.which = d, which

    def __str__(self):
        return tok("digit", self.d, self.which)

    def __format__(self, spec):
        if spec:
            uns("format of a digit")
        return str(self)

    def _sym_int(self):
        return self if self.which in ("all", "first", "last") else self

    def __int__(self):
        uns("value of a digit")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        uns("digit." + k)


# --- symbolic text -------------------------------------------------------------------------------------
TOKS = []
A, Z = "\ue000", "\ue001"


def tok(*t):
    TOKS.append(t)
    return "%s%d%s" % (A, len(TOKS) - 1, Z)


SENT = 7 * 10**33


def int_text(x, number=False):
    """text of a symbolic integer; number: a number whose digits stand for it in '%d'"""
    if not number:
        return tok("int", x)
    TOKS.append(("int", x))
    return SENT + len(TOKS) - 1


def has_tok(s):
    return isinstance(s, str) and A in s


def parts(s):
    """[literal or token, ...]; runs of digits of one coefficient are merged"""
    out = []
    for q in s.split(A):
        if Z in q:
            k, rest = q.split(Z, 1)
            out.append(TOKS[int(k)])
            q = rest
        for k, w in enumerate(re.split(r"(?<!\d)7(\d{33})(?!\d)", q)):
            if k % 2:
                out.append(TOKS[int(w)])
            elif w:
                out.append(w)
    r, i = [], 0
    while i < len(out):
        t = out[i]
        if isinstance(t, tuple) and t[0] == "digit":
            w = []
            j = i
            while j < len(out) and isinstance(out[j], tuple) and out[j][0] == "digit" and out[j][1] is t[1]:
                w.append(out[j][2])
                j += 1
            if w in (["all"], ["first", "last"], ["first", "middle", "last"]):
                r.append(("digits", t[1]))
                i = j
                continue
        r.append(t)
        i += 1
    return r


def without(s, chars):
    """contract of removing characters from a text"""
    return tok("without", chars, s) if has_tok(s) else "".join(c for c in s if c not in chars)


def width(d):
    """characters of a finite decimal with exponent <= 0 in ',f' form, without separators"""
    k = z3.simplify(d.nd + d.e)
    return z3.simplify(z3.If(k > 1, k, z3.IntVal(1)) - d.e + z3.If(B(d.neg), z3.IntVal(1), z3.IntVal(0)))


def est_width(mu, EB, shift):
    """characters of mu(EB) shown at that shift, without separators"""
    k = I(intt(shift))
    m = SDec(False, False, mu.neg, mu.c, z3.simplify(mu.e + k), mu.v, mu.nd)
    return mkint(z3.simplify(width(m) + z3.If(B(EB.fin), EB.nd + 2, z3.IntVal(0))))


def text_len(s):
    """number of characters of symbolic text"""
    drop, r = "", 0
    P = parts(s)
    if len(P) == 1 and isinstance(P[0], tuple) and P[0][0] == "without":
        drop = P[0][1]
        P = parts(P[0][2])
    for p in P:
        if isinstance(p, str):
            r = r + sum(c not in drop for c in p)
        elif p[0] == "digits" and not set(drop) & set("0123456789"):
            r = r + mkint(p[1].nd)
        elif p[0] == "format" and p[1] == ",f" and set(drop) == set(",."):
            d = p[2]
            if not fork(d.e <= 0):
                uns("length of a number with trailing zeros")
            r = r + mkint(width(d))
        elif p[0] == "estimate" and set(drop) == set(",."):
            r = r + est_width(*p[1:])
        else:
            uns("length of symbolic text")
    return r


OKSTR = {"format", "join", "__format__", "__str__"}


class guard:
    """while code under verification runs: methods of text with symbolic chunks that look inside it are not modelled"""

    def __enter__(self):
        self.old = sys.getprofile()
        core.TEXT[0] = int_text

        def prof(frame, event, arg):
            if event == "c_call":
                s = getattr(arg, "__self__", None)
                if isinstance(s, str) and A in s and arg.__name__ not in OKSTR:
                    if not frame.f_globals.get("__name__", "").startswith("mlpaper"):
                        return
                    uns("str.%s of symbolic text" % arg.__name__)

        sys.setprofile(prof)

    def __exit__(self, *a):
        core.TEXT[0] = None
        sys.setprofile(self.old)


class SStr:
    """unknown number text: at most one '.', at most one '('"""

    def __len__(self):
        uns("length of symbolic text through C")

    def __init__(self, name, length):
        self.name, self.n = name, length

    def _sym_len(self):
        return mkint(self.n)

    def find(self, sub, *a):
        if a or not isinstance(sub, str) or len(sub) != 1 or sub not in ".(":
            uns("find of %r" % (sub,))
        t = z3.Int("find:%d:%s" % (ord(sub), self.name))
        assume(t >= -1, t < self.n)
        return mkint(t)

    rfind = find

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if bool(r < 0):
            raise ValueError("substring not found")
        return r

    rindex = index

    def __contains__(self, sub):
        return bool(self.find(sub) >= 0)

    def ljust(self, w, ch=" "):
        k = intt(w) - intt(self._sym_len())
        return SCat([self, SRep(ch, mkint(z3.If(k > 0, k, z3.IntVal(0))))])

    def __add__(self, o):
        return SCat([self, o])

    def __radd__(self, o):
        return SCat([o, self])

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        uns("str." + k)


class SCat(SStr):
    def __init__(self, parts_):
        self.parts = []
        for p in parts_:
            self.parts += p.parts if isinstance(p, SCat) else [p]

    def _sym_len(self):
        r = 0
        for p in self.parts:
            r = r + (len(p) if isinstance(p, str) else p._sym_len())
        return r

    def find(self, *a):
        uns("find in composed text")

    rfind = index = rindex = find


class SRep(SStr):
    """s repeated k times"""

    def __init__(self, s, k):
        self.s, self.k = s, k

    def _sym_len(self):
        k = intt(self.k)
        return mkint(z3.If(k > 0, k, z3.IntVal(0)) * len(self.s))

    def find(self, *a):
        uns("find in repeated text")

    rfind = index = rindex = find


# --- contexts ------------------------------------------------------------------------------------------
class Context:
    def __init__(self, prec=28, rounding="ROUND_HALF_EVEN", **k):
        if k:
            uns("decimal context options")
        self.__dict__.update(prec=prec, rounding=rounding)

    def __setattr__(self, k, v):
        if k not in ("prec", "rounding"):
            uns("decimal context ." + k)
        if k == "prec" and bool(v < 1):
            raise ValueError("valid range for prec is [1, MAX_PREC]")
        if k == "rounding" and v not in MODES + ("ROUND_05UP",):
            raise TypeError("valid values for rounding are ...")
        self.__dict__[k] = v

    def copy(self):
        return Context(self.prec, self.rounding)

    def _with(self, f):
        CTX.append(self)
        try:
            return f()
        finally:
            CTX.pop()

    def plus(self, x):
        return self._with(lambda: +dec(x))

    def create_decimal(self, x=0):
        return self._with(lambda: +dec(x))

    create_decimal_from_float = create_decimal

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        uns("Context." + k)


CTX = [Context()]


class localcontext:
    def __init__(self, c=None, **k):
        self.c = (c or CTX[-1]).copy()
        for q in k:
            setattr(self.c, q, k[q])

    def __enter__(self):
        CTX.append(self.c)
        return self.c

    def __exit__(self, *a):
        CTX.pop()


class _DM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SDec, rd.Decimal))

    def __call__(cls, x="0", context=None):
        USED.add("decimal.Decimal")
        return known(dec(x))

    def from_float(cls, x):
        return known(dec(x))


class Decimal(metaclass=_DM):
    pass


def repeat(s, k):
    if s in (" ", "~", "0", "_", "-", ".") or len(s) <= 3:
        return SRep(s, k)
    uns("repeated text")


def install(F):
    m = npf.Mod("decimal")
    d = m.__dict__
    d.update(Decimal=Decimal, DecimalTuple=rd.DecimalTuple, localcontext=localcontext, getcontext=lambda: CTX[-1], Context=Context)
    for n in MODES + ("ROUND_05UP",):
        d[n] = n
    for n in ("InvalidOperation", "DecimalException", "Inexact", "Rounded", "Overflow", "Underflow"):
        d[n] = getattr(rd, n)
    F["decimal"] = m


# --- vocabulary of the contracts -----------------------------------------------------------------------
def value(d):
    d = dec(d)
    return SFlt(d.v)


def expo(d):
    return mkint(dec(d).e)


def n_digits(d):
    return mkint(dec(d).nd)


def coef(d):
    return mkint(dec(d).c)


def ten(k):
    return SFlt(p10(z3.simplify(I(intt(k)))))


def is_dec(d):
    return isinstance(d, (SDec, rd.Decimal))


def known_finite(d):
    return is_dec(d) and mkbool(dec(d).fin)


def same_special(d, k):
    """d is certainly that NaN or infinity"""
    if not is_dec(d):
        return False
    d = dec(d)
    if k == "nan":
        return mkbool(d.nan)
    return mkbool(And(Not(d.nan), d.inf, d.neg if k == "-inf" else Not(d.neg)))


def rounded(mode, x, d):
    """d is x rounded to a multiple of the unit of d's last digit, by that mode"""
    d = dec(d)
    return mkbool(z3.And(*mode_facts(mode, flt(x).v, d.v, p10(d.e))))


def sig_spec(x, digits, mode):
    """contract of rounding to significant digits: a Decimal known by its specification only"""
    x = norm(x)
    if not isinstance(x, SFlt) or lit(x.fin) is not True or core.num(x.v) is not None:
        return Context(digits, mode)._with(lambda: +known(dec(x)))
    p = I(intt(digits))
    V, E, C, N = [z3.Function("rs_%s_%s" % (q, mode), z3.RealSort(), z3.IntSort(), z3.RealSort() if q == "v" else z3.IntSort())(x.v, p) for q in "vecn"]
    r = SDec(False, False, x.v < 0, C, E, V, N)
    assume(*mode_facts(mode, x.v, V, p10(E)), N <= p, Or(N == p, V == x.v), rabs(V) < p10(z3.simplify(E + p)), *r.facts())
    return r


def table(X, methods, cols):
    """frame of floats with known labels"""
    import pandas as rpd
    from . import pdf, arr

    c = [pdf.cellcol([norm(X[m, k]) if is_sym(X[m, k]) else flt(X[m, k]) for m in methods]) for k in cols]
    return pdf.SFrame(c, rpd.MultiIndex.from_tuples(cols, names=["metric", "stat"]), rpd.Index(methods, name="method"))


def run_text(v, f, *a, **k):
    """v.run with symbolic text watched"""
    with guard():
        return v.run(f, *a, **k)


def dec_list(name, n, kinds=("x",)):
    """list of n Decimals, n of any size: element k has sign, coefficient, exponent given by arbitrary functions of k.
    kinds beyond "x": elements may also be NaN / infinite"""
    from . import loops, red

    ints = {q: z3.Function("dl_%s:%s" % (q, name), z3.IntSort(), z3.IntSort()) for q in ("c", "e", "nd")}
    V = z3.Function("dl_v:" + name, z3.IntSort(), z3.RealSort())
    bools = {q: z3.Function("dl_%s:%s" % (q, name), z3.IntSort(), z3.BoolSort()) for q in ("neg", "nan", "inf")}

    def el(k):
        d = SDec(bools["nan"](k) if "nan" in kinds else False, bools["inf"](k) if "inf" in kinds else False, bools["neg"](k) if "+" not in kinds else False, ints["c"](k), ints["e"](k), V(k), ints["nd"](k))
        return d

    q = z3.Int("?q0")
    d = el(q)
    fs = d.facts()
    if "nan" in kinds and "inf" in kinds:
        fs.append(z3.Not(z3.And(d.nan, d.inf)))
    if "+" in kinds:
        fs.append(d.v >= 0)
    # a list has no elements outside its range: the representation facts may be assumed for every index
    red.add_forall([q], z3.And(*[B(f) for f in fs]), [])
    return loops.SList(n, el)
