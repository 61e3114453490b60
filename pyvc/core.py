"""Scalars, path exploration and solver interface of the verifier.

Values of the program under verification:
  SBool            z3 Bool
  SInt             z3 Int (mathematical integer)
  SFlt             extended real: flags nan / +inf / -inf and a z3 Real value.
                   Rounding, overflow and signed zero are NOT modelled.
Python-level control flow forks on ``bool(SBool)``.
"""
from fractions import Fraction
import math
import time
import z3

z3.set_param("smt.random_seed", 7)


class Unsupported(BaseException):
    """Construct outside the verifier's reach (never a verdict about the code)."""


class Infeasible(BaseException):
    pass


class Budget(BaseException):
    pass


# --------------------------------------------------------------------------
# booleans with python short cuts
# --------------------------------------------------------------------------
def B(x):
    return x if isinstance(x, z3.BoolRef) else z3.BoolVal(bool(x))


def lit(x):
    """python bool if literal else None"""
    if x is True or x is False:
        return x
    if isinstance(x, z3.BoolRef):
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        return None
    return bool(x)


def And(*xs):
    out = []
    for x in xs:
        l = lit(x)
        if l is False:
            return False
        if l is None:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        l = lit(x)
        if l is True:
            return True
        if l is None:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    l = lit(x)
    if l is not None:
        return not l
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    la, lb = lit(a), lit(b)
    if la is not None and lb is not None:
        return la == lb
    if la is not None:
        return b if la else Not(b)
    if lb is not None:
        return a if lb else Not(a)
    if a.eq(b):
        return True
    return a == b


def Ite(c, a, b):
    """z3 terms (Int/Real) or bools"""
    l = lit(c)
    if l is not None:
        return a if l else b
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        la, lb = lit(a), lit(b)
        if la is not None and lb is not None:
            if la == lb:
                return la
            return c if la else Not(c)
        if la is True:
            return Or(c, b)
        if la is False:
            return And(Not(c), b)
        if lb is True:
            return Or(Not(c), a)
        if lb is False:
            return And(c, a)
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return a
    return z3.If(c, a, b)


# --------------------------------------------------------------------------
# arithmetic helpers on z3 terms with folding
# --------------------------------------------------------------------------
def num(t):
    """Fraction value of a numeral z3 term (or python number), else None"""
    if isinstance(t, (int, Fraction)) and not isinstance(t, bool):
        return Fraction(t)
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def R(q):
    if isinstance(q, z3.ArithRef):
        return z3.ToReal(q) if q.is_int() and num(q) is None else (z3.RealVal(num(q)) if q.is_int() else q)
    q = Fraction(q)
    return z3.RealVal(q)


def I(k):
    return k if isinstance(k, z3.ArithRef) else z3.IntVal(int(k))


def radd(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return R(na + nb)
    if na == 0:
        return b
    if nb == 0:
        return a
    return a + b


def rneg(a):
    na = num(a)
    return R(-na) if na is not None else -a


def rsub(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return R(na - nb)
    if nb == 0:
        return a
    if na == 0:
        return -b
    if a.eq(b):
        return R(0)
    return a - b


def rmul(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return R(na * nb)
    if na == 0 or nb == 0:
        return R(0)
    if na == 1:
        return b
    if nb == 1:
        return a
    return a * b


def rdiv(a, b):
    na, nb = num(a), num(b)
    if nb is not None and nb != 0:
        if na is not None:
            return R(na / nb)
        return rmul(a, R(1 / nb))
    if na == 0:
        return R(0)
    return a / b


def lt(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return na < nb
    if a.eq(b):
        return False
    return a < b


def le(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return na <= nb
    if a.eq(b):
        return True
    return a <= b


def eq(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return na == nb
    if a.eq(b):
        return True
    return a == b


# --------------------------------------------------------------------------
# path context
# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0


STATS = Stats()
DEADLINE = [None]  # wall clock limit for the whole check


def out_of_time():
    return DEADLINE[0] is not None and time.time() > DEADLINE[0]


class Ctx:
    def __init__(self, prefix=()):
        self.pc = []
        self.prefix = list(prefix)
        self.taken = []
        self.derived = {}
        self.alts = []
        self.fresh = {}
        self.notes = {}
        self.unsupported = None
        self.max_forks = 400
        self.feas_timeout = 800

    generic = None  # generic row indices: decisions about them must be forced

    def name(self, base):
        k = self.fresh.get(base, 0)
        self.fresh[base] = k + 1
        return "%s!%d" % (base, k)

    def assume(self, c):
        c = c.t if isinstance(c, SBool) else c
        l = lit(c)
        if l is True:
            return
        if l is False:
            raise Infeasible()
        self.pc.append(c)

    def fork(self, c):
        l = lit(c)
        if l is None:
            c = z3.simplify(c)
            l = lit(c)
        if l is not None:
            return l
        k = len(self.taken)
        if k >= self.max_forks:
            raise Budget("too many forks")
        if out_of_time():
            raise Budget("time")
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            t, f = self.feasible(c)
            if t == "unsat":
                d = 3  # forced (the path may be infeasible altogether)
            elif f == "unsat":
                d = 2
            elif self.generic is not None and any(occurs_in(g, c) for g in self.generic):
                raise Unsupported("decision that differs between the rows of a vectorised call")
            else:
                self.alts.append(self.taken + [0])
                d = 1
        self.taken.append(d)
        e = c if d in (1, 2) else Not(c)
        if d >= 2 and any(z3.is_expr(f) and f.eq(e) for f in self.pc):
            return d == 2
        self.pc.append(e)
        if d >= 2:
            self.derived[e.get_id()] = e  # follows from the rest of the path condition
        return d in (1, 2)

    def core_pc(self):
        return [f for f in self.pc if not (z3.is_expr(f) and f.get_id() in self.derived)]

    def feasible(self, c):
        """can c / not c hold here?  few facts first: the usual assert is decided by them"""
        for rounds in (0, 1, None):
            tmo = self.feas_timeout if rounds is None else 400
            f = solve(self.pc + [Not(c)], tmo, rounds=rounds)[0]
            if f == "unsat":
                return "?", f
            t = solve(self.pc + [c], tmo, rounds=rounds)[0]
            if t == "unsat":
                return t, f
        return t, f

    def entails(self, c, light=False):
        l = lit(c)
        if l is not None:
            return l
        if solve(self.pc + [Not(c)], 400, rounds=0)[0] == "unsat":
            return True
        return solve(self.pc + [Not(c)], 800, rounds=1 if light else None)[0] == "unsat"


def occurs_in(v, t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        todo.extend(x.children())
    return False


class _Cur:
    ctx = None


CUR = _Cur()


def ctx():
    return CUR.ctx


# --------------------------------------------------------------------------
# solving (lemma instantiation is plugged in by red.py)
# --------------------------------------------------------------------------
import os as _os0

SLOW = float(_os0.environ.get("PYVC_SLOW", "0") or 0)
LEMMAS = [lambda fs, rounds: []]
_cache = {}


def _key(fs):
    return tuple(sorted(f.get_id() for f in fs))


_keep = []


FACTS_N = [lambda: 0]


CONE = [False]  # drop hypotheses about other inputs than the goal's (opt-in: only weakens what is assumed)
_leaves = {}
GLOBAL_UF = ("p10", "rs_", "sig_", "quant_", "ndigits", "float_", "dec_val")


def leaves(f):
    """the inputs a formula speaks about: constants and input functions"""
    k = f.get_id()
    if k not in _leaves:
        out, seen, todo = set(), set(), [f]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not (t.num_args() and t.decl().name().startswith(GLOBAL_UF)):
                    out.add(t.decl().name())
                todo.extend(t.children())
        _leaves[k] = (f, out)
    return _leaves[k][1]


def cone(fs):
    """the hypotheses connected to the last formula"""
    goal, rest = fs[-1], [(i, leaves(f)) for i, f in enumerate(fs[:-1])]
    names, keep = set(leaves(goal)), set()
    if not names:
        return fs
    n = -1
    while len(keep) != n:
        n = len(keep)
        for i, q in rest:
            if i not in keep and (not q or q & names):
                keep.add(i)
                names |= q
    return [f for i, f in enumerate(fs[:-1]) if i in keep] + [goal]


def solve(fs, timeout_ms=5000, want_model=False, rounds=None):
    fs = [B(f) for f in fs]
    fs = [f for f in fs if not z3.is_true(f)]
    if CONE[0] and not want_model and len(fs) > 1:
        fs = cone(fs)
    if any(z3.is_false(f) for f in fs):
        return ("unsat", None)
    k = (_key(fs), rounds, FACTS_N[0]())
    if k in _cache:
        r, m, tmo = _cache[k]
        if r != "unknown" or tmo >= timeout_ms:
            if not want_model or r != "sat" or m is not None:
                return r, m
    _keep.append(fs)
    t0 = time.time()
    extra = LEMMAS[0](fs, rounds)
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(*fs)
    if extra:
        s.add(*extra)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    m = s.model() if r == "sat" else None
    STATS.queries += 1
    STATS.solver_s += time.time() - t0
    if r == "unknown":
        STATS.unknown += 1
    if SLOW and time.time() - t0 > SLOW:
        print("SLOW %s %.2fs lemmas=%d  %s" % (r, time.time() - t0, len(extra), str(fs[-1]).replace("\n", " ")[:400]), flush=True)
    _cache[k] = (r, m, timeout_ms)
    return r, m


# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------
def is_sym(x):
    return isinstance(x, (SBool, SInt, SFlt))


class SBool:
    __slots__ = ("t",)
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, t):
        self.t = B(t)

    def __bool__(self):
        return ctx().fork(self.t)

    def __repr__(self):
        return "SBool(%s)" % str(self.t)[:80]

    def __and__(self, o):
        if isinstance(o, (SBool, bool)) or hasattr(o, "item"):
            return SBool(And(self.t, boolt(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SBool, bool)) or hasattr(o, "item"):
            return SBool(Or(self.t, boolt(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return SBool(Not(Iff(self.t, boolt(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(Iff(self.t, boolt(o)))
        return cmp("eq", self, o)

    def __ne__(self, o):
        return SBool(Not(boolt(self == o)))

    def __hash__(self):
        return id(self)

    @property
    def dtype(self):
        return DType("b")

    def all(self, axis=None):
        return self

    any = all

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported("bool attribute " + name)


def _bin(name, rev=False):
    def f(self, o):
        if not scalar_like(o):
            if name == "mul" and isinstance(o, str):
                from . import decf

                return decf.repeat(o, self)
            return NotImplemented
        return arith(name, o, self) if rev else arith(name, self, o)

    return f


def _cmp(name):
    def f(self, o):
        if not scalar_like(o):
            if o is None or isinstance(o, (str, tuple, list, dict)):
                if name == "eq":
                    return False
                if name == "ne":
                    return True
            return NotImplemented
        return cmp(name, self, o)

    return f


class _Num:
    __slots__ = ()
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __hash__(self):
        if _repo_caller():
            ctx().unsupported = "symbolic number as a dictionary key or set element"
            raise Unsupported(ctx().unsupported)
        return id(self)

    def __str__(self):
        return _fmt_text(self, "") if _repo_caller() else repr(self)

    def __format__(self, spec):
        return _fmt_text(self, spec) if _repo_caller() else repr(self)

    def __abs__(self):
        return unary("abs", self)

    def __neg__(self):
        return unary("neg", self)

    def __pos__(self):
        return self

    def __bool__(self):
        return bool(cmp("ne", self, 0))

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __iter__(self):
        raise TypeError("0-d value is not iterable")

    def item(self):
        return self

    def __getitem__(self, k):
        if k == ():
            return self
        raise Unsupported("indexing a scalar")

    def all(self, axis=None):
        return cmp("ne", self, 0)

    any = all

    def astype(self, d):
        from . import arr

        return arr.cast(self, arr.kind_of_dtype(d))


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod"):
    setattr(_Num, "__%s__" % _n, _bin(_n))
    setattr(_Num, "__r%s__" % _n, _bin(_n, True))
    setattr(SBool, "__%s__" % _n, _bin(_n))
    setattr(SBool, "__r%s__" % _n, _bin(_n, True))
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(_Num, "__%s__" % _n, _cmp(_n))
for _n in ("lt", "le", "gt", "ge"):
    setattr(SBool, "__%s__" % _n, _cmp(_n))


TEXT = [None]  # makes the text of a symbolic integer while symbolic text is watched


def _repo_caller():
    import sys as _s

    return CUR.ctx is not None and _s._getframe(2).f_globals.get("__name__", "").startswith("mlpaper")


def _fmt_text(x, spec):
    if TEXT[0] is not None and isinstance(x, SInt) and spec in ("", "d"):
        return TEXT[0](x)
    ctx().notes["opaque_str"] = True
    return "?"


def _fmt_float(what):
    """'%f' % symbolic: the text is opaque (allowed only on paths that raise)"""
    import dis, sys as _s

    f = _s._getframe(2)
    code = f.f_code.co_code
    op = dis.opname[code[f.f_lasti]]
    if op == "BINARY_OP" and code[f.f_lasti + 1] == 6 and not f.f_code.co_filename.startswith(_HERE):
        ctx().notes["opaque_str"] = True
        return 0.0
    raise Unsupported(what)


import os as _os

_HERE = _os.path.dirname(_os.path.abspath(__file__))


class SInt(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SInt(%s)" % str(self.t)[:80]

    def __index__(self):
        raise Unsupported("symbolic integer used as a concrete index")

    @property
    def dtype(self):
        return DType("i")

    def __int__(self):
        r = _fmt_float("int() of symbolic int through C")
        if TEXT[0] is not None:
            ctx().notes.pop("opaque_str", None)
            return TEXT[0](self, True)
        return int(r)

    def __float__(self):
        return _fmt_float("float() of symbolic int through C")


class SFlt(_Num):
    """nan, pinf, ninf: bool or z3 Bool (mutually exclusive); v: z3 Real, meaningful if finite.
    lg: optional z3 Real term u >= 0 such that the value is log(u) (-inf when u == 0)."""

    __slots__ = ("nan", "pinf", "ninf", "v", "lg")

    def __init__(self, v, nan=False, pinf=False, ninf=False, lg=None):
        self.v, self.nan, self.pinf, self.ninf, self.lg = v, nan, pinf, ninf, lg

    def __repr__(self):
        return "SFlt(%s%s)" % (
            str(self.v)[:80],
            "".join(" %s?" % n for n in ("nan", "pinf", "ninf") if lit(getattr(self, n)) is not False),
        )

    @property
    def fin(self):
        return Not(Or(self.nan, self.pinf, self.ninf))

    @property
    def dtype(self):
        return DType("f")

    def __float__(self):
        return _fmt_float("float() of symbolic float through C")

    def __int__(self):
        raise Unsupported("int() of symbolic float through C")

    def is_integer(self):
        raise Unsupported("is_integer")


class DType:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        if isinstance(o, DType):
            return self.kind == o.kind
        try:
            from . import arr

            return self.kind == arr.kind_of_dtype(o)
        except Unsupported:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "DType(%s)" % self.kind

    @property
    def name(self):
        return {"f": "float64", "i": "int64", "b": "bool", "O": "object"}[self.kind]


def scalar_like(o):
    if is_sym(o):
        return True
    if isinstance(o, (bool, int, float, Fraction)):
        return True
    if hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0 and getattr(o.dtype, "kind", "") in "bif":
        return True
    return False


def mkbool(t):
    l = lit(t)
    return l if l is not None else SBool(t)


def mkint(t):
    n = num(t)
    return int(n) if n is not None else SInt(t)


def flt_const(c):
    c = float(c) if not isinstance(c, Fraction) else c
    if isinstance(c, float):
        if math.isnan(c):
            return SFlt(R(0), nan=True)
        if math.isinf(c):
            return SFlt(R(0), pinf=c > 0, ninf=c < 0)
        c = Fraction(repr(float(c)))
    return SFlt(R(c))


def norm(x):
    """python/numpy scalar -> python bool/int/float or symbolic unchanged"""
    if is_sym(x) or isinstance(x, (bool, Fraction)):
        return x
    if hasattr(x, "item") and hasattr(x, "dtype"):
        return x.item()
    return x


def kind(x):
    x = norm(x)
    if isinstance(x, (bool, SBool)):
        return "b"
    if isinstance(x, (int, SInt)):
        return "i"
    if isinstance(x, (float, SFlt, Fraction)):
        return "f"
    return "O"


def boolt(x):
    x = norm(x)
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return x
    if isinstance(x, (z3.BoolRef,)):
        return x
    return boolt(cmp("ne", x, 0))


def intt(x):
    x = norm(x)
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int)):
        return z3.IntVal(int(x))
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported("int term of %r" % (x,))


def flt(x):
    """coerce to SFlt"""
    x = norm(x)
    if isinstance(x, SFlt):
        return x
    if isinstance(x, SInt):
        return SFlt(z3.ToReal(x.t))
    if isinstance(x, SBool):
        return SFlt(z3.If(x.t, R(1), R(0)))
    if isinstance(x, (bool, int)):
        return SFlt(R(int(x)))
    if isinstance(x, (float, Fraction)):
        return flt_const(x)
    if isinstance(x, z3.ArithRef):
        return SFlt(R(x))
    raise Unsupported("float of %r" % (type(x),))


def ite(c, a, b):
    """scalar if-then-else on program values; c z3 bool/python bool"""
    c = boolt(c) if isinstance(c, SBool) else c
    l = lit(c)
    if l is not None:
        return a if l else b
    ka, kb = kind(a), kind(b)
    if ka == "O" or kb == "O":
        if a is b or a == b:
            return a
        raise Unsupported("merge of non numeric values")
    if ka == kb == "b":
        return mkbool(Ite(c, boolt(a), boolt(b)))
    if "f" not in (ka, kb):
        return mkint(Ite(c, intt(a), intt(b)))
    a, b = flt(a), flt(b)
    lg = None
    if a.lg is not None and b.lg is not None:
        lg = Ite(c, a.lg, b.lg)
    return SFlt(Ite(c, a.v, b.v), Ite(c, a.nan, b.nan), Ite(c, a.pinf, b.pinf), Ite(c, a.ninf, b.ninf), lg)


# --- uninterpreted analytic functions -------------------------------------
EXP = z3.Function("EXP", z3.RealSort(), z3.RealSort())
LOG = z3.Function("LOG", z3.RealSort(), z3.RealSort())
SQRT = z3.Function("SQRT", z3.RealSort(), z3.RealSort())
PI = z3.Real("PI")


def logof(u, nonneg=True):
    """the extended real log(u) for u >= 0"""
    n = num(u)
    if n == 1:
        return SFlt(R(0), lg=u)
    return SFlt(LOG(u), ninf=eq(u, R(0)), lg=u)


def known_pos(t):
    n = num(t)
    if n is not None:
        return n > 0
    return None


def nonzero(t):
    n = num(t)
    if n is not None:
        return n != 0
    c = ctx()
    if c is None:
        return False
    memo = c.notes.setdefault("nonzero", {})
    k = t.get_id()
    if k not in memo or memo[k][0] > len(c.pc) or (not memo[k][1] and memo[k][0] < len(c.pc)):
        memo[k] = (len(c.pc), c.entails(t != 0, light=z3.is_mul(t)), t)
    return memo[k][1]


def arith(op, a, b):
    a, b = norm(a), norm(b)
    ka, kb = kind(a), kind(b)
    if ka == "O" or kb == "O":
        raise Unsupported("arith on objects")
    if ka == "b":
        a = mkint(intt(a))
        ka = "i"
    if kb == "b":
        b = mkint(intt(b))
        kb = "i"
    if ka == "i" and kb == "i" and op != "truediv":
        x, y = intt(a), intt(b)
        nx, ny = num(x), num(y)
        if op == "add":
            if nx == 0:
                return b
            if ny == 0:
                return a
            return mkint(z3.simplify(x + y))
        if op == "sub":
            if ny == 0:
                return a
            return mkint(z3.simplify(x - y))
        if op == "mul":
            return mkint(z3.simplify(x * y))
        if op in ("floordiv", "mod"):
            if nx is not None and ny is not None:
                return int(nx) // int(ny) if op == "floordiv" else int(nx) % int(ny)
            if ny is not None:
                if ny == 0:
                    raise ZeroDivisionError()
                q = (x / y) if ny > 0 else ((-x) / (-y))
            else:
                q = z3.If(y > 0, x / y, (-x) / (-y))
                c = ctx()
                if c is not None:
                    c.notes.setdefault("facts", [])
                    f = z3.Implies(y > 0, z3.And(y * (x / y) <= x, x < y * (x / y) + y))
                    f2 = z3.Implies(y < 0, z3.And((-y) * ((-x) / (-y)) <= -x, -x < (-y) * ((-x) / (-y)) + (-y)))
                    c.pc.append(f)
                    c.pc.append(f2)
            return mkint(q) if op == "floordiv" else mkint(x - y * q)
        raise Unsupported(op)
    x, y = flt(a), flt(b)
    if op == "add":
        lg = rmul(x.lg, y.lg) if x.lg is not None and y.lg is not None else None
        return SFlt(
            radd(x.v, y.v),
            Or(x.nan, y.nan, And(x.pinf, y.ninf), And(x.ninf, y.pinf)),
            Or(And(x.pinf, Not(y.nan), Not(y.ninf)), And(y.pinf, Not(x.nan), Not(x.ninf))),
            Or(And(x.ninf, Not(y.nan), Not(y.pinf)), And(y.ninf, Not(x.nan), Not(x.pinf))),
            lg,
        )
    if op == "sub":
        if y.lg is not None and x.lg is not None and lit(y.ninf) is not True and nonzero(y.lg):
            r = arith("add", x, SFlt(rneg(y.v)))
            r.lg = rdiv(x.lg, y.lg)
            return r
        return arith("add", x, unary("neg", y))
    if op == "mul":
        for p, q in ((x, y), (y, x)):
            if p.lg is not None:
                n = num(q.v) if lit(q.fin) is True else None
                if n is not None and n > 0 and n.denominator == 1 and n <= 4:
                    u = p.lg
                    for _ in range(int(n) - 1):
                        u = rmul(u, p.lg)
                    return SFlt(rmul(p.v, q.v), p.nan, p.pinf, p.ninf, u)
                if n == Fraction(1, 2):
                    return SFlt(rmul(p.v, q.v), p.nan, p.pinf, p.ninf, SQRT(p.lg))
        zx, zy = And(x.fin, eq(x.v, R(0))), And(y.fin, eq(y.v, R(0)))
        ix, iy = Or(x.pinf, x.ninf), Or(y.pinf, y.ninf)
        if lit(ix) is False and lit(iy) is False:
            return SFlt(rmul(x.v, y.v), Or(x.nan, y.nan))
        px = Or(x.pinf, And(x.fin, lt(R(0), x.v)))
        py = Or(y.pinf, And(y.fin, lt(R(0), y.v)))
        nx = Or(x.ninf, And(x.fin, lt(x.v, R(0))))
        ny = Or(y.ninf, And(y.fin, lt(y.v, R(0))))
        nan = Or(x.nan, y.nan, And(zx, iy), And(zy, ix))
        inf = Or(ix, iy)
        return SFlt(
            rmul(x.v, y.v),
            nan,
            And(inf, Or(And(px, py), And(nx, ny))),
            And(inf, Or(And(px, ny), And(nx, py))),
        )
    if op == "truediv":
        n = num(y.v) if lit(y.fin) is True else None
        if n is not None and n != 0:
            return arith("mul", x, SFlt(R(1 / n)))
        if lit(y.fin) is True and nonzero(y.v):
            if lit(x.fin) is True:
                return SFlt(rdiv(x.v, y.v))
            pos = lt(R(0), y.v)
            return SFlt(
                rdiv(x.v, y.v),
                x.nan,
                Ite(pos, x.pinf, x.ninf),
                Ite(pos, x.ninf, x.pinf),
            )
        zx, zy = And(x.fin, eq(x.v, R(0))), And(y.fin, eq(y.v, R(0)))
        ix, iy = Or(x.pinf, x.ninf), Or(y.pinf, y.ninf)
        px = Or(x.pinf, And(x.fin, lt(R(0), x.v)))
        nx = Or(x.ninf, And(x.fin, lt(x.v, R(0))))
        sy_neg = Or(y.ninf, And(y.fin, lt(y.v, R(0))))
        nan = Or(x.nan, y.nan, And(zx, zy), And(ix, iy))
        inf = And(Not(nan), Or(zy, ix))
        pos = Ite(sy_neg, nx, px)
        fin_zero = And(iy, Not(nan))
        return SFlt(Ite(fin_zero, R(0), rdiv(x.v, y.v)), nan, And(inf, pos), And(inf, Not(pos)))
    if op in ("floordiv", "mod"):
        if lit(x.fin) is True and lit(y.fin) is True and num(y.v) not in (None, 0):
            q = z3.ToReal(z3.ToInt(rdiv(x.v, y.v)))
            return SFlt(q) if op == "floordiv" else SFlt(rsub(x.v, rmul(y.v, q)))
        raise Unsupported("float floordiv")
    raise Unsupported(op)


def unary(op, a):
    a = norm(a)
    k = kind(a)
    if k == "b":
        if op == "abs":
            return a
        raise TypeError("negative of bool")
    if k == "i":
        t = intt(a)
        if op == "neg":
            return mkint(z3.simplify(-t))
        if op == "abs":
            return mkint(z3.simplify(z3.If(t < 0, -t, t)))
    x = flt(a)
    if op == "neg":
        return SFlt(rneg(x.v), x.nan, x.ninf, x.pinf)
    if op == "abs":
        n = num(x.v)
        v = R(abs(n)) if n is not None else z3.If(x.v < 0, -x.v, x.v)
        return SFlt(v, x.nan, Or(x.pinf, x.ninf), False)
    raise Unsupported(op)


def power(a, b):
    a, b = norm(a), norm(b)
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        if b == 2:
            return arith("mul", a, a)
        if b == 1:
            return a
        if b == 0.5:
            return fsqrt(a)
        if isinstance(b, int) and 0 < b <= 6 or (isinstance(b, float) and b.is_integer() and 0 < b <= 6):
            r = a
            for _ in range(int(b) - 1):
                r = arith("mul", r, a)
            return r
        if b == -1:
            return arith("truediv", 1.0, a)
    raise Unsupported("power")


def cmp(op, a, b):
    a, b = norm(a), norm(b)
    ka, kb = kind(a), kind(b)
    if ka == "O" or kb == "O":
        if op == "eq":
            return a is b or (not is_sym(a) and not is_sym(b) and a == b)
        if op == "ne":
            return not (a is b or (not is_sym(a) and not is_sym(b) and a == b))
        raise TypeError("ordering of objects")
    if op == "gt":
        return cmp("lt", b, a)
    if op == "ge":
        return cmp("le", b, a)
    if op == "ne":
        r = cmp("eq", a, b)
        return (not r) if isinstance(r, bool) else ~r
    if ka == kb == "b":
        x, y = boolt(a), boolt(b)
        if op == "eq":
            return mkbool(Iff(x, y))
        if op == "le":
            return mkbool(Implies(x, y))
        return mkbool(And(Not(x), y))
    if "f" not in (ka, kb):
        x, y = intt(a), intt(b)
        f = {"lt": lt, "le": le, "eq": eq}[op]
        return mkbool(f(x, y))
    x, y = flt(a), flt(b)
    ok = And(Not(x.nan), Not(y.nan))
    bf = And(x.fin, y.fin)
    if op == "eq":
        return mkbool(Or(And(bf, eq(x.v, y.v)), And(x.pinf, y.pinf), And(x.ninf, y.ninf)))
    if op == "lt":
        return mkbool(
            And(ok, Or(And(bf, lt(x.v, y.v)), And(x.ninf, Not(y.ninf)), And(y.pinf, Not(x.pinf))))
        )
    if op == "le":
        return mkbool(And(ok, Or(And(bf, le(x.v, y.v)), x.ninf, y.pinf)))
    raise Unsupported(op)


def fsqrt(a):
    x = flt(a)
    n = num(x.v)
    if n is not None and n >= 0:
        p, q = math.isqrt(n.numerator), math.isqrt(n.denominator)
        if p * p == n.numerator and q * q == n.denominator:
            return SFlt(R(Fraction(p, q)), x.nan, x.pinf, x.ninf)
    neg = Or(x.ninf, And(x.fin, lt(x.v, R(0))))
    if lit(neg) is None and ctx() is not None and ctx().entails(Not(neg)):
        neg = False
    return SFlt(SQRT(x.v), Or(x.nan, neg), x.pinf, False)


def fexp(a):
    x = flt(a)
    if x.lg is not None:
        return SFlt(x.lg, x.nan, x.pinf, False)
    n = num(x.v)
    v = R(1) if n == 0 else EXP(x.v)
    return SFlt(Ite(x.ninf, R(0), v), x.nan, x.pinf, False)


def flog(a):
    x = flt(a)
    neg = Or(x.ninf, And(x.fin, lt(x.v, R(0))))
    if lit(x.fin) is True and lit(neg) is False:
        return logof(x.v)
    v = LOG(x.v) if num(x.v) != 1 else R(0)
    if z3.is_app(x.v) and x.v.decl().eq(EXP):
        v = x.v.arg(0)
    r = SFlt(v, Or(x.nan, neg), x.pinf, And(x.fin, eq(x.v, R(0))))
    if lit(x.pinf) is False and lit(x.nan) is False:
        r.lg = x.v  # meaningful only when not nan
    return r


def fisnan(x):
    return mkbool(flt(x).nan) if kind(x) == "f" else False


def fisfin(x):
    return mkbool(flt(x).fin) if kind(x) == "f" else True


def fisinf(x):
    x = flt(x)
    return mkbool(Or(x.pinf, x.ninf))


def fmaximum(a, b):  # nan propagates
    if "f" not in (kind(a), kind(b)):
        if kind(a) == kind(b) == "b":
            return mkbool(Or(boolt(a), boolt(b)))
        return ite(cmp("ge", a, b), a, b)
    x, y = flt(a), flt(b)
    c = boolt(cmp("ge", x, y))
    r = ite(c, x, y)
    return SFlt(r.v, Or(x.nan, y.nan), And(Not(x.nan), Not(y.nan), r.pinf), And(Not(x.nan), Not(y.nan), r.ninf), r.lg)


def fminimum(a, b):
    if "f" not in (kind(a), kind(b)):
        if kind(a) == kind(b) == "b":
            return mkbool(And(boolt(a), boolt(b)))
        return ite(cmp("le", a, b), a, b)
    x, y = flt(a), flt(b)
    c = boolt(cmp("le", x, y))
    r = ite(c, x, y)
    return SFlt(r.v, Or(x.nan, y.nan), And(Not(x.nan), Not(y.nan), r.pinf), And(Not(x.nan), Not(y.nan), r.ninf), r.lg)


def ffmax(a, b):  # nan ignored
    x, y = flt(a), flt(b)
    return ite(x.nan, y, ite(y.nan, x, fmaximum(SFlt(x.v, False, x.pinf, x.ninf, x.lg), SFlt(y.v, False, y.pinf, y.ninf, y.lg))))


def ffmin(a, b):
    x, y = flt(a), flt(b)
    return ite(x.nan, y, ite(y.nan, x, fminimum(SFlt(x.v, False, x.pinf, x.ninf, x.lg), SFlt(y.v, False, y.pinf, y.ninf, y.lg))))


def same(a, b):
    """z3/py bool: a and b are the same extended value (nan == nan)"""
    a, b = norm(a), norm(b)
    if kind(a) == "O" or kind(b) == "O":
        return bool(a is b or a == b)
    if kind(a) == kind(b) == "b":
        return Iff(boolt(a), boolt(b))
    x, y = flt(a), flt(b)
    if x.lg is not None and y.lg is not None and lit(x.nan) is False and lit(y.nan) is False:
        return eq(x.lg, y.lg)
    return And(Iff(x.nan, y.nan), Iff(x.pinf, y.pinf), Iff(x.ninf, y.ninf), Or(Not(x.fin), eq(x.v, y.v)))


# --------------------------------------------------------------------------
# exploration
# --------------------------------------------------------------------------
class Path:
    def __init__(self, c, kind_, value):
        self.ctx, self.kind, self.value = c, kind_, value

    @property
    def pc(self):
        return self.ctx.pc


def internal_error(e):
    """an exception that a facade did not raise on purpose is a limit of the
    facade, not behaviour of the code"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    fr = last.tb_frame
    fn = fr.f_code.co_filename
    if not fn.startswith(_HERE) and "site-packages" not in fn and "/lib/python" not in fn:
        # raised in user code (or by a C builtin it called)
        return isinstance(e, (AttributeError, NameError)) or (isinstance(e, TypeError) and not isinstance(e, UserErr) and "raise" not in _line(fn, last.tb_lineno))
    if fn.startswith(_HERE):
        return "raise" not in _line(fn, last.tb_lineno)
    return False


class UserErr(Exception):
    pass


def _line(fn, n):
    import linecache

    return linecache.getline(fn, n)


def explore(fn, max_paths=300, base=None):
    """Run fn() under every feasible decision sequence.  Yields Path objects
    kind in {'return', 'raise', 'unsupported'}."""
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > max_paths:
            c = Ctx()
            yield Path(c, "unsupported", "path budget")
            return
        c = Ctx(prefix)
        if base is not None:
            c.pc.extend(base)
        old = CUR.ctx
        CUR.ctx = c
        try:
            try:
                v = fn()
                p = Path(c, "return", v)
            except Infeasible:
                p = None
            except (Unsupported, Budget) as e:
                p = Path(c, "unsupported", "%s: %s" % (type(e).__name__, e))
                if "time" in str(e) and isinstance(e, Budget):
                    yield p
                    return
            except RecursionError as e:
                p = Path(c, "unsupported", "recursion")
            except Exception as e:
                if internal_error(e):
                    p = Path(c, "unsupported", "facade error %s: %s" % (type(e).__name__, e))
                else:
                    p = Path(c, "raise", e)
            if p is not None and p.kind == "return" and c.notes.get("opaque_str"):
                p = Path(c, "unsupported", "opaque formatted text")
            if c.unsupported and p is not None:
                p = Path(c, "unsupported", c.unsupported)
            if p is not None and p.kind == "unsupported" and c.pc and solve(c.pc, 4000)[0] == "unsat":
                p = None  # the path is infeasible
            if p is not None:
                yield p
        finally:
            CUR.ctx = old
        work.extend(c.alts)
