"""Contract harness.

A contract is ONE python function  c(v)  that builds the inputs of a function of
/repo from `v`, states the precondition with v.assume, calls the real function
and states the postcondition with v.ensures.  The same text is run in four modes:

  proof     symbolic inputs, symbolic shapes: every path of the unmodified source
            is executed by the symbolic executor and every `ensures` becomes a
            verification condition discharged by z3 (then cvc5), for all inputs
  bounded   the same with small concrete shapes (finds counter models)
  replay    the counter model is turned into floats and the real /repo code is
            run under CPython with real numpy/pandas/scipy
  runtime   the real code on generated inputs (contract monitored at run time)
"""
import functools
import json
import math
import os
import sys
import time
import traceback
import warnings
import z3
import numpy as rnp
from . import core, red, arr, npf, loader, loops
from .core import (
    SBool, SInt, SFlt, Unsupported, Infeasible, Budget, And, Or, Not, Implies, Iff, B, R, I, num, lit, mkbool, mkint, flt, boolt,
    intt, ctx, is_sym, explore, solve, STATS, DEADLINE,
)
from .arr import SArr

if loader.REPO not in sys.path:
    sys.path.insert(0, loader.REPO)

REG = {}
BIG = [False]  # run-time search for a failing input after a failed proof: larger sizes
KEEP_FACTS = set(red.ARRAY_FACTS)


class Contract:
    def __init__(self, prop, name, fn, funcs, modes, case, stubs, n_rand, max_paths, tmo, rtol, rounds, transparent, budget=None, cone=False):
        self.cone = cone
        self.prop, self.name, self.fn, self.funcs = prop, name, fn, funcs
        self.modes, self.case, self.stubs, self.n_rand = modes, case, stubs, n_rand
        self.max_paths, self.tmo, self.rtol, self.rounds = max_paths, tmo, rtol, rounds
        self.transparent = transparent
        self.budget = budget

    @property
    def key(self):
        return self.name + ("" if not self.case else "[" + ",".join(str(x) for x in self.case.values()) + "]")


def include(prop, other, *names):
    """the closure of a property: contracts of the functions it depends on"""
    import importlib

    importlib.import_module("props." + other)
    for c in list(REG[other]):
        if c.prop == other and (not names or c.name in names):
            if not any(d.name == c.name and d.case == c.case and d.fn is c.fn for d in REG.setdefault(prop, [])):
                REG[prop].append(c)


def contract(prop, name, funcs, modes="pbr", cases=({},), stubs=(), n_rand=200, max_paths=200, tmo=8000, rtol=1e-7, rounds=None, transparent=False, budget=None, cone=False):
    """modes: p proof, b bounded symbolic, r runtime"""

    def deco(fn):
        for c in cases:
            REG.setdefault(prop, []).append(Contract(prop, name, fn, funcs, modes, dict(c), stubs, n_rand, max_paths, tmo, rtol, rounds, transparent, budget, cone))
        return fn

    return deco


# public in name, but internal steps of a documented operation: free to disappear in a refactoring
HELPERS = {"all_same", "floor_mod", "ceil_mod", "str_print_len", "ensure_tuple_of_ints", "decimal_all_finite", "decimal_from_tuple", "as_tuple_chk", "decimal_1ek", "decimal_eps", "decimal_to_dot", "digit_str", "find_last_dig", "get_shift_range", "remove_chars"}


class Private:
    """module whose private helpers (leading underscore) may be renamed or change signature freely:
    contracts on a helper that is gone are skipped (reported as not decided), never failed"""

    def __init__(self, mod, miss):
        self.__dict__.update(mod=mod, miss=miss)

    def __getattr__(self, k):
        if (k.startswith("_") or k in HELPERS) and not hasattr(self.mod, k):
            self.miss("no private helper %s" % k)
        return getattr(self.mod, k)


def bad_signature(f, e):
    """the private helper f does not take these arguments any more"""
    n = getattr(f, "__name__", "")
    tb = e.__traceback__
    return isinstance(e, TypeError) and (n.startswith("_") or n in HELPERS) and tb is not None and tb.tb_next is None and "argument" in str(e)


class Outcome:
    def __init__(self, value=None, raised=None):
        self.value, self.raised = value, raised


class Reject(Exception):
    """generated input outside the precondition"""


class Failed(Exception):
    def __init__(self, name, detail):
        self.name, self.detail = name, detail


def _unsup(m):
    raise Unsupported(m)


def _rej(m):
    raise Reject()


STUBS = {}  # full function name -> spec function (facade values) used at call sites


def stub(name):
    def deco(fn):
        import functools

        @functools.wraps(fn)
        def w(*a, **k):
            return fn(SV, *a, **k)

        STUBS[name] = w
        return fn

    return deco


def require(c):
    """precondition of a contract used at a call site: the callee rejects otherwise"""
    if not bool(c if isinstance(c, (bool, SBool)) else mkbool(c)):
        raise AssertionError("callee precondition")


# ---------------------------------------------------------------------------
class SymEnv:
    sym = True

    def __init__(self, con, bounded, world, report):
        self.con, self.bounded, self.world, self.report = con, bounded, world, report
        self.case = con.case
        self.np = npf.np
        self.inputs = {}
        self.consts = []
        self.nonvac = False

    # modules
    def m(self, name):
        return Private(self.world.load("mlpaper." + name), _unsup)

    @property
    def ss(self):
        return loader.FACADES["scipy.stats"]

    # inputs ---------------------------------------------------------------
    def choice(self, name, options, w=None):
        options = list(options)
        for k, o in enumerate(options[:-1]):
            if ctx().fork(z3.Bool("choice:%s:%d" % (name, k))):
                self.inputs[name] = k
                return o
        self.inputs[name] = len(options) - 1
        return options[-1]

    def dim(self, name, lo=0, small=None, hi=None):
        if self.bounded:
            small = small or [k for k in (lo, lo + 1, lo + 2, lo + 3) if hi is None or k <= hi]
            k = self.choice("dim:" + name, small)
            self.inputs[name] = k
            return k
        t = z3.Int(name)
        ctx().assume(t >= lo)
        if hi is not None:
            ctx().assume(t <= hi)
        self.consts.append((name, t))
        return SInt(t)

    def int(self, name, lo=None, hi=None, gen=None):
        t = z3.Int(name)
        if lo is not None:
            ctx().assume(t >= intt(lo))
        if hi is not None:
            ctx().assume(t <= intt(hi))
        self.consts.append((name, t))
        return SInt(t)

    def real(self, name, lo=None, hi=None, open=(), gen=None):
        t = z3.Real(name)
        if lo is not None:
            ctx().assume(t > flt(lo).v if "l" in open else t >= flt(lo).v)
        if hi is not None:
            ctx().assume(t < flt(hi).v if "h" in open else t <= flt(hi).v)
        self.consts.append((name, t))
        return SFlt(t)

    def boolv(self, name):
        return self.choice(name, [True, False])

    def ext(self, name, which=("fin", "inf", "-inf", "nan"), **k):
        c = self.choice(name + ":kind", which)
        if c == "fin":
            return self.real(name, **k)
        return float(c)

    def array(self, name, shape, kind="f", lo=None, hi=None, open=(), ext=None, gen=None, log=False, fact=None):
        """array of symbolic entries; ext: None (finite), 'inf', 'nan', 'any'.  fact(*idx,value)->bool extra element fact"""
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        n = len(shape)
        conc = not any(is_sym(s) for s in shape)
        sort = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[kind]
        uf = z3.Function(name, *([z3.IntSort()] * n + [sort]))
        self.consts.append((name, (uf, shape, kind, log)))

        def elem_fact(*idx):
            t = uf(*idx)
            out = []
            if kind != "b":
                cv = (lambda x: intt(x)) if kind == "i" else (lambda x: flt(x).v)
                if lo is not None:
                    out.append(t > cv(lo) if "l" in open else t >= cv(lo))
                if hi is not None:
                    out.append(t < cv(hi) if "h" in open else t <= cv(hi))
            if fact is not None:
                out.append(boolt(fact(*idx, t)))
            return And(*out)

        if lo is not None or hi is not None or fact is not None:
            red.ARRAY_FACTS[name] = elem_fact
        if conc and (lo is not None or hi is not None or fact is not None):
            import itertools

            for idx in itertools.product(*[range(int(s)) for s in shape]):
                ctx().assume(elem_fact(*[z3.IntVal(i) for i in idx]))
        if kind == "f":
            if log:
                g = lambda *i: core.logof(uf(*i))
            elif ext in ("nan", "inf", "any"):
                fl = {}
                for q in ("nan", "pinf", "ninf"):
                    fl[q] = z3.Function(name + ":" + q, *([z3.IntSort()] * n + [z3.BoolSort()]))
                    if ext == "any" or (ext == "nan" and q == "nan") or (ext == "inf" and q != "nan"):
                        self.consts.append((name + ":" + q, (fl[q], shape, "b", False)))

                def g(*i):
                    nan = fl["nan"](*i) if ext in ("nan", "any") else False
                    if ext == "nan":
                        return SFlt(uf(*i), nan=nan)
                    p = And(Not(nan), fl["pinf"](*i))
                    m = And(Not(nan), Not(p), fl["ninf"](*i))
                    return SFlt(uf(*i), nan=nan, pinf=p, ninf=m)

            else:
                g = lambda *i: SFlt(uf(*i))
        elif kind == "i":
            g = lambda *i: SInt(uf(*i))
        else:
            g = lambda *i: SBool(uf(*i))
        return SArr(shape, g, kind, tag=name)

    def seed(self, name="seed"):
        pass

    def watch_draws(self):
        pass

    def draws(self):
        """resampling counts drawn so far: list of (n_rep, n_cases, at(b, i))"""
        return [(Bn, n, lambda b, i, w=w: SInt(w(intt(b), intt(i)))) for w, n, N, Bn, p in ctx().notes.get("multinom", [])]

    def bounds(self, *cs):
        """hint: instantiate the bound lemma of sums with these scalars"""
        for c in cs:
            if is_sym(c):
                t = flt(c).v
                if not any(t.eq(b) for b in red.BOUNDS):
                    red.BOUNDS.append(t)

    # tables --------------------------------------------------------------
    def frame(self, cols, columns, n, index=None):
        """DataFrame with the given columns (1-D arrays); row labels opaque"""
        from . import pdf

        return pdf.SFrame([c.copy() for c in cols], columns, pdf.SIndex(n, values=index))

    def col(self, tbl, key):
        pos, c = tbl._pos(key)
        if c is not None:
            raise Unsupported("several columns")
        return tbl._cols[pos[0]]

    def cell(self, tbl, row, key):
        r = tbl.loc[row, key]
        return r

    def is_frame(self, x):
        from . import pdf

        return isinstance(x, pdf.SFrame)

    def row_labels(self, tbl):
        """list of the row labels of a table with known rows"""
        from . import pdf

        if isinstance(tbl.index, pdf.SIndex):
            raise Unsupported("opaque row labels")
        return list(tbl.index)

    def same_rows(self, a, b):
        from . import pdf

        return pdf.same_index(a.index, b.index)

    def series(self, x, index=None):
        from . import pdf

        return pdf.SSeries(x, pdf.SIndex(x.shape[0]))

    def is_series(self, x):
        from . import pdf

        return isinstance(x, pdf.SSeries)

    def np_unique_first(self, x):
        """distinct values in order of first appearance"""
        from . import pdf

        return pdf.SSeries(x, None).unique()

    def _int(self, q):
        return intt(q)

    def range_rows(self, tbl, n):
        from . import pdf

        if not isinstance(tbl.index, pdf.SIndex):
            raise Unsupported("labelled rows")
        return tbl.index.rng and self.eq(tbl.index.n, n)

    # logic -----------------------------------------------------------------
    def assume(self, c):
        ctx().assume(c if isinstance(c, (bool, z3.BoolRef)) else B(boolt(c)))

    def assume_each(self, n, f, on=()):
        """for all i < n: f(i), a satisfiable fact about one row of input arrays.  The entries of an input
        array outside its range are never read, so the fact may be assumed for every integer i."""
        if not is_sym(n):
            for i in range(int(n)):
                self.assume(f(i))
            return
        q = z3.Int("?q0")
        b = self._b(f(SInt(q)))
        red.add_forall([q], b, [a.tag for a in on])

    def each(self, lists, f):
        """assume f for the elements of (parallel) lists of unknown length"""
        L = lists if isinstance(lists, tuple) else (lists,)
        q = z3.Int("?q0")
        red.add_forall([q], self._b(f(*[x.el(q) for x in L])), [])

    def each_min(self, lists, f, which="min"):
        L = lists if isinstance(lists, tuple) else (lists,)
        return arr.r_ext(L[0].n, lambda i: f(*[x.el(i) for x in L]), "i", which)

    def loop(self, func, names, check, havoc):
        """invariant of the loop of a function of the code under verification"""
        loops.RULES[func] = loops.Rule(names, check, havoc)

    def assume_distinct(self, x, n):
        if not is_sym(n):
            for i in range(int(n)):
                for j in range(i):
                    self.assume(Not(self._b(core.cmp("eq", x.at(I(i)), x.at(I(j))))))
            return
        p, q = z3.Int("?q0"), z3.Int("?q1")
        red.add_forall([p, q], z3.Or(p == q, Not(self._b(core.cmp("eq", x.at(p), x.at(q))))), [x.tag])

    def last_at(self, x, y):
        """ghost: last index of the sorted array x with a value <= y"""
        return self.np.searchsorted(x, y, side="right") - 1

    def assume_sorted(self, x, n, strict=False):
        """x[0] <= x[1] <= ... (pairwise form)"""
        op = "lt" if strict else "le"
        if not is_sym(n):
            for i in range(int(n) - 1):
                self.assume(core.cmp(op, x.at(I(i)), x.at(I(i + 1))))
            return
        p, q = z3.Int("?q0"), z3.Int("?q1")
        b = z3.Implies(p < q, self._b(core.cmp(op, x.at(p), x.at(q))))
        # entries outside the range are never read: assumed for every pair of integers
        red.add_forall([p, q], b, [x.tag])

    def has(self, name):
        return False

    def run(self, f, *a, **k):
        try:
            return Outcome(value=f(*a, **k))
        except Exception as e:
            if bad_signature(f, e):
                raise Unsupported("private helper changed its signature")
            if core.internal_error(e):
                raise Unsupported("facade error %s: %s" % (type(e).__name__, str(e)[:200]))
            if ctx().unsupported:
                raise Unsupported(ctx().unsupported)
            ctx().notes.pop("opaque_str", None)
            return Outcome(raised=e)

    def call(self, f, *a, **k):
        o = self.run(f, *a, **k)
        if o.raised is not None:
            __import__("os").environ.get("TB") and __import__("traceback").print_exception(o.raised); self.report.oblige(self, "no-exception", False, detail=repr(o.raised)[:200])
            raise Infeasible()
        return o.value

    def ensures(self, name, cond):
        if callable(cond):
            cond = cond()
        self.report.oblige(self, name, cond if isinstance(cond, (bool, z3.BoolRef)) else boolt(cond))

    def ensures_all(self, name, n, f, margin=None):
        if not is_sym(n):
            self.ensures(name, And(*[self._b(f(i)) for i in range(int(n))]))
            return
        i = z3.Int(ctx().name("any:" + name))
        rng = z3.And(i >= 0, i < intt(n))
        c = ctx()
        k = len(c.pc)
        c.pc.append(rng)
        try:
            body = self._b(f(SInt(i)))
            self.report.oblige(self, name, body)
        finally:
            del c.pc[k:]  # dropping conditions only weakens what later obligations assume

    def _b(self, x):
        return x if isinstance(x, (bool, z3.BoolRef)) else boolt(x)

    def notes(self, k):
        return ctx().notes.get(k, [])

    def is_int(self, x):
        if isinstance(x, (SInt, int)):
            return True
        x = flt(x)
        return mkbool(And(x.fin, z3.ToReal(z3.ToInt(x.v)) == x.v))

    def mention(self, *xs):
        """hint: terms the lemma instantiation should see"""
        for x in xs:
            t = intt(x) if isinstance(x, SInt) else flt(x).v
            if z3.is_expr(t):
                ctx().pc.append(z3.FreshConst(t.sort(), "hint") == t)

    def int_term(self, t):
        return SInt(t)

    def argmins(self, n, f):
        """indices a minimiser may have (near ties at run time); the first minimiser in the proof"""
        return [arr.r_argmin(n, lambda i: f(mkint(i)), "f")]

    def floor(self, x):
        return SInt(z3.simplify(z3.ToInt(flt(x).v)))

    def ceil(self, x):
        return SInt(z3.simplify(-z3.ToInt(-flt(x).v)))

    def make_array2(self, n, k, f, log=False):
        if log:
            return SArr((n, k), lambda i, j: core.logof(flt(f(mkint(i), mkint(j))).v), "f")
        return SArr((n, k), lambda i, j: f(mkint(i), mkint(j)), "f")

    def make_array(self, n, f):
        return SArr((n,), lambda i: f(mkint(i)), "f")

    def make_boolarray(self, n, f):
        return SArr((n,), lambda i: f(mkint(i)), "b")

    def kth(self, n, f, k):
        """k-th smallest (k = 0, 1, ...) of f(0..n-1)"""
        g = lambda i: flt(f(mkint(i)))
        if not is_sym(n):
            vals = [g(z3.IntVal(i)) for i in range(n)]
            for i in range(n):
                for j in range(n - 1 - i):
                    x, y = vals[j], vals[j + 1]
                    vals[j], vals[j + 1] = core.fminimum(x, y), core.fmaximum(x, y)
            return arr.sel_list(vals, z3.simplify(intt(k)))
        pi = npf.argsort1(n, g, False)
        return g(intt(pi(intt(k))))

    def order_stat(self, r, n, f, pos, how):
        """r is the order statistic of f(0..n-1) at floor/ceil of the (real) position"""
        p = flt(pos).v
        k = z3.ToInt(p) if how == "lower" else -z3.ToInt(-p)
        return self.same(r, self.kth(n, f, SInt(z3.simplify(k))))

    def order_stat_lemma(self, n, f, pos, how, ref):
        """counting characterisation of the order statistic u: #(x < u) <= k < #(x <= u)"""
        p = flt(pos).v
        k = SInt(z3.simplify(z3.ToInt(p) if how == "lower" else -z3.ToInt(-p)))
        u = self.kth(n, f, k)
        lt = self.isum(n, lambda i: self.ite(core.cmp("lt", f(i), u), 1, 0))
        le = self.isum(n, lambda i: self.ite(core.cmp("le", f(i), u), 1, 0))
        rng = And(core.le(I(0), intt(k)), core.lt(intt(k), intt(n)))
        self.assume(Implies(rng, And(core.le(intt(lt), intt(k)), core.le(intt(k) + 1, intt(le)))))

    stubs_on = True
    transparent = False  # unfold opaque specification functions

    def opaque(self, name, fn, args, lo=None, hi=None, inf=False, facts=None):
        """value of the specification function fn(v, *args), kept opaque in modular proofs: only its
        listed facts (obligations of the contract that defines it) are known.  Inlined when the
        callees are inlined."""
        if not self.stubs_on or SymEnv.transparent:
            return fn(self, *args)
        key = [name] + [_okey(a) for a in args]
        k = OPAQUE.setdefault(tuple(key), (len(OPAQUE), args))[0]
        val = SFlt(z3.Real("%s!%d" % (name, k)), pinf=z3.Bool("%s!%d!inf" % (name, k)) if inf else False)
        if lo is not None:
            ctx().assume(Or(val.pinf, val.v >= lo))
        if hi is not None:
            ctx().assume(Or(val.pinf, val.v <= hi))
        if facts is not None:
            ctx().assume(self._b(facts(self, val)))
        return val

    def opaque_array(self, name, args, shape):
        """array of uninterpreted finite values, a function of the arguments"""
        if not SymEnv.stubs_on:
            raise Unsupported(name + " is not inlined")
        key = (name,) + tuple(_okey(a) for a in args)
        k = OPAQUE.setdefault(key, (len(OPAQUE), args))[0]
        f = z3.Function("%s!%d" % (name, k), *([z3.IntSort()] * len(shape) + [z3.RealSort()]))
        return SArr(shape, lambda *i: SFlt(f(*i)), "f", tag=f.name())

    def all(self, n, f):
        return mkbool(red.ALL(intt(n), lambda i: self._b(f(mkint(i)))))

    def any(self, n, f):
        return mkbool(red.ANY(intt(n), lambda i: self._b(f(mkint(i)))))

    def sum(self, n, f):
        if isinstance(f(SInt(z3.Int("?probe8"))), (SInt, int)):
            return flt(arr.r_sum(n, lambda i: f(mkint(i)), "i"))
        return arr.r_sum(n, lambda i: f(mkint(i)), "f")

    def isum(self, n, f):
        return arr.r_sum(n, lambda i: f(mkint(i)), "i")

    def same(self, a, b, **k):
        return mkbool(core.same(a, b))

    def le(self, a, b, **k):
        return core.cmp("le", a, b)

    def lt(self, a, b, **k):
        return core.cmp("lt", a, b)

    def eq(self, a, b):
        return core.cmp("eq", a, b)

    def le0(self, a, b):
        """exact comparison (no run-time tolerance)"""
        return core.cmp("le", a, b)

    def gt0(self, a, b):
        return core.cmp("gt", a, b)

    def isnan(self, a):
        return core.fisnan(a)

    def isfin(self, a):
        return core.fisfin(a)

    def and_(self, *xs):
        return mkbool(And(*[self._b(x) for x in xs]))

    def or_(self, *xs):
        return mkbool(Or(*[self._b(x) for x in xs]))

    def not_(self, x):
        return mkbool(Not(self._b(x)))

    def implies(self, a, b):
        return mkbool(Implies(self._b(a), self._b(b() if callable(b) else b)))

    def iff(self, a, b):
        return mkbool(Iff(self._b(a), self._b(b)))

    def iff_le(self, p, a, b, strict=False):
        """p <=> a <= b  (a < b when strict); near ties are not judged at run time"""
        return self.iff(p, core.cmp("lt" if strict else "le", a, b))

    def ite(self, c, a, b):
        return core.ite(self._b(c), a, b)

    def cond(self, c):
        """decide a condition (case split in the proof)"""
        return bool(c)

    def sqrt(self, a):
        return core.fsqrt(a)

    def exp(self, a):
        return core.fexp(a)

    def log(self, a):
        return core.flog(a)

    def abs(self, a):
        return core.unary("abs", a)

    def allfin(self, x):
        return npf.np.all(npf.np.isfinite(x))

    def anynan(self, x):
        return npf.np.any(npf.np.isnan(x))

    def at(self, x, *idx):
        if isinstance(x, SArr):
            return x.at(*[intt(i) for i in idx])
        r = x
        for i in idx:
            r = r[i]
        return r

    def len(self, x):
        return loader.s_len(x)

    def flt(self, x):
        return flt(x)

    def min(self, a, b):
        return core.ffmin(a, b)

    def max(self, a, b):
        return core.ffmax(a, b)

    def unchanged(self, name, *arrays):
        self.ensures(name, all(a.version == 0 for a in arrays if isinstance(a, SArr)))

    def near(self, *a):
        return False

    def must_reject(self, o, name="rejects-bad-input"):
        self.ensures(name, o.raised is not None)

    def lemma(self, cond):
        """instance of a lemma proved by its own contract"""
        self.assume(cond)

    def step(self, name, cond):
        """intermediate assertion: an obligation, then at hand"""
        self.ensures("step-" + name, cond)
        self.assume(cond)

    def outcome_pre(self, o, ok, name="rejects-bad-input"):
        """the call returns normally exactly when `ok`"""
        if o.raised is not None:
            self.ensures(name, Not(self._b(ok)))
            raise Infeasible()
        self.ensures("accepts-only-valid-input" if name == "rejects-bad-input" else name, self._b(ok))


OPAQUE = {}


def _okey(a):
    if isinstance(a, SArr):
        idx = [z3.Int("?o%d" % i) for i in range(a.ndim)]
        return ("arr",) + tuple(_okey(x) for x in a.shape) + (_okey(a.at(*idx)),)
    if isinstance(a, SFlt):
        t = (z3.simplify(a.v),) + tuple(q if isinstance(q, bool) else z3.simplify(q) for q in (a.nan, a.pinf, a.ninf))
        red._keepalive.append(t)
        return tuple(q if isinstance(q, bool) else q.get_id() for q in t)
    if is_sym(a):
        t = z3.simplify(a.t if isinstance(a, (SInt, SBool)) else a)
        red._keepalive.append(t)
        return ("t", t.get_id())
    if isinstance(a, (int, float, bool, str)):
        if isinstance(a, (int, float)):
            return _okey(flt(a))
        return a
    raise Unsupported("opaque argument %r" % type(a))


SV = SymEnv(type("C", (), {"case": {}})(), False, None, None)


class ModelEnvError(Exception):
    pass


# ---------------------------------------------------------------------------
def fr(x):
    """z3 model value -> float/int/bool"""
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return float(x.as_fraction())
    if z3.is_algebraic_value(x):
        return float(x.approx(20).as_fraction())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    raise ModelEnvError(str(x))


def extract(model, env):
    """input record from a counter model (bounded shapes)"""
    import itertools

    out = dict(env.inputs)
    for name, t in env.consts:
        if isinstance(t, tuple):
            uf, shape, kind, log = t
            sh = tuple(int(s) if not is_sym(s) else fr(model.eval(s.t, model_completion=True)) for s in shape)
            if rnp.prod([float(q) for q in sh] or [1.0]) > 5000 or min(sh or (0,)) < 0:
                raise ModelEnvError("size")
            a = rnp.zeros(sh, dtype={"f": float, "i": int, "b": bool}[kind])
            for idx in itertools.product(*[range(s) for s in sh]):
                a[idx] = fr(model.eval(uf(*[z3.IntVal(i) for i in idx]), model_completion=True))
            out[name] = a.tolist()
        else:
            out[name] = fr(model.eval(t, model_completion=True))
    draws = ctx().notes.get("draws") if ctx() else None
    if draws:
        rec = []
        for d in draws:
            try:
                rec.append(d(model))
            except Exception:
                pass
        out["__draws__"] = rec
    return out


# ---------------------------------------------------------------------------
class ConcEnv:
    """real code, real numpy; inputs from a record (replay) or generated"""

    sym = False

    def __init__(self, con, rng=None, record=None):
        self.con, self.rng, self.record = con, rng, record
        self.case = con.case
        self.np = rnp
        self.inputs = {}
        self.checked = 0
        self.failures = []
        self.rtol = con.rtol
        self.restore = []

    def m(self, name):
        import importlib

        return Private(importlib.import_module("mlpaper." + name), _rej)

    @property
    def ss(self):
        import scipy.stats

        return scipy.stats

    def _have(self, name):
        if self.record is not None and name in self.record:
            return True
        if self.rng is None:
            raise Reject()  # replay of a counter model of another layout
        return False

    def choice(self, name, options, w=None):
        options = list(options)
        if self.record is not None:
            k = self.record.get(name, 0)
        else:
            k = int(self.rng.randint(len(options))) if w is None else int(self.rng.choice(len(options), p=rnp.array(w) / sum(w)))
        self.inputs[name] = k
        return options[k]

    def dim(self, name, lo=0, small=None, hi=None):
        if self._have(name):
            k = self.record[name]
        else:
            mx = hi if hi is not None else lo + 40
            if BIG[0] and hi is None and self.rng.rand() < 0.5:
                mx = lo + int(self.rng.choice([100, 400, 1500]))
                k = int(self.rng.randint(mx // 2, mx + 1))
                self.inputs[name] = k
                return k
            k = int(self.rng.choice([lo, min(lo + 1, mx), min(lo + 2, mx), self.rng.randint(lo, min(mx, lo + 8) + 1), self.rng.randint(lo, mx + 1)]))
        self.inputs[name] = k
        return k

    def int(self, name, lo=None, hi=None, gen=None):
        if self._have(name):
            v = self.record[name]
        elif gen is not None:
            v = gen(self.rng)
        else:
            a = -5 if lo is None else int(lo)
            b = a + 10 if hi is None else int(hi)
            if b < a:
                raise Reject()
            v = int(self.rng.randint(a, b + 1))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, open=(), gen=None):
        if self._have(name):
            v = float(self.record[name])
        elif gen is not None:
            v = float(gen(self.rng))
        else:
            v = float(draw(self.rng, (), lo, hi))
        if lo is not None and (v < lo or ("l" in open and v <= lo)):
            raise Reject()
        if hi is not None and (v > hi or ("h" in open and v >= hi)):
            raise Reject()
        self.inputs[name] = v
        return v

    def boolv(self, name):
        return self.choice(name, [True, False])

    def ext(self, name, which=("fin", "inf", "-inf", "nan"), **k):
        c = self.choice(name + ":kind", which, w=[6] + [1] * (len(which) - 1) if which[0] == "fin" else None)
        if c == "fin":
            return self.real(name, **k)
        return float(c)

    def array(self, name, shape, kind="f", lo=None, hi=None, open=(), ext=None, gen=None, log=False, fact=None):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        rng = self.rng
        if self._have(name):
            a = rnp.array(self.record[name], dtype={"f": float, "i": int, "b": bool}[kind])
            if a.size != int(rnp.prod(shape)):
                raise Reject()  # the record belongs to another layout
            a = a.reshape(shape)
        elif gen is not None:
            a = rnp.asarray(gen(rng, shape), dtype={"f": float, "i": int, "b": bool}[kind]).reshape(shape)
        elif kind == "f":
            a = draw(rng, shape, lo, hi)
        elif kind == "i":
            a = rng.randint(-4 if lo is None else int(lo), (5 if hi is None else int(hi)) + 1, size=shape)
        else:
            a = rng.rand(*shape) < rng.choice([0.0, 0.2, 0.5, 0.8, 1.0])
        self.inputs[name] = a.tolist()
        if kind != "b":
            if lo is not None and (rnp.any(a < lo) or ("l" in open and rnp.any(a <= lo))):
                raise Reject()
            if hi is not None and (rnp.any(a > hi) or ("h" in open and rnp.any(a >= hi))):
                raise Reject()
        if fact is not None:
            for idx in rnp.ndindex(*shape):
                if not fact(*idx, a[idx]):
                    raise Reject()
        if ext:
            a = a.astype(float)
            for q, val in (("nan", rnp.nan), ("pinf", rnp.inf), ("ninf", -rnp.inf)):
                if not (ext == "any" or (ext == "nan" and q == "nan") or (ext == "inf" and q != "nan")):
                    continue
                nm = name + ":" + q
                if self.record is not None:
                    f = rnp.array(self.record.get(nm, rnp.zeros(shape, bool)), dtype=bool).reshape(shape)
                else:
                    f = rng.rand(*shape) < rng.choice([0.0, 0.0, 0.1, 0.5])
                self.inputs[nm] = f.tolist()
                a[f & ~rnp.isnan(a)] = val
        if log:
            with rnp.errstate(divide="ignore"):
                a = rnp.log(a)
        return a

    def seed(self, name="seed"):
        if self.has(name):
            s = self.record[name]
        else:
            s = int(self.rng.randint(2**31 - 1)) if self.rng is not None else 0
        self.inputs[name] = s
        rnp.random.seed(s)
        if self.record is not None and self.record.get("__draws__"):
            self._patch_draws(self.record["__draws__"])

    def bounds(self, *cs):
        pass

    def watch_draws(self):
        """record the resampling counts the code draws (observation only)"""
        orig = rnp.random.multinomial
        self._rec = rec = []

        def f(*a, **k):
            r = orig(*a, **k)
            rec.append(rnp.array(r))
            return r

        self.restore.append(("multinomial", orig))
        rnp.random.multinomial = f

    def draws(self):
        return [(r.shape[0], r.shape[1], lambda b, i, r=r: int(r[b, i])) for r in self._rec if r.ndim == 2]

    def _patch_draws(self, rec):
        rec = list(rec)
        for fn in ("multinomial",):
            orig = getattr(rnp.random, fn)

            def f(*a, _orig=orig, _fn=fn, **k):
                for i, d in enumerate(rec):
                    if d[0] == _fn:
                        rec.pop(i)
                        return rnp.array(d[1])
                return _orig(*a, **k)

            self.restore.append((fn, orig))
            setattr(rnp.random, fn, f)

    def close(self):
        for fn, orig in reversed(self.restore):
            setattr(rnp.random, fn, orig)
        self.restore = []

    # logic -------------------------------------------------------------
    def has(self, name):
        return self.record is not None and name in self.record

    def frame(self, cols, columns, n, index=None):
        import pandas as pd

        if index is None:
            kind = self.choice("rows:kind", ["range", "perm", "str", "dup"])
            if kind == "range":
                index = rnp.arange(n)
            elif kind == "perm":
                index = rnp.roll(rnp.arange(n), 1)[::-1] * 3 - 1
            elif kind == "str":
                index = ["r%d" % ((i * 7) % 10) + "x" * i for i in range(n)]
            else:
                index = rnp.arange(n) // 2
        data = {j: rnp.array(c) for j, c in enumerate(cols)}
        f = pd.DataFrame(data, index=index)
        f.columns = columns
        return f

    def col(self, tbl, key):
        import pandas as pd

        r = tbl.loc[:, key]
        if not isinstance(r, pd.Series):
            raise Failed("column", "%r is not one column" % (key,))
        return rnp.array(r.values)

    def cell(self, tbl, row, key):
        return tbl.loc[row, key]

    def is_frame(self, x):
        import pandas as pd

        return isinstance(x, pd.DataFrame)

    def reject(self):
        raise Reject()

    def series(self, x, index=None):
        import pandas as pd

        return pd.Series(rnp.array(x), index=index)

    def is_series(self, x):
        import pandas as pd

        return isinstance(x, pd.Series)

    def seed_again(self):
        rnp.random.seed(self.inputs["seed"])

    def row_labels(self, tbl):
        return list(tbl.index)

    def same_rows(self, a, b):
        return bool(a.index.equals(b.index))

    def range_rows(self, tbl, n):
        return list(tbl.index) == list(range(n))

    def assume_each(self, n, f, on=()):
        for i in range(int(n)):
            self.assume(f(i))

    def assume_distinct(self, x, n):
        self.assume(len(set(x.tolist())) == len(x))

    def last_at(self, x, y):
        return int(rnp.searchsorted(x, y, side="right")) - 1

    def assume_sorted(self, x, n, strict=False):
        d = rnp.diff(x)
        self.assume(rnp.all(d > 0) if strict else rnp.all(d >= 0))

    def assume(self, c):
        if not bool(c):
            raise Reject()

    def run(self, f, *a, **k):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with rnp.errstate(all="ignore"):
                try:
                    return Outcome(value=f(*a, **k))
                except (Reject, Failed):
                    raise
                except Exception as e:
                    if bad_signature(f, e):
                        raise Reject()
                    return Outcome(raised=e)

    def call(self, f, *a, **k):
        o = self.run(f, *a, **k)
        self.checked += 1
        if o.raised is not None:
            tb = "".join(traceback.format_exception(type(o.raised), o.raised, o.raised.__traceback__))[-1500:]
            raise Failed("no-exception", tb)
        return o.value

    def ensures(self, name, cond):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if callable(cond):
                cond = cond()
            self.checked += 1
            if not bool(cond):
                raise Failed(name, "postcondition false")

    def ensures_all(self, name, n, f, margin=None):
        for i in range(int(n)):
            self.checked += 1
            if not bool(f(i)):
                raise Failed(name, "postcondition false at index %d" % i)

    def opaque(self, name, fn, args, **k):
        return fn(self, *args)

    def mention(self, *xs):
        pass

    def is_int(self, x):
        return float(x) == math.floor(float(x))

    def argmins(self, n, f):
        z = [float(f(i)) for i in range(int(n))]
        m = min(z)
        return [i for i, t in enumerate(z) if t <= m + 1e-9 * max(1.0, abs(m), max(abs(q) for q in z))]

    def floor(self, x):
        return math.floor(x)

    def ceil(self, x):
        return math.ceil(x)

    def make_array2(self, n, k, f, log=False):
        a = rnp.array([[float(f(i, j)) for j in range(int(k))] for i in range(int(n))]).reshape(n, k)
        return rnp.log(a) if log else a

    def make_array(self, n, f):
        return rnp.array([float(f(i)) for i in range(int(n))])

    def kth(self, n, f, k):
        return sorted(float(f(i)) for i in range(int(n)))[int(k)]

    def order_stat(self, r, n, f, pos, how):
        s = sorted(float(f(i)) for i in range(int(n)))
        fl = math.floor if how == "lower" else math.ceil
        ks = {min(max(fl(pos + d), 0), n - 1) for d in (-1e-7, 0.0, 1e-7)}
        return any(r == s[k] for k in ks)

    def order_stat_lemma(self, *a):
        pass

    def step(self, name, cond):
        """a proof step: nothing to do at run time, the obligation it serves is checked itself"""

    def all(self, n, f):
        return all(bool(f(i)) for i in range(int(n)))

    def any(self, n, f):
        return any(bool(f(i)) for i in range(int(n)))

    def sum(self, n, f):
        return math.fsum(f(i) for i in range(int(n))) if n else 0.0

    def isum(self, n, f):
        return sum(int(f(i)) for i in range(int(n)))

    def _tol(self, a, b, scale):
        return self.rtol * max(1.0 if scale is None else scale, abs(a), abs(b))

    def same(self, a, b, scale=None):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= self._tol(a, b, scale)

    def le(self, a, b, scale=None):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a <= b
        return a <= b + self._tol(a, b, scale)

    lt = le

    def eq(self, a, b):
        return bool(a == b)

    def le0(self, a, b):
        return bool(a <= b)

    def gt0(self, a, b):
        return bool(a > b)

    def isnan(self, a):
        return bool(rnp.isnan(a))

    def isfin(self, a):
        return bool(rnp.isfinite(a))

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def implies(self, a, b):
        return (not bool(a)) or bool(b() if callable(b) else b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def iff_le(self, p, a, b, strict=False):
        if self.near(a, b):
            return True
        return bool(p) == (a < b)

    def near(self, a, b):
        a, b = float(a), float(b)
        if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
            return a == b
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))

    def ite(self, c, a, b):
        return a if bool(c) else b

    def cond(self, c):
        return bool(c)

    def sqrt(self, a):
        return math.sqrt(a) if a >= 0 else math.nan

    def exp(self, a):
        return float(rnp.exp(a))

    def log(self, a):
        with rnp.errstate(all="ignore"):
            return float(rnp.log(a))

    def abs(self, a):
        return abs(a)

    def allfin(self, x):
        return bool(rnp.all(rnp.isfinite(x)))

    def anynan(self, x):
        return bool(rnp.any(rnp.isnan(x)))

    def at(self, x, *idx):
        if isinstance(x, rnp.ndarray):
            return x[tuple(idx)]
        r = x
        for i in idx:
            r = r[i]
        return r

    def len(self, x):
        return len(x)

    def flt(self, x):
        return float(x)

    def min(self, a, b):
        return float(rnp.fmin(a, b))

    def max(self, a, b):
        return float(rnp.fmax(a, b))

    def unchanged(self, name, *arrays):
        self.checked += 1

    def must_reject(self, o, name="rejects-bad-input"):
        self.checked += 1
        if o.raised is None:
            raise Failed(name, "returned %r" % (o.value,))

    def lemma(self, cond):
        pass

    def outcome_pre(self, o, ok, name="rejects-bad-input"):
        self.checked += 1
        if (o.raised is None) != bool(ok):
            raise Failed(name, "raised=%r, precondition=%r" % (o.raised, bool(ok)))
        if o.raised is not None:
            raise Reject()


def draw(rng, shape, lo, hi):
    """float data with ties, integers, constants, wide and tiny magnitudes"""
    style = rng.randint(7)
    if style == 0:
        a = rng.randn(*shape)
    elif style == 1:
        a = rng.randint(-3, 4, size=shape).astype(float)
    elif style == 2:
        a = rnp.round(rng.randn(*shape), 1)
    elif style == 3:
        a = rnp.full(shape, float(rng.randint(-2, 3)))
    elif style == 4:
        a = rng.randn(*shape) * 10.0 ** rng.randint(-6, 7)
    elif style == 5:
        a = rng.exponential(size=shape)
    else:
        a = rng.rand(*shape)
    a = rnp.asarray(a, dtype=float)
    if lo is not None and hi is not None and math.isfinite(lo) and math.isfinite(hi):
        k = rng.randint(4)
        if k == 0:
            a = lo + (hi - lo) * rng.rand(*shape)
        elif k == 1:
            a = rnp.asarray(rng.choice([lo, hi, (lo + hi) / 2], size=shape), dtype=float)
        elif k == 2:
            a = lo + (hi - lo) * rng.randint(0, 5, size=shape) / 4.0
        else:
            a = rnp.clip(a, lo, hi)
        a = rnp.clip(rnp.asarray(a, dtype=float), lo, hi)
    elif lo is not None and math.isfinite(lo):
        a = lo + rnp.abs(a)
    elif hi is not None and math.isfinite(hi):
        a = hi - rnp.abs(a)
    return rnp.asarray(a, dtype=float)


# ---------------------------------------------------------------------------
PARTIAL = {"EXP", "LOG", "TSF", "TPPF", "NEXTAFTER"}


def incomplete(fs):
    """does the query use functions known to the solver only through some of their properties?"""
    seen, todo = set(), [f for f in fs if z3.is_expr(f)]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (t.decl().name() in PARTIAL or t.decl().name() in red.REDS):
                return True
            todo.extend(t.children())
    return False


class Report:
    """obligations of one contract in one symbolic mode"""

    def __init__(self, con, bounded):
        self.con, self.bounded = con, bounded
        self.obl = {}  # name -> [proved, failed list]
        self.paths = {"return": 0, "raise": 0, "unsupported": 0}
        self.unsup = []
        self.cex = []
        self.nonvac = False

    def oblige(self, env, name, cond, detail=""):
        c = ctx()
        o = self.obl.setdefault(name, {"proved": 0, "sat": 0, "unknown": 0, "s": 0.0})
        self.hit = True
        t0 = time.time()
        if c.unsupported:
            raise Unsupported(c.unsupported)
        if c.notes.get("opaque_str") and cond is not False:
            raise Unsupported("opaque formatted text")
        l = lit(cond)
        if l is True:
            o["proved"] += 1
            return
        r = m = None
        hard = True  # every attempt ended with a counter model (none ran out of time)
        if self.con.rounds is None or self.con.rounds > 0:
            r, m = solve(c.pc + [Not(cond)], 1500, rounds=0)  # few facts first: often enough, and fast
        cp = c.core_pc()
        if r != "unsat" and not self.bounded:
            for lv in ("3ds", "3d") if self.con.rounds is None else (self.con.rounds,):
                r, m = solve(cp + [Not(cond)], self.con.tmo // 2, rounds=lv)
                hard = hard and r == "sat"
                if r == "unsat":
                    break
        if r != "unsat":
            r, m = solve(c.pc + [Not(cond)], self.con.tmo, want_model=True, rounds=self.con.rounds)
            hard = hard and r == "sat"
        if r == "unknown":
            from . import solvers

            r2 = solvers.second(c.pc + [Not(cond)], self.con.tmo, self.con.rounds)
            if r2 == "unsat":
                r = "unsat"
        o["s"] += time.time() - t0
        if r == "unsat":
            o["proved"] += 1
        else:
            o[r] += 1
            o.setdefault("detail", detail)
            if not self.bounded and r == "sat" and hard:
                o["refuted"] = o.get("refuted", 0) + 1
            if self.bounded and r == "sat":
                if incomplete(c.pc + [cond]):
                    o["incomplete_theory"] = o.get("incomplete_theory", 0) + 1
                else:
                    o["exact_sat"] = o.get("exact_sat", 0) + 1
            if r == "sat" and m is not None and len(self.cex) < 12:
                if not self.bounded:
                    # prefer a counter model with small numbers
                    small = [z3.And(t >= -b, t <= b) for b in (60,) for _, t in env.consts if not isinstance(t, tuple) and z3.is_int(t)]
                    if small:
                        r2, m2 = solve(c.pc + small + [Not(cond)], 2000, want_model=True, rounds=self.con.rounds)
                        m = m2 if r2 == "sat" else m
                try:
                    self.cex.append((name, extract(m, env)))
                except (ModelEnvError, z3.Z3Exception) as e:
                    pass
        # the postcondition may be assumed by later ones
        if l is None and r == "unsat" and not any(z3.is_expr(f) and f.eq(cond) for f in c.pc):
            c.pc.append(cond)
            c.derived[cond.get_id()] = cond


def run_sym(con, bounded, stubs=True, deadline=None):
    DEADLINE[0] = deadline
    core.CONE[0] = con.cone
    rep = Report(con, bounded)
    st = {}
    if stubs:
        for s in con.stubs:
            if isinstance(s, tuple):
                st[s[0]] = functools.partial(s[1], SV)
            else:
                st[s] = STUBS[s]
    q0, s0 = STATS.queries, STATS.solver_s
    t0 = time.time()
    try:
        world = loader.World(st)

        def body():
            env = SymEnv(con, bounded, world, rep)
            env.stubs_on = bool(stubs)
            SymEnv.transparent = con.transparent
            del red.BOUNDS[:]
            red.FORALL.clear()
            for k_ in [k_ for k_ in red.ARRAY_FACTS if k_ not in KEEP_FACTS]:
                del red.ARRAY_FACTS[k_]
            rep.hit = False
            loops.RULES.clear()
            del loops.CONSUMER[:]
            con.fn(env)
            return None

        for p in explore(body, con.max_paths):
            if p.kind == "return":
                rep.paths["return"] += 1
                if not rep.nonvac and rep.hit:
                    if solve(p.pc, 2000)[0] != "unsat":
                        rep.nonvac = True
            elif p.kind == "raise":
                if isinstance(p.value, Exception):
                    tb = traceback.extract_tb(p.value.__traceback__)
                    rep.unsup.append("contract raised %r at %s" % (p.value, tb[-1] if tb else "?"))
                    rep.paths["unsupported"] += 1
            else:
                rep.paths["unsupported"] += 1
                rep.unsup.append(str(p.value))
    except (Unsupported, Budget) as e:
        rep.paths["unsupported"] += 1
        rep.unsup.append("load: %s" % e)
    except Exception as e:
        rep.paths["unsupported"] += 1
        rep.unsup.append("harness: %r %s" % (e, traceback.format_exc()[-600:]))
    rep.queries, rep.solver_s = STATS.queries - q0, STATS.solver_s - s0
    rep.wall = time.time() - t0
    return rep


def discharged(rep):
    return (
        rep.paths["unsupported"] == 0
        and rep.obl
        and rep.nonvac
        and all(o["sat"] == 0 and o["unknown"] == 0 for o in rep.obl.values())
    )


def run_conc(con, record=None, rng=None):
    """-> ('ok'|'reject'|'fail', env, (name, detail))"""
    env = ConcEnv(con, rng=rng, record=record)
    st = rnp.random.get_state()
    try:
        with warnings.catch_warnings(), rnp.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            con.fn(env)
        return "ok", env, None
    except Reject:
        return "reject", env, None
    except Failed as e:
        return "fail", env, (e.name, e.detail)
    except Exception as e:
        # spec code itself failed on the value returned by the code: shape/type is wrong
        return "fail", env, ("well-formed-result", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
    finally:
        env.close()
        rnp.random.set_state(st)
