"""Loop rule for `for x in <sequence of unknown length>` in the code under verification.

The contract supplies the invariant of the loop of a function (by function name).  Three kinds of paths result:
  * entry: the invariant is an obligation with the locals as they are (index 0);
  * one arbitrary iteration k: the modified locals are replaced by arbitrary values that satisfy the invariant at k, the real
    loop body runs once on element k, and the invariant at k + 1 is an obligation (the path ends there; a `break` or `return`
    simply continues after the loop / leaves the function);
  * exit: the modified locals are arbitrary values that satisfy the invariant at n.
Every local that the invariant does not mention must be left alone by the body (checked), else the loop is not decided.
"""
import ctypes
import dis
import gc
import sys
import types
import z3
from . import core, red
from .core import Unsupported, Infeasible, ctx, SInt, SBool, SFlt, intt

RULES = {}  # function name -> rule (active for one contract run)
_MISSING = object()


class Rule:
    """names(loc) -> the locals the loop may modify, or None when the loop is not of the expected form;
    check(k, values, loc, where): obligations; havoc(k, loc) -> new values (in the order of the names)"""

    def __init__(self, names, check, havoc):
        self.names, self.check, self.havoc = names, check, havoc


def set_locals(fr, new):
    loc = fr.f_locals
    loc.update(new)
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(fr), ctypes.c_int(0))


def snap(loc, skip):
    out = {}
    for k, x in loc.items():
        if k not in skip:
            out[k] = (x, shallow(x))
    return out


def shallow(x):
    if isinstance(x, (list, tuple)):
        return [id(q) for q in x]
    if isinstance(x, dict):
        return [(id(a), id(b)) for a, b in x.items()]
    if isinstance(x, set):
        return sorted(id(q) for q in x)
    return getattr(x, "__dict__", {}).get("version") if not isinstance(x, types.ModuleType) else None


class Iter:
    """iterator over n elements el(k), n symbolic"""

    def __init__(self, n, el, what):
        self.n, self.el, self.what = n, el, what
        self.state = 0

    def __iter__(self):
        return self

    def no(self, why=""):
        c = ctx()
        c.unsupported = self.what + why
        raise Unsupported(c.unsupported)

    def __next__(self):
        fr = sys._getframe(1)
        if self.state == "g":
            raise StopIteration
        if self.state == 0 and CONSUMER and CONSUMER[-1].var is None and CONSUMER[-1].gen.gi_frame is fr:
            if any(not isinstance(q, types.FrameType) for q in gc.get_referrers(self)):
                self.no(" (through another iterator)")
            return self.generic()
        rule = RULES.get(fr.f_code.co_name)
        if rule is None or not fr.f_globals.get("__name__", "").startswith("mlpaper"):
            self.no()
        op = [i for i in dis.get_instructions(fr.f_code) if i.offset == fr.f_lasti]
        if not op or not op[0].opname.startswith("FOR_ITER"):
            self.no(" (not in a for statement)")
        if any(i.opname in ("LIST_APPEND", "SET_ADD", "MAP_ADD", "YIELD_VALUE") for i in dis.get_instructions(fr.f_code) if fr.f_lasti < i.offset < op[0].argval):
            self.no(" (comprehension)")
        if any(not isinstance(q, types.FrameType) for q in gc.get_referrers(self)):
            self.no(" (through another iterator)")
        c = ctx()
        loc = fr.f_locals
        n = intt(self.n)
        if self.state == 0:
            self.names = rule.names(dict(loc), self)
            if self.names is None:
                self.no(" (not of the form of the invariant)")
            self.loc0 = dict(loc)
            rule.check(SInt(z3.IntVal(0)), [loc[q] for q in self.names], self.loc0, "entry")
            self.before = snap(loc, self.names)
            if c.fork(z3.Bool(c.name("loop:exit"))):
                c.notes["loop"] = True
                set_locals(fr, dict(zip(self.names, rule.havoc(SInt(n), self.loc0))))
                self.state = "x"
                raise StopIteration
            k = z3.Int(c.name("loop:k"))
            c.assume(z3.And(k >= 0, k < n))
            self.k = k
            set_locals(fr, dict(zip(self.names, rule.havoc(SInt(k), self.loc0))))
            self.state = 1
            return self.el(k)
        if self.state == 1:
            for q, (x, s) in self.before.items():
                y = loc.get(q, _MISSING)
                if y is not x or shallow(y) != s:
                    if q in target(fr):
                        continue
                    self.no(" (the body changes %s)" % q)
            rule.check(SInt(z3.simplify(self.k + 1)), [loc[q] for q in self.names], self.loc0, "iteration")
            raise Infeasible()  # nothing further to check on this path
        raise StopIteration

    def generic(self):
        """one arbitrary element, for a consumer that reduces over all of them"""
        c = ctx()
        f = CONSUMER[-1]
        n = intt(self.n)
        self.state = "g"
        if not c.fork(n >= 1):
            raise StopIteration
        i = z3.Int(c.name("each"))
        c.assume(z3.And(i >= 0, i < n))
        c.generic = list(c.generic or []) + [i]
        f.var, f.n = i, n
        return self.el(i)


def target(fr):
    """names assigned by the for statement itself"""
    ins = list(dis.get_instructions(fr.f_code))
    for j, i in enumerate(ins):
        if i.offset == fr.f_lasti:
            out = []
            for q in ins[j + 1:]:
                if q.opname.startswith(("STORE_FAST", "STORE_DEREF")):
                    out += q.argval if isinstance(q.argval, tuple) else [q.argval]
                elif not q.opname.startswith(("UNPACK", "SWAP", "CACHE", "NOP")):
                    break
            return out
    return []


class Frame:
    def __init__(self, gen):
        self.gen = gen
        self.var = self.n = None


CONSUMER = []


class Each:
    """the value of a generator expression at an arbitrary element of a sequence of unknown length n >= 1"""

    def __init__(self, var, n, value, fresh):
        self.var, self.n, self.value, self.fresh = var, n, value, fresh

    def at(self, i):
        return subst(self.value, self.var, i, self.fresh)


def subst(x, var, i, fresh):
    def f(t):
        if not z3.is_expr(t):
            return t
        for q in red.free_consts(t):
            b, _, k = q.decl().name().rpartition("!")
            if not q.eq(var) and b in fresh and k.isdigit() and int(k) >= fresh[b]:
                raise Unsupported("value chosen separately for each element")
        return z3.simplify(z3.substitute(t, (var, i)))

    x = core.norm(x)
    if isinstance(x, SInt):
        return core.mkint(f(x.t))
    if isinstance(x, SBool):
        return core.mkbool(f(x.t))
    if isinstance(x, SFlt):
        return SFlt(f(x.v), f(x.nan), f(x.pinf), f(x.ninf), None if x.lg is None else f(x.lg))
    if isinstance(x, (bool, int, float)):
        return x
    raise Unsupported("generator of %s" % type(x).__name__)


def pull(gen):
    """iterate a generator; yields its values, or one Each"""
    c = ctx()
    if c is None or not isinstance(gen, types.GeneratorType) or gen.gi_code.co_name != "<genexpr>":
        yield from gen
        return
    f = Frame(gen)
    n0 = 0
    while True:
        old, fr = c.generic, dict(c.fresh)
        CONSUMER.append(f)
        try:
            try:
                x = next(gen)
            except StopIteration:
                return
        finally:
            CONSUMER.pop()
            c.generic = old
        if f.var is None:
            n0 += 1
            yield x
            continue
        if n0:
            raise Unsupported("generator over a mixed sequence")
        for _ in gen:
            raise Unsupported("generator over a mixed sequence")
        new = {k: fr.get(k, 0) for k in c.fresh if c.fresh[k] != fr.get(k, 0)}
        yield Each(f.var, f.n, x, new)
        return


class SList:
    """list of unknown length (never modified)"""

    def __init__(self, n, el):
        self.n, self.el = n, el

    def _sym_len(self):
        return self.n

    def __len__(self):
        raise Unsupported("C-level len of a list of unknown length")

    def __iter__(self):
        return Iter(self.n, self.el, "iteration over a list of unknown length")

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a list of unknown length")
        k = intt(k)
        n = intt(self.n)
        if not ctx().fork(z3.And(k >= -n, k < n)):
            raise IndexError("list index out of range")
        return self.el(z3.simplify(z3.If(k >= 0, k, k + n)))

    def __bool__(self):
        return ctx().fork(intt(self.n) >= 1)

    def __eq__(self, o):
        raise Unsupported("comparison of lists of unknown length")

    __hash__ = object.__hash__

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        c = ctx()
        if c is not None:
            c.unsupported = "list." + k
        raise Unsupported("list." + k)


def zipped(Ls):
    """zip of sequences one of which has unknown length"""
    ns = [intt(x.n) if isinstance(x, SList) else z3.IntVal(len(x)) for x in Ls]
    if any(not isinstance(x, SList) for x in Ls):
        raise Unsupported("zip of lists")
    n = ns[0]
    for m in ns[1:]:
        n = z3.simplify(z3.If(m < n, m, n))
    c = ctx()
    for m in ns:
        if c.entails(n == m):
            n = m
            break
    return SList(core.mkint(n), lambda k: tuple(x.el(k) for x in Ls))
