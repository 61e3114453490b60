"""Load the modules of /repo/mlpaper, unmodified, on top of the facades.

The text executed is exactly the file's text.  Only the *environment* of the
module differs: imports resolve to facades, and the builtins below accept
symbolic values.
"""
import builtins as _b
import os as _os
import sys
import types
import z3
from . import core, red, arr, npf, loops
from .core import SBool, SInt, SFlt, Unsupported, is_sym, ctx, mkint, mkbool, flt, norm, kind
from .arr import SArr, SRange, asarr

REPO = _os.environ.get("VERIF_DEV_REPO", "/repo")  # the variable is for planting bugs in scratch copies only


def s_len(x):
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, SRange):
        return x.length()
    if hasattr(x, "_sym_len"):
        return x._sym_len()
    if isinstance(x, str) and "\ue000" in x:
        from . import decf

        return decf.text_len(x)
    return _b.len(x)



def s_range(*a):
    a = [norm(x) for x in a]
    if _b.any(isinstance(x, SInt) for x in a):
        if _b.len(a) == 1:
            return SRange(0, a[0])
        return SRange(*a)
    return _b.range(*a)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_b.int, SInt))

    def __call__(cls, x=0, *a):
        if a:
            return _b.int(x, *a)
        if isinstance(x, SArr) and x.ndim == 0:
            x = x.at()
        x = norm(x)
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return arr.cast(x, "i")
        if isinstance(x, SFlt):
            if not ctx().fork(core.B(x.fin)):
                raise ValueError("cannot convert float NaN or infinity to integer")
            return arr.cast(x, "i")
        if hasattr(x, "_sym_int"):
            return x._sym_int()
        return _b.int(x)


class s_int(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_b.float, SFlt))

    def __call__(cls, x=0.0):
        if isinstance(x, SArr) and x.ndim == 0:
            x = x.at()
        if is_sym(x):
            return flt(x)
        if hasattr(x, "_sym_float"):
            return x._sym_float()
        return _b.float(x)


class s_float(metaclass=_FloatMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_b.bool, SBool))

    def __call__(cls, x=False):
        if is_sym(x):
            return mkbool(core.boolt(x))
        return _b.bool(x)


class s_bool(metaclass=_BoolMeta):
    pass


def _patch_kind():
    old = arr.kind_of_dtype

    def k(d):
        if d is s_float:
            return "f"
        if d is s_int:
            return "i"
        if d is s_bool:
            return "b"
        return old(d)

    arr.kind_of_dtype = k
    npf.kind_of_dtype = k


_patch_kind()


def _seq(args):
    if _b.len(args) == 1:
        return _b.list(loops.pull(args[0]))
    return _b.list(args)


def s_zip(*a, **k):
    if _b.any(isinstance(x, loops.SList) for x in a):
        return loops.zipped(a)
    return _b.zip(*a, **k)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (cls._b, loops.SList))

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._b)

    def __call__(cls, *a):
        if a and isinstance(a[0], loops.SList):
            return loops.SList(a[0].n, a[0].el)
        return cls._b(*a)


class s_list(metaclass=_ListMeta):
    _b = _b.list


class s_tuple(metaclass=_ListMeta):
    _b = _b.tuple


def _all(n, f):
    """for all i < n (n >= 1), with the first and last instance at hand"""
    a = red.ALL(n, f)
    if core.lit(a) is None:
        ctx().assume(z3.Implies(a, z3.And(core.B(f(z3.IntVal(0))), core.B(f(z3.simplify(n - 1))))))
    return a


def s_all(x):
    for q in loops.pull(x):
        if isinstance(q, loops.Each):
            return mkbool(_all(q.n, lambda i: core.B(core.boolt(q.at(i)))))
        if not q:
            return False
    return True


def s_any(x):
    for q in loops.pull(x):
        if isinstance(q, loops.Each):
            return mkbool(core.Not(_all(q.n, lambda i: core.Not(core.B(core.boolt(q.at(i)))))))
        if q:
            return True
    return False


def _each(q, which):
    k = kind(norm(q.value))
    if k not in "bif":
        raise Unsupported(which + " of objects")
    return arr.r_ext(mkint(q.n), q.at, "f" if k == "f" else "i", which)


def s_min(*args, **kw):
    L = _seq(args)
    if _b.len(L) == 1 and isinstance(L[0], loops.Each):
        if kw:
            raise Unsupported("min with options")
        return _each(L[0], "min")
    if not _b.any(is_sym(x) or hasattr(x, "_sym_cmp") for x in L) or kw:
        return _b.min(L, **kw)
    r = L[0]
    for x in L[1:]:
        r = core.ite(core.cmp("lt", x, r), x, r) if (kind(x) != "O" and kind(r) != "O") else (x if x < r else r)
    return r


def s_max(*args, **kw):
    L = _seq(args)
    if _b.len(L) == 1 and isinstance(L[0], loops.Each):
        if kw:
            raise Unsupported("max with options")
        return _each(L[0], "max")
    if not _b.any(is_sym(x) or hasattr(x, "_sym_cmp") for x in L) or kw:
        return _b.max(L, **kw)
    r = L[0]
    for x in L[1:]:
        r = core.ite(core.cmp("gt", x, r), x, r) if (kind(x) != "O" and kind(r) != "O") else (x if x > r else r)
    return r


def s_abs(x):
    return _b.abs(x)


def s_sum(x, start=0):
    if isinstance(x, SArr):
        return npf.np.sum(x)
    r = start
    for v in loops.pull(x):
        if isinstance(v, loops.Each):
            k = kind(norm(v.value))
            if k not in "bif":
                raise Unsupported("sum of objects")
            v = arr.r_sum(mkint(v.n), v.at, k)
        r = r + v
    return r


def s_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for q in ts:
        if q in (s_float, _b.float):
            if isinstance(x, (_b.float, SFlt)):
                return True
        elif q in (s_int, _b.int):
            if isinstance(x, (_b.int, SInt)):
                return True
        elif q in (s_bool, _b.bool):
            if isinstance(x, (_b.bool, SBool)):
                return True
        elif q in (s_list, s_tuple):
            if isinstance(x, q):
                return True
        elif isinstance(q, type) and _b.isinstance(x, q):
            return True
    return False


def s_round(x, n=None):
    if is_sym(x):
        raise Unsupported("round")
    return _b.round(x) if n is None else _b.round(x, n)


def s_enumerate(x, start=0):
    return _b.enumerate(x, start)


BUILTINS = dict(vars(_b))
BUILTINS.update(
    len=s_len, range=s_range, int=s_int, float=s_float, bool=s_bool, min=s_min, max=s_max, sum=s_sum, all=s_all, any=s_any, zip=s_zip, list=s_list, tuple=s_tuple, round=s_round,
)
_builtins_mod = types.ModuleType("builtins")
_builtins_mod.__dict__.update(BUILTINS)

FACADES = {}  # full module name -> facade


def facade(name, mod):
    FACADES[name] = mod


def std_facades():
    from . import spf, pdf, decf

    facade("numpy", npf.np)
    facade("builtins", _builtins_mod)
    spf.install(FACADES)
    pdf.install(FACADES)
    decf.install(FACADES)


PASS = {"__future__", "sys", "warnings", "collections", "itertools", "functools", "math", "operator", "typing", "string", "re", "copy"}


class IntDict(dict):
    """table with integer keys that can be looked up with a symbolic integer"""

    def _key(self, k):
        if isinstance(k, SInt):
            for q in self:
                if bool(k == q):
                    return q
            return _NOKEY
        return k

    def get(self, k, d=None):
        return dict.get(self, self._key(k), d)

    def __getitem__(self, k):
        q = self._key(k)
        if q is _NOKEY:
            raise KeyError(k)
        return dict.__getitem__(self, q)

    def __contains__(self, k):
        return dict.__contains__(self, self._key(k))


_NOKEY = object()


class World:
    """A fresh set of mlpaper modules"""

    def __init__(self, stubs=None):
        if not FACADES:
            std_facades()
        self.mods = {}
        self.files = []
        self.stubs = stubs or {}

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = "mlpaper"
            name = pkg + ("." + name if name else "")
        if name == "mlpaper" or name.startswith("mlpaper."):
            if name == "mlpaper":
                pkg = self._pkg()
                for f in fromlist or ():
                    if not hasattr(pkg, f):
                        setattr(pkg, f, self.load("mlpaper." + f))
                return pkg
            m = self.load(name)
            pkg = self._pkg()
            setattr(pkg, name.split(".", 1)[1], m)
            return m if fromlist else pkg
        if name in FACADES:
            m = FACADES[name]
            if fromlist or "." not in name:
                return m
            top = name.split(".")[0]
            t = npf.Mod(top)
            for k, v in FACADES.items():
                if k.startswith(top + "."):
                    t.__dict__[k.split(".", 1)[1]] = v
            return t
        if name.split(".")[0] in PASS:
            return _b.__import__(name, globals, locals, fromlist, level)
        # a module outside the facades: opaque
        if fromlist:
            m = npf.Mod(name)
            for f in fromlist:
                if name + "." + f in FACADES:
                    m.__dict__[f] = FACADES[name + "." + f]
                else:
                    m.__dict__[f] = _Opaque(name + "." + f)
            return m
        return npf.Mod(name)

    def _pkg(self):
        if "mlpaper" not in self.mods:
            m = types.ModuleType("mlpaper")
            m.__path__ = [REPO + "/mlpaper"]
            self.mods["mlpaper"] = m
        return self.mods["mlpaper"]

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = REPO + "/" + name.replace(".", "/") + ".py"
        try:
            src = open(path).read()
        except OSError:
            raise Unsupported("module %s" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        self.mods[name] = m
        bi = dict(BUILTINS)
        bi["__import__"] = self.imp
        m.__dict__["__builtins__"] = bi
        self.files.append(path)
        exec(compile(src, path, "exec"), m.__dict__)
        for k, v in list(m.__dict__.items()):
            if type(v) is dict and v and _b.all(type(q) is _b.int for q in v):
                m.__dict__[k] = IntDict(v)
        for k, v in self.stubs.items():
            mod, fn = k.rsplit(".", 1)
            if mod == name and callable(m.__dict__.get(fn)):
                m.__dict__[fn] = v
        return m


class _Opaque:
    def __init__(self, n):
        self.n = n

    def __call__(self, *a, **k):
        c = ctx()
        if c is not None:
            c.unsupported = self.n
        raise Unsupported(self.n)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(self.n + "." + k)
