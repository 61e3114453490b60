"""Symbolic numpy arrays (pull arrays over symbolic shapes)."""
from fractions import Fraction
import builtins
import itertools
import z3
from . import core, red
from .core import (
    SBool, SInt, SFlt, Unsupported, And, Or, Not, Ite, Implies, Iff, B, R, I, num, lit, mkbool, mkint, flt, boolt, intt,
    kind, arith, cmp, unary, ite, norm, ctx, DType, is_sym, scalar_like,
)


def kind_of_dtype(d):
    if d is None:
        return "f"
    if isinstance(d, DType):
        return d.kind
    if d is builtins.float or d is SFloatType:
        return "f"
    if d is builtins.int or d is SIntType:
        return "i"
    if d is builtins.bool or d is SBoolType:
        return "b"
    if d is object:
        return "O"
    k = getattr(d, "kind", None)
    if isinstance(k, str):
        return k
    if isinstance(d, str):
        if d.startswith(("f", "d")):
            return "f"
        if d.startswith("i"):
            return "i"
        if d.startswith("b"):
            return "b"
        if d.startswith("O") or d.startswith("o"):
            return "O"
    import numpy as np

    try:
        k = np.dtype(d).kind
    except TypeError:
        raise Unsupported("dtype %r" % (d,))
    return "i" if k == "u" else k


class SFloatType:  # stands for the float() builtin in the code under verification
    pass


class SIntType:
    pass


class SBoolType:
    pass


def cast(x, k):
    if k == "O":
        return x
    kx = kind(x)
    if kx == "O":
        raise Unsupported("cast of object")
    if k == kx:
        return norm(x)
    if k == "f":
        return flt(x)
    if k == "i":
        if kx == "b":
            return mkint(intt(x))
        x = flt(x)
        t = x.v
        tr = z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
        return mkint(z3.simplify(tr))
    if k == "b":
        return mkbool(boolt(x))
    raise Unsupported("cast to " + str(k))


def dim_t(d):
    return d.t if isinstance(d, SInt) else z3.IntVal(int(d))


def mkdim(t):
    return mkint(z3.simplify(t))


def nonneg_dim(t):
    t = z3.simplify(t)
    n = num(t)
    if n is not None:
        return max(0, int(n))
    if ctx().entails(t >= 0):
        return mkint(t)
    return mkint(z3.simplify(z3.If(t >= 0, t, 0)))


def dim_same(a, b):
    if not is_sym(a) and not is_sym(b):
        return int(a) == int(b)
    if is_sym(a) and is_sym(b) and a.t.eq(b.t):
        return True
    return bool(cmp("eq", a, b))


class SArr:
    __array_priority__ = 2000
    __array_ufunc__ = None
    frozen = False

    def __init__(self, shape, get, kind_, view=None, tag=None):
        self._shape = tuple(int(s) if not is_sym(s) else s for s in shape)
        self._g = get
        self.kind = kind_
        self._view = view  # (base, index transform idx->base idx, inverse-setter)
        self._memo = {}
        self.version = 0
        self.tag = tag

    # -- element access
    def at(self, *idx):
        if self._view is not None:
            base, tr = self._view[0], self._view[1]
            return base.at(*tr(*idx))
        key = tuple(i.get_id() if isinstance(i, z3.ExprRef) else i for i in idx)
        m = self._memo.get(key)
        if m is None:
            m = (self._g(*idx), idx)
            self._memo[key] = m
        return m[0]

    def snap(self):
        if self._view is not None:
            base, tr = self._view[0], self._view[1]
            bs = base.snap()
            return lambda *idx: bs(*tr(*idx))
        g = self._g
        memo = self._memo

        def get(*idx):
            key = tuple(i.get_id() if isinstance(i, z3.ExprRef) else i for i in idx)
            m = memo.get(key)
            if m is None:
                m = (g(*idx), idx)
                memo[key] = m
            return m[0]

        return get

    # -- numpy attributes
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        n = 1
        for s in self._shape:
            n = arith("mul", n, s) if (is_sym(n) or is_sym(s)) else n * s
        return n

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def T(self):
        g = self.snap()
        if self.ndim == 1:
            return self
        return SArr(self._shape[::-1], lambda *i: g(*i[::-1]), self.kind)

    @property
    def values(self):
        return self

    def astype(self, d, copy=True):
        k = kind_of_dtype(d)
        g = self.snap()
        return SArr(self._shape, lambda *i: cast(g(*i), k), k)

    def copy(self):
        return SArr(self._shape, self.snap(), self.kind)

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported("flatten")

    def ravel(self, *a):
        if self.ndim == 1:
            return self
        raise Unsupported("ravel")

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        g = self.snap()
        if self.ndim == 1 and len(shape) == 2:
            n = self._shape[0]
            if shape[0] == 1 and (shape[1] == -1 or dim_same(shape[1], n)):
                return SArr((1, n), lambda i, j: g(j), self.kind)
            if shape[1] == 1 and (shape[0] == -1 or dim_same(shape[0], n)):
                return SArr((n, 1), lambda i, j: g(i), self.kind)
        if len(shape) == 1 and shape[0] == -1 and self.ndim == 1:
            return self
        raise Unsupported("reshape")

    def tolist(self):
        return list(self)

    def item(self):
        if self.ndim == 0:
            return self.at()
        raise Unsupported("item")

    def __len__(self):
        n = self._shape[0]
        if is_sym(n):
            raise Unsupported("C-level len of symbolic array")
        return n

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = self._shape[0]
        if is_sym(n):
            c = ctx()
            # allow unpacking `x, = arr` of a provably fixed small length
            k = num(z3.simplify(n.t))
            if k is None:
                for q in (1, 2, 3):
                    if c.entails(n.t == q):
                        k = q
                        break
            if k is None:
                from . import loops

                return loops.Iter(n, self.__getitem_term, "iteration over an array of symbolic length")
            n = int(k)
        return self._items(n)

    def _items(self, n):
        for i in range(n):
            yield self[i]

    def __getitem_term(self, k):
        return self[SInt(k)] if self.ndim > 1 else self.at(k)

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.at())
        n = self.size
        if not is_sym(n) and n == 1:
            return bool(self.at(*[z3.IntVal(0)] * self.ndim))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name in METHODS:
            return lambda *a, **k: METHODS[name](self, *a, **k)
        raise Unsupported("ndarray attribute " + name)

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def __hash__(self):
        return id(self)

    def __neg__(self):
        return ew(lambda a: unary("neg", a), self)

    def __abs__(self):
        return ew(lambda a: unary("abs", a), self)

    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("invert of non bool")
        return ew(lambda a: mkbool(Not(boolt(a))), self, out="b")

    def __pow__(self, o):
        return ew(lambda a, b: core.power(a, b), self, o) if not isinstance(o, SArr) else _uns("pow")

    def _ip(self, op, o):
        r = ew(lambda a, b: op(a, b), self, o)
        if isinstance(r, SArr):
            self._assign_all(r)
        return self

    def _assign_all(self, r):
        setitem(self, tuple([slice(None)] * self.ndim), r)


METHODS = {}


def _uns(m):
    raise Unsupported(m)


def _mk(name, rev):
    def f(self, o):
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        return ew(lambda a, b: arith(name, a, b), o, self) if rev else ew(lambda a, b: arith(name, a, b), self, o)

    return f


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod"):
    setattr(SArr, "__%s__" % _n, _mk(_n, False))
    setattr(SArr, "__r%s__" % _n, _mk(_n, True))


def _mkc(name):
    def f(self, o):
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        return ew(lambda a, b: cmp(name, a, b), self, o, out="b")

    return f


for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(SArr, "__%s__" % _n, _mkc(_n))


def _mkb(fn):
    def f(self, o):
        return ew(lambda a, b: mkbool(fn(boolt(a), boolt(b))), self, o, out="b")

    return f


for _n, _f in (("and", And), ("or", Or), ("xor", lambda a, b: Not(Iff(a, b)))):
    setattr(SArr, "__%s__" % _n, _mkb(_f))
    setattr(SArr, "__r%s__" % _n, _mkb(_f))
for _n in ("add", "sub", "mul", "truediv"):
    setattr(SArr, "__i%s__" % _n, (lambda nm: lambda self, o: self._ip(lambda a, b: arith(nm, a, b), o))(_n))
SArr.__iand__ = lambda self, o: self._ip(lambda a, b: mkbool(And(boolt(a), boolt(b))), o)
SArr.__ior__ = lambda self, o: self._ip(lambda a, b: mkbool(Or(boolt(a), boolt(b))), o)


# --------------------------------------------------------------------------
def from_list(L, kind_=None):
    """nested python lists of scalars -> concrete-shape SArr"""
    L = list(L)
    if L and all(isinstance(x, (list, tuple)) or (isinstance(x, SArr) and x.ndim >= 1) for x in L):
        rows = [asarr(x) for x in L]
        if rows[0].ndim == 1:
            sh = rows[0].shape
            k = join_kinds([r.kind for r in rows])
            gs = [r.snap() for r in rows]
            return SArr((len(L),) + sh, lambda i, *j: sel_list([g(*j) for g in gs], i), k)
        raise Unsupported("nested list")
    for x in L:
        if not scalar_like(x) and not (isinstance(x, SArr) and x.ndim == 0):
            if kind(x) == "O":
                return SArr((len(L),), lambda i: sel_list(L, i), "O")
    L = [x.at() if isinstance(x, SArr) else norm(x) for x in L]
    k = kind_ or join_kinds([kind(x) for x in L])
    L = [cast(x, k) for x in L]
    return SArr((len(L),), lambda i: sel_list(L, i), k)


def join_kinds(ks):
    ks = list(ks)
    if not ks:
        return "f"
    if "O" in ks:
        return "O"
    if "f" in ks:
        return "f"
    if "i" in ks:
        return "i"
    return "b"


def sel_list(L, i):
    n = num(i)
    if n is not None:
        return L[int(n)]
    if not L:
        raise Unsupported("index into empty")
    r = L[-1]
    for k in range(len(L) - 2, -1, -1):
        r = ite(i == k, L[k], r)
    return r


def asarr(x, kind_=None):
    if isinstance(x, SArr):
        return x
    if hasattr(x, "_sym_values"):
        return asarr(x._sym_values())
    if isinstance(x, SRange):
        return SArr((x.length(),), lambda i: mkint(z3.simplify(I(x.start_t) + I(x.step) * i)), "i")
    if isinstance(x, range):
        return from_list(list(x), "i") if len(x) else SArr((0,), lambda i: 0, "i")
    if scalar_like(x):
        x = norm(x)
        return SArr((), lambda: x, kind(x))
    if isinstance(x, (list, tuple)):
        return from_list(x, kind_)
    import numpy as np

    if isinstance(x, np.ndarray):
        if x.dtype.kind == "O":
            if x.ndim == 1:
                return from_list(list(x))
            raise Unsupported("object ndarray")
        if x.ndim <= 2:
            if x.ndim == 0:
                return asarr(x.item())
            if x.ndim == 1:
                return from_list(x.tolist(), kind_of_dtype(x.dtype))
            return from_list([list(r) for r in x.tolist()])
    if hasattr(x, "__iter__") and not isinstance(x, (str, dict)):
        return asarr(list(x))
    raise Unsupported("asarray of %r" % type(x))


class SRange:
    """range with symbolic bounds"""

    def __init__(self, start, stop, step=1):
        self.start_t = intt(start)
        self.start, self.stop, self.step = start, stop, step
        if is_sym(step) or step not in (1, -1):
            raise Unsupported("symbolic range step")

    def length(self):
        d = arith("sub", self.stop, self.start)
        if self.step == -1:
            d = unary("neg", d)
        return nonneg_dim(intt(d))

    @property
    def size(self):
        return self.length()

    @property
    def shape(self):
        return (self.length(),)

    def __len__(self):
        raise Unsupported("C-level len of symbolic range")

    def __iter__(self):
        from . import loops

        n, a = self.length(), self.start_t
        return loops.Iter(n, lambda k: mkint(z3.simplify(a + k if self.step == 1 else a - k)), "loop over a symbolic range")


def bshape(shapes):
    nd = max([len(s) for s in shapes] or [0])
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            x = s[k]
            if not is_sym(x) and x == 1:
                continue
            if not is_sym(cur) and cur == 1:
                cur = x
                continue
            if dim_same(cur, x):
                if is_sym(cur) and not is_sym(x):
                    cur = x
                continue
            # one of them may be 1
            if is_sym(x) and bool(cmp("eq", x, 1)):
                raise Unsupported("broadcast of symbolic dim 1")
            if is_sym(cur) and bool(cmp("eq", cur, 1)):
                raise Unsupported("broadcast of symbolic dim 1")
            raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bget(a, nd):
    g = a.snap()
    sh = a.shape
    off = nd - len(sh)
    ones = [not is_sym(s) and s == 1 for s in sh]

    def get(*idx):
        ii = idx[off:]
        return g(*[z3.IntVal(0) if o else i for o, i in zip(ones, ii)])

    return get


def ew(f, *args, out=None):
    """elementwise with broadcasting"""
    for a in args:
        if hasattr(a, "_is_series"):
            return NotImplemented
    arrs = [asarr(a) for a in args]
    sh = bshape([a.shape for a in arrs])
    gs = [bget(a, len(sh)) for a in arrs]
    if len(sh) == 0:
        return f(*[g() for g in gs])
    for s in sh:
        if not is_sym(s) and s == 0:
            return SArr(sh, lambda *i: 0.0, out or "f")
    get = lambda *idx: f(*[g(*idx) for g in gs])
    if out is None:
        pr = get(*[z3.Int("?probe%d" % k) for k in range(len(sh))]) if any(is_sym(s) for s in sh) else get(*[z3.IntVal(0)] * len(sh))
        out = kind(pr)
    return SArr(sh, get, out)


# ---------------------------------------------------------------- indexing
def _is_full(s):
    return isinstance(s, slice) and s.start is None and s.stop is None and s.step is None


def slice_info(s, n):
    """-> (start z3, step, length dim)"""
    nt = dim_t(n)
    step = 1 if s.step is None else s.step
    if is_sym(step) or step not in (1, -1):
        if not is_sym(n) and not is_sym(step):
            r = range(*s.indices(int(n)))
            return z3.IntVal(r.start), step, len(r)
        raise Unsupported("slice step")

    def bound(x, default):
        if x is None:
            return default
        t = intt(x)
        k = num(t)
        if num(nt) is not None and k is not None:
            nn, k = int(num(nt)), int(k)
            k = k + nn if k < 0 else k
            return z3.IntVal(min(max(k, 0), nn) if step == 1 else min(max(k, -1), nn - 1))
        if k is not None:
            if k >= 0:
                if ctx().entails(nt >= t):
                    return t
                return z3.If(t <= nt, t, nt)
            if ctx().entails(nt + t >= 0):
                return z3.simplify(nt + t)
            return z3.If(nt + t >= 0, nt + t, 0)
        t2 = z3.If(t < 0, t + nt, t)
        if ctx().entails(z3.And(t2 >= 0, t2 <= nt)):
            if ctx().entails(t >= 0):
                return t
            return z3.simplify(t2)
        return z3.simplify(z3.If(t2 < 0, 0, z3.If(t2 > nt, nt, t2)))

    if step == 1:
        a = bound(s.start, z3.IntVal(0))
        b = bound(s.stop, nt)
        return a, 1, nonneg_dim(b - a)
    if s.start is None and s.stop is None:
        return z3.simplify(nt - 1), -1, n
    raise Unsupported("negative slice with bounds")


def norm_index(i, n):
    """integer index -> z3 term, raising IndexError path"""
    t = intt(i)
    nt = dim_t(n)
    k = num(t)
    if k is not None and num(nt) is not None:
        k, nn = int(k), int(num(nt))
        if k < -nn or k >= nn:
            raise IndexError("index %d is out of bounds for axis with size %d" % (k, nn))
        return z3.IntVal(k if k >= 0 else k + nn)
    if k is not None:
        ok = nt > t if k >= 0 else nt >= -t
        if not ctx().fork(z3.simplify(ok)):
            raise IndexError("index out of bounds")
        return t if k >= 0 else z3.simplify(nt + t)
    if not ctx().fork(z3.And(t >= -nt, t < nt)):
        raise IndexError("index out of bounds")
    if ctx().entails(t >= 0):
        return t
    return z3.simplify(z3.If(t < 0, t + nt, t))


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    nd = a.ndim
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SArr) and k.kind == "b":
            used += k.ndim
        else:
            used += 1
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key[p : p + 1] = [slice(None)] * (nd - used)
    else:
        key += [slice(None)] * (nd - used)
    if used > nd:
        raise IndexError("too many indices")
    return key


def as_index(k):
    if isinstance(k, (SArr, slice)) or k is None:
        return k
    if isinstance(k, (SRange, range)):
        return asarr(k)
    if isinstance(k, (list, tuple)):
        if len(k) == 0:
            return SArr((0,), lambda i: 0, "i")
        return asarr(k)
    k = norm(k)
    if isinstance(k, (bool, SBool)):
        raise Unsupported("bool scalar index")
    if isinstance(k, (int, SInt)):
        return k
    if hasattr(k, "_sym_values"):
        return asarr(k)
    import numpy as np

    if isinstance(k, np.ndarray):
        return asarr(k)
    if isinstance(k, (float, SFlt)):
        raise IndexError("only integers, slices are valid indices")
    raise Unsupported("index %r" % type(k))


def nonzero1(mask):
    """positions of True in 1-d mask: (length dim, idx getter)"""
    n = mask.shape[0]
    g = mask.snap()
    if not is_sym(n):
        pos = [i for i in range(n) if bool(mkbool(boolt(g(z3.IntVal(i)))))]
        return len(pos), (lambda k: sel_list(pos, k)), None
    r, p = red.make("sel", dim_t(n), lambda i: B(boolt(g(i))))
    cnt = red.app(r, "cnt", p)
    c = ctx()
    return mkint(cnt), (lambda k: SInt(red.app(r, "sel", p, k))), (r, p)


def getitem(a, key):
    if hasattr(key, "_sym_values"):
        key = key._sym_values()
    if isinstance(key, SArr) and key.kind == "b" and key.ndim == a.ndim and a.ndim == 2:
        raise Unsupported("2d mask read")
    if isinstance(key, tuple) and len(key) == 0:
        return a.at() if a.ndim == 0 else a
    key = [as_index(k) for k in expand_key(a, key)]
    comps = []  # per base dim
    shape = []
    adv = []  # positions of advanced comps
    d = 0
    plan = []  # output dims
    for k in key:
        if k is None:
            plan.append(("new",))
            continue
        n = a.shape[d]
        if isinstance(k, slice):
            st, step, ln = slice_info(k, n)
            plan.append(("slice", d, st, step, ln, _is_full(k)))
        elif isinstance(k, SArr):
            if k.kind == "b":
                if k.ndim != 1:
                    raise Unsupported("nd bool index")
                if not dim_same(k.shape[0], n):
                    raise IndexError("boolean index did not match")
                ln, get, rr = nonzero1(k)
                plan.append(("adv", d, SArr((ln,), get, "i"), True))
            elif k.ndim == 0:
                plan.append(("int", d, norm_index(k.at(), n)))
            else:
                if k.ndim != 1:
                    raise Unsupported("nd int index")
                kg = k.snap()
                L = k.shape[0]
                nt = dim_t(n)
                okk = lambda i: z3.And(intt(kg(i)) >= -nt, intt(kg(i)) < nt)
                if not ctx().fork(B(red.ALL(dim_t(L), okk))):
                    raise IndexError("index out of bounds")
                nonneg = ctx().entails(red.ALL(dim_t(L), lambda i: intt(kg(i)) >= 0))
                if nonneg:
                    get = kg
                else:
                    get = lambda i, kg=kg, nt=nt: mkint(z3.simplify(z3.If(intt(kg(i)) < 0, intt(kg(i)) + nt, intt(kg(i)))))
                plan.append(("adv", d, SArr((L,), get, "i"), False))
        else:
            plan.append(("int", d, norm_index(k, n)))
        d += 1
    advs = [p for p in plan if p[0] == "adv"]
    out_shape = []
    first = True
    if len(advs) > 1:
        L = advs[0][2].shape[0]
        for p in advs[1:]:
            if not dim_same(L, p[2].shape[0]):
                raise IndexError("shape mismatch")
    spec = []
    advpos = None
    for p in plan:
        if p[0] == "new":
            out_shape.append(1)
            spec.append(None)
        elif p[0] == "slice":
            out_shape.append(p[4])
            spec.append(("s", len(out_shape) - 1, p))
        elif p[0] == "adv":
            if advpos is None:
                advpos = len(out_shape)
                out_shape.append(p[2].shape[0])
            spec.append(("a", advpos, p))
        else:
            spec.append(("i", None, p))

    def tr(*idx):
        out = []
        for s in spec:
            if s is None:
                continue
            if s[0] == "s":
                p = s[2]
                i = idx[s[1]]
                if p[5]:
                    out.append(i)
                else:
                    out.append(z3.simplify(p[2] + (i if p[3] == 1 else z3.IntVal(p[3]) * i)))
            elif s[0] == "a":
                out.append(intt(s[2][2].at(idx[s[1]])))
            else:
                out.append(s[2][2])
        return out

    if not out_shape:
        return a.at(*tr())
    if advs:
        g = a.snap()
        return SArr(out_shape, lambda *idx: g(*tr(*idx)), a.kind)
    v = SArr(out_shape, None, a.kind, view=(a, tr, key))
    return v


def setitem(a, key, val):
    if a.frozen:
        c = ctx()
        if c is not None:
            c.unsupported = "write into the values of a DataFrame"
        raise Unsupported("write into the values of a DataFrame")
    if a._view is not None:
        # write through a view
        base, tr, bkey = a._view
        if all(_is_full(k) for k in expand_key(a, key if isinstance(key, tuple) else (key,)) if isinstance(k, slice)) and isinstance(
            key, tuple
        ) and all(isinstance(k, slice) for k in key):
            setitem(base, tuple(bkey), val)
            a.version += 1
            return
        if a.ndim == 1 and len([k for k in bkey if isinstance(k, slice)]) == 1 and all(k is not None for k in bkey):
            comp = [(j, k) for j, k in enumerate(bkey) if isinstance(k, slice)][0]
            if _is_full(comp[1]):
                nk = list(bkey)
                nk[comp[0]] = key
                setitem(base, tuple(nk), val)
                return
        raise Unsupported("assignment through a view")
    if hasattr(key, "_sym_values"):
        key = key._sym_values()
    old = a.snap()
    k = a.kind
    a.version += 1
    if isinstance(key, SArr) and key.kind == "b" and key.ndim == a.ndim and a.ndim >= 2:
        kg = key.snap()
        if not scalar_like(val):
            raise Unsupported("masked nd assignment of array")
        new = lambda *i: ite(boolt(kg(*i)), cast(val, k), old(*i))
        a._g, a._memo = new, {}
        return
    key = [as_index(x) for x in expand_key(a, key)]
    if any(x is None for x in key):
        raise Unsupported("newaxis in assignment")
    val = asarr(val)
    vnd = val.ndim
    conds = []  # functions idx->cond
    coords = []  # functions idx->coordinate term (for non-int comps)
    lens = []
    adv_int = [(d, x) for d, x in enumerate(key) if isinstance(x, SArr) and x.kind != "b"]
    if len(adv_int) >= 1:
        g = [x.snap() for _, x in adv_int]
        L = adv_int[0][1].shape[0]
        for d, x in adv_int:
            n = a.shape[d]
            xg = x.snap()
            if not ctx().fork(B(red.ALL(dim_t(x.shape[0]), lambda i: z3.And(intt(xg(i)) >= -dim_t(n), intt(xg(i)) < dim_t(n))))):
                raise IndexError("index out of bounds")
        if len(adv_int) != a.ndim or vnd != 0:
            if not (len(adv_int) == 1 and vnd == 0):
                raise Unsupported("fancy assignment")
        others = [(d, x) for d, x in enumerate(key) if not isinstance(x, SArr)]
        if any(not _is_full(x) if isinstance(x, slice) else True for _, x in others):
            raise Unsupported("mixed fancy assignment")
        v0 = val.at()

        def cond(*idx):
            if len(adv_int) == 1 and adv_int[0][1].__dict__.get("drawn") is not None and adv_int[0][1].version == 0:
                return adv_int[0][1].drawn(idx[adv_int[0][0]])
            # identity component?
            pr = z3.Int("?probe0")
            for j, (d, x) in enumerate(adv_int):
                t = intt(g[j](pr))
                if t.eq(pr) and dim_same(L, a.shape[d]):
                    kk = idx[d]
                    return And(*[core.eq(wrap(intt(g[q](kk)), a.shape[dd]), idx[dd]) for q, (dd, _) in enumerate(adv_int) if q != j])
            return red.ANY(dim_t(L), lambda kk: And(*[core.eq(wrap(intt(g[q](kk)), a.shape[dd]), idx[dd]) for q, (dd, _) in enumerate(adv_int)]))

        new = lambda *idx: ite(cond(*idx), cast(v0, k), old(*idx))
        a._g, a._memo = new, {}
        return
    masks = []
    for d, x in enumerate(key):
        n = a.shape[d]
        if isinstance(x, slice):
            st, step, ln = slice_info(x, n)
            lens.append(ln)
            if _is_full(x):
                conds.append(None)
                coords.append(lambda i: i)
            else:
                conds.append(
                    (lambda i, st=st, ln=ln: z3.And(i >= st, i < st + dim_t(ln)))
                    if step == 1
                    else (lambda i, st=st, ln=ln: z3.And(i <= st, i > st - dim_t(ln)))
                )
                coords.append((lambda i, st=st: z3.simplify(i - st)) if step == 1 else (lambda i, st=st: z3.simplify(st - i)))
        elif isinstance(x, SArr):  # bool mask
            mg = x.snap()
            if not dim_same(x.shape[0], n):
                raise IndexError("boolean index did not match")
            ln, get, rr = nonzero1(x)
            lens.append(ln)
            conds.append(lambda i, mg=mg: boolt(mg(i)))
            if rr is None:
                pos = [int(get(z3.IntVal(q)) if not is_sym(get(z3.IntVal(q))) else 0) for q in range(ln)]

                def crd(i, pos=pos):
                    r = z3.IntVal(0)
                    for q, pp in enumerate(pos):
                        r = z3.If(i == pp, q, r)
                    return z3.simplify(r)

                coords.append(crd)
            else:
                masks.append(rr)
                red.uf(rr[0], "rank", *red.ROLES["rank"])
                coords.append(lambda i, rr=rr: red.app(rr[0], "rank", rr[1], i))
        else:
            t = norm_index(x, n)
            conds.append(lambda i, t=t: core.eq(i, t))
            coords.append(None)
    # broadcast val to lens
    if vnd > len(lens):
        raise ValueError("could not broadcast input array")
    vs = val.shape
    for s, l in zip(vs[::-1], lens[::-1]):
        if not is_sym(s) and s == 1:
            continue
        if not dim_same(s, l):
            raise ValueError("could not broadcast input array from shape")
    vg = bget(val, len(lens))

    def new(*idx):
        c = And(*[cf(i) for cf, i in zip(conds, idx) if cf is not None])
        if lit(c) is False:
            return old(*idx)
        cc = [cr(i) for cr, i in zip(coords, idx) if cr is not None]
        v = cast(vg(*cc), k)
        if masks:
            v = unrank(v, masks, idx)
        return ite(c, v, old(*idx))

    a._g, a._memo = new, {}


def wrap(t, n):
    k = num(t)
    if k is not None:
        return t if k >= 0 else z3.simplify(t + dim_t(n))
    if z3.is_const(t) and str(t).startswith("?"):
        return t
    if ctx().entails(t >= 0):
        return t
    return z3.If(t < 0, t + dim_t(n), t)


def unrank(v, masks, idx):
    """sel(rank(i)) -> i inside a branch guarded by mask(i)"""
    subs = []
    for r, p in masks:
        for i in idx:
            subs.append((red.app(r, "sel", p, red.app(r, "rank", p, i)), i))

    def f(t):
        return z3.substitute(t, *subs) if isinstance(t, z3.ExprRef) else t

    if isinstance(v, SFlt):
        return SFlt(f(v.v), f(v.nan), f(v.pinf), f(v.ninf), None if v.lg is None else f(v.lg))
    if isinstance(v, SInt):
        return mkint(f(v.t))
    if isinstance(v, SBool):
        return mkbool(f(v.t))
    return v


# ---------------------------------------------------------------- reductions
def probe(f, n):
    if is_sym(n):
        return f(z3.Int("?probe9"))
    if n == 0:
        return None
    return f(z3.IntVal(0))


def r_sum(n, f, k):
    nt = dim_t(n)
    if k == "b" or k == "i":
        return mkint(z3.simplify(red.ISUM(nt, lambda i: intt(f(i)))))
    if not is_sym(n):
        t = flt(0)
        for i in range(n):
            t = arith("add", t, f(z3.IntVal(i)))
        t = flt(t)
        return SFlt(t.v, t.nan, t.pinf, t.ninf)
    p = flt(f(z3.Int("?probe9")))
    val = red.SUM(nt, lambda i: (lambda e: Ite(e.fin, e.v, R(0)))(flt(f(i))))
    if lit(p.fin) is True:
        return SFlt(val)
    nan = red.ANY(nt, lambda i: flt(f(i)).nan)
    pi = red.ANY(nt, lambda i: flt(f(i)).pinf)
    ni = red.ANY(nt, lambda i: flt(f(i)).ninf)
    bad = Or(nan, And(pi, ni))
    return SFlt(val, bad, And(Not(bad), pi), And(Not(bad), ni))


def r_all(n, f, k=None):
    return mkbool(red.ALL(dim_t(n), lambda i: boolt(f(i))))


def r_any(n, f, k=None):
    return mkbool(red.ANY(dim_t(n), lambda i: boolt(f(i))))


def r_ext(n, f, k, which):
    nt = dim_t(n)
    if is_sym(n):
        if not ctx().fork(nt >= 1):
            raise ValueError("zero-size array to reduction operation which has no identity")
    elif n == 0:
        raise ValueError("zero-size array to reduction operation which has no identity")
    if not is_sym(n):
        r = f(z3.IntVal(0))
        for i in range(1, n):
            r = (core.fmaximum if which == "max" else core.fminimum)(r, f(z3.IntVal(i)))
        return r
    if k == "b":
        return r_any(n, f) if which == "max" else r_all(n, f)
    if k == "i":
        return mkint(red.MAX(nt, lambda i: intt(f(i)), "i" + which))
    p = flt(f(z3.Int("?probe9")))
    if lit(p.fin) is not True:
        raise Unsupported("max of possibly non finite array")
    return SFlt(red.MAX(nt, lambda i: flt(f(i)).v, which))


def r_mean(n, f, k):
    s = flt(r_sum(n, f, k))
    nn = mkint(dim_t(n)) if is_sym(n) else n
    return arith("truediv", s, nn)


def r_argmin(n, f, k, sign=1):
    nt = dim_t(n)
    if not is_sym(n):
        best, bi = f(z3.IntVal(0)), 0
        for i in range(1, n):
            v = f(z3.IntVal(i))
            c = boolt(cmp("lt", v, best)) if sign == 1 else boolt(cmp("gt", v, best))
            best = ite(c, v, best)
            bi = ite(c, i, bi)
        return bi
    p = flt(f(z3.Int("?probe9")))
    if lit(p.fin) is not True:
        raise Unsupported("argmin of possibly non finite array")
    r, pp = red.make("amin", nt, (lambda i: flt(f(i)).v) if sign == 1 else (lambda i: -flt(f(i)).v))
    return mkint(red.app(r, "amin", pp))


def reduce(fn, a, axis=None, keepdims=False, kk=None):
    a = asarr(a)
    k = kk or a.kind
    g = a.snap()
    if a.ndim == 0:
        return fn(1, lambda i: g(), k)
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            axis = None
        else:
            raise Unsupported("axis tuple")
    if axis is None:
        if a.ndim == 1:
            r = fn(a.shape[0], lambda i: g(i), k)
            if keepdims:
                return SArr((1,), lambda i: r, kind(r))
            return r
        if a.ndim == 2:
            if fn in (r_all, r_any):
                return fn(a.shape[0], lambda i: fn(a.shape[1], lambda j: g(i, j), k), k)
            if fn is r_sum:
                inner = lambda i: r_sum(a.shape[1], lambda j: g(i, j), k)
                return r_sum(a.shape[0], inner, "f" if k == "f" else "i")
            if not is_sym(a.shape[0]) and not is_sym(a.shape[1]):
                n0, n1 = a.shape
                L = [g(z3.IntVal(i), z3.IntVal(j)) for i in range(n0) for j in range(n1)]
                return fn(n0 * n1, lambda i: sel_list(L, i), k)
        raise Unsupported("full reduction")
    ax = axis + a.ndim if axis < 0 else axis
    n = a.shape[ax]
    rest = a.shape[:ax] + a.shape[ax + 1 :]

    def get(*idx):
        return fn(n, lambda i: g(*(list(idx[:ax]) + [i] + list(idx[ax:]))), k)

    if not rest:
        r = get()
        if keepdims:
            return SArr((1,), lambda i: r, kind(r))
        return r
    if keepdims:
        sh = a.shape[:ax] + (1,) + a.shape[ax + 1 :]
        get2 = lambda *idx: get(*(list(idx[:ax]) + list(idx[ax + 1 :])))
    else:
        sh, get2 = rest, get
    if any(not is_sym(s) and s == 0 for s in sh):
        return SArr(sh, get2, "f")
    pr = get2(*[z3.Int("?probe%d" % q) for q in range(len(sh))])
    return SArr(sh, get2, kind(pr))
