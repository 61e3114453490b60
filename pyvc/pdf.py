"""pandas facade: labels are concrete and handled by the real pandas, cell values are symbolic.

Label selection is decided by pandas itself: it is applied to a frame holding cell positions, and the selected
positions say which symbolic cells are meant.  Row labels of tables with a symbolic number of rows are opaque
(SIndex): only positional, whole-column and boolean-mask access is supported there, everything else is Unsupported.
"""
import functools
import pandas as rpd
import z3
from . import core, arr, npf, red
from .core import SBool, SInt, SFlt, Unsupported, is_sym, ctx, mkint, mkbool, flt, norm, boolt, B, intt
from .arr import SArr, SRange, asarr, dim_same, dim_t, cast
from .npf import USED

NAN = float("nan")


def real(what, f, *a, **k):
    """run the real pandas on labels"""
    USED.add("pandas." + what)
    try:
        return f(*a, **k)
    except (KeyError, IndexError) as e:
        raise type(e)(*e.args)
    except Exception as e:
        uns("pandas %s: %s" % (what, str(e)[:80]))


def uns(m):
    c = ctx()
    if c is not None:
        c.unsupported = m
    raise Unsupported(m)


class SIndex:
    """opaque row labels; n of them"""

    def __init__(self, n, rng=False, names=(None,), values=None):
        self.n, self.rng, self.names_, self.vals = n, rng, list(names), values

    def _sym_len(self):
        return self.n

    def __len__(self):
        if is_sym(self.n):
            raise Unsupported("C-level len of symbolic index")
        return self.n

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def names(self):
        return rpd.core.indexes.frozen.FrozenList(self.names_)

    @property
    def name(self):
        return self.names_[0]

    def set_names(self, names, inplace=False):
        nm = [names] if isinstance(names, str) or not hasattr(names, "__iter__") else list(names)
        if inplace:
            self.names_ = nm
            return None
        return SIndex(self.n, self.rng, nm, self.vals)

    def copy(self):
        return SIndex(self.n, self.rng, self.names_, self.vals)

    @property
    def values(self):
        return self._sym_values()

    def _sym_values(self):
        if self.vals is not None:
            return self.vals
        if self.rng:
            return asarr(SRange(0, self.n))
        uns("values of opaque row labels")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        uns("Index." + k)


def same_index(a, b):
    if a is b:
        return True
    if isinstance(a, SIndex) and isinstance(b, SIndex):
        if a.rng and b.rng:
            return dim_same(a.n, b.n)
        uns("alignment of different row labels")
    if isinstance(a, SIndex) or isinstance(b, SIndex):
        uns("alignment of different row labels")
    if not a.equals(b):
        uns("alignment of different row labels")
    return True


def mkindex(index, n=None):
    if index is None:
        return SIndex(n, True)
    if isinstance(index, (SIndex, rpd.Index)):
        return index
    if isinstance(index, (SRange, range)):
        a = asarr(index)
        if isinstance(index, range) and not (index.start == 0 and index.step == 1):
            return SIndex(a.shape[0], False, values=a)
        return SIndex(a.shape[0], True)
    if isinstance(index, SArr):
        return SIndex(index.shape[0], False, values=index)
    if isinstance(index, (list, tuple)) or type(index).__name__ in ("dict_keys", "dict"):
        if any(is_sym(q) for q in index):
            return SIndex(len(index), False, values=asarr(list(index)))
        return real("Index", rpd.Index, list(index))
    if isinstance(index, npf.Mod):
        uns("index")
    uns("index %r" % type(index))


def mkcols(c):
    if isinstance(c, rpd.Index):
        return c
    if isinstance(c, SIndex) or isinstance(c, SArr):
        uns("symbolic column labels")
    return real("Index", rpd.Index, list(c))


def nrows(index):
    return index.n if isinstance(index, SIndex) else len(index)


def fullslice(k):
    return isinstance(k, slice) and k.start is None and k.stop is None and k.step is None


def tokind(dtype):
    if dtype is None:
        return None
    k = arr.kind_of_dtype(dtype)
    return k


def frame_cast(a, k):
    """value stored in a column of kind k"""
    if k == "f" and a.kind == "i":
        return a.astype("f") if False else SArr(a.shape, (lambda g: lambda *i: cast(g(*i), "f"))(a.snap()), "f")
    if a.kind != k:
        uns("assignment changes a column's type")
    return a.copy()


class SFrame:
    """columns: real pandas Index; cols: list of 1-D SArr; mask: rows kept (boolean filter), or None"""

    def __init__(self, cols, columns, index):
        assert len(cols) == len(columns)
        self.__dict__.update(_cols=list(cols), _columns=columns, _index=index)

    # -- labels
    @property
    def columns(self):
        return self._columns

    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, v):
        v = mkindex(v)
        if not dim_same(nrows(v), nrows(self._index)):
            raise ValueError("Length mismatch")
        self.__dict__["_index"] = v

    @columns.setter
    def columns(self, v):
        v = mkcols(v)
        if len(v) != len(self._cols):
            raise ValueError("Length mismatch")
        self.__dict__["_columns"] = v

    def __setattr__(self, k, v):
        if k in ("index", "columns"):
            getattr(type(self), k).fset(self, v)
        else:
            uns("DataFrame attribute assignment")

    def _sym_len(self):
        return nrows(self._index)

    def __len__(self):
        n = nrows(self._index)
        if is_sym(n):
            raise Unsupported("C-level len of symbolic frame")
        return n

    @property
    def shape(self):
        return (nrows(self._index), len(self._cols))

    @property
    def empty(self):
        return len(self._cols) == 0 or nrows(self._index) == 0

    def __contains__(self, k):
        return k in self._columns

    def __iter__(self):
        return iter(self._columns)

    def keys(self):
        return self._columns

    def items(self):
        for j, c in enumerate(self._columns):
            yield c, self._series(j)

    def copy(self, deep=True):
        return SFrame([c.copy() for c in self._cols], self._columns, self._index)

    def _series(self, j):
        return SSeries(self._cols[j], self._index, self._columns[j])

    @property
    def values(self):
        return self._sym_values()

    def to_numpy(self, *a, **k):
        return self._sym_values()

    def _sym_values(self):
        n, k = self.shape
        if k == 0:
            uns("values of a frame without columns")
        if len({c.kind for c in self._cols}) != 1:
            uns("values of mixed frame")
        gs = [c.snap() for c in self._cols]

        def get(i, j):
            if z3.is_int_value(j):
                return gs[j.as_long()](i)
            if isinstance(j, int):
                return gs[j](i)
            r = gs[-1](i)
            for q in range(len(gs) - 2, -1, -1):
                r = core.ite(j == q, gs[q](i), r)
            return r

        a = SArr((n, k), get, self._cols[0].kind)
        a.frozen = True  # may or may not be a view of the frame: writing to it is not decided
        return a

    def _pos(self, key):
        """(positions, columns or None) selected by df[key]"""
        d = rpd.DataFrame([list(range(len(self._cols)))], columns=self._columns)
        r = real("DataFrame.__getitem__", lambda: d[key])
        if isinstance(r, rpd.Series):
            return [int(r.iloc[0])], None
        return [int(q) for q in r.iloc[0]], r.columns

    def _take(self, pos, columns):
        if columns is None:
            return self._series(pos[0])
        return SFrame([self._cols[p] for p in pos], columns, self._index)

    def __getitem__(self, key):
        if isinstance(key, SSeries):
            same_index(key.index, self._index)
            key = key._data
        if isinstance(key, SArr):
            if key.kind != "b" or key.ndim != 1:
                uns("frame indexed by an array")
            return self._mask(key)
        if isinstance(key, SFrame):
            uns("frame mask")
        return self._take(*self._pos(key))

    def _mask(self, key):
        """rows with key true, in order"""
        n = nrows(self._index)
        if not dim_same(key.shape[0], n):
            raise ValueError("Item wrong length")
        if not isinstance(self._index, SIndex):
            uns("mask of labelled rows")
        return Filtered(self, key.copy())

    def __setitem__(self, key, val):
        if isinstance(key, (SSeries, SArr)):
            uns("masked frame assignment")
        if key in self._columns:
            self._set_cols(self._pos(key), val)
            return
        if isinstance(self._columns, rpd.MultiIndex):
            uns("new column of a MultiIndex frame")
        data = self._column_value(val, None)
        self._cols.append(data)
        self.__dict__["_columns"] = real("Index.append", lambda: self._columns.append(rpd.Index([key])))

    def _column_value(self, val, k):
        n = nrows(self._index)
        if isinstance(val, SSeries):
            same_index(val.index, self._index)
            val = val._data
        if arr_scalar(val):
            val = norm(val)
            a = SArr((n,), lambda i: val, core.kind(val))
        else:
            a = asarr(val)
        if a.ndim == 0:
            v0 = a.at()
            a = SArr((n,), lambda i: v0, a.kind)
        if a.ndim == 2 and not is_sym(a.shape[1]) and a.shape[1] == 1:
            uns("2-D column value")
        if a.ndim != 1:
            uns("column value of dimension %d" % a.ndim)
        if not dim_same(a.shape[0], n):
            raise ValueError("Length of values does not match length of index")
        return a.copy() if k is None else frame_cast(a, k)

    def _set_cols(self, sel, val):
        pos, cols = sel
        if len(pos) == 1 and (cols is None or isinstance(val, SArr) and val.ndim == 1 or arr_scalar(val)):
            self._cols[pos[0]] = self._column_value(val, self._cols[pos[0]].kind)
            return
        if isinstance(val, (SFrame, SSeries)):
            uns("aligned assignment")
        if arr_scalar(val):
            for p in pos:
                self._cols[p] = self._column_value(val, self._cols[p].kind)
            return
        a = asarr(val)
        n = nrows(self._index)
        if a.ndim != 2:
            uns("assignment of a %d-d value to several columns" % a.ndim)
        if not (dim_same(a.shape[0], n) and dim_same(a.shape[1], len(pos))):
            raise ValueError("shape mismatch")
        g = a.snap()
        for q, p in enumerate(pos):
            self._cols[p] = frame_cast(SArr((n,), lambda i, q=q: g(i, z3.IntVal(q)), a.kind), self._cols[p].kind)

    @property
    def loc(self):
        return Loc(self)

    @property
    def iloc(self):
        return ILoc(self)

    @property
    def at(self):
        return Loc(self)

    def shift(self, periods=1, **k):
        if k:
            uns("shift options")
        return SFrame([shift1(c, periods) for c in self._cols], self._columns, self._index)

    def reorder_levels(self, order, axis=0):
        if axis not in (1, "columns"):
            uns("reorder_levels of rows")
        return SFrame(self._cols, real("reorder_levels", lambda: self._columns.reorder_levels(order)), self._index)

    def swaplevel(self, i=-2, j=-1, axis=0):
        if axis not in (1, "columns"):
            uns("swaplevel of rows")
        return SFrame(self._cols, real("swaplevel", lambda: self._columns.swaplevel(i, j)), self._index)

    def astype(self, d):
        return SFrame([c.astype(d) for c in self._cols], self._columns, self._index)

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        uns("DataFrame." + k)


def arr_scalar(v):
    return is_sym(v) or isinstance(v, (int, float, bool)) or type(v).__module__ == "numpy" and getattr(v, "ndim", 1) == 0


def shift1(c, periods):
    n = c.shape[0]
    g = c.snap()
    nt, p = dim_t(n), intt(periods)
    k = c.kind
    if k not in ("f", "i"):
        uns("shift of kind " + k)

    def get(i):
        s = z3.simplify(core.I(i) - core.I(p))
        ok = z3.And(s >= 0, s < nt)
        return core.ite(mkbool(z3.simplify(ok)), cast(g(s), "f"), NAN)

    return SArr((n,), get, "f")


class Filtered:
    """rows of a frame where mask holds, in order"""

    def __init__(self, base, mask):
        self.base, self.mask = base, mask
        g = mask.snap()
        self.at = lambda i: g(i)

    def _sym_len(self):
        g = self.mask.snap()
        return npf.np.sum(self.mask)

    @property
    def columns(self):
        return self.base.columns

    @property
    def shape(self):
        return (self._sym_len(), len(self.base._cols))

    def copy(self, deep=True):
        return Filtered(self.base.copy(), self.mask)

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        uns("filtered frame ." + k)


class Loc:
    def __init__(self, f):
        self.f = f

    def _ids(self, key):
        f = self.f
        nr, nc = len(f._index), len(f._cols)
        d = rpd.DataFrame([[r * nc + c for c in range(nc)] for r in range(nr)], index=f._index, columns=f._columns)
        return real("DataFrame.loc", lambda: d.loc[key]), nc

    def __getitem__(self, key):
        f = self.f
        if isinstance(key, tuple) and len(key) == 2 and fullslice(key[0]):
            d = rpd.DataFrame([list(range(len(f._cols)))], columns=f._columns)
            r = real("DataFrame.loc", lambda: d.loc[:, key[1]])
            if isinstance(r, rpd.Series):
                return f._take([int(r.iloc[0])], None)
            return f._take([int(q) for q in r.iloc[0]], r.columns)
        if isinstance(key, (SSeries, SArr)):
            return f[key]
        if isinstance(f._index, SIndex):
            uns("label access to opaque rows")
        r, nc = self._ids(key)
        cell = lambda q: f._cols[int(q) % nc].at(z3.IntVal(int(q) // nc))
        if isinstance(r, rpd.DataFrame):
            if r.shape[1] == 0 or r.shape[0] == 0:
                uns("empty selection")
            return SFrame([arr.from_list([cell(q) for q in r.iloc[:, j]]) for j in range(r.shape[1])], r.columns, r.index)
        if isinstance(r, rpd.Series):
            return SSeries(arr.from_list([cell(q) for q in r]), r.index, r.name)
        return cell(r)

    def __setitem__(self, key, val):
        f = self.f
        if isinstance(key, tuple) and len(key) == 2 and fullslice(key[0]):
            d = rpd.DataFrame([list(range(len(f._cols)))], columns=f._columns)
            try:
                r = d.loc[:, key[1]]
            except Exception:
                uns("assignment to a new column")
            USED.add("pandas.DataFrame.loc")
            if isinstance(r, rpd.Series):
                f._set_cols(([int(r.iloc[0])], None), val)
            else:
                f._set_cols(([int(q) for q in r.iloc[0]], r.columns), val)
            return
        if isinstance(f._index, SIndex):
            uns("label assignment to opaque rows")
        try:
            r, nc = self._ids(key)
        except Exception:
            uns("assignment to new labels")
        if isinstance(r, (rpd.Series,)):
            ids = [int(q) for q in r]
        elif isinstance(r, rpd.DataFrame):
            uns("assignment to a block")
        else:
            ids = [int(r)]
        if isinstance(val, (SFrame, SSeries, rpd.Series, rpd.DataFrame)):
            uns("aligned assignment")
        if arr_scalar(val):
            vals = [val] * len(ids)
        else:
            if isinstance(val, SArr) and val.ndim == 0:
                vals = [val.at()] * len(ids)
            else:
                vals = list(val)
                if len(vals) != len(ids):
                    raise ValueError("Must have equal len keys and value when setting with an iterable")
        for q, x in zip(ids, vals):
            x = norm(x)
            if isinstance(x, SArr):
                if x.ndim:
                    uns("array in a cell")
                x = x.at()
            c, row = q % nc, q // nc
            old = f._cols[c].snap()
            k = f._cols[c].kind
            if k != "f" or core.kind(x) not in ("f", "i"):
                uns("cell type")
            x = cast(x, "f")
            L = [x if r_ == row else old(z3.IntVal(r_)) for r_ in range(len(f._index))]
            f._cols[c] = cellcol(L)


def cellcol(L):
    def get(i):
        if z3.is_int_value(i):
            return L[i.as_long()]
        if isinstance(i, int):
            return L[i]
        return arr.sel_list(L, i)

    return SArr((len(L),), get, "f")


class ILoc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, key):
        f = self.f
        if isinstance(key, tuple) and len(key) == 2 and fullslice(key[0]):
            k = key[1]
            if isinstance(k, int):
                return f._series(k)
            P = list(range(len(f._cols)))[k] if isinstance(k, slice) else list(k)
            return SFrame([f._cols[p] for p in P], f._columns[P], f._index)
        uns("iloc")

    def __setitem__(self, key, val):
        f = self.f
        if isinstance(key, tuple) and len(key) == 2 and fullslice(key[0]) and isinstance(key[1], int):
            f._set_cols(([key[1]], None), val)
            return
        uns("iloc assignment")


# ---------------------------------------------------------------------------
class SSeries:
    __array_priority__ = 3000
    __array_ufunc__ = None

    def __init__(self, data, index, name=None):
        self._data, self.index, self.name = data, index, name

    def _sym_len(self):
        return self._data.shape[0]

    def __len__(self):
        return len(self._data)

    @property
    def values(self):
        return self._data

    def _sym_values(self):
        return self._data

    def to_numpy(self, *a, **k):
        return self._data

    @property
    def dtype(self):
        return self._data.dtype

    @property
    def shape(self):
        return self._data.shape

    @property
    def size(self):
        return self._data.shape[0]

    ndim = 1

    def copy(self, deep=True):
        return SSeries(self._data.copy(), self.index, self.name)

    def astype(self, d):
        return SSeries(self._data.astype(d), self.index, self.name)

    def isnull(self):
        g = self._data.snap()
        return SSeries(SArr(self._data.shape, lambda i: mkbool(flt(g(i)).nan) if self._data.kind == "f" else SBool(z3.BoolVal(False)), "b"), self.index, self.name)

    isna = isnull

    def notnull(self):
        return ~self.isnull()

    def any(self):
        return npf.np.any(self._data)

    def all(self):
        return npf.np.all(self._data)

    def sum(self):
        return npf.np.sum(self._data)

    def mean(self):
        return npf.np.mean(self._data)

    def min(self):
        return npf.np.min(self._data)

    def max(self):
        return npf.np.max(self._data)

    def shift(self, periods=1):
        return SSeries(shift1(self._data, periods), self.index, self.name)

    def unique(self):
        """the distinct values in order of first appearance"""
        USED.add("pandas.Series.unique")
        g = self._data.snap()
        n = dim_t(self._data.shape[0])
        first = SArr(self._data.shape, lambda i: mkbool(z3.simplify(z3.Not(B(red.ANY(core.I(i), lambda j: boolt(core.cmp("eq", g(j), g(i)))))))), "b")
        return self._data[first]

    def isin(self, values):
        USED.add("pandas.Series.isin")
        g = self._data.snap()
        w = asarr(values)
        wg = w.snap()
        m = dim_t(w.shape[0])
        return SSeries(SArr(self._data.shape, lambda i: mkbool(red.ANY(core.I(m), lambda j: boolt(core.cmp("eq", g(i), wg(j))))), "b"), self.index, self.name)

    def _bin(self, o, f):
        if isinstance(o, SSeries):
            same_index(o.index, self.index)
            o = o._data
        elif isinstance(o, (rpd.Series, SFrame)):
            uns("series alignment")
        return SSeries(asarr(f(self._data, o)), self.index, self.name)

    def __getitem__(self, k):
        if isinstance(k, SSeries):
            same_index(k.index, self.index)
            k = k._data
        if isinstance(k, SArr) and k.kind == "b":
            return SSeries(self._data[k], SIndex(self._data[k].shape[0]), self.name)
        if isinstance(self.index, SIndex):
            uns("label access to opaque rows")
        d = rpd.Series(range(len(self.index)), index=self.index)
        r = real("Series.__getitem__", lambda: d[k])
        if isinstance(r, rpd.Series):
            return SSeries(arr.from_list([self._data.at(z3.IntVal(int(q))) for q in r]), r.index, self.name)
        return self._data.at(z3.IntVal(int(r)))

    @property
    def iloc(self):
        return self._data

    def __iter__(self):
        return iter(self._data)

    def __invert__(self):
        return SSeries(~self._data, self.index, self.name)

    def __neg__(self):
        return SSeries(-self._data, self.index, self.name)

    __hash__ = None

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous.")

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        uns("Series." + k)


import operator as _op

for _n in ("add", "sub", "mul", "truediv", "lt", "le", "gt", "ge", "eq", "ne", "and_", "or_", "xor"):
    _f = getattr(_op, _n)
    _d = "__%s__" % _n.rstrip("_")

    def _mk(f):
        return lambda self, o: self._bin(o, f)

    setattr(SSeries, _d, _mk(_f))
    if _n in ("add", "sub", "mul", "truediv", "and_", "or_"):
        setattr(SSeries, "__r%s__" % _n.rstrip("_"), (lambda f: lambda self, o: self._bin(o, lambda a, b: f(b, a)))(_f))


# ---------------------------------------------------------------------------
def DataFrame(data=None, index=None, columns=None, dtype=None, copy=None):
    USED.add("pandas.DataFrame")
    if dtype is object or isinstance(data, rpd.DataFrame) or type(data).__module__ == "numpy" and getattr(data, "dtype", None) == object:
        # cells are opaque objects and all labels are known: the real container
        if isinstance(index, SIndex) or isinstance(data, (SFrame, SArr)):
            uns("object frame with opaque rows")
        return real("DataFrame", rpd.DataFrame, data, index=index, columns=columns, dtype=dtype)
    k = tokind(dtype)
    if isinstance(data, SFrame):
        if index is not None or columns is not None:
            uns("DataFrame of a DataFrame")
        return data.copy()
    if data is None:
        if index is None or columns is None:
            uns("empty DataFrame")
        if k != "f":
            uns("DataFrame without float dtype")
        index, columns = mkindex(index), mkcols(columns)
        n = nrows(index)
        return SFrame([SArr((n,), lambda i: SFlt(z3.RealVal(0), nan=True), "f") for _ in columns], columns, index)
    if isinstance(data, dict):
        if columns is not None:
            uns("DataFrame of dict with columns")
        cs = []
        for q in data.values():
            if isinstance(q, SSeries):
                if index is None:
                    index = q.index
                same_index(q.index, index)
                q = q._data
            cs.append(asarr(q).copy())
        index = mkindex(index, cs[0].shape[0])
        for c in cs:
            if c.ndim != 1 or not dim_same(c.shape[0], nrows(index)):
                raise ValueError("All arrays must be of the same length")
        if k is not None:
            cs = [frame_cast(c, k) for c in cs]
        return SFrame(cs, mkcols(list(data)), index)
    a = asarr(data)
    if a.ndim == 1:
        g1 = a.snap()
        a = SArr((a.shape[0], 1), lambda i, j: g1(i), a.kind)
    if a.ndim != 2:
        uns("DataFrame of %d-d data" % a.ndim)
    index = mkindex(index, a.shape[0])
    if not dim_same(nrows(index), a.shape[0]):
        raise ValueError("Shape of passed values")
    if columns is None:
        if is_sym(a.shape[1]):
            uns("symbolic number of columns")
        columns = rpd.RangeIndex(a.shape[1])
    columns = mkcols(columns)
    if not dim_same(len(columns), a.shape[1]):
        raise ValueError("Shape of passed values")
    g = a.snap()
    n = nrows(index)
    cs = [SArr((n,), lambda i, q=q: g(i, z3.IntVal(q)), a.kind) for q in range(len(columns))]
    if k is not None:
        cs = [frame_cast(c, k) for c in cs]
    return SFrame(cs, columns, index)


def Series(data=None, index=None, dtype=None, name=None, copy=None):
    USED.add("pandas.Series")
    if isinstance(data, rpd.Series):
        return real("Series", rpd.Series, data, index=index, dtype=dtype, name=name, copy=copy)
    if isinstance(data, SIndex):
        if index is None:
            index = data
        data = data._sym_values()
    if isinstance(data, SSeries):
        if index is not None:
            same_index(data.index, index)
        return SSeries(data._data.copy(), data.index, name or data.name)
    if arr_scalar(data):
        if index is None:
            uns("Series of a scalar")
        index = mkindex(index)
        v0 = norm(data)
        if isinstance(v0, bool):
            v0 = SBool(z3.BoolVal(v0))
        a = SArr((nrows(index),), lambda i: v0, core.kind(v0))
    else:
        a = asarr(data).copy()
        index = mkindex(index, a.shape[0])
        if not dim_same(nrows(index), a.shape[0]):
            raise ValueError("Length of values does not match length of index")
    k = tokind(dtype)
    return SSeries(a if k is None else a.astype(dtype), index, name)


def concat(objs, axis=0, keys=None, names=None, **k):
    USED.add("pandas.concat")
    if axis not in (1, "columns"):
        uns("concat of rows")
    if any(q not in ("sort", "copy") for q in k):
        uns("concat options")
    if isinstance(objs, dict):
        if keys is None:
            keys = list(objs)
        L = [objs[q] for q in keys]
    else:
        L = list(objs)
    if not all(isinstance(f, SFrame) for f in L):
        uns("concat of series")
    ds, cols, off = [], [], 0
    for f in L:
        same_index(f._index, L[0]._index)
        ds.append(rpd.DataFrame([list(range(off, off + len(f._cols)))], columns=f._columns))
        cols += f._cols
        off += len(f._cols)
    kw = {}
    if keys is not None:
        kw["keys"] = list(keys)
    if names is not None:
        kw["names"] = names
    r = real("concat", lambda: rpd.concat(ds, axis=1, **kw))
    return SFrame([cols[int(q)].copy() for q in r.iloc[0]], r.columns, L[0]._index)


def isnull(x):
    if isinstance(x, (SSeries, SFrame)):
        return x.isnull()
    return npf.np.isnan(x)


def unique(x):
    return SSeries(asarr(x), None).unique()


class _Cls(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)


def _mkcls(name, fn, cls):
    return _Cls(name, (), {"real": cls, "__new__": staticmethod(lambda c, *a, **k: fn(*a, **k))})


class Memory:
    """joblib.Memory: caching of a function of its arguments (assumed transparent)"""

    def __init__(self, location=None, **k):
        USED.add("joblib.Memory")

    def cache(self, f=None, **k):
        return f if f is not None else (lambda g: g)


def install(F):
    m = npf.Mod("pd")
    d = m.__dict__
    d.update(
        MultiIndex=rpd.MultiIndex, Index=rpd.Index, RangeIndex=rpd.RangeIndex, concat=concat, isnull=isnull, isna=isnull, unique=unique,
        DataFrame=_mkcls("DataFrame", DataFrame, (SFrame, rpd.DataFrame)), Series=_mkcls("Series", Series, (SSeries, rpd.Series)),
    )
    d["__version__"] = rpd.__version__
    F["pandas"] = m
    j = npf.Mod("joblib")
    j.__dict__["Memory"] = Memory
    F["joblib"] = j
