"""Reductions over symbolic index ranges and their (quantifier free) lemma instances.

A reduction  op_{0<=i<n} body(i)  becomes an application of an uninterpreted
function named by (op, n, body) with the free constants of (n, body) as
arguments, so equal reductions are equal by congruence.  Meaning is given to the
solver by instances of valid lemmas (definition with Skolem witness,
monotonicity / linearity / re-indexing of sums, order statistics, ...).
"""
from fractions import Fraction
import itertools
import z3
from . import core
from .core import And, Or, Not, Implies, Iff, Ite, B, R, I, num, lit, SQRT, EXP, LOG, PI

REDS = {}  # uf name -> Red
BYKEY = {}
_depth = [0]
_sk = {}
_keepalive = []


class Red:
    pass


def bvar():
    return z3.Int("?v%d" % _depth[0])


_fc_cache = {}


def free_consts(t):
    k = t.get_id()
    if k in _fc_cache:
        return _fc_cache[k]
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        else:
            stack.extend(reversed(x.children()))
    _fc_cache[k] = out
    _keepalive.append(t)
    return out


def occurs(v, t):
    return any(v.eq(c) for c in free_consts(t))


def simp(t):
    return z3.simplify(t)


def canon(body):
    """polynomial normal form, so that algebraically equal summands give the same application"""
    try:
        p = to_poly(body)
    except TooBig:
        return body
    return simp(poly_term(p)) if len(p) <= 16 else body


def make(kind, n, body_fn, extra=(), out=None):
    """Return python function (*extra_idx) -> z3 app."""
    _depth[0] += 1
    try:
        v = bvar()
        body = body_fn(v)
        if isinstance(body, bool):
            body = z3.BoolVal(body)
        body = simp(body)
        if kind == "sum":
            body = canon(body)
    finally:
        _depth[0] -= 1
    n = simp(I(n))
    return make_t(kind, n, v, body, out)


_comm = {z3.Z3_OP_OR, z3.Z3_OP_AND, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ}
_ordered = {}


def ordered(t):
    """commutative arguments in a fixed order (z3.simplify orders them by internal ids)"""
    k = t.get_id()
    if k in _ordered:
        return _ordered[k][1]
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [ordered(c) for c in t.children()]
        kd = t.decl().kind()
        if kd in _comm:
            ch = sorted(ch, key=lambda c: c.sexpr())
            if kd == z3.Z3_OP_OR:
                r = z3.Or(*ch)
            elif kd == z3.Z3_OP_AND:
                r = z3.And(*ch)
            elif kd == z3.Z3_OP_ADD:
                r = ch[0]
                r = z3.Sum(ch)
            elif kd == z3.Z3_OP_MUL:
                r = z3.Product(ch)
            else:
                r = ch[0] == ch[1]
        elif any(not a.eq(b) for a, b in zip(ch, t.children())):
            r = t.decl()(*ch)
    _ordered[k] = (t, r)
    _ordered.setdefault(r.get_id(), (r, r))
    return r


def make_t(kind, n, v, body, out=None):
    # canonical bound variable independent of depth
    cv = z3.Int("?b")
    body_c = ordered(z3.substitute(body, (v, cv)))
    params = []
    for c in free_consts(n) + free_consts(body_c):
        if not c.eq(cv) and not any(c.eq(p) for p in params) and not c.eq(PI):
            params.append(c)
    tp = []
    for k, p in enumerate(params):
        tp.append(z3.Const("?p%d_%s" % (k, p.sort().name()), p.sort()))
    sub = list(zip(params, tp))
    n_t = z3.substitute(n, *sub) if sub else n
    b_t = ordered(z3.substitute(body_c, *sub) if sub else body_c)
    key = (kind, n_t.sexpr(), b_t.sexpr())
    if key not in BYKEY:
        r = Red()
        r.kind, r.n, r.body, r.params, r.v = kind, n_t, b_t, tp, cv
        r.id = len(BYKEY)
        r.ufs = {}
        BYKEY[key] = r
    r = BYKEY[key]
    return r, params


def uf(r, role, extra_sorts, out_sort):
    if role not in r.ufs:
        name = "%s#%d" % (role, r.id)
        if not r.params and not extra_sorts:
            f = z3.Const(name, out_sort)
            d = f.decl()
        else:
            d = z3.Function(name, *([p.sort() for p in r.params] + list(extra_sorts) + [out_sort]))
        r.ufs[role] = d
        REDS[name] = (r, role)
    return r.ufs[role]


IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
ROLES = {
    "sum": ((), RS), "isum": ((), IS), "all": ((), BS), "max": ((), RS), "min": ((), RS),
    "imax": ((), IS), "imin": ((), IS),
    "amin": ((), IS), "perm": ((IS,), IS), "pinv": ((IS,), IS), "sel": ((IS,), IS), "rank": ((IS,), IS),
    "cnt": ((), IS), "uval": ((IS,), RS), "uidx": ((IS,), IS), "urank": ((IS,), IS), "ucnt": ((), IS),
    "ssr": ((RS,), IS), "ssl": ((RS,), IS), "cummax": ((IS,), RS),
}


def app(r, role, params, *extra):
    es, os_ = ROLES[role]
    return uf(r, role, es, os_)(*(list(params) + list(extra)))


# ---- public constructors ---------------------------------------------------
def small(n):
    k = num(I(n))
    return int(k) if k is not None and k <= 12 else None


def SUM(n, f):
    """f: z3 Int -> z3 Real"""
    k = small(n)
    if k is not None:
        t = R(0)
        for i in range(k):
            t = core.radd(t, f(I(i)))
        return t
    r, p = make("sum", n, f)
    return app(r, "sum", p)


def ISUM(n, f):
    k = small(n)
    if k is not None:
        t = z3.IntVal(0)
        for i in range(k):
            t = t + f(I(i))
        return simp(t)
    r, p = make("isum", n, f)
    return app(r, "isum", p)


def ALL(n, f):
    """f: z3 Int -> bool/z3 Bool"""
    k = small(n)
    if k is not None:
        return And(*[f(I(i)) for i in range(k)])
    r, p = make("all", n, f)
    b = lit(r.body)
    if b is True:
        return True
    if b is False:
        return core.le(simp(I(n)), I(0))
    return app(r, "all", p)


def ANY(n, f):
    return Not(ALL(n, lambda i: Not(f(i))))


def MAX(n, f, role="max"):
    k = small(n)
    if k is not None:
        t = f(I(0))
        for i in range(1, k):
            u = f(I(i))
            t = z3.If(u > t, u, t) if role in ("max", "imax") else z3.If(u < t, u, t)
        return simp(t)
    r, p = make(role, n, f)
    return app(r, role, p)


def MIN(n, f, role="min"):
    return MAX(n, f, role)


# ---- polynomial normal form -------------------------------------------------
class Poly(dict):
    pass


_atoms = {}


def _atom(t):
    _atoms[t.get_id()] = t
    return t.get_id()


IND = {}  # id of indicator term -> cond


def ind_term(c):
    t = z3.If(c, R(1), R(0))
    _keepalive.append(t)
    IND[t.get_id()] = c
    return t


def padd(a, b, s=1):
    out = Poly(a)
    for m, c in b.items():
        v = out.get(m, 0) + s * c
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    return out


class TooBig(Exception):
    pass


def mmul(m1, m2):
    d = dict(m1)
    for a, p in m2:
        d[a] = d.get(a, 0) + p
        if a in IND and d[a] > 1:
            d[a] = 1
    # cancel t * inv(t)
    return tuple(sorted((a, p) for a, p in d.items() if p != 0))


def pmul(a, b):
    if len(a) * len(b) > 400:
        raise TooBig()
    out = Poly()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = out.get(m, 0) + c1 * c2
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
    return out


def pconst(c):
    return Poly({(): Fraction(c)}) if c != 0 else Poly()


def patom(t):
    _keepalive.append(t)
    return Poly({((_atom(t), 1),): Fraction(1)})


_poly_cache = {}


def to_poly(t):
    k = t.get_id()
    if k in _poly_cache:
        return _poly_cache[k]
    p = _to_poly(t)
    _keepalive.append(t)
    _poly_cache[k] = p
    return p


def cond_poly(c):
    """indicator polynomial of a boolean term"""
    l = lit(c)
    if l is not None:
        return pconst(1 if l else 0)
    if z3.is_not(c):
        return padd(pconst(1), cond_poly(c.arg(0)), -1)
    if z3.is_and(c):
        p = pconst(1)
        for x in c.children():
            p = pmul(p, cond_poly(x))
        return p
    if z3.is_or(c):
        p = pconst(1)
        for x in c.children():
            p = pmul(p, padd(pconst(1), cond_poly(x), -1))
        return padd(pconst(1), p, -1)
    # canonical comparisons: a >= b stored as given (z3.simplify normalises)
    return patom(ind_term(c))


def _to_poly(t):
    n = num(t)
    if n is not None:
        return pconst(n)
    if z3.is_app(t):
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            p = Poly()
            for x in ch:
                p = padd(p, to_poly(x))
            return p
        if d == z3.Z3_OP_SUB:
            p = to_poly(ch[0])
            for x in ch[1:]:
                p = padd(p, to_poly(x), -1)
            return p
        if d == z3.Z3_OP_UMINUS:
            return padd(Poly(), to_poly(ch[0]), -1)
        if d == z3.Z3_OP_MUL:
            p = to_poly(ch[0])
            for x in ch[1:]:
                p = pmul(p, to_poly(x))
            return p
        if d == z3.Z3_OP_POWER:
            e = num(ch[1])
            if e is not None and e.denominator == 1 and 0 <= e <= 4:
                p = pconst(1)
                for _ in range(int(e)):
                    p = pmul(p, to_poly(ch[0]))
                return p
        if d == z3.Z3_OP_DIV:
            return pmul(to_poly(ch[0]), patom(R(1) / ch[1]))
        if d == z3.Z3_OP_TO_REAL:
            x = ch[0]
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_ITE) or num(x) is not None:
                return to_poly(int_to_real(x))
            return patom(t)
        if d == z3.Z3_OP_ITE:
            try:
                c = cond_poly(ch[0])
                a, b = to_poly(ch[1]), to_poly(ch[2])
                return padd(b, pmul(c, padd(a, b, -1)))
            except TooBig:
                return patom(t)
    return patom(t)


def int_to_real(x):
    n = num(x)
    if n is not None:
        return R(n)
    k = x.decl().kind()
    ch = x.children()
    if k == z3.Z3_OP_ADD:
        t = int_to_real(ch[0])
        for y in ch[1:]:
            t = t + int_to_real(y)
        return t
    if k == z3.Z3_OP_SUB:
        t = int_to_real(ch[0])
        for y in ch[1:]:
            t = t - int_to_real(y)
        return t
    if k == z3.Z3_OP_UMINUS:
        return -int_to_real(ch[0])
    if k == z3.Z3_OP_MUL:
        t = int_to_real(ch[0])
        for y in ch[1:]:
            t = t * int_to_real(y)
        return t
    if k == z3.Z3_OP_ITE:
        return z3.If(ch[0], int_to_real(ch[1]), int_to_real(ch[2]))
    return z3.ToReal(x)


def mono_term(m, coef=1):
    t = R(coef)
    fs, cs = [], []
    for a, p in m:
        if a in IND and p > 0:
            cs.append(IND[a])
            continue
        x = _atoms[a]
        for _ in range(abs(p)):
            fs.append(x if p > 0 else R(1) / x)
    for f in fs:
        t = core.rmul(t, f)
    if cs:
        t = z3.If(And(*cs), t, R(0))
    return t


def poly_term(p):
    t = R(0)
    for m in sorted(p):
        t = core.radd(t, mono_term(m, p[m]))
    return t


def replace_app(t, decl, last, repl):
    """replace decl(..., last) by repl"""
    hits = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(decl) and x.arg(x.num_args() - 1).eq(last):
            hits.append(x)
        stack.extend(x.children())
    return hits


def find_red_apps(t, roles, v):
    """apps of given roles whose last arg is v"""
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() > 0:
            nm = x.decl().name()
            if nm in REDS and REDS[nm][1] in roles and x.arg(x.num_args() - 1).eq(v):
                out.append(x)
            stack.extend(x.children())
    return out


def inst(r, params, idx=None):
    sub = list(zip(r.params, params))
    n = z3.substitute(r.n, *sub) if sub else r.n
    if idx is None:
        return n, None
    b = z3.substitute(r.body, *(sub + [(r.v, idx)]))
    return n, b


def reindex(n, v, body):
    """try to put sum_{0<=v<n} body in a canonical re-indexed form; returns (n, v, body)"""
    for _ in range(4):
        # reversal
        rev = simp(n - 1 - v)
        w = z3.Int("?r")
        b2 = simp(z3.substitute(body, (v, simp(n - 1 - w))))
        # heuristic: reverse if that removes non-plain occurrences of v in perm apps
        apps = find_red_apps(body, ("perm",), v)
        apps_r = find_red_apps(b2, ("perm",), w)
        if not apps and apps_r:
            body = simp(z3.substitute(b2, (w, v)))
            continue
        if apps:
            a = apps[0]
            r, role = REDS[a.decl().name()]
            params = a.children()[:-1]
            n_r, _ = inst(r, params)
            if not simp(n_r).eq(simp(n)):
                return n, v, body
            uf(r, "pinv", *ROLES["pinv"])
            pinv = app(r, "pinv", params, w)
            marker = z3.Int("?m")
            body = z3.substitute(body, (a, marker))
            body = z3.substitute(body, (v, pinv))
            body = z3.substitute(body, (marker, w))
            body = simp(z3.substitute(body, (w, v)))
            continue
        apps = find_red_apps(body, ("sel",), v)
        if apps:
            a = apps[0]
            r, role = REDS[a.decl().name()]
            params = a.children()[:-1]
            n_r, mask = inst(r, params, w)
            if not simp(n).eq(simp(app(r, "cnt", params))):
                return n, v, body
            marker = z3.Int("?m")
            body = z3.substitute(body, (a, marker))
            if occurs(v, body):
                uf(r, "rank", *ROLES["rank"])
                body = z3.substitute(body, (v, app(r, "rank", params, w)))
            body = z3.substitute(body, (marker, w))
            body = z3.If(mask, body, R(0))
            body = z3.substitute(body, (w, v))
            n = n_r
            continue
        return n, v, body
    return n, v, body


def sum_normal(n, v, body):
    """z3 term equal to sum_{0<=v<n} body, written with canonical monomial sums"""
    n, v, body = reindex(n, v, body)
    try:
        p = to_poly(body)
    except TooBig:
        return None
    groups = {}
    for m, c in p.items():
        dep, ind = [], []
        for a, e in m:
            (dep if occurs(v, _atoms[a]) else ind).append((a, e))
        groups.setdefault(tuple(dep), []).append((tuple(ind), c))
    out = R(0)
    npos = z3.If(n >= 0, z3.ToReal(n), R(0)) if num(n) is None else R(max(num(n), 0))
    for dep, coefs in groups.items():
        cf = R(0)
        for ind, c in coefs:
            cf = core.radd(cf, mono_term(ind, c))
        if not dep:
            out = core.radd(out, core.rmul(cf, npos))
            continue
        # delta
        done = False
        for a, e in dep:
            if a in IND:
                c = IND[a]
                if z3.is_eq(c):
                    l, r_ = c.arg(0), c.arg(1)
                    t = None
                    if l.eq(v) and not occurs(v, r_):
                        t = r_
                    elif r_.eq(v) and not occurs(v, l):
                        t = l
                    elif l.sort().kind() == z3.Z3_INT_SORT:
                        t = solve_lin(v, l - r_)
                    if t is not None:
                        rest = tuple((x, y) for x, y in dep if x != a)
                        b = mono_term(rest)
                        b = simp(z3.substitute(b, (v, t)))
                        out = core.radd(out, core.rmul(cf, z3.If(z3.And(t >= 0, t < n), b, R(0))))
                        done = True
                        break
        if done:
            continue
        b = simp(mono_term(dep))
        n2, v2, b2 = reindex(n, v, b)
        rr, pp = make_t("sum", simp(n2), v2, b2)
        out = core.radd(out, core.rmul(cf, app(rr, "sum", pp)))
    return out


def solve_lin(v, t):
    """t == 0 solved for v when t is +-v + rest (Int)"""
    p = lin(t)
    if p is None:
        return None
    coefs, c0 = p
    cv = coefs.pop(v.get_id(), (None, 0))[1]
    if cv not in (1, -1):
        return None
    out = I(-c0 * cv)
    for x, c in coefs.values():
        if occurs(v, x):
            return None
        out = out + I(-c * cv) * x
    return simp(out)


def lin(t):
    """linear form of Int term: ({id: (atom, coef)}, const)"""
    n = num(t)
    if n is not None:
        return {}, int(n)
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        acc, c0 = {}, 0
        for j, x in enumerate(ch):
            s = -1 if (k == z3.Z3_OP_SUB and j > 0) else 1
            q = lin(x)
            if q is None:
                return None
            for a, (y, c) in q[0].items():
                o = acc.get(a, (y, 0))[1] + s * c
                if o == 0:
                    acc.pop(a, None)
                else:
                    acc[a] = (y, o)
            c0 += s * q[1]
        return acc, c0
    if k == z3.Z3_OP_UMINUS:
        q = lin(ch[0])
        return {a: (y, -c) for a, (y, c) in q[0].items()}, -q[1]
    if k == z3.Z3_OP_MUL and len(ch) == 2:
        for a, b in ((0, 1), (1, 0)):
            n = num(ch[a])
            if n is not None:
                q = lin(ch[b])
                return {x: (y, c * int(n)) for x, (y, c) in q[0].items()}, q[1] * int(n)
    return {t.get_id(): (t, 1)}, 0


# ---- facts attached by facades: name -> (vars, fn) --------------------------
_ts = {}


def tsize(t):
    """simple terms are instantiated first"""
    k = t.get_id()
    if k not in _ts:
        _ts[k] = (t, 1 + sum(tsize(c) for c in t.children()))
    return _ts[k][1]


class Quant:
    def __init__(self, vs, body, trig=None, tag=None):
        self.vs, self.body, self.tag = vs, body, tag
        self.trig = trig
        self.done = set()
        self._pats = None
        self._eqs = None
        self.simple = False  # only for plain constants

    def eqs(self):
        """values the body compares a bound variable with"""
        if self._eqs is None:
            self._eqs = {v.get_id(): {} for v in self.vs}
            seen, stack = set(), [self.body]
            while stack:
                x = stack.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if x.decl().kind() == z3.Z3_OP_EQ and x.arg(0).sort().kind() == z3.Z3_INT_SORT:
                    for v in self.vs:
                        if occurs(v, x):
                            t = solve_lin(v, x.arg(0) - x.arg(1))
                            if t is not None and not any(occurs(u, t) for u in self.vs):
                                self._eqs[v.get_id()][t.get_id()] = t
                stack.extend(x.children())
        return self._eqs

    def patterns(self):
        if self._pats is None:
            self._pats = {v.get_id(): [] for v in self.vs}
            seen = set()
            stack = [self.body]
            while stack:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.num_args() > 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        for pos, a in enumerate(x.children()):
                            if a.sort().kind() == z3.Z3_INT_SORT:
                                for v in self.vs:
                                    if occurs(v, a):
                                        q = lin(a)
                                        if q and v.get_id() in q[0] and abs(q[0][v.get_id()][1]) == 1 and not any(
                                            occurs(u, y) for u in self.vs for y, _ in q[0].values() if not u.eq(v) or not y.eq(v)
                                        ):
                                            if self.trig is None or x.decl().name() in self.trig:
                                                self._pats[v.get_id()].append((x.decl().name(), pos, a))
                    stack.extend(x.children())
        return self._pats


def collect_apps(fs, seen, out):
    stack = list(fs)
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.num_args() > 0 or x.decl().name() in REDS:
                    out.append(x)
            stack.extend(x.children())


EXTRA_AXIOMS = []  # functions(apps_by_name) -> list of z3 facts
ARRAY_FACTS = {}  # uf name -> function(*args)->z3 Bool : fact for every ground application
core.FACTS_N[0] = lambda: sum(len(x) for x in FORALL.values()) * 1000 + len(ARRAY_FACTS)
FORALL = {}  # uf name (0-ary or group) -> list of Quant builders


def skolem(tag, *ids):
    k = (tag,) + ids
    if k not in _sk:
        _sk[k] = z3.Int("sk!%s!%d" % (tag, len(_sk)))
    return _sk[k]


BOUNDS = []  # scalar terms c for which  sum <= n*c or some element > c  is instantiated
MAXINST = [2500]


def add_forall(vs, body, on=()):
    """assume body for all values of vs (path local); triggered by every application that has a variable as argument"""
    q = Quant(vs, body)
    pt = q.patterns()
    for nm in on:
        pt[vs[0].get_id()].append((nm, 0, vs[0]))
    names = set()
    for pl in q.patterns().values():
        names.update(nm for nm, _, _ in pl)
    for nm in names:
        FORALL.setdefault(nm, []).append(q)


SKIP = {"d": "dom", "s": "selc"}


def lemmas(fs, rounds=None):
    # rounds: number of instantiation rounds, optionally followed by families of facts to leave out ("3ds")
    skip = set()
    if isinstance(rounds, str):
        skip = {SKIP[c] for c in rounds[1:]}
        rounds = int(rounds[0])
    rounds = 3 if rounds is None else rounds
    seen = set()
    facts = []
    quants = []
    groups = set()
    processed = set()
    sums = {}
    pairs_done = set()
    ground = {}  # decl name -> list of arg tuples
    newf = list(fs)
    lf_done = set()
    fdone = set()
    total = 0
    for rnd in range(rounds + 1):
        apps = []
        collect_apps(newf, seen, apps)
        if not apps and rnd > 0:
            break
        newf = []
        for a in apps:
            nm = a.decl().name()
            ground.setdefault(nm, []).append(a)
            if nm in FORALL and nm not in processed:
                processed.add(nm)
                for q in FORALL[nm]:
                    if id(q) not in fdone:
                        fdone.add(id(q))
                        qq = Quant(q.vs, q.body, q.trig)
                        qq._pats = q.patterns()
                        quants.append(qq)
            if nm in ARRAY_FACTS:
                f = ARRAY_FACTS[nm](*a.children())
                if lit(f) is not True:
                    newf.append(B(f))
            if nm in REDS:
                r, role = REDS[nm]
                ex = len(ROLES[role][0])
                ch = a.children()
                params = ch[: len(ch) - ex] if ex else ch
                if role in ("sum", "isum"):
                    sums[a.get_id()] = (a, r, params)
                gk = (r.id, role if role in ("sum", "isum", "all", "max", "min", "imax", "imin", "amin") else r.kind) + tuple(p.get_id() for p in params)
                if gk not in groups:
                    groups.add(gk)
                    nf, nq = group_facts(r, role, params, a)
                    newf.extend(nf)
                    quants.extend(nq)
                if role in ("ssr", "ssl"):
                    nf, nq = ss_facts(r, role, params, a)
                    newf.extend(nf)
                    quants.extend(nq)
                if role == "cummax":
                    nf, nq = cummax_facts(r, params, a)
                    newf.extend(nf)
                    quants.extend(nq)
        # analytic functions
        newf.extend(analytic(ground, lf_done))
        for fn in EXTRA_AXIOMS:
            newf.extend(fn(ground, lf_done))
        # sum pair lemmas
        if rnd <= 1:
            sl = list(sums.values())
            cnt = 0
            for (a, r1, p1), (b, r2, p2) in itertools.combinations(sl, 2):
                pk = (a.get_id(), b.get_id())
                if pk in pairs_done or a.sort() != b.sort():
                    continue
                n1, _ = inst(r1, p1)
                n2, _ = inst(r2, p2)
                if not simp(n1).eq(simp(n2)):
                    continue
                pairs_done.add(pk)
                cnt += 1
                if cnt > 40:
                    break
                for x, y, rx, px, ry, py in ((a, b, r1, p1, r2, p2), (b, a, r2, p2, r1, p1)):
                    s = skolem("mono", x.get_id(), y.get_id())
                    _, bx = inst(rx, px, s)
                    _, by = inst(ry, py, s)
                    newf.append(z3.Or(x <= y, z3.And(s >= 0, s < n1, bx > by)))
        # quantifier instantiation
        for q in quants:
            if q.tag in skip:
                continue
            pats = q.patterns()
            cands = []
            for v in q.vs:
                vals = dict(q.eqs()[v.get_id()]) if q.trig is None else {}
                for (nm, pos, pat) in pats[v.get_id()]:
                    for g in ground.get(nm, ()):
                        t = g.arg(pos)
                        sol = solve_lin(v, pat - t)
                        if sol is not None:
                            vals[sol.get_id()] = sol
                if q.simple:
                    vals = {k_: t for k_, t in vals.items() if tsize(t) == 1 and num(t) is None}
                cands.append(sorted(vals.values(), key=tsize)[:40])
            combos = itertools.product(*cands)
            for cb in itertools.islice(combos, 900):
                key = tuple(c.get_id() for c in cb)
                if key in q.done:
                    continue
                q.done.add(key)
                f = z3.substitute(q.body, *zip(q.vs, cb))
                _keepalive.append(cb)
                newf.append(f)
                total += 1
                if total > MAXINST[0]:
                    break
            if total > MAXINST[0]:
                break
        newf = [f for f in newf if lit(f) is not True]
        facts.extend(newf)
    return facts


def group_facts(r, role, params, a):
    nf, nq = [], []
    k = r.kind
    v = z3.Int("?q0")
    w = z3.Int("?q1")
    n, bv = inst(r, params, v)
    inr = z3.And(v >= 0, v < n)
    gid = a.get_id()

    def at(i):
        return inst(r, params, i)[1]

    if role in ("sum", "isum"):
        z = R(0) if role == "sum" else I(0)
        s1, s2 = skolem("neg", gid), skolem("pos", gid)
        nf.append(z3.Or(a >= z, z3.And(s1 >= 0, s1 < n, at(s1) < z)))
        nf.append(z3.Or(a <= z, z3.And(s2 >= 0, s2 < n, at(s2) > z)))
        nf.append(z3.Implies(n <= 0, a == z))
        # single element dominance: all nonneg -> each element <= sum
        q = z3.Implies(inr, z3.Or(bv <= a, z3.And(s1 >= 0, s1 < n, at(s1) < z)))
        nq.append(Quant([v], q, tag="dom"))
        t = sum_normal(n, v, bv if role == "sum" else int_to_real(bv))
        if t is not None:
            t = t if role == "sum" else t
            lhs = a if role == "sum" else z3.ToReal(a)
            e = simp(lhs == t)
            if lit(e) is not True:
                nf.append(e)
        # constant bound lemmas  sum <= n * c for const bodies handled by mono with constants:
        for cst in (1,):
            s3 = skolem("gt%d" % cst, gid)
            c_ = R(cst) if role == "sum" else I(cst)
            nn = z3.ToReal(n) if role == "sum" else n
            nf.append(z3.Or(n < 0, a <= nn * c_, z3.And(s3 >= 0, s3 < n, at(s3) > c_)))
        nf.extend(pivot_counts(a, role, n, v, bv, at))
        if role == "sum":
            for ci, c_ in enumerate(BOUNDS):
                s4, s5 = skolem("bu%d" % ci, gid, c_.get_id()), skolem("bl%d" % ci, gid, c_.get_id())
                nf.append(z3.Or(n < 0, a <= z3.ToReal(n) * c_, z3.And(s4 >= 0, s4 < n, at(s4) > c_)))
                nf.append(z3.Or(n < 0, a >= z3.ToReal(n) * c_, z3.And(s5 >= 0, s5 < n, at(s5) < c_)))
    elif role == "all":
        s = skolem("all", gid)
        nf.append(z3.Or(a, z3.And(s >= 0, s < n, z3.Not(at(s)))))
        nq.append(Quant([v], z3.Implies(z3.And(a, inr), bv)))
        if not occurs(v, bv):
            nf.append(a == z3.Or(n <= 0, bv))
    elif role in ("max", "min", "imax", "imin"):
        s = skolem(role, gid)
        nf.append(z3.Or(n <= 0, z3.And(s >= 0, s < n, a == at(s))))
        nq.append(Quant([v], z3.Implies(inr, bv <= a if role in ("max", "imax") else bv >= a)))
    elif role == "amin":
        nf.append(z3.Or(n <= 0, z3.And(a >= 0, a < n)))
        ba = at(a)
        nq.append(Quant([v], z3.Implies(inr, z3.And(ba <= bv, z3.Implies(v < a, ba < bv)))))
    elif k in ("perm", "permu"):
        perm = lambda i: app(r, "perm", params, i)
        pinv = lambda i: app(r, "pinv", params, i)
        trig = {perm(v).decl().name(), pinv(v).decl().name()}
        nq.append(Quant([v], z3.Implies(inr, z3.And(perm(v) >= 0, perm(v) < n, pinv(perm(v)) == v)), {perm(v).decl().name()}))
        nq.append(Quant([v], z3.Implies(inr, z3.And(pinv(v) >= 0, pinv(v) < n, perm(pinv(v)) == v)), {pinv(v).decl().name()}))
        qs = Quant([v], z3.Implies(inr, z3.And(pinv(v) >= 0, pinv(v) < n, perm(pinv(v)) == v)), None)
        qs._pats = {v.get_id(): Quant([v], B(bv == bv)).patterns()[v.get_id()]}
        qs.simple = True
        nq.append(qs)
        bw = at(perm(w))
        nq.append(
            Quant(
                [v, w],
                z3.Implies(
                    z3.And(inr, w >= 0, w < n, v < w),
                    z3.And(at(perm(v)) <= bw, z3.Implies(at(perm(v)) == bw, perm(v) < perm(w)))
                    if k == "perm" else at(perm(v)) <= bw,
                ),
                {perm(v).decl().name()},
            )
        )
    elif k == "sel":
        sel = lambda i: app(r, "sel", params, i)
        rank = lambda i: app(r, "rank", params, i)
        cnt = app(r, "cnt", params)
        nf.append(z3.And(cnt >= 0, z3.Or(n < 0, cnt <= n)))
        cs = ISUM(n, lambda i: z3.If(inst(r, params, i)[1], I(1), I(0)))
        nf.append(cnt == cs)
        ik = z3.And(v >= 0, v < cnt)
        nq.append(
            Quant([v], z3.Implies(ik, z3.And(sel(v) >= 0, sel(v) < n, at(sel(v)), rank(sel(v)) == v)), {sel(v).decl().name()})
        )
        names = {rank(v).decl().name()}
        for x in collect_names(bv, v):
            names.add(x)
        nq.append(
            Quant([v], z3.Implies(z3.And(inr, bv), z3.And(rank(v) >= 0, rank(v) < cnt, sel(rank(v)) == v)), names, tag="selc")
        )
        nq.append(
            Quant([v, w], z3.Implies(z3.And(ik, w < cnt, v < w), sel(v) < sel(w)), {sel(v).decl().name()})
        )
    elif k == "uniq":
        uval = lambda i: app(r, "uval", params, i)
        uidx = lambda i: app(r, "uidx", params, i)
        urank = lambda i: app(r, "urank", params, i)
        cnt = app(r, "ucnt", params)
        nf.append(z3.And(cnt >= 0, z3.Or(n < 0, cnt <= n), z3.Implies(n >= 1, cnt >= 1)))
        ik = z3.And(v >= 0, v < cnt)
        nu = {uval(v).decl().name()}
        nq.append(
            Quant([v], z3.Implies(ik, z3.And(uidx(v) >= 0, uidx(v) < n, at(uidx(v)) == uval(v), urank(uidx(v)) == v)), nu)
        )
        names = {urank(v).decl().name()} | set(collect_names(bv, v))
        nq.append(
            Quant([v], z3.Implies(inr, z3.And(urank(v) >= 0, urank(v) < cnt, uval(urank(v)) == bv)), names, tag="selc")
        )
        nq.append(Quant([v, w], z3.Implies(z3.And(ik, w < cnt, v < w), uval(v) < uval(w)), nu))
    return nf, nq


def is01(t):
    """condition c with t = If(c, 1, 0), else None"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        t = t.arg(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        x, y = num(t.arg(1)), num(t.arg(2))
        if x == 1 and y == 0:
            return t.arg(0)
        if x == 0 and y == 1:
            return z3.Not(t.arg(0))
    return None


def pivot_counts(a, role, n, v, bv, at):
    """number of i < n with a condition that compares f(i) with f(e): it is t when the condition is (i < t), for t in e, e + 1"""
    if is01(bv) is None:
        return []
    apps = []
    seen = set()
    stack = [bv]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() > 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                apps.append(x)
            stack.extend(x.children())
    es = {}
    for x in apps:
        for pos in range(x.num_args()):
            if not x.arg(pos).eq(v):
                continue
            for y in apps:
                if y.decl().eq(x.decl()) and not occurs(v, y) and all(k == pos or x.arg(k).eq(y.arg(k)) for k in range(x.num_args())):
                    es[y.arg(pos).get_id()] = y.arg(pos)
    out = []
    for e in list(es.values())[:2]:
        for t in (e, simp(e + 1)):
            _keepalive.append((a, t))
            s = skolem("pivot", a.get_id(), t.get_id())
            tt = z3.ToReal(t) if role == "sum" else t
            out.append(z3.Or(t < 0, t > n, a == tt, z3.And(s >= 0, s < n, is01(at(s)) != (s < t))))
    return out


def collect_names(t, v):
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() > 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(occurs(v, c) for c in x.children()):
                out.append(x.decl().name())
            stack.extend(x.children())
    return out


def ss_facts(r, role, params, a):
    """searchsorted position a of value x in the sorted sequence body(0..n-1)"""
    v = z3.Int("?q0")
    x = a.arg(a.num_args() - 1)
    n, bv = inst(r, params, v)
    nf = [z3.Implies(n >= 0, z3.And(a >= 0, a <= n))]
    below = bv <= x if role == "ssr" else bv < x
    inr = z3.And(v >= 0, v < n)
    nq = [Quant([v], z3.Implies(inr, below == (v < a)))]
    # direct instances around the position
    for i in (a - 1, a):
        _, b = inst(r, params, i)
        nf.append(z3.Implies(z3.And(i >= 0, i < n), (b <= x if role == "ssr" else b < x) == (i < a)))
    return nf, nq


def cummax_facts(r, params, a):
    v = z3.Int("?q0")
    k = a.arg(a.num_args() - 1)
    n, bv = inst(r, params, v)
    s = skolem("cmax", a.get_id())
    _, bs = inst(r, params, s)
    nf = [z3.Implies(z3.And(k >= 0, k < n), z3.And(s >= 0, s <= k, a == bs))]
    nq = [Quant([v], z3.Implies(z3.And(v >= 0, v <= k, k < n), bv <= a))]
    return nf, nq


def negated(x):
    x = simp(x)
    if num(x) is not None:
        return num(x) < 0
    k = x.decl().kind()
    if k == z3.Z3_OP_UMINUS:
        return True
    if k == z3.Z3_OP_MUL:
        n = num(x.arg(0))
        return n is not None and n < 0
    return False


def leaf_ids(t):
    out, todo = set(), [t]
    while todo:
        q = todo.pop()
        if z3.is_app(q) and q.num_args() == 0 and q.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(q.get_id())
        todo.extend(q.children())
    return out


def powers_of_ten(ground, done):
    """p10(k) = 10 ** k for integers k"""
    out = []
    ps = ground.get("p10", ())
    for g in ps:
        k = ("p10", g.get_id())
        if k in done:
            continue
        done.add(k)
        x = g.arg(0)
        out += [g > 0, z3.Implies(x == 0, g == 1), z3.Implies(x >= 1, g >= 10), z3.Implies(x <= -1, 10 * g <= 1)]
    leaves = {}

    def shared(a, b):
        for q in (a, b):
            if q.get_id() not in leaves:
                leaves[q.get_id()] = leaf_ids(q)
        u, w = leaves[a.get_id()], leaves[b.get_id()]
        return bool(u & w) or len(u) == 1 or len(w) == 1

    for a, b in itertools.combinations(ps[:60], 2):
        k = ("p10p", a.get_id(), b.get_id())
        if k in done:
            continue
        done.add(k)
        x, y = a.arg(0), b.arg(0)
        d = num(simp(x - y))
        if d is not None:
            out.append(a == R(Fraction(10) ** int(d)) * b)
        elif len(ps) <= 14 or shared(x, y):
            out += [z3.Implies(x < y, 10 * a <= b), z3.Implies(y < x, 10 * b <= a), z3.Implies(x == y, a == b)]
    # rounding to significant digits is monotone and leaves powers of ten alone
    for nm in ground:
        if nm.startswith(("sig_v_", "rs_v_")):
            for g in ground[nm]:
                for a in ps[:14]:
                    k = ("p10r", g.get_id(), a.get_id())
                    if k not in done:
                        done.add(k)
                        x = g.arg(0)
                        out += [z3.Implies(x <= a, g <= a), z3.Implies(x >= a, g >= a)]
    return out


def analytic(ground, done):
    out = powers_of_ten(ground, done) if ground.get("p10") else []
    for nm in ("EXP", "LOG", "SQRT"):
        for g in ground.get(nm, ()):
            k = (nm, g.get_id())
            if k in done:
                continue
            done.add(k)
            x = g.arg(0)
            if nm == "EXP":
                out.append(g > 0)
                out.append((g > 1) == (x > 0))
                out.append((g == 1) == (x == 0))
                mx = simp(-x)
                if negated(x) and not negated(mx):
                    out.append(g * EXP(mx) == 1)
            elif nm == "SQRT":
                out.append(z3.Implies(x >= 0, z3.And(g >= 0, g * g == x)))
            else:
                out.append(z3.Implies(x > 0, EXP(g) == x))
                out.append(z3.Implies(x > 0, z3.And((x > 1) == (g > 0), (x == 1) == (g == 0))))
    ex = ground.get("EXP", [])
    if len(ex) <= 12:
        for a, b in itertools.combinations(ex, 2):
            k = ("EXPP", a.get_id(), b.get_id())
            if k in done:
                continue
            done.add(k)
            x, y = a.arg(0), b.arg(0)
            out.append((x < y) == (a < b))
            out.append((x == y) == (a == b))
            out.append(z3.Implies(x + y == 0, a * b == 1))
    lg = ground.get("LOG", [])
    for g in lg:
        k = ("LOGM", g.get_id())
        if k in done:
            continue
        done.add(k)
        try:
            pl = to_poly(g.arg(0))
        except TooBig:
            continue
        if len(pl) != 1:
            continue
        (m, cf), = pl.items()
        if cf <= 0 or (len(m) + (cf != 1)) < 2 and not (len(m) == 1 and m[0][1] != 1):
            continue
        rhs, pos = (R(0) if cf == 1 else LOG(R(cf))), []
        for a_, p_ in m:
            x = _atoms[a_]
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and num(x.arg(0)) == 1:
                x, p_ = x.arg(1), -p_
            pos.append(x > 0)
            rhs = rhs + p_ * LOG(x)
        out.append(z3.Implies(And(*pos), g == rhs) if pos else g == rhs)
    if not ("PI",) in done and (lg or ex):
        done.add(("PI",))
        out.append(z3.And(PI > R(Fraction(314, 100)), PI < R(Fraction(315, 100))))
    if len(lg) <= 10:
        for a, b in itertools.combinations(lg, 2):
            k = ("LOGP", a.get_id(), b.get_id())
            if k in done:
                continue
            done.add(k)
            x, y = a.arg(0), b.arg(0)
            out.append(z3.Implies(z3.And(x > 0, y > 0), z3.And((x < y) == (a < b), (x == y) == (a == b))))
            out.append(z3.Implies(z3.And(x > 0, y > 0, x * y == 1), a + b == 0))
    return out


core.LEMMAS[0] = lemmas
