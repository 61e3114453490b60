"""C19: common exponent shift."""
from decimal import Decimal
from pyvc.verify import contract, stub, require, BIG
from pyvc.core import Unsupported, intt
from . import declib as D

SP = "mlpaper.sciprint."
FS = [SP + f for f in ("find_shift", "get_shift_range", "floor_mod", "ceil_mod", "str_print_len", "print_estimate")]


def lists(v, lo=0):
    n = v.int("n", lo, gen=lambda r: int(r.choice([lo, 1, 1, 2, 3, 5, 8] if not BIG[0] else [1, 13, 40, 150])))
    base = v.int("base", gen=D.magnitude)
    spread = v.choice("spread", [0, 2, 6])
    mus, EBs = [], []
    for i in range(n):
        e = v.int("e%d" % i, gen=lambda r: int(max(-20, min(20, base)) + r.randint(-spread, spread + 1)))
        c = D.ascoef(v, "c%d" % i)
        mu = D.dec(v.int("s%d" % i, 0, 1, gen=lambda r: int(r.rand() < 0.3)), c, e)
        k = v.choice("EB%d" % i, ["x", "0", "inf", "nan"], w=[6, 1, 1, 1])
        EB = Decimal(k) if k != "x" else D.dec(0, v.int("EB%d:c" % i, 1, gen=lambda r: D.coef(r, int(r.randint(1, 4)))), e)
        mus.append(mu)
        EBs.append(EB)
    return mus, EBs


@contract("C19", "find_shift", FS, n_rand=600, modes="r")
def find_shift(v):
    mus, EBs = lists(v)
    mod = v.int("mod", 1, 6, gen=lambda r: int(r.choice([1, 1, 2, 3, 3, 6])))
    if v.choice("as", ["list", "tuple"]) == "tuple":
        mus, EBs = tuple(mus), tuple(EBs)
    kw = {"shift_mod": mod} if mod != 1 or v.choice("pass", [True, False]) else {}
    s = v.call(v.m("sciprint").find_shift, mus, EBs, **kw)
    D.check_shift(v, s, mus, EBs, mod)


@contract("C19", "get_shift_range", [SP + "get_shift_range", SP + "floor_mod", SP + "ceil_mod"], n_rand=400, modes="r")
def get_shift_range(v):
    mus, _ = lists(v, 1)
    mod = v.int("mod", 1, 6, gen=lambda r: int(r.choice([1, 1, 2, 3, 3, 6])))
    kw = {"shift_mod": mod} if mod != 1 or v.choice("pass", [True, False]) else {}
    mn, mx, small = v.call(v.m("sciprint").get_shift_range, mus, **kw)
    w = D.shift_range(mus, mod)
    v.ensures("largest-multiple-keeping-all-digits", mx == w[1])
    v.ensures("smallest-multiple-without-leading-zeros", mn == w[0])
    v.ensures("flags-all-small", bool(small) == w[2])


@contract("C19", "rejects", [SP + "find_shift", SP + "get_shift_range"], cases=[{"why": w} for w in ("mod", "nonfinite", "lengths", "empty-range")], n_rand=30, modes="r")
def rejects(v):
    mus, EBs = lists(v, 1)
    mod = 1
    why = v.case["why"]
    if why == "mod":
        mod = v.int("bad", hi=0, gen=lambda r: -int(r.randint(0, 4)))
    elif why == "nonfinite":
        mus[v.int("at", 0, len(mus) - 1)] = Decimal(v.choice("what", ["nan", "inf", "-inf"]))
    elif why == "lengths":
        EBs = EBs[:-1] if v.choice("short", [True, False]) else EBs + [Decimal(1)]
    elif why == "empty-range":
        return v.must_reject(v.run(v.m("sciprint").get_shift_range, []), "rejects-empty")
    v.must_reject(v.run(v.m("sciprint").find_shift, mus, EBs, shift_mod=mod), "rejects-" + why)


# --- proofs --------------------------------------------------------------------------------------------
@stub("mlpaper.util.remove_chars")
def remove_chars_spec(v, x, chars):
    from pyvc import decf as F

    if not isinstance(chars, str):
        raise Unsupported("characters")
    return F.without(x, chars)


MODS = (1, 2, 3, 6, 7, "any")


@contract("C19", "floor_mod.proof", [SP + "floor_mod", SP + "ceil_mod"], modes="p")
def floor_ceil(v):
    x, mod = v.int("x"), v.int("mod", 1)
    for f, up in (("floor_mod", False), ("ceil_mod", True)):
        y = v.call(getattr(v.m("sciprint"), f), x, mod)
        v.ensures(f + "-side", y >= x if up else y <= x)
        v.ensures(f + "-nearest", y - x < mod if up else x - y < mod)
        k = v.int("k")
        v.ensures(f + "-multiple", v.eq(y, (y // mod) * mod))


@contract("C19", "lemma.multiple", [], modes="p")
def lemma_multiple(v):
    q, mod = v.int("q"), v.int("mod", 1)
    v.ensures("multiple", v.eq((q * mod) % mod, 0))


def sym_lists(v):
    """means and errors: lists of any length"""
    from pyvc import decf as F

    n = v.dim("n", 1)
    mus, EBs = F.dec_list("mu", n), F.dec_list("EB", n, ("x", "nan", "inf", "+"))
    v.each(mus, lambda d: F.n_digits(d) <= 28)
    v.each((mus, EBs), lambda d, e: v.or_(v.not_(F.known_finite(e)), F.value(e) == 0, F.expo(e) == F.expo(d)))
    return n, mus, EBs


@contract("C19", "get_shift_range.proof", [SP + f for f in ("get_shift_range", "floor_mod", "ceil_mod")], modes="p", cases=[{"mod": m} for m in MODS], cone=True)
def shift_range_all(v):
    from pyvc import decf as F

    n, mus, EBs = sym_lists(v)
    mod = v.case["mod"] if v.case["mod"] != "any" else v.int("mod", 1)
    mn, mx, small = v.call(v.m("sciprint").get_shift_range, mus, shift_mod=mod)
    top = v.each_min(mus, lambda d: -F.expo(d))
    low = v.each_min(mus, lambda d: -(F.expo(d) + F.n_digits(d) - 1))
    v.ensures("multiple", v.and_(mx % mod == 0, mn % mod == 0))
    v.ensures("keeps-all-digits", v.and_(mx <= top, top - mx < mod))
    w = low + (-low) % mod
    v.ensures("flags-all-small", v.iff(small, w > mx))
    v.ensures("smallest-multiple-without-leading-zeros", v.eq(mn, v.ite(w > mx, mx, w)))


@stub("mlpaper.sciprint.print_estimate")
def print_estimate_spec(v, mu, EB, shift=0, *a, **k):
    """contract of print_estimate without limits (C18): the text of mu(EB) at that shift"""
    from pyvc import decf as F

    if a or k or not isinstance(mu, F.SDec):
        raise Unsupported("print_estimate with limits")
    EB = F.dec(EB)
    require(v.and_(mu.is_finite(), F.expo(mu) + shift <= 0))
    require(v.or_(v.not_(EB.is_finite()), F.value(EB) == 0, v.and_(F.value(EB) > 0, F.expo(EB) == F.expo(mu))))
    return F.tok("estimate", mu, EB, shift)


def widest(v, mus, EBs, s):
    """characters of the longest entry at shift s"""
    from pyvc import decf as F

    return v.each_min((mus, EBs), lambda d, e: F.est_width(d, e, s), "max")


@contract("C19", "find_shift.proof", FS, modes="p", cases=[{"mod": m} for m in (1, 3, "any")], stubs=["mlpaper.util.remove_chars", SP + "print_estimate"], cone=True, max_paths=400)
def find_shift_all(v):
    from pyvc import decf as F
    from pyvc.arr import SArr

    n, mus, EBs = sym_lists(v)
    mod = v.case["mod"] if v.case["mod"] != "any" else v.int("mod", 1)
    top = v.each_min(mus, lambda d: -F.expo(d))
    low = v.each_min(mus, lambda d: -(F.expo(d) + F.n_digits(d) - 1))
    a, b = top // mod, -((-low) // mod)
    mx, mn = a * mod, b * mod
    v.lemma(mx % mod == 0)  # contract lemma.multiple
    v.lemma(mn % mod == 0)
    if v.cond(mn > mx):
        mn = mx
    M = lambda s: widest(v, mus, EBs, s)

    def same(x, y):
        """x == y: the same remainder and width (instances of the congruence of functions)"""
        v.lemma(v.implies(x == y, v.and_(v.eq(x % mod, y % mod), v.eq(M(x), M(y)))))

    def names(loc, it):
        """the candidate so far (None at first) and its width (infinite at first)"""
        b = [q for q, x in loc.items() if x is None]
        w = [q for q, x in loc.items() if isinstance(x, float) and x == float("inf")]
        return (b[0], w[0]) if len(b) == len(w) == 1 else None

    def seq(loc):
        """the candidates in the order of the loop"""
        Ls = [x for x in loc.values() if isinstance(x, SArr) and "inverse" not in x.__dict__]
        ix = [x for x in loc.values() if isinstance(x, SArr) and "inverse" in x.__dict__]
        if len(Ls) != 1 or len(ix) != 1:
            raise Unsupported("loop of another form")
        ghost["inverse"] = ix[0].__dict__["inverse"]
        return Ls[0]

    ghost = {}

    def facts(k, b, w, loc):
        L = seq(loc)
        ghost["len"], ghost["L"] = L.shape[0], L
        cand = lambda j: L.at(j.t)
        if b is None:
            return [("none-before", lambda j: v.implies(j < k, v.not_(cand(j) % mod == 0))), ("no-width", w == float("inf"))]
        better = lambda c: v.or_(M(b) < M(c), v.and_(v.eq(M(b), M(c)), v.abs(b) <= v.abs(c)))
        return [("candidate", v.and_(b % mod == 0, mn <= b, b <= mx)), ("its-width", v.eq(w, M(b))),
                ("best-before", lambda j: v.implies(v.and_(j < k, cand(j) % mod == 0), better(cand(j)))),
                ("closer-than-the-rest", lambda j: v.implies(j >= k, v.abs(b) <= v.abs(cand(j))))]

    def check(k, vals, loc, where):
        for q, c in facts(k, vals[0], vals[1], loc):
            q = "loop-%s-%s" % (where, q)
            if callable(c):
                v.ensures_all(q, ghost["len"], lambda j: (where == "iteration" and at(j), c(j))[1])
            else:
                v.ensures(q, c)

    def at(j):
        """instances of the invariant at position j"""
        for c in ghost["inv"]:
            if callable(c):
                v.assume(v.implies(v.and_(j >= 0, j < ghost["len"]), c(j)))

    def havoc(k, loc):
        b, w = None, float("inf")
        if v.cond(v.boolv("found")):
            b, w = v.int("b"), v.int("w")
        ghost["inv"] = [c for _, c in facts(k, b, w, loc)]
        for c in ghost["inv"]:
            v.assume(v.all(ghost["len"], c) if callable(c) else c)
        at(k)
        j = ghost["inverse"](intt(0))
        v.step("first-position", v.and_(j >= 0, j < ghost["len"]))
        v.step("smallest-shift-is-tried", ghost["L"].at(intt(j)) == mn)
        same(ghost["L"].at(intt(j)), mn)
        at(j)
        return b, w

    v.loop("find_shift", names, check, havoc)
    s = v.call(v.m("sciprint").find_shift, mus, EBs, shift_mod=mod)
    v.ensures("multiple-of-step", s % mod == 0)
    v.ensures("admissible", v.and_(mn <= s, s <= mx))
    o = v.int("other")
    v.assume(v.and_(o % mod == 0, mn <= o, o <= mx))
    if "inv" in ghost:
        j = ghost["inverse"](intt(o - mn))
        c = ghost["L"].at(intt(j))
        v.step("position", v.and_(j >= 0, j < ghost["len"]))
        v.step("every-admissible-shift-is-tried", c == o)
        same(c, o)
        at(j)
    v.ensures("minimal-width", M(s) <= M(o))
    v.ensures("smallest-shift-on-ties", v.implies(v.eq(M(s), M(o)), v.abs(s) <= v.abs(o)))


@contract("C19", "rejects.proof", [SP + "find_shift"], modes="p", cases=[{"why": w} for w in ("mod", "nonfinite", "lengths", "empty")], cone=True)
def rejects_all(v):
    from pyvc import decf as F

    f = v.m("sciprint").find_shift
    why = v.case["why"]
    if why == "empty":
        v.ensures("empty-no-shift", v.eq(v.call(f, [], [], shift_mod=v.int("mod", 1)), 0))
        return
    n, mus, EBs = sym_lists(v)
    if why == "mod":
        o = v.run(f, mus, EBs, shift_mod=v.int("mod", hi=0))
    elif why == "lengths":
        m = v.dim("m", 0)
        v.assume(v.not_(m == n))
        o = v.run(f, mus, F.dec_list("EB2", m, ("x", "nan", "inf", "+")), shift_mod=3)
    else:
        bad = F.dec_list("bad", n, ("x", "nan", "inf"))
        at = v.int("at", 0)
        v.assume(at < n)
        v.assume(v.not_(F.known_finite(bad[at])))
        o = v.run(f, bad, EBs, shift_mod=v.int("mod", 1))
    v.must_reject(o, "rejects-" + why)
