"""Second opinions: nlsat on the purified query, then cvc5."""
import z3
from . import core


def purify(fs):
    """replace uninterpreted applications by constants, adding Ackermann congruence"""
    apps = {}
    order = []
    cache = {}

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k]
        if z3.is_app(t) and t.num_args() > 0:
            ch = [go(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                key = (t.decl().name(),) + tuple(c.get_id() for c in ch)
                if key not in apps:
                    c = z3.FreshConst(t.sort(), "pz")
                    apps[key] = (c, t.decl().name(), ch)
                    order.append(key)
                r = apps[key][0]
            else:
                r = t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
                if any(not a.eq(b) for a, b in zip(ch, t.children())):
                    if z3.is_and(t):
                        r = z3.And(*ch)
                    elif z3.is_or(t):
                        r = z3.Or(*ch)
                    elif t.decl().kind() in (z3.Z3_OP_ADD,):
                        r = z3.Sum(*ch)
                    elif t.decl().kind() in (z3.Z3_OP_MUL,):
                        r = z3.Product(*ch)
                    elif t.decl().kind() == z3.Z3_OP_DISTINCT:
                        r = z3.Distinct(*ch)
        else:
            r = t
        cache[k] = r
        return r

    out = [go(f) for f in fs]
    byname = {}
    for k in order:
        c, nm, ch = apps[k]
        byname.setdefault(nm, []).append((c, ch))
    n = 0
    for nm, L in byname.items():
        for i in range(len(L)):
            for j in range(i):
                n += 1
                if n > 3000:
                    break
                out.append(z3.Implies(z3.And(*[a == b for a, b in zip(L[i][1], L[j][1])]), L[i][0] == L[j][0]))
    return out


def second(fs, tmo, rounds=None):
    fs = [core.B(f) for f in fs]
    extra = core.LEMMAS[0](fs, rounds)
    allf = fs + list(extra)
    import time

    t0 = time.time()
    try:
        pf = purify(allf)
        s = z3.Then("simplify", "purify-arith", "propagate-values", "elim-term-ite", "solve-eqs", "smt").solver()
        s.set("timeout", int(tmo))
        s.add(*pf)
        r = str(s.check())
        if r == "unsat":
            return r
    except z3.Z3Exception:
        r = "unknown"
    try:
        r = cvc5_check(allf, tmo)
    except Exception:
        r = "unknown"
    finally:
        core.STATS.solver_s += time.time() - t0
    return r


def cvc5_check(fs, tmo):
    import cvc5

    s = z3.Solver()
    s.add(*fs)
    txt = s.to_smt2()
    slv = cvc5.Solver()
    slv.setOption("tlimit-per", str(int(tmo)))
    slv.setLogic("ALL")
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
    sm = p.getSymbolManager()
    res = None
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        o = c.invoke(slv, sm)
        if o and str(o).strip() in ("sat", "unsat", "unknown"):
            res = str(o).strip()
    core.STATS.queries += 1
    return res or "unknown"
