"""Reference (mathematical) specification functions.

Written against an environment `v` (pyvc.verify): in the proof they build z3
terms, at run time they compute floats.  None of them calls mlpaper.
"""


def mean(v, x, n=None):
    n = v.len(x) if n is None else n
    return v.sum(n, lambda i: v.at(x, i)) / n


def var(v, x, ddof, n=None):
    n = v.len(x) if n is None else n
    m = mean(v, x, n)
    return v.sum(n, lambda i: (v.at(x, i) - m) * (v.at(x, i) - m)) / (n - ddof)


def eb_trivial(v, mu, lower, upper):
    """largest error bar that can be informative: the far end of the known range"""
    return v.ite(v.isnan(mu), float("inf"), v.max(upper - mu, mu - lower))


def clip_eb(v, mu, EB, lower, upper, min_EB):
    hi = eb_trivial(v, mu, lower, upper)
    a = v.ite(v.isnan(EB), EB, v.max(EB, min_EB))
    return v.ite(v.isnan(a), a, v.min(a, hi))


# --- single-sample statistics -------------------------------------------------
def degenerate(v, x):
    """fewer than two points or a non-finite point: scale unknown"""
    return v.or_(v.le0(v.len(x), 1), v.not_(v.allfin(x)))


def t_eb(v, x, conf):
    if v.cond(degenerate(v, x)):
        return float("inf")
    n = v.len(x)
    return v.ss.t.ppf((1.0 + conf) / 2.0, n - 1) * v.sqrt(var(v, x, 1) / n)


def t_p(v, x):
    if v.cond(degenerate(v, x)):
        return 1.0
    n = v.len(x)
    m = mean(v, x)
    s2 = var(v, x, 1)
    if v.cond(v.le0(s2, 0.0)):
        return v.ite(v.eq(m, 0.0), 1.0, 0.0)
    return 2.0 * v.ss.t.sf(v.abs(m) / v.sqrt(s2 / n), n - 1)


def bern_eb(v, x, lower, upper, conf):
    R = upper - lower
    if v.cond(degenerate(v, x)):
        return R
    n = v.len(x)
    A = v.log(3.0 / (1.0 - conf))
    return v.sqrt(var(v, x, 0)) * v.sqrt(2.0 * A / n) + 3.0 * A * R / n


def bern_p(v, x, lower, upper):
    """smallest delta whose empirical Bernstein bound around the mean excludes 0, capped at 1"""
    R = upper - lower
    if v.cond(v.or_(degenerate(v, x), v.eq(R, 0.0), v.eq(R, float("inf")))):
        return 1.0
    n = v.len(x)
    a, b, c = 3.0 * R / n, v.sqrt(var(v, x, 0)) * v.sqrt(2.0 / n), v.abs(mean(v, x))
    r = (v.sqrt(b * b + 4.0 * a * c) - b) / (2.0 * a)
    return v.min(1.0, 3.0 * v.exp(-(r * r)))


# --- the same, opaque to modular proofs (facts: obligations of C04 / C05) ----------
def o_t_eb(v, x, conf):
    return v.opaque("t_eb", t_eb, (x, conf), lo=0, inf=True, facts=lambda v, r: v.implies(degenerate(v, x), v.eq(r, float("inf"))))


def o_t_p(v, x):
    return v.opaque("t_p", t_p, (x,), lo=0, hi=1, facts=lambda v, r: v.implies(degenerate(v, x), v.eq(r, 1.0)))


def o_bern_eb(v, x, lower, upper, conf):
    return v.opaque("bern_eb", bern_eb, (x, lower, upper, conf), lo=0, inf=True, facts=lambda v, r: v.implies(degenerate(v, x), v.eq(r, upper - lower)))


def o_bern_p(v, x, lower, upper):
    return v.opaque("bern_p", bern_p, (x, lower, upper), lo=0, hi=1, facts=lambda v, r: v.implies(degenerate(v, x), v.eq(r, 1.0)))
