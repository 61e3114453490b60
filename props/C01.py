"""C01: error bars and clipping to a priori limits."""
from pyvc.verify import contract
from . import spec

INF = float("inf")


@contract("C01", "clip_EB", ["mlpaper.mlpaper.clip_EB"], n_rand=1500, max_paths=800)
def clip_EB(v):
    mu = v.ext("mu")
    m0 = mu if not v.sym and abs(mu) < 1e300 else 0.0
    lower = v.ext("lower", ("fin", "-inf", "inf", "nan"), gen=lambda r: m0 - r.choice([0.0, 0.5, r.rand(), 3.0, -0.1]))
    upper = v.ext("upper", ("fin", "inf", "-inf", "nan"), gen=lambda r: m0 + r.choice([0.0, 0.5, r.rand(), 3.0, -0.1]))
    EB = v.ext("EB", ("fin", "inf", "nan"), lo=0.0)
    min_EB = v.ext("min_EB", ("fin", "inf", "nan"), lo=-1.0, gen=lambda r: r.choice([0.0, 0.0, 0.25, r.rand(), -0.5]))
    ok = v.and_(
        v.le0(0.0, upper - lower),
        v.le0(0.0, min_EB),
        v.not_(v.eq(min_EB, INF)),
        v.not_(v.gt0(lower, mu)),
        v.not_(v.gt0(mu, upper)),
        v.not_(v.gt0(2 * min_EB, upper - lower)),
    )
    o = v.run(v.m("mlpaper").clip_EB, mu, EB, lower, upper, min_EB)
    v.outcome_pre(o, ok)
    r = o.value
    hi = spec.eb_trivial(v, mu, lower, upper)
    v.ensures("value", v.same(r, spec.clip_eb(v, mu, EB, lower, upper, min_EB)))
    v.ensures("at-least-min_EB", v.or_(v.isnan(EB), v.le(min_EB, r)))
    v.ensures("at-most-trivial", v.or_(v.isnan(EB), v.le(r, hi)))
    v.ensures("nan-stays-nan", v.implies(v.isnan(EB), v.isnan(r)))
    v.ensures("covers-what-it-covered", v.or_(v.isnan(EB), v.le(v.min(EB, hi), r)))


@contract("C01", "clip_EB.defaults", ["mlpaper.mlpaper.clip_EB"], n_rand=200)
def clip_EB_defaults(v):
    mu = v.ext("mu")
    EB = v.ext("EB", ("fin", "inf", "nan"), lo=0.0)
    r = v.call(v.m("mlpaper").clip_EB, mu, EB)
    v.ensures("no-limits-no-clip", v.same(r, EB))


@contract("C01", "clip_chk", ["mlpaper.util.clip_chk"], n_rand=600)
def clip_chk(v):
    a = v.ext("a")
    lo = v.ext("lo", ("fin", "-inf"))
    hi = v.ext("hi", ("fin", "inf"))
    v.assume(v.le0(lo, hi))
    c = v.np.isclose
    ok = v.or_(v.and_(v.le0(lo, a), v.le0(a, hi)), c(a, lo), c(a, hi))
    o = v.run(v.m("util").clip_chk, a, lo, hi)
    v.outcome_pre(o, ok)
    v.ensures("inside", v.and_(v.le0(lo, o.value), v.le0(o.value, hi)))
    v.ensures("identity-inside", v.implies(v.and_(v.le0(lo, a), v.le0(a, hi)), v.same(o.value, a)))
    v.ensures("moves-to-limit", v.or_(v.eq(o.value, a), v.eq(o.value, lo), v.eq(o.value, hi)))


from pyvc.verify import stub, require  # noqa: E402


@stub("mlpaper.mlpaper.clip_EB")
def _clip_EB(v, mu, EB, lower=-INF, upper=INF, min_EB=0.0):
    require(v.le0(0.0, upper - lower))
    require(v.and_(v.le0(0.0, min_EB), v.gt0(INF, min_EB)))
    require(v.not_(v.or_(v.gt0(lower, mu), v.gt0(mu, upper), v.gt0(2 * min_EB, upper - lower))))
    return spec.clip_eb(v, mu, EB, lower, upper, min_EB)


@stub("mlpaper.util.clip_chk")
def _clip_chk(v, a, a_min, a_max):
    if hasattr(a, "at"):
        from pyvc.core import Unsupported

        raise Unsupported("clip_chk stub on arrays")
    c = v.np.isclose
    require(v.or_(v.and_(v.le0(a_min, a), v.le0(a, a_max)), c(a, a_min), c(a, a_max)))
    return v.min(v.max(a, a_min), a_max)
