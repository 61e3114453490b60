"""C04: Student-t error bar and t-test."""
from pyvc.verify import contract, stub, require
from . import spec

ASSUMPTIONS = ["scipy.stats: ttest_1samp, sem, t.interval follow their documented formulas; Student-t sf strictly decreasing, ppf its inverse"]


@contract("C04", "t_EB", ["mlpaper.mlpaper.t_EB"], n_rand=400)
def t_EB(v):
    n = v.dim("n")
    x = v.array("x", n)
    conf = v.real("conf", 0.0, 1.0, open="lh", gen=lambda r: r.choice([0.95, 0.5, 0.99, r.rand()]))
    r = v.call(v.m("mlpaper").t_EB, x, conf)
    v.ensures("value", v.same(r, spec.t_eb(v, x, conf)))
    v.ensures("nonneg", v.le(0.0, r))


@contract("C04", "t_EB.default", ["mlpaper.mlpaper.t_EB"], n_rand=50)
def t_EB_default(v):
    n = v.dim("n", 2)
    x = v.array("x", n)
    r = v.call(v.m("mlpaper").t_EB, x)
    v.ensures("default-confidence-95", v.same(r, spec.t_eb(v, x, 0.95)))


@contract("C04", "t_EB.rejects", ["mlpaper.mlpaper.t_EB"], n_rand=300)
def t_EB_rej(v):
    n = v.dim("n")
    x = v.array("x", n, ext="nan")
    conf = v.ext("conf", ("fin", "nan", "inf"), gen=lambda r: r.choice([0.95, 0.0, 1.0, 1.5, -0.1, 0.5, 0.5]))
    v.assume(v.not_(v.and_(v.not_(v.anynan(x)), v.gt0(conf, 0.0), v.gt0(1.0, conf))))
    v.must_reject(v.run(v.m("mlpaper").t_EB, x, conf))


@contract("C04", "t_test", ["mlpaper.mlpaper.t_test"], n_rand=400)
def t_test(v):
    n = v.dim("n")
    x = v.array("x", n)
    r = v.call(v.m("mlpaper").t_test, x)
    v.ensures("range", v.and_(v.le(0.0, r), v.le(r, 1.0)))
    v.ensures("value", v.same(r, spec.t_p(v, x)))


@contract("C04", "t_test.rejects", ["mlpaper.mlpaper.t_test"], n_rand=200)
def t_test_rej(v):
    n = v.dim("n")
    x = v.array("x", n, ext="nan")
    v.assume(v.anynan(x))
    v.must_reject(v.run(v.m("mlpaper").t_test, x))


@contract("C04", "t_duality", ["mlpaper.mlpaper.t_test", "mlpaper.mlpaper.t_EB"], stubs=["mlpaper.mlpaper.t_test", "mlpaper.mlpaper.t_EB"], n_rand=300, transparent=True)
def duality(v):
    """lemma over the two contracts: the test rejects at 1-conf exactly when the interval excludes 0"""
    n = v.dim("n", 2)
    x = v.array("x", n)
    conf = v.real("conf", 0.0, 1.0, open="lh", gen=lambda r: r.rand())
    v.assume(v.gt0(spec.var(v, x, 1), 0.0 if v.sym else 1e-12))
    m = v.m("mlpaper")
    p, EB = v.call(m.t_test, x), v.call(m.t_EB, x, conf)
    if v.near(p, 1.0 - conf) or v.near(v.abs(spec.mean(v, x)), EB):
        return
    v.ensures("rejects-iff-interval-excludes-zero", v.iff(v.le(p, 1.0 - conf), v.le(EB, v.abs(spec.mean(v, x)))))


@stub("mlpaper.mlpaper.t_EB")
def _t_EB(v, x, confidence=0.95):
    require(v.and_(v.not_(v.anynan(x)), v.gt0(confidence, 0.0), v.gt0(1.0, confidence)))
    return spec.o_t_eb(v, x, confidence)


@stub("mlpaper.mlpaper.t_test")
def _t_test(v, x):
    require(v.not_(v.anynan(x)))
    return spec.o_t_p(v, x)
