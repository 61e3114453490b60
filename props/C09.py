"""C09: classification losses."""
from pyvc.verify import contract, stub, require
from .common import logprobs, labels

CL = "mlpaper.classification."
U1 = "mlpaper.util.one_hot"
RT = 1e-9


def setup(v, kmin=1, hi=6, kind="i", zeros=True, norm=False):
    n = v.dim("n", 1, hi=None if v.sym else 8)
    k = v.dim("k", kmin, hi=None if v.sym else hi)
    lp = logprobs(v, "lp", n, k, norm=norm, zeros=zeros)
    y = labels(v, "y", n, k, kind)
    return n, k, lp, y


def lab(v, y, i):
    t = v.at(y, i)
    if v.case.get("y") == "b":
        return v.ite(t, 1, 0)
    return t


def eloss(v, lp, i, k, L, a):
    return v.sum(k, lambda j: v.exp(v.at(lp, i, j)) * L(j, a))


@contract("C09", "decision", [CL + "hard_loss_decision"], n_rand=200)
def decision(v):
    n, k, lp, y = setup(v)
    if not v.sym:
        v.assume(abs(lp[v.np.isfinite(lp)]).max() < 600)
    A = v.dim("n_actions", 1, hi=None if v.sym else 5)
    L = v.array("L", (k, A))
    act = v.call(v.m("classification").hard_loss_decision, lp, L)
    v.ensures("shape", v.and_(len(act.shape) == 1, v.eq(act.shape[0], n)))
    Lf = lambda j, a: v.at(L, j, a)
    if v.sym:
        v.ensures_all("is-an-action", n, lambda i: v.and_(v.le0(0, v.at(act, i)), v.gt0(A, v.at(act, i))))
        b = v.int("other", 0, A - 1)
        v.ensures_all("minimises-expected-loss", n, lambda i: v.le(eloss(v, lp, i, k, Lf, v.at(act, i)), eloss(v, lp, i, k, Lf, b)))
    else:
        v.ensures_all("minimises-expected-loss", n, lambda i: int(act[i]) in v.argmins(A, lambda a: eloss(v, lp, i, k, Lf, a)))
    v.unchanged("frame", lp, L)


@contract("C09", "hard_loss", [CL + "hard_loss", CL + "hard_loss_decision", CL + "shape_and_validate"], cases=[{"y": "i", "L": True}, {"y": "b", "L": True}, {"y": "i", "L": False}, {"y": "b", "L": False}], n_rand=200)
def hard(v):
    n, k, lp, y = setup(v, 2 if v.case["y"] == "b" else 1, kind=v.case["y"])
    if not v.sym:
        v.assume(abs(lp[v.np.isfinite(lp)]).max() < 600)
    m = v.m("classification")
    if v.case["L"]:
        A = v.dim("n_actions", 1, hi=None if v.sym else 5)
        L = v.array("L", (k, A))
        Lf = lambda j, a: v.at(L, j, a)
        r = v.call(m.hard_loss, y, lp, L)
    else:
        A = k
        Lf = lambda j, a: v.ite(v.eq(j, a), 0.0, 1.0)
        r = v.call(m.hard_loss, y, lp)
    v.ensures("shape", v.and_(len(r.shape) == 1, v.eq(r.shape[0], n)))
    if v.sym:
        v.ensures_all("loss-of-bayes-decision", n, lambda i: v.same(v.at(r, i), Lf(lab(v, y, i), v.argmins(A, lambda a: eloss(v, lp, i, k, Lf, a))[0])))
    else:
        v.ensures_all("loss-of-bayes-decision", n, lambda i: any(r[i] == Lf(int(lab(v, y, i)), a) for a in v.argmins(A, lambda a: eloss(v, lp, i, k, Lf, a))))
    v.unchanged("frame", lp, y)


@contract("C09", "hard_loss.most-probable", [CL + "hard_loss"], n_rand=200, modes="br")
def zero_one(v):
    """default zero-one loss: no loss exactly when the most probable label is the truth"""
    n, k, lp, y = setup(v)
    if not v.sym:
        v.assume(abs(lp[v.np.isfinite(lp)]).max() < 600)
    r = v.call(v.m("classification").hard_loss, y, lp)
    u = lambda i, j: v.exp(v.at(lp, i, j))
    if v.sym:
        v.ensures_all("zero-iff-mode", n, lambda i: v.and_(v.or_(v.eq(v.at(r, i), 0.0), v.eq(v.at(r, i), 1.0)), v.implies(v.eq(v.at(r, i), 0.0), v.all(k, lambda j: v.le(u(i, j), u(i, v.at(y, i)))))))
    else:
        v.ensures_all("zero-iff-mode", n, lambda i: r[i] in (0.0, 1.0) and v.implies(r[i] == 0.0, all(lp[i] <= lp[i, y[i]] + 1e-9)) and v.implies(r[i] == 1.0, any(lp[i, j] >= lp[i, y[i]] - 1e-9 for j in range(k) if j != y[i])))


@contract("C09", "log_loss", [CL + "log_loss", CL + "shape_and_validate"], cases=[{"y": "i"}, {"y": "b"}], n_rand=200)
def log_loss(v):
    n, k, lp, y = setup(v, 2 if v.case["y"] == "b" else 1, kind=v.case["y"])
    r = v.call(v.m("classification").log_loss, y, lp)
    v.ensures("shape", v.and_(len(r.shape) == 1, v.eq(r.shape[0], n)))
    v.ensures_all("minus-log-prob-of-truth", n, lambda i: v.same(v.at(r, i), -v.at(lp, i, lab(v, y, i) if v.sym else int(y[i]))))
    v.unchanged("frame", lp, y)


@contract("C09", "brier", [CL + "brier_loss", U1, CL + "shape_and_validate"], cases=[{"y": "i", "rescale": True}, {"y": "i", "rescale": False}, {"y": "b", "rescale": None}], stubs=[U1], n_rand=200)
def brier(v):
    n, k, lp, y = setup(v, 2 if v.case["y"] == "b" else 1, kind=v.case["y"])
    if not v.sym:
        v.assume(lp[v.np.isfinite(lp)].max() < 300)
    m = v.m("classification")
    rs = v.case["rescale"]
    r = v.call(m.brier_loss, y, lp, rs) if rs is not None else v.call(m.brier_loss, y, lp)
    v.ensures("shape", v.and_(len(r.shape) == 1, v.eq(r.shape[0], n)))

    def d2(i):
        f = lambda j: v.exp(v.at(lp, i, j)) - v.ite(v.eq(j, lab(v, y, i)), 1.0, 0.0)
        return v.sum(k, lambda j: f(j) * f(j))

    if rs is False:
        v.ensures_all("squared-distance-to-one-hot", n, lambda i: v.same(v.at(r, i), d2(i), scale=None if v.sym else 1.0))
    elif v.cond(v.gt0(k, 1)):
        v.ensures_all("rescaled", n, lambda i: v.same(v.at(r, i), d2(i) * (v.flt(k) / v.flt(k - 1))))
    else:
        v.ensures_all("single-label", n, lambda i: v.same(v.at(r, i), d2(i)))
    v.unchanged("frame", lp, y)


@contract("C09", "spherical", [CL + "spherical_loss", CL + "shape_and_validate"], cases=[{"y": "i", "rescale": True}, {"y": "i", "rescale": False}, {"y": "b", "rescale": None}], n_rand=200)
def spherical(v):
    n, k, lp, y = setup(v, 2 if v.case["y"] == "b" else 1, kind=v.case["y"])
    m = v.m("classification")
    rs = v.case["rescale"]
    r = v.call(m.spherical_loss, y, lp, rs) if rs is not None else v.call(m.spherical_loss, y, lp)
    v.ensures("shape", v.and_(len(r.shape) == 1, v.eq(r.shape[0], n)))

    def score(i):
        if not v.sym:
            import numpy as np

            z = np.exp(lp[i] - lp[i].max())
            return float(z[int(y[i])] / np.sqrt(np.sum(z * z)))
        u = lambda j: v.exp(v.at(lp, i, j))
        return u(lab(v, y, i)) / v.sqrt(v.sum(k, lambda j: u(j) * u(j)))

    if rs is False:
        v.ensures_all("minus-normalised-probability", n, lambda i: v.same(v.at(r, i), -score(i)))
    elif v.cond(v.gt0(k, 1)):
        v.ensures_all("rescaled", n, lambda i: v.same(v.at(r, i), (1.0 - score(i)) / (1.0 - 1.0 / v.sqrt(v.flt(k)))))
    else:
        v.ensures_all("single-label", n, lambda i: v.same(v.at(r, i), 1.0 - score(i)))
    v.unchanged("frame", lp, y)


@contract("C09", "anchors", [CL + "brier_loss", CL + "spherical_loss"], cases=[{"fn": f, "pred": p} for f in ("brier_loss", "spherical_loss") for p in ("perfect", "uniform")], stubs=[U1], n_rand=60)
def anchors(v):
    n, k = v.dim("n", 1, hi=None if v.sym else 8), v.dim("k", 2, hi=None if v.sym else 8)
    y = labels(v, "y", n, k)
    if v.case["pred"] == "perfect":
        lp = v.make_array2(n, k, lambda i, j: v.ite(v.eq(j, v.at(y, i)), 1.0, 0.0), log=True)
        e = 0.0
    else:
        lp = v.make_array2(n, k, lambda i, j: 1.0 / v.flt(k), log=True)
        e = 1.0
    r = v.call(getattr(v.m("classification"), v.case["fn"]), y, lp)
    v.ensures_all("anchor", n, lambda i: v.same(v.at(r, i), e))


@contract("C09", "one_hot", [U1], n_rand=200)
def one_hot(v):
    n, k = v.dim("n", 0, hi=None if v.sym else 8), v.dim("k", 1, hi=None if v.sym else 8)
    y = labels(v, "y", n, k)
    r = v.call(v.m("util").one_hot, y, k)
    v.ensures("shape", v.and_(len(r.shape) == 2, v.eq(r.shape[0], n), v.eq(r.shape[1], k), r.dtype == bool))
    v.ensures_all("one-at-label", n, lambda i: v.all(k, lambda j: v.iff(v.at(r, i, j), v.eq(j, v.at(y, i)))))


FN = ("hard_loss", "log_loss", "brier_loss", "spherical_loss")


@contract("C09", "rejects", [CL + f for f in FN], cases=[{"fn": f, "why": w} for f in FN for w in ("label", "length", "empty", "float")], n_rand=40)
def rejects(v):
    why = v.case["why"]
    f = getattr(v.m("classification"), v.case["fn"])
    n = 0 if why == "empty" else v.dim("n", 1, hi=None if v.sym else 6)
    k = v.dim("k", 1, hi=None if v.sym else 6)
    lp = v.array("lp", (n, k), lo=0.0, log=True)
    if why == "label":
        y = v.array("y", n, kind="i", gen=lambda r, sh: r.randint(-1, k + 1, size=sh))
        v.assume(v.not_(v.all(n, lambda i: v.and_(v.le0(0, v.at(y, i)), v.gt0(k, v.at(y, i))))))
    elif why == "length":
        n2 = v.dim("n2", 1, hi=None if v.sym else 6)
        v.assume(v.not_(v.eq(n, n2)))
        y = labels(v, "y", n2, k)
    elif why == "float":
        y = v.array("y", n, lo=0.0, hi=0.0)
    else:
        y = labels(v, "y", n, k)
    v.must_reject(v.run(f, y, lp))


@stub(U1)
def _one_hot(v, y, n_labels):
    from pyvc.arr import SArr
    from pyvc.core import intt, mkbool, SBool
    import z3

    n = v.len(y)
    require(v.le0(1, n_labels))
    require(y.kind == "i")
    require(v.all(n, lambda i: v.and_(v.le0(0, v.at(y, i)), v.gt0(n_labels, v.at(y, i)))))
    return SArr((n, n_labels), lambda i, j: SBool(intt(v.at(y, i)) == j), "b")
