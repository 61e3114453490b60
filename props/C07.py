"""C07: bootstrap error bar and test of a mean."""
from pyvc.verify import contract, stub, require, include
from . import spec, C06, C01  # noqa: F401

INF = float("inf")
ML = "mlpaper.mlpaper."
F = [ML + f for f in ("_boot_EB_and_test", "boot_EB", "boot_test")]
STUBS = ["mlpaper.boot_util." + f for f in ("error_bar", "significance", "percentile")]


# --- specification of the primitives (proved by C06), opaque in the proofs here --------
def eb(v, x, o, conf):
    n = v.len(x)
    f = lambda i: v.at(x, i)
    return v.max(v.kth(n, f, v.ceil(C06.q_hi(v, n, conf))) - o, o - v.kth(n, f, v.floor(C06.q_lo(v, n, conf))))


def sig(v, x, ref):
    n = v.len(x)
    a = C06.frac(v, n, lambda i: v.le0(v.at(x, i), ref))
    b = C06.frac(v, n, lambda i: v.le0(ref, v.at(x, i)))
    return v.min(1.0, 2.0 * v.min(a, b))


def o_eb(v, x, o, conf):
    return v.opaque("boot.eb", eb, (x, o, conf), lo=0)


def o_sig(v, x, ref):
    return v.opaque("boot.sig", sig, (x, ref), lo=0, hi=1)


@stub("mlpaper.boot_util.error_bar")
def _eb(v, boot_estimates, original_estimate, confidence=0.95):
    require(v.and_(v.gt0(confidence, 0.0), v.gt0(1.0, confidence)))
    require(v.not_(v.anynan(boot_estimates)))
    return o_eb(v, boot_estimates, original_estimate, confidence)


@stub("mlpaper.boot_util.significance")
def _sig(v, boot_estimates, ref):
    require(v.not_(v.anynan(boot_estimates)))
    return o_sig(v, boot_estimates, ref)


@stub("mlpaper.boot_util.percentile")
def _pc(v, boot_estimates, confidence=0.95):
    require(v.and_(v.gt0(confidence, 0.0), v.gt0(1.0, confidence)))
    require(v.not_(v.anynan(boot_estimates)))
    if boot_estimates.ndim == 2:
        k = boot_estimates.shape[1]
        return tuple(v.opaque_array(q, (boot_estimates, confidence), (k,)) for q in ("boot.lb", "boot.ub"))
    return v.opaque("boot.lb", None, (boot_estimates, confidence)), v.opaque("boot.ub", None, (boot_estimates, confidence))


def reps(v, x, n):
    """replicate means of the single recorded resample, None when the code drew differently (run time only)"""
    d = v.draws()
    if not d:
        return None
    nb, k, at = d[0]
    if not v.sym and (k != n):
        return None
    return nb, v.make_array(nb, lambda b: v.sum(n, lambda i: v.at(x, i) * at(b, i)) / n)


def near_tie(v, mb):
    return (not v.sym) and any(abs(t) < 1e-9 for t in mb)


CASES = [{"fn": f} for f in ("boot_EB", "boot_test", "both")]


@contract("C07", "one-resample", F, cases=CASES, stubs=STUBS, n_rand=100)
def one(v):
    n, nb = v.dim("n", 2), v.dim("n_boot", 1)
    x = v.array("x", n)
    conf = C06.conf_(v)
    m, f = v.m("mlpaper"), v.case["fn"]
    v.seed()
    v.watch_draws()
    EB = p = None
    if f == "boot_EB":
        EB = v.call(m.boot_EB, x, conf, nb)
    elif f == "boot_test":
        p = v.call(m.boot_test, x, nb)
    else:
        EB, p, _ = v.call(m._boot_EB_and_test, x, conf, nb)
    if EB is not None:
        v.ensures("EB-range", v.and_(v.le0(0.0, EB), v.isfin(EB)))
    if p is not None:
        v.ensures("p-range", v.and_(v.le0(0.0, p), v.le0(p, 1.0)))
    r = reps(v, x, n)
    if r is None:
        return
    nr, mb = r
    v.ensures("n_boot-replicates", v.eq(nr, nb))
    v.ensures("one-resample", len(v.draws()) == 1)
    if EB is not None:
        if v.sym:
            v.ensures("EB", v.same(EB, o_eb(v, mb, spec.mean(v, x), conf)))
        else:
            o = spec.mean(v, x)
            v.ensures("EB", any(v.same(EB, max(u - o, o - l, 0.0), scale=max(1.0, abs(x).max())) for l in C06.cand(v, mb, nr, C06.q_lo(v, nr, conf), "lower") for u in C06.cand(v, mb, nr, C06.q_hi(v, nr, conf), "higher")))
    if p is not None and not near_tie(v, mb):
        v.ensures("p", v.same(p, o_sig(v, mb, 0.0)))


@contract("C07", "coherent", F + [ML + "get_mean_EB_test"], n_rand=150, modes="r")
def coherent(v):
    """if the interval mean +- EB excludes zero then p < 1 - confidence (same resample for both)"""
    n = v.dim("n", 2)
    x = v.array("x", n)
    conf = C06.conf_(v)
    v.seed()
    mu, EB, p = v.call(v.m("mlpaper").get_mean_EB_test, x, conf, method="boot")
    v.ensures("mean", v.same(mu, spec.mean(v, x)))
    if not v.near(abs(mu), EB):
        v.ensures("coherent", v.implies(abs(mu) > EB, p < 1.0 - conf + 1e-12))


@contract("C07", "exact-small", F, n_rand=60, modes="r")
def small(v):
    """two points: the replicate means are a, (a+b)/2, b with probabilities 1/4, 1/2, 1/4"""
    a, b = v.real("a"), v.real("b")
    v.assume(abs(a - b) > 1e-3 and abs(a + b) > 1e-3 and abs(a) > 1e-3 and abs(b) > 1e-3)
    conf = v.choice("conf", [0.95, 0.9, 0.6, 0.8])
    fn = v.choice("fn", ["sep", "both"])
    v.seed()
    m = v.m("mlpaper")
    x = v.np.array([a, b])
    if fn == "sep":
        EB, p = v.call(m.boot_EB, x, conf), v.call(m.boot_test, x)
    else:
        _, EB, p = v.call(m.get_mean_EB_test, x, conf, method="boot")
    v.ensures("EB", v.same(EB, abs(a - b) / 2, scale=abs(a) + abs(b)))
    lo = 0.25 * (a <= 0) + 0.25 * (b <= 0) + 0.5 * (a + b <= 0)
    e = min(1.0, 2 * min(lo, 1 - lo))
    s = 7 * (0.25 / 1000) ** 0.5 * 2 if 0 < e < 1 else (7 * 2 * (0.25 / 1000) ** 0.5 if e == 1 else 0.0)
    v.ensures("p", abs(p - e) <= s + 1e-12)


GM = ["get_mean_and_EB", "get_test", "get_mean_EB_test"]


@contract("C07", "front-ends.boot", [ML + g for g in GM], cases=[{"fn": f} for f in GM], stubs=STUBS + [ML + "clip_EB", "mlpaper.util.clip_chk"], n_rand=60, modes="p")
def front(v):
    from . import C02

    n = v.dim("n", 2)
    lower, upper = C02.limits(v)
    x = C02.data(v, n, lower, upper)
    conf = C06.conf_(v)
    m, f = v.m("mlpaper"), v.case["fn"]
    mu = EB = p = None
    if f == "get_mean_and_EB":
        mu, EB = v.call(m.get_mean_and_EB, x, conf, lower=lower, upper=upper, method="boot")
    elif f == "get_test":
        p = v.call(m.get_test, x, lower=lower, upper=upper, method="boot")
    else:
        mu, EB, p = v.call(m.get_mean_EB_test, x, conf, lower=lower, upper=upper, method="boot")
    nr, mb = reps(v, x, n)
    v.ensures("one-resample", len(v.draws()) == 1)
    v.ensures("default-1000-replicates", v.eq(nr, 1000))
    if EB is not None:
        v.ensures("mean", v.same(mu, spec.mean(v, x)))
        v.ensures("EB", v.same(EB, spec.clip_eb(v, mu, o_eb(v, mb, spec.mean(v, x), conf), lower, upper, 0.0)))
    if p is not None:
        v.ensures("p", v.same(p, o_sig(v, mb, 0.0)))


include("C07", "C06", "percentile", "error_bar", "significance", "boot_weights", "boot_weights.distribution", "coherent")
