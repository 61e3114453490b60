"""Independent numerical oracles for the run-time monitoring (no call into mlpaper)."""
import math
import numpy as np
import scipy.stats as sst

INF = float("inf")


# --- curves -----------------------------------------------------------------
def counts(y, s, w):
    """(F, T, thr), one row per weight row, counted threshold by threshold"""
    y = np.asarray(y, dtype=bool)
    W = np.ones((1, len(y))) if w is None else w
    thr = np.array([INF] + sorted(set(float(x) for x in s), reverse=True))
    F = np.array([[math.fsum(Wb[(~y) & (s >= t)]) for t in thr] for Wb in W])
    T = np.array([[math.fsum(Wb[y & (s >= t)]) for t in thr] for Wb in W])
    if y.all():
        F = 1e-10 * T
    if not y.any():
        T = 1e-10 * F
    return F, T, thr


def roc(y, s, w=None):
    F, T, thr = counts(y, s, w)
    return (F / F[:, -1:], T / T[:, -1:], "linear"), thr


def rp(y, s, w=None):
    F, T, thr = counts(y, s, w)
    with np.errstate(all="ignore"):
        p = T / (T + F)
    p[:, 0] = p[:, 1]
    return (T / T[:, -1:], p, "previous"), thr


def prg(y, s, w=None):
    F, T, thr = counts(y, s, w)
    N, P = F[:, -1:], T[:, -1:]
    with np.errstate(all="ignore"):
        r = np.where(T > 0, np.maximum(0.0, 1.0 - P * (P - T) / (N * T)), 0.0)
        p = 1.0 - P * F / (N * T)
    p[:, 0] = p[:, 1]
    return (r, p, "previous"), thr


def area(x, y, kind):
    out = []
    for a, b in zip(x, y):
        d = np.diff(a)
        if kind == "previous":
            t = [0.0 if q == 0 else q * c for q, c in zip(d, b[:-1])]
        else:
            t = [q * (c + e) / 2.0 for q, c, e in zip(d, b[:-1], b[1:])]
        out.append(math.fsum(t) if all(math.isfinite(z) for z in t) else float(np.sum(t)))
    return np.array(out)


def interp(g, x, y, kind):
    """rows of x, y evaluated at g: last knot at or before g, linear in between for 'linear'"""
    R = []
    for a, b in zip(x, y):
        r = []
        for q in g:
            k = max(i for i in range(len(a)) if a[i] <= q)
            if kind == "previous" or k == len(a) - 1 or a[k] == q:
                r.append(b[k])
            else:
                r.append(b[k] + (b[k + 1] - b[k]) * ((q - a[k]) / (a[k + 1] - a[k])))
        R.append(r)
    return np.array(R).reshape(len(x), len(g))


def interp_range(g, x, y, kind, eps=1e-9):
    """smallest and largest value within rounding of each grid point"""
    lo = hi = None
    for d in (-eps, 0.0, eps):
        q = interp(rnp_clip(g, d, x), x, y, kind)
        lo = q if lo is None else np.minimum(lo, q)
        hi = q if hi is None else np.maximum(hi, q)
    return lo, hi


def rnp_clip(g, d, x):
    return np.clip(np.asarray(g) + d, max(a[0] for a in x), None)


# --- bootstrap statistics, as intervals of acceptable values ---------------------
def kths(x, pos, how):
    s = sorted(x)
    f = math.floor if how == "lower" else math.ceil
    return {s[min(max(f(pos + d), 0), len(s) - 1)] for d in (-1e-7, 0.0, 1e-7)}


def pct(x, conf):
    """(lower set, upper set) of acceptable percentile interval ends"""
    n, a = len(x), 50.0 * (1.0 - conf) / 100.0
    return kths(x, a * (n - 1), "lower"), kths(x, (1.0 - a) * (n - 1), "upper")


def near(a, b, rtol=1e-7, scale=1.0):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rtol * max(abs(a), abs(b), scale)


def fmax(a, b):
    """an undefined side (infinite limit and estimate) does not count"""
    return b if math.isnan(a) else a if math.isnan(b) else max(a, b)


def eb_ok(got, boot, orig, conf, scale=1.0, rtol=1e-7):
    L, U = pct(boot, conf)
    return any(near(got, fmax(u - orig, orig - l), rtol, scale) for l in L for u in U)


def eb_lt(boot, orig, conf, c):
    """every acceptable error bar is below c"""
    L, U = pct(boot, conf)
    return all(max(u - orig, orig - l) < c for l in L for u in U)


def sig_ok(got, boot, ref, tol=1e-9):
    """got is the significance, for some resolution of the near ties"""
    boot = np.asarray(boot, dtype=float)
    ref = np.broadcast_to(np.asarray(ref, dtype=float), boot.shape)
    n = len(boot)
    with np.errstate(invalid="ignore"):
        d = np.where(boot == ref, 0.0, boot - ref)
    t = tol * np.maximum(1.0, np.where(np.isfinite(ref), np.abs(ref), 1.0))
    # exact, or any resolution of the near ties
    lo = 2.0 * min(np.sum(d < -t) / n, np.sum(d > t) / n)
    hi = 2.0 * min(np.sum(d <= t) / n, np.sum(d >= -t) / n)
    return min(lo, 1.0) - 1e-12 <= got <= min(1.0, hi) + 1e-12


# --- means ------------------------------------------------------------------------
def t_stats(x, conf):
    """(mean, t error bar, two sided p)"""
    n = len(x)
    mu = float(np.mean(x)) if n else math.nan
    if n <= 1 or not np.all(np.isfinite(x)):
        return mu, INF, 1.0
    m = math.fsum(x) / n
    s2 = math.fsum((a - m) ** 2 for a in x) / (n - 1)
    eb = float(sst.t.ppf((1 + conf) / 2.0, n - 1)) * math.sqrt(s2 / n)
    if np.all(np.asarray(x) == x[0]):
        return mu, 0.0, 1.0 if x[0] == 0 else 0.0
    if s2 == 0:
        return mu, eb, None
    return mu, eb, 2.0 * float(sst.t.sf(abs(m) / math.sqrt(s2 / n), n - 1))


def bern_stats(x, conf, lower, upper):
    n = len(x)
    mu = float(np.mean(x))
    R = upper - lower
    if n <= 1 or not np.all(np.isfinite(x)):
        return mu, R, 1.0
    m = math.fsum(x) / n
    sd = math.sqrt(math.fsum((a - m) ** 2 for a in x) / n)
    A = math.log(3.0 / (1.0 - conf))
    eb = sd * math.sqrt(2.0 * A / n) + 3.0 * R * A / n
    if R == 0 or R == INF:
        return mu, eb, 1.0
    a, b, c = 3.0 * R / n, sd * math.sqrt(2.0 / n), abs(m)
    r = (math.sqrt(b * b + 4 * a * c) - b) / (2 * a)
    return mu, eb, min(1.0, 3.0 * math.exp(-r * r))


def clip_eb(mu, eb, lower, upper):
    if math.isnan(eb):
        return eb
    hi = INF if math.isnan(mu) else max(upper - mu, mu - lower)
    return min(max(eb, 0.0), hi)


# --- losses -------------------------------------------------------------------------
def lognorm(lp):
    out = np.empty_like(lp)
    for i, r in enumerate(lp):
        m = max(r)
        out[i] = r - (m + math.log(math.fsum(math.exp(q - m) for q in r)))
    return out


def class_loss(name, y, lp):
    """per-case loss, a set of acceptable values (ties in the decision)"""
    n, k = lp.shape
    out = []
    for i in range(n):
        p = np.exp(lp[i])
        t = int(y[i])
        if name == "NLL":
            out.append([-lp[i, t]])
        elif name == "zero_one":
            m = max(p)
            near_ = [j for j in range(k) if p[j] >= m * (1 - 1e-9) - 1e-300]
            out.append(sorted({0.0 if j == t else 1.0 for j in near_}))
        elif name == "Brier":
            b = math.fsum((p[j] - (1.0 if j == t else 0.0)) ** 2 for j in range(k))
            z = 1.0 - 1.0 / k
            out.append([b / z if k > 1 else b])
        elif name == "sphere":
            q = -p[t] / math.sqrt(math.fsum(p * p))
            c = 1.0 / math.sqrt(k)
            out.append([(q + 1.0) / (1.0 - c) if k > 1 else q + 1.0])
        else:
            raise KeyError(name)
    return out
