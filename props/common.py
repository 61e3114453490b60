"""Input builders shared by the contracts."""


def logprobs(v, name, n, k, norm=False, zeros=True):
    """(n, k) log predictive weights; norm: rows are distributions. Log 0 = -inf allowed; rows never all zero."""

    def gen(r, shape):
        st = r.randint(5)
        if st == 0:
            a = r.dirichlet([1.0] * shape[1], size=shape[0]) if shape[0] else r.rand(*shape)
        elif st == 1:
            a = r.randint(0, 3, size=shape).astype(float)
        elif st == 2:
            a = 10.0 ** r.uniform(-8, 8, size=shape)
        elif st == 3:
            a = r.rand(*shape) * (r.rand(*shape) < 0.6)
        else:
            a = r.rand(*shape) + 0.01
        a = a + 0.0
        if shape[0]:
            z = a.sum(axis=1) <= 0
            a[z, 0] = 1.0
            if not zeros:
                a = a + 1e-3
            if norm:
                a = a / a.sum(axis=1, keepdims=True)
        return a

    lp = v.array(name, (n, k), lo=0.0, open="" if zeros else "l", log=True, gen=gen)
    if v.sym:
        v.assume_each(n, lambda i: v.gt0(v.sum(k, lambda j: v.exp(v.at(lp, i, j))), 0.0), on=[lp])
        if norm:
            v.assume_each(n, lambda i: v.eq(v.sum(k, lambda j: v.exp(v.at(lp, i, j))), 1.0), on=[lp])
    elif not norm and (v.rng is not None or v.has(name + ":shift")):
        s = v.array(name + ":shift", n, gen=lambda r, sh: r.choice([0.0, 1.0]) * r.choice([1.0, 700.0, 5000.0, 1e-3], size=sh) * r.randn(*sh))
        lp = lp + s[:, None]
    return lp


def labels(v, name, n, k, kind="i"):
    if kind == "b":
        return v.array(name, n, kind="b")
    return v.array(name, n, kind="i", lo=0, hi=k - 1, gen=lambda r, sh: r.randint(0, k, size=sh))
