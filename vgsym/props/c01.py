"""C01: non-central Gaussian moments and their derivatives, orders 0..8."""
from math import comb, prod

BOUNDS = {"orders": "0..8 computed; every integer order in -60..60 outside is rejected",
          "array_length": "1..3; 8 pairs of layouts for mismatches", "values": "every real mean and variance"}


def moment(n, m, v):
    """E[(m + sqrt(v) z)^n], z standard normal (binomial expansion)."""
    out = 0
    for k in range(n // 2 + 1):
        t = comb(n, 2 * k) * prod(range(1, 2 * k, 2))
        for _ in range(n - 2 * k):
            t = t * m
        for _ in range(k):
            t = t * v
        out = out + t
    return out


def values(h, n):
    G = h.mod("src.var_bayes.gaussian_moments").GaussianMoments
    m, v = h.vec("m", n), h.vec("v", n)
    g = G(m, v)
    for k in range(9):
        h.eq(f"moment {k}", g(k), [moment(k, m[i], v[i]) + m[i] * 0 for i in range(n)])
        if k:
            h.eq(f"dm {k}", g.dm(k), [moment(k - 1, m[i], v[i]) * k + m[i] * 0 for i in range(n)])
            # d/dv E[x^k] = k (k-1) / 2 E[x^(k-2)]
            h.eq(f"ds {k}", g.ds(k), [
                (moment(k - 2, m[i], v[i]) * (k * (k - 1) // 2) if k > 1 else 0) + m[i] * 0
                for i in range(n)])
    # asking again, in another order, gives the same answers
    h.eq("again 3", g(3), [moment(3, m[i], v[i]) for i in range(n)])
    h.eq("again 1", g(1), m)


def scalar(h):
    G = h.mod("src.var_bayes.gaussian_moments").GaussianMoments
    m, v = h.real("m"), h.real("v")
    g = G(m, v)
    k = h.choice("order", list(range(9)))
    h.eq(f"moment {k}", g(k)[0], moment(k, m, v))


def rejects(h):
    G = h.mod("src.var_bayes.gaussian_moments").GaussianMoments
    g = G(h.vec("m", 2), h.vec("v", 2))
    k = h.int("order", -60, 60)
    big = h.disj(k < 0, k > 8)
    h.assume(big)
    h.raises("moment", ValueError, lambda: g(k))
    h.raises("dm", ValueError, lambda: g.dm(k))
    h.raises("ds", ValueError, lambda: g.ds(k))
    h.raises("dm 0", ValueError, lambda: g.dm(0))
    h.raises("ds 0", ValueError, lambda: g.ds(0))


def shapes(h):
    G = h.mod("src.var_bayes.gaussian_moments").GaussianMoments
    a = h.choice("na", [1, 2, 3])
    b = h.choice("nb", [1, 2, 3])
    h.assume(a != b)
    h.raises("mismatch", RuntimeError, lambda: G(h.vec("m", a), h.vec("v", b)))


def layouts(h, sm, sv):
    """The same number of values in another layout does not match either."""
    G = h.mod("src.var_bayes.gaussian_moments").GaussianMoments
    h.raises("mismatch", RuntimeError, lambda: G(h.ten("m", sm), h.ten("v", sv)))


def harnesses(thorough):
    out = [("values-1", values, dict(n=1)), ("values-2", values, dict(n=2)),
           ("scalar", scalar, {}), ("rejects", rejects, {}), ("shapes", shapes, {})]
    for a, b in (((2, 3), (3, 2)), ((1, 3), (3,)), ((3,), (3, 1)), ((4,), (2, 2)), ((1, 2), (2, 1)),
                 ((2, 3), (2, 2)), ((2,), (2, 2)), ((2, 1, 1), (2, 1))):
        n = "x".join(map(str, a)) + "-" + "x".join(map(str, b))
        out.append((f"layouts-{n}", layouts, dict(sm=a, sv=b)))
    if thorough:
        out.append(("values-5", values, dict(n=5)))
    return out
