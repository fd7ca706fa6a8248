"""C14: expected negative log-likelihood of the observations and its gradients."""
from .forms import forms
from .common import thin

BOUNDS = {"time_points": "4..5", "observations": "1..3 at every increasing list of indices",
          "larger sizes": "10..12 (150) time points, 4..6 (40) observations, state up to 4, observation up to "
                          "3; one in 6 inputs arbitrary, the others fixed",
          "dimension": "state 1..3, observation 1..3; any operator H (or none), any positive "
                       "definite noise"}


def times(h, n, k):
    t = [h.int(f"t{i}", 0, n - 1) for i in range(k)]
    for i in range(k - 1):
        h.assume(t[i] < t[i + 1])
    return [int(x) for x in t]


def scalar(h, n, k, op, again=False, at=None):
    G = h.mod("src.var_bayes.gaussian_like").GaussianLikelihood
    y, t = h.vec("y", k), at or times(h, n, k)
    m, s = h.vec("m", n), h.vec("s", n)
    H = h.real("H") if op else None
    r = h.pos("R")
    g = G(y, t, r, H, True)
    if again:
        # use it, then replace the noise
        g(m, s), g.gradients(m, s)
        r = h.pos("R2")
        g.noise = r
    c = H if op else h.const(1)
    half = h.const("1/2")
    e, dm, ds, dr = 0, h.zeros(n), h.zeros(n), h.zeros(n)
    for i, a in enumerate(t):
        w = y[i] - c * m[a]
        q = w * w + c * c * s[a]
        e = e + half * (q / r + h.log(h.pi * 2) + h.log(r))
        dm[a] = -c * w / r
        ds[a] = half * c * c / r
        dr[a] = half * (1 / r - q / (r * r))
    h.eq("Eobs", g(m, s), e)
    a, b, d = g.gradients(m, s)
    h.eq("dm", a, dm)
    h.eq("dS", b, ds)
    h.eq("dR", d, dr)


def matrix(h, n, k, d, q, op, listed=True, again=False, at=None):
    G = h.mod("src.var_bayes.gaussian_like").GaussianLikelihood
    y, t = h.mat("y", k, q), at or times(h, n, k)
    m = h.mat("m", n, d)
    S = h.stack([h.symmetric(f"S{i}", d) for i in range(n)])
    H = h.mat("H", q, d) if op else None
    R = h.spd("R", q)
    g = G(y, t if listed else h.np.array(t, dtype=int), R, H, False)
    if again:
        g(m, S), g.gradients(m, S)
        R = h.spd("Rnew", q)
        g.noise = R
    Hm = H if op else h.np.eye(d)
    P = h.inv(R)
    half = h.const("1/2")
    e, dm, ds, dr = 0, h.zeros(n, d), h.zeros(n, d, d), h.zeros(n, q, q)
    for i, a in enumerate(t):
        w = y[i] - Hm.dot(m[a])
        Q = Hm.dot(S[a]).dot(Hm.T)
        for u in range(q):
            for v in range(q):
                e = e + half * P[u, v] * (w[u] * w[v] + Q[v, u])
        e = e + half * (h.log(h.pi * 2) * q + h.log(h.det(R)))
        dm[a] = -Hm.T.dot(P.dot(w))
        ds[a] = Hm.T.dot(P).dot(Hm) * half
        W = h.arr([[w[u] * w[v] for v in range(q)] for u in range(q)]) + Q
        dr[a] = (P - P.dot(W).dot(P)) * half
    h.eq("Eobs", g(m, S), e)
    a, b, c = g.gradients(m, S)
    h.eq("dm", a, dm)
    h.eq("dS", b, ds)
    h.eq("dR", c, dr)


def accessors(h):
    G = h.mod("src.var_bayes.gaussian_like").GaussianLikelihood
    y, r = h.vec("y", 2), h.pos("R")
    g = G(y, [1, 2], r, None, True)
    h.eq("values", g.values, y)
    h.eq("noise", g.noise, r)
    h.eq("times", g.times, [h.const(1), h.const(2)])
    h.eq("operator", g.operator, h.const(1))


def given(h, I, one, op):
    G = h.mod("src.var_bayes.gaussian_like").GaussianLikelihood
    if one:
        g = I.make("g", lambda: G(I.arr("y", (2,)), [1, 3], I.num("R", True),
                                  I.num("H", True) if op else None, True))
        m, s = I.flo("m", (5,)), I.flo("s", (5,), pos=True)
    else:
        g = I.make("g", lambda: G(I.arr("y", (2, 2)), [1, 3], I.spd("R", 2),
                                  I.arr("H", (2, 2)) if op else None, False))
        m, s = I.flo("m", (5, 2)), I.spd("s", 2, 5, flo=True)
    return g(m, s), g.gradients(m, s)


def harnesses(thorough):
    out = [("scalar-1", scalar, dict(n=4, k=1, op=True)),
           ("scalar-3", scalar, dict(n=5, k=3, op=False)),
           ("scalar-again", scalar, dict(n=3, k=1, op=True, again=True)),
           ("accessors", accessors, {}),
           ("matrix-1-1", matrix, dict(n=3, k=1, d=1, q=1, op=True)),
           ("matrix-2-2", matrix, dict(n=4, k=2, d=2, q=2, op=False, listed=False)),
           ("matrix-2-2-op", matrix, dict(n=3, k=1, d=2, q=2, op=True)),
           ("matrix-2-1", matrix, dict(n=4, k=2, d=2, q=1, op=True)),
           ("matrix-1-2", matrix, dict(n=3, k=1, d=1, q=2, op=True, listed=False)),
           ("matrix-again", matrix, dict(n=2, k=1, d=2, q=2, op=False, again=True)),
           ("matrix-3-3", matrix, dict(n=2, k=1, d=3, q=3, op=False))]
    out += [("long-1", scalar, dict(n=12, k=5, op=True, at=[0, 3, 4, 7, 11])),
            ("long-3-2", thin(matrix, 6), dict(n=10, k=4, d=3, q=2, op=True, at=[1, 2, 5, 9])),
            ("long-4-3", thin(matrix, 6), dict(n=9, k=3, d=4, q=3, op=True, at=[0, 4, 8],
                                               listed=False)),
            ("long-2-2", thin(matrix, 4), dict(n=12, k=6, d=2, q=2, op=False,
                                               at=[1, 2, 3, 6, 9, 10]))]
    out += [("longer-1", thin(scalar, 8), dict(n=150, k=40, op=True, at=list(range(3, 150, 3))[:40])),
            ("longer-2", thin(matrix, 24), dict(n=60, k=25, d=2, q=2, op=True,
                                                at=list(range(1, 59, 2))[:25]))]
    if thorough:
        out += [("matrix-3-2", matrix, dict(n=4, k=2, d=3, q=2, op=True)),
                ("matrix-3-3-op", matrix, dict(n=3, k=2, d=3, q=3, op=True)),
                ("scalar-4", scalar, dict(n=7, k=4, op=True))]
    for one in (True, False):
        for op in (False, True):
            out += forms(f"forms-{1 if one else 2}-{'H' if op else 'I'}", given, one=one, op=op)
    return out
