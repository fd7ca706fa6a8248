"""C10: the unscented transform."""
from .forms import forms
from .common import thin

BOUNDS = {"dimension": "1..3 (any mean, any positive definite covariance)",
          "larger sizes": "affine maps d = 4, 5, quadratic maps d = 3, 4; one in 8 inputs arbitrary, "
                          "the others fixed",
          "functions": "affine maps (d <= 3), all quadratic maps (d <= 2), all cubic and quartic "
                       "maps (d = 1), with any coefficients",
          "fallback": "every 2 x 2 matrix with positive diagonal that is not positive definite"}


def points(h, m, C, d):
    """Sigma points as lists, centre first, and their weights."""
    k = h.const("1.05") * d
    s = h.sqrt(k + d)
    pts = [list(m)]
    for sg in (1, -1):
        for j in range(d):
            pts.append([m[i] + s * C[i, j] * sg for i in range(d)])
    w0 = k / (k + d)
    w = 1 / ((k + d) * 2)
    return pts, [w0] + [w] * (2 * d)


def expect(h, y, w):
    n = len(y[0])
    mean = [sum(w[i] * y[i][a] for i in range(len(y))) for a in range(n)]
    cov = [[sum(w[i] * (y[i][a] - mean[a]) * (y[i][b] - mean[b]) for i in range(len(y)))
            for b in range(n)] for a in range(n)]
    return h.arr(mean), h.arr(cov)


def affine(h, d, q):
    ut = h.mod("src.numerics.utilities").ut_approx
    m, S, B, c = h.vec("m", d), h.spd("S", d), h.mat("B", q, d), h.vec("c", q)
    y, C = ut(lambda x, M, k: x.dot(M.T) + k, m, S, B, c)
    h.eq("mean", y, B.dot(m) + c)
    h.eq("cov", C, B.dot(S).dot(B.T))


def nonlinear(h, d, deg):
    """Mean and covariance are the weighted ones over the documented sigma points; the mean is
    the exact expectation for quadratic maps."""
    ut = h.mod("src.numerics.utilities").ut_approx
    m, S = h.vec("m", d), h.spd("S", d)
    L = h.chol(S)
    a, Q = h.mat("a", 2, d), h.ten("Q", (2, d, d))
    co = [h.vec(f"c{e}", 2) for e in range(3, deg + 1)]

    def f(x):
        out = []
        for r in range(x.shape[0]):
            row = []
            for k in range(2):
                v = 0
                for i in range(d):
                    v = v + a[k, i] * x[r, i]
                    for j in range(d):
                        v = v + Q[k, i, j] * x[r, i] * x[r, j]
                    for e, c in enumerate(co):
                        p = x[r, i]
                        for _ in range(e + 2):
                            p = p * x[r, i]
                        v = v + c[k] * p
                row.append(v)
            out.append(row)
        return h.arr(out)
    y, C = ut(f, m, S)
    pts, w = points(h, m, L, d)
    ys = f(h.arr(pts))
    em, ec = expect(h, [list(r) for r in ys], w)
    h.eq("mean", y, em)
    h.eq("cov", C, ec)
    if deg == 2:
        h.eq("exact mean", y, h.arr([a[k].dot(m) + sum(
            Q[k, i, j] * (m[i] * m[j] + S[i, j]) for i in range(d) for j in range(d))
            for k in range(2)]))


def fallback(h):
    """If the covariance is not positive definite, its diagonal is used."""
    ut = h.mod("src.numerics.utilities").ut_approx
    m, p, q, r = h.vec("m", 2), h.pos("p"), h.real("q", hint=(2, 3)), h.pos("r")
    h.assume(q * q >= p * r)
    if not h.symbolic:
        h.assume(q * q >= p * r * 1.001)
    S = h.arr([[p, q], [q, r]])
    Q = h.ten("Q", (1, 2, 2))

    def f(x):
        return h.arr([[sum(Q[0, i, j] * x[t, i] * x[t, j] for i in range(2) for j in range(2))]
                      for t in range(x.shape[0])])
    y, C = ut(f, m, S)
    z = h.const(0)
    D = h.arr([[h.sqrt(p), z], [z, h.sqrt(r)]])
    pts, w = points(h, m, D, 2)
    em, ec = expect(h, [list(v) for v in f(h.arr(pts))], w)
    h.eq("mean", y, em)
    h.eq("cov", C, ec)


def given(h, I):
    ut = h.mod("src.numerics.utilities").ut_approx
    return ut(lambda x, M: x.dot(M.T), I.flo("m", (2,)), I.spd("S", 2, flo=True), I.arr("B", (3, 2)))


def harnesses(thorough):
    out = [(f"affine-{d}", affine, dict(d=d, q=2)) for d in (1, 2, 3)]
    out += [("quadratic-1", nonlinear, dict(d=1, deg=2)), ("quartic-1", nonlinear, dict(d=1, deg=4)),
            ("quadratic-2", nonlinear, dict(d=2, deg=2)), ("fallback", fallback, {}),
            ("affine-wide-4", thin(affine, 8), dict(d=4, q=3)),
            ("affine-wide-5", thin(affine, 8), dict(d=5, q=2)),
            ("quadratic-wide-3", thin(nonlinear, 8), dict(d=3, deg=2)),
            ("quadratic-wide-4", thin(nonlinear, 8), dict(d=4, deg=2))]
    if thorough:
        out += [("cubic-2", nonlinear, dict(d=2, deg=3)), ("quadratic-3", nonlinear, dict(d=3, deg=2)),
                ("affine-4", affine, dict(d=4, q=3))]
    out += forms("forms", given)
    return out
