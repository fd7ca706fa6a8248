"""C11: inverse and log-determinant by Cholesky."""
from .forms import forms
from .common import thin

BOUNDS = {"dimension": "scalars, 1..3 (4 in the thorough tier); 5 with one in 8 inputs arbitrary",
          "matrices": "every symmetric positive definite matrix; vectors of positive entries",
          "histories": "the inverse of S, then of D S D with D = diag(1, -1, ..), then of S; the "
                       "same array refilled between calls"}


def inverse(h, d):
    f = h.mod("src.numerics.utilities").chol_inv
    S = h.spd("S", d)
    P, W = f(S)
    h.eq("P S = I", P.dot(S), h.np.eye(d))
    h.eq("P symmetric", P, P.T)
    h.eq("W'W = P", W.T.dot(W), P)
    h.eq("W S W' = I", W.dot(S).dot(W.T), h.np.eye(d))
    for i in range(d):
        for j in range(i + 1, d):
            h.eq(f"W lower {i}{j}", W[i, j], h.const(0))


def scalar(h):
    u = h.mod("src.numerics.utilities")
    x = h.pos("x")
    P, W = u.chol_inv(x)
    h.eq("P x = 1", P * x, h.const(1))
    h.eq("W^2 = P", W * W, P)
    h.le("W >= 0", h.const(0), W)
    h.eq("log_det scalar", u.log_det(x), h.log(x))


def logdet(h, d):
    f = h.mod("src.numerics.utilities").log_det
    S = h.spd("S", d)
    h.eq("log det", f(S), h.log(h.det(S)))
    v = h.vec("v", d, pos=True)
    p = v[0]
    for i in range(1, d):
        p = p * v[i]
    h.eq("vector", f(v), h.log(p))


def again(h, d):
    """After the inverse of S, that of D S D (D = diag(+-1)): the same diagonal, sign pattern
    aside the same entries; and S again."""
    u = h.mod("src.numerics.utilities")
    S = h.spd("S", d)
    D = h.const(-1) * h.np.eye(d)
    D[0, 0] = h.const(1)
    T = D.dot(S).dot(D)
    h.spd_like(S, T, D)
    for k, M in enumerate((S, T, S)):
        P, W = u.chol_inv(M)
        h.eq(f"P M = I ({k})", P.dot(M), h.np.eye(d))
        h.eq(f"W M W' = I ({k})", W.dot(M).dot(W.T), h.np.eye(d))
        h.eq(f"log det ({k})", u.log_det(M), h.log(h.det(S)))


def reuse(h, d):
    """The matrix is changed in place between two calls."""
    u = h.mod("src.numerics.utilities")
    S, T = h.spd("S", d), h.spd("T", d)
    M = S.copy()
    u.chol_inv(M)
    u.log_det(M)
    M[...] = T
    P, W = u.chol_inv(M)
    h.eq("P T = I", P.dot(T), h.np.eye(d))
    h.eq("W T W' = I", W.dot(T).dot(W.T), h.np.eye(d))
    h.eq("log det", u.log_det(M), h.log(h.det(T)))


def rejects(h):
    f = h.mod("src.numerics.utilities").log_det
    r, c = h.choice("r", [1, 2, 3]), h.choice("c", [1, 2, 3])
    h.assume(r != c)
    h.raises("not square", RuntimeError, lambda: f(h.mat("x", r, c)))


def given(h, I, d):
    u = h.mod("src.numerics.utilities")
    S = I.spd("S", d)
    return u.chol_inv(S), u.log_det(S), u.log_det(I.arr("v", (d,), pos=True))


def harnesses(thorough):
    out = [("scalar", scalar, {}), ("rejects", rejects, {}),
           ("again-2", again, dict(d=2)), ("again-3", thin(again, 2), dict(d=3)),
           ("reuse-2", reuse, dict(d=2))]
    for d in (1, 2, 3) + ((4,) if thorough else ()):
        out += [(f"inverse-{d}", inverse, dict(d=d)), (f"logdet-{d}", logdet, dict(d=d))]
    out += [("inverse-wide-5", thin(inverse, 8), dict(d=5)),
            ("logdet-wide-5", thin(logdet, 8), dict(d=5))]
    out += forms("forms-2", given, d=2) + forms("forms-3", given, 2, d=3)
    return out
