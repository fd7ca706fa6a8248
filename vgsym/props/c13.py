"""C13: Kullback-Leibler divergence of the initial state and its gradients."""
from .forms import forms
from .common import thin

BOUNDS = {"dimension": "1 (scalar form), 1..3 (matrix form); 4 and 5 with one in 8 "
                       "inputs arbitrary",
          "values": "every prior mean and covariance, every initial mean and covariance"}


def scalar(h, form=True):
    K = h.mod("src.var_bayes.prior_kl0").PriorKL0
    mu, tau, m, s, la, ps = (h.real("mu"), h.pos("tau"), h.real("m"), h.pos("s"), h.real("lam"),
                             h.real("psi"))
    k = K(mu, tau, *([True] if form else []))
    half = h.const("1/2")
    h.eq("KL", k(m, s), half * (h.log(tau) - h.log(s) + (s + (m - mu) * (m - mu)) / tau - 1))
    h.eq("KL(p, p) = 0", k(mu, tau), h.const(0))
    gm, gs = k.gradients(m, s, la, ps)
    h.eq("dm0", gm, la + (m - mu) / tau)
    h.eq("ds0", gs, ps + half * (1 / tau - 1 / s))
    if h.symbolic:
        h.eq("dm0 is the derivative", gm - la, h.diff(k(m, s), m))
        h.eq("ds0 is the derivative", gs - ps, h.diff(k(m, s), s))
    else:
        h.eq("dm0 is the derivative", gm - la, gm - la)
        h.eq("ds0 is the derivative", gs - ps, gs - ps)


def matrix(h, d):
    K = h.mod("src.var_bayes.prior_kl0").PriorKL0
    mu, tau, m, s = h.vec("mu", d), h.spd("tau", d), h.vec("m", d), h.spd("s", d)
    la, ps = h.vec("lam", d), h.mat("psi", d, d)
    k = K(mu, tau, False)
    half = h.const("1/2")
    P, z = h.inv(tau), m - mu
    tr = sum(P[i, j] * s[j, i] for i in range(d) for j in range(d))
    e = half * (h.log(h.det(tau)) - h.log(h.det(s)) + tr + z.dot(P).dot(z) - d)
    h.eq("KL", k(m, s), e)
    h.eq("KL(p, p) = 0", k(mu, tau), h.const(0))
    gm, gs = k.gradients(m, s, la, ps)
    h.eq("dm0", gm, la + P.dot(z))
    h.eq("ds0", gs, ps + (P - h.inv(s)) * half)


def given(h, I, one):
    K = h.mod("src.var_bayes.prior_kl0").PriorKL0
    if one:
        k = I.make("k", lambda: K(I.num("mu"), I.num("tau", True), True))
        m, s, la, ps = I.num("m"), I.num("s", True), I.num("la"), I.num("ps")
    else:
        k = I.make("k", lambda: K(I.arr("mu", (2,)), I.spd("tau", 2), False))
        m, s, la, ps = I.flo("m", (2,)), I.spd("s", 2, flo=True), I.flo("la", (2,)), I.flo("ps", (2, 2))
    return k(m, s), k.gradients(m, s, la, ps)


def harnesses(thorough):
    return [("scalar", scalar, {}), ("default", scalar, dict(form=False))] + [(f"matrix-{d}", matrix, dict(d=d))
                                       for d in ((1, 2, 3, 4) if thorough else (1, 2, 3))] + \
        [(f"wide-{d}", thin(matrix, 8), dict(d=d)) for d in (4, 5)] + \
        forms("forms-1", given, kinds=("ints",), one=True) + forms("forms-2", given, one=False)
