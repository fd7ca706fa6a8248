"""C05: the scalar forms agree with the matrix forms for one-dimensional systems."""
from .common import METHODS, thin
from .c03 import bwd_inputs

BOUNDS = {"time_points": "3 (sweeps), 4 (likelihood); 9 and 12 with one in 4 inputs arbitrary", "dimension": "1",
          "methods": list(METHODS), "observations": "1..2 at any distinct times"}


def fwd(h, method, n):
    F = h.mod("src.var_bayes.fwd_ode").FwdOde
    A, b, m0, s0, sig, dt = (h.vec("A", n), h.vec("b", n), h.real("m0"), h.real("s0"),
                             h.pos("sig"), h.dt())
    m1, s1 = F(dt, method, True)(A, b, m0, s0, sig)
    m2, s2 = F(dt, method, False)(A.reshape(n, 1, 1), b.reshape(n, 1), h.arr([m0]),
                                  h.arr([[s0]]), h.arr([[sig]]))
    h.eq("m", m1, m2.reshape(n))
    h.eq("S", s1, s2.reshape(n))


def bwd(h, method, n):
    B = h.mod("src.var_bayes.bwd_ode").BwdOde
    A, Em, Es, Om, Os = bwd_inputs(h, True, n, 1)
    dt = h.dt()
    l1, p1 = B(dt, method, True)(A, Em, Es, Om, Os)
    c, v = (lambda x: x.reshape(n, 1, 1)), (lambda x: x.reshape(n, 1))
    l2, p2 = B(dt, method, False)(c(A), v(Em), c(Es), v(Om), c(Os))
    h.eq("lambda", l1, l2.reshape(n))
    h.eq("Psi", p1, p2.reshape(n))


def kl0(h):
    K = h.mod("src.var_bayes.prior_kl0").PriorKL0
    mu, tau, m, s, la, ps = (h.real("mu"), h.pos("tau"), h.real("m"), h.pos("s"), h.real("lam"),
                             h.real("psi"))
    a = K(mu, tau, True)
    b = K(h.arr([mu]), h.arr([[tau]]), False)
    v, w = (lambda x: h.arr([x])), (lambda x: h.arr([[x]]))
    h.eq("KL0", a(m, s), b(v(m), w(s)))
    g1, g2 = a.gradients(m, s, la, ps), b.gradients(v(m), w(s), v(la), w(ps))
    h.eq("dm0", g1[0], g2[0][0])
    h.eq("ds0", g1[1], g2[1][0, 0])


def like(h, n, k, at=None):
    G = h.mod("src.var_bayes.gaussian_like").GaussianLikelihood
    y, r = h.vec("y", k), h.pos("R")
    t = at
    if at is None:
        t = [h.int(f"t{i}", 0, n - 1) for i in range(k)]
        for i in range(k - 1):
            h.assume(t[i] < t[i + 1])
        t = [int(x) for x in t]
    m, s = h.vec("m", n), h.vec("s", n, pos=True)
    H = h.real("H")
    a = G(y, t, r, H, True)
    b = G(y.reshape(k, 1), t, h.arr([[r]]), h.arr([[H]]), False)
    ms, ss = m.reshape(n, 1), s.reshape(n, 1, 1)
    h.eq("Eobs", a(m, s), b(ms, ss))
    for nm, x, z in zip(("dm", "ds", "dr"), a.gradients(m, s), b.gradients(ms, ss)):
        h.eq(nm, x, z.reshape(n))


def harnesses(thorough):
    out = []
    for m in METHODS:
        out.append((f"fwd-{m}", fwd, dict(method=m, n=3)))
        out.append((f"bwd-{m}", bwd, dict(method=m, n=3)))
    out += [("kl0", kl0, {}), ("like-1", like, dict(n=4, k=1)), ("like-2", like, dict(n=4, k=2)),
            ("like-long", like, dict(n=12, k=5, at=[0, 2, 3, 7, 11]))]
    for m in METHODS:
        out.append((f"fwd-{m}-long", thin(fwd, 4), dict(method=m, n=9)))
        out.append((f"bwd-{m}-long", thin(bwd, 4), dict(method=m, n=9)))
    if thorough:
        for m in METHODS:
            if m != "rk4":
                out.append((f"fwd-{m}-5", fwd, dict(method=m, n=5)))
                out.append((f"bwd-{m}-5", bwd, dict(method=m, n=5)))
        out.append(("like-4", like, dict(n=6, k=4)))
    return out
