"""C04: the backward sweep is the adjoint of the forward sweep."""
from .common import METHODS, thin

BOUNDS = {"time_points": "3 (one and two steps for the scalar form: 4)",
          "larger sizes": "6 time points (scalar form); dimension 3, 4 time points, one in 4 "
                          "inputs arbitrary, the others fixed",
          "dimension": "1 (scalar form), 2 (matrix form); 3 in the thorough tier",
          "methods": "all four for constant A; Heun and RK4 for time-varying A"}


def duality(h, method, one, d, steps, const):
    """<response of m(j) to m0, g> = <m0, multiplier caused by g>, likewise for covariances."""
    F = h.mod("src.var_bayes.fwd_ode").FwdOde
    B = h.mod("src.var_bayes.bwd_ode").BwdOde
    n, j = steps + 2, steps
    dt = h.dt()
    if one:
        A = h.stack([h.real("A")] * n) if const else h.vec("A", n)
        b, u, U, sig = h.zeros(n), h.real("u"), h.real("U"), h.const(0)
        g, G = h.real("g"), h.real("G")
        Em, Es, Om, Os = h.zeros(n), h.zeros(n), h.zeros(n), h.zeros(n)
    else:
        A = h.stack([h.mat("A", d, d)] * n) if const else h.ten("A", (n, d, d))
        b, u, U, sig = h.zeros(n, d), h.vec("u", d), h.symmetric("U", d), h.zeros(d, d)
        g, G = h.vec("g", d), h.symmetric("G", d)
        Em, Es, Om, Os = h.zeros(n, d), h.zeros(n, d, d), h.zeros(n, d), h.zeros(n, d, d)
    Om[j], Os[j] = g, G
    mt, st = F(dt, method, one)(A, b, u, U, sig)
    lam, psi = B(dt, method, one)(A, Em, Es, Om, Os)
    if one:
        h.eq("mean", g * mt[j], lam[0] * u)
        h.eq("cov", G * st[j], psi[0] * U)
    else:
        h.eq("mean", g.dot(mt[j]), lam[0].dot(u))
        h.eq("cov", (G * st[j]).sum(), (psi[0] * U).sum())


def harnesses(thorough):
    out = []
    for m in METHODS:
        for const in ((True,) if m in ("euler", "rk2") else (True, False)):
            tag = "const" if const else "varying"
            out.append((f"adj-{m}-{tag}-scalar", duality,
                        dict(method=m, one=True, d=1, steps=2, const=const)))
            out.append((f"adj-{m}-{tag}-d2", duality,
                        dict(method=m, one=False, d=2, steps=1, const=const)))
            out.append((f"adj-{m}-{tag}-long", duality,
                        dict(method=m, one=True, d=1, steps=4, const=const)))
            out.append((f"adj-{m}-{tag}-wide", thin(duality, 4),
                        dict(method=m, one=False, d=3, steps=2, const=const)))
            if thorough:
                out.append((f"adj-{m}-{tag}-d3", duality,
                            dict(method=m, one=False, d=3, steps=1, const=const)))
                if m != "rk4":
                    out.append((f"adj-{m}-{tag}-d2-2", duality,
                                dict(method=m, one=False, d=2, steps=2, const=const)))
    return out
