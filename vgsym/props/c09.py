"""C09: Lorenz-96 energy, drift moments and gradients (diagonal system noise)."""
from .forms import forms
from .energy import *
from .c10 import points

BOUNDS = {"dimension": "10 (the smallest the constructor accepts); 11 and 12 with one in 16 "
                       "inputs arbitrary", "time_points": "2 (3 to 6 in dimension 11 and 12)",
          "parameters": "every theta, A, b, m and diagonal Sigma > 0; every S whose Cholesky "
                        "factor is diagonal, or has the listed non-zero entries off the diagonal"}
D = 10
OFF = {"diag": (), "corner": ((1, 0), (9, 0)), "near": ((2, 1), (5, 4), (8, 6)),
       "many": ((2, 0), (3, 1), (4, 3), (6, 4), (7, 0), (9, 8), (9, 2))}


def make(h, form, D=D, n=2):
    M = h.mod("src.dynamics.lorenz_96").Lorenz96
    th, dt = h.real("theta"), h.dt()
    # every positive noise is the inverse of a positive precision
    if form == "scalar":
        q = h.pos("prec")
        sg, v = 1 / q, [q] * D
    else:
        v = [h.pos(f"prec_{i}") for i in range(D)]
        sg = [1 / q for q in v]
        sg = h.arr(sg) if form == "vector" else h.np.diag(h.arr(sg))
    p = M(sg, th, None, D)
    p.time_window = window(h, n, dt)
    return p, th, dt, v


def spd(h, name, off, D=D):
    return h.spd(name, D, mode="opaque", off=OFF[off])


def drift(h, off, D=D, n=2):
    """<f> and <df/dx> are exact."""
    p, th, dt, v = make(h, "vector", D, n)
    m = h.mat("m", n, D)
    S = h.stack([spd(h, f"S{t}", off, D) for t in range(n)])
    A, b = h.zeros(n, D, D), h.zeros(n, D)
    _, (Ef, Edf), _ = p.energy(A, b, m, S, None)
    f = drift_l96(D, th)
    ef, edf = [], []
    for t in range(n):
        G = Gauss(m[t], S[t])
        ef.append([G.E(f[i]) for i in range(D)])
        edf.append([[G.E(gp_diff(f[i], j)) + dt * 0 for j in range(D)] for i in range(D)])
    h.eq("<f>", Ef, h.arr(ef))
    h.eq("<df/dx>", Edf, h.arr(edf))


def l96_at(x, th):
    D = len(x)
    return [(x[(i + 1) % D] - x[(i - 2) % D]) * x[(i - 1) % D] - x[i] + th for i in range(D)]


def energy(h, off, form, parts, obs=None, D=D, n=2):
    """Energy and gradients are the unscented averages of the documented integrands."""
    p, th, dt, v = make(h, form, D, n)
    m = h.mat("m", n, D)
    S = h.stack([spd(h, f"S{t}", off, D) for t in range(n)])
    A = h.ten("A", (n, D, D)) if "full" in parts else None
    if A is None:
        A = h.zeros(n, D, D)
        for t in range(n):
            for i in range(D):
                A[t, i, i] = h.real(f"A_{t}_{i}")
                A[t, i, (i + 3) % D] = h.real(f"B_{t}_{i}")
    b = h.mat("b", n, D)
    E, _, (dm, dS, dth, dsig) = p.energy(A, b, m, S, obs)
    half = h.const("1/2")
    dens, sq, gt, gm, gs = [], [], [], [], []
    for t in range(n):
        C = h.chol(S[t])
        P = h.inv(S[t])
        pts, w = points(h, m[t], C, D)
        r2 = []
        for x in pts:
            f = l96_at(x, th)
            r2.append([_sq(f[i] + sum(A[t, i, j] * x[j] for j in range(D)) - b[t, i])
                       for i in range(D)])
        mean = [sum(w[k] * r2[k][i] for k in range(len(pts))) for i in range(D)]
        sq.append(mean)
        dens.append(half * sum(mean[i] * v[i] for i in range(D)))
        if "par" in parts:
            G = Gauss(m[t], S[t])
            gt.append([G.E(q) + sum(A[t, i, j] * m[t, j] for j in range(D)) - b[t, i]
                       for i, q in enumerate(drift_l96(D, th))])
        if "grad" in parts:
            q = [half * sum(r2[k][i] * v[i] for i in range(D)) for k in range(len(pts))]
            # Stein: dE/dm = <q P (x - m)>,  dE/dS = <q (P (x-m)(x-m)' P - P)> / 2
            z = [P.dot(h.arr([x[i] - m[t, i] for i in range(D)])) for x in pts]
            gm.append([sum(w[k] * q[k] * z[k][i] for k in range(len(pts))) for i in range(D)])
            gs.append([[half * sum(w[k] * q[k] * (z[k][i] * z[k][j] - P[i, j])
                                   for k in range(len(pts))) for j in range(D)]
                       for i in range(D)])
    if "energy" in parts:
        h.eq("Esde", E, trapz(dens, dt))
    if "par" in parts:
        h.eq("dEsde/dtheta", dth, h.arr([trapz([q[i] for q in gt], dt) * v[i]
                                         for i in range(D)]))
        z0 = dt * 0
        h.eq("dEsde/dsigma", dsig, h.arr([
            [-half * trapz([q[i] for q in sq], dt) * (v[i] * v[i]) if i == j else z0
             for j in range(D)] for i in range(D)]))
    if "grad" in parts:
        h.eq("dEsde/dm", dm, h.arr(gm))
        h.eq("dEsde/dS", dS, h.arr(gs))


def _sq(x):
    return x * x


def small(h):
    M = h.mod("src.dynamics.lorenz_96").Lorenz96
    d = h.int("d", 1, 14)
    if d < 10:
        h.raises("too small", ValueError, lambda: M(h.const(1), h.const(8), None, int(d)))
    else:
        d = int(d)
        p = M(h.pos("s"), h.const(8), None, d)
        h.same("dim", p.sigma.shape, (d, d))


def typed(h, I):
    L = h.mod("src.dynamics.lorenz_96")
    return L.l96(I.flo("x", (10,)), I.num("theta")), L.shift_vectors(I.flo("x", (10,)))


def harnesses(thorough):
    out = [("grad-diag", energy, dict(off="diag", form="scalar", parts=("grad",))),
           ("drift-diag", drift, dict(off="diag")), ("drift-many", drift, dict(off="many")),
           ("energy-diag", energy, dict(off="diag", form="vector", parts=("energy", "par"))),
           ("energy-near", energy, dict(off="near", form="matrix", parts=("energy",), obs=[1])),
           ("small", small, {})]
    out += [("wide-drift", thin(drift, 16), dict(off="many", D=11, n=3)),
            ("wide-energy", thin(energy, 16), dict(off="diag", form="vector", D=12, n=6,
                                                   parts=("energy", "par"), obs=[1, 4])),
            ("wide-grad", thin(energy, 16), dict(off="diag", form="scalar", D=12, n=4,
                                                 parts=("grad",), obs=[1]))]
    out.append(("changed", thin(changed, 16), dict(module="lorenz_96", cls="Lorenz96", one=False,
                                                   n=3, d=10, obs=[1], off=(), extra=(None, 10))))
    out += forms("forms-drift", typed)
    return out
