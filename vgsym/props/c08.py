"""C08: Lorenz-63 energy, drift moments and gradients (diagonal system noise)."""
from .forms import forms
from .energy import *

BOUNDS = {"time_points": "2 (3 in the thorough tier); 20 with one in 24 inputs arbitrary",
          "parameters": "every diagonal Sigma > 0 given as scalar, vector or matrix; every "
                        "theta, A, b, m and symmetric S"}


def run(h, n, parts, obs, form):
    D = h.mod("src.dynamics.lorenz_63").Lorenz63
    th, dt = h.vec("theta", 3), h.dt()
    if form == "scalar":
        s = h.pos("sigma")
        sg, v = s, [s, s, s]
    else:
        v = [h.pos(f"sigma_{i}") for i in range(3)]
        sg = h.arr(v) if form == "vector" else h.arr(
            [[v[i] if i == j else h.const(0) for j in range(3)] for i in range(3)])
    p = D(sg, th)
    p.time_window = window(h, n, dt)
    f, df = drift_l63(th[0], th[1], th[2])
    P = [[1 / v[i] if i == j else 0 for j in range(3)] for i in range(3)]
    S = h.stack([h.symmetric(f"S{t}", 3) for t in range(n)])
    check_energy(h, p, f, df, P, False, n, 3, dt, h.ten("A", (n, 3, 3)), h.mat("b", n, 3),
                 h.mat("m", n, 3), S, obs, parts)


def given(h, I, noise):
    p = I.make("p", lambda: h.mod("src.dynamics.lorenz_63").Lorenz63(
        I.num("sigma", True) if noise == 0 else I.arr("sigma", (3,), pos=True),
        I.arr("theta", (3,))))
    p.time_window = h.stack([I.real("dt", "1/16", "1/4") * k for k in range(3)])
    return p.energy(I.flo("A", (3, 3, 3)), I.flo("b", (3, 3)), I.flo("m", (3, 3)),
                    I.spd("S", 3, 3, flo=True), [1])


def drift(h, I):
    L = h.mod("src.dynamics.lorenz_63")
    x, th = I.flo("x", (3,)), I.arr("theta", (3,))
    return L.l63(x, th)


def harnesses(thorough):
    out = []
    for part in ("energy", "drift", "grad", "par"):
        out.append((f"{part}-2", run, dict(n=2, parts=(part,), obs=None, form="vector")))
    out.append(("energy-3", run, dict(n=3, parts=("energy",), obs=[1], form="matrix")))
    out.append(("all-2-scalar", run, dict(n=2, parts=("energy", "grad", "par"), obs=None,
                                          form="scalar")))
    if thorough:
        out.append(("all-4", run, dict(n=4, parts=("energy", "drift", "grad", "par"), obs=[2],
                                       form="matrix")))
    for part in ("energy", "drift", "grad", "par"):
        out.append((f"long-{part}", thin(run, 24), dict(n=20, parts=(part,), obs=[3, 4, 15],
                                                        form="vector")))
    out.append(("changed", thin(changed, 12), dict(module="lorenz_63", cls="Lorenz63", one=False,
                                                   n=3, d=3, obs=[1])))
    out += forms("forms-scalar", given, 6, noise=0) + forms("forms-vector", given, 6, noise=1)
    out += forms("forms-drift", drift)
    return out
