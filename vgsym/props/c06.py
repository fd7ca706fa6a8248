"""C06: double-well energy, drift moments and gradients."""
from .forms import forms
from .energy import *

BOUNDS = {"time_points": "2 and 3; 90 with one in 24 inputs arbitrary", "parameters": "every sigma > 0, every theta, A, b, m, S"}


def run(h, n, parts, obs):
    D = h.mod("src.dynamics.double_well").DoubleWell
    sg, th, dt = h.pos("sigma"), h.real("theta"), h.dt()
    p = D(sg, th)
    p.time_window = window(h, n, dt)
    f, df = drift_dw(th)
    check_energy(h, p, f, df, [[1 / sg]], True, n, 1, dt, h.vec("A", n), h.vec("b", n),
                 h.vec("m", n), h.vec("S", n), obs, parts)


def given(h, I):
    p = I.make("p", lambda: h.mod("src.dynamics.double_well").DoubleWell(
        I.num("sigma", True), I.num("theta", True)))
    p.time_window = h.stack([I.real("dt", "1/16", "1/4") * k for k in range(4)])
    return p.energy(I.flo("A", (4,)), I.flo("b", (4,)), I.flo("m", (4,)),
                    I.flo("S", (4,), pos=True), [2])


def harnesses(thorough):
    out = [("all-2", run, dict(n=2, parts=("energy", "drift", "grad", "par"), obs=None)),
           ("all-3-obs", run, dict(n=3, parts=("energy", "drift", "grad", "par"), obs=[1]))]
    if thorough:
        out.append(("all-6-obs", run, dict(n=6, parts=("energy", "drift", "grad", "par"),
                                           obs=[2, 4])))
    out.append(("long", thin(run, 24), dict(n=90, parts=("energy", "drift", "grad", "par"),
                                            obs=[1, 7, 30, 31, 64, 88])))
    out.append(("changed", changed, dict(module="double_well", cls="DoubleWell", one=True, n=3,
                                         d=1, obs=[1])))
    out += forms("forms", given)
    return out
