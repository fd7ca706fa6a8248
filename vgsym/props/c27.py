"""C27: composition of the free energy; no dependence on earlier evaluations."""
from .common import thin
from .vgp import Parts
from .c15 import parts, flat

BOUNDS = {"components": "arbitrary values returned by the sweeps, prior, likelihood and model",
          "time_points": "2..4", "dimension": "1 (scalar form), 2 and 3",
          "larger sizes": "12 time points (scalar form); 6 time points in dimension 4; one in 6 "
                          "inputs arbitrary",
          "history": "up to 3 evaluations of free energy and gradient at different points"}


def compose(h, one, n, d):
    P = Parts(h, one, n, d)
    vg = P.build()
    A, b, x = P.point("")
    F = vg.free_energy(x)
    v = P.v
    h.eq("F = E0 + Esde + Eobs", F, v["E0"] + v["Esde"] + v["Eobs"])
    seen = {}
    for c in P.calls:
        seen.setdefault(c[0], []).append(c[1:])

    def args(name, *expected):
        for k, c in enumerate(seen.get(name, [])):
            for j, (a, e) in enumerate(zip(c, expected)):
                h.eq(f"{name} argument {j} (call {k})", a, e)
        h.true(f"{name} called", len(seen.get(name, [])) >= 1)
    args("fwd", A, b, P.m0, P.s0, P.sigma)
    args("like", v["m"], v["s"])
    args("dlike", v["m"], v["s"])
    args("kl0", P.m0, P.s0)
    args("energy", A, b, v["m"], v["s"], h.arr(P.obs_t))
    args("bwd", A, v["em"], v["es"], v["om"], v["os"])
    out = vg.arg_out
    for key, name in (("mt", "m"), ("st", "s"), ("lamt", "lam"), ("psit", "psi"), ("Efx", "Ef"),
                      ("Edf", "Edf")):
        h.eq(f"stored {key}", out[key], v[name])
    h.eq("stored m0", out["m0"], P.m0)
    h.eq("stored s0", out["s0"], P.s0)


def history(h, one, n, d, order):
    """Values at a point do not depend on what was evaluated before."""
    P = Parts(h, one, n, d)
    vg = P.build()
    pts = {t: P.point(t) for t in "pq"}
    for what in order:
        op, t = what
        A, b, x = pts[t]
        if op == "f":
            F = vg.free_energy(x)
            h.eq(f"{what}: F", F, P.v["E0"] + P.v["Esde"] + P.v["Eobs"])
            last = t
        elif op == "e":
            g = vg.gradient(x, eval_fun=True)
            h.eq(f"{what}: gradient", g, P.gradient(A, b, P.v))
        else:
            g = vg.gradient(x)
            h.eq(f"{what}: gradient", g, P.gradient(A, b, P.v))


def real(h, model, n, obs):
    """The same with the real components: a second evaluation repeats the first."""
    A, b, A2, b2 = h.vec("A", n), h.vec("b", n), h.vec("C", n), h.vec("e", n)
    c = dict(sigma=h.pos("sigma"), theta=h.pos("theta"), R=h.pos("R"), mu=h.real("mu"),
             tau=h.pos("tau"), m0=h.real("m0"), s0=h.pos("s0"), y=h.vec("y", len(obs)))
    vg = parts(h, model, h.dt(), n, obs, A, b, c)
    x, x2 = flat(h, A, b), flat(h, A2, b2)
    F, g = vg.free_energy(x), vg.gradient(x)
    g0 = h.snapshot(g)
    mt = h.snapshot(vg.arg_out["mt"])
    vg.gradient(x2, eval_fun=True)
    h.eq("first gradient kept", g, g0)
    h.eq("F again", vg.free_energy(x), F)
    h.eq("moments again", vg.arg_out["mt"], mt)
    h.eq("gradient again", vg.gradient(x), g0)
    vg.free_energy(x2)
    h.eq("gradient with evaluation", vg.gradient(x, eval_fun=True), g0)


def inplace(h, model, n, obs):
    """A caller may keep one array of parameters and change it between the evaluations."""
    A, b, A2, b2 = h.vec("A", n), h.vec("b", n), h.vec("C", n), h.vec("e", n)
    c = dict(sigma=h.pos("sigma"), theta=h.pos("theta"), R=h.pos("R"), mu=h.real("mu"),
             tau=h.pos("tau"), m0=h.real("m0"), s0=h.pos("s0"), y=h.vec("y", len(obs)))
    dt = h.dt()
    x, x2 = flat(h, A, b), flat(h, A2, b2)
    want = parts(h, model, dt, n, obs, A, b, c)
    F = want.free_energy(h.snapshot(x2))
    g = h.snapshot(want.gradient(h.snapshot(x2)))
    for k in range(2):
        vg = parts(h, model, dt, n, obs, A, b, c)
        y = h.snapshot(x)
        if k == 0:
            vg.gradient(y, eval_fun=True)
            y[...] = x2
            h.eq("gradient at changed parameters", vg.gradient(y, eval_fun=True), g)
        else:
            vg.free_energy(y)
            y[...] = x2
            h.eq("F at changed parameters", vg.free_energy(y), F)
            h.eq("gradient after it", vg.gradient(y), g)


def updated(h, model, n, obs):
    """The noise and the drift of the model as they are at the time of the evaluation."""
    A, b = h.vec("A", n), h.vec("b", n)
    c = dict(sigma=h.pos("sigma"), theta=h.pos("theta"), R=h.pos("R"), mu=h.real("mu"),
             tau=h.pos("tau"), m0=h.real("m0"), s0=h.pos("s0"), y=h.vec("y", len(obs)))
    new = dict(c, sigma=h.pos("sigma2"), theta=h.pos("theta2"))
    dt, x = h.dt(), flat(h, A, b)
    other = flat(h, b, A)
    want = parts(h, model, dt, n, obs, A, b, new)
    F = want.free_energy(h.snapshot(x))
    g = h.snapshot(want.gradient(h.snapshot(x)))
    for k in range(2):
        vg = parts(h, model, dt, n, obs, A, b, c)
        first = h.snapshot(x if k == 0 else other)
        vg.gradient(first, eval_fun=True)
        vg.free_energy(first)
        vg.model.sigma = new["sigma"]
        vg.model.theta = new["theta"]
        if k == 0:
            h.eq("F after a change of the model", vg.free_energy(h.snapshot(x)), F)
            h.eq("gradient after it", vg.gradient(h.snapshot(x)), g)
        else:
            h.eq("gradient after a change of the model",
                 vg.gradient(h.snapshot(x), eval_fun=True), g)


def swapped(h, one, n, d):
    """Likewise with arbitrary components: the noise and its inverse."""
    P = Parts(h, one, n, d)
    vg = P.build()
    A, b, x = P.point("")
    vg.free_energy(x)
    vg.gradient(x)
    P.inv = 1 / h.pos("sigma2") if one else h.symmetric("P2", d)
    P.sigma = 1 / P.inv if one else h.symmetric("sigma2", d)
    P.model.sigma, P.model.inverse_sigma = P.sigma, P.inv
    P.calls.clear()
    g = vg.gradient(x, eval_fun=True)
    h.eq("gradient", g, P.gradient(A, b, P.v))
    h.eq("noise of the sweep", [c for c in P.calls if c[0] == "fwd"][0][5], P.sigma)


def harnesses(thorough):
    out = [("compose-1", compose, dict(one=True, n=4, d=1)),
           ("compose-d2", compose, dict(one=False, n=3, d=2)),
           ("compose-d3", compose, dict(one=False, n=2, d=3)),
           ("compose-long", thin(compose, 6), dict(one=True, n=12, d=1)),
           ("compose-wide", thin(compose, 6), dict(one=False, n=6, d=4)),
           ("history-wide", thin(history, 6), dict(one=False, n=4, d=4, order=["fp", "gp", "eq", "fp",
                                                                              "gp"]))]
    for k, o in enumerate((["fp", "gp", "fq", "gq", "ep"], ["eq", "fp", "gp"],
                           ["fp", "eq", "fp", "gp", "eq"])):
        out.append((f"history-1-{k}", history, dict(one=True, n=3, d=1, order=o)))
        out.append((f"history-d2-{k}", history, dict(one=False, n=2, d=2, order=o)))
    out += [("real-ou", real, dict(model="ou", n=3, obs=[1])),
            ("real-dw", real, dict(model="dw", n=3, obs=[1])),
            ("updated-ou", updated, dict(model="ou", n=3, obs=[1])),
            ("updated-dw", updated, dict(model="dw", n=3, obs=[1])),
            ("swapped-1", swapped, dict(one=True, n=3, d=1)),
            ("swapped-2", swapped, dict(one=False, n=2, d=2)),
            ("inplace-ou", inplace, dict(model="ou", n=3, obs=[1]))]
    return out
