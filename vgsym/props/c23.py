"""C23: a simulation assembles the parts as its parameters say."""
from .forms import forms
from .common import thin
from .simu import params, run, Reference

BOUNDS = {"models": "DW, OU, L63 (run); L96 (set-up, 40 variables)", "time_points": "5 (L63: 4)",
          "methods": "all four", "observations": "sampled, or supplied by the user",
          "optimiser": "replaced by one that visits and returns arbitrary points"}
ASSUMPTIONS = ["the optimiser is replaced by a stand-in; its contract is C16 and C17"]


def points(h, n, d):
    k = n * d * (d + 1)
    return h.vec("star", k), h.vec("other", k)


def same(h, label, a, b):
    """Difference: Lorenz paths start from a burn-in loop that is cut symbolically."""
    a, b = h.arr(a), h.arr(b)
    h.same(f"{label}: shape", tuple(a.shape), tuple(b.shape))
    h.eq(label, a - b, h.zeros(*a.shape))


def inputs(h, model, method, data):
    n, dt, d = (5, h.const("1/4"), 1) if model in ("DW", "OU") else (4, h.const("1/8"), 3)
    R = h.pos("R")
    p = params(h, model, method, R, dt, n, density=2 if d == 1 else 4)
    obs = None
    if data:
        y = h.vec("y", 2) if d == 1 else h.mat("y", 2, 3)
        obs = (h.ints([1, 3] if d == 1 else [1, 2]), y)
    return p, obs, n, d


def whole(h, model, method, data):
    p, obs, n, d = inputs(h, model, method, data)
    star, other = points(h, n, d)
    sim, rec = run(h, p, obs, star, other)
    ref = Reference(h, p, obs, d)
    same(h, "starting point", rec.x0, ref.vg.initialization())
    F = ref.vg.free_energy(star)
    if d == 1:
        same(h, "energy seen by the optimiser", [rec.fx], [F])
        same(h, "gradient seen by the optimiser", rec.df(star, eval_fun=True), ref.vg.gradient(star))
        same(h, "result fx", [sim.output["fx"]], [F])
    o = ref.vg.arg_out
    same(h, "result mt", sim.output["mt"], o["mt"])
    same(h, "result st", sim.output["st"], o["st"])
    na = n * d * d
    A, b = star[:na], star[na:]
    if d > 1:
        A, b = A.reshape(n, d, d), b.reshape(n, d)
    h.eq("result at", sim.output["at"], A)
    h.eq("result bt", sim.output["bt"], b)
    same(h, "m0", [sim.output["m0"]] if d == 1 else sim.output["m0"], [ref.m0] if d == 1 else ref.m0)
    if d > 1:
        h.eq("s0", sim.output["s0"], ref.s0)
    else:
        h.eq("s0", sim.output["s0"], h.const("1/5"))


def setup(h, model, data, noise, sys=None):
    """Set-up only: data handed to the run."""
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[model]
    n, dt = (5, h.const("1/4")) if d == 1 else (3, h.const("1/8"))
    R = h.pos("R")
    if noise == "vector":
        R = h.vec("Rv", d, pos=True)
    sig = None
    if sys == "diagonal":
        sig = h.np.diag(h.vec("sig", d, pos=True))
    elif sys == "correlated":
        sig = h.spd("Sig", d)
    p = params(h, model, "Euler", R, dt, n, sig=sig, density=2 if d == 1 else 4)
    mu0, tau0 = p["Prior"]["mu0"], p["Prior"]["tau0"]
    obs = None
    if data:
        y = h.vec("y", 2) if d == 1 else h.mat("y", 1, d)
        obs = (h.ints([1, 3] if d == 1 else [1]), y)
    sim, _ = run(h, p, obs, None, None, only_setup=True)
    ref = Reference(h, p, obs, d)
    m = sim.m_data
    same(h, "path", m["model"].sample_path, ref.path)
    same(h, "times", m["obs_t"], ref.t)
    same(h, "values", m["obs_y"], ref.y)
    same(h, "noise", h.np.atleast_1d(m["obs_noise"]), h.np.atleast_1d(ref.R))
    same(h, "m0", h.np.atleast_1d(m["m0"]), h.np.atleast_1d(ref.m0))
    same(h, "s0", h.np.atleast_1d(m["s0"]), h.np.atleast_1d(ref.s0))
    same(h, "mu0", h.np.atleast_1d(m["mu0"]), h.np.atleast_1d(ref.mu0))
    same(h, "tau0", h.np.atleast_1d(m["tau0"]), h.np.atleast_1d(ref.tau0))
    h.eq("prior mean not overwritten", p["Prior"]["mu0"], mu0)
    h.eq("prior variance not overwritten", p["Prior"]["tau0"], tau0)
    h.same("scalar form", bool(m["single_dim"]), d == 1)


def prior(h):
    """Prior moments given as arrays: used, and left as they are."""
    p, obs, n, d = inputs(h, "L63", "Euler", True)
    mu, tau = h.vec("pm", 3), h.vec("pt", 3, pos=True)
    full = h.symmetric("ptau", 3)
    for t in (tau, full):
        p["Prior"] = {"mu0": mu.copy(), "tau0": t.copy()}
        sim, _ = run(h, p, obs, None, None, only_setup=True)
        h.eq("mu0", sim.m_data["mu0"], mu)
        h.eq("tau0", h.np.diag(sim.m_data["tau0"]), h.np.diag(t) if t is full else t)
        h.eq("mu0 of the parameters", p["Prior"]["mu0"], mu)
        h.eq("tau0 of the parameters", p["Prior"]["tau0"], t)


def again(h, model, data):
    """A second set-up and run of the same simulation is that of a new one."""
    p, obs, n, d = inputs(h, model, "Euler", data)
    star, other = points(h, n, d)
    q = params(h, model, "Heun", h.pos("R2"), h.const("1/8"), 4, seed=8, density=4,
               theta=h.vec("theta2", 3) if d == 3 else h.pos("theta2"), sig=h.pos("sigma2"), tag="2")
    k = 4 * d * (d + 1)
    star2, other2 = h.vec("star2", k), h.vec("other2", k)
    obs2 = (h.ints([2]), h.vec("y2", 1) if d == 1 else h.mat("y2", 1, d)) if data else None
    sim, _ = run(h, p, obs, star, other)
    new, rb = run(h, q, obs2, star2, other2)
    sim, ra = run(h, q, obs2, star2, other2, sim=sim)
    same(h, "starting point", ra.x0, rb.x0)
    h.same("results", sorted(sim.output), sorted(new.output))
    for k in new.output:
        if d == 1 or k not in ("fx", "Efx", "Edf", "lamt", "psit"):
            same(h, f"result {k}", h.np.atleast_1d(sim.output[k]), h.np.atleast_1d(new.output[k]))


def unknown(h):
    p, obs, n, d = inputs(h, "DW", "Euler", True)
    p["Model"] = "XX"
    h.raises("unknown model", ValueError, lambda: run(h, p, obs, None, None, only_setup=True))
    p["Model"] = "dw"
    run(h, p, obs, None, None, only_setup=True)
    p["Ode-method"] = "leapfrog"
    h.raises("unknown method", ValueError, lambda: run(h, p, obs, *points(h, n, d)))


def given(h, I, model):
    """The data may be whole numbers (a file often has such)."""
    p, obs, n, d = inputs(h, model, "Euler", True) if not I.vals else I.vals["in"]
    I.vals["in"] = p, obs, n, d
    if "pts" not in I.vals:
        I.vals["pts"] = points(h, n, d)
    y = I.arr("data", (2,) if d == 1 else (2, d))
    star, other = I.vals["pts"]
    sim, rec = run(h, p, (obs[0], y), star.copy(), other.copy())
    out = [rec.x0, sim.output["mt"], sim.output["st"]]
    return out + [sim.output["fx"]] if d == 1 else out


def harnesses(thorough):
    out = [("unknown", unknown, {})]
    for me in ("Euler", "Heun", "RK2", "RK4"):
        out.append((f"ou-{me}", whole, dict(model="OU", method=me, data=me in ("Heun", "RK4"))))
    out += [("dw-sampled", whole, dict(model="DW", method="Euler", data=False)),
            ("dw-data", whole, dict(model="DW", method="Euler", data=True)),
            ("l63-data", whole, dict(model="L63", method="Euler", data=True))]
    out += [("prior", prior, {}), ("again-ou", again, dict(model="OU", data=True)),
            ("again-dw", again, dict(model="DW", data=False)),
            ("again-l63", thin(again, 8), dict(model="L63", data=True))]
    for m in ("DW", "OU", "L63", "L96"):
        out.append((f"setup-{m}", setup, dict(model=m, data=False, noise="scalar")))
        out.append((f"setup-{m}-data", setup, dict(model=m, data=True, noise="scalar")))
    out += [("setup-L63-vector", setup, dict(model="L63", data=True, noise="vector")),
            ("setup-L63-vector-sampled", setup, dict(model="L63", data=False, noise="vector")),
            ("setup-L63-unequal", setup, dict(model="L63", data=True, noise="vector",
                                              sys="diagonal")),
            ("setup-L63-correlated", setup, dict(model="L63", data=False, noise="scalar",
                                                 sys="correlated")),
            ("setup-L96-unequal", thin(setup, 12), dict(model="L96", data=True, noise="scalar",
                                                        sys="diagonal"))]
    out += forms("forms-ou", given, 3, model="OU") + forms("forms-l63", given, 12, kinds=("ints",),
                                                          model="L63")
    return out
