"""C22: a seed determines everything that is random."""
from .simu import params, run

BOUNDS = {"seeds": "0, 1, 7 and 31415926535", "time_points": "4 (Lorenz: 3)",
          "histories": "another process (unseeded, or with another seed) used in between"}
ASSUMPTIONS = ["a generator is modelled as a fixed unknown stream per seed; unseeded generators "
               "have streams of their own"]
SEEDS = [0, 1, 7, 31415926535]


def make(h, model, sg, th, seed):
    if model == "dw":
        return h.mod("src.dynamics.double_well").DoubleWell(sg, th, seed)
    if model == "ou":
        return h.mod("src.dynamics.ornstein_uhlenbeck").OrnsteinUhlenbeck(sg, th, seed)
    if model == "l63":
        return h.mod("src.dynamics.lorenz_63").Lorenz63(sg, th, seed)
    return h.mod("src.dynamics.lorenz_96").Lorenz96(sg, th, seed, 10)


def repeat(h, model, n):
    seed = SEEDS[int(h.int("seed", 0, len(SEEDS) - 1))]
    one = model in ("dw", "ou")
    sg = h.pos("sigma")
    th = h.vec("theta", 3) if model == "l63" else h.pos("theta")
    dt, R = h.const("1/4"), h.pos("R")

    def use(p):
        p.make_trajectory(h.const(0), dt * (n - 1), dt)
        t, y, _ = p.collect_obs(3, R)
        z = p.rng.standard_normal()
        return p.sample_path, y, z
    a = make(h, model, sg, th, seed)
    xa, ya, za = use(a)
    use(make(h, model, sg, th, None))
    other = make(h, model, sg, th, 12345)
    b = make(h, model, sg, th, seed)
    use(other)
    xb, yb, zb = use(b)
    # differences: the values themselves depend on the burn-in loop, which is cut
    h.eq("path", xa - xb, h.zeros(*xa.shape))
    h.eq("observations", h.arr(ya) - h.arr(yb), h.zeros(*h.arr(ya).shape))
    h.eq("next draw", za - zb, h.const(0))
    if one:
        h.same("samples", int(xa.size), n)


def differs(h):
    """Different seeds use different streams: larger draws give a larger path."""
    k = int(h.int("seed", 0, len(SEEDS) - 1))
    a, b = SEEDS[k], SEEDS[(k + 1) % len(SEEDS)]
    P = h.mod("src.dynamics.ornstein_uhlenbeck").OrnsteinUhlenbeck
    sg, dt = h.pos("sigma"), h.const("1/4")
    x = []
    for s in (a, b):
        p = P(sg, h.const(1), s)
        p.make_trajectory(h.const(0), dt, dt)
        x.append(p.sample_path)
    for n in [n for n in h.draws if n.startswith(f"rng_s{a}_")]:
        m = n.replace(f"rng_s{a}_", f"rng_s{b}_")
        if m in h.draws:
            h.assume(h.draws[n] >= h.draws[m] + 1)
    h.true("paths differ", x[0][1] > x[1][1])


def simulation(h, model):
    """The seed among the parameters of a simulation."""
    k = int(h.int("seed", 0, len(SEEDS) - 1))
    p = params(h, model, "Euler", h.pos("R"), h.const("1/4"), 5, seed=SEEDS[k])
    q = dict(p, **{"Random-Seed": None})
    a = run(h, p, None, None, None, only_setup=True)[0].m_data
    run(h, q, None, None, None, only_setup=True)
    b = run(h, p, None, None, None, only_setup=True)[0].m_data
    h.eq("path", a["model"].sample_path - b["model"].sample_path,
         h.zeros(*a["model"].sample_path.shape))
    h.eq("observations", a["obs_y"] - b["obs_y"], h.zeros(*a["obs_y"].shape))
    h.same("observation times", [int(v) for v in a["obs_t"]], [int(v) for v in b["obs_t"]])
    m = h.np.atleast_1d(a["m0"]) - h.np.atleast_1d(b["m0"])
    h.eq("initial mean", m, h.zeros(*m.shape))


def harnesses(thorough):
    return [("dw", repeat, dict(model="dw", n=4)), ("ou", repeat, dict(model="ou", n=4)),
            ("l63", repeat, dict(model="l63", n=3)), ("l96", repeat, dict(model="l96", n=3)),
            ("sim-dw", simulation, dict(model="DW")), ("sim-ou", simulation, dict(model="OU")),
            ("sim-l63", simulation, dict(model="L63")),
            ("differs", differs, {})]
