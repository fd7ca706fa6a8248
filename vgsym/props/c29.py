"""C29: computations leave their arguments alone and repeat."""
from .c15 import parts, flat
from .common import thin, flatten

BOUNDS = {"time_points": "3 (4 and 5 in dimension 3, one in 5 inputs arbitrary)", "dimension": "1 (scalar forms), 2, 3 (Lorenz-63), 10 (Lorenz-96 "
          "drift)", "history": "two calls with the same arguments, with the first results "
                               "overwritten in between"}


class Watch:
    """Calls fn twice; the inputs stay, the second result equals the first."""

    def __init__(self, h, **arrays):
        self.h, self.arrays = h, arrays
        self.before = {k: h.snapshot(v) for k, v in arrays.items()}

    def same(self, when):
        h = self.h
        for k, v in self.arrays.items():
            h.eq(f"{when}: {k} unchanged", v - self.before[k], h.zeros(*self.before[k].shape))

    def run(self, label, fn, overwrite=True):
        h = self.h
        first = flatten(fn())
        keep = [h.snapshot(v) for v in first]
        self.same(label)
        for v in first if overwrite else ():
            if getattr(v, "ndim", 0):
                v[...] = h.const(7)
        self.same(f"{label}, results overwritten")
        second = flatten(fn())
        h.same(f"{label}: results", len(second), len(keep))
        for k, (a, b) in enumerate(zip(keep, second)):
            h.eq(f"{label}: result {k} repeats", h.arr(b) - a, h.zeros(*h.arr(a).shape))


def sweeps(h, method, one, n=3, d=2):
    F = h.mod("src.var_bayes.fwd_ode").FwdOde
    B = h.mod("src.var_bayes.bwd_ode").BwdOde
    dt = h.dt()
    if one:
        A, b = h.vec("A", n), h.vec("b", n)
        m0, s0, sg = h.real("m0"), h.pos("s0"), h.pos("sigma")
        g = [h.vec(f"g{k}", n) for k in range(4)]
        w = Watch(h, A=A, b=b, **{f"g{k}": v for k, v in enumerate(g)})
    else:
        A, b = h.ten("A", (n, d, d)), h.mat("b", n, d)
        m0, s0, sg = h.vec("m0", d), h.symmetric("s0", d), h.symmetric("sigma", d)
        g = [h.mat("g0", n, d), h.ten("g1", (n, d, d)), h.mat("g2", n, d), h.ten("g3", (n, d, d))]
        w = Watch(h, A=A, b=b, m0=m0, s0=s0, sigma=sg, **{f"g{k}": v for k, v in enumerate(g)})
    f, k = F(dt, method, one), B(dt, method, one)
    w.run("forward", lambda: f(A, b, m0, s0, sg))
    w.run("backward", lambda: k(A, *g))


def energies(h, model):
    n, dt = 3, h.dt()
    d = 3 if model == "l63" else 1
    if d == 1:
        A, b, m, s = h.vec("A", n), h.vec("b", n), h.vec("m", n), h.vec("s", n, pos=True)
        if model == "dw":
            p = h.mod("src.dynamics.double_well").DoubleWell(h.pos("sigma"), h.real("theta"))
        else:
            p = h.mod("src.dynamics.ornstein_uhlenbeck").OrnsteinUhlenbeck(h.pos("sigma"),
                                                                           h.pos("theta"))
    else:
        A, b, m = h.ten("A", (n, d, d)), h.mat("b", n, d), h.mat("m", n, d)
        s = h.stack([h.symmetric(f"s{k}", d) for k in range(n)])
        p = h.mod("src.dynamics.lorenz_63").Lorenz63(h.const(2), h.vec("theta", 3))
    p.time_window = h.stack([dt * k for k in range(n)])
    p.sample_path = h.zeros(*m.shape)
    w = Watch(h, A=A, b=b, m=m, s=s, window=p.time_window)
    w.run("energy", lambda: p.energy(A, b, m, s, [1]))


def likelihood(h, one, n=3, d=2, at=(0, 2)):
    G = h.mod("src.var_bayes.gaussian_like").GaussianLikelihood
    K = h.mod("src.var_bayes.prior_kl0").PriorKL0
    at, q = list(at), len(at)
    if one:
        y, m, s = h.vec("y", q), h.vec("m", n), h.vec("s", n, pos=True)
        g = G(y, at, h.pos("R"), None, True)
        w = Watch(h, y=y, m=m, s=s)
        k = K(h.real("mu0"), h.pos("tau0"), True)
        la, ps, m0, s0 = h.real("la"), h.real("ps"), h.real("m0"), h.pos("s0")
        v = Watch(h)
    else:
        y, m, R = h.mat("y", q, d), h.mat("m", n, d), h.spd("R", d)
        s = h.stack([h.symmetric(f"s{k}", d) for k in range(n)])
        g = G(y, at, R, None, False)
        w = Watch(h, y=y, m=m, s=s, R=R)
        mu, tau = h.vec("mu0", d), h.spd("tau0", d)
        k = K(mu, tau, False)
        la, ps, m0, s0 = h.vec("la", d), h.mat("ps", d, d), h.vec("m0", d), h.spd("s0", d)
        v = Watch(h, mu0=mu, tau0=tau, la=la, ps=ps, m0=m0, s0=s0)
    w.run("likelihood", lambda: g(m, s))
    w.run("likelihood gradients", lambda: g.gradients(m, s))
    v.run("prior", lambda: k(m0, s0))
    v.run("prior gradients", lambda: k.gradients(m0, s0, la, ps))


def utilities(h):
    U = h.mod("src.numerics.utilities")
    x, S, f = h.vec("x", 2), h.spd("S", 2), h.mat("f", 5, 2)
    z = h.vec("z", 3, pos=True)
    w = Watch(h, x=x, S=S, f=f, z=z)
    w.run("chol_inv", lambda: U.chol_inv(S))
    w.run("log_det", lambda: U.log_det(S))
    w.run("safe_log", lambda: U.safe_log(z))
    w.run("my_trapz", lambda: U.my_trapz(f, h.const("1/2"), [1, 3]))
    w.run("finite_diff", lambda: U.finite_diff(lambda v: v.dot(v), x))
    w.run("ut_approx", lambda: U.ut_approx(lambda v: v * 2, x, S))
    G = h.mod("src.var_bayes.gaussian_moments").GaussianMoments
    m, v = h.vec("m", 2), h.vec("v", 2, pos=True)
    q = Watch(h, m=m, v=v)
    g = G(m, v)
    for k in (1, 2, 5, 8):
        # the first moment is the given mean, so its result may share the memory
        q.run(f"moment {k}", lambda: G(m, v)(k), overwrite=k > 1)
        q.run(f"derivatives {k}", lambda: (G(m, v).dm(k), G(m, v).ds(k)))


def objective(h, model):
    n = 3
    A, b = h.vec("A", n), h.vec("b", n)
    c = dict(sigma=h.pos("sigma"), theta=h.pos("theta"), R=h.pos("R"), mu=h.real("mu"),
             tau=h.pos("tau"), m0=h.real("m0"), s0=h.pos("s0"), y=h.vec("y", 1))
    vg = parts(h, model, h.dt(), n, [1], A, b, c)
    x = flat(h, A, b)
    w = Watch(h, x=x, y=c["y"])
    w.run("free energy", lambda: vg.free_energy(x))
    w.run("gradient", lambda: vg.gradient(x))
    w.run("gradient with evaluation", lambda: vg.gradient(x, eval_fun=True))


def drifts(h):
    L = h.mod("src.dynamics.lorenz_63")
    x, th = h.vec("x", 3), h.vec("theta", 3)
    w = Watch(h, x=x, theta=th)
    w.run("l63", lambda: L.l63(x, th))
    M = h.mod("src.dynamics.lorenz_96")
    y, t = h.vec("y", 10), h.real("t")
    v = Watch(h, y=y)
    v.run("l96", lambda: M.l96(y, t))
    v.run("shifts", lambda: M.shift_vectors(y))


def path(h, model):
    """Observations do not touch the path they are taken from."""
    one = model != "l63"
    if one:
        p = h.mod("src.dynamics.ornstein_uhlenbeck").OrnsteinUhlenbeck(h.pos("s"), h.pos("th"), 3)
        x, R = h.vec("x", 6), h.pos("R")
    else:
        p = h.mod("src.dynamics.lorenz_63").Lorenz63(h.const(2), h.vec("th", 3), 3)
        x, R = h.mat("x", 6, 3), h.vec("R", 3, pos=True)
    p.time_window = h.stack([h.const("1/4") * k for k in range(6)])
    p.sample_path = x
    w = Watch(h, x=x, window=p.time_window) if one else Watch(h, x=x, R=R, window=p.time_window)
    t, y, r = p.collect_obs(2, R)
    w.same("observed")
    y[...] = h.const(3)
    w.same("observations overwritten")
    h.eq("path", p.sample_path - w.before["x"], h.zeros(*x.shape))


def harnesses(thorough):
    out = []
    for m in ("euler", "heun", "rk2", "rk4"):
        out += [(f"sweeps-{m}-1", sweeps, dict(method=m, one=True)),
                (f"sweeps-{m}-d2", sweeps, dict(method=m, one=False)),
                (f"sweeps-{m}-wide", thin(sweeps, 5), dict(method=m, one=False, n=4, d=3))]
    out += [(f"energy-{m}", energies, dict(model=m)) for m in ("dw", "ou", "l63")]
    out += [("likelihood-1", likelihood, dict(one=True)), ("likelihood-d2", likelihood, dict(one=False)),
            ("likelihood-wide", thin(likelihood, 5), dict(one=False, n=5, d=3, at=(0, 2, 3))),
            ("utilities", utilities, {}), ("objective-dw", objective, dict(model="dw")),
            ("objective-ou", objective, dict(model="ou")), ("drifts", drifts, {}),
            ("path-ou", path, dict(model="ou")), ("path-l63", path, dict(model="l63"))]
    return out
