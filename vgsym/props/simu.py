"""A simulation whose optimiser is replaced by a recorder that visits arbitrary points."""
import contextlib


def params(h, model, method, R, dt, n, seed=7, theta=None, sig=None, density=2, t0=None, tag=""):
    t0 = h.const(0) if t0 is None else t0
    if theta is None:
        theta = list(h.vec("theta", 3)) if model == "L63" else h.pos("theta")
    return {"Output_Name": "x", "Model": model, "Ode-method": method, "Random-Seed": seed,
            "Time-window": {"t0": t0, "tf": t0 + dt * (n - 1), "dt": dt},
            "Noise": {"sys": h.pos("sigma") if sig is None else sig, "obs": R},
            "Observations": {"density": density, "operator": None},
            "Drift": {"theta": theta}, "Prior": {"mu0": h.real("mu0" + tag), "tau0": h.pos("tau0" + tag)}}


@contextlib.contextmanager
def patched(h, name, attr, value, users=()):
    """Replaces name.attr, also where it was imported by name."""
    src = h.mod(name)
    old = getattr(src, attr)
    mods = [src] + [h.mod(u) for u in users]
    hit = [m for m in mods if getattr(m, attr, None) is old]
    for m in hit:
        setattr(m, attr, value)
    try:
        yield
    finally:
        for m in hit:
            setattr(m, attr, old)


class Recorder:
    """Stand-in for the optimiser: evaluates at x0, at x*, then elsewhere; returns x*."""

    def __init__(self, h, star, other):
        self.h, self.star, self.other = h, star, other
        rec = self

        class SCG:
            def __init__(self, f, df, *args):
                rec.f, rec.df, rec.args = f, df, args

            def __call__(self, x0, *args):
                rec.x0 = h.snapshot(x0)
                rec.f(x0)
                rec.df(x0)
                fx = rec.f(rec.star.copy())
                rec.df(rec.other.copy(), eval_fun=True)
                rec.fx = fx
                return rec.star.copy(), fx

            statistics = {"MaxIt": 1}

            def check_gradient_function(self, *a, **k):
                raise AssertionError("not part of a run")
        self.cls = SCG


def cls_of(h, model):
    mod, name = {"DW": ("double_well", "DoubleWell"),
                 "OU": ("ornstein_uhlenbeck", "OrnsteinUhlenbeck"),
                 "L63": ("lorenz_63", "Lorenz63"), "L96": ("lorenz_96", "Lorenz96")}[model]
    return getattr(h.mod(f"src.dynamics.{mod}"), name)


class Reference:
    """The same run assembled by hand from the components, as documented."""

    def __init__(self, h, p, data, d):
        m = p["Model"].upper()
        one = m in ("DW", "OU")
        self.one = one
        self.model = cls_of(h, m)(p["Noise"]["sys"], p["Drift"]["theta"], p["Random-Seed"])
        tw = p["Time-window"]
        dt = tw["dt"]
        self.model.make_trajectory(tw["t0"], tw["tf"], dt)
        self.path = self.model.sample_path
        R = p["Noise"]["obs"]
        if data is None:
            t, y, R = self.model.collect_obs(p["Observations"]["density"], R, None)
        else:
            t, y = data
            if not one:
                R = h.np.eye(d) * h.np.asarray(R)
        self.t, self.y, self.R = t, y, R
        if one:
            self.m0 = self.path[0] + h.const("1/10") * self.model.rng.standard_normal()
            self.s0 = h.const("1/5")
            mu0, tau0 = p["Prior"]["mu0"], p["Prior"]["tau0"]
        else:
            self.m0 = self.path[0] + h.const("1/10") * self.model.rng.standard_normal(d)
            self.s0 = h.const("1/5") * h.np.eye(d)
            mu0, tau0 = p["Prior"]["mu0"] * h.np.ones(d), p["Prior"]["tau0"] * h.np.eye(d)
        self.mu0, self.tau0 = mu0, tau0
        me = p["Ode-method"]
        fwd = h.mod("src.var_bayes.fwd_ode").FwdOde(dt, me, one)
        bwd = h.mod("src.var_bayes.bwd_ode").BwdOde(dt, me, one)
        lik = h.mod("src.var_bayes.gaussian_like").GaussianLikelihood(y, t, R, None, one)
        kl0 = h.mod("src.var_bayes.prior_kl0").PriorKL0(mu0, tau0, one)
        self.vg = h.mod("src.var_bayes.variational").VarGP(self.model, self.m0, self.s0, fwd, bwd,
                                                           lik, kl0, y, t)


def run(h, p, data, star, other, only_setup=False, sim=None):
    """Sets up and runs a Simulation with the recorder; returns (simulation, recorder)."""
    rec = Recorder(h, star, other)
    S = h.mod("src.var_bayes.simulation")
    with patched(h, "src.numerics.optim_scg", "SCG", rec.cls, ["src.var_bayes.simulation"]):
        sim = S.Simulation("x") if sim is None else sim
        sim.setup(p, data)
        if not only_setup:
            sim.run()
    return sim, rec
