"""C15: the variational gradient is the derivative of the Lagrangian."""
from .forms import forms
from .common import thin
from .vgp import Parts

BOUNDS = {"formula": "2 or 3 time points, dimension 1 (scalar form), 2 and 3; arbitrary moments, "
                     "multipliers, expectations, noise; 5 time points, dimension 4, and 12 or 120 "
                     "time points (scalar form) with one in 6 inputs arbitrary",
          "total derivative": "double-well and Ornstein-Uhlenbeck, Euler sweep, 4 (thorough: 5) "
                              "time points, first order in dt, interior points without "
                              "observation"}


def formula(h, one, n, d, fun):
    P = Parts(h, one, n, d)
    vg = P.build()
    A, b, x = P.point("")
    if fun:
        g = vg.gradient(x, eval_fun=True)
    else:
        vg.free_energy(x)
        g = vg.gradient(x)
    h.eq("gradient", g, P.gradient(A, b, P.v))


def flat(h, A, b):
    return h.np.concatenate((A.ravel(), b.ravel()))


def parts(h, model, dt, n, obs, A, b, c):
    """free energy and gradient, as functions of (A, b), built from the real components."""
    if model == "dw":
        p = h.mod("src.dynamics.double_well").DoubleWell(c["sigma"], c["theta"])
    else:
        p = h.mod("src.dynamics.ornstein_uhlenbeck").OrnsteinUhlenbeck(c["sigma"], c["theta"])
    p.time_window = h.stack([dt * k for k in range(n)])
    p.sample_path = h.zeros(n)
    fwd = h.mod("src.var_bayes.fwd_ode").FwdOde(dt, "euler", True)
    bwd = h.mod("src.var_bayes.bwd_ode").BwdOde(dt, "euler", True)
    lik = h.mod("src.var_bayes.gaussian_like").GaussianLikelihood(c["y"], obs, c["R"], None, True)
    kl0 = h.mod("src.var_bayes.prior_kl0").PriorKL0(c["mu"], c["tau"], True)
    return h.mod("src.var_bayes.variational").VarGP(p, c["m0"], c["s0"], fwd, bwd, lik, kl0,
                                                    c["y"], obs)


def total(h, model, n, obs, at):
    """d F / d A_k and d F / d b_k agree with the gradient up to second order in dt."""
    A, b = h.vec("A", n), h.vec("b", n)
    c = dict(sigma=h.pos("sigma"), theta=h.pos("theta"), R=h.pos("R"), mu=h.real("mu"),
             tau=h.pos("tau"), m0=h.real("m0"), s0=h.pos("s0"), y=h.vec("y", len(obs)))
    k = at

    def gap(dt):
        """(dF/dx - g)/dt for x = A_k, b_k in a concrete run."""
        x = flat(h, A, b)
        vg = parts(h, model, dt, n, obs, A, b, c)
        g = vg.gradient(x, eval_fun=True)
        out, e = [], 1e-4
        for i in (k, n + k):
            xp, xm = x.copy(), x.copy()
            xp[i] += e
            xm[i] -= e
            out.append(((vg.free_energy(xp) - vg.free_energy(xm)) / (2 * e) - g[i]) / dt)
        return h.arr(out)
    if h.symbolic:
        dt = h.dt()
        x = flat(h, A, b)
        vg = parts(h, model, dt, n, obs, A, b, c)
        F = vg.free_energy(x)
        g = vg.gradient(x)
        r = [h.diff(F, v) - gi for v, gi in ((A[k], g[k]), (b[k], g[n + k]))]
        lead = h.arr([h.at_zero(v, dt) for v in r])
        first = h.arr([h.at_zero(h.diff(v, dt), dt) for v in r])
        h.eq("order 0", lead, h.zeros(2))
    else:
        h.dt()
        h.eq("order 0", h.zeros(2), h.zeros(2))
        # limit of the gap for dt -> 0, by extrapolation
        u, v, w = 4e-4, 2e-4, 1e-4
        first = h.np.round((gap(u) - 6 * gap(v) + 8 * gap(w)) / 3, 3)
    h.eq("order 1", first, h.zeros(2), tol=1e-3)


def given(h, I, model):
    n = 4
    def made():
        c = dict(sigma=I.num("sigma", True), theta=I.num("theta", True), R=I.num("R", True),
                 mu=I.num("mu"), tau=I.num("tau", True), m0=I.num("m0"), s0=I.num("s0", True),
                 y=I.arr("y", (1,)))
        return parts(h, model, I.real("dt", "1/16", "1/4"), n, [2], None, None, c)
    vg = I.make("vg", made)
    x = I.flo("x", (2 * n,))
    return vg.free_energy(x), vg.gradient(x)


def harnesses(thorough):
    out = []
    for fun in (False, True):
        t = "-eval" if fun else ""
        out += [("formula-1" + t, formula, dict(one=True, n=3, d=1, fun=fun)),
                ("formula-d2" + t, formula, dict(one=False, n=2, d=2, fun=fun)),
                ("formula-d3" + t, formula, dict(one=False, n=2, d=3, fun=fun)),
                ("long-1" + t, thin(formula, 6), dict(one=True, n=12, d=1, fun=fun)),
                ("longer-1" + t, thin(formula, 12), dict(one=True, n=120, d=1, fun=fun)),
                ("longer-2" + t, thin(formula, 24), dict(one=False, n=40, d=2, fun=fun)),
                ("wide-4" + t, thin(formula, 6), dict(one=False, n=5, d=4, fun=fun))]
    out += [("total-ou", total, dict(model="ou", n=4, obs=[2], at=1)),
            ("total-dw", total, dict(model="dw", n=4, obs=[2], at=1)),
            ("total-ou-after", total, dict(model="ou", n=4, obs=[1], at=2)),
            ("total-dw-after", total, dict(model="dw", n=4, obs=[1], at=2))]
    if thorough:
        out += [("total-ou-5", total, dict(model="ou", n=5, obs=[2], at=1)),
                ("total-ou-5-after", total, dict(model="ou", n=5, obs=[2], at=3)),
                ("total-dw-5", total, dict(model="dw", n=5, obs=[3], at=1))]
    out += forms("forms-dw", given, 6, model="dw") + forms("forms-ou", given, 6, model="ou")
    return out
