"""C18: sample paths are Euler-Maruyama paths of the documented equations."""
from .common import *          # noqa: F401,F403

BOUNDS = {"time_points": "4 (scalar models), 3 (Lorenz models)", "dimension": "Lorenz-96: 10",
          "noise": "any scalar / vector / positive definite matrix (Lorenz-96: Cholesky factor "
                   "with three entries off the diagonal)",
          "burn-in": "the deterministic burn-in loop is cut after 2 of its steps; the claim does "
                     "not depend on the starting point"}


def blocks(h, J, n, d, cov, dt, first):
    """J J' is block diagonal with blocks cov dt (after the blocks of the initial state)."""
    k = first
    JJ = J.dot(J.T)
    for t in range(n):
        for s in range(t + 1):
            B = JJ[k + t * d:k + (t + 1) * d, k + s * d:k + (s + 1) * d]
            e = cov * dt if t == s else cov * (dt * 0)
            h.eq(f"covariance of increments {t + 1},{s + 1}", B, e)
        if first:
            h.eq(f"increment {t + 1} independent of the start",
                 JJ[k + t * d:k + (t + 1) * d, 0:first],
                 h.zeros(d, first))


def scalar(h, model, n):
    sg, dt, t0 = h.pos("sigma"), h.dt(), h.real("t0")
    if model == "dw":
        cls, th = h.mod("src.dynamics.double_well").DoubleWell, h.real("theta")
    else:
        cls, th = h.mod("src.dynamics.ornstein_uhlenbeck").OrnsteinUhlenbeck, h.pos("theta")
    mu = h.real("mu") if model == "ou" else None

    def noise():
        p = cls(sg, th, 5)
        if mu is not None:
            p.make_trajectory(t0, t0 + dt * (n - 1), dt, mu)
        else:
            p.make_trajectory(t0, t0 + dt * (n - 1), dt)
        x = p.sample_path
        h.same("samples", tuple(x.shape), (n,))
        if mu is not None:
            h.eq("x0", x[0], mu)
        out = []
        if model == "dw":
            u = [v for k, v in h.draws.items() if "_u_" in k]
            h.same("one coin", len(u), 1)
            out.append(x[0] - h.where(u[0] > h.const("1/2"), th, -th))
        for t in range(1, n):
            a = x[t - 1]
            h.opaque(a)
            f = 4 * a * (th - a * a) if model == "dw" else th * (mu - a)
            out.append(x[t] - a - f * dt)
        return h.arr(out)
    J = h.noise_matrix("increments", noise)
    first = 1 if model == "dw" else 0
    cov = h.arr([[sg]])
    blocks(h, J, n - 1, 1, cov, dt, first)
    if first:
        h.eq("variance of the start", J[0].dot(J[0]), sg * dt / 2)


def lorenz(h, model, n, form):
    dt, t0 = h.dt(), h.real("t0")
    d = 3 if model == "l63" else 10
    if form == "scalar":
        sg = h.pos("sigma")
        cov = h.np.eye(d) * sg
    elif form == "vector":
        sg = h.vec("sigma", d, pos=True)
        cov = h.np.diag(sg)
    else:
        sg = cov = h.spd("sigma", d, off=None if d == 3 else ((1, 0), (4, 2), (9, 3)))
    if model == "l63":
        th = h.vec("theta", 3)
        make = lambda: h.mod("src.dynamics.lorenz_63").Lorenz63(sg, th, 5)
        f = lambda x: [gp_eval(g, x) for g in drift_l63(*th)[0]]
    else:
        th = h.real("theta")
        make = lambda: h.mod("src.dynamics.lorenz_96").Lorenz96(sg, th, 5, d)
        f = lambda x: [(x[(i + 1) % d] - x[(i - 2) % d]) * x[(i - 1) % d] - x[i] + th
                       for i in range(d)]

    def noise():
        p = make()
        p.make_trajectory(t0, t0 + dt * (n - 1), dt)
        x = p.sample_path
        h.same("samples", tuple(x.shape), (n, d))
        out = []
        for t in range(1, n):
            h.opaque(x[t - 1])
            fx = f(x[t - 1])
            out.extend(x[t, i] - x[t - 1, i] - fx[i] * dt for i in range(d))
        return h.arr(out)
    J = h.noise_matrix("increments", noise)
    blocks(h, J, n - 1, d, cov, dt, 0)


def start(h, model):
    """The start of a Lorenz path does not depend on the random draws."""
    dt = h.dt()
    if model == "l63":
        mk = lambda seed: h.mod("src.dynamics.lorenz_63").Lorenz63(h.const(1), h.arr(
            [h.const(10), h.const(28), h.const("8/3")]), seed)
    else:
        mk = lambda seed: h.mod("src.dynamics.lorenz_96").Lorenz96(h.const(1), h.const(8), seed, 10)
    a, b = mk(1), mk(2)
    a.make_trajectory(h.const(0), dt, dt)
    b.make_trajectory(h.const(0), dt * 2, dt)
    h.eq("same start", a.sample_path[0], b.sample_path[0])


def harnesses(thorough):
    out = [("dw", scalar, dict(model="dw", n=4)), ("ou", scalar, dict(model="ou", n=4))]
    for f in ("scalar", "vector", "matrix"):
        out.append((f"l63-{f}", lorenz, dict(model="l63", n=3, form=f)))
        out.append((f"l96-{f}", lorenz, dict(model="l96", n=3, form=f)))
    if thorough:
        out += [("dw-8", scalar, dict(model="dw", n=8)), ("ou-8", scalar, dict(model="ou", n=8)),
                ("l63-matrix-5", lorenz, dict(model="l63", n=5, form="matrix"))]
    return out
