"""Shared harness: SDE energy and gradients of a model with polynomial drift."""
from .common import *          # noqa: F401,F403


def window(h, n, dt):
    t0 = h.real("t0")
    return h.stack([t0 + dt * k for k in range(n)])


def _z(x, like):
    return x + like * 0


def check_energy(h, proc, f, df, P, one, n, d, dt, A, b, m, S, obs_t, parts, sig=None):
    """Compares proc.energy(...) with expectations of the documented drift.

    P: inverse noise (rows); df[i][k]: derivative of drift i w.r.t. parameter k (or None)."""
    E, (Ef, Edf), (dm, dS, dth, dsig) = proc.energy(A, b, m, S, obs_t)
    half = h.const("1/2")
    z = dt * 0
    dens, ef, edf, gm, gs = [], [], [], [], []
    th = [[] for _ in range(len(df[0]))] if df else []
    sq = [[] for _ in range(d)]
    for t in range(n):
        At = [[A[t]]] if one else A[t]
        bt, mt, St = ([b[t]], [m[t]], [[S[t]]]) if one else (b[t], m[t], S[t])
        G = Gauss(mt, St)
        g = residual(f, At, bt)
        q = gp_scale(quad(g, P), half)
        dens.append(G.E(q))
        if "drift" in parts:
            ef.append([G.E(f[i]) + z for i in range(d)])
            edf.append([[G.E(gp_diff(f[i], j)) + z for j in range(d)] for i in range(d)])
        if "grad" in parts:
            gm.append([G.E(gp_diff(q, i)) + z for i in range(d)])
            gs.append([[G.E(gp_diff(gp_diff(q, i), j)) * half + z for j in range(d)]
                       for i in range(d)])
        if "par" in parts:
            for k in range(len(th)):
                th[k].append(G.E(gp_add(*[gp_scale(gp_mul(g[i], df[j][k]), P[i][j])
                                          for i in range(d) for j in range(d)])) + z)
            for i in range(d):
                sq[i].append(G.E(gp_mul(g[i], g[i])))
    if "energy" in parts:
        h.eq("Esde", E, trapz(dens, dt))
    if one:
        un = lambda v: [x[0] for x in v]
        um = lambda v: [x[0][0] for x in v]
    else:
        un = um = lambda v: v
    if "drift" in parts:
        h.eq("<f>", Ef, h.arr(un(ef)))
        h.eq("<df/dx>", Edf, h.arr(um(edf)))
    if "grad" in parts:
        h.eq("dEsde/dm", dm, h.arr(un(gm)))
        h.eq("dEsde/dS", dS, h.arr(um(gs)))
    if "par" in parts:
        if th:
            e = [trapz(x, dt) for x in th]
            h.eq("dEsde/dtheta", dth, e[0] if one else h.arr(e))
        if one:
            h.eq("dEsde/dsigma", dsig, -trapz(dens, dt) * P[0][0])
        else:
            e = [[-trapz(sq[i], dt) * P[i][i] * P[i][i] * half if i == j else z
                  for j in range(d)] for i in range(d)]
            h.eq("dEsde/dsigma", dsig, h.arr(e))


def changed(h, module, cls, one, n, d, obs, off=None, extra=()):
    """After a change of noise, drift and time grid: what a new model with those values gives."""
    C = getattr(h.mod(f"src.dynamics.{module}"), cls)
    dt, t0, u0 = h.dt(), h.real("t0"), h.real("u0")
    w1, w2 = [t0 + dt * k for k in range(n)], [u0 + dt * 2 * k for k in range(n)]
    if one:
        new = lambda t: (h.pos("sigma" + t), h.pos("theta" + t))
        args = h.vec("A", n), h.vec("b", n), h.vec("m", n), h.vec("S", n)
    else:
        if module == "lorenz_63":
            th = lambda t: h.vec("theta" + t, d)
            S = h.stack([h.symmetric(f"S{t}", d) for t in range(n)])
        else:
            th = lambda t: h.real("theta" + t)
            S = h.stack([h.spd(f"S{t}", d, mode="opaque", off=off) for t in range(n)])
        # every positive noise is the inverse of a positive precision
        new = lambda t: (h.np.diag(h.arr([1 / h.pos(f"prec{t}_{i}") for i in range(d)])), th(t))
        args = h.ten("A", (n, d, d)), h.mat("b", n, d), h.mat("m", n, d), S
    (s1, t1), (s2, t2) = new("1"), new("2")
    fresh = C(s2, t2, *extra)
    fresh.time_window = h.stack(w2)
    want = [h.snapshot(x) for x in flatten(fresh.energy(*args, obs))]
    p = C(s1, t1, *extra)
    p.time_window = h.stack(w1)
    p.energy(*args, obs)
    p.sigma = s2
    p.theta = t2
    p.time_window = h.stack(w2)
    got = flatten(p.energy(*args, obs))
    h.same("results", len(got), len(want))
    for k, (x, y) in enumerate(zip(got, want)):
        h.eq(f"result {k}", x, y)
