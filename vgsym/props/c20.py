"""C20: observations collected from a sample path."""
from .common import thin

BOUNDS = {"time_points": "5 and 9 (13 in the thorough tier); up to 1001 (80 observations) with "
                         "one in 16 or 24 inputs arbitrary", "density": "1..3 per time unit",
          "time step": "every dt in [1/8, 1/2] away from changes of the count; 1/2, 1/4, 1/10 with "
                       "arbitrary errors up to 1e-12 at every time of the window",
          "noise": "scalar / vector / matrix (of which the diagonal is used), all positive",
          "masks": "every Boolean mask of a 3-dimensional state with at least one entry"}


def process(h, one, n, d=3):
    """A process with an arbitrary path on the window t0, t0 + dt, ..."""
    if one:
        p = h.mod("src.dynamics.double_well").DoubleWell(h.const(1), h.const(1), 4)
        x = h.vec("x", n)
    else:
        p = h.mod("src.dynamics.lorenz_63").Lorenz63(h.const(1), h.arr([h.const(1)] * 3), 4)
        x = h.mat("x", n, d)
    t0 = h.real("t0")
    dt = h.real("dt", pos=True, lo="1/8", hi="1/2")
    p.sample_path = x
    p.time_window = h.stack([t0 + dt * k for k in range(n)])
    return p, x, dt


def count(h, n, dt, k):
    """Number of observations, as an integer of this path."""
    return int(h.floor(dt * (n - 1) * k))


def check_times(h, t, n, m):
    t = [int(v) for v in t]
    h.same("number", len(t), m)
    h.true("increasing", all(a < b for a, b in zip(t, t[1:])))
    h.true("inside", all(0 < v < n for v in t))
    # equidistant on the window: the j-th one is at j N / (M + 1), rounded down
    h.same("places", t, [(j * n) // (m + 1) for j in range(1, m + 1)])
    return t


def times(h, one, n):
    p, x, dt = process(h, one, n)
    k = int(h.int("density", 1, 3))
    near(h, dt, n, k)
    r = h.pos("R")
    if one:
        before = h.snapshot(x)
        t, y, R = p.collect_obs(k, r)
        t = check_times(h, t, n, count(h, n, dt, k))
        h.eq("path unchanged", p.sample_path, before)
        h.eq("noise", R, r)
    else:
        before = h.snapshot(x)
        t, y, R = p.collect_obs(k, r)
        t = check_times(h, t, n, count(h, n, dt, k))
        h.eq("path unchanged", p.sample_path, before)
        h.eq("noise", R, h.np.eye(3) * r)


def near(h, dt, n, k):
    """Keep a distance from the values of dt at which a count changes (rounding)."""
    e = h.const("1e-5")
    v = dt * (n - 1) * k
    h.assume(v >= 1 + e)
    f = h.floor(v)
    h.assume(h.conj(v - f >= e, v - f <= 1 - e))
    q = 1 / dt
    g = h.floor(q)
    h.assume(h.conj(q - g >= e, q - g <= 1 - e))
    h.assume(g >= k)


def rounded(h, q, n, dens):
    """Windows whose times carry rounding errors: q steps per time unit, n points."""
    p = h.mod("src.dynamics.double_well").DoubleWell(h.const(1), h.const(1), 4)
    x, t0 = h.vec("x", n), h.real("t0", -4, 4)
    dt = h.const(f"1/{q}")
    p.sample_path = x
    p.time_window = h.stack([t0 + dt * k + h.real(f"e{k}", "-1e-12", "1e-12") for k in range(n)])
    if dens > q:
        h.raises("too dense", ValueError, lambda: p.collect_obs(dens, h.pos("R")))
        return
    t, y, R = p.collect_obs(dens, h.pos("R"))
    check_times(h, t, n, ((n - 1) * dens) // q)


def too_many(h):
    p, x, dt = process(h, h.choice("one", [True, False]), 3)
    k = h.int("density", 1, 12)
    h.assume(dt * k > h.const("1.00001"))
    h.raises("too dense", ValueError, lambda: p.collect_obs(int(k), h.pos("R")))


def missing(h):
    """Neither a path nor a window, or only one of them."""
    k, r = int(h.int("density", 1, 3)), h.pos("R")
    dw, lo = h.mod("src.dynamics.double_well"), h.mod("src.dynamics.lorenz_63")
    for one in (True, False):
        def new():
            return dw.DoubleWell(h.const(1), h.const(1), 4) if one else \
                lo.Lorenz63(h.const(1), h.arr([h.const(1)] * 3), 4)
        x = h.vec(f"x{one}", 5) if one else h.mat(f"x{one}", 5, 3)
        t = h.arr([h.const(i) for i in range(5)])
        a, b, c = new(), new(), new()
        b.sample_path = x
        c.time_window = t
        for p in (a, b, c):
            h.raises("nothing to observe", NotImplementedError, lambda: p.collect_obs(k, r))


def values(h, one, n, form, mask, dens):
    """Values at the collected times plus noise with the requested covariance."""
    p0, x, dt = process(h, one, n)
    near(h, dt, n, dens)
    mk = None
    cols = list(range(3))
    if mask:
        mk = [True, False, True] if mask == 2 else [False, True, False]
        cols = [i for i in range(3) if mk[i]]
    q = 1 if one else len(cols)
    if form == "scalar":
        rn = h.pos("R")
        diag = [rn] * q
    elif form == "vector":
        rn = h.vec("R", q, pos=True)
        diag = list(rn)
    else:
        rn = h.mat("R", q, q)
        for i in range(q):
            rn[i, i] = h.pos(f"Rd{i}")
        diag = [rn[i, i] for i in range(q)]
    state = {}

    def noise():
        p = process(h, one, n)[0] if not h.symbolic else p0
        p.sample_path = x
        t, y, R = p.collect_obs(dens, rn, h.np.array(mk) if mask else None)
        state["t"], state["R"], state["y"] = [int(v) for v in t], R, y
        v = x if one else x[:, cols]
        e = y - v[state["t"]]
        return e.reshape(e.size)
    J = h.noise_matrix("noise", noise)
    m = len(state["t"])
    h.same("shape", tuple(state["y"].shape), (m,) if one else (m, q))
    JJ = J.dot(J.T)
    e = h.zeros(m * q, m * q)
    for a in range(m):
        for i in range(q):
            e[a * q + i, a * q + i] = diag[i]
    h.eq("covariance", JJ, e)
    if q > 1:
        D = h.zeros(q, q)
        for i in range(q):
            D[i, i] = diag[i]
        h.eq("returned noise", state["R"], D)
    else:
        h.eq("returned noise", state["R"], rn)


def harnesses(thorough):
    out = []
    for n in (5, 9) + ((13,) if thorough else ()):
        out += [(f"times-1-{n}", times, dict(one=True, n=n)),
                (f"times-3-{n}", times, dict(one=False, n=n))]
    out += [("too-many", too_many, {}), ("missing", missing, {})]
    for q, n in ((2, 5), (4, 9), (10, 11), (10, 15)) + (((20, 41), (100, 101)) if thorough else ()):
        for k in sorted({1, 2, q // 2, q - 1, q, q + 1}):
            out.append((f"rounded-{q}-{n}-{k}", rounded, dict(q=q, n=n, dens=k)))
    for q, n, k in ((10, 401, 2), (4, 150, 4), (100, 1001, 8)):
        out.append((f"rounded-long-{q}", thin(rounded, 24), dict(q=q, n=n, dens=k)))
    out += [("values-long-1", thin(values, 16), dict(one=True, n=48, form="scalar", mask=0, dens=2)),
            ("values-long-3", thin(values, 24), dict(one=False, n=40, form="vector", mask=2,
                                                     dens=2))]
    v = [(True, 5, "scalar", 0, 2), (False, 5, "scalar", 0, 2), (False, 5, "vector", 0, 1),
         (False, 5, "matrix", 0, 2), (False, 5, "vector", 2, 2), (False, 5, "matrix", 2, 1),
         (False, 5, "scalar", 1, 2)]
    for one, n, form, mask, dens in v:
        out.append((f"values-{'1' if one else '3'}-{form}-{mask}-{dens}", values,
                    dict(one=one, n=n, form=form, mask=mask, dens=dens)))
    return out
