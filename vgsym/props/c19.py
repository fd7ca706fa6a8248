"""C19: the time window has the requested length, whatever the rounding of tf."""
BOUNDS = {"steps": "every number of steps from 1 to 6 (Lorenz-96: 1 to 2); 12 to 257 steps",
          "values": "every t0 and dt > 0; tf within 1e-9 dt of t0 + k dt (rounding of inputs)"}


def build(h, model):
    if model == "DW":
        return h.mod("src.dynamics.double_well").DoubleWell(h.const(1), h.const(1), 3)
    if model == "OU":
        return h.mod("src.dynamics.ornstein_uhlenbeck").OrnsteinUhlenbeck(h.const(1), h.const(1), 3)
    if model == "L63":
        return h.mod("src.dynamics.lorenz_63").Lorenz63(
            h.const(1), h.arr([h.const(10), h.const(28), h.const("8/3")]), 3)
    return h.mod("src.dynamics.lorenz_96").Lorenz96(h.const(1), h.const(8), 3, 10)


def window(h, model, kmax):
    p = build(h, model)
    t0, dt, k = h.real("t0"), h.dt(), h.int("k", 1, kmax)
    r = h.real("r", lo="-1e-9", hi="1e-9")
    h.assume(dt >= h.const("1e-3"))
    k = int(k)
    p.make_trajectory(t0, t0 + dt * k + r * dt, dt)
    tk, x = p.time_window, p.sample_path
    h.same("points", int(tk.size), k + 1)
    h.same("samples", int(x.shape[0]), k + 1)
    h.eq("times", tk, h.arr([t0 + dt * i for i in range(k + 1)]))
    h.eq("step", p.time_step, dt)


def long(h, model, k):
    """Many steps; the error of tf is arbitrary."""
    p = build(h, model)
    t0, dt = h.real("t0"), h.dt()
    h.assume(dt >= h.const("1e-3"))
    p.make_trajectory(t0, t0 + dt * k + h.real("r", lo="-1e-9", hi="1e-9") * dt, dt)
    tk, x = p.time_window, p.sample_path
    h.same("points", int(tk.size), k + 1)
    h.same("samples", int(x.shape[0]), k + 1)
    h.eq("times", tk, h.arr([t0 + dt * i for i in range(k + 1)]))


def again(h):
    """A second path replaces the first one and its window."""
    p = build(h, "OU")
    dt = h.dt()
    p.make_trajectory(h.const(0), dt * 3, dt)
    e = h.dt("e")
    p.make_trajectory(h.const(1), e + 1, e)
    h.same("samples", int(p.sample_path.shape[0]), 2)
    h.eq("times", p.time_window, h.arr([h.const(1), e + 1]))
    h.eq("step", p.time_step, e)


def unset(h):
    """Nothing is returned before a path exists."""
    for m in ("DW", "OU", "L63", "L96"):
        p = build(h, m)
        h.raises(f"{m} path", NotImplementedError, lambda: p.sample_path)
        h.raises(f"{m} window", NotImplementedError, lambda: p.time_window)
        h.raises(f"{m} step", NotImplementedError, lambda: p.time_step)
        h.raises(f"{m} observations", NotImplementedError, lambda: p.collect_obs(1, h.const(1)))


def harnesses(thorough):
    k = 12 if thorough else 6
    return [("dw", window, dict(model="DW", kmax=k)), ("ou", window, dict(model="OU", kmax=k)),
            ("l63", window, dict(model="L63", kmax=4)), ("l96", window, dict(model="L96", kmax=2)),
            ("dw-long", long, dict(model="DW", k=150)), ("ou-long", long, dict(model="OU", k=257)),
            ("l63-long", long, dict(model="L63", k=40)), ("l96-long", long, dict(model="L96", k=12)),
            ("again", again, {}), ("unset", unset, {})]
