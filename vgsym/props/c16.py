"""C16: contract of the optimiser for an arbitrary objective."""
from .scg import start, Enough, follow, gradient

BOUNDS = {"iterations": "1 and 2 (2 for dimension 1; dimension 2 in the thorough tier)",
          "dimension": "1 and 2",
          "objective": "arbitrary values and gradients at every point evaluated; arbitrary "
                       "quadratic functions for the length of the first step; direction of "
                       "the second step: two first gradients, every second gradient; scale: one "
                       "variable, every value and curvature in [-4, 4], 2 trials (3 in the "
                       "thorough tier); stopping and restart: fixed first gradients"}


def contract(h, dim, nit):
    opt, ob, x0 = start(h, dim, nit)
    keep = h.snapshot(x0)
    x, fx = opt(x0)
    h.eq("start unchanged", x0, keep)
    h.same("shape", tuple(x.shape), (dim,))
    tr = list(ob.trace)
    k = ob.index(x)
    h.true("returned point was evaluated", ("f", k) in tr)
    h.eq("returned value belongs to the returned point", fx, ob.vals[k])
    h.le("never worse than the start", fx, ob.vals[0])
    # accepted points: f, then df, at the same point
    acc = [b for (o1, a), (o2, b) in zip(tr, tr[1:]) if o1 == "f" and o2 == "df" and a == b]
    for a, b in zip(acc, acc[1:]):
        h.le("accepted points never get worse", ob.vals[b], ob.vals[a])
    st = opt.statistics
    its = int(st["MaxIt"])
    h.true("iteration budget", its <= nit)
    h.true("evaluation budget", len([t for t in tr if t[0] == "f"]) <= 1 + 2 * nit
           and len([t for t in tr if t[0] != "f"]) <= 1 + 2 * nit)
    if len(tr) > 2:
        for j in range(its if tr[-1][0] != "df" or nit == its else its - 1):
            if j < nit:
                h.le(f"recorded value {j}", st["fx"][j], ob.vals[0])


def stops(h, dim, nit):
    """Why it stops before the budget is used."""
    opt, ob, x0 = start(h, dim, nit)
    x, fx = opt(x0)
    k = ob.index(x)
    tr = ob.trace
    g0 = ob.grads[0]
    tiny = h.const("2.3e-16")
    if len(tr) == 2:
        h.true("stops at once only where the gradient vanishes", g0.dot(g0) <= tiny)
        h.same("at the start", k, 0)
        return
    h.true("goes on while the gradient does not vanish", g0.dot(g0) >= h.const("2.2e-16"))
    its = int(opt.statistics["MaxIt"])
    if its >= nit:
        return
    if tr[-1] == ("f", k):
        # stopped on an accepted point that was not evaluated again
        prev = [a for o, a in tr if o == "df"][-1]
        step = x - ob.points[prev]
        for i in range(dim):
            h.le(f"step {i}", abs(step[i]), h.const("1e-6"))
        h.le("change of value", abs(fx - ob.vals[prev]), h.const("1e-8"))
    elif tr[-1] == ("df", k) and len([t for t in tr if t[0] == "dfe"]) == its:
        g = ob.grads[k]
        h.true("gradient vanishes", g.dot(g) <= h.const("1.0001e-8"))


def settle(h, big, small, xt):
    """Two dimensions: it stops before the budget exactly when every step is small (and so is
    the change of value).  The first trial improves; its step is (big, small), up to sign."""
    opt, ob, x0 = start(h, 2, 2, {"x_tol": h.const(xt)})
    g = h.arr([h.const(big), h.const(small)])
    f1 = h.real("f1", "-1", 0)
    h.assume(f1 < 0)
    ob.value = lambda k: h.const(0) if k == 0 else (h.const(-1) if k == 1 else f1 if k == 2
                                                    else h.real(f"f{k}"))
    ob.grads += [g, g, h.arr([h.const(1), h.const(2)]), h.arr([h.const(1), h.const(3)])]
    opt(x0)
    tr = [t for t in ob.trace]
    h.true("trial", len(tr) >= 4 and tr[3][0] == "f")
    step = ob.points[tr[3][1]] - ob.points[0]
    stop = h.conj(*[abs(step[i]) <= h.const(xt) for i in range(2)], abs(f1) <= h.const("1e-8"))
    h.true("stops if and only if it has settled", stop == (len(tr) == 4))


def restart(h, grads, accepted):
    """After as many accepted steps as there are dimensions: the negative gradient again."""
    dim = len(grads[0])
    opt, ob, x0 = start(h, dim, accepted + 1)
    ob.value = lambda k: h.const(-k)
    for k, g in enumerate(grads):
        g = h.arr([h.const(v) for v in g])
        ob.grads += [g, g * h.const("3/2")] if k < len(grads) - 1 else [g]
    ob.grads[-1] = h.vec("last", dim)
    h.assume(ob.grads[-1].dot(ob.grads[-1]) >= h.const("1e-3"))
    ob.probes = accepted + 1
    try:
        opt(x0)
    except Enough:
        pass
    dfs = [a for o, a in ob.trace if o == "df"]
    probes = [a for o, a in ob.trace if o == "dfe"]
    h.true("all steps accepted", len(dfs) == accepted + 1 and len(probes) == accepted + 1)
    p = ob.points[probes[-1]] - ob.points[dfs[-1]]
    g = ob.grads[dfs[-1]]
    h.true("downhill", p.dot(g) < 0)
    for i in range(1, dim):
        h.eq(f"along the gradient {i}", p[0] * g[i] - p[i] * g[0], h.const(0))


def descent(h, dim, nit):
    """Every probe and every trial step goes forward along a descent direction."""
    opt, ob, x0 = start(h, dim, nit)
    opt(x0)
    cur, probe = 0, None
    for (o, a), nxt in zip(ob.trace, ob.trace[1:] + [(None, None)]):
        if o == "df":
            cur = a
        elif o == "dfe":
            probe = ob.points[a] - ob.points[cur]
            h.true("probe goes downhill", probe.dot(ob.grads[cur]) < 0)
            h.eq("probe distance", probe.dot(probe), h.const("1e-6"), tol=1e-9)
        elif probe is not None and nxt != ("df", a):
            step = ob.points[a] - ob.points[cur]
            h.true("forward", step.dot(probe) > 0)
            if dim == 2:
                h.eq("along the probe", step[0] * probe[1] - step[1] * probe[0], h.const(0))


def quadratic(h, dim):
    """First trial point for f(x0 + z) = 1/2 z'Hz + g'z: z = -g k/(g'Hg + k), k = g'g, when
    that is a positive multiple of -g, otherwise z = -g."""
    C = h.mod("src.numerics.optim_scg").SCG
    H = h.symmetric("H", dim)
    g, x0 = h.vec("g", dim), h.vec("x", dim)
    half = h.const("1/2")
    pts = []

    def f(x, *a):
        z = h.simplify(x - x0)
        pts.append(z)
        return z.dot(H).dot(z) * half + g.dot(z)

    def df(x, *a, eval_fun=False):
        return H.dot(h.simplify(x - x0)) + g
    k = h.simplify(g.dot(g))
    th = h.simplify(g.dot(H).dot(g))
    h.assume(k >= h.const("1e-3"))
    C(f, df, {"max_it": 1, "display": False})(x0)
    h.true("one trial", len(pts) >= 2)
    if th + k > 0:
        h.eq("trial", pts[1] * (th + k), -g * k)
        if dim == 1:
            h.le("bounded by the gradient if convex",
                 h.where(th >= 0, pts[1].dot(pts[1]) - k, 0), 0)
    else:
        h.eq("trial", pts[1], -g)


class Line:
    """One variable: gradients c at accepted points, curvature theta measured by each probe."""

    def __init__(self, h, grads):
        self.h, self.c = h, [h.const(v) for v in grads]
        self.seen, self.vals, self.theta = [], [], []
        self.at = 0

    def f(self, x, *a):
        for p, v in zip(self.seen, self.vals):
            if self.h.identical(p, x):
                return v
        k = len(self.seen)
        self.seen.append(self.h.snapshot(x))
        self.vals.append(self.h.real(f"f{k}", -4, 4) if k else self.h.const(0))
        return self.vals[-1]

    def df(self, x, *a, eval_fun=False):
        c = self.c[self.at]
        if eval_fun:
            t = self.h.real(f"theta{len(self.theta)}", -4, 4)
            self.theta.append(t)
            return self.h.arr([c - t * self.h.const("1/1000") / (abs(c) * c)])
        if len(self.seen) > 1:
            self.at += 1
        return self.h.arr([self.c[self.at]])


def scale(h, grads, nit):
    """One variable: each trial point is the scaled conjugate gradient one.  The scale is
    quadrupled when the comparison ratio is below 1/4 (a rejected trial, say), halved above
    3/4, and moved out of the way of negative curvature."""
    C = h.mod("src.numerics.optim_scg").SCG
    L = Line(h, grads)
    x0 = h.vec("x", 1)
    C(L.f, L.df, {"max_it": nit, "x_tol": h.const("1e-6"), "f_tol": h.const("1e-8"),
                  "display": False})(x0)
    beta, cur, at, probe = h.const(1), 0, 0, 0
    h.same("trials", len(L.seen), nit + 1)
    for k in range(1, nit + 1):
        c = h.const(grads[at])
        th, kap = L.theta[probe], c * c
        den = th + beta * kap
        h.assume(abs(den) >= h.const("1e-3"))
        if den <= 0:
            den, beta = beta * kap, beta - th / kap
        a = kap / den
        h.eq(f"trial {k}", L.seen[k], L.seen[cur] - a * c)
        r = (L.vals[cur] - L.vals[k]) * 2 / (a * kap)
        for edge in ("0", "1/4", "3/4"):
            h.assume(abs(r - h.const(edge)) >= h.const("1e-5"))
        if r > 0:
            cur, at, probe = k, at + 1, probe + 1
        if r < h.const("1/4"):
            beta = beta * 4
        if r > h.const("3/4"):
            beta = beta / 2


RANGE = {"R": ("-2", "-1/100"), "L": ("1/100", "6/25"), "M": ("13/50", "37/50"),
         "G": ("19/25", "3")}


class Script(Line):
    """Line with a comparison ratio of the given kind at every trial: rejected, low, middle,
    good."""

    def __init__(self, h, grads, kinds, curve):
        super().__init__(h, grads)
        self.kinds, self.curve = kinds, curve
        self.beta, self.cur = h.const(1), 0
        self.want, self.start = [], None

    def f(self, x, *a):
        h = self.h
        for p, v in zip(self.seen, self.vals):
            if h.identical(p, x):
                return v
        k = len(self.seen)
        self.seen.append(h.snapshot(x))
        if not k:
            self.vals.append(h.const(0))
            return self.vals[0]
        c, th = self.c[self.at], self.theta[-1]
        kap = c * c
        den = th + self.beta * kap
        if den <= 0:
            den, self.beta = self.beta * kap, self.beta - th / kap
        a = kap / den
        self.want.append(self.seen[self.cur] - a * c)
        r = h.real(f"r{k}", *RANGE[self.kinds[k - 1]])
        self.vals.append(h.simplify(self.vals[self.cur] - r * a * kap / 2))
        if self.kinds[k - 1] != "R":
            self.cur = k
        if self.kinds[k - 1] in "RL":
            self.beta = self.beta * 4
        if self.kinds[k - 1] == "G":
            self.beta = self.beta / 2
        return self.vals[-1]

    def df(self, x, *a, eval_fun=False):
        h = self.h
        if eval_fun:
            t = h.const(self.curve[len(self.theta) % len(self.curve)])
            self.theta.append(t)
            c = self.c[self.at]
            return h.arr([c - t * h.const("1/1000") / (abs(c) * c)])
        if self.start is not None:
            self.at += 1
        self.start = x
        return h.arr([self.c[self.at]])


def scripted(h, kinds, curve):
    """One variable, many trials: the scale and with it every trial point."""
    C = h.mod("src.numerics.optim_scg").SCG
    n = len(kinds)
    S = Script(h, [("1", "1/2", "-3/4", "2")[k % 4] for k in range(n + 1)], kinds, curve)
    x0 = h.vec("x", 1)
    C(S.f, S.df, {"max_it": n, "x_tol": h.const("1e-9"), "f_tol": h.const("1e-12"),
                  "display": False})(x0)
    h.same("trials", len(S.seen), n + 1)
    for k in range(n):
        h.eq(f"trial {k}", S.seen[k + 1], S.want[k])


def directions(h, dim, trials):
    """Many accepted (A) and rejected (R) steps: every search direction is the conjugate one,
    and the negative gradient again after as many accepted steps as there are dimensions."""
    accepted = trials.count("A")
    opt, ob, x0 = start(h, dim, len(trials) + 1)
    gs = [gradient(h, k, dim) for k in range(accepted)] + [
        h.arr([h.real("last", "1/4", 2), h.const(-1), h.const("1/2"), h.const("3/4")][:dim])]
    follow(h, ob, gs, trials)
    ob.probes = accepted + 1
    try:
        opt(x0)
    except Enough:
        pass
    dfs = [a for o, a in ob.trace if o == "df"]
    probes = [a for o, a in ob.trace if o == "dfe"]
    h.true("all steps accepted", len(dfs) == accepted + 1 and len(probes) == accepted + 1)
    d, count = -gs[0], 0
    for k in range(accepted + 1):
        if k:
            count += 1
            if count == dim:
                d, count = -gs[k], 0
            else:
                c = gs[k].dot(gs[k - 1] - gs[k]) / mu
                d = -gs[k] + d * c if c > 0 else -gs[k]
        mu = d.dot(gs[k])
        if k == accepted:
            h.assume(abs(mu) >= h.const("1e-4"))
        if mu >= 0:
            d = -gs[k]
            mu = d.dot(gs[k])
        p = ob.points[probes[k]] - ob.points[dfs[k]]
        h.true(f"downhill {k}", p.dot(gs[k]) < 0)
        for i in range(dim):
            for j in range(i):
                h.eq(f"direction {k}, {i} {j}", p[i] * d[j] - p[j] * d[i], h.const(0))


def twice(h, first):
    """A second run of the same object is a run of a new one."""
    o = {"max_it": 3, "x_tol": h.const("1e-6"), "f_tol": h.const("1e-8"), "display": False}
    opt, ob, x0 = start(h, 2, 3)
    ob.value = lambda k: h.const(-k) * h.const("1e-9" if first == "settled" and k < 3 else 1)
    z, g = h.zeros(2), h.arr([h.const(1), h.const("1/2")])
    small = g * h.const("1e-7")
    ob.grads += {"at once": [z], "flat": [g, g * h.const("3/2"), z],
                 "settled": [small, small * 2, small],
                 "budget": [g, g * 2, g / 2, g, g * 2, g * 3, g]}[first]
    opt(x0)
    h.true("first run", len(ob.trace) == {"at once": 2, "flat": 6, "settled": 4,
                                          "budget": 14}[first])
    for k in range(8):
        ob.grads.append(gradient(h, k, 2))
    x1 = h.vec("y", 2)
    at = len(ob.trace)
    xa, fa = opt(x1)
    ta = ob.trace[at:]
    at = len(ob.trace)
    new = type(opt)(ob.f, ob.df, o)
    xb, fb = new(x1)
    h.same("same evaluations", ta, ob.trace[at:])
    h.eq("same point", xa, xb)
    h.eq("same value", fa, fb)


def polak(h, g):
    """Second search direction in two dimensions: Polak-Ribiere, never a negative multiple."""
    opt, ob, x0 = start(h, 2, 2)
    ob.value = lambda k: h.const(-k)            # every trial improves
    ob.grads += [h.arr([h.const(g), h.const("1/2")]), h.arr([h.const(-g), h.const(1)]),
                 h.vec("g2", 2)]
    g0, g1 = ob.grads[0], ob.grads[2]
    ob.probes = 2                               # enough seen at the second probe
    try:
        opt(x0)
    except Enough:
        pass
    tr = ob.trace
    dfs = [a for o, a in tr if o == "df"]
    probes = [a for o, a in tr if o == "dfe"]
    if len(dfs) < 2 or len(probes) < 2:
        return
    p = ob.points[probes[1]] - ob.points[dfs[1]]
    c = g1.dot(g1 - g0)
    if c > 0:
        d = -g0 * c - g1 * g0.dot(g0)
        if d.dot(g1) >= 0:
            d = -g1
    else:
        d = -g1
    h.eq("direction", p[0] * d[1] - p[1] * d[0], h.const(0))


def harnesses(thorough):
    out = []
    for fn in (contract, stops, descent):
        n = fn.__name__
        out += [(f"{n}-d1-1", fn, dict(dim=1, nit=1)), (f"{n}-d2-1", fn, dict(dim=2, nit=1)),
                (f"{n}-d1-2", fn, dict(dim=1, nit=2))]
        if thorough:
            out += [(f"{n}-d2-2", fn, dict(dim=2, nit=2))]
    out += [("quad-1", quadratic, dict(dim=1)), ("quad-2", quadratic, dict(dim=2)),
            ("polak-1", polak, dict(g=1)), ("polak-3", polak, dict(g=3))]
    for k, (b, s, xt) in enumerate((("1", "1e-7", "1e-6"), ("1e-7", "1", "1e-6"),
                                    ("1e-7", "1e-7", "1e-6"), ("1/100", "1/1000", "1/10"),
                                    ("1/100", "1/1000", "1/200"))):
        out.append((f"settle-{k}", settle, dict(big=b, small=s, xt=xt)))
    out += [("scale-2", scale, dict(grads=("1", "1/2", "1"), nit=2)),
            ("scale-2-up", scale, dict(grads=("-1", "2", "1"), nit=2))]
    if thorough:
        out.append(("scale-3", scale, dict(grads=("1", "1/2", "-2", "1"), nit=3)))
    out += [("rejected", scripted, dict(kinds="R" * 14, curve=("1/2",))),
            ("good", scripted, dict(kinds="G" * 12, curve=("1/2", "1"))),
            ("low", scripted, dict(kinds="L" * 8, curve=("1/2", "1"))),
            ("mixed", scripted, dict(kinds="RRGMLGRMGGLR", curve=("1/2", "-1/4", "3"))),
            ("negative", scripted, dict(kinds="GGMRLGGRRG", curve=("-2", "-1/2", "-9"))),
            ("directions-2", directions, dict(dim=2, trials="AARAAARRAA")),
            ("directions-3", directions, dict(dim=3, trials="AAAAARAARA")),
            ("directions-4", directions, dict(dim=4, trials="AAAARAAAAA"))]
    out += [("twice-" + f.replace(" ", "-"), twice, dict(first=f))
            for f in ("at once", "flat", "settled", "budget")]
    out += [("restart-1", restart, dict(grads=(("1",), ("1/2",)), accepted=1)),
            ("restart-2", restart, dict(grads=(("1", "1/2"), ("-1/2", "1"), ("1", "1")),
                                        accepted=2))]
    return out
