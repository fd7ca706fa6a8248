"""C21: validation of the noise and drift parameters, over histories of updates."""
from .forms import forms as typed
BOUNDS = {"histories": "construction followed by up to 3 accepted or rejected updates",
          "matrices": "3 x 3: every positive definite, diagonal, and one-block indefinite symmetric "
                      "matrix; 10 x 10: every diagonal, and banded positive definite ones"}


def attempt(h, fn, *errors):
    try:
        fn()
        return True
    except errors:
        return False


def scalar(h, model, steps):
    if model == "dw":
        cls = h.mod("src.dynamics.double_well").DoubleWell
    else:
        cls = h.mod("src.dynamics.ornstein_uhlenbeck").OrnsteinUhlenbeck
    th = h.pos("theta")
    s = h.real("s0", hint=(-1, 3))
    box = {}

    def new():
        box["p"] = cls(s, th)
    ok = attempt(h, new, ValueError)
    h.true("construction accepts exactly the positive noise", s > 0 if ok else s <= 0)
    if not ok:
        return
    p, cur = box["p"], s
    for k in range(steps):
        v = h.real(f"v{k}", hint=(-1, 3))
        ok = attempt(h, lambda: setattr(p, "sigma", v), ValueError)
        h.true(f"update {k} accepts exactly the positive noise", v > 0 if ok else v <= 0)
        if ok:
            cur = v
        h.eq(f"sigma {k}", p.sigma, cur)
        h.eq(f"inverse {k}", p.inverse_sigma * cur, h.const(1))
    h.eq("theta", p.theta, th)
    w = h.real("w", hint=(-1, 3))
    ok = attempt(h, lambda: setattr(p, "theta", w), ValueError)
    if model == "ou":
        h.true("theta accepts exactly the positive ones", w > 0 if ok else w <= 0)
    else:
        h.true("theta accepted", ok)
    h.eq("theta after", p.theta, w if ok else th)
    h.eq("sigma after", p.sigma, cur)


def ou_theta(h):
    cls = h.mod("src.dynamics.ornstein_uhlenbeck").OrnsteinUhlenbeck
    t = h.real("t", hint=(-1, 2))
    ok = attempt(h, lambda: cls(h.pos("s"), t), ValueError)
    h.true("construction accepts exactly the positive drift", t > 0 if ok else t <= 0)


def build(h, model, sg):
    if model == "l63":
        return h.mod("src.dynamics.lorenz_63").Lorenz63(sg, h.vec("theta", 3))
    return h.mod("src.dynamics.lorenz_96").Lorenz96(sg, h.real("theta"), None, 10)


def coherent(h, label, p, M):
    d = M.shape[0]
    h.eq(f"{label}: sigma", p.sigma, M)
    h.eq(f"{label}: inverse", p.inverse_sigma.dot(M), h.np.eye(d))


def forms(h, model, form):
    """Scalar and vector noise stand for diagonal matrices; the inverse follows updates."""
    d = 3 if model == "l63" else 10
    off = None if d == 3 else ((3, 2), (9, 8))
    if form == "scalar":
        s = h.pos("s")
        p, M = build(h, model, s), h.np.eye(d) * s
    elif form == "vector":
        v = h.vec("s", d, pos=True)
        p, M = build(h, model, v), h.np.diag(v)
    else:
        M = h.spd("S", d, off=off)
        p = build(h, model, M)
    coherent(h, "new", p, M)
    N = h.spd("N", d, off=off) if d == 3 else h.np.diag(h.vec("N", d, pos=True))
    p.sigma = N
    coherent(h, "updated", p, N)
    # rejected updates change nothing
    h.raises("negative", RuntimeError, lambda: setattr(p, "sigma", h.np.eye(d) * -h.pos("neg")))
    h.raises("zero", RuntimeError, lambda: setattr(p, "sigma", h.zeros(d, d)))
    h.raises("shape", ValueError, lambda: setattr(p, "sigma", h.np.eye(d - 1)))
    h.raises("shape+", ValueError, lambda: setattr(p, "sigma", h.np.eye(d + 1)))
    coherent(h, "after rejections", p, N)


def diagonal(h, model, how):
    """A diagonal matrix is accepted exactly when all its entries are positive."""
    d = 3 if model == "l63" else 10
    v = [h.real(f"v{i}", hint=(Fraction(-1, 2), 3)) if i in (0, d // 2, d - 1) else h.const(i + 1)
         for i in range(d)]
    M = h.np.diag(h.arr(v))
    if how == "new":
        ok = attempt(h, lambda: build(h, model, M if model == "l63" else h.arr(v)), RuntimeError)
    else:
        p = build(h, model, h.const(2))
        ok = attempt(h, lambda: setattr(p, "sigma", M), RuntimeError)
        coherent(h, "then", p, M if ok else h.np.eye(d) * h.const(2))
    pos = h.conj(*[x > 0 for x in v])
    h.true("accepted exactly when positive", pos if ok else h.neg(pos))


def indefinite(h, how):
    """Symmetric 2 x 2 block with negative determinant: rejected although the diagonal is fine."""
    a, b, c, e = h.pos("a"), h.real("b", hint=(2, 4)), h.pos("c"), h.pos("e")
    h.assume(b * b >= a * c * h.const("1.001"))
    z = h.const(0)
    M = h.arr([[a, b, z], [b, c, z], [z, z, e]])
    if how == "new":
        h.raises("new", RuntimeError, lambda: build(h, "l63", M))
    else:
        p = build(h, "l63", h.const(2))
        h.raises("update", RuntimeError, lambda: setattr(p, "sigma", M))
        coherent(h, "then", p, h.np.eye(3) * h.const(2))


def shapes(h, model):
    d = 3 if model == "l63" else 10
    k = int(h.int("k", 1, d + 1))
    h.assume(k != d)
    h.raises("vector", ValueError, lambda: build(h, model, h.arr([h.const(1)] * k)))
    h.raises("matrix", ValueError, lambda: build(h, model, h.np.eye(k)))
    h.raises("tensor", ValueError, lambda: build(h, model, h.zeros(d, d, d)))


from fractions import Fraction  # noqa: E402


def given(h, I, model, how):
    """Noise and drift in other number types and layouts."""
    d = 3 if model == "l63" else 10
    if how == "scalar":
        sg = I.num("s", True)
    elif how == "vector":
        sg = I.arr("s", (d,), pos=True)
    else:
        sg = I.spd("S", d)
    if model == "l63":
        p = h.mod("src.dynamics.lorenz_63").Lorenz63(sg, I.arr("theta", (3,)))
    else:
        p = h.mod("src.dynamics.lorenz_96").Lorenz96(sg, I.num("theta"), None, d)
    out = [h.snapshot(p.sigma), h.snapshot(p.inverse_sigma), p.theta]
    p.sigma = I.spd("N", d) if d == 3 else h.np.diag(I.arr("N", (d,), pos=True))
    p.theta = I.arr("t2", (3,)) if d == 3 else I.num("t2")
    return out + [p.sigma, p.inverse_sigma, p.theta]


def harnesses(thorough):
    n = 3 if thorough else 2
    out = [("dw", scalar, dict(model="dw", steps=n)), ("ou", scalar, dict(model="ou", steps=n)),
           ("ou-theta", ou_theta, {}), ("indefinite-new", indefinite, dict(how="new")),
           ("indefinite-set", indefinite, dict(how="set"))]
    for m in ("l63", "l96"):
        for f in ("scalar", "vector", "matrix"):
            out.append((f"{m}-{f}", forms, dict(model=m, form=f)))
        out += [(f"{m}-diag-new", diagonal, dict(model=m, how="new")),
                (f"{m}-diag-set", diagonal, dict(model=m, how="set")),
                (f"{m}-shapes", shapes, dict(model=m))]
    for f in ("scalar", "vector", "matrix"):
        out += typed(f"forms-l63-{f}", given, 6, model="l63", how=f)
    for f in ("scalar", "vector"):
        out += typed(f"forms-l96-{f}", given, 12, kinds=("ints", "steps"), model="l96", how=f)
    return out
