"""C12: the time integral is the composite trapezoid, however the window is split."""
from .forms import KINDS, forms
from .common import thin, trapz

BOUNDS = {"time_points": "2..6 (8 in the thorough tier); 20 with six lists of observation times; 300 with three lists",
          "observation times": "none, and every increasing list of 1..3 indices from 0 to N-1",
          "values": "scalar, vector and matrix valued functions"}


def shape(h, name, n, kind):
    if kind == 0:
        return h.vec(name, n)
    return h.mat(name, n, 2) if kind == 1 else h.ten(name, (n, 2, 2))


def run(h, n, k, kind, listed, at=None):
    f = h.mod("src.numerics.utilities").my_trapz
    fx, dx = shape(h, "f", n, kind), h.dt("dx")
    t = at
    if at is None:
        t = [h.int(f"t{i}", 0, n - 1) for i in range(k)]
        for i in range(k - 1):
            h.assume(t[i] < t[i + 1])
        t = [int(x) for x in t]
    r = f(fx, dx, t if listed else h.np.array(t, dtype=int))
    h.eq("integral", r, trapz([fx[i] for i in range(n)], dx))
    h.eq("keyword", f(fx, dx=dx, obs_t=t), r)


def plain(h, n, kind):
    f = h.mod("src.numerics.utilities").my_trapz
    fx, dx = shape(h, "f", n, kind), h.dt("dx")
    e = trapz([fx[i] for i in range(n)], dx)
    h.eq("no observations", f(fx, dx), e)
    h.eq("empty list", f(fx, dx, []), e)
    h.eq("unit step", f(fx), trapz([fx[i] for i in range(n)], h.const(1)))


def given(h, I):
    f = h.mod("src.numerics.utilities").my_trapz
    dx = I.real("dx", "1/16", "1/4")
    fs = [I.flo("f", (5,)), I.flo("g", (5, 2)), I.flo("k", (5, 2, 2))]
    return [f(x, dx, t) for x in fs for t in (None, [1, 3])]


def harnesses(thorough):
    out = [(f"plain-{n}-{k}", plain, dict(n=n, kind=k)) for n in (2, 5) for k in (0, 1, 2)]
    for n, k in ((2, 1), (4, 1), (6, 2), (6, 3)) + (((8, 3), (8, 4)) if thorough else ()):
        for kind in ((0, 1, 2) if n < 6 else (0,)):
            out.append((f"obs-{n}-{k}-{kind}", run, dict(n=n, k=k, kind=kind,
                                                         listed=(n + kind) % 2 == 0)))
    for k, t in enumerate(([1, 2, 3, 8, 12], [0, 5, 6, 13, 19], [2, 3, 5, 7, 11, 13, 17, 19],
                           [0], [19], list(range(20)))):
        out.append((f"long-{k}", run, dict(n=20, k=len(t), kind=k % 3, listed=k % 2 == 0, at=t)))
    for k, t in enumerate((None, list(range(3, 300, 7)), [150])):
        out.append((f"longer-{k}", thin(run, 8), dict(n=300, k=len(t or []), kind=k % 2, listed=True,
                                                       at=t or [])))
    out += forms("forms", given, kinds=KINDS[1:])
    return out
