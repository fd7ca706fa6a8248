"""C26: bounded logarithm and central differences."""
from .forms import forms
BOUNDS = {"safe_log": "every real input; scalars, vectors of 1..3 and 2 x 2 arrays",
          "finite_diff": "every quadratic function of 1..3 variables (central differences are "
                         "exact for these), every cubic one of a single variable; up to 5 further arguments"}


def log1(h, kind):
    f = h.mod("src.numerics.utilities").safe_log
    lo, hi = h.const("1e-300"), h.const("1e300")
    if kind == "inside":
        x = h.real("x", lo="1e-300", hi="1e300", hint=("1e-3", 100))
        h.eq("log", f(x), h.log(x))
    elif kind == "low":
        x = h.real("x", hint=(-5, 0))
        h.assume(x < lo)
        h.eq("at the lower bound", f(lo), h.log(lo))
        h.eq("lower bound", f(x), h.log(lo))
    else:
        x = h.real("x", hint=("1e301", "1e302"))
        h.assume(x > hi)
        h.eq("at the upper bound", f(hi), h.log(hi))
        h.eq("upper bound", f(x), h.log(hi))


def array(h, shape):
    f = h.mod("src.numerics.utilities").safe_log
    x = h.ten("x", shape, hint=(-2, 4))
    r = f(x)
    h.same("shape", tuple(r.shape), tuple(shape))
    for i in h.np.ndindex(*shape):
        lo, hi = h.const("1e-300"), h.const("1e300")
        v = h.where(x[i] < lo, lo, h.where(x[i] > hi, hi, x[i]))
        h.eq(f"log {i}", r[i], h.log(v))


def quadratic(h, d, args):
    f = h.mod("src.numerics.utilities").finite_diff
    x, Q, a, c = h.vec("x", d), h.mat("Q", d, d), h.vec("a", d), h.real("c")
    k = h.real("k")
    before = h.snapshot(x)
    if args:
        g = f(lambda z, u, w: z.dot(Q).dot(z) * u + a.dot(z) + w, x, k, c)
    else:
        g = f(lambda z: z.dot(Q).dot(z) * k + a.dot(z) + c, x)
    e = (Q.dot(x) + Q.T.dot(x)) * k + a
    if d == 1:
        h.eq("derivative", g, e[0], tol=1e-5)
    else:
        h.eq("gradient", g, e, tol=1e-5)
    h.eq("x unchanged", x, before)


def arguments(h, d, k):
    """k further arguments reach the function, in order."""
    f = h.mod("src.numerics.utilities").finite_diff
    x = h.vec("x", d)
    w = [h.real(f"w{i}") for i in range(k)]

    def fun(z, *args):
        h.same("number of arguments", len(args), k)
        v = 0
        for i, u in enumerate(args):
            v = v + (i + 1) * u * z[i % d] * z[i % d]
        return v
    g = f(fun, x, *w)
    e = [sum(((i + 1) * w[i] * 2 * x[j] for i in range(k) if i % d == j), h.const(0))
         for j in range(d)]
    if d == 1:
        h.eq("derivative", g, e[0], tol=1e-5)
    else:
        h.eq("gradient", g, h.arr(e), tol=1e-5)


def scalar(h):
    f = h.mod("src.numerics.utilities").finite_diff
    x, a, b, c = h.real("x"), h.real("a"), h.real("b"), h.real("c")
    g = f(lambda z: (a * z * z + b * z + c)[0] if getattr(z, "ndim", 0) else a * z * z + b * z + c, x)
    h.eq("derivative", g, 2 * a * x + b, tol=1e-5)


def cubic(h):
    """The error of the central difference of x^3 is the square of the step 1e-6."""
    f = h.mod("src.numerics.utilities").finite_diff
    x, a = h.real("x"), h.real("a")
    g = f(lambda z: a * z[0] * z[0] * z[0], h.arr([x]))
    h.le("error", abs(g - 3 * a * x * x), abs(a) * h.const("1e-11"), slack=1e-6)


def given(h, I):
    u = h.mod("src.numerics.utilities")
    return (u.safe_log(I.arr("z", (3,), pos=True)), u.safe_log(I.arr("w", (2, 2), pos=True)),
            u.finite_diff(lambda v: v.dot(v), I.flo("x", (3,))),
            u.finite_diff(lambda v: v.dot(v), I.flo("k", (1,))),
            u.safe_log(I.num("s", True)))


def harnesses(thorough):
    return [("log-inside", log1, dict(kind="inside")), ("log-low", log1, dict(kind="low")),
            ("log-high", log1, dict(kind="high")), ("log-vector", array, dict(shape=(3,))),
            ("log-matrix", array, dict(shape=(2, 2))), ("quadratic-1", quadratic, dict(d=1, args=False)),
            ("quadratic-2", quadratic, dict(d=2, args=True)),
            ("quadratic-3", quadratic, dict(d=3, args=False)), ("scalar", scalar, {}),
            ("cubic", cubic, {}), ("arguments-1-2", arguments, dict(d=1, k=2)),
            ("arguments-1-3", arguments, dict(d=1, k=3)),
            ("arguments-2-4", arguments, dict(d=2, k=4)),
            ("arguments-3-5", arguments, dict(d=3, k=5))] + \
        forms("forms", given)
