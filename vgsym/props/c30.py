"""C30: the gradient test passes exactly the gradients that agree with the function."""
BOUNDS = {"functions": "every quadratic function of 1 or 2 variables (central differences are exact "
                       "for these)", "gradients": "the exact one plus every constant error",
          "tolerance": "every tol in [1e-4, 1]"}


def verdict(h, d, default):
    C = h.mod("src.numerics.optim_scg").SCG
    H, g, x = h.symmetric("H", d), h.vec("g", d), h.vec("x", d)
    half = h.const("1/2")
    # first component of the error, up to scale; the others follow fixed directions
    e = h.vec("e", d, hint=("-1/2", "1/2"))
    tol = h.const("1e-4") if default else h.real("tol", lo="1e-4", hi=1)
    calls = []

    def f(z, *a):
        return z.dot(H).dot(z) * half + g.dot(z)

    def df(z, *a, eval_fun=False):
        calls.append(eval_fun)
        return H.dot(z) + g + e
    n2 = e.dot(e)
    lim = tol * d
    # away from the limit (rounding of the differences)
    h.assume(h.neg(h.conj(n2 >= lim * lim * h.const("0.99"), n2 <= lim * lim * h.const("1.01"))))
    before = h.snapshot(x)
    opt = C(f, df, {"max_it": 1, "display": False})
    t = h.capture(lambda: opt.check_gradient_function(*((x,) if default else (x, tol))))
    h.eq("x unchanged", x, before)
    h.same("the gradient is taken with its evaluation", [c for c in calls if not c], [])
    h.true("one verdict", ("PASSED" in t) != ("FAILED" in t))
    if "PASSED" in t:
        h.true("passed only within the tolerance", n2 <= lim * lim)
    else:
        h.true("failed only beyond the tolerance", n2 >= lim * lim)


def harnesses(thorough):
    out = [("verdict-1", verdict, dict(d=1, default=False)),
           ("verdict-2", verdict, dict(d=2, default=False)),
           ("default-1", verdict, dict(d=1, default=True)),
           ("default-2", verdict, dict(d=2, default=True))]
    if thorough:
        out.append(("verdict-3", verdict, dict(d=3, default=False)))
    return out
