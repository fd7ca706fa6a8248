"""C28: initial variational parameters."""
from .forms import forms
from .common import thin
from .vgp import Parts

BOUNDS = {"larger sizes": "12 and 14 (60) time points, 5 and 6 (15) observations, "
                          "dimension 1, 2 and 4",
          "time_points": "5 and 6, one to three observations at any interior indices listed",
          "dimension": "1 (scalar form), 2 and 3", "window": "every start and step",
          "noise": "every positive noise (matrix form: every symmetric matrix)"}
ASSUMPTIONS = ["scipy's CubicSpline is replaced by its contract: a function through the given "
               "points that is linear in their values"]


def init(h, one, n, d, obs):
    P = Parts(h, one, n, d)
    M = len(obs)
    y = h.vec("y", M) if one else h.mat("y", M, d)
    vg = P.build(obs, y)
    y0 = h.snapshot(y)
    x = vg.initialization()
    tw = P.model.time_window
    knots = h.stack([tw[0]] + [tw[k] for k in obs] + [tw[n - 1]])
    half, z = h.const("1/2"), h.const(0)
    if one:
        vals = h.stack([y[0]] + [y[k] for k in range(M)] + [y[M - 1]])
        m = h.spline(knots, vals)(tw)
        h.eq("linear", x[:n], h.stack([2 * P.sigma] * n))
        h.eq("offset", x[n:], m)
    else:
        cols = [h.spline(knots, h.stack([y[0, i]] + [y[k, i] for k in range(M)] + [y[M - 1, i]]))(tw)
                for i in range(d)]
        A, b = [], []
        for k in range(n):
            for i in range(d):
                A += [2 * P.sigma[i, i] if i == j else z for j in range(d)]
                s = (cols[i][k + 1] - cols[i][k]) / P.dt if k < n - 1 else z
                b.append(s + 2 * P.sigma[i, i] * cols[i][k])
        h.eq("linear", x[:n * d * d], h.arr(A))
        h.eq("offset", x[n * d * d:], h.arr(b))
    h.same("size", int(x.size), n * d * (d + 1))
    h.eq("observations unchanged", y, y0)
    h.eq("repeatable", vg.initialization(), x)


def given(h, I, one):
    if "parts" not in I.vals:
        I.vals["parts"] = Parts(h, one, 6, 1 if one else 2)
    P = I.vals["parts"]
    vg = P.build([1, 3], I.arr("y", (2,) if one else (2, 2)))
    return vg.initialization()


def harnesses(thorough):
    out = []
    for n, obs in ((5, [2]), (5, [1, 3]), (6, [2, 3, 4]), (6, [1, 3])) + (((8, [1, 2, 5, 6]),) if thorough else ()):
        t = f"{n}-" + "".join(map(str, obs))
        out.append((f"scalar-{t}", init, dict(one=True, n=n, d=1, obs=obs)))
        out.append((f"d2-{t}", init, dict(one=False, n=n, d=2, obs=obs)))
    out.append(("d3", init, dict(one=False, n=4, d=3, obs=[2])))
    out += [("scalar-long", init, dict(one=True, n=14, d=1, obs=[2, 3, 6, 8, 11])),
            ("d4-long", thin(init, 6), dict(one=False, n=12, d=4, obs=[1, 4, 5, 7, 9]))]
    out += [("scalar-longer", thin(init, 6), dict(one=True, n=60, d=1, obs=list(range(2, 58, 4)))),
            ("d2-longer", thin(init, 12), dict(one=False, n=60, d=2, obs=list(range(1, 58, 4))))]
    out += forms("forms-1", given, one=True) + forms("forms-2", given, one=False)
    return out
