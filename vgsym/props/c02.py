"""C02: the forward sweep is the documented integration scheme."""
from .forms import forms
from .common import thin, METHODS, f_m, f_s, step_fwd, fwd_inputs

BOUNDS = {"time_points": "2..4 (every step is also checked from an arbitrary pre-state)",
          "dimension": "1 (scalar form), 1..2 (matrix form); 3 in the thorough tier",
          "larger sizes": "12 and 130 points (scalar), 8 to 40 points of dimension 2, 4 points of dimension 3, 2 points of dimension 4: "
                          "one in 5 (8, 16, 24) inputs symbolic, the others fixed",
          "methods": list(METHODS)}


def fwd(h, method, one, n, d, name, form=True):
    F = h.mod("src.var_bayes.fwd_ode").FwdOde
    A, b, m0, s0, sig = fwd_inputs(h, one, n, d)
    dt = h.dt()
    mt, st = F(dt, name, *([one] if form else []))(A, b, m0, s0, sig)
    h.eq("m[0]", mt[0], m0)
    h.eq("S[0]", st[0], s0)
    h.same("len m", tuple(mt.shape), (n,) if one else (n, d))
    h.same("len S", tuple(st.shape), (n,) if one else (n, d, d))
    for k in range(n - 1):
        h.opaque(mt[k])
        h.opaque(st[k])
        h.eq(f"m[{k + 1}]", mt[k + 1], step_fwd(
            h, method, lambda x, p: f_m(x, p[0], p[1], one), mt[k],
            (A[k], b[k]), (A[k + 1], b[k + 1]), dt))
        h.eq(f"S[{k + 1}]", st[k + 1], step_fwd(
            h, method, lambda x, p: f_s(x, p[0], sig, one), st[k],
            (A[k],), (A[k + 1],), dt))


def symmetric(h, method, d):
    """A symmetric covariance stays symmetric (one step from an arbitrary symmetric state)."""
    F = h.mod("src.var_bayes.fwd_ode").FwdOde
    A, b, m0, s0, sig = fwd_inputs(h, False, 2, d)
    dt = h.dt()
    _, st = F(dt, method, False)(A, b, m0, s0, sig)
    h.eq("S' = S", st[1], st[1].T)


def rejects(h):
    mod = h.mod("src.var_bayes.fwd_ode")
    dt = h.real("dt", hi=0, hint=(-2, 0))
    one = h.choice("one", [True, False])
    for m in METHODS:
        h.raises(f"dt<=0 {m}", ValueError, lambda: mod.FwdOde(dt, m, one))
    good = h.dt("good")
    for m in ("", "rk3", "eulerr", "rk", "adams", "1"):
        h.raises(f"method {m}", ValueError, lambda: mod.FwdOde(good, m, one))


BLOCKS = {"euler": 40, "heun": 20, "rk2": 20, "rk4": 8}
SPELL = {"euler": ["euler", "Euler"], "heun": ["heun", "HEUN"], "rk2": ["rk2", "RK2"],
         "rk4": ["rk4", "Rk4"]}


def sweep(h, I, method, one, n=3):
    F = h.mod("src.var_bayes.fwd_ode").FwdOde
    f = I.make("f", lambda: F(I.real("dt", "1/16", "1/4"), method, one))
    if one:
        return f(I.flo("A", (4,)), I.flo("b", (4,)), I.num("m0"), I.num("s0", True),
                 I.num("sig", True))
    return f(I.flo("A", (n, 2, 2)), I.flo("b", (n, 2)), I.arr("m0", (2,)), I.spd("S0", 2),
             I.spd("sig", 2))


def harnesses(thorough):
    out = []
    for m in METHODS:
        out.append((f"fwd-{m}-scalar", fwd, dict(method=m, one=True, n=4, d=1, name=SPELL[m][0])))
        out.append((f"fwd-{m}-nd1", fwd, dict(method=m, one=False, n=3, d=1, name=SPELL[m][1])))
        out.append((f"fwd-{m}-nd2", fwd, dict(method=m, one=False, n=3, d=2, name=SPELL[m][1])))
        out.append((f"fwd-{m}-long", thin(fwd), dict(method=m, one=True, n=12, d=1, name=m)))
        out.append((f"fwd-{m}-n130", thin(fwd, 16), dict(method=m, one=True, n=130, d=1, name=m)))
        out.append((f"fwd-{m}-blocks", thin(fwd, 24), dict(method=m, one=False, n=BLOCKS[m], d=2, name=m)))
        out.append((f"fwd-{m}-wide", thin(fwd), dict(method=m, one=False, n=4, d=3, name=m)))
        out.append((f"fwd-{m}-d4", thin(fwd, 8), dict(method=m, one=False, n=2, d=4, name=m)))
        out.append((f"sym-{m}-d2", symmetric, dict(method=m, d=2)))
        if m in ("euler", "rk4"):     # the form left out: one-dimensional
            out.append((f"fwd-{m}-default", fwd, dict(method=m, one=True, n=3, d=1, name=m,
                                                      form=False)))
        if thorough:
            out.append((f"fwd-{m}-nd3", fwd, dict(method=m, one=False, n=3, d=3, name=m)))
            out.append((f"sym-{m}-d3", symmetric, dict(method=m, d=3)))
    out.append(("rejects", rejects, {}))
    for m in METHODS:
        out += forms(f"forms-{m}-1", sweep, kinds=("ints", "steps", "reused", "kept"), method=m, one=True)
        out += forms(f"forms-{m}-d2", sweep, method=m, one=False,
                     n=2 if m == "rk4" else 3)
    return out
