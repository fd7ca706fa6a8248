"""C03: the backward sweep is the documented scheme with jumps at the observation times."""
from .forms import KINDS, forms
from .common import METHODS, step_bwd, thin

BOUNDS = {"time_points": "2..4 (every step is also checked from an arbitrary pre-state)",
          "dimension": "1 (scalar form), 1..2 (matrix form); 3 in the thorough tier",
          "larger sizes": "12 and 130 points (scalar), 8 to 40 points of dimension 2, 4 points of dimension 3, 2 points of dimension 4: "
                          "one in 5 (8, 16, 24) inputs symbolic, the others fixed",
          "methods": list(METHODS)}


def bwd_inputs(h, one, n, d):
    if one:
        return [h.vec(k, n) for k in ("A", "Em", "Es", "Om", "Os")]
    # covariance gradients are symmetric matrices
    def sy(k):
        return h.stack([h.symmetric(f"{k}{t}", d) for t in range(n)])
    return [h.ten("A", (n, d, d)), h.mat("Em", n, d), sy("Es"), h.mat("Om", n, d), sy("Os")]


def g_m(x, A, E, one):
    return A * x - E if one else A.T.dot(x) - E


def g_s(x, A, E, one):
    return A * x * 2 - E if one else x.dot(A) + A.T.dot(x) - E


def bwd(h, method, one, n, d, name, form=True):
    B = h.mod("src.var_bayes.bwd_ode").BwdOde
    A, Em, Es, Om, Os = bwd_inputs(h, one, n, d)
    dt = h.dt()
    lam, psi = B(dt, name, one)(A, Em, Es, Om, Os)
    h.same("len lam", tuple(lam.shape), (n,) if one else (n, d))
    h.same("len psi", tuple(psi.shape), (n,) if one else (n, d, d))
    h.eq("lam[N-1] = 0", lam[n - 1], Em[0] * 0)
    h.eq("psi[N-1] = 0", psi[n - 1], Es[0] * 0)
    for t in range(n - 1, 0, -1):
        h.opaque(lam[t])
        h.opaque(psi[t])
        h.eq(f"lam[{t - 1}]", lam[t - 1], Om[t - 1] + step_bwd(
            h, method, lambda x, p: g_m(x, p[0], p[1], one), lam[t],
            (A[t], Em[t]), (A[t - 1], Em[t - 1]), dt))
        h.eq(f"psi[{t - 1}]", psi[t - 1], Os[t - 1] + step_bwd(
            h, method, lambda x, p: g_s(x, p[0], p[1], one), psi[t],
            (A[t], Es[t]), (A[t - 1], Es[t - 1]), dt))


def rejects(h):
    mod = h.mod("src.var_bayes.bwd_ode")
    dt = h.real("dt", hi=0, hint=(-2, 0))
    one = h.choice("one", [True, False])
    for m in METHODS:
        h.raises(f"dt<=0 {m}", ValueError, lambda: mod.BwdOde(dt, m, one))
    good = h.dt("good")
    for m in ("", "rk3", "eulerr", "rk", "adams", "1"):
        h.raises(f"method {m}", ValueError, lambda: mod.BwdOde(good, m, one))


BLOCKS = {"euler": 40, "heun": 20, "rk2": 20, "rk4": 8}
SPELL = {"euler": ["euler", "EULER"], "heun": ["heun", "Heun"], "rk2": ["rk2", "Rk2"],
         "rk4": ["rk4", "RK4"]}


def sweep(h, I, method, one, n=3):
    B = h.mod("src.var_bayes.bwd_ode").BwdOde
    f = I.make("f", lambda: B(I.real("dt", "1/16", "1/4"), method, one))
    if one:
        return f(*[I.flo(k, (4,)) for k in ("A", "em", "es", "om", "os")])
    return f(I.flo("A", (n, 2, 2)), I.flo("em", (n, 2)), I.spd("es", 2, n), I.flo("om", (n, 2)),
             I.spd("os", 2, n))


def harnesses(thorough):
    out = []
    for m in METHODS:
        out.append((f"bwd-{m}-scalar", bwd, dict(method=m, one=True, n=4, d=1, name=SPELL[m][0])))
        out.append((f"bwd-{m}-nd1", bwd, dict(method=m, one=False, n=3, d=1, name=SPELL[m][1])))
        out.append((f"bwd-{m}-nd2", bwd, dict(method=m, one=False, n=3, d=2, name=SPELL[m][1])))
        out.append((f"bwd-{m}-long", thin(bwd), dict(method=m, one=True, n=12, d=1, name=m)))
        out.append((f"bwd-{m}-n130", thin(bwd, 16), dict(method=m, one=True, n=130, d=1, name=m)))
        out.append((f"bwd-{m}-blocks", thin(bwd, 24), dict(method=m, one=False, n=BLOCKS[m], d=2, name=m)))
        out.append((f"bwd-{m}-wide", thin(bwd), dict(method=m, one=False, n=4, d=3, name=m)))
        out.append((f"bwd-{m}-d4", thin(bwd, 8), dict(method=m, one=False, n=2, d=4, name=m)))
        if m in ("euler", "rk4"):     # the form left out: one-dimensional
            out.append((f"bwd-{m}-default", bwd, dict(method=m, one=True, n=3, d=1, name=m,
                                                      form=False)))
        if thorough:
            out.append((f"bwd-{m}-nd2-n4", bwd, dict(method=m, one=False, n=4, d=2, name=m)))
            out.append((f"bwd-{m}-nd3", bwd, dict(method=m, one=False, n=3, d=3, name=m)))
    out.append(("rejects", rejects, {}))
    for m in METHODS:
        out += forms(f"forms-{m}-1", sweep, kinds=("steps", "reused", "kept"), method=m, one=True)
        out += forms(f"forms-{m}-d2", sweep, kinds=KINDS[1:], method=m, one=False,
                     n=2 if m == "rk4" else 3)
    return out
