"""Reference formulas shared by the harnesses (written from the documentation, not the code)."""

def thin(fn, k=5):
    """The harness at a larger size: one in k inputs is symbolic, the others are fixed."""
    def run(h, **cfg):
        h.thin = k
        return fn(h, **cfg)
    return run


def flatten(r):
    if isinstance(r, (tuple, list)):
        return [x for v in r for x in flatten(v)]
    return [r]


METHODS = ("euler", "heun", "rk2", "rk4")


def f_m(m, A, b, one):
    return b - A * m if one else b - A.dot(m)


def f_s(s, A, sig, one):
    return sig - A * s * 2 if one else sig - A.dot(s) - s.dot(A.T)


def step_fwd(h, method, f, x, p0, p1, dt):
    """One documented step of dx/dt = f(x, p(t)); p0, p1: parameters at both ends."""
    half = h.const("1/2")
    if method == "euler":
        return x + f(x, p0) * dt
    if method == "heun":
        k1 = f(x, p0)
        return x + (k1 + f(x + k1 * dt, p1)) * (dt * half)
    mid = tuple((a + b) * half for a, b in zip(p0, p1))
    if method == "rk2":
        k1 = f(x, p0)
        return x + f(x + k1 * (dt * half), mid) * dt
    k1 = f(x, p0)
    k2 = f(x + k1 * (dt * half), mid)
    k3 = f(x + k2 * (dt * half), mid)
    k4 = f(x + k3 * dt, p1)
    return x + (k1 + k2 * 2 + k3 * 2 + k4) * (dt / 6)


def step_bwd(h, method, f, x, p1, p0, dt):
    """One documented step backwards in time; p1: parameters at t, p0: at t - 1."""
    return step_fwd(h, method, f, x, p1, p0, -dt)


def fwd_inputs(h, one, n, d, sym_sigma=True):
    if one:
        return (h.vec("A", n), h.vec("b", n), h.real("m0"), h.pos("s0"), h.pos("sig"))
    return (h.ten("A", (n, d, d)), h.mat("b", n, d), h.vec("m0", d),
            h.symmetric("S0", d), h.symmetric("sig", d))


# -- polynomials in Gaussian variables -----------------------------------------------------
class GP(dict):
    """Polynomial in x_0..x_{d-1}: {exponent tuple: coefficient}."""


def gp_const(d, c):
    return GP({(0,) * d: c})


def gp_x(d, i, c=1):
    return GP({tuple(int(j == i) for j in range(d)): c})


def gp_add(*ps):
    out = GP()
    for p in ps:
        for k, c in p.items():
            out[k] = out[k] + c if k in out else c
    return out


def gp_mul(a, b):
    out = GP()
    for k, c in a.items():
        for l, e in b.items():
            m = tuple(x + y for x, y in zip(k, l))
            v = c * e
            out[m] = out[m] + v if m in out else v
    return out


def gp_scale(a, c):
    return GP({k: v * c for k, v in a.items()})


def gp_diff(a, i):
    out = GP()
    for k, c in a.items():
        if k[i]:
            m = k[:i] + (k[i] - 1,) + k[i + 1:]
            v = c * k[i]
            out[m] = out[m] + v if m in out else v
    return out


class Gauss:
    """Expectations of polynomials under N(m, S), by Stein's recursion
    E[x_i g] = m_i E[g] + sum_j S_ij E[d_j g]."""

    def __init__(self, m, S):
        self.m, self.S, self.d, self.memo = m, S, len(m), {}

    def mono(self, k):
        if sum(k) == 0:
            return 1
        if k not in self.memo:
            i = next(j for j in range(self.d) if k[j])
            r = k[:i] + (k[i] - 1,) + k[i + 1:]
            v = self.m[i] * self.mono(r)
            for j in range(self.d):
                if r[j]:
                    v = v + self.S[i][j] * (self.mono(r[:j] + (r[j] - 1,) + r[j + 1:]) * r[j])
            self.memo[k] = v
        return self.memo[k]

    def E(self, p):
        out = 0
        for k, c in p.items():
            out = out + c * self.mono(k)
        return out


def gp_eval(p, x):
    out = 0
    for k, c in p.items():
        t = c
        for xi, e in zip(x, k):
            for _ in range(e):
                t = t * xi
        out = out + t
    return out


def trapz(vals, dt):
    """Composite trapezoid of a list of scalars."""
    out = 0
    for a, b in zip(vals, vals[1:]):
        out = out + (a + b) * (dt / 2)
    return out


# -- drifts (from the documentation of the models) ------------------------------------------
def drift_dw(theta):
    """4 x (theta - x^2)"""
    return [GP({(1,): theta * 4, (3,): -4})], [[GP({(1,): 4})]]


def drift_ou(theta, mu):
    """theta (mu - x)"""
    return [GP({(0,): theta * mu, (1,): -theta})], None


def drift_l63(sig, rho, beta):
    """sigma (y - x);  x (rho - z) - y;  x y - beta z"""
    f = [GP({(0, 1, 0): sig, (1, 0, 0): -sig}),
         GP({(1, 0, 0): rho, (1, 0, 1): -1, (0, 1, 0): -1}),
         GP({(1, 1, 0): 1, (0, 0, 1): -beta})]
    z = GP()
    df = [[GP({(0, 1, 0): 1, (1, 0, 0): -1}), z, z],
          [z, GP({(1, 0, 0): 1}), z],
          [z, z, GP({(0, 0, 1): -1})]]      # df[i][k]: d f_i / d theta_k
    return f, df


def drift_l96(d, theta):
    """(x_{i+1} - x_{i-2}) x_{i-1} - x_i + theta"""
    f = []
    for i in range(d):
        x = lambda j: gp_x(d, j % d)
        f.append(gp_add(gp_mul(x(i + 1), x(i - 1)), gp_scale(gp_mul(x(i - 2), x(i - 1)), -1),
                        gp_x(d, i, -1), gp_const(d, theta)))
    return f


def residual(f, A, b):
    """f(x) + A x - b as polynomials (A: rows, b: vector)."""
    d = len(f)
    return [gp_add(f[i], *[gp_x(d, j, A[i][j]) for j in range(d)], gp_const(d, -b[i]))
            for i in range(d)]


def quad(g, P):
    """g' P g / 2, without the factor one half applied to it twice."""
    d = len(g)
    out = GP()
    for i in range(d):
        for j in range(d):
            p = P[i][j]
            out = gp_add(out, gp_scale(gp_mul(g[i], g[j]), p))
    return out
