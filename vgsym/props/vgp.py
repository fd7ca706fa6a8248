"""Stand-ins for the collaborators of VarGP (it receives all of them as arguments)."""


class Parts:
    """Model, sweeps, likelihood and prior returning arbitrary (unknown) values.

    Every distinct evaluation point gets its own unknowns, so a value that depends on the
    history of calls, on a stale result, or on the wrong arguments shows."""

    def __init__(self, h, one, n, d, times=None):
        self.h, self.one, self.n, self.d = h, one, n, d
        self.calls = []
        self.k = 0
        z = () if one else (d,)
        zz = () if one else (d, d)
        self.shape_a, self.shape_b = (n,) + zz, (n,) + z
        base = h.mod("src.dynamics.stochastic_process").StochasticProcess
        parts = self

        class Model(base):
            def __init__(self):
                super().__init__(None, single_dim=one)
                self.theta = h.pos("theta")

            def energy(self, a, b, m, s, obs_t):
                return parts.energy(a, b, m, s, obs_t)
        self.m0 = h.real("m0") if one else h.vec("m0", d)
        self.s0 = h.pos("s0") if one else h.spd("s0", d)
        if one:
            self.sigma = h.pos("sigma")
            self.inv = 1 / self.sigma
        else:
            self.inv = h.symmetric("P", d)
            self.sigma = h.symmetric("sigma", d)
        self.model = m = Model()
        m.sigma = self.sigma
        m.inverse_sigma = self.inv
        self.dt = h.dt()
        t0 = h.real("t0")
        m.time_window = h.stack([t0 + self.dt * k for k in range(n)]) if times is None else times
        m.sample_path = h.zeros(*self.shape_b)

    def shaped(self, tag, shape):
        h = self.h
        if shape == ():
            return h.real(tag)
        return h.ten(tag, shape)

    def fresh(self):
        """Unknown results of one evaluation."""
        k, h = self.k, self.h
        self.k += 1
        v = {}
        for name, shape in (("m", self.shape_b), ("s", self.shape_a), ("lam", self.shape_b),
                            ("psi", self.shape_a), ("Ef", self.shape_b), ("Edf", self.shape_a),
                            ("em", self.shape_b), ("es", self.shape_a), ("om", self.shape_b),
                            ("os", self.shape_a), ("E0", ()), ("Esde", ()), ("Eobs", ())):
            v[name] = self.shaped(f"{name}{k}", shape)
        return v

    # -- the collaborators ------------------------------------------------------------------
    def fwd(self, a, b, m0, s0, sigma):
        self.v = self.fresh()
        self.calls.append(("fwd", self.h.snapshot(a), self.h.snapshot(b), m0, s0, sigma))
        return self.v["m"], self.v["s"]

    def bwd(self, a, em, es, om, os_):
        self.calls.append(("bwd", self.h.snapshot(a), em, es, om, os_))
        return self.v["lam"], self.v["psi"]

    def energy(self, a, b, m, s, obs_t):
        self.calls.append(("energy", self.h.snapshot(a), self.h.snapshot(b), m, s, obs_t))
        v = self.v
        z = self.h.const(0)
        return v["Esde"], (v["Ef"], v["Edf"]), (v["em"], v["es"], z, z)

    def kl0(self, m0, s0):
        self.calls.append(("kl0", m0, s0))
        return self.v["E0"]

    def likelihood(self):
        parts = self

        class Like:
            def __call__(self, m, s):
                parts.calls.append(("like", m, s))
                return parts.v["Eobs"]

            def gradients(self, m, s):
                parts.calls.append(("dlike", m, s))
                z = parts.h.const(0)
                return parts.v["om"], parts.v["os"], z
        return Like()

    def build(self, obs_t=(1,), obs_y=None):
        h = self.h
        V = h.mod("src.var_bayes.variational").VarGP
        if obs_y is None:
            obs_y = h.zeros(*((len(obs_t),) + self.shape_b[1:]))
        self.obs_t = list(obs_t)
        return V(self.model, self.m0, self.s0, self.fwd, self.bwd, self.likelihood(), self.kl0,
                 obs_y, self.obs_t)

    def point(self, tag):
        """Parameters (A, b) and the flat vector that stores them."""
        h = self.h
        A, b = h.ten("A" + tag, self.shape_a), h.ten("b" + tag, self.shape_b)
        return A, b, h.np.concatenate((A.ravel(), b.ravel()))

    def gradient(self, A, b, v):
        """The documented gradient of the Lagrangian, Eqs (12), (13), (28), (29)."""
        h, n, d = self.h, self.n, self.d
        gA, gb = [], []
        for k in range(n):
            if self.one:
                eb = self.inv * (b[k] - v["Ef"][k] - A[k] * v["m"][k])
                ea = self.inv * (v["Edf"][k] + A[k]) * v["s"][k] - eb * v["m"][k]
                gA.append(self.dt * (ea - v["lam"][k] * v["m"][k] - 2 * v["psi"][k] * v["s"][k]))
                gb.append(self.dt * (eb + v["lam"][k]))
                continue
            m, s, lam, psi = v["m"][k], v["s"][k], v["lam"][k], v["psi"][k]
            eb = self.inv.dot(b[k] - v["Ef"][k] - A[k].dot(m))
            ea = self.inv.dot(v["Edf"][k] + A[k]).dot(s)
            for i in range(d):
                for j in range(d):
                    q = sum((psi[i, l] * s[l, j] for l in range(1, d)), psi[i, 0] * s[0, j])
                    gA.append(self.dt * (ea[i, j] - eb[i] * m[j] - lam[i] * m[j] - 2 * q))
            gb += [self.dt * (eb[i] + lam[i]) for i in range(d)]
        return h.arr(gA + gb)
