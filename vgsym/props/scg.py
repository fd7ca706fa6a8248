"""An unknown objective function for the optimiser."""


class Enough(Exception):
    pass


class Objective:
    """f and df return unknown values; the same point always gets the same ones."""

    def __init__(self, h, dim):
        self.h, self.dim = h, dim
        self.points, self.vals, self.grads = [], [], []
        self.value = lambda k: h.real(f"f{k}")
        self.probes = None
        self.args = []                  # extra arguments of every call
        self.trace = []                 # ("f" | "df" | "dfe", point index)

    def index(self, x):
        h = self.h
        for k, p in enumerate(self.points):
            if h.identical(p, x):
                return k
        k = len(self.points)
        self.points.append(h.snapshot(x))
        self.vals.append(self.value(k))
        if k >= len(self.grads):
            self.grads.append(h.vec(f"g{k}", self.dim))
        return k

    def f(self, x, *args):
        k = self.index(x)
        self.args.append(args)
        self.trace.append(("f", k))
        return self.vals[k]

    def df(self, x, *args, eval_fun=False):
        k = self.index(x)
        self.args.append(args)
        self.trace.append(("dfe" if eval_fun else "df", k))
        if self.probes == len([o for o, _ in self.trace if o == "dfe"]):
            raise Enough()
        return self.h.snapshot(self.grads[k])


GRADS = ("1 0 1/2 -1", "1/2 1 -1 1", "-1 1/4 1 1/2", "1/4 -1 1/2 1", "1 1/2 1/4 -1/2",
         "1 -1/2 -1 1/4", "1/2 1 1 1", "-1 1/2 1/4 1", "1 1 1/4 -1")


def gradient(h, k, dim):
    return h.arr([h.const(v) for v in GRADS[k % len(GRADS)].split()[:dim]])


def follow(h, ob, gs, trials):
    """Trials are accepted (A) or rejected (R) as listed; gs: gradients at accepted points."""
    at, vals = 0, [0]
    ob.grads.append(gs[0])
    for k, t in enumerate(trials):
        if k == 0 or trials[k - 1] == "A":
            ob.grads.append(gs[at])
            vals.append(0)
        at += t == "A"
        ob.grads.append(gs[at])
        vals.append(-at if t == "A" else 1)
    ob.value = lambda k: h.const(vals[k] if k < len(vals) else -100)


def start(h, dim, nit, opts=None):
    C = h.mod("src.numerics.optim_scg").SCG
    ob = Objective(h, dim)
    x0 = h.vec("x", dim)
    o = {"max_it": nit, "x_tol": h.const("1e-6"), "f_tol": h.const("1e-8"), "display": False}
    o.update(opts or {})
    return C(ob.f, ob.df, o), ob, x0
