"""C17: gradients are only asked for where the state is consistent; evaluation counts."""
from .scg import follow, gradient, start

BOUNDS = {"iterations": "1 and 2", "dimension": "1 and 2 (2 with one iteration)",
          "objective": "arbitrary values and gradients at every point evaluated"}


def protocol(h, dim, nit):
    opt, ob, x0 = start(h, dim, nit)
    counted(h, opt, ob, x0)


def steps(h, dim, trials):
    """Many iterations, accepted (A) or rejected (R) as listed."""
    opt, ob, x0 = start(h, dim, len(trials))
    follow(h, ob, [gradient(h, k, dim) for k in range(len(trials) + 1)], trials)
    counted(h, opt, ob, x0)
    h.same("accepted", len([t for t in ob.trace if t[0] == "df"]), 1 + trials.count("A"))


def counted(h, opt, ob, x0):
    opt(x0)
    last = None
    for k, (o, a) in enumerate(ob.trace):
        if o == "df":
            h.true(f"gradient call {k} follows an evaluation at the same point", last == a)
        last = a
    st = opt.statistics
    nf = len([t for t in ob.trace if t[0] != "df"])
    nd = len([t for t in ob.trace if t[0] != "f"])
    h.eq("function evaluations counted", st["f_eval"], h.const(nf))
    h.eq("gradient evaluations counted", st["df_eval"], h.const(nd))


def arguments(h, dim, nit):
    """Extra arguments reach every evaluation."""
    opt, ob, x0 = start(h, dim, nit)
    opt(x0, "a", 7)
    h.same("extra arguments", [a for a in ob.args if a != ("a", 7)], [])


def harnesses(thorough):
    out = [("d1-1", protocol, dict(dim=1, nit=1)), ("d2-1", protocol, dict(dim=2, nit=1)),
           ("d1-2", protocol, dict(dim=1, nit=2)),
           ("arguments", arguments, dict(dim=1, nit=1))]
    for k, t in enumerate(("AAAAAAAA", "RRRRRRRR", "ARRAARAAARRA")):
        out += [(f"steps-1-{k}", steps, dict(dim=1, trials=t)),
                (f"steps-3-{k}", steps, dict(dim=3, trials=t))]
    if thorough:
        out.append(("d2-2", protocol, dict(dim=2, nit=2)))
    return out
