"""Harness API, path exploration, prover and replay."""
import builtins
import contextlib
import io
import json
import math
import os
import random
import sys
import time
import zlib
import traceback
from fractions import Fraction

import numpy as _np

from . import sym as S
from . import nps
from . import loader
from .poly import PolySpace, TooBig, linear_zero
from .sym import Sym, SymBool, lift, z3, Unsupported, Infeasible, Cut

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class AssumeFailed(BaseException):
    pass


class Failed(Exception):
    pass


def fz(x):
    """Fraction / str / number -> Fraction."""
    return x if isinstance(x, Fraction) else Fraction(str(x))


# ---------------------------------------------------------------------------
class Harness:
    """Passed to the harness functions; the same function runs symbolically and concretely."""

    def __init__(self, world, symbolic, values=None, rec=None, cfg=None):
        self.w = world
        self.symbolic = symbolic
        self.values = values or {}
        self.rec = rec
        self.np = world.np
        self.cfg = cfg or {}
        self.seen = []          # (label, a, b) in order (both modes)
        self.failures = []      # concrete mode
        self.inputs_used = []
        self.draws = {}
        self.thin = 0
        if world.rng is not None:
            world.rng.draw = self._draw
            world.rng.arr = (lambda o: o.view(nps.SA)) if symbolic else (
                lambda o: _np.array(o, dtype=float))
            world.rng.where = self.where
            world.rng.fresh = 0
            world.rng.log = []

    # -- modules ---------------------------------------------------------
    def mod(self, name):
        return self.w.load(name)

    def script(self, name):
        self.w.script(name)

    def capture(self, fn):
        """What fn() prints."""
        if not self.symbolic:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                fn()
            return out.getvalue()
        self.w.printed = []
        try:
            fn()
            return "".join(self.w.printed)
        finally:
            self.w.printed = None

    # -- inputs ----------------------------------------------------------
    def const(self, v):
        f = fz(v)
        return Sym(f) if self.symbolic else float(f)

    def real(self, name, lo=None, hi=None, pos=False, hint=None):
        """A real input; lo/hi are assumptions (part of the claim), hint only guides models."""
        if hint is None:
            hint = (lo if lo is not None else (Fraction(1, 4) if pos else -2),
                    hi if hi is not None else 2)
        if self.thin:
            # larger sizes: only one in `thin` inputs is symbolic, the others are fixed
            q = zlib.crc32(name.encode())
            if q % self.thin:
                a, b = fz(hint[0]), fz(hint[1])
                return self.const(a + (b - a) * Fraction(2 * (q // self.thin % 8) + 1, 16))
        if self.symbolic:
            c = S.ctx()
            v = c.var(name, positive=pos)
            if lo is not None:
                c.assumptions.append(v.n >= S.rv(fz(lo)))
            if hi is not None:
                c.assumptions.append(v.n <= S.rv(fz(hi)))
            c.hints.append((name, fz(hint[0]), fz(hint[1])))
            return v
        return float(self._val(name, hint))

    def pos(self, name, hint=(Fraction(1, 3), 2), hi=None):
        return self.real(name, pos=True, hint=hint, hi=hi)

    def dt(self, name="dt"):
        return self.real(name, pos=True, hint=(Fraction(1, 16), Fraction(1, 4)))

    def int(self, name, lo, hi):
        if self.symbolic:
            c = S.ctx()
            v = c.var(name, integer=True)
            c.assumptions.append(v.n >= S.rv(fz(lo)))
            c.assumptions.append(v.n <= S.rv(fz(hi)))
            c.hints.append((name, fz(lo), fz(hi)))
            return v
        return int(round(self._val(name, (lo, hi))))

    def _val(self, name, hint):
        """Value of an input in a concrete run (a fixed pseudo-random one when the solver's
        model has none, because the symbolic run stopped before it was created)."""
        if name not in self.values:
            lo, hi = float(fz(hint[0])), float(fz(hint[1]))
            self.values[name] = lo + (hi - lo) * random.Random(name).random()
        return self.values[name]

    def choice(self, name, options):
        """Forks over a finite set of options."""
        k = self.int(name, 0, len(options) - 1)
        return options[k.__index__() if self.symbolic else k]

    def _shape(self, name, shape, fn):
        out = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape):
            out[i] = fn(name + "_" + "_".join(map(str, i)))
        return out.view(nps.SA) if self.symbolic else _np.array(out, dtype=float)

    def vec(self, name, n, **k):
        return self._shape(name, (n,), lambda s: self.real(s, **k))

    def mat(self, name, r, c, **k):
        return self._shape(name, (r, c), lambda s: self.real(s, **k))

    def ten(self, name, shape, **k):
        return self._shape(name, tuple(shape), lambda s: self.real(s, **k))

    def symmetric(self, name, d, **k):
        u = {}
        out = _np.empty((d, d), dtype=object)
        for i in range(d):
            for j in range(i, d):
                out[i, j] = out[j, i] = self.real(f"{name}_{i}_{j}", **k)
        return out.view(nps.SA) if self.symbolic else _np.array(out, dtype=float)

    def spd(self, name, d, mode="chol", diag=False, off=None):
        """A symmetric positive definite matrix (every one: S = L L'; diag / off restrict the
        non-zero entries of L below the diagonal).

        mode "chol": entries are polynomials in the Cholesky factor; "opaque": the entries of S,
        of its factor L and of L^-1 are separate variables tied by definitions."""
        lo = Fraction(1, 2)
        L = _np.empty((d, d), dtype=object)
        for i in range(d):
            for j in range(d):
                if i == j:
                    L[i, j] = self.real(f"{name}L_{i}_{j}", pos=True, hint=(lo, Fraction(3, 2)))
                elif i > j and not diag and (off is None or (i, j) in off):
                    L[i, j] = self.real(f"{name}L_{i}_{j}", hint=(-lo, lo))
                else:
                    L[i, j] = Sym(Fraction(0)) if self.symbolic else 0.0
        if not self.symbolic:
            L = _np.array(L, dtype=float)
            return L.dot(L.T)
        c = S.ctx()
        L = L.view(nps.SA)
        Smat = nps._matmul(L, L.T)
        if mode == "chol":
            W = nps._solve(L, nps.np_eye(d))
        else:
            Sm, W = Smat, nps._filled((d, d), nps.ZERO)
            So = nps._filled((d, d), nps.ZERO)
            Wx = nps._solve(L, nps.np_eye(d))
            for i in range(d):
                for j in range(i + 1):
                    if nps._is0(Sm[i, j]):
                        continue
                    t = Sm[i, j].z()
                    v = c.derived(f"{name}S", lambda ev, t=t: ev(t))
                    c.defs.append(v == t)
                    So[i, j] = So[j, i] = Sym(v)
                    if i == j:
                        c.positive.add(v.get_id())
                        c.defs.append(v > 0)
            for i in range(d):
                for j in range(i + 1):
                    if nps._is0(Wx[i, j]):
                        continue
                    t = Wx[i, j].z()
                    v = c.derived(f"{name}W", lambda ev, t=t: ev(t))
                    W[i, j] = Sym(v)
                    if i == j:
                        c.positive.add(v.get_id())
                        c.defs.append(v > 0)
            WL = nps._matmul(W, L)
            for i in range(d):
                for j in range(i + 1):
                    c.add_def_eq(WL[i, j], Sym(Fraction(int(i == j))))
            Smat = So
        rec = type("Rec", (), {})()
        rec.d, rec.L, rec.W, rec.S, rec.name = d, L, W, Smat, name
        if d > 1:
            c.spd.append(rec)
        return Smat.copy()

    def spd_like(self, S0, T, D):
        """Registers T = D S0 D (S0 from spd(), D diagonal with entries +-1)."""
        if not self.symbolic:
            return
        c = S.ctx()
        got = nps.match_spd(S0)
        rec = type("Rec", (), {})()
        r = got[0]
        rec.d, rec.name = r.d, r.name + "'"
        rec.L, rec.W = D.dot(r.L).dot(D), D.dot(r.W).dot(D)
        rec.S = T.copy()
        c.spd.append(rec)

    def arr(self, x):
        return self.np.array(x, dtype=float) if not self.symbolic else nps.toflt(nps._mk(x))

    def ints(self, xs):
        return _np.array(xs, dtype=int)

    def zeros(self, *shape):
        return self.np.zeros(shape)

    def stack(self, xs):
        return self.arr(list(xs))

    # -- helpers usable in both modes ------------------------------------
    def where(self, c, a, b):
        if self.symbolic:
            return S.sym_where(c, a, b)
        return a if c else b

    def conj(self, *cs):
        return S.sym_and(*cs) if self.symbolic else all(bool(c) for c in cs)

    def disj(self, *cs):
        return S.sym_or(*cs) if self.symbolic else any(bool(c) for c in cs)

    def neg(self, c):
        return ~S.as_bool(c) if self.symbolic else not bool(c)

    def sqrt(self, x):
        return S.sym_sqrt(x) if self.symbolic else math.sqrt(x)

    def log(self, x):
        return S.sym_log(x) if self.symbolic else math.log(x)

    @property
    def pi(self):
        return nps.pi() if self.symbolic else math.pi

    def inv(self, M):
        if self.symbolic:
            return nps.la_inv(M)
        return _np.linalg.inv(M)

    def det(self, M):
        if self.symbolic:
            return nps.la_det(M)
        return _np.linalg.det(M)

    def chol(self, M):
        if self.symbolic:
            return nps.la_cholesky(M)
        return _np.linalg.cholesky(M)

    def floor(self, x):
        return lift(x).floor() if self.symbolic else math.floor(x)

    def diff(self, x, v):
        """Symbolic derivative; in concrete mode the harness must supply a numeric one."""
        return S.diff(lift(x), v)

    def identical(self, a, b):
        """The same values whatever the inputs (concretely: up to rounding)."""
        if not self.symbolic:
            a, b = _np.asarray(a, dtype=float), _np.asarray(b, dtype=float)
            return a.shape == b.shape and bool(_np.allclose(a, b, rtol=1e-14, atol=0))
        A, B = nps._b(self._norm(a)), nps._b(self._norm(b))
        return A.shape == B.shape and all(nps.zero(lift(A[i]) - lift(B[i]))
                                          for i in _np.ndindex(*A.shape))

    def at_zero(self, x, v):
        """x with the input v set to 0 (symbolic mode)."""
        return S.at_zero(lift(x), v)

    def spline(self, x, y):
        """Cubic spline through the given points (default boundary conditions)."""
        if self.symbolic:
            return nps.CubicSplineStub(x, y)
        from scipy.interpolate import CubicSpline
        return CubicSpline(x, y)

    def opaque(self, x):
        """Try proofs with these values as arbitrary ones first (a generalisation)."""
        if self.symbolic:
            c = S.ctx()
            for v in _np.ravel(nps._b(_np.asarray(x, dtype=object))):
                if isinstance(v, Sym) and v.d is None and not isinstance(v.n, Fraction) \
                        and v.n.children():
                    c.opaque[v.n.get_id()] = v.n
        return x

    def snapshot(self, x):
        return self.np.array(x)

    # -- random draws ----------------------------------------------------
    def simplify(self, x):
        """Polynomial normal form (opaque values stay as they are)."""
        if not self.symbolic:
            return x
        c = S.ctx()
        sp = PolySpace(limit=100000)
        sp.opaque = c.opaque
        for i, arg in c.sqrt_arg.items():
            sp.square[i] = sp.of(arg)

        def one(v):
            v = lift(v)
            if v.is_const() or isinstance(v.n, Fraction):
                return v
            t = sp.term(sp.of(v.n))
            if z3.is_rational_value(t):
                t = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return Sym(t, v.d) if v.d else Sym(t)
        return nps.elementwise(one, x) if isinstance(x, _np.ndarray) else one(x)

    def noise_matrix(self, label, fn):
        """fn() runs the code and returns a vector that must be linear in the standard normal
        draws; returns its matrix of coefficients (rows: entries, columns: draws)."""
        if self.symbolic:
            e = list(self.simplify(fn()))
            names = [n for n in self.draws if "_n_" in n]
            J = [[S.diff(v, self.draws[n]) for n in names] for v in e]
        else:
            e = list(fn())
            names = [n for n in self.draws if "_n_" in n]
            keep, seen = dict(self.draws), list(self.seen)

            def at(vals):
                self.draws = dict(keep, **vals)
                try:
                    return _np.array(list(fn()), dtype=float)
                finally:
                    self.draws, self.seen = dict(keep), list(seen)
            zero = {n: 0.0 for n in names}
            e0 = at(zero)
            J = _np.array([at(dict(zero, **{n: 1.0})) - e0 for n in names]).T
        for i, v in enumerate(e):
            lin = sum((J[i][k] * self.draws[n] for k, n in enumerate(names)), v * 0)
            self.eq(f"{label} linear in the noise {i}", v, lin)
        return self.arr([list(r) for r in J]) if names else None

    def _draw(self, tag, kind, k):
        name = f"rng_{tag}_{kind}_{k}"
        if name in self.draws:
            return self.draws[name]
        if self.symbolic:
            c = S.ctx()
            v = c.var(name)
            if kind == "u":
                c.assumptions += [v.n >= 0, v.n < 1]
                c.hints.append((name, Fraction(0), Fraction(99, 100)))
            else:
                c.hints.append((name, Fraction(-2), Fraction(2)))
        else:
            v = float(self.values.get(name, 0.37))
        self.draws[name] = v
        return v

    # -- assumptions and assertions ---------------------------------------
    def assume(self, cond):
        if self.symbolic:
            cond = S.as_bool(cond)
            if isinstance(cond.b, bool):
                if not cond.b:
                    raise Infeasible()
                return
            S.ctx().assumptions.append(cond.b)
        elif not bool(cond):
            raise AssumeFailed()

    def eq(self, label, a, b, tol=1e-6):
        """a == b (element-wise, same shape)."""
        if not self.symbolic:
            a_, b_ = _np.asarray(a, dtype=float), _np.asarray(b, dtype=float)
            self.seen.append((label, a_, b_))
            if a_.shape != b_.shape:
                self.failures.append((label, f"shape {a_.shape} != {b_.shape}"))
                return False
            scale = 1.0
            if a_.size:
                fin = _np.concatenate([_np.abs(a_).ravel(), _np.abs(b_).ravel()])
                fin = fin[_np.isfinite(fin)]
                if fin.size:
                    scale = max(1.0, min(float(fin.max()), 1e6))
            with _np.errstate(all="ignore"):
                bad = ~(_np.abs(a_ - b_) <= tol * scale)
            if bad.any():
                i = tuple(int(v) for v in _np.argwhere(bad)[0])
                self.failures.append((label, f"at {i}: got {a_[i]!r}, expected {b_[i]!r}"))
                return False
            return True
        a, b = self._norm(a), self._norm(b)
        self.seen.append((label, a, b))
        sa, sb = _np.shape(a), _np.shape(b)
        if sa != sb:
            self.rec.fail(label, S.ctx(), z3.BoolVal(True), f"shape {sa} != {sb}")
            return False
        if sa == ():
            return self.rec.prove_eq(label, a, b)
        A, B = nps._b(a), nps._b(b)
        for i in _np.ndindex(*sa):
            if not self.rec.prove_eq(label + str(list(i)), A[i], B[i]):
                return False
        return True

    def _norm(self, x):
        if isinstance(x, (list, tuple)):
            x = nps._mk(x)
        if isinstance(x, _np.ndarray):
            x = nps.toflt(x)
            return x
        return lift(x)

    def true(self, label, cond):
        if not self.symbolic:
            c = bool(_np.all(cond))
            self.seen.append((label, c, True))
            if not c:
                self.failures.append((label, "condition is false"))
            return c
        if isinstance(cond, _np.ndarray):
            cond = nps.np_all(cond)
        cond = S.as_bool(cond)
        self.seen.append((label, cond, True))
        return self.rec.prove(label, cond)

    def le(self, label, a, b, slack=1e-7):
        """a <= b; replays allow a rounding slack."""
        if not self.symbolic:
            a, b = float(a), float(b)
            ok = a <= b + slack * max(1.0, abs(a), abs(b))
            self.seen.append((label, ok, True))
            if not ok:
                self.failures.append((label, f"{a!r} > {b!r}"))
            return ok
        cond = lift(a) <= lift(b)
        self.seen.append((label, cond, True))
        return self.rec.prove(label, cond)

    def same(self, label, x, y):
        """Plain Python equality of non-numeric outcomes."""
        ok = x == y
        return self.true(label + f" ({x!r} vs {y!r})" if not ok else label, bool(ok))

    def raises(self, label, exc, fn):
        """fn() must raise exc on every input of this path."""
        try:
            fn()
        except exc:
            self.seen.append((label, True, True))
            if self.symbolic:
                self.rec.reached(label)
            return True
        except (Unsupported, Infeasible, Cut, AssumeFailed):
            raise
        except Exception as e:          # noqa: BLE001
            self.seen.append((label, False, True))
            msg = f"raised {type(e).__name__}: {e} instead of {exc}"
        else:
            self.seen.append((label, False, True))
            msg = f"no exception (expected {exc})"
        if self.symbolic:
            self.rec.fail(label, S.ctx(), z3.BoolVal(True), msg)
        else:
            self.failures.append((label, msg))
        return False


# ---------------------------------------------------------------------------
class Result:
    """Outcome of one harness configuration."""

    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.queries = 0
        self.discharged = 0
        self.feasibility = 0
        self.solver_s = 0.0
        self.violations = []       # dict(label, msg, inputs, cfg)
        self.inconclusive = []
        self.mismatch = []
        self.witnesses = 0
        self.validated = 0
        self.unvalidated = 0
        self.functions = set()
        self.cuts = []
        self.samples = []
        self.wall = 0.0
        self.derived = {}

    def pack(self):
        d = dict(self.__dict__)
        d["functions"] = sorted(self.functions)
        return d


class Recorder:
    """Decides the obligations of one path."""

    def __init__(self, run):
        self.run = run
        self.cands = []           # (label, msg, condition) to be replayed
        self.key = self.point = None
        self.space = None
        self.wide = []            # (label, msg, condition, pair): larger violations may exist

    def wider(self, c):
        """Points of refuted claims with a violation large enough to show in floating point."""
        for label, msg, neg, pair in self.wide:
            for k in ("100", "1", "1/100", "1/10000"):
                k = S.rv(Fraction(k))
                if pair is not None:
                    t = (pair[0] - pair[1]).z()
                    more = z3.Or(t >= k, t <= -k)
                else:
                    more = _margin(neg, k)
                    if more is None:
                        break
                s = z3.Solver()
                s.set("timeout", 3000)
                s.add(*c.assumptions, *c.defs, *c.conds)
                s.add(neg, more)
                t0 = time.time()
                r = s.check()
                self.run.res.queries += 1
                self.run.res.solver_s += time.time() - t0
                if r == z3.sat:
                    yield label, msg, self.run.model_values(c, s.model())

    def reached(self, label):
        self.run.res.queries += 1
        self.run.res.discharged += 1

    def _poly(self, c, t):
        if self.space is None:
            self.space = PolySpace(limit=400000)
            self.nsq = 0
        sp = self.space
        if len(c.sqrt_arg) != self.nsq:
            for i, arg in list(c.sqrt_arg.items())[self.nsq:]:
                sp.square[i] = sp.of(arg)
            self.nsq = len(c.sqrt_arg)
            sp.memo = {}
        return sp.of(t)

    def prove_eq(self, label, a, b):
        if self.run.stop():
            return False
        c = S.ctx()
        res = self.run.res
        a, b = lift(a), lift(b)
        t = S.diff_term(a, b)
        if isinstance(t, Fraction):
            res.queries += 1
            if t == 0:
                res.discharged += 1
                return True
            return self.fail(label, c, z3.BoolVal(True), "constants differ")
        if linear_zero(t, c.opaque):
            return self._zero_query(S.rv(Fraction(0)))
        if _size(t, 300) and self._refuted(c, label, t, a, b):
            return False
        if c.opaque:
            sp = PolySpace(limit=100000)
            sp.opaque = c.opaque
            try:
                for i, arg in c.sqrt_arg.items():
                    sp.square[i] = sp.of(arg)
                p = sp.of(t)
                if not p:
                    return self._zero_query(sp.term(p))
            except TooBig:
                pass
            if linear_zero(t):
                return self._zero_query(S.rv(Fraction(0)))
        try:
            p = self._poly(c, t)
            nt = self.space.term(p) if len(p) < 3000 else None
            zero = not p
        except TooBig:
            nt, zero = z3.simplify(t, som=True), False
        # the definitions of abs/min/max/floor may make unequal polynomials equal
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add((nt if nt is not None else t) != 0)
        r = s.check() if (zero or nt is not None) else z3.unknown
        res.queries += 1
        res.solver_s += time.time() - t0
        if r == z3.unsat:
            res.discharged += 1
            return True
        return self._decide(label, c, (nt if nt is not None else t) != 0, "values differ",
                            eqpair=(a, b))

    def _refuted(self, c, label, t, a, b):
        """Large differences: look at one point of the path before expanding them."""
        key = (len(c.inputs), len(c.conds), len(c.assumptions), len(c.derive))
        if key != self.key:
            self.key, self.point = key, None
            try:
                vals = self.run.sample_model(c, z3.BoolVal(True), 4)
                if vals is not None:
                    self.point = vals, S.evaluator(self.run._env(c, vals))
            except (OverflowError, ZeroDivisionError, ValueError, Unsupported):
                pass
        if self.point is None:
            return False
        vals, ev = self.point
        try:
            x, y = _evs(ev, a), _evs(ev, b)
        except (OverflowError, ZeroDivisionError, ValueError, Unsupported):
            return False
        if math.isfinite(x) and math.isfinite(y) and abs(x - y) > 1e-6 * max(1, abs(x), abs(y)):
            if self.run.fixed(c, vals, t != 0) == z3.unsat:
                return False
            self.run.res.queries += 1
            self.cands.append((label, "values differ", vals))
            return True
        return False

    def _zero_query(self, nt):
        res = self.run.res
        t0 = time.time()
        s = z3.Solver()
        s.add(nt != 0)
        r = s.check()
        res.queries += 1
        res.solver_s += time.time() - t0
        if r == z3.unsat:
            res.discharged += 1
            return True
        return False

    def prove(self, label, cond):
        if self.run.stop():
            return False
        c = S.ctx()
        res = self.run.res
        if isinstance(cond.b, bool):
            res.queries += 1
            if cond.b:
                res.discharged += 1
                return True
            return self.fail(label, c, z3.BoolVal(True), "condition is false")
        return self._decide(label, c, z3.Not(cond.b), "condition can be false")

    def _decide(self, label, c, neg, msg, eqpair=None):
        res = self.run.res
        vals = self.run.sample_model(c, neg, tries=6)
        if vals is not None:
            res.queries += 1
            self.cands.append((label, msg, vals))
            return False
        tmo = self.run.timeout_ms
        lem = _log_lemmas(c, neg)
        for facts in (lem, lem + c.assumptions + c.defs + c.conds):
            t0 = time.time()
            s = z3.Solver()
            s.set("timeout", tmo if facts is not lem else min(tmo, 4000))
            s.add(*facts)
            s.add(neg)
            r = s.check()
            res.queries += 1
            res.solver_s += time.time() - t0
            if r == z3.unsat:
                res.discharged += 1
                return True
        if r == z3.sat:
            vals = self.run.model_values(c, s.model())
            self.cands.append((label, msg, vals))
            if len(self.wide) < 3:
                self.wide.append((label, msg, neg, eqpair))
            return False
        # last resort: other random points, then inconclusive
        vals = self.run.sample_model(c, neg, tries=30)
        if vals is not None:
            self.cands.append((label, msg, vals))
            return False
        res.inconclusive.append(f"{self.run.name}: {label}: solver returned unknown")
        return False

    def fail(self, label, c, neg, msg):
        self.run.res.queries += 1
        vals = self.run.any_model(c)
        if vals is None:
            self.run.res.inconclusive.append(f"{self.run.name}: {label}: {msg}, no model found")
            return False
        self.cands.append((label, msg, vals))
        return False


def _margin(neg, k):
    """The negated comparison, violated by at least k."""
    if not z3.is_not(neg):
        return None
    a = neg.arg(0)
    if z3.is_le(a) or z3.is_lt(a):
        return a.arg(0) >= a.arg(1) + k
    if z3.is_ge(a) or z3.is_gt(a):
        return a.arg(1) >= a.arg(0) + k
    return None


def _log_lemmas(c, goal):
    """log(x) = log(k) where x = k, for the constants k that x is compared with."""
    if not c.log_arg:
        return []
    logs, consts, seen, todo = {}, set(), set(), [goal] + list(c.conds) + list(c.assumptions)

    def const(t):
        """rational constants among the terms of one side of a comparison"""
        for u in (t.children() if z3.is_add(t) or z3.is_sub(t) else [t]):
            if z3.is_rational_value(u):
                f = abs(Fraction(u.numerator_as_long(), u.denominator_as_long()))
                if f > 0:
                    consts.add(f)

    while todo:
        t = todo.pop()
        if t.get_id() in seen or len(seen) > 4000:
            continue
        seen.add(t.get_id())
        if t.get_id() in c.log_arg:
            logs[t.get_id()] = t
        if t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            for u in t.children():
                const(u)
        todo += t.children()
    out = []
    for i, v in logs.items():
        for f in sorted(consts):
            if len(out) < 40:
                k = z3.RealVal(f"{f.numerator}/{f.denominator}")
                out.append(z3.Implies(c.log_arg[i] == k, v == S.sym_log(Sym(f)).z()))
    return out


_REAL = {}


class Run:
    """Explores all paths of one harness function with one configuration."""

    def __init__(self, fn, cfg, name, max_paths=400, timeout_ms=20000, validate=8, budget=600,
                 stubs=None, rng=True):
        self.fn, self.cfg, self.name = fn, cfg, name
        self.max_paths, self.timeout_ms, self.validate = max_paths, timeout_ms, validate
        self.res = Result(name)
        self.stubs = stubs
        self.rnd = random.Random(f"{SEED}/{name}")
        self.deadline = time.time() + budget
        self.real = None

    def stop(self):
        return len(self.res.violations) > 0

    # -- models ----------------------------------------------------------
    def _env(self, c, vals):
        env = {}
        for n, v in c.inputs.items():
            env[v.get_id()] = float(vals[n])
            if c.kinds[n] == "int":
                env[z3.ToReal(v).get_id()] = float(vals[n])
        for v, fn in c.derive:
            ev = S.evaluator(env)
            try:
                env[v.get_id()] = fn(ev)
            except (OverflowError, ZeroDivisionError, ValueError):
                env[v.get_id()] = math.nan
        return env

    def holds(self, c, vals, extra=()):
        """Numeric test of the facts of a path (with a margin for equations)."""
        env = self._env(c, vals)
        ev = S.evaluator(env)
        for f in c.assumptions + c.conds:
            if not _num_true(f, ev):
                return False
        for f in extra:
            if not _num_true(f, ev, strict=True):
                return False
        return True

    def sample_model(self, c, neg, tries):
        """Random inputs from the hint boxes, then decided by the solver with inputs fixed."""
        if any(_has_eq(f) for f in c.assumptions + c.conds):
            tries = min(tries, 2)
        for _ in range(tries):
            vals = self._random_inputs(c)
            try:
                ok = self.holds(c, vals, (neg,))
            except (OverflowError, ZeroDivisionError, ValueError, Unsupported):
                ok = False
            if ok and self.fixed(c, vals, neg) != z3.unsat:
                return vals
        return None

    def fixed(self, c, vals, neg):
        """The solver's verdict with all inputs fixed."""
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*c.assumptions, *c.conds, neg)
        for n, v in c.inputs.items():
            s.add(v == (z3.IntVal(int(vals[n])) if c.kinds[n] == "int" else S.rv(vals[n])))
        r = s.check()
        self.res.solver_s += time.time() - t0
        return r

    def _random_inputs(self, c):
        vals = {}
        for n, lo, hi in c.hints:
            if c.kinds[n] == "int":
                vals[n] = Fraction(self.rnd.randint(math.ceil(lo), math.floor(hi)))
            else:
                k = self.rnd.randint(1, 63)
                vals[n] = lo + (hi - lo) * Fraction(k, 64)
        for n in c.inputs:
            vals.setdefault(n, Fraction(self.rnd.randint(-64, 64), 32))
        return vals

    def model_values(self, c, m):
        vals = {}
        for n, v in c.inputs.items():
            mv = m.eval(v, model_completion=True)
            if z3.is_int_value(mv):
                vals[n] = Fraction(mv.as_long())
            elif z3.is_rational_value(mv):
                vals[n] = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
            else:
                a = mv.approx(30)
                vals[n] = Fraction(a.numerator_as_long(), a.denominator_as_long())
        return vals

    def any_model(self, c):
        vals = self.sample_model(c, z3.BoolVal(True), 12)
        if vals is not None:
            return vals
        boxes = []
        for n, lo, hi in c.hints:
            v = c.inputs[n]
            if c.kinds[n] == "real":
                boxes += [v >= S.rv(lo), v <= S.rv(hi)]
        for ex in (boxes, []):
            r, s = c.check(*ex, ms=3000 if self.res.witnesses else self.timeout_ms)
            if r == z3.sat:
                return self.model_values(c, s.model())
        return None

    # -- concrete --------------------------------------------------------
    def real_world(self):
        key = tuple(sorted(self.stubs or {}))
        if key not in _REAL:
            _REAL[key] = loader.RealWorld(nps.RngEnv(None, None, None), self.stubs)
        return _REAL[key]

    def concrete(self, vals):
        """Runs the harness on the real code; returns (failures, seen, error)."""
        return concrete_run(self.fn, self.cfg, {k: float(v) for k, v in vals.items()},
                            self.real_world())

    # -- main loop -------------------------------------------------------
    def explore(self):
        t0 = time.time()
        work = [[]]
        first = True
        while work:
            if self.res.paths >= self.max_paths or time.time() > self.deadline:
                self.res.inconclusive.append(f"{self.name}: path/time budget exhausted "
                                             f"({self.res.paths} paths)")
                break
            prefix = work.pop()
            c = S.Ctx(prefix)
            S.CTX = c
            env = nps.RngEnv(None, None, None)
            rec = Recorder(self)
            err = None
            h = None
            prof = None
            try:
                world = loader.SymWorld(env, self.stubs)
                h = Harness(world, True, rec=rec, cfg=self.cfg)
                if first:
                    prof = self._profile()
                self.fn(h, **self.cfg)
            except Infeasible:
                err = "infeasible"
            except Cut:
                pass
            except Unsupported as e:
                err = ("unsupported", f"{e}", _where())
            except RecursionError as e:
                err = ("unsupported", f"{e}", _where())
            except Exception as e:     # noqa: BLE001
                err = ("exception", f"{type(e).__name__}: {e}", _where())
            finally:
                if prof:
                    sys.setprofile(None)
                first = False
            work.extend(c.alts)
            self.res.solver_s += c.stats["solver_s"]
            self.res.feasibility += c.stats["feas"]
            if h is not None:
                self.res.cuts.extend(world.cap.cuts)
            if err == "infeasible":
                S.CTX = None
                continue
            self.res.paths += 1
            self._finish(c, h, rec, err)
            S.CTX = None
            if self.res.violations:
                break
        # paths on which rounding decides a branch cannot be compared; a wrong encoding would
        # disagree throughout
        if len(self.res.mismatch) > self.res.validated // 4:
            self.res.inconclusive += self.res.mismatch
        self.res.wall = time.time() - t0
        return self.res

    def _profile(self):
        res, repo = self.res, loader.REPO

        def prof(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if co.co_filename.startswith(repo) and co.co_name != "<module>":
                    res.functions.add(os.path.relpath(co.co_filename, repo) + ":" +
                                      getattr(co, "co_qualname", co.co_name))
        sys.setprofile(prof)
        return prof

    def _finish(self, c, h, rec, err):
        res = self.res
        # candidates first
        for label, msg, vals in rec.cands[:4]:
            hit = self._replay(vals)
            if hit:
                self._violation(label, msg, vals, hit)
                return
        if rec.cands:
            # the solver's point did not reproduce: try other points of the same path
            for _ in range(6):
                vals = self.sample_model(c, z3.BoolVal(True), 4)
                if vals is None:
                    break
                hit = self._replay(vals)
                if hit:
                    self._violation(rec.cands[0][0], rec.cands[0][1], vals, hit)
                    return
            for label, msg, vals in rec.wider(c):
                hit = self._replay(vals)
                if hit:
                    self._violation(label, msg, vals, hit)
                    return
            label, msg, vals = rec.cands[0]
            res.inconclusive.append(f"{self.name}: {label}: {msg}: counterexample not reproduced "
                                    f"on the real code {_short(vals)}")
            return
        if err is not None:
            kind, msg, where = err
            vals = self.any_model(c)
            if vals is not None:
                hit = self._replay(vals)
                if hit:
                    self._violation("run", msg, vals, hit)
                    return
            res.inconclusive.append(f"{self.name}: {kind}: {msg} [{where}]")
            return
        # reachability witness + validation of the encoding
        if res.witnesses + res.unvalidated >= self.validate and res.witnesses:
            return
        vals = self.any_model(c)
        if vals is None:
            res.unvalidated += 1
            return
        bad, hits, runs = None, [], 0
        for attempt in range(4):
            if attempt:
                # a rounding effect at this point?  other points of the same path decide
                vals = self.sample_model(c, z3.BoolVal(True), 12)
                if vals is None:
                    break
            fails, seen, error = self.concrete(vals)
            if error == "assume":
                if attempt == 0:
                    res.unvalidated += 1
                    return
                continue
            runs += 1
            if attempt == 0:
                res.witnesses += 1
            if error is not None or fails:
                # everything was proved, but the real code disagrees here
                hits.append((vals, [("run", error)] if error is not None else fails))
                bad = f"{hits[0][1][0]} {_short(vals)}"
                continue
            if attempt == 0 and len(res.samples) < 2:
                res.samples.append({"harness": self.name, "inputs": _short(vals, 12),
                                    "assertions": len(seen)})
            bad = self._compare(c, vals, h.seen, seen)
            if not bad:
                res.validated += 1
                return
            bad = f"{bad} {_short(vals)}"
        if hits and len(hits) == runs and (runs > 1 or not res.validated):
            self._violation(hits[0][1][0][0], hits[0][1][0][1], *hits[0])
            return
        res.mismatch.append(f"{self.name}: encoding disagrees with the real code: {bad}")

    def _compare(self, c, vals, sseen, cseen):
        if len(sseen) != len(cseen):
            return f"{len(sseen)} assertions symbolically, {len(cseen)} concretely"
        env = self._env(c, vals)
        ev = S.evaluator(env)
        for (l1, a, b), (l2, x, y) in zip(sseen, cseen):
            if l1 != l2:
                return f"assertion {l1!r} vs {l2!r}"
            for u, v in ((a, x), (b, y)):
                if isinstance(u, (bool, SymBool)) or isinstance(v, bool):
                    continue
                nu = _np.array([_evs(ev, e) for e in _np.ravel(nps._b(_np.asarray(
                    u, dtype=object)))], dtype=float)
                nv = _np.ravel(_np.asarray(v, dtype=float))
                if nu.shape != nv.shape:
                    return f"{l1}: shape"
                sc = max(1.0, float(_np.max(_np.abs(nv))) if nv.size else 1.0)
                if nu.size and not _np.all(_np.abs(nu - nv) <= 1e-5 * sc):
                    i = int(_np.argmax(_np.abs(nu - nv)))
                    return f"{l1}: encoding {nu[i]!r}, real {nv[i]!r}"
        return None

    def _replay(self, vals):
        fails, seen, error = self.concrete(vals)
        if error == "assume":
            return None
        if error:
            return [("run", error)]
        return fails

    def _violation(self, label, msg, vals, hit):
        self.res.violations.append({
            "harness": self.name, "label": hit[0][0], "message": f"{hit[0][1]} (solver: {label}: {msg})",
            "inputs": {k: str(v) for k, v in vals.items()}})


def _size(t, n):
    """More than n nodes?"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > n:
            return True
        stack.extend(x.children())
    return False


def _evs(ev, e):
    e = lift(e)
    d = ev(e.den_term()) if e.d else 1.0
    return ev(e.n) / d if d else math.nan


def concrete_run(fn, cfg, vals, world):
    world.reset()
    h = Harness(world, False, values=vals, cfg=cfg)
    out = sys.stdout
    try:
        sys.stdout = open(os.devnull, "w")
        with _np.errstate(all="ignore"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn(h, **cfg)
    except AssumeFailed:
        return [], [], "assume"
    except Exception as e:     # noqa: BLE001
        return h.failures, h.seen, f"{type(e).__name__}: {e} [{_where()}]"
    finally:
        sys.stdout.close()
        sys.stdout = out
    return h.failures, h.seen, None


def _where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    fr = [f for f in tb if f.filename.startswith(loader.REPO)] or list(tb)
    f = fr[-1]
    return f"{os.path.basename(f.filename)}:{f.lineno}"


def _short(vals, n=8):
    return {k: round(float(v), 6) for k, v in list(vals.items())[:n]}


def _has_eq(f):
    return z3.is_eq(f) or (z3.is_and(f) and any(_has_eq(x) for x in f.children()))


def _num_true(f, ev, strict=False):
    """Numeric truth of a z3 Boolean; `strict` asks for a clear margin on disequalities."""
    if z3.is_not(f):
        a = f.arg(0)
        if z3.is_eq(a) and z3.is_arith(a.arg(0)):
            x, y = ev(a.arg(0)), ev(a.arg(1))
            return abs(x - y) > 1e-9 * max(1.0, abs(x), abs(y))
        if z3.is_le(a) or z3.is_lt(a) or z3.is_ge(a) or z3.is_gt(a):
            x, y = ev(a.arg(0)), ev(a.arg(1))
            m = 1e-9 * max(1.0, abs(x), abs(y))
            if z3.is_le(a) or z3.is_lt(a):
                return x - y > m
            return y - x > m
        if z3.is_and(a):
            return any(_num_true(z3.Not(g), ev, strict) for g in a.children())
        if z3.is_or(a):
            return all(_num_true(z3.Not(g), ev, strict) for g in a.children())
        if z3.is_not(a):
            return _num_true(a.arg(0), ev, strict)
        return not bool(ev(a))
    if z3.is_true(f):
        return True
    if z3.is_and(f):
        return all(_num_true(g, ev, strict) for g in f.children())
    if z3.is_or(f):
        return any(_num_true(g, ev, strict) for g in f.children())
    if z3.is_distinct(f):
        x, y = ev(f.arg(0)), ev(f.arg(1))
        return abs(x - y) > 1e-9 * max(1.0, abs(x), abs(y))
    if z3.is_eq(f) and z3.is_arith(f.arg(0)):
        x, y = ev(f.arg(0)), ev(f.arg(1))
        return abs(x - y) <= 1e-12 * max(1.0, abs(x), abs(y))
    if z3.is_lt(f) or z3.is_gt(f):
        x, y = ev(f.arg(0)), ev(f.arg(1))
        m = 1e-9 * max(1.0, abs(x), abs(y))
        return (y - x > m) if z3.is_lt(f) else (x - y > m)
    if z3.is_le(f) or z3.is_ge(f):
        x, y = ev(f.arg(0)), ev(f.arg(1))
        return x <= y if z3.is_le(f) else x >= y
    return bool(ev(f))
