"""
Symbolic scalars for executing the real VGPA sources.

A `Sym` is an exact rational function num / (prod factors) whose numerator and factors are
z3 real terms (or a `Fraction` when the value is a constant).  A `SymBool` is a z3 Boolean;
using one in a Python condition forks the execution (see `Ctx.branch`).
All arithmetic is exact real arithmetic (floating point rounding is outside this encoding).
"""
import math
import sys
from fractions import Fraction

Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if Z3_SITE not in sys.path:
    sys.path.append(Z3_SITE)
import z3  # noqa: E402

z3.set_param("verbose", 0)


class Unsupported(Exception):
    """The encoding cannot represent this operation (the check is inconclusive)."""


class Infeasible(BaseException):
    """The current path has no inputs."""


class Cut(BaseException):
    """Stops a symbolic run at a cut point chosen by a harness."""

    def __init__(self, payload):
        super().__init__("cut")
        self.payload = payload


CTX = None          # the active context (symbolic runs only)


def ctx():
    if CTX is None:
        raise Unsupported("no active symbolic context")
    return CTX


_RV = {}


def rv(c):
    r = _RV.get(c)
    if r is None:
        r = _RV[c] = z3.RealVal(str(c))
    return r


def _is_c(x):
    return isinstance(x, Fraction)


def tz(x):
    """numerator-like value -> z3 term."""
    return rv(x) if isinstance(x, Fraction) else x


from z3 import z3core as _z3core          # noqa: E402

_MKADD, _MKMUL = (getattr(_z3core, n).__defaults__[0].f for n in ("Z3_mk_add", "Z3_mk_mul"))
_MC = z3.main_ctx()
_MREF = _MC.ref()
_AST2 = z3.Ast * 2


def _zadd(a, b):
    return z3.ArithRef(_MKADD(_MREF, 2, _AST2(a.ast, b.ast)), _MC)


def _zmul(a, b):
    return z3.ArithRef(_MKMUL(_MREF, 2, _AST2(a.ast, b.ast)), _MC)


def _add(a, b):
    if _is_c(a):
        if _is_c(b):
            return a + b
        if a == 0:
            return b
    elif _is_c(b) and b == 0:
        return a
    return _zadd(tz(a), tz(b))


def _mul(a, b):
    if _is_c(a):
        if _is_c(b):
            return a * b
        if a == 0:
            return a
        if a == 1:
            return b
    elif _is_c(b):
        if b == 0:
            return b
        if b == 1:
            return a
        return _zmul(tz(b), a)
    return _zmul(tz(a), tz(b))


def _neg(a):
    return -a if _is_c(a) else _zmul(rv(Fraction(-1)), a)


def _powz(a, n):
    r = Fraction(1)
    for _ in range(n):
        r = _mul(r, a)
    return r


def factors(t):
    """Split a z3 term into (constant, {id: (term, power)})."""
    c = Fraction(1)
    out = {}
    stack = [(t, 1)]
    while stack:
        x, p = stack.pop()
        if _is_c(x):
            c *= x ** p
            continue
        if z3.is_rational_value(x):
            c *= Fraction(x.numerator_as_long(), x.denominator_as_long()) ** p
        elif z3.is_app_of(x, z3.Z3_OP_MUL):
            for ch in x.children():
                stack.append((ch, p))
        elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
            c *= Fraction(-1) ** p
            stack.append((x.arg(0), p))
        else:
            i = x.get_id()
            if i in out:
                out[i] = (x, out[i][1] + p)
            else:
                out[i] = (x, p)
    return c, out


class Sym:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or None

    # -- construction ----------------------------------------------------
    @staticmethod
    def const(c):
        return Sym(c if isinstance(c, Fraction) else Fraction(c))

    def is_const(self):
        return self.d is None and _is_c(self.n)

    def cval(self):
        return self.n

    # -- denominators ----------------------------------------------------
    def den_term(self):
        if self.d is None:
            return Fraction(1)
        r = Fraction(1)
        for t, p in self.d.values():
            r = _mul(r, _powz(t, p))
        return r

    def z(self):
        """One z3 term (with division when there is a denominator)."""
        if self.d is None:
            return tz(self.n)
        return tz(self.n) / tz(self.den_term())

    # -- arithmetic ------------------------------------------------------
    def __add__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        if self.d is None and o.d is None:
            return Sym(_add(self.n, o.n))
        if _is_c(self.n) and self.n == 0:
            return o
        if _is_c(o.n) and o.n == 0:
            return self
        a, b = self.d or {}, o.d or {}
        ma = mb = Fraction(1)
        d = {}
        for i in set(a) | set(b):
            pa = a[i][1] if i in a else 0
            pb = b[i][1] if i in b else 0
            t = (a.get(i) or b.get(i))[0]
            p = max(pa, pb)
            d[i] = (t, p)
            ma = _mul(ma, _powz(t, p - pa))
            mb = _mul(mb, _powz(t, p - pb))
        return Sym(_add(_mul(self.n, ma), _mul(o.n, mb)), d)

    __radd__ = __add__

    def __neg__(self):
        return Sym(_neg(self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        if self.is_const() and self.n == 0:
            return self
        if o.is_const() and o.n == 0:
            return o
        if self.d is None and o.d is None:
            return Sym(_mul(self.n, o.n))
        d = dict(self.d or {})
        for i, (t, p) in (o.d or {}).items():
            d[i] = (t, p + (d[i][1] if i in d else 0))
        return _cancel(_mul(self.n, o.n), d, (self.n, o.n))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return self * o.recip()

    def __rtruediv__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return o * self.recip()

    def recip(self):
        if self.is_const():
            if self.n == 0:
                raise ZeroDivisionError("division by zero")
            return Sym(1 / self.n)
        n = self.n if CTX is None else CTX.canon(self.n)
        c, fs = factors(n)
        if c == 0:
            raise ZeroDivisionError("division by zero")
        if CTX is not None:
            CTX.note_den(fs)
        return _cancel(_mul(1 / c, self.den_term()), fs, (self.den_term(),))

    def __pow__(self, e):
        if isinstance(e, Sym):
            if not e.is_const():
                raise Unsupported("symbolic exponent")
            e = e.n
        if isinstance(e, float):
            e = Fraction(e)
        e = Fraction(int(e)) if not isinstance(e, Fraction) else e
        if e.denominator == 1:
            k = int(e)
            if k >= 0:
                r = Sym(Fraction(1))
                for _ in range(k):
                    r = r * self
                return r
            return (self ** (-k)).recip()
        if e.denominator == 2:
            return self.sqrt() ** int(e.numerator)
        raise Unsupported(f"power {e}")

    def __rpow__(self, o):
        if self.is_const():
            return lift(o) ** self
        raise Unsupported("symbolic exponent")

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (lift(o) / self).floor()

    def __mod__(self, o):
        o = lift(o)
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - lift(o) * q

    def __abs__(self):
        if self.is_const():
            return Sym(abs(self.n))
        s = ctx().sign_of(self)
        if s > 0:
            return self
        if s < 0:
            return -self
        t = self.z()
        return Sym(z3.If(t >= 0, t, -t))

    # -- functions used by numpy object loops ----------------------------
    def sqrt(self):
        return sym_sqrt(self)

    def log(self):
        return sym_log(self)

    def exp(self):
        return sym_uf("exp", self, math.exp)

    def sin(self):
        return sym_uf("sin", self, math.sin)

    def cos(self):
        return sym_uf("cos", self, math.cos)

    def tanh(self):
        return sym_uf("tanh", self, math.tanh)

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def floor(self):
        if self.is_const():
            return Sym(Fraction(math.floor(self.n)))
        return Sym(z3.ToReal(z3.ToInt(self.z())))

    __floor__ = floor

    def ceil(self):
        return -((-self).floor())

    __ceil__ = ceil

    def rint(self):
        if self.is_const():
            return Sym(Fraction(round(self.n)))
        f = self.floor()
        r = self - f
        # ties to even are not modelled: a tie is rounded up
        return f + Sym(z3.If((r - Sym(Fraction(1, 2))).z() >= 0, rv(Fraction(1)), rv(Fraction(0))))

    def __round__(self, n=None):
        if n:
            raise Unsupported("round to digits")
        return self.rint()

    def trunc(self):
        if self.is_const():
            return Sym(Fraction(int(self.n)))
        if ctx().sign_of(self) > 0:
            return self.floor()
        t = self.z()
        return Sym(z3.If(t >= 0, z3.ToReal(z3.ToInt(t)), -z3.ToReal(z3.ToInt(-t))))

    __trunc__ = trunc

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym(Fraction(0))

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def ravel(self):
        import numpy
        return numpy.array([self], dtype=object)

    def dot(self, o):
        return self * o

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def astype(self, t):
        return self

    # -- comparisons -----------------------------------------------------
    def _cmp(self, o, op):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        if self.is_const() and o.is_const():
            return SymBool(_CMP[op](self.n, o.n))
        if op in ("==", "!="):
            d = diff_term(self, o)
            if _is_c(d):
                return SymBool((d == 0) == (op == "=="))
            t = d == rv(Fraction(0))
            return SymBool(t if op == "==" else z3.Not(t))
        d = self - o
        if d.d is not None:
            num, pos = d.n, True
            for t, p in d.d.values():
                if p % 2 == 0:
                    continue
                s = ctx().sign_of(Sym(t))
                if s == 0:
                    pos = False
                    break
                if s < 0:
                    num = _neg(num)
            a = num if pos else d.z()
        else:
            a = d.n
        if _is_c(a):
            return SymBool(_CMP[op](a, 0))
        z = rv(Fraction(0))
        t = {"<": a < z, "<=": a <= z, ">": a > z, ">=": a >= z}[op]
        return SymBool(t)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        if self.is_const():
            return hash(self.n)
        return 0x5eed       # as a key: == decides (and branches)

    def __bool__(self):
        return bool(self != 0)

    # -- conversions -----------------------------------------------------
    def __index__(self):
        if self.is_const():
            if self.n.denominator != 1:
                raise TypeError("not an integer")
            return int(self.n)
        return ctx().concretize(self)

    def __int__(self):
        return self.trunc().__index__()

    def __float__(self):
        if self.is_const():
            return float(self.n)
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __format__(self, spec):
        return format(float(self.n), spec) if self.is_const() and spec else "<sym>"

    def __repr__(self):
        return f"Sym({self.n})" if self.is_const() else "Sym(..)"

    __str__ = __repr__


import operator as _op  # noqa: E402
_CMP = {"<": _op.lt, "<=": _op.le, ">": _op.gt, ">=": _op.ge, "==": _op.eq, "!=": _op.ne}


def _cancel(n, d, parts):
    """Cancel syntactic factors shared by the numerator and the denominator."""
    if _is_c(n):
        return Sym(n, d) if n != 0 else Sym(n)
    hit = False
    if CTX is not None and CTX.sqrt_arg:
        # s^2 = t in a denominator
        for i in [i for i, (_, p) in d.items() if p > 1 and i in CTX.sqrt_arg]:
            t, p = d[i]
            c, fs = factors(CTX.sqrt_arg[i])
            if c <= 0:
                continue
            del d[i]
            if p % 2:
                d[i] = (t, 1)
            for k, (u, e) in fs.items():
                d[k] = (u, e * (p // 2) + (d[k][1] if k in d else 0))
            if c != 1:
                n = _mul(c ** -(p // 2), n)
            CTX.note_den(fs)
            hit = True
    for p in parts:
        if _is_c(p):
            continue
        if p.get_id() in d or z3.is_app_of(p, z3.Z3_OP_MUL):
            hit = True
            break
    if not hit:
        return Sym(n, d)
    c, fs = factors(n)
    changed = False
    for i in list(fs):
        if i in d:
            t, p = fs[i]
            k = min(p, d[i][1])
            changed = True
            if p == k:
                del fs[i]
            else:
                fs[i] = (t, p - k)
            if d[i][1] == k:
                del d[i]
            else:
                d[i] = (t, d[i][1] - k)
    if not changed:
        return Sym(n, d)
    r = c
    for t, p in fs.values():
        r = _mul(r, _powz(t, p))
    return Sym(r, d)


def diff_term(a, b):
    """A term that is zero iff a == b (the denominators being non-zero)."""
    s = a - b
    return s.n


class SymBool:
    __slots__ = ("b",)

    def __init__(self, b):
        if isinstance(b, SymBool):
            b = b.b
        self.b = b

    def z(self):
        return z3.BoolVal(bool(self.b)) if isinstance(self.b, (bool, int)) else self.b

    def __bool__(self):
        if isinstance(self.b, bool):
            return self.b
        return ctx().branch(self.b)

    def __and__(self, o):
        return sym_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sym_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        if isinstance(self.b, bool):
            return SymBool(not self.b)
        return SymBool(z3.Not(self.b))

    def __xor__(self, o):
        return SymBool(z3.Xor(self.z(), as_bool(o).z()))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        return SymBool(self.z() == as_bool(o).z())

    def __ne__(self, o):
        return SymBool(self.z() != as_bool(o).z())

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def _num(self):
        if isinstance(self.b, bool):
            return Sym(Fraction(int(self.b)))
        return Sym(z3.If(self.b, rv(Fraction(1)), rv(Fraction(0))))

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __repr__(self):
        return f"SymBool({self.b})" if isinstance(self.b, bool) else "SymBool(..)"


def as_bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return SymBool(bool(x))


def sym_and(*xs):
    out = []
    for x in xs:
        x = as_bool(x)
        if isinstance(x.b, bool):
            if not x.b:
                return SymBool(False)
        else:
            out.append(x.b)
    if not out:
        return SymBool(True)
    return SymBool(z3.And(*out) if len(out) > 1 else out[0])


def sym_or(*xs):
    return ~sym_and(*[~as_bool(x) for x in xs])


def frac_of_float(x):
    """Decimal reading of a float literal (1.05 means 21/20)."""
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported("nan/inf constant")
    return Fraction(repr(x))


def lift_or_none(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, bool):
        return Sym(Fraction(int(x)))
    if isinstance(x, int):
        return Sym(Fraction(x))
    if isinstance(x, float):
        return Sym(frac_of_float(x))
    if isinstance(x, Fraction):
        return Sym(x)
    if isinstance(x, SymBool):
        return x._num()
    import numpy
    if isinstance(x, numpy.generic):
        return lift_or_none(x.item())
    if isinstance(x, numpy.ndarray) and x.ndim == 0:
        return lift_or_none(x.item())
    return None


def lift(x):
    r = lift_or_none(x)
    if r is None:
        raise Unsupported(f"cannot lift {type(x)}")
    return r


def _settled(c):
    """The condition, replaced by its value when the facts of the path settle it."""
    if isinstance(c.b, bool):
        return c
    cc = ctx()
    for b, v in ((z3.Not(c.b), True), (c.b, False)):
        if cc.check(b, ms=300)[0] == z3.unsat:
            return SymBool(v)
    return c


def sym_max(a, b):
    a, b = lift(a), lift(b)
    c = _settled(a >= b)
    if isinstance(c.b, bool):
        return a if c.b else b
    return Sym(z3.If(c.b, a.z(), b.z()))


def sym_min(a, b):
    a, b = lift(a), lift(b)
    c = _settled(a <= b)
    if isinstance(c.b, bool):
        return a if c.b else b
    return Sym(z3.If(c.b, a.z(), b.z()))


def sym_where(c, a, b):
    c = _settled(as_bool(c))
    if isinstance(c.b, bool):
        return a if c.b else b
    return Sym(z3.If(c.b, lift(a).z(), lift(b).z()))


def _sqrt_factor(t):
    """sqrt of one positive z3 factor: a fresh s >= 0 with s^2 = t."""
    c = ctx()
    key = t.get_id()
    if key in c.sqrt_of:
        return c.sqrt_of[key]
    s = c.derived("sqrt", lambda ev, t=t: math.sqrt(max(ev(t), 0.0)))
    c.defs.append(z3.And(s >= 0, s * s == t))
    c.positive_if[s.get_id()] = t
    c.sqrt_of[key] = Sym(s)
    c.sqrt_arg[s.get_id()] = t
    c.keep.append(t)
    return c.sqrt_of[key]


def _isqrt_frac(f):
    if f < 0:
        return None
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return Fraction(a, b)
    return None


def sym_sqrt(x):
    x = lift(x)
    if x.is_const():
        if x.n < 0:
            raise Unsupported("sqrt of a negative constant")
        r = _isqrt_frac(x.n)
        if r is not None:
            return Sym(r)
        return _sqrt_factor(rv(x.n))
    c, fs = factors(ctx().canon(x.n))
    if c == 0:
        return Sym(Fraction(0))
    if x.d:
        for i, (t, p) in x.d.items():
            fs[i] = (t, (fs[i][1] if i in fs else 0) - p)
    cc = ctx()
    out = Sym(Fraction(1))
    rest = []
    for t, p in fs.values():
        if p == 0:
            continue
        s = cc.sign_of(Sym(t))
        if s < 0:
            c = -c
            t = _neg(t)
        if s == 0:
            q, r = (p // 2, p % 2) if p > 0 else (-((-p) // 2), -((-p) % 2))
            if q:
                out = out * abs(Sym(t)) ** q
            if r:
                rest.append((t, r))
            continue
        q, r = divmod(p, 2)
        if q:
            out = out * Sym(t) ** q
        if r:
            out = out * _sqrt_factor(t)
    if rest:
        r = Sym(c)
        for t, p in rest:
            r = r * Sym(t) ** p
        tt = r.z()
        return out * _sqrt_factor(tt)
    if c != 1:
        if c < 0:
            raise Unsupported("sqrt of a negative value")
        k = _isqrt_frac(c)
        out = out * (Sym(k) if k is not None else _sqrt_factor(rv(c)))
    return out


def _log_factor(t):
    c = ctx()
    key = t.get_id()
    if key in c.sqrt_arg:
        return Sym(Fraction(1, 2)) * sym_log(Sym(c.sqrt_arg[key]))
    if key in c.log_of:
        return c.log_of[key][0]
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        def br(u):
            return sym_log(Sym(Fraction(u.numerator_as_long(), u.denominator_as_long()))
                           if z3.is_rational_value(u) else Sym(u))
        c.keep.append(t)
        c.log_of[key] = (sym_where(SymBool(t.arg(0)), br(t.arg(1)), br(t.arg(2))), t)
        return c.log_of[key][0]

    def num(ev, t=t):
        v = ev(t)
        return math.log(v) if v > 0 else (-math.inf if v == 0 else math.nan)
    s = c.derived("log", num)
    c.keep.append(t)
    c.log_arg[s.get_id()] = t
    c.log_of[key] = (Sym(s), t)
    return c.log_of[key][0]


def sym_log(x):
    x = lift(x)
    if x.is_const():
        if x.n <= 0:
            raise Unsupported("log of a non-positive constant")
        return _log_const(x.n)
    c, fs = factors(ctx().canon(x.n))
    if x.d:
        for i, (t, p) in x.d.items():
            fs[i] = (t, (fs[i][1] if i in fs else 0) - p)
    cc = ctx()
    out = Sym(Fraction(0))
    rest = Sym(Fraction(1))
    for t, p in fs.values():
        if p == 0:
            continue
        s = cc.sign_of(Sym(t))
        if s < 0 and p % 2:
            c = -c
        if s:
            out = out + Sym(Fraction(p)) * _log_factor(t if s > 0 else _neg(t))
        else:
            rest = rest * Sym(t) ** p
    if not rest.is_const():
        return out + _log_factor((Sym(c) * rest).z())
    if c < 0:
        raise Unsupported("log of a negative value")
    return out + _log_const(c)


def _log_const(c):
    """log of a positive rational as a combination of logs of primes."""
    out = Sym(Fraction(0))
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        q = 2
        while n > 1 and q < 2000:
            k = 0
            while n % q == 0:
                n //= q
                k += 1
            if k:
                out = out + Sym(Fraction(sg * k)) * _log_factor(rv(Fraction(q)))
            q += 1
        if n > 1:
            out = out + Sym(Fraction(sg)) * _log_factor(rv(Fraction(n)))
    return out


def sym_uf(name, x, fn):
    x = lift(x)
    c = ctx()
    t = z3.simplify(x.z(), som=True)
    key = (name, t.get_id())
    if key not in c.uf_of:
        s = c.derived(name, lambda ev, t=t: fn(ev(t)))
        c.keep.append(t)
        c.uf_of[key] = Sym(s)
    return c.uf_of[key]


# ---------------------------------------------------------------------------
class Ctx:
    """State of one symbolic execution (one path)."""

    def __init__(self, prefix=(), feas_ms=4000, stats=None):
        self.prefix = list(prefix)
        self.taken = []            # decisions actually made
        self.alts = []             # prefixes still to explore
        self.conds = []            # path condition
        self.assumptions = []
        self.hints = []            # only used when looking for models
        self.defs = []             # definitions of derived variables (facts)
        self.inputs = {}           # name -> z3 const (free inputs, in order)
        self.kinds = {}            # name -> kind
        self.derive = []           # (z3 const, numeric function of an evaluator)
        self.positive = set()      # ids of terms known to be > 0
        self.positive_if = {}
        self.signs = {}
        self.sqrt_of, self.sqrt_arg, self.log_of, self.uf_of = {}, {}, {}, {}
        self.log_arg = {}
        self.spd = []              # registered matrices
        self.splines = []
        self.opaque = {}
        self.dens = {}             # denominators seen
        self.folds = []            # (term, replacement)
        self.keep = []             # keeps z3 asts alive (ids are reused otherwise)
        self.feas_ms = feas_ms
        self.n_fresh = 0
        self.stats = stats if stats is not None else {"feas": 0, "solver_s": 0.0}
        from .poly import PolySpace
        self.pspace = PolySpace(limit=3000)

    # -- variables -------------------------------------------------------
    def fresh_name(self, base):
        self.n_fresh += 1
        return f"{base}!{self.n_fresh}"

    def derived(self, base, fn):
        v = z3.Real(self.fresh_name(base))
        self.derive.append((v, fn))
        return v

    def var(self, name, positive=False, integer=False):
        if name in self.inputs:
            raise ValueError(f"duplicate input {name}")
        if integer:
            iv = z3.Int(name)
            v = z3.ToReal(iv)
            self.inputs[name] = iv
            self.kinds[name] = "int"
        else:
            v = z3.Real(name)
            self.inputs[name] = v
            self.kinds[name] = "real"
        self.keep.append(v)
        if positive:
            self.positive.add(v.get_id())
            self.assumptions.append(v > 0)
        return Sym(v)

    def note_positive(self, x):
        """x is known to be positive on this path."""
        c, fs = factors(self.canon(x.n))
        if x.d is None and len(fs) == 1 and c > 0:
            (t, p), = fs.values()
            if p % 2:
                self.positive.add(t.get_id())
                self.keep.append(t)

    def add_def_eq(self, a, b):
        """Definition a == b (a fact)."""
        t = (a - b).n
        if not _is_c(t):
            self.defs.append(t == rv(Fraction(0)))

    def canon(self, t):
        """A canonical form of a polynomial term (used for keys and denominators)."""
        if _is_c(t) or not t.children():
            return t
        from .poly import TooBig
        try:
            p = self.pspace.of(t)
        except TooBig:
            return t
        if len(p) > 60:
            return t
        q = dict(sorted(p.items()))
        r = self.pspace.term(q)
        self.keep.append(r)
        return r

    def note_den(self, fs):
        for i, (t, p) in fs.items():
            if i not in self.dens:
                self.dens[i] = t
                self.keep.append(t)

    # -- solver ----------------------------------------------------------
    def facts(self):
        return self.assumptions + self.defs + self.conds

    def check(self, *extra, ms=None):
        import time
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", ms or self.feas_ms)
        s.add(*self.facts())
        s.add(*extra)
        r = s.check()
        self.stats["feas"] += 1
        self.stats["solver_s"] += time.time() - t0
        return r, s

    def sign_of(self, x):
        """+1 / -1 when the sign of x is known (syntactically or by the solver), else 0."""
        if x.is_const():
            return (x.n > 0) - (x.n < 0)
        s = 1
        c, fs = factors(x.n)
        if c < 0:
            s = -1
        if x.d:
            for i, (t, p) in x.d.items():
                fs[i] = (t, p + (fs[i][1] if i in fs else 0))
        for t, p in fs.values():
            if p % 2 == 0 and t.get_id() in self.dens:
                continue
            k = self._sign_atom(t)
            if k == 0:
                return 0
            if p % 2:
                s *= k
        return s

    def _sign_atom(self, t):
        i = t.get_id()
        if i in self.positive:
            return 1
        if i in self.positive_if:
            k = self._sign_atom(self.positive_if[i]) if not z3.is_rational_value(
                self.positive_if[i]) else 1
            return 1 if k > 0 else 0
        if i in self.signs:
            return self.signs[i]
        r = 0
        rel = [f for f in self.facts()]
        if rel:
            q, _ = self.check(t <= 0, ms=1500)
            if q == z3.unsat:
                r = 1
            elif q == z3.sat:
                q, _ = self.check(t >= 0, ms=1500)
                if q == z3.unsat:
                    r = -1
        if r:
            self.signs[i] = r
            self.keep.append(t)
        return r

    # -- forking ---------------------------------------------------------
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
            if d[0] != "b":
                raise Unsupported("non-deterministic re-execution")
            val = d[1]
        else:
            rt, _ = self.check(cond)
            rf, _ = self.check(z3.Not(cond))
            if rt == z3.unsat and rf == z3.unsat:
                raise Infeasible()
            if rt == z3.unsat:
                val = False
            elif rf == z3.unsat:
                val = True
            else:
                val = True
                self.alts.append(self.taken + [("b", False)])
        self.taken.append(("b", val))
        self.conds.append(cond if val else z3.Not(cond))
        return val

    def concretize(self, x):
        """Fork over the feasible integer values of x."""
        t = x.z()
        while True:
            k = len(self.taken)
            if k < len(self.prefix):
                d = self.prefix[k]
                if d[0] != "v":
                    raise Unsupported("non-deterministic re-execution")
                _, v, yes = d
            else:
                r, s = self.check(ms=20000)
                if r == z3.unsat:
                    raise Infeasible()
                if r != z3.sat:
                    raise Unsupported("cannot concretize (solver gave no model)")
                mv = s.model().eval(t, model_completion=True)
                if not z3.is_rational_value(mv):
                    raise Unsupported("cannot concretize a non-rational value")
                fr = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
                if fr.denominator != 1:
                    raise Unsupported("integer required")
                v, yes = int(fr), True
                r2, _ = self.check(t != v)
                if r2 != z3.unsat:
                    self.alts.append(self.taken + [("v", v, False)])
            self.taken.append(("v", v, yes))
            if yes:
                self.conds.append(t == v)
                return v
            self.conds.append(t != v)
            r, _ = self.check(ms=20000)
            if r == z3.unsat:
                raise Infeasible()


# ---------------------------------------------------------------------------
def evaluator(env):
    """Float evaluation of z3 terms; env maps ast ids of constants to floats."""
    memo = {}
    alive = []          # ast ids are reused once a term is freed

    def ev(t):
        if _is_c(t):
            return float(t)
        alive.append(t)
        stack = [t]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in memo:
                stack.pop()
                continue
            if i in env:
                memo[i] = env[i]
                stack.pop()
                continue
            if z3.is_rational_value(x):
                memo[i] = x.numerator_as_long() / x.denominator_as_long()
                stack.pop()
                continue
            if z3.is_int_value(x):
                memo[i] = float(x.as_long())
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            v = [memo[c.get_id()] for c in ch]
            memo[i] = _apply(x, v)
            stack.pop()
        return memo[t.get_id()]
    return ev


def _apply(x, v):
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        return math.fsum(v)
    if k == z3.Z3_OP_MUL:
        r = 1.0
        for a in v:
            r *= a
        return r
    if k == z3.Z3_OP_SUB:
        r = v[0]
        for a in v[1:]:
            r -= a
        return r
    if k == z3.Z3_OP_UMINUS:
        return -v[0]
    if k == z3.Z3_OP_DIV:
        return v[0] / v[1] if v[1] != 0 else math.nan
    if k == z3.Z3_OP_POWER:
        return v[0] ** v[1]
    if k == z3.Z3_OP_ITE:
        return v[1] if v[0] else v[2]
    if k == z3.Z3_OP_TO_REAL:
        return v[0]
    if k == z3.Z3_OP_TO_INT:
        return float(math.floor(v[0]))
    if k == z3.Z3_OP_LE:
        return v[0] <= v[1]
    if k == z3.Z3_OP_GE:
        return v[0] >= v[1]
    if k == z3.Z3_OP_LT:
        return v[0] < v[1]
    if k == z3.Z3_OP_GT:
        return v[0] > v[1]
    if k == z3.Z3_OP_EQ:
        return v[0] == v[1]
    if k == z3.Z3_OP_DISTINCT:
        return v[0] != v[1]
    if k == z3.Z3_OP_AND:
        return all(v)
    if k == z3.Z3_OP_OR:
        return any(v)
    if k == z3.Z3_OP_NOT:
        return not v[0]
    if k == z3.Z3_OP_TRUE:
        return True
    if k == z3.Z3_OP_FALSE:
        return False
    if k == z3.Z3_OP_IMPLIES:
        return (not v[0]) or v[1]
    raise Unsupported(f"evaluate {x.decl()}")


def diff(x, v):
    """d x / d v of a Sym (v: Sym that is a plain input variable), through sqrt and log."""
    vz = v.n
    out = _diff_explicit(x, vz)
    if CTX is None:
        return out
    for a in derived_atoms(x):
        i = a.get_id()
        if i in CTX.sqrt_arg:
            da = diff(Sym(CTX.sqrt_arg[i]), v)
            if not (da.is_const() and da.n == 0):
                out = out + _diff_explicit(x, a) * da / (Sym(a) * 2)
        elif i in CTX.log_arg:
            t = Sym(CTX.log_arg[i])
            da = diff(t, v)
            if not (da.is_const() and da.n == 0):
                out = out + _diff_explicit(x, a) * da / t
    return out


def at_zero(x, v):
    """x with the plain input variable v replaced by 0 (the denominators must not vanish)."""
    sub = [(v.n, rv(Fraction(0)))]

    def one(t):
        if isinstance(t, Fraction):
            return t
        t = z3.simplify(z3.substitute(t, *sub), som=True)
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        CTX.keep.append(t)
        return t
    out = Sym(one(x.n))
    for t, p in (x.d or {}).values():
        out = out / Sym(one(t)) ** p
    return out


def derived_atoms(x):
    seen, out = set(), []
    stack = [t for t in [x.n] + [t for t, _ in (x.d or {}).values()] if not _is_c(t)]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in CTX.sqrt_arg or i in CTX.log_arg:
            out.append(t)
        stack.extend(t.children())
    return out


def _diff_explicit(x, vz):
    memo = {}
    n = _diffz(x.n, vz, memo)
    if x.d is None:
        return Sym(n)
    out = Sym(n, x.d)
    for i, (t, p) in x.d.items():
        dt = _diffz(t, vz, memo)
        if _is_c(dt) and dt == 0:
            continue
        d = dict(x.d)
        d[i] = (t, p + 1)
        out = out - Sym(_mul(_mul(x.n, dt), Fraction(p)), d)
    return out


def _diffz(t, v, memo):
    if _is_c(t):
        return Fraction(0)
    stack = [t]
    zero, one = Fraction(0), Fraction(1)
    vid = v.get_id()
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in memo:
            stack.pop()
            continue
        if i == vid:
            memo[i] = one
            stack.pop()
            continue
        ch = x.children()
        if not ch:
            memo[i] = zero
            stack.pop()
            continue
        todo = [c for c in ch if c.get_id() not in memo]
        if todo:
            stack.extend(todo)
            continue
        dv = [memo[c.get_id()] for c in ch]
        k = x.decl().kind()
        if all(_is_c(a) and a == 0 for a in dv):
            r = zero
        elif k == z3.Z3_OP_ADD:
            r = zero
            for a in dv:
                r = _add(r, a)
        elif k == z3.Z3_OP_SUB:
            r = dv[0]
            for a in dv[1:]:
                r = _add(r, _neg(a))
        elif k == z3.Z3_OP_UMINUS:
            r = _neg(dv[0])
        elif k == z3.Z3_OP_MUL:
            r = zero
            for j, a in enumerate(dv):
                if _is_c(a) and a == 0:
                    continue
                p = a
                for l, c in enumerate(ch):
                    if l != j:
                        p = _mul(p, Fraction(c.numerator_as_long(), c.denominator_as_long())
                                 if z3.is_rational_value(c) else c)
                r = _add(r, p)
        else:
            raise Unsupported(f"derivative of {x.decl()}")
        memo[i] = r
        stack.pop()
    return memo[t.get_id()]
