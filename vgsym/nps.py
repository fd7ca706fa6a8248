"""numpy / scipy / numba / math stand-ins used while the real sources run symbolically.

Arrays are numpy object arrays (class SA) that hold Sym values; every function that has no
special treatment here is numpy's own, applied to the object array.  Linear algebra follows
the documented contracts (exact real arithmetic).
"""
import builtins
import math
import types
from fractions import Fraction

import numpy as _np

from . import sym as S
from .sym import Sym, SymBool, lift, Unsupported, sym_and, sym_or, sym_where, as_bool

ZERO, ONE = Sym(Fraction(0)), Sym(Fraction(1))
LinAlgError = _np.linalg.LinAlgError

_CMPS = {_np.less, _np.less_equal, _np.greater, _np.greater_equal, _np.equal, _np.not_equal}


# ---------------------------------------------------------------------------
class SA(_np.ndarray):
    """Object array of Sym values."""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        def base(x):
            if isinstance(x, SA):
                return x.view(_np.ndarray)
            if isinstance(x, _np.ndarray) and x.dtype.kind == "f":
                return tosym(x).view(_np.ndarray)
            if isinstance(x, float):
                return lift(x)
            return x
        out = kw.pop("out", None)
        where = kw.get("where", True)
        if where is not True:
            kw["where"] = _np.asarray(where, dtype=bool)
        ins = [base(x) for x in inputs]
        if out is not None:
            kw["out"] = tuple(o.view(_np.ndarray) if isinstance(o, SA) else o for o in out)
        kw.pop("dtype", None) if ufunc not in _CMPS else None
        if ufunc in _CMPS or ufunc in (_np.logical_and, _np.logical_or, _np.logical_not,
                                       _np.logical_xor):
            if method == "__call__":
                if ufunc is _np.logical_and:
                    return elementwise(lambda a, b: sym_and(a, b), *ins)
                if ufunc is _np.logical_or:
                    return elementwise(lambda a, b: sym_or(a, b), *ins)
                if ufunc is _np.logical_not:
                    return elementwise(lambda a: ~as_bool(a), *ins)
                kw["dtype"] = object
        if ufunc in (_np.maximum, _np.minimum, _np.fmax, _np.fmin):
            f = S.sym_max if ufunc in (_np.maximum, _np.fmax) else S.sym_min
            if method == "__call__":
                r = elementwise(f, *ins)
                if out is not None:
                    out[0][...] = r
                    return out[0]
                return r
            if method == "reduce":
                return _reduce(f, ins[0], kw.get("axis", 0), kw.get("keepdims", False))
        if ufunc in (_np.isnan, _np.isinf):
            return _np.zeros(_np.shape(ins[0]), dtype=bool)
        if ufunc is _np.isfinite:
            return _np.ones(_np.shape(ins[0]), dtype=bool)
        if ufunc is _np.sign:
            return elementwise(_sign, *ins)
        if ufunc in (_np.floor, _np.ceil, _np.rint, _np.trunc) and method == "__call__":
            nm = ufunc.__name__
            return elementwise(lambda a: getattr(lift(a), nm)(), *ins)
        if ufunc is _np.power and method == "__call__":
            return elementwise(lambda a, b: lift(a) ** b, *ins)
        if ufunc in _UNARY and method == "__call__":
            g = _UNARY[ufunc]
            r = elementwise(lambda a: g(lift(a)), *ins)
            if out is not None:
                out[0][...] = r
                return out[0]
            return r
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            return out[0] if len(out) == 1 else out
        return wrap(r)

    def __getitem__(self, k):
        r = super().__getitem__(_idx(k))
        return r

    def __setitem__(self, k, v):
        super().__setitem__(_idx(k), tosym(v) if isinstance(v, (_np.ndarray, list, tuple)) else
                            (lift(v) if _isnum(v) else v))

    def astype(self, dtype, *a, **k):
        if is_float_dtype(dtype):
            return narrow(self.copy(), dtype)
        if dtype in (bool, _np.bool_):
            return elementwise(as_bool, self)
        if dtype in (int, _np.int64, _np.int32, "int"):
            out = _np.empty(self.shape, dtype=int)
            for i in _np.ndindex(*self.shape):
                out[i] = int(self.view(_np.ndarray)[i])
            return out
        raise Unsupported(f"astype {dtype}")

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(lambda a, b: sym_and(a, b), elementwise(as_bool, self), axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(lambda a, b: sym_or(a, b), elementwise(as_bool, self), axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(S.sym_max, self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(S.sym_min, self, axis, keepdims)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else _np.prod([self.shape[a] for a in _np.atleast_1d(axis)])
        return self.sum(axis=axis, **{q: w for q, w in k.items() if q == "keepdims"}) / int(n)

    def var(self, axis=None, ddof=0, **k):
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        n = self.size if axis is None else self.shape[axis]
        return (d * d).sum(axis=axis) / int(n - ddof)

    def std(self, axis=None, ddof=0, **k):
        return shim().sqrt(self.var(axis=axis, ddof=ddof))

    def round(self, decimals=0, out=None):
        raise Unsupported("round")

    def dot(self, o, out=None):
        r = wrap(_np.dot(_b(self), _b(tosym(o) if isinstance(o, _np.ndarray) else o)))
        if out is not None:
            out[...] = r
            return out
        return r

    def __float__(self):
        raise Unsupported("float() of a symbolic array")

    def item(self, *a):
        return self.view(_np.ndarray).item(*a)

    def __bool__(self):
        if self.size == 1:
            return bool(as_bool(self.view(_np.ndarray).ravel()[0]))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")


def _b(x):
    return x.view(_np.ndarray) if isinstance(x, SA) else x


def _isnum(v):
    return isinstance(v, (int, float, Fraction, _np.generic)) and not isinstance(v, (bool, _np.bool_))


def _idx(k):
    if isinstance(k, SA):
        if k.size and isinstance(k.view(_np.ndarray).ravel()[0], (SymBool, bool)):
            out = _np.empty(k.shape, dtype=bool)
            for i in _np.ndindex(*k.shape):
                out[i] = bool(k.view(_np.ndarray)[i])
            return out
        return k.astype(int)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, tuple):
        return tuple(_idx(x) for x in k)
    if isinstance(k, list):
        return [_idx(x) for x in k]
    if isinstance(k, slice):
        f = lambda v: v.__index__() if isinstance(v, Sym) else v
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def _sign(a):
    a = lift(a)
    return sym_where(a > 0, 1, sym_where(a < 0, -1, 0))


_UNARY = {_np.sqrt: S.sym_sqrt, _np.log: S.sym_log, _np.exp: lambda x: x.exp(),
          _np.sin: lambda x: x.sin(), _np.cos: lambda x: x.cos(), _np.tanh: lambda x: x.tanh(),
          _np.absolute: abs, _np.fabs: abs, _np.square: lambda x: x * x,
          _np.reciprocal: lambda x: x.recip(),
          _np.log2: lambda x: S.sym_log(x) / S.sym_log(2),
          _np.log10: lambda x: S.sym_log(x) / S.sym_log(10),
          _np.log1p: lambda x: S.sym_log(x + 1)}


_INEXACT = {_np.sqrt, _np.log, _np.exp, _np.sin, _np.cos, _np.tanh, _np.log2, _np.log10, _np.log1p}


def elementwise(f, *xs):
    arrs = [x if isinstance(x, _np.ndarray) else _scalar_arr(x) for x in xs]
    b = _np.broadcast(*[_b(a) for a in arrs]) if len(arrs) > 1 else None
    shape = b.shape if b is not None else arrs[0].shape
    bs = [_np.broadcast_to(_b(a), shape) for a in arrs]
    if shape == ():
        return f(*[a[()] for a in bs])
    out = _np.empty(shape, dtype=object)
    for i in _np.ndindex(*shape):
        out[i] = f(*[a[i] for a in bs])
    return out.view(SA)


def _scalar_arr(x):
    if isinstance(x, (list, tuple)):
        return tosym(x)
    a = _np.empty((), dtype=object)
    a[()] = x
    return a


def _reduce(f, a, axis, keepdims=False):
    a = _b(a)
    if isinstance(axis, tuple):
        for ax in sorted(axis, reverse=True):
            a = _b(_reduce(f, a, ax, keepdims))
        return wrap(a)
    if axis is None:
        vals = list(a.ravel())
        if not vals:
            if f is S.sym_max or f is S.sym_min:
                raise ValueError("zero-size array to reduction operation")
            return f()
        r = vals[0]
        for v in vals[1:]:
            r = f(r, v)
        return r
    m = _np.moveaxis(a, axis, 0)
    out = _np.empty(m.shape[1:], dtype=object)
    for i in _np.ndindex(*m.shape[1:]):
        r = m[(0,) + i]
        for k in range(1, m.shape[0]):
            r = f(r, m[(k,) + i])
        out[i] = r
    if keepdims:
        out = _np.expand_dims(out, axis)
    return wrap(out)


def wrap(r):
    """Result of a numpy function -> symbolic form."""
    if isinstance(r, _np.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                return r[()]
            return r if isinstance(r, SA) else r.view(SA)
        if r.dtype.kind == "f":
            return tosym(r)
        return r
    if isinstance(r, _np.floating):
        return lift(r)
    if isinstance(r, float):
        return lift(r)
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def tosym(x):
    """Float content -> SA (keeps int / bool arrays as they are)."""
    if isinstance(x, SA):
        return x
    if isinstance(x, (list, tuple)):
        x = _mk(x)
    if isinstance(x, _np.ndarray):
        if x.dtype.kind == "f":
            out = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(*x.shape):
                out[i] = lift(float(x[i]))
            return out.view(SA)
        if x.dtype == object:
            return x.view(SA)
    return x


def toflt(x):
    """Everything numeric -> SA of Sym."""
    x = tosym(x)
    if not isinstance(x, _np.ndarray):
        return lift(x)
    out = _np.empty(x.shape, dtype=object)
    bx = _b(x)
    for i in _np.ndindex(*x.shape):
        v = bx[i]
        out[i] = v if isinstance(v, Sym) else lift(v)
    return out.view(SA)


def _has_sym(x):
    if isinstance(x, (Sym, SymBool, float, _np.floating)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object or x.dtype.kind == "f"
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


def _mk(x):
    """np.array for nested content."""
    if isinstance(x, _np.ndarray):
        return x.copy()
    if not _has_sym(x):
        if isinstance(x, (set, dict)) or x is None or isinstance(x, str):
            return _np.array(x)
        return _np.array(x)

    def shape(v):
        if isinstance(v, _np.ndarray):
            return v.shape
        if isinstance(v, (list, tuple)):
            if not v:
                return (0,)
            s = [shape(w) for w in v]
            if any(w != s[0] for w in s):
                raise ValueError("setting an array element with a sequence. The requested array "
                                 "has an inhomogeneous shape")
            return (len(v),) + s[0]
        return ()
    sh = shape(x)
    out = _np.empty(sh, dtype=object)

    def put(v, pre):
        if isinstance(v, _np.ndarray):
            bv = _b(v)
            for i in _np.ndindex(*v.shape):
                out[pre + i] = _cv(bv[i])
        elif isinstance(v, (list, tuple)):
            for k, w in enumerate(v):
                put(w, pre + (k,))
        else:
            out[pre] = _cv(v)
    put(x, ())
    return out.view(SA)


def _cv(v):
    if isinstance(v, (Sym, SymBool)):
        return v
    return lift(v) if _isnum(v) else v


# ---------------------------------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Sym, builtins.float))

    def __subclasscheck__(cls, c):
        return issubclass(c, (Sym, builtins.float))

    def __eq__(cls, o):
        return cls is o or o is builtins.float or (isinstance(o, type) and o is _np.float64)

    def __hash__(cls):
        return hash(builtins.float)


class symfloat(metaclass=_FloatMeta):
    """Stands for the built-in float while the code runs symbolically."""

    def __new__(cls, x=0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, _np.ndarray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return symfloat(x.ravel()[0])
        if isinstance(x, str):
            t = x.strip().lower()
            if t in ("inf", "+inf", "infinity", "-inf", "nan"):
                return builtins.float(t)
            return Sym(Fraction(t))
        return lift(x)

    @staticmethod
    def fromhex(s):
        return lift(builtins.float.fromhex(s))


class npfloat(symfloat):
    def __new__(cls, x=0):
        if isinstance(x, (list, tuple, _np.ndarray)) and _np.ndim(x) > 0:
            return toflt(x)
        return symfloat(x)


class np_floating(metaclass=_FloatMeta):
    pass


class _NumberMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Sym, builtins.float, builtins.int, _np.number))


class np_number(metaclass=_NumberMeta):
    pass


_FLOATS = {"float", "float64", "double", "d", "f8", "longdouble", "float32", "f4", "f", "O", "object",
           "float16", "half", "single", "f2", "e", "<f8", ">f8", "=f8", "<f4", ">f4", "=f4", "<f2"}


def is_float_dtype(dt):
    if dt is None:
        return True
    if isinstance(dt, type) and (dt in (symfloat, npfloat) or dt in (
            builtins.float, object, _np.float64, _np.float32, _np.float16, _np.longdouble)):
        return True
    if isinstance(dt, str):
        return dt in _FLOATS
    if isinstance(dt, _np.dtype):
        return dt.kind in "fO"
    if dt is np_floating:
        return True
    return False


def narrow(x, dt):
    """Values stored with less than double precision are near to the given ones, not the same."""
    if dt is None or dt in (symfloat, npfloat, object, "O", "object", np_floating):
        return x
    try:
        dt = _np.dtype(dt)
    except TypeError:
        return x
    if dt.kind != "f" or dt.itemsize >= 8:
        return x
    rel = Fraction(1, 2 ** (24 if dt.itemsize == 4 else 11))
    tiny = Fraction(1, 2 ** (140 if dt.itemsize == 4 else 24))

    def one(v):
        v = lift(v)
        if v.is_const():
            return Sym(Fraction(float(dt.type(float(v.n)))))
        c, z = S.ctx(), v.z()
        r = c.derived("stored", lambda ev, z=z: float(dt.type(ev(z))))
        a = S.z3.If(z >= 0, z, -z) * S.rv(rel) + S.rv(tiny)
        c.defs += [r - z <= a, z - r <= a]
        return Sym(r)
    if isinstance(x, _np.ndarray):
        out = _np.empty(x.shape, dtype=object)
        for i in _np.ndindex(*x.shape):
            out[i] = one(_b(x)[i])
        return out.view(SA)
    return one(x)


def _real_dtype(dt):
    """dtype arguments that are not floating: the numpy one."""
    if dt is bool or dt is _np.bool_:
        return bool
    return dt


def _filled(shape, v):
    if isinstance(shape, (tuple, list)):
        shape = tuple(_idx(s) for s in shape)
    else:
        shape = _idx(shape)
    a = _np.empty(shape, dtype=object)
    a.fill(v)
    return a.view(SA)


class Shim(types.ModuleType):
    """Module whose missing attributes come from the real module, wrapped."""

    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        over = self._over
        if name in over:
            return over[name]
        if name.startswith("__"):
            raise AttributeError(name)
        c = self._cache
        if name in c:
            return c[name]
        r = getattr(self._real, name)
        if isinstance(r, types.ModuleType):
            raise Unsupported(f"{self.__name__}.{name}")
        if isinstance(r, type):
            v = r
        elif callable(r):
            v = _wrapped(r)
        else:
            v = r
        c[name] = v
        return v


class _Fn:
    """A numpy function (or ufunc) applied to symbolic arrays."""

    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, "__name__", "fn")

    def __call__(self, *a, **k):
        f = self.f
        a = [_arg(x) for x in a]
        k = {q: _arg(v) for q, v in k.items()}
        if "dtype" in k and is_float_dtype(k["dtype"]):
            k.pop("dtype")
        if isinstance(f, _np.ufunc):
            # go through SA so that the symbolic rules apply
            if f in _INEXACT and len(a) == 1 and not isinstance(a[0], (Sym, SA)):
                # whole numbers: the same value as for their floating point form
                x = _np.asarray(a[0])
                if x.dtype.kind in "iub":
                    y = elementwise(lambda v: _UNARY[f](lift(int(v))), x)
                    return wrap(y)
            if any(isinstance(x, (Sym, SymBool)) for x in a) and not any(
                    isinstance(x, SA) for x in a):
                a2 = [_scalar_sa(x) if isinstance(x, (Sym, SymBool)) else x for x in a]
                return wrap(f(*a2, **k))
            return wrap(f(*a, **k))
        return wrap(f(*a, **k))

    def __getattr__(self, n):
        if n in ("outer", "reduce", "accumulate", "at"):
            g = getattr(self.f, n)
            return lambda *a, **k: wrap(g(*[_arg(x) for x in a], **k))
        raise AttributeError(n)


def _scalar_sa(x):
    a = _np.empty((), dtype=object)
    a[()] = x
    return a.view(SA)


def _arg(x):
    if isinstance(x, _np.ndarray) and x.dtype.kind == "f":
        return tosym(x)
    if isinstance(x, float):
        return lift(x)
    if isinstance(x, list) and _has_sym(x) and not any(isinstance(v, _np.ndarray) for v in x):
        return _mk(x)
    if isinstance(x, tuple) and x and _has_sym(x) and all(
            isinstance(v, (Sym, float)) for v in x):
        return _mk(x)
    return x


def _wrapped(f):
    return _Fn(f)


# ---------------------------------------------------------------------------
# numpy functions
def np_array(x, dtype=None, copy=True, order=None, ndmin=0, **k):
    if dtype is not None and not is_float_dtype(dtype):
        if isinstance(x, SA):
            return x.astype(dtype)
        if _has_sym(x):
            return _mk(x).astype(dtype)
        return _np.array(x, dtype=_real_dtype(dtype), ndmin=ndmin)
    if isinstance(x, _np.ndarray):
        r = toflt(x) if dtype is not None else (x.copy() if x.dtype != object else x.copy().view(SA))
        if r is x:
            r = x.copy()
        r = tosym(r)
    elif isinstance(x, (Sym, SymBool)):
        r = _scalar_sa(x)
    elif isinstance(x, builtins.float):
        r = _scalar_sa(lift(x))
    else:
        if hasattr(x, "__iter__") and not isinstance(x, (list, tuple, str, dict)):
            x = list(x)
        r = _mk(x)
        if dtype is not None:
            r = toflt(r)
            if isinstance(r, Sym):
                r = _scalar_sa(r)
    while isinstance(r, _np.ndarray) and r.ndim < ndmin:
        r = r[None]
    return narrow(r, dtype)


def np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, SA) and is_float_dtype(dtype):
        return narrow(x, dtype)
    if isinstance(x, _np.ndarray) and x.dtype.kind != "f" and (dtype is None):
        return x if x.dtype != object else x.view(SA)
    return np_array(x, dtype=dtype)


def np_zeros(shape, dtype=None, order=None, **k):
    return _filled(shape, ZERO) if is_float_dtype(dtype) else _np.zeros(shape, _real_dtype(dtype))


def np_ones(shape, dtype=None, order=None, **k):
    return _filled(shape, ONE) if is_float_dtype(dtype) else _np.ones(shape, _real_dtype(dtype))


class _Garbage:
    pass


def np_empty(shape, dtype=None, order=None, **k):
    if not is_float_dtype(dtype):
        return _np.empty(shape, _real_dtype(dtype))
    a = _filled(shape, ZERO)
    b = _b(a)
    c = S.ctx()
    for i in _np.ndindex(*b.shape):
        b[i] = Sym(c.derived("uninit", lambda ev: math.nan))
    return a


def np_full(shape, v, dtype=None, **k):
    if dtype is None and isinstance(v, (builtins.int, builtins.bool)):
        return _np.full(shape, v)
    if not is_float_dtype(dtype):
        return _np.full(shape, v, _real_dtype(dtype))
    if isinstance(v, _np.ndarray):
        a = _filled(shape, ZERO)
        a[...] = v
        return a
    return _filled(shape, lift(v))


def np_zeros_like(x, dtype=None, **k):
    x = np_asarray(x)
    if dtype is None and x.dtype.kind in "iub":
        return _np.zeros_like(x)
    return np_zeros(k.get("shape") or x.shape, dtype)


def np_ones_like(x, dtype=None, **k):
    x = np_asarray(x)
    if dtype is None and x.dtype.kind in "iub":
        return _np.ones_like(x)
    return np_ones(x.shape, dtype)


def np_empty_like(x, dtype=None, **k):
    x = np_asarray(x)
    if dtype is None and x.dtype.kind in "iub":
        return _np.empty_like(x)
    return np_empty(x.shape, dtype)


def np_full_like(x, v, dtype=None, **k):
    x = np_asarray(x)
    return np_full(x.shape, v, dtype if dtype is not None else (
        int if x.dtype.kind in "iu" else float))


def np_eye(n, m=None, k=0, dtype=None, **kw):
    n = _idx(n)
    if not is_float_dtype(dtype):
        return _np.eye(n, m, k, _real_dtype(dtype))
    r = _np.eye(n, m, k)
    return tosym(r)


def np_arange(*a, dtype=None, **k):
    start, step = 0, 1
    if "start" in k:
        start = k["start"]
    if "step" in k:
        step = k["step"]
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    elif len(a) == 3:
        start, stop, step = a
    else:
        stop = k["stop"]
    if all(isinstance(v, (builtins.int, _np.integer)) for v in (start, stop, step)):
        r = _np.arange(start, stop, step)
        return r if dtype is None or not is_float_dtype(dtype) else toflt(r)
    start, stop, step = lift(start), lift(stop), lift(step)
    n = ((stop - start) / step).ceil().__index__()
    n = max(n, 0)
    out = _np.empty(n, dtype=object)
    for i in range(n):
        out[i] = start + step * i
    r = out.view(SA)
    return r if is_float_dtype(dtype) else r.astype(dtype)


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = _idx(num)
    div = num - 1 if endpoint else num
    vals = []
    start, stop = lift(start), lift(stop)
    step = (stop - start) / div if div else ZERO
    for i in range(num):
        vals.append(stop if (endpoint and i == num - 1 and num > 1) else start + step * i)
    r = _mk(vals) if vals else _filled(0, ZERO)
    if not is_float_dtype(dtype):
        # numpy floors before converting to an integer type
        out = _np.empty(num, dtype=int)
        for i in range(num):
            out[i] = lift(vals[i]).floor().__index__()
        r = out
    return (r, step) if retstep else r


def _close(a, b, rtol, atol):
    a, b = lift(a), lift(b)
    d = a - b
    if d.is_const() and b.is_const():
        return SymBool(abs(d.n) <= lift(atol).n + lift(rtol).n * abs(b.n))
    tol = lift(atol) + lift(rtol) * abs(b)
    return sym_and(d <= tol, -tol <= d)


def np_isclose(a, b, rtol="1e-05", atol="1e-08", equal_nan=False):
    rtol = Sym(Fraction(rtol)) if isinstance(rtol, str) else lift(rtol)
    atol = Sym(Fraction(atol)) if isinstance(atol, str) else lift(atol)
    return elementwise(lambda x, y: _close(x, y, rtol, atol), a, b)


def np_allclose(a, b, rtol="1e-05", atol="1e-08", equal_nan=False):
    r = np_isclose(a, b, rtol, atol)
    return r.all() if isinstance(r, SA) else r


def np_array_equal(a, b, equal_nan=False):
    a, b = np_asarray(a), np_asarray(b)
    if a.shape != b.shape:
        return False
    r = elementwise(lambda x, y: lift(x) == lift(y), a, b)
    return r.all() if isinstance(r, SA) else r


def np_any(x, axis=None, **k):
    x = np_asarray(x)
    if x.dtype == object:
        return x.view(SA).any(axis=axis)
    return _np.any(x, axis=axis)


def np_all(x, axis=None, **k):
    x = np_asarray(x)
    if x.dtype == object:
        return x.view(SA).all(axis=axis)
    return _np.all(x, axis=axis)


def np_maximum(a, b, **k):
    return elementwise(S.sym_max, a, b)


def np_minimum(a, b, **k):
    return elementwise(S.sym_min, a, b)


def np_max(x, axis=None, **k):
    x = np_asarray(x)
    return x.max(axis=axis, **k)


def np_min(x, axis=None, **k):
    x = np_asarray(x)
    return x.min(axis=axis, **k)


def np_clip(x, lo=None, hi=None, **k):
    lo = k.get("min", lo)
    hi = k.get("max", hi)
    if lo is not None:
        x = np_maximum(x, lo)
    if hi is not None:
        x = np_minimum(x, hi)
    return x


def np_where(c, a=None, b=None):
    if a is None:
        c = np_asarray(c)
        if c.dtype == object:
            c = c.astype(bool)
            out = _np.empty(c.shape, dtype=bool)
            for i in _np.ndindex(*c.shape):
                out[i] = bool(_b(c)[i])
            c = out
        return _np.where(c)
    cc = np_asarray(c)
    if cc.dtype.kind in "b" and cc.ndim and not _has_sym(a) and not _has_sym(b):
        return _np.where(cc, a, b)
    return elementwise(lambda q, x, y: sym_where(q, x, y), c, a, b)


def np_isscalar(x):
    return isinstance(x, (Sym, SymBool)) or _np.isscalar(x)


def np_sum(x, axis=None, **k):
    x = np_asarray(x) if not isinstance(x, types.GeneratorType) else np_asarray(list(x))
    k.pop("dtype", None)
    return wrap(_np.sum(x, axis=axis, **k))


def np_mean(x, axis=None, **k):
    x = np_asarray(x)
    return toflt(x).mean(axis=axis, **k) if isinstance(toflt(x), SA) else x


def np_copy(x, *a, **k):
    return np_array(x)


def np_append(a, v, axis=None):
    a, v = np_asarray(a), np_asarray(v)
    return wrap(_np.append(a, v, axis=axis))


def np_floorlike(nm):
    def f(x, *a, **k):
        if isinstance(x, _np.ndarray):
            return elementwise(lambda v: getattr(lift(v), nm)(), x)
        return getattr(lift(x), nm)()
    return f


def np_isfinite(x):
    return _np.ones(_np.shape(x), dtype=bool)[()]


def np_isnan(x):
    return _np.zeros(_np.shape(x), dtype=bool)[()]


def np_trapezoid(y, x=None, dx=1, axis=-1):
    y = toflt(np_asarray(y))
    if axis < 0:
        axis += y.ndim
    n = y.shape[axis]
    m = _np.moveaxis(_b(y), axis, 0)
    if x is None:
        dxs = [lift(dx)] * (n - 1)
    else:
        x = toflt(np_asarray(x))
        dxs = [x[i + 1] - x[i] for i in range(n - 1)]
    if n == 0:
        raise Unsupported("trapezoid of nothing")
    tot = _filled(m.shape[1:], ZERO) if m.ndim > 1 else ZERO
    for i in range(n - 1):
        a, b = m[i], m[i + 1]
        if m.ndim > 1:
            a, b = a.view(SA), b.view(SA)
        tot = tot + (a + b) * dxs[i] / 2
    return tot


def np_einsum(spec, *ops, **k):
    k.pop("optimize", None)
    ops = [toflt(np_asarray(o)) for o in ops]
    ops = [_b(o) if isinstance(o, _np.ndarray) else _b(_scalar_sa(o)) for o in ops]
    return wrap(_np.einsum(spec, *ops))


def np_sorted_guard(x):
    raise Unsupported("sorting symbolic values")


def np_vdot(a, b):
    return np_asarray(a).ravel().dot(np_asarray(b).ravel())


def np_square(x):
    return x * x if isinstance(x, (Sym, SA)) else wrap(_np.square(x))


def np_apply_along_axis(f, axis, arr, *a, **k):
    arr = _b(np_asarray(arr))
    m = _np.moveaxis(arr, axis, -1)
    out = None
    for i in _np.ndindex(*m.shape[:-1]):
        r = f(m[i].view(SA), *a, **k)
        if out is None:
            out = _np.empty(m.shape[:-1] + _np.shape(r), dtype=object)
        out[i] = r
    if out.ndim == arr.ndim:
        out = _np.moveaxis(out, -1, axis)
    return out.view(SA)


class _Finfo:
    def __init__(self, *a):
        e = Fraction(1, 2 ** 52)
        self.eps = Sym(e)
        self.resolution = Sym(Fraction(1, 10 ** 15))
        self.tiny = self.smallest_normal = Sym(Fraction(1, 2 ** 1022))
        self.max = Sym(Fraction((2 ** 53 - 1) * 2 ** 971))
        self.min = -self.max


class _NpOver(dict):
    def __contains__(self, k):
        return dict.__contains__(self, k) or k == "pi" or k == "e"

    def __getitem__(self, k):
        if k == "pi":
            return pi()
        return dict.__getitem__(self, k)


def pi():
    c = S.ctx()
    v = getattr(c, "pi_var", None)
    if v is None:
        z = c.derived("pi", lambda ev: math.pi)
        c.defs.append(S.z3.And(z > S.rv(Fraction("3.14159265358")), z < S.rv(Fraction("3.14159265359"))))
        c.positive.add(z.get_id())
        v = c.pi_var = Sym(z)
    return v


# ---------------------------------------------------------------------------
# linear algebra
def _is0(x):
    return isinstance(x, Sym) and x.is_const() and x.n == 0


def zero(x):
    """x == 0 as a polynomial identity."""
    x = lift(x)
    if x.is_const():
        return x.n == 0
    n = x.n
    if isinstance(n, Fraction):
        return n == 0
    from .poly import TooBig
    try:
        return not S.ctx().pspace.of(n)
    except TooBig:
        return False


def _ratio(c0, s00, m00):
    """The monomial m00 / s00, or None."""
    from .poly import TooBig
    m00, s00 = lift(m00), lift(s00)
    if m00.is_const() or s00.is_const():
        if m00.is_const() and s00.is_const() and s00.n != 0 and m00.n != 0:
            return m00 / s00
        return None
    try:
        pm, ps = c0.pspace.of(m00.n), c0.pspace.of(s00.n)
    except TooBig:
        return None
    if isinstance(m00.n, Fraction):
        return None
    q = c0.pspace.monomial_quotient(pm, ps)
    if not q or s00.d:
        return None
    c = Sym(c0.pspace.term(q), m00.d)
    if S.z3.is_rational_value(c.n):
        c = Sym(Fraction(c.n.numerator_as_long(), c.n.denominator_as_long()), m00.d)
    return c


def match_spd(M):
    """(record, c) with M = c * record.S, or None."""
    c0 = S.ctx()
    d = M.shape[0]
    B = _b(M)
    for rec in c0.spd:
        if rec.d != d:
            continue
        c = _ratio(c0, rec.S[0, 0], B[0, 0])
        if c is None:
            continue
        ok = True
        for i in range(d):
            for j in range(d):
                if not zero(lift(B[i, j]) - c * rec.S[i, j]):
                    ok = False
                    break
            if not ok:
                break
        if ok:
            return rec, c
    return None


def _tri(M, lower):
    d = M.shape[0]
    B = _b(M)
    for i in range(d):
        for j in range(d):
            if (j > i if lower else j < i) and not _is0(B[i, j]):
                return False
    return True


def _matmul(a, b):
    return wrap(_np.dot(_b(a), _b(b)))


def match_tri(M):
    """Inverse of a registered triangular factor (scaled), or None."""
    c0 = S.ctx()
    for rec in c0.spd:
        if rec.d != M.shape[0]:
            continue
        for T, Ti in ((rec.L, rec.W), (rec.L.T, rec.W.T), (rec.W, rec.L), (rec.W.T, rec.L.T)):
            t00, m00 = T[0, 0], _b(M)[0, 0]
            if not isinstance(m00, Sym):
                continue
            c = m00 / t00
            if c.d and any(t.get_id() == _uid(t00) for t, _ in c.d.values()):
                continue
            B = _b(M)
            if all(zero(lift(B[i, j]) - c * T[i, j]) for i in range(rec.d) for j in range(rec.d)):
                return Ti * (ONE / c)
    return None


def _uid(x):
    return x.n.get_id() if not isinstance(x.n, Fraction) else -1


def _require_square(a):
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise LinAlgError("Last 2 dimensions of the array must be square")


def _stack(f):
    """Applies a matrix function over leading dimensions."""
    def g(a, *r, **k):
        a = toflt(np_asarray(a))
        if not isinstance(a, _np.ndarray):
            raise LinAlgError("0-dimensional array given. Array must be at least two-dimensional")
        if a.ndim > 2:
            outs = [g(a[i], *r, **k) for i in range(a.shape[0])]
            return _mk(outs)
        _require_square(a)
        return f(a, *r, **k)
    return g


def _chol_lower(M):
    d = M.shape[0]
    hit = match_spd(M)
    if hit is not None:
        rec, c = hit
        if not bool(c > 0):
            raise LinAlgError("Matrix is not positive definite")
        if c.is_const() and c.n == 1:
            return rec.L.copy()
        return rec.L * S.sym_sqrt(c)
    B = _b(M)
    diag = all(_is0(B[i, j]) for i in range(d) for j in range(d) if i != j)
    L = _filled((d, d), ZERO)
    LB = _b(L)
    if not diag and d > 4:
        raise Unsupported("cholesky of an unknown matrix")
    for j in range(d):
        p = lift(B[j, j])
        for k in range(j):
            p = p - LB[j, k] * LB[j, k]
        if not bool(p > 0):
            raise LinAlgError("Matrix is not positive definite")
        if p.is_const() is False:
            S.ctx().note_positive(p)
        LB[j, j] = S.sym_sqrt(p)
        for i in range(j + 1, d):
            v = lift(B[i, j])
            if diag:
                continue
            for k in range(j):
                v = v - LB[i, k] * LB[j, k]
            LB[i, j] = v / LB[j, j]
    return L


la_cholesky = _stack(lambda M, upper=False: _chol_lower(M).T if upper else _chol_lower(M))


def scipy_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    a = toflt(np_asarray(a))
    if not isinstance(a, _np.ndarray) or a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise ValueError("expected square matrix")
    # scipy reads the triangle it returns
    if lower:
        return _chol_lower(a)
    return _chol_lower(a.T).T


def _solve(A, Bm):
    d = A.shape[0]
    Bm = toflt(np_asarray(Bm))
    hit = match_spd(A)
    if hit is not None:
        rec, c = hit
        return _matmul(rec.W.T, _matmul(rec.W, Bm)) * (ONE / c)
    if _tri(A, True) or _tri(A, False):
        Ti = match_tri(A) if d > 1 else None
        if Ti is not None:
            return _matmul(Ti, Bm)
        lower = _tri(A, True)
        vec = Bm.ndim == 1
        X = _np.array(_b(Bm), dtype=object, copy=True)
        if vec:
            X = X[:, None]
        AB = _b(A)
        rows = range(d) if lower else range(d - 1, -1, -1)
        for i in rows:
            r = X[i].copy()
            for j in (range(i) if lower else range(i + 1, d)):
                if not _is0(AB[i, j]):
                    r = r - AB[i, j] * X[j]
            X[i] = [lift(v) / AB[i, i] for v in r]
        return (X[:, 0] if vec else X).view(SA)
    if d <= 4:
        det = la_det(A)
        adj = _filled((d, d), ZERO)
        for i in range(d):
            for j in range(d):
                minor = _np.delete(_np.delete(_b(A), i, 0), j, 1)
                v = la_det(minor.view(SA)) if d > 1 else ONE
                adj[j, i] = v if (i + j) % 2 == 0 else -v
        if bool(det == 0):
            raise LinAlgError("Singular matrix")
        return _matmul(adj, Bm) * (ONE / det)
    raise Unsupported("solve with an unknown matrix")


def la_solve(a, b):
    a = toflt(np_asarray(a))
    b = toflt(np_asarray(b))
    if a.ndim > 2:
        return _mk([la_solve(a[i], b[i]) for i in range(a.shape[0])])
    _require_square(a)
    if b.shape[0] != a.shape[0]:
        raise ValueError("solve: Input operand 1 has a mismatch in its core dimension")
    return _solve(a, b)


la_inv = _stack(lambda a: _solve(a, np_eye(a.shape[0])))


def scipy_solve(a, b, **k):
    a = np_asarray(a)
    if isinstance(a, Sym) or a.ndim == 0:
        return np_asarray(b) / a
    return la_solve(a, b)


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    a = toflt(np_asarray(a))
    d = a.shape[0]
    t = _filled((d, d), ZERO)
    for i in range(d):
        for j in range(d):
            if (j <= i) if lower else (j >= i):
                t[i, j] = ONE if (unit_diagonal and i == j) else a[i, j]
    if trans in (1, "T", 2, "C"):
        t = t.T
    return la_solve(t, b)


def cho_factor(a, lower=False, **k):
    return scipy_cholesky(a, lower), lower


def cho_solve(cb, b, **k):
    c, lower = cb
    if lower:
        return solve_triangular(c, solve_triangular(c, b, lower=True), trans=1, lower=True)
    return solve_triangular(c, solve_triangular(c, b, trans=1), lower=False)


def _det(M):
    d = M.shape[0]
    B = _b(M)
    if d == 0:
        return ONE
    if d == 1:
        return lift(B[0, 0])
    hit = match_spd(M) if d > 1 else None
    if hit is not None:
        rec, c = hit
        r = c ** d
        for i in range(d):
            r = r * rec.L[i, i] * rec.L[i, i]
        return r
    if _tri(M, True) or _tri(M, False):
        r = ONE
        for i in range(d):
            r = r * B[i, i]
        return r
    if d > 5:
        raise Unsupported("determinant of an unknown matrix")
    r = ZERO
    for j in range(d):
        if _is0(B[0, j]):
            continue
        m = _np.delete(B[1:], j, 1)
        v = lift(B[0, j]) * _det(m)
        r = r + v if j % 2 == 0 else r - v
    return r


la_det = _stack(_det)


def la_slogdet(a):
    d = la_det(a)
    if isinstance(d, _np.ndarray):
        return elementwise(_sign, d), elementwise(lambda v: S.sym_log(abs(v)), d)
    return _sign(d), S.sym_log(abs(d))


def _components(B, d):
    """Index sets of the diagonal blocks of a symmetric matrix (up to a permutation)."""
    left, out = list(range(d)), []
    while left:
        comp = [left.pop(0)]
        for i in comp:
            for j in [j for j in left if not (_is0(B[i, j]) and _is0(B[j, i]))]:
                left.remove(j)
                comp.append(j)
        out.append(sorted(comp))
    return out


def _eigvals(M):
    d = M.shape[0]
    c0 = S.ctx()
    B = _b(M)
    if _tri(M, True) or _tri(M, False):
        return _mk([lift(B[i, i]) for i in range(d)])
    comps = _components(B, d)
    if len(comps) > 1:
        out = []
        for ix in comps:
            out += list(_eigvals(_mk([[B[i, j] for j in ix] for i in ix])))
        return _mk(out)
    if d > 3 and match_spd(M) is None:
        raise Unsupported("eigenvalues of an unknown matrix")
    if any(not zero(lift(B[i, j]) - B[j, i]) for i in range(d) for j in range(i)):
        # non-symmetric: the spectrum may be complex
        raise Unsupported("eigenvalues of a non-symmetric matrix")
    hit = match_spd(M)
    def numeric(k):
        ent = [[lift(B[i, j]).z() for j in range(d)] for i in range(d)]
        def f(ev):
            a = _np.array([[ev(t) for t in r] for r in ent], dtype=builtins.float)
            return builtins.float(_np.linalg.eigvalsh(a)[k])
        return f
    es = [Sym(c0.derived("eig", numeric(k))) for k in range(d)]
    for k in range(d - 1):
        c0.defs.append(es[k].n <= es[k + 1].n)
    if hit is not None:
        rec, c = hit
        sg = c0.sign_of(c)
        if sg > 0:
            for e in es:
                c0.defs.append(e.n > 0)
                c0.positive.add(e.n.get_id())
            return _mk(es)
        if d > 3:
            raise Unsupported("eigenvalues of an unknown matrix")
    tr = ZERO
    for i in range(d):
        tr = tr + B[i, i]
    c0.add_def_eq(sum(es[1:], es[0]), tr)
    pr = es[0]
    for e in es[1:]:
        pr = pr * e
    c0.add_def_eq(pr, _det(M))
    if d == 3:
        m2 = ZERO
        for i in range(3):
            for j in range(i + 1, 3):
                m2 = m2 + lift(B[i, i]) * B[j, j] - lift(B[i, j]) * B[j, i]
        c0.add_def_eq(es[0] * es[1] + es[0] * es[2] + es[1] * es[2], m2)
    return _mk(es)


la_eigvals = _stack(_eigvals)


def la_norm(x, ord=None, axis=None, keepdims=False):
    x = toflt(np_asarray(x))
    if not isinstance(x, _np.ndarray):
        return abs(x)
    if ord in (None, 2, "fro"):
        if ord == 2 and x.ndim == 2 and axis is None:
            raise Unsupported("spectral norm")
        if axis is None:
            v = x.ravel()
            return S.sym_sqrt(v.dot(v))
        return shim().sqrt((x * x).sum(axis=axis, keepdims=keepdims))
    if ord == 1 and x.ndim == 1:
        return abs(x).sum()
    if ord in (builtins.float("inf"),) and x.ndim == 1:
        return abs(x).max()
    raise Unsupported("norm")


def la_matrix_power(a, n):
    r = np_eye(a.shape[0])
    if n < 0:
        a, n = la_inv(a), -n
    for _ in range(n):
        r = r.dot(a)
    return r


def la_multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r.dot(x)
    return r


_LINALG = {"cholesky": la_cholesky, "solve": la_solve, "inv": la_inv, "det": la_det,
           "slogdet": la_slogdet, "eigvals": la_eigvals, "eigvalsh": la_eigvals,
           "norm": la_norm, "LinAlgError": LinAlgError, "matrix_power": la_matrix_power,
           "multi_dot": la_multi_dot}


class _NoAttr:
    """Real module whose functions are outside the encoding."""

    def __init__(self, name):
        self._n = name

    def __getattr__(self, a):
        raise Unsupported(f"{self._n}.{a}")


linalg = Shim("numpy.linalg", _NoAttr("numpy.linalg"), _LINALG)

_SCIPY_LINALG = dict(_LINALG, cholesky=scipy_cholesky, solve=scipy_solve, cho_factor=cho_factor,
                     cho_solve=cho_solve, solve_triangular=solve_triangular)


def _block_diag(*ms):
    ms = [toflt(_np.atleast_2d(m)) for m in ms]
    n, k = sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)
    out = _filled((n, k), ZERO)
    i = j = 0
    for m in ms:
        out[i:i + m.shape[0], j:j + m.shape[1]] = m
        i, j = i + m.shape[0], j + m.shape[1]
    return out


_SCIPY_LINALG["block_diag"] = _block_diag
scipy_linalg = Shim("scipy.linalg", _NoAttr("scipy.linalg"), _SCIPY_LINALG)


# ---------------------------------------------------------------------------
class CubicSplineStub:
    """Cubic spline interpolation by its contract: it takes the given values at the knots, and
    is everywhere a fixed linear function of the values: s(t) = sum_j w_j(t; x) y_j, with
    unknown weights that depend on the knots, t and the boundary condition only and sum to 1
    (0 for derivatives)."""

    def __init__(self, x, y, axis=0, bc_type="not-a-knot", extrapolate=None):
        self.x = [lift(v) for v in list(_b(np_asarray(x)))]
        self.y = toflt(np_asarray(y))
        self.bc = bc_type
        if axis != 0:
            self.y = wrap(_np.moveaxis(_b(self.y), axis, 0))
        if len(self.x) != self.y.shape[0]:
            raise ValueError("The length of `y` along `axis`=0 doesn't match the length of `x`")
        for a, b in zip(self.x, self.x[1:]):
            if not bool(a < b):
                raise ValueError("`x` must be strictly increasing sequence.")

    def _weights(self, t, nu):
        c = S.ctx()
        zs = [S.z3.simplify(v.z(), som=True) for v in self.x] + [S.z3.simplify(t.z(), som=True)]
        key = ("spline", self.bc, nu) + tuple(z.get_id() for z in zs)
        if key not in c.uf_of:
            c.keep.extend(zs)
            n = len(self.x)
            bc = self.bc

            def num(k):
                def f(ev):
                    from scipy.interpolate import CubicSpline
                    xs = [ev(z) for z in zs[:-1]]
                    return builtins.float(CubicSpline(xs, _np.eye(n), bc_type=bc)(ev(zs[-1]), nu)[k])
                return f
            w = [Sym(c.derived("spline", num(k))) for k in range(n - 1)]
            w.append((ONE if nu == 0 else ZERO) - sum(w[1:], w[0]))
            c.uf_of[key] = w
        return c.uf_of[key]

    def _at(self, t, nu):
        t = lift(t)
        if nu == 0:
            for xv, yv in zip(self.x, self.y):
                if bool(t == xv):
                    return yv
        out = ZERO
        for wk, yk in zip(self._weights(t, nu), list(self.y)):
            out = out + yk * wk
        return out

    def __call__(self, t, nu=0, extrapolate=None):
        t = np_asarray(t)
        if t.ndim == 0:
            return self._at(t[()] if isinstance(t, _np.ndarray) else t, nu)
        return _mk([self._at(v, nu) for v in list(_b(t))])


# ---------------------------------------------------------------------------
class FakeRng:
    """Random generator stand-in.  The k-th value drawn from a generator with a given seed is a
    variable named by (seed, kind, k): equal seeds give equal streams."""

    def __init__(self, env, tag):
        self.env, self.tag, self.k = env, tag, 0

    def _draw(self, kind, size):
        if size is None:
            self.k += 1
            return self.env.draw(self.tag, kind, self.k)
        if not isinstance(size, (tuple, list)):
            size = (size,)
        size = tuple(int(s) for s in size)
        out = _np.empty(size, dtype=object)
        for i in _np.ndindex(*size):
            self.k += 1
            out[i] = self.env.draw(self.tag, kind, self.k)
        return self.env.arr(out)

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._draw("n", size)

    def normal(self, loc=0, scale=1, size=None):
        if size is None and _np.ndim(loc) + _np.ndim(scale) > 0:
            size = _np.broadcast(_np.asarray(loc, dtype=object), _np.asarray(scale, dtype=object)).shape
        return self._draw("n", size) * scale + loc

    def random(self, size=None, dtype=None, out=None):
        return self._draw("u", size)

    def uniform(self, low=0, high=1, size=None):
        return self._draw("u", size) * (high - low) + low

    def randn(self, *size):
        return self._draw("n", size or None)

    def rand(self, *size):
        return self._draw("u", size or None)

    def choice(self, a, size=None, **k):
        if size is not None or k:
            raise Unsupported("rng.choice")
        u = self._draw("u", None)
        n = len(a)
        r = a[n - 1]
        for i in range(n - 2, -1, -1):
            r = self.env.where(u * n < i + 1, a[i], r)
        return r

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"rng.{n}")


class FakeSeedSequence:
    def __init__(self, entropy=None, **k):
        self.entropy = entropy
        if k:
            raise Unsupported("SeedSequence arguments")


class RngEnv:
    """Draw registry shared by the generators of one run."""

    def __init__(self, draw, arr, where):
        self.draw, self.arr, self.where = draw, arr, where
        self.fresh = 0
        self.log = []

    def default_rng(self, seed=None):
        if isinstance(seed, FakeRng):
            return seed
        if isinstance(seed, FakeSeedSequence):
            seed = seed.entropy
        if seed is None:
            self.fresh += 1
            tag = f"os{self.fresh}"
        else:
            tag = f"s{seed}"
        g = FakeRng(self, tag)
        self.log.append(g)
        return g

    def module(self):
        m = types.ModuleType("numpy.random")
        m.default_rng = self.default_rng
        m.SeedSequence = FakeSeedSequence
        m.Generator = FakeRng
        m.RandomState = self.default_rng
        m.PCG64 = lambda seed=None: seed
        glob = self.default_rng(None)
        for n in ("standard_normal", "normal", "random", "uniform", "randn", "rand", "choice"):
            setattr(m, n, getattr(glob, n))

        def seed(s=None):
            g = self.default_rng(s)
            glob.tag, glob.k = g.tag, 0
        m.seed = seed
        return m


# ---------------------------------------------------------------------------
_NP = _NpOver({
    "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray,
    "ascontiguousarray": np_asarray, "zeros": np_zeros, "ones": np_ones, "empty": np_empty,
    "asfarray": np_asarray,
    "full": np_full, "zeros_like": np_zeros_like, "ones_like": np_ones_like,
    "empty_like": np_empty_like, "full_like": np_full_like, "eye": np_eye,
    "identity": np_eye, "arange": np_arange, "linspace": np_linspace, "isclose": np_isclose,
    "allclose": np_allclose, "array_equal": np_array_equal, "any": np_any, "all": np_all,
    "maximum": np_maximum, "minimum": np_minimum, "fmax": np_maximum, "fmin": np_minimum,
    "max": np_max, "min": np_min, "amax": np_max, "amin": np_min, "clip": np_clip,
    "where": np_where, "isscalar": np_isscalar, "sum": np_sum, "mean": np_mean, "copy": np_copy,
    "append": np_append, "floor": np_floorlike("floor"), "ceil": np_floorlike("ceil"),
    "rint": np_floorlike("rint"), "trunc": np_floorlike("trunc"), "isfinite": np_isfinite,
    "isnan": np_isnan, "isinf": np_isnan, "trapezoid": np_trapezoid, "trapz": np_trapezoid,
    "einsum": np_einsum, "vdot": np_vdot, "square": np_square, "sign": None,
    "apply_along_axis": np_apply_along_axis, "finfo": _Finfo, "linalg": linalg,
    "float64": npfloat, "float32": npfloat, "double": npfloat, "longdouble": npfloat,
    "float_": npfloat, "floating": np_floating, "number": np_number, "inexact": np_floating,
    "inf": builtins.float("inf"), "nan": builtins.float("nan"), "newaxis": None,
    "ndarray": _np.ndarray, "bool_": bool, "int64": _np.int64, "int32": _np.int32,
    "integer": _np.integer, "generic": np_number,
})


def _np_sign(x):
    return elementwise(_sign, x)


_NP["sign"] = _np_sign
_SHIM = None


def shim():
    global _SHIM
    if _SHIM is None:
        _SHIM = Shim("numpy", _np, _NP)
    return _SHIM


# -- math ---------------------------------------------------------------------
def _m1(f):
    return lambda x: f(lift(x))


class _MathOver(dict):
    def __contains__(self, k):
        return dict.__contains__(self, k) or k == "pi"

    def __getitem__(self, k):
        return pi() if k == "pi" else dict.__getitem__(self, k)


math_shim = Shim("math", math, _MathOver({
    "sqrt": _m1(S.sym_sqrt), "log": lambda x, b=None: S.sym_log(x) if b is None else
    S.sym_log(x) / S.sym_log(b), "exp": _m1(lambda x: x.exp()), "fabs": _m1(abs),
    "sin": _m1(lambda x: x.sin()), "cos": _m1(lambda x: x.cos()),
    "pow": lambda a, b: lift(a) ** b, "floor": lambda x: lift(x).floor().__index__(),
    "ceil": lambda x: lift(x).ceil().__index__(), "isnan": lambda x: False,
    "isinf": lambda x: False, "isfinite": lambda x: True,
    "isclose": lambda a, b, rel_tol="1e-09", abs_tol="0": sym_and(
        abs(lift(a) - lift(b)) <= S.sym_max(
            (Sym(Fraction(rel_tol)) if isinstance(rel_tol, str) else lift(rel_tol)) * S.sym_max(
                abs(lift(a)), abs(lift(b))),
            Sym(Fraction(abs_tol)) if isinstance(abs_tol, str) else lift(abs_tol))),
    "inf": builtins.float("inf"), "nan": builtins.float("nan"),
    "fsum": lambda xs: sum(list(xs), ZERO), "prod": lambda xs: _prod(xs),
}))


def _prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r
