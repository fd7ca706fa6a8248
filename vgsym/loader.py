"""Loads the sources of /repo either symbolically (AST-transformed, shims for numpy & co.) or
for real.  Nothing is cached on disk: every run reads /repo's current working tree."""
import ast
import builtins
import collections
import importlib
import math
import os
import sys
import types
from fractions import Fraction

import numpy as _np

from . import sym as S
from . import nps
from .sym import Sym, lift, Unsupported

REPO = os.environ.get("VG_REPO", "/repo")
sys.dont_write_bytecode = True


class _Tr(ast.NodeTransformer):
    """Float literals become exact constants, `/` between ints stays exact."""

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name("vg__c", ast.Load()),
                                              [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n          # messages: left alone

    def visit_MatchValue(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("vg__div", ast.Load()),
                                              [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name("vg__pow", ast.Load()),
                                              [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign(
                [ast.Name(n.target.id, ast.Store())],
                ast.Call(ast.Name("vg__idiv", ast.Load()),
                         [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n


def _vg_c(s):
    f = float(s)
    if math.isinf(f) or math.isnan(f):
        return f
    return Sym(Fraction(s))


def _isint(x):
    return isinstance(x, (int, _np.integer)) and not isinstance(x, bool)


def _vg_div(a, b):
    if _isint(a) and _isint(b):
        return Sym(Fraction(int(a))) / Sym(Fraction(int(b)))
    if isinstance(a, _np.ndarray) and a.dtype != object:
        a = nps.toflt(a)
    if isinstance(b, _np.ndarray) and b.dtype != object:
        b = nps.toflt(b)
    return a / b


def _vg_idiv(a, b):
    if isinstance(a, _np.ndarray):
        a[...] = _vg_div(a, b)
        return a
    return _vg_div(a, b)


def _vg_pow(a, b):
    if _isint(a) and _isint(b):
        return a ** b if b >= 0 else Sym(Fraction(int(a))) ** int(b)
    if isinstance(a, _np.ndarray) and isinstance(b, (Sym, float)):
        return nps.elementwise(lambda v: lift(v) ** b, a)
    return a ** b


class LoopCap:
    """range() of more than `limit` iterations is cut to `keep` (recorded)."""

    def __init__(self):
        self.limit, self.keep, self.cuts = 400, 2, []

    def range(self, *a):
        a = [x.__index__() if isinstance(x, Sym) else x for x in a]
        r = builtins.range(*a)
        if len(r) > self.limit:
            self.cuts.append(len(r))
            return r[:self.keep]
        return r


def _max(*a, **k):
    if k or (len(a) == 1 and isinstance(a[0], types.GeneratorType)):
        a = (list(a[0]),) if len(a) == 1 else a
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(isinstance(x, Sym) for x in xs):
        return builtins.max(xs, **k)
    r = xs[0]
    for x in xs[1:]:
        r = S.sym_max(r, x)
    return r


def _min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(isinstance(x, Sym) for x in xs):
        return builtins.min(xs, **k)
    r = xs[0]
    for x in xs[1:]:
        r = S.sym_min(r, x)
    return r


class ShimBase:
    """Modules seen by code under symbolic execution."""


def _njit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


def numba_module():
    m = types.ModuleType("numba")
    m.njit = m.jit = m.vectorize = m.guvectorize = _njit
    m.prange = range
    m.float64 = m.int64 = m.boolean = _njit
    return m


_CODE = {}


def compiled(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _CODE:
        with open(path) as f:
            src = f.read()
        tree = _Tr().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        _CODE[key] = compile(tree, path, "exec")
    return _CODE[key]


class SymWorld:
    """One symbolic instance of the repository's modules."""
    symbolic = True

    def __init__(self, rng_env, stubs=None):
        self.mods = {}
        self.cap = LoopCap()
        self.stubs = dict(stubs or {})
        self.rng = rng_env
        self.functions = set()
        self.np = nps.shim()
        rnd = rng_env.module()
        scipy = types.ModuleType("scipy")
        integ = types.ModuleType("scipy.integrate")
        integ.trapezoid = integ.trapz = nps.np_trapezoid
        interp = types.ModuleType("scipy.interpolate")
        interp.CubicSpline = nps.CubicSplineStub
        scipy.linalg, scipy.integrate, scipy.interpolate = nps.scipy_linalg, integ, interp
        self.ext = {"numpy": _WithRandom(self.np, rnd), "numpy.linalg": nps.linalg,
                    "numpy.random": rnd, "scipy": scipy, "scipy.linalg": nps.scipy_linalg,
                    "scipy.integrate": integ, "scipy.interpolate": interp,
                    "numba": numba_module(), "math": nps.math_shim}
        self.np = self.ext["numpy"]
        for k, v in self.stubs.items():
            self.ext[k] = v
        b = types.ModuleType("builtins")
        b.__dict__.update(builtins.__dict__)
        b.float = nps.symfloat
        b.range = self.cap.range
        b.max, b.min = _max, _min
        self.printed = None
        b.print = self._print
        b.abs = lambda x: abs(x)
        b.sum = lambda xs, start=0: builtins.sum(xs, start)
        b.__import__ = self._import
        self.builtins = b

    def _print(self, *a, sep=" ", end="\n", **k):
        if self.printed is not None:
            self.printed.append((sep or " ").join(map(str, a)) + ("\n" if end is None else end))

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - level + 1])
            name = f"{base}.{name}" if name else base
        if name in self.ext:
            if fromlist or "." not in name:
                return self.ext[name]
            root = self.ext[name.split(".")[0]]
            return root
        if name == "src" or name.startswith("src."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and os.path.exists(self._path(f"{name}.{f}")):
                        setattr(m, f, self.load(f"{name}.{f}"))
                return m
            return self.load("src")
        root = name.split(".")[0]
        if root in ("numpy", "scipy", "numba"):
            if "._" in name:        # numpy's C code imports its helpers with our builtins
                return builtins.__import__(name, globals, locals, fromlist, 0)
            raise Unsupported(f"import {name}")
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _path(self, name):
        p = os.path.join(REPO, *name.split("."))
        return os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"

    def script(self, name):
        """Runs a file as a program."""
        m = self._module("__main__", self._path(name))
        exec(compiled(self._path(name)), m.__dict__)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self._path(name)
        if not os.path.exists(path):
            raise ImportError(f"No module named {name!r}")
        m = self._module(name, path)
        self.mods[name] = m
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
            setattr(parent, name.rpartition(".")[2], m)
        try:
            exec(compiled(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return m

    def _module(self, name, path):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        m.__dict__["__builtins__"] = self.builtins.__dict__
        m.__dict__["vg__c"] = _vg_c
        m.__dict__["vg__div"] = _vg_div
        m.__dict__["vg__idiv"] = _vg_idiv
        m.__dict__["vg__pow"] = _vg_pow
        return m


class _WithRandom(types.ModuleType):
    """numpy shim plus this run's random module."""

    def __init__(self, base, rnd):
        super().__init__("numpy")
        self.__dict__["_base"] = base
        self.__dict__["random"] = rnd

    def __getattr__(self, n):
        return getattr(self.__dict__["_base"], n)


def _held(x):
    """Copy of a mutable container (one level), or None."""
    if isinstance(x, (dict, list, set, bytearray, collections.deque)):
        return x.copy()
    return None


def _refill(x, old):
    x.clear()
    x.update(old) if isinstance(x, (dict, set)) else x.extend(old)


class _State:
    """What a module keeps between calls: restored before each concrete run."""

    def __init__(self, m):
        self.m = m
        self.names = {k: v for k, v in m.__dict__.items() if not k.startswith("__")}
        self.held, self.arrays, self.caches, self.cls = [], [], [], []
        for k, v in self.names.items():
            self._note(m, k, v)
        for v in self.names.values():
            if isinstance(v, type) and v.__module__ == m.__name__:
                own = {k: x for k, x in vars(v).items() if not k.startswith("__")}
                self.cls.append((v, own))
                for k, x in own.items():
                    self._note(v, k, x)

    def _note(self, owner, k, v):
        o = _held(v)
        if o is not None:
            self.held.append((v, o))
        elif isinstance(v, _np.ndarray):
            self.arrays.append((v, v.copy()))
        f = getattr(v, "__func__", getattr(v, "fget", v))
        if hasattr(f, "cache_clear"):
            self.caches.append(f)
            f = getattr(f, "__wrapped__", f)
        f = getattr(f, "py_func", f)
        if isinstance(f, types.FunctionType):
            self.held.append((f.__dict__, dict(f.__dict__)))
            for x in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()):
                o = _held(x)
                if o is not None:
                    self.held.append((x, o))

    def restore(self):
        d = self.m.__dict__
        for k in [k for k in d if not k.startswith("__") and k not in self.names]:
            if not isinstance(d[k], types.ModuleType):
                del d[k]
        for k, v in self.names.items():
            if d.get(k) is not v:
                d[k] = v
        for c, own in self.cls:
            for k in [k for k in vars(c) if not k.startswith("__") and k not in own
                      and not k.startswith("_abc")]:
                delattr(c, k)
            for k, v in own.items():
                if not k.startswith("_abc") and vars(c).get(k) is not v:
                    setattr(c, k, v)
        for x, o in self.held:
            _refill(x, o)
        for a, o in self.arrays:
            a[...] = o
        for f in self.caches:
            f.cache_clear()


class RealWorld:
    """The real modules, freshly imported (optionally with a stand-in random generator)."""
    symbolic = False

    def __init__(self, rng_env=None, stubs=None):
        self.rng = rng_env
        self.stubs = dict(stubs or {})
        self.np = _np
        self.mods = {}
        self.states = {}

    def reset(self):
        for st in self.states.values():
            st.restore()

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        for k in [k for k in sys.modules if k == "src" or k.startswith("src.") or k == "vgpa_main"]:
            del sys.modules[k]
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        saved = {}
        rep = dict(self.stubs)
        rnd = _np.random
        old = {}
        if self.rng is not None:
            m = self.rng.module()
            for n in ("default_rng", "SeedSequence", "standard_normal", "normal", "random",
                      "uniform", "randn", "rand", "choice", "seed", "RandomState", "PCG64",
                      "Generator"):
                old[n] = getattr(rnd, n)
                setattr(rnd, n, getattr(m, n))
            self.undo = (rnd, old)
        for k, v in rep.items():
            saved[k] = sys.modules.get(k)
            sys.modules[k] = v
        try:
            sys.modules.update({k: v for k, v in self.mods.items()})
            m = importlib.import_module(name)
        finally:
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
            if name == "src" or True:
                for k, v in list(sys.modules.items()):
                    if k == "src" or k.startswith("src.") or k == "vgpa_main":
                        self.mods[k] = v
                        if k not in self.states:
                            self.states[k] = _State(v)
        return m

    def script(self, name):
        """Runs a file as a program."""
        path = os.path.join(REPO, *name.split(".")) + ".py"
        m = types.ModuleType("__main__")
        m.__file__ = path
        with open(path) as f:
            code = compile(f.read(), path, "exec")
        gone = {k: v for k, v in sys.modules.items() if k in self.mods}
        sys.modules.update(self.mods)
        try:
            exec(code, m.__dict__)
        finally:
            for k in self.mods:
                sys.modules.pop(k, None)
            sys.modules.update(gone)

    def close(self):
        if getattr(self, "undo", None):
            rnd, old = self.undo
            for n, f in old.items():
                setattr(rnd, n, f)
            self.undo = None
        for k in [k for k in sys.modules if k == "src" or k.startswith("src.") or k == "vgpa_main"]:
            del sys.modules[k]
