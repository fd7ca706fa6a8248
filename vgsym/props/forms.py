"""The form in which numbers arrive does not matter: whole numbers of an integer type, arrays
stored in column order, in steps or backwards give what plain floating point arrays give.  Nor
does the history of the arrays: "reused" ones held other numbers in an earlier call, "kept" is
the same with the same object called twice."""
import zlib

import numpy as np

from .common import flatten

KINDS = ("ints", "columns", "steps", "backwards", "reused", "kept")


def whole(name, pos):
    k = zlib.crc32(name.encode())
    return 1 + k % 3 if pos else k % 5 - 2


class Inputs:
    """Named inputs; the second time they come in the other form."""

    def __init__(self, h, kind):
        self.h, self.kind, self.other, self.vals = h, kind, False, {}
        self.ints = kind == "ints"
        self.first = self.making = False
        self.bufs, self.objs = {}, {}

    def make(self, key, maker):
        """An object under test, made from inputs."""
        if self.kind != "kept" or not self.other:
            return maker()
        if key not in self.objs:
            self.making = True
            self.objs[key] = maker()
            self.making = False
        return self.objs[key]

    def _buffer(self, name, x, spd):
        h = self.h
        if self.first:
            y = h.zeros(*x.shape)
            for i in np.ndindex(*x.shape):
                k = 1 + zlib.crc32(f"{name}{i}".encode()) % 5
                y[i] = h.const(k if not spd else (7 + k % 2 if i[-1] == i[-2] else 1))
            self.bufs[name] = y
        else:
            self.bufs[name][...] = x
        return self.bufs[name]

    def _form(self, name, x, spd=False, flo=False):
        h = self.h
        if not self.other or self.making or flo and self.ints:
            return h.snapshot(x)
        if self.kind in ("reused", "kept"):
            return self._buffer(name, x, spd)
        if self.kind == "ints":
            out = np.empty(x.shape, dtype=int)
            for i in np.ndindex(*x.shape):
                out[i] = int(x[i])
            return out
        if self.kind == "columns":
            return x.T.copy().T
        if self.kind == "steps":
            y = h.zeros(*([2 * x.shape[0]] + list(x.shape[1:])))
            y[::2] = x
            return y[::2]
        return x[::-1].copy()[::-1]

    def flo(self, name, shape, pos=False):
        """Numbers the program computes itself: never of an integer type."""
        return self.arr(name, shape, pos, True)

    def arr(self, name, shape, pos=False, flo=False):
        h = self.h
        if name not in self.vals:
            if self.ints:
                x = h.zeros(*shape)
                for i in np.ndindex(*shape):
                    x[i] = h.const(whole(f"{name}{i}", pos))
            else:
                x = h.ten(name, shape, **(dict(pos=True) if pos else {}))
            self.vals[name] = x
        return self._form(name, self.vals[name], flo=flo)

    def spd(self, name, d, n=None, flo=False):
        """One positive definite matrix, or n of them."""
        h = self.h
        if name not in self.vals:
            if n is not None:
                self.vals[name] = h.stack([self._spd(f"{name}{k}", d) for k in range(n)])
            else:
                self.vals[name] = self._spd(name, d)
        return self._form(name, self.vals[name], True, flo)

    def _spd(self, name, d):
        h = self.h
        if not self.ints:
            return h.spd(name, d)
        L = h.np.eye(d)
        for i in range(d):
            for j in range(i):
                L[i, j] = h.const(whole(f"{name}{i}{j}", False))
        return L.dot(L.T)

    def num(self, name, pos=False):
        h = self.h
        if name not in self.vals:
            self.vals[name] = whole(name, pos) if self.ints else (h.pos(name) if pos
                                                                  else h.real(name))
        v = self.vals[name]
        return v if self.other or not self.ints else h.const(v)

    def real(self, name, lo, hi):
        """An input that keeps its form."""
        if name not in self.vals:
            self.vals[name] = self.h.real(name, lo, hi, pos=True)
        return self.vals[name]


def both(fn, thin=4):
    """A harness that compares fn(h, inputs) for the two forms."""
    def run(h, kind, **cfg):
        h.thin = 0 if kind == "ints" else thin
        I = Inputs(h, kind)
        a = [h.snapshot(x) for x in flatten(fn(h, I, **cfg))]
        I.other = True
        if kind in ("reused", "kept"):
            I.first = True
            fn(h, I, **cfg)
            I.first = False
        b = flatten(fn(h, I, **cfg))
        h.same("results", len(b), len(a))
        for k, (x, y) in enumerate(zip(a, b)):
            x, y = h.arr(x), h.arr(y)
            h.same(f"shape of result {k}", tuple(y.shape), tuple(x.shape))
            h.eq(f"result {k}", y - x, h.zeros(*x.shape))
    return run


def forms(name, fn, thin=4, kinds=KINDS, **cfg):
    return [(f"{name}-{k}", both(fn, thin), dict(kind=k, **cfg)) for k in kinds]
