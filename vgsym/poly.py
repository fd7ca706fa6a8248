"""Sparse multivariate polynomials over Q, used to normalise z3 terms before a query."""
from fractions import Fraction

import z3
from . import sym as S


class TooBig(Exception):
    pass


class Poly(dict):
    """{monomial: Fraction}; a monomial is a sorted tuple of (atom id, power)."""
    __slots__ = ()


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, p in b:
        d[i] = d.get(i, 0) + p
    return tuple(sorted(d.items()))


def linear_zero(t, stop=()):
    """True if t is zero as a linear combination of its (unexpanded) non-linear subterms and
    of the terms in stop."""
    out, stack = {}, [(t, Fraction(1))]
    n = 0
    while stack:
        x, c = stack.pop()
        n += 1
        if n > 20000:
            return False
        if z3.is_rational_value(x):
            out[0] = out.get(0, 0) + c * Fraction(x.numerator_as_long(), x.denominator_as_long())
            continue
        if x.get_id() in stop:
            i = -1 - x.get_id()
            out[i] = out.get(i, 0) + c
            continue
        k = x.decl().kind()
        if k == z3.Z3_OP_ADD:
            stack.extend((y, c) for y in x.children())
            continue
        if k == z3.Z3_OP_UMINUS:
            stack.append((x.arg(0), -c))
            continue
        if k == z3.Z3_OP_SUB:
            ch = x.children()
            stack.append((ch[0], c))
            stack.extend((y, -c) for y in ch[1:])
            continue
        if k == z3.Z3_OP_MUL:
            ch = x.children()
            num = [y for y in ch if z3.is_rational_value(y)]
            rest = [y for y in ch if not z3.is_rational_value(y)]
            if num and len(rest) == 1:
                f = c
                for y in num:
                    f = f * Fraction(y.numerator_as_long(), y.denominator_as_long())
                stack.append((rest[0], f))
                continue
        i = -1 - x.get_id()
        out[i] = out.get(i, 0) + c
    return not any(out.values())


class PolySpace:
    """Converts z3 terms to polynomials; remembers atoms and reduction rules."""

    def __init__(self, limit=400000):
        self.atoms = {}        # id -> z3 term
        self.memo = {}
        self.limit = limit
        self.square = {}       # atom id -> Poly of its square (algebraic relation)
        self.opaque = {}       # term id -> term kept as an atom

    def reduce(self, p):
        """Rewrites even powers of atoms with a known square."""
        if not self.square:
            return p
        again = True
        while again:
            again = False
            out = Poly()
            for m, c in p.items():
                hit = None
                for (i, k) in m:
                    if k >= 2 and i in self.square:
                        hit = (i, k)
                        break
                if hit is None:
                    out[m] = out.get(m, 0) + c
                    continue
                again = True
                i, k = hit
                rest = tuple((j, q) for j, q in m if j != i)
                if k % 2:
                    rest = _mono_mul(rest, ((i, 1),))
                q = Poly({rest: c})
                for _ in range(k // 2):
                    q = self.mul(q, self.square[i], False)
                for m2, c2 in q.items():
                    out[m2] = out.get(m2, 0) + c2
            p = Poly({m: c for m, c in out.items() if c})
        return p

    def mul(self, a, b, red=True):
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > 20 * self.limit:
            raise TooBig()
        out = Poly()
        for ma, ca in a.items():
            if not ma:
                for mb, cb in b.items():
                    out[mb] = out.get(mb, 0) + ca * cb
                continue
            for mb, cb in b.items():
                m = _mono_mul(ma, mb)
                out[m] = out.get(m, 0) + ca * cb
        out = Poly({m: c for m, c in out.items() if c})
        if len(out) > self.limit:
            raise TooBig()
        return self.reduce(out) if red else out

    def of(self, t):
        if isinstance(t, Fraction):
            return Poly({(): t}) if t else Poly()
        memo = self.memo
        stack = [t]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in memo:
                stack.pop()
                continue
            k = x.decl().kind()
            if i in self.opaque:
                self.atoms[i] = x
                memo[i] = (x, Poly({((i, 1),): Fraction(1)}))
                stack.pop()
                continue
            if z3.is_rational_value(x):
                f = Fraction(x.numerator_as_long(), x.denominator_as_long())
                memo[i] = (x, Poly({(): f}) if f else Poly())
                stack.pop()
                continue
            if k not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                self.atoms[i] = x
                memo[i] = (x, Poly({((i, 1),): Fraction(1)}))
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            ps = [memo[c.get_id()][1] for c in ch]
            if k == z3.Z3_OP_UMINUS:
                r = Poly({m: -c for m, c in ps[0].items()})
            elif k == z3.Z3_OP_MUL:
                r = ps[0]
                for q in ps[1:]:
                    r = self.mul(r, q)
            else:
                big = max(range(len(ps)), key=lambda j: len(ps[j]))
                sg = [1 if (k == z3.Z3_OP_ADD or j == 0) else -1 for j in range(len(ps))]
                r = Poly(ps[big]) if sg[big] == 1 else Poly({m: -c for m, c in ps[big].items()})
                for j, q in enumerate(ps):
                    if j == big:
                        continue
                    for m, c in q.items():
                        v = r.get(m, 0) + sg[j] * c
                        if v:
                            r[m] = v
                        else:
                            r.pop(m, None)
                if len(r) > self.limit:
                    raise TooBig()
            memo[i] = (x, r)
            stack.pop()
        return memo[t.get_id()][1]

    def term(self, p):
        """Polynomial -> z3 term."""
        if not p:
            return S.rv(Fraction(0))
        out = []
        for m, c in p.items():
            fs = [] if c == 1 and m else [S.rv(c)]
            for i, k in m:
                fs.extend([self.atoms[i]] * k)
            out.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        return out[0] if len(out) == 1 else z3.Sum(*out)

    def monomial_quotient(self, a, b):
        """a / b for a single-monomial b, or None."""
        if len(b) != 1:
            return None
        (mb, cb), = b.items()
        db = dict(mb)
        out = Poly()
        for m, c in a.items():
            d = dict(m)
            for i, p in db.items():
                if d.get(i, 0) < p:
                    return None
                d[i] -= p
                if d[i] == 0:
                    del d[i]
            out[tuple(sorted(d.items()))] = c / cb
        return out
