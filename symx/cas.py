"""Exact polynomials and rational functions over named generators.

A monomial is a tuple of (generator, exponent) pairs in generator order, a
polynomial a dict from monomials to rational coefficients, and a field element
a polynomial over a product of interned irreducible polynomials.  Generators
that are square roots are reduced by their square, so that an element is zero
exactly when its numerator is (as square roots of distinct irreducible
polynomials are independent).
"""

from fractions import Fraction

FACTORS = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            out.append((a[i][0], a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mono_div(a, b):
    """a / b or None."""
    if not b:
        return a
    d = dict(a)
    for g, e in b:
        h = d.get(g, 0) - e
        if h < 0:
            return None
        if h:
            d[g] = h
        else:
            d.pop(g, None)
    return tuple(sorted(d.items()))


def num(x):
    """Rationals as ints where possible (faster arithmetic)."""
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


class Poly:
    __slots__ = ("d", "_k", "_g", "_o")

    def __init__(self, d):
        self.d = d
        self._k = None
        self._g = None
        self._o = None

    @staticmethod
    def const(c):
        return Poly({(): num(c)} if c else {})

    @staticmethod
    def gen(g):
        return Poly({((g, 1),): 1})

    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def order(self):
        """A key that orders polynomials the same way on every run."""
        if self._o is None:
            self._o = sorted((m, Fraction(c)) for m, c in self.d.items())
        return self._o

    def __eq__(self, o):
        return self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def zero(self):
        return not self.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def gens(self):
        if self._g is None:
            self._g = frozenset(g for m in self.d for g, _ in m)
        return self._g

    def __add__(self, o):
        if len(o.d) > len(self.d):
            self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = num(v)
            else:
                del d[m]
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + -o

    def scale(self, k):
        if not k:
            return Poly({})
        return Poly({m: num(c * k) for m, c in self.d.items()})

    def __mul__(self, o):
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mono_mul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    del d[m]
        return Poly({m: num(c) for m, c in d.items()})

    def __pow__(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def lead(self):
        return max(self.d, key=lambda m: (sum(e for _, e in m), m))

    def primitive(self):
        """(content, primitive integer polynomial with positive lead)."""
        from math import gcd
        den = 1
        for c in self.d.values():
            q = Fraction(c).denominator
            den = den * q // gcd(den, q)
        g = 0
        for c in self.d.values():
            g = gcd(g, int(c * den))
        if self.d[self.lead()] < 0:
            g = -g
        k = Fraction(g, den)
        return k, Poly({m: num(c / k) for m, c in self.d.items()})

    def divide(self, f):
        """Exact quotient or None."""
        if not f.gens() <= self.gens():
            return None
        if f.is_const():
            return self.scale(Fraction(1) / f.d[()])
        order = sorted(f.gens())

        def rank(m):
            e = dict(m)
            return [e.get(g, 0) for g in order]
        # lexicographic division in the generators of f; other generators are coefficients
        lm = max(f.d, key=rank)
        lc = f.d[lm]
        rest = [(m, c) for m, c in f.d.items() if m != lm]
        p = dict(self.d)
        q = {}
        while p:
            m = max(p, key=lambda m: (rank(m), m))
            c = p[m]
            t = mono_div(m, lm)
            if t is None:
                return None
            k = Fraction(c) / lc
            q[t] = num(k)
            del p[m]
            for m2, c2 in rest:
                mm = mono_mul(t, m2)
                v = p.get(mm, 0) - k * c2
                if v:
                    p[mm] = num(v)
                else:
                    p.pop(mm, None)
        return Poly(q)

    def eval(self, val):
        t = 0
        for m, c in self.d.items():
            v = c.numerator / c.denominator if isinstance(c, Fraction) else c
            for g, e in m:
                v = v * val(g) ** e
            t = t + v
        return t

    def size(self, val):
        """Sum of the magnitudes of the terms (for rounding margins)."""
        t = 0
        for m, c in self.d.items():
            v = abs(float(c))
            for g, e in m:
                v = v * abs(val(g)) ** e
            t = t + v
        return t

    def diff(self, g):
        d = {}
        for m, c in self.d.items():
            e = dict(m)
            n = e.get(g)
            if n:
                if n == 1:
                    del e[g]
                else:
                    e[g] = n - 1
                k = tuple(sorted(e.items()))
                d[k] = d.get(k, 0) + c * n
        return Poly({m: c for m, c in d.items() if c})

    def __repr__(self):
        return " + ".join("%s%s" % (c, "".join("*g%d^%d" % x for x in m)) for m, c in sorted(self.d.items())[:12]) or "0"


def factor(p):
    """(rational, {irreducible primitive Poly: exponent})"""
    k = p.key()
    r = FACTORS.get(k)
    if r is not None:
        return r
    if p.is_const():
        r = (Fraction(p.d.get((), 0)), {})
        FACTORS[k] = r
        return r
    c, q = p.primitive()
    out = {}
    # common monomial
    common = None
    for m in q.d:
        e = dict(m)
        if common is None:
            common = e
        else:
            common = {g: min(x, e[g]) for g, x in common.items() if g in e}
        if not common:
            break
    if common:
        m0 = tuple(sorted(common.items()))
        q = Poly({mono_div(m, m0): v for m, v in q.d.items()})
        for g, e in m0:
            out[Poly.gen(g)] = e
    if not q.is_const():
        if len(q.d) == 2 and all(sum(e for _, e in m) <= 1 for m in q.d):
            out[q] = out.get(q, 0) + 1
        else:
            c2, fs = sympy_factor(q)
            c = c * c2
            for f, e in fs:
                k1, f1 = f.primitive()
                c = c * k1 ** e
                out[f1] = out.get(f1, 0) + e
    else:
        c = c * q.d[()]
    r = (Fraction(c), out)
    FACTORS[k] = r
    return r


RINGS = {}


def sympy_factor(q):
    from sympy.polys.rings import ring
    from sympy import ZZ
    gs = sorted(q.gens())
    n = len(gs)
    if n not in RINGS:
        RINGS[n] = ring(["x%d" % i for i in range(n)], ZZ)[0]
    R = RINGS[n]
    at = {g: i for i, g in enumerate(gs)}
    d = {}
    for m, c in q.d.items():
        e = [0] * n
        for g, x in m:
            e[at[g]] = x
        d[tuple(e)] = ZZ(int(c))
    c, fs = R.from_dict(d).factor_list()
    out = []
    for f, e in fs:
        out.append((Poly({tuple((gs[i], x) for i, x in enumerate(m) if x): int(v) for m, v in f.items()}), e))
    return int(c), out


class FE:
    """num / prod(f ** e for f, e in den), den of irreducible primitives."""
    __slots__ = ("num", "den", "_k")

    def __init__(self, num, den):
        self.num = num
        self.den = den
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.num.key(), frozenset((f.key(), e) for f, e in self.den.items()))
        return self._k

    def zero(self):
        return self.num.zero()

    def const(self):
        """The rational value, or None."""
        if self.num.zero():
            return Fraction(0)
        if not self.den and self.num.is_const():
            return Fraction(self.num.d[()])
        return None

    def gens(self):
        s = set(self.num.gens())
        for f in self.den:
            s |= f.gens()
        return s

    def __repr__(self):
        return "(%r)/%r" % (self.num, self.den)


class Field:
    """Arithmetic with square-root reduction: roots[g] = Poly of its square."""

    def __init__(self):
        self.roots = {}

    def const(self, c):
        return FE(Poly.const(Fraction(c)), {})

    def gen(self, g):
        return FE(Poly.gen(g), {})

    def reduce(self, p):
        """Replace squares of roots."""
        if not (p.gens() & self.roots.keys()):
            return p
        while True:
            hit = None
            for m in p.d:
                for g, e in m:
                    if e > 1 and g in self.roots:
                        hit = g
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            f = self.roots[hit]
            groups = {}
            for m, c in p.d.items():
                e = dict(m).get(hit, 0)
                k = e // 2
                m2 = tuple((g, x if g != hit else e - 2 * k) for g, x in m if g != hit or e - 2 * k)
                groups.setdefault(k, {})
                groups[k][m2] = groups[k].get(m2, 0) + c
            t = Poly({})
            for k, d in groups.items():
                t = t + Poly(d) * f ** k
            p = t

    def make(self, p, den):
        p = self.reduce(p)
        if p.zero():
            return FE(p, {})
        out = {}
        for f, e in den.items():
            while e:
                q = p.divide(f)
                if q is None:
                    break
                p = q
                e -= 1
            if e:
                out[f] = e
        return FE(p, out)

    def mul(self, a, b):
        if a.zero() or b.zero():
            return FE(Poly({}), {})
        den = dict(a.den)
        for f, e in b.den.items():
            den[f] = den.get(f, 0) + e
        return self.make(a.num * b.num, den)

    def scale(self, a, k):
        return FE(a.num.scale(k), a.den) if k else FE(Poly({}), {})

    def neg(self, a):
        return FE(-a.num, a.den)

    def add(self, a, b):
        if a.zero():
            return b
        if b.zero():
            return a
        if a.den == b.den:
            return self.make(a.num + b.num, a.den)
        den = dict(a.den)
        for f, e in b.den.items():
            if den.get(f, 0) < e:
                den[f] = e
        pa, pb = a.num, b.num
        for f, e in den.items():
            x = e - a.den.get(f, 0)
            if x:
                pa = pa * f ** x
            x = e - b.den.get(f, 0)
            if x:
                pb = pb * f ** x
        return self.make(pa + pb, den)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def inv(self, a):
        """1 / a (a is known to be nonzero)."""
        p = a.num
        top = Poly.const(1)
        # clear square roots of sums from the new denominator
        for _ in range(8):
            c, fs = factor(p)
            mixed = [f for f in fs if len(f.d) > 1 and (f.gens() & self.roots.keys())]
            if not mixed:
                break
            f = mixed[0]
            q = max(f.gens() & self.roots.keys())
            conj = Poly({m: (-v if any(g == q for g, _ in m) else v) for m, v in f.d.items()})
            top = self.reduce(top * conj)
            p = self.reduce(p * conj)
        c, fs = factor(p)
        top = top.scale(Fraction(1) / c)
        den = {}
        for f, e in fs.items():
            g = next(iter(f.gens())) if len(f.d) == 1 else None
            if g is not None and g in self.roots:
                # 1/q = q / q^2
                top = top * f ** e
                sq = self.roots[g]
                c2, f2 = factor(sq)
                top = top.scale(Fraction(1) / c2 ** e)
                for h, x in f2.items():
                    den[h] = den.get(h, 0) + x * e
            else:
                den[f] = den.get(f, 0) + e
        for f, e in a.den.items():
            top = top * f ** e
        return self.make(top, den)

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def factors(self, a):
        """(rational, {irreducible: signed exponent})"""
        c, fs = factor(a.num)
        out = dict(fs)
        for f, e in a.den.items():
            out[f] = out.get(f, 0) - e
        return c, {f: out[f] for f in sorted(out, key=Poly.order) if out[f]}

    def product(self, c, fs):
        top = Poly.const(c)
        den = {}
        for f, e in fs.items():
            if e > 0:
                top = top * f ** e
            elif e < 0:
                den[f] = -e
        return self.make(top, den)

    def eval(self, a, val):
        v = a.num.eval(val)
        for f, e in a.den.items():
            v = v / f.eval(val) ** e
        return v

    def diff(self, a, dgen):
        """Derivative, given the derivative (an FE) of every generator."""
        out = FE(Poly({}), {})
        one = FE(Poly.const(1), {})
        for g in sorted(a.num.gens()):
            dg = dgen(g)
            if not dg.zero():
                out = self.add(out, self.mul(self.make(a.num.diff(g), {}), dg))
        for f, e in a.den.items():
            out = self.mul(out, FE(one.num, {f: e}))
        for f, e in a.den.items():
            df = self.diff(FE(f, {}), dgen)
            if not df.zero():
                t = self.mul(a, FE(one.num, {f: 1}))
                out = self.sub(out, self.scale(self.mul(t, df), e))
        return out
