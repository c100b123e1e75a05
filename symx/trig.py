"""Exact reasoning about trigonometry, logarithms and roots.

Every real term of the code under test is mapped to an element of a field of
rational functions over generators: inputs, angles (in radians) and pi, the
half-angle tangent t of every angle whose sine or cosine is taken
(sin = 2t/(1+t^2), cos = (1-t^2)/(1+t^2)), square roots of irreducible
polynomials, logarithms of irreducible polynomials and exponentials.  Results
of inverse functions are angles given by their sine, cosine and range.
Conditions become sign conditions on irreducible polynomials over the
generators; an identity holds when its difference is the zero element, and
everything else is decided by the solver (linear part first, then nonlinear
arithmetic over the facts that share generators).  Sample points that satisfy
the path condition only serve to skip queries whose answer "satisfiable" they
witness, and to give the inputs of counterexamples.
"""

import cmath
import math
import random
import time
from fractions import Fraction

import z3

from . import core, shims
from .cas import FE, Field, Poly, factor
from .core import SymReal, Unsupported, lift, to_real

T = None
NSAMPLES = 60
PI_LO, PI_HI = Fraction("3.14159265358979"), Fraction("3.14159265358980")


class Gen:
    __slots__ = ("kind", "name", "z", "data", "range")

    def __init__(self, kind, name, z, data=None, range=None):
        self.kind = kind
        self.name = name
        self.z = z
        self.data = data
        self.range = range


class Angle:
    """An angle known by sine and cosine; half(): those of its half."""

    def __init__(self, sin, cos, half=None):
        self.sin = sin
        self.cos = cos
        self.half = half


def install(ctx):
    global T
    T = Trig(ctx)
    shims.TRIG = T
    shims.SQRT_HOOK = T.sqrt_hook
    shims.POW_HOOK = T.pow_hook
    ctx.base_add = ctx.add
    ctx.add = T.add
    ctx.decide = T.decide
    ctx.check = T.check
    ctx.trig = T


def begin():
    T.begin()


class Ambiguous(Exception):
    pass


class Sample:
    """A concrete value for every generator, computed on demand."""

    def __init__(self, trig, i):
        self.trig = trig
        self.rng = random.Random(1000 + i)
        self.generic = i < 0
        self.v = {}

    def __call__(self, g):
        if g in self.v:
            return self.v[g]
        x = self.trig.sample_gen(g, self)
        self.v[g] = x
        return x

    def fe(self, a):
        return self.trig.K.eval(a, self)


class Trig:
    def __init__(self, ctx):
        self.ctx = ctx
        self.nlcache = {}

    # ------------------------------------------------------------ one path
    def begin(self):
        self.K = Field()
        self.gens = []
        self.byname = {}
        self.leaf = {}          # name of z3 constant -> FE
        self.memo = {}          # ast id -> (term, FE)
        self.back = {}          # FE key -> SymReal
        self.angles = {}        # generator of an angle -> Angle
        self.table = []         # (linear FE, sin, cos)
        self.linkey = {}
        self.facts = []         # (z3 formula, gens)
        self.known = {}         # Poly -> sign description
        self.rootgen = {}
        self.loggen = {}
        self.expgen = {}
        self.opaque = {}
        self.polyz = {}
        self.ranges = {}
        self.tans = []
        self.path = []          # formula trees taken
        self.samples = [Sample(self, i) for i in range(NSAMPLES)]
        self.G = Sample(self, -1)
        self.PI = self.newgen("pi", "PI", z3.Real("PI"))
        self.fePI = self.K.gen(self.PI)
        p = self.gens[self.PI].z
        self.known[Poly.gen(self.PI)] = 1
        self.rawadd(z3.And(p > core.realval(PI_LO), p < core.realval(PI_HI)))
        self.leaf["PI"] = self.fePI
        zero, one = self.K.const(0), self.K.const(1)
        half = self.K.scale(self.fePI, Fraction(1, 2))
        self.zero, self.one = zero, one
        self.table.append((zero, zero, one))
        self.table.append((half, one, zero))
        self.table.append((self.K.neg(half), self.K.const(-1), zero))
        self.table.append((self.fePI, zero, self.K.const(-1)))

    def newgen(self, kind, name, z, data=None, range=None):
        g = len(self.gens)
        self.gens.append(Gen(kind, name, z, data, range))
        self.byname[name] = g
        return g

    def rawadd(self, f):
        """A fact over generators (linear facts also reach the incremental solver)."""
        self.ctx.base_add(f if linear(f) else z3.BoolVal(True))
        self.facts.append((f, names(f)))

    # ------------------------------------------------------------ samples
    def sample_gen(self, g, s):
        G = self.gens[g]
        k = G.kind
        if k == "pi":
            return math.pi
        if k == "in":
            lo, hi = G.range or (None, None)
            r = random.Random("%s/%s" % (G.name, s.rng.random()))
            lo = -20 if lo is None else float(lo)
            hi = lo + 40 if hi is None else float(hi)
            x = r.uniform(lo, hi)
            return float(Fraction(x).limit_denominator(1000)) if lo <= float(Fraction(x).limit_denominator(1000)) <= hi else x
        if k == "deg":
            lo, hi = G.range
            x = round(s.rng.uniform(float(lo), float(hi)), 2)
            return math.radians(x)
        if k == "t":
            x = s(G.data) if G.data is not None else 0
            return cmath.tan(x / 2) if isinstance(x, complex) else math.tan(x / 2)
        if k == "def":
            return s.fe(G.data)
        if k == "q":
            v = G.data.eval(s)
            return self.real(cmath.sqrt(v), s)
        if k == "L":
            v = G.data.eval(s)
            return self.real(cmath.log(v), s)
        if k == "E":
            v = s.fe(G.data)
            return self.real(cmath.exp(v), s)
        if k == "ang":
            sn, cs = s.fe(G.data.sin), s.fe(G.data.cos)
            if isinstance(sn, complex) or isinstance(cs, complex):
                return -1j * cmath.log(cs + 1j * sn)
            return math.atan2(sn if abs(sn) > 1e-13 else 0.0, cs)
        raise core.EngineError("generator " + k)

    def real(self, v, s):
        if abs(v.imag) < 1e-12 * max(1, abs(v)):
            return v.real
        return v

    def is_real(self, v):
        return not isinstance(v, complex) or abs(v.imag) < 1e-9 * max(1, abs(v))

    # ------------------------------------------------------------ terms
    def note_real(self, name, lo, hi):
        self.ranges[name] = (lo, hi)

    def input_angle(self, name, lo, hi, term):
        """A new angle input in degrees: term is its degree variable."""
        z = z3.Real("rad!" + name)
        g = self.newgen("deg", "rad!" + name, z, None, (lo, hi))
        fe = self.K.gen(g)
        self.leaf[name] = self.K.mul(self.K.scale(fe, 180), self.K.inv(self.fePI))
        p = self.gens[self.PI].z
        strict = abs(lo) >= 180, abs(hi) >= 180
        l, h = core.realval(Fraction(lo, 180)) * p, core.realval(Fraction(hi, 180)) * p
        self.rawadd(z > l if strict[0] else z >= l)
        self.rawadd(z < h if strict[1] else z <= h)
        self.base_angle(g)
        return g

    def base_angle(self, g):
        """Give the angle generator g (strictly between -pi and pi) its half-angle tangent."""
        a = self.gens[g]
        tz = z3.Real("tan!" + a.name)
        t = self.newgen("t", "tan!" + a.name, tz, g)
        p = self.gens[self.PI].z
        if a.kind == "def" and self.possible(f_or([self.atom(self.K.sub(self.K.gen(g), self.fePI), ">="),
                                                   self.atom(self.K.neg(self.K.add(self.K.gen(g), self.fePI)), ">=")])):
            # more than half a turn: the tangent says nothing about the order of angles
            ordered = False
        else:
            ordered = True
        for k, v in ((0, 0), (Fraction(1, 2), 1), (Fraction(-1, 2), -1)):
            if not ordered:
                break
            w = core.realval(k) * p if k else z3.RealVal(0)
            self.rawadd(z3.And((a.z > w) == (tz > v), (a.z < w) == (tz < v)))
        # tan(x / 2) is increasing between -pi and pi
        for o in self.tans if ordered else ():
            b = self.gens[self.gens[o].data]
            oz = self.gens[o].z
            self.rawadd(z3.And((a.z < b.z) == (tz < oz), (a.z > b.z) == (tz > oz)))
        if ordered:
            self.tans.append(t)
        P = Poly
        t1 = P.gen(t)
        q = P.const(1) + t1 * t1
        self.known[q] = 1
        sin = FE(t1.scale(2), {q: 1})
        cos = FE(P.const(1) - t1 * t1, {q: 1})

        def half():
            r = self.root(q)
            inv = self.K.inv(r)
            return self.K.mul(FE(t1, {}), inv), inv
        ang = Angle(sin, cos, half)
        self.angles[g] = ang
        self.table.append((self.K.gen(g), sin, cos))
        return ang

    def fe(self, term):
        k = term.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r[1]
        v = self.fe1(term)
        self.memo[k] = (term, v)
        return v

    def fe1(self, t):
        K = self.K
        if z3.is_rational_value(t):
            return K.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t):
            return K.const(t.as_long())
        d = t.decl().kind()
        c = t.children()
        if d == z3.Z3_OP_UNINTERPRETED and not c:
            n = t.decl().name()
            if n in self.leaf:
                return self.leaf[n]
            g = self.newgen("in", n, to_real(t), None, self.ranges.get(n))
            self.leaf[n] = K.gen(g)
            return self.leaf[n]
        if d == z3.Z3_OP_ADD:
            r = self.fe(c[0])
            for x in c[1:]:
                r = K.add(r, self.fe(x))
            return r
        if d == z3.Z3_OP_SUB:
            r = self.fe(c[0])
            for x in c[1:]:
                r = K.sub(r, self.fe(x))
            return r
        if d == z3.Z3_OP_UMINUS:
            return K.neg(self.fe(c[0]))
        if d == z3.Z3_OP_MUL:
            r = self.fe(c[0])
            for x in c[1:]:
                r = K.mul(r, self.fe(x))
            return r
        if d == z3.Z3_OP_DIV:
            a, b = self.fe(c[0]), self.fe(c[1])
            if b.zero():
                raise ZeroDivisionError("float division by zero")
            return K.div(a, b)
        if d == z3.Z3_OP_POWER and z3.is_int_value(c[1]):
            n = c[1].as_long()
            r = K.const(1)
            x = self.fe(c[0])
            for _ in range(abs(n)):
                r = K.mul(r, x)
            return K.inv(r) if n < 0 else r
        if d == z3.Z3_OP_TO_REAL:
            return self.fe(c[0])
        if d == z3.Z3_OP_ITE:
            return self.fe(c[1] if self.decide(c[0]) else c[2])
        if d == z3.Z3_OP_TO_INT:
            return self.floor(self.fe(c[0]))
        raise Unsupported("trigonometric reasoning over " + t.decl().name())

    def floor(self, x):
        """The integer part, found by forking."""
        K = self.K
        v = x.const()
        if v is not None:
            return K.const(math.floor(v))
        for k in range(64):
            n = k // 2 if k % 2 == 0 else -(k // 2) - 1
            lo, hi = K.sub(x, K.const(n)), K.sub(K.const(n + 1), x)
            if self.decide(f_and([self.atom(lo, ">="), self.atom(hi, ">")])):
                return K.const(n)
        raise Unsupported("integer part of a large value")

    def of(self, x):
        if isinstance(x, FE):
            return x
        e = lift(x)
        if e is None:
            raise TypeError("must be real number, not " + type(x).__name__)
        return self.fe(e)

    def out(self, fe):
        """A symbolic value for a field element."""
        k = fe.key()
        r = self.back.get(k)
        if r is not None:
            return r
        c = fe.const()
        if c is not None:
            r = SymReal(core.realval(c))
        else:
            z = self.ctx.fresh_real("u")
            self.leaf[z.decl().name()] = fe
            r = SymReal(z)
        self.back[k] = r
        return r

    def pi(self):
        return self.out(self.fePI)

    # ------------------------------------------------------------ conditions
    def zpoly(self, p):
        k = p.key()
        r = self.polyz.get(k)
        if r is None:
            ts = []
            for m, c in sorted(p.d.items(), key=lambda x: x[0]):
                fs = [core.realval(Fraction(c))] if c != 1 or not m else []
                for g, e in m:
                    fs.extend([self.gens[g].z] * e)
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                ts.append(t)
            r = ts[0] if len(ts) == 1 else z3.Sum(ts)
            self.polyz[k] = r
        return r

    def positive(self, f):
        """1 when the irreducible f is known positive, 2 when nonnegative, else its known sign or None."""
        k = self.known.get(f)
        if k is not None:
            return k
        ok = True
        for m, c in f.d.items():
            if c < 0 or any(e % 2 and self.known.get(Poly.gen(g)) not in (1, 2) for g, e in m):
                ok = False
                break
        if ok:
            strict = any(all(self.known.get(Poly.gen(g)) == 1 for g, e in m) for m in f.d)
            r = 1 if strict else 2
            self.known[f] = r
            return r
        return None

    def atom(self, fe, op):
        """Formula tree of  fe op 0  with op in '=', '>', '>='."""
        c = fe.const()
        if c is not None:
            return {"=": c == 0, ">": c > 0, ">=": c >= 0}[op]
        k, fs = self.K.factors(fe)
        if op == "=":
            return f_or([("atom", f, "=") for f, e in fs.items() if e > 0 and self.positive(f) not in (1, -1)])
        s = 1 if k > 0 else -1
        odd, nz = [], []
        for f, e in fs.items():
            p = self.positive(f)
            if p == 1:
                continue
            if p == -1:
                if e % 2:
                    s = -s
                continue
            if p == 2:
                if e > 0:
                    nz.append(f)
                continue
            if e % 2:
                odd.append(f)
            elif e > 0:
                nz.append(f)
        if not odd:
            sign = s > 0
        elif len(odd) == 1:
            sign = ("atom", odd[0], ">" if s > 0 else "<")
        elif len(odd) == 2:
            a, b = odd
            if s > 0:
                sign = f_or([f_and([("atom", a, ">"), ("atom", b, ">")]), f_and([("atom", a, "<"), ("atom", b, "<")])])
            else:
                sign = f_or([f_and([("atom", a, ">"), ("atom", b, "<")]), f_and([("atom", a, "<"), ("atom", b, ">")])])
        else:
            sign = ("prod", tuple(odd), s)
        strict = f_and([sign] + [f_not(("atom", f, "=")) for f in nz])
        if op == ">":
            return strict
        return f_or([strict] + [("atom", f, "=") for f in odd + nz if fs[f] > 0])

    def norm(self, c):
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = c.decl().kind()
        ch = c.children()
        if d == z3.Z3_OP_AND:
            return f_and([self.norm(x) for x in ch])
        if d == z3.Z3_OP_OR:
            return f_or([self.norm(x) for x in ch])
        if d == z3.Z3_OP_NOT:
            return f_not(self.norm(ch[0]))
        if d == z3.Z3_OP_IMPLIES:
            return f_or([f_not(self.norm(ch[0])), self.norm(ch[1])])
        if d == z3.Z3_OP_ITE:
            a = self.norm(ch[0])
            return f_or([f_and([a, self.norm(ch[1])]), f_and([f_not(a), self.norm(ch[2])])])
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_arith(ch[0]):
            if ch[0].is_int() and ch[1].is_int() and not has_floor(c):
                return ("raw", c)
            a, b = self.fe(ch[0]), self.fe(ch[1])
            x = self.K.sub(a, b)
            if d == z3.Z3_OP_EQ:
                return self.atom(x, "=")
            if d == z3.Z3_OP_GE:
                return self.atom(x, ">=")
            if d == z3.Z3_OP_GT:
                return self.atom(x, ">")
            if d == z3.Z3_OP_LE:
                return self.atom(self.K.neg(x), ">=")
            return self.atom(self.K.neg(x), ">")
        if d == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
            a, b = self.norm(ch[0]), self.norm(ch[1])
            return f_or([f_and([a, b]), f_and([f_not(a), f_not(b)])])
        return ("raw", c)

    def z(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        k = f[0]
        if k == "and":
            return z3.And(*[self.z(x) for x in f[1]])
        if k == "or":
            return z3.Or(*[self.z(x) for x in f[1]])
        if k == "not":
            return z3.Not(self.z(f[1]))
        if k == "raw":
            return f[1]
        if k == "prod":
            p = self.zpoly(f[1][0])
            for x in f[1][1:]:
                p = p * self.zpoly(x)
            return p > 0 if f[2] > 0 else p < 0
        p = self.zpoly(f[1])
        return {"=": p == 0, ">": p > 0, "<": p < 0}[f[2]]

    def truth(self, f, s):
        """Value of a formula tree at a sample; Ambiguous near a boundary."""
        if f is True or f is False:
            return f
        k = f[0]
        if k == "and":
            r = True
            amb = False
            for x in f[1]:
                try:
                    if not self.truth(x, s):
                        return False
                except Ambiguous:
                    amb = True
            if amb:
                raise Ambiguous()
            return r
        if k == "or":
            amb = False
            for x in f[1]:
                try:
                    if self.truth(x, s):
                        return True
                except Ambiguous:
                    amb = True
            if amb:
                raise Ambiguous()
            return False
        if k == "not":
            return not self.truth(f[1], s)
        if k == "raw":
            raise Ambiguous()
        if k == "prod":
            n = f[2]
            for x in f[1]:
                n *= self.psign(x, s)
            return n > 0
        v = self.psign(f[1], s)
        if f[2] == "=":
            return False
        return v > 0 if f[2] == ">" else v < 0

    def psign(self, p, s):
        try:
            v = p.eval(s)
            m = p.size(s)
        except (ZeroDivisionError, OverflowError, ValueError):
            raise Ambiguous()
        if not self.is_real(v):
            raise Ambiguous()
        v = v.real
        if not abs(v) > 1e-9 * m:
            raise Ambiguous()
        return 1 if v > 0 else -1

    def filter(self, f):
        keep = []
        for s in self.samples:
            try:
                if self.truth(f, s):
                    keep.append(s)
            except Ambiguous:
                if has_raw(f):
                    keep.append(s)
        self.samples = keep

    def learn(self, f):
        """Remember signs that a formula taken as true fixes."""
        if f is True or f is False:
            return
        k = f[0]
        if k == "and":
            for x in f[1]:
                self.learn(x)
        elif k == "atom":
            if f[2] == ">":
                self.known[f[1]] = 1
            elif f[2] == "<":
                self.known[f[1]] = -1
        elif k == "not" and f[1][0] == "atom" and f[1][2] == "<":
            self.known.setdefault(f[1][1], 2)
        elif k == "not" and f[1][0] == "atom" and f[1][2] == "=" and self.known.get(f[1][1]) == 2:
            self.known[f[1][1]] = 1
        elif k == "or" and len(f[1]) == 2:
            a, b = f[1]
            if a[0] == b[0] == "atom" and a[1] == b[1] and {a[2], b[2]} == {">", "="}:
                self.known.setdefault(a[1], 2)
        # Consequences for products of sums are left to the solver.

    def take(self, f, zf):
        self.path.append(f)
        self.facts.append((zf, names(zf)))
        self.learn(f)
        self.filter(f)

    # ------------------------------------------------------------ the solver
    def feasible(self, zf):
        """Can the path go on with zf?  False only when the solver says unsat."""
        ctx = self.ctx
        r, m = ctx._push_query(zf if linear(zf) else z3.BoolVal(True))
        if r == z3.unsat:
            return False
        want = names(zf)
        for tier in (0, 1):
            fs = self.cone(want, tier)
            if tier == 1 and len(fs) == last:
                break
            last = len(fs)
            if all(linear(x) for x in fs) and linear(zf):
                continue
            s = z3.SolverFor("QF_NRA")
            s.set("timeout", 3000 if tier == 0 else 5000)
            s.add(*fs)
            s.add(zf)
            key = (zf.sexpr(), tuple(x.sexpr() for x in fs))
            got = self.nlcache.get(key)
            if got is None:
                if ctx.deadline is not None and time.time() > ctx.deadline:
                    raise core.OutOfTime()
                t = time.perf_counter()
                got = s.check()
                ctx.stats["solver_s"] += time.perf_counter() - t
                ctx.stats["queries"] += 1
                self.nlcache[key] = got
                if got == z3.unknown:
                    ctx.stats["nl_unknown"] = ctx.stats.get("nl_unknown", 0) + 1
            if got == z3.unsat:
                return False
        return True

    def cone(self, want, tier):
        want = set(want)
        if tier == 0:
            ext = set(want)
            for f, ns in self.facts:
                if len(ns & want) and len(ns) <= 3:
                    ext |= ns
            return [f for f, ns in self.facts if ns <= ext and ns & want]
        while True:
            n = len(want)
            for f, ns in self.facts:
                if ns & want:
                    want |= ns
            if len(want) == n:
                break
        return [f for f, ns in self.facts if ns & want]

    def add(self, cond, check=False):
        if isinstance(cond, bool):
            if not cond:
                raise core.PathAbort()
            return
        f = self.norm(cond)
        if f is True:
            return
        if f is False:
            raise core.PathAbort()
        zf = self.z(f)
        replay = self.ctx.pos < len(self.ctx.events)
        if check and not replay and not any(self.holds(f, s) for s in self.samples) and not self.feasible(zf):
            raise core.PathAbort()
        self.ctx.base_add(zf if linear(zf) else z3.BoolVal(True))
        self.take(f, zf)

    def holds(self, f, s):
        try:
            return self.truth(f, s)
        except Ambiguous:
            return False

    def fails(self, f, s):
        try:
            return not self.truth(f, s)
        except Ambiguous:
            return False

    def decide(self, cond):
        ctx = self.ctx
        f = cond if isinstance(cond, (tuple, bool)) else self.norm(cond)
        if f is True or f is False:
            return f
        zf = self.z(f)
        nf = f_not(f)
        if ctx.pos < len(ctx.events):
            ev = ctx.events[ctx.pos]
            if ev.kind != "D" or not ev.cond.eq(zf):
                raise core.EngineError("non-deterministic replay (D): %s vs %s" % (ev.cond, zf))
            ctx.pos += 1
            self.take(f if ev.val else nf, zf if ev.val else z3.Not(zf))
            return ev.val
        ctx.stats["decisions"] += 1
        ctx.tick()
        pt = any(self.holds(f, s) for s in self.samples)
        pf = any(self.fails(f, s) for s in self.samples)
        rt = pt or self.feasible(zf)
        rf = pf or not rt or self.feasible(z3.Not(zf))
        if not rt and not rf:
            raise core.PathAbort()
        if not rt or not rf:
            val = rt
            ctx.events.append(core.Ev("D", val, False, zf, False))
            ctx.stats["forced"] += 1
            ctx.pos += 1
            self.take(f if val else nf, zf if val else z3.Not(zf))
            return val
        ctx.solver.push()
        lin = linear(zf)
        if lin:
            ctx.solver.add(zf)
        ctx.model = None
        ctx.events.append(core.Ev("D", True, True, zf, True, data=None if lin else "nonlinear"))
        ctx.pos += 1
        self.take(f, zf)
        return True

    def check(self, cond, label, prefer=()):
        ctx = self.ctx
        ctx.reached[label] = ctx.reached.get(label, 0)
        f = cond if isinstance(cond, bool) else self.norm(cond)
        if ctx.pos < len(ctx.events):
            ev = ctx.events[ctx.pos]
            if ev.kind != "C":
                raise core.EngineError("non-deterministic replay (C)")
            ctx.pos += 1
            if not isinstance(f, bool):
                self.take(f, self.z(f))
            return
        ctx.stats["checks"] += 1
        ctx.reached[label] += 1
        if f is True:
            ctx.stats["trivially_true" if isinstance(cond, bool) else "checks_proved"] += 1
        else:
            bad = [s for s in self.samples if f is False or self.fails(f, s)]
            if bad:
                e = core.CheckFailed(label, False)
                e.samples = bad[:4]
                raise e
            zf = z3.BoolVal(False) if f is False else self.z(f)
            if self.feasible(z3.Not(zf)):
                e = core.CheckFailed(label, False)
                e.samples = self.witness(z3.Not(zf), f_not(f))
                e.weak = not e.samples
                raise e
            ctx.stats["checks_proved"] += 1
            self.take(f, zf)
        ctx.events.append(core.Ev("C"))
        ctx.pos += 1

    def witness(self, zf=None, f=True):
        """Samples of the path condition (and f): from a solver model, else drawn at random."""
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", 10000)
        s.add(*[x for x, _ in self.facts])
        if zf is not None:
            s.add(zf)
        t = time.perf_counter()
        r = s.check()
        self.ctx.stats["solver_s"] += time.perf_counter() - t
        self.ctx.stats["queries"] += 1
        if r == z3.unsat:
            return []
        want = [x for x in self.path if not has_raw(x)] + [f]
        last = []
        if r == z3.sat:
            m = s.model()
            x = Sample(self, 7)
            for g, G in enumerate(self.gens):
                if G.kind in ("in", "deg"):
                    z = G.z
                    if G.kind == "deg":
                        tg = self.byname.get("tan!" + G.name)
                        v = m.eval(self.gens[tg].z, model_completion=True)
                        x.v[g] = 2 * math.atan(fl(v))
                    else:
                        x.v[g] = fl(m.eval(z, model_completion=True))
            if not any(self.fails(c, x) for c in want):
                return [x]
            last = [x]
        t = time.time()
        for i in range(20000):
            x = Sample(self, NSAMPLES + i)
            if all(self.holds(c, x) for c in want):
                return [x]
            if time.time() - t > 3:
                break
        return last

    # ------------------------------------------------------------ inputs for replays
    def inputs(self, s, ctx):
        out = {}
        m = None
        for name, (kind, t) in ctx.inputs.items():
            if kind == "real":
                n = t.decl().name()
                if n in self.leaf:
                    v = s.fe(self.leaf[n])
                else:
                    v = s(self.newin(n))
                f = Fraction(repr(float(v)))
                out[name] = "%d/%d" % (f.numerator, f.denominator)
            else:
                if m is None:
                    ctx.solver.check()
                    m = ctx.solver.model()
                v = m.eval(t, model_completion=True)
                out[name] = str(v) == "True" if kind == "bool" else v.as_long()
        return out

    def newin(self, n):
        g = self.newgen("in", n, z3.Real(n), None, self.ranges.get(n))
        self.leaf[n] = self.K.gen(g)
        return g

    def models(self, limit=4, samples=None):
        ss = list(samples if samples is not None else self.samples[:limit])
        if not ss and samples is None:
            ss = self.witness()
        out = []
        for s in ss[:limit]:
            try:
                out.append((self.inputs(s, self.ctx), s))
            except (ZeroDivisionError, OverflowError, ValueError, TypeError, z3.Z3Exception):
                continue
        return out

    def value(self, x, s):
        """Concrete value of an observed number at a sample."""
        if isinstance(x, core.SymBool):
            return self.truth(self.norm(x.e), s)
        v = s.fe(self.of(x))
        return float(v.real)

    # ------------------------------------------------------------ signs and roots
    def sign(self, f):
        """-1, 0 or 1 for an irreducible polynomial (may fork)."""
        p = self.positive(f)
        if p in (1, -1):
            return p
        if self.decide(("atom", f, ">")):
            return 1
        if p != 2 and self.decide(("atom", f, "<")):
            return -1
        return 0

    def nonneg(self, f):
        """1 when f >= 0 on this path, else -1 (may fork)."""
        p = self.positive(f)
        if p in (1, 2):
            return 1
        if p == -1:
            return -1
        return -1 if self.decide(("atom", f, "<")) else 1

    def root(self, f):
        """Square root of an irreducible polynomial that is nonnegative here (or of its negation)."""
        r = self.rootgen.get(f)
        if r is not None:
            return r
        s = self.nonneg(f)
        sq = f if s > 0 else -f
        z = z3.Real("root!%d" % len(self.rootgen))
        g = self.newgen("q", z.decl().name(), z, sq)
        self.K.roots[g] = sq
        self.known[Poly.gen(g)] = 1 if self.known.get(f) in (1, -1) else 2
        zq = self.zpoly(sq)
        self.rawadd(z3.And(z >= 0, z * z == zq) if self.known[Poly.gen(g)] == 2 else z3.And(z > 0, z * z == zq))
        r = self.K.gen(g)
        self.rootgen[f] = r
        return r

    def sqrt_const(self, c):
        n = c.numerator * c.denominator
        r = Fraction(1, c.denominator)
        out, p = self.K.const(1), 2
        k = math.isqrt(n)
        if k * k == n:
            return self.K.const(k * r)
        if n > 10 ** 9:
            x = Fraction(repr(math.sqrt(c.numerator / c.denominator)))
            return self.K.const(x)
        while n > 1:
            e = 0
            while n % p == 0:
                n //= p
                e += 1
            r *= p ** (e // 2)
            if e % 2:
                out = self.K.mul(out, self.prime_root(p))
            p += 1
            if p * p > n and n > 1:
                p = n
        return self.K.scale(out, r)

    def prime_root(self, p):
        key = ("prime", p)
        r = self.rootgen.get(key)
        if r is None:
            z = z3.Real("root!p%d" % p)
            g = self.newgen("q", z.decl().name(), z, Poly.const(p))
            self.K.roots[g] = Poly.const(p)
            self.known[Poly.gen(g)] = 1
            self.rawadd(z3.And(z > 0, z * z == p))
            x = Fraction(math.isqrt(p * 10 ** 12), 10 ** 6)
            self.rawadd(z3.And(z >= core.realval(x), z <= core.realval(x + Fraction(1, 10 ** 6))))
            r = self.K.gen(g)
            self.rootgen[key] = r
        return r

    def sqrt(self, a):
        if a.zero():
            return a
        if self.decide(self.atom(self.K.neg(a), ">")):
            raise ValueError("math domain error")
        c, fs = self.K.factors(a)
        signs = 1 if c > 0 else -1
        out = self.sqrt_const(abs(c))
        rest = []
        for f, e in sorted(fs.items(), key=lambda x: x[0].order()):
            k = e // 2
            if k:
                s = self.nonneg(f) if k % 2 else 1
                out = self.K.mul(out, self.K.product(s, {f: k}))
            if e % 2:
                rest.append(f)
        for i, f in enumerate(rest):
            if len(f.d) == 1 and (f.gens() & self.K.roots.keys()):
                raise Unsupported("fourth roots")
            if i == len(rest) - 1 and self.positive(f) is None:
                # nonnegative radicand: the last sign follows from the others
                self.assume_sign(f, signs)
            s = self.nonneg(f)
            signs *= s
            out = self.K.mul(out, self.root(f))
        return out

    def assume_sign(self, f, s):
        if f in self.known:
            return
        self.known[f] = 2 if s > 0 else None
        if s < 0:
            del self.known[f]
            self.decide(("atom", f, ">"))

    def sqrt_hook(self, t):
        return self.out(self.sqrt(self.fe(t)))

    # ------------------------------------------------------------ angles
    def linform(self, a):
        """[(rational, angle generator)], rational multiple of pi; or None."""
        if a.den:
            return None
        terms = []
        turn = Fraction(0)
        for m, c in a.num.d.items():
            if m == ((self.PI, 1),):
                turn += c
            elif len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]].kind in ("deg", "ang", "def"):
                terms.append((Fraction(c), m[0][0]))
            else:
                return None
        return sorted(terms, key=lambda x: x[1]), turn

    def split(self, a):
        """Like linform, with generators defined for what is not linear."""
        r = self.linform(a)
        if r is not None:
            for c, g in r[0]:
                if g not in self.angles:
                    self.base_angle(g)
            return r
        # linear part in angle generators, the rest defined as a new angle
        lin, other = {}, {}
        if not a.den:
            for m, c in a.num.d.items():
                if len(m) == 1 and m[0][1] == 1 and (m[0][0] == self.PI or self.gens[m[0][0]].kind in ("deg", "ang", "def")):
                    lin[m] = c
                else:
                    other[m] = c
            rest = FE(Poly(other), {})
        else:
            rest = a
        k, prim = self.unit(rest)
        g = self.define(prim)
        b = self.K.add(FE(Poly(lin), {}), self.K.scale(self.K.gen(g), k))
        return self.split(b)

    def unit(self, a):
        """(k, b) with a = k b, the same b for all rational multiples."""
        c, p = a.num.primitive()
        for f in (Fraction(1),):
            pass
        # keep the magnitude of the rational factor, only normalise the sign
        s = -1 if c < 0 else 1
        return Fraction(s), self.K.scale(a, s)

    def define(self, a):
        key = a.key()
        g = self.opaque.get(key)
        if g is not None:
            return g
        z = z3.Real("arg!%d" % len(self.opaque))
        g = self.newgen("def", z.decl().name(), z, a)
        self.opaque[key] = g
        # z * den == num
        den = Poly.const(1)
        for f, e in a.den.items():
            den = den * f ** e
        self.rawadd(z * self.zpoly(den) == self.zpoly(a.num))
        # a multiple (at most 1) of another angle is no further from zero than it
        for h in sorted(a.num.gens()):
            if self.gens[h].kind in ("deg", "ang"):
                q = a.num.divide(Poly.gen(h))
                if q is not None:
                    k = self.K.make(q, a.den)
                    n = self.K.add(self.K.neg(self.K.mul(k, k)), self.one)
                    if not self.possible(self.atom(self.K.neg(n), ">")):
                        x = self.gens[h].z
                        self.rawadd(z3.And(z3.Implies(x >= 0, z3.And(z <= x, z >= -x)), z3.Implies(x <= 0, z3.And(z >= x, z <= -x))))
        return g

    def possible(self, f):
        """Feasibility without forking, remembered as a decision event."""
        if f is True or f is False:
            return f
        ctx = self.ctx
        if ctx.pos < len(ctx.events):
            ev = ctx.events[ctx.pos]
            if ev.kind != "P":
                raise core.EngineError("non-deterministic replay (P)")
            ctx.pos += 1
            return ev.val
        r = any(self.holds(f, s) for s in self.samples) or self.feasible(self.z(f))
        ctx.events.append(core.Ev("P", r))
        ctx.pos += 1
        return r

    def rot(self, x, y):
        """(sin, cos) of the sum of two angles given as (sin, cos)."""
        K = self.K
        return (K.add(K.mul(x[0], y[1]), K.mul(x[1], y[0])),
                K.sub(K.mul(x[1], y[1]), K.mul(x[0], y[0])))

    def halves(self, g):
        a = self.angles[g]
        if a.half is None:
            # cos of the half of an angle between -pi and pi is nonnegative
            c = self.sqrt(self.K.scale(self.K.add(self.one, a.cos), Fraction(1, 2)))
            if self.decide(self.atom(c, "=")):
                raise Unsupported("half of a straight angle")
            s = self.K.mul(self.K.scale(a.sin, Fraction(1, 2)), self.K.inv(c))
            a.half = lambda: (s, c)
        return a.half()

    def sincos(self, a):
        k = a.key()
        r = self.linkey.get(k)
        if r is not None:
            return r
        r = self.sincos1(a)
        self.linkey[k] = r
        if not any(e[0].key() == k for e in self.table):
            self.table.append((a, r[0], r[1]))
        return r

    def sincos1(self, a):
        K = self.K
        terms, turn = self.split(a)
        out = self.quarter(turn)
        for c, g in terms:
            ang = self.angles[g]
            if c.denominator == 1:
                x = (ang.sin, ang.cos)
                n = c.numerator
            elif c.denominator == 2:
                x = self.halves(g)
                n = c.numerator
            else:
                raise Unsupported("fraction 1/%d of an angle" % c.denominator)
            if n < 0:
                x = (K.neg(x[0]), x[1])
            for _ in range(abs(n)):
                out = self.rot(out, x)
        return out

    def quarter(self, turn):
        """(sin, cos) of turn * pi."""
        K = self.K
        turn = turn % 2
        n = turn * 4
        if n.denominator != 1:
            m = turn * 6
            if m.denominator == 1:
                h = K.const(Fraction(1, 2))
                r3 = K.scale(self.prime_root(3), Fraction(1, 2))
                base = {1: (h, r3), 2: (r3, h), 4: (r3, K.neg(h)), 5: (h, K.neg(r3)), 7: (K.neg(h), K.neg(r3)),
                        8: (K.neg(r3), K.neg(h)), 10: (K.neg(r3), h), 11: (K.neg(h), r3)}
                return base[int(m)]
            raise Unsupported("sine of %s pi" % turn)
        n = int(n)
        z, o = self.zero, self.one
        if n % 2 == 0:
            return [(z, o), (o, z), (z, K.neg(o)), (K.neg(o), z)][n // 2]
        r = K.scale(self.prime_root(2), Fraction(1, 2))
        m = K.neg(r)
        return {1: (r, r), 3: (r, m), 5: (m, m), 7: (m, r)}[n]

    def close(self, a, b):
        try:
            x, y = self.G.fe(a), self.G.fe(b)
            return abs(x - y) <= 1e-6 * max(1, abs(x))
        except (ZeroDivisionError, OverflowError, ValueError):
            return True

    def alike(self, a, b):
        return self.close(a, b) and self.K.sub(a, b).zero()

    def expand(self, lin):
        """Replace defined angles by their definitions."""
        K = self.K
        out = lin
        for m, c in lin.num.d.items():
            if len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]].kind == "def":
                g = m[0][0]
                out = K.add(out, K.scale(K.sub(self.gens[g].data, K.gen(g)), c))
        return out

    def angle_of(self, s, c, lo, hi):
        """The angle with this sine and cosine in (-pi, pi] (known to lie in [lo, hi] * pi)."""
        K = self.K
        for lin, s2, c2 in self.table:
            if self.alike(s, s2) and self.alike(c, c2):
                return self.wrap(lin)
        for lin, s2, c2 in list(self.table):
            # the mirror images of known angles
            if self.alike(s, K.neg(s2)) and self.alike(c, c2):
                return self.wrap(K.neg(lin))
            if self.alike(s, s2) and self.alike(c, K.neg(c2)):
                return self.wrap(K.sub(self.fePI, lin))
            if self.alike(s, K.neg(s2)) and self.alike(c, K.neg(c2)):
                return self.wrap(K.add(self.fePI, lin))
            # complements
            if self.alike(s, c2) and self.alike(c, s2):
                return self.wrap(K.sub(K.scale(self.fePI, Fraction(1, 2)), lin))
            if self.alike(s, c2) and self.alike(c, K.neg(s2)):
                return self.wrap(K.add(K.scale(self.fePI, Fraction(1, 2)), lin))
            if self.alike(s, K.neg(c2)) and self.alike(c, s2):
                return self.wrap(K.sub(lin, K.scale(self.fePI, Fraction(1, 2))))
            if self.alike(s, K.neg(c2)) and self.alike(c, K.neg(s2)):
                return self.wrap(K.neg(K.add(K.scale(self.fePI, Fraction(1, 2)), lin)))
        # doubles and halves
        ds, dc = K.scale(K.mul(s, c), 2), K.sub(K.mul(c, c), K.mul(s, s))
        for lin, s2, c2 in list(self.table):
            for sgn in (1, -1):
                if self.alike(c, K.sub(K.mul(c2, c2), K.mul(s2, s2))) and self.alike(s, K.scale(K.mul(s2, c2), 2 * sgn)):
                    return self.wrap(K.scale(lin, 2 * sgn))
                if self.alike(dc, c2) and self.alike(ds, K.scale(s2, sgn)):
                    h = K.scale(self.wrap(lin), Fraction(sgn, 2))
                    if self.decide(self.atom(K.neg(c), ">")):
                        h = K.add(h, self.fePI)
                    elif self.decide(self.atom(c, "=")):
                        break
                    return self.wrap(h)
        n = sum(1 for G in self.gens if G.kind == "ang")
        z = z3.Real("angle!%d" % n)
        ang = Angle(s, c)
        g = self.newgen("ang", z.decl().name(), z, ang)
        self.angles[g] = ang
        p = self.gens[self.PI].z
        self.rawadd(z3.And(z > -p if lo == -1 else z >= core.realval(lo) * p, z <= core.realval(hi) * p))
        fp, fn = self.z(self.atom(s, ">")), self.z(self.atom(K.neg(s), ">"))
        cp, cn = self.z(self.atom(c, ">")), self.z(self.atom(K.neg(c), ">"))
        self.rawadd(z3.Implies(fp, z3.And(z > 0, z < p)))
        self.rawadd(z3.Implies(fn, z3.And(z < 0, z > -p)))
        self.rawadd(z3.Implies(cp, z3.And(2 * z < p, 2 * z > -p)))
        self.rawadd(z3.Implies(cn, z3.Or(2 * z > p, 2 * z < -p)))
        self.rawadd(z3.Implies(z3.And(z3.Not(fp), z3.Not(fn)), z3.Or(z == 0, z == p, z == -p)))
        self.rawadd(z3.Implies(z3.And(z3.Not(cp), z3.Not(cn)), z3.Or(2 * z == p, 2 * z == -p)))
        fe = K.gen(g)
        self.table.append((fe, s, c))
        return fe

    def wrap(self, lin):
        for _ in range(8):
            if self.decide(self.atom(self.K.sub(lin, self.fePI), ">")):
                lin = self.K.sub(lin, self.K.scale(self.fePI, 2))
            elif self.decide(self.atom(self.K.neg(self.K.add(lin, self.fePI)), ">=")):
                lin = self.K.add(lin, self.K.scale(self.fePI, 2))
            else:
                return self.expand(lin)
        raise Unsupported("angle far out of range")

    def direction(self, y, x, lo=-1, hi=1):
        """Angle of the vector (x, y), not zero."""
        K = self.K
        cy, fy = K.factors(y) if not y.zero() else (Fraction(0), {})
        cx, fx = K.factors(x) if not x.zero() else (Fraction(0), {})
        if y.zero() or x.zero():
            v = x if y.zero() else y
            pos = not self.decide(self.atom(K.neg(v), ">"))
            s, c = (self.zero, self.one) if y.zero() else (self.one, self.zero)
            if not pos:
                s, c = K.neg(s), K.neg(c)
            return self.angle_of(s, c, lo, hi)
        g = {}
        for f in set(fx) | set(fy):
            a, b = fx.get(f, 0), fy.get(f, 0)
            e = min(a, b)
            if e:
                g[f] = e
        s = 1
        for f in sorted(g, key=Poly.order):
            if g[f] % 2:
                s *= self.nonneg(f)
        inv = K.product(s, {f: -e for f, e in g.items()})
        k = 1 / abs(cx)
        x, y = K.scale(K.mul(x, inv), k), K.scale(K.mul(y, inv), k)
        r = self.sqrt(K.add(K.mul(x, x), K.mul(y, y)))
        i = K.inv(r)
        return self.angle_of(K.mul(y, i), K.mul(x, i), lo, hi)

    def f_atan2(self, y, x):
        if y.zero() and x.zero():
            return self.zero
        if self.decide(f_and([self.atom(x, "="), self.atom(y, "=")])):
            return self.zero
        return self.direction(y, x)

    def f_atan(self, v):
        if v.zero():
            return v
        c, fs = self.K.factors(v)
        # v = y / x with x > 0
        y = {f: e for f, e in fs.items() if e > 0}
        x = {f: -e for f, e in fs.items() if e < 0}
        s = 1
        for f in sorted(x, key=Poly.order):
            if x[f] % 2:
                s *= self.nonneg(f)
        return self.direction(self.K.product(c * s, y), self.K.product(s, x), Fraction(-1, 2), Fraction(1, 2))

    def co(self, v):
        """sqrt(1 - v^2), with the domain check of the inverse functions."""
        K = self.K
        one = self.one
        n = K.sub(one, K.mul(v, v))
        if self.decide(self.atom(K.neg(n), ">")):
            raise ValueError("math domain error")
        return self.sqrt(n)

    def f_asin(self, v):
        return self.angle_of(v, self.co(v), Fraction(-1, 2), Fraction(1, 2))

    def f_acos(self, v):
        return self.angle_of(self.co(v), v, 0, 1)

    def f_sin(self, a): return self.sincos(a)[0]
    def f_cos(self, a): return self.sincos(a)[1]

    def f_tan(self, a):
        K = self.K
        terms, turn = self.split(a)
        if any(c.denominator > 1 for c, _ in terms) or (turn * 2).denominator > 1:
            s, c = self.sincos(K.scale(a, 2))
            d = K.add(self.one, c)
            if self.decide(self.atom(d, "=")):
                raise Unsupported("tangent of a right angle")
            return K.mul(s, K.inv(d))
        s, c = self.sincos(a)
        if c.zero() or self.decide(self.atom(c, "=")):
            raise Unsupported("tangent of a right angle")
        return K.mul(s, K.inv(c))

    # ------------------------------------------------------------ exponentials
    def log_irr(self, f):
        """log |f| of an irreducible polynomial of known sign."""
        if len(f.d) == 1:
            g = next(iter(f.gens()))
            if self.gens[g].kind == "E":
                return self.gens[g].data
            if self.gens[g].kind == "q":
                sq = self.gens[g].data
                return self.K.scale(self.f_log(self.K.make(sq, {})), Fraction(1, 2))
        r = self.loggen.get(f)
        if r is None:
            s = self.nonneg(f)
            p = f if s > 0 else -f
            z = z3.Real("log!%d" % len(self.loggen))
            g = self.newgen("L", z.decl().name(), z, p)
            zp = self.zpoly(p)
            self.rawadd(z3.And((z > 0) == (zp > 1), (z < 0) == (zp < 1)))
            r = self.K.gen(g)
            self.loggen[f] = r
        return r

    def f_log(self, v, base=None):
        K = self.K
        if not self.decide(self.atom(v, ">")):
            raise ValueError("math domain error")
        c, fs = K.factors(v)
        out = self.zero
        for n, sgn in ((abs(c).numerator, 1), (abs(c).denominator, -1)):
            p = 2
            if n > 10 ** 9:
                raise Unsupported("logarithm of a large constant")
            while n > 1:
                while n % p == 0:
                    n //= p
                    out = K.add(out, K.scale(self.log_prime(p), sgn))
                p += 1
                if p * p > n and n > 1:
                    p = n
        for f, e in sorted(fs.items(), key=lambda x: x[0].order()):
            out = K.add(out, K.scale(self.log_irr(f), e))
        if base is not None:
            return K.div(out, self.f_log(base))
        return out

    def log_prime(self, p):
        key = ("prime", p)
        r = self.loggen.get(key)
        if r is None:
            z = z3.Real("log!p%d" % p)
            g = self.newgen("L", z.decl().name(), z, Poly.const(p))
            x = Fraction(int(math.log(p) * 10 ** 9), 10 ** 9)
            self.rawadd(z3.And(z > core.realval(x - Fraction(1, 10 ** 8)), z < core.realval(x + Fraction(1, 10 ** 8))))
            r = self.K.gen(g)
            self.loggen[key] = r
        return r

    def f_exp(self, u):
        K = self.K
        out = self.one
        rest = {}
        if u.den:
            rest = None
        else:
            for m, c in u.num.d.items():
                if len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]].kind == "L" and Fraction(c).denominator <= 2:
                    p = self.gens[m[0][0]].data
                    k = Fraction(c)
                    x = K.make(p, {})
                    if k.denominator == 2:
                        x = self.sqrt(x)
                        k = k * 2
                    if k < 0:
                        x = K.inv(x)
                    for _ in range(abs(int(k))):
                        out = K.mul(out, x)
                else:
                    rest[m] = c
        r = u if rest is None else FE(Poly(rest), {})
        if not r.zero():
            k, prim = r.num.primitive()
            base = FE(prim, r.den)
            n = Fraction(k)
            d = n.denominator
            base = K.scale(base, Fraction(1, d))
            key = base.key()
            g = self.expgen.get(key)
            if g is None:
                z = z3.Real("exp!%d" % len(self.expgen))
                g = self.newgen("E", z.decl().name(), z, base)
                self.known[Poly.gen(g)] = 1
                self.rawadd(z > 0)
                bp, bn = self.z(self.atom(base, ">")), self.z(self.atom(K.neg(base), ">"))
                self.rawadd(z3.And((z > 1) == bp, (z < 1) == bn))
                self.expgen[key] = g
            x = K.gen(g)
            n = int(n * d)
            if n < 0:
                x = K.inv(x)
            for _ in range(abs(n)):
                out = K.mul(out, x)
        return out

    def f_sinh(self, u):
        e = self.f_exp(u)
        return self.K.scale(self.K.sub(e, self.K.inv(e)), Fraction(1, 2))

    def f_cosh(self, u):
        e = self.f_exp(u)
        return self.K.scale(self.K.add(e, self.K.inv(e)), Fraction(1, 2))

    def f_tanh(self, u):
        e = self.f_exp(self.K.scale(u, 2))
        return self.K.div(self.K.sub(e, self.one), self.K.add(e, self.one))

    def f_asinh(self, v):
        return self.f_log(self.K.add(v, self.sqrt(self.K.add(self.K.mul(v, v), self.one))))

    def f_acosh(self, v):
        if self.decide(self.atom(self.K.sub(self.one, v), ">")):
            raise ValueError("math domain error")
        return self.f_log(self.K.add(v, self.sqrt(self.K.sub(self.K.mul(v, v), self.one))))

    def f_atanh(self, v):
        K = self.K
        if not self.decide(f_and([self.atom(K.sub(self.one, v), ">"), self.atom(K.add(self.one, v), ">")])):
            raise ValueError("math domain error")
        a, b = self.f_log(K.add(self.one, v)), self.f_log(K.sub(self.one, v))
        return K.scale(K.sub(a, b), Fraction(1, 2))

    def f_expm1(self, u): return self.K.sub(self.f_exp(u), self.one)
    def f_log1p(self, u): return self.f_log(self.K.add(u, self.one))
    def f_log10(self, u): return self.f_log(u, self.K.const(10))
    def f_log2(self, u): return self.f_log(u, self.K.const(2))

    def f_remainder(self, a, b):
        K = self.K
        q = K.div(a, b)
        n = self.floor(K.add(q, K.const(Fraction(1, 2))))
        if self.decide(self.atom(K.sub(K.sub(n, q), K.const(Fraction(1, 2))), "=")):
            raise Unsupported("remainder halfway")
        return K.sub(a, K.mul(n, b))

    def f_radians(self, a):
        return self.K.scale(self.K.mul(a, self.fePI), Fraction(1, 180))

    def f_degrees(self, a):
        return self.K.scale(self.K.mul(a, self.K.inv(self.fePI)), 180)

    def pow_hook(self, a, b):
        a, b = self.of(a), self.of(b)
        c = b.const()
        if c is not None and (c * 2).denominator == 1:
            x = self.sqrt(a)
            n = int(c * 2)
            out = self.one
            for _ in range(abs(n)):
                out = self.K.mul(out, x)
            return self.out(self.K.inv(out) if n < 0 else out)
        return self.out(self.f_exp(self.K.mul(b, self.f_log(a))))

    def call(self, name, args):
        fs = []
        for x in args:
            if isinstance(x, float):
                fs.append(self.of(x))
            else:
                fs.append(self.of(x))
        fn = getattr(self, "f_" + name, None)
        if fn is None:
            raise Unsupported("math." + name)
        self.ctx.tick()
        return self.out(fn(*fs))

    # ------------------------------------------------------------ derivatives
    def derivative(self, x, angle):
        """Derivative of a value by an angle input (per radian)."""
        a = self.of(angle)
        r = a.num.d
        if len(r) == 1 and not a.den and self.gens[next(iter(a.gens()))].kind == "in":
            wrt = next(iter(a.gens()))
        else:
            r = self.linform(self.f_radians(a))
            if r is None or len(r[0]) != 1 or r[0][0][0] != 1 or self.gens[r[0][0][1]].kind != "deg":
                raise Unsupported("derivative by a composite angle")
            wrt = r[0][0][1]
        memo = {}

        def dg(g):
            if g in memo:
                return memo[g]
            G = self.gens[g]
            K = self.K
            memo[g] = self.zero
            if g == wrt:
                v = self.one
            elif G.kind == "t":
                d = dg(G.data)
                v = self.zero if d.zero() else K.mul(d, K.scale(K.add(self.one, K.mul(K.gen(g), K.gen(g))), Fraction(1, 2)))
            elif G.kind == "q":
                d = K.diff(K.make(G.data, {}), dg)
                v = self.zero if d.zero() else K.div(K.scale(d, Fraction(1, 2)), K.gen(g))
            elif G.kind == "L":
                d = K.diff(K.make(G.data, {}), dg)
                v = self.zero if d.zero() else K.div(d, K.make(G.data, {}))
            elif G.kind == "E":
                d = K.diff(G.data, dg)
                v = self.zero if d.zero() else K.mul(d, K.gen(g))
            elif G.kind == "def":
                v = K.diff(G.data, dg)
            elif G.kind == "ang":
                s, c = G.data.sin, G.data.cos
                v = K.sub(K.mul(c, K.diff(s, dg)), K.mul(s, K.diff(c, dg)))
            else:
                v = self.zero
            memo[g] = v
            return v
        return self.out(self.K.diff(self.of(x), dg))


# ---------------------------------------------------------------- formula trees


def f_key(f):
    """Orders formula trees the same way on every run (z3 sorts by term number)."""
    k = f[0]
    if k == "atom":
        return (k, f[2], f[1].order())
    if k == "prod":
        return (k, f[2], [x.order() for x in f[1]])
    if k == "not":
        return (k, f_key(f[1]))
    if k == "raw":
        return (k, f[1].sexpr())
    return (k, [f_key(x) for x in f[1]])


def f_and(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else ("and", sorted(out, key=f_key))


def f_or(xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else ("or", sorted(out, key=f_key))


def f_not(x):
    if x is True or x is False:
        return not x
    if x[0] == "not":
        return x[1]
    if x[0] == "and":
        return f_or([f_not(y) for y in x[1]])
    if x[0] == "or":
        return f_and([f_not(y) for y in x[1]])
    return ("not", x)


def has_raw(f):
    if f is True or f is False:
        return False
    if f[0] == "raw":
        return True
    if f[0] in ("and", "or"):
        return any(has_raw(x) for x in f[1])
    return f[0] == "not" and has_raw(f[1])


def has_floor(f):
    stack = [f]
    while stack:
        x = stack.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_INT:
            return True
        stack.extend(x.children())
    return False


NAMES = {}


def names(f):
    k = f.get_id()
    r = NAMES.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    out = set()
    seen = set()
    stack = [f]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    out = frozenset(out - {"PI"})
    NAMES[k] = (f, out)
    return out


def linear(f):
    """No product of variables anywhere in the formula."""
    stack = [f]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_mul(x):
            if sum(0 if z3.is_rational_value(c) or z3.is_int_value(c) else 1 for c in x.children()) > 1:
                return False
        stack.extend(x.children())
    return True


def fl(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    return v.numerator_as_long() / v.denominator_as_long()
