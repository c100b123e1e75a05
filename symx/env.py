"""The interface harnesses are written against.

One harness function runs in two modes: symbolically, over the instrumented
source of the package (SymEnv), and concretely, over the package imported
normally from /repo (RealEnv), which is how every counterexample is replayed
and how a sample of the explored paths is validated.
"""

import importlib
import os
import sys
import tempfile
from fractions import Fraction


class AssumeFailed(BaseException):
    pass


class ConcreteCheckFailed(BaseException):
    def __init__(self, label, detail=""):
        self.label = label
        self.detail = detail


ALPHABETS = {
    "ascii": (32, 126),
    "bmp": (32, 0xD7FF),
    "byte": (0, 255),
    "any": (1, 0x10FFFF),
}


class BaseEnv:
    symbolic = False
    tol = 1e-7

    # time source used by the code under test; harnesses may replace it
    def clock(self, which):
        f = getattr(self, "clock_fn", None)
        if f is not None:
            return f(which)
        return 0.0

    def localtime(self):
        f = getattr(self, "localtime_fn", None)
        if f is not None:
            return f()
        import time
        return time.gmtime(86400 * 365)

    def raises(self, exc, fn, *a, **k):
        """True when fn(*a, **k) raises exc (engine signals pass through)."""
        try:
            fn(*a, **k)
        except exc:
            return True
        return False


# ---------------------------------------------------------------- symbolic


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, ctx):
        from . import instrument
        self.ctx = ctx
        self.loader = instrument.Loader(self)
        self.has_real = False

    # -- inputs
    def _reg(self, name, kind, term):
        c = self.ctx
        if name in c.inputs:
            raise ValueError("duplicate input " + name)
        c.inputs[name] = (kind, term)

    def int(self, name, lo=None, hi=None):
        import z3
        from .core import SymInt
        t = z3.Int(name)
        self._reg(name, "int", t)
        if lo is not None and lo == hi:
            self.ctx.add(t == lo)
            return lo
        if lo is not None:
            self.ctx.add(t >= lo)
        if hi is not None:
            self.ctx.add(t <= hi)
        return SymInt(t)

    def real(self, name, lo=None, hi=None):
        import z3
        from .core import SymReal, realval
        t = z3.Real(name)
        self._reg(name, "real", t)
        self.has_real = True
        trig = getattr(self.ctx, "trig", None)
        if trig is not None:
            trig.note_real(name, lo, hi)
        if lo is not None:
            self.ctx.add(t >= realval(lo))
        if hi is not None:
            self.ctx.add(t <= realval(hi))
        return SymReal(t)

    def angle(self, name, lo, hi):
        """An angle in degrees between lo and hi (-180 and 180 themselves excluded)."""
        import z3
        from .core import SymReal
        t = z3.Real(name)
        self._reg(name, "real", t)
        self.has_real = True
        self.ctx.trig.input_angle(name, lo, hi, t)
        return SymReal(t)

    def sin(self, deg):
        t = self.ctx.trig
        return t.call("sin", [t.call("radians", [deg])])

    def cos(self, deg):
        t = self.ctx.trig
        return t.call("cos", [t.call("radians", [deg])])

    def pi(self):
        return self.ctx.trig.pi()

    def tanh(self, x):
        return self.ctx.trig.call("tanh", [x])

    def sqrt(self, x):
        from .shims import m_sqrt
        return m_sqrt(x)

    def same_angle(self, a, b, label):
        """a and b (degrees) differ by whole turns."""
        self.check(self.cos(a - b) == 1, label)

    def partials(self, fn, args, wrt, unit="radian"):
        """Partial derivatives of each component of fn(*args), per radian of the arguments listed.

        wrt: pairs of an argument's position and the angle input to vary in it.
        """
        t = self.ctx.trig
        out = fn(*args)
        return out, [[t.derivative(v, a) for i, a in wrt] for v in out]

    def bool(self, name):
        import z3
        from .core import SymBool
        t = z3.Bool(name)
        self._reg(name, "bool", t)
        return SymBool(t)

    def num(self, name, lo, hi):
        """Enumerated (concretised) integer in lo..hi."""
        v = self.int(name, lo, hi)
        return v if type(v) is int else self.ctx.concretize(v.e, name)

    def choice(self, name, options):
        return options[self.num(name, 0, len(options) - 1)]

    def flag(self, name):
        return self.choice(name, [False, True])

    def bytes(self, name, n, lo=0, hi=255):
        import z3
        from .core import SymInt
        from .seqs import SymBytes
        ts = [z3.Int("%s[%d]" % (name, i)) for i in range(n)]
        self._reg(name, "bytes", ts)
        for t in ts:
            self.ctx.add(z3.And(t >= lo, t <= hi))
        return SymBytes.make([SymInt(t) for t in ts])

    def str(self, name, n, alphabet="ascii", exclude="", chars=None):
        import z3
        from .core import SymInt
        from .seqs import SymStr
        ts = [z3.Int("%s[%d]" % (name, i)) for i in range(n)]
        self._reg(name, "str", ts)
        for t in ts:
            if chars is not None:
                self.ctx.add(z3.Or(*[t == ord(c) for c in chars]))
                continue
            lo, hi = ALPHABETS[alphabet]
            self.ctx.add(z3.And(t >= lo, t <= hi, *[t != ord(c) for c in exclude]))
            if hi > 0xD7FF:
                self.ctx.add(z3.Or(t < 0xD800, t > 0xDFFF))
        return SymStr.make([SymInt(t) for t in ts])

    # -- logic without forking
    def And(self, *xs):
        from .core import band
        return band(*(list(xs) + [True]))

    def Or(self, *xs):
        from .core import bor
        return bor(*(list(xs) + [False]))

    def Not(self, x):
        from .core import bnot
        return bnot(x)

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def iff(self, a, b):
        import z3
        from .core import zbool, mkbool
        return mkbool(z3.simplify(zbool(a) == zbool(b)))

    def ite(self, c, a, b):
        import z3
        from .core import zbool, lift, to_real, mks, SymBool
        if not isinstance(c, SymBool):
            return a if c else b
        x, y = lift(a), lift(b)
        if x.is_real() or y.is_real():
            x, y = to_real(x), to_real(y)
        return mks(z3.If(c.e, x, y))

    def eq(self, a, b):
        """Deep equality as a (possibly symbolic) truth value, no forking."""
        from .shims import deep_eq
        return deep_eq(a, b)

    def feq(self, a, b):
        """Equality of reals (floats compare up to rounding when concrete)."""
        return a == b

    def fle(self, a, b):
        return a <= b

    def frac(self, a, b):
        """The exact ratio of two integers (a float when concrete)."""
        from .core import SymReal, realval
        return SymReal(realval(Fraction(a, b)))

    # -- assumptions and assertions
    def assume(self, cond):
        from .core import as_cond
        self.ctx.add(as_cond(cond), check=True)

    def check(self, cond, label):
        from .core import as_cond
        self.ctx.check(as_cond(cond), label)

    def check_eq(self, a, b, label):
        self.observe(label, a)
        r = self.eq(a, b)
        self.check(r, label)

    def near(self, a, b, label, tol=0, scale=1):
        import z3
        from .core import lift, to_real, realval
        self.observe(label, a)
        x, y = lift(a), lift(b)
        if x is None or y is None:
            self.ctx.check(False, label)
            return
        x, y = to_real(x), to_real(y)
        d = x - y
        if tol:
            t = realval(tol)
            cond = z3.And(d <= t, -d <= t)
        else:
            cond = z3.simplify(x == y)
            if z3.is_true(cond):
                cond = True
            elif z3.is_false(cond):
                # plain numbers are rounded by the code under test itself
                e = z3.simplify(d)
                cond = z3.is_rational_value(e) and abs(e.as_fraction()) <= Fraction(1, 10 ** 9) * max(scale, 1)
        pref = [z3.Or(d > realval(k), -d > realval(k)) for k in (0.1, 0.001)] if cond is not False else []
        self.ctx.check(cond, label, prefer=pref)

    def le(self, a, b, label):
        import z3
        from .core import lift, to_real, realval
        x, y = to_real(lift(a)), to_real(lift(b))
        cond = z3.simplify(x <= y)
        if z3.is_true(cond):
            cond = True
        elif z3.is_false(cond):
            cond = False
        self.ctx.check(cond, label, prefer=[x > y + realval(k) for k in (0.1, 0.001)] if cond is not False else [])

    def observe(self, name, value):
        self.ctx.observed.append((name, value))

    # -- code under test
    def mod(self, name):
        if name == "":
            return self.loader.load("coral")
        return self.loader.load("coral." + name)

    def path(self, name):
        return "/symfs/" + name

    def BytesIO(self, data=b""):
        from .shims import BytesIOShim
        return BytesIOShim(data)

    def StringIO(self, data=""):
        from .shims import StringIOShim
        return StringIOShim(data)

    def file_bytes(self, name):
        from .shims import open_memfs
        return open_memfs(name, "rb").read()

    def file_text(self, name):
        from .shims import open_memfs
        return open_memfs(name, "r").read()

    def put_file(self, name, data):
        from .shims import open_memfs
        from .seqs import SymStr
        text = isinstance(data, (str, SymStr))
        f = open_memfs(name, "w" if text else "wb")
        f.write(data)

    def exists(self, name):
        return name in self.ctx.memfs

    def opaque_floats(self):
        """Rounded decimals are not expanded into digits."""
        self.ctx.opaque_floats = True

    def capture(self, fn, *a, **k):
        """(result, text written to standard output) of a call."""
        from .shims import cat
        self.ctx.printed = []
        r = fn(*a, **k)
        out, self.ctx.printed = self.ctx.printed, None
        return r, cat(out)

    def partial(self, why):
        from .core import Unsupported
        raise Unsupported(why)


# ---------------------------------------------------------------- concrete


class RealEnv(BaseEnv):
    symbolic = False

    def __init__(self, inputs, tmpdir):
        self.inputs = inputs
        self.tmp = tmpdir
        self.observed = []
        self.reached = []

    def int(self, name, lo=None, hi=None):
        v = int(self.inputs[name])
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFailed()
        return v

    def num(self, name, lo, hi):
        return self.int(name, lo, hi)

    def real(self, name, lo=None, hi=None):
        f = Fraction(self.inputs[name])
        v = f.numerator / f.denominator
        if lo is not None and v < lo: v = lo
        if hi is not None and v > hi: v = hi
        return float(v)

    def angle(self, name, lo, hi):
        return self.real(name, lo, hi)

    def sin(self, deg):
        import math
        return math.sin(math.radians(deg))

    def cos(self, deg):
        import math
        return math.cos(math.radians(deg))

    def pi(self):
        import math
        return math.pi

    def tanh(self, x):
        import math
        return math.tanh(x)

    def sqrt(self, x):
        import math
        return math.sqrt(x)

    def same_angle(self, a, b, label):
        self.reached.append(label)
        d = (a - b + 180) % 360 - 180
        if not abs(d) <= 1e-5:
            raise ConcreteCheckFailed(label, "got %s expected %s" % (short(a), short(b)))

    def partials(self, fn, args, wrt, unit="radian"):
        """Central differences (extrapolated once) in place of the derivatives."""
        import math
        out = fn(*args)
        rows = [[] for _ in out]
        for i, _ in wrt:
            def slope(h):
                lo, hi = list(args), list(args)
                lo[i] -= h
                hi[i] += h
                return [(q - p) / math.radians(2 * h) for p, q in zip(fn(*lo), fn(*hi))]
            a, b = slope(2e-3), slope(1e-3)
            k = 1 if unit == "radian" else math.radians(1)
            for r, p, q in zip(rows, a, b):
                r.append((4 * q - p) / 3 * k)
        return out, rows

    def bool(self, name):
        return bool(self.inputs[name])

    def choice(self, name, options):
        return options[self.num(name, 0, len(options) - 1)]

    def flag(self, name):
        return self.choice(name, [False, True])

    def bytes(self, name, n, lo=0, hi=255):
        return bytes(self.inputs[name])

    def str(self, name, n, alphabet="ascii", exclude="", chars=None):
        return "".join(map(chr, self.inputs[name]))

    def And(self, *xs): return all(xs)
    def Or(self, *xs): return any(xs)
    def Not(self, x): return not x
    def implies(self, a, b): return (not a) or b
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if c else b

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return type(a) == type(b) and len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return bool(a == b)

    def feq(self, a, b):
        return abs(a - b) <= self.tol * max(1, abs(a), abs(b))

    def frac(self, a, b):
        return a / b

    def fle(self, a, b):
        return a <= b + self.tol * max(1, abs(a), abs(b))

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label):
        self.reached.append(label)
        if not cond:
            raise ConcreteCheckFailed(label)

    def check_eq(self, a, b, label):
        self.observe(label, a)
        self.reached.append(label)
        if not self.eq(a, b):
            raise ConcreteCheckFailed(label, "got %s expected %s" % (short(a), short(b)))

    def near(self, a, b, label, tol=0, scale=1):
        self.observe(label, a)
        self.reached.append(label)
        import numbers
        ok = isinstance(a, numbers.Real) and isinstance(b, numbers.Real)
        if ok:
            ok = abs(a - b) <= tol + self.tol * max(scale, abs(a), abs(b))
        if not ok:
            raise ConcreteCheckFailed(label, "got %s expected %s" % (short(a), short(b)))

    def le(self, a, b, label):
        self.reached.append(label)
        if not a <= b + self.tol * max(1, abs(a), abs(b)):
            raise ConcreteCheckFailed(label, "%s <= %s" % (short(a), short(b)))

    def observe(self, name, value):
        self.observed.append((name, value))

    def mod(self, name):
        if name == "":
            return importlib.import_module("coral")
        return importlib.import_module("coral." + name)

    def path(self, name):
        return os.path.join(self.tmp, name)

    def BytesIO(self, data=b""):
        import io
        return io.BytesIO(data)

    def StringIO(self, data=""):
        import io
        return io.StringIO(data)

    def file_bytes(self, name):
        with open(name, "rb") as f:
            return f.read()

    def file_text(self, name):
        with open(name, "r", encoding="utf-8", newline="") as f:
            return f.read()

    def put_file(self, name, data):
        if isinstance(data, str):
            with open(name, "w", encoding="utf-8", newline="") as f:
                f.write(data)
        else:
            with open(name, "wb") as f:
                f.write(data)

    def exists(self, name):
        return os.path.exists(name)

    def opaque_floats(self):
        pass

    def capture(self, fn, *a, **k):
        import contextlib
        import io
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = fn(*a, **k)
        return r, buf.getvalue()

    def partial(self, why):
        raise AssumeFailed()


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."
