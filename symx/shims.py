"""Models of the builtins and library modules the code under test calls.

Every function behaves as the real one on concrete arguments (it delegates to
it) and has a symbolic model otherwise; what has no model raises Unsupported.
"""

import builtins
import io as _io
import itertools
import json as _json
import math as _math
import os as _os
import string as _string
import struct as _struct
import sys as _sys
import re
import subprocess
import types
from fractions import Fraction
import z3

from .core import (SymNum, SymInt, SymReal, SymBool, Unsupported, PathAbort, BoundExceeded,
                   EngineError, ctx, lift, to_real, mk, mks, mkbool, zbool, band, bor, bnot,
                   token, has_token, is_token_char, token_value, trunc, round_half_even,
                   divide, realval, is_num)
from . import commands, core, seqs
from .seqs import SymBytes, SymStr, SymSeq, ByteTok, norm_el, parse_int_elems, expand_tokens

POW_HOOK = None

SYM_SCALAR = (SymNum, SymBool)
SYM_ANY = (SymNum, SymBool, SymSeq)


def deep_sym(x, depth=4):
    if isinstance(x, SYM_ANY) or isinstance(x, ByteTok):
        return True
    if depth and isinstance(x, (tuple, list, set, frozenset)):
        return any(deep_sym(y, depth - 1) for y in x)
    if isinstance(x, str):
        return has_token(x)
    return False


# ---------------------------------------------------------------- type shims


class ShimType:
    """Callable stand-in for a builtin type that also accepts symbolic values."""

    def __init__(self, real, syms, call):
        self._real = real
        self._syms = syms
        self._call = call
        self.__name__ = real.__name__
        self.__doc__ = real.__doc__

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __getattr__(self, n):
        if n.startswith("_sx_"):
            raise AttributeError(n)
        return getattr(self._real, n)

    def __instancecheck__(self, x):
        return isinstance(x, self._real) or isinstance(x, self._syms)

    def __subclasscheck__(self, c):
        if isinstance(c, ShimType):
            c = c._real
        return issubclass(c, self._real)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __eq__(self, o):
        return o is self or o is self._real

    def __hash__(self):
        return hash(self._real)

    def __or__(self, o):
        return self._real | o

    def __repr__(self):
        return repr(self._real)


def b_int(x=0, base=None):
    if base is not None:
        if isinstance(x, SymSeq) or (isinstance(x, str) and has_token(x)):
            if base != 10:
                raise Unsupported("int(symbolic text, base)")
        else:
            return int(x, base)
    if isinstance(x, SYM_SCALAR):
        return trunc(x)
    if isinstance(x, str) and has_token(x):
        s = x.strip()
        if len(s) == 1:
            v = token_value(s)
            if isinstance(v, SymReal):
                raise ValueError("invalid literal for int() with base 10")
            return v
        return parse_int_elems(expand_tokens(s))
    if isinstance(x, SymSeq):
        return parse_int_elems([norm_el(e) for e in x.d])
    tr = getattr(type(x), "__trunc__", None)
    return int(x)


def b_float(x=0.0):
    if isinstance(x, SYM_SCALAR):
        return SymReal(to_real(lift(x)))
    if isinstance(x, str) and has_token(x):
        s = x.strip()
        if len(s) == 1:
            return b_float(token_value(s))
        raise Unsupported("float() of mixed token text")
    if isinstance(x, SymSeq):
        t = b_float_seq(x)
        return t
    return float(x)


def b_float_seq(x):
    """Plain decimal literals: [sign] digits [. digits] ; forks on shape."""
    d = SymStr.elems(SymStr([norm_el(e) for e in x.d]).strip())
    v = seqs.recall(d)
    if v is not None:
        return SymReal(to_real(lift(v)))
    sign = 1
    if d and d[0] == 45:
        sign = -1
        d = d[1:]
    elif d and d[0] == 43:
        d = d[1:]
    num, k, seen, nd = 0, 0, False, 0
    for c in d:
        if c == 46:
            if seen:
                raise ValueError("could not convert string to float")
            seen = True
            continue
        if not band(c >= 48, c <= 57):
            if bor(c == 101, c == 69, c == 95, c == 110, c == 105, c == 73, c == 78):
                raise Unsupported("float() of an exponent/nan/inf literal")
            raise ValueError("could not convert string to float")
        num = num * 10 + (c - 48)
        nd += 1
        if seen:
            k += 1
    if not nd:
        raise ValueError("could not convert string to float")
    v = sign * num
    if isinstance(v, SymNum):
        return SymReal(z3.simplify(to_real(v.e) / realval(10 ** k)))
    return v / 10 ** k


def b_str(x="", *a):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymBytes):
        if a:
            return x.decode(*a)
        raise Unsupported("str() of symbolic bytes")
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, SymNum):
        return token(x)
    if a:
        return str(x, *a)
    t = type(x)
    if t not in (str, int, float, bool, type(None), bytes) and isinstance(x, (list, tuple, dict, set)) and deep_sym(x):
        raise Unsupported("str() of a container with symbolic elements")
    return str(x)


def b_bytes(x=b"", *a, **k):
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymStr):
        return x.encode(*(a or ("utf-8",)))
    if isinstance(x, str) and has_token(x):
        return SymStr(expand_tokens(x)).encode(*(a or ("utf-8",)))
    if isinstance(x, SymInt):
        return bytes(x.__index__())
    if isinstance(x, (bytes, int, str)):
        return bytes(x, *a, **k)
    if isinstance(x, (Array, ByteArray)):
        return x.tobytes()
    items = list(x)
    if any(isinstance(i, SYM_SCALAR) for i in items):
        out = []
        for i in items:
            if isinstance(i, SymReal):
                raise TypeError("'float' object cannot be interpreted as an integer")
            if isinstance(i, SymBool):
                i = SymInt(lift(i))
            if not band(i >= 0, i <= 255):
                raise ValueError("bytes must be in range(0, 256)")
            out.append(i)
        return SymBytes.make(out)
    return bytes(items)


class ByteArray:
    """bytearray model (used only when the code asks for one)."""

    def __init__(self, x=b"", *a):
        if isinstance(x, int):
            self.l = [0] * x
        elif isinstance(x, (bytes, bytearray)):
            self.l = list(x)
        elif isinstance(x, SymBytes):
            self.l = list(x.d)
        elif isinstance(x, (str, SymStr)):
            self.l = SymBytes.elems(b_bytes(x, *a))
        else:
            self.l = SymBytes.elems(b_bytes(list(x)))

    def tobytes(self): return SymBytes.make(self.l)
    def __len__(self): return len(self.l)
    def __iter__(self): return iter([norm_el(x) for x in self.l])
    def _n(self): return self.tobytes()

    def __getitem__(self, k):
        if isinstance(k, slice):
            r = ByteArray()
            r.l = self.l[k]
            return r
        return list_get([norm_el(x) for x in self.l], k)

    def _chk(self, v):
        if not band(v >= 0, v <= 255):
            raise ValueError("byte must be in range(0, 256)")
        return v

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.l[k] = SymBytes.elems(b_bytes(v))
        else:
            list_set(self.l, k, self._chk(v))

    def append(self, v): self.l.append(self._chk(v))

    def extend(self, it):
        self.l.extend(SymBytes.elems(b_bytes(it)))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = ByteArray()
        r.l = self.l + SymBytes.elems(b_bytes(o))
        return r

    def __eq__(self, o):
        a = SymBytes(self.l)
        return a.eq(b_bytes(o)) if isinstance(o, (ByteArray, bytes, SymBytes)) else False

    def reverse(self): self.l.reverse()
    def insert(self, i, v): self.l.insert(i, self._chk(v))
    def pop(self, i=-1): return norm_el(self.l.pop(i))
    def decode(self, *a): return meth(self.tobytes(), "decode", *a)

    __hash__ = None


def b_bool(x=False):
    return bool(x)


INT = ShimType(int, (SymInt, SymBool), b_int)
FLOAT = ShimType(float, (SymReal,), b_float)
STR = ShimType(str, (SymStr,), b_str)
BYTES = ShimType(bytes, (SymBytes,), b_bytes)
BYTEARRAY = ShimType(bytearray, (ByteArray,), ByteArray)
BOOL = ShimType(bool, (SymBool,), b_bool)


def _int_from_bytes(data, byteorder="big", signed=False):
    if isinstance(data, ByteArray):
        data = data.tobytes()
    if isinstance(data, SymBytes):
        d = list(data.d)
        return _decode_int(d, byteorder == "little", signed)
    return int.from_bytes(data, byteorder, signed=signed)


INT.from_bytes = _int_from_bytes


def int_to_bytes(v, length=1, byteorder="big", signed=False):
    lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << 8 * length) - 1)
    if not band(v >= lo, v <= hi):
        raise OverflowError("int too big to convert")
    return SymBytes.make(_encode_int(v, length, byteorder == "little", signed))


_TYPE_MAP = {int: INT, float: FLOAT, str: STR, bytes: BYTES, bool: BOOL, bytearray: BYTEARRAY,
             SymInt: INT, SymReal: FLOAT, SymStr: STR, SymBytes: BYTES, SymBool: BOOL,
             ByteArray: BYTEARRAY}


def b_type(x, *a):
    if a:
        return type(x, *a)
    t = type(x)
    return _TYPE_MAP.get(t, t)


TYPE = ShimType(type, (ShimType,), b_type)

# ---------------------------------------------------------------- builtins


def b_len(x):
    if isinstance(x, str) and has_token(x):
        return len(expand_tokens(x))
    return len(x)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        step = self.step
        if isinstance(step, SymInt):
            step = ctx().concretize(step.e, "range step")
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        while (i < self.stop) if step > 0 else (i > self.stop):
            ctx().tick()
            yield i
            i = i + step

    def _conc(self):
        f = lambda v: v.__index__() if isinstance(v, SymInt) else v
        return range(f(self.start), f(self.stop), f(self.step))

    def __len__(self): return len(self._conc())
    def __getitem__(self, k): return self._conc()[k]
    def __reversed__(self): return reversed(self._conc())

    def __contains__(self, x):
        if self.step == 1:
            return bool(band(self.start <= x, x < self.stop))
        return x in self._conc()


def b_range(*a):
    if any(isinstance(x, SYM_SCALAR) for x in a):
        if any(isinstance(x, SymReal) for x in a):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        if len(a) == 2:
            return SymRange(a[0], a[1], 1)
        return SymRange(*a)
    return range(*a)


RANGE = ShimType(range, (SymRange,), b_range)


def _minmax(name, real):
    def f(*args, key=None, **kw):
        if len(args) == 1:
            items = list(args[0])
        else:
            items = list(args)
        if not items:
            if "default" in kw:
                return kw["default"]
            raise ValueError("%s() iterable argument is empty" % name)
        if key is not None:
            best = items[0]
            kb = key(best)
            for x in items[1:]:
                kx = key(x)
                if (kx < kb) if name == "min" else (kx > kb):
                    best, kb = x, kx
            return best
        if not any(isinstance(x, SYM_SCALAR) for x in items):
            if any(deep_sym(x) for x in items):
                best = items[0]
                for x in items[1:]:
                    if (x < best) if name == "min" else (x > best):
                        best = x
                return best
            return real(items)
        if len(items) > 8:
            # one term of all the plain numbers; a tie has the same value either way
            plain = [x for x in items if type(x) in (int, float)]
            if len(plain) > 1:
                items = [real(plain)] + [x for x in items if type(x) not in (int, float)]
        best = items[0]
        if not is_num(best):
            raise TypeError("'<' not supported")
        for x in items[1:]:
            if not is_num(x):
                raise TypeError("'<' not supported")
            c = (x < best) if name == "min" else (x > best)
            if isinstance(c, bool):
                best = x if c else best
            else:
                a, b = lift(x), lift(best)
                if a.is_real() or b.is_real():
                    a, b = to_real(a), to_real(b)
                best = mks(z3.If(c.e, a, b))
        return best
    f.__name__ = name
    return f


b_min = _minmax("min", min)
b_max = _minmax("max", max)


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def b_abs(x):
    return abs(x)


def b_round(x, n=None):
    if isinstance(x, SYM_SCALAR):
        if isinstance(x, SymBool):
            return SymInt(lift(x))
        return round_half_even(x, n)
    return round(x) if n is None else round(x, n)


def b_pow(a, b, m=None):
    if m is not None:
        if deep_sym(a) or deep_sym(b) or deep_sym(m):
            raise Unsupported("pow with modulus")
        return pow(a, b, m)
    return a ** b


def b_ord(c):
    if isinstance(c, SymSeq):
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return norm_el(c.d[0])
    return ord(c)


def b_chr(i):
    if isinstance(i, SymInt):
        if not band(i >= 0, i <= 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr([i])
    return chr(i)


HEXD = "0123456789abcdef"


def b_hex(x):
    if isinstance(x, SymInt):
        d = []
        neg = False
        a = x
        if x < 0:
            neg = True
            a = -x
        n = 1
        while not (a < 16 ** n):
            n += 1
            if n > 20:
                raise Unsupported("hex digits")
        for i in range(n - 1, -1, -1):
            v = (a // 16 ** i) % 16 if i != n - 1 else a // 16 ** i
            if isinstance(v, SymInt):
                v = mks(z3.If(v.e < 10, v.e + 48, v.e + 87))
            else:
                v = ord(HEXD[v])
            d.append(v)
        return SymStr.make(([45] if neg else []) + [48, 120] + d)
    if isinstance(x, SymReal):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return hex(x)


P61 = (1 << 61) - 1


def b_hash(x):
    """CPython's hash for ints; tuples: injective function of element hashes."""
    if isinstance(x, SymBool):
        x = SymInt(lift(x))
    if isinstance(x, SymInt):
        e = x.e
        a = z3.If(e >= 0, e, -e) % P61
        h = z3.If(e >= 0, a, -a)
        return mks(z3.If(h == -1, z3.IntVal(-2), h))
    if isinstance(x, SymReal):
        # numbers.Rational hash agrees with int hash on integers; elsewhere an
        # uninterpreted value
        c = ctx()
        f = z3.Function("hash_real", z3.RealSort(), z3.IntSort())
        i = z3.ToInt(x.e)
        a = z3.If(i >= 0, i, -i) % P61
        h = z3.If(i >= 0, a, -a)
        return mks(z3.If(z3.IsInt(x.e), z3.If(h == -1, z3.IntVal(-2), h), f(x.e)))
    if isinstance(x, tuple) and deep_sym(x):
        hs = [lift(b_hash(y)) for y in x]
        c = ctx()
        f = z3.Function("hash_tuple%d" % len(hs), *([z3.IntSort()] * (len(hs) + 1)))
        t = f(*hs)
        for (n, hs2, t2) in c.hash_apps:
            if n == len(hs):
                c.add(z3.Implies(t == t2, z3.And(*[p == q for p, q in zip(hs, hs2)])))
        c.hash_apps.append((len(hs), hs, t))
        return SymInt(t)
    if isinstance(x, SymSeq):
        return hash(x)
    th = type(x).__hash__
    if isinstance(th, types.FunctionType):
        return th(x)
    return hash(x)


def b_print(*a, **k):
    f = k.get("file")
    text = cat([b_str(x) if i == 0 else cat([k.get("sep", " "), b_str(x)]) for i, x in enumerate(a)] + [k.get("end", "\n")])
    if f is not None:
        f.write(text)
    else:
        Sink().write(text)


def b_repr(x):
    if isinstance(x, SymNum):
        return token(x)
    return repr(x)


def b_divmod(a, b):
    if isinstance(a, SYM_SCALAR) or isinstance(b, SYM_SCALAR):
        return a // b, a % b
    return divmod(a, b)


def b_format(x, spec=""):
    if isinstance(x, SYM_ANY):
        return fmt_value(x, spec)
    return format(x, spec)


def b_sorted(it, key=None, reverse=False):
    l = list(it)
    l.sort(key=key, reverse=reverse)
    return l


# ---------------------------------------------------------------- containers


def list_get(l, k):
    """l[k] with a symbolic index: bounds fork, then an if-then-else chain."""
    if not isinstance(k, SymInt):
        return l[k]
    n = len(l)
    if not band(k >= -n, k < n):
        raise IndexError("list index out of range")
    if n <= 96 and all(isinstance(x, (int, SymInt, SymBool)) for x in l):
        if bool(k < 0):
            k = k + n
        t = lift(l[n - 1])
        for i in range(n - 2, -1, -1):
            t = z3.If(lift(k) == i, lift(l[i]), t)
        return mks(t)
    return l[k.__index__()]


def list_set(l, k, v):
    if not isinstance(k, SymInt):
        l[k] = v
        return
    n = len(l)
    if not band(k >= -n, k < n):
        raise IndexError("list assignment index out of range")
    if n <= 96 and all(isinstance(x, (int, SymInt, SymBool)) for x in l) and isinstance(v, (int, SymInt, SymBool)):
        if bool(k < 0):
            k = k + n
        for i in range(n):
            l[i] = mks(z3.If(lift(k) == i, lift(v), lift(l[i])))
        return
    l[k.__index__()] = v


ARR_RANGE = {"b": (-128, 127), "B": (0, 255), "h": (-32768, 32767), "H": (0, 65535),
             "i": (-2 ** 31, 2 ** 31 - 1), "I": (0, 2 ** 32 - 1),
             "l": (-2 ** 63, 2 ** 63 - 1), "L": (0, 2 ** 64 - 1),
             "q": (-2 ** 63, 2 ** 63 - 1), "Q": (0, 2 ** 64 - 1)}
ARR_SIZE = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 8, "L": 8, "q": 8, "Q": 8, "f": 4, "d": 8}


class Array:
    """array.array model."""

    def __init__(self, typecode, init=()):
        self.typecode = typecode
        if typecode not in ARR_SIZE:
            raise ValueError("bad typecode")
        self.itemsize = ARR_SIZE[typecode]
        self._ok = set()
        if isinstance(init, (bytes, SymBytes, bytearray, ByteArray)):
            self.l = []
            self.frombytes(init)
        else:
            self.l = [self._c(x) for x in init]

    def _c(self, x):
        if self.typecode in "fd":
            if isinstance(x, SYM_SCALAR):
                return SymReal(to_real(lift(x)))
            if isinstance(x, (str, bytes, SymSeq)):
                raise TypeError("must be real number")
            return float(x) if not isinstance(x, float) else x
        if isinstance(x, SymBool):
            return SymInt(lift(x))
        if isinstance(x, SymReal) or isinstance(x, (float, Fraction)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        lo, hi = ARR_RANGE[self.typecode]
        if isinstance(x, SymInt):
            key = x.e.get_id()
            if key not in self._ok:
                if not band(x >= lo, x <= hi):
                    raise OverflowError("array item out of range")
                self._ok.add(key)
            return x
        if not isinstance(x, int):
            raise TypeError("an integer is required")
        if not lo <= x <= hi:
            raise OverflowError("array item out of range")
        return int(x)

    def _new(self, l):
        r = type(self).__new__(type(self))
        r.typecode, r.itemsize, r._ok, r.l = self.typecode, self.itemsize, set(), l
        return r

    def __len__(self): return len(self.l)
    def __iter__(self): return iter(self.l)
    def __reversed__(self): return reversed(self.l)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._new(self.l[cslice(k, len(self.l))])
        if isinstance(k, SymReal):
            raise TypeError("array indices must be integers")
        return list_get(self.l, k)

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            if not isinstance(v, Array):
                raise TypeError("can only assign array to array slice")
            if self.typecode != v.typecode:
                raise TypeError("bad argument type")
            s = [k.start, k.stop]
            if (isinstance(k.start, SymInt) or isinstance(k.stop, SymInt)) and k.step is None:
                a, b = k.start, k.stop
                if a is not None and b is not None and isinstance(b - a, int) and b - a == len(v.l) and len(self.l) <= 400 \
                        and bool(band(a >= 0, b <= len(self.l))):
                    for j in range(len(v.l)):
                        for i in range(len(self.l)):
                            self.l[i] = mks(z3.If(lift(a) + j == i, lift(v.l[j]), lift(self.l[i])))
                    return
            self.l[cslice(k, len(self.l))] = list(v.l)
            return
        if isinstance(k, SymReal):
            raise TypeError("array indices must be integers")
        list_set(self.l, k, self._c(v))

    def __delitem__(self, k): del self.l[k]
    def append(self, x): self.l.append(self._c(x))

    def extend(self, it):
        self.l.extend(self._c(x) for x in it)

    def insert(self, i, x): self.l.insert(i, self._c(x))
    def pop(self, i=-1): return self.l.pop(i)
    def tolist(self): return list(self.l)
    def fromlist(self, l): self.extend(l)
    def count(self, x): return self.l.count(x)
    def index(self, x): return self.l.index(x)
    def reverse(self): self.l.reverse()

    def tobytes(self):
        if self.typecode == "B":
            return SymBytes.make(list(self.l))
        return SH_STRUCT.pack("<%d%s" % (len(self.l), self.typecode), *self.l)

    def frombytes(self, data):
        if self.typecode == "B":
            self.l.extend(SymBytes.elems(b_bytes(data)))
        else:
            n = len(data) // self.itemsize
            self.l.extend(SH_STRUCT.unpack("<%d%s" % (n, self.typecode), data))

    def byteswap(self):
        if self.itemsize > 1:
            self.l = list(SH_STRUCT.unpack(">%d%s" % (len(self.l), self.typecode), self.tobytes()))
            self._ok = set()

    def tofile(self, f):
        f.write(self.tobytes())

    def fromfile(self, f, n):
        data = f.read(n * self.itemsize)
        self.frombytes(data)
        if len(data) < n * self.itemsize:
            raise EOFError("read() didn't return enough bytes")

    def __add__(self, o):
        return self._new(self.l + o.l)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, n):
        return self._new(self.l * int(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, Array):
            return NotImplemented
        if len(self.l) != len(o.l):
            return False
        return band(*([True] + [a == b for a, b in zip(self.l, o.l)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    __hash__ = None

    def __lt__(self, o): return self.l < o.l
    def __contains__(self, x): return x in self.l
    def __bool__(self): return bool(self.l)
    def __repr__(self): return "array(%r, ...)" % self.typecode
    def __copy__(self): return self._new(list(self.l))


def cslice(k, n):
    f = lambda v: v.__index__() if isinstance(v, SymInt) else v
    return slice(f(k.start), f(k.stop), f(k.step))


# ---------------------------------------------------------------- struct

STRUCT_SIZES = {"x": 1, "c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4,
                "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "s": 1}
serror = _struct.error


def _parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    f = fmt.strip()
    order = "@"
    if f and f[0] in "@=<>!":
        order, f = f[0], f[1:]
    items = []
    num = ""
    for ch in f:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        n = int(num) if num else 1
        num = ""
        if ch not in STRUCT_SIZES:
            raise serror("bad char in struct format")
        items.append((n, ch, bool(num)))
    little = order in "@=<"
    return order, little, [(n, ch) for n, ch, _ in items]


def _layout(fmt):
    """[(code, count, pad_before)] with native alignment when '@'."""
    order, little, items = _parse_fmt(fmt)
    sizes = dict(STRUCT_SIZES)
    if order == "@":
        sizes["l"] = sizes["L"] = 8
    off = 0
    out = []
    for n, ch in items:
        pad = 0
        if order == "@" and ch not in "xcbB?s":
            a = sizes[ch]
            pad = -off % a
        out.append((ch, n, pad, sizes[ch]))
        off += pad + n * sizes[ch]
    return little, out, off


def _encode_int(v, size, little, signed):
    if isinstance(v, int):
        bs = v.to_bytes(size, "little", signed=signed)
        lst = list(bs)
    else:
        u = v
        if signed:
            u = mks(z3.If(v.e < 0, v.e + (1 << (8 * size)), v.e))
        if size == 1:
            lst = [u]
        else:
            lst = [ByteTok(u, i, size, "i") for i in range(size)]
    return lst if little else lst[::-1]


def _decode_int(d, little, signed):
    size = len(d)
    le = d if little else d[::-1]
    if all(type(x) is int for x in le):
        return int.from_bytes(bytes(le), "little", signed=signed)
    t0 = le[0]
    if isinstance(t0, ByteTok) and t0.kind == "i" and t0.total == size and all(
            isinstance(x, ByteTok) and x.kind == "i" and x.total == size and x.index == i
            and (x.value is t0.value or x.value.e.eq(t0.value.e)) for i, x in enumerate(le)):
        u = t0.value
    else:
        u = 0
        for i, x in enumerate(le):
            u = u + norm_el(x) * (1 << (8 * i))
    if signed and isinstance(u, SymInt):
        h = 1 << (8 * size - 1)
        return mks(z3.If(u.e >= h, u.e - 2 * h, u.e))
    if signed and u >= 1 << (8 * size - 1):
        u -= 1 << (8 * size)
    return u


def s_pack(fmt, *args):
    if not any(isinstance(a, SYM_ANY) for a in args):
        return _struct.pack(fmt, *args)
    little, lay, total = _layout(fmt)
    out = []
    it = iter(args)
    need = sum((1 if ch == "s" else (0 if ch == "x" else n)) for ch, n, _, _ in lay)
    if need != len(args):
        raise serror("pack expected %d items for packing (got %d)" % (need, len(args)))
    for ch, n, pad, size in lay:
        out.extend([0] * pad)
        if ch == "x":
            out.extend([0] * n)
        elif ch == "s":
            v = next(it)
            if isinstance(v, ByteArray):
                v = v.tobytes()
            if not isinstance(v, (bytes, SymBytes, bytearray)):
                raise serror("argument for 's' must be a bytes object")
            e = SymBytes.elems(v)[:n]
            out.extend(e + [0] * (n - len(e)))
        else:
            for _ in range(n):
                v = next(it)
                if ch == "c":
                    if not isinstance(v, (bytes, SymBytes)) or len(v) != 1:
                        raise serror("char format requires a bytes object of length 1")
                    out.extend(SymBytes.elems(v))
                elif ch in "fd":
                    if isinstance(v, (str, bytes, SymSeq)) or v is None:
                        raise serror("required argument is not a float")
                    if isinstance(v, SYM_SCALAR):
                        r = SymReal(to_real(lift(v)))
                        lst = [ByteTok(r, i, size, "d" if ch == "d" else "f") for i in range(size)]
                        if ch == "f":
                            raise Unsupported("float32 rounding")
                        out.extend(lst if little else lst[::-1])
                    else:
                        out.extend(_struct.pack(("<" if little else ">") + ch, v))
                elif ch == "?":
                    if bool(v): out.append(1)
                    else: out.append(0)
                else:
                    signed = ch.islower()
                    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
                    if isinstance(v, SymBool):
                        v = SymInt(lift(v))
                    if isinstance(v, (SymReal, float, Fraction, str, bytes, SymSeq)) or v is None:
                        raise serror("required argument is not an integer")
                    if not band(v >= lo, v <= hi):
                        raise serror("argument out of range for '%s' format" % ch)
                    out.extend(_encode_int(v, size, little, signed))
    return SymBytes.make(out)


def s_unpack(fmt, data):
    if isinstance(data, ByteArray):
        data = data.tobytes()
    if not isinstance(data, SymBytes):
        return _struct.unpack(fmt, data)
    little, lay, total = _layout(fmt)
    if len(data) != total:
        raise serror("unpack requires a buffer of %d bytes" % total)
    d = data.d
    out = []
    off = 0
    for ch, n, pad, size in lay:
        off += pad
        if ch == "x":
            off += n
            continue
        if ch == "s":
            out.append(SymBytes.make(d[off:off + n]))
            off += n
            continue
        for _ in range(n):
            x = d[off:off + size]
            off += size
            if ch == "c":
                out.append(SymBytes.make(x))
            elif ch in "fd":
                le = x if little else x[::-1]
                t0 = le[0]
                kind = ch
                if all(type(b) is int for b in le):
                    out.append(_struct.unpack("<" + ch, bytes(le))[0])
                elif isinstance(t0, ByteTok) and all(
                        isinstance(b, ByteTok) and b.kind == kind and b.index == i and
                        (b.value is t0.value or b.value.e.eq(t0.value.e)) for i, b in enumerate(le)):
                    out.append(t0.value)
                else:
                    raise Unsupported("double reassembled from unrelated symbolic bytes")
            elif ch == "?":
                out.append(norm_el(x[0]) != 0)
            else:
                out.append(_decode_int(x, little, ch.islower()))
    return tuple(out)


def s_calcsize(fmt):
    return _struct.calcsize(fmt)


class SStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def pack(self, *a): return s_pack(self.format, *a)
    def unpack(self, d): return s_unpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return s_unpack(self.format, d[offset:offset + self.size])

    def iter_unpack(self, d):
        for i in range(0, len(d), self.size):
            yield s_unpack(self.format, d[i:i + self.size])


SH_STRUCT = types.SimpleNamespace(
    pack=s_pack, unpack=s_unpack, calcsize=s_calcsize, error=serror, Struct=SStruct,
    unpack_from=lambda fmt, d, offset=0: SStruct(fmt).unpack_from(d, offset),
    iter_unpack=lambda fmt, d: SStruct(fmt).iter_unpack(d))

# ---------------------------------------------------------------- math


def _num(x):
    if isinstance(x, (str, bytes, SymSeq)):
        raise TypeError("must be real number, not " + type(x).__name__)
    return x


def m_sqrt(x):
    x = _num(x)
    if not isinstance(x, SYM_SCALAR):
        if isinstance(x, Fraction):
            r = Fraction(_math.isqrt(x.numerator), _math.isqrt(x.denominator)) if x >= 0 else None
            if r is not None and r * r == x:
                return r
        return _math.sqrt(x)
    c = ctx()
    t = z3.simplify(to_real(lift(x)))
    if SQRT_HOOK is not None:
        r = SQRT_HOOK(t)
        if r is not None:
            return r
    key = ("sqrt", t.get_id())
    if key in c.cache:
        return c.cache[key][0]
    if c.decide(t < 0):
        raise ValueError("math domain error")
    q = c.fresh_real("sqrt")
    c.add(z3.And(q >= 0, q * q == t))
    r = SymReal(q)
    c.cache[key] = (r, t)
    return r


SQRT_HOOK = None


def m_floor(x):
    return x.__floor__() if isinstance(x, SymNum) else _math.floor(x)


def m_ceil(x):
    return x.__ceil__() if isinstance(x, SymNum) else _math.ceil(x)


def m_trunc(x):
    return trunc(x) if isinstance(x, SYM_SCALAR) else _math.trunc(x)


def m_modf(x):
    if isinstance(x, SYM_SCALAR):
        e = to_real(lift(x))
        i = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
        ir = z3.ToReal(i)
        return SymReal(z3.simplify(e - ir)), SymReal(z3.simplify(ir))
    return _math.modf(x)


def m_copysign(a, b):
    if isinstance(a, SYM_SCALAR) or isinstance(b, SYM_SCALAR):
        m = abs(a)
        mt = to_real(lift(m))
        if isinstance(b, SYM_SCALAR):
            return SymReal(z3.simplify(z3.If(lift(b) >= 0, mt, -mt)))
        return m if _math.copysign(1, b) > 0 else -m
    return _math.copysign(a, b)


def m_fabs(x):
    if isinstance(x, SYM_SCALAR):
        return SymReal(to_real(lift(abs(x))))
    return _math.fabs(x)


def m_fsum(it):
    l = list(it)
    if any(isinstance(x, SYM_SCALAR) for x in l):
        r = SymReal(z3.RealVal(0))
        for x in l:
            r = r + x
        return r
    return _math.fsum(l)


def m_hypot(*a):
    if any(isinstance(x, SYM_SCALAR) for x in a):
        return m_sqrt(b_sum(x * x for x in a))
    return _math.hypot(*a)


def m_fmod(a, b):
    if isinstance(a, SYM_SCALAR) or isinstance(b, SYM_SCALAR):
        if b == 0:
            raise ValueError("math domain error")
        q = divide(lift(a), lift(b))
        return a - b * trunc(q)
    return _math.fmod(a, b)


def m_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if deep_sym(a) or deep_sym(b):
        d = abs(a - b)
        return bor(a == b, d <= rel_tol * b_max(abs(a), abs(b)), d <= abs_tol)
    return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def m_isnan(x): return False if isinstance(x, SYM_SCALAR) else _math.isnan(x)
def m_isinf(x): return False if isinstance(x, SYM_SCALAR) else _math.isinf(x)
def m_isfinite(x): return True if isinstance(x, SYM_SCALAR) else _math.isfinite(x)


def m_prod(it, start=1):
    r = start
    for x in it:
        r = r * x
    return r


def m_pow(a, b):
    if deep_sym(a) or deep_sym(b):
        return b_float(core.power(a, b))
    return _math.pow(a, b)


def m_gcd(*a):
    return _math.gcd(*[x.__index__() if isinstance(x, SymInt) else x for x in a])


def m_dist(p, q):
    return m_hypot(*[a - b for a, b in zip(p, q)])


TRIG = None  # a trig model object installed by symx.trig


def _tr(name):
    real = getattr(_math, name)

    def f(*a):
        if TRIG is not None:
            return TRIG.call(name, a)
        if any(isinstance(x, SYM_SCALAR) for x in a):
            if name == "radians":
                return a[0] * (_math.pi / 180)
            if name == "degrees":
                return a[0] * (180 / _math.pi)
            raise Unsupported("math.%s of a symbolic value" % name)
        return real(*a)
    f.__name__ = name
    return f


class MathModule(types.ModuleType):
    def __getattr__(self, n):
        if n == "pi" and TRIG is not None:
            return TRIG.pi()
        if n == "tau" and TRIG is not None:
            return 2 * TRIG.pi()
        return getattr(_math, n)


def make_math():
    m = MathModule("math")
    for n, f in dict(sqrt=m_sqrt, floor=m_floor, ceil=m_ceil, trunc=m_trunc, modf=m_modf,
                     copysign=m_copysign, fabs=m_fabs, fsum=m_fsum, hypot=m_hypot, fmod=m_fmod,
                     isclose=m_isclose, isnan=m_isnan, isinf=m_isinf, isfinite=m_isfinite,
                     prod=m_prod, pow=m_pow, gcd=m_gcd, dist=m_dist).items():
        setattr(m, n, f)
    for n in ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh",
              "asinh", "acosh", "atanh", "exp", "log", "log10", "log2", "log1p", "expm1", "radians", "degrees",
              "remainder"):
        setattr(m, n, _tr(n))
    return m


# ---------------------------------------------------------------- files


class SymFile:
    """In-memory file; binary content is a list of bytes/ByteToks, text content
    is a list of characters (1-char native strs, tokens, or symbolic codes)."""

    def __init__(self, content=None, text=False, readable=True, writable=True, name=None):
        self.c = content if content is not None else []
        self.pos = 0
        self.text = text
        self.closed = False
        self._r, self._w = readable, writable
        self.name = name

    def _els(self, data):
        if self.text:
            if isinstance(data, str):
                return list(data)
            if isinstance(data, SymStr):
                return [chr(x) if type(x) is int else x for x in data.d]
            raise TypeError("write() argument must be str")
        if isinstance(data, (Array, ByteArray)):
            data = data.tobytes()
        if isinstance(data, (bytes, bytearray)):
            return list(data)
        if isinstance(data, SymBytes):
            return list(data.d)
        if isinstance(data, memoryview):
            return list(bytes(data))
        raise TypeError("a bytes-like object is required, not %r" % type(data).__name__)

    def _mk(self, els):
        if self.text:
            if all(isinstance(x, str) for x in els):
                return "".join(els)
            out = []
            for x in els:
                if isinstance(x, str):
                    if has_token(x):
                        out.extend(expand_tokens(x))
                    else:
                        out.append(ord(x))
                else:
                    out.append(x)
            return SymStr.make(out)
        return SymBytes.make(els)

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, data):
        self._chk()
        if not self._w:
            raise _io.UnsupportedOperation("not writable")
        els = self._els(data)
        if self.pos > len(self.c):
            if self.text:
                raise Unsupported("seek beyond the end of a text file")
            self.c.extend([0] * (self.pos - len(self.c)))
        self.c[self.pos:self.pos + len(els)] = els
        self.pos += len(els)
        return len(els)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def read(self, n=-1):
        self._chk()
        if not self._r:
            raise _io.UnsupportedOperation("not readable")
        if isinstance(n, SymInt):
            m = len(self.c) - self.pos
            if n < 0:
                n = -1
            elif n >= m:
                n = m
            else:
                n = n.__index__()
        if n is None or n < 0:
            n = len(self.c)
        els = self.c[self.pos:self.pos + n]
        self.pos += len(els)
        return self._mk(els)

    def seek(self, off, whence=0):
        self._chk()
        if isinstance(off, SymInt):
            off = off.__index__()
        if isinstance(off, SymReal) or isinstance(off, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if whence == 0:
            p = off
            if p < 0:
                raise ValueError("negative seek value")
        elif whence == 1:
            p = self.pos + off
        else:
            p = len(self.c) + off
        if p < 0:
            p = 0
        self.pos = p
        return p

    def tell(self):
        self._chk()
        return self.pos

    def readline(self, limit=-1):
        self._chk()
        els = []
        nl = "\n" if self.text else 10
        while self.pos < len(self.c):
            x = self.c[self.pos]
            self.pos += 1
            els.append(x)
            if isinstance(x, str):
                if x == nl:
                    break
            else:
                v = norm_el(x)
                if v == 10:
                    break
        return self._mk(els)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if len(l) == 0:
                return
            yield l

    def __next__(self):
        l = self.readline()
        if len(l) == 0:
            raise StopIteration
        return l

    def seekable(self): return True
    def readable(self): return self._r
    def writable(self): return self._w
    def flush(self): pass

    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.c[n:]

    def close(self):
        self.closed = True

    def getvalue(self):
        return self._mk(list(self.c))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def fileno(self):
        raise _io.UnsupportedOperation("fileno")


def open_memfs(path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **k):
    c = ctx()
    path = str(path)
    text = "b" not in mode
    fs = c.memfs
    if "w" in mode or "x" in mode:
        ent = (text, [])
        fs[path] = ent
        return SymFile(ent[1], text, "+" in mode, True, path)
    if "a" in mode:
        ent = fs.setdefault(path, (text, []))
        f = SymFile(ent[1], text, "+" in mode, True, path)
        f.pos = len(ent[1])
        return f
    if path in fs:
        was_text, content = fs[path]
        if was_text != text:
            content = convert_content(content, was_text, text)
        return SymFile(content, text, True, "+" in mode, path)
    if path.startswith(MEMROOT):
        raise FileNotFoundError(2, "No such file or directory", path)
    if "+" in mode:
        raise Unsupported("update mode on a real file")
    return open(path, mode, buffering, encoding, errors, newline)


MEMROOT = "/symfs/"


def convert_content(content, was_text, text):
    if was_text and not text:
        out = []
        for x in content:
            if isinstance(x, str):
                if has_token(x):
                    out.extend(expand_tokens(x))
                else:
                    out.extend(x.encode("utf-8"))
            else:
                out.extend(SymBytes.elems(SymStr([x]).encode("utf-8")))
        return out
    s = SymBytes.make(list(content))
    t = s.decode("utf-8")
    return [chr(x) if type(x) is int else x for x in SymStr.elems(t)]


def codecs_open(path, mode="r", encoding=None, errors="strict", buffering=-1):
    return open_memfs(path, mode.replace("b", ""), encoding=encoding)


class BytesIOShim(SymFile):
    def __init__(self, data=b""):
        SymFile.__init__(self, SymBytes.elems(b_bytes(data)) if len(data) else [], False)


class StringIOShim(SymFile):
    def __init__(self, data=""):
        SymFile.__init__(self, [], True)
        if len(data):
            self.write(data)
            self.pos = 0


# ---------------------------------------------------------------- json


def _json_pre(x):
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymNum):
        return "\x01num" + token(x)
    if isinstance(x, SymStr):
        raise Unsupported("symbolic text in JSON")
    if isinstance(x, Fraction):
        raise TypeError("Object of type Fraction is not JSON serializable")
    if isinstance(x, dict):
        return {(_json_key(k)): _json_pre(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_json_pre(v) for v in x]
    return x


def _json_key(k):
    if isinstance(k, SYM_ANY):
        raise Unsupported("symbolic JSON key")
    return k


def _json_post(x):
    if isinstance(x, str) and x.startswith("\x01num"):
        return token_value(x[4])
    if isinstance(x, dict):
        return {k: _json_post(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_json_post(v) for v in x]
    return x


def j_dumps(x, **k):
    return _json.dumps(_json_pre(x), ensure_ascii=False, **{a: b for a, b in k.items() if a != "ensure_ascii"})


def j_dump(x, f, **k):
    f.write(j_dumps(x, **k))


def j_loads(s, **k):
    if isinstance(s, SymSeq):
        raise Unsupported("JSON of symbolic text")
    return _json_post(_json.loads(s, **k))


def j_load(f, **k):
    return j_loads(f.read(), **k)


# ---------------------------------------------------------------- functools


class _Info(tuple):
    pass


import collections as _collections
_CacheInfo = _collections.namedtuple("CacheInfo", ["hits", "misses", "maxsize", "currsize"])


def _check_hashable(x):
    if isinstance(x, (list, dict, set, bytearray, ByteArray, Array)):
        raise TypeError("unhashable type: %r" % type(x).__name__)
    if isinstance(x, tuple):
        for y in x:
            _check_hashable(y)
    elif type(x).__hash__ is None:
        raise TypeError("unhashable type: %r" % type(x).__name__)


def lru_cache(maxsize=128, typed=False):
    """LRU memoisation keyed by equality of the arguments (faithful model)."""
    if callable(maxsize) and not isinstance(maxsize, (int, SymInt)):
        return lru_cache(128)(maxsize)

    def deco(fn):
        entries = []  # most recent last: (args, kwargs items, result)
        st = {"hits": 0, "misses": 0}

        def same(k1, k2):
            if len(k1[0]) != len(k2[0]) or len(k1[1]) != len(k2[1]):
                return False
            if typed and [b_type(x) for x in k1[0]] != [b_type(x) for x in k2[0]]:
                return False
            for a, b in zip(k1[0] + tuple(v for kv in k1[1] for v in kv),
                            k2[0] + tuple(v for kv in k2[1] for v in kv)):
                if a is b:
                    continue
                if not deep_eq(a, b):
                    return False
            return True

        def wrapper(*a, **k):
            key = (a, tuple(k.items()))
            _check_hashable(key)
            if maxsize == 0:
                st["misses"] += 1
                return fn(*a, **k)
            for i in range(len(entries) - 1, -1, -1):
                if same(entries[i][0], key):
                    st["hits"] += 1
                    e = entries.pop(i)
                    entries.append(e)
                    return e[1]
            st["misses"] += 1
            r = fn(*a, **k)
            entries.append((key, r))
            if maxsize is not None and len(entries) > maxsize:
                entries.pop(0)
            return r

        def cache_clear():
            entries.clear()
            st["hits"] = st["misses"] = 0

        wrapper.cache_info = lambda: _CacheInfo(st["hits"], st["misses"], maxsize, len(entries))
        wrapper.cache_clear = cache_clear
        wrapper.__wrapped__ = fn
        wrapper.__name__ = getattr(fn, "__name__", "wrapper")
        wrapper.cache_parameters = lambda: {"maxsize": maxsize, "typed": typed}
        return wrapper
    return deco


def deep_eq(a, b):
    """Equality as the C containers compute it, returned without forking when
    possible (conjunction for tuples)."""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
            return False
        r = [deep_eq(x, y) for x, y in zip(a, b)]
        if any(x is False for x in r):
            return False
        return band(*([True] + [x if isinstance(x, SymBool) else bool(x) for x in r]))
    return rt_eq(a, b)


# ---------------------------------------------------------------- runtime hooks


def token_str_eq(a, b):
    """Equality of native strs that may contain number tokens."""
    if a == b:
        return True
    return SymStr(expand_tokens(a) if has_token(a) else [ord(c) for c in a]).eq(
        SymStr(expand_tokens(b) if has_token(b) else [ord(c) for c in b]))


def rt_eq(a, b):
    if type(a) is str and type(b) is str:
        if a == b:
            return True
        ta, tb = has_token(a), has_token(b)
        if not ta and not tb:
            return False
        if len(a) == 1 and len(b) == 1 and ta and tb:
            va, vb = token_value(a), token_value(b)
            if isinstance(va, SymInt) and isinstance(vb, SymInt):
                return va == vb
        return token_str_eq(a, b)
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        if isinstance(a, SymSeq):
            return a.eq(b)
        return b.eq(a)
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return deep_eq(a, b)
    return a == b


def rt_cmp(op, a, b):
    if op == "==":
        return rt_eq(a, b)
    if op == "!=":
        if isinstance(a, (str, tuple, SymSeq)) or isinstance(b, SymSeq):
            return bnot(rt_eq(a, b))
        return a != b
    if op == "in":
        return rt_in(a, b)
    return bnot(rt_in(a, b))


def rt_in(a, b):
    if isinstance(b, (str, bytes)) and isinstance(a, SYM_ANY):
        if isinstance(b, str):
            return SymStr(SymStr.elems(b)).__contains__(a)
        return SymBytes(list(b)).__contains__(a)
    if isinstance(b, str) and isinstance(a, str) and (has_token(a) or has_token(b)):
        return SymStr(SymStr.elems(b)).__contains__(SymStr(SymStr.elems(a)))
    if isinstance(b, (tuple, list)) and (isinstance(a, SYM_ANY) or deep_sym(a) or any(isinstance(x, SYM_ANY) for x in b)):
        r = []
        for x in b:
            q = deep_eq(x, a)
            if q is True:
                return True
            r.append(q if isinstance(q, (bool, SymBool)) else bool(q))
        return bor(*([False] + r))
    if isinstance(b, (set, frozenset, dict)) and isinstance(a, SYM_ANY):
        return bor(*([False] + [deep_eq(x, a) for x in b]))
    return a in b


STR_LEN_SENSITIVE = {"ljust", "rjust", "center", "zfill", "encode", "isdigit", "isdecimal", "isnumeric",
                     "find", "index", "rfind", "count", "startswith", "endswith"}


def fmt_value(v, spec):
    if isinstance(v, SymBool):
        return format(bool(v), spec)
    if not spec:
        return b_str(v)
    if isinstance(v, SymNum):
        if spec in ("d", "s", "n"):
            return b_str(v)
        if spec[-1] in "xX" and isinstance(v, SymInt):
            w = spec[:-1]
            zero = w.startswith("0")
            width = int(w) if w else 0
            if zero and width <= 4 and spec[-1] == "x" and band(v >= 0, v < 16 ** width):
                e = []
                for i in range(width - 1, -1, -1):
                    x = (v // 16 ** i) % 16
                    e.append(mks(z3.If(x.e < 10, x.e + 48, x.e + 87)) if isinstance(x, SymInt) else ord(HEXD[x]))
                return SymStr.make(e)
            h = b_hex(v)
            h = h[2:] if not isinstance(h, SymStr) else SymStr.make(h.d[2:] if h.d[0] != 45 else [45] + h.d[3:])
            if isinstance(h, SymStr) or isinstance(h, str):
                e = SymStr.elems(h)
                e = ([48] if zero else [32]) * max(0, width - len(e)) + e
                return SymStr.make(e)
        m = re.fullmatch(r"(0?)(\d*)\.(\d+)f", spec)
        if m:
            return fmt_float(v, m.group(1), m.group(2), m.group(3), "f")
        if isinstance(v, SymInt) and spec.rstrip("d").lstrip("0 <>").isdigit():
            w = spec.rstrip("d")
            e = seqs.digits_of(v)
            if w[0] == "0":
                return SymStr(e).zfill(int(w)) if True else None
            if w[0] == "<":
                return SymStr(e).ljust(int(w[1:]))
            if w[0] == ">":
                return SymStr(e).rjust(int(w[1:]))
            return SymStr(e).rjust(int(w))
        raise Unsupported("format spec %r" % spec)
    if isinstance(v, SymStr):
        sp = spec.rstrip("s")
        if sp[:1] == "<" or sp[:1].isdigit():
            return v.ljust(int(sp.lstrip("<")))
        if sp[:1] == ">":
            return v.rjust(int(sp[1:]))
    raise Unsupported("format spec %r" % spec)


class _Fmt(_string.Formatter):
    pass


def cat(parts):
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    out = []
    for p in parts:
        out.extend(SymStr.elems(p))
    return SymStr.make(out)


def str_format(s, args, kwargs):
    f = _Fmt()
    auto = 0
    parts = []
    for lit, field, spec, conv in f.parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        v, _ = f.get_field(field, args, kwargs)
        if spec and "{" in spec:
            # nested fields share automatic numbering
            sub = []
            for l2, f2, s2, c2 in f.parse(spec):
                if l2: sub.append(l2)
                if f2 is None: continue
                if f2 == "":
                    f2 = str(auto)
                    auto += 1
                v2, _ = f.get_field(f2, args, kwargs)
                sub.append(str(int(v2)) if isinstance(v2, SymInt) else format(v2))
            spec = "".join(sub)
        if conv == "r":
            v = b_repr(v)
        elif conv == "s":
            v = b_str(v)
        if isinstance(v, SYM_ANY):
            parts.append(fmt_value(v, spec or ""))
        else:
            parts.append(format(v, spec or ""))
    return cat(parts)


def str_mod(s, args):
    """printf-style formatting with symbolic arguments."""
    if isinstance(args, dict):
        raise Unsupported("% formatting with a mapping")
    if not isinstance(args, tuple):
        args = (args,)
    import re
    parts = []
    pos = 0
    it = iter(args)
    for m in re.finditer(r"%([-+ #0]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrs%])", s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        flags, width, prec, code = m.groups()
        if code == "%":
            parts.append("%")
            continue
        if width == "*":
            width = str(int(next(it)))
        try:
            v = next(it)
        except StopIteration:
            raise TypeError("not enough arguments for format string")
        if not isinstance(v, SYM_ANY) and not (isinstance(v, str) and has_token(v)):
            parts.append(("%" + flags + (width or "") + ("." + prec if prec else "") + code) % v)
            continue
        if code in "di":
            if isinstance(v, (SymSeq, str)):
                raise TypeError("%d format: a real number is required")
            v = trunc(v)
            r = fmt_int(v, flags, width)
        elif code == "s":
            r = b_str(v)
            if prec:
                r = rt_item(r, slice(None, int(prec)))
            if width:
                r = meth(r, "ljust" if "-" in flags else "rjust", int(width))
        elif code in "fFgGeE":
            r = fmt_float(v, flags, width, prec, code)
        elif code in "xX" and isinstance(v, SymInt):
            r = fmt_value(v, ("0" if "0" in flags else "") + (width or "") + code)
        else:
            raise Unsupported("%%%s of a symbolic value" % code)
        parts.append(r)
    parts.append(s[pos:])
    if next(it, None) is not None:
        raise TypeError("not all arguments converted during string formatting")
    return cat(parts)


def fmt_int(v, flags, width):
    if not isinstance(v, SymInt):
        return ("%" + flags + (width or "") + "d") % v
    if not width and not flags:
        return token(v)
    e = seqs.digits_of(v)
    s = SymStr(e)
    w = int(width or 0)
    if "0" in flags and "-" not in flags:
        return s.zfill(w)
    return s.ljust(w) if "-" in flags else s.rjust(w)


FLOAT_FMT_HOOK = None


def fmt_float(v, flags, width, prec, code):
    if FLOAT_FMT_HOOK is not None:
        return FLOAT_FMT_HOOK(v, flags, width, prec, code)
    if code not in "fF" or not isinstance(v, SymNum):
        raise Unsupported("float formatting of a symbolic value")
    if getattr(ctx(), "opaque_floats", False):
        r = round_half_even(v, 6 if prec is None else int(prec))
        return token(r) if isinstance(r, SymNum) else ("%" + flags + (width or "") + ("." + prec if prec else "") + code) % r
    # fixed point: the decimal nearest to the value, ties to even
    n = 6 if prec is None else int(prec)
    neg = bool(v < 0)
    x = (-v if neg else v) * 10 ** n
    f = m_floor(x)
    r = x - f
    if r > 0.5 or (r == 0.5 and f % 2 == 1):
        f = f + 1
    e = seqs.digits_of(f) if isinstance(f, SymInt) else [ord(c) for c in str(f)]
    e = [48] * (n + 1 - len(e)) + list(e)
    if n:
        e = e[:-n] + [46] + e[-n:]
        ctx().cache.setdefault("digit_lists", []).append((([45] if neg else []) + e, SymReal(to_real(lift(-f if neg else f)) / realval(10 ** n))))
    w = int(width or 0)
    sign = [45] if neg else [43] if "+" in flags else [32] if " " in flags else []
    pad = w - len(e) - len(sign)
    if "-" in flags:
        e = sign + e + [32] * pad
    elif "0" in flags:
        e = sign + [48] * pad + e
    else:
        e = [32] * pad + sign + e
    return SymStr.make(e)


def rt_mod(a, b):
    if isinstance(a, str):
        if deep_sym(b):
            return str_mod(a, b)
        return a % b
    return a % b


def rt_fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            v, conv, spec = p
            if conv == 114:
                v = b_repr(v)
            elif conv == 115:
                v = b_str(v)
            if isinstance(spec, SymStr):
                raise Unsupported("symbolic format spec")
            out.append(fmt_value(v, spec) if isinstance(v, SYM_ANY) else format(v, spec))
    return cat(out)


def rt_item(o, k):
    t = type(o)
    if t is list or t is tuple:
        if isinstance(k, SymInt):
            return list_get(o, k)
        if isinstance(k, slice):
            return o[cslice(k, len(o))]
        if isinstance(k, SymReal):
            raise TypeError("list indices must be integers or slices, not float")
        return o[k]
    if t is str:
        if has_token(o) and len(o) > 1 or (has_token(o) and isinstance(k, slice)):
            return SymStr(expand_tokens(o))[k]
        if isinstance(k, SymInt):
            return SymStr.item(list_get([ord(c) for c in o], k))
        if isinstance(k, slice):
            k = cslice(k, len(o))
        return o[k]
    if t is bytes:
        if isinstance(k, SymInt):
            return list_get(list(o), k)
        if isinstance(k, slice):
            k = cslice(k, len(o))
        return o[k]
    if t is dict and isinstance(k, SYM_ANY):
        for x in o:
            if deep_eq(x, k):
                return o[x]
        raise KeyError(k)
    return o[k]


def meth(o, name, *a, **k):
    t = type(o)
    if t is str:
        if name == "format":
            return str_format(o, a, k)
        if name == "join":
            parts = list(a[0])
            if any(isinstance(p, SymStr) for p in parts):
                return SymStr.make(seqs.join_elems(SymStr, o, parts))
            return o.join(parts)
        if any(isinstance(x, SymSeq) for x in a) or (has_token(o) and name in STR_LEN_SENSITIVE):
            return getattr(SymStr(SymStr.elems(o)), name)(*a, **k)
        if any(isinstance(x, SymInt) for x in a):
            a = tuple(x.__index__() if isinstance(x, SymInt) else x for x in a)
        return getattr(o, name)(*a, **k)
    if t is bytes:
        if name == "join":
            parts = [p.tobytes() if isinstance(p, ByteArray) else p for p in a[0]]
            if any(isinstance(p, SymBytes) for p in parts):
                return SymBytes.make(seqs.join_elems(SymBytes, o, parts))
            return o.join(parts)
        if any(isinstance(x, SymSeq) for x in a):
            return getattr(SymBytes(list(o)), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t is list and name in ("index", "count", "remove") and a and (deep_sym(a[0]) or any(isinstance(x, SYM_ANY) or isinstance(x, str) and has_token(x) for x in o)):
        hits = []
        lo = a[1] if len(a) > 1 else 0
        for i in range(lo, len(o)):
            if deep_eq(o[i], a[0]):
                if name == "index":
                    return i
                if name == "remove":
                    del o[i]
                    return None
                hits.append(i)
        if name == "count":
            return len(hits)
        raise ValueError("value is not in list")
    if t is dict and a and isinstance(a[0], SYM_ANY) and name in ("get", "setdefault", "pop"):
        for x in o:
            if deep_eq(x, a[0]):
                return getattr(o, name)(x, *a[1:], **k)
        if isinstance(a[0], SymSeq) and name == "get":
            return a[1] if len(a) > 1 else None
    return getattr(o, name)(*a, **k)


def rt_tick():
    ctx().tick()


def rt_enter(name):
    if name.startswith("harness."):
        return
    f = ctx().functions
    f[name] = f.get(name, 0) + 1


# ---------------------------------------------------------------- module table


def _pure(modname, cname):
    """The pure-Python implementation of a stdlib module with a C accelerator."""
    import importlib.util
    spec = importlib.util.find_spec(modname)
    src = open(spec.origin).read()
    m = types.ModuleType(modname)
    saved = _sys.modules.get(cname, False)
    _sys.modules[cname] = None
    try:
        exec(compile(src, spec.origin, "exec"), m.__dict__)
    finally:
        if saved is False:
            del _sys.modules[cname]
        else:
            _sys.modules[cname] = saved
    return m


PURE_HEAPQ = _pure("heapq", "_heapq")
PURE_BISECT = _pure("bisect", "_bisect")


class ProxyModule(types.ModuleType):
    def __init__(self, name, real, **over):
        types.ModuleType.__init__(self, name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


class Sink:
    def write(self, s):
        out = getattr(ctx(), "printed", None)
        if out is not None:
            out.append(s)
        return 0

    def flush(self): pass
    def isatty(self): return False


class ErrSink(Sink):
    def write(self, s): return 0


def memfs_remove(p, **k):
    p = str(p)
    if p not in ctx().memfs:
        if p.startswith(MEMROOT):
            raise FileNotFoundError(2, "No such file or directory", p)
        raise Unsupported("removal of a real file")
    del ctx().memfs[p]


def memfs_replace(a, b, **k):
    a, b = str(a), str(b)
    if a not in ctx().memfs:
        raise FileNotFoundError(2, "No such file or directory", a)
    ctx().memfs[b] = ctx().memfs.pop(a)


_temp = 0


def temp_name(prefix, suffix, dir):
    global _temp
    _temp += 1
    return "%s/%s%06d%s" % ((str(dir) if dir else MEMROOT + "tmp").rstrip("/"), "tmp" if prefix is None else prefix, _temp, suffix or "")


class TemporaryDirectory:
    def __init__(self, suffix=None, prefix=None, dir=None, **k):
        self.name = temp_name(prefix, suffix, dir)

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        self.cleanup()

    def cleanup(self):
        fs = ctx().memfs
        for p in [p for p in fs if p.startswith(self.name + "/")]:
            del fs[p]


class NamedTemporaryFile:
    """Removed when closed or no longer referred to, like the real one."""

    def __init__(self, mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **k):
        self.name = temp_name(prefix, suffix, dir)
        self._file = open_memfs(self.name, mode if "+" in mode else mode + "+")
        self._delete = delete

    def __getattr__(self, name):
        return getattr(self._file, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if self._delete:
            self._delete = False
            ctx().memfs.pop(self.name, None)

    def __del__(self):
        try:
            self.close()
        except Exception:
            pass


def command(env, name):
    """Programs are not run: the harness answers for them."""
    def f(args, *a, **k):
        fn = getattr(env, "command_fn", None)
        if fn is None:
            raise Unsupported("call of subprocess." + name)
        status = fn(commands.words(args, k.get("shell")))
        if name == "call":
            return status
        if name == "run":
            r = subprocess.CompletedProcess(args, status, b"", b"")
            if k.get("check"):
                r.check_returncode()
            return r
        if name == "Popen":
            p = commands.Process()
            p.args, p.returncode = args, status
            return p
        if status:
            raise subprocess.CalledProcessError(status, args)
        return 0 if name == "check_call" else b""
    return f


def os_system(env):
    return lambda cmd: command(env, "call")(cmd, shell=True) << 8


def blocked(name):
    def f(*a, **k):
        raise Unsupported("call of " + name)
    return f


def _user_frame():
    """The innermost frame outside the engine."""
    here = __file__.rsplit("/", 1)[0]
    f = _sys._getframe(1)
    while f is not None and f.f_code.co_filename.startswith(here):
        f = f.f_back
    return f


def make_modules(env):
    import inspect
    import functools, time, os, codecs, io, tempfile, subprocess, sys, json, array, copy
    clock = env.clock
    path = ProxyModule(
        "os.path", os.path,
        exists=lambda p: p in ctx().memfs or p.rstrip('/') == MEMROOT.rstrip('/') or os.path.exists(p),
        isfile=lambda p: p in ctx().memfs or os.path.isfile(p))
    osm = ProxyModule("os", os, path=path, **{n: blocked("os." + n) for n in (
        "makedirs", "mkdir", "rmdir", "removedirs",
        "kill", "chmod", "chown", "symlink", "link", "truncate", "popen", "open", "write")},
        remove=memfs_remove, unlink=memfs_remove, rename=memfs_replace, replace=memfs_replace, system=os_system(env),
        getcwd=lambda: MEMROOT.rstrip("/"))
    return {
        "math": make_math(),
        "struct": ProxyModule("struct", _struct, **vars(SH_STRUCT)),
        "array": ProxyModule("array", array, array=Array, ArrayType=Array),
        "inspect": ProxyModule("inspect", inspect, currentframe=_user_frame),
        "heapq": PURE_HEAPQ,
        "bisect": PURE_BISECT,
        "functools": ProxyModule("functools", functools, lru_cache=lru_cache, cache=lru_cache(None) if False else (lambda f: lru_cache(None)(f))),
        "time": ProxyModule("time", time, time=lambda: clock("time"), monotonic=lambda: clock("monotonic"),
                            perf_counter=lambda: clock("perf"), localtime=lambda *a: env.localtime(),
                            sleep=lambda *a: None),
        "json": ProxyModule("json", json, dump=j_dump, dumps=j_dumps, load=j_load, loads=j_loads),
        "os": osm,
        "os.path": path,
        "codecs": ProxyModule("codecs", codecs, open=codecs_open),
        "io": ProxyModule("io", io, BytesIO=BytesIOShim, StringIO=StringIOShim, open=open_memfs),
        "tempfile": ProxyModule("tempfile", tempfile, **{n: blocked("tempfile." + n) for n in (
            "mkstemp", "TemporaryFile")}, NamedTemporaryFile=NamedTemporaryFile, TemporaryDirectory=TemporaryDirectory,
            mkdtemp=lambda suffix=None, prefix=None, dir=None: temp_name(prefix, suffix, dir), gettempdir=lambda: MEMROOT + "tmp"),
        "subprocess": ProxyModule("subprocess", subprocess, **{n: command(env, n) for n in (
            "call", "run", "Popen", "check_call", "check_output")}),
        "sys": ProxyModule("sys", sys, stdout=Sink(), stderr=ErrSink()),
    }


def make_builtins(env, importer):
    d = dict(vars(builtins))
    d.update(
        int=INT, float=FLOAT, str=STR, bytes=BYTES, bytearray=BYTEARRAY, bool=BOOL, type=TYPE,
        len=b_len, range=RANGE, min=b_min, max=b_max, sum=b_sum, abs=b_abs, round=b_round,
        pow=b_pow, ord=b_ord, chr=b_chr, hex=b_hex, hash=b_hash, print=b_print, repr=b_repr,
        divmod=b_divmod, format=b_format, sorted=b_sorted, open=open_memfs,
        __import__=importer,
    )
    return d


import numbers
numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)
