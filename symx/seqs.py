"""Symbolic byte strings and text: concrete length, symbolic elements."""

import z3
from .core import (SymNum, SymInt, SymReal, SymBool, Unsupported, ctx, band, bor,
                   bnot, mk, mks, mkbool, zbool, has_token, is_token_char,
                   token_value, TOK0, TOKN, lift)


class ByteTok:
    """One byte of the fixed-width encoding of a symbolic value.

    group  identifies the pack() call and argument;  index = significance
    (0 = least significant) ; kind: 'i' unsigned int of `total` bytes, 'd'
    IEEE double (opaque).
    """
    __slots__ = ("value", "index", "total", "kind")

    def __init__(self, value, index, total, kind):
        self.value = value
        self.index = index
        self.total = total
        self.kind = kind

    def as_int(self):
        if self.kind == "d":
            raise Unsupported("individual byte of a symbolic double")
        v = self.value
        return (v // (1 << (8 * self.index))) % 256

    def same(self, o):
        return (isinstance(o, ByteTok) and self.index == o.index
                and self.total == o.total and self.kind == o.kind
                and (self.value is o.value or
                     (isinstance(self.value, SymNum) and isinstance(o.value, SymNum)
                      and self.value.e.eq(o.value.e))))

    def __repr__(self):
        return "ByteTok(%s,%d/%d,%s)" % (self.value, self.index, self.total, self.kind)


def norm_el(x):
    if isinstance(x, ByteTok):
        return x.as_int()
    return x


def el_eq(a, b):
    if isinstance(a, ByteTok) and isinstance(b, ByteTok):
        if a.same(b):
            return True
        if a.kind == "d" or b.kind == "d":
            if a.kind == b.kind and a.index == b.index:
                raise Unsupported("comparison of bytes of two symbolic doubles")
    if isinstance(a, ByteTok):
        a = a.as_int()
    if isinstance(b, ByteTok):
        b = b.as_int()
    return a == b


class SymSeq:
    __slots__ = ("d",)
    native = None
    is_text = False

    def __init__(self, d):
        self.d = list(d)

    # -- construction
    @classmethod
    def make(cls, d):
        """Collapse to the native type when fully concrete."""
        if all(type(x) is int for x in d):
            return cls.from_ints(d)
        return cls(d)

    @classmethod
    def elems(cls, x):
        if isinstance(x, cls):
            return x.d
        if cls.is_text and isinstance(x, str):
            if has_token(x):
                return expand_tokens(x)
            return [ord(c) for c in x]
        if not cls.is_text and isinstance(x, (bytes, bytearray)):
            return list(x)
        return None

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def __repr__(self):
        return "%s(%r)" % (type(self).__name__, self.d)

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        """Fork over concrete contents (bounded)."""
        out = []
        for x in self.d:
            x = norm_el(x)
            if isinstance(x, SymInt):
                x = ctx().concretize(x.e, "character")
            out.append(int(x))
        return self.from_ints(out)

    def __iter__(self):
        for i in range(len(self.d)):
            yield self[i]

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.make(self.d[k])
        if isinstance(k, SymInt):
            k = k.__index__()
        return self.item(self.d[k])

    def __add__(self, o):
        e = self.elems(o)
        if e is None:
            return NotImplemented
        return self.make(self.d + e)

    def __radd__(self, o):
        e = self.elems(o)
        if e is None:
            return NotImplemented
        return self.make(e + self.d)

    def __mul__(self, n):
        return self.make(self.d * int(n))

    __rmul__ = __mul__

    def eq(self, o):
        e = self.elems(o)
        if e is None:
            return False
        if len(e) != len(self.d):
            return False
        return band(*([True] + [el_eq(a, b) for a, b in zip(self.d, e)]))

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return bnot(self.eq(o))

    def _lt(self, o, orequal):
        e = self.elems(o)
        if e is None:
            return NotImplemented
        for a, b in zip(self.d, e):
            a, b = norm_el(a), norm_el(b)
            if a == b:
                continue
            return a < b
        return len(self.d) < len(e) or (orequal and len(self.d) == len(e))

    def __lt__(self, o): return self._lt(o, False)
    def __le__(self, o): return self._lt(o, True)
    def __gt__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else bnot(r)
    def __ge__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else bnot(r)

    def __contains__(self, x):
        if isinstance(x, (int, SymInt)) and not self.is_text:
            return bool(bor(*([False] + [el_eq(a, x) for a in self.d])))
        return self.find(x) >= 0

    # -- searching (forking)
    def find(self, sub, start=0, end=None):
        e = self.elems(sub)
        if e is None:
            if isinstance(sub, (int, SymInt)):
                e = [sub]
            else:
                raise TypeError("expected a string")
        n = len(self.d)
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - len(e) + 1):
            if band(*([True] + [el_eq(a, b) for a, b in zip(self.d[i:i + len(e)], e)])):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rfind(self, sub, start=0, end=None):
        e = self.elems(sub)
        n = len(self.d)
        start, end, _ = slice(start, end).indices(n)
        for i in range(end - len(e), start - 1, -1):
            if band(*([True] + [el_eq(a, b) for a, b in zip(self.d[i:i + len(e)], e)])):
                return i
        return -1

    def count(self, sub):
        e = self.elems(sub)
        if not e:
            return len(self.d) + 1
        i = n = 0
        while i + len(e) <= len(self.d):
            if band(*[el_eq(a, b) for a, b in zip(self.d[i:i + len(e)], e)]):
                n += 1
                i += len(e)
            else:
                i += 1
        return n

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(self.startswith(q, start) for q in p)
        e = self.elems(p)
        d = self.d[start:]
        if len(e) > len(d):
            return False
        return band(*([True] + [el_eq(a, b) for a, b in zip(d, e)]))

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        e = self.elems(p)
        if len(e) > len(self.d):
            return False
        if not e:
            return True
        return band(*[el_eq(a, b) for a, b in zip(self.d[-len(e):], e)])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            parts, cur = [], []
            for x in self.d:
                if self._in_set(x, None):
                    if cur:
                        parts.append(self.make(cur))
                        cur = []
                else:
                    cur.append(x)
            if cur:
                parts.append(self.make(cur))
            if maxsplit != -1:
                raise Unsupported("split(None, n)")
            return parts
        e = self.elems(sep)
        if not e:
            raise ValueError("empty separator")
        parts, cur, i, k = [], [], 0, 0
        while i < len(self.d):
            if (maxsplit < 0 or k < maxsplit) and i + len(e) <= len(self.d) and \
                    band(*[el_eq(a, b) for a, b in zip(self.d[i:i + len(e)], e)]):
                parts.append(self.make(cur))
                cur = []
                i += len(e)
                k += 1
            else:
                cur.append(self.d[i])
                i += 1
        parts.append(self.make(cur))
        return parts

    def partition(self, sep):
        i = self.find(sep)
        n = len(self.elems(sep))
        if i < 0:
            return self, self.make([]), self.make([])
        return self[:i], sep, self[i + n:]

    def rpartition(self, sep):
        i = self.rfind(sep)
        n = len(self.elems(sep))
        if i < 0:
            return self.make([]), self.make([]), self
        return self[:i], sep, self[i + n:]

    def replace(self, a, b, cnt=-1):
        if cnt != -1:
            raise Unsupported("replace with count")
        parts = self.split(a)
        return self.make(join_elems(type(self), b, parts))

    def _in_set(self, x, chars):
        x = norm_el(x)
        if chars is None:
            cs = WS_TEXT if self.is_text else WS_BYTES
        else:
            cs = self.elems(chars)
        return bor(*([False] + [x == c for c in cs]))

    def rstrip(self, chars=None):
        d = list(self.d)
        while d and self._in_set(d[-1], chars):
            d.pop()
        return self.make(d)

    def lstrip(self, chars=None):
        d = list(self.d)
        while d and self._in_set(d[0], chars):
            d.pop(0)
        return self.make(d)

    def strip(self, chars=None):
        x = self.lstrip(chars)
        return x.rstrip(chars)

    def _fill(self, fill):
        if fill is None:
            return 32
        e = self.elems(fill)
        if e is None or len(e) != 1:
            raise TypeError("The fill character must be exactly one character long")
        return e[0]

    def ljust(self, n, fill=None):
        f = self._fill(fill)
        return self.make(self.d + [f] * max(0, n - len(self.d)))

    def rjust(self, n, fill=None):
        f = self._fill(fill)
        return self.make([f] * max(0, n - len(self.d)) + self.d)

    def center(self, n, fill=None):
        f = self._fill(fill)
        k = max(0, n - len(self.d))
        left = k // 2 + (k & n & 1)
        return self.make([f] * left + self.d + [f] * (k - left))

    def zfill(self, n):
        k = max(0, n - len(self.d))
        return self.make([48] * k + self.d)

    def join(self, it):
        return self.make(join_elems(type(self), self, list(it)))

    def _case(self, lo, hi, delta):
        out = []
        for x in self.d:
            x = norm_el(x)
            if isinstance(x, SymInt):
                if self.is_text and not bool(x < 128):
                    raise Unsupported("case mapping of a non-ASCII symbolic character")
                out.append(mks(z3.If(z3.And(x.e >= lo, x.e <= hi), x.e + delta, x.e)))
            elif self.is_text:
                c = chr(x)
                c = c.upper() if delta < 0 else c.lower()
                out.extend(ord(k) for k in c)
            else:
                out.append(x + delta if lo <= x <= hi else x)
        return self.make(out)

    def upper(self): return self._case(97, 122, -32)
    def lower(self): return self._case(65, 90, 32)

    def isdigit(self):
        if not self.d: return False
        return band(*[band(norm_el(x) >= 48, norm_el(x) <= 57) for x in self.d])

    def splitlines(self, keepends=False):
        raise Unsupported("splitlines on symbolic text")


WS_BYTES = [9, 10, 11, 12, 13, 32]
WS_TEXT = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0, 0x1680,
           0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007,
           0x2008, 0x2009, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000]


def join_elems(cls, sep, parts):
    se = cls.elems(sep)
    out = []
    for i, p in enumerate(parts):
        if i:
            out.extend(se)
        e = cls.elems(p)
        if e is None:
            raise TypeError("sequence item %d: wrong type %s" % (i, type(p).__name__))
        out.extend(e)
    return out


class SymBytes(SymSeq):
    __slots__ = ()
    is_text = False

    @staticmethod
    def from_ints(d):
        return bytes(d)

    @staticmethod
    def item(x):
        return norm_el(x)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("-", "").replace("_", "")
        d = [norm_el(x) for x in self.d]
        if enc in ("latin1", "iso88591"):
            return SymStr.make(d)
        if enc == "ascii":
            for x in d:
                if not (x < 128):
                    if errors == "ignore":
                        raise Unsupported("ascii decode with ignore")
                    raise UnicodeDecodeError("ascii", b"?", 0, 1, "ordinal not in range(128)")
            return SymStr.make(d)
        if enc in ("utf8",):
            return SymStr.make(utf8_decode(d, errors))
        raise Unsupported("decode " + encoding)

    def hex(self):
        raise Unsupported("hex of symbolic bytes")

    def tolist(self):
        return [norm_el(x) for x in self.d]


class SymStr(SymSeq):
    __slots__ = ()
    is_text = True

    @staticmethod
    def from_ints(d):
        return "".join(map(chr, d))

    @staticmethod
    def item(x):
        if type(x) is int:
            return chr(x)
        return SymStr([x])

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("-", "").replace("_", "")
        if enc in ("latin1", "iso88591"):
            for x in self.d:
                if not (x < 256):
                    raise UnicodeEncodeError("latin-1", "?", 0, 1, "ordinal not in range(256)")
            return SymBytes.make(list(self.d))
        if enc == "ascii":
            for x in self.d:
                if not (x < 128):
                    raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
            return SymBytes.make(list(self.d))
        if enc == "utf8":
            return SymBytes.make(utf8_encode(self.d))
        raise Unsupported("encode " + encoding)

    def translate(self, table):
        out = []
        for x in self.d:
            if type(x) is int:
                r = table.get(x, x)
                if r is None: continue
                out.extend([r] if isinstance(r, int) else [ord(c) for c in r])
            else:
                t = x.e
                for k, v in table.items():
                    if isinstance(v, str):
                        if len(v) != 1: raise Unsupported("translate to a string")
                        v = ord(v)
                    if v is None: raise Unsupported("deleting translate")
                    t = z3.If(x.e == k, z3.IntVal(v), t)
                out.append(mks(t))
        return SymStr.make(out)

    def format(self, *a, **k):
        raise Unsupported("symbolic format string")

    def __str__(self):
        return SYMSTR_TO_NATIVE(self)

    def __format__(self, spec):
        if spec:
            raise Unsupported("format spec on symbolic text")
        return SYMSTR_TO_NATIVE(self)

    def isspace(self):
        if not self.d: return False
        return band(*[self._in_set(x, None) for x in self.d])


def SYMSTR_TO_NATIVE(s):
    raise Unsupported("symbolic text forced to a native str")


def utf8_encode(d):
    out = []
    for x in d:
        if type(x) is int:
            out.extend(chr(x).encode("utf-8"))
            continue
        if x < 0x80:
            out.append(x)
        elif x < 0x800:
            out.append(x // 64 + 0xC0)
            out.append(x % 64 + 0x80)
        elif x < 0x10000:
            if band(x >= 0xD800, x <= 0xDFFF):
                raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
            out.append(x // 4096 + 0xE0)
            out.append((x // 64) % 64 + 0x80)
            out.append(x % 64 + 0x80)
        else:
            out.append(x // 262144 + 0xF0)
            out.append((x // 4096) % 64 + 0x80)
            out.append((x // 64) % 64 + 0x80)
            out.append(x % 64 + 0x80)
    return out


def _udec(d, msg="invalid byte"):
    return UnicodeDecodeError("utf-8", b"?", 0, 1, msg)


def utf8_decode(d, errors="strict"):
    if errors != "strict" and not all(type(x) is int for x in d):
        lenient = True
    else:
        lenient = False
    if all(type(x) is int for x in d):
        return [ord(c) for c in bytes(d).decode("utf-8", errors)]
    out = []
    i = 0
    n = len(d)

    def cont(k):
        if k >= n:
            return False
        return bool(band(d[k] >= 0x80, d[k] <= 0xBF))

    while i < n:
        b0 = d[i]
        try:
            if b0 < 0x80:
                out.append(b0)
                i += 1
                continue
            if b0 < 0xC2:
                raise _udec(d)
            if b0 < 0xE0:
                if not cont(i + 1):
                    raise _udec(d)
                out.append((b0 - 0xC0) * 64 + (d[i + 1] - 0x80))
                i += 2
            elif b0 < 0xF0:
                if not (cont(i + 1) and cont(i + 2)):
                    raise _udec(d)
                c = (b0 - 0xE0) * 4096 + (d[i + 1] - 0x80) * 64 + (d[i + 2] - 0x80)
                if not (c >= 0x800):
                    raise _udec(d)
                if band(c >= 0xD800, c <= 0xDFFF):
                    raise _udec(d)
                out.append(c)
                i += 3
            elif b0 < 0xF5:
                if not (cont(i + 1) and cont(i + 2) and cont(i + 3)):
                    raise _udec(d)
                c = (b0 - 0xF0) * 262144 + (d[i + 1] - 0x80) * 4096 + (d[i + 2] - 0x80) * 64 + (d[i + 3] - 0x80)
                if not band(c >= 0x10000, c <= 0x10FFFF):
                    raise _udec(d)
                out.append(c)
                i += 4
            else:
                raise _udec(d)
        except UnicodeDecodeError:
            if not lenient:
                raise
            if errors == "ignore":
                # skip the maximal invalid prefix: only the truncated-tail case
                # (all following bytes belong to the broken sequence) is modelled
                j = i + 1
                while j < n and cont(j):
                    j += 1
                i = j
            else:
                raise Unsupported("utf-8 decode errors=" + errors)
    return out


def expand_tokens(s):
    """Text with number tokens -> list of character codes (forks on digits)."""
    out = []
    for ch in s:
        if is_token_char(ch) and CTX_TOKENS():
            v = token_value(ch)
            if getattr(ctx(), "opaque_floats", False) and not isinstance(v, SymInt):
                out.append(ord(ch))
            else:
                out.extend(digits_of(v))
        else:
            out.append(ord(ch))
    return out


def CTX_TOKENS():
    return bool(ctx().tokens)


def digits_of(v):
    c = ctx()
    key = ("digits", v.e.get_id())
    hit = c.cache.get(key)
    if hit is not None:
        return hit[0]
    if not isinstance(v, SymInt):
        raise Unsupported("decimal expansion of a symbolic real")
    out = []
    a = v
    if v < 0:
        out.append(45)
        a = -v
    n = 1
    while not (a < 10 ** n):
        n += 1
        if n > 25:
            raise Unsupported("too many digits")
    ds = []
    for i in range(n - 1, -1, -1):
        q = a if i == 0 else a // (10 ** i)
        dgt = q if i == n - 1 else q % 10
        ds.append(48 + dgt)
    out.extend(ds)
    # remember the value so that int() of exactly these characters is exact
    c.cache[key] = (out, v)
    c.cache.setdefault("digit_lists", []).append((out, v))
    return out


def recall(d):
    """The value these very characters were written for, if known."""
    for lst, v in ctx().cache.get("digit_lists", []):
        if len(lst) == len(d) and all((a is b) or (type(a) is int and type(b) is int and a == b) for a, b in zip(lst, d)):
            return v
    return None


def parse_int_elems(d):
    """Characters (codes) -> integer; forks on validity.  ValueError if bad."""
    c = ctx()
    v = recall(d)
    if v is not None:
        return v
    d = list(d)
    s = SymStr(d)
    x = s.strip()
    d = SymStr.elems(x)
    if not d:
        raise ValueError("invalid literal for int()")
    sign = 1
    if d[0] == 45:
        sign = -1
        d = d[1:]
    elif d[0] == 43:
        d = d[1:]
    if not d:
        raise ValueError("invalid literal for int()")
    r = 0
    for x in d:
        if not band(x >= 48, x <= 57):
            raise ValueError("invalid literal for int()")
        r = r * 10 + (x - 48)
    return sign * r
