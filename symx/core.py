"""Path exploration and symbolic scalar values."""

import time
from fractions import Fraction
import z3

# ---------------------------------------------------------------- signals


class EngineSignal(BaseException):
    pass


class PathAbort(EngineSignal):
    """The current path is infeasible (an assumption failed)."""


class Unsupported(EngineSignal):
    """A construct the engine does not model was reached on this path."""


class BoundExceeded(EngineSignal):
    """The path did not finish within the loop/step bound."""


class CheckFailed(EngineSignal):
    """An assertion has a counterexample.  With pushed=True the solver holds
    one extra frame containing the negated assertion."""

    def __init__(self, label, pushed, prefer=()):
        self.label = label
        self.pushed = pushed
        self.prefer = prefer


class EngineError(Exception):
    pass


class OutOfTime(EngineSignal):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise EngineError("no active symbolic context")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------- context


class Ev:
    __slots__ = ("kind", "val", "alt", "cond", "pushed", "data")

    def __init__(self, kind, val=None, alt=False, cond=None, pushed=False, data=None):
        self.kind = kind
        self.val = val
        self.alt = alt
        self.cond = cond
        self.pushed = pushed
        self.data = data


class Ctx:
    def __init__(self, timeout_ms=60000, max_ticks=20000, nl=False, deadline=None):
        self.nl = nl
        self.timeout_ms = timeout_ms
        self.solver = z3.SolverFor("QF_NRA") if nl == "nra" else z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.max_ticks = max_ticks
        self.deadline = deadline
        self.events = []
        self.stats = dict(
            queries=0, solver_s=0.0, paths=0, decisions=0, forced=0,
            checks=0, checks_proved=0, unknown=0, concretised=0, infeasible=0,
            unsupported=0, bound_exceeded=0, ticks=0, trivially_true=0,
        )
        self.unsupported_reasons = {}
        self.functions = {}
        self.reached = {}
        self.model = None
        self._begin()

    # -- one run
    def _begin(self):
        self.pos = 0
        self.n_fresh = 0
        self.inputs = {}      # name -> (kind, term)
        self.observed = []
        self.ticks = 0
        self.hash_apps = []
        self.tokens = []      # token id -> value
        self.token_index = {}
        self.memfs = {}
        self.path_notes = []
        self.cache = {}
        self.partial = False

    def fresh_name(self, base):
        self.n_fresh += 1
        return "%s!%d" % (base, self.n_fresh)

    def fresh_int(self, base="i"):
        return z3.Int(self.fresh_name(base))

    def fresh_real(self, base="r"):
        return z3.Real(self.fresh_name(base))

    def fresh_bool(self, base="b"):
        return z3.Bool(self.fresh_name(base))

    # -- solver
    def query(self, *assumptions):
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfTime()
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["queries"] += 1
        return r

    def _push_query(self, cond):
        """sat status of pc /\\ cond, with the model if sat."""
        self.solver.push()
        self.solver.add(cond)
        r = self.query()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        return r, m

    def _model_says(self, cond):
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def tick(self):
        self.ticks += 1
        if self.ticks > self.max_ticks:
            raise BoundExceeded()
        if self.deadline is not None and (self.ticks & 255) == 0 and time.time() > self.deadline:
            raise OutOfTime()

    def add(self, cond, check=False):
        """Assume cond.  check=True: abort the path if now infeasible."""
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort()
            return
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev.kind != "A":
                raise EngineError("non-deterministic replay (A vs %s)" % ev.kind)
            self.pos += 1
            return
        s = z3.simplify(cond)
        if z3.is_true(s):
            self.events.append(Ev("A"))
            self.pos += 1
            return
        if z3.is_false(s):
            raise PathAbort()
        self.solver.add(cond)
        self.events.append(Ev("A"))
        self.pos += 1
        if self._model_says(cond) is not True:
            self.model = None
            if check:
                r = self.query()
                if r == z3.unsat:
                    raise PathAbort()
                if r == z3.sat:
                    self.model = self.solver.model()

    def decide(self, cond):
        """Branch on a z3 Bool; returns the Python bool taken on this path."""
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev.kind != "D" or not ev.cond.eq(s):
                raise EngineError("non-deterministic replay (D): %s vs %s" % (ev.cond, s))
            self.pos += 1
            return ev.val
        self.stats["decisions"] += 1
        says = self._model_says(s)
        neg = z3.Not(s)
        mt = mf = None
        if says is True:
            rt, mt = z3.sat, self.model
        else:
            rt, mt = self._push_query(s)
        if says is False:
            rf, mf = z3.sat, self.model
        elif rt == z3.unsat:
            # pc itself is satisfiable (or unknown) so the other side is taken
            rf = z3.sat if self.model is not None else z3.unknown
        else:
            rf, mf = self._push_query(neg)
        if rt == z3.unknown or rf == z3.unknown:
            self.stats["unknown"] += 0
        if rt == z3.unsat and rf == z3.unsat:
            raise PathAbort()
        if rt == z3.unsat:
            self.events.append(Ev("D", False, False, s, False))
            self.stats["forced"] += 1
            self.pos += 1
            return False
        if rf == z3.unsat:
            self.events.append(Ev("D", True, False, s, False))
            self.stats["forced"] += 1
            self.pos += 1
            return True
        self.solver.push()
        self.solver.add(s)
        self.events.append(Ev("D", True, True, s, True))
        self.model = mt
        self.pos += 1
        return True

    def backtrack(self):
        """Flip the deepest open decision; False when exploration is complete."""
        while self.events:
            ev = self.events[-1]
            if ev.kind == "D" and ev.pushed:
                self.solver.pop()
                if ev.alt:
                    self.events.pop()
                    self.solver.push()
                    if ev.data != "nonlinear":
                        self.solver.add(z3.Not(ev.cond))
                    self.events.append(Ev("D", False, False, ev.cond, True, data=ev.data))
                    self.model = None
                    return True
            self.events.pop()
        return False

    def concretize(self, term, what="value", cap=400):
        """Enumerate (by forking) the feasible values of an Int term."""
        t = z3.simplify(term)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(cap):
            if self.pos < len(self.events):
                ev = self.events[self.pos]
                if ev.kind != "V":
                    raise EngineError("non-deterministic replay (V)")
                self.pos += 1
                v = ev.data
            else:
                m = self.get_model()
                v = m.eval(t, model_completion=True)
                if not z3.is_int_value(v):
                    raise Unsupported("cannot concretise " + what)
                v = v.as_long()
                self.events.append(Ev("V", data=v))
                self.pos += 1
            if self.decide(t == v):
                return v
        raise BoundExceeded("concretisation of " + what)

    def get_model(self):
        if self.model is None:
            r = self.query()
            if r == z3.unsat:
                raise PathAbort()
            if r != z3.sat:
                raise Unsupported("no model for the path condition (%s)" % r)
            self.model = self.solver.model()
        return self.model

    # -- assertions
    def check(self, cond, label, prefer=()):
        """Assert cond on this path: the solver decides pc => cond."""
        self.reached[label] = self.reached.get(label, 0)
        if isinstance(cond, bool):
            if self.pos < len(self.events):
                ev = self.events[self.pos]
                if ev.kind != "C":
                    raise EngineError("non-deterministic replay (C)")
                self.pos += 1
                return
            self.stats["checks"] += 1
            self.reached[label] += 1
            if not cond:
                raise CheckFailed(label, False)
            self.stats["trivially_true"] += 1
            self.events.append(Ev("C"))
            self.pos += 1
            return
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev.kind != "C":
                raise EngineError("non-deterministic replay (C)")
            self.pos += 1
            return
        self.stats["checks"] += 1
        self.reached[label] += 1
        r, m = self._push_query(z3.Not(cond))
        if r == z3.unknown:
            r, m = self.second_opinion(cond)
        if r == z3.sat:
            self.solver.push()
            self.solver.add(z3.Not(cond))
            self.model = m
            raise CheckFailed(label, True, prefer)
        if r == z3.unknown:
            self.stats["unknown"] += 1
            self.path_notes.append("unknown: " + label)
            self.events.append(Ev("C"))
            self.pos += 1
            return
        self.stats["checks_proved"] += 1
        self.solver.add(cond)
        self.events.append(Ev("C"))
        self.pos += 1

    def second_opinion(self, cond):
        """Retry an unknown query with other z3 strategies and cvc5."""
        base = list(self.solver.assertions()) + [z3.Not(cond)]
        for logic in ("QF_NRA", "QF_NIRA", "ALL"):
            try:
                s = z3.SolverFor(logic)
                s.set("timeout", self.timeout_ms)
                s.add(base)
                t = time.perf_counter()
                r = s.check()
                self.stats["solver_s"] += time.perf_counter() - t
                self.stats["queries"] += 1
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return r, None
            if r == z3.sat:
                return r, s.model()
        r = cvc5_check(base, self.timeout_ms)
        self.stats["queries"] += 1
        if r == "unsat":
            return z3.unsat, None
        return z3.unknown, None


def cvc5_check(assertions, timeout_ms):
    import subprocess
    s = z3.Solver()
    s.add(assertions)
    text = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(
            ["cvc5", "--lang", "smt2", "--nl-ext-tplanes", "--tlimit=%d" % timeout_ms],
            input=text, capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
    except Exception:
        return "unknown"
    out = p.stdout.strip().split("\n")
    if "(error" in p.stdout or "(error" in p.stderr:
        return "unknown"
    return out[0] if out and out[0] in ("sat", "unsat") else "unknown"


# ---------------------------------------------------------------- lifting


def frac_of_float(x):
    # decimal value of the shortest repr: the "idealised real" the source means
    return Fraction(repr(x))


def realval(x):
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("nan/inf constant")
        f = frac_of_float(x)
        return z3.Q(f.numerator, f.denominator)
    return z3.RealVal(int(x))


def is_num(x):
    return isinstance(x, (int, float, Fraction, SymNum, SymBool))


def lift(x):
    """Python or symbolic number -> z3 arithmetic term (Int or Real)."""
    if isinstance(x, SymNum):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, (float, Fraction)):
        return realval(x)
    return None


def to_real(t):
    if t.is_real():
        return t
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    return z3.ToReal(t)


def pair(a, b):
    ta, tb = lift(a), lift(b)
    if ta is None or tb is None:
        return None
    if ta.is_real() or tb.is_real():
        return to_real(ta), to_real(tb), True
    return ta, tb, False


def mk(t):
    """z3 term -> Python int when it is an integer constant, else symbolic."""
    if z3.is_bool(t):
        return mkbool(t)
    if t.is_real():
        return SymReal(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mks(t):
    return mk(z3.simplify(t))


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def zbool(x):
    """Python/symbolic truth value -> z3 Bool (no fork)."""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymNum):
        return z3.Not(x.e == 0)
    return z3.BoolVal(bool(x))


def as_cond(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymNum):
        return z3.Not(x.e == 0)
    return bool(x)


# ---------------------------------------------------------------- booleans


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.simplify(z3.And(self.e, zbool(o))))
        return SymInt(lift(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.simplify(z3.Or(self.e, zbool(o))))
        return SymInt(lift(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.simplify(z3.Xor(self.e, zbool(o))))
        return SymInt(lift(self)) ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.simplify(self.e == zbool(o)))
        return SymInt(lift(self)) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return bnot(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return "SymBool(%s)" % self.e

    def _n(self):
        return SymInt(lift(self))

    def __add__(self, o): return self._n() + o
    def __radd__(self, o): return o + self._n()
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    def __rmul__(self, o): return o * self._n()
    def __lt__(self, o): return self._n() < o
    def __le__(self, o): return self._n() <= o
    def __gt__(self, o): return self._n() > o
    def __ge__(self, o): return self._n() >= o
    def __neg__(self): return -self._n()


def bnot(x):
    if isinstance(x, SymBool):
        return mkbool(z3.simplify(z3.Not(x.e)))
    if isinstance(x, SymNum):
        return mkbool(z3.simplify(x.e == 0))
    return not x


def band(*xs):
    xs = [x for x in xs]
    if all(isinstance(x, bool) for x in xs):
        return all(xs)
    return mkbool(z3.simplify(z3.And(*[zbool(x) for x in xs])))


def bor(*xs):
    if all(isinstance(x, bool) for x in xs):
        return any(xs)
    return mkbool(z3.simplify(z3.Or(*[zbool(x) for x in xs])))


# ---------------------------------------------------------------- numbers


class SymNum:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.e)

    def __bool__(self):
        return ctx().decide(z3.simplify(z3.Not(self.e == 0)))

    # comparisons
    def _cmp(self, o, op):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            pos = o > 0
            return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos,
                    "eq": False, "ne": True}[op]
        p = pair(self, o)
        if p is None:
            if op == "eq":
                return NotImplemented
            if op == "ne":
                return NotImplemented
            return NotImplemented
        a, b, _ = p
        if op == "lt": r = a < b
        elif op == "le": r = a <= b
        elif op == "gt": r = a > b
        elif op == "ge": r = a >= b
        elif op == "eq": r = a == b
        else: r = a != b
        return mkbool(z3.simplify(r))

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")

    def __hash__(self):
        if self.e.is_int():
            return hash(ctx().concretize(self.e, "hash"))
        raise Unsupported("hash of a symbolic real")

    # arithmetic
    def __add__(self, o):
        p = pair(self, o)
        if p is None: return NotImplemented
        return mks(p[0] + p[1])

    def __radd__(self, o):
        p = pair(o, self)
        if p is None: return NotImplemented
        return mks(p[0] + p[1])

    def __sub__(self, o):
        p = pair(self, o)
        if p is None: return NotImplemented
        return mks(p[0] - p[1])

    def __rsub__(self, o):
        p = pair(o, self)
        if p is None: return NotImplemented
        return mks(p[0] - p[1])

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        p = pair(self, o)
        if p is None: return NotImplemented
        return mks(p[0] * p[1])

    __rmul__ = __mul__

    def __neg__(self): return mks(-self.e)
    def __pos__(self): return self

    def __abs__(self):
        return mks(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        p = pair(self, o)
        if p is None: return NotImplemented
        return divide(p[0], p[1])

    def __rtruediv__(self, o):
        p = pair(o, self)
        if p is None: return NotImplemented
        return divide(p[0], p[1])

    def __floordiv__(self, o):
        p = pair(self, o)
        if p is None: return NotImplemented
        return floordiv(*p)

    def __rfloordiv__(self, o):
        p = pair(o, self)
        if p is None: return NotImplemented
        return floordiv(*p)

    def __mod__(self, o):
        p = pair(self, o)
        if p is None: return NotImplemented
        return mod(*p)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        p = pair(o, self)
        if p is None: return NotImplemented
        return mod(*p)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __format__(self, spec):
        if spec:
            raise Unsupported("format spec on a symbolic number: " + spec)
        return token(self)

    def __str__(self):
        return token(self)

    def __float__(self):
        raise Unsupported("float() at a C boundary")

    def __round__(self, nd=None):
        return round_half_even(self, nd)

    def __floor__(self):
        return mks(z3.ToInt(to_real(self.e)) if self.e.is_real() else self.e)

    def __ceil__(self):
        if self.e.is_int():
            return self
        return mks(-z3.ToInt(-self.e))

    def __trunc__(self):
        return trunc(self)

    # Used by native code that needs an exact integer.
    def __int__(self):
        return ctx().concretize(trunc(self).e if isinstance(trunc(self), SymNum) else z3.IntVal(trunc(self)), "int()")

    @property
    def real(self): return self
    @property
    def imag(self): return 0

    def conjugate(self): return self


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return ctx().concretize(self.e, "index")

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = ctx().concretize(o.e, "shift")
        if o < 0: raise ValueError("negative shift count")
        return self * (1 << o)

    def __rlshift__(self, o):
        n = ctx().concretize(self.e, "shift")
        if n < 0: raise ValueError("negative shift count")
        return o << n

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = ctx().concretize(o.e, "shift")
        if o < 0: raise ValueError("negative shift count")
        return self // (1 << o)

    def __rrshift__(self, o):
        n = ctx().concretize(self.e, "shift")
        if n < 0: raise ValueError("negative shift count")
        return o >> n

    def __and__(self, o): return bit_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)): return NotImplemented
        return self + o - bit_and(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)): return NotImplemented
        return self + o - 2 * bit_and(self, o)
    __rxor__ = __xor__

    def __invert__(self): return -self - 1

    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1

    def bit_length(self):
        v = abs(self)
        n = 0
        while v >= (1 << n):
            n += 1
            if n > 70: raise BoundExceeded("bit_length")
        return n

    def to_bytes(self, length=1, byteorder="big", signed=False):
        from . import shims
        return shims.int_to_bytes(self, length, byteorder, signed)

    def is_integer(self): return True


class SymReal(SymNum):
    __slots__ = ()

    def is_integer(self):
        return mkbool(z3.simplify(z3.IsInt(self.e)))

    def as_integer_ratio(self):
        raise Unsupported("as_integer_ratio")

    @property
    def numerator(self): raise AttributeError("numerator")

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")


def _as_ratio(t):
    """(k, d) when t is k / d with k a non-zero rational constant."""
    k = Fraction(1)
    for _ in range(4):
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            k *= t.arg(0).as_fraction()
            t = t.arg(1)
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            k, t = -k, t.arg(0)
        elif z3.is_app_of(t, z3.Z3_OP_DIV) and z3.is_rational_value(t.arg(0)):
            k *= t.arg(0).as_fraction()
            if not k:
                return None
            return z3.Q(k.numerator, k.denominator), t.arg(1)
        else:
            return None
    return None


def divide(a, b):
    a, b = to_real(a), to_real(b)
    sb = z3.simplify(b)
    if z3.is_rational_value(sb):
        if sb.numerator_as_long() == 0:
            raise ZeroDivisionError("division by zero")
        return SymReal(z3.simplify(a / sb))
    if ctx().decide(sb == 0):
        raise ZeroDivisionError("division by zero")
    inner = _as_ratio(sb)
    if inner is not None:
        # a / (k * n / d) with a constant k*n: stays linear
        k, d = inner
        return SymReal(z3.simplify(a * d / k))
    if ctx().nl:
        # q with q*b == a keeps the query polynomial
        key = ("div", a.get_id(), sb.get_id())
        c = ctx()
        hit = c.cache.get(key)
        if hit is not None:
            return hit[0]
        q = c.fresh_real("q")
        c.add(q * sb == a)
        r = SymReal(q)
        c.cache[key] = (r, a, sb)
        return r
    return SymReal(z3.simplify(a / sb))


def floordiv(a, b, isreal):
    sb = z3.simplify(b)
    if isreal:
        if z3.is_rational_value(sb):
            if sb.numerator_as_long() == 0:
                raise ZeroDivisionError("float floor division by zero")
        elif ctx().decide(sb == 0):
            raise ZeroDivisionError("float floor division by zero")
        return SymReal(z3.simplify(z3.ToReal(z3.ToInt(to_real(a) / to_real(sb)))))
    if z3.is_int_value(sb):
        v = sb.as_long()
        if v == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if v > 0:
            return mks(a / sb)
        return mks((-a) / z3.IntVal(-v))
    if ctx().decide(sb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if ctx().decide(sb > 0):
        return mks(a / sb)
    return mks((-a) / (-sb))


def mod(a, b, isreal):
    sb = z3.simplify(b)
    if isreal:
        if z3.is_rational_value(sb):
            if sb.numerator_as_long() == 0:
                raise ZeroDivisionError("float modulo")
        elif ctx().decide(sb == 0):
            raise ZeroDivisionError("float modulo")
        a, sb = to_real(a), to_real(sb)
        return SymReal(z3.simplify(a - sb * z3.ToReal(z3.ToInt(a / sb))))
    if z3.is_int_value(sb):
        v = sb.as_long()
        if v == 0:
            raise ZeroDivisionError("integer modulo by zero")
        if v > 0:
            return mks(a % sb)
        return mks(-((-a) % z3.IntVal(-v)))
    if ctx().decide(sb == 0):
        raise ZeroDivisionError("integer modulo by zero")
    if ctx().decide(sb > 0):
        return mks(a % sb)
    return mks(-((-a) % (-sb)))


def power(a, b):
    if isinstance(b, SymInt):
        b = ctx().concretize(b.e, "exponent")
    if isinstance(b, float) and b == 0.5:
        from . import shims
        return shims.m_sqrt(a)
    if isinstance(b, float) and b.is_integer():
        b = int(b)
        a = a * 1.0
    if isinstance(b, int) and not isinstance(b, bool):
        if b >= 0:
            r = 1
            for _ in range(b):
                r = r * a
            return r
        return 1 / power(a, -b)
    from . import shims
    h = shims.POW_HOOK
    if h is not None:
        return h(a, b)
    raise Unsupported("power with exponent %r" % (b,))


def trunc(x):
    if isinstance(x, SymBool):
        return SymInt(lift(x))
    e = x.e
    if e.is_int():
        return x
    return mks(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def round_half_even(x, nd=None):
    if nd is not None:
        if isinstance(x, SymInt) and nd >= 0:
            return x
        k = Fraction(10) ** nd
        r = round_half_even(SymReal(to_real(x.e) * realval(k)))
        return SymReal(z3.simplify(to_real(lift(r)) / realval(k)))
    e = x.e
    if e.is_int():
        return x
    half = z3.Q(1, 2)
    n = z3.ToInt(e + half)
    return mks(z3.If(z3.And(z3.ToReal(n) == e + half, n % 2 == 1), n - 1, n))


def bit_and(a, b):
    """Bitwise and on mathematical integers (two's complement semantics)."""
    if isinstance(a, bool): a = int(a)
    if isinstance(b, bool): b = int(b)
    if isinstance(a, SymBool): a = SymInt(lift(a))
    if isinstance(b, SymBool): b = SymInt(lift(b))
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if not isinstance(a, SymInt):
        return NotImplemented
    if isinstance(b, int):
        if b == 0:
            return 0
        if b < 0:
            # x & ~m == x - (x & m)
            return a - bit_and(a, ~b)
        if (b & (b + 1)) == 0:
            return a % (b + 1)
        r = 0
        i = 0
        # group consecutive set bits
        while (b >> i):
            if (b >> i) & 1:
                j = i
                while (b >> j) & 1:
                    j += 1
                r = r + ((a // (1 << i)) % (1 << (j - i))) * (1 << i)
                i = j
            else:
                i += 1
        return r
    if isinstance(b, SymInt):
        # bits of the smaller operand, bounded width
        c = ctx()
        width = None
        for w in (1, 2, 4, 8, 16):
            r, _ = c._push_query(z3.Not(z3.And(a.e >= 0, a.e < 2 ** w, b.e >= 0, b.e < 2 ** w)))
            if r == z3.unsat:
                width = w
                break
        if width is None:
            return bit_and(a, c.concretize(b.e, "bit mask"))
        t = z3.IntVal(0)
        for i in range(width):
            ab = (a.e / 2 ** i) % 2
            bb = (b.e / 2 ** i) % 2
            t = t + z3.If(z3.And(ab == 1, bb == 1), z3.IntVal(2 ** i), z3.IntVal(0))
        return mks(t)
    return NotImplemented


# ---------------------------------------------------------------- tokens
# A symbolic number printed into a native str is represented by one private-use
# character; str methods treat it as an ordinary character and the engine
# resolves it again when the text is parsed.

TOK0 = 0xF0000
TOKN = 0xFFFD


def token(x):
    c = ctx()
    key = ("num", x.e.get_id())
    i = c.token_index.get(key)
    if i is None:
        i = len(c.tokens)
        if i >= TOKN:
            raise Unsupported("too many tokens")
        c.tokens.append(x)
        c.token_index[key] = i
    return chr(TOK0 + i)


def is_token_char(ch):
    return TOK0 <= ord(ch) < TOK0 + TOKN


def has_token(s):
    if CTX is None or not CTX.tokens:
        return False
    for ch in s:
        if TOK0 <= ord(ch) < TOK0 + TOKN:
            return True
    return False


def token_value(ch):
    return ctx().tokens[ord(ch) - TOK0]
