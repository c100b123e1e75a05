"""Statistics (coral/stats.py)."""
from symx.cases import case


def sample(env, n, name="x", lo=None, hi=None):
    if n > 6:
        # long samples, two elements symbolic
        return tuple(env.real("%s%d" % (name, i), lo, hi) if i in (1, n - 2) else (7 * i * i + len(name) + (i if name[0] == "y" else 0)) % 23 for i in range(n))
    return tuple(env.real("%s%d" % (name, i), lo, hi) for i in range(n))


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


NS = [dict(n=n) for n in (1, 2, 3, 9, 40)]
NT = [dict(n=n) for n in (1, 2, 3, 4, 5, 9, 40, 400)]


@case("S01", quick=NS, thorough=NT, timeout=30000)
def spread(env, n):
    """Mean, variance and standard deviation are the population ones."""
    s = env.mod("stats")
    xs = sample(env, n, lo=-1000, hi=1000)
    u = s.avg(xs)
    env.near(n * u, total(xs), "the mean times the count is the sum")
    v = s.var(xs)
    env.near(n * n * v, n * total([x * x for x in xs]) - total(xs) * total(xs), "the variance is the mean of the squares minus the square of the mean", tol=0 if env.symbolic else 1e-3)
    env.le(0, v, "the variance is not negative")
    d = s.std_dev(xs)
    env.le(0, d, "the standard deviation is not negative")
    env.near(d * d, v, "the standard deviation is the square root of the variance")
    if env.symbolic:
        zero, same = v == 0, env.And(*[x == xs[0] for x in xs])
    else:
        zero, same = v <= 1e-10, all(abs(x - xs[0]) <= 1e-6 for x in xs)
    env.check(env.iff(zero, same), "the variance is zero exactly for equal values")


@case("S01", quick=NS, thorough=NT, timeout=30000)
def affine(env, n):
    """Mean and variance follow shifts and scalings."""
    s = env.mod("stats")
    xs = sample(env, n, lo=-1000, hi=1000)
    k, c = env.choice("k", [-3, -1, 0, 2, 0.5]), env.real("c", -1000, 1000)
    ys = tuple(k * x + c for x in xs)
    env.near(s.avg(ys), k * s.avg(xs) + c, "the mean follows shifts and scalings")
    env.near(s.var(ys), k * k * s.var(xs), "the variance ignores shifts and follows scalings squared", tol=0 if env.symbolic else 1e-3)


@case("S02", quick=NS, thorough=NT, timeout=30000)
def covariance(env, n):
    """The covariance is the population one: symmetric and bilinear."""
    s = env.mod("stats")
    xs, ys = sample(env, n, "x", -1000, 1000), sample(env, n, "y", -1000, 1000)
    tol = 0 if env.symbolic else 1e-3
    c = s.covar(xs, ys)
    env.near(n * n * c, n * total([x * y for x, y in zip(xs, ys)]) - total(xs) * total(ys), "the covariance is the mean of the products minus the product of the means", tol)
    env.near(s.covar(ys, xs), c, "the covariance is symmetric", tol)
    env.near(s.covar(xs, xs), s.var(xs), "the covariance of a sample with itself is its variance", tol)
    k = env.choice("k", [-2, 0, 3, 0.5])
    zs = tuple(k * x + y + 7 for x, y in zip(xs, ys))
    env.near(s.covar(zs, ys), k * c + s.var(ys), "the covariance is linear in each sample", tol)


@case("S02", quick=[dict(n=2), dict(n=3), dict(n=9), dict(n=40)], thorough=[dict(n=2), dict(n=3), dict(n=4)], timeout=60000)
def correlation(env, n):
    """The correlation is the covariance over the two deviations."""
    s = env.mod("stats")
    xs, ys = sample(env, n, "x", -100, 100), sample(env, n, "y", -100, 100)
    v, w = s.var(xs), s.var(ys)
    env.assume(v > 0.01)
    env.assume(w > 0.01)
    r = s.corr(xs, ys)
    a, b = s.std_dev(xs), s.std_dev(ys)
    env.near(r * (a * b), s.covar(xs, ys), "the correlation times both deviations is the covariance")
    env.le(s.covar(xs, ys) * s.covar(xs, ys), v * w, "correlations are between -1 and 1")
    q = s.corr(ys, xs)
    env.near(q * (a * b), r * (a * b), "the correlation is symmetric")


@case("S02", quick=[dict(n=2), dict(n=3), dict(n=9), dict(n=40)], thorough=[dict(n=2), dict(n=3), dict(n=4)], timeout=60000)
def aligned(env, n):
    """Samples on a line have correlation 1 or -1."""
    s = env.mod("stats")
    xs = sample(env, n, "x", -100, 100)
    env.assume(s.var(xs) > 0.01)
    env.near(s.corr(xs, xs), 1, "a sample has correlation 1 with itself")
    k = env.choice("k", [2, -1, -4])
    ys = tuple(k * x + 5 for x in xs)
    env.near(s.corr(xs, ys), 1 if k > 0 else -1, "samples on a rising line have correlation 1, on a falling line -1")


GS = [dict(n=n) for n in (2, 3, 4, 9)]
GT = [dict(n=n) for n in (2, 3, 4, 5, 9, 20)]
GL = [dict(n=110)]


@case("S03", quick=GS, thorough=GT, timeout=60000)
def gini(env, n):
    """Both estimates of the Gini coefficient are the same measure."""
    s = env.mod("stats")
    xs = sample(env, n, "x", 0, 1000)
    t = total(xs)
    env.assume(t >= 1)
    # sum of absolute differences of all pairs
    d = 0
    for i in range(n):
        for j in range(i):
            d = d + env.ite(xs[i] > xs[j], xs[i] - xs[j], xs[j] - xs[i])
    for name in ("gini_kakwani", "gini_deaton"):
        g = getattr(s, name)(xs)
        env.near(g * t * (n - 1), d, "the coefficient is the mean absolute difference over twice the mean", tol=1e-3)
        env.le(-1e-9, g, "the coefficient is not negative")
        env.le(g, 1 + 1e-9, "the coefficient is at most 1")


@case("S03", quick=GL, thorough=GL + [dict(n=300)], timeout=60000, ticks=10 ** 7)
def ginilong(env, n):
    """Samples of hundreds, the richest value symbolic."""
    s = env.mod("stats")
    w = env.num("where", 0, 2) * (n - 1) // 2
    x = env.real("x", 100, 10000)
    xs = tuple(x if i == w else (7 * i * i + 3) % 97 for i in range(n))
    rest = sorted(v for i, v in enumerate(xs) if i != w)
    m = sum(rest)
    d = sum([(2 * i - len(rest) + 1) * v for i, v in enumerate(rest)])
    for name in ("gini_kakwani", "gini_deaton"):
        g = getattr(s, name)(xs)
        env.near(g * (x + m) * (n - 1), d + (n - 1) * x - m, "the coefficient is the mean absolute difference over twice the mean", tol=1e-2)


@case("S03", quick=GS, thorough=GT, timeout=60000)
def ginilaws(env, n):
    """The coefficient ignores scale and order; equality is 0, monopoly 1."""
    s = env.mod("stats")
    f = getattr(s, env.choice("estimate", ["gini_kakwani", "gini_deaton"]))
    what = env.num("law", 0, 3)
    if what == 0:
        x = env.real("x", 0.5, 1000)
        env.near(f((x,) * n), 0, "equal shares have coefficient 0", tol=1e-9)
    elif what == 1:
        x = env.real("x", 0.5, 1000)
        k = env.num("who", 0, n - 1)
        env.near(f(tuple(x if i == k else 0 for i in range(n))), 1, "everything to one has coefficient 1", tol=1e-9)
    else:
        xs = sample(env, n, "x", 0, 1000)
        t = total(xs)
        env.assume(t >= 1)
        if what == 2:
            k = env.choice("k", [3, 0.25])
            ys, m = tuple(k * x for x in xs), k
        else:
            p = env.num("first", 0, n - 1)
            ys, m = (xs[p],) + xs[:p][::-1] + xs[p + 1:], 1
        env.near(f(ys) * t, f(xs) * t, "the coefficient ignores %s" % ("the scale" if what == 2 else "the order"), tol=1e-3)


FUNCS = ["sum", "len", "avg", "var", "covar", "max", "min"]


def reference(env, name, args):
    xs = args[0]
    n = len(xs)
    if name == "sum":
        return total(xs)
    if name == "len":
        return n
    if name in ("max", "min"):
        m = xs[0]
        for x in xs[1:]:
            m = env.ite(x > m if name == "max" else x < m, x, m)
        return m
    if name == "avg":
        return total(xs) * env.frac(1, n)
    ys = args[-1]
    return total([x * y for x, y in zip(xs, ys)]) * env.frac(1, n) - total(xs) * total(ys) * env.frac(1, n * n)


@case("S04", quick=[dict(k=3, first=f) for f in FUNCS], thorough=[dict(k=3, first=f) for f in FUNCS] + [dict(k=4, first=f) for f in ("sum", "avg", "len", "max")], timeout=30000, validate=6)
def cached(env, k, first):
    """Remembered results are those of the arguments given."""
    s = env.mod("stats")
    if not env.symbolic:
        s.cache_clear()
    for i in range(k):
        name = first if i == 0 else env.choice("f%d" % i, FUNCS if k < 4 else [first, "avg", "min"])
        args = [tuple(env.int("a%d.%d" % (i, j), -9, 9) for j in range(2))]
        if name == "covar":
            args.append((3, env.int("b%d" % i, -9, 9)))
        if i == 1 and env.flag("cleared"):
            s.cache_clear()
        got = getattr(s, name)(*args)
        want = reference(env, name, args)
        env.near(got, want, "results do not depend on earlier calls")


REPEAT = ["sum", "len", "avg", "var", "std_dev", "covar", "corr", "gini_kakwani", "gini_deaton"]


@case("S04", quick=[dict(f=f) for f in REPEAT])
def counted(env, f):
    """cache_info counts calls answered from memory; clearing forgets."""
    s = env.mod("stats")
    s.cache_clear()
    env.check_eq(tuple(s.cache_info())[0:2] + (s.cache_info()[3],), (0, 0, 0), "nothing is remembered after clearing")
    fn = getattr(s, f)
    a = env.int("a", 1, 9)
    args = [(a, 11, 4)]
    if f in ("covar", "corr"):
        args.append((3, 1, 2))
    first = fn(*args)
    one = s.cache_info()
    env.check(one.misses > 0, "a new call is counted as a miss")
    env.check_eq(one.currsize, one.misses, "every result is remembered")
    env.check(one.currsize <= one.maxsize and one.currsize <= one.misses, "no more results are remembered than computed or allowed")
    again = fn(*args)
    two = s.cache_info()
    env.check_eq(again, first, "a repeated call gives the same result")
    env.check_eq((two.hits - one.hits, two.misses - one.misses, two.currsize - one.currsize), (1, 0, 0), "a repeated call is counted as one hit")
    s.cache_clear()
    env.check_eq(s.cache_info().currsize, 0, "clearing forgets everything")
    env.check_eq(fn(*args), first, "results are the same after clearing")


@case("S04", quick=[dict(f=f, m=m) for f, m in (("corr", 16), ("gini_kakwani", 16), ("gini_deaton", 16), ("covar", 32))], thorough=[dict(f=f, m=m) for f, m in (("corr", 16), ("gini_kakwani", 16), ("gini_deaton", 16), ("covar", 32), ("var", 64), ("avg", 128))])
def evicted(env, f, m):
    """Results dropped from memory are computed again, correctly."""
    s = env.mod("stats")
    s.cache_clear()
    fn = getattr(s, f)
    two = f in ("corr", "covar")
    extra = [(3, 1, 2)] if two else []
    k = env.int("k", 0, m + 1)
    first = []
    for i in range(m + 2):
        first.append(fn((i, 2 * m, 4), *extra))
    a = env.ite(k > m, m + 1, k)
    want = first[-1]
    for i in range(m + 1):
        want = env.ite(a == i, first[i], want)
    got = fn((a, 2 * m, 4), *extra)
    env.near(got, want, "results dropped from memory are computed again", tol=1e-9)
