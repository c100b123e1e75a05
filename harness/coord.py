"""Planar parts of coral/coord.py: ring buffer, snapping, simplification, compass."""
from symx.cases import case


# ------------------------------------------------------------------ Buffer

def buf_params(full):
    out = []
    for n in ((1, 2, 4, 8) if not full else (1, 2, 4, 8, 16)):
        for c in range(n + 1):
            out.append(dict(n=n, c=c, ops={1: 4, 2: 4, 4: 3, 8: 2, 16: 2}[n] + (1 if full and n < 8 else 0)))
    return out


@case("C01", quick=buf_params(False), thorough=buf_params(True), validate=6)
def buffer_model(env, n, c, ops):
    """From every ring position and fill level, every short operation sequence
    behaves as a bounded deque."""
    b = env.mod("coord").Buffer(n)
    rot = env.num("rot", 0, 2 * n - 1)
    for i in range(rot):
        b.push(-1 - i)
        env.check_eq(b.shift(), -1 - i, "an element shifted from a one-element buffer is the pushed one")
    model = []
    for i in range(c):
        v = env.int("v%d" % i)
        b.push(v)
        model.append(v)
    for i in range(ops):
        env.check_eq(b.isempty(), len(model) == 0, "isempty agrees with the contents")
        env.check_eq(b.isfull(), len(model) == n, "isfull agrees with the contents")
        op = env.choice("op%d" % i, ["push", "pop", "shift", "peek"])
        if op == "push":
            if len(model) == n:
                env.check(env.raises(AssertionError, b.push, 0), "pushing to a full buffer is rejected")
            else:
                v = env.int("w%d" % i)
                b.push(v)
                model.append(v)
            continue
        if not model:
            env.check(env.raises(AssertionError, getattr(b, op)), "reading an empty buffer is rejected")
            continue
        got = getattr(b, op)()
        want = model.pop() if op == "pop" else model.pop(0) if op == "shift" else model[-1]
        env.check_eq(got, want, op + " returns the right element")
    text = str(b)
    env.check_eq(text, "<" + " ".join([str(v) for v in model]) + ">", "the text lists the contents in order")
    while model:
        env.check_eq(b.shift(), model.pop(0), "draining gives the remaining elements in order")
    env.check(b.isempty(), "drained buffer is empty")


# ---------------------------------------------------------------- snapping

@case("C02")
def nearest_int(env):
    c = env.mod("coord")
    x = env.real("x", -10 ** 9, 10 ** 9)
    n = c.nearest(x)
    env.observe("n", n)
    d = n - x
    env.check(env.And(2 * d <= 1, -2 * d <= 1), "the nearest integer is at most one half away")
    env.check(env.implies(2 * d == 1, x > 0), "ties round away from zero (positive)")
    env.check(env.implies(2 * d == -1, x < 0), "ties round away from zero (negative)")


@case("C02", quick=[dict(n=1), dict(n=2)], nl=True)
def snap(env, n):
    c = env.mod("coord")
    m = env.real("m")
    env.assume(m > 0)
    ps = [(env.real("x%d" % i), env.real("y%d" % i)) for i in range(n)]
    out = list(c.sqr_fit(iter(ps), m))
    env.check_eq(len(out), n, "one grid point per input point")
    for (x, y), (i, j) in zip(ps, out):
        for u, k in ((x, i), (y, j)):
            d = k * m - u
            env.check(env.And(2 * d <= m, -2 * d <= m), "a snapped coordinate is at most half a cell away")
            env.check(isinstance(k, int), "grid coordinates are integers")


# -------------------------------------------------------------- simplifying

def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def grid_path(env, n, w, closed=False):
    """n pairwise different grid vertices on columns 0..w (rows symbolic) whose
    direction never reverses."""
    ps = []
    for i in range(n):
        ps.append((env.num("x%d" % i, 0, w), env.int("y%d" % i, -100, 100)))
    for i in range(n):
        for j in range(i):
            if ps[i][0] == ps[j][0]:
                env.assume(ps[i][1] != ps[j][1])
    for i in range(0 if closed else 1, n if closed else n - 1):
        a, b, c = ps[i - 1], ps[i], ps[(i + 1) % n]
        between = env.Or(env.And(a[0] <= b[0], b[0] <= c[0]), env.And(c[0] <= b[0], b[0] <= a[0]))
        between2 = env.Or(env.And(a[1] <= b[1], b[1] <= c[1]), env.And(c[1] <= b[1], b[1] <= a[1]))
        env.assume(env.Or(cross(a, b, c) != 0, env.And(between, between2)))
    return ps


def with_dups(env, ps):
    """The same path with one vertex repeated (what snapping produces)."""
    k = env.num("dup", 0, len(ps))
    if k < len(ps):
        return ps[:k] + [ps[k]] + ps[k:]
    return ps


@case("C03", quick=[dict(n=n, w=w, k=k) for n, w, k in ((2, 1, 8), (3, 2, 8), (4, 2, 8), (4, 2, 1), (5, 1, 1), (5, 1, 2))],
      thorough=[dict(n=n, w=w, k=k) for n, w, k in ((2, 3, 8), (3, 3, 8), (4, 3, 8), (5, 2, 8), (4, 3, 1), (5, 2, 1), (6, 1, 1), (5, 2, 2), (6, 1, 2))])
def open_line(env, n, w, k):
    c = env.mod("coord")
    ps = grid_path(env, n, w)
    inp = with_dups(env, ps)
    out = list(c.simplify(iter(inp), 1, False, k))
    env.observe("out", out)
    want = [ps[0]]
    for i in range(1, n - 1):
        if cross(ps[i - 1], ps[i], ps[i + 1]) != 0:
            want.append(ps[i])
    want.append(ps[n - 1])
    env.check_eq(len(out), len(want), "exactly the endpoints and the vertices where the direction changes remain")
    for a, b in zip(out, want):
        env.check(env.And(a[0] == b[0], a[1] == b[1]), "the remaining vertices are the original ones, in order")


@case("C03")
def open_short(env):
    c = env.mod("coord")
    n = env.num("n", 0, 2)
    ps = [(env.int("x%d" % i, -9, 9), env.int("y%d" % i, -9, 9)) for i in range(n)]
    out = list(c.simplify(iter(ps), 1))
    env.check_eq(out, ps, "lines of fewer than three points are kept as they are")


@case("C03", quick=[dict(n=12)], thorough=[dict(n=12), dict(n=24)])
def open_zigzag(env, n):
    """Longer than the working buffer: a zig-zag of n vertices, no vertex may be lost."""
    c = env.mod("coord")
    h = [env.int("h%d" % i, 1, 50) for i in range(n)]
    ps = [(i, h[i] if i % 2 else -h[i]) for i in range(n)]
    out = list(c.simplify(iter(ps), 1))
    env.check_eq(len(out), n, "a zig-zag keeps all its vertices")
    for a, b in zip(out, ps):
        env.check(env.And(a[0] == b[0], a[1] == b[1]), "vertices stay in order")


@case("C03", quick=[dict(m=m, k=k) for m, k in ((1, 1), (1, 8), (2, 2), (2, 8), (8, 8))],
      thorough=[dict(m=m, k=k) for m, k in ((1, 1), (1, 2), (1, 8), (2, 2), (4, 4), (2, 8), (3, 8), (7, 8), (8, 8))])
def open_excursion(env, m, k):
    """From an inner point of a straight stretch out and back the same way."""
    c = env.mod("coord")
    y = env.int("y", -50, 50)
    out = [(5 + (i + 1) // 2, y + env.int("h%d" % i, 1, 50) + (60 if i % 2 else 0)) for i in range(m)]
    corners = [(0, y), (10, y), (12, y - env.int("d", 1, 50))]
    ps = [corners[0], (5, y)] + out + out[-2::-1] + [(5, y)] + corners[1:]
    if env.flag("flipped"):
        ps = [(b, a) for a, b in ps]
        corners = [(b, a) for a, b in corners]
    if env.flag("backward"):
        ps = ps[::-1]
        corners = corners[::-1]
    got = list(c.simplify(iter(with_dups(env, ps) if m < 3 else ps), 1, False, k))
    env.observe("out", got)
    env.check_eq(len(got), 3, "an excursion from a straight stretch is left out")
    for a, b in zip(got, corners):
        env.check(env.And(a[0] == b[0], a[1] == b[1]), "the stretch itself stays")


def cyc(env, out):
    """Cyclic vertex list without consecutive repetitions and collinear vertices."""
    l = list(out)
    d = []
    for p in l:
        if not d or env.Or(p[0] != d[-1][0], p[1] != d[-1][1]):
            d.append(p)
    while len(d) > 1 and env.And(d[0][0] == d[-1][0], d[0][1] == d[-1][1]):
        d.pop()
    n = len(d)
    if n < 3:
        return d
    return [d[i] for i in range(n) if cross(d[i - 1], d[i], d[(i + 1) % n]) != 0]


def check_ring(env, out, ps):
    n = len(ps)
    want = [ps[i] for i in range(n) if cross(ps[i - 1], ps[i], ps[(i + 1) % n]) != 0]
    for p in out:
        env.check(env.Or(*[env.And(p[0] == q[0], p[1] == q[1]) for q in ps]), "every vertex of the result is a vertex of the ring")
    env.check(env.And(out[0][0] == out[-1][0], out[0][1] == out[-1][1]), "the result ends where it starts")
    env.check(env.And(*[env.Or(p[0] != q[0], p[1] != q[1]) for p, q in zip(out, out[1:])]), "no vertex is repeated in a row")
    got = cyc(env, out)
    env.check_eq(len(got), len(want), "the result has exactly the corners of the ring")
    if want:
        env.check(env.Or(*[env.And(*[env.And(got[i][0] == want[(i + s) % len(want)][0], got[i][1] == want[(i + s) % len(want)][1])
                                     for i in range(len(want))]) for s in range(len(want))]),
                  "the corners keep their cyclic order")


@case("C04", quick=[dict(n=n, w=w, k=k) for n, w, k in ((3, 2, 8), (4, 2, 8), (4, 1, 1), (5, 1, 1), (5, 1, 2))],
      thorough=[dict(n=n, w=w, k=k) for n, w, k in ((3, 3, 8), (4, 3, 8), (5, 2, 8), (4, 2, 1), (5, 2, 1), (5, 2, 2), (6, 1, 1), (6, 1, 2))])
def ring(env, n, w, k):
    c = env.mod("coord")
    ps = grid_path(env, n, w, True)
    inp = ps
    if env.flag("explicitly closed"):
        inp = inp + [ps[0]]
    inp = with_dups(env, inp)
    out = list(c.simplify(iter(inp), 1, True, k))
    env.observe("out", out)
    check_ring(env, out, ps)


@case("C04", quick=[dict(n=8), dict(n=9), dict(n=10), dict(n=18), dict(n=20)], thorough=[dict(n=n) for n in range(6, 40, 1)])
def ring_long(env, n):
    """Convex-ish rings with more corners than the working buffers hold."""
    c = env.mod("coord")
    h = [env.int("h%d" % i, 1, 40) for i in range(n)]
    # a closed comb: outline up a zig-zag, back along the bottom
    ps = [(i, h[i] + (60 if i % 2 else 0)) for i in range(n)] + [(n - 1, -1 - h[0]), (0, -1 - h[0])]
    s = env.num("start", 0, len(ps) - 1)
    ps = ps[s:] + ps[:s]
    inp = ps + [ps[0]] if env.flag("explicitly closed") else ps
    out = list(c.simplify(iter(inp), 1, True))
    check_ring(env, out, ps)


@case("C04", quick=[dict(m=m, k=k) for m, k in ((1, 1), (1, 8), (2, 2), (8, 8))],
      thorough=[dict(m=m, k=k) for m, k in ((1, 1), (1, 2), (1, 8), (2, 2), (4, 4), (2, 8), (3, 8), (7, 8), (8, 8))])
def ring_excursion(env, m, k):
    """A ring that starts at a corner, with an excursion from the inside of a side."""
    c = env.mod("coord")
    y = env.int("y", -50, 50)
    out = [(5 + (i + 1) // 2, y + env.int("h%d" % i, 1, 50) + (60 if i % 2 else 0)) for i in range(m)]
    corners = [(0, y), (12, y), (12, y - env.int("d", 1, 50)), (0, y - 60)]
    side = [(5, y)] + out + out[-2::-1] + [(5, y)]
    ps = corners[:1] + side + corners[1:]
    s = env.choice("start", [0, 1, 2, 3])
    if s:
        ps = corners[s:] + corners[:1] + side + corners[1:s]
    if env.flag("flipped"):
        ps = [(b, a) for a, b in ps]
        corners = [(b, a) for a, b in corners]
    inp = ps + [ps[0]] if env.flag("explicitly closed") else ps
    check_ring(env, list(c.simplify(iter(inp), 1, True, k)), corners)


@case("C04")
def ring_short(env):
    c = env.mod("coord")
    n = env.num("n", 0, 2)
    ps = [(env.int("x%d" % i, -9, 9), env.int("y%d" % i, -9, 9)) for i in range(n)]
    out = list(c.simplify(iter(ps), 1, True))
    for p in out:
        env.check(env.Or(*[env.And(p[0] == q[0], p[1] == q[1]) for q in ps]), "degenerate rings invent no vertex")
    env.check(len(out) >= len(ps[:1]), "a degenerate ring is not emptied")


# ------------------------------------------------------------------ compass

NAMES = ["N", "NNW", "NW", "WNW", "W", "WSW", "SW", "SSW", "S", "SSE", "SE", "ESE", "E", "ENE", "NE", "NNE"]


@case("C05")
def cardinal(env):
    c = env.mod("coord")
    b = env.real("b", -720, 720)
    env.assume(b >= -360)
    name = c.bearing2cardinal(b)
    env.observe("name", name)
    k = NAMES.index(name)
    # b is counter-clockwise from north; k-th sector is centred on 22.5 k
    env.check(env.Or(*[env.And(env.fle(b - 360 * t - 22.5 * k, 11.25), env.fle(22.5 * k + 360 * t - b, 11.25)) for t in range(-2, 4)]),
              "the bearing lies in the named sector")
    h = c.bearing2hours(b)
    env.observe("hours", h)
    env.check(env.And(h > 0, h <= 12), "clock hours lie in (0, 12]")
    env.check(env.Or(*[env.feq(30 * (12 - h), b - 360 * t) for t in range(-2, 4)]), "twelve hours make a full turn")


# ------------------------------------------------------------- collinearity

@case("C09", timeout=60000)
def collinearity(env):
    c = env.mod("coord")
    p = [(env.real("x%d" % i), env.real("y%d" % i)) for i in range(3)]
    z = cross(*p)
    r = c.collinear(*p)
    env.check(env.iff(r, z == 0), "three points are collinear iff they span no area")
    env.check(env.iff(c.collinear(p[1], p[2], p[0]), r), "collinearity does not depend on the order (rotation)")
    env.check(env.iff(c.collinear(p[1], p[0], p[2]), r), "collinearity does not depend on the order (swap)")
