"""P data sets: coral/pf.py."""
from symx.cases import case

U = 65535


def stub_error_metric(env):
    """The writer reports the displacement of every point with
    coord.haversine; in symbolic runs that call is recorded instead (its
    trigonometry is not part of these properties)."""
    calls = []
    if env.symbolic:
        def record(*a, **k):
            calls.append(a)
            return len(calls) - 1
        env.mod("coord").haversine = record
    return calls


def write(env, ents, size):
    pf = env.mod("pf")
    path = env.path("x.pf")
    w = pf.Writer(path) if size == 4 else pf.Writer(path, size)
    for name, parts in ents:
        w.write(name, parts)
    errs = w.close()
    return pf.Reader(path), errs


@case("V02", quick=[dict(shape=s, size=z) for s in ([[3]], [[2, 1], [1]], [[1], [2], [1, 1]]) for z in (1, 4)]
      + [dict(shape=[[2]], size=z) for z in (2, 8)],
      thorough=[dict(shape=s, size=z) for s in ([[4]], [[2, 2], [1]], [[1], [2], [1, 1]], [[3], [1]]) for z in (1, 2, 4, 8)],
      ticks=3000, timeout=15000)
def structure(env, shape, size):
    """Names, order, parts and vertex counts survive, by index and by name."""
    stub_error_metric(env)
    ents = []
    for i, parts in enumerate(shape):
        polys = []
        for j, n in enumerate(parts):
            # distinct vertices on distinct columns, so that no closing point is dropped
            polys.append([(env.real("x%d_%d_%d" % (i, j, k), -180 + 40 * (3 * j + k), -150 + 40 * (3 * j + k)),
                           env.real("y%d_%d_%d" % (i, j, k), -90, 90)) for k in range(n)])
        # few different names keep implementations that look them up in a table within reach
        nm = env.str("name%d" % i, 1, exclude="\x00") if len(shape) == 1 else env.str("name%d" % i, env.choice("length%d" % i, [0, 2]), chars="a \x7f")
        ents.append((nm, polys))
    for i in range(len(ents)):
        for j in range(i):
            env.assume(env.Not(env.eq(ents[i][0], ents[j][0])))
    r, errs = write(env, ents, size)
    env.check_eq(len(r), len(ents), "the data set has one entry per entity written")
    env.check_eq(list(r.names), [n for n, _ in ents], "names are stored in order")
    order = list(range(len(ents)))
    if env.flag("backwards"):
        order.reverse()
    by_name = env.flag("by name")
    for i in order:
        got = r.get(ents[i][0]) if by_name else r.read(i)
        env.check_eq([len(p) for p in got], shape[i], "parts and vertex counts survive")
    env.check_eq(len(errs), sum(sum(s) for s in shape), "one reported error per vertex")
    r.close()


BOXES = {
    "world": ((-180, -90), (180, 90)),
    "city": ((-46.83, -24.01), (-46.36, -23.35)),
    "meridian": ((10.5, -3), (10.5, 4)),
    "edge": ((179.99, 89.99), (180, 90)),
}


def errors_match(env, calls, errs, flat, out):
    if env.symbolic:
        env.check(len(calls) == len(flat), "the displacement of every vertex is measured")
        for (x, y), (u, v), c in zip(flat, out, calls):
            env.check(env.And(c[0] == x, c[1] == y, c[2] == u, c[3] == v), "the reported errors measure the decoded coordinates")
    else:
        env.check(len(errs) == len(flat), "the displacement of every vertex is measured")
        h = env.mod("coord").haversine
        for (x, y), (u, v), e in zip(flat, out, errs):
            env.check(abs(e - h(x, y, u, v)) <= 1e-6, "the reported errors measure the decoded coordinates")


@case("V03", quick=[dict(size=z, box=b) for z in (1, 2, 4, 8) for b in ("world", "city", "meridian", "edge")], ticks=3000)
def precision(env, size, box):
    """A coordinate read back is within half a step of the entity's grid, which
    is the bounding box rounded outwards to the 65535-step world grid."""
    calls = stub_error_metric(env)
    umax = 256 ** size - 1
    (ax, ay), (bx, by) = BOXES[box]
    p = (env.real("x", ax, bx), env.real("y", ay, by))
    for c in BOXES[box]:
        env.assume(env.Or(p[0] != c[0], p[1] != c[1]))
    polys = [[(ax, ay), (bx, by), p], [p]]
    if env.flag("reorder"):
        polys = [[p], [(bx, by), p, (ax, ay)]]
    r, errs = write(env, [("other", [[(0, 0), (1, 1)]]), ("e", polys)], size)
    got = r.read(1)
    flat = [q for p in polys for q in p]
    out = [q for p in got for q in p]
    env.check_eq([len(q) for q in got], [len(q) for q in polys], "no vertex is lost")
    env.observe("out", out)
    tx = (bx - ax + 2 * 360 / U) / umax / 2
    ty = (by - ay + 2 * 180 / U) / umax / 2
    for (x, y), (u, v) in zip(flat, out):
        env.le(abs(x - u), tx + 1e-12, "a longitude is off by at most half a quantum of the entity's box")
        env.le(abs(y - v), ty + 1e-12, "a latitude is off by at most half a quantum of the entity's box")
    errors_match(env, calls, errs[2:], flat, out) if not env.symbolic else errors_match(env, calls[2:], None, flat, out)


@case("V03", quick=[dict(size=z) for z in (1, 4)], thorough=[dict(size=z) for z in (1, 2, 4, 8)], ticks=3000, timeout=60000, nl=True)
def precision_free(env, size):
    """As above with a free longitude range (both vertices symbolic)."""
    calls = stub_error_metric(env)
    umax = 256 ** size - 1
    x0, x1 = env.real("x0", -180, 180), env.real("x1", -180, 180)
    env.assume(x0 != x1)
    r, errs = write(env, [("e", [[(x0, 10), (x1, 20)]])], size)
    (u0, _), (u1, _) = r.read(0)[0]
    tol = (abs(x1 - x0) + 2 * 360 / U) / umax / 2
    env.le(abs(u0 - x0), tol, "a longitude is off by at most half a quantum of the entity's box")
    env.le(abs(u1 - x1), tol, "a longitude is off by at most half a quantum of the entity's box")


WORLD = [(-180, -90), (180, 90)]


@case("V04", ticks=3000)
def wrapping(env):
    """Longitudes are wrapped by whole turns into [-180, 180]; latitudes end in
    [-90, 90]; writing always terminates."""
    stub_error_metric(env)
    x, y = env.real("x", -1000, 1000), env.real("y", -500, 500)
    if env.flag("vary longitude"):
        y = 5
    else:
        x = 5
    r, errs = write(env, [("e", [WORLD + [(x, y)]])], 4)
    u, v = r.read(0)[0][2]
    env.observe("uv", (u, v))
    q = 1e-6
    env.check(env.And(u >= -180, u <= 180, v >= -90, v <= 90), "stored coordinates are on the globe")
    env.check(env.Or(*[abs(u + 360 * k - x) <= q for k in range(-4, 5)]), "longitudes wrap by whole turns")
    env.check(env.implies(env.And(y >= -90, y <= 90), abs(v - y) <= q), "latitudes on the globe are kept")


@case("V04", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=1), dict(n=2), dict(n=3)], ticks=3000)
def closing_point(env, n):
    """A ring's repeated first vertex is dropped; nothing else is."""
    stub_error_metric(env)
    k = env.num("corners before", 0, n)
    ps = [(env.real("x%d" % k, -180 + 60 * k, -150 + 60 * k), env.real("y%d" % k, -80, 80)) for k in range(n)]
    ps = ps[:k] + WORLD + ps[k:]
    closed = env.flag("closed")
    inp = ps + [ps[0]] if closed else ps
    before = list(inp)
    r, errs = write(env, [("e", [inp])], 4)
    got = r.read(0)[0]
    env.check_eq(len(got), n + 2, "the closing point is stored once")
    for a, b in zip(got, ps):
        env.check(env.And(abs(a[0] - b[0]) < 0.001, abs(a[1] - b[1]) < 0.001), "vertices keep their order")
    env.check_eq(inp, before, "the caller's data is not modified")


@case("V04", ticks=3000)
def grid_lines(env):
    """Entities lying exactly on a line of the world grid (zero width)."""
    stub_error_metric(env)
    i = env.choice("i", [0, 1, 32768, 65534, 65535])
    size = env.choice("size", [1, 2, 4, 8])
    x = min(max(i * 360 / U - 180, -180), 180)
    y = env.real("y", -90, 90)
    r, errs = write(env, [("e", [[(x, -90), (x, y), (x, 90)]])], size)
    got = r.read(0)[0]
    q = 360 / U
    for (a, b), w in zip(got, (-90, y, 90)):
        env.check(env.And(abs(a - x) <= 2 * q, abs(b - w) <= 1), "a vertical line is stored as such")


@case("V02", quick=[dict(shape=s, size=z) for s, z in (([[200], [3]], 1), ([[1] * 150, [2]], 1), ([[2]] * 140, 2), ([[130, 1, 140], [1]], 4), ([[4200], [3]], 8))],
      thorough=[dict(shape=s, size=z) for s, z in (([[17000], [3]], 1), ([[2]] * 17000, 1), ([[1] * 17000, [2]], 1))], ticks=10 ** 7, timeout=15000)
def large(env, shape, size):
    """Counts and offsets that take several bytes."""
    calls = stub_error_metric(env)
    ents = []
    for i, parts in enumerate(shape):
        polys = [[(10 + i % 7 + k % 90 + j % 3, k % 50 - 20 + j % 5) for k in range(n)] for j, n in enumerate(parts)]
        ents.append(("n%d" % i, polys))
    last = len(ents) - 1
    # one point anywhere within the box of the entities read
    x, y = env.real("x", 12, 14), env.real("y", -15, -10)
    ents[last][1][-1] = ents[last][1][-1] + [(10, -20), (x, y), (110, 40)]
    r, errs = write(env, ents, size)
    env.check_eq(len(r), len(ents), "the data set has one entry per entity written")
    env.check_eq(list(r.names), [n for n, _ in ents], "names are stored in order")
    total = sum(len(p) for _, polys in ents for p in polys)
    env.check_eq(len(errs), total, "one reported error per vertex")
    order = [last, 0, last // 2, last] if env.flag("backwards") else [0, last]
    by_name = env.flag("by name")
    for i in order:
        got = r.get(ents[i][0]) if by_name else r.read(i)
        env.check_eq([len(p) for p in got], [len(p) for p in ents[i][1]], "parts and vertex counts survive")
        flat = [p for poly in ents[i][1] for p in poly]
        out = [p for poly in got for p in poly]
        near = env.frac(200, min(256 ** size - 1, 10 ** 9))   # beyond it floats decide
        for k in sorted(set([0, 1, 127, 128, len(flat) // 2, len(flat) - 2, len(flat) - 1])):
            if k < len(flat):
                (a, b), (c, d) = flat[k], out[k]
                env.le(abs(a - c), near, "every vertex is read back from its own place")
                env.le(abs(b - d), near, "every vertex is read back from its own place")
    r.close()
