"""Raster canvases (coral/raster.py) and colour gradients (coral/gradient.py)."""
from symx.cases import case


def canvas(env, kind, w, h, bg=None):
    r = env.mod("raster")
    cls = {"bw": r.BWCanvas, "gray": r.GrayCanvas, "color": r.ColorCanvas}[kind]
    return cls(w, h) if bg is None else cls(w, h, bg)


def sym_color(env, kind, name):
    if kind == "bw":
        return env.choice(name, [0, 1])
    if kind == "gray":
        return env.int(name, 0, 255)
    return tuple([env.int("%s.%s" % (name, c), 0, 255) for c in "rgb"])


SIZES = [(1, 1), (3, 2), (8, 1), (9, 2)]


@case("K01", quick=[dict(kind=k, w=w, h=h) for k in ("bw", "gray", "color") for w, h in SIZES],
      thorough=[dict(kind=k, w=w, h=h) for k in ("bw", "gray", "color") for w, h in SIZES + [(7, 3), (16, 2), (17, 2), (5, 5)]])
@case("K01", quick=[dict(kind=k, w=w, h=h, few=True) for k in ("bw", "gray", "color") for w, h in ((300, 2), (3, 270))], ticks=10 ** 6)
def pixels(env, kind, w, h, few=False):
    """A canvas is a map from positions to colours."""
    bg = sym_color(env, kind, "bg")
    c = canvas(env, kind, w, h, bg)
    for x in range(w):
        for y in range(h):
            env.check_eq(c[x, y], bg, "a new canvas shows its background everywhere")
    if few:
        xs, ys = [sorted(set(v for v in (0, 127, 128, 255, 256, k - 1) if v < k)) for k in (w, h)]
        at = lambda name: (env.choice("x" + name, xs), env.choice("y" + name, ys))
    else:
        at = lambda name: (env.int("x" + name, 0, w - 1), env.int("y" + name, 0, h - 1))
    ps = [at(str(i)) for i in range(1 if kind == "bw" and w * h > 6 or few else 2)]
    vs = [sym_color(env, kind, "c%d" % i) for i in range(len(ps))]
    for p, v in zip(ps, vs):
        c[p] = v
    q = at("q")
    got = c[q]
    env.observe("got", got)
    env.check_eq(len(c.data), ((w + 7) // 8 if kind == "bw" else 3 * w if kind == "color" else w) * h, "the image keeps its size")
    hit = [env.And(q[0] == p[0], q[1] == p[1]) for p in ps]
    for k in range(3 if kind == "color" else 1):
        part = (lambda v: v[k]) if kind == "color" else (lambda v: v)
        want = part(bg)
        for t, v in zip(hit, vs):
            want = env.ite(t, part(v), want)
        env.check(part(got) == want, "writing a pixel changes that pixel only")


@case("K01", quick=[dict(kind=k) for k in ("bw", "gray", "color")])
def several(env, kind):
    """Canvases of the same size have nothing else in common."""
    colors = [sym_color(env, kind, "bg%d" % i) for i in range(2)]
    one, two = [canvas(env, kind, 3, 2, c) for c in colors]
    v = sym_color(env, kind, "v")
    one[2, 1] = v
    for x in range(3):
        for y in range(2):
            env.check_eq(one[x, y], v if (x, y) == (2, 1) else colors[0], "a canvas shows its own colours")
            env.check_eq(two[x, y], colors[1], "a canvas shows its own colours")
    three = canvas(env, kind, 3, 2, colors[1])
    env.check_eq(three[2, 1], colors[1], "a new canvas shows its background everywhere")


@case("K01")
def ink(env):
    """On black-and-white canvases every colour but 0 is ink."""
    r = env.mod("raster")
    bg, v = env.choice("bg", [0, 1, 2, 200, True]), env.choice("v", [0, 1, 2, 128, 255, 256, True, False])
    c = r.BWCanvas(11, 2, bg)
    p = (env.num("x", 0, 10), env.num("y", 0, 1))
    c[p] = v
    for x in range(11):
        for y in range(2):
            env.check_eq(c[x, y], int(bool(v if (x, y) == p else bg)), "any colour but 0 is set, and reads 1")


def netpbm(env, data, kind):
    """Independent reader of binary netpbm files."""
    magic = {"bw": b"P4", "gray": b"P5", "color": b"P6"}[kind]
    env.check_eq(data[:2], magic, "the file starts with its magic number")
    nums = []
    i = 2
    for _ in range(2 if kind == "bw" else 3):
        while env.Or(data[i] == 10, data[i] == 32):
            i += 1
        n = 0
        while env.And(data[i] >= 48, data[i] <= 57):
            n = 10 * n + (data[i] - 48)
            i += 1
        nums.append(n)
    return nums, data[i + 1:]


@case("K02", quick=[dict(kind=k, w=w, h=h) for k in ("bw", "gray", "color") for w, h in ((1, 1), (3, 2), (8, 2))] + [dict(kind="bw", w=10, h=2), dict(kind="bw", w=16, h=1)],
      thorough=[dict(kind=k, w=w, h=h) for k in ("bw", "gray", "color") for w, h in ((1, 1), (3, 2), (10, 2), (8, 3), (16, 2), (17, 3))])
@case("K02", quick=[dict(kind=k, w=w, h=h) for k in ("bw", "gray", "color") for w, h in ((300, 2), (3, 270))], ticks=10 ** 6)
def saved(env, kind, w, h):
    """Saved files are netpbm images of exactly the pixels drawn."""
    c = canvas(env, kind, w, h)
    cells = [(x, y) for y in range(h) for x in range(w)]
    for i in range(2):
        p = cells[env.num("at%d" % i, 0, len(cells) - 1) if len(cells) < 60 else env.choice("at%d" % i, [(0, 256), (255, 599), (511, 300)][i % 3])]
        c[p] = sym_color(env, kind, "c%d" % i)
    path = env.path("img")
    c.save(path)
    nums, body = netpbm(env, env.file_bytes(path), kind)
    env.check_eq(nums[:2], [w, h], "width and height are stored")
    if kind == "bw":
        row = (w + 7) // 8
        env.check_eq(len(body), row * h, "bit rows are padded to whole bytes")
        for x, y in cells:
            bit = (body[y * row + x // 8] // (2 ** (7 - x % 8))) % 2
            env.check_eq(bit, c[x, y], "every bit is stored in place")
        return
    env.check_eq(nums[2], 255, "the colour depth is stored")
    k = 3 if kind == "color" else 1
    env.check_eq(len(body), k * w * h, "one sample per colour and pixel")
    for i, p in enumerate(cells):
        got = tuple(body[3 * i:3 * i + 3]) if kind == "color" else body[i]
        env.check_eq(got, c[p], "every sample is stored in place")


# ------------------------------------------------------------------ lines

def recorder(env, w=8, h=8):
    base = env.mod("raster").BaseCanvas

    class Recorder(base):
        aa = False
        width, height = w, h

        def __init__(self):
            self.log = []

        def __setitem__(self, key, value):
            self.log.append((key, value))

    return Recorder()


@case("K03", quick=[dict(n=n) for n in range(0, 7)], thorough=[dict(n=n) for n in range(0, 14)], ticks=400)
def bresenham(env, n):
    """Lines are connected, one pixel per step of the longer axis, at most half
    a pixel from the exact line, from any start in any direction."""
    cv = recorder(env)
    xs, ys = env.int("x"), env.int("y")
    dx = n * env.choice("sx", [1, -1])
    dy = env.int("dy", -n, n)
    swap = env.flag("steep")
    end = (xs + dx, ys + dy)
    start = (xs, ys)
    if swap:
        start, end = (ys, xs), (ys + dy, xs + dx)
    cv.line(start, end, 7)
    pts = [(k[1] - xs, k[0] - ys) if swap else (k[0] - xs, k[1] - ys) for k, v in cv.log]
    env.check_eq([v for k, v in cv.log], [7] * len(pts), "pixels get the colour of the line")
    pts.sort(key=lambda p: abs(p[0]))
    env.check_eq([abs(p[0]) for p in pts], list(range(n + 1)), "one pixel per step of the longer axis")
    env.check_eq(pts[0], (0, 0), "the line includes its start")
    env.check_eq(pts[-1], (dx, dy), "the line includes its end")
    for i, j in pts:
        env.check(env.And(2 * (i * dy - j * dx) <= n, 2 * (j * dx - i * dy) <= n), "no pixel is more than half a pixel off")
    for (i, j), (k, l) in zip(pts, pts[1:]):
        env.check(env.And(k - i <= 1, i - k <= 1, l - j <= 1, j - l <= 1), "the line is connected")


@case("K03", quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (1, 2, 3, 4)], ticks=2000)
def outline(env, n):
    """The outline of a polygon is the union of the lines between its vertices."""
    ps = [(env.num("x%d" % i, 0, 2), env.num("y%d" % i, 0, 2)) for i in range(n)]
    cv = recorder(env)
    cv.strokepolygon(ps, 3)
    want = []
    for i in range(n):
        one = recorder(env)
        one.line(ps[i], ps[(i + 1) % n], 3)
        want.extend([k for k, v in one.log])
    got = [k for k, v in cv.log]
    env.check_eq(sorted(set(got)), sorted(set(want)), "every edge is drawn, the closing one included, and nothing else")


@case("K03", quick=[dict(kind=k) for k in ("bw", "gray", "color")], ticks=10 ** 5)
def smooth(env, kind):
    """Outlines are smoothed when asked for, or else as the canvas does by default."""
    ps = [(env.num("x%d" % i, 0, 3), 2 * i) for i in range(3)]
    color = {"bw": 1, "gray": (env.int("v", 0, 255),), "color": (env.int("r", 0, 255), 20, 250)}[kind]
    aa = env.choice("aa", [None, False] if kind == "bw" else [None, False, True])
    smoothed = kind != "bw" if aa is None else aa
    if kind == "gray" and not smoothed:
        color = color[0]
    c, d = canvas(env, kind, 6, 6, {"bw": 0, "gray": 9, "color": (9, 99, 199)}[kind]), canvas(env, kind, 6, 6, {"bw": 0, "gray": 9, "color": (9, 99, 199)}[kind])
    if aa is None:
        c.strokepolygon(ps, color)
    else:
        c.strokepolygon(ps, color, aa)
    for i in range(3):
        (d.aaline if smoothed else d.line)(ps[i], ps[(i + 1) % 3], color)
    for x in range(6):
        for y in range(6):
            env.check_eq(c[x, y], d[x, y], "outlines consist of the lines asked for")


# ------------------------------------------------------- anti-aliased lines

FRACS = [0, 0.25, 0.5, 0.75]


@case("K07", quick=[dict(n=n) for n in (0, 1, 2, 4)], thorough=[dict(n=n) for n in range(0, 10)], ticks=400)
def coverage(env, n):
    """Every column gets as much ink as it is covered, centred on the line."""
    cv = recorder(env)
    x0 = 2 + env.choice("fx0", FRACS)
    x1 = 2 + n + env.choice("fx1", FRACS)
    env.assume(x1 >= x0)
    y0 = env.real("y0", 1, 20)
    y1 = env.real("y1", 1, 20)
    env.assume(env.And(y1 - y0 <= x1 - x0, y0 - y1 <= x1 - x0))
    a, b = (x0, y0), (x1, y1)
    tr = env.flag("transposed")
    if tr:
        env.assume(env.Or(y1 - y0 < x1 - x0, x1 == x0))
        env.assume(env.Or(y0 - y1 < x1 - x0, x1 == x0))
        a, b = (y0, x0), (y1, x1)
        if x0 == x1:
            return
    if env.flag("backwards"):
        a, b = b, a
    cv.aaline(a, b, (9, 8, 7))
    cols = {}
    for k, v in cv.log:
        env.check_eq(v[:3], (9, 8, 7), "pixels get the colour of the line")
        x, y = (k[1], k[0]) if tr else k
        cols.setdefault(x, []).append((y, v[3]))
    near = env.mod("raster").nearest
    c0, c1 = near(x0), near(x1)
    env.check_eq(sorted(cols), list(range(c0, c1 + 1)), "exactly the columns of the line are touched")
    for c in cols:
        total = sum([al for _, al in cols[c]])
        if x0 != x1 and c0 != c1:
            lo = max(x0, c - 0.5)
            hi = min(x1, c + 0.5)
            env.near(total, hi - lo, "the ink of a column is the part of it the line covers")
            line = y0 + (y1 - y0) / (x1 - x0) * (c - x0)
            env.near(sum([al * y for y, al in cols[c]]), line * (hi - lo), "the ink of a column is centred on the line")
        for y, al in cols[c]:
            env.check(env.And(al >= 0, al <= 1), "opacities lie between 0 and 1")


@case("K07", quick=[dict(kind="gray"), dict(kind="color")], ticks=400)
def inside(env, kind):
    """Lines between pixels of a canvas never touch anything else."""
    w, h = 4, 3
    c = canvas(env, kind, w, h)
    x0, x1 = env.num("x0", 0, w - 1), env.num("x1", 0, w - 1)
    y0, y1 = env.num("y0", 0, h - 1), env.num("y1", 0, h - 1)
    c.aaline((x0, y0), (x1, y1), (0,) if kind == "gray" else (0, 0, 0))
    white = 255 if kind == "gray" else (255, 255, 255)
    for x in range(w):
        for y in range(h):
            if x < min(x0, x1) or x > max(x0, x1) or y < min(y0, y1) or y > max(y0, y1):
                env.check_eq(c[x, y], white, "pixels outside the box of the line keep their colour")
            elif (x, y) in ((x0, y0), (x1, y1)):
                env.check(c[x, y] != white, "both ends are drawn")


# --------------------------------------------------------------- blending

ALPHAS = [0, 0.125, 0.25, 0.4, 0.5, 0.75, 0.9, 1]
LEVELS = [0, 1, 100, 254, 255]


def blended(env, got, bg, fg, a):
    ideal = bg * (1 - a) + fg * a
    env.le(ideal - 0.5, got, "the result is at most half a level below the exact mix")
    env.le(got, ideal + 0.5, "the result is at most half a level above the exact mix")
    env.check(env.And(got >= env.ite(bg < fg, bg, fg), got <= env.ite(bg < fg, fg, bg)), "the result lies between background and colour")


@case("K04", quick=[dict(kind="gray", mode=m) for m in ("levels", "alpha")] + [dict(kind="color", mode="levels"), dict(kind="color", mode="alpha")])
def blending(env, kind, mode):
    n = 1 if kind == "gray" else 3
    if mode == "levels":
        a = env.choice("a", ALPHAS)
        bg = [env.int("bg%d" % i, 0, 255) for i in range(n)]
        fg = [env.int("fg%d" % i, 0, 255) for i in range(n)]
    else:
        a = env.real("a", 0, 1)
        k = env.num("k", 0, 4)
        bg = [LEVELS[(k + i) % 5] for i in range(n)]
        j = env.num("j", 0, 4)
        fg = [LEVELS[(j + 2 * i) % 5] for i in range(n)]
    c = canvas(env, kind, 2, 1)
    c[1, 0] = bg[0] if n == 1 else tuple(bg)
    c[1, 0] = tuple(fg) + (a,)
    got = [c[1, 0]] if n == 1 else list(c[1, 0])
    env.observe("got", got)
    for g, b, f in zip(got, bg, fg):
        blended(env, g, b, f, a)
        env.check(env.implies(a == 0, g == b), "a transparent colour changes nothing")
        env.check(env.implies(a == 1, g == f), "an opaque colour replaces the pixel")
    env.check_eq(c[0, 0], 255 if n == 1 else (255, 255, 255), "other pixels are not touched")


# ---------------------------------------------------------------- filling

def filled(env, w, h, polys):
    cv = recorder(env, w, h)
    scans = None
    for p in polys:
        scans = cv.scanpolygon(p, scans)
    cv.fillpolygons(scans, 5)
    env.check(env.And(*[v == 5 for k, v in cv.log]), "pixels get the fill colour")
    return [k for k, v in cv.log]


def grid(env, pix, w, h):
    """Number of times each pixel was painted (rows are concrete)."""
    out = {}
    for y in range(h):
        for x in range(w):
            out[x, y] = sum([env.ite(k[0] == x, 1, 0) for k in pix if k[1] == y])
    for k in pix:
        env.check(env.And(k[0] >= 0, k[0] < w, k[1] >= 0, k[1] < h), "nothing outside the canvas is painted")
    return out


@case("K05", quick=[dict(w=4, h=3)], thorough=[dict(w=6, h=4)], ticks=2000)
def rectangle(env, w, h):
    """A rectangle paints exactly its half-open box, clipped at the sides."""
    x0, x1 = env.int("x0", -2, w), env.int("x1", 0, w + 2)
    env.assume(x0 < x1)
    y0 = env.num("y0", 0, h - 1)
    y1 = env.num("y1", y0 + 1, h)
    ps = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    k = env.num("rot", 0, 3)
    ps = ps[k:] + ps[:k]
    if env.flag("counterclockwise"):
        ps.reverse()
    g = grid(env, filled(env, w, h, [ps]), w, h)
    for x, y in g:
        want = env.ite(env.And(x0 <= x, x < x1, y0 <= y, y < y1), 1, 0)
        env.check_eq(g[x, y], want, "exactly the pixels of the rectangle are painted, once")


@case("K05", quick=[dict(w=2, h=300), dict(w=300, h=2)], ticks=10 ** 6)
def rectangle_large(env, w, h):
    """Canvases of more rows or columns than fit in a byte."""
    x0, x1 = (env.choice("x0", [0, w - 50]), env.choice("x1", [w - 1, w])) if w > h else (0, env.int("x1", 1, w))
    y0, y1 = (env.choice("y0", [0, h - 50]), env.choice("y1", [h - 1, h])) if w < h else (0, env.num("y1", 1, h))
    cv = recorder(env, w, h)
    cv.fillpolygons(cv.scanpolygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)]), 5)
    rows = [[] for y in range(h)]
    for (x, y), v in cv.log:
        rows[y].append(x)
    for y, xs in enumerate(rows):
        if y0 <= y < y1:
            env.check_eq(sorted(xs), list(range(x0, x0 + len(xs))), "exactly the pixels of the rectangle are painted, once")
            env.check_eq(len(xs), x1 - x0, "exactly the pixels of the rectangle are painted, once")
        else:
            env.check_eq(xs, [], "exactly the pixels of the rectangle are painted, once")


@case("K05", quick=[dict(w=4, ym=1, h=2), dict(w=3, ym=2, h=3)], thorough=[dict(w=5, ym=1, h=2), dict(w=4, ym=2, h=3), dict(w=4, ym=1, h=4)], ticks=2000)
def tiling(env, w, ym, h):
    """Polygons sharing an edge neither overlap nor leave gaps."""
    xt, xm, xb = env.int("xt", 0, w), env.int("xm", 0, w), env.int("xb", 0, w)
    a = [(0, 0), (xt, 0), (xm, ym), (xb, h), (0, h)]
    b = [(xt, 0), (w, 0), (w, h), (xb, h), (xm, ym)]
    if env.flag("together"):
        g = grid(env, filled(env, w, h, [a, b]), w, h)
        for x, y in g:
            env.check_eq(g[x, y], 1, "adjacent polygons filled together cover every pixel once")
        return
    ga = grid(env, filled(env, w, h, [a]), w, h)
    gb = grid(env, filled(env, w, h, [b]), w, h)
    for p in ga:
        env.check_eq(ga[p] + gb[p], 1, "every pixel belongs to exactly one of two adjacent polygons")


@case("K05", quick=[dict(h=2, ym=0), dict(h=3, ym=1), dict(h=2, ym=2)], thorough=[dict(h=h, ym=m) for h, m in ((2, 0), (3, 0), (3, 1), (3, 2), (3, 3), (4, 1))], ticks=2000)
def triangle(env, h, ym):
    """A triangle paints on each row the run between its sides, to half a pixel."""
    w = 4
    p = (env.int("xa", 0, w), 0)
    q = (env.int("xb", 0, w), ym)
    r = (env.int("xc", 0, w), h)
    # clockwise (y down): q to the right of the long side
    side = (r[0] - p[0]) * ym - (q[0] - p[0]) * h
    env.assume(side != 0)
    flip = side > 0
    if env.flag("reversed"):
        pts = [q, p, r]
    else:
        pts = [p, q, r]
    g = grid(env, filled(env, w, h, [pts]), w, h)
    for y in range(h):
        long = p[0] + (r[0] - p[0]) * env.frac(y, h)
        if y < ym:
            short = p[0] + (q[0] - p[0]) * env.frac(y, ym)
        else:
            short = q[0] + (r[0] - q[0]) * env.frac(y - ym, h - ym)
        lo = env.ite(flip, short, long)
        hi = env.ite(flip, long, short)
        for x in range(w):
            n = g[x, y]
            env.check(env.implies(env.And(x >= lo + 0.51, x <= hi - 0.51), n == 1), "pixels inside the triangle are painted once")
            env.check(env.implies(env.Or(x < lo - 0.51, x >= hi + 0.51), n == 0), "pixels outside the triangle are not painted")


@case("K05", quick=[dict(w=4, h=2)], thorough=[dict(w=5, h=2)], ticks=2000)
def overlap(env, w, h):
    """Polygons of one fill are united, and a reversed inner one is a hole."""
    x = [env.int("x%d" % i, 0, w) for i in range(4)]
    env.assume(env.And(x[0] < x[1], x[2] < x[3]))
    y = env.num("y", 0, h - 1)
    a = [(x[0], 0), (x[1], 0), (x[1], h), (x[0], h)]
    b = [(x[2], y), (x[3], y), (x[3], h), (x[2], h)]
    hole = env.flag("hole")
    if hole:
        env.assume(env.And(x[0] <= x[2], x[3] <= x[1]))
        b.reverse()
    g = grid(env, filled(env, w, h, [a, b] if env.flag("order") else [b, a]), w, h)
    for i, j in g:
        ina = env.And(x[0] <= i, i < x[1])
        inb = env.And(x[2] <= i, i < x[3], j >= y)
        want = env.And(ina, env.Not(inb)) if hole else env.Or(ina, inb)
        env.check_eq(g[i, j], env.ite(want, 1, 0), "overlapping polygons are united and holes left open")


# --------------------------------------------------------------- gradients

POS = {
    "full": [0, 0.5, 1],
    "inner": [0.25, 0.5],
    "step": [0, 0.5, 0.5, 1],
    "one": [0.25],
    "late": [0, 0.995],
    "early": [0.003, 1],
    "close": [0.5, 0.503],
    "ends": [0, 1],
    "late": [0.5, 1],
}


def gradient(env, pos, cols):
    pts = list(zip(pos, cols))
    k = env.num("rot", 0, len(pts) - 1) if len(set(pos)) == len(pos) else 0
    return env.mod("gradient").Gradient(pts[k:] + pts[:k])


@case("D01", quick=[dict(pos=p) for p in POS])
def stops(env, pos):
    """Stops are hit exactly and the colour is constant beyond the outermost."""
    ps = POS[pos]
    cols = [tuple([env.real("c%d%s" % (i, ch), 0, 1) for ch in "rgb"]) for i in range(len(ps))]
    g = gradient(env, ps, cols)
    for i, p in enumerate(ps):
        if p in ps[:i]:
            continue
        got = g.get(p)
        env.check_eq(len(got), 3, "a colour has three parts")
        for a, b in zip(got, cols[i]):
            env.near(a, b, "the colour at a stop is the colour of the stop")
    for t in (0, 0.0625, 0.3, 0.5, 0.8, 1):
        got = g.get(t)
        lo = [c for p, c in zip(ps, cols) if p <= t]
        hi = [c for p, c in zip(ps, cols) if p >= t]
        for k in range(3):
            env.check(env.And(*[env.And(env.fle(-1e-12, got[k]), env.fle(got[k], 1 + 1e-12))]), "colours stay between 0 and 1")
            if not lo or not hi:
                env.near(got[k], (hi[0] if not lo else lo[-1])[k], "the colour is constant beyond the outermost stops", tol=1e-12)
            elif t not in ps:
                j = len(lo)
                f = (t - ps[j - 1]) / (ps[j] - ps[j - 1])
                env.near(got[k], cols[j - 1][k] * (1 - f) + cols[j][k] * f, "between two stops the colour is their linear mix", tol=1e-12)


COLS = [(0, 0.25, 1), (1, 0.25, 0), (0.5, 1, 0), (0.125, 0, 0.75)]


@case("D01", quick=[dict(pos=p) for p in POS])
def mixing(env, pos):
    """Every position between two stops gets the linear mix of their colours."""
    ps = POS[pos]
    g = gradient(env, ps, COLS[:len(ps)])
    x = env.real("x", 0, 1)
    got = g.get(x)
    env.observe("got", got)
    if x <= ps[0]:
        want = COLS[0]
    elif x >= ps[-1]:
        want = COLS[len(ps) - 1]
    else:
        j = 0
        while not x <= ps[j]:
            j += 1
        f = (x - ps[j - 1]) / (ps[j] - ps[j - 1])
        want = [COLS[j - 1][k] * (1 - f) + COLS[j][k] * f for k in range(3)]
    for a, b in zip(got, want):
        env.near(a, b, "the colour is the linear mix of the neighbouring stops")


@case("D01", quick=[dict(gaps=[]), dict(gaps=[0.25]), dict(gaps=[0.125, 0.5])], thorough=[dict(gaps=[0.125, 0.25, 0.0625])])
def placed(env, gaps):
    """Stops anywhere, at symbolic positions."""
    p = env.real("p", 0, 1 - sum(gaps))
    ps = [p]
    for d in gaps:
        ps.append(ps[-1] + d)
    pts = list(zip(ps, COLS))
    g = env.mod("gradient").Gradient(pts[::-1] if env.flag("reversed") else pts)
    x = env.real("x", 0, 1)
    got = g.get(x)
    for k in range(3):
        want = COLS[len(ps) - 1][k]
        for j in reversed(range(1, len(ps))):
            f = (x - ps[j - 1]) / gaps[j - 1]
            want = env.ite(x <= ps[j], COLS[j - 1][k] * (1 - f) + COLS[j][k] * f, want)
        want = env.ite(x <= ps[0], COLS[0][k], want)
        env.near(got[k], want, "the colour is the linear mix of the neighbouring stops", tol=1e-9)


@case("D01", quick=[dict(name=n) for n in ("gray", "bwr", "heat", "height")])
def presets(env, name):
    """The predefined gradients give valid colours and hexadecimal codes."""
    g = getattr(env.mod("gradient"), name)
    x = env.real("x", 0, 1)
    c = g.get(x)
    env.observe("c", c)
    code = g.get_hex(x)
    env.check_eq(len(code), 4, "a code has three digits")
    env.check_eq(code[0], "#", "a code starts with #")
    for i in range(3):
        env.check(env.And(env.fle(0, c[i]), env.fle(c[i], 1)), "colours stay between 0 and 1")
        o = ord(code[i + 1])
        env.check(env.Or(env.And(o >= 48, o <= 57), env.And(o >= 97, o <= 102)), "digits are hexadecimal")
        d = env.ite(o <= 57, o - 48, o - 87)
        env.check(env.And(env.fle(d, 15 * c[i]), env.fle(15 * c[i] - 1, d)), "every digit is the colour part on a scale of 15")
