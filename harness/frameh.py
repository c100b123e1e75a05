"""Map frames (coral/frame.py)."""
from symx.cases import case

TRIG = dict(trig=True, timeout=20000, ticks=4000)
PLANE = ("Mercator", "TransMercator", "ObliqMercator", "Stereographic", "AzimuthalEquidistant", "AzimuthalEqualArea")


class Plate:
    """A projection without trigonometry."""

    def __init__(self, f):
        self.f = f

    def geo2rect(self, lon, lat):
        f = self.f
        return f[0] + f[1] * lon + f[2] * lat, f[3] + f[4] * lon + f[5] * lat


def box(env, m, tag=""):
    x0, y0, x1, y1 = (env.real(tag + n, -1000, 1000) for n in ("bx0", "by0", "bx1", "by1"))
    env.assume(env.And(x0 <= x1, y0 <= y1))
    return m.bbox.BBox((x0, y0), (x1, y1))


def same_box(env, a, b, label):
    for k in ("x0", "y0", "x1", "y1"):
        env.near(getattr(a, k), getattr(b, k), label, scale=1000)


def reload(env, m, fr, times=1):
    for i in range(times):
        path = env.path("f%d.json" % i)
        fr.save(path)
        fr = m.load(path)
    return fr


@case("M01", quick=[dict(kind=k) for k in PLANE] + [dict(kind=k, lat0=a) for k in PLANE[3:] for a in (90, -90)]
      + [dict(kind=k, times=2) for k in PLANE], **TRIG)
def spherical(env, kind, lat0=None, times=1):
    m = env.mod("frame")
    lon0 = env.angle("lon0", -180, 180)
    if kind == "Mercator":
        lat0 = 0
    elif lat0 is None:
        lat0 = env.angle("lat0", -90, 90)
    p = getattr(m.proj, kind)((lon0, lat0), env.real("R", 1, 8))
    bb = box(env, m)
    fr = reload(env, m, m.Frame(p, bb), times)
    same_box(env, fr.bounding, bb, "the bounding box is kept")
    env.check(type(fr.projection) is type(p), "the kind of projection is kept")
    lon, lat = env.angle("dlon", -90, 90) + lon0, env.angle("lat", -80, 80)
    if kind in PLANE[3:]:
        s, c = env.sin(lat0), env.cos(lat0)
        env.assume(s * env.sin(lat) + c * env.cos(lat) * env.cos(lon - lon0) > -1)
    elif kind == "TransMercator":
        env.assume((env.cos(lat) * env.sin(lon - lon0)) ** 2 < 1)
    elif kind == "ObliqMercator":
        env.assume((env.sin(lat0) * env.sin(lat) - env.cos(lat0) * env.cos(lat) * env.sin(lon - lon0)) ** 2 < 1)
    a, b = fr.projection.geo2rect(lon, lat), p.geo2rect(lon, lat)
    env.near(a[0], b[0], "places are mapped where they were")
    env.near(a[1], b[1], "places are mapped where they were")


@case("M01", quick=[dict(lat=k) for k in (-60, 0, 30)] + [dict(lat=30, times=2)])
def eckert(env, lat, times=1):
    m = env.mod("frame")
    lon0 = env.real("lon0", -180, 180)
    p = m.proj.EckertIV((lon0, 0), env.real("R", 1, 8))
    bb = box(env, m)
    fr = reload(env, m, m.Frame(p, bb), times)
    same_box(env, fr.bounding, bb, "the bounding box is kept")
    env.check(type(fr.projection) is type(p), "the kind of projection is kept")
    env.near(fr.projection.r, p.r, "the radius is kept")
    a, b = fr.projection.geo2rect(lon0 + 10, lat), p.geo2rect(lon0 + 10, lat)
    env.near(a[0], b[0], "places are mapped where they were", tol=1e-6)
    env.near(a[1], b[1], "places are mapped where they were", tol=1e-6)


AWKWARD = [0.1, 0.2, 0.3, 1e-3, 1 / 3, 12345678.9, 20037508.342789244, 1e-12]


@case("M01", quick=[dict(times=1), dict(times=2)])
def exact(env, times):
    """No digit of the box, the radius or the ellipsoid is lost."""
    m = env.mod("frame")
    i = env.num("i", 0, len(AWKWARD) - 1)
    v = [s * AWKWARD[(i + j) % len(AWKWARD)] for j, s in enumerate((-1, -1, 1, 1))]
    if env.flag("swapped"):
        v = [-v[2], v[1], -v[0], v[3]]
    earth = env.choice("earth", [6371008.771415059, 0.7, 6378137])
    if env.flag("ellipsoid"):
        p = m.proj.EMercator((10, 20), m.proj.Ellipsoid(earth, earth * 0.9966, 0.0818191908426, 1 / 298.257223563))
    else:
        p = m.proj.Mercator((10, 0), earth)
    fr = reload(env, m, m.Frame(p, m.bbox.BBox((v[0], v[1]), (v[2], v[3]))), times)
    b = fr.bounding
    env.check_eq([b.x0, b.y0, b.x1, b.y1], v, "the bounding box is exactly the same")
    q = fr.projection
    if isinstance(p, m.proj.EMercator):
        env.check_eq(list(q.ellipsoid), list(p.ellipsoid), "the ellipsoid is exactly the same")
    else:
        env.check_eq(q.r, earth, "the radius is exactly the same")


@case("M01", quick=[dict(times=1), dict(times=2)], **TRIG)
def ellipsoidal(env, times):
    m = env.mod("frame")
    lon0 = env.angle("lon0", -180, 180)
    e = m.proj.Ellipsoid(env.real("a", 1, 8), env.real("b", 1, 8), env.real("e", 0, 0.9), env.real("f", 0, 0.9))
    p = m.proj.EMercator((lon0, env.angle("lat0", -90, 90)), e)
    bb = box(env, m)
    fr = reload(env, m, m.Frame(p, bb), times)
    same_box(env, fr.bounding, bb, "the bounding box is kept")
    env.check(type(fr.projection) is type(p), "the kind of projection is kept")
    for x, y in zip(fr.projection.ellipsoid, e):
        env.near(x, y, "the ellipsoid is kept")
    lon, lat = lon0 + env.angle("dlon", -90, 90), env.angle("lat", -80, 80)
    a, b = fr.projection.geo2rect(lon, lat), p.geo2rect(lon, lat)
    env.near(a[0], b[0], "places are mapped where they were")
    env.near(a[1], b[1], "places are mapped where they were")


@case("M01", quick=[dict(times=1), dict(times=2)], **TRIG)
def conic(env, times):
    m = env.mod("frame")
    lat1, lat2 = env.angle("lat1", -89, 89), env.angle("lat2", -89, 89)
    env.assume(env.sin(lat1) + env.sin(lat2) != 0)
    p = m.proj.ConicEqualArea((lat1, lat2), env.real("R", 1, 8))
    bb = box(env, m)
    fr = reload(env, m, m.Frame(p, bb), times)
    same_box(env, fr.bounding, bb, "the bounding box is kept")
    env.check(type(fr.projection) is type(p), "the kind of projection is kept")
    lon, lat = env.angle("lon", -180, 180), env.angle("lat", -80, 80)
    a, b = fr.projection.geo2rect(lon, lat), p.geo2rect(lon, lat)
    env.near(a[0], b[0], "places are mapped where they were")
    env.near(a[1], b[1], "places are mapped where they were")


def plate(env, simple=False):
    if simple:
        return Plate([env.real("tx", -9, 9), 1, 0, env.real("ty", -9, 9), 0, 1])
    return Plate([env.real("f%d" % i, -9, 9) for i in range(6)])


@case("M02", quick=[{}], timeout=20000, nl=True)
def cell(env):
    """A place is in the cell of its projection."""
    m = env.mod("frame")
    fr = m.Frame(plate(env, True), m.bbox.BBox())
    scale = env.real("scale", 0.01, 100)
    lon, lat = env.real("lon", -180, 180), env.real("lat", -90, 90)
    x, y = fr.point(scale, (lon, lat))
    px, py = fr.projection.geo2rect(lon, lat)
    for k, p in ((x, px), (y, py)):
        env.check(k == int(k), "cells have whole numbers")
        env.check(env.And(env.fle(k * scale, p), env.fle(p, (k + 1) * scale)), "the place is in its cell")
        if env.symbolic:
            env.check(p < (k + 1) * scale, "the place is in its cell")


@case("M02", quick=[dict(n=n, closed=c) for n in (0, 1, 2, 3) for c in (None, True, False)],
      thorough=[dict(n=4, closed=c) for c in (True, False)], timeout=20000, nl=True, ticks=4000)
def lines(env, n, closed):
    """A line is drawn as its simplified projection."""
    m = env.mod("frame")
    fr = m.Frame(plate(env, True), m.bbox.BBox())
    scale = env.choice("scale", [1, 2.5])
    pts = [(env.real("lon%d" % i, -20, 20), 3 * i * (3 - i)) for i in range(n)]
    got = list(fr.planify(scale, pts)) if closed is None else list(fr.planify(scale, pts, closed=closed))
    want = list(m.coord.simplify(iter([fr.projection.geo2rect(*p) for p in pts]), scale, closed is not False))
    env.check_eq(got, want, "the simplified projection")


class Data:
    """A data set of named parts."""

    def __init__(self, ents):
        self.ents = ents
        self.names = [n for n, _ in ents]

    def get(self, name):
        for n, parts in self.ents:
            if n == name:
                return parts
        raise KeyError(name)


@case("M03", quick=[dict(n=300), dict(n=40)], thorough=[dict(n=3000)], timeout=20000, ticks=10 ** 6)
def many(env, n):
    """Entities with many parts, and many entities: any one part counts."""
    m = env.mod("frame")
    fr = m.Frame(Plate([0, 1, 0, 0, 0, 1]), m.bbox.BBox((-20, -10), (30, 10)))
    x = env.real("x", -180, 180)
    k = env.choice("part", [0, n // 2, n - 1])
    away = [(60 + i % 100, i % 50) for i in range(n)]
    ents = [("e%d" % i, [[p]]) for i, p in enumerate(away)]
    ents[n - 2] = ("scattered", [[p] for p in away[:k]] + [[(x, 5), (x, 0)]] + [[p] for p in away[k + 1:]])
    ents[3] = ("inner", [[p] for p in away] + [[(0, 0), (1, 1)]])
    key = env.path("k")
    got = (fr.cachenames(key, Data(ents)), fr.loadnames(key))
    if len(got[1]) == 2:
        env.check_eq(got, (2, ["inner", "scattered"]), "the entities within the frame, in order")
        env.check(env.And(x >= -20, x <= 30), "no entity beside the frame")
    else:
        env.check_eq(got, (1, ["inner"]), "the entities within the frame, in order")
        env.check(env.Or(x <= -20, x >= 30), "every entity with a part that reaches into the frame")


@case("M03", quick=[dict(shape=[]), dict(shape=[[2]])] + [dict(shape=s, flat=True) for s in ([[1, 2]], [[1], [2]], [[1], [1], [1]])]
      + [dict(shape=s, flat=True, fixed=True) for s in ([[1], [1, 1]], [[1, 1], [1]], [[2], [2, 1]], [[1, 1, 1]])],
      thorough=[dict(shape=s, flat=True) for s in ([[3, 2]], [[2], [2]], [[2, 1], [2]])] + [dict(shape=[[1, 1]])]
      + [dict(shape=s, flat=True, fixed=True) for s in ([[1, 1], [1, 1]], [[2, 1], [1], [1, 1]], [[1], [1], [1], [1, 1]])], timeout=20000, nl=True, ticks=4000)
def visible(env, shape, flat=False, fixed=False):
    """The names remembered are those of the entities within the frame, in order."""
    m = env.mod("frame")
    if fixed:
        fr = m.Frame(Plate([0, 1, 0, 0, 0, 1]), m.bbox.BBox((-20, -10), (30, 10)))
    elif flat:
        # everything varies in one direction only
        fr = m.Frame(Plate([0, 1, 0, 0, 0, 1]), m.bbox.BBox((env.real("bx0", -100, 0), -10), (env.real("bx1", 0, 100), 10)))
    else:
        fr = m.Frame(plate(env, True), box(env, m))
    ents = []
    for i, parts in enumerate(shape):
        name = "entity %d" % i if fixed else env.str("name%d" % i, (3 - i) % 3 if flat else env.choice("len%d" % i, [0, 1, 2]), exclude="\n\r")
        ents.append((name, [[(env.real("lon%d%d%d" % (i, j, k), -180, 180), 5 - k if flat else env.real("lat%d%d%d" % (i, j, k), -90, 90)) for k in range(n)] for j, n in enumerate(parts)]))
    key = env.path("k")
    for i in range(len(ents)):
        for j in range(i):
            env.assume(env.Not(env.eq(ents[i][0], ents[j][0])))
    env.put_file(key + ".names", "old\n")
    n = fr.cachenames(key, Data(ents))
    got = fr.loadnames(key)
    env.check_eq(n, len(got), "the number of entities within the frame")
    b = fr.bounding
    env.assume(env.And(b.x0 < b.x1, b.y0 < b.y1))
    for name, parts in ents:
        inside, touching = [], []
        for part in parts:
            xys = [fr.projection.geo2rect(*p) for p in part]
            meet, touch = [], []
            for k, lo, hi in ((0, b.x0, b.x1), (1, b.y0, b.y1)):
                meet += [env.Or(*[p[k] > lo for p in xys]), env.Or(*[p[k] < hi for p in xys])]
                touch += [env.Or(*[p[k] >= lo for p in xys]), env.Or(*[p[k] <= hi for p in xys])]
            inside.append(env.And(*meet))
            touching.append(env.And(*touch))
        there = env.Or(*[env.eq(g, name) for g in got])
        env.check(env.implies(env.Or(*inside), there), "every entity with a part that reaches into the frame")
        env.check(env.implies(there, env.Or(*touching)), "no entity beside the frame")
    where = [env.And(env.eq(got[j], ents[b][0]), env.eq(got[k], ents[a][0])) for k in range(len(got)) for j in range(k + 1) for b in range(len(ents)) for a in range(b if j < k else 0)]
    env.check(env.Not(env.Or(*where)), "in their order")
    env.check(env.And(*[env.Not(env.eq(got[j], got[k])) for k in range(len(got)) for j in range(k)]), "every name once")
    for g in got:
        env.check(env.Or(*[env.eq(g, nm) for nm, _ in ents]), "names are read back as they were")
