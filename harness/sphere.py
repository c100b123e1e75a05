"""Spherical geometry (coral/coord.py)."""
from symx.cases import case

TRIG = dict(trig=True, timeout=20000, ticks=4000)


def pair(env, poles=False):
    """Two points given by one longitude and the longitude difference."""
    lon1 = env.angle("lon1", -180, 180)
    dlon = env.angle("dlon", -360, 360)
    lat1, lat2 = env.angle("lat1", -90, 90), env.angle("lat2", -90, 90)
    if not poles:
        env.assume(env.And(lat1 > -90, lat1 < 90, lat2 > -90, lat2 < 90))
    return lon1, lat1, lon1 + dlon, lat2


def cosdist(env, lon1, lat1, lon2, lat2):
    return env.sin(lat1) * env.sin(lat2) + env.cos(lat1) * env.cos(lat2) * env.cos(lon2 - lon1)


def deg(env, x):
    return x * 180 / env.pi()


@case("C06", quick=[{}], **TRIG)
def haversine_law(env):
    c = env.mod("coord")
    p = pair(env)
    R = env.real("R", 1, 8)
    d = c.haversine(p[0], p[1], p[2], p[3], R)
    env.observe("d", d)
    env.near(env.cos(deg(env, d / R)), cosdist(env, *p), "the spherical law of cosines")
    env.check(env.And(d >= 0, d <= env.pi() * R), "between nothing and half a great circle")
    env.near(c.haversine(p[2], p[3], p[0], p[1], R), d, "the same in both directions")


@case("C06", quick=[{}], **TRIG)
def haversine_meridian(env):
    c = env.mod("coord")
    lon = env.angle("lon", -180, 180)
    lat1, lat2 = env.angle("lat1", -90, 90), env.angle("lat2", -90, 90)
    R = env.real("R", 1, 8)
    env.near(c.haversine(lon, lat1, lon, lat2, R), R * abs(lat1 - lat2) * env.pi() / 180, "arc along a meridian")


@case("C06", quick=[{}], **TRIG)
def haversine_radius(env):
    c = env.mod("coord")
    p = pair(env)
    d = c.haversine(p[0], p[1], p[2], p[3])
    env.near(d, c.haversine(p[0], p[1], p[2], p[3], c.radiusat((p[1] + p[3]) / 2)), "radius of the mean latitude by default", scale=1e7)


@case("C07", quick=[{}], **TRIG)
def bearing_inverse(env):
    """Going the computed bearing and distance arrives."""
    c = env.mod("coord")
    p = pair(env)
    k = cosdist(env, *p)
    env.assume(env.And(k < 1, k > -1))
    R = env.real("R", 1, 8)
    b = c.bearing(*p)
    d = c.haversine(p[0], p[1], p[2], p[3], R)
    env.check(env.And(b >= -180, b <= 180), "a bearing between -180 and 180")
    lon, lat = c.destination(p[0], p[1], b, d, R)
    env.same_angle(lon, p[2], "longitude of the arrival")
    env.near(lat, p[3], "latitude of the arrival")


@case("C07", quick=[{}], **TRIG)
def destination_distance(env):
    c = env.mod("coord")
    lon, lat = env.angle("lon", -180, 180), env.angle("lat", -90, 90)
    env.assume(env.And(lat > -90, lat < 90))
    b = env.angle("b", -180, 180)
    a = env.angle("arc", 0, 180)
    env.assume(a > 0)
    R = env.real("R", 1, 8)
    d = a * env.pi() / 180 * R
    # not to a pole, where longitude means nothing
    env.assume((env.sin(lat) * env.cos(a) + env.cos(lat) * env.sin(a) * env.cos(b)) ** 2 < 1)
    lon2, lat2 = c.destination(lon, lat, b, d, R)
    env.observe("lat", lat2)
    env.check(env.And(lon2 >= -180, lon2 <= 180, lat2 >= -90, lat2 <= 90), "a place on the globe")
    env.near(cosdist(env, lon, lat, lon2, lat2), env.cos(a), "as far as asked")
    # to the west (bearings count counterclockwise)
    env.near(env.cos(lat2) * env.sin(lon - lon2), env.sin(a) * env.sin(b), "in the direction asked")


@case("C07", quick=[{}], **TRIG)
def destination_radius(env):
    c = env.mod("coord")
    lon = env.angle("lon", -180, 180)
    if env.flag("any latitude"):
        lat, b, d = env.angle("lat", -90, 90), 30, 250000
        env.assume(env.And(lat > -90, lat < 90))
    else:
        lat, b, d = env.choice("lat", [0, 30, -45, 60]), env.choice("b", [0, 30, 90, -120]), env.choice("d", [0, 250000, 5e6])
    got, want = c.destination(lon, lat, b, d), c.destination(lon, lat, b, d, c.radiusat(lat))
    env.near(got[0], want[0], "radius of the starting latitude by default", scale=100)
    env.near(got[1], want[1], "radius of the starting latitude by default", scale=100)


@case("C08", quick=[{}], **TRIG)
def midpoint_halves(env):
    c = env.mod("coord")
    p = pair(env)
    k = cosdist(env, *p)
    env.assume(k > -1)
    lon, lat = c.midpoint(*p)
    env.observe("lat", lat)
    a, b = cosdist(env, p[0], p[1], lon, lat), cosdist(env, lon, lat, p[2], p[3])
    env.near(a, b, "as far from both ends")
    env.near(2 * a * a - 1, k, "half the distance")
    env.check(a > 0, "on the shorter arc")


@case("C10", quick=[{}], **TRIG)
def radius_definition(env):
    c, m = env.mod("coord"), env.mod("proj")
    lat = env.angle("lat", -90, 90)
    a, b = env.real("a", 1, 8), env.real("b", 1, 8)
    env.assume(b <= a)
    e = m.Ellipsoid(a, b, env.sqrt(1 - b * b / (a * a)), 1 - b / a)
    r = c.radiusat(lat, e)
    env.observe("r", r)
    s, k = env.sin(lat), env.cos(lat)
    env.near(r * r * ((a * k) ** 2 + (b * s) ** 2), (a * a * k) ** 2 + (b * b * s) ** 2, "the distance of the surface from the centre", scale=1e4)
    env.check(env.And(env.fle(b, r), env.fle(r, a)), "between the polar and the equatorial radius")


@case("C10", quick=[dict(lat=x) for x in (0, 90, -90)], **TRIG)
def radius_extremes(env, lat):
    c, m = env.mod("coord"), env.mod("proj")
    a, b = env.real("a", 1, 8), env.real("b", 1, 8)
    e = m.Ellipsoid(a, b, 0, 0)
    env.near(c.radiusat(lat, e), b if lat else a, "equatorial and polar radius")
    env.near(c.radiusat(lat), m.WGS84.b if lat else m.WGS84.a, "of WGS84 by default", scale=1e7)


@case("C11", quick=[{}], **TRIG)
def angle_wrapped(env):
    m = env.mod("proj")
    x = env.real("x", -20, 20)
    r = m.corangle(x)
    env.observe("r", r)
    env.check(env.And(env.fle(-env.pi(), r), env.fle(r, env.pi())), "between -pi and pi")
    env.check(env.Or(*[env.feq(x - r, 2 * k * env.pi()) for k in range(-4, 5)]), "the same direction")


class Plane:
    """A flat stand-in for the equal-area projection."""

    def __init__(self, origin):
        self.x0, self.y0 = origin

    def geo2rect(self, lon, lat):
        return lon - self.x0, lat - self.y0

    def rect2geo(self, x, y):
        return x + self.x0, y + self.y0


def flat_centroid(region):
    cx = cy = sw = 0
    for poly in region:
        (x0, y0) = poly[0]
        for (x1, y1), (x2, y2) in zip(poly[1:], poly[2:]):
            w = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
            cx += w * (x0 + x1 + x2)
            cy += w * (y0 + y1 + y2)
            sw += w
    return cx, cy, 3 * sw


def with_plane(c, plane, fn, *args):
    real = c.proj.AzimuthalEqualArea
    c.proj.AzimuthalEqualArea = plane
    try:
        return fn(*args)
    finally:
        c.proj.AzimuthalEqualArea = real


def polygons(env, sizes):
    region = [[(env.real("x%d%d" % (i, j), -50, 50), env.real("y%d%d" % (i, j), -50, 50)) for j in range(n)] for i, n in enumerate(sizes)]
    cx, cy, sw = flat_centroid(region)
    env.assume(sw > 1)
    for r in region:
        env.assume(flat_centroid([r])[2] != 0)
    return region, cx, cy, sw


@case("C12", quick=[dict(sizes=k) for k in ([3], [4], [3, 3], [5], [3, 4])], thorough=[dict(sizes=k) for k in ([6], [7], [3, 5], [4, 4], [3, 3, 3])], **TRIG)
def centroid_formula(env, sizes):
    """One step: the area-weighted centroid of the polygons on the map."""
    c = env.mod("coord")
    region, cx, cy, sw = polygons(env, sizes)
    got = []

    class Still(Plane):
        def rect2geo(self, x, y):
            got.append((x, y))
            return self.x0, self.y0
    box = c.bbox.BBox((-60, -40), (70, 60))
    r = with_plane(c, Still, c.geocentroid, region, box)
    env.near(r[0], 5, "starts from the middle of the box")
    env.near(r[1], 10, "starts from the middle of the box")
    (x, y), = got
    env.near((x + 5) * sw, cx, "x of the centroid", scale=1e4)
    env.near((y + 10) * sw, cy, "y of the centroid", scale=1e4)


@case("C12", quick=[dict(box=True), dict(box=False)] + [dict(box=True, pace=k, sign=d) for k in ("y", "x", "both") for d in (1, -1)], **TRIG)
def centroid_settles(env, box, pace=None, sign=1):
    """Steps are repeated until the centre stays."""
    c = env.mod("coord")
    region, cx, cy, sw = polygons(env, [3])
    made = []

    class Slow(Plane):
        """On the first two maps, an axis is followed only halfway."""
        def __init__(self, origin):
            Plane.__init__(self, origin)
            made.append(self)
            self.first = len(made) <= 2

        def rect2geo(self, x, y):
            if self.first and pace in ("x", "both"):
                x = x / 2
            if self.first and pace in ("y", "both"):
                y = y / 2
            return x + self.x0, y + self.y0
    args = (region, c.bbox.BBox((-60, -40), (70, 60))) if box else (region,)
    if pace:
        # the start is not the answer already
        env.assume(env.And((cx - 5 * sw) * sign > sw, (cy - 10 * sw) * sign > sw))
    p = with_plane(c, Slow, c.geocentroid, *args)
    env.observe("p", p)
    env.near(p[0] * sw, cx, "x of the centroid", scale=1e3)
    env.near(p[1] * sw, cy, "y of the centroid", scale=1e3)
