"""Map projections (coral/proj.py)."""
from symx.cases import case

TRIG = dict(trig=True, timeout=20000, ticks=4000)


def site(env, lat0=None, span=360):
    """Origin (lon0, lat0) and a point (lon, lat) within span degrees of longitude of it."""
    lon0 = env.angle("lon0", -180, 180)
    dlon = env.angle("dlon", -span, span)
    if lat0 is None:
        lat0 = env.angle("lat0", -90, 90)
        env.assume(env.And(lat0 > -90, lat0 < 90))
    env.lat0 = lat0
    lat = env.angle("lat", -90, 90)
    env.assume(env.And(lat > -90, lat < 90))
    env.dlon = dlon
    return lon0, lat0, lon0 + dlon, lat


def radius(env):
    return env.real("R", 1, 8)


def cosdist(env, lon0, lat0, lon, lat):
    return env.sin(lat0) * env.sin(lat) + env.cos(lat0) * env.cos(lat) * env.cos(lon - lon0)


def project(env, kind, lat0=None):
    """A projection and a point of its domain."""
    m = env.mod("proj")
    if kind == "ConicEqualArea":
        env.dlon = lon = env.angle("lon", -180, 180)
        lat = env.angle("lat", -90, 90)
        lat1, lat2 = env.angle("lat1", -90, 90), env.angle("lat2", -90, 90)
        env.assume(env.And(lat > -90, lat < 90, lat1 > -90, lat1 < 90, lat2 > -90, lat2 < 90))
        env.assume(env.sin(lat1) + env.sin(lat2) != 0)
        return m.ConicEqualArea((lat1, lat2), radius(env)), lon, lat
    lon0, lat0, lon, lat = site(env, 0 if kind == "Mercator" else lat0)
    if kind == "TransMercator":
        env.assume(env.cos(lat) ** 2 * env.sin(lon - lon0) ** 2 < 1)
    elif kind == "ObliqMercator":
        env.assume((env.sin(lat0) * env.sin(lat) - env.cos(lat0) * env.cos(lat) * env.sin(lon - lon0)) ** 2 < 1)
    elif kind != "Mercator":
        env.assume(cosdist(env, lon0, lat0, lon, lat) > -1)
    return getattr(m, kind)((lon0, lat0), radius(env)), lon, lat


AZIMUTHAL = ("Stereographic", "AzimuthalEquidistant", "AzimuthalEqualArea")
ASPECTS = (None, 90, -90, 0)


@case("P01", quick=[dict(kind=k) for k in ("Mercator", "TransMercator", "ObliqMercator")], **TRIG)
@case("P02", quick=[dict(kind=k, lat0=a) for k in AZIMUTHAL for a in ASPECTS], **TRIG)
@case("P03", quick=[dict(kind="ConicEqualArea")], **TRIG)
def roundtrip(env, kind, lat0=None):
    p, lon, lat = project(env, kind, lat0)
    x, y = p.geo2rect(lon, lat)
    env.observe("x", x)
    env.observe("y", y)
    lon2, lat2 = p.rect2geo(x, y)
    env.same_angle(lon2, lon, "longitude returns")
    env.near(lat2, lat, "latitude returns")


# ---------------------------------------------------------------- local shape


def deform(env, p, lon, lat):
    """(h^2, k^2, F, area) of the map: squared meridian and parallel scales, skewness, area scale."""
    (x, y), ((xl, xf), (yl, yf)) = env.partials(p.geo2rect, (lon, lat), ((0, env.dlon), (1, lat)))
    c = env.cos(lat)
    r = p.r
    h2 = (xf * xf + yf * yf) / (r * r)
    k2 = (xl * xl + yl * yl) / (r * r * c * c)
    skew = (xf * xl + yf * yl) / (r * r * c)
    area = (xl * yf - xf * yl) / (r * r * c)
    return h2, k2, skew, area


@case("P04", quick=[dict(kind=k) for k in ("Mercator", "TransMercator", "ObliqMercator")]
      + [dict(kind="Stereographic", lat0=a) for a in ASPECTS], **TRIG)
def conformal(env, kind, lat0=None):
    p, lon, lat = project(env, kind, lat0)
    h2, k2, skew, area = deform(env, p, lon, lat)
    env.near(h2, k2, "equal scale along meridian and parallel")
    env.near(skew, 0, "meridians and parallels cross at right angles")
    env.check(area > 0, "orientation is kept")
    if kind == "Stereographic":
        return
    k = p.scale(lon, lat)
    env.near(k * k, h2, "scale() is the true local scale")
    env.check(k > 0, "scale() is positive")


@case("P05", quick=[dict(kind="AzimuthalEqualArea", lat0=a) for a in ASPECTS] + [dict(kind="ConicEqualArea")], **TRIG)
def equal_area(env, kind, lat0=None):
    p, lon, lat = project(env, kind, lat0)
    h2, k2, skew, area = deform(env, p, lon, lat)
    env.near(area, 1, "areas are kept")
    if kind == "ConicEqualArea":
        env.near(skew, 0, "meridians and parallels cross at right angles")
        h = p.scale(lon, lat)
        env.near(h * h, h2, "scale() is the scale along the meridian")
        env.check(h > 0, "scale() is positive")


@case("P06", quick=[dict(kind=k, lat0=a) for k in AZIMUTHAL for a in ASPECTS], **TRIG)
def azimuthal_law(env, kind, lat0):
    p, lon, lat = project(env, kind, lat0)
    dlon = env.dlon
    s0, c0 = (env.sin(lat0), env.cos(lat0)) if lat0 is not None else (env.sin(env.lat0), env.cos(env.lat0))
    x, y = p.geo2rect(lon, lat)
    # cosine of the angular distance from the centre
    k = s0 * env.sin(lat) + c0 * env.cos(lat) * env.cos(dlon)
    R = p.r
    if kind == "Stereographic":
        env.near((x * x + y * y) * (1 + k), 4 * R * R * (1 - k), "distance from the centre is 2 R tan(c/2)")
    elif kind == "AzimuthalEqualArea":
        env.near(x * x + y * y, 2 * R * R * (1 - k), "distance from the centre is 2 R sin(c/2)")
    else:
        d = env.mod("coord").haversine(lon - dlon, env.lat0 if lat0 is None else lat0, lon, lat, R)
        env.near(d * d, x * x + y * y, "distance from the centre is true")
    east = env.cos(lat) * env.sin(dlon)
    north = c0 * env.sin(lat) - s0 * env.cos(lat) * env.cos(dlon)
    env.near(x * north, y * east, "azimuth from the centre is true")
    env.check(env.Or(x * east + y * north > 0, env.And(x == 0, y == 0)) if env.symbolic else x * east + y * north >= -1e-12, "and not reversed")


@case("P07", quick=[{}], **TRIG)
def ellipsoidal_mercator(env):
    lon0, lat0, lon, lat = site(env, 0)
    m = env.mod("proj")
    a = env.real("a", 1, 8)
    e = env.real("e", 0, 0.75)
    f = 1 - env.sqrt(1 - e * e)
    p = m.EMercator((lon0, lat0), m.Ellipsoid(a, a * (1 - f), e, f))
    (x, y), ((xl, xf), (yl, yf)) = env.partials(p.geo2rect, (lon, lat), ((0, env.dlon), (1, lat)))
    w = 1 - e * e * env.sin(lat) ** 2
    c = env.cos(lat)
    # radii of curvature: meridian M, prime vertical N
    N = a / env.sqrt(w)
    M = a * (1 - e * e) / (w * env.sqrt(w))
    env.near(xf, 0, "meridians are vertical")
    env.near(yl, 0, "parallels are horizontal")
    env.near(xl * M, yf * N * c, "equal scale along meridian and parallel")
    env.check(env.And(xl > 0, yf > 0), "orientation is kept")
    env.near(p.scale(lon, lat) * N * c, xl, "scale() is the true local scale")


# ---------------------------------------------------------------- lines of true scale


@case("P08", quick=[{}], **TRIG)
def mercator_frame(env):
    m = env.mod("proj")
    lon0, lat0, lon, lat = site(env, 0, 180)
    p = m.Mercator((lon0, lat0), radius(env))
    rad = env.pi() / 180
    x, y = p.geo2rect(lon, lat)
    env.near(x, p.r * env.dlon * rad, "distances along the equator are true")
    x, y = p.geo2rect(lon, 0)
    env.near(y, 0, "the equator is the axis")


@case("P08", quick=[dict(kind=k) for k in ("Mercator", "EMercator", "EckertIV")], **TRIG)
def wraps(env, kind):
    """Maps reach half a turn to either side of their origin, across the date line."""
    m = env.mod("proj")
    lon0, lon = env.angle("lon0", -180, 180), env.angle("lon", -180, 180)
    R = radius(env)
    p = m.EMercator((lon0, 0), m.Ellipsoid(R, R, 0, 0)) if kind == "EMercator" else getattr(m, kind)((lon0, 0), R)
    x, y = p.geo2rect(lon, 0)
    env.near(y, 0, "the equator is the axis")
    half = 2 * p.CX * R * env.pi() if kind == "EckertIV" else R * env.pi()
    env.check(env.And(env.fle(x, half), env.fle(-half, x)), "within the map")
    env.same_angle(x / half * 180, lon - lon0, "at its longitude")


@case("P08", quick=[{}], **TRIG)
def tmercator_frame(env):
    m = env.mod("proj")
    lon0, lat0, lon, lat = site(env)
    p = m.TransMercator((lon0, lat0), radius(env))
    x, y = p.geo2rect(lon0, lat)
    env.near(x, 0, "the central meridian is the axis")
    env.near(y, p.r * (lat - lat0) * env.pi() / 180, "distances along the central meridian are true")


@case("P08", quick=[dict(lat0=a) for a in ASPECTS], **TRIG)
def omercator_frame(env, lat0):
    """y measures the distance from a great circle, x the position along it."""
    m = env.mod("proj")
    lon0, lat0, lon, lat = site(env, lat0)
    s, c = env.sin(lat0), env.cos(lat0)
    a = s * env.sin(lat) - c * env.cos(lat) * env.sin(env.dlon)
    env.assume(a * a < 1)
    R = radius(env)
    p = m.ObliqMercator((lon0, lat0), R)
    x, y = p.geo2rect(lon, lat)
    w = 1 / p.scale(lon, lat)
    env.near(w * w, 1 - a * a, "scale grows with the distance from the axis")
    env.near(env.tanh(y / R), a, "distance from the axis")
    t = x / R * 180 / env.pi()
    env.near(env.cos(t) * w, env.cos(lat) * env.cos(env.dlon), "position along the axis (cosine)")
    env.near(env.sin(t) * w, env.sin(lat) * c + s * env.cos(lat) * env.sin(env.dlon), "position along the axis (sine)")


@case("P08", quick=[{}], **TRIG)
def conic_frame(env):
    m = env.mod("proj")
    lon, lat = env.angle("lon", -180, 180), env.angle("lat", -90, 90)
    lat1, lat2 = env.angle("lat1", -90, 90), env.angle("lat2", -90, 90)
    env.assume(env.And(lat > -90, lat < 90, lat1 > -90, lat1 < 90, lat2 > -90, lat2 < 90))
    env.assume(env.sin(lat1) + env.sin(lat2) != 0)
    p = m.ConicEqualArea((lat1, lat2), radius(env))
    env.near(p.scale(lon, lat1), 1, "the first parallel is of true scale")
    env.near(p.scale(lon, lat2), 1, "the second parallel is of true scale")
    x, y = p.geo2rect(0, lat)
    env.near(x, 0, "the central meridian is the axis")
    x, y = p.geo2rect(0, 0)
    env.near(y, 0, "the equator passes the origin")


# ---------------------------------------------------------------- Eckert IV


@case("P09", quick=[{}], **TRIG)
def eckert_inverse(env):
    """The inverse keeps areas, with straight parallels."""
    m = env.mod("proj")
    lon0 = env.angle("lon0", -180, 180)
    R = radius(env)
    p = m.EckertIV((lon0, 0), R)
    rad = env.pi() / 180
    xi, th = env.angle("x", -180, 180), env.angle("theta", -90, 90)
    env.assume(env.And(th > -90, th < 90))
    h = p.CY * R
    # true of every angle: theta + sin cos <= pi / 2
    u = th * rad + env.sin(th) * env.cos(th)
    env.assume(env.And(u < env.pi() / 2, u > -env.pi() / 2))

    def inverse(xi, th):
        lon, lat = p.rect2geo(R * xi * rad, h * env.sin(th))
        return lon * rad, lat * rad
    (lon, lat), ((lx, lt), (fx, ft)) = env.partials(inverse, (xi, th), ((0, xi), (1, th)))
    env.observe("lat", lat)
    env.near(env.cos(lat / rad) * (lx * ft - lt * fx) * R, h * env.cos(th), "areas are kept")
    env.near(fx, 0, "parallels are straight")
    env.check(env.And(lx > 0, ft > 0), "orientation is kept")
    lon, lat = inverse(0 * xi, th)
    env.near(lon, lon0 * rad, "the central meridian is the axis")
    env.near(inverse(xi, 0 * th)[1], 0, "the equator is the axis")


@case("P09", quick=[{}], **TRIG)
def eckert_equator(env):
    m = env.mod("proj")
    lon0 = env.angle("lon0", -180, 180)
    dlon = env.angle("dlon", -180, 180)
    p = m.EckertIV((lon0, 0), radius(env))
    x, y = p.geo2rect(lon0 + dlon, 0)
    env.near(y, 0, "the equator is the axis")
    lon, lat = p.rect2geo(x, y)
    env.same_angle(lon, lon0 + dlon, "longitude returns")


@case("P09", quick=[dict(lat=k) for k in (-90, -75, -60, -45, -30, -15, -1, 0, 1, 15, 30, 45, 60, 75, 90)],
      thorough=[dict(lat=k) for k in range(-89, 90)])
def eckert_forward(env, lat):
    """The projection on single parallels, for every longitude, origin and radius."""
    m = env.mod("proj")
    lon0 = env.real("lon0", -180, 180)
    dlon = env.real("dlon", -179, 179)
    p = m.EckertIV((lon0, 0), 2)
    x, y = p.geo2rect(lon0 + dlon, lat)
    env.observe("x", x)
    lon2, lat2 = p.rect2geo(x, y)
    env.near(lat2, lat, "latitude returns", tol=1e-2 if abs(lat) > 85 else 1e-4)
    env.near(lon2, lon0 + dlon, "longitude returns", tol=0.5 if abs(lat) > 85 else 1e-3)


@case("P07", quick=[dict(lat=k, wgs=w) for k in (-89, -60, -30, -1, 0, 1, 45, 75, 89) for w in (True, False)],
      thorough=[dict(lat=k, wgs=w) for k in range(-89, 90) for w in (True, False)])
def ellipsoidal_inverse(env, lat, wgs):
    """The iterated inverse on single parallels, for every longitude and origin."""
    m = env.mod("proj")
    lon0 = env.real("lon0", -180, 180)
    dlon = env.real("dlon", -179, 179)
    e = None if wgs else m.Ellipsoid(2.0, 1.6, 0.6, 0.2)
    p = m.EMercator((lon0, 0), e)
    x, y = p.geo2rect(lon0 + dlon, lat)
    lon2, lat2 = p.rect2geo(x, y)
    env.near(lat2, lat, "latitude returns", tol=1e-6)
    env.check(env.Or(*[env.And(env.fle(lon2 - lon0 - dlon - k, 1e-6), env.fle(-1e-6, lon2 - lon0 - dlon - k)) for k in (-360, 0, 360)]), "longitude returns")


@case("P06", quick=[dict(kind=k, lat0=a, turns=t) for k in AZIMUTHAL for a in (90, -90) for t in (None,)]
      + [dict(kind=k, lat0=a, turns=t) for k in AZIMUTHAL for a in (None, 0, 45) for t in (0, 1, -1)], **TRIG)
def azimuthal_centre(env, kind, lat0, turns):
    """The centre, whatever the longitude given for it, is the origin of the map."""
    m = env.mod("proj")
    lon0, lat, _, _ = site(env, lat0)
    p = getattr(m, kind)((lon0, lat), radius(env))
    lon = lon0 + 360 * turns if turns is not None else lon0 + env.dlon
    x, y = p.geo2rect(lon, lat)
    env.near(x, 0, "the centre is the origin")
    env.near(y, 0, "the centre is the origin")
    lon2, lat2 = p.rect2geo(0, 0)
    env.near(lat2, lat, "the origin is the centre")
    env.same_angle(lon2, lon0, "the origin is the centre")


EARTH = (6378137 + 6378137 * (1 - 1 / 298.257223563)) / 2
DEFAULTS = ("Mercator", "EMercator", "TransMercator", "ObliqMercator", "EckertIV", "ConicEqualArea") + AZIMUTHAL


@case("P08", quick=[dict(kind=k) for k in DEFAULTS if k not in ("EMercator", "EckertIV")], **TRIG)
def defaults(env, kind):
    """A projection asked for by name only is that of the meridian of Greenwich and the equator, on the Earth."""
    cls = getattr(env.mod("proj"), kind)
    if kind == "ConicEqualArea":
        pairs = [(cls((30, 30)), cls((30, 30), EARTH))]
    else:
        here = (30, 0 if kind == "Mercator" else 45)
        pairs = [(cls(), cls((0, 0), EARTH)), (cls(here), cls(here, EARTH)), (cls(radius=2), cls((0, 0), 2))]
    lon = env.angle("lon", -90, 90)
    lat = env.choice("lat", [-45, 30])
    env.assume(env.Or(lon < -1, lon > 1))
    for p, q in pairs:
        u, v = p.geo2rect(lon, lat), q.geo2rect(lon, lat)
        env.near(u[0] / EARTH, v[0] / EARTH, "a projection without a radius is that of the Earth")
        env.near(u[1] / EARTH, v[1] / EARTH, "a projection without a radius is that of the Earth")


@case("P08", quick=[dict(kind=k, lat=a) for k in ("EMercator", "EckertIV") for a in (-40, 0, 60)])
def default_earth(env, kind, lat):
    m = env.mod("proj")
    cls = getattr(m, kind)
    a, f = 6378137, 1 / 298.257223563
    size = EARTH
    if kind == "EMercator":
        size = m.Ellipsoid(a, a * (1 - f), (2 * f - f * f) ** 0.5, f)
    lon = env.real("lon", -80, 80)
    for p, q in ((cls(), cls((0, 0), size)), (cls((10, 0)), cls((10, 0), size))):
        u, v = p.geo2rect(lon, lat), q.geo2rect(lon, lat)
        env.near(u[0] / EARTH, v[0] / EARTH, "a projection without a size is that of the Earth")
        env.near(u[1] / EARTH, v[1] / EARTH, "a projection without a size is that of the Earth")
