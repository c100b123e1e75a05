"""Shapefiles (coral/shapefile.py)."""
import struct

from symx.cases import case

HASZ = (11, 13, 15, 18, 31)
HASM = (11, 13, 15, 18, 21, 23, 25, 28, 31)
SINGLE = (1, 11, 21)
PARTS = (3, 5, 13, 15, 23, 25, 31)
CLOSED = (5, 15, 25, 31)
MULTI = PARTS + (8, 18, 28)
ALL = SINGLE + MULTI
OPT = dict(timeout=20000, ticks=20000)


def vertex(env, tag, dims):
    names = ("x", "y", "z", "m")[:dims]
    k = getattr(env, "plain", None)
    if k is not None:
        # data of many points, few of them symbolic
        env.plain = k + 1
        if k not in (33, 170):
            return [3 * k - 800, (k * 37) % 400 - 200, k % 90, k % 7][:dims]
    return [env.real(n + tag, -1000, 1000) for n in names]


def draw(env, w, i, kind, parts, dims):
    """Add shape i to the writer; returns (type, parts, points) as they are to be read back."""
    if parts is None:
        w.null()
        return 0, [], []
    if kind in SINGLE:
        p = vertex(env, str(i), dims)
        w.point(*p)
        return kind, [], [p + [0] * (4 - dims)]
    given, starts, points = [], [], []
    rings = "open"
    if kind in CLOSED and i == 0 and getattr(env, "plain", None) is None and max(parts) > 1:
        rings = env.choice("rings given", ["open", "same x", "closed"])
    for j, n in enumerate(parts):
        part = [vertex(env, "%d_%d_%d" % (i, j, k), dims) for k in range(n)]
        if kind in CLOSED and n > 1 and rings != "closed":
            # rings are given open
            if rings == "same x":
                part[-1][0] = part[0][0]
            k = int(rings == "same x")
            env.assume(part[0][k] + 1 < part[-1][k])
        elif kind in CLOSED and n > 1:
            part[-1] = list(part[0])
        starts.append(len(points))
        points += [p + [0] * (4 - dims) for p in part]
        if kind in CLOSED and n > 1 and rings != "closed":
            points.append(points[starts[-1]])
        given.append([tuple(p) for p in part])
    if kind in (3, 13, 23) and env.flag("as line %d" % i):
        w.line(given, kind)
    elif kind == 31 and env.flag("types of parts given %d" % i):
        w.poly(given, kind, [k % 6 for k in range(len(given))])
        return kind, starts, points, [k % 6 for k in range(len(given))]
    else:
        w.poly(given, kind)
    return kind, starts, points


def compare(env, s, want):
    kind, starts, points = want[:3]
    env.check_eq(s.shapeType, kind, "shapes keep their type")
    env.check_eq(len(s.points), len(points), "shapes keep the number of their points")
    for p, q in zip(s.points, points):
        env.check_eq(len(p), 2, "points have two coordinates")
        env.check(env.And(p[0] == q[0], p[1] == q[1]), "points keep their coordinates")
    if kind in PARTS:
        env.check_eq(list(s.parts), starts, "shapes keep their parts")
    if kind == 31:
        types = list(s.partTypes)
        env.check_eq(len(types), len(starts), "every part has a type")
        if len(want) > 3:
            env.check_eq(types, want[3], "parts keep their types")
    if kind in HASZ:
        env.check_eq(list(s.z), [q[2] for q in points], "points keep their elevations")
    if kind in HASM:
        env.check_eq(list(s.m), [q[3] for q in points], "points keep their measures")


def save(env, w, shx=True):
    files = [env.BytesIO(), env.BytesIO(), env.BytesIO()]
    if not w.fields:
        w.field("a", "N", 4)
    for i in range(len(w.records), len(w.shapes())):
        w.record(i)
    w.save(shp=files[0], shx=files[1], dbf=files[2])
    return files


SHAPES = ([[2]], [[1, 2]], [[2], None, [3]])


@case("H01", quick=[dict(kind=k, shapes=s, dims=4) for k in MULTI for s in SHAPES] + [dict(kind=k, shapes=s, dims=d) for k in SINGLE for s in ([[1]], [[1], None, [1]]) for d in (2, 3, 4)]
      + [dict(kind=k, shapes=[[2, 1]], dims=2) for k in MULTI] + [dict(kind=15, shapes=[None, [3], [2, 2], None], dims=3)]
      + [dict(kind=k, shapes=[None, [2]], dims=2, told=0) for k in (3, 5, 8)] + [dict(kind=31, shapes=[[1], [1, 2, 1]], dims=4)],
      thorough=[dict(kind=k, shapes=s, dims=d) for k in MULTI for s in ([[5]], [[3, 2, 4]], [[2, 2], None, [4], [1]]) for d in (2, 3, 4)], **OPT)
def geometry(env, kind, shapes, dims, told=1):
    """Shapes come back as they were drawn, however they are read."""
    m = env.mod("shapefile")
    w = m.Writer(kind) if told else m.Writer()
    want = [draw(env, w, i, kind, s, dims) for i, s in enumerate(shapes)]
    shp, shx, dbf = save(env, w)
    way = env.choice("way", ["all", "one by one", "in turn", "without index", "backwards", "pairs"])
    r = m.Reader(shp=shp, dbf=dbf) if way == "without index" else m.Reader(shp=shp, shx=shx, dbf=dbf)
    env.check_eq(r.shapeType, kind, "the type of the file is kept")
    if way == "all":
        got = r.shapes()
    elif way == "one by one":
        got = list(r.iterShapes())
    elif way == "pairs":
        pairs = r.shapeRecords()
        env.check_eq([p.record[0] for p in pairs], list(range(len(want))), "shapes keep their records")
        got = [p.shape for p in pairs]
    elif way == "backwards":
        got = [r.shape(i) for i in range(len(want) - 1, -1, -1)][::-1]
    else:
        got = [r.shape(i) for i in range(len(want))]
    env.check_eq(len(got), len(want), "every shape is read back")
    for s, t in zip(got, want):
        compare(env, s, t)


@case("H01", quick=[dict(kind=k, n=3) for k in (1, 5, 13, 28)], thorough=[dict(kind=k, n=4) for k in SINGLE + MULTI], **OPT)
def interleaved(env, kind, n):
    """Iterators keep their place while other shapes are read."""
    m = env.mod("shapefile")
    w = m.Writer(kind)
    want = [draw(env, w, i, kind, [1 + i % 2] if kind in MULTI else [1], 2) for i in range(n)]
    shp, shx, dbf = save(env, w)
    r = m.Reader(shp=shp, dbf=dbf) if env.flag("without index") else m.Reader(shp=shp, shx=shx, dbf=dbf)
    k = env.num("k", 0, n)
    other = env.choice("other", ["shape", "shapes", "iterator", "record"])
    it = r.iterShapes()
    got = []
    for i in range(n):
        got.append(next(it))
        if i == k or k == n:
            if other == "shape":
                compare(env, r.shape(k % n), want[k % n])
            elif other == "shapes":
                env.check_eq(len(r.shapes()), n, "every shape is read back")
            elif other == "iterator":
                compare(env, next(r.iterShapes()), want[0])
            else:
                env.check_eq(r.shapeRecord(k % n).record, [k % n], "shapes keep their records")
    env.check_eq(next(it, None), None, "no shape is read twice")
    for s, t in zip(got, want):
        compare(env, s, t)


MANY = {
    "long line": (3, [[300], [2]]), "big rings": (5, [[140], [150]]), "lines with elevations": (13, [[1] * 150, [2]]), "rings with elevations": (15, [[3] * 90, None, [2]]),
    "points": (8, [[300], [1]]), "rings with measures": (25, [[3] * 50] * 2), "patches": (31, [[2] * 140, [1]]), "single points": (1, [[1]] * 300),
    "gaps": (21, [None] * 130 + [[1]] * 130), "rings": (5, [[5]] * 140),
    "very long line": (3, [[9000], [2]]), "very many rings": (5, [[1] * 4000, [3]]), "very many points": (1, [[1]] * 9000),
}


@case("H01", quick=[dict(which=k) for k in MANY], timeout=20000, ticks=10 ** 7)
def many(env, which):
    """Counts, offsets and lengths that take several bytes."""
    kind, shapes = MANY[which]
    env.plain = 0
    m = env.mod("shapefile")
    w = m.Writer(kind)
    want = [draw(env, w, i, kind, s, 4) for i, s in enumerate(shapes)]
    shp, shx, dbf = save(env, w)
    r = m.Reader(shp=shp, shx=shx, dbf=dbf)
    n = len(want)
    env.check_eq(r.numRecords, n, "number of records")
    for i in env.choice("order", [[0, n - 1, n // 2, 0], [n - 1, 0, n - 1]]):
        p = r.shapeRecord(i)
        compare(env, p.shape, want[i])
        env.check_eq(p.record, [i], "shapes keep their records")
        compare(env, r.shape(i), want[i])
    got = r.shapes()
    env.check_eq(len(got), n, "every shape is read back")
    for i in (0, n // 2, n - 1):
        compare(env, got[i], want[i])
    env.check_eq([p[0] for p in r.records()], list(range(n)), "every record is read back")


def bounds(vals):
    return min(vals), max(vals)


def parse(env, shp, shx, kind, wants):
    """The files read by the ESRI specification alone."""
    def be(b, n=1):
        return struct.unpack(">%di" % n, b)

    def le(b, n=1):
        return struct.unpack("<%di" % n, b)

    def dbl(b, n):
        return struct.unpack("<%dd" % n, b)
    pts = [p for w in wants for p in w[2]]
    for name, f in (("shp", shp), ("shx", shx)):
        env.check_eq(be(f[0:4])[0], 9994, "file code")
        env.check_eq(be(f[24:28])[0] * 2, len(f), "the header tells the length of the file")
        env.check_eq(le(f[28:36], 2), (1000, kind), "version and type of the file")
        box = dbl(f[36:68], 4)
        (x0, x1), (y0, y1) = bounds([p[0] for p in pts]), bounds([p[1] for p in pts])
        env.check(env.And(box[0] == x0, box[1] == y0, box[2] == x1, box[3] == y1), "the box of the file")
        zm = dbl(f[68:100], 4)
        if kind in HASZ:
            z0, z1 = bounds([p[2] for p in pts])
            env.check(env.And(zm[0] == z0, zm[1] == z1), "elevations of the file")
        if kind in HASM:
            m0, m1 = bounds([p[3] for p in pts])
            env.check(env.And(zm[2] == m0, zm[3] == m1), "measures of the file")
    pos = 100
    env.check_eq(len(shx), 100 + 8 * len(wants), "the index has one entry per shape")
    for i, (t, starts, ps) in enumerate(w[:3] for w in wants):
        num, n = be(shp[pos:pos + 8], 2)
        env.check_eq(num, i + 1, "records are numbered from 1")
        env.check_eq(be(shx[100 + 8 * i:108 + 8 * i], 2), (pos // 2, n), "the index tells place and length of every record")
        end = pos + 8 + 2 * n
        b = shp[pos + 8:end]
        env.check_eq(le(b[0:4])[0], t, "type of the shape")
        b = b[4:]
        if t in SINGLE:
            env.check_eq(list(dbl(b[0:16], 2)), ps[0][:2], "coordinates of the point")
            b = b[16:]
            if t in HASZ:
                env.check_eq(dbl(b[0:8], 1)[0], ps[0][2], "elevation of the point")
                b = b[8:]
            if t in HASM:
                env.check_eq(dbl(b[0:8], 1)[0], ps[0][3], "measure of the point")
                b = b[8:]
        elif t:
            box = dbl(b[0:32], 4)
            (x0, x1), (y0, y1) = bounds([p[0] for p in ps]), bounds([p[1] for p in ps])
            env.check(env.And(box[0] == x0, box[1] == y0, box[2] == x1, box[3] == y1), "the box of the shape")
            b = b[32:]
            if t in PARTS:
                env.check_eq(le(b[0:4])[0], len(starts), "number of parts")
                b = b[4:]
            env.check_eq(le(b[0:4])[0], len(ps), "number of points")
            b = b[4:]
            if t in PARTS:
                env.check_eq(list(le(b[0:4 * len(starts)], len(starts))), starts, "starts of the parts")
                b = b[4 * len(starts):]
            if t == 31:
                b = b[4 * len(starts):]
            env.check_eq(list(dbl(b[0:16 * len(ps)], 2 * len(ps))), [v for p in ps for v in p[:2]], "coordinates of the points")
            b = b[16 * len(ps):]
            for have, k, what in ((HASZ, 2, "elevations"), (HASM, 3, "measures")):
                if t in have:
                    lo, hi = bounds([p[k] for p in ps])
                    env.check_eq(list(dbl(b[0:16], 2)), [lo, hi], "range of " + what)
                    env.check_eq(list(dbl(b[16:16 + 8 * len(ps)], len(ps))), [p[k] for p in ps], what)
                    b = b[16 + 8 * len(ps):]
        env.check_eq(len(b), 0, "records end where their length says")
        pos = end
    env.check_eq(pos, len(shp), "the file ends with its last record")


@case("H02", quick=[dict(kind=k, shapes=s, dims=4) for k in MULTI for s in ([[2]], [[1, 1], None])] + [dict(kind=k, shapes=[[1], None, [1]], dims=d) for k in SINGLE for d in (2, 4)]
      + [dict(kind=k, shapes=[[3], [1]], dims=2, more=1) for k in (3, 5, 8)] + [dict(kind=13, shapes=[[2], [1]], dims=4, more=1)],
      thorough=[dict(kind=k, shapes=s, dims=4) for k in MULTI for s in ([[3]], [[2, 1], [1]])] + [dict(kind=k, shapes=[[2], [1], None, [1, 1]], dims=4, more=2) for k in (3, 5, 8, 13, 15, 18, 23, 25, 28)], **OPT)
def specification(env, kind, shapes, dims, more=0):
    """What is written follows the specification, also when saved again after more shapes."""
    m = env.mod("shapefile")
    w = m.Writer(kind)
    n = len(shapes) - more
    want = [draw(env, w, i, kind, s, dims) for i, s in enumerate(shapes[:n])]
    if more:
        save(env, w)
        want += [draw(env, w, n + i, kind, s, dims) for i, s in enumerate(shapes[n:])]
    shp, shx, dbf = save(env, w)
    for f in (shp, shx):
        f.seek(0)
    parse(env, shp.read(), shx.read(), kind, want)


@case("H02", quick=[dict(which=k) for k in MANY], timeout=20000, ticks=10 ** 7)
def specification_many(env, which):
    """Lengths and places that take several bytes."""
    kind, shapes = MANY[which]
    env.plain = 0
    specification(env, kind, shapes, 4)


# ---------------------------------------------------------------- attributes


def blanks(env, s):
    """s without blanks at its ends."""
    return s.strip()


def utf8len(c):
    return 1 if c < 128 else 2 if c < 2048 else 3


def fitting(env, text, size):
    """The longest start of a text that fits a field."""
    used = k = 0
    for ch in text[:size]:
        used += utf8len(ord(ch))
        if used > size:
            break
        k += 1
    return text[:k]


def value(env, kind, tag, small=False):
    """(value to write, value to be read back) of a field of size SIZE[kind]."""
    if small and kind in "CNLFR":
        if kind == "C":
            s = env.str(tag, env.num(tag + " length", 0, 2), chars="a\u20ac")
            return s, fitting(env, s, 4)
        if kind == "N":
            v = env.int(tag, -9, 9)
            return v, v
        v = env.choice(tag, [True, "n", "?"] if kind == "L" else [-1.5, 100])
        return v, {True: "T", "n": "F"}.get(v, v)
    if kind == "C":
        s = env.str(tag, env.num(tag + " length", 0, 4), chars="a\u00e9\u20ac ")
        return s, fitting(env, s, 4).strip()
    if kind == "N":
        v = env.int(tag, -999, 9999)
        return v, v
    if kind in "FR":
        v = env.choice(tag, [0, -1.5, 12.25, 100])
        return v, v
    if kind == "D":
        y, m, d = env.int(tag + "y", 1, 9999), env.int(tag + "m", 1, 12), env.int(tag + "d", 1, 31)
        if env.flag(tag + " as text"):
            return "%04d%02d%02d" % (y, m, d), [y, m, d]
        return env.choice(tag + " kind", [list, tuple])((y, m, d)), [y, m, d]
    v = env.choice(tag, [True, False, "y", "n", "?", "t", "F", "", "x"])
    return v, {"True": "T", "False": "F", "y": "T", "n": "F", "t": "T", "F": "F", "": ""}.get(str(v), "?")


SIZE = {"C": ("C", 4, 0), "N": ("N", 4, 0), "F": ("N", 8, 2), "R": ("F", 8, 2), "D": ("D", 8, 0), "L": ("L", 1, 0)}


def table(env, w, kinds):
    for i, k in enumerate(kinds):
        w.field("f%d" % i, *SIZE[k])


WAYS = ["all", "one by one", "index", "from the end"]


@case("H03", quick=[dict(kinds=k, rows=1) for k in ("C", "N", "F", "R", "D", "L", "CN", "NC", "CC")] + [dict(kinds=k, rows=r, way=w) for k, r in (("CN", 0), ("NN", 2), ("LF", 2), ("N", 3)) for w in WAYS],
      thorough=[dict(kinds=a + b, rows=1) for a in "CNDLF" for b in "CNDLF"] + [dict(kinds="CNL", rows=1, way="index"), dict(kinds="C", rows=2, way="one by one"), dict(kinds="CN", rows=2)], validate=8, **OPT)
def attributes(env, kinds, rows, way="all"):
    """Attribute records come back as they were given."""
    m = env.mod("shapefile")
    w = m.Writer(1)
    table(env, w, kinds)
    want = []
    for i in range(rows):
        pairs = [value(env, k, "v%d%d" % (i, j), rows * len(kinds) > 1) for j, k in enumerate(kinds)]
        w.record(*[p[0] for p in pairs])
        want.append([p[1] for p in pairs])
    dbf = env.BytesIO()
    w.saveDbf(dbf)
    r = m.Reader(dbf=dbf)
    env.check_eq([tuple(f) for f in r.fields[1:]], [("f%d" % i,) + SIZE[k] for i, k in enumerate(kinds)], "fields are read back")
    if way == "all":
        got = r.records()
    elif way == "one by one":
        got = list(r.iterRecords())
    elif way == "index":
        got = [r.record(i) for i in range(rows)]
    else:
        got = [r.record(i) for i in range(-1, -rows - 1, -1)][::-1]
    env.check_eq(len(got), rows, "every record is read back")
    for a, b in zip(got, want):
        env.check_eq(len(a), len(b), "records keep the number of their values")
        for x, y in zip(a, b):
            env.check_eq(x, y, "values are read back")
    env.check_eq(r.numRecords, rows, "number of records")


@case("H03", quick=[dict(rows=3)], thorough=[dict(rows=6)], **OPT)
def records_interleaved(env, rows):
    """Iterators keep their place while other records are read."""
    m = env.mod("shapefile")
    w = m.Writer(1)
    w.field("n", "N", 6)
    want = [[env.int("v%d" % i, 100, 999)] for i in range(rows)]
    for v in want:
        w.record(*v)
    dbf = env.BytesIO()
    w.saveDbf(dbf)
    r = m.Reader(dbf=dbf)
    k = env.num("k", 0, rows)
    other = env.choice("other", ["record", "records", "iterator"])
    it = r.iterRecords()
    got = []
    for i in range(rows):
        got.append(next(it))
        if i == k or k == rows:
            if other == "record":
                env.check_eq(r.record(k % rows), want[k % rows], "values are read back")
            elif other == "records":
                env.check_eq(r.records(), want, "values are read back")
            else:
                env.check_eq(next(r.iterRecords()), want[0], "values are read back")
    env.check_eq(next(it, None), None, "no record is read twice")
    env.check_eq(got, want, "values are read back")


@case("H03", quick=[dict(cols=60, rows=2, size=10), dict(cols=2, rows=300, size=30), dict(cols=3, rows=2, size=254)], thorough=[dict(cols=250, rows=3, size=10), dict(cols=2, rows=70000, size=8)], timeout=20000, ticks=10 ** 7)
def wide(env, cols, rows, size):
    """Many fields, many records and long values."""
    m = env.mod("shapefile")
    w = m.Writer(1)
    for j in range(cols):
        w.field("f%d" % j, *[("C", size, 0), ("N", min(size, 18), 0)][j % 2])
    want = []
    for i in range(rows):
        row = [("t%d %d" % (i, j))[:size] if j % 2 == 0 else i * 7 - j for j in range(cols)]
        if i == rows - 1:
            row[-1 if cols % 2 else -2] = env.str("text", 1, chars="ab-") * size
            row[1] = env.int("number", -10 ** (size if size < 17 else 17) // 10 + 1, 10 ** (size if size < 17 else 17) - 1)
        want.append(row)
        w.record(*row)
    dbf = env.BytesIO()
    w.saveDbf(dbf)
    r = m.Reader(dbf=dbf)
    env.check_eq(r.numRecords, rows, "number of records")
    env.check_eq(len(r.fields), cols + 1, "fields are read back")
    order = env.choice("order", ["all", "last", "ends"])
    if order == "all":
        got = r.records()
        env.check_eq(len(got), rows, "every record is read back")
        for i in sorted(set([0, rows // 2, rows - 1])):
            env.check_eq(got[i], want[i], "values are read back")
    else:
        for i in ([rows - 1] if order == "last" else [-1, 0, rows // 2]):
            env.check_eq(r.record(i), want[i], "values are read back")


@case("H03", quick=[dict(which=w, other=o) for w in (0, 1) for o in (0, 1)], **OPT)
def named(env, which, other):
    """Values given by name go to their fields; missing ones are blank."""
    m = env.mod("shapefile")
    w = m.Writer(1)
    table(env, w, "NCN")
    given = [{"f1": "y", "f2": env.int("second%d" % i, 10, 99), "f0": env.int("first%d" % i, 10, 99)} for i in range(2)]
    g = given[which]
    for k in ("f2", "f1", "f0"):
        how = env.choice("%s" % k, ["given", "blank", "missing"])
        if how == "missing":
            del g[k]
        elif how == "blank":
            g[k] = None
    if other:
        g["other"] = 7
    for g in given:
        w.record(**g)
    dbf = env.BytesIO()
    w.saveDbf(dbf)
    got = m.Reader(dbf=dbf).records()
    env.check_eq(len(got), 2, "every record is read back")
    for g, a in zip(given, got):
        env.check_eq(len(a), 3, "records keep the number of their values")
        for k, x in zip(("f0", "f1", "f2"), a):
            v = g.get(k)
            env.check_eq(x, "" if v is None else v, "values go to their fields")


@case("H03", quick=[dict(stem=s, n=n) for s, n in (("", 3), ("Deletion", 3), ("AREAKM", 4), ("DeletionDa", 1))], thorough=[dict(stem="AREA", n=7), dict(stem="", n=5)], **OPT)
def fieldnames(env, stem, n):
    """Fields keep their names, cut to what the format holds."""
    m = env.mod("shapefile")
    code = env.choice("encoding", ["utf-8", "latin-1"])
    names = [stem + env.str("name", env.num("length", 0 if stem else 1, n), chars="a\u00e9 _g"), "other"]
    if env.flag("second"):
        names.reverse()
    w = m.Writer(1, encoding=code)
    for x in names:
        w.field(x, "N", "5")
    vals = [env.int("v%d" % i, 10, 99) for i in range(2)]
    w.record(*vals)
    dbf = env.BytesIO()
    w.saveDbf(dbf)
    r = m.Reader(dbf=dbf, encoding=code)
    want = []
    for x in names:
        x = x[:10] if code == "latin-1" else fitting(env, x, 10)
        want.append(x.replace(" ", "_"))
    env.check_eq([f[0] for f in r.fields[1:]], want, "fields keep their names")
    env.check_eq([f[2] for f in r.fields[1:]], [5, 5], "fields keep their sizes")
    env.check_eq(r.records(), [vals], "values go to their fields")


@case("H03", quick=[dict(n=3)], thorough=[dict(n=5)], **OPT)
def encoded(env, n):
    """Text is kept in the encoding asked for."""
    m = env.mod("shapefile")
    code = env.choice("encoding", ["latin-1", "utf-8"])
    w = m.Writer(1, encoding=code)
    w.field("a", "C", 4)
    w.field("b")
    text, more = env.str("text", env.num("length", 0, n), chars="a\u00e9\u00ff "), env.str("more", 2, chars="a\u00e9")
    w.record(text, more)
    dbf = env.BytesIO()
    w.saveDbf(dbf)
    r = m.Reader(dbf=dbf, encoding=code)
    env.check_eq(r.records(), [[(text[:4] if code == "latin-1" else fitting(env, text, 4)).strip(), more]], "values are read back")
    env.check_eq([tuple(f) for f in r.fields[1:]], [("a", "C", 4, 0), ("b", "C", 50, 0)], "fields are read back")


@case("H03", quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=4)], **OPT)
def deleted(env, n):
    """Records marked as deleted are passed over, and so are their shapes."""
    m = env.mod("shapefile")
    w = m.Writer(1)
    w.field("a", "N", 4)
    pts, vals = [], []
    for i in range(n):
        pts.append(vertex(env, str(i), 2))
        vals.append(env.int("a%d" % i, 0, 9999))
        w.point(*pts[-1])
        w.record(vals[-1])
    shp, shx, dbf = env.BytesIO(), env.BytesIO(), env.BytesIO()
    w.save(shp=shp, shx=shx, dbf=dbf)
    gone = [env.flag("gone%d" % i) for i in range(n)]
    for i in range(n):
        if gone[i]:
            dbf.seek(32 + 32 + 1 + 5 * i)
            dbf.write(b"*")
    r = m.Reader(shp=shp, shx=shx, dbf=dbf)
    left = [i for i in range(n) if not gone[i]]
    env.check_eq(r.records(), [[vals[i]] for i in left], "deleted records are passed over")
    env.check_eq(list(r.iterRecords()), [[vals[i]] for i in left], "deleted records are passed over")
    pairs = r.shapeRecords()
    env.check_eq([p.record for p in pairs], [[vals[i]] for i in left], "deleted records are passed over")
    env.check_eq([list(p.shape.points[0]) for p in pairs], [pts[i] for i in left], "shapes keep their records")
    for i in range(n):
        p = r.shapeRecord(i)
        env.check_eq(p.record, None if gone[i] else [vals[i]], "a deleted record has no values")
        env.check_eq(list(p.shape.points[0]), pts[i], "shapes keep their records")


@case("H04", quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (4, 6)], **OPT)
def indexing(env, n):
    """Shapes and records are indexed like lists."""
    m = env.mod("shapefile")
    w = m.Writer(1)
    w.field("a", "N", 4)
    pts, vals = [], []
    for i in range(n):
        pts.append(vertex(env, str(i), 2))
        vals.append(env.int("a%d" % i, 0, 9999))
        w.point(*pts[-1])
        w.record(vals[-1])
    shp, shx, dbf = env.BytesIO(), env.BytesIO(), env.BytesIO()
    w.save(shp=shp, shx=shx, dbf=dbf)
    parts = env.choice("parts", ["all", "no index", "no attributes", "shapes only"])
    kw = dict(shp=shp)
    if parts in ("all", "no attributes"):
        kw["shx"] = shx
    if parts in ("all", "no index"):
        kw["dbf"] = dbf
    r = m.Reader(**kw)
    for i in env.choice("order", [list(range(-n - 2, n + 2)), list(range(n + 1, -n - 3, -1)), [0, n - 1, -n, n, -1, -n - 1]]):
        if -n <= i < n:
            env.check_eq(list(r.shape(i).points[0]), pts[i], "shapes are indexed like a list")
            if "dbf" in kw:
                env.check_eq(r.record(i), [vals[i]], "records are indexed like a list")
                p = r.shapeRecord(i)
                env.check_eq((list(p.shape.points[0]), p.record), (pts[i], [vals[i]]), "pairs are indexed like a list")
        else:
            env.check(env.raises(IndexError, r.shape, i), "an index outside is refused")
            if "dbf" in kw:
                env.check(env.raises(IndexError, r.record, i), "an index outside is refused")
                env.check(env.raises(IndexError, r.shapeRecord, i), "an index outside is refused")


# ---------------------------------------------------------------- GeoJSON


def ring_area(pts):
    """Twice the signed area of a closed ring."""
    a = 0
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        a = a + x0 * y1 - x1 * y0
    return a


@case("H05", quick=[dict(n=n) for n in (3, 4, 5)], thorough=[dict(n=n) for n in (6, 7, 8)], nl=True, timeout=20000)
def area(env, n):
    m = env.mod("shapefile")
    ring = [tuple(vertex(env, str(i), 2)) for i in range(n)]
    ring.append(ring[0])
    env.near(2 * m.signed_area(ring), ring_area(ring), "the signed area of a ring", scale=1e6)


def make_shape(env, kind, rings):
    """A shape, as written or as read back."""
    m = env.mod("shapefile")
    w = m.Writer(kind)
    if kind in SINGLE:
        w.point(*rings[0][0])
    else:
        w.poly([[tuple(p) for p in r] for r in rings], kind)
    shp, shx = env.BytesIO(), env.BytesIO()
    w.saveShp(shp)
    return m.Reader(shp=shp).shape(0)


@case("H05", quick=[dict(kind=k, parts=p) for k in (3, 13, 23) for p in ([2], [2, 3], [1, 1, 2])] + [dict(kind=k, parts=p) for k in (8, 18, 28) for p in ([1], [3])] + [dict(kind=k, parts=[1]) for k in SINGLE], **OPT)
def geojson(env, kind, parts):
    rings = [[tuple(vertex(env, "%d_%d" % (i, j), 2)) for j in range(n)] for i, n in enumerate(parts)]
    g = make_shape(env, kind, rings).__geo_interface__
    if kind in SINGLE:
        want = ("Point", rings[0][0])
    elif kind in (8, 18, 28):
        want = ("MultiPoint", tuple(rings[0]))
    elif len(rings) == 1:
        want = ("LineString", tuple(rings[0]))
    else:
        want = ("MultiLineString", tuple(map(tuple, rings)))
    env.check_eq(sorted(g), ["coordinates", "type"], "a GeoJSON geometry")
    env.check_eq(g["type"], want[0], "the kind of geometry")
    env.check_eq(tup(g["coordinates"]), want[1], "the coordinates of the shape")


def tup(x):
    return tuple(tup(v) for v in x) if isinstance(x, (list, tuple)) else x


@case("H05", quick=[dict(kind=k, parts=p) for k in (5, 15) for p in (1, 2, 3)] + [dict(kind=25, parts=2)], thorough=[dict(kind=k, parts=4) for k in (5, 15, 25)], nl=True, **OPT)
def polygons(env, kind, parts):
    """Clockwise rings start a polygon, the others are its holes."""
    rings = []
    for i in range(parts):
        x, y, dx, dy = env.real("x%d" % i, -100, 100), env.real("y%d" % i, -100, 100), env.real("dx%d" % i, 1, 9), env.real("dy%d" % i, 1, 9)
        r = [(x, y), (x, y + dy), (x + dx, y), (x, y)]
        if i and env.flag("hole%d" % i):
            r.reverse()
        rings.append(r)
    g = make_shape(env, kind, rings).__geo_interface__
    env.check_eq(sorted(g), ["coordinates", "type"], "a GeoJSON geometry")
    polys = []
    for i, r in enumerate(rings):
        if ring_area(r) < 0 or not polys:
            polys.append([])
        polys[-1].append(tuple(r))
    want = tup(polys)
    if len(polys) == 1:
        env.check_eq(g["type"], "Polygon", "one polygon")
        env.check_eq(tup(g["coordinates"]), want[0], "its rings")
    else:
        env.check_eq(g["type"], "MultiPolygon", "several polygons")
        env.check_eq(tup(g["coordinates"]), want, "their rings")


# ---------------------------------------------------------------- files, editing, conversion


@case("H06", quick=[dict(kind=k, shapes=s) for k in MULTI for s in ([[2]],)] + [dict(kind=k, shapes=[[1], None]) for k in SINGLE] + [dict(kind=5, shapes=[None, [2, 2]]), dict(kind=15, shapes=[[2], [3]])],
      thorough=[dict(kind=k, shapes=[[2, 3], None, [1], [4]]) for k in MULTI], **OPT)
def edited(env, kind, shapes):
    """A shapefile opened for editing and saved again, with more shapes or without, keeps what it had."""
    m = env.mod("shapefile")
    w = m.Writer(kind)
    w.field("a", "N", 4)
    w.field("b", "C", 3)
    want, rows = [], []
    for i, s in enumerate(shapes):
        want.append(draw(env, w, i, kind, s, 4))
        rows.append([env.int("a%d" % i, 10, 99), "u%d" % i])
        w.record(*rows[-1])
    first, last = env.path("first"), env.path("last")
    ext = env.choice("extension", ["", ".shp", ".dbf"])
    w.save(first + ext)
    e = m.Editor(first + ext)
    if env.flag("one more"):
        want.append(add(env, m, e, len(want), kind))
        rows.append([7, "new"])
        e.record(*rows[-1])
    e.save(last)
    e.save(last)
    for f, n in ((first, len(shapes)), (last, len(want))):
        r = m.Reader(f)
        env.check_eq([tuple(x)[:3] for x in r.fields[1:]], [("a", "N", 4), ("b", "C", 3)], "fields are kept")
        env.check_eq(r.records(), rows[:n], "records are kept")
        got = r.shapes()
        env.check_eq(len(got), n, "shapes are kept")
        for s, t in zip(got, want):
            compare(env, s, t)


def add(env, m, e, i, kind):
    if kind in SINGLE:
        p = vertex(env, "new", 4)
        m.Writer.point(e, *p)
        return kind, [], [p]
    return draw(env, e, i, kind, [2], 4)


@case("H06", quick=[dict(lens=s) for s in ([[3]], [[2, 3]], [[2], [1, 2]])], thorough=[dict(lens=s) for s in ([[4, 3]], [[2], [2], [3, 2]])], ticks=20000, timeout=20000)
def converted(env, lens):
    """Data sets made from a shapefile have the entities, parts and vertices of its shapes."""
    from harness.pformat import stub_error_metric
    stub_error_metric(env)
    m, pf = env.mod("shapefile"), env.mod("pf")
    w = m.Writer(5)
    w.field("n", "C", 6)
    w.field("other", "N", 2)
    ents = []
    for i, parts in enumerate(lens):
        polys = []
        for j, n in enumerate(parts):
            # distinct columns, as rings are given open
            polys.append([(env.real("x%d_%d_%d" % (i, j, k), -180 + 40 * (3 * j + k), -150 + 40 * (3 * j + k)),
                           env.real("y%d_%d_%d" % (i, j, k), -90, 90)) for k in range(n)])
        name = env.str("name%d" % i, 2, chars="ab")
        w.poly([list(p) for p in polys])
        w.record(name, i)
        ents.append((name, polys))
    size = env.choice("size", [1, 4])
    w.save(env.path("s"))
    a, b = env.path("a.pf"), env.path("b.pf")
    errs = pf.sf2pf(env.path("s"), a, lambda rec: rec[0], **({} if size == 4 else dict(size=size)))
    d = pf.Writer(b, size)
    for name, polys in ents:
        d.write(name, polys)
    env.check_eq(len(errs), len(d.close()), "one reported error per vertex")
    ra, rb = pf.Reader(a), pf.Reader(b)
    env.check_eq(ra.names, [n for n, _ in ents], "entities are named after their records")
    env.check_eq(ra.size, size, "coordinates take the space asked for")
    for i in range(len(ents)):
        x, y = ra.read(i), rb.read(i)
        env.check_eq([len(p) for p in x], lens[i], "parts and vertices are kept")
        for p, q in zip(x, y):
            for s, t in zip(p, q):
                env.check(env.And(s[0] == t[0], s[1] == t[1]), "vertices are kept")


# ---------------------------------------------------------------- files made by others


def record_bytes(env, i, kind, parts, withm, extra):
    """(content of a record made after the specification alone, what is to be read)."""
    if parts is None:
        return struct.pack("<i", 0), (0, [], []), None
    pts, out = [], b""
    nodata = []
    for j, n in enumerate(parts):
        for k in range(n):
            p = vertex(env, "%d_%d_%d" % (i, j, k), 4)
            p[3] = env.real("measure%d_%d_%d" % (i, j, k), -9 * 10 ** 37, 10 ** 38)
            if kind not in SINGLE and env.flag("no measure %d_%d_%d" % (i, j, k)):
                p[3] = env.real("nodata%d_%d_%d" % (i, j, k), -10 ** 40, -2 * 10 ** 38)
                env.assume(env.Or(p[3] <= -2 * 10 ** 39, p[3] >= -9 * 10 ** 38))   # not where rounding decides
                nodata.append(len(pts))
            pts.append(p)
    starts = [sum(parts[:j]) for j in range(len(parts))]
    types = [j % 6 for j in range(len(parts))]
    box = [env.real("%s of shape %d" % (b, i), -1000, 1000) for b in ("x0", "y0", "x1", "y1")]
    out += struct.pack("<i", kind)
    if kind in SINGLE:
        out += struct.pack("<2d", *pts[0][:2])
        if kind in HASZ:
            out += struct.pack("<d", pts[0][2])
        if kind in HASM:
            out += struct.pack("<d", pts[0][3])
    else:
        out += struct.pack("<4d", *box)
        if kind in PARTS:
            out += struct.pack("<i", len(parts))
        out += struct.pack("<i", len(pts))
        if kind in PARTS:
            out += struct.pack("<%di" % len(starts), *starts)
        if kind == 31:
            out += struct.pack("<%di" % len(types), *types)
        for p in pts:
            out += struct.pack("<2d", *p[:2])
        if kind in HASZ:
            out += struct.pack("<2d", 0, 1) + struct.pack("<%dd" % len(pts), *[p[2] for p in pts])
        if kind in HASM and withm:
            out += struct.pack("<2d", 2, 3) + struct.pack("<%dd" % len(pts), *[p[3] for p in pts])
    want = [p[:3] + [None if k in nodata else p[3]] for k, p in enumerate(pts)]
    return out + b"\0" * extra, (kind, starts, want, types), box


@case("H07", quick=[dict(kind=k, shapes=s, extra=x) for k in MULTI for s, x in (([[2]], 0), ([[1], None, [1]], 8))] + [dict(kind=k, shapes=[[1], None, [1]], extra=x) for k in SINGLE for x in (0, 6)]
      + [dict(kind=k, shapes=[[1, 1]], extra=0) for k in PARTS],
      thorough=[dict(kind=k, shapes=s, extra=x) for k in MULTI for s, x in (([[3]], 4), ([[2, 1], None, [1, 1]], 2))], **OPT)
def foreign(env, kind, shapes, extra):
    """Files written after the specification by another program are read."""
    m = env.mod("shapefile")
    withm = kind not in HASM or kind in SINGLE or env.flag("measures")
    body, index, wants, boxes = b"", b"", [], []
    for i, s in enumerate(shapes):
        b, w, box = record_bytes(env, i, kind, s, withm, extra)
        index += struct.pack(">2i", (100 + len(body)) // 2, len(b) // 2)
        body += struct.pack(">2i", env.int("number of record %d" % i, 0, 2 ** 31 - 1), len(b) // 2) + b
        wants.append(w)
        boxes.append(box)
    head = [env.real("header %d" % i, -1000, 1000) for i in range(8)]
    told = env.choice("length of the file in its header", ["right"] if extra else ["left at the header", "too large"])

    def header(n, told="right"):
        n = {"right": n, "left at the header": 0, "too large": n + 5000}[told]
        return struct.pack(">7i", 9994, 0, 0, 0, 0, 0, (100 + n) // 2) + struct.pack("<2i", 1000, kind) + struct.pack("<8d", *head)
    shp, shx = env.BytesIO(header(len(body), told) + body), env.BytesIO(header(len(index)) + index)
    way = env.choice("way", ["all", "one by one", "index", "without index"])
    r = m.Reader(shp=shp) if way == "without index" else m.Reader(shp=shp, shx=shx)
    env.check_eq(r.shapeType, kind, "the type of the file")
    env.check_eq(list(r.bbox), head[:4], "the box of the file")
    env.check_eq(list(r.elevation), head[4:6], "the elevations of the file")
    env.check_eq(list(r.measure), head[6:], "the measures of the file")
    n = len(shapes)
    got = r.shapes() if way == "all" else list(r.iterShapes()) if way == "one by one" else [r.shape(i) for i in range(n)]
    env.check_eq(len(got), n, "every shape is read")
    for s, (t, starts, ps, *types), box in zip(got, wants, boxes):
        if withm or t not in HASM:
            compare(env, s, (t, starts, ps) + tuple(types))
        else:
            env.check_eq([list(p) for p in s.points], [p[:2] for p in ps], "points keep their coordinates")
            if t in HASZ:
                env.check_eq(list(s.z), [p[2] for p in ps], "points keep their elevations")
        if t and t not in SINGLE:
            env.check_eq(list(s.bbox), box, "the box of the shape")


@case("H07", quick=[dict(kinds=k) for k in ("C", "N", "E", "F", "L", "D", "CN", "FL", "ND")], thorough=[dict(kinds=k) for k in ("CC", "DL", "CF")], **OPT)
def foreign_table(env, kinds):
    """Attributes in a dbf file of another program."""
    m = env.mod("shapefile")
    spec = {"C": ("C", 6, 0), "N": ("N", 6, 0), "E": ("N", 9, 3), "F": ("F", 13, 4), "L": ("L", 1, 0), "D": ("D", 8, 0)}
    size = 1 + sum(spec[k][1] for k in kinds)
    pad = env.choice("padding", [b"", b"\0"])
    rows = 2 if kinds in "NELF" else 1
    out = struct.pack("<4BLHH20x", 3, 99, 1, 1, rows, 33 + 32 * len(kinds) + len(pad), size)
    for j, k in enumerate(kinds):
        t, n, d = spec[k]
        out += struct.pack("<11sc4xBB14x", b"FIELD%d" % j, t.encode(), n, d)
    out += b"\r" + pad
    want = []
    for i in range(rows):
        out += b" "
        row = []
        for j, k in enumerate(kinds):
            tag = "%d%d" % (i, j)
            n = spec[k][1]
            if k == "C":
                v = env.str("text" + tag, env.num("length" + tag, 0, 3 if len(kinds) == 1 else 1), chars="a\u00e9 ")
                row.append(v.strip())
                text = v
            elif k in "NEF":
                text = env.choice("number" + tag, {"N": ["-12", "0", "123456", "", "+7"], "E": ["-1.500", ".25", "12345.678", "", "7"], "F": ["1.2500e+000", "-3.75", "0", "", "12"]}[k])
                row.append("" if text == "" else int(text) if k == "N" else float(text))
                text = env.choice("side" + tag, [text.rjust(n), text.ljust(n)])
            elif k == "L":
                text = env.choice("logical" + tag, list("YyTtNnFf? "))
                row.append({"Y": "T", "T": "T", "N": "F", "F": "F", "?": "?", " ": ""}[text.upper()])
            else:
                y, mo, d = env.int("y" + tag, 1, 9999), env.int("m" + tag, 1, 12), env.int("d" + tag, 1, 31)
                text = "%04d%02d%02d" % (y, mo, d)
                row.append([y, mo, d])
            out += text.encode("utf-8").ljust(n)
        want.append(row)
    if env.flag("end mark"):
        out += b"\x1a"
    r = m.Reader(dbf=env.BytesIO(out))
    env.check_eq([tuple(f) for f in r.fields[1:]], [("FIELD%d" % j,) + spec[k] for j, k in enumerate(kinds)], "fields are read")
    way = env.choice("way", WAYS)
    if way == "all":
        got = r.records()
    elif way == "one by one":
        got = list(r.iterRecords())
    else:
        got = [r.record(i if way == "index" else i - rows) for i in range(rows)]
    env.check_eq(len(got), rows, "every record is read")
    for a, b in zip(got, want):
        env.check_eq(len(a), len(b), "every value is read")
        for x, y in zip(a, b):
            env.check_eq(x, y, "values are read")


@case("H07", quick=[dict()], **OPT)
def reloaded(env):
    """A reader made before its shapefile, and used for one after another, reads each."""
    m = env.mod("shapefile")
    paths, wants = [], []
    for k, (kind, n, names) in enumerate([(1, 2, "ab"), (5, 1, "c")]):
        w = m.Writer(kind)
        for f in names:
            w.field(f, "N", 3 + k)
        rows = [[env.int("v%d%d%d" % (k, i, j), 0, 99) for j in range(len(names))] for i in range(n)]
        want = [draw(env, w, 10 * k + i, kind, [1] if kind in SINGLE else [2, 2], 2) for i in range(n)]
        for row in rows:
            w.record(*row)
        paths.append(env.path("file%d" % k))
        w.save(paths[-1])
        wants.append((names, rows, want))
    r = m.Reader() if env.flag("empty first") else m.Reader(paths[env.num("first", 0, 1)])
    for turn, k in enumerate(env.choice("order", [(0, 1), (1, 0), (0, 1, 0)])):
        r.load(paths[k])
        names, rows, want = wants[k]
        env.check_eq([f[0] for f in r.fields[1:]], list(names), "the fields of the file loaded last")
        if env.flag("by index %d" % turn):
            env.check_eq([r.record(i) for i in range(len(rows))], rows, "the records of the file loaded last")
            got = [r.shape(i) for i in range(len(rows))]
        else:
            env.check_eq(r.records(), rows, "the records of the file loaded last")
            got = r.shapes()
        env.check_eq(len(got), len(want), "the shapes of the file loaded last")
        for s, t in zip(got, want):
            compare(env, s, t)


# ---------------------------------------------------------------- editing


@case("H08", quick=[dict(kind=k, n=n, ops=o) for k in (1, 11, 21) for n, o in ((2, 1), (1, 2))] + [dict(kind=1, n=0, ops=2), dict(kind=1, n=3, ops=2)],
      thorough=[dict(kind=k, n=2, ops=2) for k in (11, 21)] + [dict(kind=1, n=n, ops=3) for n in (1, 2)] + [dict(kind=1, n=1, ops=4)], **OPT)
def history(env, kind, n, ops):
    """Points are added and deleted with their records."""
    m = env.mod("shapefile")

    def fresh(tag, dims=4):
        return vertex(env, tag, dims) + [0] * (4 - dims), env.int("a" + tag, 10, 99)
    points, values = [], []
    if n:
        w = m.Writer(kind)
        w.field("a", "N", 4)
        for i in range(n):
            p, a = fresh(str(i))
            w.point(*p)
            w.record(a)
            points.append(p)
            values.append(a)
        w.save(env.path("s"))
        e = m.Editor(env.path("s"))
    else:
        e = m.Editor(shapeType=kind)
        e.field("a", "N", 4)

    def balance():
        size = max(len(points), len(values))
        points.extend([None] * (size - len(points)))
        values.extend([""] * (size - len(values)))
    for k in range(ops):
        op = env.choice("op%d" % k, ["point and record", "record and point", "point", "record"] + ["delete"] * (len(points) + len(values) > 0))
        if op == "delete":
            balance()
            i = env.num("index%d" % k, -len(points), len(points) - 1)
            e.delete(i) if env.flag("by position %d" % k) else e.delete(shape=i)
            del points[i], values[i]
            continue
        dims = env.num("dims%d" % k, 2, 4) if ops == 1 else max(2, 4 - k)
        p, a = fresh("new%d" % k, dims)
        steps = [lambda: e.point(*p[:dims]), lambda: e.record(a)]
        if op == "record and point":
            steps.reverse()
        elif op == "point":
            del steps[1]
        elif op == "record":
            del steps[0]
        for s in steps:
            s()
        if op != "record":
            points.append(p)
        if op != "point":
            values.append(a)
    balance()
    env.assume(len(points) > 0)
    e.save(env.path("t"))
    r = m.Reader(env.path("t"))
    env.check_eq(r.records(), [[a] for a in values], "every shape keeps its record")
    got = r.shapes()
    env.check_eq(len(got), len(points), "shapes are those added and not deleted")
    for s, p in zip(got, points):
        compare(env, s, (kind, [], [p]) if p else (0, [], []))


@case("H08", quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=4)], **OPT)
def edited_deleted(env, n):
    """Editing a file with deleted records drops their shapes too."""
    m = env.mod("shapefile")
    w = m.Writer(8)
    w.field("a", "N", 4)
    want = []
    for i in range(n):
        want.append((draw(env, w, i, 8, [2], 2), env.int("a%d" % i, 10, 99)))
        w.record(want[-1][1])
    dbf = env.BytesIO()
    w.saveDbf(dbf)
    left = []
    for i in range(n):
        if env.flag("gone%d" % i):
            dbf.seek(32 + 32 + 1 + 5 * i)
            dbf.write(b"*")
        else:
            left.append(want[i])
    dbf.seek(0)
    w.save(env.path("s"))
    with open(env.path("s.dbf"), "wb") as f:
        f.write(dbf.read())
    e = m.Editor(env.path("s"))
    e.save(env.path("t"))
    r = m.Reader(env.path("t"))
    env.check_eq(r.records(), [[a] for t, a in left], "records that are not deleted are kept")
    got = r.shapes()
    env.check_eq(len(got), len(left), "their shapes are kept")
    for s, (t, a) in zip(got, left):
        compare(env, s, t)
