"""Field codecs (coral/grid.py) and RangeGrid data sets (coral/rg.py)."""
import struct

from symx.cases import case


@case("G01", ticks=600)
def ivar(env):
    g = env.mod("grid")
    lo = env.int("lo", -2 ** 62, 2 ** 62)
    hi = env.int("hi", -2 ** 62, 2 ** 62)
    env.assume(lo < hi)
    nullable = env.flag("nullable")
    f = g.IVar("n", lo, hi, nullable)
    v = env.int("v", -2 ** 62, 2 ** 62)
    env.assume(env.And(lo <= v, v <= hi))
    data = f.encode(v)
    env.check_eq(len(data), f.size, "the code has the declared size")
    env.check_eq(f.decode(data), v, "integers are read back exactly")
    if nullable:
        null = f.encode(None)
        env.check_eq(len(null), f.size, "null has the declared size")
        env.check_eq(f.decode(null), None, "null is read back as null")
        env.check(env.Not(env.eq(null, data)), "null differs from every value")


@case("G01", ticks=600)
def ivar_size(env):
    """A field has the least of 1, 2, 4 and 8 bytes that hold its range."""
    g = env.mod("grid")
    lo = env.int("lo", -2 ** 63, 2 ** 63)
    hi = env.int("hi", -2 ** 63, 2 ** 64)
    env.assume(lo < hi)
    nullable = env.flag("nullable")
    codes = hi - lo + 1 + (1 if nullable else 0)
    try:
        size = g.IVar("n", lo, hi, nullable).size
    except ValueError:
        env.check(codes > 2 ** 64, "only ranges of more than eight bytes are refused")
        return
    env.check(env.And(codes <= 2 ** 64, env.Or(*[env.And(size == n, codes <= 256 ** n, codes > 256 ** (n // 2) if n > 1 else True) for n in (1, 2, 4, 8)])), "a field is as small as its range allows")


@case("G01", ticks=600)
def ivar_rejects(env):
    g = env.mod("grid")
    f = g.IVar("n", -5, 1000, env.flag("nullable"))
    v = env.int("v", -10 ** 6, 10 ** 6)
    bad = env.raises(AssertionError, f.encode, v)
    env.check(env.iff(bad, env.Or(v < -5, v > 1000)), "exactly the values outside the range are rejected")
    if not f.nullable:
        env.check(env.raises(AssertionError, f.encode, None), "null needs a nullable field")


RANGES = [(-180, 180), (0, 1), (-1, 99999), (0, 359), (7, 8)]


@case("G02", quick=[dict(r=r, size=s) for r in RANGES[:3] for s in (1, 2, 4, 8)],
      thorough=[dict(r=r, size=s) for r in RANGES for s in (1, 2, 4, 8)], ticks=600)
def fvar(env, r, size):
    g = env.mod("grid")
    lo, hi = r
    nullable = env.flag("nullable")
    f = g.FVar("n", lo, hi, size, nullable)
    v = env.real("v", lo, hi)
    data = f.encode(v)
    env.check_eq(len(data), size, "the code has the declared size")
    d = f.decode(data)
    env.observe("d", d)
    steps = 256 ** size - 1 - (1 if nullable else 0)
    env.le(abs(d - v), env.frac(hi - lo, 2 * steps), "a real is off by at most half a step of the field")
    env.check(env.And(d >= lo, d <= hi), "decoded values stay in the range")
    if nullable:
        null = f.encode(None)
        env.check_eq(f.decode(null), None, "null is read back as null")
        env.check(env.Not(env.eq(null, data)), "null differs from every value")
    if size == 1:
        w = env.real("w", lo, hi)
        e = f.decode(f.encode(w))
        env.check(env.implies(v <= w, env.fle(d, e)), "encoding preserves order")


@case("G02", ticks=600)
def fvar_ends(env):
    g = env.mod("grid")
    lo = env.int("lo", -10 ** 6, 10 ** 6)
    hi = env.int("hi", -10 ** 6, 10 ** 6)
    env.assume(lo < hi)
    size = env.choice("size", [1, 2, 4, 8])
    f = g.FVar("n", lo, hi, size, env.flag("nullable"))
    env.near(f.decode(f.encode(lo)), lo, "the lower limit is exact")
    env.near(f.decode(f.encode(hi)), hi, "the upper limit is exact")
    for v in (lo - 1, hi + 1):
        env.check(env.raises(AssertionError, f.encode, v), "values outside the range are rejected")


@case("G03", quick=[dict(n=n, size=s) for n in (0, 1, 2) for s in (2, 5, 8)],
      thorough=[dict(n=n, size=s) for n in (0, 1, 2, 3) for s in (3, 5, 12)], ticks=2000)
def svar(env, n, size):
    g = env.mod("grid")
    nullable = env.flag("nullable")
    f = g.SVar("n", size, nullable)
    s = env.str("s", n, alphabet="any")
    if n and env.flag("begins with a null character"):
        s = "\0" + s
    k = len(s.encode("utf8"))
    if k > size:
        env.check(env.raises(AssertionError, f.encode, s), "text that does not fit is rejected")
        return
    data = f.encode(s)
    env.check_eq(len(data), size, "the code has the declared size")
    env.check_eq(f.decode(data), s, "text is read back")
    if nullable:
        null = f.encode(None)
        env.check_eq(f.decode(null), None, "null text is read back as null")
        env.check(env.Not(env.eq(null, data)), "null differs from every text")


@case("G03", ticks=2000)
def grow(env):
    g = env.mod("grid")
    fields = [g.IVar("i", -3, 300, True), g.SVar("s", 3), g.FVar("x", 0, 10, 2), g.IVar("j", 0, 200)]
    k = env.num("rot", 0, 3)
    fields = fields[k:] + fields[:k]
    row = g.GRow(*fields)
    vals = dict(i=env.int("i", -3, 300), s=env.str("s", 2), x=env.real("x", 0, 10), j=env.int("j", 0, 200))
    if env.flag("null i"):
        vals["i"] = None
    data = row.encode(*[vals[f.name] for f in fields])
    env.check_eq(len(data), row.size, "a row has the size of its fields")
    env.check_eq(len(row), 4, "a row has one column per field")
    out = row.decode(data)
    for f, v in zip(fields, out):
        if f.name == "x":
            env.le(abs(v - vals["x"]), env.frac(5, 65535), "real columns keep their precision")
        else:
            env.check_eq(v, vals[f.name], "columns are read back independently")


@case("G04", quick=[dict(shape=s, ids=i) for i, s in ((False, [[1]]), (True, [[2], [1]]), (True, [[1, 1], [], [2]]), (False, [[1], [0, 2], [1]]))],
      thorough=[dict(shape=s, ids=i) for i in (False, True) for s in ([[1]], [[2], [1]], [[1, 1], [], [2]], [[1], [0, 2], [1]], [[3], [], [], [1, 1, 1]])], ticks=4000)
def dataset(env, shape, ids):
    """Every entity written is read back, in any order, by id and in sequence."""
    rg = env.mod("rg")
    g = env.mod("grid")
    row = rg.GRow(rg.IVar("n", -70000, 70000, True), rg.SVar("s", 2, True), rg.FVar("x", -180, 180, 4))
    path = env.path("data")
    w = rg.Writer(path, row)
    ents = []
    for i, segs in enumerate(shape):
        data = [[(env.int("n%d_%d_%d" % (i, j, k), -70000, 70000), env.choice("s%d_%d_%d" % (i, j, k), ["", "é", None]) if i == j == k == 0 else "ab",
                  env.real("x%d_%d_%d" % (i, j, k), -180, 180)) for k in range(n)] for j, n in enumerate(segs)]
        ents.append(data)
        if ids:
            w.write(data, "id %d" % (7 * i))
        else:
            w.write(data)
    w.close()
    with open(path + ".rg", "rb") as f:
        env.check_eq(f.read(8), b"RG\x01\x03" + struct.pack("I", sum(n for segs in shape for n in segs)), "the header tells the numbers of columns and rows")
    r = rg.Reader(path)
    env.check_eq([type(f).__name__ for f in r.row.fields], ["IVar", "SVar", "FVar"], "column types are stored")
    env.check_eq([f.name for f in r.row.fields], ["n", "s", "x"], "column names are stored")
    env.check_eq([bool(f.nullable) for f in r.row.fields], [True, True, False], "nullability is stored")
    env.check_eq([f.size for f in r.row.fields], [f.size for f in row.fields], "column sizes are stored")
    env.check_eq([(f.minv, f.maxv) for f in r.row.fields if hasattr(f, "minv")], [(-70000, 70000), (-180, 180)], "ranges are stored")
    n = len(ents)
    for step in range(3):
        # the cursor moves to any entity by id, then continues sequentially
        how = env.num("read%d" % step, -1, n - 1)
        if how < 0:
            if step and cur == n:
                how = 0
                cur = 0
                got = r.read("id %d" % (7 * cur) if ids else cur)
            elif not step:
                cur = 0
                got = r.read()
            else:
                got = r.read()
        else:
            cur = how
            got = r.read("id %d" % (7 * cur) if ids else cur)
        want = ents[cur]
        env.check_eq([len(s) for s in got], [len(s) for s in want], "segments and row counts survive")
        for gs, ws in zip(got, want):
            for a, b in zip(gs, ws):
                env.check_eq(a[0], b[0], "integers are read back exactly")
                env.check_eq(a[1], b[1], "texts are read back")
                env.le(abs(a[2] - b[2]), env.frac(180, 2 ** 32 - 1), "reals keep the field's precision")
                env.check_eq(a.n, b[0], "rows are addressable by column name")
        cur += 1
    env.check(env.raises(KeyError, r.read, "no such id"), "an unknown id is reported")
    r.close()


@case("G04", ticks=4000)
def header_ranges(env):
    rg = env.mod("rg")
    path = env.path("d")
    lo = env.int("lo", -2 ** 40, 2 ** 40)
    hi = env.int("hi", -2 ** 40, 2 ** 40)
    env.assume(lo < hi)
    nl = env.flag("nullable")
    fld = rg.IVar("c", lo, hi, nl) if env.flag("integer") else rg.FVar("c", lo, hi, 2, nl)
    w = rg.Writer(path, rg.GRow(fld))
    v = env.int("v", -2 ** 40, 2 ** 40)
    env.assume(env.And(lo <= v, v <= hi))
    w.write([[(v,)]])
    w.close()
    r = rg.Reader(path)
    f = r.row.fields[0]
    env.check_eq((f.minv, f.maxv, bool(f.nullable), f.size), (lo, hi, nl, fld.size), "any integer range is stored in the header")


@case("G04", quick=[dict(shape=s, cols=c) for s, c in (([[300], [2]], 1), ([[1]], 254), ([[2, 1]] * 140, 2), ([[1] * 270, [3]], 2), ([[1], [2]] + [[1]] * 260, 1))],
      thorough=[dict(shape=s, cols=c) for s, c in (([[70000], [2]], 1), ([[1]], 129), ([[2, 1]] * 3000, 2))], ticks=10 ** 7)
def large(env, shape, cols):
    """Counts and sizes that take several bytes."""
    rg = env.mod("rg")
    row = rg.GRow(rg.SVar("text", 130, True), *[rg.IVar("c%d" % i, -i, 10 ** 5 + i) for i in range(cols)])
    path = env.path("data")
    w = rg.Writer(path, row)
    ents = []
    last = len(shape) - 1
    for i, segs in enumerate(shape):
        data = [[("t%d" % k, ) + tuple((7 * k + 3 * j + i + c) % 1000 for c in range(cols)) for k in range(n)] for j, n in enumerate(segs)]
        if i == last:
            data[-1][-1] = (env.str("text", 1) * 130,) + tuple(env.int("v%d" % c, -c, 10 ** 5 + c) if c < 2 else c for c in range(cols))
        ents.append(data)
        w.write(data, "entity %d" % i)
    w.close()
    r = rg.Reader(path)
    env.check_eq([(f.name, f.size) for f in r.row.fields], [(f.name, f.size) for f in row.fields], "columns are stored")
    for i in ([last, 0, last // 2, last] if env.flag("backwards") else [0, last]):
        got = r.read("entity %d" % i)
        env.check_eq([len(s) for s in got], shape[i], "segments and row counts survive")
        for gs, ws in zip(got, ents[i]):
            for k in sorted(set([0, 127, 128, len(ws) // 2, len(ws) - 1])):
                if k < len(ws):
                    env.check_eq(tuple(gs[k]), ws[k], "rows are read back from their own place")
        if i < last:
            nxt = r.read()
            env.check_eq([len(s) for s in nxt], shape[i + 1], "reading goes on with the next entity")
    r.close()
