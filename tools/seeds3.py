from seedlib import main
B = []
def bug(id, prop, edits, demo, needs, breaks):
    if isinstance(edits, tuple): edits = [edits]
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

SHP = """
import io, struct
from coral import shapefile
def header(n, kind):
    return struct.pack(">7i", 9994, 0, 0, 0, 0, 0, n) + struct.pack("<2i8d", 1000, kind, *range(8))
def poly(kind, pts, z=(), m=()):
    b = struct.pack("<i4d3i", kind, 0, 0, 9, 9, 1, len(pts), 0)
    for p in pts: b += struct.pack("<2d", *p)
    for v in z, m:
        if v: b += struct.pack("<2d%dd" % len(v), 0, 0, *v)
    return b
def record(b, i=1):
    return struct.pack(">2i", i, len(b) // 2) + b
"""

bug("shp-trusts-header", "H07", ("coral/shapefile.py", "        shp.seek(0,2)\n        self.shpLength = shp.tell()\n        shp.seek(100)\n        while shp.tell() < self.shpLength:\n            yield", "        if self.shpLength is None:\n            shp.seek(0,2)\n            self.shpLength = shp.tell()\n        shp.seek(100)\n        while shp.tell() < self.shpLength:\n            yield"), SHP + """
body = record(poly(3, [(1, 2), (3, 4)])) * 2
for told in (50 + len(body) // 2, 50):
    r = shapefile.Reader(shp=io.BytesIO(header(told, 3) + body))
    n = len(list(r.iterShapes()))
    assert n == 2, (told, n)
""", "a shapefile whose header tells a wrong length", "shapes past the length told in the header are not served")

bug("shp-record-slack", "H07", ("coral/shapefile.py", "        f.seek(next)\n        return record", "        if shapeType == 0:\n            f.seek(next)\n        return record"), SHP + """
for slack in (0, 6):
    body = b"".join(record(poly(5, [(i, 2), (3, 4)]) + b"\\0" * slack) for i in range(3))
    r = shapefile.Reader(shp=io.BytesIO(header(50 + len(body) // 2, 5) + body))
    assert [list(s.points[0]) for s in r.shapes()] == [[0, 2], [1, 2], [2, 2]]
""", "records longer than their content", "the shapes after such a record are misread")

bug("shp-measure-limit", "H07", ("coral/shapefile.py", "                if m >= -1e38:", "                if m > -1e30:"), SHP + """
body = record(poly(23, [(1, 2), (3, 4)], m=(-2e35, 5)))
r = shapefile.Reader(shp=io.BytesIO(header(50 + len(body) // 2, 23) + body))
assert r.shape(0).m == [-2e35, 5], r.shape(0).m
""", "a measure between -10^38 and -10^30", "valid measures are lost")

bug("dbf-logical-lower", "H07", ("coral/shapefile.py", "                                        (value in self.b('NnFf') and 'F') or '?'", "                                        (value in self.b('NF') and 'F') or '?'"), """
import io, struct
from coral import shapefile
d = struct.pack("<4BLHH20x", 3, 99, 1, 1, 2, 65, 2) + struct.pack("<11sc4xBB14x", b"OK", b"L", 1, 0) + b"\\r n N"
r = shapefile.Reader(dbf=io.BytesIO(d))
assert r.records() == [["F"], ["F"]], r.records()
""", "logical values written in lower case", "false values are read as unknown")

bug("editor-balance-nulls", "H08", ("coral/shapefile.py", "            self.null()\n", "            self._shapes.insert(0, _Shape(NULL))\n"), """
import os, tempfile
from coral import shapefile
with tempfile.TemporaryDirectory() as d:
    e = shapefile.Editor(shapeType=1)
    e.field("A", "N", 4)
    e.point(1, 2)
    e.record(7)
    e.record(8)
    e.save(os.path.join(d, "x"))
    r = shapefile.Reader(os.path.join(d, "x"))
    assert [s.shapeType for s in r.shapes()] == [1, 0], [s.shapeType for s in r.shapes()]
    for f in r.shp, r.shx, r.dbf: f.close()
""", "an editor with more records than shapes", "shapes are paired with the records of others")

bug("editor-point-shift", "H08", ("coral/shapefile.py", "            Writer.point(self, x, y, z or 0, m or 0)", "            Writer.point(self, x, y, z or 0, m or z or 0)"), """
import os, tempfile
from coral import shapefile
with tempfile.TemporaryDirectory() as d:
    e = shapefile.Editor(shapeType=11)
    e.field("A", "N", 4)
    e.point(1, 2, 5)
    e.save(os.path.join(d, "x"))
    r = shapefile.Reader(os.path.join(d, "x"))
    assert list(r.shape(0).z) == [5] and list(r.shape(0).m) == [0], list(r.shape(0).m)
    for f in r.shp, r.shx, r.dbf: f.close()
""", "a point with an elevation and no measure", "the elevation is stored as the measure")

bug("writer-closes-shared", "H01", ("coral/shapefile.py", "                    if part[0] != part[-1]:", "                    if part[0][0] != part[-1][0]:"), """
import io
from coral import shapefile
w = shapefile.Writer(5)
w.field("A")
w.poly([[[0, 0], [2, 0], [2, 2], [0, 2]]])
w.record("x")
assert w.shape(0).points[0] == w.shape(0).points[-1], w.shape(0).points
""", "a ring whose last point has the abscissa of the first", "rings are left open")

bug("writer-offset-words", "H02", ("coral/shapefile.py", "            length = (finish - start) // 2\n", "            length = (finish - start) // 2 & 0xffff\n"), """
import io
from coral import shapefile
s, x, d = io.BytesIO(), io.BytesIO(), io.BytesIO()
w = shapefile.Writer(3)
w.field("A")
for n in 2, 9000, 3:
    w.line([[[i, i % 7] for i in range(n)]])
    w.record("a")
w.save(shp=s, shx=x, dbf=d)
r = shapefile.Reader(shp=s)
assert [len(q.points) for q in r.shapes()] == [2, 9000, 3]
""", "a shape of more than 131072 bytes", "the shapes after it cannot be read")

bug("animation-names", "X06", ("coral/vector.py", "        fmt = os.path.join(folder, \"{{:0{}}}.png\".format(length))", "        fmt = os.path.join(folder, \"{{:0{}}}.png\".format(length))\n        delay = delay or 10"), """
from coral import vector
import subprocess
calls = []
real = subprocess.call
vector.subprocess.call = lambda cmd, **kw: calls.append(cmd) or 0
vector.Canvas.export = lambda self, path, *a, **k: 0
import coral.tqdm
vector.tqdm.tqdm = lambda it, **kw: it
c = vector.Canvas()
c.addcircle((0, 0), 1)
vector.animation("x.gif", [c], 0)
assert "-delay 0 " in calls[-1], calls
""", "a delay of zero", "an animation without delay gets the default one")

bug("animation-first-box", "X06", ("coral/vector.py", "        bb = bb.scale(1.05)\n", "        bb = bb.scale(1.05) if n > 1 else bb\n"), """
from coral import vector
vector.subprocess.call = lambda cmd, **kw: 0
boxes = []
vector.Canvas.export = lambda self, path, *a, **k: boxes.append(self.bbox) or 0
vector.tqdm.tqdm = lambda it, **kw: it
c = vector.Canvas()
c.addcircle((0, 0), 10)
vector.animation("x.gif", [c])
assert boxes[0].x0 < -10 and boxes[0].x1 > 10, vars(boxes[0])
""", "an animation of one frame", "the frame is cut without the margin of the others")

bug("image-position-rounded", "X05", ("coral/vector.py", "        if position is not None:\n            self.lines.append(\"{} {} translate\".format(*position))", "        if position:\n            self.lines.append(\"{:.0f} {:.0f} translate\".format(*position))"), """
from coral import vector
c = vector.Canvas()
c.addimage(bytes(4), 2, (0.5, 0.25))
assert "0.5 0.25 translate" in c.lines, c.lines
""", "an image at a fractional position", "images are drawn at rounded positions")

bug("abbrev-extras-norm", "N05", ("coral/names.py", "            tname = tname.replace(\" {} \".format(norm(extra)), \" \")\n", "            tname = tname.replace(\" {} \".format(extra.upper()), \" \")\n"), """
from coral import names
a = names.abbreviations(["Alto à Serra Longa"], 14, ["à"])
assert a["Alto à Serra Longa"] == "ALTO SERRA LON" or " A " not in a["Alto à Serra Longa"], a
b = names.abbreviations(["Rio à Foz"], 7, ["à"])
assert b["Rio à Foz"] == "RIO FOZ", b
""", "a word with an accent to leave out", "words with accents are not left out")

bug("abbrev-initials-order", "N05", ("coral/names.py", "                ics.insert(j, ic)\n", "                ics.insert(0, ic)\n"), """
from coral import names
a = names.abbreviations(["Ax By Cz Dw"], 2)["Ax By Cz Dw"]
assert a == "AB", a
""", "a name of more words than letters in the abbreviation", "the initials of the last words are preferred to those of the first")

bug("ivar-span-null", "G01", ("coral/grid.py", "        elif delta <= SIZE_SPAN[2] - nullable:\n", "        elif delta <= SIZE_SPAN[2]:\n"), """
from coral import grid
v = grid.IVar("a", 0, 65535, True)
assert v.decode(v.encode(65535)) == 65535
assert v.decode(v.encode(None)) is None
""", "a nullable variable of exactly 65536 values", "the greatest value is read as null")

bug("svar-null-prefix", "G03", ("coral/grid.py", "        return data.decode(\"utf8\").rstrip('\\x00')\n", "        return data.decode(\"utf8\").strip('\\x00')\n"), """
from coral import grid
v = grid.SVar("a", 4)
assert v.decode(v.encode("\\0a")) == "\\0a"
""", "a string that begins with a null character", "leading characters are lost")

bug("rg-count-native", "G04", ("coral/rg.py", "            writevlv(rg, field.size)\n", "            rg.write(bytes((field.size & 0x7f,)))\n"), """
import os, tempfile
from coral import rg, grid
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x")
    w = rg.Writer(p, grid.GRow(grid.SVar("a", 130)))
    w.write([[("x" * 129,), ("y",)]])
    w.close()
    r = rg.Reader(p)
    assert [[tuple(q) for q in s] for s in r.read()] == [[("x" * 129,), ("y",)]]
    r.close()
""", "a string column of 128 bytes or more", "such files cannot be read")

bug("rg-long-segments", "G04", ("coral/rg.py", "            md.write(\" \".join(str(length) for length in elens) + '\\n')", "            md.write(\" \".join(str(length) for length in elens[:255]) + '\\n')"), """
import os, tempfile
from coral import rg, grid
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x")
    w = rg.Writer(p, grid.GRow(grid.IVar("a", 0, 9)))
    w.write([[(i % 9,)] for i in range(300)])
    w.close()
    r = rg.Reader(p)
    n = len(r.read())
    assert n == 300, n
    r.close()
""", "an entity of more than 255 segments", "the last segments are lost")

bug("pf-reader-offset", "V02", ("coral/pf.py", "            offset += sum(partlen) * self.size * 2\n", "            offset += (sum(partlen) * self.size * 2) % 65536\n"), """
import os, tempfile
from coral import pf
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.p")
    w = pf.Writer(p, 8)
    w.write("a", [[(i * 0.01, i * 0.005) for i in range(5000)]])
    w.write("b", [[(1, 2), (3, 4)]])
    w.close()
    r = pf.Reader(p)
    (q,) = r.get("b")
    assert max(abs(q[0][0] - 1), abs(q[1][1] - 4)) < 1e-3, q
    r.close()
""", "an entity that begins past 65536 bytes of data", "later entities are read from the wrong place")

bug("pf-name-prefix", "V02", ("coral/pf.py", "        return self.read(self.names.index(name))\n", "        return self.read([n.strip() for n in self.names].index(name.strip()))\n"), """
import os, tempfile
from coral import pf
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.p")
    w = pf.Writer(p, 8)
    w.write("a ", [[(10, 20), (11, 21)]])
    w.write("a", [[(1, 2), (3, 4)]])
    w.close()
    r = pf.Reader(p)
    assert abs(r.get("a")[0][0][0] - 1) < 1e-3, r.get("a")
    r.close()
""", "names that differ by blanks around them", "the polygons of another entity are returned")

bug("meter-late-updates", "Q02", ("coral/tqdm.py", "                last_print_t = cur_t\n", "                last_print_t = last_print_t + mininterval\n"), """
import io, time
from coral import tqdm
now = [0.0]
tqdm.time.time = lambda: now[0]
class F(io.StringIO):
    pass
f = F()
for i in tqdm.tqdm(range(12), file=f, mininterval=1):
    now[0] += 5 if i == 0 else 0.1
n = f.getvalue().count("\\r")
assert n <= 4, n
""", "a slow step followed by fast ones", "the meter is updated more often than the minimal interval allows")

bug("meter-total-zero", "Q02", ("coral/tqdm.py", "    if total is None:\n        try:\n            total = len(iterable)", "    if not total:\n        try:\n            total = len(iterable)"), """
import io
from coral import tqdm
f = io.StringIO()
list(tqdm.tqdm([1, 2, 3], total=0, file=f))
assert "%" not in f.getvalue(), f.getvalue()
""", "a total of zero for a list that has elements", "the total that was given is replaced by the length of the list")

bug("join-common-order", "T02", ("coral/table.py", "                d.update(r2._asdict())\n", "                d.update((k, v) for k, v in r2._asdict().items() if v)\n"), """
from collections import namedtuple
from coral import table
A = namedtuple("A", "id x"); B = namedtuple("B", "id x y")
t = table.join([A("1", "p")], [B("1", "", "q")], pivots=["id"], keys=["id", "x", "y"])
assert t[0].x == "" and t[0].y == "q", t
""", "an empty value in the second table in a column of both", "the value of the first table is kept")

bug("pprint-widest", "T04", ("coral/table.py", "        lens.append(len(max([x._asdict()[k] for x in table] + [k], key=len)))\n", "        lens.append(len(max([x._asdict()[k] for x in table[:100]] + [k], key=len)))\n"), """
import contextlib, io
from collections import namedtuple
from coral import table
R = namedtuple("R", "a b")
f = io.StringIO()
with contextlib.redirect_stdout(f):
    table.pprint([R("x", "y")] * 150 + [R("longer", "z")])
assert len(set(len(l) for l in f.getvalue().splitlines())) == 1
""", "a widest value past the first hundred rows", "columns are not aligned")
main(B)
