from seedlib import main
B = []
def bug(id, prop, edits, demo, needs, breaks):
    if isinstance(edits, tuple): edits = [edits]
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

ITER = '''for handling large shapefiles."""
        shp = self.__getFileObj(self.shp)
        shp.seek(0,2)
        self.shpLength = shp.tell()
'''
SHP = """
import io, struct
from coral import shapefile
def header(n, kind):
    return struct.pack(">7i", 9994, 0, 0, 0, 0, 0, n) + struct.pack("<2i8d", 1000, kind, *range(8))
def poly(kind, pts):
    b = struct.pack("<i4d3i", kind, 0, 0, 9, 9, 1, len(pts), 0)
    for p in pts: b += struct.pack("<2d", *p)
    return b
def record(b, i=1):
    return struct.pack(">2i", i, len(b) // 2) + b
"""
bug("shp-trusts-header", "H07", ("coral/shapefile.py", ITER, ITER.replace("        self.shpLength = ", "        self.shpLength = self.shpLength or ")), SHP + """
body = record(poly(3, [(1, 2), (3, 4)])) * 2
for told in (50 + len(body) // 2, 50):
    r = shapefile.Reader(shp=io.BytesIO(header(told, 3) + body))
    n = len(list(r.iterShapes()))
    assert n == 2, (told, n)
""", "a shapefile whose header tells a wrong length", "shapes past the length told in the header are not served")

bug("shp-second-iteration", "H01", ("coral/shapefile.py", ITER, ITER.replace("shp.tell()", "shp.tell() - 12")), """
import io
from coral import shapefile
w = shapefile.Writer(1)
w.field("a")
w.point(1, 2)
w.record("x")
w.null()
w.record("y")
f = [io.BytesIO() for _ in range(3)]
w.save(shp=f[0], shx=f[1], dbf=f[2])
r = shapefile.Reader(shp=f[0], shx=f[1], dbf=f[2])
assert [s.shapeType for s in r.shapes()] == [1, 0]
assert [s.shapeType for s in r.iterShapes()] == [1, 0]
""", "a data set that ends with a null shape, read by the iterator", "the last shape is not served")

bug("eps-definitions-once", "X03", ("coral/vector.py", "                pre.append(DEFS[key])", "                pre.append(DEFS[key])\n                self.deps.remove(key)"), """
import os, tempfile
from coral import vector
cv = vector.Canvas()
cv.addpolyline([(0, 0), (9, 9)], 0)
cv.addtext((1, 2), "t", 5, anchor="c")
with tempfile.TemporaryDirectory() as d:
    texts = []
    for n in "ab":
        cv.save(os.path.join(d, n))
        texts.append(open(os.path.join(d, n)).read())
assert texts[0] == texts[1]
""", "a canvas with text saved twice", "the second file lacks the definitions its text needs")

bug("stroke-smooth-default", "K03", ("coral/raster.py", "        if aa is None: aa = self.aa\n", "        aa = aa or self.aa\n"), """
from coral import raster
a, b = raster.GrayCanvas(9, 9, 0), raster.GrayCanvas(9, 9, 0)
a.aa = b.aa = False
pts = [(1, 1), (7, 3), (2, 6)]
a.strokepolygon(pts, 200)
b.aa = True
b.strokepolygon(pts, 200, False)
assert a.data == b.data
c = raster.ColorCanvas(9, 9, (0, 0, 0))
c.strokepolygon(pts, (1, 2, 3), False)
assert set(c[x, y] for x in range(9) for y in range(9)) == {(0, 0, 0), (1, 2, 3)}
""", "a polygon asked without smoothing on a canvas that smooths", "the polygon is smoothed all the same")

bug("mapping-rounded", "N02", ("coral/names.py", "        score = 1 - ds[i]\n", "        score = round(1 - ds[i], 2)\n"), """
from coral import names
m = names.mapping(["a" * 30 + "b", "a" * 31 + "bc"], ["a" * 30 + "c", "a" * 31 + "cb"])
for x in m:
    assert abs(x.score - (1 - names.strerr(x.key, x.value))) < 1e-9
keys = ["x" * 19 + "p", "y" * 20 + "p"]
m = names.mapping(keys, ["x" * 20, "y" * 21])
assert [x.key for x in m] == keys[::-1], m
""", "long names whose matches differ by less than a hundredth", "close matches are listed in the wrong order")

bug("delkeys-substring", "T03", ("coral/table.py", "i not in keys_to_del", 'i not in " ".join(keys_to_del)'), """
from collections import namedtuple
from coral import table
R = namedtuple("R", "name id na")
t = list(table.delkeys([R(1, 2, 3)], ["name"]))
assert t[0]._fields == ("id", "na"), t
""", "a column whose name is part of the name of a deleted one", "the other column is deleted too")

bug("gradient-near-one", "D01", ("coral/gradient.py", "        if points[-1][0] < 1:", "        if points[-1][0] < 0.99:"), """
from coral import gradient
g = gradient.Gradient([(0, (0, 0, 0)), (0.995, (1, 1, 1))])
assert tuple(g.get(1)) == (1, 1, 1)
""", "a last stop between 0.99 and 1", "there is no colour past the last stop")

bug("unwind-slit-full", "C03", ("coral/coord.py", "            if not b.isempty() and q == b.peek():", "            if not b.isempty() and q == b.peek() and not b.isfull():"), """
from coral import coord
corners = [(0, 7), (10, 6), (20, 3), (30, 1), (40, 5)]
for n in (2, 3, 4, 5):
    a = corners[:n]
    path = [(-20, 0)] + a + a[-2::-1] + [(0, 30), (-10, 44)]
    out = list(coord.simplify(path, 1, k=4))
    assert not set(out) & set(corners[1:]), (n, out)
""", "an excursion exactly as long as the buffer", "the excursion is kept")

bug("read-named-forward", "G04", ("coral/rg.py", "            self.idx = idx\n", "            self.idx = max(idx, self.idx)\n"), "", "", "")
B.pop()

bug("meter-interval-units", "Q02", ("coral/tqdm.py", "            if cur_t - last_print_t >= mininterval:", "            if cur_t - start_t >= mininterval:"), """
import io
from unittest import mock
from coral import tqdm
f = io.StringIO()
now = [0]
with mock.patch.object(tqdm.time, "time", lambda: now[0]):
    for i in tqdm.tqdm(range(100), file=f, leave=True):
        now[0] += 0.1
n = f.getvalue().count("\\r")
assert n <= 25, n
""", "a loop longer than the minimal interval", "the meter is updated at every step after the first interval")
import sys
main([b for b in B if len(sys.argv) < 2 or b['id'] in sys.argv[1:]])
