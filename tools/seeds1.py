from seedlib import main
B = []
def bug(id, prop, edits, demo, needs, breaks):
    if isinstance(edits, tuple): edits = [edits]
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug("bbox-collide-touch", "B03", ("coral/bbox.py", "               (other.y0 <= self.y0 < other.y1))", "               (other.y0 <= self.y0 <= other.y1))"), """
from coral.bbox import BBox
a, b = BBox((0, 4), (4, 8)), BBox((1, 0), (3, 4))
assert not a.collide(b)
assert not b.collide(a)
""", "boxes that touch along a horizontal side, with the upper one asked", "two boxes that share no point are reported to collide")

bug("bbox-union-shortcut", "B02", ("coral/bbox.py", "        x1 = max(self.x1, other.x1)\n        y1 = max(self.y1, other.y1)\n        return BBox((x0, y0), (x1, y1))\n\n    def __and__", "        x1 = max(self.x1, other.x1)\n        y1 = self.y1 if self.y1 - y0 >= other.height() else other.y1\n        return BBox((x0, y0), (x1, y1))\n\n    def __and__"), """
from coral.bbox import BBox
a, b = BBox((0, 0), (2, 3)), BBox((0, 2), (2, 4))
u = a | b
assert (u.x0, u.y0, u.x1, u.y1) == (0, 0, 2, 4), u
assert b | a == u
""", "a lower box taller than the upper one, which it overlaps", "the union does not cover its second operand")

bug("simplify-duplicate-corner", "C03", ("coral/coord.py", """    for r in s:
        if r == q:
            continue
        if not collinear(p, q, r):
            if not b.isempty() and q == b.peek():""", """    for r in s:
        if r == q:
            p = q
        if not collinear(p, q, r):
            if not b.isempty() and q == b.peek():"""), """
from coral import coord
out = list(coord.simplify([(0, 0), (4, 0), (4.1, 0.1), (4, 4)], 1))
assert out == [(0, 0), (4, 0), (4, 4)], out
""", "two consecutive points that snap to the same cell at a corner", "the corner is dropped from the simplified line")

bug("compass-north-wraps", "C05", ("coral/coord.py", "    return cardinals[nearest(index) % 16]", "    return cardinals[min(nearest(index), 15)]"), """
from coral import coord
assert coord.bearing2cardinal(-5) == 'N', coord.bearing2cardinal(-5)
assert coord.bearing2cardinal(355) == 'N'
assert coord.bearing2cardinal(5) == 'N'
""", "a bearing in the last half sector before north", "bearings just east of north are called NNE although N is nearer")

bug("vlv-power-boundary", "V01", ("coral/pf.py", "    while v >= 128:\n", "    while v > 128:\n"), """
import io
from coral import pf
for v in (0, 127, 128, 129, 16384, 16512):
    f = io.BytesIO()
    pf.writevlv(f, v)
    f.write(bytes(8))
    f.seek(0)
    got = pf.readvlv(f)
    assert got == v, (v, got)
""", "a quantity whose leading base-128 digits are exactly 128", "the quantity is written with a stray continuation bit and read back wrong")

bug("pf-box-round", "V03", ("coral/pf.py", "        y1 = math.ceil((bb.y1 + 90) * UMAX2 / 180)\n", "        y1 = round((bb.y1 + 90) * UMAX2 / 180)\n"), """
import os, tempfile
from coral import pf
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "a.p")
    w = pf.Writer(path, 8)
    pts = [(0, 0), (1, 0), (1, 1.002), (0.3, 0.7)]
    w.write("a", [pts])
    w.close()
    r = pf.Reader(path)
    got = r.read(0)[0]
    r.close()
for a, b in zip(pts, got):
    assert abs(a[0] - b[0]) < 1e-9 and abs(a[1] - b[1]) < 1e-9, (a, b)
""", "a northernmost latitude in the lower half of a box quantum", "the northernmost point is stored outside the quantised box and clamped")

bug("pf-offset-multipart", "V02", ("coral/pf.py", "            offset += sum(partlen) * self.size * 2\n", "            offset += len(partlen) * partlen[0] * self.size * 2\n"), """
import os, tempfile
from coral import pf
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "a.p")
    w = pf.Writer(path, 4)
    w.write("a", [[(0, 0), (1, 0), (1, 1)], [(5, 5), (6, 5), (6, 6), (5, 6)]])
    w.write("b", [[(10, 10), (11, 10), (11, 11)]])
    w.close()
    r = pf.Reader(path)
    got = r.get("b")[0]
    r.close()
for a, b in zip([(10, 10), (11, 10), (11, 11)], got):
    assert abs(a[0] - b[0]) < 1e-6 and abs(a[1] - b[1]) < 1e-6, (a, b)
""", "an entity stored after one whose parts differ in length", "the later entity is read from the wrong offset")

bug("grid-row-offset", "G03", ("coral/grid.py", "            offset += f.size\n        return tuple(values)", "            offset = offset + f.size if values[-1] is not None else self.size - f.size\n        return tuple(values)"), """
from coral.grid import IVar, SVar, GRow
row = GRow(IVar("a", 0, 9, True), IVar("b", 0, 9), SVar("c", 3))
for r in ((1, 2, "xy"), (None, 2, "xy"), (None, 0, "")):
    assert row.decode(row.encode(*r)) == r, (r, row.decode(row.encode(*r)))
""", "a null value in a row of three or more columns", "columns after a null are decoded from the wrong bytes")

bug("rg-integer-span", "G02", ("coral/grid.py", "        return self.minv + index * self.delta / self.span\n", "        return self.minv + index * self.delta / SIZE_SPAN[self.size]\n"), """
from coral.grid import FVar
for nullable in (False, True):
    v = FVar("x", 0, 100, 1, nullable)
    step = 100 / v.span
    for value in (0, 50, 99.9, 100):
        assert abs(v.decode(v.encode(value)) - value) <= step / 2 + 1e-9, (nullable, value)
""", "a nullable real field of small size and a value near its maximum", "the value comes back more than half a step away from the one written")

bug("raster-row-bytes", "K02", ("coral/raster.py", "        nw = math.ceil(width/8) # bytes/row\n", "        nw = width // 8 + 1 # bytes/row\n"), """
import os, tempfile
from coral import raster
with tempfile.TemporaryDirectory() as d:
    for w, h in ((5, 2), (8, 3), (16, 2)):
        path = os.path.join(d, "a.pbm")
        c = raster.BWCanvas(w, h)
        c[0, 1] = 1
        c.save(path)
        data = open(path, "rb").read()
        head = ("P4\\n%d %d\\n" % (w, h)).encode()
        assert data.startswith(head)
        body = data[len(head):]
        nb = (w + 7) // 8
        assert len(body) == nb * h, (w, h, len(body))
        assert body[nb] == 0x80
""", "an image whose width is a multiple of eight", "each row of the saved bitmap has an extra byte")

bug("fill-truncates", "K05", ("coral/raster.py", "                    heapq.heappush(scans[y0], (round(x0), down))\n", "                    heapq.heappush(scans[y0], (int(x0), down))\n"), """
from coral import raster
c = raster.GrayCanvas(20, 10, 0)
c.fillpolygons(c.scanpolygon([(1, 0), (10, 0), (1, 5)]), 9)
for y in range(5):
    edge = 10 - 9 * y / 5
    for x in range(20):
        if 1 <= x and x + 0.51 <= edge:
            assert c[x, y] == 9, (x, y)
        elif x < 1 or x >= edge + 0.51:
            assert c[x, y] == 0, (x, y)
""", "a slanted side that crosses a row past the middle of a pixel", "pixels whose larger part lies inside the polygon are left out")

bug("line-steep-tie", "K03", ("coral/raster.py", "            if e2 > -dy:\n", "            if e2 > 1 - dy:\n"), """
from coral import raster
for end in ((5, 5), (3, 2), (7, 3), (3, 7), (2, 1), (1, 2), (4, 3), (5, 2)):
    c = raster.GrayCanvas(12, 12, 0)
    c.line((0, 0), end, 7)
    dx, dy = end
    for x in range(12):
        for y in range(12):
            if c[x, y]:
                off = abs(x * dy - y * dx) / max(dx, dy)
                assert off <= 0.5, (end, x, y)
""", "a slope for which the error term meets the changed threshold", "the line leaves the half-pixel corridor around the exact one")

bug("canvas-copy-state", "X03", ("coral/vector.py", "        canvas.state = self.state.copy()\n", "        canvas.state = self.state\n"), """
from coral import vector
a = vector.Canvas()
b = a.copy()
b.setwidth(3)
a.setwidth(3)
assert a.lines == ["3 w"], a.lines
assert b.lines == ["3 w"], b.lines
""", "the same setting made on a canvas after its copy", "the setting made on the original is dropped, because its copy already made it")

bug("image-rows-color", "X05", ("coral/vector.py", "            b += cwidth\n", "            b += width\n"), """
from coral import vector
c = vector.Canvas()
c.addimage(bytes(range(18)), 3, color=True)
s = "".join(c.lines)
body = s[s.index("{<") + 2:s.index(">}")]
assert bytes.fromhex(body) == bytes(range(18)), body
""", "a colour image of more than one row", "the second and later rows are written without their last samples")

bug("gini-ties", "S03", ("coral/stats.py", "    seq = tuple(sorted(seq, reverse=True))\n", "    seq = tuple(sorted(set(seq), reverse=True))\n"), """
from coral import stats
for seq in ((1, 2, 3, 4), (1, 2, 2, 5), (3, 3, 3)):
    a, b = stats.gini_kakwani(seq), stats.gini_deaton(seq)
    assert abs(a - b) < 1e-9, (seq, a, b)
""", "a sequence with repeated values", "the two Gini estimates disagree")

bug("join-last-match", "T02", ("coral/table.py", "                d.update(r2._asdict())\n                break\n", "                d.update(r2._asdict())\n"), """
import collections
from coral import table
A = collections.namedtuple("A", "k a")
Bt = collections.namedtuple("Bt", "k b")
t = table.join([A("1", "x")], [Bt("1", "first"), Bt("1", "second")], keys=["k", "a", "b"])
assert [tuple(r) for r in t] == [("1", "x", "first")], t
""", "a second table with two rows for the same key", "the last match is attached instead of the first")

bug("meter-final-miniters", "Q02", ("coral/tqdm.py", "        if last_print_n < n:\n", "        if n - last_print_n >= miniters:\n"), """
import io
from coral import tqdm
out = io.StringIO()
list(tqdm.tqdm(range(5), file=out, mininterval=0, miniters=3))
last = out.getvalue().rstrip("\\n").split("\\r")[-1]
assert "5/5" in last, last
""", "a number of items that is not a multiple of miniters", "the line left on the screen does not show the final count")

bug("meter-first-hour", "Q03", ("coral/tqdm.py", "    if h:\n", "    if h > 1:\n"), """
from coral import tqdm
assert tqdm.format_interval(59) == "00:59"
assert tqdm.format_interval(3725) == "1:02:05", tqdm.format_interval(3725)
assert tqdm.format_interval(7325) == "2:02:05"
""", "an interval between one and two hours", "the hour is missing from the time shown")

bug("damlev-transposition-cost", "N01", ("coral/names.py", "            if i and j and s1[i]==s2[j-1] and s1[i-1] == s2[j]:\n", "            if i and j and s1[i]==s2[j-1] and (s1[i-1] == s2[j] or cost == 0):\n"), """
from coral import names
assert names.damlev("ab", "ba") == 1
assert names.damlev("abb", "bb") == 1, names.damlev("abb", "bb")
assert names.damlev("axx", "xx") == 1
assert names.damlev("xaa", "ybaa") == 2, names.damlev("xaa", "ybaa")
assert names.damlev("ba", "aa") == 1, names.damlev("ba", "aa")
""", "a doubled letter in one of the names", "the distance is smaller than the least number of edits")

bug("gradient-last-stop", "D01", ("coral/gradient.py", "            points.append((1, points[-1][1]))\n", "            points.append((1, points[0][1]))\n"), """
from coral.gradient import Gradient
g = Gradient([(0, (0, 0, 0)), (0.5, (1, 0, 0))])
assert tuple(g.get(1)) == (1, 0, 0), g.get(1)
assert tuple(g.get(0.75)) == (1, 0, 0)
""", "a gradient whose last stop lies before 1", "the gradient fades back to its first colour after the last stop")

bug("blend-truncates", "K04", ("coral/raster.py", "        g = int(g0 * beta + g1 * alpha + 0.5)\n", "        g = int(g0 * beta) + int(g1 * alpha + 0.5)\n"), """
from coral import raster
c = raster.ColorCanvas(1, 1, (1, 1, 1))
c[0, 0] = (1, 1, 1, 0.3)
assert c[0, 0] == (1, 1, 1), c[0, 0]
""", "an opacity for which both shares have a fractional part", "blending a colour with itself changes it")

bug("rg-seek-none", "G04", ("coral/rg.py", "        self.idx += 1\n        return segs\n", "        if id_ is None:\n            self.idx += 1\n        return segs\n"), """
import os, tempfile
from coral import rg
from coral.grid import IVar, GRow
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "a")
    w = rg.Writer(path, GRow(IVar("v", 0, 9)))
    for i, n in enumerate((2, 3, 1)):
        w.write([[(i,)] * n], "e%d" % i)
    w.close()
    r = rg.Reader(path)
    one = r.read("e0")
    two = r.read()
    r.close()
assert [tuple(x) for x in two[0]] == [(1,)] * 3, two
""", "reading the next entity after one read by its id", "the next entity is read with the segment lengths of the previous one")

if __name__ == "__main__":
    main(B)
