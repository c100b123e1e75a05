from seedlib import main
B = []
def bug(id, prop, edits, demo, needs, breaks):
    if isinstance(edits, tuple): edits = [edits]
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug("corangle-date-line", "P08", ("coral/proj.py", "        x = self.r * corangle(lon - self.lon0)\n        y = self.r * math.log", "        x = self.r * (corangle(lon) - self.lon0)\n        y = self.r * math.log"), """
from coral import proj
p = proj.Mercator((170, 0), 1000)
x, y = p.geo2rect(-175, 10)
q = proj.Mercator((0, 0), 1000)
assert abs(x - q.geo2rect(15, 10)[0]) < 1e-6, x
""", "an origin near the date line and a place on its other side", "places across the date line are drawn on the far side of the map")

bug("obliq-inverse-side", "P01", ("coral/proj.py", "        v = s * math.sin(xr) - c * math.sinh(yr)\n        h = math.cos(xr)\n", "        v = s * math.sin(xr) - c * math.tanh(yr)\n        h = math.cos(xr)\n"), """
from coral import proj
p = proj.ObliqMercator((10, 35), 1000)
lon, lat = p.rect2geo(*p.geo2rect(30, 20))
assert abs(lon - 30) < 1e-6 and abs(lat - 20) < 1e-6, (lon, lat)
p = proj.ObliqMercator((10, 90), 1000)
lon, lat = p.rect2geo(*p.geo2rect(30, 20))
assert abs(lon - 30) < 1e-6 and abs(lat - 20) < 1e-6, (lon, lat)
""", "an oblique pole and a place off the great circle", "unprojecting gives another longitude")

bug("stereo-far-hemisphere", "P02", ("coral/proj.py", "        c = 2 * math.atan(p / (2 * self.r))\n        cosc = math.cos(c)\n", "        c = 2 * math.atan(p / (2 * self.r))\n        cosc = abs(math.cos(c))\n"), """
from coral import proj
p = proj.Stereographic((10, 35), 1000)
for place in (20, 30), (-140, 10), (190, -40):
    lon, lat = p.rect2geo(*p.geo2rect(*place))
    assert abs((lon - place[0] + 180) % 360 - 180) < 1e-6 and abs(lat - place[1]) < 1e-6, (place, lon, lat)
""", "a place on the hemisphere opposite the centre", "unprojecting stereographic maps folds the far hemisphere onto the near one")

bug("equidistant-scale", "P06", ("coral/proj.py", "        k = c / math.sin(c)\n", "        k = c / math.sin(c) if c < 3 else 1 / (math.pi - c)\n"), """
import math
from coral import proj
p = proj.AzimuthalEquidistant((0, 0), 1000)
for lon in (10, 90, 150, 175, 179):
    x, y = p.geo2rect(lon, 0)
    assert abs(math.hypot(x, y) - 1000 * math.radians(lon)) < 1e-6, (lon, x, y)
""", "a place close to the antipodes of the centre (more than 171.9 degrees away)", "distances near the antipodes are shown wrong")

bug("albers-south-cone", "P03", ("coral/proj.py", "        if self.n < 0:\n            p0 = -self.p0\n            x, y = -x, -y\n", "        if self.n < 0:\n            p0 = -self.p0\n            x = -x\n"), """
from coral import proj
for par in ((20, 50), (-50, -20)):
    p = proj.ConicEqualArea(par, 1000)
    lon, lat = p.rect2geo(*p.geo2rect(30, par[0] / 2))
    assert abs(lon - 30) < 1e-6 and abs(lat - par[0] / 2) < 1e-6, (par, lon, lat)
""", "standard parallels in the southern hemisphere", "unprojecting cones that open to the south gives other longitudes")

bug("albers-parallels-constant", "P08", ("coral/proj.py", "        self.coslat12 = self.coslat1 * self.coslat1\n", "        self.coslat12 = self.coslat1 * math.cos(self.lat2)\n"), """
from coral import proj
p = proj.ConicEqualArea((20, 20), 1000)
assert abs(p.scale(0, 20) - 1) < 1e-9
p = proj.ConicEqualArea((20, 50), 1000)
assert abs(p.scale(0, 20) - 1) < 1e-9 and abs(p.scale(0, 50) - 1) < 1e-9, p.scale(0, 50)
""", "two different standard parallels", "the scale along the standard parallels is not true")

bug("eckert-tolerance", "P09", ("coral/proj.py", "        while abs(delta) > 1e-6:\n", "        while abs(delta) > 1e-1:\n"), """
from coral import proj
p = proj.EckertIV((0, 0), 6371000)
for lat in (0, 5, 30, 60, 80):
    back = p.rect2geo(*p.geo2rect(40, lat))[1]
    assert abs(back - lat) < 1e-3, (lat, back)
""", "a latitude away from the equator", "parallels are drawn kilometres away from where they belong")

bug("emercator-inverse-power", "P07", ("coral/proj.py", "            lat = t * ((1 - esinlat) / (1 + esinlat)) ** (self.e / 2)\n", "            lat = t * ((1 - esinlat) / (1 + esinlat)) ** (self.f / 2)\n"), """
from coral import proj
p = proj.EMercator()
for lat in (0, 30, -60):
    back = p.rect2geo(*p.geo2rect(40, lat))[1]
    assert abs(back - lat) < 1e-6, (lat, back)
""", "a latitude away from the equator", "the inverse of the ellipsoidal map returns another latitude")

bug("tmercator-scale", "P04", ("coral/proj.py", "        k = 1 / math.sqrt(1 - b * b)\n", "        k = 1 / math.sqrt(1 - b * b * math.cos(lat))\n"), """
import math
from coral import proj
p = proj.TransMercator((10, 0), 1000)
assert abs(p.scale(40, 0) - 1 / math.sqrt(1 - .25)) < 1e-9
b = math.cos(math.radians(50)) * .5
assert abs(p.scale(40, 50) - 1 / math.sqrt(1 - b * b)) < 1e-9, p.scale(40, 50)
""", "a place off the equator and off the central meridian", "the reported scale is not the local scale")

bug("equal-area-antipodal", "P05", ("coral/proj.py", "        k = math.sqrt(2 / (1 + self.sinlat0 * sinlat + self.coslat0 * coslat * coslon))\n", "        k = math.sqrt(2 / (1 + abs(self.sinlat0 * sinlat + self.coslat0 * coslat * coslon)))\n"), """
import math
from coral import proj
p = proj.AzimuthalEqualArea((0, 0), 1000)
for lon in (10, 60, 120, 170):
    x, y = p.geo2rect(lon, 0)
    assert abs(x - 2000 * math.sin(math.radians(lon) / 2)) < 1e-6, (lon, x)
""", "a place more than a quarter turn from the centre", "areas on the far hemisphere are not kept")

bug("frame-box-order", "M01", ("coral/frame.py", "                \"x1\": self.bounding.x1,\n                \"y1\": self.bounding.y1\n", "                \"x1\": self.bounding.x0 + self.bounding.width(),\n                \"y1\": self.bounding.y0 + self.bounding.width()\n"), """
import os, tempfile
from coral import frame, proj, bbox
with tempfile.TemporaryDirectory() as d:
    for pts in (((0, 0), (5, 5)), ((0, 1), (5, 9))):
        p = os.path.join(d, "f")
        frame.Frame(proj.Mercator((1, 2), 10), bbox.BBox(pts)).save(p)
        b = frame.load(p).bounding
        assert (b.x0, b.y0, b.x1, b.y1) == (pts[0] + pts[1]), (b.x0, b.y0, b.x1, b.y1)
""", "a box that is not square", "a loaded frame has another box")

bug("frame-pixel-truncates", "M02", ("coral/frame.py", "        x //= scale\n        y //= scale\n", "        x = float(int(x / scale))\n        y = float(int(y / scale))\n"), """
from coral import frame, proj, bbox
f = frame.Frame(proj.Mercator((0, 0), 1000), bbox.BBox(((0, 0), (1, 1))))
for lon in (10, -10):
    x, y = f.projection.geo2rect(lon, 5)
    assert f.point(7, (lon, 5)) == (x // 7, y // 7), lon
""", "a place west or south of the centre", "places with negative coordinates get the pixel beside theirs")

bug("frame-names-box", "M03", ("coral/frame.py", "                if self.bounding.collide(bb):\n                    lines.append(name + \"\\n\")\n                    break\n", "                if self.bounding.collide(bb):\n                    lines.append(name + \"\\n\")\n                if lines:\n                    break\n"), """
import os, tempfile
from coral import frame, proj, bbox, pf
import sys, io
class Data:
    names = ["a", "b"]
    def get(self, name):
        far = [(120, 50), (130, 60), (125, 50)]
        near = [(1, 1), (2, 2), (1, 2)]
        return [near] if name == "a" else [far, near]
with tempfile.TemporaryDirectory() as d:
    f = frame.Frame(proj.Mercator((0, 0), 1000), bbox.BBox(((-100, -100), (100, 100))))
    f.cachenames(os.path.join(d, "k"), Data())
    assert f.loadnames(os.path.join(d, "k")) == ["a", "b"], f.loadnames(os.path.join(d, "k"))
""", "an entity after the first one found, whose first part lies outside", "entities of several parts are left out of the names of a frame")

bug("haversine-radius", "C06", ("coral/coord.py", "        R = radiusat((lat1 + lat2) / 2)\n", "        R = radiusat(lat1)\n"), """
from coral import coord
a, b = coord.haversine(0, 5, 30, 60), coord.haversine(30, 60, 0, 5)
assert abs(a - b) < 1e-6, (a, b)
""", "no radius given, and places of different latitudes", "the distance depends on the direction")

bug("destination-asin", "C07", ("coral/coord.py", "    dlon = math.atan2(sintc*sind*coslat, cosd - sinlat*math.sin(lat))\n", "    dlon = math.asin(sintc*sind/math.cos(lat))\n"), """
import math
from coral import coord
for dist in (500, 2500):
    lon, lat = coord.destination(10, 0, -90, dist, 1000)
    assert abs(coord.haversine(10, 0, lon, lat, 1000) - dist) < 1e-6, (lon, lat)
""", "a distance that leads more than a quarter turn of longitude away", "the destination is on the wrong meridian")

bug("midpoint-atan", "C08", ("coral/coord.py", "    lon3 = lon1 + math.atan2(by, coslat1 + bx)\n", "    lon3 = lon1 + math.atan(by / (coslat1 + bx))\n"), """
from coral import coord
for a, b in (((0, 10), (40, 50)), ((0, 80), (170, 10))):
    lon, lat = coord.midpoint(*a, *b)
    assert abs(coord.haversine(*a, lon, lat, 1) - coord.haversine(*b, lon, lat, 1)) < 1e-9, (lon, lat)
""", "a second place more than a quarter turn of longitude away and farther from the pole", "the midpoint is on the opposite meridian")

bug("radius-polar", "C10", ("coral/coord.py", "    num = a * a * acoslatsqr + b * b * bsinlatsqr\n", "    num = a * a * acoslatsqr + a * b * bsinlatsqr\n"), """
from coral import coord, proj
e = proj.Ellipsoid(10, 8, .6, .2)
assert abs(coord.radiusat(0, e) - 10) < 1e-9
assert abs(coord.radiusat(90, e) - 8) < 1e-9, coord.radiusat(90, e)
""", "a latitude off the equator", "the radius at the poles is not the polar one")

bug("centroid-hole", "C12", ("coral/coord.py", "            cw.append(((cx, cy), sa))\n", "            cw.append(((cx, cy), abs(sa)))\n"), """
from coral import coord
ring = [(0, 0), (10, 0), (10, 10), (0, 10)]
hole = [(6, 1), (6, 9), (9, 9), (9, 1)]
lon, lat = coord.geocentroid([ring])
assert 4.9 < lon < 5.1
lon, lat = coord.geocentroid([ring, hole])
assert lon < 4.9, lon
""", "a region with a hole", "holes draw the centroid towards them")

bug("centroid-settles", "C12", ("coral/coord.py", "        if abs(c1[0] - c0[0]) <= epsilon and abs(c1[1] - c0[1]) <= epsilon:\n", "        if abs(c1[0] - c0[0]) <= epsilon or abs(c1[1] - c0[1]) <= epsilon:\n"), """
from coral import coord
tri = [(-10, 0), (10, 0), (0, 40)]
a = coord.geocentroid([tri])
b = coord.geocentroid([tri], coord.bbox.BBox([(-10, a[1] - 1), (10, a[1] + 1)]))
assert abs(a[0] - b[0]) < 1e-6 and abs(a[1] - b[1]) < 1e-6, (a, b)
""", "a region symmetric to the meridian of its middle", "the iteration stops although the latitude has not settled")

bug("corangle-once", "C11", ("coral/proj.py", "    while a > math.pi:\n", "    if a > math.pi:\n"), """
import math
from coral import proj
for turns in (0, 1, 2):
    assert abs(proj.corangle(1 + 2 * math.pi * turns) - 1) < 1e-9
    assert abs(proj.corangle(1 - 2 * math.pi * turns) - 1) < 1e-9
""", "an angle more than a whole turn too large", "angles are not brought into the circle")

bug("shp-null-offset", "H02", ("coral/shapefile.py", "            f.write(pack(\">i\", self._lengths[i]))\n", "            f.write(pack(\">i\", self._lengths[0] if self._shapes[i].shapeType == self.shapeType in (1, 3, 5) else self._lengths[i]))\n"), """
import io, struct
from coral import shapefile
w = shapefile.Writer(5)
w.poly([[[0, 0], [1, 1], [1, 0]]])
w.poly([[[0, 0], [1, 1], [1, 0], [2, 0], [2, 2]]])
shp, shx = io.BytesIO(), io.BytesIO()
w.saveShp(shp); w.saveShx(shx)
x = shx.getvalue()
for i in range(2):
    off, n = struct.unpack(">2i", x[100 + 8 * i:108 + 8 * i])
    assert shp.getvalue()[2 * off + 4:2 * off + 8] == struct.pack(">i", n), i
""", "shapes of different sizes and a program that trusts the index", "the index tells the length of the first record for all")

bug("shp-second-iteration", "H01", ("coral/shapefile.py", "        shp.seek(0,2)\n        self.shpLength = shp.tell()\n        shp.seek(100)\n        while shp.tell() < self.shpLength:\n            yield self.__shape()    ", "        shp.seek(0,2)\n        self.shpLength = self.shpLength or shp.tell()\n        shp.seek(100)\n        while shp.tell() + 12 < self.shpLength:\n            yield self.__shape()    "), """
import io
from coral import shapefile
w = shapefile.Writer(1)
w.field("a")
w.point(1, 2)
w.record("x")
w.null()
w.record("y")
f = [io.BytesIO() for _ in range(3)]
w.save(shp=f[0], shx=f[1], dbf=f[2])
r = shapefile.Reader(shp=f[0], shx=f[1], dbf=f[2])
assert [s.shapeType for s in r.shapes()] == [1, 0]
assert [s.shapeType for s in r.iterShapes()] == [1, 0]
""", "a file that ends with a null shape, read one by one", "the last null shape is not served")

bug("dbf-date-century", "H03", ("coral/shapefile.py", "                    y, m, d = int(value[:4]), int(value[4:6]), int(value[6:8])\n                    value = [y, m, d]\n", "                    y, m, d = int(value[:4]), int(value[4:6]), int(value[6:8])\n                    value = [y, m, d] if y >= 100 else [y + 1900, m, d]\n"), """
import io
from coral import shapefile
for date in ("20140102", "00790824"):
    w = shapefile.Writer(1)
    w.field("d", "D", 8)
    w.record(date)
    f = io.BytesIO()
    w.saveDbf(f)
    assert shapefile.Reader(dbf=f).record(0) == [[int(date[:4]), int(date[4:6]), int(date[6:])]]
""", "a date in the first century", "dates before the year 100 are read as of the 20th century")

bug("shx-index-negative", "H04", ("coral/shapefile.py", "            # Jump to the first record.\n            shx.seek(100)\n            for r in range(numRecords):\n", "            # Jump to the first record.\n            shx.seek(100)\n            for r in range(i + 1 if i is not None and i < numRecords else numRecords):\n"), """
import io
from coral import shapefile
w = shapefile.Writer(1)
for i in range(3):
    w.point(i, i)
shp, shx = io.BytesIO(), io.BytesIO()
w.save(shp=shp, shx=shx)
r = shapefile.Reader(shp=shp, shx=shx)
assert r.shape(2).points[0][0] == 2
r = shapefile.Reader(shp=shp, shx=shx)
assert r.shape(0).points[0][0] == 0
assert r.shape(2).points[0][0] == 2
""", "shapes asked for in ascending order", "after an early shape, later ones can not be found")

bug("geojson-holes", "H05", ("coral/shapefile.py", "                    if signed_area(coord) < 0:\n                        polys.append(poly)\n                        poly = [coord]\n", "                    if signed_area(coord) < 0 and signed_area(poly[-1]) < 0:\n                        polys.append(poly)\n                        poly = [coord]\n"), """
import io
from coral import shapefile
cw = lambda x: [[x, 0], [x, 4], [x + 4, 0]]
hole = [[1, 1], [2, 1], [1, 2]]
def g(rings):
    w = shapefile.Writer(5)
    w.poly(rings)
    f = io.BytesIO()
    w.saveShp(f)
    return shapefile.Reader(shp=f).shape(0).__geo_interface__
assert len(g([cw(0), cw(9)])["coordinates"]) == 2
a = g([cw(0), hole, cw(9)])
assert a["type"] == "MultiPolygon" and [len(p) for p in a["coordinates"]] == [2, 1], a
""", "a polygon after one with a hole", "the polygon is taken for another hole")

bug("sf2pf-small-part", "H06", ("coral/pf.py", "        parts = [points[a:b] for a, b in zip(offsets[:-1], offsets[1:])]\n        pf.write(name, parts)\n", "        parts = [points[a:b] for a, b in zip(offsets, offsets[1:]) if a == 0 or b - a > 4]\n        pf.write(name, parts)\n"), """
import os, tempfile
from coral import shapefile, pf
with tempfile.TemporaryDirectory() as d:
    w = shapefile.Writer(5)
    w.field("n")
    w.poly([[[0, 0], [10, 10], [20, 0]], [[30, 0], [40, 10], [50, 0]]])
    w.record("a")
    w.save(os.path.join(d, "s"))
    pf.sf2pf(os.path.join(d, "s"), os.path.join(d, "a.pf"), lambda r: r[0])
    r = pf.Reader(os.path.join(d, "a.pf"))
    parts = r.get("a")
    r.close()
    assert [len(p) for p in parts] == [3, 3], parts
""", "a shape with a second part that is a triangle", "parts of few vertices are lost in the conversion")

main(B)
