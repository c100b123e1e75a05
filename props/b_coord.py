F = ["coral/coord.py"]
PROPS = [
 dict(id="C01", title="The simplifier's ring buffer is a bounded double-ended queue",
  statement="From every ring position and fill level, every sequence of push, pop, shift and peek returns what a bounded deque would: pop and peek the newest element, shift the oldest. isempty, isfull and the text agree with the contents, and pushing to a full or reading an empty buffer is rejected without changing it.",
  forall="capacities 1, 2, 4, 8 (thorough 16), every rotation and fill level, all operation sequences of length 2-4 (thorough 3-5), all element values",
  why="the index arithmetic modulo 2n only fails at particular rotations", files=F, mech=[("ring buffer", "Buffer")], over=["inputs", "histories"],
  note="Bounded: capacities up to 8 (16), every start state, short operation sequences; element values unbounded integers."),
 dict(id="C02", title="Snapping moves a coordinate by at most half a grid cell",
  statement="nearest(x) is an integer at most one half away from x, with ties rounded away from zero. sqr_fit maps every point to integer grid coordinates whose scaled position is at most half a cell away on each axis, for every positive cell size, one output per input in order.",
  forall="all reals |x| <= 1e9; all real points and all positive cell sizes", why="ties and negative coordinates are not sampled", files=F,
  mech=[("nearest", "coord.nearest"), ("grid snapping", "coord.sqr_fit")], note="Reals (no float rounding); one or two points, any cell size."),
 dict(id="C03", title="Open polylines are simplified without moving or losing corners",
  statement="Simplifying an open polyline keeps its two endpoints and exactly the vertices where its direction changes, in their original order, drops repeated and collinear vertices, and keeps lines of fewer than three points as they are. This holds whatever the working-buffer size, and for lines longer than the buffer. An excursion from the inside of a straight stretch, out and back the same way and of at most as many vertices as the buffer, is left out.",
  forall="grid polylines whose direction never reverses, up to 4-5 vertices with symbolic rows (thorough 6), one repeated vertex, buffer sizes 1, 2, 8; zig-zags of 12 (24) vertices; excursions of 1-8 vertices, either direction and axis",
  why="no existing test covers simplification of lines longer than the buffer or with repeated vertices", files=F,
  mech=[("open lines", "coord.open_no_slit"), ("dispatch", "coord.simplify")], note="Bounded vertex counts; rows symbolic integers in [-100,100], columns enumerated; other backtracking (slits at corners) excluded."),
 dict(id="C04", title="Closed rings keep their corners and their cyclic order when simplified",
  statement="Simplifying a closed ring, given with or without its repeated first vertex, returns the ring's corners (the vertices where the direction changes) in their cyclic order and no other corner. The result ends where it starts, repeats no vertex in a row and invents none; a degenerate ring is never emptied. This also holds for rings with more corners than the two working buffers together. An excursion from the inside of a side is left out of a ring that starts at a corner.",
  forall="grid rings whose direction never reverses with 3-5 (6) vertices and symbolic rows, buffer sizes 1, 2, 8, both closing conventions, one repeated vertex; comb rings of 10-22 (41) corners from every start vertex; excursions of 1-8 vertices",
  why="only rings larger than the buffers reveal reordering, none is tested", files=F,
  mech=[("closed rings", "coord.closed_no_slit")], note="Bounded vertex counts, other backtracking (slits at corners) excluded."),
 dict(id="C05", title="Compass names and clock hours describe the bearing they are given",
  statement="bearing2cardinal names the 22.5-degree sector whose centre is at most 11.25 degrees (modulo whole turns) from the bearing, and bearing2hours is a clock hour in (0, 12] that determines the bearing modulo whole turns.",
  forall="all real bearings in [-360, 720]", why="sector boundaries and wrap-around", files=F,
  mech=[("cardinal", "coord.bearing2cardinal"), ("hours", "coord.bearing2hours")], note="Reals (no float rounding)."),
 dict(id="C09", title="Collinearity is zero signed area and does not depend on point order",
  statement="Three points are collinear exactly when the triangle they span has zero area, whatever the order in which they are given.",
  forall="all real coordinates of three points", why="polynomial identity over all points", files=F, mech=[("collinear", "coord.collinear")], note="Unbounded over the reals."),
]
