T = "the existing tests use a handful of fixed integer boxes; the law quantifies over all real corners and all relative positions"
F = ["coral/bbox.py"]
N = "Decided for all real-valued coordinates (exact arithmetic, no float rounding) "
PROPS = [
 dict(id="B01", title="A bounding box built from points is their tight cover",
  statement="A box built from a non-empty sequence (or iterator) of points covers every one of them, each of its four sides touches at least one of them, and the result does not depend on the order of the points.",
  forall="all real coordinates of up to 3 points (quick) or 5 points (thorough), every rotation and the reversal of 3-4 points",
  why=T, files=F, mech=[("single-argument constructor", "BBox.__init__")], note=N + "of up to 3 (thorough 5) points."),
 dict(id="B02", title="Union of boxes is the smallest cover, with the empty box as identity",
  statement="The union of two non-empty boxes covers both and is contained in every box that covers both; it is commutative, associative and idempotent. The empty box is its identity on both sides and absorbs intersections.",
  forall="all non-empty boxes with real corners (up to three at a time) and all real test points",
  why=T, files=F, mech=[("union", "BBox.__or__"), ("emptiness", "BBox.__bool__")], note=N + "of up to three boxes at a time."),
 dict(id="B03", title="Intersection, collision and membership of boxes agree pointwise",
  statement="A point belongs to the intersection of two boxes exactly when it belongs to both; the intersection is non-empty exactly when the boxes collide, and collision is symmetric. Membership of points is half-open, containment of one box in another implies inclusion, strict inclusion implies containment, and 'in' agrees with these.",
  forall="all non-empty boxes with real corners and all real test points",
  why=T, files=F, mech=[("intersection", "BBox.__and__"), ("collide", "BBox.collide"), ("has_point/has_bbox/in", "BBox.has_point, has_bbox, __contains__")], note=N + "of up to three boxes and one test point."),
 dict(id="B04", title="Moving and scaling a box acts on its point set",
  statement="Translating a box moves exactly its set of points, '+' and '-' by a vector undo each other, and translation keeps width and height. Scaling by a positive factor keeps the centre and multiplies width and height by the factor ('/' divides); the measures (width, height, area, centre, diagonal) are consistent with the corners and copies are equal but distinct.",
  forall="all non-empty boxes with real corners, all real vectors and all positive real factors",
  why=T, files=F, mech=[("translate/scale", "BBox.translate, scale, __add__, __sub__, __mul__, __truediv__"), ("measures", "BBox.center, width, height, area, hypot")], note=N + "(polynomial identities decided over the reals)."),
 dict(id="B05", title="Box equality, hashing and ordering are consistent",
  statement="Two boxes are equal exactly when all four corners are equal, '!=' is the negation, and equal boxes have equal hashes. Boxes of different areas compare as their areas do, and sorting orders by area.",
  forall="all integer corners (with Python's real integer hash, including its collisions) for equality; all real corners for ordering; whole numbers given as int or float on any corner",
  why="hash collisions (e.g. -1 and -2) are never in the sampled boxes", files=F, mech=[("eq/hash", "BBox.__eq__, __hash__"), ("order", "BBox.__lt__ with total_ordering")], note="Integer corners unbounded, with CPython's integer hash modelled exactly and tuple hashing abstracted to an injective function of the element hashes; ordering over all reals."),
]
