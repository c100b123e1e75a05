"""BBox algebra (coral/bbox.py)."""
from symx.cases import case


def pts(env, n, pre="p"):
    return [(env.real("%sx%d" % (pre, i)), env.real("%sy%d" % (pre, i))) for i in range(n)]


def box(env, pre, nonempty=True):
    B = env.mod("bbox").BBox
    x0, y0 = env.real(pre + "x0"), env.real(pre + "y0")
    x1, y1 = env.real(pre + "x1"), env.real(pre + "y1")
    if nonempty:
        env.assume(env.And(x0 < x1, y0 < y1))
    return B((x0, y0), (x1, y1))


def corners(b):
    return b.x0, b.y0, b.x1, b.y1


def inside(env, b, x, y):
    """Pointwise meaning of a box: half-open on both axes."""
    return env.And(b.x0 <= x, x < b.x1, b.y0 <= y, y < b.y1)


def same_box(env, a, b):
    return env.And(*[p == q for p, q in zip(corners(a), corners(b))])


@case("B01", quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def tight(env, n):
    B = env.mod("bbox").BBox
    ps = pts(env, n)
    as_iter = env.flag("as_iter")
    b = B(iter(ps) if as_iter else ps)
    env.observe("corners", corners(b))
    for x, y in ps:
        env.check(env.And(b.x0 <= x, x <= b.x1, b.y0 <= y, y <= b.y1), "every given point is covered")
    env.check(env.And(env.Or(*[b.x0 == x for x, y in ps]), env.Or(*[b.x1 == x for x, y in ps]),
                      env.Or(*[b.y0 == y for x, y in ps]), env.Or(*[b.y1 == y for x, y in ps])),
              "every side touches a given point")


@case("B01", quick=[dict(n=3)], thorough=[dict(n=3), dict(n=4)])
def order_free(env, n):
    B = env.mod("bbox").BBox
    ps = pts(env, n)
    k = env.num("rot", 0, n - 1)
    qs = ps[k:] + ps[:k]
    if env.flag("rev"):
        qs = qs[::-1]
    a, b = B(ps), B(qs)
    env.check(same_box(env, a, b), "the order of the points does not matter")


@case("B02")
def union_laws(env):
    B = env.mod("bbox").BBox
    a, b = box(env, "a"), box(env, "b")
    u = a | b
    env.observe("u", corners(u))
    x, y = env.real("x"), env.real("y")
    env.check(env.implies(env.Or(inside(env, a, x, y), inside(env, b, x, y)), inside(env, u, x, y)), "the union covers both boxes")
    t = box(env, "t")
    cov = env.And(t.x0 <= a.x0, t.y0 <= a.y0, t.x1 >= a.x1, t.y1 >= a.y1,
                  t.x0 <= b.x0, t.y0 <= b.y0, t.x1 >= b.x1, t.y1 >= b.y1)
    env.check(env.implies(cov, env.And(t.x0 <= u.x0, t.y0 <= u.y0, t.x1 >= u.x1, t.y1 >= u.y1)),
              "no smaller box covers both")
    env.check(same_box(env, u, b | a), "union is commutative")
    env.check(same_box(env, a | a, a), "union is idempotent")


@case("B02")
def union_assoc(env):
    a, b, c = box(env, "a"), box(env, "b"), box(env, "c")
    env.check(same_box(env, (a | b) | c, a | (b | c)), "union is associative")


@case("B02")
def union_identity(env):
    B = env.mod("bbox").BBox
    a = box(env, "a")
    e = B()
    env.check(same_box(env, a | e, a), "the empty box is a right identity")
    env.check(same_box(env, e | a, a), "the empty box is a left identity")
    env.check(env.Not(env.Or(bool(e), bool(e & a), bool(a & e))), "the empty box absorbs intersections")
    acc = B()
    for i in range(2):
        acc |= box(env, "s%d" % i)
    env.check(bool(acc), "folding a union from the empty box gives a non-empty box")


@case("B03")
def intersection_pointwise(env):
    a, b = box(env, "a"), box(env, "b")
    i = a & b
    env.observe("i", corners(i))
    x, y = env.real("x"), env.real("y")
    env.check(env.iff(inside(env, i, x, y), env.And(inside(env, a, x, y), inside(env, b, x, y))),
              "a point is in the intersection iff it is in both")
    env.check(same_box(env, i, b & a), "intersection is commutative")
    hit = env.And(a.x0 < b.x1, b.x0 < a.x1, a.y0 < b.y1, b.y0 < a.y1)
    env.check(env.iff(a.collide(b), hit), "collide() agrees with sharing a point")
    env.check(env.iff(bool(i), hit), "the intersection is non-empty iff the boxes share a point")
    env.check(env.iff(b.collide(a), hit), "collide() is symmetric")


@case("B03")
def intersection_assoc(env):
    a, b, c = box(env, "a"), box(env, "b"), box(env, "c")
    env.check(same_box(env, (a & b) & c, a & (b & c)), "intersection is associative")
    env.check(same_box(env, a & (a | b), a), "absorption")


@case("B03")
def membership(env):
    a, b = box(env, "a"), box(env, "b")
    x, y = env.real("x"), env.real("y")
    env.check(env.iff(a.has_point((x, y)), inside(env, a, x, y)), "has_point is half-open membership")
    env.check(env.iff((x, y) in a, inside(env, a, x, y)), "'in' agrees with has_point")
    sub = env.And(a.x0 <= b.x0, a.y0 <= b.y0, b.x1 <= a.x1, b.y1 <= a.y1)
    strict = env.And(a.x0 < b.x0, a.y0 < b.y0, b.x1 < a.x1, b.y1 < a.y1)
    h = a.has_bbox(b)
    env.check(env.implies(h, sub), "has_bbox implies containment")
    env.check(env.implies(strict, h), "strict containment implies has_bbox")
    env.check(env.iff(b in a, h), "'in' agrees with has_bbox")
    if env.flag("bad"):
        env.check(env.raises(TypeError, lambda: [x, y] in a), "other operands are rejected")


@case("B04")
def motions(env):
    a = box(env, "a")
    dx, dy = env.real("dx"), env.real("dy")
    x, y = env.real("x"), env.real("y")
    t = a.translate(dx, dy)
    env.check(env.iff(inside(env, t, x + dx, y + dy), inside(env, a, x, y)), "translation moves the point set")
    env.check(same_box(env, a + (dx, dy), t), "+ is translation")
    env.check(same_box(env, (a + (dx, dy)) - (dx, dy), a), "- undoes +")
    env.near(t.width(), a.width(), "translation keeps the width")
    env.near(t.height(), a.height(), "translation keeps the height")
    c = a.copy()
    env.check(env.And(same_box(env, c, a), c is not a), "copy is an equal, distinct box")
    cx, cy = a.center()
    env.near(cx - a.x0, a.x1 - cx, "centre is equidistant from left and right")
    env.near(cy - a.y0, a.y1 - cy, "centre is equidistant from bottom and top")
    env.near(a.area(), a.width() * a.height(), "area is width times height")
    h = a.hypot()
    env.near(h * h, a.width() * a.width() + a.height() * a.height(), "diagonal")
    env.le(0, h, "the diagonal is not negative")


@case("B04", nl=True)
def scaling(env):
    a = box(env, "a")
    f = env.real("f")
    env.assume(f > 0)
    s = a.scale(f)
    env.near(s.width(), a.width() * f, "scale multiplies the width")
    env.near(s.height(), a.height() * f, "scale multiplies the height")
    env.near(s.center()[0], a.center()[0], "scale keeps the centre (x)")
    env.near(s.center()[1], a.center()[1], "scale keeps the centre (y)")
    m = a * f
    env.check(same_box(env, m, s), "* is scale")
    d = a / f
    env.near(d.width() * f, a.width(), "/ divides the width")
    env.near(d.height() * f, a.height(), "/ divides the height")
    env.near(d.center()[0], a.center()[0], "/ keeps the centre")


@case("B05")
def eq_hash_ints(env):
    B = env.mod("bbox").BBox
    v = [env.int("v%d" % i) for i in range(8)]
    a = B((v[0], v[1]), (v[2], v[3]))
    b = B((v[4], v[5]), (v[6], v[7]))
    same = env.And(*[v[i] == v[i + 4] for i in range(4)])
    env.check(env.iff(a == b, same), "boxes are equal iff their corners are")
    env.check(env.implies(same, hash(a) == hash(b)), "equal boxes have equal hashes")
    env.check(env.iff(a != b, env.Not(same)), "!= is the negation of ==")


@case("B05")
def eq_hash_mixed(env):
    """Whole numbers may be given as floats."""
    B = env.mod("bbox").BBox
    vs = [0, 1, -1, 2, 2 ** 40]
    k = env.num("k", 0, len(vs) - 1)
    v = [vs[(k + i) % len(vs)] for i in range(4)]
    w = [float(u) if env.flag("float%d" % i) else u for i, u in enumerate(v)]
    a, b = B((v[0], v[1]), (v[2], v[3])), B((w[0], w[1]), (w[2], w[3]))
    env.check(a == b, "boxes are equal iff their corners are")
    env.check(hash(a) == hash(b), "equal boxes have equal hashes")


@case("B05")
def order(env):
    a, b, c = box(env, "a"), box(env, "b"), box(env, "c")
    env.check(env.iff(a < b, a.area() < b.area()), "boxes are ordered by area")
    env.check(env.implies(a.area() != b.area(), env.iff(a > b, b.area() < a.area())), "'>' mirrors '<' for different areas")
    env.check(env.implies(env.And(a < b, b < c), a < c), "the order is transitive")
    l = sorted([a, b, c])
    env.check(env.And(l[0].area() <= l[1].area(), l[1].area() <= l[2].area()), "sorting orders by area")
    env.check(bool(a), "a box with positive area is true")
