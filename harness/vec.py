"""PostScript canvases (coral/vector.py, coral/defs.ps), read by a small
PostScript interpreter written for these checks."""
from symx.cases import case
from symx.ps import page as pagebox, same, scan


class Mark:
    """One thing painted: kind (stroke, fill, text, image) and graphics state."""

    def __init__(self, kind, path, gs, extra=None):
        self.kind, self.path, self.extra = kind, path, extra
        self.ink, self.width, self.dash = gs["ink"], gs["width"], gs["dash"]
        self.ctm = gs["ctm"]


def parse(tokens, i=0):
    """Nest procedure bodies."""
    out = []
    while i < len(tokens):
        k, v = tokens[i]
        i += 1
        if k == "{":
            body, i = parse(tokens, i)
            out.append(("proc", body))
        elif k == "}":
            return out, i
        else:
            out.append((k, v))
    return out, i


class PS:
    def __init__(self, metrics=(1, 1)):
        self.stack, self.names, self.marks = [], {}, []
        self.gs = dict(ink=("gray", 0), width=1, dash=([], 0), ctm=(1, 0, 0), font=None, path=[], cur=None)
        self.saved = []
        self.metrics = metrics

    def run(self, code):
        for k, v in code:
            if k in ("string", "hex", "proc"):
                self.stack.append((k, v))
            elif k == "[":
                self.stack.append("[")
            elif k == "]":
                i = len(self.stack) - 1
                while self.stack[i] != "[":
                    i -= 1
                arr = self.stack[i + 1:]
                del self.stack[i:]
                self.stack.append(("array", arr))
            elif k == "num":
                self.stack.append(float(v))
            elif v[0] == "/":
                self.stack.append(("name", v[1:]))
            elif v in self.names:
                self.run(self.names[v])
            else:
                self.op(v)

    def pop(self, n=None):
        if n is None:
            return self.stack.pop()
        args = self.stack[len(self.stack) - n:]
        assert len(args) == n, "stack underflow"
        del self.stack[len(self.stack) - n:]
        return args

    def point(self, x, y):
        s, tx, ty = self.gs["ctm"]
        return s * x + tx, s * y + ty

    def op(self, v):
        gs = self.gs
        if v in ("bind", "flattenpath", "true", "false"):
            if v == "false":
                self.stack.append(False)
            elif v == "true":
                self.stack.append(True)
        elif v == "def":
            n, p = self.pop(2)
            assert n[0] == "name" and p[0] == "proc", "def"
            self.names[n[1]] = p[1]
        elif v in ("moveto", "lineto"):
            x, y = self.pop(2)
            p = self.point(x, y)
            gs["path"] = gs["path"] + [("m" if v == "moveto" else "l", p)]
            gs["cur"] = (x, y)
        elif v == "rmoveto":
            x, y = self.pop(2)
            gs["cur"] = (gs["cur"][0] + x, gs["cur"][1] + y)
            gs["path"] = gs["path"] + [("m", self.point(*gs["cur"]))]
        elif v == "arc":
            x, y, r, a, b = self.pop(5)
            gs["path"] = gs["path"] + [("arc", self.point(x, y), r * gs["ctm"][0], a, b)]
        elif v == "arcto":
            x1, y1, x2, y2, r = self.pop(5)
            gs["path"] = gs["path"] + [("arcto", self.point(x1, y1), self.point(x2, y2), r * gs["ctm"][0])]
            self.stack += [0, 0, 0, 0]
        elif v == "closepath":
            gs["path"] = gs["path"] + [("cp",)]
        elif v == "newpath":
            gs["path"], gs["cur"] = [], None
        elif v in ("stroke", "fill"):
            self.marks.append(Mark(v, gs["path"], gs))
            gs["path"], gs["cur"] = [], None
        elif v == "setgray":
            gs["ink"] = ("gray", self.pop())
        elif v == "setrgbcolor":
            gs["ink"] = ("rgb",) + tuple(self.pop(3))
        elif v == "setlinewidth":
            gs["width"] = self.pop()
        elif v == "setdash":
            a, o = self.pop(2)
            gs["dash"] = (a[1], o)
        elif v == "setlinejoin":
            self.pop()
        elif v == "gsave":
            self.saved.append(dict(gs))
        elif v == "grestore":
            self.gs = self.saved.pop()
        elif v == "translate":
            x, y = self.pop(2)
            s, tx, ty = gs["ctm"]
            gs["ctm"] = (s, tx + s * x, ty + s * y)
        elif v == "scale":
            sx, sy = self.pop(2)
            gs["scale2"] = (sx, sy)
            s, tx, ty = gs["ctm"]
            gs["ctm"] = (s * sx, tx, ty)
        elif v in ("image", "colorimage"):
            ncomp, multi = 1, False
            if v == "colorimage":
                multi, ncomp = self.pop(2)
            w, h, bits, m, data = self.pop(5)
            self.marks.append(Mark("image", None, gs, (w, h, bits, m[1], data[1], ncomp, multi, gs["scale2"])))
        elif v == "show":
            s = self.pop()
            self.marks.append(Mark("text", None, gs, (s[1], gs["font"], gs["cur"])))
            gs["cur"] = (gs["cur"][0] + 1, gs["cur"][1])
            gs["path"] = gs["path"] + [("m", gs["cur"])]
        # the operators used by the definitions of coral/defs.ps
        elif v == "dup":
            self.stack.append(self.stack[-1])
        elif v == "exch":
            a, b = self.pop(2)
            self.stack += [b, a]
        elif v == "pop":
            self.pop()
        elif v in ("sub", "div"):
            a, b = self.pop(2)
            self.stack.append(a - b if v == "sub" else a / b)
        elif v == "neg":
            self.stack.append(-self.pop())
        elif v == "roll":
            n, j = [int(t) for t in self.pop(2)]
            part = self.pop(n)
            j %= n
            self.stack += part[n - j:] + part[:n - j]
        elif v == "findfont":
            self.stack.append(("font", self.pop()[1], 1))
        elif v == "scalefont":
            f, k = self.pop(2)
            self.stack.append(("font", f[1], k))
        elif v == "setfont":
            gs["font"] = self.pop()
        elif v == "charpath":
            self.pop(2)
        elif v == "pathbbox":
            x, y = gs["cur"]
            w, h = self.metrics
            self.stack += [x, y, x + w, y + h]
        else:
            raise AssertionError("undefined name " + v)


def interpret(env, cv, metrics=(1, 1), **kw):
    path = env.path("page%d.eps" % getattr(env, "pages", 0))
    env.pages = getattr(env, "pages", 0) + 1
    cv.save(path, **kw)
    text = env.file_text(path)
    ps = PS(metrics)
    code, _ = parse(scan(text))
    ps.run(code)
    env.check_eq((len(ps.saved), len(ps.stack) if not [m for m in ps.marks if m.path and [1 for s in m.path if s[0] == "arcto"]] else 0), (0, 0),
                 "saved states are restored and no operand is left over")
    return ps, text


def same_ink(env, ink, want):
    if not isinstance(want, tuple):
        want = (want,) * 3
    got = (ink[1],) * 3 if ink[0] == "gray" else ink[1:]
    return env.And(*[a == b for a, b in zip(got, want)])


def same_path(env, path, pts, closed):
    want = len(pts) + (1 if closed else 0)
    env.check_eq(len(path), want, "the painted path has the points of the shape and no others")
    env.check_eq([s[0] for s in path], ["m"] + ["l"] * (len(pts) - 1) + (["cp"] if closed else []), "points are joined by lines")
    for s, p in zip(path, pts):
        env.check(env.And(s[1][0] == p[0], s[1][1] == p[1]), "points are where they were given")


def ink(env, name):
    if env.flag(name + " color"):
        return (env.real(name + ".r", 0, 1), env.real(name + ".g", 0, 1), 0.5)
    return env.real(name, 0, 1)


OPS = ["gray", "color", "polygon", "circle", "line", "image", "rounded", "text"]


def draw(env, cv, what, i, want, state):
    """One call on the canvas; what must be painted is added to want."""
    nm = "%s%d" % (what, i)
    if what == "gray":
        v = env.real(nm, 0, 1)
        cv.setink(v)
        state["ink"] = v
    elif what == "color":
        v = (env.real(nm, 0, 1), 0.5, 0.5)
        cv.setink(v)
        state["ink"] = v
    elif what in ("polygon", "circle", "rounded"):
        how = env.choice(nm + " paint", ["fill", "stroke", "both"])
        fill = ink(env, nm + " fill") if how != "stroke" else None
        stroke = env.real(nm + " stroke", 0, 1) if how != "fill" else None
        if what == "polygon":
            cv.addpolygon([(0, 0), (4, i), (2, 5)], fill, stroke)
        elif what == "circle":
            cv.addcircle((1, 2), 3 + i, fill, stroke)
        else:
            cv.addroundedpolygon([(0, 0), (8, i), (4, 9)], 1, fill, stroke)
        if fill is not None:
            want.append(("fill", what, fill))
            state["ink"] = fill
        if stroke is not None:
            want.append(("stroke", what, stroke))
            state["ink"] = stroke
    elif what == "line":
        v = ink(env, nm) if env.flag(nm + " own ink") else None
        cv.addpolyline([(0, i), (3, 3)], v)
        if v is not None:
            state["ink"] = v
        want.append(("stroke", what, state["ink"]))
    elif what == "image":
        cv.addimage([0, 255], 2)
        want.append(("image", what, None))
    else:
        cv.addtext((1, i), "x", 9)
        want.append(("text", what, state["ink"]))


def vparams(k):
    if k == 2:
        return [dict(first=a, k=k) for a in OPS]
    return vparams(2) + [dict(first=a, k=k, second=b) for a in OPS for b in OPS]


@case("X01", quick=vparams(2), thorough=vparams(3), validate=8)
def inks(env, first, k, second=None):
    """Everything is painted in the ink asked for, whatever came before."""
    bg = 0.5 if second else env.choice("background", [None, 0.5, (1, 0.5, 0.5)])
    cv = env.mod("vector").Canvas(bg)
    want, state = [], {"ink": None}
    for i in range(k):
        draw(env, cv, first if i == 0 else second if i == 1 and second else env.choice("op%d" % i, OPS), i, want, state)
    how = 0 if second else env.num("save", 0, 2)
    if how == 1:
        cv = cv.copy()
    v = env.real("last", 0, 1)
    cv.addpolygon([(0, 0), (1, 0), (0, 1)], v)
    want.append(("fill", "last", v))
    if how != 2:
        ps, _ = interpret(env, cv)
    else:
        ps, _ = interpret(env, cv, size=100, margin=10)
    marks = ps.marks
    if bg is not None:
        env.check_eq(marks[0].kind, "fill", "the background is painted first")
        env.check(same_ink(env, marks[0].ink, bg), "the background has its colour")
        marks = marks[1:]
    env.check_eq([m.kind for m in marks], [w[0] for w in want], "exactly the requested shapes are painted, in order")
    for m, (kind, what, i) in zip(marks, want):
        if i is not None:
            env.check(same_ink(env, m.ink, i), "every shape is painted in the ink asked for")
        if what == "circle":
            env.check_eq([s[0] for s in m.path], ["arc", "cp"], "only the shape itself is painted")
        elif what in ("polygon", "last"):
            env.check_eq(len(m.path), 4, "only the shape itself is painted")


@case("X01")
def refused(env):
    """What is no ink is refused, and leaves the ink as it was."""
    cv = env.mod("vector").Canvas()
    v = env.real("v", 0, 1)
    cv.addpolyline([(0, 0), (1, 1)], v)
    what = env.choice("no ink", ["red", [0, 0, 0], {"a": 1}])
    add = env.choice("shape", ["addpolyline", "addpolygon"])
    env.check(env.raises(TypeError, getattr(cv, add), [(0, 0), (1, 1)], what), "an ink that is neither a gray level nor a colour is refused")
    cv.addpolyline([(0, 0), (1, 1)])
    ps, _ = interpret(env, cv)
    env.check(same_ink(env, ps.marks[0].ink, v), "shapes are painted in the ink asked for")
    env.check(same_ink(env, ps.marks[-1].ink, v), "the ink stays as it was")


@case("X01", quick=[dict(k=3)], thorough=[dict(k=4)], validate=8)
def strokes(env, k):
    """Line widths and dash patterns apply from where they are set."""
    cv = env.mod("vector").Canvas()
    width, dash = 1, ([], 0)
    pattern = [2]
    want = []
    for i in range(k):
        op = env.choice("op%d" % i, ["width", "dash", "grow", "both", "solid"])
        if op == "width":
            width = env.real("w%d" % i, 0, 9)
            cv.setwidth(width)
        elif op == "dash":
            off = env.int("off%d" % i, 0, 3)
            cv.setdash(pattern, off)
            dash = (list(pattern), off)
        elif op == "grow":
            # the caller's list stays the caller's
            pattern.append(1 + i)
        elif op == "solid":
            cv.setdash([])
            dash = ([], 0)
        else:
            cv.addpolygon([(0, 0), (1, 1), (2, 0)], 0.5, 0.25)
            want += [None, (width, dash)]
        cv.addpolyline([(0, 0), (1, 1)], 0)
        want.append((width, dash))
    ps, _ = interpret(env, cv)
    env.check_eq(len(ps.marks), len(want), "exactly the requested shapes are painted, in order")
    for m, w in zip(ps.marks, want):
        if w is not None:
            env.check(m.width == w[0], "lines have the width asked for")
            env.check_eq(len(m.dash[0]), len(w[1][0]), "lines have the dash pattern asked for")
            env.check(env.And(m.dash[1] == w[1][1], *[a == b for a, b in zip(m.dash[0], w[1][0])]), "lines have the dash pattern asked for")


def points(env, n, name="p"):
    # of long lists, two points are symbolic
    return [(env.real("%sx%d" % (name, i)), env.real("%sy%d" % (name, i))) if n < 6 or i in (1, n - 2) else ((i * 37) % 101, (i * 29) % 83) for i in range(n)]


def tight(env, bb, boxes):
    """bb is the smallest box holding all boxes."""
    for side, get in (("x0", 0), ("y0", 1)):
        v = getattr(bb, side)
        env.check(env.And(*[v <= b[get] for b in boxes]), "the bounding box covers everything drawn")
        env.check(env.Or(*[v == b[get] for b in boxes]), "the bounding box is no larger than needed")
    for side, get in (("x1", 2), ("y1", 3)):
        v = getattr(bb, side)
        env.check(env.And(*[v >= b[get] for b in boxes]), "the bounding box covers everything drawn")
        env.check(env.Or(*[v == b[get] for b in boxes]), "the bounding box is no larger than needed")


@case("X02", quick=[dict(kind=k, n=n) for k in ("polygon", "polyline", "rounded", "circle") for n in ((1, 2, 3, 40) if k[:4] == "poly" else (3, 30) if k == "rounded" else (3,))],
      thorough=[dict(kind=k, n=n) for k in ("polygon", "polyline", "rounded", "circle") for n in ((1, 2, 3, 4) if k[:4] == "poly" else (3, 4))], timeout=20000)
def shapes(env, kind, n):
    """Shapes are drawn at their points and covered tightly by the box."""
    cv = env.mod("vector").Canvas()
    ps = points(env, n)
    boxes = [(x, y, x, y) for x, y in ps]
    if kind == "polygon":
        cv.addpolygon(iter(ps), 0.5, 0.25)
        cv.addpolygon([], 0.5)
    elif kind == "polyline":
        cv.addpolyline(iter(ps), 0.5)
        cv.addpolyline([], 0.5)
    elif kind == "rounded":
        before = list(ps)
        cv.addroundedpolygon(ps, 2, 0.5)
        env.check(len(ps) == len(before), "the caller's points are not modified")
    else:
        r = env.real("r")
        env.assume(r > 0)
        cv.addcircle(ps[0], r, 0.5, 0.25)
        x, y = ps[0]
        boxes = [(x - r, y - r, x + r, y + r)]
    tight(env, cv.bbox, boxes)
    interp = PS()
    out, _ = parse(scan(env.mod("vector").COMMONDEF + "\n" + "\n".join(cv.lines)))
    interp.run(out)
    kinds = {"polyline": ["stroke"], "rounded": ["fill"]}.get(kind, ["fill", "stroke"])
    env.check_eq([m.kind for m in interp.marks], kinds, "the shape is painted as asked")
    for m in interp.marks:
        if kind == "circle":
            s = m.path[0]
            env.check(env.And(s[1][0] == x, s[1][1] == y, s[2] == r, s[4] - s[3] == 360), "circles have their centre, radius and full turn")
        elif kind == "rounded":
            # every corner is rounded by an arc between its two sides
            arcs = m.path[1:-1]
            env.check_eq([s[0] for s in m.path], ["m"] + ["arcto"] * n + ["cp"], "every corner of a rounded polygon is rounded")
            st = m.path[0][1]
            env.check(env.And(2 * st[0] == ps[0][0] + ps[1][0], 2 * st[1] == ps[0][1] + ps[1][1]), "the outline starts in the middle of the first side")
            for j, s in enumerate(arcs):
                c = ps[(j + 1) % n]
                env.check(env.And(s[1][0] == c[0], s[1][1] == c[1], s[3] == 2), "corners are rounded in order with the radius given")
                d = ps[(j + 2) % n]
                last = j == n - 1
                env.check(env.And(s[2][0] == (st[0] if last else d[0]), s[2][1] == (st[1] if last else d[1])), "every arc leads to the next corner")
        else:
            same_path(env, m.path, ps, kind == "polygon")


@case("X03", timeout=20000)
def union(env):
    """The box of a canvas is the union of the boxes of what it shows."""
    cv = env.mod("vector").Canvas()
    ps = points(env, 2)
    # a lone point at the origin is what an empty box looks like
    env.assume(env.Or(*[c != 0 for p in ps for c in p]))
    cv.addpolygon(ps, 0)
    boxes = [(x, y, x, y) for x, y in ps]
    how = env.num("how", 0, 2)
    x, y = env.real("x"), env.real("y")
    if how == 0:
        cv.addcircle((x, y), 2, 0)
        boxes.append((x - 2, y - 2, x + 2, y + 2))
    elif how == 1:
        color = env.flag("color")
        cv.addimage([0] * (6 * (3 if color else 1)), 2, (x, y), 3, color)
        boxes.append((x, y, x + 6, y + 9))
    else:
        cv.addimage([0] * 6, 3)
        boxes.append((0, 0, 3, 2))
    tight(env, cv.bbox, boxes)
    cv.resetbbox()
    env.check(not cv.bbox, "a reset box is empty")
    cv.addpolyline([(x, y), (x + 1, y)], 0)
    tight(env, cv.bbox, [(x, y, x + 1, y)])


@case("X03", quick=[dict(bg=b, sized=s) for b in (None, 0.5, "color") for s in (False, True)], timeout=20000)
def page(env, bg, sized):
    """The page is the box plus its margin, or the box scaled and centred on a
    square; saving does not change the canvas."""
    bg = (1, 0.5, 0) if bg == "color" else bg
    cv = env.mod("vector").Canvas(bg)
    x, y = env.real("x", -100, 100), env.real("y", -100, 100)
    w, h = env.choice("wh", [(10, 4), (3, 8), (5, 5)])
    p, q = (x, y), (x + w, y + h)
    cv.addpolyline([p, q], 0)
    before = list(cv.lines)
    margin, kw = 0, {}
    if env.flag("with a margin"):
        margin = env.int("margin", 0, 20)
        kw = dict(margin=margin)
    if sized:
        kw["size"] = 200
    ps, text = interpret(env, cv, **kw)
    declared = pagebox(text)
    env.check(declared is not None, "the page is declared at the start of the file")
    x0, y0, x1, y1 = [float(t) for t in declared]
    marks = ps.marks
    if bg is not None:
        c = marks[0].path
        env.check_eq([s[0] for s in c], ["m", "l", "l", "l", "cp"], "the background is a rectangle")
        xs, ys = [s[1][0] for s in c[:4]], [s[1][1] for s in c[:4]]
        for j, (a, b) in enumerate(((x0, y0), (x1, y0), (x1, y1), (x0, y1))):
            env.check(env.And(xs[j] == a, ys[j] == b), "the background fills the page")
        marks = marks[1:]
    a, b = marks[0].path[0][1], marks[0].path[1][1]
    if not sized:
        env.check(env.And(env.feq(x0, x - margin), env.feq(y0, y - margin), env.feq(x1, x + w + margin), env.feq(y1, y + h + margin)), "the page is the box plus its margin")
        env.check(env.And(a[0] == x, a[1] == y, b[0] == x + w, b[1] == y + h), "drawings keep their coordinates")
    else:
        env.check(env.And(x0 == 0, y0 == 0, x1 == 200, y1 == 200), "the page is the square asked for")
        s = marks[0].ctm[0]
        env.near(s * max(w, h), 200 - margin, "the longer side fills the page up to its margin")
        env.near(a[0] + b[0], 200, "the drawing is centred")
        env.near(a[1] + b[1], 200, "the drawing is centred")
        env.near(b[0] - a[0], s * w, "both axes have the same scale")
        env.near(b[1] - a[1], s * h, "both axes have the same scale")
    env.check_eq(cv.lines, before, "saving does not change the canvas")
    ps2, text2 = interpret(env, cv, **kw)
    env.check(same(text2, text), "saving twice gives the same page")


@case("X03")
def pages(env):
    """Files are complete on their own, however many canvases were saved before."""
    v = env.mod("vector")
    anchors = ["c", "tl", "br"]
    one, two = v.Canvas(), v.Canvas()
    x = env.real("x", -50, 50)
    first, second = env.choice("first", anchors), env.choice("second", anchors)
    for cv in (one, two):
        cv.addpolyline([(0, 0), (x, 9)], 0)
    one.addtext((x, 2), "t", 5, anchor=first)
    two.addtext((x, 2), "t", 5, anchor=second)
    _, a = interpret(env, one)
    shown, b = interpret(env, two)
    _, again = interpret(env, one)
    env.check(same(again, a), "saving twice gives the same page")
    if first == second:
        env.check(same(b, a), "the same drawings give the same page")
    alone = v.Canvas()
    alone.addtext((x, 2), "t", 5, anchor=second)
    alone.addtext((x, 2), "t", 5, anchor=second)
    alone.addpolyline([(0, 0), (x, 9)], 0)
    drawn, _ = interpret(env, alone)
    for ps, n in ((shown, 1), (drawn, 2)):
        env.check_eq(len([1 for m in ps.marks if m.kind == "text"]), n, "every text is shown")


@case("X03")
def copies(env):
    """A copy shows the same and the two are independent afterwards."""
    cv = env.mod("vector").Canvas()
    a = [(env.real("x0"), 3), (env.real("x1"), 5)]
    cv.addpolyline(a, 0.5)
    cv.addtext((0, 0), "t", 5, anchor="c")
    cp = cv.copy()
    env.check_eq(cp.lines, cv.lines, "a copy shows the same")
    env.check(cp.bbox == cv.bbox, "a copy has the same box")
    one, other = (cv, cp) if env.flag("change the original") else (cp, cv)
    lines, box = list(other.lines), other.bbox.copy()
    deps = sorted(other.deps)
    one.addcircle((0, 0), env.real("r", 1, 9), 0.75)
    one.addtext((0, 0), "t", 5, anchor="tl")
    one.setwidth(7)
    one.resetbbox()
    env.check_eq(other.lines, lines, "changing one leaves the other as it was")
    env.check(other.bbox == box, "changing one leaves the box of the other as it was")
    env.check_eq(sorted(other.deps), deps, "changing one leaves the definitions of the other as they were")
    other.setwidth(7)
    other.addpolyline([(0, 0), (1, 1)], 0)
    ps, _ = interpret(env, other)
    env.check(ps.marks[-1].width == 7, "the copy keeps its own line width")


ANCHORS = {"c": (0.5, 0.5), "t": (0.5, 1), "tr": (1, 1), "r": (1, 0.5), "br": (1, 0), "b": (0.5, 0), "bl": (0, 0), "l": (0, 0.5), "tl": (0, 1)}


@case("X04", quick=[dict(a=a) for a in ANCHORS], validate=6)
def anchored(env, a):
    """Text is placed with its anchor on the position, in the font asked for."""
    cv = env.mod("vector").Canvas()
    x, y = env.real("x"), env.real("y")
    size = env.real("size", 1, 100)
    w, h = env.real("w", 0, 1000), env.real("h", 0, 1000)
    if env.flag("other text first"):
        cv.addtext((5, 6), "other", 7, anchor=env.choice("other", sorted(ANCHORS)))
    cv.addtext((x, y), "abc", size, "Courier", a)
    cv.addpolygon([(0, 0), (1, 0), (0, 1)], 0)
    ps, _ = interpret(env, cv, (w, h))
    m = ps.marks[-2]
    env.check_eq(m.kind, "text", "text is shown")
    s, font, cur = m.extra
    env.check_eq(s, "abc", "the text is shown as given")
    env.check(env.And(font[1] == "Courier", font[2] == size), "text is shown in the font and size asked for")
    fx, fy = ANCHORS[a]
    env.near(cur[0] + fx * w, x, "the anchor of the text is on the position (horizontally)")
    env.near(cur[1] + fy * h, y, "the anchor of the text is on the position (vertically)")
    env.check_eq(len(ps.marks[-1].path), 4, "text adds nothing to the next shape")


TEXT = "a()\\ %"


@case("X04", quick=[dict(n=n) for n in (0, 1, 2, 3)] + [dict(n=2, pad=200)], thorough=[dict(n=n) for n in (0, 1, 2, 3, 4)], validate=6)
def literal(env, n, pad=0):
    """Any text is shown as given."""
    s = "b" * pad + "".join([env.choice("c%d" % i, list(TEXT)) for i in range(n)]) + "c" * pad
    cv = env.mod("vector").Canvas()
    cv.addtext((1, 2), s, 9)
    cv.addpolyline([(0, 0), (1, 1)], 0)
    ps, _ = interpret(env, cv)
    env.check_eq([m.kind for m in ps.marks], ["text", "stroke"], "text does not disturb what follows")
    env.check_eq(ps.marks[0].extra[0], s, "the text is shown as given")


def hexval(env, c):
    o = ord(c)
    return env.ite(o <= 57, o - 48, env.ite(o <= 70, o - 55, o - 87))


@case("X05", quick=[dict(w=w, h=h, color=c) for w, h in ((1, 1), (2, 2), (3, 1), (50, 2), (3, 40)) for c in (False, True)],
      thorough=[dict(w=w, h=h, color=c) for w, h in ((1, 1), (2, 2), (3, 1), (5, 4), (4, 7)) for c in (False, True)])
def image(env, w, h, color):
    """Images carry exactly their samples, upright, in their box."""
    env.opaque_floats()
    k = 3 if color else 1
    data = [env.int("v%d" % i, 0, 255) if w * h < 30 or i % 61 == 33 else (i * 37) % 256 for i in range(w * h * k)]
    cv = env.mod("vector").Canvas()
    pos = None if env.flag("at origin") else (env.real("x", -50, 50), env.real("y", -50, 50))
    scale = env.choice("scale", [1, 2, 0.5, None])
    if scale is None:
        scale = env.real("scale of image", 0.01, 100)
    cv.addimage(data, w, pos, scale, color)
    lines = [l for chunk in cv.lines for l in chunk.split("\n")]
    a = 0
    while "{<" not in lines[a]:
        a += 1
    b = len(lines) - 1
    while ">}" not in lines[b]:
        b -= 1
    head, start = lines[a].split("{<")
    if a == b:
        start, tail = start.split(">}")
        text = start
    else:
        end, tail = lines[b].split(">}")
        text = "".join([start] + lines[a + 1:b] + [end])
    env.check_eq(len(text), 2 * len(data), "two digits per sample")
    for i, v in enumerate(data):
        hi, lo = text[2 * i], text[2 * i + 1]
        env.check(16 * hexval(env, hi) + hexval(env, lo) == v, "samples are written in order")
    ps = PS()
    code, _ = parse(scan(env.mod("vector").COMMONDEF + "\n" + "\n".join(lines[:a] + [head]) + "\n{<>}\n" + "\n".join([tail] + lines[b + 1:])))
    ps.run(code)
    env.check_eq((len(ps.marks), len(ps.saved), len(ps.stack)), (1, 0, 0), "one image is painted and the state restored")
    m = ps.marks[0]
    iw, ih, bits, matrix, _, comps, multi, sc = m.extra
    env.check_eq((iw, ih, bits, comps, multi), (w, h, 8, k, False), "the image has its width, height and depth")
    env.check_eq(list(matrix), [w, 0, 0, -h, 0, h], "the first row is at the top")
    env.check_eq(sc, (w * scale, h * scale), "every sample is a square of the scale given")
    x, y = pos or (0, 0)
    env.check(env.And(m.ctm[1] == x, m.ctm[2] == y), "the lower left corner is at the position given")


# ---------------------------------------------------------------- other programs


NAMES = ["map.png", "two words.png", "it's.png", "a;b&c$d.png"]


def shown_by(env, argv, out):
    """Ghostscript, as far as its command line goes."""
    env.check_eq(argv[0], "gs", "pages are rendered by ghostscript")
    env.check("-dBATCH" in argv and "-dNOPAUSE" in argv, "the renderer does not wait for anybody")
    opts = dict(a[2:].split("=", 1) for a in argv[1:] if a.startswith("-s") and "=" in a)
    files = [a for a in argv[1:] if not a.startswith("-")]
    env.check_eq(len(files), 1, "one page is rendered")
    out.append((opts.get("DEVICE"), opts.get("OutputFile"), env.file_text(files[0]) if env.exists(files[0]) else None, "-dEPSCrop" in argv, files[0]))


def drawing(env, i=0):
    cv = env.mod("vector").Canvas(env.choice("background", [None, 1]) if i == 0 else None)
    cv.addpolyline([(env.real("x%d" % i, -130, 0), 3), (7 + 9 * i, env.real("y%d" % i, -100, 100)), (-120, 150)], 0)
    return cv


def saved(env, cv, *args, **kw):
    cv.save(env.path("want.ps"), *args, **kw)
    return env.file_text(env.path("want.ps"))


def same_text(env, a, b):
    """The same file, whatever other lines end with."""
    return a is not None and a == b


@case("X06", quick=[dict(name=n) for n in NAMES], timeout=20000)
def exported(env, name):
    """A page is rendered with the device asked for, cropped, to the file asked for."""
    v = env.mod("vector")
    calls = []
    status = env.choice("status", [0, 1])

    def run(argv):
        shown_by(env, argv, calls)
        return status
    env.command_fn = run
    cv = drawing(env)
    path = env.path(name)
    device = env.choice("device", [None, "pngmono"])
    kw = env.choice("page", [{}, dict(margin=5), dict(size=200, margin=10)])
    dev = {} if device is None else dict(device=device)
    if env.flag("of a file"):
        text = saved(env, cv, **kw)
        ps = env.path("in " + name)
        cv.save(ps, **kw)
        got = v.export(ps, path, **dev)
        env.check(env.exists(ps), "the page stays")
    else:
        text = saved(env, cv, **kw)
        got = cv.export(path, **dev, **kw)
        env.check(not env.exists(calls[0][4]), "no other file is left behind")
    env.check_eq(got, status, "the result of the renderer is returned")
    env.check_eq(len(calls), 1, "the page is rendered once")
    env.check_eq(calls[0][0], device or "png256", "the device asked for is used")
    env.check(calls[0][1] == path, "the file asked for is made")
    env.check(same_text(env, calls[0][2], text), "the page is that of the canvas")
    env.check(calls[0][3], "the picture is cropped to the page")


@case("X06", quick=[dict(n=n, name=NAMES[n % 4]) for n in (1, 2, 3)] + [dict(n=11, name="m.gif")], thorough=[dict(n=n, name=NAMES[n % 4]) for n in (4, 5)] + [dict(n=101, name="m.gif")], timeout=20000)
def animated(env, n, name):
    """An animation shows its frames in order, all on the same page."""
    v = env.mod("vector")
    calls, made = [], []
    few = 2 if n < 4 else 1
    status = env.choice("status", [0, 1])
    frames = [drawing(env, i) if i < few else v.Canvas() for i in range(n)]
    for i in range(few, n):
        frames[i].addpolyline([(0, 0), (i, i)], 0)
    boxes = [f.bbox.copy() for f in frames]
    path = env.path(name)

    def run(argv):
        if argv[0] == "gs":
            shown_by(env, argv, calls)
            env.put_file(calls[-1][1], str(len(calls)))
            return 0
        env.check_eq(argv[0], "convert", "frames are put together by ImageMagick")
        opts, files = {}, argv[1:]
        while files[0].startswith("-"):
            opts[files[0]] = files[1]
            files = files[2:]
        made.append((opts, [env.file_text(a) for a in files[:-1]], files[-1]))
        return status
    env.command_fn = run
    delay, device, margin = env.choice("options", [(None, None, 0), (25, None, 3), (None, "pngmono", 3), (25, "pngmono", 0)])
    kw = {} if device is None else dict(device=device)
    if margin:
        kw["margin"] = margin
    if delay is not None:
        if n == 1:
            delay = env.int("delay", 0, 9999)
        elif device:
            delay = 0
        kw["delay"] = delay
    env.clock_fn = lambda which: 0
    got = v.animation(path, frames, **kw)
    env.check_eq(got, status, "the result is returned")
    env.check_eq(len(made), 1, "one animation is made")
    opts, shown, target = made[0]
    env.check_eq(shown, [str(i + 1) for i in range(n)], "the frames are shown in order")
    env.check_eq(opts, {"-delay": str(10 if delay is None else delay), "-loop": "0"}, "over and over, with the delay asked for")
    env.check(target == path, "the file asked for is made")
    env.check_eq(len(calls), n, "every frame is rendered once")
    for i, c in enumerate(calls):
        env.check_eq(c[0], device or "png256", "the device asked for is used")
        env.check(not env.exists(c[1]) and not env.exists(c[4]), "no other file is left behind")
    for f, b in zip(frames, boxes):
        env.check(f.bbox == b, "frames stay as they are")
    whole = boxes[0]
    for b in boxes[1:]:
        whole = whole | b
    whole = whole.scale(1.05)
    for i, c in enumerate(calls):
        frames[i].bbox = whole
        env.check(same_text(env, c[2], saved(env, frames[i], **({"margin": margin} if margin else {}))), "every frame shows its canvas on the page of all")
