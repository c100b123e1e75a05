T = "the existing tests never draw on or save a PostScript canvas"
F = ["coral/vector.py"]
FD = ["coral/vector.py", "coral/defs.ps"]
N = "The emitted program is run by a small PostScript interpreter of the harness on symbolic numbers (exact reals; a number written to the file reads back as itself). "
PROPS = [
 dict(id="X01", title="PostScript shapes are painted in the ink, width and dash asked for",
  statement="Whatever sequence of calls came before, each shape added to a vector canvas with a fill or stroke ink is painted in exactly that ink (gray or RGB), and a line without ink of its own in the ink set last. Line widths and dash patterns apply from where they are set until changed, as they were when set. Exactly the requested shapes are painted, in order, on the background given.",
  forall="all sequences of 2 (thorough 3) drawing calls of 8 kinds with any inks in [0,1], any paint combination, three backgrounds, saved directly, from a copy or scaled to a page; all sequences of 3 (thorough 4) width, dash and drawing calls",
  why=T, files=F, mech=[("ink, width and dash tracking", "Canvas.setgray, setcolor, setink, setwidth, setdash"), ("shapes", "Canvas.addcircle, addpolyline, addpolygon, addroundedpolygon"), ("output", "Canvas.save")], note=N + "Sequences of 2 (thorough 3) calls before a last shape."),
 dict(id="X02", title="PostScript shapes have their given geometry and a tight bounding box",
  statement="Polygons and polylines pass through exactly their points in order (polygons closed), circles have their centre, radius and a full turn, and every corner of a rounded polygon is rounded by an arc between its two sides. The canvas's box covers the shape and touches it on all four sides; shapes without points add nothing and arguments are not modified.",
  forall="all real coordinates and radii of shapes of 1-3 (thorough 4) points",
  why=T, files=F, mech=[("shapes", "Canvas.addcircle, addpolyline, addpolygon, addroundedpolygon"), ("box", "Canvas.bbox")], note=N + "Up to 3 (thorough 4) points; rounded polygons have at least 3."),
 dict(id="X03", title="PostScript pages show everything drawn, and copies are independent",
  statement="The box of a canvas is the union of the boxes of its shapes (horizontal and vertical ones included). A page without size is that box plus the margin; with a size it is that square, with the drawing uniformly scaled and centred, and the background fills it. Saving does not change the canvas and gives the same page every time, complete with the definitions it needs whatever was saved before, and changing a canvas does not change its copies.",
  forall="all real positions of two shapes of every kind; pages of all positions and all margins 0..20, with three box shapes and three backgrounds; copies changed on either side",
  why=T, files=F, mech=[("page set-up", "Canvas.save"), ("box", "Canvas.bbox, resetbbox"), ("copy", "Canvas.copy")], note=N + "A single point drawn alone at the origin is indistinguishable from an empty box and left out; scaled pages use a fixed size and three fixed box shapes."),
 dict(id="X04", title="PostScript text is shown as given, with its anchor on the position",
  statement="Text added to a vector canvas is shown exactly as given, whatever parentheses or backslashes it contains, in the font and size asked for, with the chosen one of nine anchor points of its box on the position. It disturbs no other shape.",
  forall="all positions, font sizes and text extents, for 9 anchors, with or without other text before; all strings of up to 3 (thorough 4) characters of a, ( ) \\ space %",
  why=T, files=FD, mech=[("text", "Canvas.addtext"), ("anchor procedures", "defs.ps"), ("dependencies", "DEPS, read_defs, Canvas.save")], note=N + "Fonts are abstracted to a text box with symbolic width and height at the current point; texts over a six-character alphabet."),
 dict(id="X05", title="PostScript images carry their samples, upright and to scale",
  statement="An image added to a vector canvas has its width, height, depth and number of components, two hexadecimal digits for every sample in order, its first row at the top and its lower left corner at the position given, each sample being a square of the scale given; the graphics state is restored after it.",
  forall="all sample values 0..255, all positions in -50..50 (real), gray and RGB, five sizes, scales 1, 2, 0.5 and all from 0.01 to 100",
  why=T, files=F, mech=[("images", "Canvas.addimage")], note=N + "Images up to 3x1 and 2x2 (thorough 4x7) samples."),
]
