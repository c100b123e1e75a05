F = ["coral/raster.py"]
PROPS = [
 dict(id="K01", title="A raster canvas is an independent store of one colour per pixel",
  statement="A new canvas shows its background at every position. Writing a pixel changes what is read at that position to the colour written and changes no other pixel, on black-and-white, gray and colour canvases of every size, also across byte boundaries. On black-and-white canvases every colour but 0 sets the pixel, which then reads 1. Canvases have nothing in common.",
  forall="all positions written and read and all colours, for canvases of several sizes up to 9x2 (thorough 17x2, 5x5)", why="bit addressing goes wrong only at particular widths and positions", files=F,
  mech=[("bit store", "BWCanvas"), ("gray store", "GrayCanvas"), ("colour store", "ColorCanvas")], over=["inputs", "histories"], note="Bounded canvas sizes, up to two writes; positions and colours symbolic."),
 dict(id="K02", title="Saved raster images are valid netpbm files of the pixels drawn",
  statement="A saved canvas is a binary netpbm file of the right kind whose header gives the size and depth and whose samples, in row order (bits packed most significant first and rows padded to whole bytes), are exactly the pixels drawn.",
  forall="canvases up to 10x2 (17x3), two pixels at every position with every colour", why="row padding and sample order depend on the width", files=F, mech=[("save", "BWCanvas.save, GrayCanvas.save, ColorCanvas.save")], note="Bounded sizes; read back by an independent netpbm reader in the harness."),
 dict(id="K03", title="Lines are connected and never more than half a pixel off",
  statement="A line contains its two end pixels and exactly one pixel for every step of its longer axis, each at most half a pixel from the exact line and connected to the next, from any start in any direction. Outlines of polygons are the union of the lines between consecutive vertices, the closing one included, smoothed if asked for or, when nothing is said, on gray and colour canvases.",
  forall="all integer starts, longer extents up to 6 (13), all shorter extents; outlines of up to 3 (4) vertices", why="error accumulation depends on the slope", files=F, mech=[("Bresenham", "BaseCanvas.line"), ("outlines", "BaseCanvas.strokepolygon")], note="Start positions unbounded, extents bounded."),
 dict(id="K04", title="Blending mixes pixel and colour in proportion to opacity",
  statement="Drawing with an opacity gives the exact mix of background and colour to the nearest level, always between the two: zero opacity changes nothing and full opacity replaces the pixel. Other pixels are not touched.",
  forall="all levels for 8 opacities, and all opacities in [0, 1] for 25 pairs of levels, gray and colour", why="rounding depends on the exact values", files=F, mech=[("blend", "GrayCanvas.blend, ColorCanvas.blend, __setitem__")], note="One factor of the product symbolic at a time; reals without float rounding."),
 dict(id="K05", title="Filled polygons cover exactly their interior, without gaps or overlaps",
  statement="A filled rectangle paints exactly the pixels of its half-open box, and a triangle paints on each row the run between its sides to half a pixel, in either orientation and from any first vertex. Polygons that share an edge leave no gap and do not overlap, polygons of one fill are united, a reversed inner polygon is a hole, and nothing outside the canvas is painted.",
  forall="all integer horizontal positions of the vertices on canvases 3-4 (6) pixels wide and 2-3 (4) rows high; rectangles on 2x300 and 300x2 canvases", why="gaps appear only for particular slopes and shared edges", files=F, mech=[("edge marks", "BaseCanvas.scanpolygon"), ("filling", "BaseCanvas.fillpolygons")], note="Bounded canvas; vertex rows enumerated, columns symbolic; reals without float rounding."),
 dict(id="K07", title="Anti-aliased lines spread the right amount of ink around the exact line",
  statement="An anti-aliased line gives every column it crosses a total opacity equal to the part of the column it covers, centred on the exact line, with opacities between 0 and 1. Lines between pixels of a canvas never touch pixels outside their box, at any border.",
  forall="all real heights of both ends, longer extents up to 4 (9) with ends at quarter pixels, both axes and directions; all lines between pixels of a 4x3 canvas", why="the ends of the line and the borders need particular positions", files=F, mech=[("Wu's algorithm", "BaseCanvas.aaline")], note="Longer extent enumerated, the other symbolic; positive coordinates; reals without float rounding."),
 dict(id="D01", title="Gradients pass through their stops and mix linearly between them",
  statement="A gradient gives the colour of a stop at its position, the linear mix of the two neighbouring stops between them and the outermost colours beyond, whatever the order of the stops, including sharp steps. Hexadecimal codes are '#' and three digits, each the colour part on a scale of 15.",
  forall="all positions in [0, 1] with fixed colours, all colours at six positions, for nine arrangements of stops; one to three stops moved anywhere; all positions for the four presets", why="positions on and next to stops", files=["coral/gradient.py"], mech=[("stops", "Gradient.__init__"), ("mixing", "Gradient.get"), ("codes", "Gradient.get_hex")], note="One factor of the product symbolic at a time; reals without float rounding."),
 dict(id="X06", title="Pages are rendered and animations assembled as asked for",
  statement="Exporting a canvas or a saved page hands the renderer that very page, with the device and output file asked for (whatever characters the name has), returns the renderer's result and leaves no other file behind. An animation renders every frame on the one page that holds all frames, assembles them in order with the delay asked for, and leaves the frames and the disk as they were.",
  forall="all positions of the drawings (real), devices, margins, sizes, delays and results of the programs, file names with blanks and quotes, animations of up to 3 (5) and of 11 (101) frames", why="order and quoting depend on names and on the number of frames", files=["coral/vector.py"], mech=[("rendering", "Canvas.export, export"), ("animation", "animation")], note="gs and convert are not run: the harness answers for them from their command lines."),
]
