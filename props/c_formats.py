PF = ["coral/pf.py"]
RG = ["coral/grid.py", "coral/rg.py"]
FS = "files live in an in-memory file system (symbolic runs) or a scratch directory (replay)"
PROPS = [
 dict(id="V01", title="Variable-length quantities round-trip and are minimal",
  statement="Every non-negative integer written as a variable-length quantity is read back exactly and uses the minimal number of bytes, of which exactly the last has a clear top bit; signed quantities and NUL-terminated names also round-trip. Reading consumes exactly the bytes of one value, so concatenated values are recovered in order.",
  forall="all values up to 2^70 (signed 2^64), sequences of three (four) values, all byte strings of up to 3 bytes, names of up to 4 characters", why="carries between 7-bit groups are not sampled", files=PF + ["coral/rg.py"],
  mech=[("VLV", "pf.writevlv, readvlv, rg.writevlv, readvlv"), ("signed", "rg.writesvlv, readsvlv"), ("names", "pf.writeascii, readascii")], note="Bounded value ranges; bytes fully symbolic."),
 dict(id="V02", title="P files keep names, order, parts and vertices of every entity",
  statement="Everything written to a P file is read back: the number and order of the entities, their names, and each entity's parts with their vertex counts, whether read by index or by name and in any order. One displacement is reported per vertex.",
  forall="up to three entities with symbolic names and real coordinates, several part/vertex shapes including single-point parts, coordinate sizes 1, 2, 4, 8; data sets of up to 260 entities, 150 parts or 4200 vertices (more than 65536 bytes) with one vertex anywhere", why="no test touches the format", files=PF,
  mech=[("writer", "pf.Writer"), ("reader", "pf.Reader"), ("offset table", "pf.Writer.close, pf.Reader.__init__")], note="Bounded shapes; names of 1 ASCII character (several entities: of 0 or 2 characters, two kinds); " + FS + "; haversine stubbed in symbolic runs."),
 dict(id="V03", title="P coordinates are off by at most half a quantum of the entity's box",
  statement="A coordinate read back from a P file differs from the one written by at most half a quantum, where the quantum is the width (height) of the entity's bounding box, rounded outwards to the 65535-step world grid, divided by the largest code. The reported displacements are those between the original and the decoded coordinates, in order.",
  forall="all real points of four boxes (world, city, a meridian segment, the corner of the world), and all pairs of longitudes, for coordinate sizes 1, 2, 4, 8", why="quantisation error depends on the exact position within the box", files=PF,
  mech=[("quantisation", "pf.Writer.write"), ("decoding", "pf.Reader.read"), ("box", "pf.writebbox / readbbox")], note="Reals (no float rounding); boxes enumerated, points symbolic."),
 dict(id="V04", title="P files accept any coordinate, wrap longitudes and drop closing points",
  statement="Longitudes outside [-180, 180] are wrapped by whole turns and latitudes are brought onto the globe, so stored coordinates always lie on it; coordinates on the globe are kept. A ring's repeated first vertex is dropped and nothing else is, entities of zero width lying exactly on a world-grid line are stored, and the caller's lists are not modified.",
  forall="all longitudes in [-1000, 1000], latitudes in [-500, 500], rings of up to 5 vertices with real coordinates, grid lines at 5 positions", why="wrapping and degenerate boxes need particular inputs", files=PF,
  mech=[("normalisation", "pf.Writer.write"), ("grid", "pf.writebbox")], note="Reals (no float rounding); one coordinate symbolic at a time."),
 dict(id="G01", title="Integer fields store every value of their range exactly",
  statement="An integer field encodes every integer of its range (and null, when nullable) in exactly its declared size, decodes it to the same value, keeps null distinct from every value, and rejects exactly the values outside the range. The size is the least of 1, 2, 4 and 8 bytes that holds the range; exactly the ranges that fit none are refused.",
  forall="all limits lo < hi in [-2^62, 2^62] and all values between them, nullable or not; sizes for all limits in [-2^63, 2^64]", why="size boundaries (255/256, 65535/65536, ...) combined with null", files=RG[:1], mech=[("integer codec", "grid.IVar, grid._Numeric / SIZE_SPAN")], note="Unbounded within 64-bit ranges."),
 dict(id="G02", title="Real fields are quantised with at most half a step of error",
  statement="A real field encodes every real of its range in its declared size with an error of at most half a step of the field, stays within the range, is exact at both limits, keeps null distinct and rejects values outside the range. One-byte codes are shown to preserve order.",
  forall="all reals of five ranges at sizes 1, 2, 4, 8, and the limits of every integer range within 1e6", why="rounding and null codes at the ends of the range", files=RG[:1], mech=[("real codec", "grid.FVar")], note="Exact real arithmetic: rounding of 64-bit floats is outside."),
 dict(id="G03", title="Text fields and rows are stored column by column",
  statement="A text field stores every text that does not end in a null character and whose UTF-8 form fits its size, pads it, reads it back exactly, keeps null distinct from every text and rejects longer texts. A row has the size of its fields, and every column is read back independently of the others.",
  forall="all Unicode texts of up to 2 (3) characters, field sizes 2-12, all rotations of a four-column row", why="multi-byte characters at the size limit", files=RG[:1], mech=[("text codec", "grid.SVar"), ("rows", "grid.GRow")], note="Bounded text length; characters are any Unicode scalar except NUL, which may only come first."),
 dict(id="G04", title="RangeGrid data sets return every entity written, in any order",
  statement="Every entity written to a RangeGrid file is read back by id, by position and sequentially from any cursor position, with its segments, rows and values (to field precision), including empty segments and ids with spaces. The header restores the column names, types, sizes, ranges and nullability, and an unknown id is reported.",
  forall="data sets of up to four entities in five shapes, every sequence of three reads, all values; all column ranges within 2^40; up to 261 entities, 270 segments, 300 rows or 255 columns with one symbolic row", why="cursor bookkeeping depends on the history of reads", files=RG, mech=[("writer", "rg.Writer"), ("reader", "rg.Reader"), ("header", "rg header text")], over=["inputs", "histories"], note="Bounded shapes and three reads; " + FS + "."),
]
