T = "shapefile has no tests; the guarantees quantify over geometries, attribute values and ways of reading"
F = ["coral/shapefile.py"]
PROPS = [
 dict(id="H01", title="Shapes are read back from a shapefile as they were drawn",
  statement="The shapes of a written shapefile are read back with their type, parts, vertices, elevations and measures (and the types of the parts of multipatches), null shapes among them, in order, together with their own records, whether they are read all at once, one by one, by index in any order, with the index file or without, also when others are read in the middle of reading one by one.",
  forall="all 13 shape types and null shapes; up to three shapes of up to two (thorough three) parts; all coordinates, elevations and measures; rings given open or closed; up to 9000 shapes, 4000 parts or 9000 vertices with a few symbolic ones", why=T,
  files=F, mech=[("drawing", "Writer.poly"), ("writing", "Writer.saveShp"), ("reading", "Reader.shape, Reader.shapes, Reader.iterShapes, Reader.shapeRecords")], note="Coordinates are exact reals carried as tokens through the 8 byte fields. Rings of polygons given open come back closed. Elevations and measures left out are zeros."),
 dict(id="H02", title="Shapefiles follow their specification",
  statement="A parser written after the ESRI specification alone finds in the shp and shx files the file code, version, type, true length in 16 bit words, boxes and ranges of the file and of every shape, consecutive record numbers, record lengths that end where the next record starts, counts, parts, part types, points, elevations and measures in their order, and one index entry per shape with its place and length; also when the writer is used again after more shapes were added.",
  forall="all 13 shape types and null shapes; up to three (thorough four) shapes; all coordinates", why=T,
  files=F, mech=[("headers", "Writer.saveShp, Writer.saveShx"), ("boxes", "Writer.bbox, Writer.zbox, Writer.mbox")], note="The oracle parses the bytes with struct and shares nothing with the reader. Files without any geometry (only null shapes) are outside."),
 dict(id="H03", title="Attributes are read back as they were given",
  statement="Attribute values of every field type (text cut to the size of its field without splitting a character, integers, decimals, dates, logical values, blanks) come back as they were given, in their fields and records, whether given in order or by name, also without any record, in the encoding asked for. Fields keep their names (blanks become underscores, and names are cut to ten bytes without splitting a character), types, sizes and decimals. Records marked as deleted are passed over and their shapes with them, and the others keep their shapes. Reading records one by one is not disturbed by reading others in between.",
  forall="all texts of up to 4 characters of 1, 2 and 3 bytes and blanks, all integers in [-999, 9999], four decimals, all dates, all logical values and blanks; names of up to 12 characters; UTF-8 and Latin-1; one to three records of one or two fields; every choice of given, blank and missing names; every subset of deleted records", why=T,
  files=F, mech=[("writing", "Writer.record, Writer.saveDbf"), ("reading", "Reader.record, Reader.records, Reader.iterRecords, Reader.shapeRecords")], note="Tables of several fields use smaller alphabets and ranges. Blanks at the ends of texts are not kept (the format pads with them)."),
 dict(id="H04", title="Shapes and records are indexed like lists",
  statement="Whatever was read before and in whatever order, the shape, the record and the pair at index i are those at index i of the list of all, counted from the end when negative, and an index outside raises IndexError; with or without the index and attribute files.",
  forall="up to 3 (thorough 6) shapes; all indices up to two outside either end; several orders; all coordinates and values", why=T,
  files=F, mech=[("indexing", "Reader.shape, Reader.record, Reader.shapeRecord")], note=""),
 dict(id="H05", title="The GeoJSON geometry of a shape is its geometry",
  statement="__geo_interface__ of points, multipoints and lines has their coordinates part by part; that of polygons starts a polygon at every clockwise ring and adds the following counter-clockwise rings to it as holes, in order. signed_area is the area of a closed ring, positive when it runs counter-clockwise.",
  forall="all types but multipatches; up to 3 (thorough 4) rings; all coordinates; rings of up to 5 (thorough 8) vertices for the area", why=T,
  files=F, mech=[("geometry", "_Shape.__geo_interface__"), ("orientation", "signed_area")], note="The polygons are right triangles of any place and size."),
 dict(id="H06", title="Shapefiles keep their content when copied, edited or converted",
  statement="A shapefile saved under a path, opened with Editor by that path with or without an extension, added to or not, and saved under another path any number of times keeps its fields, records and shapes, and the first is left as it was. sf2pf makes a P data set with one entity per shape, named by the given function of its record, with the parts and vertices that writing them directly would give.",
  forall="all 13 shape types; up to two (thorough four) shapes; all coordinates and values; conversion of up to two shapes of up to 3 vertices to sizes 1 and 4", why=T,
  files=F + ["coral/pf.py"], mech=[("editing", "Editor"), ("paths", "Writer.save, Reader.load"), ("conversion", "sf2pf")], note="Files live in a model of the file system. The encoding of P data sets themselves is decided by V01-V04."),
 dict(id="H07", title="Shapefiles made by other programs are read as specified",
  statement="Shapefiles and dbf files laid out after their specifications alone are read with everything they hold: type, box and ranges of the file, boxes, parts, part types, points, elevations and measures of every shape, where optional measures may be absent, measures below -10^38 are None, records may be longer than their content and numbered in any way, and the length told in the header may be wrong; fields, texts, numbers (fixed point or floating, on either side of their field), dates, logical values and blanks of every record. A reader may be created before its shapefile and load one after another.",
  forall="all 13 shape types and null shapes; up to three shapes; all coordinates, boxes and ranges, every choice of missing measures; all texts of up to 3 characters of 1 or 2 bytes, several spellings of numbers, all dates and logical values; every order of loading two files of different kinds", why=T,
  files=F, mech=[("header", "Reader.load"), ("geometry", "Reader.shape, Reader.shapes, Reader.iterShapes"), ("attributes", "Reader.fields, Reader.record, Reader.records")], note="The harness writes the bytes with struct and shares nothing with the writer. Measures within 10^37 of -10^38, and those within rounding of -10^39, are outside."),
 dict(id="H08", title="Shapes are added and deleted with their records by an editor",
  statement="Whatever sequence of points and records (in either order) is added to a shapefile with Editor, and whatever shapes are deleted by number, counted from either end, the saved file has exactly the shapes that were not deleted, in order, each with its own record; a point added without a record has a blank one, a record added without a point has a null shape, coordinates left out are zeros, and the shapes of records marked as deleted are not kept.",
  forall="point types 1, 11 and 21; up to three points in the file and up to two operations (thorough four) on it or on a new one; all coordinates and values; files of up to three lines with any subset of deleted records", why=T,
  files=F, mech=[("editing", "Editor.point, Editor.record, Editor.delete, Editor.save, Editor.balance"), ("opening", "Editor.__init__")], note="Only whole shapes are deleted; the parameters of delete and point that address parts and single points are outside (shapes are not addressable that way)."),
]
