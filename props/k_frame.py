T = "frame has no tests; the guarantees quantify over projections, frames, scales and data sets"
F = ["coral/frame.py"]
PROPS = [
 dict(id="M01", title="A saved frame is loaded as the same frame",
  statement="Loading a frame that was saved (also when it was itself loaded and saved again) gives the same kind of projection with the same centre or parallels and the same sphere or ellipsoid, so that every place is mapped where it was, and the same bounding box.",
  forall="all nine projections, all real centres, parallels, radii, ellipsoids and boxes, centres exactly at the poles; two generations; places of the projection's domain; decimal fractions and large floats to the last digit", why=T,
  files=F + ["coral/proj.py"], mech=[("saving", "Frame.save"), ("loading", "frame.load")], note="Exact arithmetic (degrees and radians convert without rounding); JSON numbers are modelled as exact tokens. Eckert IV compared on three parallels."),
 dict(id="M02", title="Places and lines are drawn where their projection puts them",
  statement="The pixel of a place is the whole-numbered cell of the given scale that contains its projection, also for negative coordinates, and the planified line is the simplification of the projected line at that scale, closed unless asked otherwise.",
  forall="all affine stand-ins for a projection with any offset, all places, all real scales in [0.01, 100] (lines: two scales, up to 3 (thorough 4) points)", why=T,
  files=F + ["coral/coord.py"], mech=[("cells", "Frame.point"), ("lines", "Frame.planify")], note="The projection is a stand-in (projections are decided by P01-P09); simplification itself is decided by C03 and C04."),
 dict(id="M03", title="The names remembered for a frame are those of the entities within it",
  statement="cachenames records every entity with a part whose projected box reaches into the frame, once and in the order of the data set, none that lies beside the frame, and returns their number. loadnames reads the names back exactly as they were, also empty ones and ones with blanks at their ends.",
  forall="data sets of up to three entities of one or two parts of up to 2 (thorough 3) points, all real coordinates and frames, all names of up to 2 characters without line breaks; entities of 40 and 300 (3000) parts, and as many entities", why=T,
  files=F + ["coral/bbox.py"], mech=[("recording", "Frame.cachenames"), ("reading", "Frame.loadnames")], note="Whether a part that only touches the border of the frame counts is left open. Larger data sets vary in one direction only."),
]
