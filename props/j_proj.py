T = "projections and spherical geometry have next to no tests; the laws are trigonometric identities over all places, origins and radii"
F, S = ["coral/proj.py"], ["coral/coord.py", "coral/proj.py"]
TECH = "symbolic execution of the real source; trigonometric terms are normalised exactly in a field of rational functions of half-angle tangents, roots and logarithms, and branches and remaining inequalities are decided by Z3; counterexamples replayed on the real code"
N = "Decided over exact arithmetic (no float rounding). "
PL = "all real longitudes and origins, longitude differences up to a whole turn, latitudes strictly between the poles, radii in [1, 8]"


def P(**k):
    return dict(k, tech=TECH, why=T)


PROPS = [
 P(id="P01", title="Mercator projections are inverted by their inverse",
   statement="In the normal, transverse and oblique Mercator projections, projecting a place and unprojecting the result gives the place again: the latitude, and the longitude up to whole turns.",
   forall=PL + ", except the two places at infinity of the transverse and oblique ones", files=F,
   mech=[("projections", "Mercator, TransMercator, ObliqMercator: geo2rect, rect2geo")], note=N + "Poles of the map excluded."),
 P(id="P02", title="Azimuthal projections are inverted by their inverse on the whole globe",
   statement="In the stereographic, azimuthal equidistant and azimuthal equal-area projections, projecting a place and unprojecting the result gives the place again: the latitude, and the longitude up to whole turns. It holds for oblique, equatorial and both polar aspects, on the near and on the far hemisphere, and at the centre.",
   forall=PL + "; origins at any latitude, exactly at both poles and exactly on the equator; all but the antipode of the origin", files=F,
   mech=[("projections", "Stereographic, AzimuthalEquidistant, AzimuthalEqualArea: geo2rect, rect2geo")], note=N + "Poles excluded as places (their longitude is arbitrary), admitted as centres."),
 P(id="P03", title="The equal-area conic projection is inverted by its inverse",
   statement="Projecting a place with the conic projection of any two standard parallels and unprojecting the result gives the place again, also when the cone opens to the south.",
   forall="all longitudes in [-180, 180], latitudes and standard parallels strictly between the poles, parallels not opposite, radii in [1, 8]", files=F,
   mech=[("projection", "ConicEqualArea")], note=N + "Parallels whose sines cancel (a cylinder) excluded, as in the code."),
 P(id="P04", title="Conformal projections keep angles and report their true scale",
   statement="In the three spherical Mercator projections and the stereographic one, the scale along the meridian and along the parallel is the same everywhere, they cross at right angles, and orientation is kept. scale() of the Mercator projections is exactly that local scale.",
   forall=PL + " where the map is defined; stereographic origins at any latitude, both poles and the equator", files=F,
   mech=[("maps", "geo2rect"), ("scale", "scale")], note=N + "Partial derivatives are exact derivatives of the terms computed by the code."),
 P(id="P05", title="Equal-area projections keep areas",
   statement="In the azimuthal equal-area and the conic equal-area projections the area of a small region on the map is its area on the globe, everywhere and with orientation kept. Meridians and parallels of the conic cross at right angles and its scale() is the scale along the meridian.",
   forall=PL + "; azimuthal origins at any latitude, both poles and the equator; any two standard parallels", files=F,
   mech=[("maps", "AzimuthalEqualArea.geo2rect, ConicEqualArea.geo2rect"), ("scale", "ConicEqualArea.scale")], note=N + "Partial derivatives are exact derivatives of the terms computed by the code."),
 P(id="P06", title="Azimuthal maps show distance and direction from their centre",
   statement="The direction from the centre of an azimuthal map to a place is the azimuth on the globe, and the distance is 2R tan(c/2), Rc or 2R sin(c/2) for stereographic, equidistant and equal-area maps of angular distance c; the equidistant one agrees with the haversine distance. The centre itself is the origin, whatever longitude it is given by.",
   forall=PL + "; origins at any latitude, both poles and the equator", files=S,
   mech=[("maps", "Stereographic, AzimuthalEquidistant, AzimuthalEqualArea: geo2rect"), ("distance", "coord.haversine")], note=N + "Antipode of the centre excluded."),
 P(id="P07", title="The ellipsoidal Mercator map is conformal on its ellipsoid and invertible",
   statement="On an ellipsoid of any eccentricity the scale along meridians and parallels is equal, meridians are vertical, parallels horizontal and scale() is the true local scale. The iterated inverse ends and returns latitude and longitude (up to whole turns).",
   forall="forward: all places but the poles, eccentricities in [0, 0.75], axes in [1, 8]; inverse: every longitude and origin on listed parallels (thorough: every whole degree) of WGS84 and of an ellipsoid of eccentricity 0.6", files=F,
   mech=[("map", "EMercator.geo2rect"), ("inverse", "EMercator.rect2geo"), ("scale", "EMercator.scale")],
   note=N + "The iteration of the inverse has no closed form: it runs in floats on listed parallels, longitudes stay symbolic."),
 P(id="P08", title="Maps are drawn along their axes of true scale",
   statement="Distances along the equator of the Mercator and the central meridian of the transverse map are true, and so are the scales of both conic parallels. The oblique map measures distance from and position along its great circle. Maps reach half a turn to both sides of any origin, also across the date line. Without an origin maps are those of the point at longitude and latitude 0, without a radius or ellipsoid those of the mean radius of WGS84 or WGS84 itself.",
   forall="all places, origins (at most a whole turn apart) and radii in [1, 8], poles excluded", files=F,
   mech=[("axes", "geo2rect of Mercator, EMercator, TransMercator, ObliqMercator, EckertIV, ConicEqualArea"), ("wrapping", "corangle")], note=N + "Oblique origins at any latitude, both poles and the equator."),
 P(id="P09", title="The Eckert IV map keeps areas and is inverted by its inverse",
   statement="The inverse map sends straight horizontal lines to parallels and keeps areas everywhere, with the equator and central meridian as axes. The forward map ends on every parallel and is undone by the inverse, for every longitude and origin.",
   forall="inverse: all map points and radii in [1, 8]; forward: every longitude and origin on 15 listed parallels (thorough: every whole degree)", files=F,
   mech=[("map", "EckertIV.geo2rect"), ("inverse", "EckertIV.rect2geo")],
   note=N + "Newton's iteration of the forward map has no closed form: it runs in floats on listed parallels (tolerance 1e-4 degrees, 1e-2 beyond 85), longitudes stay symbolic."),
 P(id="C06", title="Great-circle distance obeys the spherical law of cosines",
   statement="haversine is R times the angle whose cosine the spherical law of cosines gives, between 0 and half a great circle, the same in both directions, and the plain arc along a meridian. Without a radius it uses the Earth's at the mean latitude.",
   forall="all longitudes up to a whole turn apart, latitudes strictly between the poles, radii in [1, 8]", files=S,
   mech=[("distance", "coord.haversine"), ("radius", "coord.radiusat")], note=N + "Poles excluded except along meridians."),
 P(id="C07", title="Bearing and destination are inverse to each other",
   statement="Starting from one place in the bearing of another and going their distance, destination arrives at the other place. A destination lies on the globe, as far as asked and in the direction asked (bearings are counted counterclockwise from north, within half a turn). Unless a radius is given, distances are on the sphere of the starting latitude.",
   forall="all pairs of distinct, non-antipodal places strictly between the poles; all bearings and distances below half a great circle that do not end at a pole", files=S,
   mech=[("bearing", "coord.bearing"), ("destination", "coord.destination")], note=N),
 P(id="C08", title="The midpoint halves the shorter arc",
   statement="The midpoint of two places is as far from one as from the other, at half their distance, on the shorter great-circle arc.",
   forall="all pairs of non-antipodal places strictly between the poles", files=S, mech=[("midpoint", "coord.midpoint")], note=N),
 P(id="C10", title="The Earth's radius at a latitude is the geocentric one",
   statement="radiusat is the distance of the ellipsoid's surface from its centre at the given geodetic latitude: the equatorial radius at the equator, the polar one at the poles, between them elsewhere, of WGS84 unless another ellipsoid is given.",
   forall="all latitudes and all oblate ellipsoids with axes in [1, 8]", files=S, mech=[("radius", "coord.radiusat")], note=N),
 P(id="C11", title="Angles are brought into half a turn either way without changing direction",
   statement="corangle returns an angle between -pi and pi that differs from the given one by whole turns.",
   forall="all real angles in [-20, 20]", files=S, mech=[("wrapping", "proj.corangle, coord.corangle")], note=N + "Bounded to about three turns (the loop runs once per turn)."),
 P(id="C12", title="The centroid of a region is the area-weighted one around which it is mapped",
   statement="geocentroid averages its polygons' vertices-fan centroids weighted by signed area on the equal-area map, starts from the middle of the region's box, and repeats with a map around the last result until both coordinates settle.",
   forall="regions of one polygon of 3-5 or two of 3-4 vertices (thorough up to 7, and three), all real coordinates; maps that move towards the answer at different paces on either axis", files=["coral/coord.py"],
   mech=[("centroid", "coord.geocentroid")], note=N + "The equal-area projection is replaced by flat stand-ins (it is decided itself by P02, P05, P06)."),
]
