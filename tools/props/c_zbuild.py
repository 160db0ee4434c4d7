NC = "src/curve/nurbs_curve.rs"
prop("C06", "Removing knots undoes insertion and stays within the tolerance",
     """Removing a knot that is redundant (inserted before, once or several times, into a curve that may already have it) succeeds, removes at least the redundant copies, and leaves a well-formed curve with exactly that many copies fewer;
     when no more are removed the original control points come back. A knot that is not redundant is only removed while the curve moves by no more than the requested tolerance. Removing a value that is no knot, or an end knot, is refused and changes nothing.""",
     ["inputs"], "all control points, weights and removed parameters for each knot pattern",
     "the existing doc test removes one knot of a polyline",
     [NC], [("removal", NC + " try_remove_knot")],
     "construct", ["NurbsCurve::{try_remove_knot, try_refine_knot}", "KnotVector::multiplicity"],
     "Clamped degrees 1-3 (thorough 4) and unclamped degrees 1-3, with and without (repeated) interior knots; the removed knot is symbolic and inserted 1..degree times, or an existing interior knot inserted again, or an existing one alone. Weights one; fixed unequal for degree <= 2; symbolic for small nets. Tolerance 0.25.",
     "the moving bound is checked for one removed copy of a non-rational curve (the tolerance test of the code is in homogeneous space); weights outside [1/4,4]; f64 rounding.")
prop("C07", "Degree elevation keeps the curve",
     """Elevating a curve to any higher degree gives a well-formed curve of that degree that traces the original at every parameter of the same domain, with every knot's multiplicity raised by the increment, rational or not.
     A target not above the current degree leaves the curve as it is.""",
     ["inputs"], "all control points, weights and parameters for each clamped knot pattern and increment",
     "tests elevate fixed Bezier curves by one",
     [NC], [("elevation", NC + " try_elevate_degree")],
     "construct", ["NurbsCurve::try_elevate_degree", "Binomial", "NurbsCurve::point_at"],
     "Clamped degrees 1-5 with none, simple, double, uneven and mixed interior knots and increments 1-4 (thorough 6); degrees 4-7 (thorough 8) with up to 10 interior knots of multiplicity 1-4 and increments 1-2 (thorough 4); weights one, fixed, symbolic; symbolic interior knots for degree <= 3.",
     "unclamped curves; interior knots of multiplicity degree+1; larger increments; f64 rounding.")
prop("C10", "Interpolated curves pass through their points",
     """Interpolating n points with degree p gives, for n > p, a clamped, well-formed, non-rational curve of that degree with n control points over [0,1] that passes through every point, at the parameter proportional to the accumulated chord length; n <= p is refused.""",
     ["inputs"], "symbolic chord lengths and positions for each (n, p)",
     "tests interpolate fixed point lists",
     [NC], [("interpolation", NC + " try_interpolate, try_interpolate_control_points")],
     "construct", ["NurbsCurve::try_interpolate", "try_interpolate_control_points", "KnotVector::basis_functions", "nalgebra LU"],
     "Degrees 1-3, up to 6 points (thorough 7) in 2D and 3D: chord directions rational and fixed, the first 0-2 chord lengths symbolic (in [1/4,4]) and the first point symbolic.",
     "other chord directions, more symbolic lengths (the linear system then is a large rational function), coincident neighbours (a zero chord), degrees above 3, f64 rounding and pivoting.")
prop("C11", "Periodic curves close smoothly",
     """A periodic curve through control points is well-formed, reported as closed, spans one unit per point, equals the uniform B-spline over the cyclic control points on every span, and joins itself at the seam with equal points, tangents and (degree >= 3) second derivatives.
     A periodic interpolation passes through every given point at its knot, closes in the same way, and its knot steps follow the chosen style (equal, chord length, square root of it). Too few points are refused.""",
     ["inputs"], "all control points (periodic), all points (uniform interpolation), scale and position (chordal)",
     "tests compare one fixed periodic curve per style with stored values",
     [NC], [("periodic", NC + " try_periodic"), ("periodic interpolation", NC + " try_periodic_interpolate")],
     "construct", ["NurbsCurve::{try_periodic, try_periodic_interpolate, is_closed}", "KnotStyle::parameterize", "KnotVector::{uniform, basis_functions}", "nalgebra LU"],
     "Periodic: degrees 1-4 (thorough 5), n from p to p+3, all control points symbolic. Interpolation: degree 2 with 3 or 5 points, degree 3 with 4-6; uniform: all points symbolic; chordal: points of a fixed rational polygon, scaled and moved symbolically; centripetal: moved symbolically, up to 4 points (thorough 5).",
     "degree 2 through an even number of points (the interpolation matrix is singular there), other polygons for the chordal styles, f64 rounding and pivoting.")
prop("C12", "Circles, ellipses and arcs are exact",
     """Circles, ellipses and their arcs are well-formed rational quadratics over the angle range [start, end] whose every point lies exactly on the conic in the plane of the given axes, that start and end (and, at every joint of the pieces, are) at the point of their parameter's angle,
     and that run counterclockwise from the x towards the y axis. An end angle not above the start angle is refused.""",
     ["inputs"], "all centers, radii, start and sweep angles for each choice of axes",
     "tests check a full circle and one arc against stored control points",
     [NC, "src/misc/ray.rs"], [("arc", NC + " try_arc, try_ellipse_arc"), ("circle", NC + " try_circle, try_ellipse"), ("tangent intersection", "src/misc/ray.rs find_intersection")],
     "construct", ["NurbsCurve::{try_circle, try_ellipse, try_arc, try_ellipse_arc}", "Ray::find_intersection"],
     "2D and 3D, three fixed pairs of orthonormal rational axes (and an oblique pair for the ellipse); center, radii, start angle in [-pi/2,pi/2] (0 for an elliptic arc) and sweep symbolic: [1/8, pi-1/8], [pi+1/16, 3pi/2-1/16], [3pi/2+1/16, 2pi-1/16]; full turns. Cosine and sine are symbols tied by c^2+s^2=1, the addition theorems and their ranges.",
     "sweeps within 1/16 of a multiple of pi/2, sweeps below 1/8, axes other than the listed ones, orientation of arcs of three pieces, elliptic arcs with a start other than 0, f64 rounding.")
prop("C13", "Polylines, normalisation and dimension changes",
     """A polyline is a degree-one curve that passes through its points at knots equal to the accumulated chord length (divided by the total when normalised) and is straight in between. Normalising the knots maps the domain affinely to [0,1] and keeps the curve.
     Lifting a 2D curve puts it in the plane z=0; dropping weights and casting keep degree, knots and control points.""",
     ["inputs"], "all control points, weights and parameters for each knot pattern; all chord lengths",
     "tests build a few polylines and compare knots",
     [NC], [("polyline", NC + " polyline"), ("normalisation", NC + " normalize_knots, src/knot/knot_vector.rs normalize"), ("dimension", NC + " elevate_dimension, dehomogenize, cast")],
     "construct", ["NurbsCurve::{polyline, normalize_knots, elevate_dimension, dehomogenize, cast, dehomogenized_control_points}"],
     "Polylines of 2-4 points (thorough 6): all chord lengths symbolic with rational directions, or (2-3 points) all coordinates symbolic. Normalisation etc.: the curve shapes of C01, weights fixed and symbolic.",
     "coincident neighbours, other knot patterns, f64 rounding.")
prop("C18", "Curve construction validates, and closed and clamped are reported truly",
     """A curve is constructed exactly when there are more control points than the degree and exactly points+degree+1 knots; what is accepted keeps the given degree, control points and weights, with the knots in ascending order.
     A curve is reported clamped exactly when both end knots have full multiplicity, closed when it ends where it starts, and not closed when its ends are apart.""",
     ["inputs"], "all control points, weights and knot values for each combination of counts around the limits",
     "tests only construct well-formed curves",
     [NC], [("validation", NC + " try_new"), ("predicates", NC + " is_closed, is_clamped"), ("sorting", "src/knot/knot_vector.rs")],
     "construct", ["NurbsCurve::{try_new, is_closed, is_clamped, weights}", "KnotVector::{new, is_clamped}"],
     "Degrees 1-3, 1-5 points, knot counts within 2 of the right one; distinct symbolic knots in any order (2-3 points; thorough 4); the curve shapes of degree <= 3, ends equal or at least 1/64 apart.", "larger counts; NaN inputs; ends closer than 1/64 but not equal.")
