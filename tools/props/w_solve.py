NC = "src/curve/nurbs_curve.rs"
CN = "src/closest_parameter/curve_closest_parameter_newton.rs"
SN = "src/closest_parameter/surface_closest_parameter_newton.rs"
prop("C14", "Arc length is right, and parameters at a length lie at that length",
     """The length of a curve is the length of its trace over its domain - of a compound curve the sum over its spans. The parameter at a given length lies in the domain and cuts off that length within the tolerance, the whole length being a valid request.
     Dividing by count gives one more parameter than parts with evenly spaced lengths from the start to the end; dividing by a length gives its multiples until less than one is left; each parameter cuts off its length within the fixed tolerance.""",
     ["inputs"], "all side lengths, motions along a line, hodograph values, radii and requested lengths, for each pattern",
     "tests measure the unit circle and one polyline", [NC, "src/region/compound_curve.rs"],
     [("length", NC + " try_length, compute_bezier_segment_length"), ("segments", NC + " try_decompose_bezier_segments"), ("search", NC + " compute_bezier_segment_parameter_at_length"), ("division", NC + " try_divide_by_length, try_divide_by_count"), ("spans", "src/region/compound_curve.rs try_length")],
     "solve", ["NurbsCurve::{try_length, try_parameter_at_length, try_divide_by_length, try_divide_by_count, try_decompose_bezier_segments}", "CompoundCurve::try_length"],
     "Polylines (clamped and not, 2D and 3D, weights 1 or fixed), monotone motion of degrees 2-3 along a line over 13 clamped and unclamped knot vectors, cubics with Pythagorean hodographs of one and two spans, quarter circles and compounds of up to three spans; lengths within a factor 4 of a nominal one; search tolerances of a tenth to a half of the length, so up to four halvings per request; divisions into 1-3 parts and by free lengths. With curved cubics the division has one free coefficient.",
     "curves whose speed is not rational; backtracking; finer tolerances (the same loop runs longer); the quadrature error itself, which is part of the result and stays within the 1e-6 compared here.",
     assumptions="the gauss-quad crate is replaced by its own Legendre rule with a hook that sums symbolic integrands exactly (same nodes and weights).")
prop("C16", "The nearest point on a polyline or compound of polylines is the nearest",
     """The closest parameter returned for any point lies in the curve's domain, the closest point is the curve's point there, and no point of the curve is nearer; for a compound curve no point of any span is.""",
     ["inputs"], "every query point within a box of side 12 around the curve and every rival point of the curve",
     "tests try a handful of query points", [NC, CN, "src/closest_parameter/curve_closest_parameter_problem.rs", "src/region/compound_curve.rs"],
     [("first guess", NC + " find_closest_parameter"), ("iteration", CN + " next_iter"), ("spans", "src/region/compound_curve.rs find_closest_point")],
     "solve", ["NurbsCurve::{find_closest_parameter, find_closest_point}", "CurveClosestParameterNewton", "CurveClosestParameterProblem", "CompoundCurve::find_closest_point", "segment_closest_point"],
     "Ten fixed polylines of 1-5 sides with evenly spaced knots, open and closed, sharp corners, 2D and 3D, and two compounds of two and three spans; the query point free.",
     "curved curves and unevenly spaced polylines, where five Newton steps from the best of a few samples need not find the nearest point; weights.")
prop("S10", "The nearest parameter on a flat patch or cylinder is the perpendicular's foot",
     """For a point over a flat rectangular patch the closest parameter is, within 1e-4, the foot of its perpendicular; for a point beside it the parameter of the nearest point on the patch's border; always within the domain. For a point over a flat patch of any four corners it is the foot as well; for a point inside or outside a cylinder it is that of the point straight ahead, on either side of the seam.""",
     ["inputs"], "query points along lines parallel to either side of the patch, within and beyond it, on the plane and off it",
     "tests try one query point", ["src/surface/nurbs_surface.rs", SN, "src/closest_parameter/surface_closest_parameter_problem.rs"],
     [("first guess", "src/surface/nurbs_surface.rs find_closest_parameter"), ("iteration", SN + " next_iter"), ("domain", SN + " constrain")],
     "solve", ["NurbsSurface::find_closest_parameter", "SurfaceClosestParameterNewton", "SurfaceClosestParameterProblem"],
     "Three patches (degrees 1x1, 1x1 with two spans, 2x1; axis-aligned and tilted; domains [0,1] to [1,3]); one coordinate of the query free within 3/16 of a side (thorough: the whole side) or up to one side length beyond; the other fixed, both free beyond two sides; 0, 1/4 or 1/2 normal lengths off the plane. Two askew patches at four feet each, at every height of 1/8 to 2; a cylinder at five directions, two distances and every height along its axis. Up to 100 iterations.",
     "curved surfaces other than the cylinder; queries free in all three coordinates; queries near the corners of the starting grid (thorough only).")
