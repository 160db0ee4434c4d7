NS = "src/surface/nurbs_surface.rs"
NC = "src/curve/nurbs_curve.rs"
prop("S07", "Planes, extrusions and lofts contain the curves they are built from",
     """A plane surface runs linearly through its corner points. An extrusion is the profile curve moved along the translation vector, the profile itself at one edge and the translated profile at the other, with the profile's parametrisation.
     A loft through any number of sections (of different degrees, knots and domains) is well formed, has the highest section degree across and the requested degree (capped by the number of sections) along, and contains every section;
     through two sections it is the straight ruled surface between them.""",
     ["inputs"], "all origins, axes, profile control points, weights, translations, section control points and spacings, and all parameters, for each knot pattern",
     "tests loft one set of sections and do not check that the sections lie on the result",
     [NS, NC], [("plane", NS + " plane"), ("extrusion", NS + " extrude"), ("loft", NS + " try_loft, try_unify_curve_knots"), ("interpolation", NC + " try_interpolate_control_points_at")],
     "sheets", ["NurbsSurface::{plane, extrude, try_loft, point_at}", "NurbsCurve::{try_elevate_degree, try_refine_knot, normalize_knots}", "try_interpolate_control_points_at", "chord_length_parameters"],
     "Extrusions of every curve shape of C01 up to degree 3 (thorough: 5), fixed and symbolic weights. Lofts of two sections of 11 (thorough 16) pairs of clamped shapes, all control points symbolic and at least 1/8 apart; of 3-4 (thorough 5) translated copies of a curve at symbolic spacings; of 3-4 straight sections whose two columns advance at different symbolic rates or where one column stands still; loft degrees 1-3.",
     "unclamped sections; three or more general sections (columns in general directions); nonlinear section positions; f64 rounding.")
prop("S08", "Surfaces of revolution, spheres and straight sweeps are exact",
     """Revolving a profile about an axis of any length through any centre by any angle in (0, 2*pi] gives a well-formed surface over [0,1] x the profile's domain whose every point keeps the profile's height and distance from the axis,
     and which is the profile turned by the proportional share of the angle at each joint of its quarter pieces, both ends included. A sphere has every point at its radius from the centre and its poles on the axis.
     Sweeping along a straight rail moves the profile rigidly along it.""",
     ["inputs"], "all profiles (per knot pattern), centres, angles, radii and parameters for each axis direction",
     "tests check that a revolve or sphere succeeds, or compare control points for a unit axis",
     [NS], [("revolve", NS + " try_revolve"), ("sphere", NS + " try_sphere"), ("sweep", NS + " try_sweep"), ("frames", NC + " compute_frenet_frames")],
     "sheets", ["NurbsSurface::{try_revolve, try_sphere, try_sweep, point_at}", "segment_closest_point", "Ray::find_intersection", "NurbsCurve::{try_arc, compute_frenet_frames}", "FrenetFrame::matrix"],
     "Four axis directions (z; oblique unit; length 5; length 1/2), centre symbolic; profiles of 5 curve shapes with control points at symbolic heights and distances in fixed directions from the axis, or (one axis, one quarter) anywhere at least 1/4 off it, the first optionally on it; angles symbolic within each quarter, 1/16 away from multiples of pi/2, and the full turn. Cosine and sine are symbols tied by c^2+s^2=1 and the addition theorems. Sweeps: profiles of degree 1 and 2, three rail directions, rail length and position symbolic, loft degrees 1 and 3.",
     "other axis directions; angles within 1/16 of a multiple of pi/2 except 2*pi; curved rails (the sweep only interpolates sampled frames there; see C15 for the frames); f64 rounding.")
prop("C15", "Moving frames along a curve are orthonormal, follow the tangent and do not twist",
     """The frames computed along a curve sit on the curve at their parameters, have the unit tangent pointing forward along the curve, are right-handed and orthonormal,
     and each is the previous one turned by the angle between the tangents about the axis perpendicular to both: they do not twist. One frame is returned per parameter.""",
     ["inputs"], "all positions, lengths and parameters for each set of directions of a polyline; all quadratic planar curves of a fixed base",
     "tests compute frames nowhere except through a sweep whose result is not examined",
     [NC, "src/misc/frenet_frame.rs"], [("frames", NC + " compute_frenet_frames"), ("accessors", "src/misc/frenet_frame.rs")],
     "sheets", ["NurbsCurve::{compute_frenet_frames, tangent_at, point_at}", "nalgebra Rotation3::from_axis_angle"],
     "Polylines of 1-3 pieces in seven sets of rational directions (equal, orthogonal, oblique and sharply turning neighbours), origin, lengths and parameters symbolic; quadratic curves in each coordinate plane with symbolic heights, frames at the ends (thorough: and the middle).",
     "other directions, consecutive opposite tangents, curves with vanishing tangents, f64 rounding.")
