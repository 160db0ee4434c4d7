NC = "src/curve/nurbs_curve.rs"
KV = "src/knot/knot_vector.rs"
SHAPES = """Curve shapes: clamped degrees 1-5 (no, simple, double, triple and mixed interior knots, uneven spacing, negative and non-unit domains) and
unclamped degrees 1-3 (uniform, uneven, half-clamped); control points symbolic in [-10,10]^2 and ^3, weights one, fixed unequal, or symbolic in [1/4,4]."""
SYMK = "for selected shapes the interior knots are symbolic too (each anywhere within 43% of the gap to its neighbours)"
OUT = "degrees above 5, more than 4 distinct interior knots, weights outside [1/4,4], symbolic parameters closer than 2^-20 to a knot (knots themselves are covered), f64 rounding."
prop("C01", "Curve evaluation is the rational B-spline definition",
     """For every NURBS curve and every parameter of its knot domain (both ends and interior knots included), the evaluated point equals the weighted
     B-spline combination of its control points, in 2D and 3D, rational or not, clamped or not. Regularly sampled points are exactly the points at the evenly spaced parameters
     of the requested range, first and last included; control points, weights, domain and clamping of a parameter into the domain report the curve's own data.""",
     ["inputs"], "all control points, weights, parameters and (for selected shapes) knots, for each knot pattern of a list of degrees 1-5",
     "tests evaluate a few fixed curves at a few parameters and compare with stored numbers",
     [NC, KV], [("point evaluation", NC + " point, point_at"), ("span location", KV + " find_knot_span_index"), ("basis functions", KV + " basis_functions"), ("sampling", NC + " sample_regular_range")],
     "curve", ["NurbsCurve::{point_at, sample_regular_range, sample_regular_range_with_parameter, dehomogenized_control_points, weights, knots_domain, knots_domain_interval, knots_constrain}", "KnotVector::{find_knot_span_index, basis_functions}", "dehomogenize"],
     SHAPES + " One symbolic parameter over the whole domain, plus every breakpoint; " + SYMK + "; 3 to 5 samples over the domain or a symbolic subrange.", OUT)
prop("C02", "Curve derivatives are the true parametric derivatives",
     """For every NURBS curve and every parameter of its domain, the tangent and second-derivative vectors equal the first and second parametric derivatives
     of the rational curve (taken from the right at an interior knot, from the left at the end of the domain). The combined point-and-tangent query returns the same values.""",
     ["inputs"], "all control points, weights and parameters for each knot pattern of a list of degrees 1-5",
     "tests touch derivatives only through tessellation and intersection of a few fixed curves",
     [NC, KV], [("derivatives", NC + " derivatives, rational_derivatives, tangent_at"), ("basis derivatives", KV + " derivative_basis_functions")],
     "curve", ["NurbsCurve::{tangent_at, second_derivative_at, point_tangent_at, rational_derivatives, derivatives}", "KnotVector::derivative_basis_functions", "Binomial"],
     SHAPES + " One symbolic parameter over the whole domain plus every breakpoint, orders 1 and 2; " + SYMK + ".", OUT)
prop("C03", "Inserting knots never changes a curve",
     """Adding a knot, or refining with any ascending list of parameters of the domain (repetitions up to the degree and existing knots included), yields a well-formed curve
     whose knot vector is the old one plus exactly the inserted values and whose shape is unchanged at every parameter, rational or not. Inserting nothing changes nothing, and adding a knot outside the knot
     range is refused and leaves the curve as it was.""",
     ["inputs"], "all control points, weights, insertion parameters and evaluation parameters",
     "tests insert into one or two fixed curves and compare stored values; none inserts into a rational curve with unequal weights at many positions",
     [NC], [("refinement", NC + " try_refine_knot"), ("single insertion", NC + " try_add_knot")],
     "curve", ["NurbsCurve::{try_refine_knot, try_add_knot, point_at}", "KnotVector::{find_knot_span_index, add, multiplicity}"],
     SHAPES + " Insert: one symbolic parameter, the same symbolic parameter 2..degree times, two ascending symbolic parameters, each interior knot up to full multiplicity, a knot then a symbolic parameter; then a symbolic evaluation parameter; " + SYMK + ".", OUT + " Lists longer than the degree or 2 distinct values.")
prop("C04", "Clamping and Bezier decomposition keep the curve",
     """Clamping yields a well-formed curve with full end multiplicities that agrees with the original on the original domain. Decomposition into Bezier segments yields, for each non-empty
     knot span of the domain, exactly one clamped single-span segment of the same degree over that span that traces the original there, in ascending order without gaps.""",
     ["inputs"], "all control points, weights and parameters for each knot pattern",
     "tests clamp or decompose a few fixed non-rational curves",
     [NC], [("clamping", NC + " try_clamp"), ("decomposition", NC + " try_decompose_bezier_segments")],
     "curve", ["NurbsCurve::{try_clamp, is_clamped, try_decompose_bezier_segments, try_add_knot, try_refine_knot, point_at}"],
     SHAPES + " Symbolic evaluation parameter; " + SYMK + ".", OUT)
prop("C05", "Splitting and trimming cut a curve without changing it",
     """Splitting a curve at any parameter inside its domain, existing knots included, gives two well-formed curves whose domains are exactly the two sides and which trace the original there, end points included;
     a parameter outside the domain acts as the nearest domain end. Trimming to a range keeps exactly that range, and with the range's ends given in descending order keeps exactly the two outer parts.""",
     ["inputs"], "all control points, weights, cut parameters and evaluation parameters",
     "tests split fixed curves at a few parameters and compare the end points",
     ["src/split/mod.rs", "src/trim/mod.rs"], [("split", "src/split/mod.rs Split for NurbsCurve"), ("trim", "src/trim/mod.rs try_trim_range")],
     "curve", ["Split::try_split for NurbsCurve", "Trim::try_trim_range for NurbsCurve", "NurbsCurve::try_refine_knot"],
     SHAPES + " Cut parameters symbolic or any interior knot; symbolic evaluation parameter; " + SYMK + ".", OUT + " Splitting an unclamped curve outside its domain.")
prop("C08", "Inverting a curve reverses its direction only",
     """The inverse of a curve has the same domain length, is well-formed, and its point at distance d from the end of its domain is the original's point at distance d from the start.
     Inverting twice gives back the same knots and control points.""",
     ["inputs"], "all control points, weights and parameters for each knot pattern",
     "one test inverts knots of a fixed vector",
     [NC, KV], [("inversion", NC + " Invertible::invert"), ("knot inversion", KV + " Invertible")],
     "curve", ["Invertible::{invert, inverse} for NurbsCurve and KnotVector", "NurbsCurve::point_at"],
     SHAPES + " Symbolic parameter; " + SYMK + ".", OUT)
prop("C09", "Affine transformation of a curve maps its points",
     """Transforming a curve by any affine matrix keeps knots and weights and moves the point at every parameter to exactly the image of the original point.""",
     ["inputs"], "all affine matrices, control points, weights and parameters",
     "tests transform curves only by fixed translations and rotations on the way to other results",
     [NC], [("transform", NC + " Transformable")],
     "curve", ["Transformable::{transform, transformed} for NurbsCurve", "NurbsCurve::point_at"],
     SHAPES + " All entries of the affine matrix symbolic (linear part in [-3,3], translation in [-10,10]).", OUT + " Projective matrices.")
