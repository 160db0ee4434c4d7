NS = "src/surface/nurbs_surface.rs"
SSH = """Pairs of u/v knot patterns: degrees 1-3 in either direction (thorough: up to 5), none/simple/repeated interior knots, uneven spacing, non-zero starts, unclamped and half-clamped directions;
control nets symbolic in [-10,10]^2 or ^3, weights one, fixed unequal, or symbolic in [1/4,4]; parameters symbolic over the domain plus every breakpoint in each direction."""
SOUT = "other pairs of knot patterns, degrees above 3 (thorough 5), weights outside [1/4,4], symbolic parameters closer than 2^-20 to a knot (the knots themselves are covered), f64 rounding."
prop("S01", "Surface evaluation is the tensor-product rational B-spline definition",
     """For every NURBS surface and every parameter pair of its domain (edges, corners and interior knot lines included), the evaluated point equals the weighted tensor-product B-spline combination of its control net,
     whatever the two degrees and whether the directions are clamped or not. Domains, intervals, the dehomogenized net and the transposed net report the surface's own data in the right direction.""",
     ["inputs"], "all control nets, weights and parameters for each pair of knot patterns; symbolic interior knots for selected pairs",
     "tests evaluate almost no surface directly; mixing up the two directions only shows when degrees, knots and net sizes differ",
     [NS], [("evaluation", NS + " point, point_at"), ("domains", NS + " knots_domain, u_knots_domain, v_knots_domain, knots_domain_at"), ("net", NS + " dehomogenized_control_points, transposed_control_points")],
     "surface", ["NurbsSurface::{point_at, knots_domain, knots_domain_at, knots_domain_interval, dehomogenized_control_points, transposed_control_points}", "KnotVector::{find_knot_span_index, basis_functions}", "dehomogenize"],
     SSH, SOUT)
prop("S02", "Surface derivatives are the true partial derivatives",
     """For every NURBS surface, every parameter pair of its domain and every pair of orders within the requested total order, the reported rational derivatives equal the partial derivatives of the surface
     (from the right at interior knots, from the left at the end of the domain), mixed derivatives included, also when the order exceeds a degree. The normal is the cross product of the two first partial derivatives.""",
     ["inputs"], "all control nets, weights and parameters for each pair of knot patterns, total order up to 4",
     "tests only see derivatives through closest-point and tessellation of a few fixed surfaces",
     [NS], [("derivatives", NS + " derivatives, rational_derivatives"), ("normal", NS + " normal_at"), ("basis derivatives", "src/knot/knot_vector.rs derivative_basis_functions")],
     "surface", ["NurbsSurface::{rational_derivatives, derivatives, normal_at}", "KnotVector::derivative_basis_functions", "Binomial"], SSH, SOUT)
prop("S03", "Regular sampling and tessellation of a surface lie on it",
     """Regular sampling with any numbers of divisions returns exactly the surface points (and, on request, the derivatives of every order asked for) at the evenly spaced parameter grid from corner to corner, in the right order.
     Regular tessellation returns those points with their own parameters, unit normals along the surface normal, and faces that cover every grid cell exactly once with consistently oriented triangles over valid indices.""",
     ["inputs"], "all control nets and weights for each pair of knot patterns; 1-3 by 1-3 divisions, derivative order 0-2",
     "no test asks for different division counts or for derivatives on a surface with different degrees",
     [NS], [("points", NS + " regular_sample_points"), ("derivatives", NS + " regular_sample_derivatives, derivatives_given_bases_knot_spans"), ("normals", NS + " regular_sample_normals"), ("tessellation", NS + " regular_tessellate")],
     "surface", ["NurbsSurface::{regular_sample_points, regular_sample_derivatives, regular_sample_normals, regular_tessellate}", "KnotVector::{regulary_spaced_basis_functions, regularly_spaced_derivative_basis_functions, regularly_spaced_span}"],
     SSH + " Normals: a sloped control net with one symbolic height, so that the normal exists.", SOUT + " More divisions; derivative samples of rational surfaces of higher degree; degenerate normals.")
prop("S04", "Inserting knots never changes a surface",
     """Refining a surface in either direction with parameters of its domain (repetitions and existing knots included) yields a well-formed surface whose knot vector in that direction is the old one plus the inserted values,
     whose other direction is untouched, and whose shape is unchanged at every parameter pair. Inserting nothing changes nothing.""",
     ["inputs"], "all control nets, insertion parameters and evaluation parameters for each pair of knot patterns and each direction",
     "tests refine a few fixed surfaces through other operations",
     [NS], [("refinement", NS + " try_refine_knot"), ("row refinement", "src/curve/nurbs_curve.rs try_refine_knot")],
     "surface", ["NurbsSurface::try_refine_knot", "NurbsCurve::try_refine_knot", "NurbsSurface::point_at"], SSH + " Insert: one symbolic parameter, the same twice, two symbolic, each interior knot up to full multiplicity.", SOUT + " Rational nets of total degree above 4.")
prop("S05", "Splitting a surface cuts it without changing it",
     """Splitting a surface in either direction at any parameter, existing knots included, gives two well-formed surfaces of the same degrees whose domains in that direction are exactly the two sides, whose other domain is unchanged,
     and which trace the original there, edges included; for a clamped direction a parameter outside the domain acts as the nearest end of it.""",
     ["inputs"], "all control nets, cut parameters and evaluation parameters for each pair of knot patterns and each direction",
     "tests split a few fixed surfaces at one parameter",
     ["src/split/mod.rs"], [("split", "src/split/mod.rs Split for NurbsSurface"), ("refinement", "src/curve/nurbs_curve.rs try_refine_knot")],
     "surface", ["Split::try_split for NurbsSurface", "NurbsCurve::try_refine_knot"], SSH + " Cut: symbolic, each interior knot, or up to 5 beyond either end.", SOUT + " Rational nets of unclamped patterns, of total degree above 4, or above 3 with a symbolic cut; an unclamped direction cut outside its domain.")
prop("S06", "Isocurves and boundary curves lie on the surface",
     """The isocurve at any parameter of either direction, existing knots of any multiplicity and both ends included, is a well-formed curve with the degree and knots of the other direction that traces the surface at that fixed parameter.
     The boundary curves are the four edges in the documented order.""",
     ["inputs"], "all control nets, weights, fixed and running parameters for each pair of knot patterns and each direction",
     "tests never take an isocurve at a repeated interior knot",
     [NS], [("isocurve", NS + " try_isocurve"), ("boundary", NS + " try_boundary_curves")],
     "surface", ["NurbsSurface::{try_isocurve, try_boundary_curves, try_refine_knot}"], SSH, SOUT)
prop("S09", "Transforming and flipping surfaces",
     """Applying an affine map to a surface maps every point of it by that map, keeping knots and weights. Flipping it in u, in v or in both (and inverting it) reverses exactly the named directions over domains of the same
     length, keeps the others, and doing it twice restores the surface.""",
     ["inputs"], "all affine maps, control nets, weights and parameters for each pair of knot patterns",
     "tests flip or transform a few fixed surfaces and compare a few control points",
     [NS, "src/misc/invertible.rs"], [("transform", NS + " Transformable for NurbsSurface"), ("flip", NS + " flip, Invertible"), ("transform helper", "src/misc/transformable.rs")],
     "surface", ["Transformable::transformed for NurbsSurface", "NurbsSurface::flip", "Invertible::inverse for NurbsSurface"], SSH + " Affine maps: all entries symbolic in [-4,4].", SOUT + " Projective maps (the library divides out no perspective factor and does not claim to).")
