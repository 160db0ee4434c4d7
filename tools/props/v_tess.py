TC = "src/tessellation/tessellation_curve.rs"
TS = "src/tessellation/surface.rs"
TN = "src/tessellation/adaptive_tessellation_node.rs"
TM = "src/tessellation/surface_tessellation.rs"
prop("C17", "Curve tessellation starts and ends on the curve and is as flat as asked",
     """Tessellating a curve gives points on the curve in order, from its start to its end, none twice. Between neighbours the curve leaves their chord by no more than the tolerance at the places looked at, so a curve that is straight comes back as its two ends and a polyline as its corners;
     a closed curve does not collapse. A compound curve gives its spans' points in turn with each joint once.""",
     ["inputs"], "all heights of the free control points and the tolerance, for each pattern, wherever the random look between the ends falls (low, middle, high)",
     "tests count the points of one circle", [TC, "src/tessellation/tessellation_compound_curve.rs"],
     [("refinement", TC + " tessellate_adaptive"), ("flatness", TC + " three_points_are_flat"), ("chains", "src/tessellation/tessellation_compound_curve.rs")],
     "tess", ["Tessellation for NurbsCurve and CompoundCurve", "three_points_are_flat", "NurbsCurve::point_at"],
     "Graphs over their own parameter, degrees 2-3, clamped and unclamped, with one to three free heights and depth up to what a tolerance in an octave needs; three of them run through in a parameter interval of 2^-16 to 2^10; straight lines of degrees 2-3, polylines with free corners and weights, one closed cubic, chains of 1-3 (thorough 4) spans. The random fraction is one of three values for all draws of a run.",
     "independent random fractions within a run; departure from the chord at places not looked at (tested at four for a quadratic with a factor 1.25); discontinuous curves; f64 rounding.",
     assumptions="the rand crate is replaced by a stub that returns given draws.")
prop("T01", "A tessellated surface covers its domain once, without gaps, on the surface",
     """The triangles of a tessellated surface cover the parameter rectangle exactly once: none is turned, neighbours share whole edges (no gaps where one side is refined further), nothing sticks out. Every vertex lies on the surface at its parameter with the surface's unit normal (a finite one where the surface has none).
     Cells are divided the minimum number of times at least and the maximum number at most; a flat surface is not refined further; otherwise refinement goes on until the normals along every edge differ by no more than the tolerance or the depth limit is reached (cells with a corner where the surface has no normal are left as they are).""",
     ["inputs"], "position, size, slopes and the tolerance over its whole range (each interval of tolerances giving one refinement), for each pattern, division and depth limits",
     "tests do not look at a tessellated surface's triangles at all", [TS, TN, "src/tessellation/adaptive_tessellation_processor.rs", TM],
     [("grid and neighbours", TS + " surface_adaptive_tessellate, north, south, east, west"), ("refinement", TN + " should_divide"), ("division", "src/tessellation/adaptive_tessellation_processor.rs iterate"), ("seams", TN + " get_all_corners"), ("triangles", TM + " triangulate")],
     "tess", ["Tessellation for NurbsSurface", "AdaptiveTessellationProcessor::{divide, iterate}", "AdaptiveTessellationNode::{should_divide, get_all_corners, get_edge_corners, evaluate_mid_point, center, fix_normals}", "SurfaceTessellation::{new, triangulate}", "NurbsSurface::rational_derivatives"],
     "Tilted planes over six patterns of degrees 1-3, creased strips, quarter cylinder, cone with its apex, and an eighth of a sphere with its pole in either parameter; free position, size, slopes; tolerance anywhere from 1/128 (1/32 for full depth) to 1; minimum divisions 1x1, 3x5, 1x3; depths (0,0) to (3,3) and unlimited in effect (8).",
     "other surfaces (their normals need irrational roots); finer tolerances; the quality of triangles; f64 rounding.")
prop("T02", "Constrained tessellation uses exactly the given parameters on each side",
     """When the parameters along some sides of a surface are prescribed (the ends included), the tessellation has exactly those vertices on each such side, whatever the refinement inside, the minimum depth or the other sides; it still covers the domain without gaps, its vertices on the surface with unit normals.""",
     ["inputs"], "position, size, slopes, tolerance and (for planes) the prescribed parameters themselves within 3/16 wide ranges",
     "tests do not constrain a surface's tessellation", [TS, "src/tessellation/boundary_constraints.rs", TM],
     [("merging", TS + " merge_sorted_parameters"), ("flags", TS + " surface_adaptive_tessellate"), ("evaluation", "src/tessellation/boundary_constraints.rs BoundaryEvaluation"), ("division", TN + " should_divide")],
     "tess", ["ConstrainedTessellation for NurbsSurface", "BoundaryConstraints", "BoundaryEvaluation::{new, closest_point}", "merge_sorted_parameters", "AdaptiveTessellationNode::should_divide"],
     "Nine ways of constraining one to four sides with 2-5 parameters; planes of degrees 1-3, quarter cylinders and a crease; unrefined, refined by a free tolerance to depth 3, and minimum depth 1-2. Different parameters on opposite sides together with a constrained third and fourth side: unrefined only (see the known finding).",
     "lists without the domain's ends; closed surfaces (the nearest prescribed vertex is found by distance in space); f64 rounding.")
