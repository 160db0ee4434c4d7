CC = "src/contains/contains_curve.rs"
CX = "src/contains/contains_compound_curve.rs"
IC = "src/intersects/curve_curve/"
BO = "src/boolean/"
prop("P01", "A closed boundary contains the points inside of it and no others",
     """For a closed curve or a closed compound of curves, a point whose distance from the boundary is beyond the tolerance is contained exactly when it lies inside, whichever way the boundary runs, whatever its parameterization, and also where the adjacent spans of a compound meet only within a tiny gap.""",
     ["inputs"], "every query point further than the tolerance from the boundary, within a box around it; every gap up to 2^-16",
     "tests query five points of three shapes", [CC, CX],
     [("ray", CC + " x_ray_intersection"), ("box and boundary", CC + " contains"), ("spans", CX + " contains")],
     "planar", ["Contains::contains for NurbsCurve and CompoundCurve", "x_ray_intersection", "find_closest_point", "CurveBoundingBoxTree", "BoundingBoxTraversal"],
     "Square, triangle, diamond, notched square and a house with a sharp spike, as one curve over unit knots or over its arc length, or as a compound of two runs (with a symbolic gap between them for the diamond); both coordinates of the query free over cells of side 1/4 (thorough 1/8); tolerance 1/16, knot domain division 8, the random cut of the bounding box tree at 1/2 or 1/8 of its range (thorough also 1/4 and 7/8). Two circles and a slanted bar with 256 query points each (none within 1/32 of the border), moved together by a free translation, division 32.",
     "other curved boundaries; points within the tolerance of the boundary; self-crossing boundaries; other divisions.",
     assumptions="rand::random is replaced by a stub that returns the listed draws.")
prop("I01", "Curves in the plane meet exactly where the solver reports",
     """Every reported intersection of two curves, a curve and a compound, or two compounds lies in both domains, its two points are the curves' points at its two parameters and coincide within the tolerance; every crossing is reported, and once; none is reported where the curves stay apart.""",
     ["inputs"], "all offsets of one polyline against another away from grazing contact; all common motions (translation, rotation) of pairs of Bezier curves",
     "tests intersect eight fixed pairs", [IC + "intersection_curve_curve.rs", IC + "curve_intersection_bfgs.rs", IC + "curve_intersection_problem.rs", "src/bounding_box/bounding_box_traversal.rs", "src/bounding_box/curve_bounding_box_tree.rs"],
     [("search", IC + "intersection_curve_curve.rs find_intersections"), ("refinement", IC + "curve_intersection_bfgs.rs"), ("candidates", "src/bounding_box/bounding_box_traversal.rs try_traverse"), ("compounds", IC + "compound_curve_intersection.rs")],
     "planar", ["NurbsCurve::find_intersections", "CompoundCurve::find_intersections", "CurveIntersectionBFGS", "CurveIntersectionProblem", "BoundingBoxTraversal", "CurveBoundingBoxTree"],
     "Axis-aligned polylines over their arc length (and the same turned by the 3-4-5 angle) with both offsets free in cells of side 1/2 whose edges, 1/32 wide, are left out, and no side within 1/8 of a parallel one; a dip 1/16 wide and 7/32 deep across a line at every depth but 1/128; a boundary whose start or joint lies on a side of the other, moved along that side; parabola and line, cubic and line, two lines moved together by a free translation or a free rotation, division 16 and 64; the random cut of the bounding box tree fixed at the listed draws. Ten pairs of bars at angles down to 12.7 degrees, circles (rational quarters) and bars with circles, either way round, moved together by a free translation, division 32.",
     "curves moved freely against each other where they are not axis-aligned (the quasi-Newton iterates are then no longer exact and grow); touching and overlapping curves; divisions below 16 with curved curves, where the search is known to miss crossings.",
     assumptions="rand::random is replaced by a stub that returns the listed draws; numbers of more than 384 bits are rounded to 192 in the moved pairs.")
prop("B01", "Boolean operations of two closed boundaries give the right regions",
     """The union, intersection and difference of two closed boundaries that cross or keep apart are regions whose boundaries are closed and which together cover every point once that the operation wants and no other point: nothing missing, nothing extra, nothing twice, holes as interiors, the area that of the result.""",
     ["inputs"], "all offsets of one shape against the other along one axis, for each cell of the other axis, away from grazing contact",
     "tests join a square inside a circle", [BO + "clip.rs", BO + "boolean_curve.rs", BO + "boolean_compound_curve.rs", BO + "degeneracies.rs", "src/trim/mod.rs"],
     [("linking", BO + "clip.rs clip"), ("entry and exit", BO + "clip.rs a_flag, b_flag"), ("trimming", "src/trim/mod.rs try_trim_range"), ("degeneracies", BO + "degeneracies.rs Degeneracy::new"), ("holes", BO + "clip.rs union")],
     "planar", ["Boolean::boolean for NurbsCurve and CompoundCurve", "clip", "Degeneracy::new", "TrimRange::try_trim_range", "Contains::contains", "find_intersections"],
     "Squares, bars, an L, a U and a clockwise square with sides of 1-3 over their arc length, as curves and as compounds of two or three runs, seven pairs by three operations; one offset free in cells of side 1/2 whose edges, 1/32 wide, are left out, and no side within 1/8 of a parallel one, the other offset at the middle of each of its cells; boundaries whose start or joint lies on a side of the other, moved along that side; solver tolerance 1/64, division 2. The result is compared at the centre of every cell of the arrangement of all sides and by area. The same pairs of slanted bars and circles as for I01, moved together by a free translation: number of regions and holes, closed loops that run along the border of the result, areas of bars.",
     "curved and oblique boundaries but those moved together; shared or touching sides; self-crossing boundaries; finer tolerances (the same halving runs longer).",
     assumptions="rand::random is replaced by a stub that returns the listed draws.")
prop("B02", "Boolean operations of regions with holes give the right regions",
     """The union, intersection and difference of a region with a closed boundary or another region are regions that together cover every wanted point once and no other: holes cut, filled, joined or passed on, parts inside of holes kept as regions of their own.""",
     ["inputs"], "all offsets of one shape against the other along one axis, away from grazing contact",
     "tests join one annulus with one rectangle around its hole", [BO + "boolean_region.rs", BO + "clip.rs"],
     [("region and boundary", BO + "boolean_region.rs Boolean<&CompoundCurve>"), ("region and region", BO + "boolean_region.rs Boolean<&Region>"), ("holes", BO + "boolean_region.rs distribute_interiors_to_regions")],
     "planar", ["Boolean::boolean for Region with NurbsCurve, CompoundCurve and Region", "distribute_interiors_to_regions", "subtract_from_regions", "clip", "Contains::contains"],
     "A square ring with a bar, a unit square and a U; a ring and a smaller ring, either way round; three operations each; one offset free in cells of side 1/2 whose edges, 1/32 wide, are left out, and no side within 1/8 of a parallel one, the other offset fixed so that all meetings of the sides occur along the way (thorough: more fixed offsets). A round ring with a bar through it, a bar into it, a circle across it and one beside it, moved together by a free translation.",
     "regions with several holes; curved and oblique boundaries but those moved together; shared or touching sides.",
     assumptions="rand::random is replaced by a stub that returns the listed draws.")
