SC = "src/intersects/surface_curve/"
prop("I02", "Curves meet surfaces exactly where the solver reports",
     """Every reported intersection of a surface and a curve lies in all domains, its two points are the surface's and the curve's points at its parameters and coincide within the tolerance; every crossing is reported, and once, in the order along the curve; none is reported where they stay apart.""",
     ["inputs"], "all offsets of an axis-aligned curve against a sheet of axis-aligned facets away from grazing contact; all common translations of curved pairs",
     "tests intersect a sphere with a line", [SC + "intersection_surface_curve.rs", SC + "surface_curve_intersection_bfgs.rs", SC + "surface_curve_intersection_problem.rs", "src/bounding_box/surface_bounding_box_tree.rs"],
     [("search", SC + "intersection_surface_curve.rs find_intersections"), ("refinement", SC + "surface_curve_intersection_bfgs.rs next_iter"), ("candidates", "src/bounding_box/surface_bounding_box_tree.rs try_divide"), ("grouping", SC + "intersection_surface_curve.rs coalesce")],
     "space", ["NurbsSurface::find_intersections", "SurfaceCurveIntersectionBFGS", "SurfaceCurveIntersectionProblem", "SurfaceBoundingBoxTree", "BoundingBoxTraversal", "CurveBoundingBoxTree", "Split for NurbsSurface and NurbsCurve"],
     "Sheets of one to three axis-aligned facets of width 1-2, in either order of directions, over their lengths, against axis-aligned paths of one to three sides: one or two offsets (thorough: all three) free in cells of side 1/2 whose edges, 1/32 wide, are left out, and no side within 1/8 of a facet's border or a parallel facet, the other offsets at the middle of each cell of side 1; a narrow dip (1/16 wide, 7/32 deep) through a facet at every depth but 1/128, division 16; a tilted plane, a saddle and a vault with lines, weighted lines and a parabola moved together by a free translation; division 4 and 8, the random cut of the bounding box tree at 1/2 or 1/8 of its range.",
     "curves moved freely against surfaces where they are not axis-aligned (the quasi-Newton iterates are then no longer exact and grow); touching contact; curves within a surface; surfaces that cross the curve twice at one point.",
     assumptions="rand::random is replaced by a stub that returns the listed draws; numbers of more than 384 bits are rounded to 192 in the moved pairs.")
TS = "src/surface/trimmed_surface.rs"
prop("R04", "Trimming curves given in space come to lie on the surface where they belong",
     """Trimming curves projected along a direction get, for every control point, the parameters of the surface point on the ray from it along the direction, whatever the direction's length and however the curve is slanted; mapped by closest points, those of the nearest surface point.
     Degree, knots and weights are kept, an exterior and every interior is there exactly when given, the surface is kept.""",
     ["inputs"], "one control point moving across the patch, for each direction, curve and set of trimming curves",
     "no test projects or maps a trimming curve", [TS],
     [("projection", TS + " try_project_curve"), ("ray length", TS + " try_project_curve"), ("closest points", TS + " try_map_curve_closest_point"), ("construction", TS + " try_projection, try_map_closest_point")],
     "space", ["TrimmedSurface::try_projection", "try_project_curve", "TrimmedSurface::try_map_closest_point", "NurbsSurface::{find_intersections, find_closest_parameter}"],
     "Flat rectangular patches along two sets of axes and one oblique wall; trimming polylines and weighted parabolas of 3-5 control points, one of which moves freely along one direction in three cells of width 1/16 (minus hairlines); along the normal given with lengths 1/16 to 8, an exterior, an interior or three curves; a curve slanted against the oblique wall with all control points fixed.",
     "curved surfaces, where between its control points the curve is only near the surface; rays that meet the surface more than once; directions oblique to the patch; curves that miss it.",
     assumptions="rand::random is replaced by a stub that returns the listed draws; numbers of more than 384 bits are rounded to 160 on the oblique wall.")
