BB = "src/bounding_box/"
prop("G01", "Bounding boxes contain the geometry and are spanned by its control points",
     """The bounding box of a curve, surface or compound curve contains every control point and every point of the geometry, weights included, and each of its sides touches a control point.""",
     ["inputs"], "all control points, weights (where symbolic) and parameters for each knot pattern",
     "tests build a handful of boxes and compare corner coordinates; no test relates a box to points of the curve",
     [BB + "mod.rs", "src/curve/nurbs_curve.rs", "src/surface/nurbs_surface.rs"], [("boxes", BB + "mod.rs From<&NurbsCurve>, From<&NurbsSurface>, From<&CompoundCurve>"), ("control points", "dehomogenized_control_points")],
     "geometry", ["BoundingBox::{from, new_with_points, min, max}", "NurbsCurve::{dehomogenized_control_points, point_at}", "NurbsSurface::{dehomogenized_control_points, point_at}"],
     "Every curve shape of C01 up to degree 3 (thorough: larger degree-3 patterns), fixed, unit and symbolic weights, each coordinate in turn; surfaces of degrees 1-2; chains of 1-3 spans. Decided in parts: the box bounds each control point (any three of them symbolic, the rest fixed); the point is the weighted mean of the control points (all symbolic); the shares are not negative and add up to one (parameter symbolic). Together they put every point in the box.",
     "negative weights; more than three control points varying at once for the box itself; f64 rounding.")
prop("G02", "Box containment and intersection are exact",
     """A box made of any two corners has the smaller and larger coordinates as its sides, the matching centre, size and corners, and edges along the axes. A box contains exactly the points between its sides,
     and two boxes (grown by the tolerance) intersect exactly when they share a point, in either order.""",
     ["inputs"], "all boxes, points and tolerances in 1, 2 and 3 dimensions",
     "tests check single boxes in general position", [BB + "mod.rs"],
     [("containment", BB + "mod.rs contains"), ("intersection", BB + "mod.rs intersects"), ("corners", BB + "mod.rs corners, lines")],
     "geometry", ["BoundingBox::{new, new_with_points, contains, intersects, expand, center, size, corners, lines}"],
     "Dimensions 1-3; coordinates in [-10,10], sizes in [0,10], tolerance absent, zero or symbolic in [0,1].",
     "infinite or NaN coordinates; duplicate entries among the listed edges.")
prop("G03", "Box-tree traversal loses no common point",
     """Halving a curve's or surface's box tree gives two parts that share the cut, cover the whole domain, each shorter than the whole, with every point the original's at the same parameter; surfaces alternate directions; a piece longer than the tolerance (a surface: in either direction) is divided further, one within it is not.
     Traversing two trees reports only undividable pairs, each once, and every point common to the two geometries lies in a reported pair.""",
     ["inputs", "history"], "all interval trees of bounded depth with symbolic division points, all curves per knot pattern, all pairs of crossing segments",
     "tests count or plot pairs of a fixed example; the division point of a curve is drawn at random",
     [BB + "bounding_box_traversal.rs", BB + "curve_bounding_box_tree.rs", BB + "surface_bounding_box_tree.rs"],
     [("traversal", BB + "bounding_box_traversal.rs try_traverse"), ("curve division", BB + "curve_bounding_box_tree.rs try_divide"), ("surface division", BB + "surface_bounding_box_tree.rs try_divide")],
     "geometry", ["BoundingBoxTraversal::try_traverse", "CurveBoundingBoxTree::{new, is_dividable, try_divide, bounding_box}", "SurfaceBoundingBoxTree::{new, is_dividable, try_divide}", "NurbsCurve::try_split", "NurbsSurface::try_split"],
     "Traversal over interval trees of depth up to 2+1 (thorough 2+2) whose sides, division points and common point are symbolic; curve trees for every clamped shape up to degree 3, surface trees for four shape pairs; real curve trees of crossing segments with up to 2 (thorough 3) pieces. The random division point is drawn at the low, middle and high end of its range.",
     "deeper trees; other random draws than the three; f64 rounding.",
     assumptions="the rand crate is replaced by a stand-in that returns chosen draws; curvo's use of it is unchanged")
prop("G04", "Mesh area and mesh merging are exact",
     """A polygon mesh's area is the total area of its triangles, whatever their orientation, position or plane. Adding or summing meshes keeps every triangle with its own corners, in order, and the areas add up.""",
     ["inputs"], "all star-shaped polygons (fixed directions, symbolic distances, symbolic position) and all vertex positions of merged strips",
     "no test computes an area or adds meshes", ["src/polygon_mesh/mod.rs"],
     [("area", "src/polygon_mesh/mod.rs area"), ("merge", "src/polygon_mesh/mod.rs Add, Sum"), ("triangles", "src/polygon_mesh/mod.rs triangles")],
     "geometry", ["PolygonMesh::{new, area, triangles, vertices, faces}", "Add and Sum for PolygonMesh"],
     "Fans of 3-5 (thorough 6) triangles in the plane and in one oblique plane, alternating or equal orientation; merges of strips of 0-3 triangles, two and three meshes.",
     "meshes of other planes; f64 rounding.")
prop("G05", "Orientation, segment crossing, polygon containment, segment distance are exact",
     """Three points are counterclockwise, clockwise or collinear by the sign of the area they span, under any rotation or swap of them. Two non-parallel segments are reported as intersecting exactly when they share a point.
     A polygon contains a point off its boundary exactly when it winds around it. The closest point of a segment is on it, at the parameter returned, and no other point of the segment is closer. Three points count as flat exactly when the area they span is below the tolerance.""",
     ["inputs"], "all points for the predicates; all query points for each polygon shape",
     "tests query a few points of convex polygons in general position; points level with a vertex are not among them",
     ["src/misc/orientation.rs", "src/misc/line.rs", "src/misc/polygon_boundary.rs", "src/curve/nurbs_curve.rs"],
     [("orientation", "src/misc/orientation.rs"), ("segments", "src/misc/line.rs intersects"), ("polygon", "src/misc/polygon_boundary.rs contains"), ("segment distance", "segment_closest_point"), ("flatness", "three_points_are_flat")],
     "geometry", ["orientation", "Line::intersects", "PolygonBoundary::contains", "segment_closest_point", "three_points_are_flat"],
     "Orientation: nine coordinates free. Segments: one of 3 (thorough 5) fixed segments against a free one, both orders. Polygons: star-shaped with 3-4 (thorough 5) symbolic corners, and five fixed ones (convex, two concave, an arrow, a self-crossing star), both orders, free query point. Segment distance: direction fixed, the rest free.",
     "points on a polygon's boundary; collinear segments; degenerate segments; f64 rounding of robust's own expansion arithmetic (exact by its design).",
     assumptions="the robust crate's orient2d is replaced by its exact value (the sign of the determinant), which is what that crate guarantees")
