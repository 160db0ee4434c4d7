CC = "src/region/compound_curve.rs"
prop("R01", "A compound curve joins its spans in any order into one continuous curve",
     """Given curves that connect end to end, in any order and each in either direction, a compound curve keeps every one of them, in order along the chain, turned where needed so that all run the same way,
     with their domains laid end to end from zero. Evaluation at a parameter gives the point of the span there, the shared joint at a span's end, and nothing outside the domain. It is closed exactly when the chain is, and its first and end points are those of the chain.""",
     ["inputs"], "all joint positions, control points and parameters, for every order and direction of the given spans",
     "tests join two arcs, or spans already in order", [CC, "src/region/curve_direction.rs", "src/misc/end_points.rs"],
     [("joining", CC + " new"), ("direction", "src/region/curve_direction.rs"), ("evaluation", CC + " point_at"), ("closedness", CC + " is_closed")],
     "regions", ["CompoundCurve::{new, point_at, is_closed, spans}", "CurveDirection::new", "EndPoints", "NurbsCurve::invert", "KnotVector::invert"],
     "Chains of 1-4 spans mixing lines, rational and two-piece quadratics, unclamped lines and polylines with a free knot, in 2D and 3D: open ones straight on with free lengths (fixed for 4 spans), closed ones around a scaled 3-4-5 triangle; every permutation and every choice of directions (up to 3 spans; 4 spans open).",
     "spans that do not connect; joints closer together than 1/4; chains that touch themselves; f64 rounding.")
prop("R02", "Inverting, transforming and trimming compound curves and regions keep the shape",
     """The inverse of a compound curve runs through the same points backwards over the same domain, its span domains in order, and inverting twice restores it. Transforming it, or a region with holes, moves every point by the transformation.
     Trimming to a range keeps exactly that part of the curve: nothing outside, nothing missing, nothing twice, no empty pieces, each point at its own parameter; a reversed range keeps the complement.""",
     ["inputs"], "all control points, matrices and parameter pairs, ends at a joint or anywhere else",
     "tests trim one circle of two arcs away from its joints and never evaluate an inverted compound curve",
     [CC, "src/trim/mod.rs", "src/region/mod.rs"], [("inverse", CC + " invert"), ("trim", "src/trim/mod.rs try_trim_range"), ("region", "src/region/mod.rs")],
     "regions", ["CompoundCurve::{invert, transform, point_at, is_closed, try_trim_range}", "Region::{transform, invert, into_tuple, from}", "NurbsCurve::{try_split, try_trim_range}"],
     "Chains of 1-3 (thorough 4) spans as in R01; trim ends anywhere at least 2^-20 from a joint or knot and from each other, or exactly on a joint.",
     "trim ends within 2^-20 of each other or of a joint without being on it; projective matrices; f64 rounding.")
prop("R03", "Inverting or transforming a trimmed surface keeps what is trimmed",
     """Inverting a trimmed surface mirrors its trimming curves along with the surface's parameters, so the same points of the surface are bounded, with each curve running backwards. Transforming it moves the surface and leaves the trimming curves alone.""",
     ["inputs"], "all control nets, trimming curves, matrices and parameters for each knot pattern",
     "no test inverts or transforms a trimmed surface", ["src/surface/trimmed_surface.rs"],
     [("inverse", "src/surface/trimmed_surface.rs invert"), ("transform", "src/surface/trimmed_surface.rs transform")],
     "regions", ["TrimmedSurface::{new, invert, transform, exterior, interiors}", "NurbsSurface::{invert, transform}", "NurbsCurve::{transform, invert}"],
     "Six surface shapes of degrees 1-2, clamped and unclamped; one to two trimming curves, lines and rational quadratics, with or without an exterior.",
     "projection onto surfaces (numerical search); f64 rounding.")
prop("J01", "Serialization restores every value exactly",
     """Writing a knot vector, curve, surface, compound curve, region or trimmed surface and reading it back gives the same degrees, knots, control points, weights and parts. Input with a required field missing or given twice is refused.""",
     ["inputs"], "all control points, weights and knots, for each structure",
     "tests round-trip one object each, and compare only some of them",
     ["src/curve/nurbs_curve.rs", "src/surface/nurbs_surface.rs", CC, "src/surface/trimmed_surface.rs"],
     [("curve", "src/curve/nurbs_curve.rs Serialize, Deserialize"), ("surface", "src/surface/nurbs_surface.rs Serialize, Deserialize"), ("compound", CC + " Serialize, Deserialize"), ("trimmed", "src/surface/trimmed_surface.rs Serialize, Deserialize")],
     "regions", ["Serialize and Deserialize of NurbsCurve, NurbsSurface, CompoundCurve, Region, TrimmedSurface, KnotVector"],
     "Curves of five patterns in 2D and 3D, surfaces of four, compound curves of 1-3 spans, regions of 0-2 holes, trimmed surfaces with and without exterior and 0-2 holes; through JSON text.",
     "other data formats; how JSON text rounds an f64.")
