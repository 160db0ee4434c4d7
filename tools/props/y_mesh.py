TR = "src/tessellation/tessellation_region.rs"
TU = "src/tessellation/trimmed_surface.rs"
TC = "src/tessellation/tessellation_compound_curve.rs"
prop("T03", "Meshes of compound curves and regions cover the region and nothing else",
     """Sampling a compound curve goes through its spans in order, every joint once, and returns to its start exactly when the compound is closed. Triangulating a region uses the boundary's samples as vertices and gives counter-clockwise triangles that cover the region once: every boundary side is a side of the mesh, its only borders, holes stay open, and the areas agree, whichever way the boundaries run.""",
     ["inputs"], "every position of a corner or of a hole within a box, and of the corners of a chain",
     "tests do not triangulate regions", [TR, TC],
     [("constraints", TR + " tessellate insert, add_constraint"), ("selection of faces", TR + " tessellate contains"), ("joints", TC + " tessellate")],
     "mesh", ["Tessellation for Region and CompoundCurve", "PolygonBoundary::contains", "PolygonMesh", "spade's ConstrainedDelaunayTriangulation (vendored source, executed symbolically)"],
     "Quadrilateral with one corner free in a box of side 2, dart and L with one corner free in boxes of side 1/2 and 1, as one to three spans, run either way; the same with one or two holes moved freely by up to 1/8-1/4 (thorough: up to 1/2 with several free); a disc and a half disc sampled to 0.1-0.5, moved freely by 1/2 or with a hole moved along a line; chains of one to three spans with 1-4 corners free.",
     "boundaries that repeat points or cross themselves; holes touching one another or the outside; more than two holes.",
     assumptions="robust's orient2d and incircle adaptive predicates are replaced by the exact signs they compute; rand::random by a stub that returns 1/2; exact constants of more than 192 bits are rounded to 96 in the discs.")
prop("T04", "Trimmed surface meshes lie on the surface and cover what is left of it",
     """Meshing a trimmed surface, with or without prescribed trim parameters, gives vertices whose points and normals are the surface's at their parameters, and counter-clockwise triangles that cover the part inside the outer trim and outside the inner ones once in parameter space: the trims' corners, or exactly the prescribed parameters, are vertices, the trims' sides are the mesh's only borders, and without an outer trim the patch's own border is.""",
     ["inputs"], "every position of a trim within a box, and of the prescribed parameters along the trims' sides",
     "tests do not mesh trimmed surfaces", [TU, "src/tessellation/trimmed_surface_constraints.rs"],
     [("prescribed parameters", TU + " trimmed_surface_adaptive_tessellate constraints"), ("trim sampling", TU + " tessellate_uv_curve_adaptive"), ("closing", TU + " insert_constraint"), ("selection of faces", TU + " contains")],
     "mesh", ["Tessellation and ConstrainedTessellation for TrimmedSurface", "tessellate_uv_curve_adaptive", "NurbsSurface::{point_at, normal_at, tessellate}", "PolygonBoundary::contains", "spade's ConstrainedDelaunayTriangulation (vendored source, executed symbolically)"],
     "A tilted plane and a saddle (unrefined) over a square; an outer trim of four or five sides and up to two holes moved freely by up to 1/8-1/4 (thorough: more); sampled by themselves, at their corners, or at a free parameter within each side; circular trims (hole or outside) of a flat patch, free centre and tolerance.",
     "curved trims other than circles of a flat patch, and refined surfaces (numbers of vertices); trims that touch each other or the patch's border; prescribed parameters of some trims only.",
     assumptions="robust's orient2d and incircle adaptive predicates are replaced by the exact signs they compute.")
