# what every result is compared with (an independent statement of the property, not the code's own formula)
ORACLES = {
"K01": "the list of symbolic knots itself: runs of repetitions, floor by comparison, mirror image",
"K02": "Cox-de Boor's recursion and its derivative recursion, written from the definition over the same symbolic knots",
"C01": "sum of Cox-de Boor basis functions times weighted control points over the weights, at a symbolic parameter",
"C02": "formal derivatives of the rational function that the definition gives in each span (polynomial differentiation in the parameter)",
"C03": "the definition's value of the curve before, at a symbolic parameter, against the refined curve",
"C04": "the definition's value before; knots end in full multiplicity; segments have Bezier knots and join",
"C05": "the definition's value of the whole curve on each part's domain; domains meet at the clamped parameter",
"C06": "the curve before the insertion; otherwise a deviation bound from the tolerance at a symbolic parameter",
"C07": "the definition's value before at a symbolic parameter; multiplicities raised by the same number",
"C08": "point_at(start + end - t) of the definition; inverting twice is the identity",
"C09": "the symbolic matrix applied to the definition's point",
"C10": "the given points at the solved parameters (the linear system is solved symbolically by the real code)",
"C11": "equality of the derivatives up to degree-1 at both domain ends; cyclic control points",
"C12": "the implicit equation of the circle or ellipse, angular position at both ends, sweep by sign of cross products",
"C13": "linear interpolation between the corners; domain [0,1]; zero-padded coordinates",
"C14": "the exact integral of the speed for polynomial speeds; sums of side lengths; lengths of the parts before and after",
"C15": "dot and cross products of the frames; the rotation between consecutive frames is about the tangents' common normal",
"C16": "distance to every side by projection and clamping",
"C17": "endpoints, position on the curve by the implicit equation or the definition, distance of the curve at the chords' middles",
"C18": "counts, order of knots, end multiplicities and end points read directly",
"S01": "tensor product of Cox-de Boor basis functions times weighted control points over the weights",
"S02": "formal partial derivatives of the definition's rational function",
"S03": "the definition at the regular grid's parameters; domain, spacing and counts; grid faces",
"S04": "the definition's value before at symbolic parameters",
"S05": "the definition's value of the whole on each part's domain",
"S06": "the definition with one parameter fixed (symbolic or a knot)",
"S07": "the profile's or section's definition translated, or at its loft parameter; corners of planes",
"S08": "distance to the axis and height along it, turned by the symbolic angle; implicit sphere",
"S09": "the matrix applied to the definition's point; definition at mirrored parameters; normals' sign",
"S10": "the orthogonal projection to the plane, clamped to the patch",
"G01": "coordinate-wise comparison of all control points and of the definition's points at symbolic parameters",
"G02": "interval overlap per coordinate, both ways",
"G03": "a symbolic point common to both objects is in a reported pair of leaves",
"G04": "shoelace formula and norms of cross products; index arithmetic",
"G05": "signs of exact determinants; crossing by definition; winding by half-planes for convex polygons; projection and clamping",
"R01": "the set of given spans, end to end continuity, accumulated domains, the spans' own points",
"R02": "the unmodified compound's points at mirrored parameters, transformed points, and parts of the range",
"R03": "surface points at mirrored parameters and the trims' images under the same mirror map",
"R04": "coordinates along the two directions of the flat patch, by construction",
"J01": "equality of every field after writing to and reading from JSON (symbolic numbers travel as tagged names)",
"T01": "signed areas in parameter space, edge manifoldness, border = domain's border, definition's points, unit normals",
"T02": "as T01, and the set of vertices on each constrained side",
"T03": "signed areas, edge manifoldness, border = sides of the boundaries, implicit equations of the rims",
"T04": "as T03 in parameter space, and bilinear interpolation of the patch's corners and its partial derivatives",
"P01": "even-odd rule per cell of the arrangement; distance to all sides",
"I01": "crossing of axis-aligned sides by comparison of coordinates; for moved pairs the crossings of the unmoved ones",
"I02": "crossing of axis-aligned facets and sides by comparison of coordinates; for moved pairs the analytic crossings",
"B01": "set algebra at the centre of every cell of the arrangement of all sides, areas by shoelace",
"B02": "the same with holes",
}
