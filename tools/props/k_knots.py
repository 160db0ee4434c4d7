KVF = "src/knot/knot_vector.rs"
prop("K01", "Knot vector queries match the knot sequence",
     """For every ascending knot vector with any pattern of repeated knots: the multiplicities list each distinct knot once with its number of occurrences; being clamped means both end knots occur more than degree times;
     the domain and clamping into it follow from the degree; the floor of a value is the last knot not above it, and adding a value puts it right after its floor and changes nothing else.
     For every parameter of the domain the span located for it is non-empty and contains it, the inverse is the mirror image over the same interval, and a uniform vector is clamped with unit steps from zero.""",
     ["inputs"], "all knot values for every repetition pattern of up to 6 (thorough: 8) knots, degrees 0-3, all parameters",
     "tests query a handful of fixed vectors",
     [KVF, "src/knot/knot_multiplicity.rs"], [("multiplicity", KVF + " multiplicity, is_clamped"), ("floor and add", KVF + " floor, add"), ("span location", KVF + " find_knot_span_index"), ("inversion", KVF + " invert"), ("uniform", KVF + " uniform")],
     "knots", ["KnotVector::{len, first, last, domain, clamp, floor, add, multiplicity, is_clamped, find_knot_span_index, uniform, cast, to_vec, iter}", "Invertible for KnotVector"],
     "Vectors of 2-6 knots (thorough 8; up to 2*degree+5 for spans), first knot symbolic in [-4,4], every step symbolically either zero or in [2^-7,3]; query value symbolic (at least 2^-20 off the knots) or exactly a knot; degrees 0-3.",
     "longer vectors, non-ascending vectors, steps below 2^-20, the linear span search (its index convention is not documented and nothing uses it).")
prop("K02", "Basis functions are the Cox-de Boor B-splines and their derivatives",
     """For every knot vector, degree and parameter of the domain, the reported non-vanishing basis functions equal the Cox-de Boor recursion: they are non-negative and sum to one, and the reported derivative rows equal
     their derivatives of each requested order. The regularly spaced versions report the span and the same functions (and derivatives) at evenly spaced parameters from the start to the end of the domain.""",
     ["inputs"], "all parameters, and all interior knot values for listed repetition patterns, degrees 1-5, derivative orders 0-3, 1-5 divisions",
     "no test looks at basis functions directly",
     [KVF], [("basis", KVF + " basis_functions"), ("derivatives", KVF + " derivative_basis_functions"), ("regular sampling", KVF + " regulary_spaced_basis_functions, regularly_spaced_derivative_basis_functions, regularly_spaced_span")],
     "knots", ["KnotVector::{basis_functions, derivative_basis_functions, regulary_spaced_basis_functions, regularly_spaced_derivative_basis_functions, regularly_spaced_span, find_knot_span_index}"],
     "The knot patterns of the curve shapes (degrees 1-5, clamped and unclamped, repeated knots); interior knots symbolic for degrees up to 3 (thorough 4); parameter symbolic over the domain or any breakpoint; 1, 2, 3, 4, 5 divisions with a symbolic shift of the vector.",
     "degrees above 5, derivative orders above 3, steps accumulated in f64 (rounding of the last regular parameter).")
