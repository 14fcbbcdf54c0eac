L.update({
 'P01': ('proof', "Every obligation for rational end points is discharged with no bound; parsing of texts is a bounded concrete check. Trusts the pyvc interpreter, z3/cvc5 and exact Fraction arithmetic."),
 'P02': ('bounded', "Symbolic slopes and intercepts on 8 domain configurations of two functions (every point x); more functions and arbitrary domains by seeded concrete runs against an exact oracle. Obligations for the two-function cases are discharged, lists of any length are bounded."),
 'P03': ('bounded', "One bound on any interval and two bounds on 6 domain configurations are discharged for all coefficients and points; larger sets are seeded concrete runs."),
 'P04': ('proof', "All transforms proved for every rational (k, l) in range, including the Sargos D pieces; registration in the literature set is a concrete check. Reference lookup is used through its contract."),
 'P05': ('bounded', "The direction pairs to bounds is proved for sets of any size; the converse is discharged for one symbolic bound and no-cover, larger sets are seeded concrete runs with an exact oracle. ConvexHull is used through its planar contract."),
 'P06': ('bounded', "in_triangle is proved exactly (both directions, degenerate cases included); construct_proof for up to 4 symbolic pairs and find_best_proof for 3 hypotheses against callee contracts are discharged (bounded); compute_exp_pairs and larger sets are seeded concrete runs."),
 'P07': ('bounded', "The four transforms, prove_mu_bound and the trivial range are proved; best_mu_bound and its pieces are proved over a cached hull with any number of vertices (inferred loop invariant), the hull itself is discharged for one symbolic bound or pair at any sigma (bounded), larger sets are seeded concrete runs with an exact oracle."),
 'P08': ('proof', "Construction, every kind of addition, copies and list_hypotheses are proved for sets of any size; the cached hulls are discharged for symbolic data of bounded size and by seeded random histories."),
 'P09': ('proof', "recursive_dependencies, proof_complexity and proof_date are proved by induction over the graph for any number of dependencies (recursive calls through their contracts), is_match and max_year for all references; derived constructors of large value and density objects are concrete checks."),
 'P10': ('bounded', "contains, copy, canonicalize, lift and the constraint list are proved for any rows in dimension up to 3; intersect and scale_all for any number of rows in dimension 1 and, like rect, scale, substitute and the constructors, for bounded sizes with symbolic coefficients at an arbitrary point; vertex representation and projection are seeded exact concrete runs. cdd is used through its contract (linear programming, canonical form keeps the set)."),
 'P11': ('bounded', "is_empty, is_subset_of, ==, set_minus and is_covered_by are discharged for symbolic coefficients at bounded sizes against the linear-programming contract of cdd (is_covered_by by its induction step), try_union and larger sizes by seeded concrete runs against an exact arrangement oracle."),
 'P12': ('proof', "Membership, substitute, scale_all, lift, project and is_subset_of are proved by induction over the nesting for any number of children (recursive calls and Polytope operations through their contracts), inclusion for any number of parts on either side, half plane unions for any number of half planes and box rows in dimension up to 3 (inferred loop invariant; Polytope through P10); the composition is also run concretely against exact arithmetic."),
 'P13': ('bounded', "The points and labels of the intersection of two disjoint unions with any number of pieces are proved at an arbitrary point, Polytope operations through their contracts; disjointness for seven shapes of intersections of unions and simplification of unions of up to 4 polytopes are discharged (bounded); deep nestings, more than a hundred pieces and more than twenty factors are seeded concrete runs against an exact arrangement oracle."),
 'P14': ('bounded', "The named theorems (L^2, Montgomery, Huxley, Heath-Brown, Jutila, Guth-Maynard, Bourgain with optimal parameters) and raise_to_power_hypothesis are proved at every point; convert_bounds for any number of bounds with any coefficients, at every point (inferred loop invariant; Polytope through P10); disjointness of its pieces and the points of raised estimates are discharged for up to 3 bounds (bounded) and run concretely for more. cdd is used through its contract; Region.scale_all through P12."),
 'P15': ('proof', "beta_to_zlv and mu_to_zlv are proved for any number of bounds at every point off the piece boundaries, lv_to_zlv for any number of estimates and up to two transforms, compute_large_value_estimate against the contracts of its parts; compute_best_beta_bounds is used through P03, cdd through its contract; also run concretely."),
 'P16': ('bounded', "ep_to_lver is proved for every exponent pair (rows) and at every point for six pairs, the power transform, lv_to_lver (any number of estimates) and the projections against the contracts of Region operations (P12, P13); expand_lver and compute_best_lver are discharged for any number of regions and transforms, some cases for up to two (bounded). Composition in dimension 5 is run concretely against exact sections."), 'P17': ('bounded', "Points, dependencies, type and frame of compute_large_value_region are discharged for any regions at an arbitrary point with any number of estimates of one kind (no transforms) and with up to 2 estimates, 2 zeta estimates and 2 transforms (8 shapes), normal forms, texts and labels through the contracts of P12, P13, P23; larger sets, the disjoint-union computation itself and the sufficiency of the dependencies are seeded concrete runs against an exact arrangement oracle."),
})
L.update({
 'P19': ('bounded', "One arbitrary continuous function on any interval over any domain is discharged at every point (two functions on 6 layouts in the thorough tier, at most one crossing of each pair); more functions, more crossings and the two estimate routines are seeded concrete runs against exact arithmetic. sympy is used through its contract."),
 'P20': ('bounded', "Arithmetic, equality and evaluation are discharged for symbolic polynomials of bounded degree at every point against a model of sympy expressions; parsing, real roots and optima are seeded concrete runs against exact arithmetic."),
})
L.update({
 'P18': ('bounded', "The quotient along an edge is proved for any edge, the selection of edges for one polytope with any number of edges (sigma at listed values) and for up to two polytopes with two edges (bounded); lv_zlv_to_zd, lv_zlv_to_zd2, lver_to_zd and lver_to_energy_bound are proved at every sigma against the contracts of their parts (P12 to P17, P19); ivic_ep_to_zd for any number of pairs (inferred loop invariant; m = 2 proved, m up to 6 bounded). The supremum itself (edges from cdd, attained on an edge) is a seeded concrete comparison with exact polytope sections."),
})
L.update({
 'P21': ('bounded', "Sums and differences are proved coefficient by coefficient for any degree (trimming through its contract) and the predicates of RationalFunction2 for any number of coefficients; values at any point, canonical results, equality and products are discharged for symbolic coefficients up to 3 (bounded), longer polynomials are seeded concrete runs."),
})
L.update({
 'P22': ('bounded', "Piecewise.at and scale, the minimum of any number of functions and of piecewise functions with any number of pieces at an arbitrary point are proved; disjointness of the pieces, crop and simplify are discharged for up to 2 to 4 pieces (bounded), Polytope operations through their contracts (P10, P11); larger sets in dimension up to 4 are seeded concrete runs against an exact arrangement oracle."),
})
L.update({
 'P23': ('bounded', "For symbolic coefficients of up to 3 or 4 terms the text is read back by an independent reader and shown to be the same linear form, polynomial, rational function, constraint or affine function with its domain; longer ones, polytopes and regions are seeded concrete runs. The text of a number is assumed to denote it."),
})
L.update({
 'P24': ('bounded', "Classification, author and year are proved for every reference; find_all for any number of references with any fields (repetition and get for up to 2, bounded); _extract and _split_level are checked on every balanced word of up to 9 characters, load on seeded random bibliographies and on the bibliography of the repository against an independent parser."),
})
