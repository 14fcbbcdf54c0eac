import json
B='blueprint/src/python/'
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    assert len(title)<=80,title
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":[B+f for f in files],"mechanism":[{"name":n,"where":B+w} for n,w in mech]}}
    d["anchors"].update(kw)
    P.append(d)
p("P01","Interval operations are exact set algebra",
 "For rational end points and any inclusion flags, Interval.contains(x) holds exactly for the points the interval denotes, intersect denotes exactly the intersection of the two sets (an empty interval when they are disjoint), is_empty holds exactly when no point is contained, and two intervals compare equal exactly when they denote the same set. length and midpoint are (x1 - x0) and (x0 + x1)/2, deep_copy and parsing '[a,b)'-style text (Interval.parse or Interval(str), also of repr output) give an equal interval, and x0 > x1 is rejected with ValueError. No operation modifies its operands.",
 ["inputs"],"all pairs of intervals over the rationals, all four bracket combinations each, all points x",
 "end-point coincidences times bracket combinations times points form an infinite family; the tests sample a few closed and half-open intervals",
 ["functions.py"],[("Interval.contains/intersect/is_empty/__eq__/parse","functions.py")])
p("P02","Piecewise-affine min/max is pointwise optimal",
 "For an Affine f, a list of Affine functions and an optional domain Interval, f.min_with / f.max_with returns pieces with pairwise disjoint domains such that at every point x (of the domain, when one is given) exactly the minimum / maximum over all the functions defined at x is returned, and no piece covers x when none is defined there. Each piece carries the label of an input function that attains the optimum on that piece, and pieces lie inside the domain, in increasing order. Neither f, the list, nor any function in it is modified.",
 ["inputs"],"all affine functions with rational coefficients on rational intervals with any brackets, all lists of them, all domains, all points",
 "gaps, overlaps, touching end points, coincident lines and intersections at break points need to be right simultaneously at every real point, which unit tests sample at a handful of points",
 ["functions.py"],[("Affine.compare_with","functions.py"),("Affine.intersection/at","functions.py"),("Interval.intersect","functions.py")])
p("P03","Best beta bounds are the pointwise best bounds, with provenance",
 "compute_best_beta_bounds(H, domain) returns hypotheses whose bounds cover exactly the part of the domain ([0, 1/2] by default) on which some 'Upper bound on beta' hypothesis of H is defined, disjointly, and at each point the value is the minimum over those hypotheses. Each returned hypothesis is either a member of H with the same bound or a derived hypothesis depending on exactly one member of H, which attains the bound on that piece. No hypothesis in H is changed.",
 ["inputs"],"all hypothesis sets with any number of affine beta bounds and all domains",
 "depends on set iteration order, overlaps and ties among arbitrarily many bounds; tests use the fixed literature set",
 ["bound_beta.py","functions.py","hypotheses.py"],[("compute_best_beta_bounds","bound_beta.py"),("Affine.min_with","functions.py")])
p("P04","Exponent-pair transforms implement their theorems with provenance",
 "The van der Corput A, B and Sargos C transforms map an exponent pair hypothesis with data (k, l) to 'Exponent pair' hypotheses with data (k/(2k+2), (k+l+1)/(2k+2)), (l-1/2, k+1/2) and (k/(12(1+4k)), (11(1+4k)+l)/(12(1+4k))), and the Sargos D transform to 'Upper bound on beta' hypotheses valid by its theorem. Each result depends on exactly the input hypothesis, which is left unchanged, and the transform's own hypothesis, and B applied twice gives the original pair. A pair with 0 <= k <= 1/2 <= l <= 1 is mapped by A, B and C to a pair in the same range.",
 ["inputs"],"all rational pairs (k, l) with 0 <= k <= 1/2 <= l <= 1",
 "the formulas are rational functions of (k, l); a handful of samples cannot tell a wrong formula that agrees at classical pairs",
 ["literature.py","exponent_pair.py","transform.py"],[("A/B/C/D_transform_function","literature.py"),("derived_exp_pair","exponent_pair.py")])
p("P05","Exponent pairs and beta bounds convert soundly into each other",
 "exponent_pairs_to_beta_bounds gives for every exponent pair (k, l) in the set the bound beta(x) <= (l-k)x + k on [0, 1/2] depending on exactly that pair, plus the bounds of every 'Exponent pair to beta bound transform'. Every new pair (k, l) returned by beta_bounds_to_exponent_pairs is, itself or through the B transform, implied by the best beta bounds of the set, that is (l-k)x + k is at least their value at every x in [0, 1/2], for non-negative bounds that are not identically zero, and nothing is derived when those bounds do not cover all of [0, 1/2]. The pair of every edge of the least concave majorant of those bounds is among the results, and so is its B transform when that transform is in the set. Pairs already in the set are returned as well.",
 ["inputs"],"all sets of exponent pairs and affine beta bounds over the rationals",
 "a wrong tangent line or an ignored gap yields pairs that look plausible; soundness is an inequality at every point of [0, 1/2]",
 ["bound_beta.py","exponent_pair.py"],[("exponent_pairs_to_beta_bounds","bound_beta.py"),("beta_bounds_to_exponent_pairs","exponent_pair.py")])
p("P06","Exponent-pair search and proof construction are sound",
 "in_triangle(a, b, c, p) holds exactly when p is a convex combination of a, b, c; construct_proof(k, l, H) returns None unless (k, l) lies in the convex hull of the exponent pairs of H, and otherwise a hypothesis for exactly (k, l) that is a member of H or depends only on members of H whose convex hull contains (k, l), at most three of them and of least total proof complexity among containing triangles under reduce_dependencies. compute_exp_pairs only returns members of H and pairs reached from them by at most search_depth transform steps, and loses none of the reachable pairs without pruning and no convex-hull vertex with pruning. find_best_proof returns None or a proof of exactly (k, l) from H, and with method DATE one whose proof_date is the earliest possible year among the years occurring in H for which such a proof exists.",
 ["inputs"],"all finite sets of rational exponent pairs, all transforms, all target points, including points on edges, vertices and degenerate (collinear) configurations",
 "collinear, clockwise and boundary configurations and tie situations are not in the tests, which use literature pairs only",
 ["exponent_pair.py"],[("in_triangle","exponent_pair.py"),("construct_proof","exponent_pair.py"),("compute_exp_pairs","exponent_pair.py"),("find_best_proof","exponent_pair.py")])
p("P07","Bounds on mu are sound, optimal on the convex hull, and consistent",
 "apply_functional_equation, apply_mu_convexity, obtain_mu_bound_from_exponent_pair and trivial_mu_bound give mu(1-s) <= mu + s - 1/2, the convex combination at the convex combination of sigmas, mu(l-k) <= k and the convexity bound, each depending on exactly the hypotheses used. best_mu_bound(sigma, H) never exceeds the trivial bound nor any convex combination of the available bounds (those in H, those from its exponent pairs, and the functional-equation images of those with sigma > 1/2) at sigma, and is itself such a combination or the trivial bound. Outside 0 < sigma < 1 it is the trivial bound. best_mu_bound_piecewise agrees with it at every point of the interval, and prove_mu_bound succeeds, adding the bound to the set, exactly when the best bound is at most the claimed value.",
 ["inputs","histories"],"all sets of mu bounds and exponent pairs, all sigma, all intervals",
 "optimality over a convex hull at every sigma is not sampled by the tests, which check a few published exponents",
 ["bound_mu.py"],[("best_mu_bound","bound_mu.py"),("best_mu_bound_piecewise","bound_mu.py"),("get_bounds","bound_mu.py"),("prove_mu_bound","bound_mu.py")])
p("P08","Hypothesis sets are sets with a coherent cache",
 "add_hypothesis and add_hypotheses (of a hypothesis, list, set, generator or another set) add exactly the given hypotheses and nothing else, and len, iteration, to_list and list_hypotheses reflect exactly the members, the latter filtered by type and year. Unless invalidate_data=False is passed, every addition makes later results (convex hulls, best bounds) those of the enlarged set and never those of stale cached data. A copy has the same members, and later changes to either the copy or the original, including to the cache, never show in the other; default-constructed sets share nothing.",
 ["histories","inputs"],"all sequences of additions, copies and queries",
 "staleness and aliasing appear only after particular sequences of operations; the tests query freshly built sets",
 ["hypotheses.py","bound_mu.py","exponent_pair.py"],[("Hypothesis_Set","hypotheses.py"),("compute_convex_hull","exponent_pair.py"),("compute_convex_hull/best_mu_bound","bound_mu.py")])
p("P09","Provenance queries follow the dependency graph",
 "For any acyclic dependency graph recursive_dependencies is exactly the set of hypotheses reachable from a hypothesis (excluding itself), proof_complexity is one plus the sum over the direct dependencies, and proof_date is the latest known year among it and all it depends on. is_match / list_hypotheses keep a hypothesis exactly when the type matches and, for a year limit, its reference is derived or classical, or not conjectural and dated no later than the limit. Reference.max_year is -1 for no references, 'Unknown date' if any reference has no year, and the maximal year otherwise, and every derived_* constructor stores exactly the given dependencies and a derived reference of that year.",
 ["inputs"],"all finite acyclic dependency graphs (any width, depth and sharing), all years and reference kinds",
 "diamond-shaped and deep graphs, unknown dates and year boundaries form an unbounded family; tests touch single levels",
 ["hypotheses.py","reference.py","exponent_pair.py","bound_beta.py","bound_mu.py","large_values.py","zeta_large_values.py","additive_energy.py","zero_density_estimate.py","zero_density_energy_estimate.py"],
 [("Hypothesis.*","hypotheses.py"),("Reference.max_year","reference.py"),("derived_* constructors","exponent_pair.py")])
p("P10","Polytope constructions have exact membership semantics",
 "A Polytope built from constraints contains exactly the points satisfying all its inequalities (all as equalities with linear=True), and rect, intersect / intersection, scale, scale_all, substitute, lift, canonicalize, copy and, for bounded polytopes, from_V_rep and project contain exactly the points given by the box, the set intersection, the scaled set, the section, the product with the given limits, the same set, the convex hull and the projection. None of them modifies its operands as point sets, and get_constraints, dimension and Hyperplane/Constraint tests agree with the stored constraints. Points of the wrong dimension are rejected with ValueError.",
 ["inputs"],"all polytopes in any dimension with any number of rational inequality and equality constraints, all points",
 "membership is a statement about every point of R^d; equality rows, zero rows and canonicalisation corner cases are not sampled",
 ["polytope.py"],[("Polytope.__init__/contains","polytope.py"),("intersection/intersect","polytope.py"),("scale/scale_all/substitute/lift/project/rect/from_V_rep","polytope.py"),("Constraint, Hyperplane","polytope.py")])
p("P11","Polytope emptiness, inclusion, difference and union decisions are exact",
 "is_empty(include_boundary) holds exactly when the polytope has no point, respectively no interior point; A.is_subset_of(B) exactly when every point of A is in B, == exactly when the two contain the same points, and A.is_covered_by(list) for a non-empty list exactly when A minus the union of the list has empty interior. A.set_minus(B) returns polytopes with pairwise disjoint interiors that do not meet the interior of B and together with A intersect B contain exactly the points of A up to sets without interior. For bounded polytopes try_union returns a polytope with the same points as the union up to sets without interior when that union is convex, and None otherwise, and no operation changes its operands as point sets.",
 ["inputs"],"all polytopes with rational constraints, bounded or not, full dimensional or not, with or without equality rows",
 "each decision is a quantified statement over R^d; unbounded, degenerate and empty operands are corner cases the tests do not reach",
 ["polytope.py"],[("is_empty/is_subset_of/is_covered_by","polytope.py"),("set_minus","polytope.py"),("try_union","polytope.py")])
p("P12","Regions denote boolean combinations of polytopes",
 "Region.contains(x) is the boolean combination (union, disjoint union, intersection, complement) of the membership of x in the polytopes at the leaves, for any nesting, and from_union_of_halfplanes(hps, box) contains exactly the points of the box lying in some half plane. substitute, scale_all and lift commute with membership for every nesting (a lifted complement stays within the added limits), project contains the projection of every point of the region and equals it for unions of bounded polytopes, and is_subset_of on the supported kinds (polytope or union against polytope, union or intersection) is inclusion up to sets without interior. The original region is never modified.",
 ["inputs"],"all finite region trees of any depth and branching over polytopes of any dimension, all points",
 "region trees are unbounded; the tests use a few two-level ones",
 ["region.py","polytope.py"],[("Region.contains","region.py"),("substitute/scale_all/lift/project/is_subset_of","region.py"),("from_union_of_halfplanes","region.py")])
p("P13","Disjoint-union normal form and simplification preserve the region",
 "Region.as_disjoint_union of any nesting of intersections and disjoint unions of bounded polytopes returns a disjoint union of polytopes containing the same points as the region up to sets without interior, with pairwise disjoint interiors when the disjoint unions in it are disjoint. With track_dependencies every returned polytope carries a set of labels, all of them labels of polytopes occurring in the region, and lies inside the union of the polytopes with those labels; around any point of it the labelled polytopes alone imply the region. simplify never changes the set of points up to sets without interior, and neither operation changes the input region's point set or adds attributes to its polytopes.",
 ["inputs"],"all region trees of intersections and disjoint unions, any number of children (including the >= 100 pieces / 20 rounds and <= 5 pieces merging optimisations)",
 "the distributive expansion with ad hoc merging heuristics takes different paths depending on counts and containments that small tests never reach",
 ["region.py","helpers/region_helper.py","polytope.py"],[("Region._as_disjoint_union_poly","region.py"),("Region_Helper.simplify_union_of_polys","helpers/region_helper.py"),("Region.simplify","region.py")])
p("P14","Large value estimates denote exactly the stated bound",
 "convert_bounds([[c0,c1,c2],...]) and the literature, classical and conjectured constructors denote exactly the (sigma, tau, rho) with 1/2 <= sigma <= 1, 0 <= tau <= TAU_UPPER_LIMIT, 0 <= rho <= LV_DEFAULT_UPPER_BOUND and rho <= max over the bounds of c0 + c1 sigma + c2 tau, as polytopes with disjoint interiors. raise_to_power_hypothesis(k) maps an estimate to one containing (sigma, tau, rho) exactly when the original contains (sigma, tau/k, rho/k), leaves the input unchanged and records it as the only dependency. The L^2 mean value, Huxley, Heath-Brown, Jutila and Guth-Maynard estimates are the bounds of their theorems, and for tau >= 1 the Bourgain estimate is the minimum of its theorem's bound over the two parameters.",
 ["inputs"],"all lists of affine bounds of any length, all k >= 1, all points",
 "each estimate is a set in R^3 built from an arbitrary number of half planes with complements; tests sample points",
 ["large_values.py","region.py","literature.py"],[("convert_bounds","large_values.py"),("raise_to_power_hypothesis","large_values.py"),("add_*_large_values_estimate","literature.py")])
p("P15","Conversions to zeta large value estimates are faithful",
 "lv_to_zlv turns every large value estimate of the set, and every image of one under a large value transform of the set, into the zeta estimate with the same points restricted to tau >= 2. beta_to_zlv (mu_to_zlv) yields per best beta bound (mu bound) the region that, away from piece boundaries, forces rho = 0 exactly where the theorem applies (sigma >= A tau + B with 1/tau in the bound's range; sigma >= sigma0 + tau mu0) and otherwise allows 0 <= rho <= tau, for 1/2 <= sigma <= 1 and 2 <= tau <= TAU_UPPER_LIMIT; get_trivial_zlv is the region 0 <= rho <= tau. Each result depends on exactly the hypothesis it came from and compute_large_value_estimate returns all of these together with the existing zeta estimates, without changing the set.",
 ["inputs"],"all hypothesis sets with any number of estimates, transforms, beta and mu bounds; all points",
 "the region is split into pieces by alpha0, alpha1 with special cases at 0; a sign error changes the set only in one piece",
 ["zeta_large_values.py"],[("lv_to_zlv/beta_to_zlv/mu_to_zlv","zeta_large_values.py"),("get_trivial_zlv","zeta_large_values.py")])
p("P16","Large value energy regions are transformed and combined faithfully",
 "ep_to_lver(k, l) denotes exactly the points within the default limits satisfying rho* <= 1 - 2 sigma + (max1 + max2)/2 of its theorem, lv_to_lver lifts an estimate to exactly the points whose first three coordinates satisfy it (rho*, s within the default limits), and get_raise_to_power_hypothesis(k) scales tau, rho, rho*, s by k. expand_lver adds every transform of every energy region, and compute_best_lver is, up to boundaries, the intersection of the domain (lifted) with all regions, transformed regions and, for zeta, the zeta regions, depending on exactly those. lver_to_lv, lver_to_energy and compute_LV_star contain exactly the projections to (sigma, tau, rho) and (sigma, tau, rho*), each depending on what it was computed from.",
 ["inputs"],"all exponent pairs, all sets of energy regions and transforms, all domains, all points of R^5",
 "five-dimensional sets assembled from combinations of maxima; the tests never evaluate them pointwise",
 ["additive_energy.py","region.py","polytope.py"],[("ep_to_lver/lv_to_lver","additive_energy.py"),("compute_best_lver/expand_lver","additive_energy.py"),("lver_to_lv/lver_to_energy/compute_LV_star","additive_energy.py")])
p("P17","The computed large value region is the intersection of all estimates",
 "compute_large_value_region(H, domain) contains, up to boundaries, exactly the points of the domain lying in every large value estimate of H and every transform of one and, with zeta=True, every zeta large value estimate, and the result has the matching hypothesis type. Its dependencies are hypotheses among those used, and, when the domain and every estimate is one convex polytope and the result is not empty, intersecting the domain with the regions of the dependencies alone gives the same set. H and the regions of its hypotheses are not modified.",
 ["inputs"],"all hypothesis sets with any number of estimates and transforms, all bounded polytope domains",
 "duplicates, labels and dependency tracking interact across any number of hypotheses; tests use two or three literature estimates",
 ["zero_density_estimate.py","region.py"],[("compute_large_value_region","zero_density_estimate.py"),("Region._as_disjoint_union_poly","region.py")])
p("P18","Zero density estimates follow soundly from large value regions",
 "compute_sup_rho_on_tau (and compute_sup_LV_on_tau) returns a piecewise rational function on the sigma interval that at every sigma equals the supremum of rho/tau over the bounded polytopes' points (tau > 0) with that sigma. lv_zlv_to_zd, lv_zlv_to_zd2, lver_to_zd and lver_to_energy_bound return bounds A(sigma) equal to the larger of the suprema over the tau ranges of their corollaries divided by (1 - sigma), depending on the regions used. Where a section is empty the value is -1000000. ivic_ep_to_zd returns 3m/((3m-2)x + 2-m) and bourgain_ep_to_zd 4k/(2(1+k)x - 1-l) on intervals where their theorem's condition holds for the pair they depend on, and add_trivial_zero_density_energy_estimates adds 3A(x) for every zero density estimate A of the set and 3/(1-x) on [1/2, 1).",
 ["inputs"],"all finite families of bounded rational polytopes with tau > 0, all sigma, all hypothesis sets",
 "a supremum over a polytope section at every sigma; wrong edges or missing division show only at some sigma",
 ["zero_density_estimate.py","zero_density_energy_estimate.py","polytope.py"],[("compute_sup_rho_on_tau","zero_density_estimate.py"),("lv_zlv_to_zd/lv_zlv_to_zd2/lver_to_zd","zero_density_estimate.py"),("compute_sup_LV_on_tau/lver_to_energy_bound","zero_density_energy_estimate.py"),("get_edges","polytope.py"),("ivic_ep_to_zd/bourgain_ep_to_zd","zero_density_estimate.py"),("add_trivial_zero_density_energy_estimates","zero_density_energy_estimate.py")])
p("P19","Best zero density and energy estimates are pointwise minima",
 "RationalFunction.min / max over (function, interval) pairs and a domain return consecutive intervals covering the domain on which the given piece is, at every interior point, the minimum / maximum of the functions defined there (the default +-1000000 with index -1 where none is), with the index of a function attaining it. best_zero_density_estimate(H) and compute_best_energy_bound(H) use it to give on [1/2, 1) the pointwise minimum of all estimates of H, each piece keeping the name, type, proof and reference of a hypothesis attaining it. The inputs are not modified, apart from lazily parsing an estimate's expression into an equal function.",
 ["inputs"],"all finite lists of rational functions whose denominators have no zero in their intervals, all intervals and domains",
 "crossings, gaps, overlaps and ties among any number of rational functions; tests check a few samples of the literature set",
 ["functions.py","zero_density_estimate.py","zero_density_energy_estimate.py"],[("RationalFunction._compute_optimal","functions.py"),("best_zero_density_estimate","zero_density_estimate.py"),("compute_best_energy_bound","zero_density_energy_estimate.py")])
p("P20","Rational function arithmetic and evaluation are exact",
 "For RationalFunction objects f, g and numbers c, the results of +, -, *, / (methods add, subtract, mul, div) evaluate at every point where everything is defined to the sum, difference, product and quotient of the values, f == g holds exactly when they are the same function, and parse / the coefficient constructor denote the written function. maximise / minimise over a closed interval without poles return a point of it at which the extreme value is attained, intersections and roots return exactly the points of the interval where the functions agree / vanish. No operation modifies its operands.",
 ["inputs"],"all rational functions with rational coefficients, all numbers, all points",
 "identities of rational functions over all points cannot be decided by sampling a few functions",
 ["functions.py"],[("RationalFunction","functions.py")])
p("P21","Polynomial arithmetic is a ring with canonical representatives",
 "Polynomial add, subtract and multiply evaluate at every x to the sum, difference and product of the operands' values, return coefficients without trailing zeroes (the zero polynomial is the empty tuple), and never modify their operands; == holds exactly when the polynomials are equal as functions. degree is the index of the last coefficient (-infinity for zero), is_zero holds exactly for the zero polynomial, and a tuple with zero leading coefficient or a non-tuple is rejected with ValueError. RationalFunction2 reports is_zero, is_constant and is_affine according to the stored (highest degree first) coefficients.",
 ["inputs"],"all polynomials of any degree over the rationals, all points",
 "cancellation of leading terms and unequal lengths for arbitrary degrees",
 ["polynomial.py","functions.py"],[("Polynomial","polynomial.py"),("RationalFunction2","functions.py")])
p("P22","Multivariate piecewise-affine minimum and simplification are exact",
 "For Affine2 f and a list of Affine2 functions on polytopes, f.min_with(list) covers, for each listed g, exactly the common domain of f and g up to boundaries, with the minimum of the two values at every point and a label of a function attaining it; Piecewise.min_with does this for all pairs of pieces. Piecewise.crop restricts to the given polytope, simplify leaves the function unchanged up to boundaries, and scale returns pieces with the same affine expressions on domains scaled in the stated dimension. Affine2.at returns the value of the expression at x, Piecewise.at that of a piece whose domain contains x (None outside), and the operands of min_with and scale are not modified.",
 ["inputs"],"all affine functions in any dimension on bounded rational polytopes, all points",
 "agreement at every point of R^d after splitting along hyperplanes and regrouping pieces",
 ["functions.py","polytope.py"],[("Affine2.min_with","functions.py"),("Piecewise.min_with/crop/simplify","functions.py"),("Polytope.intersects/get_centroid","polytope.py")])
p("P23","Rendered expressions denote the object",
 "Str_Helper.format, Affine2.to_string, Affine.to_str, Constraint/Hyperplane/Polytope/Region text, Polynomial.to_str and the text of RationalFunction2 read back, by the usual rules, to the same linear form, constraint list, polynomial or rational function: every non-zero term appears once with its sign and absolute value, coefficient 1 is omitted, and zero terms do not appear (Affine2.to_string always writes its constant term). Str_Helper.format of an all-zero vector is empty, Polynomial.to_str of zero is '0'. Rendering does not modify the object.",
 ["inputs"],"all coefficient vectors of any length over the rationals, all variable names",
 "sign and unit-coefficient cases at each position combine exponentially",
 ["helpers/str_helper.py","polynomial.py","functions.py","polytope.py"],[("Str_Helper.format","helpers/str_helper.py"),("Polynomial.to_str","polynomial.py"),("RationalFunction2._poly_str","functions.py"),("Affine2.to_string","functions.py")])
p("P24","Bibliography entries are parsed and queried faithfully",
 "Reference_Manager.load stores for every brace-delimited BibTeX entry (no @ inside values) a Reference under its label with every non-empty field, keyed by lower-case name, with the value between the outermost braces, year as an integer and author as the '--'-joined surnames. get(label) returns it or raises ValueError for unknown labels, and find_all(author, year) returns exactly the entries matching both filters. Reference.author() and year() give the stored fields or 'Unknown author' / 'Unknown date', and the references built by make, classical, derived, conjectured and trivial are told apart by is_classical, is_derived, is_conjectured and is_trivial, is_literature being false for classical, derived and conjectured ones and true for made and loaded ones. Text that contains no entry (blank lines, comments) is ignored, and the file is only read.",
 ["inputs"],"all well-formed brace-delimited BibTeX files",
 "nesting of braces, commas inside values and missing fields vary without bound; the tests load one file",
 ["reference.py"],[("Reference_Manager._extract/_split_level/_parse","reference.py"),("find_all/get","reference.py")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
