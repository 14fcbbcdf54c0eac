"""known_findings.json from the fix: commits of /repo (run by hand after a fix; checks never write it)"""
import json
import subprocess
PROP = [  # (start of the subject after 'fix: ', property, what failed)
 ('crop the compared affine', 'P02', 'Affine.compare_with on functions whose domains differ kept pieces outside the common domain, e.g. x on [0,1] against 1-x on [1/4,2]'),
 ('RationalFunction.__sub__', 'P20', 'f - g raised AttributeError for every pair of rational functions'),
 ('RationalFunction.div mult', 'P20', 'f.div(2) returned 2*f instead of f/2'),
 ('RationalFunction.add ret', 'P20', 'f.add("text") returned an exception object instead of raising it'),
 ('index error in Region.project', 'P12', 'Region.project of an intersection with exactly one child that needs projecting raised IndexError'),
 ('Region.is_subset_of passed', 'P12', 'A.is_subset_of(B) for a union B of unions raised because regions were passed to Polytope.is_covered_by'),
 ('Region.lift of a complement', 'P12', 'lift(complement(P)) denoted lift(P)'),
 ('a copied Hypothesis_Set', 'P08', 'adding to a copy of a Hypothesis_Set left (or put) hull data of the copy in the original'),
 ('exponent pair and mu bound hulls', 'P08', 'the exponent-pair hull was returned for the mu-bound hull and kept after new hypotheses were added'),
 ('Polytope.is_subset_of accepted', 'P11', 'the half line x>=0 was reported to be a subset of [0,1] (only vertices were compared)'),
 ('unbounded polytopes with', 'P11', '{x>=0} == {x<=0} was True (same single vertex)'),
 ('Polytope.set_minus dropped', 'P11', '[0,1] minus {x=1/2} was empty'),
 ('Affine2.min_with of equal', 'P22', 'min_with of equal functions without label raised TypeError'),
 ('in_triangle rejected', 'P06', 'clockwise triangles contained nothing and degenerate triangles contained points off their segment'),
 ('construct_proof crashed', 'P06', 'construct_proof with one or two exponent pairs raised IndexError'),
 ('find_best_proof ignored', 'P06', 'find_best_proof(..., Proof_Optimization_Method.NONE) did not use the computed exponent pairs'),
 ('find_best_proof crashed', 'P06', 'sorting by date with a conjecture (infinite year) in the set raised'),
 ('compute_best_beta_bounds did', 'P03', 'a single bound on [0,1] was returned with its own domain instead of [0,1/2]'),
 ('beta bounds with a gap', 'P05', 'bounds leaving a gap in [0,1/2] were converted to exponent pairs'),
 ('ivic_ep_to_zd built', 'P18', 'ivic_ep_to_zd raised for every exponent pair (expression text could not be parsed)'),
 ('ep_to_zd passed', 'P18', 'ep_to_zd raised TypeError'),
 ('missing f-string', 'P23', 'the proof of lver_to_zd printed the placeholder instead of the value'),
 ('lv_zlv_to_zd2 used', 'P18', 'lv_zlv_to_zd2 took the supremum over an unbounded zeta large value domain'),
 ('get_trivial_zlv built', 'P15', 'get_trivial_zlv raised'),
 ('missing rho coefficient', 'P14', "Bourgain's large value estimate constrained the wrong half space for every point"),
 ('best_mu_bound_piecewise raised', 'P07', 'best_mu_bound_piecewise(Interval(-1,2)) raised'),
 ('zero density estimates from', 'P18', 'estimates from large values exceeded the theorem by the factor 1/(1-sigma) missing in the quotient'),
 ('Polynomial.to_str printed', 'P23', 'x^2+1 was printed as x^2 +  + 1'),
 ('RationalFunction2 printed', 'P23', 'x^2+1 was printed with a sign for the zero coefficient'),
 ('RationalFunction2 tested', 'P21', 'is_constant/is_affine looked at the leading coefficients: 3 was not constant, x^2 was affine'),
 ('RationalFunction2 could', 'P21', 'RationalFunction2([1, 2]) raised'),
 ('Reference_Manager.find_all', 'P24', 'find_all("Vinogradov") raised KeyError when an entry has no author'),
 ('Interval.midpoint', 'P01', 'Interval(0, 1).midpoint() was the float 0.5'),
 ('exponent pairs on a common', 'P06', 'compute_exp_pairs with collinear pairs raised QhullError'),
 ('piecewise mu bounds from', 'P07', 'a hypothesis set with only the trivial bounds raised QhullError'),
 ('piecewise mu bounds skip', 'P07', 'upper edges of the hull became wrong (too large or reversed) pieces'),
 ('substitution does not', 'P10', 'substitute kept rows such as 0 >= 0 and cdd then treated the set differently'),
 ('scaling a polytope', 'P10', 'scale_all([2,2]) of a polytope with integer rows produced floats'),
 ('crossing of affine', 'P02', 'the crossing of x and 1-3x was the float 0.25'),
 ('text of a region with', 'P23', 'str of a complement raised'),
 ('the Bourgain large value', 'P14', 'the Bourgain estimate was asserted for sigma < 1/2, where it is not a theorem'),
 ('lver_to_lv of an empty', 'P16', 'lver_to_lv of an empty region raised IndexError'),
 ('a copy of a region', 'P17', 'canonicalising a copied region changed the polytopes of the original'),
 ('constant rational functions', 'P20', 'RationalFunction of integer coefficients was evaluated as a float'),
 ('roots and intersections', 'P20', 'roots of f/g with a denominator or of a constant raised or were wrong'),
 ('a parsed sum', 'P20', 'parse("1/x + 1/(x+1)") had a numerator that is not a polynomial'),
 ('optimum of rational', 'P19', 'min/max with crossings at irrational points raised'),
 ('supremum over polytopes', 'P18', 'the supremum over a polytope with integer vertices was a float'),
 ('suprema over a single', 'P18', 'a single polytope or an empty projection raised'),
 ('trivial energy estimate', 'P18', 'the trivial zero density energy estimate ignored derived estimates'),
 ('text of a constraint', 'P23', 'the constraint -x>=0 was printed as x >= 0'),
 ('text of a rational function', 'P23', '1/2 was printed as 1, (x+1)/2 as x + 1/2'),
 ('bibliography files may', 'P24', 'a file that starts with a blank line or comment raised IndexError'),
 ('keep the zeta estimates of beta', 'P15', 'a beta bound whose range ends below 1/TAU_UPPER_LIMIT gave an estimate with points tau > TAU_UPPER_LIMIT'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep=^fix:'], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    m = [x for x in PROP if s.startswith('fix: ' + x[0])]
    assert len(m) <= 1, s
    if m:
        out.append(f'fixed: property={m[0][1]} {h} {m[0][2]}')
    else:
        print('unlisted:', l)
json.dump({'known': json.load(open('/verif/known_findings.json'))['known'], 'fixed': out}, open('/verif/known_findings.json', 'w'), indent=1)
print(len(out))
