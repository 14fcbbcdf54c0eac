"""P05: exponent pairs and beta bounds convert soundly into each other."""
from fractions import Fraction as F
from functions import Interval, Affine
from hypotheses import Hypothesis, Hypothesis_Set
from bound_beta import Bound_beta, Bound_Beta_Transform, exponent_pairs_to_beta_bounds, derived_bound_beta, compute_best_beta_bounds
from exponent_pair import Exp_pair, beta_bounds_to_exponent_pairs
from reference import Reference
import literature as lit
from lib import inside, interval, affine, aff_fields, value, hyp

OPTS = {'*': {'time': 120, 'n': 300, 'max_paths': 100000},
        'check_back': {'n': 500, 'tl': 25},
        'assumptions': ["symbolic runs use ConvexHull through its planar contract (extreme points in counterclockwise order); native runs use scipy",
                        "sets of beta bounds are non-negative and not identically zero"]}


def pair(E, i):
    return hyp('pair', 'Exponent pair', Exp_pair(E.real('k', F(0), F(1, 2)), E.real('l', F(1, 2), F(1))))


def prove_forward(E):
    """each of any number of exponent pairs gives its line on [0, 1/2], depending on exactly that pair"""
    ps = E.seq('pairs', lambda i: pair(E, i))
    others = E.seq('others', lambda i: hyp('other', 'Upper bound on mu', Exp_pair(F(0), F(1))))
    H = Hypothesis_Set()
    H.add_hypotheses(ps)
    H.add_hypotheses(others)
    rs = exponent_pairs_to_beta_bounds(H)
    E.ensure('every bound is the line of its one dependency, a pair of the set',
             all(r.hypothesis_type == 'Upper bound on beta' and len(r.dependencies) == 1
                 and any(p in r.dependencies and r.data.bound.m == p.data.l - p.data.k and r.data.bound.c == p.data.k for p in ps)
                 and r.data.bound.domain.x0 == 0 and r.data.bound.domain.x1 == F(1, 2)
                 and r.data.bound.domain.include_lower and r.data.bound.domain.include_upper for r in rs))
    E.ensure('every pair gives its bound', all(any(p in r.dependencies for r in rs) for p in ps))


def prove_forward_transforms(E):
    """a pair and a transform of the set: the transform's bounds are added as they are"""
    p = pair(E, 0)
    a, b = E.real('a'), E.real('b')
    dom = Interval(F(0), F(1, 2), True, True)

    def tr(h):
        return [derived_bound_beta(Affine(a, b, dom), 'x', {h}), derived_bound_beta(Affine(b, h.data.k, dom), 'y', {h})]
    t = hyp('t', 'Exponent pair to beta bound transform', Bound_Beta_Transform('t', tr))
    H = Hypothesis_Set()
    for h in (p, t):
        H.add_hypothesis(h)
    rs = exponent_pairs_to_beta_bounds(H)
    k, l = p.data.k, p.data.l
    E.ensure('three bounds', len(rs) == 3)
    for want in ((l - k, k), (a, b), (b, k)):
        E.ensure('each expected bound is there', any(r.data.bound.m == want[0] and r.data.bound.c == want[1] and p in r.dependencies for r in rs))


def best_at(bs, x):
    """smallest limit value at x of the bounds whose closed domain has x on the given side"""
    v = None
    for b in bs:
        if inside(b.domain, x) and (v is None or value(b, x) < v):
            v = value(b, x)
    return v


def implied(k, l, H):
    """(l-k)x + k >= best bound everywhere on [0, 1/2]"""
    ok = True
    for h in H:
        b = h.data.bound
        for x in (b.domain.x0, b.domain.x1):
            if (l - k) * x + k < value(b, x):
                ok = False
    return ok


def covers(bs):
    if len(bs) == 0:
        return False
    ok = bs[0].data.bound.domain.x0 <= 0 and bs[-1].data.bound.domain.x1 >= F(1, 2)
    for i in range(len(bs) - 1):
        if bs[i].data.bound.domain.x1 < bs[i + 1].data.bound.domain.x0:
            ok = False
    return ok


def back(E, H, pairs):
    best = compute_best_beta_bounds(H)
    rs = beta_bounds_to_exponent_pairs(H)
    if not covers(best):
        E.ensure('nothing is derived without cover', all(r in pairs for r in rs))
        return
    E.ensure('the pairs of the set are returned', all(p in rs for p in pairs))
    for r in rs:
        if r not in pairs:
            k, l = r.data.k, r.data.l
            E.ensure('type', r.hypothesis_type == 'Exponent pair')
            known = any(p.data.k == l - F(1, 2) and p.data.l == k + F(1, 2) for p in pairs)
            E.ensure('the new pair is implied by the best bounds, itself or through B',
                     implied(k, l, best) or implied(l - F(1, 2), k + F(1, 2), best) or known, (k, l))
            E.ensure('a new pair has dependencies', len(r.dependencies) > 0)
    edges = envelope(best)
    B = any(h.name == lit.B_transform_hypothesis.name for h in H)
    for k, l in edges:
        E.ensure('every edge of the concave majorant gives its pair', any(r.data.k == k and r.data.l == l for r in rs), (k, l))
        if B:
            E.ensure('and its B transform', any(r.data.k == l - F(1, 2) and r.data.l == k + F(1, 2) for r in rs), (k, l))


def envelope(best):
    """the pairs (c, m + c) of the lines y = m x + c along the least concave majorant of the best
    bounds; only for configurations that are not nearly degenerate (ConvexHull works in floats)"""
    pts = {}
    for h in best:
        b = h.data.bound
        for x in (b.domain.x0, b.domain.x1):
            pts[x] = max(pts.get(x, F(0)), F(value(b, x)))
    up = []
    for x in sorted(pts):
        while len(up) >= 2:
            (x0, y0), (x1, y1) = up[-2:]
            t = (x1 - x0) * (pts[x] - y0) - (y1 - y0) * (x - x0)
            if abs(t) < F(1, 10 ** 8) and t != 0:
                return []
            if t < 0:
                break
            up.pop()
        up.append((x, pts[x]))
    out = []
    for (x0, y0), (x1, y1) in zip(up, up[1:]):
        m = (y1 - y0) / (x1 - x0)
        out.append((y0 - m * x0, m + y0 - m * x0))
    return out


def bounded_back_lines(E):
    """one non-negative line on [0, 1/2] (bounded: 1 bound), with the B transform"""
    a = E.real('a', F(0))
    b = E.real('b', F(0))
    E.assume(a + b > 0)
    E.merge_objs()
    H = Hypothesis_Set()
    H.add_hypothesis(hyp('b', 'Upper bound on beta', Bound_beta(Affine(2 * (b - a), a, Interval(F(0), F(1, 2), True, True)))))
    H.add_hypothesis(lit.B_transform_hypothesis)
    rs = beta_bounds_to_exponent_pairs(H)
    if b > 0 and a > 0:
        E.ensure('the pair of the line and its B transform', len(rs) >= 1 and any(r.data.k == a and r.data.l == 2 * b - a for r in rs)
                 and any(r.data.k == 2 * b - a - F(1, 2) and r.data.l == a + F(1, 2) for r in rs) or
                 (b > 0 and a > 0 and any(r.data.k == 2 * b - a - F(1, 2) and r.data.l == a + F(1, 2) for r in rs)))
    for r in rs:
        k, l = r.data.k, r.data.l
        E.ensure('implied, itself or through B', (k >= a and l - k + 2 * k >= 2 * b) or
                 (l - F(1, 2) >= a and (k + F(1, 2)) + l - F(1, 2) >= 2 * b))


def prove_no_cover(E):
    """one bound that misses part of [0, 1/2] yields nothing"""
    d = interval(E, 'd')
    E.assume(d.x0 < d.x1)
    E.assume(d.x0 > 0 or d.x1 < F(1, 2))
    p = pair(E, 0)
    H = Hypothesis_Set()
    H.add_hypothesis(hyp('b', 'Upper bound on beta', Bound_beta(Affine(E.real('m'), E.real('c'), d))))
    H.add_hypothesis(p)
    rs = beta_bounds_to_exponent_pairs(H)
    E.ensure('nothing new', all(r is p for r in rs))


def check_forward(E):
    """sets with the literature's D transform (bounded, concrete)"""
    n = E.count('n', 0, 4)
    ps = [pair(E, i) for i in range(n)]
    H = Hypothesis_Set(ps)
    wd = E.bool('withD')
    if wd:
        H.add_hypothesis(lit.D_transform_hypothesis)
    H.add_hypothesis(hyp('o', 'Upper bound on beta', Bound_beta(affine(E, 'o'))))
    before = [(p.data.k, p.data.l, len(p.dependencies)) for p in ps]
    rs = exponent_pairs_to_beta_bounds(H)
    got = sorted([(aff_fields(r.data.bound), sorted(d.name for d in r.dependencies), sorted(id(d) for d in r.dependencies)) for r in rs], key=str)
    want = []
    for p in ps:
        want.append((p.data.l - p.data.k, p.data.k, None, 0, F(1, 2), True, True, (id(p),)))
        if wd:
            for r in lit.D_transform_hypothesis.data.transform(p):
                want.append(aff_fields(r.data.bound) + (tuple(sorted(id(d) for d in r.dependencies)),))
    got = [aff_fields(r.data.bound) + (tuple(sorted(id(d) for d in r.dependencies)),) for r in rs]
    E.ensure('exactly the lines of the pairs and the bounds of the transforms', sorted(got, key=str) == sorted(want, key=str))
    E.ensure('pairs unchanged', before == [(p.data.k, p.data.l, len(p.dependencies)) for p in ps])


def check_back(E):
    """random piecewise bounds, pairs and gaps (bounded, concrete)"""
    n = E.count('n', 0, 5)
    g = [F(0), F(1, 8), F(1, 6), F(1, 4), F(1, 3), F(3, 8), F(1, 2)]
    H = Hypothesis_Set()
    ps = [pair(E, i) for i in range(E.count('np', 0, 2))]
    H.add_hypotheses(ps)
    if E.bool('cover'):
        k, l = E.real('k', F(0), F(1, 2)), E.real('l', F(1, 2), F(1))
        H.add_hypothesis(hyp('b', 'Upper bound on beta', Bound_beta(Affine(l - k, k, Interval(F(0), F(1, 2), True, True)))))
    for i in range(n):
        a, b = E.choice('a', g), E.choice('b', g)
        E.assume(a != b)
        if a > b:
            a, b = b, a
        u, v = E.real('u', F(0), F(1)), E.real('v', F(0), F(1))
        m = (v - u) / (b - a)
        H.add_hypothesis(hyp('b', 'Upper bound on beta', Bound_beta(Affine(m, u - m * a, Interval(a, b, E.bool('l'), E.bool('u'))))))
    if E.bool('B'):
        H.add_hypothesis(lit.B_transform_hypothesis)
    best = compute_best_beta_bounds(H)
    E.assume(not covers(best) or any(value(h.data.bound, x) > 0 for h in best for x in (h.data.bound.domain.x0, h.data.bound.domain.x1)))
    back(E, H, ps)


def check_back_tight(E):
    """pairs in general position: the concave envelope's lines are all found (bounded, concrete)"""
    n = E.count('n', 1, 5)
    H = Hypothesis_Set()
    ps = []
    for i in range(n):
        p = pair(E, i)
        ps.append(p)
    for p in ps:
        H.add_hypothesis(hyp('b', 'Upper bound on beta', Bound_beta(Affine(p.data.l - p.data.k, p.data.k, Interval(F(0), F(1, 2), True, True)))))
    E.assume(all(p.data.k + p.data.l > 0 for p in ps))
    H.add_hypothesis(lit.B_transform_hypothesis)
    known = [p for i, p in enumerate(ps) if E.bool('known' + str(i))]
    H.add_hypotheses(known)
    back(E, H, known)
