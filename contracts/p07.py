"""P07: bounds on mu are sound, optimal on the convex hull, and consistent."""
from fractions import Fraction as F
from hypotheses import Hypothesis, Hypothesis_Set
from exponent_pair import Exp_pair, compute_exp_pairs
from bound_mu import (Bound_mu, trivial_mu_bound, apply_trivial_mu_bound, apply_functional_equation, apply_mu_convexity,
                      obtain_mu_bound_from_exponent_pair, best_mu_bound, best_mu_bound_piecewise, prove_mu_bound, get_bounds)
from functions import Interval, Affine
import literature as lit
from lib import hyp, inside, value

OPTS = {'*': {'time': 170, 'n': 200, 'max_paths': 400000},
        'bounded_best_one': {'shards': ('shard', 4)},
        'bounded_best_pair': {'shards': ('shard', 2)},
        'prove_scan': {'feas_ms': 60, 'obl_ms': 25000},
        'bounded_piecewise': {'shards': ('shard', 2)},
        'check_best': {'n': 400, 'tl': 25},
        'check_literature': {'n': 40, 'tl': 15},
        'assumptions': ["symbolic runs use ConvexHull through its planar contract (extreme points in counterclockwise order)",
                        "symbolic runs with exponent pairs use compute_exp_pairs through its contract (P06)"]}


def mu_hyp(E, n, lo=None, hi=None):
    return hyp('mu' + n, 'Upper bound on mu', Bound_mu(E.real(n + 's', lo, hi), E.real(n + 'm')))


def triv(s):
    if s <= 0:
        return F(1, 2) - s
    if s >= 1:
        return 0
    return F(1, 2) - s / 2


def prove_functional_equation(E):
    """mu(1-s) <= mu(s) + s - 1/2, depending on exactly the input"""
    h = mu_hyp(E, 'a')
    s, m = h.data.sigma, h.data.mu
    r = apply_functional_equation(h)
    E.ensure('sigma', r.data.sigma == 1 - s)
    E.ensure('mu', r.data.mu == m + s - F(1, 2))
    E.ensure('provenance', len(r.dependencies) == 1 and h in r.dependencies and r.hypothesis_type == 'Upper bound on mu')
    E.ensure('input unchanged', h.data.sigma == s and h.data.mu == m and len(h.dependencies) == 0)
    rr = apply_functional_equation(r)
    E.ensure('applied twice: the same bound', rr.data.sigma == s and rr.data.mu == m)


def prove_convexity(E):
    """the convex combination at the convex combination of sigmas"""
    a, b = mu_hyp(E, 'a'), mu_hyp(E, 'b')
    t = E.real('t', F(0), F(1))
    r = apply_mu_convexity(a, b, t)
    E.ensure('sigma', r.data.sigma == (1 - t) * a.data.sigma + t * b.data.sigma)
    E.ensure('mu', r.data.mu == (1 - t) * a.data.mu + t * b.data.mu)
    E.ensure('provenance', len(r.dependencies) == 2 and a in r.dependencies and b in r.dependencies and r.hypothesis_type == 'Upper bound on mu')


def prove_pair(E):
    """mu(l-k) <= k"""
    p = hyp('p', 'Exponent pair', Exp_pair(E.real('k'), E.real('l')))
    r = obtain_mu_bound_from_exponent_pair(p)
    E.ensure('bound', r.data.sigma == p.data.l - p.data.k and r.data.mu == p.data.k)
    E.ensure('provenance', len(r.dependencies) == 1 and p in r.dependencies and r.hypothesis_type == 'Upper bound on mu')


def prove_trivial(E):
    """the trivial bound is the convexity bound"""
    s = E.real('s')
    E.ensure('value', trivial_mu_bound(s) == triv(s))
    r = apply_trivial_mu_bound(s)
    E.ensure('hypothesis', r.data.sigma == s and r.data.mu == triv(s) and len(r.dependencies) == 0 and r.hypothesis_type == 'Upper bound on mu')
    E.ensure('convexity bound is convex at 0 and 1', trivial_mu_bound(F(0)) == F(1, 2) and trivial_mu_bound(F(1)) == 0)


def points_of(hs, pairs):
    """(sigma, mu) of all available bounds"""
    pts = [(h.data.sigma, h.data.mu) for h in hs] + [(F(1), F(0))]
    pts += [(p.data.l - p.data.k, p.data.k) for p in pairs]
    out = []
    for s, m in pts:
        out.append((s, m))
        if 2 * s > 1:
            out.append((1 - s, m + s - F(1, 2)))
    return out


def optimal(E, pts, s, mu):
    """mu is at most every convex combination at s, and is one (or the trivial bound)"""
    att = mu == triv(s)
    E.ensure('not above the trivial bound', mu <= triv(s))
    for a in pts:
        if a[0] == s:
            E.ensure('not above an available bound at sigma', mu <= a[1])
            if mu == a[1]:
                att = True
        for b in pts:
            if a[0] < s and s < b[0]:
                c = a[1] * (b[0] - s) + b[1] * (s - a[0])
                E.ensure('not above a convex combination', mu * (b[0] - a[0]) <= c)
                if mu * (b[0] - a[0]) == c:
                    att = True
    E.ensure('is a convex combination of available bounds', att)


def setup(E, hs):
    H = Hypothesis_Set()
    for h in hs:
        H.add_hypothesis(h)
    return H


def bounded_best_one(E):
    """best_mu_bound from one arbitrary mu bound in the critical strip, at any sigma in (0, 1) (bounded: 1 bound)"""
    E.merge_objs()
    sh = E.choice('shard', [0, 1, 2, 3])
    h = mu_hyp(E, 'a', F(0), F(1))
    s = E.real('s')
    E.assume(0 < s and s < 1)
    if sh % 2 == 0:
        E.assume(2 * h.data.sigma > 1)
    else:
        E.assume(2 * h.data.sigma <= 1)
    if sh < 2:
        E.assume(s <= h.data.sigma)
    else:
        E.assume(s > h.data.sigma)
    H = setup(E, [h, lit.A_transform_hypothesis])
    r = best_mu_bound(s, H)
    E.ensure('a bound at sigma', r.data.sigma == s and r.hypothesis_type == 'Upper bound on mu')
    optimal(E, points_of([h], []), s, r.data.mu)


def bounded_best_pair(E):
    """best_mu_bound from one arbitrary exponent pair, at any sigma in (0, 1) (bounded: 1 pair)"""
    E.merge_objs()
    p = hyp('p', 'Exponent pair', Exp_pair(E.real('k', F(0), F(1, 2)), E.real('l', F(1, 2), F(1))))
    s = E.real('s')
    E.assume(0 < s and s < 1)
    if E.choice('shard', [0, 1]) == 0:
        E.assume(s <= F(1, 2))
    else:
        E.assume(s > F(1, 2))
    H = setup(E, [p])
    E.stub('exponent_pair.compute_exp_pairs', lambda h, d, pr: [p])
    r = best_mu_bound(s, H)
    E.ensure('a bound at sigma', r.data.sigma == s and r.hypothesis_type == 'Upper bound on mu')
    optimal(E, points_of([], [p]), s, r.data.mu)


def prove_outside(E):
    """outside (0, 1) the best bound is the trivial one"""
    s = E.real('s')
    E.assume(s <= 0 or s >= 1)
    H = setup(E, [mu_hyp(E, 'a', F(0), F(1))])
    r = best_mu_bound(s, H)
    E.ensure('trivial', r.data.mu == triv(s) and r.data.sigma == s and len(r.dependencies) == 0)


def bounded_piecewise(E):
    """best_mu_bound_piecewise agrees with best_mu_bound at every point of any interval inside [0, 1], in either order of the calls (bounded: 1 bound)"""
    E.merge_objs()
    sh = E.choice('shard', [0, 1])
    h = mu_hyp(E, 'a', F(0), F(1, 2))
    E.assume(h.data.mu <= triv(h.data.sigma) and h.data.mu >= F(1, 2) - h.data.sigma)
    a, b = E.real('A', F(0), F(1)), E.real('B', F(0), F(1))
    E.assume(a < b)
    x = E.real('x')
    E.assume(a < x and x < b)
    H = setup(E, [h])
    if sh == 0:
        v = best_mu_bound(x, H).data.mu
        rs = best_mu_bound_piecewise(Interval(a, b, True, True), H)
    else:
        rs = best_mu_bound_piecewise(Interval(a, b, True, True), H)
        v = best_mu_bound(x, H).data.mu
    n = 0
    for f in rs:
        E.ensure('pieces inside the interval', f.domain.x0 >= a and f.domain.x1 <= b)
        if inside(f.domain, x):
            n += 1
            E.ensure('the value of best_mu_bound', value(f, x) == v)
    E.ensure('exactly one piece covers x', n == 1)


def prove_claim(E):
    """prove_mu_bound succeeds exactly when the best bound is at most the claimed value"""
    s, m, best = E.real('s'), E.real('m'), E.real('best')
    H = setup(E, [])
    if not E.symbolic:
        return
    b = hyp('best', 'Upper bound on mu', Bound_mu(s, best))
    E.stub('bound_mu.best_mu_bound', lambda q, h: b)
    r = prove_mu_bound(s, m, H)
    if best <= m:
        E.ensure('the bound is returned and added', r is b and len(H) == 1 and b in H.hypotheses)
    else:
        E.ensure('failure leaves the set alone', r is False and len(H) == 0)


def hull(E, order=False):
    """a set whose cached hull is any non-empty list of bounds"""
    vs = E.seq('verts', lambda i: mu_hyp(E, 'v'), min=1)
    H = setup(E, [])
    H.data['convex_hull'] = vs
    H.data_valid = True
    return H, vs


def prove_scan(E):
    """best_mu_bound over a cached hull of any number of vertices: not above the trivial bound nor any edge over sigma, and the
    trivial bound or a bound that follows from the vertices"""
    H, vs = hull(E)
    n = len(vs)
    s = E.real('s')
    E.assume(0 < s and s < 1)
    r = best_mu_bound(s, H)
    m = r.data.mu
    E.ensure('a bound at sigma', r.data.sigma == s and r.hypothesis_type == 'Upper bound on mu')
    E.ensure('not above the trivial bound', m <= triv(s))
    d = list(r.dependencies)
    if len(d) == 0:
        E.ensure('the trivial bound or a vertex', m == triv(s) or any(r is v for v in vs))
    else:
        E.ensure('derived from vertices', all(any(x is v for v in vs) for x in d))
        a, b = d[0].data, d[-1].data
        E.ensure('the convex combination at sigma', (a.sigma <= s and s <= b.sigma or b.sigma <= s and s <= a.sigma)
                 and m * (b.sigma - a.sigma) == a.mu * (b.sigma - s) + b.mu * (s - a.sigma))
    j = E.int('j', 0, None)
    E.assume(j < n)
    a, b = vs[j].data, vs[(j + 1) % n].data
    if a.sigma < s and s < b.sigma:
        E.ensure('not above the edge over sigma', m * (b.sigma - a.sigma) <= a.mu * (b.sigma - s) + b.mu * (s - a.sigma))
    E.ensure('the set is unchanged', len(H) == 0)


def prove_pieces(E):
    """best_mu_bound_piecewise over a cached hull of any number of vertices: exactly the lower edges, cut to the interval"""
    H, vs = hull(E)
    n = len(vs)
    A, B = E.real('A', F(0), F(1)), E.real('B', F(0), F(1))
    E.assume(A < B)
    rs = best_mu_bound_piecewise(Interval(A, B, True, True), H)
    j = E.int('j', 0, None)
    E.assume(j < n)
    a, b = vs[j].data, vs[(j + 1) % n].data
    lo, hi = E.ite(A < a.sigma, a.sigma, A), E.ite(B < b.sigma, B, b.sigma)
    if a.sigma < b.sigma and lo < hi:
        E.ensure('each edge running to the right is a piece', any(
            f.domain.x0 == lo and f.domain.x1 == hi and f.m * (b.sigma - a.sigma) == b.mu - a.mu
            and f.c * (b.sigma - a.sigma) == b.sigma * a.mu - a.sigma * b.mu for f in rs))
    k = E.int('k', 0, None)
    E.assume(k < len(rs))
    f = rs[k]
    E.ensure('every piece is inside the interval', A <= f.domain.x0 and f.domain.x1 <= B and f.domain.x0 <= f.domain.x1)
    E.ensure('every piece is an edge', any(
        vs[i].data.sigma <= f.domain.x0 and f.domain.x1 <= vs[(i + 1) % n].data.sigma and vs[i].data.sigma < vs[(i + 1) % n].data.sigma
        and f.m == (vs[(i + 1) % n].data.mu - vs[i].data.mu) / (vs[(i + 1) % n].data.sigma - vs[i].data.sigma)
        and f.c == (vs[(i + 1) % n].data.sigma * vs[i].data.mu - vs[i].data.sigma * vs[(i + 1) % n].data.mu) / (vs[(i + 1) % n].data.sigma - vs[i].data.sigma)
        for i in range(n)))
    E.ensure('the set is unchanged', len(H) == 0)


def rand_set(E):
    hs, ps = [], []
    for i in range(E.count('nm', 0, 4)):
        k = E.count('kind', 0, 2)
        if k == 0:
            h = hyp('m', 'Upper bound on mu', Bound_mu(F(1, 2), E.choice('half', [F(1, 6), F(13, 84), F(0), F(1, 4), F(27, 164)])))
        else:
            s = E.real('s', F(-1), F(2))
            lo = F(0) if s >= F(1, 2) else F(1, 2) - s
            h = hyp('m', 'Upper bound on mu', Bound_mu(s, lo + E.real('d', F(0), F(1, 2)) * (1 if k == 1 else 2)))
        hs.append(h)
    for i in range(E.count('np', 0, 3)):
        ps.append(hyp('p', 'Exponent pair', Exp_pair(E.real('k', F(0), F(1, 2)), E.real('l', F(1, 2), F(1)))))
    ts = [t for t in (lit.A_transform_hypothesis, lit.B_transform_hypothesis) if E.bool('t')]
    return hs, ps, ts


def check_best(E):
    """random sets: optimality, piecewise agreement, prove_mu_bound (bounded, concrete)"""
    hs, ps, ts = rand_set(E)
    H = Hypothesis_Set(hs + ps + ts + [hyp('o', 'Upper bound on beta', 'x')])
    n0 = len(H)
    pairs = compute_exp_pairs(H)
    pts = points_of(hs, pairs)
    xs = sorted({E.real('x', F(-1), F(2)) for i in range(4)} | {F(1, 2)} | {p[0] for p in pts[:3]})
    order = E.bool('piecewise first')
    lo, hi = E.real('A', F(-1), F(2)), E.real('B', F(-1), F(2))
    E.assume(lo < hi)
    if order:
        rs = best_mu_bound_piecewise(Interval(lo, hi, True, True), H)
    for s in xs:
        r = best_mu_bound(s, H)
        E.ensure('at sigma', r.data.sigma == s and r.hypothesis_type == 'Upper bound on mu')
        if s <= 0 or s >= 1:
            E.ensure('trivial outside (0, 1)', r.data.mu == triv(s))
        else:
            optimal(E, pts, s, r.data.mu)
    if not order:
        rs = best_mu_bound_piecewise(Interval(lo, hi, True, True), H)
    for i in range(1, 12):
        x = lo + (hi - lo) * F(i, 12)
        v = best_mu_bound(x, H).data.mu
        hit = []
        for f in rs:
            if isinstance(f, tuple):
                if f[1] < x < f[2]:
                    hit.append(F(1, 2) - x if f[0] == '-x + 1/2' else F(0))
                elif x in (f[1], f[2]):
                    hit.append(None)
            elif f.domain.x0 < x < f.domain.x1:
                hit.append(value(f, x))
            elif x in (f.domain.x0, f.domain.x1):
                hit.append(None)
        E.ensure('covered', len(hit) >= 1)
        if hit != [None] and None not in hit:
            E.ensure('piecewise agrees', hit == [v])
    E.ensure('the set is unchanged', len(H) == n0)
    s = E.choice('q', xs)
    best = best_mu_bound(s, H).data.mu
    m = E.choice('claim kind', [E.real('claim', F(-1), F(1)), best, best - F(1, 10 ** 14), best - F(1, 10 ** 9), best + F(1, 10 ** 14)])
    r = prove_mu_bound(s, m, H)
    if best <= m:
        E.ensure('proved', r is not False and r.data.sigma == s and r.data.mu == best and r in H.hypotheses and len(H) == n0 + 1)
    else:
        E.ensure('not proved', r is False and len(H) == n0)
    E.ensure('the added bound changes nothing', best_mu_bound(s, H).data.mu == best)
    # a later, stronger bound is taken into account
    H.add_hypothesis(hyp('late', 'Upper bound on mu', Bound_mu(F(1, 2), F(0))))
    pts.append((F(1, 2), F(0)))
    s = F(1, 2) + E.real('z', F(0), F(1, 4))
    optimal(E, pts + [(s0, m0) for s0, m0 in [(best_mu_bound(s, H).data.sigma, triv(s))]], s, best_mu_bound(s, H).data.mu)


def deps_ok(E, r, H, seen):
    """every derived mu bound really follows from its dependencies"""
    d = list(r.dependencies)
    if r in H.hypotheses or not d:
        return True
    s, m = r.data.sigma, r.data.mu
    if len(d) == 1 and d[0].hypothesis_type == 'Exponent pair':
        return (s, m) == (d[0].data.l - d[0].data.k, d[0].data.k)
    if not all(x.hypothesis_type == 'Upper bound on mu' for x in d):
        return False
    if len(d) == 1:
        a = d[0].data
        ok = (1 - a.sigma, a.mu + a.sigma - F(1, 2)) == (s, m) or (a.sigma, a.mu) == (s, m)
    else:
        a, b = d[0].data, d[1].data
        if a.sigma > b.sigma:
            a, b = b, a
        ok = a.sigma <= s <= b.sigma and m * (b.sigma - a.sigma) == a.mu * (b.sigma - s) + b.mu * (s - a.sigma)
    return ok and all(deps_ok(E, x, H, seen) for x in d)


def check_literature(E):
    """the literature's bounds (bounded, concrete)"""
    H = Hypothesis_Set(lit.literature.list_hypotheses('Upper bound on mu'))
    if E.bool('pairs'):
        H.add_hypotheses(lit.literature.list_hypotheses('Exponent pair'))
    if E.bool('tr'):
        H.add_hypotheses(lit.literature.list_hypotheses('Exponent pair transform'))
    s = E.real('s', F(0), F(1))
    r = best_mu_bound(s, H)
    E.ensure('derivation', deps_ok(E, r, H, {}))
    pts = [(h.data.sigma, h.data.mu) for h in H.list_hypotheses('Upper bound on mu')] + [(F(0), F(1, 2)), (F(1), F(0))]
    for a in pts:
        for b in pts:
            if a[0] < s < b[0]:
                E.ensure('not above literature combinations', r.data.mu * (b[0] - a[0]) <= a[1] * (b[0] - s) + b[1] * (s - a[0]))
