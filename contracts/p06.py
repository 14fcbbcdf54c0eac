"""P06: exponent-pair search and proof construction are sound."""

from fractions import Fraction as F
import itertools
from hypotheses import Hypothesis, Hypothesis_Set
from exponent_pair import Exp_pair, in_triangle, construct_proof, compute_exp_pairs, find_best_proof, beta_bounds_to_exponent_pairs, derived_exp_pair
from constants import Proof_Optimization_Method
from transform import Transform
from functions import Interval, Affine
from bound_beta import Bound_beta
from reference import Reference
import literature as lit
from lib import hyp

OPTS = {'*': {'time': 150, 'n': 200, 'max_paths': 200000},
        'check_triangle': {'n': 2500, 'tl': 8},
        'check_construct': {'n': 500, 'tl': 25},
        'check_compute': {'n': 200, 'tl': 20},
        'check_find': {'n': 150, 'tl': 25},
        'bounded_construct': {'shards': ('n', 4)},
        'assumptions': ["symbolic construct_proof uses from_V_rep(...).contains and in_triangle through their contracts and Caratheodory's theorem in the plane",
                        "symbolic find_best_proof uses compute_exp_pairs, beta_bounds_to_exponent_pairs and construct_proof through contracts"]}


def pt(E, n):
    return (E.real(n + 'x'), E.real(n + 'y'))


def prove_triangle_complete(E):
    """every convex combination of a, b, c (degenerate or not, in any orientation) is accepted"""
    a, b, c = pt(E, 'a'), pt(E, 'b'), pt(E, 'c')
    u, v = E.real('u', F(0), F(1)), E.real('v', F(0), F(1))
    E.assume(u + v <= 1)
    w = 1 - u - v
    p = (u * a[0] + v * b[0] + w * c[0], u * a[1] + v * b[1] + w * c[1])
    # products of the form u * d that the sign conditions need
    d = (b[1] - c[1]) * (a[0] - c[0]) + (c[0] - b[0]) * (a[1] - c[1])
    x = (b[1] - c[1]) * (p[0] - c[0]) + (c[0] - b[0]) * (p[1] - c[1])
    y = (c[1] - a[1]) * (p[0] - c[0]) + (a[0] - c[0]) * (p[1] - c[1])
    E.lemma('x = u d', x == u * d)
    E.lemma('y = v d', y == v * d)
    for i in range(2):
        E.lemma('p lies between the smallest and largest coordinate', min(a[i], b[i], c[i]) <= p[i] and p[i] <= max(a[i], b[i], c[i]))
    E.ensure('accepted', in_triangle(a, b, c, p))


def prove_triangle_sound(E):
    """an accepted point satisfies every linear inequality that a, b and c satisfy (it is in their convex hull)"""
    a, b, c, p = pt(E, 'a'), pt(E, 'b'), pt(E, 'c'), pt(E, 'p')
    d = (b[1] - c[1]) * (a[0] - c[0]) + (c[0] - b[0]) * (a[1] - c[1])
    if in_triangle(a, b, c, p):
        x = (b[1] - c[1]) * (p[0] - c[0]) + (c[0] - b[0]) * (p[1] - c[1])
        y = (c[1] - a[1]) * (p[0] - c[0]) + (a[0] - c[0]) * (p[1] - c[1])
        if d != 0:
            u, v = x / d, y / d
            E.ensure('explicit weights', u >= 0 and v >= 0 and u + v <= 1)
            E.ensure('first coordinate', (u * a[0] + v * b[0] + (1 - u - v) * c[0]) == p[0])
            E.ensure('second coordinate', (u * a[1] + v * b[1] + (1 - u - v) * c[1]) == p[1])
        else:
            E.ensure('on the common line', x == 0 and y == 0)
            for i in range(2):
                E.ensure('inside the coordinate range', min(a[i], b[i], c[i]) <= p[i] and p[i] <= max(a[i], b[i], c[i]))


def prove_triangle_degenerate(E):
    """in the degenerate case an accepted point is on a segment between two of the vertices"""
    a, s, t = pt(E, 'a'), E.real('s'), E.real('t')
    e, f = E.real('e'), E.real('f')
    b = (a[0] + s * e, a[1] + s * f)
    c = (a[0] + t * e, a[1] + t * f)
    r = E.real('r')
    E.assume(e != 0 or f != 0)
    p = (a[0] + r * e, a[1] + r * f)
    if in_triangle(a, b, c, p):
        E.ensure('between the extreme vertices', min(0, s, t) <= r and r <= max(0, s, t))
    q = pt(E, 'q')
    if (s != 0 or t != 0) and in_triangle(a, b, c, q):
        E.ensure('on the line', (q[0] - a[0]) * f == (q[1] - a[1]) * e)


class Member:
    def __init__(self, E, b, pts, p):
        self.b = b

    def contains(self, x):
        return self.b


def bounded_construct(E):
    """construct_proof for up to 4 arbitrary pairs of any proof complexity (bounded: 4 pairs), both deep and shallow search"""
    n = E.choice('n', [1, 2, 3, 4])
    deep = E.bool('deep')
    reduce = E.bool('reduce')
    ps = []
    for i in range(n):
        h = hyp('p' + str(i), 'Exponent pair', Exp_pair(E.real('k' + str(i), F(0), F(1, 2)), E.real('l' + str(i), F(1, 2), F(1))))
        for j in range(E.count('c' + str(i), 0, 1)):
            h.add_dependency(hyp('d', 'x', 'x', 1800))
        ps.append(h)
    k, l = E.real('k'), E.real('l')
    H = Hypothesis_Set()
    for h in ps:
        H.add_hypothesis(h)
    H.add_hypothesis(hyp('o', 'Upper bound on mu', 'x'))
    if E.symbolic:
        for i in range(n):
            for j in range(i):
                E.assume(ps[i].data.k != ps[j].data.k or ps[i].data.l != ps[j].data.l)
        inh = E.fresh_bool('inhull')
        tris = list(itertools.combinations(ps, 3))
        flags = [E.fresh_bool('tri' + str(i)) for i in range(len(tris))]

        def tri_flag(a, b, c, p):
            for t, fl in zip(tris, flags):
                if (t[0].data.k, t[0].data.l) == a and (t[1].data.k, t[1].data.l) == b and (t[2].data.k, t[2].data.l) == c:
                    return fl
            E.fail('in_triangle is called on pairs of the set')
        hull = list(ps)
        E.assume(all(not fl or inh for fl in flags))
        if n >= 3:
            E.assume(not inh or any(flags))
        E.stub('exponent_pair.compute_convex_hull', lambda h: hull)
        E.stub('exponent_pair.in_triangle', tri_flag)
        E.stub('polytope.Polytope.from_V_rep', lambda v: Member(E, inh, v, (k, l)))
        r = construct_proof(k, l, H, reduce, deep)
        exact = any(p.data.k == k and p.data.l == l for p in ps)
        if r is None:
            E.ensure('None only outside the hull', not inh and not exact)
        else:
            E.ensure('inside the hull', inh or exact)
            E.ensure('a pair hypothesis for exactly (k, l)', r.hypothesis_type == 'Exponent pair' and r.data.k == k and r.data.l == l)
            if exact:
                E.ensure('the member itself', any(r is p for p in ps))
            else:
                E.ensure('dependencies are members', all(any(d is p for p in ps) for d in r.dependencies))
                if reduce and n >= 3:
                    E.ensure('three dependencies', len(r.dependencies) == 3)
                    ok = False
                    best = None
                    for t, fl in zip(tris, flags):
                        if fl:
                            cost = t[0].proof_complexity() + t[1].proof_complexity() + t[2].proof_complexity()
                            if best is None or cost < best:
                                best = cost
                            if all(x in r.dependencies for x in t):
                                ok = True
                                mine = cost
                    E.ensure('a containing triangle', ok)
                    E.ensure('of least complexity', mine == best)
                else:
                    E.ensure('all vertices', all(p in r.dependencies for p in ps))
    else:
        construct(E, H, ps, k, l, reduce, deep)


def hull_contains(pts, p):
    """exact: p in the convex hull of pts (concrete)"""
    pts = list(set(pts))
    for t in pts:
        if t == p:
            return True
    for a, b in itertools.combinations(pts, 2):
        if (b[0] - a[0]) * (p[1] - a[1]) == (b[1] - a[1]) * (p[0] - a[0]) and min(a, b) <= p <= max(a, b):
            return True
    for a, b, c in itertools.combinations(pts, 3):
        s = [(q[0] - o[0]) * (p[1] - o[1]) - (q[1] - o[1]) * (p[0] - o[0]) for o, q in ((a, b), (b, c), (c, a))]
        d = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        if d != 0 and (all(x >= 0 for x in s) or all(x <= 0 for x in s)):
            return True
    return False


def construct(E, H, ps, k, l, reduce, deep):
    pts = [(h.data.k, h.data.l) for h in ps]
    inh = hull_contains(pts, (k, l))
    r = construct_proof(k, l, H, reduce, deep)
    if not inh:
        E.ensure('None outside the convex hull', r is None)
        return
    E.ensure('a proof inside the convex hull', r is not None)
    E.ensure('exactly (k, l)', r.data.k == k and r.data.l == l and r.hypothesis_type == 'Exponent pair')
    if any(r is p for p in ps):
        return
    E.ensure('not in the set itself', (k, l) not in pts)
    E.ensure('dependencies are members', all(d in ps for d in r.dependencies))
    dp = [(d.data.k, d.data.l) for d in r.dependencies]
    E.ensure('the dependencies contain the pair in their hull', hull_contains(dp, (k, l)))
    if reduce:
        E.ensure('at most three', len(r.dependencies) <= 3)
        if deep and len(ps) >= 3:
            best = min(sum(x.proof_complexity() for x in t) for t in itertools.combinations(ps, 3)
                       if hull_contains([(x.data.k, x.data.l) for x in t], (k, l)))
            E.ensure('least complexity', sum(x.proof_complexity() for x in r.dependencies) <= best)


def rand_pairs(E, n):
    ps = []
    ks = [F(0), F(1, 6), F(1, 4), F(1, 2), F(1, 14)]
    ls = [F(1, 2), F(2, 3), F(3, 4), F(1), F(11, 14)]
    for i in range(n):
        if E.bool('g'):
            h = hyp('p', 'Exponent pair', Exp_pair(E.choice('gk', ks), E.choice('gl', ls)), E.choice('y', [1900, 1950, 2000, 2020]))
        else:
            h = hyp('p', 'Exponent pair', Exp_pair(E.real('k', F(0), F(1, 2)), E.real('l', F(1, 2), F(1))), E.choice('y2', [1900, 1950, 2000, 2020]))
        for j in range(E.count('c', 0, 3)):
            h.add_dependency(hyp('d', 'x', 'x', 1800))
        ps.append(h)
    return ps


def check_construct(E):
    """random sets of up to 7 pairs with dependencies (bounded, concrete)"""
    ps = rand_pairs(E, E.count('n', 0, 7))
    pts = [(h.data.k, h.data.l) for h in ps]
    H = Hypothesis_Set(ps + [hyp('o', 'Upper bound on mu', 'x'), lit.A_transform_hypothesis])
    mode = E.count('mode', 0, 3)
    if mode == 0 or len(ps) < 2:
        k, l = E.real('K', F(0), F(1, 2)), E.real('L', F(1, 2), F(1))
    else:
        a, b, c = E.choice('i', pts), E.choice('j', pts), E.choice('h', pts)
        u = F(E.count('u', 0, 4), 8)
        v = F(E.count('v', 0, 4), 8)
        if mode == 1:
            v = 1 - u
        k = u * a[0] + v * b[0] + (1 - u - v) * c[0]
        l = u * a[1] + v * b[1] + (1 - u - v) * c[1]
    # repeated questions must not be answered from stale data
    construct(E, H, ps, k, l, E.bool('reduce'), E.bool('deep'))
    more = rand_pairs(E, 1)
    H.add_hypotheses(more)
    construct(E, H, ps + more, k, l, E.bool('reduce2'), E.bool('deep2'))


def check_triangle(E):
    """random small triangles against an independent exact test (bounded, concrete)"""
    g = [F(i) for i in range(-2, 4)] + [F(1, 2)]
    a, b, c, p = [(E.choice(n + 'x', g), E.choice(n + 'y', g)) for n in 'abcp']
    E.ensure('in_triangle is hull membership', bool(in_triangle(a, b, c, p)) == hull_contains([a, b, c], p))


def reach(start, transforms, depth):
    """exact reference for compute_exp_pairs(prune=False): pairs and their minimal number of steps"""
    dist = {p: 0 for p in start}
    for i in range(depth):
        for p in list(dist):
            if dist[p] == i:
                for t in transforms:
                    q = t(p)
                    if q not in dist:
                        dist[q] = i + 1
    return dist


TR = {'A': lambda p: (p[0] / (2 * p[0] + 2), (p[0] + p[1] + 1) / (2 * p[0] + 2)),
      'B': lambda p: (p[1] - F(1, 2), p[0] + F(1, 2)),
      'C': lambda p: (p[0] / (12 * (1 + 4 * p[0])), (11 * (1 + 4 * p[0]) + p[1]) / (12 * (1 + 4 * p[0])))}


def extreme(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts
    out = []
    for chain in (pts, pts[::-1]):
        h = []
        for p in chain:
            while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        out += h[:-1]
    return out


def derivation_ok(r, ps, ts, depth, seen):
    """r is a member, or one transform step of an input that is itself derived in fewer steps"""
    if any(r is p for p in ps):
        return True
    if depth == 0 or len(r.dependencies) != 2:
        return False
    src = [d for d in r.dependencies if d.hypothesis_type == 'Exponent pair']
    t = [d for d in r.dependencies if d in ts]
    if len(src) != 1 or len(t) != 1:
        return False
    n = [k for k in TR if t[0] is NAMES[k]][0]
    if TR[n]((src[0].data.k, src[0].data.l)) != (r.data.k, r.data.l):
        return False
    return derivation_ok(src[0], ps, ts, depth - 1, seen)


NAMES = {'A': lit.A_transform_hypothesis, 'B': lit.B_transform_hypothesis, 'C': lit.C_transform_hypothesis}


def check_compute(E):
    """compute_exp_pairs against exact reachability (bounded, concrete)"""
    ps = rand_pairs(E, E.count('n', 0, 3))
    use = [k for k in 'ABC' if E.bool('t' + k)]
    ts = [NAMES[k] for k in use]
    H = Hypothesis_Set(ps + ts + [hyp('o', 'Upper bound on mu', 'x')])
    depth = E.count('depth', 0, 3)
    prune = E.bool('prune')
    start = {(p.data.k, p.data.l) for p in ps}
    full = reach(start, [TR[k] for k in use], depth)
    n0 = len(H)
    rs = compute_exp_pairs(H, depth, prune)
    E.ensure('the set is unchanged', len(H) == n0 and all(p in H.hypotheses for p in ps))
    got = {(r.data.k, r.data.l) for r in rs}
    E.ensure('each pair once', len(got) == len(rs))
    for r in rs:
        # within one round a transform may act on pairs found in the same round
        E.ensure('members or derived by transform steps, at most one per transform and round',
                 derivation_ok(r, ps, ts, depth * max(1, len(ts)), {}))
    if not prune:
        E.ensure('no reachable pair is lost', all(p in got for p in full))
    else:
        ext = extreme(full)
        if len(ext) >= 3:
            for p in ext:
                E.ensure('no vertex of the hull is lost', p in got or hull_contains(list(got), p))


def oracle_year(H, k, l):
    ys = sorted({h.reference.year() for h in H if h.reference.year() != 'Unknown date'})
    for y in ys:
        sub = Hypothesis_Set([h for h in H if h.reference.year() == 'Unknown date' or h.reference.year() <= y])
        sub.add_hypotheses(beta_bounds_to_exponent_pairs(sub))
        sub.add_hypotheses(compute_exp_pairs(sub, prune=True))
        pts = [(h.data.k, h.data.l) for h in sub.list_hypotheses('Exponent pair')]
        if hull_contains(pts, (k, l)):
            return y
    return None


def check_find(E):
    """find_best_proof with every method (bounded, concrete)"""
    ps = [hyp('p0', 'Exponent pair', Exp_pair(F(0), F(1)), E.choice('y0', [1900, 1950, 2000])),
          hyp('p1', 'Exponent pair', Exp_pair(F(1, 2), F(1, 2)), E.choice('y1', [1900, 1950, 2000]))]
    ps += rand_pairs(E, E.count('n', 1, 3))
    pts = [(h.data.k, h.data.l) for h in ps]
    ts = [NAMES[k] for k in 'AB' if E.bool('t' + k)]
    H = Hypothesis_Set(ps + ts)
    if E.bool('beta'):
        H.add_hypothesis(hyp('b', 'Upper bound on beta', Bound_beta(Affine(F(1), F(0), Interval(F(0), F(1, 2), True, True))), E.choice('yb', [1900, 1990])))
    if E.bool('in'):
        a, b, c = E.choice('i', pts), E.choice('j', pts), E.choice('h', pts)
        k, l = (a[0] + b[0] + 2 * c[0]) / 4, (a[1] + b[1] + 2 * c[1]) / 4
    else:
        k, l = E.real('K', F(0), F(1, 2)), E.real('L', F(1, 2), F(1))
    n0 = len(H)
    allowed = set(H)
    for h in H:
        allowed |= set(h.recursive_dependencies())
    y = oracle_year(H, k, l)
    r = find_best_proof(k, l, H)
    E.ensure('the set is unchanged', len(H) == n0)
    if r is None:
        E.ensure('DATE: None only if there is no proof', y is None)
    else:
        E.ensure('DATE: exactly (k, l)', r.data.k == k and r.data.l == l)
        E.ensure('DATE: leaves are hypotheses of the set', all(h in allowed or len(h.dependencies) > 0 for h in r.recursive_dependencies()) or r in H.hypotheses)
        E.ensure('DATE: of the earliest possible year', y is not None and r.proof_date() <= y)
        E.ensure('DATE: the date is not below every possible one', r.proof_date() >= -1)
    r2 = find_best_proof(k, l, H, Proof_Optimization_Method.NONE)
    if r2 is not None:
        E.ensure('NONE: exactly (k, l)', r2.data.k == k and r2.data.l == l)
    E.ensure('NONE: finds a proof whenever DATE does', r2 is not None or r is None)


def bounded_find_date(E):
    """DATE: the result is a proof from the hypotheses up to the earliest sufficient year (bounded: 3 hypotheses, any years)"""
    hs, need, known = [], [], []
    for i in range(3):
        kn = E.bool('known' + str(i))
        y = E.int('y' + str(i), 1800, 2100)
        if E.symbolic or True:
            ref = Reference.make('A', y) if kn else Reference('x', 'article', {'author': 'A'})
        h = Hypothesis('h' + str(i), 'Exponent pair transform', 'x', 'p', ref)
        hs.append(h)
        known.append(kn)
        need.append(E.bool('need' + str(i)))
    E.assume(known[0])
    H = Hypothesis_Set()
    for h in hs:
        H.add_hypothesis(h)
    if not E.symbolic:
        return
    calls = []

    def prove(k, l, S, red, deep):
        calls.append(S)
        ok = True
        for h, nd in zip(hs, need):
            if nd and h not in S.hypotheses:
                ok = False
        if ok:
            r = Hypothesis('proof', 'Exponent pair', Exp_pair(k, l), 'p', Reference.derived(2000))
            r.dependencies = set(h for h, nd in zip(hs, need) if nd)
            return r
        return None
    E.stub('exponent_pair.beta_bounds_to_exponent_pairs', lambda S, r: [])
    E.stub('exponent_pair.compute_exp_pairs', lambda S, d, p: [])
    E.stub('exponent_pair.construct_proof', prove)
    r = find_best_proof(F(1, 6), F(2, 3), H, Proof_Optimization_Method.DATE)
    E.ensure('a proof is found whenever all members suffice', r is not None)
    S = calls[-1]
    best = None
    for h, kn in zip(hs, known):
        if kn:
            ok = True
            for g, nd, kg in zip(hs, need, known):
                if nd and kg and g.reference.year() > h.reference.year():
                    ok = False
            if ok and (best is None or h.reference.year() < best):
                best = h.reference.year()
    E.ensure('only hypotheses up to the earliest sufficient year are used',
             all(not kn or not (h in S.hypotheses) or h.reference.year() <= best for h, kn in zip(hs, known)))


def prove_rejects(E):
    """a hypothesis set is required"""
    for f in (lambda: construct_proof(F(0), F(1), [], True, True), lambda: find_best_proof(F(0), F(1), [], Proof_Optimization_Method.DATE)):
        try:
            f()
            ok = False
        except ValueError:
            ok = True
        E.ensure('ValueError', ok)
    E.ensure('no pairs, no proof', construct_proof(F(0), F(1), Hypothesis_Set()) is None)
