"""P08: hypothesis sets are sets with a coherent cache."""
from fractions import Fraction as F
import copy
from hypotheses import Hypothesis, Hypothesis_Set
from exponent_pair import Exp_pair, compute_convex_hull, construct_proof
from bound_mu import Bound_mu, best_mu_bound, best_mu_bound_piecewise, prove_mu_bound
from bound_beta import Bound_beta, compute_best_beta_bounds
from reference import Reference
from functions import Interval, Affine
from lib import hyp

OPTS = {'*': {'time': 120, 'n': 200, 'max_paths': 60000},
        'check_history': {'n': 1500, 'tl': 15},
        'check_cache': {'n': 300, 'tl': 20},
        'assumptions': ["symbolic cache cases use ConvexHull through its planar contract"]}


def thing(E, i):
    return hyp('t', 'Exponent pair', Exp_pair(E.real('k', F(0), F(1, 2)), E.real('l', F(1, 2), F(1))))


def same_members(S, L, other):
    return all(h in S.hypotheses for h in L) and all(any(h is g for g in L) for h in S) and not (other in S.hypotheses)


def prove_construct(E):
    """a set built from a list of any length has exactly those members, and an empty invalid cache"""
    L = E.seq('L', lambda i: thing(E, i))
    o = hyp('o', 'Exponent pair', Exp_pair(F(0), F(1)))
    H = Hypothesis_Set(L)
    E.ensure('members', same_members(H, L, o))
    E.ensure('iteration', all(any(h is g for g in L) for h in H) and all(any(h is g for h in H) for g in L))
    E.ensure('to_list', all(any(h is g for h in H.to_list()) for g in L) and all(any(h is g for g in L) for h in H.to_list()))
    E.ensure('cache', len(H.data) == 0)


def prove_add_list(E):
    """adding a list / a set / a generator / another set of any size adds exactly its members and drops the cache"""
    A = E.seq('A', lambda i: thing(E, i))
    B = E.seq('B', lambda i: thing(E, i))
    how = E.choice('how', ['list', 'set', 'gen', 'hset', 'hset2'])
    o = hyp('o', 'Exponent pair', Exp_pair(F(0), F(1)))
    H = Hypothesis_Set(A)
    H.data['x'] = 1
    H.data_valid = True
    G = Hypothesis_Set(B)
    G.data['y'] = 2
    G.data_valid = E.bool('source valid')
    if how == 'list':
        H.add_hypotheses(B)
    elif how == 'set':
        H.add_hypotheses(set(B))
    elif how == 'gen':
        H.add_hypotheses(b for b in B)
    elif how == 'hset':
        H.add_hypotheses(G)
    else:
        H.add_hypotheses(G.hypotheses)
    E.ensure('all there', all(h in H.hypotheses for h in A) and all(h in H.hypotheses for h in B))
    E.ensure('nothing else', all(any(h is g for g in A) or any(h is g for g in B) for h in H))
    E.ensure('another hypothesis is not a member', o not in H.hypotheses)
    E.ensure('cache dropped', len(H.data) == 0)
    E.ensure('the source is unchanged', all(h in G.hypotheses for h in B) and all(any(h is g for g in B) for h in G) and G.data['y'] == 2)


def prove_add_one(E):
    """adding one hypothesis, with and without invalidation"""
    A = E.seq('A', lambda i: thing(E, i))
    h = thing(E, 0)
    inv = E.bool('inv')
    many = E.bool('many')
    H = Hypothesis_Set(A)
    H.data['x'] = 1
    H.data_valid = True
    if many:
        H.add_hypotheses(h, inv)
    else:
        H.add_hypothesis(h, inv)
    E.ensure('there', h in H.hypotheses and all(a in H.hypotheses for a in A))
    E.ensure('nothing else', all(g is h or any(g is a for a in A) for g in H))
    if inv:
        E.ensure('cache dropped', len(H.data) == 0)
    else:
        E.ensure('cache kept', len(H.data) == 1 and H.data['x'] == 1 and H.data_valid)


def prove_add_list_keep(E):
    """adding collections without invalidation keeps the cache"""
    B = E.seq('B', lambda i: thing(E, i))
    how = E.choice('how', ['list', 'set', 'hset'])
    H = Hypothesis_Set()
    H.data['x'] = 1
    H.data_valid = True
    if how == 'list':
        H.add_hypotheses(B, False)
    elif how == 'set':
        H.add_hypotheses(set(B), False)
    else:
        H.add_hypotheses(Hypothesis_Set(B), False)
    E.ensure('all there', all(h in H.hypotheses for h in B))
    E.ensure('cache kept', len(H.data) == 1 and H.data['x'] == 1 and H.data_valid)


def prove_copy(E):
    """a copy of a set of any size has the same members; later changes on either side do not show on the other"""
    A = E.seq('A', lambda i: thing(E, i))
    v = E.bool('valid')
    H = Hypothesis_Set(A)
    H.data['x'] = 1
    H.data_valid = v
    C = copy.copy(H)
    E.ensure('same members', all(h in C.hypotheses for h in A) and all(any(h is g for g in A) for h in C))
    h, g = thing(E, 0), thing(E, 1)
    C.add_hypothesis(h)
    E.ensure('the original does not change', not (h in H.hypotheses) and H.data['x'] == 1 and H.data_valid == v)
    H.data['z'] = 5
    H.add_hypothesis(g, False)
    E.ensure('the copy does not change', not (g in C.hypotheses) and 'z' not in C.data)
    D = copy.copy(H)
    D.data['w'] = 7
    D.data_valid = True
    E.ensure('cache of a copy is separate', 'w' not in H.data and H.data_valid == v)
    H.data['v'] = 8
    E.ensure('cache of the original is separate', 'v' not in D.data)


def prove_default(E):
    """default-constructed sets share nothing"""
    A, B = Hypothesis_Set(), Hypothesis_Set()
    h = thing(E, 0)
    A.add_hypothesis(h)
    A.data['x'] = 1
    C = Hypothesis_Set()
    E.ensure('nothing shared', len(B) == 0 and len(C) == 0 and len(A) == 1 and len(B.data) == 0 and len(C.data) == 0)
    E.ensure('hypotheses share no dependencies', thing(E, 1).dependencies is not h.dependencies)


def prove_list_hypotheses(E):
    """list_hypotheses keeps exactly the members that match, for sets of any size"""
    A = E.seq('A', lambda i: Hypothesis('h', E.choice('t', ['Exponent pair', 'Upper bound on mu']), 'x', 'p', Reference.make('A', E.int('y'))))
    y = E.int('Y')
    H = Hypothesis_Set(A)
    r = H.list_hypotheses('Exponent pair', y)
    E.ensure('exactly the matching ones', all((h in r) == (h.hypothesis_type == 'Exponent pair' and h.reference.year() <= y) for h in A))
    E.ensure('only members', all(h in H.hypotheses for h in r))
    s = H.list_hypotheses()
    E.ensure('all by default', all(h in s for h in A) and all(h in H.hypotheses for h in s))


def bounded_mu_cache(E):
    """best_mu_bound after an addition is that of the enlarged set, and of a copy that of the copy (bounded: two bounds at sigma = 1/2)"""
    a, b = E.real('a', F(0), F(1)), E.real('b', F(0), F(1))
    h1 = hyp('a', 'Upper bound on mu', Bound_mu(F(1, 2), a))
    h2 = hyp('b', 'Upper bound on mu', Bound_mu(F(1, 2), b))
    H = Hypothesis_Set()
    H.add_hypothesis(h1)
    E.ensure('one bound', best_mu_bound(F(1, 2), H).data.mu == min(a, F(1, 4)))
    C = copy.copy(H)
    H.add_hypothesis(h2)
    E.ensure('enlarged set', best_mu_bound(F(1, 2), H).data.mu == min(a, b, F(1, 4)))
    E.ensure('the copy', best_mu_bound(F(1, 2), C).data.mu == min(a, F(1, 4)))
    D = copy.copy(C)
    D.add_hypotheses([h2])
    E.ensure('the copy of the copy', best_mu_bound(F(1, 2), D).data.mu == min(a, b, F(1, 4)))
    E.ensure('the original copy again', best_mu_bound(F(1, 2), C).data.mu == min(a, F(1, 4)))


def bounded_pair_cache(E):
    """the hull of exponent pairs after an addition contains the new pair's extreme point (bounded: 3 + 1 pairs)"""
    ps = [hyp('p', 'Exponent pair', Exp_pair(F(0), F(1))), hyp('p', 'Exponent pair', Exp_pair(F(1, 2), F(1, 2))),
          hyp('p', 'Exponent pair', Exp_pair(F(1, 4), F(11, 16)))]
    H = Hypothesis_Set()
    for p in ps:
        H.add_hypothesis(p)
    v = compute_convex_hull(H)
    E.ensure('first hull', len(v) == 3)
    if E.bool('mu first'):
        best_mu_bound(F(1, 2), H)
    k = E.real('k', F(0), F(1, 2))
    l = E.real('l', F(1, 2), F(1))
    E.assume(k + l < F(15, 16) and l < F(15, 16))
    E.assume(k < F(1, 4))
    q = hyp('q', 'Exponent pair', Exp_pair(k, l))
    H.add_hypotheses([q])
    w = compute_convex_hull(H)
    E.ensure('the new vertex is there', any(h is q for h in w))
    H2 = copy.copy(H)
    H2.add_hypothesis(hyp('z', 'Exponent pair', Exp_pair(F(0), F(1, 2))))
    w2 = compute_convex_hull(H2)
    E.ensure('the copy has its own hull', any(h.data.k == 0 and h.data.l == F(1, 2) for h in w2))
    w3 = compute_convex_hull(H)
    E.ensure('the original keeps its hull', any(h is q for h in w3) and not any(h.name == 'z' for h in w3))


def check_history(E):
    """random histories of additions, copies and queries against a reference model (bounded, concrete)"""
    pool = []
    for i in range(8):
        y = E.choice('y', [1900, 1950, 2000, 'Unknown date', float('inf')])
        lab = E.choice('lab', ['x', 'Derived', 'Classical', 'Conjectured'])
        ref = Reference(lab, 'article', {'author': 'A'} if y == 'Unknown date' else {'author': 'A', 'year': y})
        pool.append(Hypothesis('h' + str(i), E.choice('t', ['Exponent pair', 'Upper bound on mu', 'Upper bound on beta']), 'x', 'p', ref))
    sets = [(Hypothesis_Set(), set())]
    for step in range(E.count('steps', 1, 14)):
        H, M = E.choice('which', sets)
        op = E.count('op', 0, 8)
        sub = [h for h in pool if E.bool('in')]
        if op == 0:
            h = E.choice('h', pool)
            H.add_hypothesis(h)
            M.add(h)
        elif op == 1:
            H.add_hypotheses(sub)
            M |= set(sub)
        elif op == 2:
            H.add_hypotheses(set(sub))
            M |= set(sub)
        elif op == 3:
            H.add_hypotheses(h for h in sub)
            M |= set(sub)
        elif op == 4:
            G, N = E.choice('source', sets)
            if G is H:
                G, N = Hypothesis_Set(sub), set(sub)
            H.add_hypotheses(G)
            M |= N
        elif op == 5:
            sets.append((copy.copy(H), set(M)))
        elif op == 6:
            sets.append((Hypothesis_Set(sub), set(sub)))
        elif op == 7:
            sets.append((Hypothesis_Set(), set()))
        else:
            h = E.choice('h2', pool)
            H.add_hypotheses(h)
            M.add(h)
        if op in (0, 1, 2, 3, 4, 8):
            E.ensure('no stale cache', len(H.data) == 0)
        if E.bool('poke'):
            H.data['k' + str(step)] = step
            H.data_valid = True
        for G, N in sets:
            E.ensure('len', len(G) == len(N))
            E.ensure('iteration', set(G) == N and len(list(G)) == len(N))
            E.ensure('to_list', set(G.to_list()) == N and len(G.to_list()) == len(N))
            t = E.choice('type', ['Any', 'Exponent pair', 'Upper bound on mu'])
            y = E.choice('year', ['Any', 1899, 1900, 1975, 2000])
            want = set()
            for h in N:
                if t == 'Any' or h.hypothesis_type == t:
                    if y == 'Any' or h.reference.label in ('Derived', 'Classical'):
                        want.add(h)
                    elif h.reference.label != 'Conjectured' and h.reference.entries.get('year') is not None and h.reference.entries['year'] <= y:
                        want.add(h)
            got = G.list_hypotheses(t, y)
            E.ensure('list_hypotheses', set(got) == want and len(got) == len(want))


def check_cache(E):
    """queries interleaved with additions and copies agree with freshly built sets (bounded, concrete)"""
    sets = [Hypothesis_Set()]
    g = [F(1, 2), F(2, 3), F(1, 4), F(5, 7), F(3, 4)]
    for step in range(E.count('steps', 2, 8)):
        H = E.choice('which', sets)
        op = E.count('op', 0, 4)
        if op <= 2:
            if E.bool('mu'):
                s = E.choice('s', g)
                h = hyp('m', 'Upper bound on mu', Bound_mu(s, (F(1) - s) / 2 * F(E.count('f', 0, 8), 8) + max(F(0), F(1, 2) - s) * (1 - F(E.count('f2', 0, 8), 8))))
            else:
                h = hyp('p', 'Exponent pair', Exp_pair(F(E.count('k', 0, 6), 12), F(E.count('l', 6, 12), 12)))
            if op == 0:
                H.add_hypothesis(h)
            elif op == 1:
                H.add_hypotheses([h])
            else:
                H.add_hypotheses(Hypothesis_Set([h]))
        elif op == 3:
            sets.append(copy.copy(H))
        else:
            prove_mu_bound(E.choice('ps', g), F(E.count('pm', 0, 6), 12), H)
        for G in sets:
            fresh = Hypothesis_Set(list(G))
            q = E.count('query', 0, 3)
            x = E.choice('x', g)
            if q == 0:
                E.ensure('best mu bound', best_mu_bound(x, G).data.mu == best_mu_bound(x, fresh).data.mu)
            elif q == 1:
                a = construct_proof(F(E.count('K', 0, 6), 12), F(E.count('L', 6, 12), 12), G)
                k, l = (a.data.k, a.data.l) if a is not None else (F(1, 3), F(7, 12))
                b = construct_proof(k, l, fresh)
                a = construct_proof(k, l, G)
                E.ensure('construct_proof', (a is None) == (b is None))
            elif q == 2:
                E.ensure('hull', {(p.data.k, p.data.l) for p in compute_convex_hull(G)} == {(p.data.k, p.data.l) for p in compute_convex_hull(fresh)})
            else:
                v = [f.m * x + f.c for f in best_mu_bound_piecewise(Interval(0, 1, True, True), G) if f.domain.x0 <= x <= f.domain.x1]
                E.ensure('piecewise', len(v) >= 1 and all(y == best_mu_bound(x, fresh).data.mu for y in v))
