"""P03: best beta bounds are the pointwise best bounds, with provenance."""
from fractions import Fraction as F
from functions import Interval, Affine
from hypotheses import Hypothesis, Hypothesis_Set
from bound_beta import Bound_beta, compute_best_beta_bounds
from lib import inside, interval, affine, iv_fields, aff_fields, value, crit_points, hyp

OPTS = {'*': {'time': 120, 'n': 400, 'max_paths': 200000},
        'bounded_two': {'shards': ('shard', 6)},
        'check_many': {'n': 1200, 'tl': 20},
        'assumptions': ["the symbolic case has two beta bounds with listed domains; larger sets are bounded concrete runs"]}


def spec(E, H, members, dom, rs, before, x):
    """members: the 'Upper bound on beta' hypotheses of H; rs: the result; x: any point."""
    n = 0
    for r in rs:
        b = r.data.bound
        E.ensure('results are beta bounds', r.hypothesis_type == 'Upper bound on beta')
        if inside(b.domain, x):
            n += 1
            v = value(b, x)
            E.ensure('inside the domain', inside(dom, x))
            att = False
            for h in members:
                g = h.data.bound
                if inside(g.domain, x):
                    E.ensure('the value is the minimum', v <= value(g, x))
                    if r is h:
                        att = True
                    elif len(r.dependencies) == 1 and h in r.dependencies and value(g, x) == v:
                        att = True
            E.ensure('the one dependency (or the member itself) attains the bound at the point', att)
    E.ensure('disjoint', n <= 1)
    defined = False
    for h in members:
        if inside(h.data.bound.domain, x):
            defined = True
    if inside(dom, x) and defined:
        E.ensure('covered', n == 1)
    else:
        E.ensure('not covered', n == 0)


def provenance(E, members, rs):
    for r in rs:
        m = any(r is h for h in members)
        E.ensure('a member of the set or derived from exactly one member',
                 m or (len(r.dependencies) == 1 and any(h in r.dependencies for h in members)))


def run(E, bounds, others, dom, xs):
    members = [hyp('b' + str(i), 'Upper bound on beta', Bound_beta(b)) for i, b in enumerate(bounds)]
    H = Hypothesis_Set()
    for h in members + others:
        H.add_hypothesis(h)
    before = [aff_fields(b) for b in bounds]
    rs = compute_best_beta_bounds(H) if dom is None else compute_best_beta_bounds(H, dom)
    d = Interval(F(0), F(1, 2), True, True) if dom is None else dom
    E.ensure('no hypothesis of the set is changed',
             [aff_fields(b) for b in bounds] == before and all(len(h.dependencies) == 0 for h in members)
             and all(h.data.bound is b for h, b in zip(members, bounds)))
    E.ensure('the set keeps its members', len(H) == len(members) + len(others) and all(h in H.hypotheses for h in members + others))
    provenance(E, members, rs)
    if xs is None:
        xs = crit_points(bounds + [r.data.bound for r in rs], [d.x0, d.x1])
    for x in xs:
        spec(E, H, members, d, rs, before, x)
    for i in range(len(rs) - 1):
        E.ensure('in increasing order', rs[i].data.bound.domain.x1 <= rs[i + 1].data.bound.domain.x0)


def iv(a, b, l, u):
    return Interval(F(a), F(b), l, u)


def bounded_two(E):
    """two beta bounds with arbitrary slopes and intercepts on 6 domain configurations, every point x (bounded: 2 bounds)"""
    s = E.choice('shard', [0, 1, 2, 3, 4, 5])
    E.merge_objs()
    h = F(1, 2)
    c = [(iv(0, h, True, True), iv(0, h, True, True), None),
         (iv(0, h, True, True), iv(0, F(1, 4), True, False), None),
         (iv(0, F(1, 4), True, True), iv(F(1, 4), h, False, True), None),
         (iv(0, 1, True, True), iv(F(1, 4), 2, True, True), None),
         (iv(0, h, True, False), iv(F(1, 8), h, True, True), iv(F(1, 8), F(3, 8), True, True)),
         (iv(0, F(1, 8), True, True), iv(F(3, 8), h, True, True), None)][s]
    f = Affine(E.real('fm'), E.real('fc'), c[0])
    g = Affine(E.real('gm'), E.real('gc'), c[1])
    x = E.real('x')
    run(E, [f, g], [hyp('other', 'Upper bound on mu', Bound_beta(f))], c[2], [x])


def prove_empty(E):
    """a set without beta bounds gives no bounds"""
    H = Hypothesis_Set()
    H.add_hypothesis(hyp('other', 'Exponent pair', Bound_beta(Affine(F(1), F(0), iv(0, 1, True, True)))))
    E.ensure('no bounds', len(compute_best_beta_bounds(H)) == 0)


def prove_one(E):
    """a single beta bound with arbitrary coefficients on [0, 1/2] is returned itself; elsewhere it is cropped to the domain"""
    E.merge_objs()
    f = Affine(E.real('fm'), E.real('fc'), Interval(F(0), F(1, 2), True, True))
    H = Hypothesis_Set()
    h = hyp('b', 'Upper bound on beta', Bound_beta(f))
    H.add_hypothesis(h)
    rs = compute_best_beta_bounds(H)
    E.ensure('the member itself', len(rs) == 1 and rs[0] is h)


def bounded_one_any_domain(E):
    """one beta bound on any interval with any brackets, default domain, every point x"""
    E.merge_objs()
    f = affine(E, 'f')
    x = E.real('x')
    run(E, [f], [], None, [x])


def check_many(E):
    """up to 6 (now and then up to 40) bounds on random intervals, random domains (bounded, concrete)"""
    n = E.count('n', 0, 6) if E.count('few', 0, 8) else E.count('many', 7, 40)
    g = [F(0), F(1, 8), F(1, 4), F(1, 3), F(1, 2), F(1)]
    bs = []
    for i in range(n):
        k = E.count('k', 0, 3)
        if k == 0:
            a, b = sorted([E.real('x0', F(0), F(1, 2)), E.real('x1', F(0), F(1, 2))])
            bs.append(Affine(E.real('m', F(-2), F(2)), E.real('c', F(-1), F(1)), Interval(a, b, True, True)))
        elif k == 1 and n > 6:
            bs.append(Affine(E.real('m', F(-1), F(1)), E.real('c', F(0), F(1)), Interval(F(0), F(1, 2), True, True)))
        else:
            a, b = E.choice('a', g), E.choice('b', g)
            if a > b:
                a, b = b, a
            bs.append(Affine(E.real('m', F(-2), F(2)), E.real('c', F(-1), F(1)), Interval(a, b, E.bool('l'), E.bool('u'))))
    dom = None
    if E.bool('hasdom'):
        dom = interval(E, 'd')
        E.assume(not dom.is_empty())
    run(E, bs, [hyp('o', 'Exponent pair', Bound_beta(affine(E, 'o')))], dom, None)
