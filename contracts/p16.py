"""P16: large value energy regions are transformed and combined faithfully."""
from fractions import Fraction as F
from exponent_pair import Exp_pair
from hypotheses import Hypothesis, Hypothesis_Set
from polytope import Polytope
from reference import Reference
from region import Region, Region_Type
from transform import Transform
import additive_energy as ad
import large_values as lv
from p10 import point

OPTS = {'*': {'time': 150, 'n': 60, 'max_paths': 60000},
        'check_ep': {'n': 120, 'tl': 25}, 'check_lift': {'n': 100, 'tl': 20}, 'check_best': {'n': 30, 'tl': 40}, 'check_projections': {'n': 60, 'tl': 30},
        'assumptions': ["Region.lift, scale_all, as_disjoint_union, project and simplify are used through their contracts (P12, P13) in the symbolic cases", "cdd matrices are used through their contract"]}

TOP = F(1000000)
ER = 'Large value energy region'
ZER = 'Zeta large value energy region'


def limits(x):
    s, t, r, q, u = x
    return F(1, 2) <= s and s <= 1 and all(0 <= v and v <= TOP for v in (t, r, q, u))


def ep_terms(k, l, x):
    """the combinations 1 - 2 sigma + (max1 + max2)/2 of the theorem"""
    s, t, r, q, u = x
    m1 = [1 + r, F(1, 3) * t + F(5, 3) * r, ((k + l) * t + (2 + 3 * k + 4 * l) * r) / (1 + 2 * k + 2 * l)]
    m2 = [1 + q, 4 * r, F(1, 2) * t + r + F(3, 4) * q]
    return [1 - 2 * s + (a + b) / 2 for a in m1 for b in m2]


def mk(E, n, htype, data):
    return Hypothesis(n, htype, data, 'proof', Reference.make('A', E.int('y' + n, 1900, 2030)))


def prove_ep(E):
    """ep_to_lver denotes the points of its theorem (listed exponent pairs, any point)"""
    k, l = E.choice('kl', [(F(0), F(1)), (F(1, 2), F(1, 2)), (F(1, 6), F(2, 3)), (F(13, 84), F(55, 84)), (F(1, 14), F(11, 14)), (F(3, 40), F(31, 40))])
    x = point(E, 'x', 5)
    h = mk(E, 'e', 'Exponent pair', Exp_pair(k, l))
    E.stub('region.Region.to_str', lambda self, *a: 'text')
    z = ad.ep_to_lver(h)
    E.ensure('points', z.data.contains(x) == (limits(x) and any(x[3] <= v for v in ep_terms(k, l, x))))
    E.ensure('provenance', z.hypothesis_type == ER and set(z.dependencies) == {h} and z.reference.is_derived() and z.reference.year() == h.reference.year())
    E.ensure('unchanged', h.data.k == k and h.data.l == l and len(h.dependencies) == 0)


def prove_ep_rows(E):
    """ep_to_lver uses exactly the nine combinations of its theorem inside the default limits (any exponent pair)"""
    if not E.symbolic:
        return
    k, l = E.real('k', F(0), F(1, 2)), E.real('l', F(1, 2), F(1))
    x = point(E, 'x', 5)
    h = mk(E, 'e', 'Exponent pair', Exp_pair(k, l))
    calls = []

    def halfplanes(hps, box):
        calls.append((hps, box))
        r = Region.union([])
        r.mark = True
        return r
    E.stub('region.Region.from_union_of_halfplanes', halfplanes)
    E.stub('region.Region.to_str', lambda self, *a: 'text')
    z = ad.ep_to_lver(h)
    E.ensure('one union of half planes', len(calls) == 1 and hasattr(z.data.region, 'mark'))
    hps, box = calls[0]
    E.ensure('limits', all(b[0] + sum(b[i + 1] * x[i] for i in range(5)) >= 0 for b in box) == limits(x))
    d = 1 + 2 * k + 2 * l
    m1 = [[1, 0, 0, 1, 0, 0], [0, 0, F(1, 3), F(5, 3), 0, 0], [0, 0, (k + l) / d, (2 + 3 * k + 4 * l) / d, 0, 0]]
    m2 = [[1, 0, 0, 0, 1, 0], [0, 0, 0, 4, 0, 0], [0, 0, F(1, 2), 1, F(3, 4), 0]]
    want = [[[1, -2, 0, 0, -1, 0][j] + F(1, 2) * (a[j] + b[j]) for j in range(6)] for a in m1 for b in m2]
    for b in hps:
        E.ensure('a combination of the theorem', any(multiple(b, w) for w in want))
    for w in want:
        E.ensure('every combination is there', any(multiple(b, w) for b in hps))


def multiple(b, w):
    """the rows are positive multiples of each other"""
    return b[4] * w[4] > 0 and all(b[j] * w[4] == w[j] * b[4] for j in range(6))


def prove_limits(E):
    """default_constraints are the default limits"""
    x = point(E, 'x', 5)
    rows = ad.Large_Value_Energy_Region.default_constraints()
    E.ensure('limits', all(b[0] + sum(b[i + 1] * x[i] for i in range(5)) >= 0 for b in rows) == limits(x))


def prove_power(E):
    """the raise to power transform scales tau, rho, rho*, s by k and keeps provenance"""
    if not E.symbolic:
        return
    k = E.real('k')
    E.assume(k > 0)
    r0, new = Region.union([]), Region.union([])
    seen = []

    def scale_all(self, factors):
        seen.append((self, list(factors)))
        return new
    E.stub('region.Region.scale_all', scale_all)
    E.stub('region.Region.to_str', lambda self, *a: 'text')
    h = mk(E, 'h', ER, ad.Large_Value_Energy_Region(r0))
    t = ad.get_raise_to_power_hypothesis(k)
    z = t.data.transform(h)
    E.ensure('transform', t.hypothesis_type == 'Large value energy region transform' and len(t.dependencies) == 0)
    E.ensure('scaling', len(seen) == 1 and seen[0][0] is r0 and seen[0][1] == [1, k, k, k, k] and z.data.region is new)
    E.ensure('provenance', z.hypothesis_type == ER and set(z.dependencies) == {h} and z.reference.is_derived() and z.reference.year() == h.reference.year())
    E.ensure('unchanged', h.data.region is r0 and len(h.dependencies) == 0)


def tagged(b):
    r = Region.union([])
    r.inn = b
    return r


def lifted(E, x, log=None):
    """contract of Region.lift at the point x: the old coordinates in order, the others within the given limits"""
    def lift(self, var):
        old = [i for i in range(len(var)) if isinstance(var[i], int)]
        E.ensure('old coordinates stay in order', [var[i] for i in old] == list(range(len(old))) and old == list(range(len(old))))
        if log is not None:
            log.append((self, len(old), len(var)))
        return tagged(self.inn and all(var[i][0] <= x[i] and x[i] <= var[i][1] for i in range(len(old), len(var))))
    return lift


def free(x, n):
    return all(0 <= v and v <= TOP for v in x[n:])


def lifts(z, h, x, zeta):
    return (z.hypothesis_type == (ZER if zeta else ER) and len(z.dependencies) == 1 and h in z.dependencies and z.reference.is_derived()
            and z.reference.year() == h.reference.year() and z.data.region.inn == (h.data.region.inn and free(x, 3)))


def prove_lift(E):
    """lv_to_lver lifts each estimate (any number) with the default limits for rho* and s"""
    if not E.symbolic:
        return
    x = point(E, 'x', 5)
    E.stub('region.Region.lift', lifted(E, x))
    E.stub('region.Region.to_str', lambda self, *a, **k: 'text')
    hs = E.seq('h', lambda i: mk(E, 'h', 'Large value estimate', lv.Large_Value_Estimate(tagged(E.bool('in')), 'r')))
    zs = E.seq('z', lambda i: mk(E, 'z', 'Zeta large value estimate', lv.Large_Value_Estimate(tagged(E.bool('in')), 'r')))
    H = Hypothesis_Set()
    H.add_hypotheses(hs)
    H.add_hypotheses(zs)
    zeta = E.choice('zeta', [False, True])
    out = ad.lv_to_lver(H, zeta) if E.choice('kw', [0, 1]) == 0 or zeta else ad.lv_to_lver(H)
    src = zs if zeta else hs
    E.ensure('every region is a lifted estimate', all(any(lifts(z, h, x, zeta) for h in src) for z in out))
    E.ensure('every estimate is lifted', all(any(h in z.dependencies for z in out) for h in src))


def region_with_transforms(E, i):
    h = mk(E, 'h', ER, ad.Large_Value_Energy_Region(tagged(E.bool('in'))))
    h.tin = [E.bool('in0'), E.bool('in1')]
    return h


def transform(j):
    """a transform: its result at the point is the flag h.tin[j]"""
    def f(h):
        z = Hypothesis('t', ER, ad.Large_Value_Energy_Region(tagged(h.tin[j])), 'p', Reference.make('B', 1990 + j))
        z.dependencies = {h}
        z.number = j
        return z
    return Hypothesis('T' + str(j), 'Large value energy region transform', Transform('T', f), 'p', Reference.classical())


def made_from(z, h, j):
    return hasattr(z, 'number') and z.number == j and h in z.dependencies


def prove_expand(E):
    """expand_lver adds every transform of every region, and nothing else (any number of regions, up to two transforms)"""
    if not E.symbolic:
        return
    E.stub('region.Region.to_str', lambda self, *a, **k: 'text')
    m = E.count('m', 0, 2)
    hs = E.seq('h', lambda i: region_with_transforms(E, i))
    zs = E.seq('z', lambda i: mk(E, 'z', ZER, ad.Large_Value_Energy_Region(tagged(True))))
    ts = [transform(j) for j in range(m)]
    H = Hypothesis_Set()
    H.add_hypotheses(hs)
    H.add_hypotheses(zs)
    H.add_hypotheses(ts)
    ad.expand_lver(H)
    E.ensure('every transform of every region', all(all(any(made_from(z, h, j) for z in H) for j in range(m)) for h in hs))
    E.ensure('members stay', all(h in H for h in hs) and all(h in H for h in zs) and all(h in H for h in ts))
    E.ensure('nothing else', all(z in hs or z in zs or z in ts or any(any(made_from(z, h, j) for j in range(m)) for h in hs) for z in H))


def prove_best(E):
    """compute_best_lver intersects the lifted domain with all regions, transformed regions and, for zeta, the zeta regions, and depends on these (any number of regions, up to two transforms)"""
    if not E.symbolic:
        return
    x = point(E, 'x', 5)
    m = E.count('m', 0, 2)
    hs = E.seq('h', lambda i: region_with_transforms(E, i))
    zs = E.seq('z', lambda i: mk(E, 'z', ZER, ad.Large_Value_Energy_Region(tagged(E.bool('in')))))
    lvs = E.seq('l', lambda i: mk(E, 'l', 'Large value estimate', lv.Large_Value_Estimate(tagged(E.bool('in')), 'r')))
    ts = [transform(j) for j in range(m)]
    H = Hypothesis_Set()
    H.add_hypotheses(hs)
    H.add_hypotheses(zs)
    H.add_hypotheses(lvs)
    H.add_hypotheses(ts)
    D = tagged(E.bool('dom'))
    log = []
    E.stub('region.Region.lift', lifted(E, x, log))
    E.stub('region.Region.to_str', lambda self, *a, **k: 'text')

    def normal(self, verbose=False, track_dependencies=False):
        return tagged(inner(self))
    E.stub('region.Region.as_disjoint_union', normal)
    E.stub('region.Region.simplify', lambda self: None)
    zeta = E.choice('zeta', [False, True])
    z = ad.compute_best_lver(H, D, zeta=zeta)
    E.ensure('domain lifted', len(log) == 1 and log[0][0] is D and log[0][1] == 2 and log[0][2] == 5)
    want = D.inn and free(x, 2) and all(h.data.region.inn for h in hs) and all(all(h.tin[j] for j in range(m)) for h in hs)
    if zeta:
        want = want and all(h.data.region.inn for h in zs)
    E.ensure('points', inner(z.data.region) == want)
    E.ensure('depends on every region', all(h in z.dependencies for h in hs))
    E.ensure('and every transform of one', all(all(any(made_from(d, h, j) for d in z.dependencies) for j in range(m)) for h in hs))
    if zeta:
        E.ensure('and every zeta region', all(h in z.dependencies for h in zs))
    E.ensure('and on nothing else', all(d in hs or (zeta and d in zs) or any(any(made_from(d, h, j) for j in range(m)) for h in hs) for d in z.dependencies))
    E.ensure('type', z.hypothesis_type == (ZER if zeta else ER) and z.reference.is_derived())
    E.ensure('the set is not changed', all(h in H for h in hs) and all(h in H for h in zs) and all(h in H for h in lvs) and all(h in hs or h in zs or h in lvs or h in ts for h in H))


def inner(r):
    if hasattr(r, 'inn'):
        return r.inn
    if r.region_type == Region_Type.INTERSECT:
        return all(inner(c) for c in r.child)
    return any(inner(c) for c in r.child)


def prove_projections(E):
    """lver_to_lv, lver_to_energy and compute_LV_star project the right coordinates and depend on what they were computed from"""
    if not E.symbolic:
        return
    R0 = tagged(True)
    normal, proj = tagged(True), tagged(True)
    empty = E.choice('empty', [False, True])
    log = []

    def dun(self, verbose=False, track_dependencies=False):
        log.append(('normal', self))
        return normal

    def project(self, dims):
        log.append(('project', self, dims))
        return None if empty else proj
    E.stub('region.Region.as_disjoint_union', dun)
    E.stub('region.Region.project', project)
    E.stub('region.Region.simplify', lambda self: log.append(('simplify', self)))
    E.stub('region.Region.to_str', lambda self, *a, **k: 'text')
    zeta = E.choice('zeta', [False, True])
    h = mk(E, 'h', ZER if zeta else ER, ad.Large_Value_Energy_Region(R0))
    k = E.choice('k', [0, 1, 2])
    if k == 0:
        z = ad.lver_to_lv(h)
        dims, src = {0, 1, 2}, {h}
    elif k == 1:
        z = ad.lver_to_energy(h)
        dims, src = {0, 1, 3}, {h}
    else:
        src = {mk(E, 'a', ER, ad.Large_Value_Energy_Region(R0)), mk(E, 'b', ER, ad.Large_Value_Energy_Region(R0))}
        h.dependencies = src
        H = Hypothesis_Set()
        D = tagged(True)
        seen = []

        def best(hypotheses, sigma_tau_domain, zeta=False, debug=False):
            seen.append((hypotheses, sigma_tau_domain, zeta))
            return h
        E.stub('additive_energy.compute_best_lver', best)
        z = ad.compute_LV_star(H, D, zeta=zeta)
        dims = {0, 1, 3}
        E.ensure('best region of the set', len(seen) == 1 and seen[0][0] is H and seen[0][1] is D and seen[0][2] == zeta)
    ps = [e for e in log if e[0] == 'project']
    E.ensure('one projection', len(ps) == 1 and ps[0][2] == dims and (ps[0][1] is normal or ps[0][1] is R0))
    if empty:
        E.ensure('nothing for an empty projection', z is None)
        return
    E.ensure('the projection', z.data.region is proj)
    E.ensure('depends on what it was computed from', set(z.dependencies) == src and z.reference.is_derived())
    if k == 0:
        E.ensure('type', z.hypothesis_type == ('Zeta large value estimate' if zeta else 'Large value estimate'))
    elif k == 1:
        E.ensure('type', z.hypothesis_type == 'Additive energy estimate')
    else:
        E.ensure('type', z.hypothesis_type == (ZER if zeta else ER))
    E.ensure('unchanged', h.data.region is R0)


def prove_rejects(E):
    """other hypotheses are refused"""
    k = E.choice('k', [0, 1])
    f = ad.lver_to_lv if k == 0 else ad.lver_to_energy
    bad = E.choice('bad', [0, 1])
    ok = False
    try:
        f(5 if bad == 0 else Hypothesis('x', 'Upper bound on mu', 3, 'p', Reference.trivial()))
    except ValueError:
        ok = True
    E.ensure('ValueError', ok)


# ------------------------------------------------------------------------------- concrete runs with cdd
def near(rng, rows, d, lims):
    """a point on, above or below a random facet"""
    x = [lo + (up - lo) * F(rng.randint(0, 24), 24) for lo, up in lims]
    r = rng.choice(rows)
    js = [j for j in range(d) if r[j + 1] != 0]
    if js and rng.random() < 0.8:
        j = rng.choice(js)
        v = r[0] + sum(a * b for a, b in zip(r[1:], x))
        x[j] -= v / r[j + 1]
        x[j] += rng.choice([0, F(1, 10 ** 6), -F(1, 10 ** 6)])
    return tuple(x)


LIMS = [(F(1, 2), F(1)), (F(0), F(6)), (F(0), F(4)), (F(0), F(6)), (F(0), F(6))]


def check_ep(E):
    """ep_to_lver for random exponent pairs, on and off all facets"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    k, l = rng.choice([(F(0), F(1)), (F(1, 2), F(1, 2)), (F(1, 6), F(2, 3)), (F(13, 84), F(55, 84)), (F(rng.randint(0, 20), 40), F(1, 2) + F(rng.randint(0, 20), 40))])
    h = Hypothesis('e', 'Exponent pair', Exp_pair(k, l), 'p', Reference.make('A', 2001))
    z = ad.ep_to_lver(h)
    rows = []
    for i in range(9):
        z0 = ep_terms(k, l, (0, 0, 0, 0, 0))[i]
        rows.append([z0] + [ep_terms(k, l, tuple(F(int(a == b)) for b in range(5)))[i] - z0 - (1 if a == 3 else 0) for a in range(5)])
    for _ in range(25):
        x = near(rng, rows, 5, LIMS)
        want = limits(x) and any(x[3] <= v for v in ep_terms(k, l, x))
        E.ensure('points', z.data.contains(x) == want, (k, l, x))
    E.ensure('provenance', z.dependencies == {h} and z.hypothesis_type == ER)


def rand_lvs(rng, n):
    from p14 import rand_bounds
    return [Hypothesis('h%d' % i, 'Large value estimate', lv.convert_bounds(rand_bounds(rng)[:3]), 'p', Reference.make('A', 1990 + i)) for i in range(n)]


def check_lift(E):
    """lv_to_lver, raising to a power and expand_lver on random estimates"""
    import polyx
    from p12 import snapshot
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    hs = rand_lvs(rng, rng.randint(1, 3))
    zs = [Hypothesis('z%d' % i, 'Zeta large value estimate', h.data, 'p', Reference.make('A', 1999)) for i, h in enumerate(rand_lvs(rng, 2))]
    H = Hypothesis_Set(set(hs + zs))
    snaps = [snapshot(h.data.region) for h in hs + zs]
    zeta = rng.random() < 0.4
    out = ad.lv_to_lver(H, zeta=zeta)
    src = zs if zeta else hs
    E.ensure('one per estimate', len(out) == len(src) and {h for z in out for h in z.dependencies} == set(src))
    E.ensure('unchanged', [snapshot(h.data.region) for h in hs + zs] == snaps and len(H) == len(hs + zs))
    ks = rng.sample([2, 3, F(5, 2), 7], rng.randint(1, 2))
    G = Hypothesis_Set(set(out))
    for k in ks:
        G.add_hypothesis(ad.get_raise_to_power_hypothesis(k))
    if not zeta:
        ad.expand_lver(G)
        E.ensure('every transform of every region added', len(G) == len(out) + len(ks) + len(out) * len(ks))
    for z in out:
        h = list(z.dependencies)[0]
        rows = polyx.region_rows(z.data.region)
        ups = [w for w in G if z in w.dependencies]
        E.ensure('transforms', zeta or len(ups) == len(ks))
        for _ in range(8):
            x = near(rng, rows, 5, LIMS)
            want = polyx.region_member(h.data.region, x[:3]) and all(0 <= v <= TOP for v in x[3:])
            E.ensure('points', z.data.contains(x) == want, (x,))
            for w in ups:
                k = [F(a) for a in ks if w.proof.endswith('k = %s power' % a)][0]
                y = (x[0],) + tuple(v * k for v in x[1:])
                E.ensure('raised points', w.data.contains(y) == want, (x, k))


def section(R, y, keep):
    """the points of R over y (coordinates keep): (some point, an interior point)"""
    import polyx
    import polyx
    pieces = [R.child] if R.region_type == Region_Type.POLYTOPE else [c.child for c in R.child]
    d = pieces[0].dimension() if pieces else 0
    rest = [i for i in range(d) if i not in keep]
    some = full = False
    for p in pieces:
        cell = polyx.box_cell([(F(-1), F(10) ** 7)] * len(rest))
        ine, eq = polyx.rows_of(p)
        bad = False
        for rows, sgn in ((ine, (1,)), (eq, (1, -1))):
            for r in rows:
                for g in sgn:
                    q = [g * (r[0] + sum(r[i + 1] * v for i, v in zip(keep, y)))] + [g * r[i + 1] for i in rest]
                    if not any(q[1:]):
                        bad = bad or q[0] < 0
                    elif cell[1]:
                        cell = polyx.clip(cell, q)
        if not bad and cell[1]:
            some = True
            full = full or polyx.full_dim(cell)
    return some, full


def energy_region(rng, big=True):
    """a bounded region of dimension 5: limits cut by random half spaces"""
    import polyx
    box = polyx.box_rows([(F(1, 2), F(1)), (F(1), F(3)), (F(0), F(4)), (F(0), F(4)), (F(0), F(4))])
    hps = [[F(rng.randint(-4, 8))] + [F(rng.randint(-3, 3)) for _ in range(5)] for _ in range(rng.randint(1, 2 if big else 1))]
    hps = [h for h in hps if any(h[1:])] or [[F(3), -1, 0, 0, 1, -1]]
    return Region.from_union_of_halfplanes(hps, box)


def any_reference(rng, y=1990):
    return rng.choice([Reference.make('A', y), Reference.make('A', y), Reference.classical(), Reference.trivial(), Reference.derived(y), Reference.conjectured()])


def check_projections(E):
    """lver_to_lv and lver_to_energy against exact sections"""
    import polyx
    from p12 import snapshot
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    R = energy_region(rng)
    kind = rng.random()
    if kind < 0.3:
        R = Region.intersect([R, energy_region(rng)])
    elif kind < 0.6:
        # an intersection of convex pieces, none of which contains the other
        R = Region.intersect([energy_region(rng).child[0], energy_region(rng).child[-1]] + ([R.child[0]] if kind < 0.45 else []))
    elif kind < 0.7:
        R = R.child[0]
    zeta = rng.random() < 0.4
    h = Hypothesis('h', ZER if zeta else ER, ad.Large_Value_Energy_Region(R), 'p', any_reference(rng))
    flat = R.as_disjoint_union()
    a, b = ad.lver_to_lv(h), ad.lver_to_energy(h)
    if a is None or b is None:
        E.ensure('nothing to project', a is None and b is None and not section(flat, (), [])[1])
        return
    E.ensure('provenance', a.dependencies == {h} and b.dependencies == {h} and h.data.region is R)
    E.ensure('types', a.hypothesis_type == ('Zeta large value estimate' if zeta else 'Large value estimate') and b.hypothesis_type == 'Additive energy estimate')
    rows = polyx.region_rows(R)
    lims = [(F(1, 2), F(1)), (F(1), F(3))] + [(F(0), F(4))] * 3
    for _ in range(10):
        x = near(rng, rows, 5, lims)
        for z, keep in ((a, [0, 1, 2]), (b, [0, 1, 3])):
            y = tuple(x[i] for i in keep)
            some, full = section(flat, y, keep)
            got = z.data.region.contains(y)
            E.ensure('the projection contains every point', got or not full, (y, keep))
            E.ensure('only projected points', some or not got, (y, keep))


def check_best(E):
    """compute_best_lver and compute_LV_star on random sets"""
    import polyx
    from p12 import snapshot
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    mk = lambda i, t: Hypothesis('%s%d' % (t[0], i), t, ad.Large_Value_Energy_Region(energy_region(rng, False)), 'p', any_reference(rng, 1990 + i))
    hs = [mk(i, ER) for i in range(rng.randint(1, 2))]
    zs = [mk(i, ZER) for i in range(rng.randint(0, 1))]
    ks = rng.sample([2, F(3, 2), F(1, 2)], rng.randint(0, 1))
    ts = [ad.get_raise_to_power_hypothesis(k) for k in ks]
    H = Hypothesis_Set(set(hs + zs + ts))
    zeta = rng.random() < 0.5
    t0, t1 = sorted([F(rng.randint(4, 12), 4), F(rng.randint(4, 12), 4)])
    if t0 == t1:
        t1 += 1
    D = Region.from_polytope(Polytope.rect((F(1, 2), F(3, 4)), (t0, t1)))
    snaps = [snapshot(h.data.region) for h in hs + zs]
    z = ad.compute_best_lver(H, D, zeta=zeta)
    E.ensure('unchanged', [snapshot(h.data.region) for h in hs + zs] == snaps and len(H) == len(hs + zs + ts))
    E.ensure('type', z.hypothesis_type == (ZER if zeta else ER))
    base = {h for h in z.dependencies if not h.dependencies}
    E.ensure('depends on all regions used', base == set(hs + (zs if zeta else [])) and len(z.dependencies) == len(hs) * (1 + len(ks)) + (len(zs) if zeta else 0))
    rows = polyx.region_rows(z.data.region) or [[F(3), 0, 0, 1, 1, 1]]

    def member(x):
        return (F(1, 2) <= x[0] <= F(3, 4) and t0 <= x[1] <= t1 and all(0 <= v <= TOP for v in x[2:]) and all(polyx.region_member(h.data.region, x) for h in hs + (zs if zeta else []))
                and all(polyx.region_member(h.data.region, (x[0],) + tuple(v / k for v in x[1:])) for h in hs for k in map(F, ks)))
    every = [r for h in hs + zs for r in polyx.region_rows(h.data.region)]
    for _ in range(40):
        x = near(rng, rows + every, 5, [(F(1, 2), F(3, 4)), (t0, t1)] + [(F(0), F(4))] * 3)
        E.ensure('only points of all regions', member(x) or not z.data.contains(x), (x,))
        if member(x) and all(member(tuple(v + (e if i == j else 0) for i, v in enumerate(x))) for j in range(5) for e in (F(1, 10 ** 9), -F(1, 10 ** 9))):
            E.ensure('every interior point of all regions', z.data.contains(x), (x,))
    s = ad.compute_LV_star(H, D, debug=False, zeta=zeta)
    if s is None:
        E.ensure('nothing to project', not section(z.data.region, (), [])[1])
        return
    E.ensure('LV_star provenance', len(s.dependencies) == len(z.dependencies) and base <= s.dependencies and s.hypothesis_type == z.hypothesis_type)
    for _ in range(6):
        x = near(rng, rows, 5, [(F(1, 2), F(3, 4)), (t0, t1)] + [(F(0), F(4))] * 3)
        y = (x[0], x[1], x[3])
        some, full = section(z.data.region, y, [0, 1, 3])
        got = s.data.region.contains(y)
        E.ensure('LV_star contains every projected point', got or not full, (y,))
        E.ensure('LV_star: only projected points', some or not got, (y,))


def check_sizes(E):
    """many regions and transforms in expand_lver and compute_best_lver"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    n, m = rng.choice([1, 9, 20]), rng.choice([0, 1, 5])
    cut = [F(rng.randint(1, 12), 3) for _ in range(n)]
    box = Polytope.rect((F(1, 2), F(1)), (F(1), F(3)), (F(0), F(4)), (F(0), F(4)), (F(0), F(4)))
    mkr = lambda c, i: Region.from_polytope(Polytope([[c] + [0] * i + [-1] + [0] * (4 - i)]))
    hs = [Hypothesis('h%d' % i, ER, ad.Large_Value_Energy_Region(mkr(c, 2)), 'p', Reference.make('A', 1990)) for i, c in enumerate(cut)]
    low = [F(rng.randint(1, 12), 3) for _ in range(m)]

    def tr(j):
        def f(h):
            z = Hypothesis('t%d' % j, ER, ad.Large_Value_Energy_Region(mkr(low[j] + cut[hs.index(h)], 3)), 'p', Reference.make('B', 1990))
            z.dependencies = {h}
            return z
        return Hypothesis('T%d' % j, 'Large value energy region transform', Transform('T', f), 'p', Reference.make('B', 1990))
    ts = [tr(j) for j in range(m)]
    zs = [Hypothesis('z%d' % i, ZER, ad.Large_Value_Energy_Region(mkr(F(3) + i, 4)), 'p', Reference.make('A', 1990)) for i in range(rng.choice([0, 2, 15]))]
    H = Hypothesis_Set(hs + ts + zs)
    zeta = rng.random() < 0.5
    D = Region.from_polytope(Polytope.rect((F(1, 2), F(3, 4)), (F(1), F(2))))
    z = ad.compute_best_lver(H, D, zeta=zeta)
    E.ensure('number of dependencies', len(z.dependencies) == n + n * m + (len(zs) if zeta else 0))
    top = [TOP, TOP if not m else min(low) + min(cut), min(F(3), TOP) if zeta and zs else TOP]
    top[0] = min(TOP, min(cut))
    for _ in range(8):
        y = tuple(rng.choice([F(0), t, t + F(1, 7), t - F(1, 7), t / 2]) for t in (top[0], min(TOP, top[1]), top[2]))
        want = all(0 <= v <= t for v, t in zip(y, (top[0], min(TOP, top[1]), top[2])))
        E.ensure('points', z.data.contains((F(5, 8), F(3, 2)) + y) == want, (y,))
    ad.expand_lver(H)
    E.ensure('expanded', len(H) == n + m + len(zs) + n * m and all(h in H for h in hs + ts + zs)
             and all(sum(h in z.dependencies for z in H) == m for h in hs))
