"""P15: conversions to zeta large value estimates are faithful."""
from fractions import Fraction as F
from bound_beta import Bound_beta
from bound_mu import Bound_mu
from functions import Affine, Interval
from hypotheses import Hypothesis, Hypothesis_Set
from polytope import Polytope
from reference import Reference
from region import Region, Region_Type
from transform import Transform
import large_values as lv
import zeta_large_values as zlv
from p10 import point

OPTS = {'check_beta_tiny': {'n': 150, 'tl': 15},
        '*': {'time': 150, 'n': 100, 'max_paths': 60000},
        'check_all': {'n': 200, 'tl': 30}, 'check_lv': {'n': 200, 'tl': 20},
        'assumptions': ["compute_best_beta_bounds is used through its contract (P03) in the symbolic cases", "cdd matrices are used through their contract"]}

TOP = F(1000000)


def mk(E, n, htype, data):
    return Hypothesis(n, htype, data, 'proof', Reference.make('A', E.int('y' + n, 1900, 2030)))


def box(x):
    s, t, r = x
    return F(1, 2) <= s and s <= 1 and 2 <= t and 0 <= r


def derived(E, z, h):
    E.ensure('type', z.hypothesis_type == 'Zeta large value estimate' and isinstance(z.data, lv.Large_Value_Estimate))
    E.ensure('depends on exactly the hypothesis it came from', set(z.dependencies) == {h})
    E.ensure('derived reference of the same year', z.reference.is_derived() and z.reference.year() == h.reference.year())


def prove_trivial(E):
    """the trivial zeta estimate is 0 <= rho <= tau"""
    z = zlv.get_trivial_zlv()
    x = point(E, 'x', 3)
    E.ensure('points', z.data.region.contains(x) == (box(x) and x[1] <= TOP and x[2] <= x[1]))
    E.ensure('hypothesis', z.hypothesis_type == 'Zeta large value estimate' and len(z.dependencies) == 0)


def derived_from(z, h):
    """z is a zeta estimate derived from exactly h"""
    return (z.hypothesis_type == 'Zeta large value estimate' and len(z.dependencies) == 1 and h in z.dependencies
            and z.reference.is_derived() and z.reference.year() == h.reference.year())


def right_points(R, x, applies, off):
    """away from the piece boundaries: rho = 0 where the theorem applies, 0 <= rho <= tau elsewhere, nothing outside"""
    s, t, r = x
    if not off:
        return True
    got = R.contains(x)
    if not box(x) or t > TOP:
        return not got
    if applies:
        return got == (r == 0)
    return got == (r <= t)


def beta_ok(z, h, x):
    f = h.data.bound
    lo, up = f.domain.x0, f.domain.x1
    s, t, r = x
    b = f.m + f.c * t
    return derived_from(z, h) and right_points(z.data.region, x, lo * t < 1 and 1 < up * t and s > b,
                                               lo * t != 1 and up * t != 1 and s != b and t != 2 and t != TOP)


def prove_beta(E):
    """every best beta bound gives the region of its theorem (any number of bounds, any bound, any point off the piece boundaries)"""
    x = point(E, 'x', 3)
    H = Hypothesis_Set()

    def bb(i):
        x0, x1 = E.real('x0', F(0), F(1, 2)), E.real('x1', F(0), F(1, 2))
        E.assume(x0 <= x1)
        return mk(E, 'b', 'Upper bound on beta', Bound_beta(Affine(E.real('m'), E.real('c'), Interval(x0, x1, True, E.bool('u')))))
    if E.symbolic:
        hs = E.seq('b', bb)
        seen = []

        def best(h, *a):
            seen.append(h)
            return hs
        E.stub('bound_beta.compute_best_beta_bounds', best)
        zs = zlv.beta_to_zlv(H)
        E.ensure('best bounds of the given set', len(seen) == 1 and seen[0] is H)
    else:
        H.add_hypothesis(bb(0))
        zs = zlv.beta_to_zlv(H)
        hs = [list(z.dependencies)[0] for z in zs]
    E.ensure('every estimate is that of a best bound', all(any(beta_ok(z, h, x) for h in hs) for z in zs))
    E.ensure('every best bound gives its estimate', all(any(h in z.dependencies for z in zs) for h in hs))


def mu_ok(z, h, x):
    s, t, r = x
    b = h.data.sigma + t * h.data.mu
    return derived_from(z, h) and right_points(z.data.region, x, s > b, s != b and t != 2 and t != TOP)


def check_beta_tiny(E):
    """bounds whose range of 1/tau is near or below 1/TAU_UPPER_LIMIT"""
    vals = [F(0), F(1, 4000000), F(1, 2000000), F(1, 1000000), F(1, 700000), F(1, 400000), F(1, 5), F(1, 2)]
    x0, x1 = sorted([E.choice('x0', vals), E.choice('x1', vals)])
    if x0 == x1:
        return
    h = mk(E, 'b', 'Upper bound on beta', Bound_beta(Affine(E.choice('m', [F(0), F(1, 4), F(1, 2), F(-1, 1000000)]), E.choice('c', [F(0), F(1, 3000000), F(1)]), Interval(x0, x1, True, False))))
    zs = zlv.beta_to_zlv(Hypothesis_Set([h]))
    E.ensure('depends on a bound of the set', all(len(z.dependencies) == 1 for z in zs))
    for z in zs:
        k = list(z.dependencies)[0]
        for t in (F(1), F(3), F(300000), F(500000), F(900000), F(1100000), F(1900000), F(3900000), F(5000000)):
            for sg in (F(1, 3), F(501, 1000), F(3, 5), F(999, 1000), F(2)):
                for r in (F(-1), F(0), F(1), F(2), F(600000), F(4900000)):
                    E.ensure('points of the estimate', beta_ok(z, k, (sg, t, r)), (sg, t, r))


def prove_mu(E):
    """every mu bound gives rho = 0 for sigma >= sigma0 + tau mu0 (any number of bounds)"""
    x = point(E, 'x', 3)
    H = Hypothesis_Set()
    hs = E.seq('b', lambda i: mk(E, 'm', 'Upper bound on mu', Bound_mu(E.real('sigma'), E.real('mu'))))
    others = E.seq('o', lambda i: mk(E, 'o', 'Upper bound on beta', Bound_mu(E.real('sigma'), E.real('mu'))))
    H.add_hypotheses(hs)
    H.add_hypotheses(others)
    zs = zlv.mu_to_zlv(H)
    E.ensure('every estimate is that of a mu bound', all(any(mu_ok(z, h, x) for h in hs) for z in zs))
    E.ensure('every mu bound gives its estimate', all(any(h in z.dependencies for z in zs) for h in hs))


def prove_pieces(E):
    """the pieces of one beta or mu bound have disjoint interiors"""
    x = point(E, 'x', 3)
    s, t, r = x
    H = Hypothesis_Set()
    if E.choice('k', [0, 1]) == 0:
        x0, x1 = E.real('x0', F(0), F(1, 2)), E.real('x1', F(0), F(1, 2))
        E.assume(x0 <= x1)
        h = mk(E, 'b', 'Upper bound on beta', Bound_beta(Affine(E.real('m'), E.real('c'), Interval(x0, x1))))
        E.stub('bound_beta.compute_best_beta_bounds', lambda h0, *a: [h])
        H.add_hypothesis(h)
        zs = zlv.beta_to_zlv(H)
        E.assume(x0 * t != 1 and x1 * t != 1 and s != h.data.bound.m + h.data.bound.c * t and t != TOP)
    else:
        h = mk(E, 'm', 'Upper bound on mu', Bound_mu(E.real('sigma'), E.real('mu')))
        H.add_hypothesis(h)
        zs = zlv.mu_to_zlv(H)
        E.assume(s != h.data.sigma + h.data.mu * t)
    for z in zs:
        E.ensure('disjoint union', z.data.region.region_type == Region_Type.DISJOINT_UNION)
        E.ensure('at most one piece', sum(1 if c.contains(x) else 0 for c in z.data.region.child) <= 1)


def tagged(b):
    r = Region.union([])
    r.inn = b
    return r


def prove_lv(E):
    """lv_to_zlv: every estimate (any number) and every transform of one (up to 2 transforms), restricted to tau >= 2"""
    if not E.symbolic:
        return
    x = point(E, 'x', 3)
    m = E.count('m', 0, 2)

    def est(i):
        h = mk(E, 'h', 'Large value estimate', lv.Large_Value_Estimate(tagged(E.bool('in')), 'r'))
        h.tin = [E.bool('in0'), E.bool('in1')]
        return h
    hs = E.seq('h', est)

    def tr(j):
        def f(h):
            z = Hypothesis('t', 'Large value estimate', lv.Large_Value_Estimate(tagged(h.tin[j]), 'r'), 'p', Reference.make('B', 1990 + j))
            z.dependencies = {h}
            z.number = j
            return z
        return Hypothesis('T' + str(j), 'Large value estimate transform', lv.Large_Value_Estimate_Transform(f), 'p', Reference.make('B', 1990))
    ts = [tr(j) for j in range(m)]
    others = E.seq('o', lambda i: mk(E, 'o', 'Zeta large value estimate', lv.Large_Value_Estimate(tagged(E.bool('in')), 'r')))
    H = Hypothesis_Set()
    H.add_hypotheses(hs)
    H.add_hypotheses(others)
    for t in ts:
        H.add_hypothesis(t)
    E.stub('region.Region.to_str', lambda self, *a, **k: 'text')
    zs = zlv.lv_to_zlv(H)
    E.ensure('every estimate is that of an estimate or of a transform of one', all(
        any(from_lv(z, h, x) or any(from_transform(z, h, j, x) for j in range(m)) for h in hs) for z in zs))
    E.ensure('every estimate is used', all(any(h in z.dependencies for z in zs) for h in hs))
    E.ensure('every transform is used', all(all(any(from_transform(z, h, j, x) for z in zs) for j in range(m)) for h in hs))


def region_ok(z, inn, x):
    R = z.data.region
    return R.region_type == Region_Type.INTERSECT and all(inside(c, x) for c in R.child) == (inn and 2 <= x[1])


def from_lv(z, h, x):
    return derived_from(z, h) and region_ok(z, h.data.region.inn, x)


def from_transform(z, h, j, x):
    if len(z.dependencies) != 1:
        return False
    d = list(z.dependencies)[0]
    return h in d.dependencies and d.number == j and derived_from(z, d) and region_ok(z, h.tin[j], x)


def inside(r, x):
    return r.contains(x) if r.region_type == Region_Type.POLYTOPE else r.inn


def prove_all(E):
    """compute_large_value_estimate returns the existing estimates, those from large value estimates and those from beta bounds (any number of each)"""
    if not E.symbolic:
        return
    H = Hypothesis_Set()
    zs = E.seq('z', lambda i: mk(E, 'z', 'Zeta large value estimate', lv.Large_Value_Estimate(tagged(E.bool('in')), 'r')))
    H.add_hypotheses(zs)
    a = E.seq('a', lambda i: mk(E, 'a', 'Zeta large value estimate', 'data'))
    b = E.seq('b', lambda i: mk(E, 'b', 'Zeta large value estimate', 'data'))
    E.stub('zeta_large_values.lv_to_zlv', lambda h: list(a) if h is H else None)
    E.stub('zeta_large_values.beta_to_zlv', lambda h: list(b) if h is H else None)
    out = zlv.compute_large_value_estimate(H)
    for part in (zs, a, b):
        E.ensure('all of these', all(any(o is h for o in out) for h in part))
    E.ensure('nothing else', all(o in zs or o in a or o in b for o in out))
    E.ensure('the set is not changed', all(z in H for z in zs) and all(h in zs for h in H))


def prove_rejects(E):
    """a collection that is not a Hypothesis_Set is refused"""
    ok = False
    try:
        zlv.compute_large_value_estimate([])
    except ValueError:
        ok = True
    E.ensure('ValueError', ok)


# ------------------------------------------------------------------------------- concrete runs with cdd
def times(rng, alphas):
    ts = [F(2), TOP, F(2) + F(rng.randint(1, 100), 40), F(rng.randint(3, 200)), F(rng.randint(3, 10 ** 6))]
    for a in alphas:
        if a > 0:
            ts += [1 / a, 1 / a + F(1, 1000), 1 / a - F(1, 1000)]
    return ts


def check_all(E):
    """beta_to_zlv, mu_to_zlv and compute_large_value_estimate on random sets with cdd"""
    from bound_beta import compute_best_beta_bounds
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    H = Hypothesis_Set()
    cuts = [F(0), F(1, 2)] + [F(rng.randint(1, 19), 40) for _ in range(3)]
    for i in range(rng.randint(1, 4)):
        a, b = sorted(rng.sample(cuts, 2)) if rng.random() < 0.7 else (F(0), F(1, 2))
        H.add_hypothesis(Hypothesis('b%d' % i, 'Upper bound on beta', Bound_beta(Affine(F(rng.randint(0, 8), 8), F(rng.randint(0, 6), 12), Interval(a, b))), 'p', Reference.make('A', 1990 + i)))
    ms = []
    for i in range(rng.randint(0, 3)):
        ms.append(Hypothesis('m%d' % i, 'Upper bound on mu', Bound_mu(F(rng.randint(0, 12), 12), F(rng.randint(0, 6), 12)), 'p', Reference.make('A', 1990)))
    H.add_hypotheses(ms)
    zl = [Hypothesis('z', 'Zeta large value estimate', lv.convert_bounds([[1, 1, 1]]), 'p', Reference.make('A', 1990))]
    if rng.random() < 0.5:
        zl.append(zlv.get_trivial_zlv())
    H.add_hypotheses(zl)
    ls = [Hypothesis('l%d' % i, 'Large value estimate', lv.convert_bounds([[F(rng.randint(0, 9), 3), -F(rng.randint(0, 9), 3), F(rng.randint(0, 3), 2)]]), 'p', Reference.make('A', 1990)) for i in range(rng.randint(0, 2))]
    H.add_hypotheses(ls)
    before = H.to_list()
    best = compute_best_beta_bounds(H)
    zs = zlv.beta_to_zlv(H)
    mz = zlv.mu_to_zlv(H)
    allz = zlv.compute_large_value_estimate(H)
    E.ensure('the set is not changed', len(H) == len(before) and set(H.to_list()) == set(before))
    E.ensure('number of estimates', len(zs) == len(best) and len(mz) == len(ms) and len(allz) == len(zl) + len(ls) + len(best))
    E.ensure('existing estimates', all(z in allz for z in zl))

    def key(b):
        d = b.data.bound
        return (d.m, d.c, d.domain.x0, d.domain.x1, d.domain.include_lower, d.domain.include_upper)
    srcs = [list(z.dependencies)[0] for z in zs]
    E.ensure('one estimate per best bound', all(len(z.dependencies) == 1 for z in zs) and sorted(map(key, srcs)) == sorted(map(key, best)))
    E.ensure('one estimate per mu bound', sorted(h.name for z in mz for h in z.dependencies) == sorted(h.name for h in ms))

    def points(edges, ts):
        for t in ts:
            s = rng.choice([F(1, 2) + F(rng.randint(0, 100), 200), edges(t), edges(t) + F(1, 10 ** 7), edges(t) - F(1, 10 ** 7)])
            for r in (F(0), t, t + 1, t / 3, F(-1)):
                yield (s, t, r)
    for z, h in zip(zs, srcs):
        derived(E, z, h)
        f = h.data.bound
        lo, up = f.domain.x0, f.domain.x1
        for x in points(lambda t: f.m + f.c * t, times(rng, [lo, up])):
            s, t, r = x
            if lo * t == 1 or up * t == 1 or t in (2, TOP) or s == f.m + f.c * t or not (F(1, 2) < s < 1) or not 2 < t < TOP:
                continue
            zero = lo * t < 1 < up * t and s > f.m + f.c * t
            E.ensure('points of a beta bound', z.data.region.contains(x) == (0 <= r <= (0 if zero else t)), (key(h), x))
    for z in mz:
        h = list(z.dependencies)[0]
        derived(E, z, h)
        b = h.data
        for x in points(lambda t: b.sigma + b.mu * t, times(rng, [])):
            s, t, r = x
            if s == b.sigma + b.mu * t:
                continue
            zero = s > b.sigma + b.mu * t
            E.ensure('points of a mu bound', z.data.region.contains(x) == (F(1, 2) <= s <= 1 and 2 <= t <= TOP and 0 <= r <= (0 if zero else t)), (b, x))


def check_lv(E):
    """lv_to_zlv on random estimates and transforms with cdd"""
    import polyx
    from p14 import rand_bounds, trial_points
    from p12 import snapshot
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    H = Hypothesis_Set()
    src = {}
    for i in range(rng.randint(0, 3)):
        bs = rand_bounds(rng)
        h = Hypothesis('h%d' % i, 'Large value estimate', lv.convert_bounds(bs), 'p', Reference.make('A', 1990 + i))
        H.add_hypothesis(h)
        src[h] = bs
    ks = rng.sample([2, 3, 4, F(5, 2)], rng.randint(0, 2))
    for k in ks:
        H.add_hypothesis(lv.raise_to_power_hypothesis(k))
    H.add_hypothesis(zlv.get_trivial_zlv())
    n = len(H)
    snaps = {h: snapshot(h.data.region) for h in src}
    zs = zlv.lv_to_zlv(H)
    E.ensure('number of estimates', len(zs) == len(src) * (1 + len(ks)))
    E.ensure('unchanged', len(H) == n and all(snapshot(h.data.region) == snaps[h] for h in src))
    count = {}
    for z in zs:
        E.ensure('one dependency', len(z.dependencies) == 1 and z.hypothesis_type == 'Zeta large value estimate')
        d = list(z.dependencies)[0]
        h, k = (d, F(1)) if d in src else (list(d.dependencies)[0], None)
        E.ensure('from an estimate of the set', h in src)
        bs = src[h]
        pts = trial_points(rng, bs, 8)
        if k is None:
            cand = [c for c in ks if 'k = %s' % c in d.proof]
            E.ensure('named transform', len(cand) == 1)
            k = F(cand[0])
        count[(h, k)] = count.get((h, k), 0) + 1
        for x in pts:
            y = (x[0], x[1] * k, x[2] * k)
            want = y[1] >= 2 and F(1, 2) <= x[0] <= 1 and 0 <= x[1] <= TOP and 0 <= x[2] <= TOP and any(x[2] <= b[0] + b[1] * x[0] + b[2] * x[1] for b in bs)
            E.ensure('points', z.data.region.contains(y) == want, (y, k))
    E.ensure('each once', all(v == 1 for v in count.values()) and len(count) == len(zs))


def check_sizes(E):
    """large sets: every existing estimate, every large value estimate and every beta bound is represented"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    one = lv.Large_Value_Estimate(Region.from_polytope(Polytope([[1, 0, 0, -1]])))
    mkh = lambda n, t: [Hypothesis('%s%d' % (t, i), t, one, 'p', Reference.make('A', 1990)) for i in range(n)]
    zs = mkh(rng.choice([1, 7, 33, 120]), 'Zeta large value estimate')
    ls = mkh(rng.choice([0, 5, 18, 70]), 'Large value estimate')
    n = rng.choice([1, 3, 12])
    bs = [Hypothesis('b%d' % i, 'Upper bound on beta', Bound_beta(Affine(F(0), F(i + 1, 40), Interval(F(i, 2 * n), F(i + 1, 2 * n), True, True))), 'p', Reference.make('A', 1990)) for i in range(n)]
    H = Hypothesis_Set(zs + ls + bs)
    out = zlv.compute_large_value_estimate(H)
    E.ensure('number', len(out) == len(zs) + len(ls) + n)
    src = {h for z in out for h in z.dependencies}
    E.ensure('all are there', set(zs) <= set(out) and set(ls) <= src and sum('beta' in h.hypothesis_type for h in src) == n)
