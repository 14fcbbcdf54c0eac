"""P14: large value estimates denote exactly the stated bound."""
from fractions import Fraction as F
from constants import Constants
from hypotheses import Hypothesis, Hypothesis_Set
from polytope import Polytope
from reference import Reference
from region import Region, Region_Type
import large_values as lv
from p10 import point

OPTS = {'*': {'time': 150, 'n': 100, 'max_paths': 60000},
        'check_convert': {'n': 250, 'tl': 25}, 'check_power': {'n': 200, 'tl': 20}, 'check_literature': {'n': 40, 'tl': 25}, 'check_bourgain': {'n': 300, 'tl': 20},
        'assumptions': ["cdd matrices are used through their contract (canonicalize keeps the point set)", "Region.scale_all is used through its contract (P12) in the proof of raise_to_power_hypothesis"]}

TOP = F(1000000)


def bound(b, x):
    return b[0] + b[1] * x[0] + b[2] * x[1]


def inbox(x):
    s, t, r = x
    return F(1, 2) <= s and s <= 1 and 0 <= t and t <= TOP and 0 <= r and r <= TOP


def coeffs(E, n):
    return [E.real(n + '0'), E.real(n + '1'), E.real(n + '2')]


def off_facets(x, bs):
    return all(bound(b, x) != x[2] for b in bs)


def prove_convert(E):
    """convert_bounds denotes rho <= max of the bounds inside the default limits, in disjoint pieces (any number of bounds, any coefficients, any point)"""
    E.stub('helpers.str_helper.Str_Helper.format', lambda c, v: 'text')
    bs = E.seq('b', lambda i: coeffs(E, 'b'), 1)
    x = point(E, 'x', 3)

    def init(self, constraints=[], linear=False, canonicalize=False):
        E.ensure('rows of the space', all(len(c) == 4 for c in constraints) and not linear)
        self.rows = constraints
    E.stub('polytope.Polytope.__init__', init)
    E.stub('polytope.Polytope.contains', lambda self, y: all(c[0] + c[1] * y[0] + c[2] * y[1] + c[3] * y[2] >= 0 for c in self.rows))
    e = lv.convert_bounds(bs)
    first = None
    for b in bs:
        if x[2] <= bound(b, x):
            first = b
            break
    E.ensure('estimate', isinstance(e, lv.Large_Value_Estimate) and e.region.region_type == Region_Type.DISJOINT_UNION)
    E.ensure('points', e.region.contains(x) == (inbox(x) and first is not None))
    E.ensure('arguments unchanged', all(len(b) == 3 for b in bs))
    E.assume(all(bound(b, x) != x[2] for b in bs))
    for i in range(len(e.region.child)):
        for j in range(i):
            E.ensure('disjoint interiors', not (e.region.child[i].contains(x) and e.region.child[j].contains(x)))


def bounded_convert(E):
    """convert_bounds denotes rho <= max of the bounds inside the default limits, in disjoint pieces (bounded: up to 3 bounds, any coefficients, any point)"""
    E.stub('helpers.str_helper.Str_Helper.format', lambda c, v: 'text')
    E.ensure('limits', Constants.TAU_UPPER_LIMIT == TOP and Constants.LV_DEFAULT_UPPER_BOUND == TOP)
    bs = [coeffs(E, 'b' + str(i)) for i in range(E.count('n', 1, 3))]
    before = [list(b) for b in bs]
    x = point(E, 'x', 3)
    e = lv.convert_bounds(bs)
    E.ensure('estimate', isinstance(e, lv.Large_Value_Estimate) and e.region.region_type == Region_Type.DISJOINT_UNION)
    E.ensure('points', e.region.contains(x) == (inbox(x) and any(x[2] <= bound(b, x) for b in bs)))
    E.ensure('arguments unchanged', bs == before)
    E.assume(off_facets(x, bs))
    E.ensure('disjoint interiors', sum(1 if c.contains(x) else 0 for c in e.region.child) <= 1)


def prove_constructors(E):
    """the named constructors carry the bound of convert_bounds, the right type, reference and no dependencies"""
    E.stub('helpers.str_helper.Str_Helper.format', lambda c, v: 'text')
    b = coeffs(E, 'b')
    c = coeffs(E, 'c')
    bs = [b, c]
    x = point(E, 'x', 3)
    k = E.choice('k', [0, 1, 2])
    ref = Reference.make('Somebody', 1987)
    if k == 0:
        h = lv.literature_bound_LV_max(bs, ref, params=' (p)')
        E.ensure('reference', h.reference is ref and h.name == 'Somebody large value estimate (p)')
    elif k == 1:
        h = lv.classical_LV_estimate(bs)
        E.ensure('reference', h.reference.is_classical())
    else:
        h = lv.conjectured_LV_estimate(bs, 'A conjecture')
        E.ensure('reference', h.reference.is_conjectured() and h.name == 'A conjecture')
    E.ensure('hypothesis', h.hypothesis_type == 'Large value estimate' and len(h.dependencies) == 0)
    E.ensure('points', h.data.region.contains(x) == (inbox(x) and (x[2] <= bound(b, x) or x[2] <= bound(c, x))))


def prove_named(E):
    """the L^2 mean value theorem and Montgomery's conjecture at every point"""
    x = point(E, 'x', 3)
    s, t, r = x
    E.ensure('L^2', lv.large_value_estimate_L2.data.region.contains(x) == (inbox(x) and (r <= 2 - 2 * s or r <= 1 - 2 * s + t)))
    E.ensure('Montgomery', lv.montgomery_conjecture.data.region.contains(x) == (inbox(x) and r <= 2 - 2 * s))
    E.ensure('classical', lv.large_value_estimate_L2.reference.is_classical() and lv.montgomery_conjecture.reference.is_conjectured())


def prove_theorems(E):
    """the literature routines state the bounds of the theorems of Huxley, Heath-Brown, Jutila and Guth-Maynard, at every point"""
    if not E.symbolic:
        return
    import literature as lit
    got = []
    E.stub('large_values.literature_bound_LV_max', lambda bounds, ref, params='': got.append((bounds, ref, params)))
    E.stub('hypotheses.Hypothesis_Set.add_hypothesis', lambda self, h, invalidate_data=True: None)
    k = E.choice('k', [0, 1, 2, 3])
    J = E.choice('J', [2, 3, 6])
    if k == 0:
        lit.add_huxley_large_values_estimate()
        want = [('', [[2, -2, 0], [4, -6, 1]])]
    elif k == 1:
        lit.add_heath_brown_large_values_estimate()
        want = [('', [[2, -2, 0], [10, -13, 1]])]
    elif k == 2:
        lit.add_guth_maynard_large_values_estimate()
        want = [('', [[2, -2, 0], [F(18, 5), -4, 0], [F(12, 5), -4, 1]])]
    else:
        lit.add_jutila_large_values_estimate(J)
        want = [(' with k = ' + str(j), [[2, -2, 0], [4 - F(2, j), F(2, j) - 6, 1], [6 * j, -8 * j, 1]]) for j in range(1, J)]
    x = point(E, 'x', 3)
    E.ensure('number of estimates', len(got) == len(want))
    for w in want:
        g = [g for g in got if g[2] == w[0]]
        E.ensure('name', len(g) == 1)
        E.ensure('bound', any(x[2] <= bound(b, x) for b in g[0][0]) == any(x[2] <= bound(b, x) for b in w[1]))


def terms(s, t):
    """the terms c + p a1 + q a2 of Bourgain's theorem"""
    return [(2 - 2 * s, 0, 1), (2 - 2 * s, 1, F(1, 2)), (2 * t + 4 - 8 * s, 0, -1), (t + 12 - 16 * s, -2, 0), (3 - 4 * s, 4, 0), (2 * t - 4 * s, 4, 0)]


def optima(s, t):
    """the possible optimal choices of (a1, a2): crossings of two of a1 = 0, a2 = 0 and equalities of terms"""
    fs = terms(s, t)
    lines = [(0, F(1), F(0)), (0, F(0), F(1))]
    for i in range(6):
        for j in range(i):
            if fs[i][1] != fs[j][1] or fs[i][2] != fs[j][2]:
                lines.append((fs[i][0] - fs[j][0], F(fs[i][1] - fs[j][1]), F(fs[i][2] - fs[j][2])))
    out = []
    for i in range(len(lines)):
        for j in range(i):
            c, p, q = lines[i]
            d, r, u = lines[j]
            det = p * u - q * r
            if det != 0:
                out.append(((d * q - c * u) / det, (r * c - p * d) / det))
    return out


def prove_bourgain(E):
    """the Bourgain estimate of the literature is, for tau > 1, the minimum over a1, a2 >= 0 of the bound of his theorem, at every point"""
    if not E.symbolic:
        return
    import literature as lit
    got = []
    E.stub('hypotheses.Hypothesis_Set.add_hypothesis', lambda self, h, invalidate_data=True: got.append(h))
    E.stub('region.Region.to_str', lambda self, *a: 'text')
    lit.add_bourgain_large_values_estimate()
    E.ensure('one estimate', len(got) == 1 and got[0].hypothesis_type == 'Large value estimate' and len(got[0].dependencies) == 0)
    R = got[0].data.region
    x = point(E, 'x', 3)
    s, t, r = x
    E.assume(t > 1)
    k = E.choice('k', [0, 1])
    if k == 0:
        a, b = E.real('a1'), E.real('a2')
        E.assume(a >= 0 and b >= 0 and R.contains(x))
        E.ensure('inside the limits', F(1, 2) <= s and s <= 1 and t <= TOP and r >= 0)
        E.ensure('at most the bound for every choice of the parameters', any(r <= c + p * a + q * b for c, p, q in terms(s, t)))
    else:
        E.assume(F(1, 2) <= s and s <= 1 and t <= TOP and r >= 0 and not R.contains(x))
        fs = terms(s, t)
        E.ensure('only points above the bound for some choice of the parameters are excluded',
                 any(a >= 0 and b >= 0 and all(r > c + p * a + q * b for c, p, q in fs) for a, b in optima(s, t)))


def prove_raise_to_power(E):
    """raising to the power k scales tau and rho by k, for every estimate and k > 0"""
    k = E.real('k')
    E.assume(k > 0)
    r0 = Region.union([])
    new = Region.union([])
    seen = []

    def scale_all(self, factors):
        seen.append((self, list(factors)))
        return new
    h = Hypothesis('an estimate', 'Large value estimate', lv.Large_Value_Estimate(r0, 'r'), 'proof', Reference.make('A', E.int('year', 1900, 2030)))
    if E.symbolic:
        E.stub('region.Region.scale_all', scale_all)
        t = lv.raise_to_power_hypothesis(k)
        res = t.data.transform(h)
        E.ensure('one scaling of the region by [1, k, k]', len(seen) == 1 and seen[0][0] is r0 and seen[0][1] == [1, k, k] and res.data.region is new)
    else:
        t = lv.raise_to_power_hypothesis(k)
        res = t.data.transform(h)
    E.ensure('transform', t.hypothesis_type == 'Large value estimate transform' and len(t.dependencies) == 0)
    E.ensure('provenance', res.hypothesis_type == 'Large value estimate' and set(res.dependencies) == {h})
    E.ensure('derived reference of the same year', res.reference.is_derived() and res.reference.year() == h.reference.year())
    E.ensure('unchanged', h.data.region is r0 and len(h.dependencies) == 0)


def bounded_power_points(E):
    """the points of a raised estimate (bounded: up to 2 bounds, any coefficients, any point, any k > 0)"""
    E.stub('helpers.str_helper.Str_Helper.format', lambda c, v: 'text')
    bs = [coeffs(E, 'b' + str(i)) for i in range(E.count('n', 1, 2))]
    x = point(E, 'x', 3)
    k = E.real('k')
    E.assume(k > 0)
    h = lv.classical_LV_estimate(bs)
    res = lv.raise_to_power_hypothesis(k).data.transform(h)
    y = (x[0], x[1] / k, x[2] / k)
    E.ensure('points', res.data.region.contains(x) == (inbox(y) and any(y[2] <= bound(b, y) for b in bs)))
    E.ensure('unchanged', h.data.region.contains(x) == (inbox(x) and any(x[2] <= bound(b, x) for b in bs)))
    E.ensure('provenance', set(res.dependencies) == {h})


# ------------------------------------------------------------------------------- concrete runs with cdd
def trial_points(rng, bs, n):
    """points on and next to the bounds and the limits"""
    out = []
    for _ in range(n):
        s = rng.choice([F(1, 2), F(1), F(3, 4), F(rng.randint(0, 12), 12), F(1, 2) + F(rng.randint(0, 60), 120)])
        t = rng.choice([F(0), F(1), TOP, F(rng.randint(0, 60), 12), F(rng.randint(-1, 20))])
        v = [bound(b, (s, t)) for b in bs]
        c = rng.choice(v + [max(v), max(v), F(0), TOP, F(rng.randint(0, 40), 12)])
        out.append((s, t, c + rng.choice([0, 0, F(1, 10 ** 6), -F(1, 10 ** 6), F(1, 3)])))
    return out


def rand_bounds(rng):
    f = lambda m: F(rng.randint(-m, m), rng.choice([1, 1, 2, 3, 5]))
    bs = [[f(6), f(8), f(2)] for _ in range(rng.choice([1, 2, 3, 4, 5, 9]))]
    if rng.random() < 0.2:
        bs.append(list(rng.choice(bs)))
    return bs


def check_convert(E):
    """convert_bounds and the constructors with cdd, on and next to all facets"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    bs = rand_bounds(rng)
    before = [list(b) for b in bs]
    e = lv.convert_bounds(bs)
    E.ensure('arguments unchanged', bs == before)
    h = rng.choice([lambda: lv.classical_LV_estimate(bs), lambda: lv.conjectured_LV_estimate(bs, 'x'), lambda: lv.literature_bound_LV_max(bs, Reference.make('A', 1999))])()
    for x in trial_points(rng, bs, 25):
        want = inbox(x) and any(x[2] <= bound(b, x) for b in bs)
        E.ensure('points', e.region.contains(x) == want, (x,))
        E.ensure('points (constructors)', h.data.region.contains(x) == want, (x,))
        if off_facets(x, bs):
            E.ensure('disjoint interiors', sum(c.contains(x) for c in e.region.child) <= 1, (x,))
    ok = False
    try:
        lv.Large_Value_Estimate(rng.choice([bs, None, Polytope([[1, 1, 1, 1]]), 'x']))
    except ValueError:
        ok = True
    E.ensure('only regions are accepted', ok)


def check_power(E):
    """raise_to_power_hypothesis on random estimates, repeatedly"""
    from p12 import rand_region, snapshot, KINDS
    from p11 import small_poly
    import polyx
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    k = rng.choice([F(1), F(2), F(3), F(7), F(1, 2), F(3, 2), 2, 5])
    bs = None
    if rng.random() < 0.6:
        bs = rand_bounds(rng)
        R = lv.convert_bounds(bs).region
    else:
        R = rand_region(rng, 3, 2, KINDS + [Region_Type.COMPLEMENT], lambda: small_poly(rng, 3))
    year = rng.choice([1950, 2001])
    h = Hypothesis('h', 'Large value estimate', lv.Large_Value_Estimate(R), 'p', Reference.make('A', year))
    snap = snapshot(R)
    t = lv.raise_to_power_hypothesis(k)
    res = t.data.transform(h)
    twice = t.data.transform(res)
    E.ensure('unchanged', snapshot(R) == snap and h.data.region is R)
    E.ensure('provenance', res.dependencies == {h} and twice.dependencies == {res} and res.hypothesis_type == 'Large value estimate')
    E.ensure('year', res.reference.is_derived() and res.reference.year() == year)
    pts = trial_points(rng, bs, 12) if bs else [tuple(F(rng.randint(-8, 8), rng.choice([1, 2, 4])) for _ in range(3)) for _ in range(12)]
    for x in pts:
        y = (x[0], x[1] * k, x[2] * k)
        z = (x[0], x[1] * k * k, x[2] * k * k)
        want = polyx.region_member(R, x)
        E.ensure('points', res.data.region.contains(y) == want, (x, k))
        E.ensure('points, twice', twice.data.region.contains(z) == want, (x, k))


def check_literature(E):
    """the estimates of the literature set are those of the theorems"""
    import literature as L
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    want = {('Huxley', ''): [[2, -2, 0], [4, -6, 1]], ('Heath-Brown', ''): [[2, -2, 0], [10, -13, 1]],
            ('Guth, Maynard', ''): [[2, -2, 0], [F(18, 5), -4, 0], [F(12, 5), -4, 1]]}
    for k in range(1, Constants.LARGE_VALUES_TRUNCATION):
        want[('Jutila', ' with k = %d' % k)] = [[2, -2, 0], [4 - F(2, k), -(6 - F(2, k)), 1], [6 * k, -8 * k, 1]]
    hs = L.literature.list_hypotheses('Large value estimate')
    year = {'Huxley': 1972, 'Heath-Brown': 1979, 'Jutila': 1977}
    found = set()
    for h in hs:
        key = None
        for (a, p) in want:
            if a.split(',')[0] in h.name and h.name.endswith('estimate' + p):
                key = (a, p)
        if key is None:
            E.ensure('only known estimates', 'Bourgain' in h.name)
            continue
        E.ensure('listed once', key not in found)
        found.add(key)
        E.ensure('no dependencies', not h.dependencies and h.hypothesis_type == 'Large value estimate')
        bs = want[key]
        for x in trial_points(rng, bs, 12):
            E.ensure('bound of ' + h.name, h.data.region.contains(x) == (inbox(x) and any(x[2] <= bound(b, x) for b in bs)), (h.name, x))
    E.ensure('all listed', found == set(want), (set(want) - found,))


def bourgain(s, t):
    """min over a1, a2 >= 0 of the maximum of the terms of Bourgain's theorem, exactly"""
    # M >= c + p a1 + q a2
    fs = [(2 - 2 * s, 0, 1), (2 - 2 * s, 1, F(1, 2)), (2 * t + 4 - 8 * s, 0, -1), (t + 12 - 16 * s, -2, 0), (2 + max(F(1), 2 * t - 2) - 4 * s, 4, 0)]
    f = lambda a, b: max(c + p * a + q * b for c, p, q in fs)
    # the optimum is at a crossing of two of: a1 = 0, a2 = 0, f_i = f_j
    lines = [(F(0), F(1), F(0)), (F(0), F(0), F(1))]
    for i in range(5):
        for j in range(i):
            c, p, q = [F(a) - b for a, b in zip(fs[i], fs[j])]
            if p or q:
                lines.append((c, p, q))
    best = None
    for i in range(len(lines)):
        for j in range(i):
            c, p, q = lines[i]
            d, r, u = lines[j]
            det = p * u - q * r
            if det == 0:
                continue
            a, b = (-c * u + d * q) / det, (-p * d + r * c) / det
            if a >= 0 and b >= 0:
                v = f(a, b)
                best = v if best is None else min(best, v)
    return best


def check_bourgain(E):
    """the optimised Bourgain estimate is the minimum over its parameters for tau >= 1"""
    import literature as L
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    h = [h for h in L.literature.list_hypotheses('Large value estimate') if 'Bourgain' in h.name]
    E.ensure('one estimate', len(h) == 1)
    R = h[0].data.region
    for _ in range(3):
        s = F(1, 2) + F(rng.randint(1, 1999), 4000)
        t = 1 + rng.choice([F(rng.randint(1, 9999), 10 ** 4), F(rng.randint(1, 9999), 2500), F(rng.randint(1, 9999), 10)])
        v = bourgain(s, t)
        E.ensure('the bound is attained', R.contains((s, t, v)) and R.contains((s, t, F(0))) and R.contains((s, t, v / 2)), (s, t, v))
        E.ensure('nothing above the bound', not R.contains((s, t, v + F(1, 10 ** 9))) and not R.contains((s, t, -F(1, 10 ** 9))), (s, t, v))
    x = (F(1, 2) + F(rng.randint(1, 99), 200), F(rng.randint(1, 99), 100), F(rng.randint(0, 10 ** 6)))
    E.ensure('no information for tau < 1', R.contains(x))
    E.ensure('limits', not R.contains((F(1, 2) - F(1, 100), x[1], 0)) and not R.contains((1 + F(1, 100), 5, 0)) and not R.contains((F(3, 4), TOP + 1, 0)))
