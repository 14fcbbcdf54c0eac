"""P17: the computed large value region is the intersection of all estimates."""
from fractions import Fraction as F
from hypotheses import Hypothesis, Hypothesis_Set
from polytope import Polytope
from reference import Reference
from region import Region, Region_Type
import large_values as lv
import zeta_large_values as zlv
import zero_density_estimate as zd

OPTS = {'*': {'time': 170, 'n': 60, 'max_paths': 300000},
        'bounded_region': {'shards': ('shape', 8)}, 'prove_region': {'shards': ('zeta', 2), 'time': 220},
        'check_region': {'n': 250, 'tl': 30}, 'check_twins': {'n': 60, 'tl': 30},
        'assumptions': ["as_disjoint_union, simplify, set_label and the text of a region are used through their contracts (P12, P13, P23: equal texts denote equal regions) in the symbolic cases"]}

LT = 'Large value estimate'
ZT = 'Zeta large value estimate'


def tagged(b, kind=Region_Type.UNION):
    r = Region(kind, [])
    r.inn = b
    return r


def inner(r):
    """membership of the point"""
    if hasattr(r, 'inn'):
        return r.inn
    if r.region_type == Region_Type.INTERSECT:
        return all(inner(c) for c in r.child)
    return any(inner(c) for c in r.child)


def labels_in(r):
    if hasattr(r, 'label'):
        return [r.label]
    if hasattr(r, 'inn'):
        return []
    return [l for c in r.child for l in labels_in(c)]


def mk(E, n, htype, inn):
    return Hypothesis(n, htype, lv.Large_Value_Estimate(tagged(inn), 'r'), 'proof', Reference.make('A', E.int('y' + n, 1900, 2030)))


def bounded_region(E):
    """points, dependencies, type and frame of compute_large_value_region (bounded: up to 2 estimates, 2 zeta estimates, 1 transform)"""
    if not E.symbolic:
        return
    E.render()
    n, m, w, zeta = E.choice('shape', [(1, 0, 0, False), (1, 1, 0, False), (2, 0, 1, False), (2, 0, 0, True), (1, 0, 1, True), (1, 1, 1, True), (0, 0, 2, True), (1, 2, 0, False)])
    hs = [mk(E, 'h' + str(i), LT, E.bool('in' + str(i))) for i in range(n)]
    zs = [mk(E, 'z' + str(i), ZT, E.bool('zin' + str(i))) for i in range(w)]
    made = []

    def tr(h):
        t = mk(E, 't' + str(len(made)) + h.name, LT, E.bool('tin' + str(len(made)) + h.name))
        t.dependencies = {h}
        made.append((h, t))
        return t
    ts = [Hypothesis('T', 'Large value estimate transform', lv.Large_Value_Estimate_Transform(tr), 'p', Reference.classical()) for j in range(m)]
    H = Hypothesis_Set()
    for h in hs + zs + ts:
        H.add_hypothesis(h)
    D = tagged(E.bool('dom'))
    labelled = []
    normals = []
    texts = []
    final = []

    def normal(self, verbose=False, track_dependencies=False):
        r = tagged(inner(self), Region_Type.DISJOINT_UNION)
        r.source = self
        if track_dependencies:
            ls = labels_in(self)
            r.child = [Region(Region_Type.POLYTOPE, Polytope([[F(1), F(0)]])) for k in range(2)]
            for c in r.child:
                c.child.dependencies = {l for l in ls if E.fresh_bool('dep')}
            final.append((r, ls))
        else:
            normals.append(r)
        return r

    def text(self, *a):
        # equal texts only for equal regions
        for i in range(len(texts)):
            if E.fresh_bool('same'):
                E.assume(texts[i].inn == self.inn)
                return 'text' + str(i)
        texts.append(self)
        return 'text' + str(len(texts) - 1)

    def setlabel(self, label):
        labelled.append(self)
        self.label = label

    def cp(self):
        r = tagged(self.inn, self.region_type)
        r.source = self
        return r
    E.stub('region.Region.as_disjoint_union', normal)
    E.stub('region.Region.to_str', text)
    E.stub('region.Region.set_label', setlabel)
    E.stub('region.Region.__copy__', cp)
    E.stub('region.Region.simplify', lambda self: None)
    z = zd.compute_large_value_region(H, D, zeta=zeta)
    used = hs + [t for h, t in made] + (zs if zeta else [])
    E.ensure('every estimate transformed once', len(made) == n * m)
    E.ensure('points', inner(z.data.region) == (D.inn and all(h.data.region.inn for h in used)))
    E.ensure('type', z.hypothesis_type == (ZT if zeta else LT) and z.reference.is_derived())
    E.ensure('depends only on hypotheses used', all(any(d is h for h in used) for d in z.dependencies))
    E.ensure('one tracked normal form', len(final) == 1)
    R, ls = final[0]
    # the labels lead to the hypotheses whose clipped regions carry them
    want = set()
    for c in R.child:
        want = want | c.child.dependencies
    for r in labelled:
        src = origin(r)
        E.ensure('labels are set on clipped copies of the region of a hypothesis', src is not None and any(src is h.data.region for h in used))
        h = [h for h in used if h.data.region is src]
        E.ensure('a label stands for its hypothesis', (h[0] in z.dependencies) == (r.label in want))
    E.ensure('as many dependencies as labels', len(z.dependencies) == len(want))
    E.ensure('regions untouched', all(not hasattr(h.data.region, 'label') for h in used) and not hasattr(D, 'label'))
    E.ensure('the set is not changed', len(H) == n + m + w and all(h in H for h in hs + zs + ts))


def prove_region(E):
    """any number of estimates: the region is the intersection of the domain with all of them, also when clipped regions repeat, and depends on exactly the labelled ones"""
    if not E.symbolic:
        return
    E.render()
    zeta = E.choice('zeta', [False, True])
    D = tagged(E.bool('dom'))

    def build(i):
        h = Hypothesis('h', ZT if zeta else LT, lv.Large_Value_Estimate(tagged(E.bool('in')), 'r'), 'proof', Reference.make('A', E.int('y', 1900, 2030)))
        h.data.region.text = E.int('text')
        # equal texts of clipped regions only for equal regions
        E.assume((D.inn and h.data.region.inn) == E.upred('member', h.data.region.text))
        return h
    hs = E.seq('h', build, 1)
    H = Hypothesis_Set()
    H.hypotheses = set(hs)
    final = []

    def normal(self, verbose=False, track_dependencies=False):
        if track_dependencies:
            E.ensure('an intersection', self.region_type == Region_Type.INTERSECT)
            r = tagged(all(c.inn for c in self.child), Region_Type.DISJOINT_UNION)
            final.append(self.child)
            r.child = [Region(Region_Type.POLYTOPE, Polytope([[F(1), F(0)]])) for k in range(2)]
            for k in range(2):
                r.child[k].child.dependencies = {c.label for c in self.child if E.upred('dep' + str(k), c.label)}
            return r
        E.ensure('an estimate clipped to the domain', self.region_type == Region_Type.INTERSECT and len(self.child) == 2 and any(c is D for c in self.child) and any(c is not D for c in self.child))
        src = self.child[1] if self.child[0] is D else self.child[0]
        r = tagged(D.inn and src.inn, Region_Type.DISJOINT_UNION)
        r.text, r.source = src.text, src
        return r

    def cp(self):
        r = tagged(self.inn, self.region_type)
        r.text, r.source = self.text, self.source
        return r

    def setlabel(self, label):
        self.label = label
    E.stub('region.Region.as_disjoint_union', normal)
    E.stub('region.Region.to_str', lambda self, *a: self.text if hasattr(self, 'text') else 'text')
    E.stub('region.Region.set_label', setlabel)
    E.stub('region.Region.__copy__', cp)
    E.stub('region.Region.simplify', lambda self: None)
    z = zd.compute_large_value_region(H, D, zeta=zeta)
    E.ensure('one tracked normal form', len(final) == 1)
    rs = final[0]
    n = E.int('n', 0)
    if n < len(rs):
        r = rs[n]
        E.ensure('only estimates', any(r.source is h.data.region for h in hs))
        used = E.upred('dep0', r.label) or E.upred('dep1', r.label)
        E.ensure('a label stands for its hypothesis', (not used) or any(d.data.region is r.source for d in z.dependencies))
    E.ensure('depends only on hypotheses used', all(any(d.data.region is r.source and (E.upred('dep0', r.label) or E.upred('dep1', r.label)) for r in rs) for d in z.dependencies))
    j = E.int('j', 0)
    if j < len(hs):
        E.ensure('inside every estimate', (not z.data.region.inn) or (D.inn and hs[j].data.region.inn))
    E.ensure('everything in all of them', z.data.region.inn or not (D.inn and all(h.data.region.inn for h in hs)))
    E.ensure('type', z.hypothesis_type == (ZT if zeta else LT) and z.reference.is_derived())


def origin(r):
    """the region of the hypothesis a clipped copy was made from"""
    while hasattr(r, 'source'):
        r = r.source
    if r.region_type == Region_Type.INTERSECT and len(r.child) == 2:
        return r.child[1] if hasattr(r.child[1], 'inn') else r.child[0]
    return None


def prove_rejects(E):
    """other arguments are refused"""
    k = E.choice('k', [0, 1])
    ok = False
    try:
        if k == 0:
            zd.compute_large_value_region([], Region.union([]))
        else:
            zd.compute_large_value_region(Hypothesis_Set(), Polytope([[F(1), F(1)]]))
    except ValueError:
        ok = True
    E.ensure('ValueError', ok)


# ------------------------------------------------------------------------------- concrete runs with cdd
def est(rng, i, htype=LT):
    f = lambda m, d: F(rng.randint(-m, m), d)
    bs = [[2, -2, 0]] if rng.random() < 0.7 else [[F(1, 2), 0, 0]]
    bs = [[f(6, 1), f(8, 1), f(2, rng.choice([1, 2]))]] if rng.random() < 0.3 else bs + [[f(6, 1), f(8, 1), f(2, rng.choice([1, 2]))] for _ in range(rng.randint(0, 2))]
    rng.shuffle(bs)
    h = Hypothesis('h%d' % i, htype, lv.convert_bounds(bs), 'p', Reference.make('A', 1990 + i))
    return h


def one_piece(r):
    return not isinstance(r.child, list) or (len(r.child) == 1 and one_piece(r.child[0]))


def check_region(E):
    """random sets of estimates over random domains against the arrangement of all facets"""
    import polyx
    from p12 import snapshot
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    if rng.random() < 0.3:
        # pairs of estimates that differ in one coefficient only
        a = rng.choice([F(1), F(2), F(1, 2)])
        t = rng.choice([F(1), F(2)])
        hs = [Hypothesis('h%d' % i, LT, lv.convert_bounds([b]), 'p', Reference.make('A', 1990)) for i, b in enumerate([[F(3), a, -t], [F(3), -a, t], [F(3), -a, -t], [F(0), a, t]][:rng.randint(2, 4)])]
    else:
        hs = [est(rng, i) for i in range(rng.randint(0, 3))]
        if hs and rng.random() < 0.2:
            hs.append(Hypothesis('dup', LT, lv.Large_Value_Estimate(hs[0].data.region), 'p', Reference.make('A', 1980)))
    ks = rng.sample([2, 3, F(1, 2)], rng.choice([0, 1, 2, 2])) if len(hs) < 2 or (len(hs) == 2 and rng.random() < 0.3) else []
    ts = [lv.raise_to_power_hypothesis(k) for k in ks]
    zeta = rng.random() < 0.5
    zs = [est(rng, 10 + i, ZT) for i in range(rng.randint(0, 1))]
    if rng.random() < 0.3:
        zs.append(zlv.get_trivial_zlv())
    H = Hypothesis_Set(set(hs + ts + zs))
    if rng.random() < 0.2:
        from bound_beta import Bound_beta
        from functions import Affine, Interval
        G = Hypothesis_Set({Hypothesis('b', 'Upper bound on beta', Bound_beta(Affine(F(1, 2), F(1, 6), Interval(F(0), F(1, 2)))), 'p', Reference.make('A', 1990))})
        zs += zlv.beta_to_zlv(G)
        H.add_hypotheses(zs)
    if not (hs or (zeta and zs)):
        return
    t0, t1 = sorted(rng.sample([F(2), F(5, 2), F(3), F(4), F(9, 4)], 2))
    if not zs and rng.random() < 0.5:
        t0 = F(0)
    s0, s1 = sorted(rng.sample([F(1, 2), F(5, 8), F(3, 4), F(7, 8), F(1)], 2))
    top = rng.choice([F(4), F(1), F(10)])
    D = Region.from_polytope(Polytope.rect((s0, s1), (t0, t1), (F(0), top)))
    if rng.random() < 0.2:
        D = Region.disjoint_union([D, Region.from_polytope(Polytope.rect((s0, s1), (t1, t1 + 1), (F(0), top)))])
        t1 = t1 + 1
    used = [(h, F(1)) for h in hs] + [(h, F(k)) for h in hs for k in ks] + ([(h, F(1)) for h in zs] if zeta else [])
    snaps = [snapshot(h.data.region) for h in hs + zs] + [snapshot(D)]
    n = len(H)
    z = zd.compute_large_value_region(H, D, zeta=zeta)
    E.ensure('unchanged', [snapshot(h.data.region) for h in hs + zs] + [snapshot(D)] == snaps and len(H) == n)
    E.ensure('type', z.hypothesis_type == (ZT if zeta else LT))
    deps = []
    for d in z.dependencies:
        m = [(h, k) for h, k in used if d is h and k == 1] or [(h, k) for h, k in used if d.dependencies == {h} and k != 1 and 'k = %s' % k in d.proof]
        E.ensure('dependencies are hypotheses used', len(m) == 1, (d.name,))
        deps.append(m[0])
    planes = polyx.region_rows(D) + [[r[0], r[1], r[2] / k, r[3] / k] for h, k in used for r in polyx.region_rows(h.data.region) if not (abs(r[0]) == 10 ** 6)]
    if len({tuple(r) for r in planes}) > 30:
        return
    ok = not isinstance(D.child, list) and len(z.data.region.child) > 0 and all(one_piece(h.data.region) for h, k in used)
    for c in polyx.arrangement([(s0, s1), (t0, t1), (F(0), top)], planes):
        x = polyx.center(c)
        mem = lambda us: polyx.region_member(D, x) and all(polyx.region_member(h.data.region, (x[0], x[1] / k, x[2] / k)) for h, k in us)
        want = mem(used)
        E.ensure('points', z.data.region.contains(x) == want, (x, want))
        if ok:
            E.ensure('the dependencies suffice', mem(deps) == want, (x,))


def check_twins(E):
    """estimates with many pieces that agree on all but one piece or one height are all taken into account"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    n = rng.choice([3, 12, 40])
    cut = [F(1, 2) + F(i, 2 * n) for i in range(n + 1)]
    base = [F(rng.randint(2, 12), 4) for _ in range(n)]
    zeta = rng.random() < 0.5

    def make(i, hs):
        R = Region.disjoint_union([Region.from_polytope(Polytope.rect((cut[j], cut[j + 1]), (F(2), F(3)), (F(0), hs[j]))) for j in range(n)])
        return Hypothesis('h%d' % i, ZT if zeta and i else LT, lv.Large_Value_Estimate(R), 'p', Reference.make('A', 1990))
    rows = [base]
    for _ in range(rng.randint(1, 2)):
        h = list(base)
        h[rng.choice([0, n // 2, n - 1])] -= rng.choice([F(1, 4), F(1, 7)])
        rows.append(h)
    rng.shuffle(rows)
    H = Hypothesis_Set([make(i, h) for i, h in enumerate(rows)])
    D = Region.from_polytope(Polytope.rect((F(1, 2), F(1)), (F(2), F(3)), (F(0), F(10))))
    z = zd.compute_large_value_region(H, D, zeta=zeta)
    for j in range(n):
        top = min(h[j] for h in rows)
        s = (cut[j] + cut[j + 1]) / 2
        for d in (F(1, 100), -F(1, 100)):
            E.ensure('points', z.data.region.contains((s, F(5, 2), top + d)) == (d < 0), (s, top + d))
