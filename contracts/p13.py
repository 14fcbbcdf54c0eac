"""P13: the disjoint-union normal form and simplification preserve the region."""
from fractions import Fraction as F
from polytope import Polytope
from region import Region, Region_Type
from helpers.region_helper import Region_Helper

OPTS = {'*': {'time': 170, 'n': 100, 'max_paths': 60000},
        'bounded_intersection': {'shards': ('shape', 7), 'max_paths': 300000}, 'prove_intersection': {'shards': ('track', 2), 'time': 300},
        'check_disjoint': {'n': 300, 'tl': 30}, 'check_simplify': {'n': 200, 'tl': 25}, 'check_many': {'n': 6, 'tl': 30}, 'check_slabs': {'n': 120, 'tl': 30},
        'assumptions': ["symbolic runs use is_subset_of, intersect, is_empty and try_union through their contracts (P10, P11), instantiated at one arbitrary point off all facets"]}


def leaf(E, n):
    """an arbitrary polytope, of which only the membership of one point off its facets is known"""
    p = Polytope([[F(1), F(0)]])
    p.inn = E.bool(n)
    p.label = 'L' + n
    p.owner = p
    return p


def made(inn):
    p = Polytope([[F(1), F(0)]])
    p.inn = inn
    return p


def contracts(E, log):
    def subset(self, other):
        if E.fresh_bool('sub'):
            E.assume((not self.inn) or other.inn)
            return True
        return False

    def empty(self, include_boundary=True):
        if E.fresh_bool('empty'):
            E.assume(not self.inn)
            return True
        return False

    def union(polys):
        log.append(list(polys))
        if E.fresh_bool('convex'):
            return made(any(p.inn for p in polys))
        return None
    E.stub('polytope.Polytope.is_subset_of', subset)
    E.stub('polytope.Polytope.intersect', lambda self, other: made(self.inn and other.inn))
    E.stub('polytope.Polytope.is_empty', empty)
    E.stub('polytope.Polytope.try_union', union)

    def cp(self):
        c = made(self.inn)
        c.owner = self
        return c
    E.stub('polytope.Polytope.__copy__', cp)


def labels_sound(E, polys, leaves):
    """every label is that of a leaf of the region, and the labels of a polytope containing the point cover it"""
    for p in polys:
        E.ensure('labels of leaves only', all(any(l == q.label for q in leaves) for l in p.dependencies))


def bounded_intersection(E):
    """intersection of up to three unions of polytopes: the same points, at most one piece at each point, sound labels (bounded)"""
    if not E.symbolic:
        return
    shape, track = E.choice('shape', [((2, 2), False), ((2, 2), True), ((2, 1, 1), False), ((2, 1, 1), True), ((1, 2), False), ((1, 2), True), ((1, 1, 1), True)])
    groups = [[leaf(E, str(i) + str(j)) for j in range(shape[i])] for i in range(len(shape))]
    for g in groups:
        # disjoint interiors
        if len(g) == 2:
            E.assume(not (g[0].inn and g[1].inn))
    log = []
    contracts(E, log)
    kids = []
    for g in groups:
        rs = [Region.from_polytope(p) for p in g]
        kids.append(rs[0] if len(rs) == 1 else Region.disjoint_union(rs))
    R = Region.intersect(kids)
    want = all(any(p.inn for p in g) for g in groups)
    D = R.as_disjoint_union(track_dependencies=track)
    E.ensure('disjoint union of polytopes', D.region_type == Region_Type.DISJOINT_UNION and all(c.region_type == Region_Type.POLYTOPE for c in D.child))
    out = [c.child for c in D.child]
    E.ensure('one piece exactly at the points of the region', sum(1 if p.inn else 0 for p in out) == (1 if want else 0))
    leaves = [p for g in groups for p in g]
    if track:
        labels_sound(E, out, leaves)
        for p in out:
            E.ensure('inside the union of the labelled polytopes', (not p.inn) or any(q.inn for q in leaves if q.label in p.dependencies))
            E.ensure('a label at least', len(p.dependencies) >= 1)
    E.ensure('input unchanged', all(len(kids[i].child) == shape[i] if shape[i] > 1 else kids[i].child is groups[i][0] for i in range(len(shape))))
    E.ensure('no attribute added', all(not hasattr(p, 'dependencies') for p in leaves))


def prove_intersection(E):
    """intersection of two disjoint unions with any number of pieces: the same points at an arbitrary point, labels of the region"""
    if not E.symbolic:
        return
    track = E.choice('track', [False, True])
    contracts(E, [])

    def piece(n):
        p = leaf(E, n)
        p.label = E.int('l' + n)
        return p
    As = E.seq('a', lambda i: piece('a'))
    Bs = E.seq('b', lambda i: piece('b'))
    R = Region.intersect([Region.disjoint_union([Region.from_polytope(p) for p in As]), Region.disjoint_union([Region.from_polytope(p) for p in Bs])])
    D = R.as_disjoint_union(track_dependencies=track)
    E.ensure('disjoint union of polytopes', D.region_type == Region_Type.DISJOINT_UNION and all(c.region_type == Region_Type.POLYTOPE for c in D.child))
    E.ensure('points of the region', any(c.child.inn for c in D.child) == (any(p.inn for p in As) and any(p.inn for p in Bs)))
    if track:
        E.ensure('labels of leaves only', all(all(any(p.label == l for p in As) or any(p.label == l for p in Bs) for l in c.child.dependencies) for c in D.child))
        E.ensure('no attribute added', all(not hasattr(p, 'dependencies') for p in As) and all(not hasattr(p, 'dependencies') for p in Bs))


def bounded_simplify(E):
    """simplify_union_of_polys and simplify keep the union and disjointness (bounded: up to 4 polytopes)"""
    if not E.symbolic:
        return
    n = E.count('n', 0, 4)
    ps = [leaf(E, str(i)) for i in range(n)]
    k = E.choice('k', [0, 1, 2])
    log = []
    contracts(E, log)
    before = any(p.inn for p in ps)
    cnt = sum(1 if p.inn else 0 for p in ps)
    if k == 0:
        for p in ps:
            p.dependencies = {p.label}
        out = Region_Helper.simplify_union_of_polys(list(ps), Polytope.try_union, True)
        for p in out:
            E.ensure('labels of merged polytopes', all(any(l == q.label for q in ps) for l in p.dependencies))
            E.ensure('inside the labelled ones', (not p.inn) or any(q.inn for q in ps if q.label in p.dependencies))
        E.ensure('every label stays', all(any(q.label in p.dependencies for p in out) for q in ps))
    else:
        R = Region(Region_Type.UNION if k == 1 else Region_Type.DISJOINT_UNION, [Region.from_polytope(p) for p in ps])
        t = R.region_type
        R.simplify()
        E.ensure('kind', R.region_type == t and all(c.region_type == Region_Type.POLYTOPE for c in R.child))
        out = [c.child for c in R.child]
    E.ensure('same union', any(p.inn for p in out) == before)
    E.ensure('no overlap added', sum(1 if p.inn else 0 for p in out) <= cnt)
    E.ensure('only pairs are merged', all(len(l) == 2 for l in log))


def prove_unsupported(E):
    """kinds without a normal form are rejected"""
    k = E.choice('k', [Region_Type.UNION, Region_Type.COMPLEMENT])
    r = Region.from_polytope(Polytope([[F(1), F(0)]]))
    ok = False
    try:
        Region(k, [r] if k == Region_Type.UNION else r).as_disjoint_union()
    except NotImplementedError:
        ok = True
    E.ensure('NotImplementedError', ok)


# ------------------------------------------------------------------------------- concrete runs with cdd
def disjoint(rng, d):
    """a disjoint union of bounded polytopes: a box cut by hyperplanes, some cells dropped"""
    import polyx
    from p11 import small_poly
    P = small_poly(rng, d, rng.choice([0, 0.5]))
    cells = [polyx.rows_of(P)]
    for h in polyx.rand_rows(rng, d, rng.randint(0, 2), 2):
        out = []
        for ine, eq in cells:
            out.append((ine + [h], eq))
            out.append((ine + [[-a for a in h]], eq))
        cells = out
    if len(cells) > 1 and rng.random() < 0.5:
        cells.pop(rng.randrange(len(cells)))
    return [Polytope(ine + eq + [[-a for a in r] for r in eq]) for ine, eq in cells]


def build(rng, d, names, depth=2):
    ps = disjoint(rng, d)
    for p in ps:
        p.label = 'L%d' % len(names)
        names.append(p)
    rs = [Region.from_polytope(p) for p in ps]
    if len(rs) == 1 and rng.random() < 0.7:
        return rs[0]
    if depth > 0 and rng.random() < 0.25:
        rs[0] = Region.intersect([rs[0], build(rng, d, names, depth - 1)])
    return Region.disjoint_union(rs)


def check_disjoint(E):
    """as_disjoint_union of random nestings against the arrangement of all facets"""
    import polyx
    from p12 import snapshot
    rng = E.rng
    d = E.choice('d', [1, 2, 2, 2, 3])
    E.int('seed', 0, 10 ** 9)
    names = []
    R = Region.intersect([build(rng, d, names) for _ in range(rng.randint(1, 4))])
    if rng.random() < 0.2:
        x = build(rng, d, names)
        R = Region.intersect([R, x])
    planes = polyx.region_rows(R)
    if len({tuple(r) for r in planes}) > (26 if d < 3 else 14):
        return
    snap = snapshot(R)
    cs = [polyx.center(c) for c in polyx.arrangement([(-4, 5)] * d, planes)]
    rows = {p.label: polyx.rows_of(p) for p in names}
    for track in (False, True):
        D = R.as_disjoint_union(track_dependencies=track)
        E.ensure('disjoint union of polytopes', D.region_type == Region_Type.DISJOINT_UNION and all(c.region_type == Region_Type.POLYTOPE for c in D.child))
        for x in cs:
            n = sum(c.child.contains(x) for c in D.child)
            E.ensure('one piece exactly at the points of the region', n == int(polyx.region_member(R, x)), (x, n, track))
        E.ensure('input unchanged', snapshot(R) == snap)
        if track:
            sufficient(E, D, cs, rows, {i for i, y in enumerate(cs) if polyx.region_member(R, y)})
            for c in D.child:
                dep = c.child.dependencies
                E.ensure('known labels', isinstance(dep, set) and all(l in rows for l in dep))
                for x in cs:
                    if c.child.contains(x):
                        E.ensure('inside the union of its labelled polytopes', (not dep) or any(polyx.member(*rows[l], x) for l in dep), (x, dep))


def sufficient(E, D, cs, rows, region=None):
    """the labelled polytopes around a point of a piece imply the region (without nesting: cut out the same cells as all the polytopes around it)"""
    import polyx
    on = {l: {i for i, y in enumerate(cs) if polyx.member(*r, y)} for l, r in rows.items()}
    for c in D.child:
        dep = c.child.dependencies
        for i, x in enumerate(cs):
            if c.child.contains(x):
                allc = set(range(len(cs))).intersection(*[s for l, s in on.items() if i in s])
                lab = set(range(len(cs))).intersection(*[s for l, s in on.items() if i in s and l in dep])
                E.ensure('the labelled polytopes suffice', lab == allc if region is None else lab <= region, (x, dep))


def check_slabs(E):
    """pieces each cut by several slabs and merged back"""
    import polyx
    from p12 import snapshot
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    d = E.choice('d', [1, 2, 2, 3])
    k = rng.choice([2, 3, 4, 5, 5, 6, 7, 8, 9, 11])
    names = []

    def lab(p):
        p.label = 'L%d' % len(names)
        names.append(p)
        return Region.from_polytope(p)
    side = [(F(0), F(8))] * (d - 1)
    cuts = sorted(rng.sample(range(1, 16), k - 1))
    edges = [F(0)] + [F(c, 2) for c in cuts] + [F(8)]
    drop = rng.randrange(k) if rng.random() < 0.3 else None
    B = [lab(Polytope.rect((edges[i], edges[i + 1]), *side)) for i in range(k) if i != drop]
    A = []
    if d == 1 or rng.random() < 0.4:
        A.append(lab(Polytope.rect((F(1, 4), F(31, 4)), *[(F(1), F(9))] * (d - 1))))
    else:
        m = rng.randint(2, 4)
        for j in range(m):
            A.append(lab(Polytope.rect((F(rng.randint(-1, 3), 3), F(rng.randint(20, 25), 3)), *([(F(2 * j), F(2 * j + 1 + rng.randint(0, 1)))] + [(F(-1), F(rng.randint(5, 9)))] * (d - 2)))))
    fac = [Region.disjoint_union(A) if len(A) > 1 else A[0], Region.disjoint_union(B) if len(B) > 1 else B[0]]
    if rng.random() < 0.3:
        fac.append(lab(Polytope.rect((F(1), F(9)), *[(F(-1), F(9))] * (d - 1))))
    if rng.random() < 0.5:
        rng.shuffle(fac)
    R = Region.intersect(fac)
    cs = [polyx.center(c) for c in polyx.arrangement([(-2, 10)] * d, polyx.region_rows(R))]
    if len(cs) > 600:
        return
    snap = snapshot(R)
    rows = {p.label: polyx.rows_of(p) for p in names}
    for track in (False, True):
        D = R.as_disjoint_union(track_dependencies=track)
        for x in cs:
            n = sum(c.child.contains(x) for c in D.child)
            E.ensure('one piece exactly at the points of the region', n == int(polyx.region_member(R, x)), (x, n, track))
        E.ensure('input unchanged', snapshot(R) == snap)
        if track:
            E.ensure('known labels', all(l in rows for c in D.child for l in c.child.dependencies))
            sufficient(E, D, cs, rows)


def check_simplify(E):
    """simplify on random unions and disjoint unions"""
    import polyx
    from p11 import small_poly
    rng = E.rng
    d = E.choice('d', [1, 2, 2])
    E.int('seed', 0, 10 ** 9)
    disj = rng.random() < 0.5
    ps = disjoint(rng, d) if disj else [small_poly(rng, d, rng.choice([0, 0.5])) for _ in range(rng.randint(1, 4))]
    ps = [p for p in ps if not p.is_empty(include_boundary=False)]
    R = Region(Region_Type.DISJOINT_UNION if disj else Region_Type.UNION, [Region.from_polytope(p) for p in ps])
    planes = polyx.region_rows(R)
    if len({tuple(r) for r in planes}) > 22:
        return
    cs = [polyx.center(c) for c in polyx.arrangement([(-4, 5)] * d, planes)]
    want = [sum(polyx.member(*polyx.rows_of(p), x) for p in ps) for x in cs]
    n = len(R.child)
    R.simplify()
    E.ensure('not more pieces', len(R.child) <= n)
    for x, w in zip(cs, want):
        got = sum(c.child.contains(x) for c in R.child)
        E.ensure('same points', (got > 0) == (w > 0), (x,))
        E.ensure('no overlap added', got <= w, (x,))
    # a nested region is left alone
    Q = Region.intersect([Region.from_polytope(p) for p in ps]) if ps else None
    if Q:
        E.ensure('intersections are left alone', Q.simplify() is False and len(Q.child) == len(ps))


def check_many(E):
    """more than a hundred pieces and more than twenty factors, so that intermediate simplification happens"""
    import polyx
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    from p12 import snapshot
    k = 11
    cellsx = []
    names = []
    skip = {(rng.randrange(k), rng.randrange(k)) for _ in range(5)}
    for i in range(k):
        for j in range(k):
            if (i, j) not in skip:
                p = Polytope.rect((F(2 * i), F(2 * i + 1)), (F(2 * j), F(2 * j + 1)))
                p.label = 'c%d,%d' % (i, j)
                names.append(p)
    grid = Region.disjoint_union([Region.from_polytope(p) for p in names])
    fac = [grid]
    for t in range(20):
        p = Polytope.rect((F(-1 - t), F(40)), (F(-1), F(40 + t)))
        p.label = 'box%d' % t
        names.append(p)
        fac.append(Region.from_polytope(p))
    lo = rng.randint(0, 8)
    p = Polytope.rect((F(2 * lo) + F(1, 2), F(100)), (F(-1), F(100)))
    p.label = 'cut'
    names.append(p)
    fac.append(Region.from_polytope(p))
    if rng.random() < 0.5:
        fac.insert(1, fac.pop())
    R = Region.intersect(fac)
    snap = snapshot(R)
    D = R.as_disjoint_union(track_dependencies=True)
    labels = {p.label for p in names}
    for i in range(k):
        for j in range(k):
            for x in ((F(8 * i + 1, 4), F(8 * j + 1, 4)), (F(8 * i + 3, 4), F(8 * j + 3, 4)), (F(8 * i + 6, 4), F(8 * j + 1, 4))):
                n = sum(c.child.contains(x) for c in D.child)
                E.ensure('one piece exactly at the points of the region', n == int(polyx.region_member(R, x)), (x, n))
    for c in D.child:
        E.ensure('known labels', all(l in labels for l in c.child.dependencies))
    E.ensure('input unchanged', snapshot(R) == snap)
