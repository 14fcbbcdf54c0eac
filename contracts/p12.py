"""P12: Regions denote boolean combinations of polytopes."""
from fractions import Fraction as F
from polytope import Polytope
from region import Region, Region_Type
from p10 import row, point, at, sat, bpoly, mem

OPTS = {'*': {'time': 150, 'n': 150, 'max_paths': 60000},
        'check_long': {'n': 6}, 'check_membership': {'n': 500, 'tl': 25}, 'check_projection': {'n': 250, 'tl': 20}, 'check_inclusion': {'n': 300, 'tl': 20},
        'assumptions': ["recursive calls and polytope operations are replaced by their contracts (P10, P11) in the induction steps"]}

KINDS = [Region_Type.INTERSECT, Region_Type.UNION, Region_Type.DISJOINT_UNION]


def combine(kind, ins):
    return all(b for b in ins) if kind == Region_Type.INTERSECT else any(b for b in ins)


def kid(E, n):
    """an arbitrary region, of which only the membership of one point is known"""
    r = Region(Region_Type.UNION, [])
    r.inn = E.bool(n)
    return r


def tagged(b):
    r = Region(Region_Type.UNION, [])
    r.inn = b
    return r


def prove_contains_step(E):
    """induction step of contains: any number of arbitrary children"""
    if not E.symbolic:
        return
    E.stub('region.Region.contains', lambda self, x: self.inn, True)
    kind = E.choice('kind', KINDS)
    kids = E.seq('kids', lambda i: kid(E, 'in'))
    r = Region(kind, kids)
    E.ensure('boolean combination', r.contains((0,)) == combine(kind, [k.inn for k in kids]))
    k = kid(E, 'c')
    E.ensure('complement', Region.complement(k).contains((0,)) == (not k.inn))
    if kind == Region_Type.UNION:
        E.ensure('constructor', Region.union(kids).contains((0,)) == combine(kind, [k.inn for k in kids]))
    elif kind == Region_Type.INTERSECT:
        E.ensure('constructor', Region.intersect(kids).contains((0,)) == combine(kind, [k.inn for k in kids]))
    else:
        E.ensure('constructor', Region.disjoint_union(kids).contains((0,)) == combine(kind, [k.inn for k in kids]))


def prove_contains_leaf(E):
    """contains at a polytope leaf and its complement"""
    d = E.count('d', 1, 2)
    q = bpoly(E, 'p', d)
    x = point(E, 'x', d)
    r = Region.from_polytope(q[0])
    E.ensure('polytope', r.contains(x) == mem(q, x))
    E.ensure('complement', Region.complement(r).contains(x) == (not mem(q, x)))


def prove_substitute_step(E):
    """induction step of substitute: the section of the combination is the combination of the sections"""
    if not E.symbolic:
        return
    vals = {0: E.real('v')}

    def sub(self, values):
        E.ensure('same values', values == vals)
        return tagged(self.inn)
    E.stub('region.Region.substitute', sub, True)
    E.stub('region.Region.contains', lambda self, x: self.inn, True)
    kind = E.choice('kind', KINDS)
    kids = E.seq('kids', lambda i: kid(E, 'in'))
    r = Region(kind, kids)
    s = r.substitute(vals)
    E.ensure('members', s.contains((0,)) == combine(kind, [k.inn for k in kids]))
    E.ensure('kind', s.region_type == kind)
    E.ensure('unchanged', r.region_type == kind and len(r.child) == len(kids) and s is not r)
    k = kid(E, 'c')
    E.ensure('complement', Region.complement(k).substitute(vals).contains((0,)) == (not k.inn))


def prove_scale_step(E):
    """induction step of scale_all"""
    if not E.symbolic:
        return
    fs = [E.real('v')]

    def sc(self, factors):
        E.ensure('same factors', factors == fs)
        return tagged(self.inn)
    E.stub('region.Region.scale_all', sc, True)
    E.stub('region.Region.contains', lambda self, x: self.inn, True)
    kind = E.choice('kind', KINDS)
    kids = E.seq('kids', lambda i: kid(E, 'in'))
    r = Region(kind, kids)
    s = r.scale_all(fs)
    E.ensure('members', s.contains((0,)) == combine(kind, [k.inn for k in kids]))
    E.ensure('kind', s.region_type == kind)
    E.ensure('unchanged', r.region_type == kind and len(r.child) == len(kids) and s is not r)
    k = kid(E, 'c')
    E.ensure('complement', Region.complement(k).scale_all(fs).contains((0,)) == (not k.inn))


def prove_lift_step(E):
    """induction step of lift; a complement is taken within the added limits"""
    if not E.symbolic:
        return
    lo, up = E.real('l'), E.real('u')
    var = E.choice('var', [0, 1])
    v = [0, (lo, up)] if var == 0 else [(lo, up), 0]
    y = E.real('y')
    inbox = lo <= y and y <= up

    def lf(self, w):
        E.ensure('same coordinates', w == v)
        t = tagged(self.inn and inbox)
        return t
    E.stub('region.Region.lift', lf, True)

    def cont(self, x):
        if self.region_type == Region_Type.POLYTOPE:
            return self.child.contains(x)
        if self.region_type == Region_Type.COMPLEMENT:
            return not self.child.inn
        return self.inn
    E.stub('region.Region.contains', cont, True)
    kind = E.choice('kind', KINDS + [Region_Type.COMPLEMENT])
    x = (E.real('x'), y) if var == 0 else (y, E.real('x'))
    if kind == Region_Type.COMPLEMENT:
        k = kid(E, 'c')
        E.ensure('complement', Region.complement(k).lift(v).contains(x) == (inbox and not k.inn))
    else:
        kids = E.seq('kids', lambda i: kid(E, 'in'), 1)
        r = Region(kind, kids)
        E.ensure('members', r.lift(v).contains(x) == (combine(kind, [k.inn for k in kids]) and inbox))
        E.ensure('unchanged', len(r.child) == len(kids))


def prove_leaf_operations(E):
    """substitute, scale_all and lift of a polytope leaf are the polytope's"""
    d = 2
    q = bpoly(E, 'p', d, 1)
    r = Region.from_polytope(q[0])
    x = point(E, 'x', d)
    f = [E.real('f0'), E.real('f1')]
    E.assume(f[0] != 0 and f[1] != 0)
    E.ensure('scale_all', r.scale_all(f).contains((x[0] * f[0], x[1] * f[1])) == mem(q, x))
    E.ensure('substitute', r.substitute({0: x[0]}).contains((x[1],)) == mem(q, x))
    z, lo, up = E.real('z'), E.real('lo'), E.real('up')
    E.ensure('lift', r.lift([1, (lo, up), 0]).contains((x[1], z, x[0])) == (mem(q, x) and lo <= z and z <= up))
    E.ensure('unchanged', r.contains(x) == mem(q, x) and r.child is q[0])


def prove_halfplanes(E):
    """from_union_of_halfplanes: the points of the box in some half plane, in one piece each, with disjoint interiors (any number of half planes and rows)"""
    d = E.choice('d', [1, 2, 3])
    box = E.seq('b', lambda i: row(E, 'b', d), 1)
    hps = E.seq('h', lambda i: row(E, 'h', d), 1)
    x = point(E, 'x', d)

    def init(self, constraints=[], linear=False, canonicalize=False):
        E.ensure('rows of the space', all(len(c) == d + 1 for c in constraints) and not linear)
        self.rows = constraints

    E.stub('polytope.Polytope.__init__', init)
    E.stub('polytope.Polytope.contains', lambda self, y: all(at(c, y) >= 0 for c in self.rows))
    r = Region.from_union_of_halfplanes(hps, box)
    first = None
    for h in hps:
        if at(h, x) >= 0:
            first = h
            break
    E.ensure('members', r.contains(x) == (sat(box, x) and first is not None))
    E.ensure('one piece per half plane', len(r.child) == len(hps) and r.region_type == Region_Type.DISJOINT_UNION)
    E.assume(all(at(h, x) != 0 for h in hps))
    for i in range(len(r.child)):
        for j in range(i):
            E.ensure('at most one piece', not (r.child[i].contains(x) and r.child[j].contains(x)))


def bounded_halfplanes(E):
    """from_union_of_halfplanes: the points of the box in some half plane (bounded: up to 3 half planes)"""
    d = E.count('d', 1, 2)
    box = [row(E, 'b' + str(i), d) for i in range(E.count('m', 0, 2))]
    hps = [row(E, 'h' + str(i), d) for i in range(E.count('n', 1, 3))]
    x = point(E, 'x', d)
    r = Region.from_union_of_halfplanes(hps, box)
    E.ensure('members', r.contains(x) == (sat(box, x) and any(at(h, x) >= 0 for h in hps)))
    E.ensure('one piece per half plane, disjoint interiors', len(r.child) == len(hps) and r.region_type == Region_Type.DISJOINT_UNION)
    E.assume(all(at(h, x) != 0 for h in hps))
    E.ensure('at most one piece', sum(1 if c.contains(x) else 0 for c in r.child) <= 1)


def prove_subset_step(E):
    """is_subset_of on the supported kinds, against the contracts of the polytope tests"""
    if not E.symbolic:
        return
    found = []

    def leaf(n):
        p = Polytope([[F(1), F(0)]])
        p.inn = E.bool(n)
        return p

    def decide(ok, bad):
        """true: holds at the ghost point; false: some point refutes it"""
        if E.fresh_bool('holds'):
            E.assume(ok)
            return True
        found.append(bad)
        return False
    E.stub('polytope.Polytope.is_subset_of', lambda self, other: decide((not self.inn) or other.inn, (self, [other])))
    E.stub('polytope.Polytope.is_covered_by', lambda self, ps: decide((not self.inn) or any(p.inn for p in ps), (self, list(ps))))
    P = leaf('a')
    A = Region.from_polytope(P)
    m = E.count('m', 1, 2)
    Qs = [leaf('b' + str(i)) for i in range(m)]
    k = E.choice('kind', [0, 1, 2, 3, 4])
    if k == 0:
        B, inB = Qs[0], Qs[0].inn
    elif k == 1:
        B, inB = Region.from_polytope(Qs[0]), Qs[0].inn
    else:
        kind = [Region_Type.UNION, Region_Type.DISJOINT_UNION, Region_Type.INTERSECT][k - 2]
        B, inB = Region(kind, [Region.from_polytope(q) for q in Qs]), combine(kind, [q.inn for q in Qs])
    inA = P.inn
    S = A
    ps = [P]
    if E.choice('left', [0, 1]) == 1:
        P2 = leaf('a2')
        S = Region(E.choice('lk', [Region_Type.UNION, Region_Type.DISJOINT_UNION]), [A, Region.from_polytope(P2)])
        inA = inA or P2.inn
        ps = [P, P2]
    if S.is_subset_of(B):
        E.ensure('subset: every point', (not inA) or inB)
    else:
        E.ensure('not a subset: a refuted inclusion of one of the parts', len(found) >= 1 and any(found[-1][0] is p for p in ps))
        E.ensure('refuted against the right polytopes', all(any(t is q for q in Qs) for t in found[-1][1]) and (k in (0, 1, 4) or len(found[-1][1]) == m))


def part(E):
    """an arbitrary polytope: membership of one point, inclusion of the fixed left polytope in it, its own inclusion in the fixed right one
    and in the union of the right list"""
    p = Polytope([[F(1), F(0)]])
    p.inn, p.has, p.isin, p.cov = E.bool('inn'), E.bool('has'), E.bool('isin'), E.bool('cov')
    return p


def prove_subset_of_many(E):
    """a polytope against a union or an intersection of any number of polytopes"""
    if not E.symbolic:
        return
    P = part(E)
    Qs = E.seq('qs', lambda i: part(E), min=1)
    kind = E.choice('kind', KINDS)
    E.assume(all((not q.has) or (not P.inn) or q.inn for q in Qs))
    E.assume((not P.cov) or (not P.inn) or any(q.inn for q in Qs))
    E.assume(all((not q.has) or P.cov for q in Qs))

    def covered(self, ps):
        E.ensure('the union of all parts', self is P and kind != Region_Type.INTERSECT and len(ps) == len(Qs) and all(any(t is q for t in ps) for q in Qs))
        return self.cov
    E.stub('polytope.Polytope.is_subset_of', lambda self, other: other.has)
    E.stub('polytope.Polytope.is_covered_by', covered)
    got = Region.from_polytope(P).is_subset_of(Region(kind, [Region.from_polytope(q) for q in Qs]))
    inB = combine(kind, [q.inn for q in Qs])
    if got:
        E.ensure('subset: every point', (not P.inn) or inB)
    elif kind == Region_Type.INTERSECT:
        E.ensure('not a subset: some part does not contain it', any(not q.has for q in Qs))
    else:
        E.ensure('not a subset: not covered', not P.cov)


def prove_many_subset(E):
    """a union of any number of polytopes against a polytope, or against a union of any number of polytopes"""
    if not E.symbolic:
        return
    Ps = E.seq('ps', lambda i: part(E))
    Qs = E.seq('qs', lambda i: part(E), min=1)
    kind = E.choice('kind', [Region_Type.UNION, Region_Type.DISJOINT_UNION])
    lk = E.choice('left', [Region_Type.UNION, Region_Type.DISJOINT_UNION])
    k = E.choice('right', ['polytope', 'leaf', 'union'])
    Q = part(E)

    def covered(self, ps):
        E.ensure('the union of all parts', k == 'union' and len(ps) == len(Qs) and all(any(t is q for t in ps) for q in Qs))
        return self.cov

    def inside(self, other):
        E.ensure('the right polytope', other is Q)
        return self.isin
    E.stub('polytope.Polytope.is_subset_of', inside)
    E.stub('polytope.Polytope.is_covered_by', covered)
    B = Q if k == 'polytope' else Region.from_polytope(Q) if k == 'leaf' else Region(kind, [Region.from_polytope(q) for q in Qs])
    got = Region(lk, [Region.from_polytope(p) for p in Ps]).is_subset_of(B)
    if k == 'union':
        E.ensure('exactly when every part is covered', got == all(p.cov for p in Ps))
    else:
        E.ensure('exactly when every part is inside', got == all(p.isin for p in Ps))


# ------------------------------------------------------------------------------- concrete runs with cdd
def rand_region(rng, d, depth, kinds, leaf):
    k = rng.random()
    if depth == 0 or k < 0.2:
        return Region.from_polytope(leaf())
    t = rng.choice(kinds)
    if t == Region_Type.COMPLEMENT:
        return Region.complement(rand_region(rng, d, depth - 1, kinds, leaf))
    return Region(t, [rand_region(rng, d, depth - 1, kinds, leaf) for _ in range(rng.randint(1, 3))])


def snapshot(r):
    import polyx
    if isinstance(r.child, list):
        return (r.region_type, [snapshot(c) for c in r.child])
    if isinstance(r.child, Region):
        return (r.region_type, snapshot(r.child))
    return (r.region_type, polyx.rows_of(r.child), sorted(k for k in vars(r.child) if k not in ('vertices', 'rays', '_is_empty_incl_boundary', '_is_empty_excl_boundary', 'is_canonical', 'polyhedron', 'mat')))


def check_long(E):
    """unions and intersections of up to a few hundred boxes"""
    rng = E.rng
    n = E.int('n', 20, 300)
    ps = [Region.from_polytope(Polytope.rect((F(i), F(i + 1)))) for i in range(n)]
    us = [Region.from_polytope(Polytope([[F(n - i), F(-1)]])) for i in range(n)]
    rs = [(Region.union(ps), lambda x: 0 <= x <= n), (Region.disjoint_union(ps), lambda x: 0 <= x <= n),
          (Region.intersect(us), lambda x: x <= 1), (Region.intersect([Region.union(us[::-1])]), lambda x: x <= n)]
    xs = [F(rng.randint(-1, 2 * n + 3), 2) for _ in range(8)] + [F(1), F(n), F(2 * n - 1, 2), F(2 * n + 1, 2)]
    for r, f in rs:
        s = r.scale_all([F(1, 2)])
        t = r.lift([(F(0), F(1)), 0])
        for x in xs:
            E.ensure('contains', r.contains((x,)) == f(x), (n, x))
            E.ensure('scale_all', s.contains((x / 2,)) == f(x), (n, x))
            E.ensure('lift', t.contains((F(1, 2), x)) == f(x), (n, x))
    k = rng.randrange(n)
    line = Region.from_polytope(Polytope.rect((F(0), F(n))))
    E.ensure('a part of each half line', Region.from_polytope(Polytope.rect((F(0), F(k + 1, 2)))).is_subset_of(Region.intersect(us)) == (k <= 1))
    low = [Region.from_polytope(Polytope([[F(n), F(-1)]])) for i in range(n)]
    E.ensure('inside every half line', line.is_subset_of(Region.intersect(low)))
    low[k] = Region.from_polytope(Polytope([[F(n - 1), F(-1)]]))
    E.ensure('outside one half line', not line.is_subset_of(Region.intersect(low)))
    E.ensure('each part is inside', Region.union(ps).is_subset_of(line) and Region.disjoint_union(ps).is_subset_of(line.child))
    E.ensure('one part is outside', not Region.union(ps[:k] + [Region.from_polytope(Polytope.rect((F(-1), F(1))))] + ps[k:]).is_subset_of(line))


def check_membership(E):
    """contains, substitute, scale_all, lift, halfplanes on random nestings, on and off facets"""
    import polyx
    from p10 import points
    from p11 import small_poly
    rng = E.rng
    d = E.count('d', 1, 3)
    E.int('seed', 0, 10 ** 9)

    def leaf():
        if rng.random() < 0.6:
            return small_poly(rng, d)
        return Polytope(polyx.rand_rows(rng, d, rng.randint(1, 2), 2))
    R = rand_region(rng, d, 3, KINDS + [Region_Type.COMPLEMENT], leaf)
    snap = snapshot(R)
    planes = polyx.region_rows(R)
    f = [F(rng.choice([1, 2, 3, -1]), rng.choice([1, 2])) for _ in range(d)]
    S = R.scale_all(list(f))
    sub = {i: F(rng.randint(-2, 2), rng.choice([1, 2])) for i in rng.sample(range(d), rng.randint(0, d - 1))}
    keep = [j for j in range(d) if j not in sub]
    T = R.substitute(dict(sub))
    var = list(range(d))
    rng.shuffle(var)
    for _ in range(rng.randint(1, 2)):
        lo = rng.randint(-2, 1)
        var.insert(rng.randint(0, len(var)), (F(lo), F(lo + rng.randint(0, 3))))
    L = R.lift(list(var))
    for x in points(rng, d, planes, 10):
        want = polyx.region_member(R, x)
        E.ensure('contains', R.contains(x) == want, (x,))
        E.ensure('scale_all', S.contains(tuple(a * b for a, b in zip(x, f))) == want, (x, f))
        w = tuple(sub.get(j, x[j]) for j in range(d))
        E.ensure('substitute', T.contains(tuple(x[j] for j in keep)) == polyx.region_member(R, w), (x, sub))
        u = [x[v] if isinstance(v, int) else rng.choice([v[0], v[1], v[0] - 1, v[1] + F(1, 2), (v[0] + v[1]) / 2]) for v in var]
        inbox = all(isinstance(v, int) or v[0] <= c <= v[1] for v, c in zip(var, u))
        E.ensure('lift', L.contains(tuple(u)) == (want and inbox), (x, var, u))
    E.ensure('unchanged', snapshot(R) == snap)
    box = polyx.box_rows([(-2, 2)] * d)
    hps = polyx.rand_rows(rng, d, rng.randint(1, 4), 2)
    b0, h0 = [list(r) for r in box], [list(r) for r in hps]
    U = Region.from_union_of_halfplanes(hps, box)
    for x in points(rng, d, hps + box, 8):
        E.ensure('from_union_of_halfplanes', U.contains(x) == (all(polyx.at(r, x) >= 0 for r in box) and any(polyx.at(r, x) >= 0 for r in hps)), (x,))
    E.ensure('arguments unchanged', box == b0 and hps == h0)


def check_projection(E):
    """projections of nested regions of bounded polytopes"""
    import polyx
    from p10 import points
    from p11 import small_poly, clipped
    rng = E.rng
    d = E.count('d', 2, 3)
    E.int('seed', 0, 10 ** 9)
    R = rand_region(rng, d, 2, KINDS, lambda: small_poly(rng, d))
    dims = set(rng.sample(range(d), rng.randint(1, d - 1)))
    snap = snapshot(R)
    P = R.project(set(dims))
    E.ensure('unchanged', snapshot(R) == snap)
    leaves = []

    def walk(r):
        if isinstance(r.child, list):
            for c in r.child:
                walk(c)
        else:
            leaves.append(r.child)
    walk(R)
    pts = [v for p in leaves for v in clipped(p)[1]]
    pts += [polyx.center(clipped(p)) for p in leaves if clipped(p)[1]]
    for x in pts + points(rng, d, polyx.region_rows(R), 8):
        if polyx.region_member(R, x):
            E.ensure('contains the projected points', P is not None and P.contains(tuple(x[i] for i in sorted(dims))), (x, dims))
    # unions only: exactly the projections
    U = Region(rng.choice([Region_Type.UNION, Region_Type.DISJOINT_UNION]), [Region.from_polytope(p) for p in leaves])
    Q = U.project(set(dims))
    cells = [clipped(p)[1] for p in leaves]
    cells = [[tuple(v[i] for i in sorted(dims)) for v in c] for c in cells if c]
    if Q is None:
        E.ensure('nothing to project', not cells)
        return
    k = len(dims)
    for _ in range(6):
        y = tuple(F(rng.randint(-9, 9), rng.choice([1, 2, 3])) for _ in range(k))
        if k == 1:
            E.ensure('projection of a union', Q.contains(y) == any(min(c)[0] <= y[0] <= max(c)[0] for c in cells), (y,))
        else:
            E.ensure('projection of a union', Q.contains(y) == any(in_hull(y, c) for c in cells), (y,))


def in_hull(y, pts):
    """membership in a planar convex hull, by separating directions"""
    for a in pts:
        for b in pts:
            if a != b:
                n = (b[1] - a[1], a[0] - b[0])
                s = [n[0] * (p[0] - a[0]) + n[1] * (p[1] - a[1]) for p in pts]
                v = n[0] * (y[0] - a[0]) + n[1] * (y[1] - a[1])
                if all(t <= 0 for t in s) and v > 0:
                    return False
    lo = [min(p[i] for p in pts) for i in (0, 1)]
    hi = [max(p[i] for p in pts) for i in (0, 1)]
    return all(lo[i] <= y[i] <= hi[i] for i in (0, 1))


def check_inclusion(E):
    """is_subset_of against the arrangement of all facets"""
    import polyx
    from p11 import small_poly, clipped
    rng = E.rng
    d = E.choice('d', [1, 2, 2])
    E.int('seed', 0, 10 ** 9)

    def union(n):
        return Region(rng.choice([Region_Type.UNION, Region_Type.DISJOINT_UNION]), [Region.from_polytope(small_poly(rng, d)) for _ in range(n)])
    A = union(rng.choice([1, 2, 2, 3])) if rng.random() < 0.5 else Region.from_polytope(small_poly(rng, d))
    k = rng.random()
    if k < 0.2:
        B = small_poly(rng, d)
        RB = Region.from_polytope(B)
    elif k < 0.4:
        B = RB = Region.from_polytope(small_poly(rng, d))
    elif k < 0.8:
        B = RB = union(rng.choice([1, 2, 3, 3, 5]))
    else:
        B = RB = Region.intersect([union(2) if rng.random() < 0.5 else Region.from_polytope(small_poly(rng, d)) for _ in range(rng.choice([1, 2, 3, 3, 4]))])
    planes = polyx.region_rows(A) + polyx.region_rows(RB)
    if len({tuple(r) for r in planes}) > 22:
        return
    sa, sb = snapshot(A), snapshot(RB)
    got = A.is_subset_of(B)
    ok = True
    for c in polyx.arrangement([(-4, 5)] * d, planes):
        x = polyx.center(c)
        if polyx.region_member(A, x) and not polyx.region_member(RB, x):
            ok = False
    if got:
        E.ensure('True only for inclusion up to boundaries', ok)
    elif ok:
        # only lower dimensional parts may be outside
        leaves = [A.child] if not isinstance(A.child, list) else [c.child for c in A.child]
        out = [v for p in leaves for v in clipped(p)[1] if not polyx.region_member(RB, v)]
        E.ensure('False only when some point is outside', bool(out))
    E.ensure('unchanged', snapshot(A) == sa and snapshot(RB) == sb)
