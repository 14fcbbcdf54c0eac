"""P11: Polytope emptiness, inclusion, difference and union decisions are exact."""
import copy
from fractions import Fraction as F
from polytope import Polytope
from p10 import row, point, at, sat, sat_eq, mem, bpoly, poly

OPTS = {'*': {'time': 170, 'n': 150, 'max_paths': 60000},
        'check_decisions': {'n': 600, 'tl': 25}, 'check_unbounded': {'n': 500, 'tl': 20}, 'check_union': {'n': 600, 'tl': 25}, 'check_union_flat': {'n': 500, 'tl': 20},
        'assumptions': ["symbolic runs use linear programming through its contract (pyvc/models/vp_cdd.py): a solved program is infeasible, unbounded or returns a feasible optimum"]}


def strict(q, x):
    return all(at(r, x) > 0 for r in q[1]) and len(q[2]) == 0


def generic(q, x):
    return all(at(r, x) != 0 for r in q[1]) and all(at(r, x) != 0 for r in q[2])


def margin(E, qs, x):
    """register x and a positive margin below all positive |slacks|"""
    if not E.symbolic:
        return
    e = E.fresh_real('e')
    E.assume(0 < e and e <= 1)
    for q in qs:
        for r in q[1] + q[2]:
            v = at(r, x)
            E.assume(v == 0 or (e <= v if v > 0 else e <= -v))
    E.ghost(*x)
    E.ghost(*(x + (e,)))


def bounded_is_empty(E):
    """is_empty with boundary: no point at all (bounded: up to 3 constraints)"""
    d = E.count('d', 1, 2)
    q = bpoly(E, 'p', d, 3)
    x = point(E, 'x', d)
    E.ghost(*x)
    r = q[0].is_empty(include_boundary=True)
    if r:
        E.ensure('empty: no point belongs', not mem(q, x))
    elif E.symbolic:
        E.ensure('non-empty: a point belongs', any(mem(q, w) for w in E.witnesses()))
    E.ensure('cached answer', q[0].is_empty(include_boundary=True) == r)
    E.ensure('unchanged', q[0].contains(x) == mem(q, x))


def bounded_no_interior(E):
    """is_empty without boundary: no interior point (bounded: up to 3 constraints)"""
    d = E.count('d', 1, 2)
    q = bpoly(E, 'p', d, 3)
    x = point(E, 'x', d)
    if E.choice('w', [0, 1]) == 0:
        E.assume(strict(q, x))
        margin(E, [q], x)
        E.ensure('no interior: no interior point', not q[0].is_empty(include_boundary=False))
    elif not q[0].is_empty(include_boundary=False) and E.symbolic:
        E.ensure('interior: an interior point', any(strict(q, w[:d]) for w in E.witnesses() if len(w) == d + 1))


def bounded_is_subset_of(E):
    """A is a subset of B (bounded: 1 or 2 constraints)"""
    d = E.count('d', 1, 2)
    a = bpoly(E, 'p', d, 1 if d == 2 else 2)
    b = bpoly(E, 'r', d, 1)
    x = point(E, 'x', d)
    E.ghost(*x)
    if a[0].is_subset_of(b[0]):
        E.ensure('subset: every point of A is in B', (not mem(a, x)) or mem(b, x))
    elif E.symbolic:
        E.ensure('not a subset: some point of A is not in B', any(mem(a, w) and not mem(b, w) for w in E.witnesses()))
    E.ensure('unchanged', a[0].contains(x) == mem(a, x) and b[0].contains(x) == mem(b, x))


def bounded_eq(E):
    """equality is equality of point sets (bounded: one constraint each)"""
    d = E.count('d', 1, 2)
    a = bpoly(E, 'p', d, 1)
    b = bpoly(E, 'r', d, 1)
    x = point(E, 'x', d)
    E.ghost(*x)
    if a[0] == b[0]:
        E.ensure('equal: same points', mem(a, x) == mem(b, x))
    elif E.symbolic:
        E.ensure('different: some point distinguishes', any(mem(a, w) != mem(b, w) for w in E.witnesses()))


def stored(p):
    """(p, inequalities, equalities) of a polytope object"""
    return (p, [p.mat[i] for i in range(p.mat.row_size) if i not in p.mat.lin_set],
            [p.mat[i] for i in range(p.mat.row_size) if i in p.mat.lin_set])


def bounded_covered_step(E):
    """induction step of is_covered_by: a first polytope and any further ones, whose union is an arbitrary set (bounded: one constraint each)"""
    if not E.symbolic:
        return
    d = E.count('d', 1, 2)
    a = bpoly(E, 'p', d, 1)
    q = bpoly(E, 'r', d, 1)
    rest = Polytope([[F(1)] + [F(0)] * d])
    x = point(E, 'x', d)
    found = []

    def in_rest(y):
        return E.upred('rest', *y)

    def decide(p, outside):
        """the contract of both callees: whether p has an interior point with a property"""
        s = stored(p)
        if E.fresh_bool('none'):
            E.assume(not (strict(s, x) and outside(x)))
            return True
        w = tuple(E.fresh_real('w') for i in range(d))
        E.assume(strict(s, w) and outside(w))
        found.append(w)
        return False

    E.stub('polytope.Polytope.is_empty', lambda self, include_boundary=True: decide(self, lambda y: True))

    def rec(self, polys):
        E.ensure('recursion on the remaining polytopes', len(polys) == 1 and polys[0] is rest)
        return decide(self, lambda y: not in_rest(y))
    E.stub('polytope.Polytope.is_covered_by', rec, True)
    r = a[0].is_covered_by([q[0], rest])
    if r:
        E.ensure('covered: no interior point outside', not (strict(a, x) and not mem(q, x) and not in_rest(x)))
    else:
        E.ensure('not covered: an interior point outside', any(strict(a, w) and not mem(q, w) and not in_rest(w) for w in found))


def bounded_covered_last(E):
    """is_covered_by with no polytope left: called only for polytopes with an interior"""
    d = E.count('d', 1, 2)
    a = bpoly(E, 'p', d, 1)
    E.ensure('nothing covers it', not a[0].is_covered_by([]))
    ok = False
    try:
        a[0].is_covered_by(a[0])
    except ValueError:
        ok = True
    E.ensure('not a list', ok)


def bounded_set_minus(E):
    """A minus B: disjoint parts covering exactly the rest, at every point off the hyperplanes (bounded: one constraint of A, two of B)"""
    d = E.count('d', 1, 2)
    a = bpoly(E, 'p', d, 1)
    b = bpoly(E, 'r', d, 2)
    x = point(E, 'x', d)
    E.assume(generic(a, x) and generic(b, x))
    margin(E, [a, b], x)
    parts = a[0].set_minus(b[0], simplify=E.bool('simplify'))
    n = sum(1 if p.contains(x) else 0 for p in parts)
    E.ensure('one part exactly at the points of A outside B', n == (1 if mem(a, x) and not mem(b, x) and len(a[2]) == 0 else 0) or (len(a[2]) > 0 and not mem(a, x)))
    E.ensure('operands unchanged', a[0].contains(x) == mem(a, x) and b[0].contains(x) == mem(b, x))


# ------------------------------------------------------------------------------- concrete runs with cdd
def clipped(p, B=6):
    import polyx
    ine, eq = polyx.rows_of(p)
    d = p.dimension()
    return polyx.clip_all(polyx.box_cell([(-B, B)] * d), ine, eq)


def small_poly(rng, d, kind=None):
    """bounded polytopes that often touch, overlap or share facets"""
    import polyx
    k = rng.random() if kind is None else kind
    lims = []
    for _ in range(d):
        lo = F(rng.randint(-2, 1))
        lims.append((lo, lo + F(rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < 0.3 else rng.choice([1, 2, 3]))))
    rows = polyx.box_rows(lims)
    if k < 0.35:
        pass
    elif k < 0.8:
        rows = rows + polyx.rand_rows(rng, d, rng.randint(1, 2), 2)
    else:
        rows = rows + [[F(rng.randint(-1, 1))] + [F(rng.choice([-1, 0, 1])) for _ in range(d)]]
    p = Polytope(rows, canonicalize=rng.random() < 0.5)
    if rng.random() < 0.08:
        p = Polytope.intersection([p, Polytope(polyx.rand_rows(rng, d, 1, 1), linear=True)], canonicalize=rng.random() < 0.5)
    return p


def check_decisions(E):
    """emptiness, inclusion, equality, cover, difference of bounded and unbounded polytopes against an exact oracle"""
    import polyx
    rng = E.rng
    d = E.choice('dim', [1, 2, 2, 2, 3, 3])
    E.int('seed', 0, 10 ** 9)
    A = small_poly(rng, d)
    Bs = [small_poly(rng, d) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.15:
        Bs[0] = A.intersect(small_poly(rng, d))
    rows = {id(p): polyx.rows_of(p) for p in [A] + Bs}
    ca, cbs = clipped(A), [clipped(b) for b in Bs]
    E.ensure('is_empty', A.is_empty(include_boundary=True) == (not ca[1]))
    E.ensure('is_empty without boundary', A.is_empty(include_boundary=False) == (not polyx.full_dim(ca)))
    E.ensure('is_empty repeated', A.is_empty(include_boundary=True) == (not ca[1]) and A.is_empty(include_boundary=False) == (not polyx.full_dim(ca)))
    for b, cb in zip(Bs, cbs):
        sub = all(polyx.member(*rows[id(b)], v) for v in ca[1])
        sup = all(polyx.member(*rows[id(A)], v) for v in cb[1])
        E.ensure('is_subset_of', A.is_subset_of(b) == sub)
        E.ensure('is_subset_of, other way', b.is_subset_of(A) == sup)
        E.ensure('equality', (A == b) == (sub and sup))
    planes = [r for p in [A] + Bs for k in rows[id(p)] for r in k]
    cells = polyx.arrangement([(-4, 5)] * d, planes) if len(planes) <= (24 if d < 3 else 14) else None
    if cells is None:
        return
    cs = [polyx.center(c) for c in cells]
    inA = [polyx.member(*rows[id(A)], x) for x in cs]
    inB = [[polyx.member(*rows[id(b)], x) for x in cs] for b in Bs]
    E.ensure('is_covered_by', A.is_covered_by(list(Bs)) == all(any(k[i] for k in inB) for i in range(len(cs)) if inA[i]))
    b = Bs[0]
    for simp in (True, False):
        parts = A.set_minus(b, simplify=simp)
        if polyx.rows_of(A)[1]:
            continue
        for i, x in enumerate(cs):
            n = sum(p.contains(x) for p in parts)
            E.ensure('set_minus: disjoint parts covering the rest', n == int(inA[i] and not inB[0][i]), (x, n))
        if simp:
            E.ensure('set_minus: no part without interior', all(not p.is_empty(include_boundary=False) for p in parts))
    for p in [A] + Bs:
        E.ensure('operands unchanged', polyx.rows_of(p) == rows[id(p)])


def check_unbounded(E):
    """the same decisions for unbounded polytopes (half planes, wedges, strips)"""
    import polyx
    rng = E.rng
    d = E.count('dim', 1, 2)
    E.int('seed', 0, 10 ** 9)
    ra = polyx.rand_rows(rng, d, rng.randint(1, 3), 2)
    rb = polyx.rand_rows(rng, d, rng.randint(1, 2), 2)
    if rng.random() < 0.3:
        rb[0] = [ra[0][0] + rng.randint(-1, 1)] + ra[0][1:]
    A, B = Polytope(ra), Polytope(rb)
    # vertices of the arrangement have coordinates below 100; far away points decide unbounded behaviour
    big = F(10 ** 6)
    ca = polyx.clip_all(polyx.box_cell([(-big, big)] * d), ra)
    cells = polyx.arrangement([(-big, big)] * d, ra + rb)
    cs = [polyx.center(c) for c in cells]
    inA = [polyx.member(ra, [], x) for x in cs]
    inB = [polyx.member(rb, [], x) for x in cs]
    E.ensure('is_empty', A.is_empty(True) == (not ca[1]))
    E.ensure('is_empty without boundary', A.is_empty(False) == (not any(inA)))
    sub = all(polyx.member(rb, [], v) for v in ca[1])
    E.ensure('is_subset_of', A.is_subset_of(B) == sub)
    E.ensure('is_covered_by', A.is_covered_by([B]) == all(b for a, b in zip(inA, inB) if a))
    parts = A.set_minus(B)
    for x, a, b in zip(cs, inA, inB):
        E.ensure('set_minus', sum(p.contains(x) for p in parts) == int(a and not b), (x,))


def check_union(E):
    """try_union: the union when it is convex, None otherwise (bounded polytopes)"""
    import polyx
    rng = E.rng
    d = E.choice('dim', [1, 2, 2, 2, 3])
    E.int('seed', 0, 10 ** 9)
    k = rng.random()
    if k < 0.4:
        # cut one polytope: the union is convex
        P = small_poly(rng, d)
        if P.is_empty(False):
            return
        h = polyx.rand_rows(rng, d, 1, 2)[0]
        polys = [Polytope(polyx.rows_of(P)[0] + [h]), Polytope(polyx.rows_of(P)[0] + [[-a for a in h]])]
        if rng.random() < 0.4:
            h = polyx.rand_rows(rng, d, 1, 2)[0]
            q = polys.pop()
            polys += [Polytope(polyx.rows_of(q)[0] + [h]), Polytope(polyx.rows_of(q)[0] + [[-a for a in h]])]
    else:
        polys = [small_poly(rng, d, rng.choice([0, 0.5])) for _ in range(rng.choice([2, 2, 2, 3]))]
    rng.shuffle(polys)
    if any(p.is_empty(False) for p in polys) or any(p.mat.lin_set for p in polys):
        return
    rows = [polyx.rows_of(p) for p in polys]
    planes = [r for k in rows for r in k[0]]
    if len({tuple(r) for r in planes}) > (20 if d < 3 else 14):
        return
    U = Polytope.try_union(list(polys))
    verts = [v for p in polys for v in clipped(p)[1]]
    # the union is convex exactly when it contains (up to boundaries) the hull of the vertices:
    # the envelope of facets satisfied by all vertices suffices (Bemporad et al.)
    env = [r for k in rows for r in k[0] if all(polyx.at(r, v) >= 0 for v in verts)]
    cells = polyx.arrangement([(-4, 5)] * d, planes)
    cs = [polyx.center(c) for c in cells]
    inU = [any(polyx.member(*k, x) for k in rows) for x in cs]
    convex = all(u == all(polyx.at(r, x) >= 0 for r in env) for u, x in zip(inU, cs))
    E.ensure('returned exactly when the union is convex', (U is not None) == convex)
    if U is not None:
        for x, u in zip(cs, inU):
            E.ensure('same points', U.contains(x) == u, (x,))
        for v in verts:
            E.ensure('contains all vertices', U.contains(v))
    E.ensure('operands unchanged', [polyx.rows_of(p) for p in polys] == rows)


def check_union_flat(E):
    """try_union where some polytopes lie in a hyperplane: whatever is returned is the union up to sets without interior and holds all points"""
    import polyx
    rng = E.rng
    d = E.choice('dim', [2, 2, 2, 3])
    E.int('seed', 0, 10 ** 9)
    plane = [[F(rng.randint(-1, 1))] + [F(rng.choice([-1, 0, 1])) for _ in range(d)]]
    if not any(plane[0][1:]):
        return
    polys = []
    for i in range(2):
        p = small_poly(rng, d, rng.choice([0, 0.5]))
        if i == 0 or rng.random() < 0.5:
            rows = polyx.rows_of(p)
            pl = plane if rng.random() < 0.8 else polyx.rand_rows(rng, d, 1, 1)
            p = Polytope.intersection([p, Polytope(pl, linear=True)], canonicalize=rng.random() < 0.5)
        polys.append(p)
    if rng.random() < 0.4:
        # one inside the other
        polys[rng.randint(0, 1)] = polys[0].intersect(polys[1])
    rng.shuffle(polys)
    if any(p.is_empty(True) for p in polys):
        return
    rows = [polyx.rows_of(p) for p in polys]
    planes = [r for k in rows for r in k[0] + k[1]]
    if len({tuple(r) for r in planes}) > (20 if d < 3 else 14):
        return
    U = Polytope.try_union(list(polys))
    if U is not None:
        verts = [v for p in polys for v in clipped(p)[1]]
        for v in verts:
            E.ensure('contains all vertices', U.contains(v))
        ru = polyx.rows_of(U)
        for c in polyx.arrangement([(-4, 5)] * d, planes + ru[0] + ru[1]):
            x = polyx.center(c)
            E.ensure('same points', U.contains(x) == any(polyx.member(*k, x) for k in rows), (x,))
    E.ensure('operands unchanged', [polyx.rows_of(p) for p in polys] == rows)
