"""P22: minima and simplification of multivariate piecewise affine functions."""
import copy
from fractions import Fraction as F
from functions import Affine2, Piecewise
from polytope import Hyperplane, Polytope

OPTS = {'*': {'time': 150, 'n': 100, 'max_paths': 100000},
        'prove_min': {'shards': ('shape', 4)}, 'bounded_min': {'shards': ('shape', 6)}, 'bounded_piecewise': {'shards': ('shape', 6)}, 'bounded_simplify': {'shards': ('shape', 7)},
        'check_min': {'n': 200, 'tl': 25}, 'check_simplify': {'n': 80, 'tl': 25}, 'check_crop_scale': {'n': 200, 'tl': 20}, 'check_at': {'n': 200, 'tl': 10},
        'assumptions': ["symbolic runs use intersect, is_empty, intersects, get_centroid and try_union of polytopes through their contracts (P10, P11), at one arbitrary point off all facets"]}


class Label:
    """a label of an opaque kind"""


def at(a, x):
    return a[0] + sum(a[i + 1] * x[i] for i in range(len(x)))


def same(a, b):
    return all(a[i] == b[i] for i in range(len(a)))


def poly(E, inn, d):
    p = Polytope([[F(1)] + [F(0)] * d])
    p.inn = inn
    return p


def contracts(E, x):
    """Polytope operations by what they tell about the point x"""
    d = len(x)

    def inner(p):
        return p.inn if hasattr(p, 'inn') else p.contains(x)

    def intersection(polys, *a):
        return poly(E, all(inner(p) for p in polys), d)

    def empty(self, *a):
        if E.fresh_bool('empty'):
            E.assume(not inner(self))
            return True
        return False

    def centroid(self):
        if not hasattr(self, 'cent'):
            self.cent = [E.fresh_real('cent') for i in range(d)]
        return self.cent

    def intersects(self, plane):
        if E.fresh_bool('meets'):
            return True
        a = plane.constraint.coefficients
        u, v = at(a, centroid(self)), at(a, x)
        # all of the polytope on one side, and the centroid in its relative interior
        E.assume((not inner(self)) or (u > 0 and v > 0) or (u < 0 and v < 0) or v == 0)
        return False

    def union(polys):
        if E.fresh_bool('convex'):
            return poly(E, any(inner(p) for p in polys), d)
        return None
    E.stub('polytope.Polytope.intersection', intersection)
    E.stub('polytope.Polytope.intersect', lambda self, other: intersection([self, other]))
    E.stub('polytope.Polytope.is_empty', empty)
    E.stub('polytope.Polytope.get_centroid', centroid)
    E.stub('polytope.Polytope.intersects', intersects)
    E.stub('polytope.Polytope.try_union', union)
    E.stub('polytope.Polytope.scale', lambda self, i, factor, extra: scaled(E, self, i, factor, extra, d))
    E.stub('polytope.Polytope.__copy__', lambda self: poly(E, inner(self), d))


def scaled(E, p, i, factor, extra, d):
    q = poly(E, False, d)
    q.made = (p, i, factor, extra)
    return q


def affine(E, n, d, labels=(None, 'A', 'B')):
    return Affine2([E.real(n + str(j)) for j in range(d + 1)], poly(E, E.bool(n + 'in'), d), E.choice(n + 'label', labels))


def judge(E, pieces, fs, gs, x):
    """the minimum over all pairs at the point"""
    for f in fs:
        for g in gs:
            E.assume(same(f.a, g.a) or at(f.a, x) != at(g.a, x))
    E.ensure('pieces at the point', sum(1 if p.domain.inn else 0 for p in pieces) == sum(1 if f.domain.inn and g.domain.inn else 0 for f in fs for g in gs))
    for p in pieces:
        v = at(p.a, x)
        E.ensure('value and label of the smaller function', (not p.domain.inn) or
                 any(f.domain.inn and g.domain.inn and ((v == at(f.a, x) and v <= at(g.a, x) and p.label == f.label)
                                                         or (v == at(g.a, x) and v <= at(f.a, x) and p.label == g.label)) for f in fs for g in gs))


def smaller(p, f, g, x):
    """the piece carries the smaller of two functions, with its label"""
    v = at(p.a, x)
    return (v == at(f.a, x) and v <= at(g.a, x) and p.label == f.label) or (v == at(g.a, x) and v <= at(f.a, x) and p.label == g.label)


def prove_min(E):
    """the minimum with any number of functions at an arbitrary point off all facets"""
    if not E.symbolic:
        return
    d, a, b = E.choice('shape', [(1, 'A', 'B'), (1, 'B', 'A'), (2, None, 'A'), (3, None, None)])
    x = tuple([E.real('x' + str(i)) for i in range(d)])
    contracts(E, x)
    f = affine(E, 'f', d, (a,))

    def other(i):
        g = affine(E, 'g', d, (b,))
        E.assume(same(f.a, g.a) or at(f.a, x) != at(g.a, x))
        return g
    gs = E.seq('g', other)
    out = f.min_with(gs)
    E.ensure('value and label of the smaller function', all((not p.domain.inn) or any(f.domain.inn and g.domain.inn and smaller(p, f, g, x) for g in gs) for p in out))
    E.ensure('every common point is covered', all((not (f.domain.inn and g.domain.inn)) or any(p.domain.inn and smaller(p, f, g, x) for p in out) for g in gs))


def prove_piecewise(E):
    """the minimum of two piecewise functions with any number of pieces (Affine2.min_with by its contract)"""
    if not E.symbolic:
        return
    x = (E.real('x'),)
    contracts(E, x)
    fs = E.seq('f', lambda i: affine(E, 'f', 1, ('A',)))
    gs = E.seq('g', lambda i: affine(E, 'g', 1, ('B',)))
    P, Q = Piecewise(fs), Piecewise(gs)

    def low(self, other):
        out = []
        for g in other:
            h = self if at(self.a, x) < at(g.a, x) else g
            out.append(Affine2(h.a, poly(E, self.domain.inn and g.domain.inn, 1), h.label))
        return out
    E.stub('functions.Affine2.min_with', low)
    R = P.min_with(Q)
    E.ensure('value and label of the smaller function', all((not p.domain.inn) or any(f.domain.inn and g.domain.inn and smaller(p, f, g, x) for f in fs for g in gs) for p in R.pieces))
    E.ensure('every common point is covered', all((not (f.domain.inn and g.domain.inn)) or any(p.domain.inn and smaller(p, f, g, x) for p in R.pieces) for f in fs for g in gs))
    E.ensure('new object', R is not P and R is not Q)


def bounded_min(E):
    """the minimum with up to two functions at an arbitrary point, operands kept (bounded)"""
    if not E.symbolic:
        return
    n, d, labels = E.choice('shape', [(0, 1, (None,)), (1, 1, (None, 'A', 'B')), (1, 2, (None, 'A')), (1, 3, (None,)), (2, 1, (None,)), (2, 2, (None,))])
    x = tuple([E.real('x' + str(i)) for i in range(d)])
    contracts(E, x)
    f = affine(E, 'f', d, labels)
    gs = [affine(E, 'g' + str(i), d, labels) for i in range(n)]
    if n == 2:
        # at most one of them at the point
        E.assume(not (gs[0].domain.inn and gs[1].domain.inn))
    before = [(h, list(h.a), h.domain, h.label) for h in [f] + gs]
    for g in gs:
        E.assume(same(f.a, g.a) or at(f.a, x) != at(g.a, x))
    out = f.min_with(gs)
    judge(E, out, [f], gs, x)
    E.ensure('operands kept', all(h.a == a and h.domain is dom and h.label == l for h, a, dom, l in before))


def bounded_piecewise(E):
    """the minimum of two piecewise functions at an arbitrary point (bounded: up to three pieces each; Affine2.min_with by its contract)"""
    if not E.symbolic:
        return
    m, n = E.choice('shape', [(0, 1), (1, 2), (2, 1), (2, 0), (2, 2), (1, 3)])
    x = (E.real('x'),)
    contracts(E, x)
    fs = [Affine2([E.real('f' + str(i)), F(0)], poly(E, E.bool('fin' + str(i)), 1), 'f' + str(i)) for i in range(m)]
    gs = [Affine2([E.real('g' + str(i)), F(0)], poly(E, E.bool('gin' + str(i)), 1), 'g' + str(i)) for i in range(n)]
    P, Q = Piecewise(list(fs)), Piecewise(list(gs))

    def low(self, other):
        out = []
        for g in other:
            if E.fresh_bool('empty'):
                E.assume(not (self.domain.inn and g.domain.inn))
            elif self.a[0] < g.a[0]:
                out.append(Affine2(list(self.a), poly(E, self.domain.inn and g.domain.inn, 1), self.label))
            else:
                out.append(Affine2(list(g.a), poly(E, self.domain.inn and g.domain.inn, 1), g.label))
        return out
    E.stub('functions.Affine2.min_with', low)
    R = P.min_with(Q)
    E.ensure('pieces at the point', sum(1 if p.domain.inn else 0 for p in R.pieces) == sum(1 if f.domain.inn and g.domain.inn else 0 for f in fs for g in gs))
    for p in R.pieces:
        v = p.a[0]
        E.ensure('value and label of the smaller function', (not p.domain.inn) or
                 any(f.domain.inn and g.domain.inn and ((v == f.a[0] and v <= g.a[0] and p.label == f.label)
                                                         or (v == g.a[0] and v <= f.a[0] and p.label == g.label)) for f in fs for g in gs))
    E.ensure('new object', R is not P and R is not Q and len(P.pieces) == m and len(Q.pieces) == n)


def prove_at(E):
    """Affine2.at and Piecewise.at at any point, any number of pieces"""
    if not E.symbolic:
        return
    d = E.count('d', 1, 3)
    x = tuple([E.real('x' + str(i)) for i in range(d)])
    E.stub('polytope.Polytope.contains', lambda self, pt: self.inn and all(pt[i] == x[i] for i in range(d)))
    ps = E.seq('p', lambda i: affine(E, 'a', d, (None,)))
    v = Piecewise(ps).at(x)
    if v is None:
        E.ensure('outside', all(not p.domain.inn for p in ps))
    else:
        E.ensure('value of a piece', any(p.domain.inn and at(p.a, x) == v for p in ps))
    f = affine(E, 'f', d, (None,))
    E.ensure('value', f.at(x) == at(f.a, x) and f.at(list(x)) == at(f.a, x))
    ok = False
    try:
        f.at(x + (F(1),))
    except ValueError:
        ok = True
    E.ensure('dimension', ok)


def prove_scale(E):
    """scale keeps the expression of every piece and scales its domain, any number of pieces"""
    if not E.symbolic:
        return
    d = E.count('d', 1, 3)
    x = tuple([E.real('x' + str(i)) for i in range(d)])
    contracts(E, x)
    ps = E.seq('p', lambda i: affine(E, 'a', d, (None,)))
    i, k = E.count('i', 1, d), E.real('k')
    E.assume(k > 0)
    extra = [[E.real('e')] * (d + 1)]
    P = Piecewise(ps)
    R = P.scale(i, k, extra)
    n = len(ps)
    E.ensure('pieces', len(R.pieces) == n and R is not P)
    j = E.int('j', 0)
    if j < n:
        q, p = R.pieces[j], ps[j]
        E.ensure('expression', q.a == p.a and q.a is not p.a and q is not p)
        E.ensure('domain', q.domain.made[0] is p.domain and q.domain.made[1] == i and q.domain.made[2] == k and q.domain.made[3] is extra)


def bounded_crop(E):
    """crop restricts every piece to the polytope (bounded: up to three pieces)"""
    if not E.symbolic:
        return
    x = (E.real('x'),)
    contracts(E, x)
    n = E.count('n', 0, 3)
    ps = [affine(E, 'p' + str(i), 1, (None,)) for i in range(n)]
    before = [(list(p.a), p.domain.inn) for p in ps]
    D = poly(E, E.bool('D'), 1)
    P = Piecewise(list(ps))
    simplify = E.choice('simplify', [True, False])
    P.crop(D, simplify=simplify)
    E.ensure('count', len(P.pieces) <= n and (simplify or len(P.pieces) == n))
    E.ensure('points', sum(1 if p.domain.inn else 0 for p in P.pieces) == sum(1 if b and D.inn else 0 for a, b in before))
    for p in P.pieces:
        E.ensure('expression', (not p.domain.inn) or any(b and p.a == a for a, b in before))
    ok = False
    try:
        P.crop([[1, 0]])
    except ValueError:
        ok = True
    E.ensure('rejected', ok)


def bounded_simplify(E):
    """simplify leaves value and label at an arbitrary point (bounded: up to four pieces)"""
    if not E.symbolic:
        return
    x = (E.real('x'),)
    contracts(E, x)
    shape = E.choice('shape', ['', 'A', 'AA', 'AB', 'AAB', 'AAA', 'ABA'])
    g = E.choice('g', [2, 3, 1])
    ps = [affine(E, 'p' + str(i), 1, (shape[i], None) if i == 1 else (shape[i],)) for i in range(len(shape))]
    for i in range(len(ps)):
        for j in range(i):
            E.assume(not (ps[i].domain.inn and ps[j].domain.inn))
    before = [(list(p.a), p.domain.inn, p.label) for p in ps]
    P = Piecewise(list(ps))
    P.simplify(g)
    E.ensure('one piece exactly at the points of the domain', sum(1 if p.domain.inn else 0 for p in P.pieces) == sum(1 if b else 0 for a, b, l in before))
    for p in P.pieces:
        E.ensure('expression and label', (not p.domain.inn) or any(b and p.a == a and p.label == l for a, b, l in before))
    E.ensure('not more pieces', len(P.pieces) <= len(ps))


# ------------------------------------------------------------------------------- concrete runs with cdd
def rand_domain(rng, lims, k):
    """rows of a bounded polytope inside the box"""
    import polyx
    rows = polyx.box_rows(lims)
    for r in polyx.rand_rows(rng, len(lims), k):
        # keep a full dimensional part
        if polyx.full_dim(polyx.clip_all(polyx.box_cell(lims), rows + [r])):
            rows.append(r)
        elif polyx.full_dim(polyx.clip_all(polyx.box_cell(lims), rows + [[-a for a in r]])):
            rows.append([-a for a in r])
    return rows


def rand_lims(rng, d):
    out = []
    for i in range(d):
        lo = F(rng.randint(-2, 1), rng.choice([1, 2]))
        out.append((lo, lo + F(rng.randint(1, 4), rng.choice([1, 2, 3]))))
    return out


def rand_a(rng, d, like=None):
    k = rng.random()
    if like is not None and k < 0.25:
        return list(like)
    if like is not None and k < 0.45:
        return [like[0] + F(rng.choice([1, -1]), rng.choice([1, 3, 10 ** 20]))] + list(like[1:])
    m = rng.choice([1, 3])
    a = [F(rng.randint(-m, m), rng.choice([1, 1, 2, 3])) for _ in range(d + 1)]
    return [int(c) if c == int(c) and rng.random() < 0.5 else c for c in a]


def pieces_of(rng, d, lims, n, like=None):
    """a piecewise function: disjoint cells of a box with functions and labels"""
    import polyx
    cells = polyx.arrangement(lims, polyx.rand_rows(rng, d, rng.randint(0, 2)))
    rng.shuffle(cells)
    out = []
    for c in cells[:n]:
        a = rand_a(rng, d, like if like is not None else (out[-1].a if out else None))
        rows = [list(r) for r in c[0]]
        rng.shuffle(rows)
        out.append(Affine2(a, Polytope(rows), rng.choice([None, 'A', 'B', 'C'])))
    return out


def planes(fs):
    import polyx
    out = []
    for f in fs:
        a, b = polyx.rows_of(f.domain)
        out += a + b
    return out


def value_at(fs, x):
    import polyx
    return [(polyx.at([F(c) for c in f.a], x), f.label) for f in fs if polyx.member(*polyx.rows_of(f.domain), x)]


def snapshot(fs):
    import polyx
    return [(list(f.a), f.domain, polyx.rows_of(f.domain), f.label) for f in fs]


def unchanged(fs, s):
    return len(fs) == len(s) and all(f.a == a and f.domain is d for f, (a, d, r, l) in zip(fs, s)) and snapshot(fs) == s


def check_min(E):
    """minima in up to three dimensions against an exact arrangement"""
    import polyx
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    d = rng.choice([1, 2, 2, 3])
    lims = rand_lims(rng, d)
    f = Affine2(rand_a(rng, d), Polytope(rand_domain(rng, lims, rng.randint(0, 2))), rng.choice([None, 'A', 'B']))
    gs = pieces_of(rng, d, lims if rng.random() < 0.6 else rand_lims(rng, d), rng.randint(0, 3), rng.choice([f.a, None]))
    pw = rng.random() < 0.5
    fs = pieces_of(rng, d, lims, rng.randint(1, 2)) if pw else [f]
    if rng.random() < 0.15 and gs:
        gs.append(gs[0] if rng.random() < 0.5 else fs[0])
    s0, s1 = snapshot(fs), snapshot(gs)
    if pw:
        P, Q = Piecewise(fs), Piecewise(gs)
        R = P.min_with(Q)
        E.ensure('new object', R is not P and R is not Q and P.pieces is fs and Q.pieces is gs)
        out = R.pieces
    else:
        out = f.min_with(gs)
    E.ensure('operands kept', unchanged(fs, s0) and unchanged(gs, s1))
    diffs = [[F(a) - F(b) for a, b in zip(p.a, q.a)] for p in fs for q in gs]
    E.ensure('no empty pieces', all(polyx.full_dim(polyx.clip_all(polyx.box_cell([(-9, 9)] * d), *polyx.rows_of(p.domain))) for p in out))
    for c in polyx.arrangement([(-5, 8)] * d, planes(fs + gs + out) + diffs):
        x = polyx.center(c)
        got = sorted(value_at(out, x), key=str)
        want = []
        for v, l in value_at(fs, x):
            for w, m in value_at(gs, x):
                want.append((min(v, w), {l} if v < w else {m} if w < v else {l, m}))
        E.ensure('pieces', len(got) == len(want), (x, got, want))
        E.ensure('values', sorted(v for v, l in got) == sorted(v for v, l in want), (x, got, want))
        E.ensure('labels', all(any(v == w and l in m for w, m in want) for v, l in got), (x, got, want))


def check_simplify(E):
    """simplify keeps the function"""
    import polyx
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    d = rng.choice([1, 2, 2, 2, 3, 4])
    lims = rand_lims(rng, d)
    cells = polyx.arrangement(lims, polyx.rand_rows(rng, d, rng.randint(1, 3 if d < 3 else 1)))
    rng.shuffle(cells)
    cells = cells[:rng.randint(1, 6)]
    kinds = [(rand_a(rng, d), rng.choice([None, 'A'])) for _ in range(rng.randint(1, 2))]
    if len(kinds) == 2 and rng.random() < 0.4:
        kinds[1] = (list(kinds[0][0]), 'B')
    elif len(kinds) == 2 and rng.random() < 0.6:
        # functions that differ in one coefficient
        b = list(kinds[0][0])
        b[rng.randrange(d + 1)] += rng.choice([1, F(1, 7)])
        kinds[1] = (b, kinds[0][1])
    fs = []
    for c in cells:
        a, l = rng.choice(kinds)
        fs.append(Affine2(list(a), Polytope([list(r) for r in c[0]]), l))
    before = list(fs)
    s0 = snapshot(before)
    P = Piecewise(fs)
    g = rng.choice([2, 3, 3])
    P.simplify(g)
    E.ensure('pieces kept', unchanged(before, s0))
    E.ensure('not more pieces', len(P.pieces) <= len(before))
    for c in polyx.arrangement([(-5, 8)] * d, planes(before + P.pieces)):
        x = polyx.center(c)
        E.ensure('same function', sorted(value_at(P.pieces, x), key=str) == sorted(value_at(before, x), key=str), (x,))


def check_crop_scale(E):
    """crop and scale"""
    import polyx
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    d = rng.choice([1, 2, 3])
    lims = rand_lims(rng, d)
    fs = pieces_of(rng, d, lims, rng.randint(1, 4))
    before = [(list(f.a), polyx.rows_of(f.domain), f.label) for f in fs]
    P = Piecewise(list(fs))
    if rng.random() < 0.5:
        D = rand_domain(rng, lims if rng.random() < 0.5 else rand_lims(rng, d), 2)
        s = rng.random() < 0.7
        P.crop(Polytope(D), simplify=s) if rng.random() < 0.7 else P.crop(Polytope(D), s)
        E.ensure('number of pieces', s or len(P.pieces) == len(fs))
        if s:
            E.ensure('no empty pieces', all(polyx.full_dim(polyx.clip_all(polyx.box_cell([(-9, 9)] * d), *polyx.rows_of(p.domain))) for p in P.pieces))
        pl = [r for a, (i, e), l in before for r in i + e] + planes(P.pieces) + D
        for c in polyx.arrangement([(-5, 8)] * d, pl):
            x = polyx.center(c)
            want = [(polyx.at([F(v) for v in a], x), l) for a, (i, e), l in before if polyx.member(i, e, x) and polyx.member(D, [], x)]
            E.ensure('cropped', sorted(value_at(P.pieces, x), key=str) == sorted(want, key=str), (x,))
    else:
        i, k = rng.randint(1, d), rng.choice([F(2), F(1, 3), 3, F(5, 2)])
        extra = polyx.rand_rows(rng, d, rng.randint(0, 1))
        keep = [list(r) for r in extra]
        s0 = snapshot(fs)
        R = P.scale(i, k, extra) if rng.random() < 0.6 else Piecewise([f.scale(i, k, extra) for f in fs])
        E.ensure('operands kept', unchanged(fs, s0) and P.pieces == fs and extra == keep)
        E.ensure('pieces', len(R.pieces) == len(fs) and all(r.a == f.a and r.a is not f.a for r, f in zip(R.pieces, fs)))
        for f, r in zip(fs, R.pieces):
            for _ in range(15):
                x = [F(rng.randint(-24, 48), 12) for _ in range(d)]
                y = [v * k if j == i - 1 else v for j, v in enumerate(x)]
                E.ensure('scaled domain', r.domain.contains(y) == (polyx.member(*polyx.rows_of(f.domain), x) and polyx.member(keep, [], y)), (x,))


def check_at(E):
    """values inside and outside, copies, intersections"""
    import polyx
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    d = rng.choice([1, 2, 3])
    lims = rand_lims(rng, d)
    fs = pieces_of(rng, d, lims, rng.randint(0, 4))
    P = copy.copy(Piecewise(fs)) if rng.random() < 0.3 else Piecewise(fs)
    for _ in range(20):
        x = [F(rng.randint(-30, 50), rng.choice([7, 12])) for _ in range(d)]
        x = tuple(x) if rng.random() < 0.5 else x
        got, want = P.at(x), value_at(fs, x)
        E.ensure('value', (got is None) == (not want) and (got is None or any(got == v for v, l in want)), (x, got, want))
        for f in fs:
            E.ensure('affine value', f.at(x) == polyx.at([F(c) for c in f.a], x))
    if len(fs) >= 2:
        h = fs[0].intersection(fs[1])
        E.ensure('intersection', isinstance(h, Hyperplane) and list(h.constraint.coefficients) == [a - b for a, b in zip(fs[0].a, fs[1].a)])
