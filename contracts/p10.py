"""P10: Polytope constructions have exact membership semantics."""
import copy
from fractions import Fraction as F
from polytope import Polytope, Constraint, Hyperplane

OPTS = {'*': {'time': 150, 'n': 150, 'max_paths': 60000},
        'check_ops': {'n': 500, 'tl': 25}, 'check_vrep': {'n': 300, 'tl': 20},
        'assumptions': ["symbolic runs use cdd matrices through the model pyvc/models/vp_cdd.py (canonicalize keeps the point set)"]}


def row(E, n, d):
    r = [E.real(n + str(j)) for j in range(d + 1)]
    E.assume(any(c != 0 for c in r))
    return r


def point(E, n, d):
    return tuple(E.real(n + str(j)) for j in range(d))


def at(r, x):
    return r[0] + sum(r[i + 1] * x[i] for i in range(len(x)))


def sat(rows, x):
    return all(at(r, x) >= 0 for r in rows)


def sat_eq(rows, x):
    return all(at(r, x) == 0 for r in rows)


def member(rows, lin, x):
    return sat_eq(rows, x) if lin else sat(rows, x)


def poly(E, n, d, kinds=(0, 1)):
    """a polytope with any number of inequalities, or any number of equalities, and its rows"""
    if E.choice(n + 'kind', kinds) == 0:
        rows = E.seq(n + 'c', lambda i: row(E, n + 'a', d), 1)
        return Polytope(rows), rows, []
    rows = E.seq(n + 'e', lambda i: row(E, n + 'b', d), 1)
    return Polytope(rows, linear=True), [], rows


def bpoly(E, n, d, top=2):
    """a polytope with up to top inequalities and up to top equalities"""
    a = E.count(n + '#i', 0, top)
    b = E.count(n + '#e', 0, top)
    E.assume(1 <= a + b and a + b <= top)
    ineqs = [row(E, n + 'a' + str(i), d) for i in range(a)]
    eqs = [row(E, n + 'b' + str(i), d) for i in range(b)]
    if a == 0:
        return Polytope(eqs, linear=True), ineqs, eqs
    p = Polytope(ineqs)
    if b > 0:
        p = Polytope.intersection([p, Polytope(eqs, linear=True)], canonicalize=False)
    return p, ineqs, eqs


def mem(q, x):
    return sat(q[1], x) and sat_eq(q[2], x)


def prove_contains(E):
    """membership of any point in a polytope with any number of constraints (dimensions 1 to 3)"""
    d = E.count('d', 1, 3)
    q = poly(E, 'p', d)
    x = point(E, 'x', d)
    E.ensure('contains', q[0].contains(x) == mem(q, x))
    E.ensure('dimension', q[0].dimension() == d)


def bounded_contains(E):
    """membership of any point in a polytope with any number of constraints (dimensions 1 to 3) (bounded: up to 3 constraints of mixed kinds)"""
    d = E.count('d', 1, 3)
    q = bpoly(E, 'p', d, 3)
    x = point(E, 'x', d)
    E.ensure('contains', q[0].contains(x) == mem(q, x))
    E.ensure('dimension', q[0].dimension() == d)


def prove_wrong_dimension(E):
    """points of the wrong dimension are rejected"""
    d = E.count('d', 1, 3)
    k = E.count('k', 0, 4)
    p, _, _ = poly(E, 'p', d)
    x = point(E, 'x', k)
    ok = True
    try:
        p.contains(x)
    except ValueError:
        ok = False
    E.ensure('ValueError', ok == (k == d))


def prove_zero_rows(E):
    """rows without coefficients are dropped"""
    d = E.count('d', 1, 2)
    rows = [row(E, 'a', d), [0] * (d + 1), row(E, 'b', d), [F(0)] * (d + 1)]
    lin = E.bool('lin')
    p = Polytope(rows, linear=lin)
    x = point(E, 'x', d)
    E.ensure('contains', p.contains(x) == member(rows, lin, x))


def prove_intersect(E):
    """A intersect B for any number of constraints of both (dimension 1)"""
    d = 1
    a = poly(E, 'p', d)
    b = poly(E, 'r', d)
    x = point(E, 'x', d)
    c = a[0].intersect(b[0])
    E.ensure('members', c.contains(x) == (mem(a, x) and mem(b, x)))
    E.ensure('operands unchanged', a[0].contains(x) == mem(a, x) and b[0].contains(x) == mem(b, x))


def bounded_intersect(E):
    """A intersect B for any number of constraints of both (dimensions 1 and 2) (bounded: up to 2 constraints of mixed kinds)"""
    d = E.count('d', 1, 2)
    a = bpoly(E, 'p', d)
    b = bpoly(E, 'r', d)
    x = point(E, 'x', d)
    c = a[0].intersect(b[0])
    E.ensure('members', c.contains(x) == (mem(a, x) and mem(b, x)))
    E.ensure('operands unchanged', a[0].contains(x) == mem(a, x) and b[0].contains(x) == mem(b, x))


def bounded_intersection(E):
    """intersection of up to three polytopes (bounded: one constraint each, in the plane)"""
    n = E.count('n', 1, 3)
    ps = [bpoly(E, 'p' + str(i), 2, 1) for i in range(n)]
    x = point(E, 'x', 2)
    c = Polytope.intersection([p[0] for p in ps], E.bool('canon'))
    E.ensure('members', c.contains(x) == all(mem(p, x) for p in ps))
    E.ensure('operands unchanged', all(p[0].contains(x) == mem(p, x) for p in ps))


def prove_copy(E):
    """a copy has the same points and is independent"""
    d = E.count('d', 1, 2)
    a = poly(E, 'p', d)
    x = point(E, 'x', d)
    c = copy.copy(a[0])
    E.ensure('same', c.contains(x) == mem(a, x))
    r = row(E, 'z', d)
    c.mat.extend([r])
    E.ensure('independent', a[0].contains(x) == mem(a, x))


def bounded_copy(E):
    """a copy has the same points and is independent (bounded: up to 2 constraints of mixed kinds)"""
    d = E.count('d', 1, 2)
    a = bpoly(E, 'p', d)
    x = point(E, 'x', d)
    c = copy.copy(a[0])
    E.ensure('same', c.contains(x) == mem(a, x))
    r = row(E, 'z', d)
    c.mat.extend([r])
    E.ensure('independent', a[0].contains(x) == mem(a, x))


def prove_canonicalize(E):
    """canonicalize keeps the points"""
    d = E.count('d', 1, 2)
    a = poly(E, 'p', d)
    x = point(E, 'x', d)
    a[0].canonicalize()
    E.ensure('same', a[0].contains(x) == mem(a, x))
    rows = E.seq('k', lambda i: row(E, 'k', d), 1)
    E.ensure('constructor', Polytope(rows, canonicalize=True).contains(x) == sat(rows, x))


def prove_scale_all(E):
    """x is in the scaled polytope iff x divided by the factors is in the polytope (dimension 1, any number of constraints)"""
    d = 1
    a = poly(E, 'p', d)
    x = point(E, 'x', d)
    f = [E.real('f' + str(i)) for i in range(d)]
    E.assume(all(v != 0 for v in f))
    c = a[0].scale_all(f)
    E.ensure('members', c.contains(x) == mem(a, tuple(x[i] / f[i] for i in range(d))))
    E.ensure('operand unchanged', a[0].contains(x) == mem(a, x))


def bounded_scale_all(E):
    """x is in the scaled polytope iff x divided by the factors is in the polytope (bounded: up to 2 constraints of mixed kinds, one in dimension 3)"""
    d = E.count('d', 1, 3)
    a = bpoly(E, 'p', d, 2 if d < 3 else 1)
    x = point(E, 'x', d)
    f = [E.real('f' + str(i)) for i in range(d)]
    E.assume(all(v != 0 for v in f))
    c = a[0].scale_all(f)
    E.ensure('members', c.contains(x) == mem(a, tuple(x[i] / f[i] for i in range(d))))
    E.ensure('operand unchanged', a[0].contains(x) == mem(a, x))


def bounded_scale(E):
    """scaling one dimension, with additional constraints (bounded: up to 2 constraints)"""
    d = E.count('d', 1, 2)
    k = E.count('i', 1, 2)
    E.assume(k <= d)
    a = bpoly(E, 'p', d)
    x = point(E, 'x', d)
    f = E.real('f')
    E.assume(f != 0)
    extra = [row(E, 'z' + str(i), d) for i in range(E.count('extra', 0, 1))]
    c = a[0].scale(k, f, extra)
    y = tuple(x[i] / f if i == k - 1 else x[i] for i in range(d))
    E.ensure('members', c.contains(x) == (mem(a, y) and sat(extra, x)))
    E.ensure('operand unchanged', a[0].contains(x) == mem(a, x))


def prove_lift(E):
    """the product with the given limits, for any order and choice of coordinates"""
    d = E.count('d', 1, 2)
    if d == 1:
        var = E.choice('var', [[0, 't'], ['t', 0], [0, 't', 't'], ['t', 0, 't']])
    else:
        var = E.choice('var', [[0, 1, 't'], [0, 't', 1], ['t', 1, 0], [1, 0, 't'], [1, 't', 0]])
    a = poly(E, 'p', d)
    lim = [(E.real('l' + str(i)), E.real('u' + str(i))) for i in range(len(var))]
    v = [lim[i] if var[i] == 't' else var[i] for i in range(len(var))]
    x = point(E, 'x', len(var))
    c = a[0].lift(v)
    y = tuple(x[var.index(j)] for j in range(d))
    inbox = all(var[i] != 't' or (lim[i][0] <= x[i] and x[i] <= lim[i][1]) for i in range(len(var)))
    E.ensure('members', c.contains(x) == (mem(a, y) and inbox))
    E.ensure('operand unchanged', a[0].contains(y) == mem(a, y))


def bounded_lift(E):
    """the product with the given limits, for any order and choice of coordinates (bounded: up to 2 constraints of mixed kinds)"""
    d = E.count('d', 1, 2)
    if d == 1:
        var = E.choice('var', [[0, 't'], ['t', 0], [0, 't', 't'], ['t', 0, 't']])
    else:
        var = E.choice('var', [[0, 1, 't'], [0, 't', 1], ['t', 1, 0], [1, 0, 't'], [1, 't', 0]])
    a = bpoly(E, 'p', d)
    lim = [(E.real('l' + str(i)), E.real('u' + str(i))) for i in range(len(var))]
    v = [lim[i] if var[i] == 't' else var[i] for i in range(len(var))]
    x = point(E, 'x', len(var))
    c = a[0].lift(v)
    y = tuple(x[var.index(j)] for j in range(d))
    inbox = all(var[i] != 't' or (lim[i][0] <= x[i] and x[i] <= lim[i][1]) for i in range(len(var)))
    E.ensure('members', c.contains(x) == (mem(a, y) and inbox))
    E.ensure('operand unchanged', a[0].contains(y) == mem(a, y))


def bounded_substitute(E):
    """the section at the given coordinate values (bounded: up to 2 constraints)"""
    d = E.count('d', 2, 3)
    sub = E.choice('sub', [(0,), (1,), (0, 1), (2,), (0, 2)])
    E.assume(max(sub) < d and len(sub) < d)
    k = E.choice('kind', [0, 1, 2])
    n = E.count('n', 1, 2)
    rows = [row(E, 'a' + str(i), d) for i in range(n)]
    if k == 2:
        eqs = rows[n - 1:]
        ineqs = rows[:n - 1]
    else:
        eqs = rows if k == 1 else []
        ineqs = [] if k == 1 else rows
    if len(ineqs) > 0:
        p = Polytope(ineqs)
        if len(eqs) > 0:
            p = Polytope.intersection([p, Polytope(eqs, linear=True)], canonicalize=False)
    else:
        p = Polytope(eqs, linear=True)
    vals = {j: E.real('v' + str(j)) for j in sub}
    x = point(E, 'x', d - len(sub))
    rest = [j for j in range(d) if j not in sub]
    full = tuple(vals[j] if j in sub else x[rest.index(j)] for j in range(d))
    c = p.substitute(vals)
    E.ensure('dimension', c.dimension() == d - len(sub))
    E.ensure('members', c.contains(x) == (sat(ineqs, full) and sat_eq(eqs, full)))
    E.ensure('operand unchanged', p.contains(full) == (sat(ineqs, full) and sat_eq(eqs, full)))


def prove_rect(E):
    """boxes in dimensions 1 to 4"""
    d = E.count('d', 1, 4)
    lims = [(E.real('l' + str(i)), E.real('u' + str(i))) for i in range(d)]
    x = point(E, 'x', d)
    E.ensure('members', Polytope.rect(*lims).contains(x) == all(lims[i][0] <= x[i] and x[i] <= lims[i][1] for i in range(d)))


def prove_constraints(E):
    """get_constraints: satisfied by exactly the points of the polytope"""
    d = E.count('d', 1, 2)
    a = poly(E, 'p', d)
    x = point(E, 'x', d)
    cs = a[0].get_constraints()
    E.ensure('same points', all(c.satisfies(x) for c in cs) == mem(a, x))
    E.ensure('the rows', len(cs) == len(a[1]) + len(a[2]))


def bounded_constraints(E):
    """get_constraints: satisfied by exactly the points of the polytope (bounded: up to 2 constraints of mixed kinds)"""
    d = E.count('d', 1, 2)
    a = bpoly(E, 'p', d)
    x = point(E, 'x', d)
    cs = a[0].get_constraints()
    E.ensure('same points', all(c.satisfies(x) for c in cs) == mem(a, x))
    E.ensure('the rows', len(cs) == len(a[1]) + len(a[2]))


def prove_constraint(E):
    """Constraint.satisfies and Hyperplane.contains"""
    d = E.count('d', 1, 3)
    r = row(E, 'a', d)
    x = point(E, 'x', d)
    k = E.choice('k', [Constraint.GREATER_EQUALS, Constraint.GREATER, Constraint.EQUALS])
    v = at(r, x)
    want = v >= 0 if k == Constraint.GREATER_EQUALS else (v > 0 if k == Constraint.GREATER else v == 0)
    E.ensure('constraint', Constraint(r, k).satisfies(x) == want)
    E.ensure('hyperplane', Hyperplane(r).contains(x) == (v == 0))
    k2 = E.choice('k2', [Constraint.GREATER_EQUALS, Constraint.GREATER, Constraint.EQUALS])
    s = row(E, 'b', d)
    E.ensure('equality', (Constraint(r, k) == Constraint(s, k2)) == (k == k2 and all(r[i] == s[i] for i in range(d + 1))))
    ok = False
    try:
        Constraint(r, k).satisfies(x + (0,))
    except ValueError:
        ok = True
    E.ensure('wrong dimension', ok)


# ------------------------------------------------------------------------------- concrete runs with cdd
def rand_poly(E, d, bounded=False):
    import polyx
    rng = E.rng
    n = rng.randint(1, 4)
    rows = polyx.rand_rows(rng, d, n)
    lin = rng.random() < 0.15
    if bounded:
        box = polyx.box_rows([(-rng.randint(1, 3), rng.randint(1, 3)) for _ in range(d)])
        p = Polytope(box + rows[:2], canonicalize=rng.random() < 0.5)
        return p
    p = Polytope(rows, linear=lin, canonicalize=rng.random() < 0.3)
    if not lin and rng.random() < 0.2:
        p = Polytope.intersection([p, Polytope(polyx.rand_rows(rng, d, 1), linear=True)], canonicalize=rng.random() < 0.5)
    return p


def points(rng, d, planes, k=12):
    """random points and points on the given hyperplanes"""
    import polyx
    out = []
    for _ in range(k):
        x = [F(rng.randint(-9, 9), rng.choice([1, 2, 3, 4])) for _ in range(d)]
        out.append(tuple(x))
        r = rng.choice(planes) if planes else None
        if r is not None and any(r[1:]):
            j = rng.choice([i for i in range(d) if r[i + 1] != 0])
            x[j] -= polyx.at(r, x) / r[j + 1]
            out.append(tuple(x))
    return out


def check_ops(E):
    """all operations on random polytopes against the stored constraints, on and off their facets"""
    import polyx
    rng = E.rng
    d = E.count('d', 1, 4)
    E.int('seed', 0, 10 ** 9)
    A, B = rand_poly(E, d), rand_poly(E, d)
    ra, rb = polyx.rows_of(A), polyx.rows_of(B)
    planes = ra[0] + ra[1] + rb[0] + rb[1]
    E.pool = planes
    f = [F(rng.choice([1, 2, 3, -1, -2]), rng.choice([1, 2, 3])) for _ in range(d)]
    if rng.random() < 0.3:
        f = [rng.choice([1, 2, 3, 7, -3]) for _ in range(d)]
    sub = {i: F(rng.randint(-2, 2), rng.choice([1, 2])) for i in rng.sample(range(d), rng.randint(0, d - 1))}
    dims = list(range(d))
    rng.shuffle(dims)
    var = list(dims)
    for _ in range(rng.randint(1, 2)):
        lo = rng.randint(-2, 1)
        var.insert(rng.randint(0, len(var)), (F(lo), F(lo + rng.randint(0, 3))))
    C = A.intersect(B)
    S = A.scale_all(f)
    T = A.substitute(sub)
    L = A.lift(list(var))
    K = copy.copy(A)
    K.canonicalize()
    keep = [j for j in range(d) if j not in sub]
    extra = polyx.rand_rows(rng, d, rng.randint(0, 2))
    i1 = rng.randint(1, d)
    Z = A.scale(i1, f[0], extra)
    for x in points(rng, d, planes):
        E.ensure('contains', A.contains(x) == polyx.member(*ra, x), (x,))
        E.ensure('intersect', C.contains(x) == (polyx.member(*ra, x) and polyx.member(*rb, x)), (x,))
        y = tuple(a * b for a, b in zip(x, f))
        E.ensure('scale_all', S.contains(y) == polyx.member(*ra, x), (x, f))
        z = tuple(a * f[0] if i == i1 - 1 else a for i, a in enumerate(x))
        E.ensure('scale', Z.contains(z) == (polyx.member(*ra, x) and all(polyx.at(r, z) >= 0 for r in extra)), (x, i1, f[0]))
        E.ensure('canonicalize', K.contains(x) == polyx.member(*ra, x))
        w = tuple(sub.get(j, x[j]) for j in range(d))
        E.ensure('substitute', T.contains(tuple(x[j] for j in keep)) == polyx.member(*ra, w), (x, sub))
        u = [x[v] if isinstance(v, int) else rng.choice([v[0], v[1], v[0] - 1, v[1] + F(1, 2), (v[0] + v[1]) / 2]) for v in var]
        inbox = all(isinstance(v, int) or v[0] <= c <= v[1] for v, c in zip(var, u))
        E.ensure('lift', L.contains(tuple(u)) == (polyx.member(*ra, x) and inbox), (x, var))
    E.ensure('operands unchanged', polyx.rows_of(A) == ra and polyx.rows_of(B) == rb)
    # a section has an interior point exactly when the surviving constraints have one
    ineq, eq = [], []
    for src, dst in ((ra[0], ineq), (ra[1], eq)):
        for r in src:
            n = [r[0] + sum(r[i + 1] * v for i, v in sub.items())] + [r[i + 1] for i in keep]
            if any(n):
                dst.append(n)
    if len(keep) <= 3:
        cell = polyx.clip_all(polyx.box_cell([(-50, 50)] * len(keep)), ineq)
        bx = Polytope.rect(*[(F(-50), F(50))] * len(keep))
        E.ensure('interior of a section', T.intersect(bx).is_empty(include_boundary=False) == (bool(eq) or not polyx.full_dim(cell)), (sub,))
        E.ensure('interior of a section, as returned', eq or polyx.full_dim(cell) == False or not T.is_empty(include_boundary=False), (sub,))


def check_vrep(E):
    """vertices, convex hulls, projections and hyperplane tests of bounded polytopes"""
    import polyx
    rng = E.rng
    d = E.count('d', 2, 3)
    E.int('seed', 0, 10 ** 9)
    verts = [[F(rng.randint(-3, 3), rng.choice([1, 1, 2])) for _ in range(d)] for _ in range(rng.randint(1, d + 3))]
    keepv = [list(v) for v in verts]
    P = Polytope.from_V_rep(verts)
    E.ensure('input list unchanged', verts == keepv)
    ws = []
    for v in verts:
        E.ensure('vertices belong', P.contains(v))
    for _ in range(4):
        w = [F(rng.randint(0, 4)) for _ in verts]
        if sum(w):
            x = tuple(sum(a * v[j] for a, v in zip(w, verts)) / sum(w) for j in range(d))
            E.ensure('convex combinations belong', P.contains(x), (x,))
            ws.append(x)
    ine, eq = polyx.rows_of(P)
    for r in ine + eq:
        E.ensure('every facet touches the hull', all(polyx.at(r, v) >= 0 for v in verts) and any(polyx.at(r, v) == 0 for v in verts) or not any(r[1:]))
    for x in points(rng, d, ine + eq, 6):
        # outside points are separated by a stored row; nothing else to check here
        E.ensure('contains', P.contains(x) == polyx.member(ine, eq, x))
    # exact hull: the polytope clipped from a box must have only the given points as vertices
    cell = polyx.clip_all(polyx.box_cell([(-9, 9)] * d), ine, eq)
    E.ensure('no other extreme points', all(list(v) in keepv for v in cell[1]), (cell[1],))
    got = [list(v) for v in P.get_vertices()]
    verts.append([F(50)] * d)
    E.ensure("the polytope does not share the caller's list", [list(v) for v in P.get_vertices()] == got)
    Q = rand_poly(E, d, True)
    rq = polyx.rows_of(Q)
    qc = polyx.clip_all(polyx.box_cell([(-9, 9)] * d), *rq)
    E.ensure('vertices', sorted(tuple(v) for v in Q.get_vertices()) == sorted(qc[1]))
    if qc[1]:
        E.ensure('centroid', tuple(Q.get_centroid()) == polyx.center(qc))
        dims = set(rng.sample(range(d), rng.randint(1, d - 1)))
        J = Q.project(dims)
        want = {tuple(v[i] for i in sorted(dims)) for v in qc[1]}
        for v in want:
            E.ensure('projection contains the projected points', J.contains(v))
        jc = polyx.clip_all(polyx.box_cell([(-9, 9)] * len(dims)), *polyx.rows_of(J))
        E.ensure('projection has no other extreme points', all(v in want for v in jc[1]), (dims,))
        E.ensure('dimension', J.dimension() == len(dims))
        h = polyx.rand_rows(rng, d, 1)[0]
        vals = [polyx.at(h, v) for v in qc[1]]
        E.ensure('hyperplane cuts the interior', Q.intersects(Hyperplane(h)) == (min(vals) < 0 < max(vals)))
        cs = Q.get_constraints()
        for x in points(rng, d, rq[0], 5):
            E.ensure('get_constraints', all(c.satisfies(x) for c in cs) == polyx.member(*rq, x))
    E.ensure('operand unchanged', polyx.rows_of(Q) == rq)
