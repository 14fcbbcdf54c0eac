"""Exact polytope geometry that does not use the code under test or cdd (native harnesses only)."""
from fractions import Fraction as F


def at(row, x):
    return row[0] + sum(a * b for a, b in zip(row[1:], x))


def rank(rows):
    rows = [list(map(F, r)) for r in rows]
    rk, col, n = 0, 0, len(rows[0]) if rows else 0
    while rk < len(rows) and col < n:
        piv = next((i for i in range(rk, len(rows)) if rows[i][col] != 0), None)
        if piv is None:
            col += 1
            continue
        rows[rk], rows[piv] = rows[piv], rows[rk]
        for i in range(rk + 1, len(rows)):
            if rows[i][col] != 0:
                f = rows[i][col] / rows[rk][col]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[rk])]
        rk += 1
        col += 1
    return rk


def box_rows(lims):
    d, out = len(lims), []
    for i, (lo, hi) in enumerate(lims):
        out.append([-F(lo)] + [F(int(j == i)) for j in range(d)])
        out.append([F(hi)] + [-F(int(j == i)) for j in range(d)])
    return out


def box_cell(lims):
    verts = [()]
    for lo, hi in lims:
        verts = [v + (F(x),) for v in verts for x in ((lo, hi) if lo != hi else (lo,))]
    return (box_rows(lims), verts)


def clip(cell, row):
    """The part of the cell with row >= 0 (cells are lists of rows >= 0 with all their vertices)."""
    rows, verts = cell
    vals = [at(row, v) for v in verts]
    if all(x >= 0 for x in vals):
        return (rows + [row], verts)
    d = len(row) - 1
    pos = [(v, x) for v, x in zip(verts, vals) if x > 0]
    neg = [(v, x) for v, x in zip(verts, vals) if x < 0]
    new = {v for v, x in zip(verts, vals) if x >= 0}
    allrows = rows + [row]
    for v, x in pos:
        tv = [r for r in rows if at(r, v) == 0]
        for w, y in neg:
            if d > 1 and rank([r[1:] for r in tv if at(r, w) == 0] or [[0] * d]) < d - 1:
                continue
            t = x / (x - y)
            new.add(tuple(a + t * (b - a) for a, b in zip(v, w)))
    return (allrows, sorted(new))


def clip_all(cell, ineqs, eqs=()):
    for r in ineqs:
        cell = clip(cell, r)
    for r in eqs:
        cell = clip(clip(cell, r), [-a for a in r])
    return cell


def full_dim(cell):
    _, v = cell
    d = len(v[0]) if v else 0
    return bool(v) and rank([[a - b for a, b in zip(w, v[0])] for w in v[1:]] or [[0] * d]) == d


def center(cell):
    v = cell[1]
    return tuple(sum(c) / F(len(v)) for c in zip(*v))


def arrangement(lims, planes):
    """The full dimensional cells of the arrangement of hyperplanes in a box."""
    cells = [box_cell(lims)]
    done = []
    for r in planes:
        r = [F(a) for a in r]
        if not any(r[1:]):
            continue
        if any(rank([r, q]) < 2 for q in done):
            continue
        done.append(r)
        out = []
        for c in cells:
            vals = [at(r, v) for v in c[1]]
            if all(x >= 0 for x in vals) or all(x <= 0 for x in vals):
                out.append(c)
            else:
                out.append(clip(c, r))
                out.append(clip(c, [-a for a in r]))
        cells = out
    return cells


def rows_of(p):
    """(inequalities, equalities) stored in a Polytope."""
    m = p.mat
    ineq = [[F(a) for a in m[i]] for i in range(m.row_size) if i not in m.lin_set]
    eq = [[F(a) for a in m[i]] for i in range(m.row_size) if i in m.lin_set]
    return ineq, eq


def member(ineq, eq, x):
    return all(at(r, x) >= 0 for r in ineq) and all(at(r, x) == 0 for r in eq)


def region_rows(reg):
    """All hyperplanes occurring in a Region."""
    c = reg.child
    if isinstance(c, list):
        return [r for k in c for r in region_rows(k)]
    if hasattr(c, 'region_type'):
        return region_rows(c)
    a, b = rows_of(c)
    return a + b


def region_member(reg, x):
    """Membership computed from the stored tree (not through Region.contains)."""
    from region import Region_Type as T
    c = reg.child
    if reg.region_type == T.POLYTOPE:
        return member(*rows_of(c), x)
    if reg.region_type == T.COMPLEMENT:
        return not region_member(c, x)
    if reg.region_type == T.INTERSECT:
        return all(region_member(k, x) for k in c)
    return any(region_member(k, x) for k in c)


def rand_rows(rng, d, n, m=3):
    out = []
    while len(out) < n:
        r = [F(rng.randint(-m, m), rng.choice([1, 1, 1, 2, 3])) for _ in range(d + 1)]
        if any(r[1:]):
            out.append(r)
    return out
