"""P01: Interval operations are exact set algebra."""
from fractions import Fraction as F
from functions import Interval

OPTS = {'*': {'time': 60},
        'assumptions': ["Interval.parse is covered for concrete texts only (bounded): the interpreter does not model string slicing of symbolic text"]}


def inside(i, x):
    """The set an interval denotes."""
    lo = x > i.x0 or (i.include_lower and x == i.x0)
    hi = x < i.x1 or (i.include_upper and x == i.x1)
    return lo and hi


def mk(E, n):
    a = E.real(n + '0')
    b = E.real(n + '1')
    E.assume(a <= b)
    return Interval(a, b, E.bool(n + 'l'), E.bool(n + 'u'))


def fields(i):
    return (i.x0, i.x1, i.include_lower, i.include_upper)


def prove_constructor(E):
    """Interval(x0, x1, l, u) stores its arguments, rejects x0 > x1"""
    a, b = E.real('a'), E.real('b')
    l, u = E.bool('l'), E.bool('u')
    try:
        i = Interval(a, b, l, u)
    except ValueError:
        E.ensure('ValueError only when x0 > x1', a > b)
        return
    E.ensure('x0 > x1 is rejected', a <= b)
    E.ensure('fields', i.x0 == a and i.x1 == b and i.include_lower == l and i.include_upper == u)


def prove_defaults(E):
    """default brackets are [x0, x1)"""
    a, b = E.real('a'), E.real('b')
    E.assume(a <= b)
    i = Interval(a, b)
    E.ensure('default brackets', i.include_lower is True and i.include_upper is False)
    x = E.real('x')
    E.ensure('contains', i.contains(x) == (a <= x and x < b))


def prove_contains(E):
    """contains(x) iff x is in the denoted set; operand unchanged"""
    i = mk(E, 'i')
    x = E.real('x')
    f = fields(i)
    E.ensure('contains is membership', bool(i.contains(x)) == inside(i, x))
    E.ensure('operand unchanged', fields(i) == f)


def prove_is_empty(E):
    """is_empty iff no point is contained (witness: an end point or the midpoint)"""
    i = mk(E, 'i')
    x = E.real('x', near=[i.x0, i.x1])
    f = fields(i)
    e = bool(i.is_empty())
    if e:
        E.ensure('an empty interval contains no point', not i.contains(x))
    else:
        E.ensure('a nonempty interval contains its midpoint', i.contains((i.x0 + i.x1) / 2))
    E.ensure('operand unchanged', fields(i) == f)


def prove_intersect(E):
    """x in a.intersect(b) iff x in a and x in b"""
    a, b = mk(E, 'a'), mk(E, 'b')
    x = E.real('x')
    fa, fb = fields(a), fields(b)
    c = a.intersect(b)
    E.ensure('intersection of the two sets', inside(c, x) == (inside(a, x) and inside(b, x)))
    E.ensure('contains agrees', bool(c.contains(x)) == (inside(a, x) and inside(b, x)))
    E.ensure('operands unchanged', fields(a) == fa and fields(b) == fb)


def prove_intersect_empty(E):
    """the intersection is an empty interval when the sets are disjoint"""
    a, b = mk(E, 'a'), mk(E, 'b')
    c = a.intersect(b)
    if not c.is_empty():
        m = (c.x0 + c.x1) / 2
        E.ensure('a nonempty intersection has a common point', inside(a, m) and inside(b, m))
    else:
        x = E.real('x')
        E.ensure('an empty intersection means disjoint sets', not (inside(a, x) and inside(b, x)))


def prove_eq_sound(E):
    """a == b implies the same points"""
    a, b = mk(E, 'a'), mk(E, 'b')
    x = E.real('x')
    fa, fb = fields(a), fields(b)
    if a == b:
        E.ensure('equal intervals have the same points', inside(a, x) == inside(b, x))
    E.ensure('operands unchanged', fields(a) == fa and fields(b) == fb)


def prove_eq_complete(E):
    """a != b implies a separating point exists (one of finitely many candidates)"""
    a, b = mk(E, 'a'), mk(E, 'b')
    if not (a == b):
        pts = [a.x0, a.x1, b.x0, b.x1]
        c = pts + [(p + q) / 2 for p in pts for q in pts]
        E.ensure('different intervals are separated by a point', any(inside(a, x) != inside(b, x) for x in c))


def prove_measure(E):
    """length and midpoint"""
    i = mk(E, 'i')
    E.ensure('length', i.length() == i.x1 - i.x0)
    E.ensure('midpoint', i.midpoint() == (i.x0 + i.x1) / 2)


def prove_deep_copy(E):
    """deep_copy is an equal, separate interval"""
    i = mk(E, 'i')
    j = i.deep_copy()
    E.ensure('equal', i == j and fields(i) == fields(j))
    E.ensure('separate object', j is not i)


def check_parse(E):
    """Interval.parse / Interval(str) / repr round trip on concrete texts"""
    i = mk(E, 'i')
    lb = '[' if i.include_lower else '('
    ub = ']' if i.include_upper else ')'
    sp = E.choice('sp', ['', ' ', '  '])
    sq = E.choice('sq', ['', ' ', '  '])
    t = lb + sp + str(i.x0) + sq + ',' + sp + str(i.x1) + sq + ub
    E.ensure('parse', fields(Interval.parse(t)) == fields(i), t)
    E.ensure('Interval(str)', fields(Interval(t)) == fields(i), t)
    E.ensure('parse of repr', fields(Interval.parse(repr(i))) == fields(i), repr(i))
    E.ensure('Interval of repr', Interval(repr(i)) == i, repr(i))
    if i.x0 < i.x1:
        t = lb + str(i.x1) + ',' + str(i.x0) + ub
        try:
            Interval(t)
            bad = True
        except ValueError:
            bad = False
        E.ensure('reversed end points in a text are rejected', not bad, t)
