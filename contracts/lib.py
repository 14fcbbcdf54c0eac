"""Helpers shared by the contracts (plain Python, interpreted and run natively)."""
from fractions import Fraction as F
from functions import Interval, Affine
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference


def inside(i, x):
    """The set an interval denotes."""
    lo = x > i.x0 or (i.include_lower and x == i.x0)
    hi = x < i.x1 or (i.include_upper and x == i.x1)
    return lo and hi


def interval(E, n):
    a = E.real(n + '0')
    b = E.real(n + '1')
    E.assume(a <= b)
    return Interval(a, b, E.bool(n + 'l'), E.bool(n + 'u'))


def affine(E, n, label=None):
    return Affine(E.real(n + 'm'), E.real(n + 'c'), interval(E, n), label)


def iv_fields(i):
    return (i.x0, i.x1, i.include_lower, i.include_upper)


def aff_fields(a):
    return (a.m, a.c, a.label, a.domain.x0, a.domain.x1, a.domain.include_lower, a.domain.include_upper)


def value(a, x):
    return a.m * x + a.c


def hyp(name, htype, data, year=2000):
    return Hypothesis(name, htype, data, 'proof', Reference.make('Author', year))


def crit_points(pieces, extra=()):
    """Concrete points that decide a piecewise affine identity: all end points, crossings and points between."""
    xs = set(extra)
    for p in pieces:
        xs.add(p.domain.x0)
        xs.add(p.domain.x1)
    for p in pieces:
        for q in pieces:
            if p.m != q.m:
                xs.add(F(q.c - p.c) / (p.m - q.m))
    xs = sorted(xs)
    if not xs:
        return [F(0)]
    out = [xs[0] - 1, xs[-1] + 1]
    for a, b in zip(xs, xs[1:]):
        out.append((a + b) * F(1, 2))
    return xs + out
