"""Interpreted model of the part of sympy that functions.RationalFunction uses.

An expression in one variable is known by its value at any point (and, where it is a polynomial, by its
coefficients).  Contracts used:
 - +, -, *, / of expressions are pointwise; subs gives the value; equals(0) holds exactly for the zero function;
 - solve and real_roots return all real zeros: between neighbouring ones a continuous expression keeps its sign;
 - diff, is_constant and real_roots of polynomials of degree at most two are exact."""
from fractions import Fraction
from vp import fresh_real, fresh_bool, assume, undecided, certain


def value(o, t):
    return o.f(t) if isinstance(o, Expr) else o


def coefs(o):
    return o.coef if isinstance(o, Expr) else [o]


def padd(a, b, k):
    if a is None or b is None:
        return None
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + k * (b[i] if i < len(b) else 0) for i in range(n)]


def pmul(a, b):
    if a is None or b is None:
        return None
    r = [0 for i in range(len(a) + len(b) - 1)]
    for i in range(len(a)):
        for j in range(len(b)):
            r[i + j] = r[i + j] + a[i] * b[j]
    return r


class World:
    points = []
    zeros = []


def ghost(xs):
    """Register an arbitrary point."""
    World.points = World.points + list(xs)


def learn(e, roots, p, t):
    """no zero from p to t: the same sign at both"""
    a, b = e.f(p), e.f(t)
    between = any((p <= r and r <= t) or (t <= r and r <= p) for r in roots)
    assume(between or (a > 0 and b > 0) or (a < 0 and b < 0))


class Expr:
    def __init__(self, f, coef=None):
        self.f = f
        self.coef = coef

    def __add__(self, o):
        return Expr(lambda t: value(self, t) + value(o, t), padd(coefs(self), coefs(o), 1))

    def __radd__(self, o):
        return Expr(lambda t: value(o, t) + value(self, t), padd(coefs(o), coefs(self), 1))

    def __sub__(self, o):
        return Expr(lambda t: value(self, t) - value(o, t), padd(coefs(self), coefs(o), -1))

    def __rsub__(self, o):
        return Expr(lambda t: value(o, t) - value(self, t), padd(coefs(o), coefs(self), -1))

    def __mul__(self, o):
        if isinstance(o, int) and o == 1:
            return self
        return Expr(lambda t: value(self, t) * value(o, t), pmul(coefs(self), coefs(o)))

    def __rmul__(self, o):
        if isinstance(o, int) and o == 1:
            return self
        return Expr(lambda t: value(o, t) * value(self, t), pmul(coefs(o), coefs(self)))

    def __neg__(self):
        return Expr(lambda t: -value(self, t), pmul([-1], coefs(self)))

    def __truediv__(self, o):
        if isinstance(o, int) and o == 1:
            return self
        return Expr(lambda t: Fraction(1) * value(self, t) / value(o, t), coefs(self) if o == 1 else None)

    def __rtruediv__(self, o):
        return Expr(lambda t: Fraction(1) * value(o, t) / value(self, t), None)

    def __pow__(self, n):
        r = 1
        for i in range(n):
            r = self * r
        return r

    def __eq__(self, o):
        return self is o

    def subs(self, x, t):
        v = self.f(t)
        if len(World.zeros) > 0:
            e, roots = World.zeros[-1]
            for p in World.points:
                learn(e, roots, p, t)
        return v

    def equals(self, c):
        if certain(self.f(fresh_real('t')) == c):
            return True
        b = fresh_bool('same')
        for p in World.points:
            assume((not b) or self.f(p) == c)
        return b

    def is_constant(self):
        if self.coef is None:
            # arbitrary expressions are taken not to be constant unless they visibly are
            return certain(self.f(fresh_real('t')) == self.f(fresh_real('u')))
        return all(c == 0 for c in self.coef[1:])


def symbols(name):
    return Expr(lambda t: t, [0, 1])


def sympify(e):
    return e if isinstance(e, Expr) else Expr(lambda t: e, [e])


class Root:
    """a number returned by solve"""
    def __init__(self, v):
        self.v = v
        self.is_real = True


def solve(e):
    roots = []
    for i in range(World.max_roots):
        if not fresh_bool('root'):
            break
        r = fresh_real('root')
        assume(value(e, r) == 0)
        roots.append(r)
    World.zeros = World.zeros + [(sympify(e), roots)]
    return [Root(r) for r in roots]


def diff(e, x):
    e = sympify(e)
    if e.coef is None:
        undecided('derivative of an arbitrary expression')
    c = [e.coef[i] * i for i in range(1, len(e.coef))] or [0]
    return poly(c)


def poly(c):
    def f(t):
        r = 0
        for i in range(len(c) - 1, -1, -1):
            r = r * t + c[i]
        return r
    return Expr(f, c)


def real_roots(e):
    e = sympify(e)
    if e.coef is None:
        rs = [r.v for r in solve(e)]
        assume(all(rs[i] < rs[i + 1] for i in range(len(rs) - 1)))
        return rs
    c = list(e.coef)
    while len(c) > 1 and c[-1] == 0:
        c.pop()
    if len(c) == 1:
        undecided('roots of a constant')
    if len(c) == 2:
        return [-Fraction(1) * c[0] / c[1]]
    if len(c) > 3:
        undecided('roots of a polynomial of degree above two')
    if c[1] * c[1] - 4 * c[0] * c[2] < 0:
        return []
    r1, r2 = fresh_real('root'), fresh_real('root')
    assume(r1 <= r2 and c[2] * (r1 + r2) == -c[1] and c[2] * r1 * r2 == c[0])
    return [r1, r2]


World.max_roots = 1
