"""P20: rational function arithmetic and evaluation are exact."""
from fractions import Fraction as F
from functions import Interval, RationalFunction as RF
import sympy

OPTS = {'*': {'time': 120, 'n': 60, 'max_paths': 20000},
        'check_arithmetic': {'n': 150, 'tl': 15}, 'check_equality': {'n': 150, 'tl': 15}, 'check_extrema': {'n': 120, 'tl': 30}, 'check_parse': {'n': 60, 'tl': 15},
        'assumptions': ["sympy expressions are used through their contract: arithmetic and substitution are pointwise, equals(0) decides the zero function, real_roots returns all real zeros"]}


def function(E, n):
    """an arbitrary quotient of two expressions"""
    r = RF([])
    r.num = E.sfun('num' + n)
    r.den = E.sfun('den' + n)
    return r


def operations(f, g):
    return [(f.add(g), f + g), (f.subtract(g), f - g), (f.mul(g), f * g), (f.div(g), f / g)]


def prove_arithmetic(E):
    """the four operations on any two functions at any point"""
    if not E.symbolic:
        return
    x = E.real('x')
    f, g = function(E, 'f'), function(E, 'g')
    E.assume(f.den.subs(RF.x, x) != 0 and g.den.subs(RF.x, x) != 0)
    a, b = f.at(x), g.at(x)
    parts = (f.num, f.den, g.num, g.den)
    ops = operations(f, g)
    for i in range(4):
        if i == 3:
            E.assume(b != 0)
        for r in ops[i]:
            E.ensure('value %d' % i, r.at(x) == [lambda: a + b, lambda: a - b, lambda: a * b, lambda: a / b][i]())
    E.ensure('operands unchanged', f.num is parts[0] and f.den is parts[1] and g.num is parts[2] and g.den is parts[3])


def prove_numbers(E):
    """the four operations with a number on the right"""
    if not E.symbolic:
        return
    x = E.real('x')
    kind = E.choice('kind', [0, 1])
    c = E.real('c') if kind == 0 else E.int('c')
    f = function(E, 'f')
    E.assume(f.den.subs(RF.x, x) != 0)
    a = f.at(x)
    ops = [(f.add(c), f + c), (f.subtract(c), f - c), (f.mul(c), f * c)]
    for i in range(3):
        for r in ops[i]:
            E.ensure('value %d' % i, r.at(x) == [a + c, a - c, a * c][i])
    E.assume(c != 0)
    for r in (f.div(c), f / c):
        E.ensure('value 3', r.at(x) == a / c)


def prove_equality(E):
    """equal functions have equal values wherever both are defined"""
    if not E.symbolic:
        return
    x = E.real('x')
    f, g = function(E, 'f'), function(E, 'g')
    E.spoints(x)
    E.assume(f.den.subs(RF.x, x) != 0 and g.den.subs(RF.x, x) != 0)
    if f == g:
        E.ensure('same value', f.at(x) == g.at(x))


def horner(cs, x):
    v = F(0)
    for c in cs:
        v = v * x + c
    return v


def prove_coefficients(E):
    """the coefficients are those of the numerator and the denominator, highest degree first"""
    n, m = E.count('n', 1, 4), E.count('m', 0, 3)
    x = E.real('x', -10, 10)
    a = [E.real('a' + str(i), -10, 10) for i in range(n)]
    b = [E.real('b' + str(i), -10, 10) for i in range(m)]
    d = horner(b, x) if m else F(1)
    E.assume(d != 0)
    r = RF(list(a), list(b)) if m else RF(list(a))
    E.ensure('value', r.at(x) == horner(a, x) / d)


def same_number(E, u, v):
    return u == v if E.symbolic else near(u, v)


def small(E):
    """a quadratic or a quotient of affine functions without a pole in the interval, by coefficients, and an interval"""
    shape = E.choice('shape', [(3, 1), (2, 2), (1, 2), (1, 1)])
    x0, x1 = E.real('x0', -3, 3), E.real('x1', -3, 3)
    E.assume(x0 < x1)
    a = [E.real('a%d' % i, -4, 4) for i in range(shape[0])]
    b = [F(1)] if shape[1] == 1 else [E.real('b0', -4, 4), E.real('b1', -4, 4)]
    E.assume((horner(b, x0) > 0 and horner(b, x1) > 0) or (horner(b, x0) < 0 and horner(b, x1) < 0))
    return a, b, Interval(x0, x1, True, True)


def bounded_extrema(E):
    """maximise and minimise for quadratics and quotients of affine functions (bounded degree, any coefficients and interval)"""
    E.stub('functions.SympyHelper.to_frac', lambda r: r)
    a, b, I = small(E)
    f = RF(list(a), list(b))
    p = E.real('p', -3, 3)
    E.assume(I.x0 <= p and p <= I.x1)
    val = lambda t: horner(a, t) / horner(b, t)
    if E.symbolic and E.choice('which', [0, 1]) == 1:
        r, v = f.minimise(I)
        E.ensure('minimum: in the interval', I.x0 <= r and r <= I.x1)
        E.ensure('minimum: value', same_number(E, v, val(r)))
        E.ensure('minimum: no smaller value', v <= val(p))
    else:
        r, v = f.maximise(I)
        E.ensure('maximum: in the interval', I.x0 <= r and r <= I.x1)
        E.ensure('maximum: value', same_number(E, v, val(r)))
        E.ensure('maximum: no larger value', v >= val(p))


def bounded_crossings(E):
    """intersections and roots for quotients of affine functions (bounded degree, any coefficients and interval)"""
    E.stub('functions.SympyHelper.to_frac', lambda r: r)
    a, b, I = small(E)
    f = RF(list(a), list(b))
    p = E.real('p', -3, 3)
    E.assume(I.x0 <= p and p <= I.x1)
    c = E.real('c', -4, 4)
    g = RF([c])
    val = lambda t: horner(a, t) / horner(b, t)
    if E.choice('which', [0, 1]) == 1:
        zs, level = f.intersections(g, I), c
    else:
        zs, level = f.roots(I), F(0)
    E.ensure('in the interval', all(I.x0 <= z and z <= I.x1 for z in zs))
    E.ensure('equal values', all(same_number(E, val(z), level) for z in zs))
    # functions equal to the level everywhere have no isolated crossing
    same = all(val(I.x0 + k * (I.x1 - I.x0)) == level for k in (F(0), F(1, 2), F(1, 3), F(1)))
    E.ensure('every crossing', same or val(p) != level or any(same_number(E, z, p) for z in zs))


# ------------------------------------------------------------------------------- concrete runs with sympy
def rand_poly(rng, deg, ints):
    return [F(rng.randint(-4, 4), 1 if ints else rng.choice([1, 2, 3])) for _ in range(rng.randint(1, deg + 1))]


def rand_rf(rng, deg=2):
    """(function, numerator, denominator), built in different ways"""
    ints = rng.random() < 0.4
    while True:
        a, b = rand_poly(rng, deg, ints), rand_poly(rng, deg, ints)
        if any(b):
            break
    k = rng.randint(0, 3)
    if k == 0:
        b = [F(1)]
        return RF([int(c) if ints else c for c in a]), a, b
    if k == 1 and ints:
        return RF([int(c) for c in a], [int(c) for c in b]), a, b
    if k == 2:
        return RF.parse('(%s)/(%s)' % (text(a), text(b))), a, b
    return RF(a, b), a, b


def text(cs):
    n = len(cs) - 1
    return ' + '.join('(%s)*x**%d' % (c, n - i) for i, c in enumerate(cs))


def exact(v):
    """the value as a fraction, or None for a number that is not an exact rational"""
    v = sympy.sympify(v)
    return F(int(v.p), int(v.q)) if v.is_Rational else None


def points(rng, k=5):
    return [F(rng.randint(-20, 20), rng.choice([1, 2, 3, 7])) for _ in range(k)] + [F(0), F(1), F(-1)]


def number(rng):
    return rng.choice([rng.randint(-3, 3), F(rng.randint(-5, 5), rng.choice([2, 3]))])


def parts(f):
    return (f.num, f.den)


def check_arithmetic(E):
    """results of the four operations and chains of them are exact at rational points"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    f, a, b = rand_rf(rng)
    g, c, d = rand_rf(rng)
    val = lambda p, q: (lambda x: None if horner(q, x) == 0 else horner(p, x) / horner(q, x))
    lift = lambda op, u, v: (lambda x: None if u(x) is None or v(x) is None or (op == '/' and v(x) == 0) else {'+': lambda: u(x) + v(x), '-': lambda: u(x) - v(x), '*': lambda: u(x) * v(x), '/': lambda: u(x) / v(x)}[op]())
    pool = [(f, val(a, b)), (g, val(c, d))]
    use = {'+': (lambda p, q: p + q, 'add'), '-': (lambda p, q: p - q, 'subtract'), '*': (lambda p, q: p * q, 'mul'), '/': (lambda p, q: p / q, 'div')}
    for step in range(rng.randint(2, 4)):
        op = rng.choice('+-*/')
        p, u = rng.choice(pool)
        if rng.random() < 0.3:
            q = number(rng)
            if q == 0 and op == '/':
                continue
            v = (lambda q: lambda x: F(q))(q)
        else:
            q, v = rng.choice(pool)
            if op == '/' and sympy.sympify(q.num).equals(0):
                continue
        before = parts(p), parts(q) if isinstance(q, RF) else None
        r = use[op][0](p, q) if rng.random() < 0.5 else getattr(p, use[op][1])(q)
        E.ensure('operands unchanged', (parts(p), parts(q) if isinstance(q, RF) else None) == before)
        pool.append((r, lift(op, u, v)))
    for r, u in pool:
        for x in points(rng):
            w = u(x)
            if w is not None:
                E.ensure('value', exact(r.at(x)) == w, (x, w, str(r.at(x))))


def check_equality(E):
    """== holds exactly for the same function"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    f, a, b = rand_rf(rng)
    g, c, d = rand_rf(rng)
    k = rng.randint(0, 3)
    if k == 0:
        m = F(rng.choice([2, 3, -1]))
        g, c, d = RF([m * u for u in a], [m * u for u in b]), a, b
    if k == 1:
        z = F(rng.randint(-3, 3), 2)
        mul = lambda p: [(p[i] if i < len(p) else F(0)) - z * (p[i - 1] if i else F(0)) for i in range(len(p) + 1)]
        c, d = mul(a), mul(b)
        g = RF(c, d)
    same = all(horner(a, F(x)) * horner(d, F(x)) == horner(c, F(x)) * horner(b, F(x)) for x in range(-6, 7))
    E.ensure('equality', bool(f == g) == same and bool(g == f) == same)


def poly_roots(p):
    """all real roots of a polynomial with rational coefficients"""
    q = sympy.Poly(p, sympy.Symbol('x'))
    return sorted(set(q.real_roots())) if q.degree() > 0 else []


def pol(cs):
    return [sympy.Rational(c.numerator, c.denominator) for c in cs]


def check_extrema(E):
    """maximise, minimise, intersections and roots on closed intervals without poles"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    f, a, b = rand_rf(rng)
    g, c, d = rand_rf(rng)
    x0 = F(rng.randint(-6, 6), 2)
    I = Interval(x0, x0 + F(rng.randint(1, 6), 2), True, True)
    X = sympy.Symbol('x')
    A, B, C, D = [sympy.Poly(pol(p), X) for p in (a, b, c, d)]
    inside = lambda p: [] if p.degree() <= 0 else [r for r in sorted(set(p.real_roots())) if sympy.Rational(I.x0.numerator, I.x0.denominator) <= r <= sympy.Rational(I.x1.numerator, I.x1.denominator)]
    if inside(B):
        return
    before = parts(f), parts(g)
    df = A.diff() * B - A * B.diff()
    cand = [sympy.Rational(I.x0.numerator, I.x0.denominator), sympy.Rational(I.x1.numerator, I.x1.denominator)] + inside(df)
    vals = [A.eval(r) / B.eval(r) for r in cand]
    for name, best in (('maximise', max), ('minimise', min)):
        r, v = getattr(f, name)(I)
        want = best(vals, key=lambda w: sympy.N(w, 40))
        r = sympy.sympify(r)
        E.ensure(name + ' in the interval', bool(r >= I.x0) and bool(r <= I.x1))
        E.ensure(name + ' value', near(v, want) and near(A.eval(r) / B.eval(r), want), (r, v, want))
    E.ensure('unchanged', (parts(f), parts(g)) == before)
    if inside(D):
        return
    diff = A * D - C * B
    if not diff.is_zero:
        got = f.intersections(g, I)
        want = inside(diff)
        E.ensure('intersections', len(set(map(key, got))) == len(want) and all(near(p, q) for p, q in zip(sorted(set(map(key, got))), want)), (got, want))
    if not A.is_zero:
        got = f.roots(I)
        want = inside(A)
        E.ensure('roots', len(set(map(key, got))) == len(want) and all(near(p, q) for p, q in zip(sorted(set(map(key, got))), want)), (got, want))
    E.ensure('unchanged', (parts(f), parts(g)) == before)


def check_many_roots(E):
    """polynomials with many zeros, simple and repeated, on any closed interval: every zero and every crossing is found"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    zs = [F(rng.randint(-8, 8), rng.choice([1, 1, 2, 3])) for _ in range(rng.randint(1, 7))]
    p = [F(rng.choice([-2, 1, 3]))]

    def times(u, v):
        out = [F(0)] * (len(u) + len(v) - 1)
        for i in range(len(u)):
            for j in range(len(v)):
                out[i + j] += u[i] * v[j]
        return out
    for z in zs:
        p = times(p, [F(1), -z])
    quad = rng.random() < 0.3
    if quad:
        p = times(p, [F(1), F(0), -F(2)])      # zeros +-sqrt(2)
    x0 = F(rng.randint(-8, 6))
    I = Interval(x0, x0 + rng.randint(1, 16), rng.random() < 0.7, rng.random() < 0.7)
    den = rng.choice([[F(1)], [F(2)], [F(1), F(0), F(1)]])
    inside = lambda z: (I.x0 < z or (I.include_lower and I.x0 == z)) and (z < I.x1 or (I.include_upper and z == I.x1))
    want = [sympy.Rational(z.numerator, z.denominator) for z in set(zs) if inside(z)]
    if quad:
        want += [s for s in (sympy.sqrt(2), -sympy.sqrt(2)) if bool(s > sympy.Rational(I.x0.numerator, I.x0.denominator)) and bool(s < sympy.Rational(I.x1.numerator, I.x1.denominator))]
    want = sorted(want, key=key)
    f = RF(p, den)
    same = lambda got: len(set(map(key, got))) == len(want) and all(near(u, v) for u, v in zip(sorted(set(map(key, got))), want))
    got = f.roots(I)
    E.ensure('roots', same(got), (got, want))
    # f + g and g agree exactly at the zeros of f
    q = [F(rng.randint(-3, 3)) for _ in range(rng.randint(1, 3))]
    g = RF(q, rng.choice([[F(1)], [F(1), F(0), F(2)]]))
    got = f.add(g).intersections(g, I)
    E.ensure('intersections', same(got), (got, want))


def key(v):
    return sympy.N(sympy.sympify(v), 30)


def near(u, v):
    u, v = sympy.sympify(u), sympy.sympify(v)
    if u.is_Rational and v.is_Rational:
        return u == v
    return abs(sympy.N(u, 30) - sympy.N(v, 30)) < F(1, 10 ** 12)


def check_parse(E):
    """written functions"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    forms = [('3/(2 - x)', lambda x: 3 / (2 - x)), ('%d*(1 - x)/(x + %d)' % (3, 4), lambda x: 3 * (1 - x) / (x + 4)),
             ('2*x/3 - 1/(x**2 + 1)', lambda x: 2 * x / 3 - 1 / (x * x + 1)), ('5/7', lambda x: F(5, 7)), ('x', lambda x: x), ('4', lambda x: F(4)),
             ('(x + 1)*(x - 2)/((3 + x)*(x + 5))', lambda x: (x + 1) * (x - 2) / ((3 + x) * (x + 5))), ('3 * (15/(8*x + 21))', lambda x: 45 / (8 * x + 21))]
    s, f = rng.choice(forms)
    r = RF.parse(s)
    for x in points(rng):
        if x in (2, -3, -4, -5, F(-21, 8)):
            continue
        E.ensure('value', exact(r.at(x)) == f(x), (s, x))
        E.ensure('number', exact((r * 2 + 1).at(x)) == 2 * f(x) + 1, (s, x))
    X = sympy.Symbol('x')
    whole = sympy.cancel(sympy.sympify(s))
    num, den = [sympy.Poly(p, X) for p in sympy.fraction(whole)]
    I = Interval(F(-1), F(3, 2), True, True)
    zeros = [] if num.degree() <= 0 else [z for z in sorted(set(num.real_roots())) if -1 <= z <= F(3, 2)]
    got = r.roots(I)
    E.ensure('roots', len(got) == len(zeros) and all(near(p, q) for p, q in zip(sorted(map(key, got)), zeros)), (s, got))
    c = F(rng.randint(-3, 3), 2)
    num2 = num - den * sympy.Rational(c.numerator, c.denominator)
    zeros = [] if num2.degree() <= 0 else [z for z in sorted(set(num2.real_roots())) if -1 <= z <= F(3, 2)]
    got = r.intersections(RF([c]), I)
    E.ensure('intersections', num2.is_zero or len(got) == len(zeros) and all(near(p, q) for p, q in zip(sorted(map(key, got)), zeros)), (s, c, got))
    m = r.maximise(I)
    E.ensure('maximum', all(f(F(k, 20)) <= m[1] for k in range(-20, 31)) and near(m[1], whole.subs(X, sympy.sympify(m[0]))), (s, m))
