"""P21: polynomial arithmetic is a ring with canonical representatives."""
from fractions import Fraction as F
from functions import Interval, RationalFunction2
from polynomial import Polynomial

OPTS = {'*': {'time': 100, 'n': 60, 'max_paths': 60000},
        'bounded_sum': {'shards': ('mn', 16)}, 'bounded_product': {'shards': ('mn', 9)},
        'check_ring': {'n': 400, 'tl': 20}, 'check_long': {'n': 40, 'tl': 20}, 'check_predicates': {'n': 300, 'tl': 15}}


def value(c, x):
    """the value at x of coefficients with lowest degree first"""
    v = 0
    for i in range(len(c) - 1, -1, -1):
        v = v * x + c[i]
    return v


def coeffs(E, n, k):
    """k coefficients of which the last is not zero"""
    c = tuple([E.real(n + str(i)) for i in range(k)])
    if k > 0:
        E.assume(c[k - 1] != 0)
    return c


def canonical(p):
    c = p.coefficients
    return isinstance(c, tuple) and (len(c) == 0 or c[len(c) - 1] != 0)


def bounded_sum(E):
    """sum and difference at any point, canonical results, operands kept (bounded: up to 3 coefficients)"""
    m, n = E.choice('mn', [(i, j) for i in range(4) for j in range(4)])
    a, b = coeffs(E, 'a', m), coeffs(E, 'b', n)
    p, q = Polynomial(a), Polynomial(b)
    x = E.real('x')
    k = E.choice('op', [0, 1, 2, 3])
    r = p + q if k == 0 else p.add(q) if k == 1 else p - q if k == 2 else p.subtract(q)
    E.ensure('value', value(r.coefficients, x) == (value(a, x) + value(b, x) if k < 2 else value(a, x) - value(b, x)))
    E.ensure('canonical', canonical(r))
    E.ensure('operands kept', p.coefficients == a and q.coefficients == b)


def bounded_same(E):
    """a polynomial with itself (bounded: up to 3 coefficients)"""
    a = coeffs(E, 'a', E.choice('m', [0, 1, 2, 3]))
    p = Polynomial(a)
    x = E.real('x')
    E.ensure('difference', (p - p).is_zero() and len((p - p).coefficients) == 0)
    E.ensure('sum', value((p + p).coefficients, x) == 2 * value(a, x) and canonical(p + p))
    E.ensure('equal', p == p and p == Polynomial(tuple(a)))


def bounded_product(E):
    """products at any point, canonical results, operands kept (bounded: up to 3 coefficients)"""
    m, n = E.choice('mn', [(i, j) for i in range(4) for j in range(4)])
    a, b = coeffs(E, 'a', m), coeffs(E, 'b', n)
    p, q = Polynomial(a), Polynomial(b)
    x = E.real('x')
    r = p * q if E.choice('op', [0, 1]) else p.multiply(q)
    E.ensure('value', value(r.coefficients, x) == value(a, x) * value(b, x))
    E.ensure('canonical', canonical(r))
    E.ensure('operands kept', p.coefficients == a and q.coefficients == b)


def bounded_predicates(E):
    """equality, degree, is_zero and rejection (bounded: up to 4 coefficients)"""
    m, n = E.count('m', 0, 4), E.count('n', 0, 4)
    a, b = coeffs(E, 'a', m), coeffs(E, 'b', n)
    p, q = Polynomial(a), Polynomial(b)
    E.ensure('equality', (p == q) == (m == n and all(a[i] == b[i] for i in range(m))))
    E.ensure('degree', p.degree() == (m - 1 if m > 0 else float('-inf')))
    E.ensure('zero', p.is_zero() == (m == 0))
    ok = False
    try:
        if E.choice('bad', [0, 1]):
            Polynomial(a + (F(0),))
        else:
            Polynomial(list(a))
    except ValueError:
        ok = True
    E.ensure('rejected', ok)


def bounded_rational(E):
    """is_zero, is_constant and is_affine of RationalFunction2 (bounded: up to 4 coefficients)"""
    m, n = E.count('m', 1, 4), E.choice('n', [None, 1, 2, 3])
    a = [E.real('a' + str(i)) for i in range(m)]
    b = [E.real('b' + str(i)) for i in range(n)] if n else [1]
    I = Interval(F(0), F(1))
    r = RationalFunction2(a, I) if n is None else RationalFunction2((a, b), I)
    den = all(b[i] == 0 for i in range(len(b) - 1))
    E.ensure('zero', r.is_zero() == all(c == 0 for c in a))
    E.ensure('constant', r.is_constant() == (den and all(a[i] == 0 for i in range(m - 1))))
    E.ensure('affine', r.is_affine() == (den and all(a[i] == 0 for i in range(m - 2))))
    E.ensure('domain', r.domain is I)


# ------------------------------------------------------------------------------- concrete runs
def rand_coeffs(rng, top=8):
    k = rng.randint(0, top)
    c = [F(rng.randint(-3, 3), rng.choice([1, 1, 2, 3])) for _ in range(k)]
    if rng.random() < 0.3:
        c = [int(v) for v in c]
    while c and c[-1] == 0:
        c.pop()
    return tuple(c)


def ring(E, a, b):
    rng = E.rng
    p, q = Polynomial(a), Polynomial(b)
    for name, r, f in [('sum', p + q, lambda u, v: u + v), ('sum', p.add(q), lambda u, v: u + v), ('difference', p - q, lambda u, v: u - v), ('difference', p.subtract(q), lambda u, v: u - v),
                       ('product', p * q, lambda u, v: u * v), ('product', p.multiply(q), lambda u, v: u * v)]:
        E.ensure('canonical', canonical(r), (a, b, name))
        for x in [F(rng.randint(-20, 20), rng.choice([1, 2, 7])) for _ in range(max(4, len(a) + len(b)))]:
            E.ensure(name, value(r.coefficients, x) == f(value(a, x), value(b, x)), (a, b, x))
    E.ensure('operands kept', p.coefficients == a and q.coefficients == b)
    E.ensure('equality', (p == q) == (a == b) and p == Polynomial(tuple(a)))
    E.ensure('degree', p.degree() == (len(a) - 1 if a else float('-inf')) and p.is_zero() == (not a))
    import copy
    E.ensure('copy', copy.copy(p) == p)


def check_ring(E):
    """random polynomials, often with cancelling leading terms"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    a = rand_coeffs(rng)
    b = rand_coeffs(rng)
    k = rng.random()
    if k < 0.2:
        b = tuple(-c for c in a)
    elif k < 0.4 and len(a) > 1:
        j = rng.randrange(len(a))
        b = tuple(rng.choice([1, -1, F(1, 2)]) * 1 for _ in range(j)) + tuple((-1 if rng.random() < 0.5 else 1) * c for c in a[j:])
        while b and b[-1] == 0:
            b = b[:-1]
    ring(E, a, b)


def check_long(E):
    """polynomials of high degree"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    a, b = rand_coeffs(rng, 70), rand_coeffs(rng, 70)
    if a and rng.random() < 0.5:
        j = rng.randrange(len(a))
        b = tuple(F(rng.randint(-2, 2)) for _ in range(j)) + tuple(-c for c in a[j:])
        while b and b[-1] == 0:
            b = b[:-1]
    ring(E, a, b)


def check_predicates(E):
    """rejection and the predicates of RationalFunction2"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    num = [F(rng.choice([0, 0, 0, 1, -2])) for _ in range(rng.randint(1, 7))]
    den = [F(rng.choice([0, 0, 0, 1, -2])) for _ in range(rng.randint(1, 4))]
    I = Interval(F(0), F(1))
    one = rng.random() < 0.4
    r = RationalFunction2(num, I) if one else RationalFunction2((num, den), I)
    d = one or not any(den[:-1])
    E.ensure('zero', r.is_zero() == (not any(num)), (num, den))
    E.ensure('constant', r.is_constant() == (d and not any(num[:-1])), (num, den))
    E.ensure('affine', r.is_affine() == (d and not any(num[:-2])), (num, den))
    for bad in ([1, 2], None, (F(1), F(0)), (F(0),), (0,), 'x'):
        ok = False
        try:
            Polynomial(bad)
        except ValueError:
            ok = True
        E.ensure('rejected', ok, (bad,))
    p = Polynomial((F(1),))
    for f in (p.add, p.subtract, p.multiply):
        ok = False
        try:
            f(rng.choice([2, (F(1),), None, 'x']))
        except ValueError:
            ok = True
        E.ensure('operand rejected', ok)


def prove_rational(E):
    """is_zero, is_constant and is_affine of RationalFunction2 for any number of coefficients"""
    a = E.seq('a', lambda i: E.real('a'), min=1)
    b = E.seq('b', lambda i: E.real('b'), min=1)
    I = Interval(F(0), F(1))
    r = RationalFunction2((list(a), list(b)), I)
    den = all(c == 0 for c in b[:-1])
    E.ensure('zero', r.is_zero() == all(c == 0 for c in a))
    E.ensure('constant', r.is_constant() == (den and all(c == 0 for c in a[:-1])))
    E.ensure('affine', r.is_affine() == (den and all(c == 0 for c in a[:-2])))


def prove_sum(E):
    """sums and differences have at every index the sum or difference of the coefficients (any degree; trimming by its contract)"""
    if not E.symbolic:
        return
    a = E.seq('a', lambda i: E.real('a'))
    b = E.seq('b', lambda i: E.real('b'))
    m, n = len(a), len(b)
    E.assume(m == 0 or a[m - 1] != 0)
    E.assume(n == 0 or b[n - 1] != 0)
    got = []

    def trim(c):
        got.append(c)
        return ()
    E.stub('polynomial.Polynomial._trim_trailing_zeroes', trim)
    k = E.choice('op', [0, 1])
    p, q = Polynomial(tuple(a)), Polynomial(tuple(b))
    r = p + q if k else p - q
    if not got:
        return
    c = got[0]
    E.ensure('length', len(c) == (m if m > n else n))
    j = E.int('j', 0)
    if j < len(c):
        u = a[j] if j < m else 0
        v = b[j] if j < n else 0
        E.ensure('coefficient', c[j] == (u + v if k else u - v))
    E.ensure('operands kept', len(p.coefficients) == m and len(q.coefficients) == n)
