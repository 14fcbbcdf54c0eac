"""P23: rendered expressions denote the object."""
import ast
from fractions import Fraction as F
from functions import Affine, Affine2, Interval, RationalFunction2
from helpers.str_helper import Str_Helper
from polynomial import Polynomial
from polytope import Constraint, Hyperplane, Polytope
from region import Region, Region_Type

OPTS = {'*': {'time': 150, 'n': 150, 'max_paths': 100000},
        'bounded_rational': {'shards': ('mn', 6)}, 'bounded_constraint': {'shards': ('type', 3)}, 'bounded_polynomial': {'shards': ('which', 2)},
        'check_linear': {'n': 600, 'tl': 15}, 'check_polytope': {'n': 300, 'tl': 15}, 'check_polynomial': {'n': 600, 'tl': 15}, 'check_rational': {'n': 600, 'tl': 15},
        'assumptions': ["the text of a number is read back as that number (str of int and Fraction)"]}


# ------------------------------------------------------------------------------- a reader of expressions
def kind(ts, i, k, v=None):
    return i < len(ts) and ts[i][0] == k and (v is None or ts[i][1] == v)


def read_sum(ts, i):
    """the terms (coefficient, variable or None, power, number written) of the sum that starts at token i, and where it ends"""
    terms = []
    while True:
        sign = 1
        if kind(ts, i, 'char', '-'):
            sign = -1
            i = i + 1
        elif terms:
            if not kind(ts, i, 'char', '+'):
                return terms, i
            i = i + 1
        c, num = 1, None
        if kind(ts, i, 'number'):
            num = ts[i][1]
            i = i + 1
            if kind(ts, i, 'char', '/') and kind(ts, i + 1, 'number'):
                num = F(num) / ts[i + 1][1]
                i = i + 2
            c = num
        name, power = None, 0
        if kind(ts, i, 'name'):
            name, power = ts[i][1], 1
            i = i + 1
            if kind(ts, i, 'char', '^'):
                if not kind(ts, i + 1, 'number'):
                    return None, i
                power = ts[i + 1][1]
                i = i + 2
        if name is None and num is None:
            return None, i
        terms.append((sign * c, name, power, num))


def read_all(ts):
    """the terms of a text that is nothing but a sum ([] for the empty text), None when it cannot be read"""
    if len(ts) == 0:
        return []
    terms, i = read_sum(ts, 0)
    return terms if i == len(ts) else None


def good(E, terms, want, constant=False):
    """want lists (coefficient, variable, power); every non-zero one appears once, unit coefficients are omitted"""
    E.ensure('can be read', terms is not None)
    E.ensure('known variables', all(any(t[1] == n and t[2] == p for c, n, p in want) for t in terms))
    for c, n, p in want:
        ts = [t for t in terms if t[1] == n and t[2] == p]
        E.ensure('once', len(ts) <= 1)
        E.ensure('coefficient', c == (ts[0][0] if ts else 0))
        if ts:
            E.ensure('no zero terms', c != 0 or (constant and n is None))
            E.ensure('unit coefficients are omitted', n is None or ts[0][3] is None or (ts[0][3] != 1 and ts[0][3] != -1))


def linear(c, names):
    return [(c[0], None, 0)] + [(c[i], names[i - 1], 1) for i in range(1, len(c))]


def monomials(c, name):
    """lowest degree first"""
    return [(c[i], None if i == 0 else name, i) for i in range(len(c))]


# ------------------------------------------------------------------------------- symbolic coefficients
def bounded_format(E):
    """Str_Helper.format reads back to the coefficients (bounded: up to 4)"""
    E.render()
    names = E.choice('names', ['xyz', ['x_1', 'x_2', 'x_3']])
    k = E.count('k', 1, 4)
    c = [E.real('c' + str(i)) for i in range(k)]
    keep = list(c)
    s = Str_Helper.format(c, names)
    good(E, read_all(E.tokens(s)), linear(c, names))
    E.ensure('coefficients kept', c == keep)


def bounded_constraint(E):
    """the text of constraints and hyperplanes (bounded: up to 3 coefficients)"""
    E.render()
    k = E.count('k', 2, 3)
    c = [E.real('c' + str(i)) for i in range(k)]
    E.assume(any(v != 0 for v in c))
    t = E.choice('type', [Constraint.GREATER_EQUALS, Constraint.GREATER, Constraint.EQUALS])
    r = Constraint(list(c), t) if E.choice('plane', [0, 1]) == 0 or t != Constraint.EQUALS else Hyperplane(list(c))
    ts = E.tokens(str(r))
    rel = [v for k, v in ts if k == 'char' and v in '>=']
    E.ensure('relation', rel == (['>', '='] if t == Constraint.GREATER_EQUALS else ['>'] if t == Constraint.GREATER else ['=']))
    terms, i = read_sum(ts, 0)
    good(E, terms, linear(c, 'xyz'))
    E.ensure('nothing else', len(ts) == i + len(rel) + 1 and ts[len(ts) - 1] == ('number', 0))


def bounded_affine(E):
    """the text of an affine function, its domain and label"""
    E.render()
    m, c = E.real('m'), E.real('c')
    lo, hi = E.real('lo'), E.real('hi')
    E.assume(lo <= hi)
    I = Interval(lo, hi, E.choice('l', [True, False]), E.choice('u', [True, False]))
    label = E.choice('label', [None, 'lab'])
    var = E.choice('var', ['x', 'σ'])
    ts = E.tokens(Affine(m, c, I, label).to_str(var))
    at = [j for j in range(len(ts)) if ts[j] == ('name', 'for')]
    E.ensure('one for', len(at) == 1)
    j = at[0]
    good(E, read_all(ts[:j]), [(c, None, 0), (m, var, 1)])
    rest = ts[j + 1:]
    E.ensure('domain', rest[0] == ('name', var) and rest[3] == ('char', '[' if I.include_lower else '('))
    if not E.symbolic:
        return
    E.ensure('limits', rest[4][1] == lo and rest[5] == ('char', ',') and rest[6][1] == hi and rest[7] == ('char', ']' if I.include_upper else ')'))
    E.ensure('label', [t for t in rest[8:]] == ([] if label is None else [('char', '('), ('name', 'lab'), ('char', ')')]))


def bounded_affine2(E):
    """Affine2.to_string reads back to the coefficients, the constant is always written (bounded: up to 4)"""
    E.render()
    names = E.choice('names', ['xyz', ['x_1', 'x_2', 'x_3']])
    k = E.count('k', 1, 4)
    c = [E.real('c' + str(i)) for i in range(k)]
    keep = list(c)
    good(E, read_all(E.tokens(Affine2.to_string(c, names))), linear(c, names), True)
    E.ensure('coefficients kept', c == keep)
    for bad in (None, 'x' * (k - 2) if k > 2 else None):
        ok = False
        try:
            Affine2.to_string(c, bad)
        except ValueError:
            ok = True
        E.ensure('not enough names', ok)


def bounded_polynomial(E):
    """Polynomial.to_str and RationalFunction2._poly_str read back to the coefficients (bounded: up to 3)"""
    E.render()
    k = E.count('k', 0, 3)
    c = tuple([E.real('c' + str(i)) for i in range(k)])
    var = E.choice('var', ['x', 'T'])
    if E.choice('which', [0, 1]):
        E.assume(k == 0 or c[k - 1] != 0)
        p = Polynomial(c)
        s = p.to_str(var)
        E.ensure('kept', p.coefficients == c)
    else:
        s = RationalFunction2._poly_str(list(c)[::-1], var)
    if all(v == 0 for v in c):
        E.ensure('zero', s == '0')
    else:
        good(E, read_all(E.tokens(s)), monomials(c, var))


def read_factor(ts, i):
    """a sum in brackets, or a single term"""
    if kind(ts, i, 'char', '('):
        terms, i = read_sum(ts, i + 1)
        return terms, i + 1 if kind(ts, i, 'char', ')') else -1
    terms, i = read_sum(ts, i)
    return (terms, i) if terms is not None and len(terms) == 1 else (None, i)


def value(terms, x):
    v = 0
    for c, name, p, num in terms:
        t = c
        for j in range(p):
            t = t * x
        v = v + t
    return v


def horner(c, x):
    """highest degree first"""
    v = 0
    for a in c:
        v = v * x + a
    return v


def rational(E, num, den, ts, x):
    """the text is the quotient of two sums with the same value; ts ends before the domain"""
    a, i = (None, 0)
    if kind(ts, 0, 'char', '('):
        a, i = read_factor(ts, 0)
        E.ensure('numerator can be read', a is not None and i > 0)
    else:
        a, i = read_sum(ts, 0)
        E.ensure('numerator can be read', a is not None)
    b = [(1, None, 0, None)]
    if i < len(ts):
        E.ensure('quotient', kind(ts, i, 'char', '/') and (kind(ts, 0, 'char', '(') or len(a) == 1))
        j = i + 1
        b, i = read_factor(ts, j)
        E.ensure('denominator can be read', b is not None and i == len(ts))
        # without brackets the denominator is a whole number or a power of the variable
        E.ensure('denominator is unambiguous', kind(ts, j, 'char', '(') or b[0][1] is None or (b[0][3] is None and b[0][0] == 1))
        E.ensure('no fraction without brackets', kind(ts, j, 'char', '(') or not any(kind(ts, h, 'char', '/') for h in range(j, len(ts))))
    return a, b


def bounded_rational(E):
    """the text of a RationalFunction2 is the same function (bounded: up to 3 coefficients)"""
    if not E.symbolic:
        return
    E.render()
    m, n = E.choice('mn', [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)])
    num, den = [E.real('a' + str(i)) for i in range(m)], [E.choice('b' + str(i), [F(1), F(0), F(-1, 2), F(3)]) for i in range(n)]
    E.assume(any(v != 0 for v in den))
    x = E.real('x')
    r = RationalFunction2((num, den), Interval(F(0), F(1)))
    ts = E.tokens(str(r))
    at = [j for j in range(len(ts)) if ts[j] == ('name', 'on')]
    E.ensure('domain', len(at) == 1 and len(ts) == at[0] + 6)
    a, b = rational(E, num, den, ts[:at[0]], x)
    E.ensure('same function', value(a, x) * horner(den, x) == horner(num, x) * value(b, x))


# ------------------------------------------------------------------------------- concrete runs
NAMES = ['σ', 'τ', 'ρ', 'ρ*', 's', 'x', 'y', 'z', 'alpha', 'x_1', 'x_10', 'L']


def rand_c(rng, k):
    c = [rng.choice([0, 0, 1, -1, F(1), F(-1), F(rng.randint(-5, 5), rng.choice([1, 2, 3, 7])), rng.randint(-12, 12)]) for _ in range(k)]
    return [0] * k if rng.random() < 0.03 else c


def check_linear(E):
    """linear forms of any length"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    k = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 14])
    c = rand_c(rng, k)
    names = ['v%d' % i for i in range(k)] if k > len(NAMES) or rng.random() < 0.3 else rng.sample(NAMES, len(NAMES))
    keep = list(c)
    s = Str_Helper.format(tuple(c) if rng.random() < 0.5 else c, names)
    E.ensure('zero', any(c) or s == '')
    good(E, read_all(E.tokens(s)), linear(c, names))
    good(E, read_all(E.tokens(Affine2.to_string(c, names))), linear(c, names), True)
    if k >= 2 and any(c):
        t = rng.choice([0, 1, 2])
        r = Constraint(c, t) if t < 2 or rng.random() < 0.5 else Hyperplane(c)
        s = repr(r)
        E.ensure('relation', s.endswith([' >= 0', ' > 0', ' = 0'][t]), (s,))
        default = list('xyzwu') if k <= 5 else ['x_%d' % i for i in range(1, k)]
        good(E, read_all(E.tokens(s[:-[5, 4, 4][t]])), linear(c, default))
        p = Polytope([[F(1)] + [F(0)] * (k - 2) + [F(1)]])
        s = repr(Affine2(c, p))
        good(E, read_all(E.tokens(s[:s.index(' on [')])), linear(c, list('xyzw') if k <= 5 else default), True)
        E.ensure('domain', s[s.index(' on [') + 4:] == str(p))
    E.ensure('coefficients kept', c == keep)
    lo = F(rng.randint(-9, 9), rng.choice([1, 2, 3]))
    I = Interval(lo, lo + F(rng.randint(0, 5), 2), rng.random() < 0.5, rng.random() < 0.5)
    J = Interval.parse(str(I))
    E.ensure('interval', (J.x0, J.x1, J.include_lower, J.include_upper) == (I.x0, I.x1, I.include_lower, I.include_upper))
    if k >= 2:
        s = Affine(c[1], c[0], I, rng.choice([None, 'lab'])).to_str(names[0])
        E.ensure('affine domain', str(I) in s)
        good(E, read_all(E.tokens(s[:s.index(' for ')])), linear(c[:2], names))


def rows_text(E, s, names, p):
    """the list of constraints in the text is that of the polytope"""
    ws = ast.literal_eval(s)
    E.ensure('as many constraints', len(ws) == p.mat.row_size)
    for i, w in enumerate(ws):
        end = ' = 0' if i in p.mat.lin_set else ' >= 0'
        E.ensure('relation', w.endswith(end) and (end == ' = 0' or not w.endswith(' = 0')))
        good(E, read_all(E.tokens(w[:-len(end)])), linear(list(p.mat[i]), names))


def region_text(E, s, r, names, rest=''):
    """the short text: kind and children in order"""
    c = r.child
    if isinstance(c, Polytope):
        e = s.index(']') + 1
        rows_text(E, s[:e], names, c)
        return s[e:]
    head = {Region_Type.INTERSECT: 'Intersection', Region_Type.UNION: 'Union', Region_Type.DISJOINT_UNION: 'Disjoint union', Region_Type.COMPLEMENT: 'Complement'}[r.region_type] + ' of {'
    E.ensure('kind of region', s.startswith(head), (s[:30],))
    s = s[len(head):]
    for i, k in enumerate(c if isinstance(c, list) else [c]):
        if i:
            E.ensure('separator', s.startswith(', '))
            s = s[2:]
        s = region_text(E, s, k, names)
    E.ensure('end', s.startswith('}'))
    return s[1:]


def check_polytope(E):
    """the text of polytopes and regions"""
    import polyx
    from p12 import rand_region, KINDS
    from p11 import small_poly
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    d = rng.choice([1, 2, 3, 4, 5, 6, 8])
    p = Polytope(polyx.rand_rows(rng, d, rng.randint(1, 5)), linear=rng.random() < 0.2, canonicalize=rng.random() < 0.3)
    if rng.random() < 0.4:
        p = Polytope.intersection([p, Polytope(polyx.rand_rows(rng, d, 1), linear=True)], canonicalize=False)
    before = polyx.rows_of(p)
    rows_text(E, repr(p), list('xyzwu') if d <= 5 else ['x_%d' % i for i in range(1, d + 1)], p)
    names = ['v%d' % i for i in range(d + rng.randint(0, 2))]
    rows_text(E, p.to_str(names), names, p)
    ok = False
    try:
        p.to_str(names[:d - 1])
    except ValueError:
        ok = True
    E.ensure('not enough names', ok)
    E.ensure('polytope kept', polyx.rows_of(p) == before)
    d = rng.choice([1, 2, 3])
    r = rand_region(rng, d, rng.randint(0, 3), KINDS + [Region_Type.COMPLEMENT], lambda: small_poly(rng, d))
    names = ['σ', 'τ', 'ρ*'][:d]
    E.ensure('whole text', region_text(E, r.to_str(use_indentation=False, variables=names), r, names) == '')
    E.ensure('whole text', region_text(E, r.to_str(use_indentation=False), r, 'xyz') == '')
    want = []

    def lines(q, n):
        if isinstance(q.child, Polytope):
            want.append('\t' * n + (q.child.to_str(vs) if vs else str(q.child)))
        else:
            want.append('\t' * n + Region_Type.to_str(q.region_type))
            for k in q.child if isinstance(q.child, list) else [q.child]:
                lines(k, n + 1)
    vs = rng.choice([None, names])
    lines(r, 0)
    E.ensure('indented text', r.to_str(variables=vs).split('\n') == want + [''])


def check_polynomial(E):
    """polynomials of any degree"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    c = rand_c(rng, rng.choice([0, 1, 2, 3, 5, 8, 13]))
    while c and c[-1] == 0:
        c.pop()
    p = Polynomial(tuple(c))
    var = rng.choice(['x', 'T', 'σ'])
    s = p.to_str(var)
    if not c:
        E.ensure('zero', s == '0' and str(p) == '0')
    else:
        good(E, read_all(E.tokens(s)), monomials(c, var))
        good(E, read_all(E.tokens(str(p))), monomials(c, 'x'))
    E.ensure('kept', p.coefficients == tuple(c))
    c += [0] * rng.randint(0, 2)
    s = RationalFunction2._poly_str(c[::-1], var)
    if not any(c):
        E.ensure('zero', s == '0')
    else:
        good(E, read_all(E.tokens(s)), monomials(c, var))


def check_rational(E):
    """the text of a RationalFunction2 is the same function"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    num = rand_c(rng, rng.randint(1, 6))
    den = rand_c(rng, rng.choice([1, 1, 2, 3, 4]))
    if not any(den):
        den[rng.randrange(len(den))] = rng.choice([1, 2, F(1, 2), -1])
    I = Interval(F(0), F(1, 2), rng.random() < 0.5, rng.random() < 0.5)
    one = rng.random() < 0.2
    r = RationalFunction2(list(num), I) if one else RationalFunction2((list(num), list(den)), I)
    den = [1] if one else den
    s = str(r)
    E.ensure('domain', s.endswith(' on ' + str(I)), (s,))
    ts = E.tokens(s[:-len(' on ' + str(I))])
    a, b = rational(E, num, den, ts, None)
    for x in [F(rng.randint(-30, 30), rng.choice([1, 2, 7])) for _ in range(6)]:
        E.ensure('same function', value(a, x) * horner(den, x) == horner(num, x) * value(b, x), (num, den, s))
    E.ensure('kept', r._num_coeffs == tuple(num) and r._den_coeffs == tuple(den))
