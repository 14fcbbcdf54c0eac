"""P19: best zero density and energy estimates are pointwise minima."""
from fractions import Fraction as F
from functions import Interval, RationalFunction as RF
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference
import zero_density_estimate as zd
import zero_density_energy_estimate as ze

OPTS = {'*': {'time': 150, 'n': 40, 'max_paths': 200000},
        'bounded_one': {'shards': ('order', 12)}, 'bounded_layouts': {'shards': ('layout', 12), 'thorough_only': True, 'time': 700},
        'check_optimal': {'n': 150, 'tl': 30}, 'check_best': {'n': 60, 'tl': 30},
        'assumptions': ["sympy expressions are used through their contract: arithmetic and substitution are pointwise, equals(0) decides the zero function, the zeros found are all real zeros and a continuous function keeps its sign between neighbouring ones"]}

BIG = F(1000000)


def arbitrary(E, n):
    """an arbitrary continuous function"""
    r = RF([])
    r.num = E.sfun(n)
    r.den = 1
    return r


def within(I, x):
    """contract of Interval.contains (P01)"""
    return (I.x0 < x and x < I.x1) or (I.include_lower and x == I.x0 and I.x0 < I.x1) or (I.include_upper and x == I.x1 and I.x0 < I.x1) or (I.include_lower and I.include_upper and x == I.x0 and x == I.x1)


def pieces_at(out, x):
    return [q for q in out if q[1].x0 < x and x < q[1].x1]


def verify(E, fs, D, out, x, big):
    default = -BIG if big else BIG
    E.ensure('covers the domain', len(out) > 0 and out[0][1].x0 == D.x0 and out[-1][1].x1 == D.x1)
    E.ensure('consecutive', all(out[i][1].x1 == out[i + 1][1].x0 and out[i][1].x0 < out[i][1].x1 for i in range(len(out) - 1)) and out[-1][1].x0 < out[-1][1].x1)
    for q in out:
        here = q[1].x0 < x and x < q[1].x1
        v = q[0].at(x)
        E.ensure('bounded by the default', (not here) or (v >= default if big else v <= default))
        for f, I in fs:
            w = f.at(x)
            E.ensure('bounded by every function defined there', (not here) or (not within(I, x)) or (v >= w if big else v <= w))
        if q[2] == -1:
            E.ensure('default', (not here) or v == default)
        else:
            E.ensure('attained', (not here) or (within(fs[q[2]][1], x) and v == fs[q[2]][0].at(x)))


ORDERS = [(0, 1, 2, 3), (2, 3, 0, 1), (0, 2, 1, 3), (0, 2, 3, 1), (2, 0, 1, 3), (2, 0, 3, 1)]


def bounded_one(E):
    """one arbitrary function on any interval over any domain (bounded: one function, at most one crossing with the default)"""
    if not E.symbolic:
        return
    E.stub('functions.SympyHelper.to_frac', lambda r: r)
    E.stub('functions.Interval.contains', within)
    E.sroots(1)
    o, big = E.choice('order', [(o, b) for o in ORDERS for b in (True, False)])
    ends = [E.real(n) for n in ('e0', 'e1', 'e2', 'e3')]
    E.assume(ends[0] < ends[1] and ends[1] < ends[2] and ends[2] < ends[3])
    at = lambda k: ends[o.index(k)]
    # 0, 1: the domain; 2, 3: the interval of the function
    x = E.real('x')
    E.assume(at(0) < x and x < at(1) and x != at(2) and x != at(3))
    D = Interval(at(0), at(1), E.bool('dl'), E.bool('du'))
    fs = [(arbitrary(E, 'f'), Interval(at(2), at(3), E.bool('al'), E.bool('au')))]
    E.spoints(x)
    f = RF.max if big else RF.min
    out = f(list(fs), D)
    verify(E, fs, D, out, x, big)


LAYOUTS = [((0, 4), (0, 4)), ((0, 2), (1, 4)), ((-1, 3), (2, 5)), ((1, 2), (3, 4)), ((1, 3), (0, 4)), ((0, 2), (2, 4))]


def two(E, layouts):
    if not E.symbolic:
        return
    E.stub('functions.SympyHelper.to_frac', lambda r: r)
    E.stub('functions.Interval.contains', within)
    E.sroots(1)
    ((i0, i1), (j0, j1)), big = E.choice('layout', layouts)
    x = E.real('x', 0, 4)
    E.assume(0 < x and x < 4 and all(x != e for e in (i0, i1, j0, j1)))
    D = Interval(F(0), F(4), True, False)
    fs = [(arbitrary(E, 'f'), Interval(F(i0), F(i1))), (arbitrary(E, 'g'), Interval(F(j0), F(j1), True, True))]
    E.spoints(x)
    out = (RF.max if big else RF.min)(list(fs), D)
    verify(E, fs, D, out, x, big)


def bounded_layouts(E):
    """two arbitrary functions on listed interval layouts, any crossing (bounded: two functions, at most one crossing of each pair)"""
    two(E, [(o, b) for o in LAYOUTS for b in (True, False)])


# ------------------------------------------------------------------------------- concrete runs with sympy
def rand_piece(rng, lo, hi):
    """a function given by its coefficients without poles in [lo, hi], and its interval"""
    from p20 import horner
    k = rng.randint(0, 5)
    f = lambda m, d=(1, 2, 3): F(rng.randint(-m, m), rng.choice(d))
    while True:
        if k == 0:
            a, b = [f(4)], [F(1)]
        elif k <= 2:
            a, b = [f(4), f(4)], [F(1)]
        elif k == 3:
            a, b = [f(3), f(4)], [f(3), f(6)]
        elif k == 4:
            a, b = [f(3), f(3), f(3)], [F(1)]
        else:
            a, b = ([f(2), f(2), f(2), f(2)], [F(1)]) if rng.random() < 0.5 else ([f(3)], [f(1), f(2), F(5)])
        n = 40
        if all(horner(b, lo + (hi - lo) * F(i, n)) > 0 for i in range(n + 1)) and (len(b) < 3 or b[0] >= 0 and b[1] ** 2 < 4 * b[0] * b[2]):
            return a, b


def expression(a, b):
    from p20 import text
    return '(%s)/(%s)' % (text(a), text(b))


def trial(rng, lo, hi, k=12):
    return [lo + (hi - lo) * F(rng.randint(1, 996), 997) for _ in range(k)]


def rand_pieces(rng, lo, hi, n):
    from p20 import horner
    out = []
    for i in range(n):
        x, y = sorted(rng.sample([lo - 1, lo - F(1, 3), lo, lo + (hi - lo) / 4, lo + (hi - lo) / 3, lo + (hi - lo) / 2, lo + 3 * (hi - lo) / 4, hi, hi + F(1, 2)], 2))
        if rng.random() < 0.4:
            x, y = lo, hi
        a, b = rand_piece(rng, x, y)
        if out and rng.random() < 0.15:
            a, b = out[-1][:2]
            if any(horner(b, x + (y - x) * F(i, 40)) <= 0 for i in range(41)):
                continue
        elif out and rng.random() < 0.5:
            # cross an earlier function at chosen points
            a, b = touching(rng, *rng.choice(out)[:2], lo, hi)
            if any(horner(b, x + (y - x) * F(i, 40)) <= 0 for i in range(41)):
                continue
        out.append((a, b, Interval(x, y, rng.random() < 0.8, rng.random() < 0.8)))
    return out


def sparse_pieces(rng, lo, hi, n):
    """simple functions on short intervals, so that the default remains in several places"""
    grid = [lo + (hi - lo) * F(i, 12) for i in range(13)]
    out = []
    for i in range(n):
        j = rng.randrange(12)
        k = min(12, j + rng.choice([1, 1, 2, 3, 4]))
        a = [F(rng.randint(-3, 3))] if rng.random() < 0.7 else [F(rng.randint(-3, 3)), F(rng.randint(-3, 3), 2)]
        out.append((a, [F(1)], Interval(grid[j], grid[k], rng.random() < 0.8, rng.random() < 0.8)))
    return out


def touching(rng, a, b, lo, hi):
    """a function that equals a/b exactly at a few chosen points"""
    c = [rng.choice([F(1), F(-1), F(2), F(-1, 2), F(40)])]
    for i in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
        r = lo + (hi - lo) * F(rng.randint(0, 12), 12)
        c = [(c[j] if j < len(c) else 0) - (r * c[j - 1] if j else 0) for j in range(len(c) + 1)]
    n = max(len(a), len(c))
    return [u + v for u, v in zip([F(0)] * (n - len(a)) + list(a), [F(0)] * (n - len(c)) + c)], list(b)


def best(fs, x, pick, default):
    from p20 import horner
    v = [default] + [horner(a, x) / horner(b, x) for a, b, I in fs if I.contains(x)]
    return pick(v)


def consecutive(pieces, lo, hi):
    """the intervals follow each other from lo to hi"""
    return len(pieces) > 0 and pieces[0][1].x0 == lo and pieces[-1][1].x1 == hi and all(p[1].x1 == q[1].x0 for p, q in zip(pieces, pieces[1:])) and all(bool(p[1].x0 < p[1].x1) for p in pieces)


def check_optimal(E):
    """minima and maxima of random functions on random intervals"""
    from p20 import horner, exact, near
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    lo = F(rng.randint(-4, 4), 2)
    hi = lo + F(rng.randint(1, 6), 2)
    fs = rand_pieces(rng, lo, hi, rng.randint(0, 4)) if rng.random() < 0.6 else sparse_pieces(rng, lo, hi, rng.randint(2, 6))
    arg = [(RF(a, b) if rng.random() < 0.7 else RF.parse(expression(a, b)), Interval(I.x0, I.x1, I.include_lower, I.include_upper)) for a, b, I in fs]
    D = Interval(lo, hi, rng.random() < 0.7, rng.random() < 0.7)
    snap = lambda: [(f.num, f.den, I.x0, I.x1, I.include_lower, I.include_upper) for f, I in arg] + [str(D)]
    before = snap()
    track = rng.random() < 0.7
    big = rng.random() < 0.5
    out = (RF.max if big else RF.min)(arg, D) if track else (RF.max if big else RF.min)(arg, D, track_dependencies=False)
    default = -BIG if big else BIG
    pick = max if big else min
    E.ensure('inputs unchanged', snap() == before and len(arg) == len(fs))
    E.ensure('consecutive pieces', consecutive(out, lo, hi), ([str(p[1]) for p in out],))
    ends = [p[1].x1 for p in out[:-1]]
    for x in trial(rng, lo, hi, 16) + [F(round(float(e) * 10 ** 6) + d, 10 ** 6) for e in ends for d in (-3, 3)]:
        if not lo < x < hi or any(I.x0 == x or I.x1 == x for a, b, I in fs):
            continue
        ps = [p for p in out if bool(p[1].x0 < x) and bool(x < p[1].x1)]
        E.ensure('one piece at an interior point', len(ps) == 1 or any(bool(x == e) for e in ends), (x,))
        if len(ps) != 1:
            continue
        want = best(fs, x, pick, default)
        v = exact(ps[0][0].at(x))
        E.ensure('optimum', v == want, (x, v, want))
        if track:
            i = ps[0][2]
            if i < 0:
                E.ensure('index of the default', want == default, (x,))
            else:
                a, b, I = fs[i]
                E.ensure('index attains the optimum', I.contains(x) and horner(a, x) / horner(b, x) == want, (x, i))


def check_best(E):
    """best estimates of random hypothesis sets"""
    from p20 import exact
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    energy = rng.random() < 0.5
    name = 'Zero density energy estimate' if energy else 'Zero density estimate'
    cls = ze.Zero_Density_Energy_Estimate if energy else zd.Zero_Density_Estimate
    fs = [(a, b, I) for a, b, I in (rand_pieces(rng, F(1, 2), F(1), rng.randint(1, 4)) if rng.random() < 0.6 else sparse_pieces(rng, F(1, 2), F(1), rng.randint(2, 6)))]
    hs = []
    for i, (a, b, I) in enumerate(fs):
        data = cls(expression(a, b), I) if rng.random() < 0.5 else cls.from_rational_func(RF(a, b), I)
        hs.append(Hypothesis('h%d' % i, name, data, 'proof %d' % i, Reference.make('A', 1900 + i)))
    other = Hypothesis('o', 'Zero density estimate' if energy else 'Zero density energy estimate', zd.Zero_Density_Estimate('-100', Interval(F(1, 2), 1)), '', Reference.make('A', 1900))
    H = Hypothesis_Set(set(hs + [other]))
    out = (ze.compute_best_energy_bound if energy else zd.best_zero_density_estimate)(H)
    E.ensure('set unchanged', len(H) == len(hs) + 1 and all(h in H for h in hs))
    E.ensure('consecutive pieces', consecutive([(h.data.bound, h.data.interval) for h in out], F(1, 2), 1), ([str(h.data) for h in out],))
    for x in trial(rng, F(1, 2), F(1)):
        if any(I.x0 == x or I.x1 == x for a, b, I in fs):
            continue
        p = [h for h in out if bool(h.data.interval.x0 < x) and bool(x < h.data.interval.x1)]
        if len(p) != 1:
            continue
        want = best(fs, x, min, BIG)
        E.ensure('minimum', exact(p[0].data.at(x)) == want, (x, want, str(p[0].data)))
        if want < BIG:
            E.ensure('attributed to a hypothesis attaining it', p[0].hypothesis_type == name and any(p[0].name == h.name and p[0].proof == h.proof and p[0].reference is h.reference and h.data.interval.contains(x) and exact(h.data.at(x)) == want for h in hs), (x,))
    for h, (a, b, I) in zip(hs, fs):
        x = (I.x0 + I.x1) / 2
        from p20 import horner
        E.ensure('estimates keep their value', exact(h.data.at(x)) == horner(a, x) / horner(b, x) and (h.data.interval.x0, h.data.interval.x1) == (I.x0, I.x1))
