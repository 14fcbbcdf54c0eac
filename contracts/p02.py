"""P02: piecewise-affine min/max is pointwise optimal."""
from fractions import Fraction as F
from functions import Interval, Affine
from lib import inside, interval, affine, iv_fields, aff_fields, value, crit_points

OPTS = {'*': {'time': 150, 'n': 400, 'max_paths': 200000},
        'bounded_one': {'shards': ('shard', 8)},
        'check_many': {'n': 1500, 'tl': 20},
        'assumptions': ["the symbolic cases bound the number of other functions by one; longer lists are bounded concrete runs"]}


def spec_at(E, pieces, fs, dom, x, mx):
    """The pieces at x are exactly one piece with the optimum over the functions defined at x."""
    defined = False
    inD = dom is None or inside(dom, x)
    n = 0
    for p in pieces:
        if inside(p.domain, x):
            n += 1
            v = value(p, x)
            E.ensure('a piece covers only points of the domain', inD)
            att = False
            for f in fs:
                if inside(f.domain, x):
                    w = value(f, x)
                    E.ensure('the value is optimal over all functions defined at the point', (v >= w) if mx else (v <= w))
                    if w == v:
                        att = True
            E.ensure('the value is attained by a function defined at the point', att)
            lab = False
            for f in fs:
                if f.label == p.label:
                    lab = lab or (inside(f.domain, x) and value(f, x) == v)
            E.ensure('the label names a function attaining the optimum there', lab)
    E.ensure('pieces are disjoint', n <= 1)
    if inD:
        defined = False
        for f in fs:
            if inside(f.domain, x):
                defined = True
        if defined:
            E.ensure('every point where a function is defined is covered', n == 1)
        else:
            E.ensure('no point without a function is covered', n == 0)


def order(E, pieces):
    for p, q in zip(pieces, pieces[1:]):
        E.ensure('pieces are in increasing order', p.domain.x0 <= q.domain.x0 and p.domain.x1 <= q.domain.x1)


def run(E, f, g, dom, mx, x):
    fs = [f] + g
    before = [aff_fields(h) for h in fs]
    bd = None if dom is None else iv_fields(dom)
    glist = list(g)
    pieces = f.max_with(g, dom) if mx else f.min_with(g, dom)
    E.ensure('inputs unchanged', [aff_fields(h) for h in fs] == before and (dom is None or iv_fields(dom) == bd)
             and len(g) == len(glist) and all(a is b for a, b in zip(g, glist)))
    for p in pieces:
        for h in fs:
            E.ensure('pieces are new objects', p is not h and p.domain is not h.domain)
    order(E, pieces)
    if x is None:
        pts = crit_points(fs + pieces, [] if dom is None else [dom.x0, dom.x1])
        for y in pts:
            spec_at(E, pieces, fs, dom, y, mx)
    else:
        spec_at(E, pieces, fs, dom, x, mx)


def iv(a, b, l, u):
    return Interval(F(a), F(b), l, u)


def configs():
    """Domains of f and g, and the domain argument (end points fixed, brackets as listed)."""
    c01, c12 = iv(0, 1, True, True), iv(1, 2, True, True)
    return [
        (iv(0, 2, True, True), iv(0, 2, True, True), None),
        (iv(0, 2, True, False), iv(1, 3, True, True), None),
        (iv(0, 1, True, True), iv(1, 2, False, True), None),
        (iv(0, 3, False, False), iv(1, 2, True, False), iv(0, 3, True, True)),
        (iv(0, 2, True, True), iv(0, 2, False, True), iv(0, 2, True, True)),
        (iv(0, 4, True, True), iv(-1, 3, True, False), iv(1, 2, False, True)),
        (iv(1, 1, True, True), iv(0, 2, True, True), None),
        (iv(0, 1, True, False), iv(2, 3, False, True), iv(-1, 4, True, False)),
    ]


def bounded_one(E):
    """f and one other function with arbitrary slopes and intercepts on 8 domain configurations, every point x (bounded: 1 other function, listed end points)"""
    s = E.choice('shard', [0, 1, 2, 3, 4, 5, 6, 7])
    E.merge_objs()
    mx = E.bool('mx')
    df, dg, dom = configs()[s]
    f = Affine(E.real('fm'), E.real('fc'), df, 0)
    g = Affine(E.real('gm'), E.real('gc'), dg, 1)
    x = E.real('x')
    if mx:
        run(E, f, [g], dom, True, x)
    else:
        run(E, f, [g], dom, False, x)


def bounded_none(E):
    """f alone, with and without a domain"""
    f = affine(E, 'f', 7)
    mx = E.choice('mx', [False, True])
    d = None if E.choice('d', [0, 1]) == 0 else interval(E, 'd')
    if d is not None:
        E.assume(not d.is_empty())
    x = E.real('x')
    run(E, f, [], d, mx, x)


def check_many(E):
    """up to 5 functions, all brackets, optional domain (bounded, concrete)"""
    n = E.count('n', 0, 5)
    fs = [affine(E, 'f' + str(i), i if E.choice('lab', [0, 0, 0, 1]) == 0 else None) for i in range(n + 1)]
    if any(h.label is None for h in fs):
        for h in fs:
            h.label = None
    dom = interval(E, 'd') if E.bool('hasd') else None
    mx = E.bool('mx')
    run(E, fs[0], fs[1:], dom, mx, None)


def check_integers(E):
    """functions with integer coefficients and end points: crossings are exact (concrete)"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)

    def fn(i):
        a, b = sorted([rng.randint(-4, 4), rng.randint(-4, 4)])
        return Affine(rng.randint(-7, 7), rng.randint(-5, 5), Interval(a, b, rng.random() < 0.5, rng.random() < 0.5), i)
    fs = [fn(i) for i in range(rng.randint(2, 4))]
    run(E, fs[0], fs[1:], None, rng.random() < 0.5, None)
    for f in fs:
        for g in fs:
            t = f.intersection(g)
            if f.m != g.m:
                x = F(g.c - f.c, f.m - g.m)
                E.ensure('intersection', t == (x if inside(f.domain, x) and inside(g.domain, x) else None), (aff_fields(f), aff_fields(g), t))
            else:
                E.ensure('no intersection of parallel lines', t is None)


def check_touching(E):
    """pieces of the same functions on neighbouring intervals with any brackets (concrete)"""
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    lines = [(F(rng.randint(-2, 2)), F(rng.randint(-2, 2))) for _ in range(rng.randint(1, 2))]
    lab = rng.choice([None, None, 'own', 'line'])
    fs = []
    for i in range(rng.randint(2, 5)):
        k = rng.randrange(len(lines))
        a = rng.randint(0, 3)
        b = a + rng.choice([0, 1, 1, 2])
        fs.append(Affine(lines[k][0], lines[k][1], Interval(F(a), F(b), rng.random() < 0.4, rng.random() < 0.4), None if lab is None else i if lab == 'own' else 'f' + str(k)))
    d = None
    if rng.random() < 0.4:
        a = rng.randint(0, 2)
        d = Interval(F(a), F(a + rng.randint(1, 3)), rng.random() < 0.5, rng.random() < 0.5)
    run(E, fs[0], fs[1:], d, rng.random() < 0.5, None)
