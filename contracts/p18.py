"""P18: zero density estimates follow soundly from large value regions."""
from fractions import Fraction as F
from exponent_pair import Exp_pair
from functions import Affine, Interval, RationalFunction as RF
from hypotheses import Hypothesis, Hypothesis_Set
from polytope import Polytope
from reference import Reference
from region import Region, Region_Type
import additive_energy as ad
import large_values as lv
import zero_density_estimate as zd
import zero_density_energy_estimate as ze
from p10 import point

OPTS = {'*': {'time': 150, 'n': 60, 'max_paths': 60000},
        'bounded_edges': {'shards': ('k', 18)}, 'bounded_many': {'shards': ('energy', 2), 'time': 200},
        'check_sup': {'n': 120, 'tl': 30}, 'check_many': {'n': 10, 'tl': 30}, 'check_corollaries': {'n': 16, 'tl': 40}, 'check_ivic': {'n': 40, 'tl': 15}, 'check_bourgain': {'n': 2, 'tl': 20}, 'check_trivial': {'n': 30, 'tl': 20}, 'check_bound': {'n': 16, 'tl': 40}, 'check_energy': {'n': 12, 'tl': 40},
        'assumptions': ["the quotient rho/tau attains its largest value over a polytope section on an edge of the polytope (linear fractional optimisation); get_edges returns the edges of the polytope (native check)",
                        "RationalFunction.max, compute_large_value_region, compute_best_lver, lver_to_energy, project, simplify and compute_large_value_estimate are used through their contracts (P12 to P17, P19) in the symbolic cases"]}

LT = 'Large value estimate'
ZT = 'Zeta large value estimate'
ER = 'Large value energy region'
ZER = 'Zeta large value energy region'
UP = F(1000000)


class Edges:
    """a polytope known by its edges"""
    def __init__(self, es):
        self.es = es

    def get_edges(self):
        return self.es


class Child:
    def __init__(self, p):
        self.child = p


def Shape(ps):
    """a union of polytopes"""
    r = Region(Region_Type.DISJOINT_UNION, [])
    r.child = [Child(p) for p in ps]
    return r


def vertex(E, n, s):
    return [E.real(n + 's', F(1, 2), 1) if s is None else s, E.real(n + 't', F(1, 2), 10), E.real(n + 'r', 0, 10)]


def run(E, ps, D, energy):
    """(edges, functions passed to the maximum)"""
    got = []

    def fmax(fns, domain, track_dependencies=True):
        got.append((fns, domain))
        return 'result'
    E.stub('functions.RationalFunction.max', fmax)
    out = ze.compute_sup_LV_on_tau(Shape(ps), D) if energy else zd.compute_sup_rho_on_tau(ps, D)
    E.ensure('the maximum is returned', len(got) == 1 and out == 'result')
    fns, dom = got[0]
    E.ensure('over the given interval', dom is D or (dom.x0 == D.x0 and dom.x1 == D.x1))
    return fns


def edge_function(q, v, w, t):
    """q is the quotient along the edge"""
    s, tau, rho = [v[i] + t * (w[i] - v[i]) for i in range(3)]
    I = q[1]
    return ((I.x0 == v[0] and I.x1 == w[0] and v[0] < w[0]) or (I.x0 == w[0] and I.x1 == v[0] and w[0] < v[0])) and q[0].at(s) * tau == rho


def prove_edge(E):
    """an edge not at constant sigma gives the quotient rho/tau along it on its sigma range (any edge)"""
    if not E.symbolic:
        return
    v, w = vertex(E, 'a', None), vertex(E, 'b', None)
    t = E.real('t')
    E.assume(0 < t and t < 1)
    fns = run(E, [Edges([(v, w)])], domain(E), E.choice('energy', [False, True]))
    if v[0] == w[0]:
        E.ensure('nothing at constant sigma', len(fns) == 0)
    else:
        E.ensure('one function', len(fns) == 1)
        E.ensure('quotient along the edge', edge_function(fns[0], v, w, t))


def lined(E):
    s = SIGMAS[2 if E.bool('flat') else 4 if E.bool('back') else 0]
    return (vertex(E, 'a', s[0]), vertex(E, 'b', s[1]))


def bounded_many(E):
    """exactly the edges not at constant sigma are used, repeated and reversed ones included (one polytope with any number of edges; bounded: sigma is 1/2 or 3/4 at the ends)"""
    if not E.symbolic:
        return
    ps = [Edges(E.seq('e', lambda j: lined(E)))]
    energy = E.choice('energy', [False, True])

    # quotients of linear functions as pairs of coefficient lists (prove_edge has the real ones)
    def init(self, num, den=None):
        self.num, self.den = num, den

    def div(self, other):
        E.ensure('linear functions', len(self.num) == 2 and len(other.num) == 2 and self.den is None and other.den is None)
        return RF(self.num, other.num)
    E.stub('functions.RationalFunction.__init__', init)
    E.stub('functions.RationalFunction.div', div)

    def along(q, v, w):
        """q is the quotient along the edge; numerator and denominator may share a factor"""
        if v[0] == w[0]:
            return False
        I, f = q[1], q[0]
        ok = I.x0 == min(v[0], w[0]) and I.x1 == max(v[0], w[0])
        at = lambda c, s: c[0] * s + c[1]
        return ok and any(all(at(f.num, u[0]) == c * u[2] and at(f.den, u[0]) == c * u[1] for u in (v, w)) for c in (1,))
    fns = run(E, ps, domain(E), energy)
    i, j = E.int('i', 0), E.int('j', 0)
    if i < len(ps) and j < len(ps[i].es):
        v, w = ps[i].es[j]
        if v[0] != w[0]:
            E.ensure('every edge', any(along(q, v, w) for q in fns))
    n = E.int('n', 0)
    if n < len(fns):
        q = fns[n]
        E.ensure('only edges', any(any(along(q, e[0], e[1]) for e in p.es) for p in ps))


SIGMAS = [(F(1, 2), F(3, 4)), (F(1), F(1, 2)), (F(3, 4), F(3, 4)), (F(1, 2), F(1)), (F(3, 4), F(1, 2))]


def bounded_edges(E):
    """exactly the edges not at constant sigma are used, also repeated and reversed ones (bounded: up to 2 polytopes with up to 2 edges, listed sigma)"""
    if not E.symbolic:
        return
    k = E.choice('k', [(a, b, c) for a in ((2,), (1, 1), (0, 2)) for b in (False, True) for c in ('new', 'again', 'reversed')])
    ps, es = [], []
    for i in range(len(k[0])):
        mine = []
        for j in range(k[0][i]):
            n = str(i) + str(j)
            if not es:
                e = (vertex(E, 'a', F(1, 2)), vertex(E, 'b', F(3, 4)))
            elif k[2] == 'new':
                c, d = E.choice('sigmas', SIGMAS)
                e = (vertex(E, 'c', c), vertex(E, 'd', d))
            else:
                v, w = es[0] if k[2] == 'again' else (es[0][1], es[0][0])
                e = (list(v), list(w))
            mine.append(e)
            es.append(e)
        ps.append(Edges(mine))
    t = E.real('t')
    E.assume(0 < t and t < 1)
    fns = run(E, ps, domain(E), k[1])
    es = [e for e in es if e[0][0] != e[1][0]]
    E.ensure('no more functions than edges', len(fns) <= len(es))
    for v, w in es:
        E.ensure('every edge', any(edge_function(q, v, w, t) for q in fns))
    for q in fns:
        E.ensure('only edges', any(edge_function(q, v, w, t) for v, w in es))


# ------------------------------------------------------------------------------- corollaries
def arbitrary(E, n):
    r = RF([])
    r.num = E.sfun(n)
    r.den = 1
    return r


def domain(E):
    lo, hi = E.real('lo'), E.real('hi')
    E.assume(lo < hi)
    return Interval(lo, hi)


class World:
    pass


def at_point(fs, s):
    """largest value of the pieces at s"""
    v = -UP
    for q in fs:
        if q[1].x0 < s and s < q[1].x1:
            w = q[0].at(s)
            if w > v:
                v = w
    return v


def pieces(E, n, s):
    """a piecewise function of which one piece contains s"""
    a, b, c = E.real(n + 'a'), E.real(n + 'b'), E.real(n + 'c')
    E.assume(a < s and s < b and b < c)
    f, g = arbitrary(E, n + 'f'), arbitrary(E, n + 'g')
    E.assume(f.at(s) >= -UP)
    return [(f, Interval(a, b), 0), (g, Interval(b, c), 1)]


def maximum(E, s):
    """contract of RationalFunction.max at s (P19)"""
    def fmax(fns, domain, track_dependencies=True):
        out = pieces(E, 'm' + str(E.fresh_int('m')) if False else 'm', s)
        E.assume(out[0][0].at(s) == at_point(fns, s))
        World.domain = domain
        return out if track_dependencies else [(q[0], q[1]) for q in out]
    E.stub('functions.RationalFunction.max', fmax)


def hyp(E, n, t, data):
    return Hypothesis(n, t, data, 'proof', Reference.make('A', E.int('y' + n, 1900, 2030)))


def outcome(E, hs, s, want, deps, kind, D):
    """the bounds returned are want(sigma) / (1 - sigma)"""
    here = [h for h in hs if h.data.interval.x0 < s and s < h.data.interval.x1]
    E.ensure('one bound at a point', len(here) == 1)
    E.ensure('the larger supremum divided by 1 - sigma', here[0].data.at(s) * (1 - s) == want)
    E.ensure('interval asked for', World.domain.x0 == D.x0 and World.domain.x1 == D.x1)
    E.ensure('kind', all(h.hypothesis_type == kind and h.reference.is_derived() for h in hs))
    E.ensure('depends on the regions used', all(len(h.dependencies) == len(deps) and all(d in h.dependencies for d in deps) for h in hs))


def prove_corollaries(E):
    """lv_zlv_to_zd and lv_zlv_to_zd2: the regions of their corollaries, the larger supremum, division by 1 - sigma, provenance"""
    if not E.symbolic:
        return
    E.render()
    two = E.choice('two', [False, True])
    x = point(E, 'x', 3)
    s = E.real('s', F(1, 2), 1)
    E.assume(s < 1)
    D = domain(E)
    H = Hypothesis_Set()
    h0 = hyp(E, 'h', LT, 'data')
    H.add_hypothesis(h0)
    z0 = hyp(E, 'z', ZT, 'data')
    calls = []
    sups = []

    def region(hypotheses, domain, zeta=False, debug=False):
        h = hyp(E, 'r' + str(len(calls)), ZT if zeta else LT, lv.Large_Value_Estimate(Region(Region_Type.DISJOINT_UNION, []), 'r'))
        h.data.region.child = [Child('p' + str(len(calls)))]
        calls.append((hypotheses, domain, zeta, z0 in hypotheses.hypotheses, h))
        return h

    def sup(polys, sigma_interval):
        f = pieces(E, 'q' + str(len(sups)), s)
        sups.append((polys, sigma_interval, f))
        return f
    E.stub('helpers.str_helper.Str_Helper.format', lambda *a, **k: 'text')
    E.stub('zero_density_estimate.compute_large_value_region', region)
    E.stub('zero_density_estimate.compute_sup_rho_on_tau', sup)
    E.stub('zeta_large_values.compute_large_value_estimate', lambda hypotheses: [z0])
    E.stub('functions.RationalFunction.__repr__', lambda self: 'f')
    maximum(E, s)
    if two:
        t0 = Affine(E.real('m'), E.real('c'), D)
        hs = zd.lv_zlv_to_zd2(H, D, t0)
        v = t0.m * x[0] + t0.c
        lo, hi, top = F(2, 3) * v, v, F(4, 3) * v
    else:
        t0 = E.real('t0')
        E.assume(t0 >= 2)
        hs = zd.lv_zlv_to_zd(H, D, t0)
        lo, hi, top = t0, 2 * t0, t0
    E.ensure('two regions', len(calls) == 2 and len(sups) == 2)
    strip = D.x0 <= x[0] and x[0] <= D.x1 and 0 <= x[2] and x[2] <= UP
    for hyps, dom, zeta, known, h in calls:
        E.ensure('region of the set', hyps is H)
        if zeta:
            E.ensure('zeta region', dom.contains(x) == (strip and 2 <= x[1] and x[1] <= top))
            E.ensure('zeta estimates are known', known)
        else:
            E.ensure('large value region', dom.contains(x) == (strip and lo <= x[1] and x[1] <= hi))
        mine = [q for q in sups if q[0] == [h.data.region.child[0].child]]
        E.ensure('supremum over the region', len(mine) == 1 and mine[0][1].x0 == D.x0 and mine[0][1].x1 == D.x1)
    E.ensure('one of each', sum(1 for c in calls if c[2]) == 1)
    a, b = at_point(sups[0][2], s), at_point(sups[1][2], s)
    outcome(E, hs, s, a if a >= b else b, [c[4] for c in calls], 'Zero density estimate', D)
    E.ensure('the set keeps its hypotheses', h0 in H)


def prove_regions(E):
    """lver_to_zd: the supremum over the projected regions that are given, division by 1 - sigma, provenance"""
    if not E.symbolic:
        return
    E.render()
    s = E.real('s', F(1, 2), 1)
    E.assume(s < 1)
    D = domain(E)
    use = E.choice('use', [(True, True), (True, False), (False, True), (False, False)])
    sups = []
    regs, src, args, how = [], [], [], {}
    for i in range(2):
        r = Region(Region_Type.DISJOINT_UNION, [])
        d = {hyp(E, 'd' + str(i) + str(j), ER, 'data') for j in range(2)}
        h = hyp(E, 'e' + str(i), ZER if i else ER, ad.Large_Value_Energy_Region(r))
        h.dependencies = d
        regs.append(r)
        src.append(d)
        args.append(h if use[i] else None)
    E.stub('region.Region.to_str', lambda self, *a, **k: 'text')

    def project(self, dims):
        i = 0 if self is regs[0] else 1
        E.ensure('projected to sigma, tau, rho', set(dims) == {0, 1, 2} and (self is regs[0] or self is regs[1]))
        how[i] = E.choice('projection' + str(i), ['union', 'polytope', 'empty'])
        if how[i] == 'empty':
            return None
        if how[i] == 'polytope':
            r = Region(Region_Type.POLYTOPE, Polytope([[F(1), F(0), F(0), F(0)]]))
            r.child = 'p' + str(i)
            return r
        r = Region(Region_Type.DISJOINT_UNION, [])
        r.child = [Child('p' + str(i))]
        return r

    def sup(polys, sigma_interval):
        f = pieces(E, 'q' + polys[0], s)
        E.ensure('the whole projection', len(polys) == 1)
        E.ensure('interval of the supremum', sigma_interval.x0 == D.x0 and sigma_interval.x1 == D.x1)
        sups.append((polys[0], f))
        return f
    E.stub('region.Region.project', project)
    E.stub('region.Region.simplify', lambda self: None)
    E.stub('zero_density_estimate.compute_sup_rho_on_tau', sup)
    E.stub('functions.RationalFunction.__repr__', lambda self: 'f')
    maximum(E, s)
    hs = zd.lver_to_zd(args[0], args[1], D)
    E.ensure('one supremum of each region', all(sum(1 for q in sups if q[0] == 'p' + str(i)) == (1 if use[i] and how[i] != 'empty' else 0) for i in range(2)))
    want = -UP
    for n, f in sups:
        v = at_point(f, s)
        if v > want:
            want = v
    outcome(E, hs, s, want, [d for i in range(2) if use[i] for d in src[i]], 'Zero density estimate', D)
    E.ensure('regions untouched', all(args[i] is None or (args[i].data.region is regs[i] and args[i].dependencies == src[i]) for i in range(2)))


def prove_energy(E):
    """lver_to_energy_bound: the sigma, tau domains of its corollary, the supremum of the projected regions, division by 1 - sigma, provenance"""
    if not E.symbolic:
        return
    E.render()
    s = E.real('s', F(1, 2), 1)
    E.assume(s < 1)
    D = domain(E)
    x = point(E, 'x', 2)
    t0 = Affine(E.real('m'), E.real('c'), D)
    use = E.choice('use', [(True, True), (True, False), (False, True), (False, False)])
    H = Hypothesis_Set()
    calls, sups, made = [], [], []

    def best(hypotheses, domain, zeta=False, debug=False):
        h = hyp(E, 'b' + str(int(zeta)), ZER if zeta else ER, ad.Large_Value_Energy_Region(Region(Region_Type.DISJOINT_UNION, [])))
        calls.append((hypotheses, domain, zeta, h))
        return h

    def energy(h):
        i = [c for c in calls if c[3] is h]
        E.ensure('energy of the region computed', len(i) == 1)
        z = i[0][2]
        if not use[1 if z else 0]:
            return None
        e = hyp(E, 'e' + str(int(z)), 'Additive energy estimate', ad.Large_Value_Energy_Region(Region(Region_Type.DISJOINT_UNION, [])))
        made.append((z, e))
        return e

    def sup(region, sigma_interval):
        i = [e for e in made if e[1].data.region is region]
        E.ensure('supremum of the energy region', len(i) == 1 and sigma_interval.x0 == D.x0 and sigma_interval.x1 == D.x1)
        f = pieces(E, 'q' + str(int(i[0][0])), s)
        sups.append((i[0][0], f))
        return f
    E.stub('region.Region.to_str', lambda self, *a, **k: 'text')
    E.stub('additive_energy.compute_best_lver', best)
    E.stub('additive_energy.lver_to_energy', energy)
    E.stub('zero_density_energy_estimate.compute_sup_LV_on_tau', sup)
    E.stub('functions.RationalFunction.__repr__', lambda self: 'f')
    maximum(E, s)
    hs = ze.lver_to_energy_bound(H, t0)
    E.ensure('one region of each kind', len(calls) == 2 and sum(1 for c in calls if c[2]) == 1)
    v = t0.m * x[0] + t0.c
    strip = D.x0 <= x[0] and x[0] <= D.x1
    for hyps, dom, zeta, h in calls:
        E.ensure('region of the set', hyps is H)
        if zeta:
            E.ensure('zeta domain', dom.contains(x) == (strip and 2 <= x[1] and x[1] <= v))
        else:
            E.ensure('domain', dom.contains(x) == (strip and v <= x[1] and x[1] <= 2 * v))
    E.ensure('one supremum of each', all(sum(1 for q in sups if q[0] == bool(i)) == (1 if use[i] else 0) for i in range(2)))
    want = -UP
    for n, f in sups:
        w = at_point(f, s)
        if w > want:
            want = w
    outcome(E, hs, s, want, [e for z, e in made], 'Zero density energy estimate', D)


def near(u, v):
    return u == v


def sigma0(m, k, l):
    """the least sigma of the theorem"""
    v = (3 * m * m * (1 + 2 * k + 2 * l) - (4 * k + 2 * l) * m + 2 * k + 2 * l) / (4 * m * m * (1 + 2 * k + 2 * l) - (6 * k + 4 * l) * m + 2 * k + 2 * l)
    a = F(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2)
    b = F(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2)
    return (v, a, b)


def ivic(E, m, call):
    E.render()
    hs = E.seq('pairs', lambda i: hyp(E, 'e', 'Exponent pair', Exp_pair(E.real('k', 0, F(1, 2)), E.real('l', F(1, 2), 1))), min=1)
    z = call(hs)
    E.ensure('depends on one pair', len(z.dependencies) == 1 and any(h in z.dependencies for h in hs))
    dep = next(iter(z.dependencies))
    v, a, b = sigma0(m, dep.data.k, dep.data.l)
    lo = z.data.interval.x0
    E.ensure('the condition of the theorem holds', z.data.interval.x1 == 1 and (lo >= b or (lo >= a and lo >= v)))
    E.ensure('widest interval', lo <= b and (lo <= a or all(lo <= sigma0(m, h.data.k, h.data.l)[0] for h in hs)))
    E.ensure('kind', z.hypothesis_type == 'Zero density estimate')
    if not E.symbolic:
        for x in (lo, (lo + 1) / 2, F(1)):
            E.ensure('bound', near(F(str(z.data.at(x))) if z.data.interval.contains(x) else F(3 * m) / ((3 * m - 2) * x + 2 - m), F(3 * m) / ((3 * m - 2) * x + 2 - m)))
    E.ensure('provenance', z.reference.is_derived() and z.reference.year() == dep.reference.year())
    E.ensure('pairs unchanged', all(len(h.dependencies) == 0 for h in hs))


def prove_ivic(E):
    """ivic_ep_to_zd (m = 2, as called by default) for any number of exponent pairs"""
    ivic(E, 2, lambda hs: zd.ivic_ep_to_zd(hs))


def bounded_ivic(E):
    """ivic_ep_to_zd for any number of exponent pairs (bounded: m from 2 to 6)"""
    m = E.choice('m', [2, 3, 4, 5, 6])
    ivic(E, m, lambda hs: zd.ivic_ep_to_zd(hs, m))


# ------------------------------------------------------------------------------- concrete runs with cdd and sympy
def best_quotient(cells, s, i=2):
    """largest rho/tau over the sections at s (None if there are none)"""
    import polyx
    v = []
    for c in cells:
        d = polyx.clip_all(c, [], [[-s] + [F(1)] + [F(0)] * (len(c[1][0]) - 1)]) if c[1] else c
        v += [x[i] / x[1] for x in d[1]]
    return max(v) if v else None


def compare(E, pairs, cells, s, name, scale=1, i=2):
    """the piece at s has the value of the exact supremum"""
    from p20 import exact
    ps = [f for f, I in pairs if bool(I.x0 < s) and bool(s < I.x1)]
    if len(ps) != 1:
        E.ensure('one piece at a point', any(I.x0 == s or I.x1 == s for f, I in pairs), (s, [str(I) for f, I in pairs]))
        return
    want = best_quotient(cells, s, i)
    E.ensure('exact', exact(ps[0].at(s)) is not None, (s,))
    E.ensure(name, (exact(ps[0].at(s)) or F(0)) * scale == (-UP if want is None else want), (s, ps[0].at(s), want))


def trials(rng, lo, hi, k=6):
    return [lo + (hi - lo) * F(rng.randint(1, 996), 997) for i in range(k)]


def check_sup(E):
    """suprema of rho/tau over random polytopes against exact sections"""
    import polyx
    from p12 import snapshot
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    ints = rng.random() < 0.3
    lims = [(F(0), F(2)), (F(1), F(4)), (F(0), F(3))] if ints else [(F(1, 2), F(1)), (F(1), F(3)), (F(0), F(2))]
    polys = []
    for i in range(rng.randint(0, 3)):
        sub = []
        for lo, hi in lims:
            a, b = sorted(rng.sample([lo, hi, lo + (hi - lo) / 2, lo + (hi - lo) / 4], 2))
            sub.append((a, b) if rng.random() < 0.5 else (lo, hi))
        if rng.random() < 0.1:
            # a piece at a single value of sigma does not count
            sub[0] = (sub[0][0], sub[0][0])
        rows = polyx.box_rows(sub)
        if rng.random() < 0.8:
            rows += [r for r in polyx.rand_rows(rng, 3, rng.randint(1, 2), 2) if any(r[1:])]
        if len(polyx.clip_all(polyx.box_cell(lims), rows)[1]) < 2:
            continue
        p = Polytope(rows, canonicalize=rng.random() < 0.5)
        if rng.random() < 0.3:
            p.get_vertices()
        polys.append(p)
    if polys and rng.random() < 0.15:
        polys.append(polys[0])
    cells = [polyx.clip_all(polyx.box_cell(lims), *polyx.rows_of(p)) for p in polys]
    lo, hi = lims[0]
    if rng.random() < 0.4:
        lo, hi = lo + (hi - lo) / 8, hi - (hi - lo) / 3
    D = Interval(lo, hi)
    if rng.random() < 0.5:
        out = zd.compute_sup_rho_on_tau(polys, D)
    else:
        out = ze.compute_sup_LV_on_tau(Region.disjoint_union([Region.from_polytope(p) for p in polys]), D)
    out = [(q[0], q[1]) for q in out]
    E.ensure('the interval is covered', out[0][1].x0 == lo and out[-1][1].x1 == hi)
    vs = {v[0] for c in cells for v in c[1]}
    for s in trials(rng, lo, hi):
        if s not in vs:
            compare(E, out, cells, s, 'supremum over the section')


def check_many(E):
    """suprema over many polytopes, the largest of them anywhere in the list"""
    import polyx
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    n = rng.choice([5, 9, 14])
    lo, hi = F(1, 2), F(1)
    lims = [(lo, hi), (F(1), F(3)), (F(0), F(2))]
    polys = []
    for i in range(n):
        a, b = sorted(rng.sample(range(0, 9), 2))
        if rng.random() < 0.6:
            a, b = i * 8 // n, i * 8 // n + 1
        sub = [(lo + F(a, 16), lo + F(b, 16)), (F(1) + F(rng.randint(0, 3), 2), F(3)), (F(0), F(rng.randint(1, 8), 4))]
        rows = polyx.box_rows(sub)
        if rng.random() < 0.3:
            rows.append([F(6), F(rng.randint(-2, 2)), F(-1), F(-1)])
        polys.append(Polytope(rows))
    cells = [polyx.clip_all(polyx.box_cell(lims), *polyx.rows_of(p)) for p in polys]
    D = Interval(lo, hi)
    if rng.random() < 0.5:
        out = zd.compute_sup_rho_on_tau(polys, D)
    else:
        out = ze.compute_sup_LV_on_tau(Region.disjoint_union([Region.from_polytope(p) for p in polys]), D)
    out = [(q[0], q[1]) for q in out]
    vs = {v[0] for c in cells for v in c[1]}
    for s in trials(rng, lo, hi, 12):
        if s not in vs:
            compare(E, out, cells, s, 'supremum over the section')


def leaves(R):
    if isinstance(R.child, list):
        return [p for c in R.child for p in leaves(c)]
    return [R.child] if isinstance(R.child, Polytope) else leaves(R.child)


def product_cells(regions, rows, lims):
    """cells of an intersection of unions of polytopes"""
    import polyx
    cells = [polyx.clip_all(polyx.box_cell(lims), rows)]
    for R in regions:
        new = []
        for c in cells:
            for p in leaves(R):
                d = polyx.clip_all(c, *polyx.rows_of(p)) if c[1] else c
                if d[1] and polyx.full_dim(d):
                    new.append(d)
        cells = new
    return cells


def check_corollaries(E):
    """lv_zlv_to_zd and lv_zlv_to_zd2 on random sets against exact sections"""
    import zeta_large_values as zlv
    from p17 import est
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    hs = [est(rng, i) for i in range(rng.randint(1, 2))]
    zs = [est(rng, 10 + i, ZT) for i in range(rng.randint(0, 1))]
    H = Hypothesis_Set(set(hs + zs))
    bs = []
    if rng.random() < 0.5:
        from bound_beta import Bound_beta
        bs = [Hypothesis('b', 'Upper bound on beta', Bound_beta(Affine(F(1, 2), rng.choice([F(1, 6), F(1, 4), F(1, 8)]), Interval(F(0), F(1, 2)))), 'p', Reference.make('A', 1990))]
        H.add_hypotheses(bs)
    known = zlv.compute_large_value_estimate(H) + zs
    lo, hi = sorted(rng.sample([F(1, 2), F(5, 8), F(3, 4), F(7, 8), F(1)], 2))
    D = Interval(lo, hi)
    TOP = F(10 ** 6)
    if rng.random() < 0.5:
        t0 = rng.choice([F(2), F(5, 2), F(3)])
        if t0 == 2 and rng.random() < 0.5:
            t0 = F(3)
        out = zd.lv_zlv_to_zd(H, D, t0) if t0 != 3 or rng.random() < 0.5 else zd.lv_zlv_to_zd(H, D)
        first = [[-t0, 0, 1, 0], [2 * t0, 0, -1, 0]]
        second = [[-2, 0, 1, 0], [t0, 0, -1, 0]]
    else:
        A = Affine(F(rng.randint(-2, 4)), F(rng.randint(2, 3)), D)
        if A.at(lo, True) < F(3, 2) or A.at(hi, True) < F(3, 2):
            return
        out = zd.lv_zlv_to_zd2(H, D, A)
        first = [[-F(2, 3) * A.c, -F(2, 3) * A.m, 1, 0], [A.c, A.m, -1, 0]]
        second = [[-2, 0, 1, 0], [F(4, 3) * A.c, F(4, 3) * A.m, -1, 0]]
    lims = [(lo, hi), (F(1, 10), F(30)), (F(0), TOP)]
    a = product_cells([h.data.region for h in hs], [list(map(F, r)) for r in first], lims)
    b = product_cells([h.data.region for h in hs + known], [list(map(F, r)) for r in second], lims)
    cells = a + b
    E.ensure('the interval is covered', out[0].data.interval.x0 == lo and out[-1].data.interval.x1 == hi)
    E.ensure('the set keeps its hypotheses', all(h in H for h in hs + zs + bs))
    for h in out:
        E.ensure('provenance', len(h.dependencies) == 2 and {d.hypothesis_type for d in h.dependencies} == {LT, ZT} and h.hypothesis_type == 'Zero density estimate')
    vs = {v[0] for c in cells for v in c[1]}
    for s in trials(rng, lo, hi):
        if s not in vs:
            compare(E, [(h.data.bound, h.data.interval) for h in out], cells, s, 'bound on A(sigma)', 1 - s)


def check_bound(E):
    """lver_to_energy_bound on random sets of energy regions against exact sections"""
    import polyx
    from p16 import energy_region
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    mk = lambda i, t: Hypothesis('%s%d' % (t[0], i), t, ad.Large_Value_Energy_Region(energy_region(rng, False)), 'p', Reference.make('A', 1990 + i))
    hs = [mk(i, ER) for i in range(rng.randint(1, 2))]
    zs = [mk(i, ZER) for i in range(rng.randint(0, 1))]
    lo, hi = rng.choice([(F(1, 2), F(1)), (F(1, 2), F(3, 4)), (F(3, 4), F(1))])
    A = Affine(F(rng.randint(-1, 1)), rng.choice([F(3), F(2), F(7, 2)]), Interval(lo, hi))
    if A.at(lo, True) < 1 or A.at(hi, True) < 1:
        return
    H = Hypothesis_Set(set(hs + zs))
    out = ze.lver_to_energy_bound(H, A)
    lims = [(lo, hi), (F(1, 2), F(10)), (F(0), F(4)), (F(0), F(4)), (F(0), F(4))]
    pad = lambda r: list(map(F, r)) + [F(0)] * 3
    cells = product_cells([h.data.region for h in hs], [pad([-A.c, -A.m, 1]), pad([2 * A.c, 2 * A.m, -1])], lims)
    cells += product_cells([h.data.region for h in hs + zs], [pad([-2, 0, 1]), pad([A.c, A.m, -1])], lims)
    E.ensure('provenance', all(h.hypothesis_type == 'Zero density energy estimate' and h.reference.is_derived() for h in out))
    E.ensure('the interval is covered', out[0].data.interval.x0 == lo and out[-1].data.interval.x1 == hi)
    vs = {v[0] for c in cells for v in c[1]}
    for s in trials(rng, lo, hi, 4):
        if s not in vs:
            compare(E, [(h.data.bound, h.data.interval) for h in out], cells, s, 'bound on the energy', 1 - s, 3)


def check_energy(E):
    """lver_to_zd on random energy regions against exact projections"""
    import polyx
    from p16 import energy_region
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    regs = [energy_region(rng, False) if rng.random() < 0.8 else None for i in range(2)]
    deps = [{Hypothesis('d%d' % i, ER, 'x', 'p', Reference.make('A', 1990 + i))} for i in range(2)]
    hs = []
    for i in range(2):
        h = None
        if regs[i] is not None:
            h = Hypothesis('h%d' % i, ZER if i else ER, ad.Large_Value_Energy_Region(regs[i].as_disjoint_union()), 'p', Reference.make('A', 1990))
            h.dependencies = set(deps[i])
        hs.append(h)
    lo, hi = rng.choice([(F(1, 2), F(1)), (F(1, 2), F(3, 4)), (F(3, 4), F(1))])
    try:
        out = zd.lver_to_zd(hs[0], hs[1], Interval(lo, hi))
    finally:
        pass
    cells = []
    for r in regs:
        if r is not None:
            for p in r.child:
                cells.append(polyx.clip_all(polyx.box_cell([(F(1, 2), F(1)), (F(1), F(3))] + [(F(0), F(4))] * 3), *polyx.rows_of(p.child)))
    E.ensure('provenance', all(h.dependencies == {d for i in range(2) if regs[i] is not None for d in deps[i]} and h.hypothesis_type == 'Zero density estimate' for h in out))
    vs = {v[0] for c in cells for v in c[1]}
    for s in trials(rng, lo, hi, 4):
        if s not in vs:
            compare(E, [(h.data.bound, h.data.interval) for h in out], cells, s, 'bound on A(sigma)', 1 - s)


def check_ivic(E):
    """ivic_ep_to_zd gives its theorem's bound"""
    from p20 import exact
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    m = rng.randint(1, 12)
    pairs = [(F(rng.randint(0, 20), 40), F(rng.randint(20, 40), 40)) for i in range(rng.randint(1, 4))]
    hs = [Hypothesis('e', 'Exponent pair', Exp_pair(k, l), 'p', Reference.make('A', 1990)) for k, l in pairs]
    z = zd.ivic_ep_to_zd(hs, m)
    I = z.data.interval
    for x in [I.x0] + trials(rng, I.x0, F(1), 4):
        if I.contains(x):
            E.ensure('bound', exact(z.data.at(x)) == F(3 * m) / ((3 * m - 2) * x + 2 - m), (m, x))


def check_bourgain(E):
    """bourgain_ep_to_zd gives its theorem's bound where the condition holds"""
    from p20 import exact
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    hs = zd.bourgain_ep_to_zd()
    E.ensure('some bounds', len(hs) > 0)
    for h in hs:
        E.ensure('depends on one pair', len(h.dependencies) == 1)
        d = list(h.dependencies)[0].data
        k, l, I = F(d.k), F(d.l), h.data.interval
        E.ensure('pair in range', k <= F(1, 5) and l >= F(3, 5) and 15 * l + 20 * k >= 13)
        need = max(F(1, 2), (l + 1) / (2 * (k + 1)), (144 * k - 11 * l - 11) / (170 * k - 22) if k > F(11, 85) else F(1, 2))
        E.ensure('condition', I.x0 >= need and I.x0 < I.x1 and I.x1 <= 1)
        for x in trials(rng, F(I.x0), F(I.x1), 3):
            E.ensure('bound', exact(h.data.at(x)) == 4 * k / (2 * (1 + k) * x - 1 - l), (str(h.data), x))


def check_trivial(E):
    """add_trivial_zero_density_energy_estimates on random estimates, written and derived"""
    from p19 import rand_piece, expression
    from p20 import horner, exact
    rng = E.rng
    E.int('seed', 0, 10 ** 9)
    fs, hs = [], []
    for i in range(rng.randint(0, 3)):
        lo, hi = sorted(rng.sample([F(1, 2), F(5, 8), F(3, 4), F(7, 8), F(1)], 2))
        a, b = rand_piece(rng, lo, hi)
        I = Interval(lo, hi)
        data = zd.Zero_Density_Estimate(expression(a, b), I) if rng.random() < 0.5 else zd.Zero_Density_Estimate.from_rational_func(RF(a, b), I)
        if rng.random() < 0.3:
            data.at(lo)
        fs.append((a, b, lo, hi))
        hs.append(Hypothesis('h%d' % i, 'Zero density estimate', data, 'p', Reference.make('A', 1990 + i)))
    H = Hypothesis_Set(set(hs))
    ze.add_trivial_zero_density_energy_estimates(H)
    out = H.list_hypotheses('Zero density energy estimate')
    E.ensure('one of each and the trivial one', len(out) == len(hs) + 1 and len(H) == 2 * len(hs) + 1 and all(h in H for h in hs))
    fs.append(([F(1)], [F(-1), F(1)], F(1, 2), F(1)))
    for a, b, lo, hi in fs:
        ts = trials(rng, lo, hi, 3)
        E.ensure('three times the bound', any(h.data.interval.x0 == lo and h.data.interval.x1 == hi and all(exact(h.data.at(x)) == 3 * horner(a, x) / horner(b, x) for x in ts) for h in out), (lo, hi))
    for h, (a, b, lo, hi) in zip(hs, fs):
        E.ensure('estimates kept', exact(h.data.at((lo + hi) / 2)) == horner(a, (lo + hi) / 2) / horner(b, (lo + hi) / 2))
