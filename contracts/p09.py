"""P09: provenance queries follow the dependency graph."""
from fractions import Fraction as F
from hypotheses import Hypothesis, Hypothesis_Set
from reference import Reference
from exponent_pair import Exp_pair, derived_exp_pair
from bound_beta import derived_bound_beta
from bound_mu import derived_bound_mu
from functions import Affine, Interval
from polytope import Polytope
from region import Region, Region_Type
import large_values as lv
import zeta_large_values as zlv
import additive_energy as ae
import zero_density_estimate as zd
import zero_density_energy_estimate as ze
from lib import hyp

OPTS = {'*': {'time': 120, 'n': 300, 'max_paths': 60000},
        'check_graph': {'n': 800, 'tl': 15},
        'check_derived': {'n': 300, 'tl': 15},
        'assumptions': ["recursive calls are replaced by their contracts (induction over the acyclic dependency graph)"]}


def ref(E, n=''):
    """any reference: known or unknown year, any label"""
    y = E.int('year' + n, 1700, 2100)
    k = E.choice('refkind' + n, [0, 1, 2, 3, 4])
    if k == 0:
        return Reference.make('A', y)
    if k == 1:
        return Reference('x', 'article', {'author': 'A'})
    if k == 2:
        return Reference.derived(y)
    if k == 3:
        return Reference.classical()
    return Reference.conjectured()


def node(E, n=''):
    return Hypothesis('n' + n, 'T', 'x', 'p', ref(E, n))


def prove_recursive_dependencies(E):
    """induction step: the result is the direct dependencies and everything reachable from them, for any number of both"""
    if not E.symbolic:
        return

    def dep(i):
        d = hyp('d', 'T', 'x')
        d.reach = E.seq('reach', lambda j: hyp('r', 'T', 'x'))
        return d
    ds = E.seq('deps', dep)
    h = hyp('h', 'T', 'x')
    other = hyp('o', 'T', 'x')
    h.dependencies = set(ds)
    E.stub('hypotheses.Hypothesis.add_recursive_dependencies', lambda self, S: S.add_hypotheses(self.reach), True)
    r = h.recursive_dependencies()
    E.ensure('direct dependencies', all(d in r.hypotheses for d in ds))
    E.ensure('what they reach', all(all(x in r.hypotheses for x in d.reach) for d in ds))
    E.ensure('nothing else', all(any(x is d or any(x is y for y in d.reach) for d in ds) for x in r))
    E.ensure('not an unrelated one, not itself', not (other in r.hypotheses) and not (h in r.hypotheses))
    E.ensure('the graph is unchanged', all(d in h.dependencies for d in ds) and all(any(x is d for d in ds) for x in h.dependencies))


def prove_complexity(E):
    """induction step: one plus the sum over any number of direct dependencies"""
    if not E.symbolic:
        return

    def dep(i):
        d = hyp('d', 'T', 'x')
        d.c = E.int('c', 1)
        return d
    ds = E.seq('deps', dep)
    h = hyp('h', 'T', 'x')
    h.dependencies = set(ds)
    E.stub('hypotheses.Hypothesis.proof_complexity', lambda self: self.c, True)
    r = h.proof_complexity()
    E.ensure('one plus the sum', r == 1 + sum(d.c for d in h.dependencies))


def bounded_complexity(E):
    """one plus the sum over up to 4 dependencies"""
    if not E.symbolic:
        return
    h = hyp('h', 'T', 'x')
    n = E.count('n', 0, 4)
    t = 1
    for i in range(n):
        d = hyp('d', 'T', 'x')
        d.c = E.int('c' + str(i), 1)
        t = t + d.c
        h.add_dependency(d)
    E.stub('hypotheses.Hypothesis.proof_complexity', lambda self: self.c, True)
    E.ensure('value', h.proof_complexity() == t)


def prove_date(E):
    """induction step: the latest known year among the hypothesis and any number of dependencies"""
    if not E.symbolic:
        return

    def dep(i):
        d = hyp('d', 'T', 'x')
        d.y = E.int('y', -1)
        return d
    ds = E.seq('deps', dep)
    y = E.int('year', -1)
    h = Hypothesis('h', 'T', 'x', 'p', Reference.make('A', y) if E.bool('known') else Reference('x', 'article', {}))
    h.dependencies = set(ds)
    E.stub('hypotheses.Hypothesis.proof_date', lambda self: self.y, True)
    r = h.proof_date()
    own = -1 if h.reference.year() == 'Unknown date' else y
    E.ensure('an upper bound', r >= own and all(r >= d.y for d in ds))
    E.ensure('attained', r == own or any(r == d.y for d in ds))


def prove_is_match(E):
    """is_match for every type, reference and year limit"""
    t = E.choice('t', ['Any', 'T', 'U'])
    lim = E.choice('lim', ['Any', 0])
    Y = E.int('Y', 1700, 2100)
    r = ref(E)
    h = Hypothesis('h', 'T', 'x', 'p', r)
    got = h.is_match(t, 'Any' if lim == 'Any' else Y)
    want = t in ('Any', 'T')
    if want and lim != 'Any':
        if r.label == 'Derived' or r.label == 'Classical':
            want = True
        elif r.label == 'Conjectured':
            want = False
        else:
            want = 'year' in r.entries and r.entries['year'] <= Y
    E.ensure('is_match', got == want)


def bounded_max_year(E):
    """max_year of up to 3 references of any kind"""
    n = E.count('n', 0, 3)
    rs = [ref(E, str(i)) for i in range(n)]
    r = Reference.max_year(tuple(rs))
    if n == 0:
        E.ensure('no references', r == -1)
    elif any('year' not in x.entries for x in rs):
        E.ensure('unknown', r == 'Unknown date')
    else:
        E.ensure('upper bound', all(r >= x.entries['year'] for x in rs))
        E.ensure('attained', any(r == x.entries['year'] for x in rs))


def dated(E):
    """a reference with or without a year"""
    y = E.int('y')
    return Reference.make('A', y) if E.bool('known') else Reference('x', 'article', {'author': 'A'})


def prove_max_year_any(E):
    """max_year of any number of references with and without years"""
    rs = E.seq('refs', lambda i: dated(E))
    r = Reference.max_year(tuple(rs))
    if len(rs) == 0:
        E.ensure('no references', r == -1)
    elif any('year' not in x.entries for x in rs):
        E.ensure('unknown', r == 'Unknown date')
    else:
        E.ensure('upper bound', all(r >= x.entries['year'] for x in rs))
        E.ensure('attained', any(r == x.entries['year'] for x in rs))


def prove_derived_simple_any(E):
    """derived exponent pairs, beta bounds and mu bounds with any number of dependencies with and without years"""
    deps = E.seq('d', lambda i: Hypothesis('d', 'T', 'x', 'p', dated(E)))
    a, b = E.real('a'), E.real('b')
    k = E.choice('k', [0, 1, 2])
    D = set(deps)
    if k == 0:
        r = derived_exp_pair(a, b, 'why', D)
        E.ensure('data', r.data.k == a and r.data.l == b)
        derived_ok(E, r, 'Exponent pair', deps, 'why')
    elif k == 1:
        f = Affine(a, b, Interval(F(0), F(1, 2), True, True))
        r = derived_bound_beta(f, 'why', D)
        E.ensure('data', r.data.bound is f)
        derived_ok(E, r, 'Upper bound on beta', deps, 'why')
    else:
        r = derived_bound_mu(a, b, 'why', D)
        E.ensure('data', r.data.sigma == a and r.data.mu == b)
        derived_ok(E, r, 'Upper bound on mu', deps, 'why')


def prove_max_year(E):
    """max_year of any number of dated references"""
    rs = E.seq('refs', lambda i: Reference.make('A', E.int('y')), 1)
    r = Reference.max_year(tuple(rs))
    E.ensure('upper bound', all(r >= x.entries['year'] for x in rs))
    E.ensure('attained', any(r == x.entries['year'] for x in rs))


def prove_max_year_unknown(E):
    """max_year of any number of references among which one has no year"""
    rs = E.seq('refs', lambda i: Reference.make('A', E.int('y')))
    r = Reference.max_year(tuple(list(rs) + [Reference('x', 'article', {'author': 'A'})]))
    E.ensure('unknown', r == 'Unknown date')


def prove_reference(E):
    """author, year and the kind predicates"""
    y = E.int('y')
    r = Reference.make('Some', y)
    E.ensure('fields', r.author() == 'Some' and r.year() == y)
    r = Reference('x', 'article', {})
    E.ensure('missing', r.author() == 'Unknown author' and r.year() == 'Unknown date')
    kinds = [Reference.classical(), Reference.derived(y), Reference.conjectured(), Reference.trivial(), Reference('x', 'book', {})]
    for i, k in enumerate(kinds):
        E.ensure('classification', k.is_classical() == (i == 0) and k.is_derived() == (i == 1) and k.is_conjectured() == (i == 2)
                 and k.is_trivial() == (i == 3) and k.is_literature() == (i >= 3))
    E.ensure('derived year', kinds[1].year() == y)


def derived_ok(E, r, htype, deps, proof):
    E.ensure('type', r.hypothesis_type == htype)
    E.ensure('exactly the given dependencies', all(d in r.dependencies for d in deps) and all(any(x is d for d in deps) for x in r.dependencies))
    E.ensure('proof', r.proof == proof)
    E.ensure('derived reference', r.reference.is_derived())
    ys = [d.reference.year() for d in deps]
    if len(ys) == 0:
        E.ensure('no dependencies: no year', r.reference.year() == -1)
    elif any(d.reference.entries.get('year') is None for d in deps):
        E.ensure('unknown year', r.reference.year() == 'Unknown date')
    else:
        E.ensure('latest year', all(r.reference.year() >= y for y in ys) and any(r.reference.year() == y for y in ys))


def bounded_derived_simple(E):
    """derived exponent pairs, beta bounds and mu bounds with up to 2 dependencies of any kind"""
    deps = [node(E, str(i)) for i in range(E.count('n', 0, 2))]
    a, b = E.real('a'), E.real('b')
    D = set(deps)
    r = derived_exp_pair(a, b, 'why', D)
    E.ensure('data', r.data.k == a and r.data.l == b)
    derived_ok(E, r, 'Exponent pair', deps, 'why')
    f = Affine(a, b, Interval(F(0), F(1, 2), True, True))
    r = derived_bound_beta(f, 'why', D)
    E.ensure('data', r.data.bound is f)
    derived_ok(E, r, 'Upper bound on beta', deps, 'why')
    r = derived_bound_mu(a, b, 'why', D)
    E.ensure('data', r.data.sigma == a and r.data.mu == b)
    derived_ok(E, r, 'Upper bound on mu', deps, 'why')


def check_graph(E):
    """random acyclic graphs (bounded, concrete)"""
    n = E.count('n', 1, 9)
    hs = []
    for i in range(n):
        y = E.choice('y', [1800, 1900, 1950, 2000, 2020, None, -1])
        r = Reference('x', 'article', {} if y is None else {'year': y})
        h = Hypothesis('h' + str(i), 'T', 'x', 'p', r)
        for g in hs:
            if E.count('edge', 0, 2) == 0:
                h.add_dependency(g)
        hs.append(h)
    before = [set(h.dependencies) for h in hs]
    memo = {}

    def rd(h):
        if h not in memo:
            s = set(h.dependencies)
            for d in h.dependencies:
                s |= rd(d)
            memo[h] = s
        return memo[h]

    def cx(h):
        return 1 + sum(cx(d) for d in h.dependencies)

    def yr(h):
        y = h.reference.entries.get('year', -1)
        return max([y] + [yr(d) for d in h.dependencies])
    for h in hs:
        R = h.recursive_dependencies()
        E.ensure('reachable', set(R.hypotheses) == rd(h) and len(R) == len(rd(h)))
        E.ensure('complexity', h.proof_complexity() == cx(h))
        E.ensure('date', h.proof_date() == yr(h))
    E.ensure('graph unchanged', before == [set(h.dependencies) for h in hs])


def check_derived(E):
    """every derived_* constructor (bounded, concrete)"""
    deps = [node(E, str(i)) for i in range(E.count('n', 0, 3))]
    reg = Region(Region_Type.POLYTOPE, Polytope.rect((F(0), F(1)), (F(0), F(1)), (F(0), F(1))))
    reg5 = Region(Region_Type.POLYTOPE, Polytope.rect((F(0), F(1)), (F(0), F(1)), (F(0), F(1)), (F(0), F(1)), (F(0), F(1))))
    e5 = ae.Large_Value_Energy_Region(reg5)
    iv = Interval(F(1, 2), F(3, 4))
    z = zd.Zero_Density_Estimate('2', iv)
    y = ze.Zero_Density_Energy_Estimate('2', iv)
    D = set(deps)
    cases = [
        (lambda: derived_exp_pair(F(1), F(2), 'why', D), 'Exponent pair', None),
        (lambda: lv.derived_bound_LV(reg, 'why', D), 'Large value estimate', lambda r: r.data.region is reg),
        (lambda: zlv.derived_bound_zeta_LV(reg, 'why', D), 'Zeta large value estimate', lambda r: r.data.region is reg),
        (lambda: ae.derived_large_value_energy_region(e5, 'why', D), 'Large value energy region', lambda r: r.data is e5),
        (lambda: ae.derived_zeta_large_value_energy_region(e5, 'why', D), 'Zeta large value energy region', lambda r: r.data is e5),
        (lambda: ae.derived_additive_energy_estimate(reg, 'why', D), 'Additive energy estimate', lambda r: r.data.region is reg),
        (lambda: zd.derived_zero_density_estimate(z, 'why', D), 'Zero density estimate', lambda r: r.data is z),
        (lambda: ze.derived_zero_density_energy_estimate(y, 'why', D), 'Zero density energy estimate', lambda r: r.data is y),
    ]
    for mk, t, ok in cases:
        r = mk()
        if r is None:
            continue
        if ok is not None:
            E.ensure('data', ok(r))
        derived_ok(E, r, t, deps, 'why')
