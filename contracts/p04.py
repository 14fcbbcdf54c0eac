"""P04: exponent-pair transforms implement their theorems with provenance."""
from fractions import Fraction as F
from hypotheses import Hypothesis
from exponent_pair import Exp_pair
from reference import Reference
import literature as lit

OPTS = {'*': {'time': 120, 'n': 150, 'max_paths': 30000}, 'assumptions': ["Reference_Manager.get is used through its contract (P24)"]}


def pair(E):
    k = E.real('k', F(0), F(1, 2))
    l = E.real('l', F(1, 2), F(1))
    h = Hypothesis('input pair', 'Exponent pair', Exp_pair(k, l), 'proof', Reference.make('Someone', 2000))
    return k, l, h


def unchanged(E, h, k, l):
    E.ensure('the input hypothesis is unchanged',
             h.data.k == k and h.data.l == l and h.name == 'input pair' and h.hypothesis_type == 'Exponent pair'
             and len(h.dependencies) == 0 and h.proof == 'proof')


def provenance(E, r, h, t, htype):
    E.ensure('hypothesis type', r.hypothesis_type == htype)
    E.ensure('depends on exactly the input and the transform',
             len(r.dependencies) == 2 and (h in r.dependencies) and (t in r.dependencies))


def exact(E, t, fk, fl):
    k, l, h = pair(E)
    r = t.data.transform(h)
    E.ensure('k of the result', r.data.k == fk(k, l))
    E.ensure('l of the result', r.data.l == fl(k, l))
    E.ensure('the result stays in the range 0 <= k <= 1/2 <= l <= 1',
             0 <= r.data.k and r.data.k <= F(1, 2) and F(1, 2) <= r.data.l and r.data.l <= 1)
    provenance(E, r, h, t, 'Exponent pair')
    unchanged(E, h, k, l)
    E.ensure('a new hypothesis is returned', r is not h and r is not t)


def prove_A(E):
    """A(k, l) = (k/(2k+2), (k+l+1)/(2k+2))"""
    exact(E, lit.A_transform_hypothesis, lambda k, l: k / (2 * k + 2), lambda k, l: (k + l + 1) / (2 * k + 2))


def prove_B(E):
    """B(k, l) = (l-1/2, k+1/2)"""
    exact(E, lit.B_transform_hypothesis, lambda k, l: l - F(1, 2), lambda k, l: k + F(1, 2))


def prove_C(E):
    """C(k, l) = (k/(12(1+4k)), (11(1+4k)+l)/(12(1+4k)))"""
    exact(E, lit.C_transform_hypothesis, lambda k, l: k / (12 * (1 + 4 * k)),
          lambda k, l: (11 * (1 + 4 * k) + l) / (12 * (1 + 4 * k)))


def prove_B_involution(E):
    """B applied twice gives the original pair"""
    k, l, h = pair(E)
    t = lit.B_transform_hypothesis
    r = t.data.transform(t.data.transform(h))
    E.ensure('B o B = id', r.data.k == k and r.data.l == l)


def prove_D(E):
    """D gives beta(x) <= max of the two lines of Sargos 1995 on all of [0, 1/2]"""
    E.merge_objs()
    k, l, h = pair(E)
    t = lit.D_transform_hypothesis
    rs = t.data.transform(h)
    x = E.real('x', F(0), F(1, 2))
    m = E.ite((6 * k + 5 * l + 2) / (2 * (5 * k + 3 * l + 2)) * x + (5 * k + l + 2) / (8 * (5 * k + 3 * l + 2)) >= F(2, 3) * x + F(1, 12),
              (6 * k + 5 * l + 2) / (2 * (5 * k + 3 * l + 2)) * x + (5 * k + l + 2) / (8 * (5 * k + 3 * l + 2)),
              F(2, 3) * x + F(1, 12))
    cover = False
    for r in rs:
        provenance(E, r, h, t, 'Upper bound on beta')
        b = r.data.bound
        if b.domain.contains(x):
            E.ensure('a bound of D is the maximum of the two lines', b.at(x) == m)
            cover = True
        E.ensure('bounds are stated inside [0, 1/2]', b.domain.x0 >= 0 and b.domain.x1 <= F(1, 2))
    E.ensure('D covers [0, 1/2]', cover)
    unchanged(E, h, k, l)


def prove_types(E):
    """the transforms carry their hypothesis types and no dependencies of their own"""
    for t in (lit.A_transform_hypothesis, lit.B_transform_hypothesis, lit.C_transform_hypothesis):
        E.ensure('type', t.hypothesis_type == 'Exponent pair transform' and len(t.dependencies) == 0)
    t = lit.D_transform_hypothesis
    E.ensure('type of D', t.hypothesis_type == 'Exponent pair to beta bound transform' and len(t.dependencies) == 0)


def prove_D_rejects(E):
    """D refuses hypotheses of another type"""
    h = Hypothesis('x', 'Upper bound on mu', Exp_pair(F(0), F(1)), 'proof', Reference.trivial())
    try:
        lit.D_transform_hypothesis.data.transform(h)
        ok = False
    except ValueError:
        ok = True
    E.ensure('ValueError for a hypothesis that is not an exponent pair', ok)


def check_registered(E):
    """the four transforms are registered in the literature set (concrete)"""
    ts = lit.literature.list_hypotheses('Exponent pair transform')
    for t in (lit.A_transform_hypothesis, lit.B_transform_hypothesis, lit.C_transform_hypothesis):
        E.ensure('registered', t in ts)
    E.ensure('D registered', lit.D_transform_hypothesis in lit.literature.list_hypotheses('Exponent pair to beta bound transform'))



