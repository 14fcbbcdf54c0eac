"""The environment object E seen by the contract drivers, in symbolic and in native form.

A driver is a function f(E) in /verif/contracts/pNN.py.  In symbolic mode its text is interpreted
together with the repository's source and every E.ensure is a proof obligation over all values of
the inputs drawn from E.  In native mode the same text runs under CPython against the imported
repository, on given (counterexample) or random inputs.
"""
import ast, math, random, re
from fractions import Fraction
from .engine import (z3, Engine, Undecided, Infeasible, PyRaise, z_and, z_or, z_not, TRUE, FALSE)
from .values import *
from . import ops


class Fail(Exception):
    """A native run contradicts an obligation."""
    def __init__(self, name, info=''):
        Exception.__init__(self, f"{name}: {info}")
        self.name, self.info = name, info


class Skip(Exception):
    pass


# =====================================================================================
class SymE:
    def __init__(self, it, case):
        self.it, self.eng, self.case = it, it.eng, case
        self.n_ensure = 0
        self.results = []        # (name, status, model values)
        self.reached = set()
        self.prefix = []     # names of the sequences under construction: elements of two sequences are unrelated
        self.fix = {}

    def sym_getattr(self, it, k):
        if k == 'symbolic': return True
        m = getattr(self, 'm_' + k, None)
        if m is None: raise Undecided(f"E.{k}")
        return Native('E.' + k, lambda it2, a, kw: m(*a, **kw))

    def sym_mentions(self, ids, seen): return False
    def sym_subst(self, pairs, memo): return self

    def sym(self, name, sort):
        gen = self.eng.generic
        if gen and self.prefix: name = self.prefix[-1] + '.' + name
        if gen:
            f = z3.Function(name, *([z3.IntSort()] * len(gen)), sort)
            self.eng.inputs[name] = ('fun', f)
            return f(*gen)
        c = z3.Const(name, sort)
        self.eng.inputs[name] = ('const', c)
        return c

    def bound(self, v, lo, hi):
        if lo is not None: self.eng.assume(zb(self.it.compare(ast.GtE(), v, lo)))
        if hi is not None: self.eng.assume(zb(self.it.compare(ast.LtE(), v, hi)))
        return v

    def m_real(self, name, lo=None, hi=None, near=None):
        return self.bound(Num(self.sym(name, z3.RealSort()), 'frac'), lo, hi)

    def m_int(self, name, lo=None, hi=None):
        return self.bound(Num(self.sym(name, z3.IntSort()), 'int'), lo, hi)

    def m_bool(self, name): return SBool(self.sym(name, z3.BoolSort()))

    def m_choice(self, name, options):
        items = [s.v for s in self.it.iterate(options)]
        z = self.sym(name, z3.IntSort())
        if name in self.fix:
            self.eng.assume(z == self.fix[name])
            return items[self.fix[name]]
        self.eng.assume(z3.And(z >= 0, z < len(items)))
        for i, v in enumerate(items[:-1]):
            if self.eng.branch(z == i): return v
        return items[-1]

    def m_opt(self, name, v):
        return Opt(self.sym(name, z3.BoolSort()), v)

    def m_count(self, name, lo, hi):
        """A concrete integer between lo and hi (every value is explored)."""
        return self.m_choice(name, tuple(range(lo, hi + 1)))

    def m_seq(self, name, build, min=0, cmax=4):
        """A list of any length >= min whose elements are build(i)."""
        n = self.sym(name + '#', z3.IntSort())
        self.eng.assume(n >= min)
        i = z3.Int(self.eng.fresh_name('q'))
        self.prefix.append(name)
        try:
            segs = self.it.comp_generic(Comp([i], [n], [(TRUE, Num(i, 'int'))]),
                                        lambda v: [Single(self.it.call(build, [v], {}))])
        finally: self.prefix.pop()
        uid = name
        for s in segs:
            for g, v in s.cases: mark(v, uid, tuple(s.ivars), set())
        return VList(self.eng, segs)

    def m_assume(self, c):
        t = self.it.truth(c)
        if t is False: raise Infeasible()
        if t is not True: self.eng.assume(t)

    def m_ensure(self, name, c, info=None):
        full = f"{self.case}: {name}"
        t = self.it.truth(c)
        st = self.eng.prove(full, t if not isinstance(t, bool) else z3.BoolVal(t))
        if st == 'refuted': self.record_model()
        if not isinstance(t, bool): self.eng.assume(t)
        elif t is False: raise Infeasible()

    def record_model(self):
        o = self.eng.obligations[-1]
        m = o.model
        vals = {}
        for name, (k, d) in self.eng.inputs.items():
            if k == 'const': vals[name] = zval(m.eval(d, model_completion=True))
            else:
                def get(*idx, d=d): return zval(m.eval(d(*[z3.IntVal(x) for x in idx]), model_completion=True))
                tab = {}
                rng = [range(0, 9)] * d.arity() if d.arity() <= 2 else []
                import itertools as _it
                for idx in _it.product(*rng): tab[','.join(map(str, idx))] = get(*idx)
                vals[name] = tab
        o.model_values = vals

    def m_fail(self, name):
        self.m_ensure(name, False)

    def m_reach(self, name): self.reached.add(name)

    def m_stub(self, qual, fn, recursive_only=False):
        self.it.stubs[qual] = Stub(fn, recursive_only)

    def m_fresh_real(self, hint='h'): return Num(self.eng.fresh(z3.RealSort(), hint), 'frac')
    def m_fresh_int(self, hint='h'): return Num(self.eng.fresh(z3.IntSort(), hint), 'int')
    def m_fresh_bool(self, hint='h'): return SBool(self.eng.fresh(z3.BoolSort(), hint))
    def m_ufn(self, name, *args):
        """Uninterpreted real function of numeric arguments."""
        zs = [to_z(a, 'frac') for a in args]
        f = z3.Function(name, *([z3.RealSort()] * len(zs)), z3.RealSort())
        return Num(f(*zs), 'frac')
    def m_upred(self, name, *args):
        zs = [to_z(a, 'frac') for a in args]
        f = z3.Function(name, *([z3.RealSort()] * len(zs)), z3.BoolSort())
        return SBool(f(*zs))
    def m_merge_objs(self, flag=True): self.it.merge_objs = flag
    def m_render(self, flag=True): self.it.opaque_render = not flag
    def m_new(self, cls):
        return Obj(self.eng, cls)
    def m_lemma(self, name, c):
        """Prove c and keep it as an assumption for what follows."""
        self.m_ensure('lemma ' + name, c)
    def m_ite(self, c, a, b):
        return ops.choose(self.it, c, a, b)
    def m_ghost(self, *xs):
        """Register a point for the linear programs solved on this path."""
        self.it.call(self.it.load('vp_cdd').ns['ghost'], [list_of(self.it, xs)], {})
    def m_witnesses(self):
        """All points returned by the linear programs solved on this path, and the ghost points."""
        return self.it.getattr(self.it.load('vp_cdd').ns['World'], 'points')
    def m_sfun(self, name):
        """An arbitrary expression in one variable (model of sympy): an uninterpreted function of the point."""
        m = self.it.load('vp_sympy')
        f = Native('sfun', lambda it, a, kw: self.m_ufn(name, a[0]))
        return self.it.instantiate(m.ns['Expr'], [f], {})
    def m_spoints(self, *xs):
        """Points at which the zeros found by sympy and the equality of expressions are used."""
        self.it.call(self.it.load('vp_sympy').ns['ghost'], [list_of(self.it, xs)], {})
    def m_sroots(self, n):
        self.it.setattr(self.it.load('vp_sympy').ns['World'], 'max_roots', n)
    def m_tokens(self, s):
        """The tokens of a text: numbers (symbolic ones as written by str), names and single characters."""
        out = []
        for p in (s.parts if isinstance(s, OStr) else [s]):
            if isinstance(p, str): out += [(k, v) for k, v in text_tokens(p)]
            elif p[0] == 'num' and isinstance(p[1], Num): out.append(('number', p[1]))
            else: raise Undecided("tokens of an opaque text")
        return list_of(self.it, out)
    def m_both(self, f): pass
    def m_is(self, a, b): return self.it.ident(a, b)


TOKEN = re.compile(r'\s+|(?P<number>\d+)|(?P<name>[^\W\d]\w*\*?)|(?P<char>.)')


def text_tokens(s):
    """the whole numbers, names and other characters of a text"""
    out = []
    for m in TOKEN.finditer(s):
        if m.group('number'): out.append(('number', int(m.group('number'))))
        elif m.group('name'): out.append(('name', m.group('name')))
        elif m.group('char'): out.append(('char', m.group('char')))
    return out


def list_of(it, xs): return VList(it.eng, [Single(x) for x in xs])


class Stub:
    def __init__(self, fn, recursive_only):
        self.fn, self.recursive_only, self.active, self.used = fn, recursive_only, False, 0


def mark(v, uid, ivars, seen):
    if id(v) in seen: return
    seen.add(id(v))
    if isinstance(v, Obj):
        if v.origin is None: v.origin = (uid + f":{len(seen)}", ivars)
        for x in v.attrs.values(): mark(x, uid, ivars, seen)
    elif isinstance(v, (VList, VTuple)):
        if isinstance(v, VList): v.shared = True
        for s in v.segs:
            if isinstance(s, Single): mark(s.v, uid, ivars, seen)
            else:
                for _, x in s.cases: mark(x, uid, ivars + tuple(s.ivars), seen)
    elif isinstance(v, VDict):
        v.shared = True
        for a, b in v.pairs: mark(a, uid, ivars, seen); mark(b, uid, ivars, seen)
    elif isinstance(v, tuple):
        for x in v: mark(x, uid, ivars, seen)
    elif isinstance(v, Opt): mark(v.value, uid, ivars, seen)


def zval(v):
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


# =====================================================================================
class NatE:
    """Native counterpart of SymE: random inputs, or the values of a counterexample."""
    symbolic = False

    def __init__(self, rng, values=None):
        self.rng, self.values = rng, values
        self.idx = []
        self.prefix = []
        self.pool = []
        self.trace = {}
        self.checked = 0
        self.names = set()

    def _val(self, name):
        if self.prefix: name = self.prefix[-1] + '.' + name
        if self.values is None or name not in self.values: return None
        v = self.values[name]
        if isinstance(v, dict): v = v.get(','.join(map(str, self.idx)))
        return v

    def _rec(self, name, v):
        if self.prefix: name = self.prefix[-1] + '.' + name
        key = name + (f"[{','.join(map(str, self.idx))}]" if self.idx else '')
        self.trace[key] = v
        return v

    def _sample(self, lo, hi):
        r = self.rng
        k = r.random()
        cand = [x for x in self.pool if (lo is None or x >= lo) and (hi is None or x <= hi)]
        if cand and k < 0.25: return r.choice(cand)
        if lo is not None and k < 0.32: return Fraction(lo)
        if hi is not None and 0.32 <= k < 0.39: return Fraction(hi)
        if lo is not None and hi is not None:
            lo, hi = Fraction(lo), Fraction(hi)
            d = r.choice([1, 2, 3, 4, 5, 7, 12, 60])
            return lo + (hi - lo) * Fraction(r.randint(0, d), d)
        d = r.choice([1, 1, 1, 2, 3, 4, 7, 10])
        s = Fraction(r.randint(-4 * d, 4 * d), d) if r.random() < 0.9 else Fraction(r.randint(-100, 100), d)
        if lo is not None: s = Fraction(lo) + abs(s)
        elif hi is not None: s = Fraction(hi) - abs(s)
        return s

    def real(self, name, lo=None, hi=None, near=None):
        v = self._val(name)
        if v is None:
            if near and self.rng.random() < 0.4: v = Fraction(self.rng.choice(list(near)))
            else: v = self._sample(lo, hi)
        v = Fraction(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi): raise Skip()
        self.pool.append(v)
        return self._rec(name, v)

    def int(self, name, lo=None, hi=None):
        v = self._val(name)
        if v is None:
            a = lo if lo is not None else -5
            v = self.rng.randint(a, hi if hi is not None else a + 10)
        return self._rec(name, v)

    def bool(self, name):
        v = self._val(name)
        return self._rec(name, self.rng.random() < 0.5 if v is None else v)

    def choice(self, name, options):
        options = list(options)
        v = self._val(name)
        if v is None: v = self.rng.randrange(len(options))
        v = v % len(options)
        self._rec(name, v)
        return options[v]

    def count(self, name, lo, hi): return self.choice(name, range(lo, hi + 1))

    def opt(self, name, v): return None if self.bool(name) else v

    def seq(self, name, build, min=0, cmax=4):
        n = self._val(name + '#')
        if n is None: n = self.rng.randint(min, max_(min, cmax))
        n = max_(min, n)
        if n > 8: raise Skip()
        self._rec(name + '#', n)
        out = []
        for i in range(n):
            self.idx.append(i)
            self.prefix.append(name)
            try: out.append(build(i))
            finally:
                self.idx.pop()
                self.prefix.pop()
        return out

    def tokens(self, s): return text_tokens(s)

    def assume(self, c):
        if not c: raise Skip()

    def ensure(self, name, c, info=None):
        self.checked += 1
        self.names.add(name)
        if not c: raise Fail(name, '' if info is None else repr(info))

    lemma = ensure
    def fail(self, name): raise Fail(name)
    def reach(self, name): pass
    def stub(self, *a, **k): pass
    def merge_objs(self, flag=True): pass
    def render(self, flag=True): pass
    def ghost(self, *xs): pass
    def ite(self, c, a, b): return a if c else b


def max_(a, b): return a if a > b else b
