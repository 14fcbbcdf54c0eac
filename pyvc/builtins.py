"""Builtins and native modules known to the interpreter."""
import ast, itertools, math, operator, os
from fractions import Fraction
from .engine import (z3, Undecided, Infeasible, PyRaise, z_and, z_or, z_not, TRUE, FALSE)
from .values import *
from . import ops
from .ops import numeric

EXCS = [e for e in vars(__import__('builtins')).values() if isinstance(e, type) and issubclass(e, BaseException)]


class RangeVal:
    pass


class ConcIter:
    """A native iterator over a known list of values (itertools results)."""


def make_range(it, a, kw):
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    else: lo, hi, st = a[0], a[1], (a[2] if len(a) > 2 else 1)
    for x in (lo, hi, st):
        if isinstance(x, (Fraction, float)) or isinstance(x, Num) and x.kind != 'int' or x is None:
            it.raise_(TypeError, 'range() argument')
    if all(isinstance(x, int) for x in (lo, hi, st)):
        return tuple(range(lo, hi, st)) if len(range(lo, hi, st)) <= 100000 else undec('huge range')
    if st == -1:
        i = z3.Int(it.eng.fresh_name('r'))
        l, h = to_z(lo), to_z(hi)
        n = z3.simplify(l - h)
        n = z3.If(n > 0, n, z3.IntVal(0))
        return VTuple([Comp([i], [z3.simplify(n)], [(TRUE, Num(l - i, 'int'))])])
    if st != 1: raise Undecided("range with a step")
    l, h = to_z(lo), to_z(hi)
    n = z3.simplify(h - l)
    # split a bound that is a sum of nonnegative atoms so that concatenated lists resolve
    atoms = list(n.children()) if z3.is_add(n) else [n]
    consts = [x for x in atoms if z3.is_int_value(x)]
    terms = [x for x in atoms if not z3.is_int_value(x)]
    c = sum(x.as_long() for x in consts)
    segs, off = [], l
    if len(terms) > 1 and c == 0 and all(it.eng.entails(t >= 0) for t in terms):
        for t in terms:
            i = z3.Int(it.eng.fresh_name('r'))
            segs.append(Comp([i], [t], [(TRUE, mk_num(z3.simplify(off + i), 'int'))]))
            off = off + t
        return VTuple(segs)
    i = z3.Int(it.eng.fresh_name('r'))
    if not it.eng.entails(n >= 0): n = z3.If(n > 0, n, z3.IntVal(0))
    return VTuple([Comp([i], [n], [(TRUE, mk_num(z3.simplify(l + i), 'int'))])])


def undec(m): raise Undecided(m)


def lst(it, v):
    return [s.v if isinstance(s, Single) else undec("sequence of symbolic length used where a concrete one is needed")
            for s in it.iterate(v)]


def to_frac(it, a, kw):
    if not a: return Fraction(0)
    x = ops.unopt(it, a[0])
    if len(a) == 1:
        if isinstance(x, (int, Fraction, str, float)):
            try: return Fraction(x)
            except Exception as e: raise PyRaise(e)
        if isinstance(x, Num): return Num(to_z(x, 'frac'), 'frac')
        if isinstance(x, SBool): return Num(to_z(x, 'frac'), 'frac')
        if isinstance(x, Obj) or x is None: it.raise_(TypeError, 'Fraction()')
        raise Undecided("Fraction()")
    y = ops.unopt(it, a[1])
    if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
        try: return Fraction(x, y)
        except Exception as e: raise PyRaise(e)
    if isinstance(x, (int, Fraction)): x = Fraction(x)
    if isinstance(y, (int, Fraction)): y = Fraction(y)
    if isinstance(x, Num): x = Num(to_z(x, 'frac'), 'frac')
    if isinstance(y, Num): y = Num(to_z(y, 'frac'), 'frac')
    return it.binop(ast.Div(), x, y)


def to_int(it, a, kw):
    if not a: return 0
    x = ops.unopt(it, a[0])
    if isinstance(x, (int, Fraction, float, str)):
        try: return int(x)
        except Exception as e: raise PyRaise(e)
    if isinstance(x, Num):
        if x.kind == 'int': return x
        return Num(z3.If(x.z >= 0, z3.ToInt(x.z), -z3.ToInt(-x.z)), 'int')
    if isinstance(x, SBool): return Num(to_z(x), 'int')
    it.raise_(TypeError, 'int()')


def to_float(it, a, kw):
    x = a[0]
    if isinstance(x, str) or isinstance(x, (int, Fraction, float)):
        try: return float(x)
        except Exception as e: raise PyRaise(e)
    if isinstance(x, Num): return Num(to_z(x, 'frac'), 'float~') if False else undec("float of a symbolic number")
    it.raise_(TypeError, 'float()')


def b_isinstance(it, a, kw):
    x, t = a
    if isinstance(x, Opt):
        if it.eng.branch(x.isnone): x = None
        else: x = x.value
    return isinst(it, x, t)


TYPE_TESTS = {
    'int': lambda x: isinstance(x, (int, SBool)) or isinstance(x, Num) and x.kind == 'int',
    'bool': lambda x: isinstance(x, (bool, SBool)),
    'Fraction': lambda x: isinstance(x, Fraction) or isinstance(x, Num) and x.kind == 'frac',
    'float': lambda x: isinstance(x, float),
    'str': lambda x: isinstance(x, (str, OStr)),
    'list': lambda x: isinstance(x, VList) and not isinstance(x, VSet),
    'set': lambda x: isinstance(x, VSet) and not x.frozen,
    'frozenset': lambda x: isinstance(x, VSet) and x.frozen,
    'dict': lambda x: isinstance(x, VDict),
    'tuple': lambda x: isinstance(x, (tuple, VTuple)),
    'Number': lambda x: numeric(x), 'Rational': lambda x: isinstance(x, (int, Fraction, Num, SBool)),
    'Real': lambda x: numeric(x), 'Integral': lambda x: isinstance(x, (int, SBool)) or isinstance(x, Num) and x.kind == 'int',
    'object': lambda x: True,
    'ndarray': lambda x: False,
}


def isinst(it, x, t):
    if isinstance(t, tuple): return any(isinst(it, x, y) for y in t)
    if isinstance(t, Cls): return isinstance(x, Obj) and x.cls.is_sub(t)
    if isinstance(t, Native):
        f = TYPE_TESTS.get(t.name)
        if f is not None: return f(x)
    if isinstance(t, type): return isinstance(x, t)
    if t is None: it.raise_(TypeError, 'isinstance() arg 2')
    if hasattr(x, 'sym_isinstance'): return x.sym_isinstance(t)
    if isinstance(t, Native): return False
    raise Undecided(f"isinstance(.., {t!r})")


def b_type(it, a, kw):
    x = a[0]
    if isinstance(x, Opt): x = ops.unopt(it, x)
    if isinstance(x, Obj): return x.cls
    for n in ('bool', 'int', 'Fraction', 'float', 'str', 'list', 'set', 'frozenset', 'dict', 'tuple'):
        if TYPE_TESTS[n](x): return it.type_natives[n]
    if x is None: return it.type_natives['NoneType']
    if isinstance(x, BaseException): return type(x)
    raise Undecided("type()")


def b_sorted(it, a, kw):
    return VList(it.eng, it.sort_list(it.iterate(a[0]), kw.get('key'), conc_bool(it, kw.get('reverse', False))))


def conc_bool(it, v):
    t = it.truth(v)
    return t if isinstance(t, bool) else it.eng.branch(t)


def b_minmax(is_max):
    def f(it, a, kw):
        segs = it.iterate(a[0]) if len(a) == 1 else [Single(x) for x in a]
        return it.minmax(segs, is_max, kw.get('key'), kw.get('default'), 'default' in kw)
    return f


def b_anyall(universal):
    def f(it, a, kw):
        v = a[0]
        from .interp import GenVal
        if isinstance(v, GenVal) and not v.done:
            v.done = True
            return quant_gen(it, v, universal)
        return it.quantify(it.iterate(v), universal, lambda x, i: x)
    return f


def quant_gen(it, g, universal):
    """any/all over a generator expression, with Python's short circuit."""
    from .interp import Frame
    e = g.e
    f = Frame(it.eng, g.frame, g.frame.module, None, g.frame.func)
    f.comp = True
    def rec(k):
        if k == len(e.generators):
            return it.eval(e.elt, f)
        gen = e.generators[k]
        src = g.first if k == 0 else it.eval(gen.iter, f)
        def pred(v, idx):
            it.assign(gen.target, v, f)
            acc = True
            for c in gen.ifs:
                t = it.truth(it.eval(c, f))
                if isinstance(t, bool):
                    if not t: return universal
                    continue
                if not it.eng.branch(t): return universal
            return rec(k + 1)
        acc = universal
        for s in list(it.iterate(src)):
            if isinstance(s, Single):
                # evaluate later elements only when earlier ones did not decide
                if acc is (not universal): return acc
                if isinstance(acc, SBool):
                    try:
                        pre = acc.z if universal else z_not(acc.z)
                        if not it.eng.check(pre): return acc
                        t = it.try_merge(lambda: ops.boolify(it, pred(s.v, None)), pre=pre)
                    except Exception as ex:
                        if type(ex).__name__ != 'MergeFail': raise
                        if it.eng.branch(acc.z) != universal: return not universal
                        acc = universal
                        t = ops.boolify(it, pred(s.v, None))
                else:
                    try: t = it.try_merge(lambda: ops.boolify(it, pred(s.v, None)))
                    except Exception as ex:
                        if type(ex).__name__ != 'MergeFail': raise
                        t = ops.boolify(it, pred(s.v, None))
                acc = it.and_(acc, t) if universal else it.or_(acc, t)
            else:
                t = it.quantify([s], universal, lambda v, i: ops.boolify(it, pred(v, i)))
                acc = it.and_(acc, t) if universal else it.or_(acc, t)
        return acc
    return rec(0)


def b_enumerate(it, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    out, off = [], start
    for s in it.iterate(a[0]):
        if isinstance(s, Single):
            out.append(Single((off, s.v)))
            off = it.binop(ast.Add(), off, 1)
        else:
            s = it.normalize(s)
            i = s.ivars[0]
            k = it.binop(ast.Add(), off, Num(i, 'int'))
            out.append(Comp([i], s.bounds, [(g, (k, v)) for g, v in s.cases], s.ordered))
            off = it.binop(ast.Add(), off, mk_num(s.bounds[0], 'int'))
    return Iter(it.eng, out)


def b_zip(it, a, kw):
    seqs = [it.iterate(x) for x in a]
    out = []
    if not seqs: return Iter(it.eng, [])
    if all(all(isinstance(s, Single) for s in q) for q in seqs):
        return Iter(it.eng, [Single(tuple(s.v for s in t)) for t in zip(*seqs)])
    if all(len(q) == 1 and isinstance(q[0], Comp) for q in seqs):
        qs = [it.normalize(q[0]) for q in seqs]
        n = qs[0].bounds[0]
        for q in qs[1:]:
            if not it.eng.branch(q.bounds[0] == n):
                n = z3.If(q.bounds[0] < n, q.bounds[0], n)
        i = z3.Int(it.eng.fresh_name('z'))
        return Iter(it.eng, [Comp([i], [n], [(TRUE, tuple(it.elem_at(q, i) for q in qs))])])
    # align segment by segment
    raise Undecided("zip of sequences of symbolic length")


def b_list(it, a, kw):
    return VList(it.eng, list(it.iterate(a[0])) if a else [])


def b_tuple(it, a, kw):
    if not a: return ()
    segs = it.iterate(a[0])
    if all(isinstance(s, Single) for s in segs): return tuple(s.v for s in segs)
    return VTuple(segs)


def b_set(it, a, kw):
    r = VSet(it.eng)
    if a:
        for s in it.iterate(a[0]): it.set_add_seg(r, s)
    return r


def b_frozenset(it, a, kw):
    r = b_set(it, a, kw)
    r.frozen = True
    return r


def b_dict(it, a, kw):
    d = VDict(it.eng)
    if a:
        if isinstance(a[0], VDict): d.pairs = list(a[0].pairs)
        else:
            for x in lst(it, a[0]):
                k, v = lst(it, x)
                it.dict_set(d, k, v)
    for k, v in kw.items(): it.dict_set(d, k, v)
    return d


def b_next(it, a, kw):
    g = a[0]
    from .interp import GenVal
    if isinstance(g, GenVal):
        if not getattr(g, 'iter', None): g.iter = Iter(it.eng, it.iterate(g))
        g = g.iter
    if isinstance(g, Obj): return it.call_method(g, '__next__', [])
    if not isinstance(g, Iter): it.raise_(TypeError, 'not an iterator')
    while g.segs:
        s = g.segs[0]
        if isinstance(s, Single):
            g.touch()
            g.segs = g.segs[1:]
            return s.v
        n = it.normalize(s)
        if it.eng.branch(n.bounds[0] > 0):
            v = it.elem_at(n, z3.IntVal(0))
            i = z3.Int(it.eng.fresh_name('n'))
            g.touch()
            g.segs = [ops.shifted(it, n, i, i + 1, n.bounds[0] - 1)] + g.segs[1:]
            return v
        g.touch()
        g.segs = g.segs[1:]
    if len(a) > 1: return a[1]
    it.raise_(StopIteration, '')


def b_iter(it, a, kw):
    if isinstance(a[0], Iter): return a[0]
    return Iter(it.eng, it.iterate(a[0]))


def b_sum(it, a, kw):
    return it.ssum(it.iterate(a[0]), a[1] if len(a) > 1 else kw.get('start', 0))


def b_abs(it, a, kw):
    x = ops.unopt(it, a[0])
    if isinstance(x, Num): return Num(z3.If(x.z >= 0, x.z, -x.z), x.kind)
    if isinstance(x, (int, Fraction, float)): return abs(x)
    if isinstance(x, Obj): return it.call_method(x, '__abs__', [])
    it.raise_(TypeError, 'abs')


def b_map(it, a, kw):
    f = a[0]
    if len(a) == 2:
        out = []
        for s in it.iterate(a[1]):
            if isinstance(s, Single): out.append(Single(it.call(f, [s.v], {})))
            else: out.extend(it.comp_generic(s, lambda v: [Single(it.call(f, [v], {}))]))
        return Iter(it.eng, out)
    seqs = [lst(it, x) for x in a[1:]]
    return Iter(it.eng, [Single(it.call(f, list(t), {})) for t in zip(*seqs)])


def b_filter(it, a, kw):
    f = a[0]
    def keep(v):
        t = it.truth(v if f is None else it.call(f, [v], {}))
        return [Single(v)] if it.eng.branch(t) else []
    out = []
    for s in it.iterate(a[1]):
        if isinstance(s, Single): out.extend(keep(s.v))
        else: out.extend(it.comp_generic(s, keep))
    return Iter(it.eng, out)


def b_reversed(it, a, kw):
    segs = [s if isinstance(s, Single) else it.normalize(s) for s in it.iterate(a[0])]
    return Iter(it.eng, [s if isinstance(s, Single) else ops.reversed_comp(it, s) for s in reversed(segs)])


def b_hasattr(it, a, kw):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if isinstance(e.exc, AttributeError): return False
        raise


def b_getattr(it, a, kw):
    try: return it.getattr(a[0], a[1])
    except PyRaise as e:
        if isinstance(e.exc, AttributeError) and len(a) > 2: return a[2]
        raise


def b_setattr(it, a, kw):
    it.setattr(a[0], a[1], a[2])


def b_str(it, a, kw):
    return it.to_str(a[0]) if a else ''


def b_hash(it, a, kw):
    x = a[0]
    if isinstance(x, Obj) and x.cls.lookup('__hash__') is not None: return it.call_method(x, '__hash__', [])
    return Hash(x)


class Hash:
    """An opaque hash code: equal for equal arguments; nothing else is known."""
    def __init__(self, x): self.x = x
    def sym_compare(self, it, op, a, b):
        if isinstance(op, ast.Eq) and isinstance(a, Hash) and isinstance(b, Hash): return it.eq(a.x, b.x)
        raise Undecided("hash value")
    def sym_binop(self, it, op, a, b): return Hash((a, b))


def b_callable(it, a, kw):
    x = a[0]
    return isinstance(x, (Func, Bound, Native, Cls, type)) or isinstance(x, Obj) and x.cls.lookup('__call__') is not None


def b_round(it, a, kw):
    if isinstance(a[0], (int, Fraction, float)) : return round(*a)
    raise Undecided("round")


def b_pow(it, a, kw): return it.binop(ast.Pow(), a[0], a[1])


def b_super(it, a, kw): raise Undecided("super()")


def b_id(it, a, kw): raise Undecided("id()")


def b_vars(it, a, kw): return it.getattr(a[0], '__dict__')


def b_divmod(it, a, kw): return (it.binop(ast.FloorDiv(), *a), it.binop(ast.Mod(), *a))


# ---------------------------------------------------------------- methods of builtin types
def m_list(it, o, k):
    N = lambda f: Native('list.' + k, f)
    def mut(): ops.frozen(o); o.touch()
    if k == 'append':
        def f(i, a, kw):
            mut(); o.segs = o.segs + [Single(a[0])]
        return N(f)
    if k == 'extend':
        def f(i, a, kw):
            s = list(it.iterate(a[0]))
            mut(); o.segs = o.segs + s
        return N(f)
    if k == 'copy': return N(lambda i, a, kw: (o.read(), type(o)(it.eng, list(o.segs)))[1])
    if k == 'clear':
        def f(i, a, kw): mut(); o.segs = []
        return N(f)
    if k == 'pop':
        def f(i, a, kw):
            o.read()
            idx = a[0] if a else -1
            if isinstance(idx, Num): raise Undecided("pop at a symbolic position")
            if o.concrete():
                if not o.segs or not -len(o.segs) <= idx < len(o.segs): it.raise_(IndexError, 'pop')
                mut(); o.segs = list(o.segs)
                return o.segs.pop(idx).v
            if idx in (0, -1):
                s = o.segs[idx]
                if isinstance(s, Single):
                    mut(); o.segs = list(o.segs)
                    return o.segs.pop(idx).v
                v = it.getitem(o, idx)
                r = it.getslice(o, 1, None, None) if idx == 0 else it.getslice(o, None, -1, None)
                mut(); o.segs = list(r.segs)
                return v
            raise Undecided("pop")
        return N(f)
    if k == 'insert':
        def f(i, a, kw):
            if not isinstance(a[0], int) or not (o.concrete() or a[0] == 0): raise Undecided("insert")
            mut(); o.segs = list(o.segs)
            o.segs.insert(a[0], Single(a[1]))
        return N(f)
    if k == 'remove':
        def f(i, a, kw):
            for n, v in enumerate(o.items()):
                if it.eng.branch(it.truth(ops.eqb(it, v, a[0]))):
                    mut(); o.segs = o.segs[:n] + o.segs[n + 1:]
                    return
            it.raise_(ValueError, 'list.remove')
        return N(f)
    if k == 'index':
        def f(i, a, kw):
            for n, v in enumerate(o.items()):
                if it.eng.branch(it.truth(ops.eqb(it, v, a[0]))): return n
            it.raise_(ValueError, 'not in list')
        return N(f)
    if k == 'count':
        def f(i, a, kw):
            c = 0
            for v in o.items(): c = it.binop(ast.Add(), c, ops.choose(it, ops.eqb(it, v, a[0]), 1, 0))
            return c
        return N(f)
    if k == 'reverse':
        def f(i, a, kw):
            r = it.getslice(o, None, None, -1)
            mut(); o.segs = list(r.segs)
        return N(f)
    if k == 'sort':
        def f(i, a, kw):
            o.read()
            s = it.sort_list(list(o.segs), kw.get('key'), conc_bool(it, kw.get('reverse', False)))
            mut(); o.segs = s
        return N(f)
    return None


def m_set(it, o, k):
    N = lambda f: Native('set.' + k, f)
    if k == 'add': return N(lambda i, a, kw: it.set_add(o, a[0]))
    if k == 'update':
        def f(i, a, kw):
            for x in a:
                for s in list(it.iterate(x)): it.set_add_seg(o, s)
        return N(f)
    if k == 'union':
        def f(i, a, kw):
            r = VSet(it.eng, list(it.iterate(o)))
            for x in a:
                for s in list(it.iterate(x)): it.set_add_seg(r, s)
            return r
        return N(f)
    if k == 'copy': return N(lambda i, a, kw: VSet(it.eng, list(it.iterate(o))))
    if k in ('intersection', 'difference'):
        return N(lambda i, a, kw: it.binop(ast.BitAnd() if k == 'intersection' else ast.Sub(), o, b_set(it, [a[0]], {})))
    if k in ('discard', 'remove'):
        def f(i, a, kw):
            for n, v in enumerate(o.items()):
                if it.eng.branch(it.truth(ops.eqb(it, v, a[0]))):
                    o.touch(); o.segs = o.segs[:n] + o.segs[n + 1:]
                    return
            if k == 'remove': raise PyRaise(KeyError('remove'))
        return N(f)
    if k == 'issubset': return N(lambda i, a, kw: ops.subset(it, o, a[0]))
    if k == 'issuperset': return N(lambda i, a, kw: ops.subset(it, a[0], o))
    if k == 'isdisjoint':
        return N(lambda i, a, kw: it.not_(it.quantify(it.iterate(o), False, lambda v, x: it.contains(a[0], v))))
    if k == 'clear':
        def f(i, a, kw): o.touch(); o.segs = []
        return N(f)
    if k == 'pop':
        def f(i, a, kw):
            o.read()
            if not o.concrete(): raise Undecided("set.pop")
            if not o.segs: raise PyRaise(KeyError('pop from an empty set'))
            if len(o.segs) > 1: raise Undecided("set.pop order")
            v = o.segs[0].v
            o.touch(); o.segs = []
            return v
        return N(f)
    return None


def m_dict(it, o, k):
    N = lambda f: Native('dict.' + k, f)
    if k == 'items': return N(lambda i, a, kw: (o.read(), tuple((x, y) for x, y in o.pairs))[1])
    if k == 'keys': return N(lambda i, a, kw: (o.read(), tuple(x for x, _ in o.pairs))[1])
    if k == 'values': return N(lambda i, a, kw: (o.read(), tuple(y for _, y in o.pairs))[1])
    if k == 'get': return N(lambda i, a, kw: it.dict_get(o, a[0], a[1] if len(a) > 1 else kw.get('default')))
    if k == 'copy': return N(lambda i, a, kw: (o.read(), VDict(it.eng, list(o.pairs)))[1])
    if k == 'update':
        def f(i, a, kw):
            for d in a:
                for x, y in d.pairs: it.dict_set(o, x, y)
            for x, y in kw.items(): it.dict_set(o, x, y)
        return N(f)
    if k == 'clear':
        def f(i, a, kw): o.touch(); o.pairs = []
        return N(f)
    if k == 'setdefault':
        def f(i, a, kw):
            p = it.dict_find(o, a[0])
            if p is not None: return p[1]
            it.dict_set(o, a[0], a[1] if len(a) > 1 else None)
            return a[1] if len(a) > 1 else None
        return N(f)
    if k == 'pop':
        def f(i, a, kw):
            p = it.dict_find(o, a[0])
            if p is None:
                if len(a) > 1: return a[1]
                raise PyRaise(KeyError(repr(a[0])))
            o.touch(); o.pairs = [q for q in o.pairs if q is not p]
            return p[1]
        return N(f)
    return None


def m_str(it, o, k):
    def f(i, a, kw):
        if k == 'join':
            parts = []
            segs = it.iterate(a[0])
            if isinstance(o, str) and all(isinstance(s, Single) for s in segs):
                for n, s in enumerate(segs):
                    if n: parts.append(o)
                    if not isinstance(s.v, (str, OStr)): it.raise_(TypeError, 'join')
                    parts.append(s.v)
                return it.cat(parts)
            return OStr([('join', o)])
        if isinstance(o, OStr) or any(isinstance(x, OStr) for x in a):
            if k in ('startswith', 'endswith', 'isdigit', 'find', 'count'): raise Undecided("inspection of a symbolic string")
            if k in ('split', 'splitlines'): raise Undecided("inspection of a symbolic string")
            return OStr([('opaque', o)])
        if k == 'format' and any(not ops.plain(x) for x in list(a) + list(kw.values())): return OStr([('opaque', o)])
        args = [it.native(x) if not isinstance(x, (str, int)) else x for x in a]
        try: r = getattr(o, k)(*args, **kw)
        except Exception as e: raise PyRaise(e)
        if isinstance(r, list): return VList.of(it.eng, r)
        return r
    if hasattr(str, k): return Native('str.' + k, f)
    return None


def make_getattr(it):
    def g(o, k):
        from .interp import GenVal
        r = None
        if isinstance(o, VSet): r = m_set(it, o, k)
        elif isinstance(o, VList): r = m_list(it, o, k)
        elif isinstance(o, VDict): r = m_dict(it, o, k)
        elif isinstance(o, (str, OStr)): r = m_str(it, o, k)
        elif isinstance(o, tuple):
            if k == 'index': r = m_list(it, VList.of(it.eng, list(o)), k)
            if k == 'count': r = m_list(it, VList.of(it.eng, list(o)), k)
        elif isinstance(o, (int, Fraction, float)):
            if k in ('numerator', 'denominator', 'real', 'imag'): r = getattr(o, k)
            if r is None and hasattr(o, k):
                r = Native('num.' + k, lambda i, a, kw: getattr(o, k)(*a))
        elif isinstance(o, Num):
            if k in ('numerator', 'denominator'):
                if o.kind == 'int': return o if k == 'numerator' else 1
                raise Undecided("numerator/denominator of a symbolic rational")
        elif isinstance(o, BaseException) or isinstance(o, type):
            if k == 'args': return tuple(getattr(o, 'args', ()))
            if k == '__name__': return o.__name__
        elif hasattr(o, 'sym_getattr'): return o.sym_getattr(it, k)
        elif isinstance(o, (Func,)) and k in ('__name__',): return o.name
        elif isinstance(o, Native):
            r = getattr(o, 'attrs', {}).get(k)
            if k == '__name__': return o.name
        if r is not None: return r
        if isinstance(o, (VList, VDict, VSet, tuple, str, OStr, Iter)):
            if k in ('__iter__',): return Native(k, lambda i, a, kw: b_iter(i, [o], {}))
            if k == '__len__': return Native(k, lambda i, a, kw: i.length(o))
            if k == '__contains__': return Native(k, lambda i, a, kw: i.contains(o, a[0]))
            if k == '__next__': return Native(k, lambda i, a, kw: b_next(i, [o], {}))
            py = (set if isinstance(o, VSet) else list if isinstance(o, VList) else dict if isinstance(o, VDict)
                  else tuple if isinstance(o, tuple) else type(iter([])) if isinstance(o, Iter) else str)
            if hasattr(py, k): raise Undecided(f"attribute {k} of a {py.__name__}")
        if isinstance(o, (Native, Func, Bound, GenVal)): raise Undecided(f"attribute {k} of {o!r}")
        it.raise_(AttributeError, f"{type(o).__name__} has no attribute {k!r}")
    return g


def b_print(it, a, kw): return None


def make_builtins(it):
    b = {e.__name__: e for e in EXCS}
    def n(name, f): b[name] = Native(name, f)
    n('range', make_range); n('len', lambda it, a, kw: it.length(a[0])); n('isinstance', b_isinstance)
    n('type', b_type); n('sorted', b_sorted); n('min', b_minmax(False)); n('max', b_minmax(True))
    n('any', b_anyall(False)); n('all', b_anyall(True)); n('enumerate', b_enumerate); n('zip', b_zip)
    n('list', b_list); n('tuple', b_tuple); n('set', b_set); n('frozenset', b_frozenset); n('dict', b_dict)
    n('next', b_next); n('iter', b_iter); n('sum', b_sum); n('abs', b_abs); n('map', b_map); n('filter', b_filter)
    n('reversed', b_reversed); n('hasattr', b_hasattr); n('getattr', b_getattr); n('setattr', b_setattr)
    n('str', b_str); n('repr', lambda it, a, kw: it.to_str(a[0], True)); n('hash', b_hash); n('callable', b_callable)
    n('round', b_round); n('pow', b_pow); n('super', b_super); n('id', b_id); n('vars', b_vars); n('divmod', b_divmod)
    n('int', to_int); n('float', to_float); n('print', b_print)
    n('bool', lambda it, a, kw: ops.boolify(it, a[0]) if a else False)
    n('object', lambda it, a, kw: undec('object()')); n('staticmethod', lambda it, a, kw: a[0])
    n('classmethod', lambda it, a, kw: a[0]); n('property', lambda it, a, kw: a[0])
    n('chr', lambda it, a, kw: chr(a[0])); n('ord', lambda it, a, kw: ord(a[0]))
    n('Fraction', to_frac)
    b['NotImplemented'] = NotImplemented
    b['Ellipsis'] = Ellipsis
    b['dict'].attrs = {'fromkeys': Native('fromkeys', lambda it, a, kw: fromkeys(it, a))}
    it.type_natives = {k: b[k] for k in ('bool', 'int', 'Fraction', 'float', 'str', 'list', 'set', 'frozenset', 'dict', 'tuple')}
    it.type_natives['NoneType'] = Native('NoneType', None)
    b['$getattr'] = make_getattr(it)
    F = b['Fraction']
    del b['Fraction']
    b['str'].attrs = {k: Native('str.' + k, (lambda k: lambda it, a, kw: it.call(it.getattr(a[0], k), a[1:], kw))(k)) for k in ('join', 'format', 'strip', 'lower', 'upper')}
    b['set'].attrs = {'union': Native('set.union', lambda it, a, kw: it.call(it.getattr(a[0], 'union'), a[1:], kw))}
    b['list'].attrs = {}
    b['float'].attrs = {}
    return b


def fromkeys(it, a):
    d = VDict(it.eng)
    for x in lst(it, a[0]): it.dict_set(d, x, a[1] if len(a) > 1 else None)
    return d


# ---------------------------------------------------------------- copies
def copy_val(it, v, deep, memo):
    if id(v) in memo: return memo[id(v)]
    if v is None or isinstance(v, (bool, int, Fraction, float, str, Num, SBool, OStr, Func, Bound, Native, Cls, Mod, type)): return v
    if isinstance(v, tuple): return tuple(copy_val(it, x, True, memo) for x in v) if deep else v
    if isinstance(v, Opt): return Opt(v.isnone, copy_val(it, v.value, deep, memo))
    if isinstance(v, VList):
        v.read()
        r = type(v)(it.eng, list(v.segs))
        r_frozen = getattr(v, 'frozen', False)
        if r_frozen: r.frozen = True
        memo[id(v)] = r
        if deep:
            out = []
            for s in v.segs:
                if isinstance(s, Single): out.append(Single(copy_val(it, s.v, True, memo)))
                else: out.append(Comp(s.ivars, s.bounds, [(g, copy_val(it, x, True, memo)) for g, x in s.cases], s.ordered))
            r.segs = out
        return r
    if isinstance(v, VDict):
        v.read()
        r = VDict(it.eng, list(v.pairs))
        memo[id(v)] = r
        if deep: r.pairs = [(copy_val(it, a, True, memo), copy_val(it, b, True, memo)) for a, b in v.pairs]
        return r
    if isinstance(v, Obj):
        m = v.cls.lookup('__deepcopy__' if deep else '__copy__')
        if m is not None:
            return it.call(Bound(m, v), [VDict(it.eng)] if deep else [], {})
        r = Obj(it.eng, v.cls)
        memo[id(v)] = r
        if deep and v.origin is not None: raise Undecided("deep copy of an element of a symbolic sequence")
        for k, x in v.attrs.items():
            it.eng.note_read(v, k)
            r.attrs[k] = copy_val(it, x, True, memo) if deep else x
        return r
    if hasattr(v, 'sym_copy'): return v.sym_copy(it, deep, memo)
    raise Undecided(f"copy of {v!r}")


def make_modules(it):
    mods = {}
    def mod(name, **ns):
        m = Mod(name)
        m.ns.update(ns)
        mods[name] = m
        return m
    N = Native
    frac = N('Fraction', to_frac)
    it.type_natives['Fraction'] = frac
    mod('fractions', Fraction=frac)
    mod('copy', copy=N('copy', lambda it, a, kw: copy_val(it, a[0], False, {})),
        deepcopy=N('deepcopy', lambda it, a, kw: copy_val(it, a[0], True, {})))
    def conc(f):
        def g(it, a, kw):
            try: rs = f(it, a, kw)
            except TypeError as e: raise PyRaise(e)
            return Iter(it.eng, [Single(x) for x in rs])
        return g
    def product(it, a, kw):
        seqs = [it.iterate(x) for x in a]
        if all(all(isinstance(s, Single) for s in q) for q in seqs):
            return Iter(it.eng, [Single(t) for t in itertools.product(*[[s.v for s in q] for q in seqs], **kw)])
        if kw: raise Undecided("product(repeat)")
        out = [([], [], [(TRUE, ())], True)]
        for q in seqs:
            nxt = []
            for (iv, bd, cases, o) in out:
                for s in q:
                    if isinstance(s, Single): nxt.append((iv, bd, [(g, t + (s.v,)) for g, t in cases], o and len(q) == 1))
                    else:
                        c = it.rename(s)
                        nxt.append((iv + c.ivars, bd + c.bounds, [(z_and(g, h), t + (v,)) for g, t in cases for h, v in c.cases], o and len(q) == 1 and s.ordered))
            out = nxt
        return Iter(it.eng, [Comp(iv, bd, cases, o) if iv else Single(cases[0][1]) for iv, bd, cases, o in out])
    def chain(it, a, kw):
        out = []
        for x in a: out.extend(it.iterate(x))
        return Iter(it.eng, out)
    ch = N('chain', chain)
    def from_iterable(it, a, kw):
        out = []
        for s in it.iterate(a[0]):
            if isinstance(s, Single): out.extend(it.iterate(s.v))
            else: out.extend(it.comp_generic(s, lambda v: it.iterate(v)))
        return Iter(it.eng, out)
    ch.attrs = {'from_iterable': N('from_iterable', from_iterable)}
    def pairwise(it, a, kw):
        l = lst(it, a[0])
        return list(zip(l, l[1:]))
    mod('itertools', product=N('product', product), chain=ch,
        combinations=N('combinations', conc(lambda it, a, kw: list(itertools.combinations(lst(it, a[0]), a[1])))),
        permutations=N('permutations', conc(lambda it, a, kw: list(itertools.permutations(lst(it, a[0]), *a[1:])))),
        pairwise=N('pairwise', conc(pairwise)),
        accumulate=N('accumulate', lambda it, a, kw: undec('accumulate')))
    mod('numbers', Number=N('Number', None), Rational=N('Rational', None), Real=N('Real', None), Integral=N('Integral', None))
    def m_floor(it, a, kw):
        x = a[0]
        if isinstance(x, Num): return x if x.kind == 'int' else Num(z3.ToInt(x.z), 'int')
        return math.floor(x)
    def m_ceil(it, a, kw):
        x = a[0]
        if isinstance(x, Num): return x if x.kind == 'int' else Num(-z3.ToInt(-x.z), 'int')
        return math.ceil(x)
    def fl(f):
        def g(it, a, kw):
            if any(is_sym(x) for x in a): raise Undecided("floating point function of a symbolic number")
            try: return f(*a)
            except Exception as e: raise PyRaise(e)
        return g
    mod('math', inf=math.inf, pi=math.pi, e=math.e, floor=N('floor', m_floor), ceil=N('ceil', m_ceil),
        isclose=N('isclose', fl(math.isclose)), sqrt=N('sqrt', fl(math.sqrt)), log=N('log', fl(math.log)),
        isinf=N('isinf', lambda it, a, kw: math.isinf(a[0]) if not is_sym(a[0]) else False),
        gcd=N('gcd', fl(math.gcd)), lcm=N('lcm', fl(math.lcm)), comb=N('comb', fl(math.comb)), factorial=N('factorial', fl(math.factorial)))
    red = N('reduce', b_reduce)
    mod('functools', reduce=red, lru_cache=N('lru_cache', lambda it, a, kw: undec('lru_cache')), cache=N('cache', None), partial=N('partial', b_partial),
        cmp_to_key=N('cmp_to_key', None), wraps=N('wraps', None))
    mod('operator', **{k: N(k, (lambda o: lambda it, a, kw: it.binop(o(), a[0], a[1]))(o)) for k, o in
                       (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('truediv', ast.Div), ('or_', ast.BitOr))},
        **{k: N(k, (lambda o: lambda it, a, kw: it.compare(o(), a[0], a[1]))(o)) for k, o in
           (('lt', ast.Lt), ('le', ast.LtE), ('gt', ast.Gt), ('ge', ast.GtE), ('eq', ast.Eq), ('ne', ast.NotEq))},
        itemgetter=N('itemgetter', lambda it, a, kw: N('ig', lambda it2, b, kw2: it.getitem(b[0], a[0]) if len(a) == 1 else tuple(it.getitem(b[0], k) for k in a))),
        attrgetter=N('attrgetter', lambda it, a, kw: N('ag', lambda it2, b, kw2: it.getattr(b[0], a[0]))))
    for name in ('typing', 'time', 'os', 'os.path', 're', 'pprint', 'datetime', 'warnings', '__future__', 'abc', 'dataclasses', 'collections', 'bisect', 'heapq', 'enum',
                 'matplotlib', 'matplotlib.pyplot', 'numpy', 'scipy', 'scipy.spatial', 'sympy', 'cdd', 'pybtex', 'pybtex.database', 'latexcodec', 'multiprocessing', 'random'):
        mod(name)
    for k in ('List', 'Tuple', 'Set', 'Dict', 'Optional', 'Union', 'Any', 'Callable', 'Iterable', 'Sequence'):
        mods['typing'].ns[k] = Native('list', None)
    import os as _os
    mods['os'].ns['path'] = mods['os.path']
    for _k in ('dirname', 'join', 'abspath', 'exists', 'realpath'):
        mods['os.path'].ns[_k] = N(_k, fl(getattr(_os.path, _k)))
    mods['time'].ns['time'] = N('time', lambda it, a, kw: 0.0)
    mods['scipy'].ns['spatial'] = mods['scipy.spatial']
    mods['scipy.spatial'].ns['ConvexHull'] = N('ConvexHull', lambda it, a, kw: it.instantiate(it.load('vp_scipy').ns['ConvexHull'], a, kw))
    mods['numpy'].ns['array'] = N('array', lambda it, a, kw: a[0])
    mod('vp', fresh_real=N('fresh_real', lambda it, a, kw: Num(it.eng.fresh(z3.RealSort(), a[0]), 'frac')),
        fresh_bool=N('fresh_bool', lambda it, a, kw: SBool(it.eng.fresh(z3.BoolSort(), a[0]))),
        certain=N('certain', lambda it, a, kw: a[0] is True), assume=N('assume', vp_assume), undecided=N('undecided', lambda it, a, kw: undec(a[0])))
    for k in ('symbols', 'sympify', 'solve', 'diff', 'real_roots'):
        mods['sympy'].ns[k] = LazyModel('vp_sympy', k)
    for k in ('Matrix', 'Polyhedron', 'LinProg', 'RepType', 'LPObjType', 'LPStatusType'):
        mods['cdd'].ns[k] = LazyModel('vp_cdd', k)
    mods['collections'].ns['defaultdict'] = Poison('defaultdict')
    mods['__future__'].ns['annotations'] = None
    mods['numpy'].ns.update(inf=math.inf, pi=math.pi)
    return mods


def vp_assume(it, a, kw):
    t = it.truth(a[0])
    if t is False: raise Infeasible()
    if t is not True: it.eng.assume(t)


def b_reduce(it, a, kw):
    f = a[0]
    items = lst(it, a[1])
    if len(a) > 2: acc = a[2]
    else:
        if not items: it.raise_(TypeError, 'reduce() of empty')
        acc, items = items[0], items[1:]
    for x in items: acc = it.call(f, [acc, x], {})
    return acc


def b_partial(it, a, kw):
    f, pre, pk = a[0], list(a[1:]), dict(kw)
    return Native('partial', lambda it2, b, kw2: it.call(f, pre + list(b), {**pk, **kw2}))
