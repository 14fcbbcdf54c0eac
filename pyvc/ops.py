"""Operators and containers (methods of Interp; `self` is the interpreter)."""
import ast, operator, math
from fractions import Fraction
from .engine import (z3, Undecided, Infeasible, PyRaise, ReturnEx, z_and, z_or, z_not, TRUE, FALSE)
from .values import *

_OPS = {ast.Add: ('__add__', '__radd__', operator.add), ast.Sub: ('__sub__', '__rsub__', operator.sub),
        ast.Mult: ('__mul__', '__rmul__', operator.mul), ast.Div: ('__truediv__', '__rtruediv__', operator.truediv),
        ast.FloorDiv: ('__floordiv__', '__rfloordiv__', operator.floordiv), ast.Mod: ('__mod__', '__rmod__', operator.mod),
        ast.Pow: ('__pow__', '__rpow__', operator.pow), ast.BitOr: ('__or__', '__ror__', operator.or_),
        ast.BitAnd: ('__and__', '__rand__', operator.and_), ast.BitXor: ('__xor__', '__rxor__', operator.xor),
        ast.LShift: ('__lshift__', '__rlshift__', operator.lshift), ast.RShift: ('__rshift__', '__rrshift__', operator.rshift),
        ast.MatMult: ('__matmul__', '__rmatmul__', operator.matmul)}
_CMP = {ast.Lt: ('__lt__', '__gt__', operator.lt), ast.LtE: ('__le__', '__ge__', operator.le),
        ast.Gt: ('__gt__', '__lt__', operator.gt), ast.GtE: ('__ge__', '__le__', operator.ge)}
NATIVE = (int, Fraction, float, str, bool)


def plain(v):
    return isinstance(v, NATIVE) or v is None


def unopt(self, v, what='operand'):
    if isinstance(v, Opt):
        if self.eng.branch(v.isnone): return None
        return v.value
    return v


def numeric(v):
    return isinstance(v, (Num, int, Fraction, float, SBool))


def binop(self, op, a, b):
    for x in (a, b):
        if isinstance(x, Poison): raise Undecided(x.why)
    a, b = unopt(self, a), unopt(self, b)
    m, rm, fn = _OPS[type(op)]
    if isinstance(a, Obj) or isinstance(b, Obj):
        if isinstance(a, Obj) and a.cls.lookup(m) is not None:
            r = self.call_method(a, m, [b])
            if r is not NotImplemented: return r
        if isinstance(b, Obj) and b.cls.lookup(rm) is not None:
            r = self.call_method(b, rm, [a])
            if r is not NotImplemented: return r
        if isinstance(a, VList) and isinstance(op, ast.Mod): raise Undecided("list %")
        self.raise_(TypeError, f"unsupported operand type(s) for {m}")
    if hasattr(a, 'sym_binop') or hasattr(b, 'sym_binop'):
        return (a if hasattr(a, 'sym_binop') else b).sym_binop(self, op, a, b)
    if plain(a) and plain(b):
        try: return fn(a, b)
        except Exception as e: raise PyRaise(e)
    if isinstance(a, (str, OStr)) or isinstance(b, (str, OStr)):
        if isinstance(op, ast.Add):
            if isinstance(a, (str, OStr)) and isinstance(b, (str, OStr)): return self.cat([a, b])
            self.raise_(TypeError, 'can only concatenate str')
        if isinstance(op, ast.Mod): return OStr([('opaque', a)])
        if isinstance(op, ast.Mult): return OStr([('opaque', a)])
        self.raise_(TypeError, 'str operand')
    if isinstance(a, VSet) and isinstance(b, VSet):
        if isinstance(op, ast.BitOr): return set_union(self, a, b)
        r = VSet(self.eng)
        if isinstance(op, (ast.BitAnd, ast.Sub)):
            for s in iterate(self, a):
                if not isinstance(s, Single): raise Undecided("set operation on a symbolic set")
                c = contains(self, b, s.v)
                want = isinstance(op, ast.BitAnd)
                if self.eng.branch(truth(self, c)) == want: r.segs.append(s)
            return r
        raise Undecided("set operator")
    if isinstance(a, VDict) and isinstance(b, VDict) and isinstance(op, ast.BitOr):
        r = VDict(self.eng, list(a.pairs))
        for k, v in b.pairs: dict_set(self, r, k, v)
        return r
    if isinstance(op, ast.Add):
        if isinstance(a, VList) and isinstance(b, VList):
            a.read(); b.read()
            return VList(self.eng, list(a.segs) + list(b.segs))
        if isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if isinstance(a, (tuple, VTuple)) and isinstance(b, (tuple, VTuple)):
            return VTuple(list(iterate(self, a)) + list(iterate(self, b)))
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (VList, tuple)) and isinstance(y, int):
                if isinstance(x, tuple): return x * y
                x.read()
                if not x.concrete() and y > 1: raise Undecided("list repetition")
                return VList(self.eng, list(x.segs) * y)
            if isinstance(x, VList) and isinstance(y, Num) and len(x.segs) == 1 and isinstance(x.segs[0], Single):
                i = z3.Int(self.eng.fresh_name('r'))
                n = z3.If(y.z > 0, y.z, z3.IntVal(0))
                return VList(self.eng, [Comp([i], [n], [(TRUE, x.segs[0].v)])])
    if numeric(a) and numeric(b): return num_op(self, op, a, b)
    self.raise_(TypeError, f"unsupported operand types for {type(op).__name__}: {a!r} {b!r}")


def num_op(self, op, a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(op, (ast.Add, ast.Sub)):
            # +-infinity absorbs
            if isinstance(a, float) and math.isinf(a): return a
            if isinstance(b, float) and math.isinf(b): return b if isinstance(op, ast.Add) else -b
        raise Undecided("floating point arithmetic on a symbolic number")
    x, y, k = lift2(a, b)
    if isinstance(op, ast.Add): return mk_num(z3.simplify(x + y) if z3.is_rational_value(x) and z3.is_rational_value(y) else x + y, k)
    if isinstance(op, ast.Sub): return mk_num(x - y, k)
    if isinstance(op, ast.Mult):
        if not isinstance(a, (Num, SBool)) and a == 0 or not isinstance(b, (Num, SBool)) and b == 0:
            return 0 if k == 'int' else Fraction(0)
        if not isinstance(a, (Num, SBool)) and a == 1: return Num(y, k) if kind_of(b) == k else Num(to_z(b, k), k)
        if not isinstance(b, (Num, SBool)) and b == 1: return Num(to_z(a, k), k)
        return mk_num(x * y, k)
    if isinstance(op, ast.Div):
        zero = y == (0 if k == 'int' else z3.RealVal(0))
        if self.eng.branch(zero): self.raise_(ZeroDivisionError, 'division by zero')
        if k == 'int': raise Undecided("true division of symbolic integers gives a float")
        return mk_num(x / y, k)
    if isinstance(op, ast.Pow):
        if isinstance(b, int) and not isinstance(b, bool):
            if b < 0:
                return num_op(self, ast.Div(), Fraction(1), num_op(self, op, a, -b))
            if b <= 8:
                r = Fraction(1) if k == 'frac' else 1
                for _ in range(b): r = num_op(self, ast.Mult(), r, a)
                return r
        raise Undecided("symbolic power")
    if isinstance(op, ast.FloorDiv) and k == 'int':
        if self.eng.branch(y == 0): self.raise_(ZeroDivisionError, 'division by zero')
        if self.eng.branch(y > 0): return mk_num(x / y, 'int')
        return mk_num((-x) / (-y), 'int')
    if isinstance(op, ast.Mod) and k == 'int':
        if self.eng.branch(y == 0): self.raise_(ZeroDivisionError, 'division by zero')
        if self.eng.branch(y > 0): return mk_num(x % y, 'int')
    raise Undecided(f"operator {type(op).__name__} on symbolic numbers")


# ------------------------------------------------------------------ comparisons
def compare(self, op, a, b):
    if isinstance(op, ast.Is): return ident(self, a, b)
    if isinstance(op, ast.IsNot): return self.not_(ident(self, a, b))
    if isinstance(op, ast.In): return contains(self, b, a)
    if isinstance(op, ast.NotIn): return self.not_(contains(self, b, a))
    if isinstance(op, ast.Eq): return eq(self, a, b)
    if isinstance(op, ast.NotEq):
        if isinstance(a, Obj) and a.cls.lookup('__ne__') is not None: return self.call_method(a, '__ne__', [b])
        return self.not_(eq(self, a, b))
    for x in (a, b):
        if isinstance(x, Poison): raise Undecided(x.why)
    a, b = unopt(self, a), unopt(self, b)
    m, rm, fn = _CMP[type(op)]
    if isinstance(a, Obj) or isinstance(b, Obj):
        if isinstance(a, Obj) and a.cls.lookup(m) is not None:
            r = self.call_method(a, m, [b])
            if r is not NotImplemented: return r
        if isinstance(b, Obj) and b.cls.lookup(rm) is not None:
            r = self.call_method(b, rm, [a])
            if r is not NotImplemented: return r
        self.raise_(TypeError, f"{m} not supported")
    if hasattr(a, 'sym_compare') or hasattr(b, 'sym_compare'):
        return (a if hasattr(a, 'sym_compare') else b).sym_compare(self, op, a, b)
    if plain(a) and plain(b):
        try: return fn(a, b)
        except Exception as e: raise PyRaise(e)
    if numeric(a) and numeric(b):
        if isinstance(a, float) or isinstance(b, float):
            f = a if isinstance(a, float) else b
            if math.isnan(f): return False
            if math.isinf(f):
                return fn(f, 0) if f is a else fn(0, f)
            a, b = (Fraction(a), b) if f is a else (a, Fraction(b))
        x, y, k = lift2(a, b)
        return mk_bool(z3.simplify(fn(x, y)))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return lex(self, op, a, b)
    if isinstance(a, VSet) and isinstance(b, VSet):
        if isinstance(op, (ast.LtE,)): return subset(self, a, b)
        if isinstance(op, (ast.GtE,)): return subset(self, b, a)
        raise Undecided("set comparison")
    if isinstance(a, VList) and isinstance(b, VList) and a.concrete() and b.concrete():
        return lex(self, op, tuple(a.items()), tuple(b.items()))
    if a is None or b is None or type(a) is not type(b): self.raise_(TypeError, f"{m} not supported between instances")
    raise Undecided("comparison")


def subset(self, a, b):
    r = True
    for s in iterate(self, a):
        if not isinstance(s, Single): raise Undecided("subset of symbolic sets")
        r = self.and_(r, contains(self, b, s.v))
    return r


def lex(self, op, a, b):
    """Lexicographic comparison of tuples."""
    strict = isinstance(op, (ast.Lt, ast.Gt))
    base = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
    n = min(len(a), len(b))
    tail = {ast.Lt: len(a) < len(b), ast.LtE: len(a) <= len(b), ast.Gt: len(a) > len(b), ast.GtE: len(a) >= len(b)}[type(op)]
    for i in range(n):
        e = eq(self, a[i], b[i])
        if self.eng.branch(truth(self, e)): continue
        return compare(self, base, a[i], b[i])
    return tail


def less(self, a, b):
    return compare(self, ast.Lt(), a, b)


def eq(self, a, b):
    for x in (a, b):
        if isinstance(x, Poison): raise Undecided(x.why)
    if isinstance(a, Opt) or isinstance(b, Opt):
        if not isinstance(a, Opt): a, b = b, a
        if b is None: return mk_bool(a.isnone)
        if isinstance(b, Opt):
            return mk_bool(z_or(z_and(a.isnone, b.isnone),
                                z_and(z_not(a.isnone), z_not(b.isnone), zb(eq(self, a.value, b.value)))))
        return mk_bool(z_and(z_not(a.isnone), zb(eq(self, a.value, b))))
    if isinstance(a, Obj) or isinstance(b, Obj):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and x.cls.lookup('__eq__') is not None:
                r = self.call_method(x, '__eq__', [y])
                if r is not NotImplemented: return r
        return ident(self, a, b)
    if hasattr(a, 'sym_compare') or hasattr(b, 'sym_compare'):
        return (a if hasattr(a, 'sym_compare') else b).sym_compare(self, ast.Eq(), a, b)
    if plain(a) and plain(b): return a == b
    if numeric(a) and numeric(b):
        if isinstance(a, float) or isinstance(b, float):
            f = a if isinstance(a, float) else b
            if math.isnan(f) or math.isinf(f): return False
            a, b = (Fraction(a), b) if f is a else (a, Fraction(b))
        if isinstance(a, SBool) and isinstance(b, (SBool, bool)): return mk_bool(z3.simplify(a.z == zb(b)))
        if isinstance(b, SBool) and isinstance(a, bool): return mk_bool(z3.simplify(b.z == zb(a)))
        x, y, k = lift2(a, b)
        return mk_bool(z3.simplify(x == y))
    if isinstance(a, OStr) and isinstance(b, OStr):
        if a is b: return True
        raise Undecided("comparison of symbolic strings")
    if isinstance(a, OStr) or isinstance(b, OStr):
        o = b if isinstance(a, OStr) else a
        if isinstance(o, str):
            q = (a if o is b else b).parts
            if q and isinstance(q[0], str) and not o.startswith(q[0]): return False
            if q and isinstance(q[-1], str) and not o.endswith(q[-1]): return False
            raise Undecided("comparison of symbolic strings")
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        r = True
        for x, y in zip(a, b):
            r = self.and_(r, eqb(self, x, y))
            if r is False: return False
        return r
    if isinstance(a, VSet) and isinstance(b, VSet):
        return self.and_(subset(self, a, b), subset(self, b, a))
    if isinstance(a, VSet) or isinstance(b, VSet): return False
    if isinstance(a, VList) and isinstance(b, VList):
        if a is b: return True
        if a.concrete() and b.concrete(): return eq(self, tuple(a.items()), tuple(b.items()))
        a.read(); b.read()
        la, lb = length(self, a), length(self, b)
        if not self.eng.branch(truth(self, eq(self, la, lb))): return False
        i = z3.Int(self.eng.fresh_name('e'))
        sa, sb = segs_norm(self, a), segs_norm(self, b)
        if len(sa) == 1 and len(sb) == 1 and isinstance(sa[0], Comp) and isinstance(sb[0], Comp):
            n = sa[0].bounds[0]
            return quantify(self, [Comp([i], [n], [(TRUE, None)])], True,
                            lambda v, idx: eqb(self, comp_at(self, sa[0], idx), comp_at(self, sb[0], idx)))
        raise Undecided("equality of sequences of symbolic length")
    if isinstance(a, VDict) and isinstance(b, VDict):
        if len(a.pairs) != len(b.pairs): return False
        r = True
        for k, v in a.pairs:
            w = dict_find(self, b, k)
            if w is None: return False
            r = self.and_(r, eqb(self, v, w[1]))
        return r
    if isinstance(a, (Func, Bound, Native, Cls)) or isinstance(b, (Func, Bound, Native, Cls)): return a is b
    if isinstance(a, VTuple) or isinstance(b, VTuple): raise Undecided("equality of symbolic tuples")
    return False


def eqb(self, x, y):
    """Element equality of containers (identity implies equality)."""
    if x is y and not isinstance(x, float): return True
    r = eq(self, x, y)
    if isinstance(r, (bool, SBool)): return r
    t = truth(self, r)
    return t if isinstance(t, bool) else mk_bool(t)


def ident(self, a, b):
    if isinstance(a, Opt) or isinstance(b, Opt):
        if not isinstance(a, Opt): a, b = b, a
        if b is None: return mk_bool(a.isnone)
        if isinstance(b, Opt):
            return mk_bool(z_or(z_and(a.isnone, b.isnone), z_and(z_not(a.isnone), z_not(b.isnone), zb(ident(self, a.value, b.value)))))
        return mk_bool(z_and(z_not(a.isnone), zb(ident(self, a.value, b))))
    if a is None or b is None: return a is b
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a is b: return True
        if a.origin is not None and b.origin is not None and a.origin[0] == b.origin[0] and len(a.origin[1]) == len(b.origin[1]):
            return mk_bool(z3.simplify(z_and(*[x == y for x, y in zip(a.origin[1], b.origin[1])])))
        return False
    if isinstance(a, bool) and isinstance(b, bool): return a is b
    if isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return mk_bool(z3.simplify(zb(a) == zb(b)))
        return False
    if isinstance(a, str) and isinstance(b, str): return a == b
    if isinstance(a, (Num, int, Fraction)) and isinstance(b, (Num, int, Fraction)):
        if a is b: return True
        if isinstance(a, int) and isinstance(b, int): return a == b
        raise Undecided("identity of numbers")
    return a is b


def truth(self, v):
    """bool or z3 term."""
    if isinstance(v, bool): return v
    if v is None: return False
    if isinstance(v, SBool): return v.z
    if isinstance(v, Num): return z3.simplify(v.z != 0)
    if isinstance(v, (int, Fraction, float, str)): return bool(v)
    if isinstance(v, tuple): return len(v) > 0
    if isinstance(v, (VList, VTuple)):
        n = nonempty(self, v)
        return n
    if isinstance(v, VDict):
        v.read()
        return len(v.pairs) > 0
    if isinstance(v, Opt):
        t = truth(self, v.value)
        return z_and(z_not(v.isnone), t if not isinstance(t, bool) else z3.BoolVal(t))
    if isinstance(v, Obj):
        if v.cls.lookup('__bool__') is not None: return truth(self, self.call_method(v, '__bool__', []))
        if v.cls.lookup('__len__') is not None: return truth(self, self.call_method(v, '__len__', []))
        return True
    if isinstance(v, OStr): return True if any(isinstance(p, str) and p or p[0] == 'num' for p in v.parts) else undec("truth of a symbolic string")
    if isinstance(v, Poison): raise Undecided(v.why)
    if v is NotImplemented: return True
    return True


truthy = truth


def undec(m): raise Undecided(m)


def nonempty(self, v):
    v.read()
    t = FALSE
    for s in v.segs:
        if isinstance(s, Single): return True
        t = z_or(t, self.exists(s.ivars, z_and(s.range(), s.exists_guard())) if not s.trivial() else s.bounds[0] > 0)
    t = z3.simplify(t)
    return True if z3.is_true(t) else (False if z3.is_false(t) else t)


# ------------------------------------------------------------------ iteration
def iterate(self, v):
    """The elements of v as a list of segments."""
    from .interp import GenVal
    if isinstance(v, GenVal):
        if v.done: return []
        s = v.segs()
        v.done = True
        return s
    if isinstance(v, tuple): return [Single(x) for x in v]
    if isinstance(v, VTuple): return list(v.segs)
    if isinstance(v, VList):
        v.read()
        return list(v.segs)
    if isinstance(v, VDict):
        v.read()
        return [Single(k) for k, _ in v.pairs]
    if isinstance(v, Iter):
        v.touch()
        s, v.segs = list(v.segs), []
        return s
    if isinstance(v, str): return [Single(c) for c in v]
    if isinstance(v, Opt):
        if self.eng.branch(v.isnone): self.raise_(TypeError, "'NoneType' object is not iterable")
        return iterate(self, v.value)
    if isinstance(v, Obj):
        if v.cls.lookup('__iter__') is not None: return iterate(self, self.call_method(v, '__iter__', []))
        if v.cls.lookup('__getitem__') is None: self.raise_(TypeError, f"'{v.cls.name}' object is not iterable")
    if hasattr(v, 'sym_iter'): return v.sym_iter(self)
    if v is None or isinstance(v, (int, Fraction, float, Num, SBool)): self.raise_(TypeError, 'object is not iterable')
    if isinstance(v, Poison): raise Undecided(v.why)
    raise Undecided(f"iteration over {v!r}")


def elem_at(self, comp, idx):
    return comp_at(self, comp, idx)


def comp_at(self, comp, idx):
    """The element of a trivial comprehension at position idx (z3 Int)."""
    idx = z3.simplify(idx)
    key = idx.sexpr()
    if key in comp.inst: return comp.inst[key]
    pairs = [(comp.ivars[0], idx)]
    if len(comp.cases) == 1: v = subst(comp.cases[0][1], pairs)
    else:
        cases = [(z3.simplify(subst_z(g, pairs)), subst(x, pairs)) for g, x in comp.cases]
        try: v = self.merge([(g, x) for g, x in cases])
        except Exception as e:
            if type(e).__name__ != 'MergeFail': raise
            for g, x in cases[:-1]:
                if self.eng.branch(g): return x
            return cases[-1][1]
    comp.inst[key] = v
    return v


def normalize(self, comp):
    """A trivial comprehension (one index, no guard) enumerating the elements of comp in order."""
    if comp.trivial(): return comp
    if comp._count is not None: return comp._count
    eng = self.eng
    if eng.generic and any(True for _ in eng.generic):
        gen = list(eng.generic)
    else: gen = []
    I = z3.IntSort()
    m = eng.fresh(I, 'm')
    k = z3.Int(eng.fresh_name('k'))
    nm = eng.fresh_name('s')
    sig = [z3.Function(f"{nm}_{n}", *([I] * (len(gen) + 1)), I) for n in range(len(comp.ivars))]
    tau = z3.Function(eng.fresh_name('t'), *([I] * (len(gen) + len(comp.ivars))), I)
    at = [s(*gen, k) for s in sig]
    pairs = list(zip(comp.ivars, at))
    g = comp.exists_guard()
    eng.assume(m >= 0)
    rng_at = subst_z(z_and(comp.range(), g), pairs)
    eng.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z_and(rng_at, tau(*gen, *at) == k)), patterns=[sig[0](*gen, k)]))
    j = [z3.Int(eng.fresh_name('j')) for _ in comp.ivars]
    tj = tau(*gen, *j)
    pj = list(zip(comp.ivars, j))
    eng.assume(z3.ForAll(j, z3.Implies(subst_z(z_and(comp.range(), g), pj),
                                       z_and(tj >= 0, tj < m, *[s(*gen, tj) == x for s, x in zip(sig, j)]))))
    if comp.ordered:
        k2 = z3.Int(eng.fresh_name('k'))
        at2 = [s(*gen, k2) for s in sig]
        eng.assume(z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < m), self.lex_less(at, at2))))
    r = Comp([k], [m], [(TRUE if z3.is_true(z3.simplify(gg)) else subst_z(gg, pairs), subst(v, pairs)) for gg, v in comp.cases], comp.ordered)
    if len(r.cases) == 1: r.cases = [(TRUE, r.cases[0][1])]
    else:
        r.cases[-1] = (z_not(z_or(*[q for q, _ in r.cases[:-1]])), r.cases[-1][1])
    comp._count = r
    return r


def segs_norm(self, v):
    v.read()
    if isinstance(v, VSet): raise Undecided("positions in a symbolic set")
    return [s if isinstance(s, Single) else normalize(self, s) for s in v.segs]


def length(self, v):
    from .interp import GenVal
    if isinstance(v, (str, tuple)): return len(v)
    if isinstance(v, OStr):
        n = self.eng.fresh(z3.IntSort(), 'len')
        self.eng.assume(n >= sum(len(p) if isinstance(p, str) else 1 if p[0] == 'num' else 0 for p in v.parts))
        return Num(n, 'int')
    if isinstance(v, VDict):
        v.read()
        return len(v.pairs)
    if isinstance(v, (VList, VTuple)):
        v.read()
        if isinstance(v, VSet) and (getattr(v, 'dups', False) or not v.concrete()): raise Undecided("size of a symbolic set")
        if v.concrete(): return len(v.segs)
        if isinstance(v, VSet): raise Undecided("size of a symbolic set")
        n, z = 0, None
        for s in v.segs:
            if isinstance(s, Single): n += 1
            else:
                b = normalize(self, s).bounds[0]
                z = b if z is None else z + b
        return mk_num(z3.simplify(z + n), 'int')
    if isinstance(v, Opt):
        if self.eng.branch(v.isnone): self.raise_(TypeError, 'len of None')
        return length(self, v.value)
    if isinstance(v, Obj):
        if v.cls.lookup('__len__') is None: self.raise_(TypeError, 'object has no len()')
        return self.call_method(v, '__len__', [])
    if isinstance(v, (GenVal, Iter)) or v is None or numeric(v): self.raise_(TypeError, 'object has no len()')
    if hasattr(v, 'sym_len'): return v.sym_len(self)
    raise Undecided(f"len of {v!r}")


# ------------------------------------------------------------------ indexing
def getitem(self, o, k):
    o, k = unopt(self, o), unopt(self, k)
    if isinstance(o, Poison): raise Undecided(o.why)
    if isinstance(o, VDict):
        f = dict_find(self, o, k)
        if f is None: raise PyRaise(KeyError(repr(k)))
        return f[1]
    if isinstance(o, Obj):
        if o.cls.lookup('__getitem__') is None: self.raise_(TypeError, 'object is not subscriptable')
        return self.call_method(o, '__getitem__', [k])
    if hasattr(o, 'sym_getitem'): return o.sym_getitem(self, k)
    if isinstance(o, VSet): self.raise_(TypeError, "'set' object is not subscriptable")
    if isinstance(o, str):
        if isinstance(k, int):
            try: return o[k]
            except IndexError as e: raise PyRaise(e)
        raise Undecided("symbolic index into a string")
    if isinstance(o, (VList, tuple, VTuple)):
        if isinstance(k, (bool, SBool)): k = to_int(k)
        if not isinstance(k, int) and not (isinstance(k, Num) and k.kind == 'int'):
            self.raise_(TypeError, f'list indices must be integers, not {k!r}')
        if not isinstance(o, tuple): o.read()
        if isinstance(o, tuple) or o.concrete():
            items = o if isinstance(o, tuple) else [s.v for s in o.segs]
            if isinstance(k, int):
                try: return items[k]
                except IndexError as e: raise PyRaise(e)
            for n in range(len(items)):
                if self.eng.branch(z3.Or(k.z == n, k.z == n - len(items))): return items[n]
            self.raise_(IndexError, 'list index out of range')
        segs = segs_norm(self, o)
        # concrete index reaching only leading singles
        if isinstance(k, int) and k >= 0 and all(isinstance(s, Single) for s in segs[:k + 1]) and len(segs) > k: return segs[k].v
        if isinstance(k, int) and k < 0 and len(segs) >= -k and all(isinstance(s, Single) for s in segs[k:]): return segs[k].v
        n = to_z(length(self, o))
        kz = to_z(k)
        if not self.eng.branch(z3.And(kz < n, kz >= -n)): self.raise_(IndexError, 'list index out of range')
        if isinstance(k, int): kz = kz if k >= 0 else n + kz
        elif not self.eng.branch(kz >= 0): kz = n + kz
        off = z3.IntVal(0)
        for i, s in enumerate(segs):
            ln = z3.IntVal(1) if isinstance(s, Single) else s.bounds[0]
            last = i == len(segs) - 1
            if last or self.eng.branch(kz < off + ln):
                if isinstance(s, Single): return s.v
                return comp_at(self, s, kz - off)
            off = off + ln
    if o is None or numeric(o): self.raise_(TypeError, 'object is not subscriptable')
    raise Undecided(f"indexing of {o!r}")


def to_int(k):
    if isinstance(k, bool): return int(k)
    return Num(to_z(k), 'int')


def getslice(self, o, lo, hi, st):
    o = unopt(self, o)
    if hasattr(o, 'sym_getslice'): return o.sym_getslice(self, lo, hi, st)
    if isinstance(o, Obj): raise Undecided("slice of an object")
    if any(is_sym(x) for x in (lo, hi, st)):
        if st not in (None, 1) or not isinstance(o, (VList, VTuple)): raise Undecided("symbolic slice")
        o.read()
        segs = segs_norm(self, o)
        if len(segs) != 1 or isinstance(segs[0], Single): raise Undecided("slice with symbolic bounds")
        n = segs[0].bounds[0]
        def bound(v, d):
            if v is None: return d
            z = to_z(v)
            if self.eng.branch(z < 0): z = z3.If(n + z < 0, z3.IntVal(0), n + z)
            return n if not self.eng.branch(z <= n) else z
        a, b = bound(lo, z3.IntVal(0)), bound(hi, n)
        if not self.eng.branch(a < b): return VList(self.eng) if isinstance(o, VList) else ()
        i = z3.Int(self.eng.fresh_name('h'))
        r = VList(self.eng, [shifted(self, segs[0], i, i + a, b - a)])
        return r if isinstance(o, VList) else VTuple(r.segs)
    if isinstance(o, (str, tuple)): return o[lo:hi:st]
    if isinstance(o, OStr): return OStr([('opaque', o)])
    if isinstance(o, (VList, VTuple)):
        o.read()
        if o.concrete():
            r = o.segs[lo:hi:st]
            return VList(self.eng, r) if isinstance(o, VList) else tuple(s.v for s in r)
        if lo is None and hi is None and st is None: return VList(self.eng, list(o.segs))
        segs = segs_norm(self, o)
        if lo is None and hi is None and st == -1:
            out = []
            for s in reversed(segs): out.append(s if isinstance(s, Single) else reversed_comp(self, s))
            return VList(self.eng, out)
        if st not in (None, 1): raise Undecided("slice with a step")
        # o[a:], o[:-b], o[a:-b] with small constants
        a, b = lo or 0, 0 if hi is None else hi
        if a < 0: raise Undecided("slice")
        n = to_z(length(self, o))
        if hi is not None and hi >= 0:
            # keep the first hi elements
            if self.eng.branch(n > hi):
                rem, out = z3.IntVal(hi), []
                for s in segs:
                    if not self.eng.branch(rem > 0): break
                    if isinstance(s, Single):
                        out.append(s); rem = rem - 1; continue
                    if self.eng.branch(s.bounds[0] <= rem):
                        out.append(s); rem = rem - s.bounds[0]; continue
                    i = z3.Int(self.eng.fresh_name('h'))
                    out.append(shifted(self, s, i, i, rem))
                    break
                segs, n = out, z3.IntVal(hi)
            b = 0
        if not self.eng.branch(n >= a - b): return VList(self.eng)
        segs = list(segs)
        for _ in range(a):
            s = segs[0]
            if isinstance(s, Single): segs.pop(0); continue
            if self.eng.branch(s.bounds[0] <= 0): segs.pop(0); raise Undecided("slice of mixed segments") if segs == [] else None
            i = z3.Int(self.eng.fresh_name('h'))
            segs[0] = shifted(self, s, i, i + 1, s.bounds[0] - 1)
        for _ in range(-b):
            s = segs[-1]
            if isinstance(s, Single): segs.pop(); continue
            i = z3.Int(self.eng.fresh_name('h'))
            segs[-1] = shifted(self, s, i, i, s.bounds[0] - 1)
        return VList(self.eng, segs)
    raise Undecided(f"slice of {o!r}")


def shifted(self, s, i, e, n):
    pairs = [(s.ivars[0], e)]
    return Comp([i], [z3.simplify(n)], [(subst_z(g, pairs), subst(v, pairs)) for g, v in s.cases], s.ordered)


def reversed_comp(self, s):
    i = z3.Int(self.eng.fresh_name('h'))
    return shifted(self, s, i, s.bounds[0] - 1 - i, s.bounds[0])


def frozen(o):
    if getattr(o, 'shared', False): raise Undecided("an element of a symbolic sequence is modified")


def setitem(self, o, k, v):
    o, k = unopt(self, o), unopt(self, k)
    if isinstance(o, VDict): return dict_set(self, o, k, v)
    if isinstance(o, Obj): return self.call_method(o, '__setitem__', [k, v])
    if hasattr(o, 'sym_setitem'): return o.sym_setitem(self, k, v)
    if isinstance(o, VList) and not isinstance(o, VSet):
        frozen(o)
        if o.concrete():
            if isinstance(k, int):
                if not -len(o.segs) <= k < len(o.segs): self.raise_(IndexError, 'list assignment index out of range')
                o.touch(); o.segs = list(o.segs); o.segs[k] = Single(v)
                return
            for n in range(len(o.segs)):
                if self.eng.branch(to_z(k) == n):
                    o.touch(); o.segs = list(o.segs); o.segs[n] = Single(v)
                    return
            raise Undecided("symbolic list assignment")
        segs = list(o.segs)
        if isinstance(k, int):
            if k >= 0 and all(isinstance(s, Single) for s in segs[:k + 1]) or k < 0 and len(segs) >= -k and all(isinstance(s, Single) for s in segs[k:]):
                o.touch(); segs[k] = Single(v); o.segs = segs
                return
        raise Undecided("assignment into a symbolic list")
    self.raise_(TypeError, 'object does not support item assignment')


def delitem(self, o, k):
    if isinstance(o, VDict):
        f = dict_find(self, o, k)
        if f is None: raise PyRaise(KeyError(repr(k)))
        o.touch(); o.pairs = [p for p in o.pairs if p is not f]
        return
    if isinstance(o, VList) and o.concrete() and isinstance(k, int):
        frozen(o)
        o.touch(); o.segs = list(o.segs)
        try: del o.segs[k]
        except IndexError as e: raise PyRaise(e)
        return
    raise Undecided("del")


# ------------------------------------------------------------------ sets and dictionaries
def set_add_seg(self, r, s):
    if isinstance(s, Single): return set_add(self, r, s.v)
    r.touch(); r.segs = r.segs + [s]


def set_add(self, r, v):
    if isinstance(v, (VList, VDict)) and not (isinstance(v, VSet) and v.frozen): self.raise_(TypeError, 'unhashable type')
    frozen(r)
    if any(c.track and r.birth <= c.mark for c in self.eng.ctxs):
        # inside the summary of a symbolic loop: elements accumulate (a set ignores repetitions)
        r.touch(); r.segs = r.segs + [Single(v)]
        r.dups = True
        return
    r.read()
    if r.concrete() and not getattr(r, 'dups', False):
        for s in r.segs:
            e = eqb(self, s.v, v)
            if e is False: continue
            if e is True or self.eng.branch(zb(e)): return
    r.touch(); r.segs = r.segs + [Single(v)]


def set_union(self, a, b):
    r = VSet(self.eng)
    r.segs = list(iterate(self, a))
    for s in iterate(self, b): set_add_seg(self, r, s)
    return r


def dict_find(self, d, k):
    d.read()
    if isinstance(k, (VList, VDict)): self.raise_(TypeError, 'unhashable type')
    for p in d.pairs:
        e = eqb(self, p[0], k)
        if e is False: continue
        if e is True or self.eng.branch(zb(e)): return p
    return None


def dict_get(self, d, k, default=None):
    f = dict_find(self, d, k)
    return default if f is None else f[1]


def dict_set(self, d, k, v):
    frozen(d)
    f = dict_find(self, d, k)
    d.touch()
    if f is None: d.pairs = d.pairs + [(k, v)]
    else: d.pairs = [((p[0], v) if p is f else p) for p in d.pairs]


def contains(self, c, x):
    from .interp import GenVal
    c = unopt(self, c)
    if isinstance(c, str):
        if isinstance(x, str): return x in c
        if isinstance(x, OStr): raise Undecided("symbolic substring")
        self.raise_(TypeError, 'in <string>')
    if isinstance(c, OStr): raise Undecided("substring of a symbolic string")
    if isinstance(c, VDict):
        r = False
        c.read()
        for k, _ in c.pairs: r = self.or_(r, eqb(self, k, x))
        return r
    if isinstance(c, Obj) and c.cls.lookup('__contains__') is not None:
        return self.call_method(c, '__contains__', [x])
    if hasattr(c, 'sym_contains'): return c.sym_contains(self, x)
    return quantify(self, iterate(self, c), False, lambda v, idx: eqb(self, v, x))


def quantify(self, segs, universal, pred):
    """all (universal) / any over the segments of pred(value, index)."""
    acc = universal
    comb = self.and_ if universal else self.or_
    for s in segs:
        if acc is (not universal): return acc
        if isinstance(s, Single):
            t = pred(s.v, None)
            if not isinstance(t, (bool, SBool)):
                t = truth(self, t)
                t = t if isinstance(t, bool) else mk_bool(t)
            acc = comb(acc, t)
            continue
        c = self.rename(s)
        pre = z_and(c.range(), c.exists_guard())
        out = []
        paths = self.eng.explore(lambda: truth(self, pred(self.pick_case(c), c.ivars[0] if c.ivars else None)), pre=pre, generics=c.ivars, track=True)
        body = TRUE
        for p in paths:
            if p.kind == 'raise':
                if self.eng.branch(self.exists(c.ivars, z_and(pre, p.pc))): raise PyRaise(p.value)
                continue
            if p.kind != 'ok' or p.effects: raise Undecided("effects in a predicate over a symbolic sequence: " + repr([(type(o).__name__, k) for o, k, _ in p.effects.values()][:3]))
            t = p.value if not isinstance(p.value, bool) else z3.BoolVal(p.value)
            out.append((p.pc, t))
        self.export_asms(paths, c.ivars, pre)
        if universal:
            b = z_and(*[z3.Implies(g, t) if not z3.is_true(g) else t for g, t in out])
            q = self.forall(c.ivars, z3.simplify(z3.Implies(pre, b)))
        else:
            b = z_or(*[z_and(g, t) for g, t in out])
            q = self.exists(c.ivars, z3.simplify(z_and(pre, b)))
        acc = comb(acc, mk_bool(q))
    return acc


def ssum(self, segs, start):
    acc = start
    for s in segs:
        if isinstance(s, Single): acc = binop(self, ast.Add(), acc, s.v)
        else: acc = binop(self, ast.Add(), acc, sym_sum(self, s))
    return acc


def sym_sum(self, comp):
    """Sum over a sequence of symbolic length: an uninterpreted function of the summand (equal summands, equal sums)."""
    c = comp
    if len(c.ivars) != 1: raise Undecided("sum over a nested sequence of symbolic length")
    vals = []
    for g, v in c.cases:
        if isinstance(v, Opt): v = unopt(self, v)
        if not numeric(v) or isinstance(v, (float, SBool, bool)): raise Undecided("sum of non-numbers over a symbolic sequence")
        vals.append((g, v))
    kinds = {'int' if (isinstance(v, int) or getattr(v, 'kind', '') == 'int') else 'frac' for _, v in vals}
    kind = 'frac' if 'frac' in kinds else 'int'
    srt = z3.RealSort() if kind == 'frac' else z3.IntSort()
    body = z3.RealVal(0) if kind == 'frac' else z3.IntVal(0)
    for g, v in reversed(vals): body = z3.If(g, to_z(v, kind), body)
    f = z3.Function('sum_' + kind, z3.ArraySort(z3.IntSort(), srt), z3.IntSort(), srt)
    return mk_num(f(z3.Lambda([c.ivars[0]], z3.simplify(body)), c.bounds[0]), kind)


def minmax(self, segs, is_max, key=None, default=None, has_default=False):
    k = (lambda v: v) if key is None else (lambda v: self.call(key, [v], {}))
    singles = [s for s in segs if isinstance(s, Single)]
    comps = [s for s in segs if not isinstance(s, Single)]
    best = None
    have = False
    for s in segs:
        if isinstance(s, Single):
            if not have: best, bk, have = s.v, k(s.v), True; continue
            vk = k(s.v)
            c = compare(self, ast.Gt() if is_max else ast.Lt(), vk, bk)
            best, bk = choose(self, c, s.v, best), choose(self, c, vk, bk)
        else:
            s = normalize(self, s)
            n = s.bounds[0]
            if not self.eng.branch(n > 0): continue
            x = self.eng.fresh(z3.IntSort(), 'arg')
            self.eng.assume(z3.And(x >= 0, x < n))
            v = comp_at(self, s, x)
            vk = k(v)
            q = quantify(self, [s], True, lambda w, i: self.not_(boolify(self, compare(self, ast.Gt() if is_max else ast.Lt(), k(w), vk))))
            self.eng.assume(zb(q))
            q = quantify(self, [s], True, lambda w, i: self.or_(mk_bool(i >= x), boolify(self, compare(self, ast.Lt() if is_max else ast.Gt(), k(w), vk))))
            self.eng.assume(zb(q))
            if not have: best, bk, have = v, vk, True; continue
            c = compare(self, ast.Gt() if is_max else ast.Lt(), vk, bk)
            best, bk = choose(self, c, v, best), choose(self, c, vk, bk)
    if not have:
        if has_default: return default
        self.raise_(ValueError, 'empty sequence')
    return best


def boolify(self, t):
    if isinstance(t, (bool, SBool)): return t
    t = truth(self, t)
    return t if isinstance(t, bool) else mk_bool(t)


def choose(self, c, a, b):
    t = truth(self, c)
    if isinstance(t, bool): return a if t else b
    if self.no_merge: return a if self.eng.branch(t) else b
    try: return self.merge([(t, a), (z_not(t), b)])
    except Exception as e:
        if type(e).__name__ != 'MergeFail': raise
        return a if self.eng.branch(t) else b


def sort_list(self, segs, key=None, reverse=False):
    """Stable sort; returns segments."""
    k = (lambda v: v) if key is None else (lambda v: self.call(key, [v], {}))
    if all(isinstance(s, Single) for s in segs):
        out = []
        for s in segs:
            kv = k(s.v)
            # insert after all elements that are not greater (not smaller when reversed)
            pos = len(out)
            while pos > 0:
                o = out[pos - 1]
                c = less(self, o[0], kv) if reverse else less(self, kv, o[0])
                if self.eng.branch(truth(self, c)): pos -= 1
                else: break
            out.insert(pos, (kv, s.v))
        return [Single(v) for _, v in out]
    if len(segs) != 1: raise Undecided("sort of mixed segments")
    s = normalize(self, segs[0])
    eng = self.eng
    n = s.bounds[0]
    I = z3.IntSort()
    gen = list(eng.generic)
    pi = z3.Function(eng.fresh_name('perm'), *([I] * (len(gen) + 1)), I)
    inv = z3.Function(eng.fresh_name('inv'), *([I] * (len(gen) + 1)), I)
    i = z3.Int(eng.fresh_name('i'))
    p, q = pi(*gen, i), inv(*gen, i)
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(p >= 0, p < n, inv(*gen, p) == i)), patterns=[p]))
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(q >= 0, q < n, pi(*gen, q) == i)), patterns=[q]))
    r = shifted(self, s, i, p, n)
    a, b = z3.Int(eng.fresh_name('a')), z3.Int(eng.fresh_name('b'))
    two = Comp([a, b], [n, n], [(a < b, (a, b))])
    def pred():
        va, vb = comp_at(self, r, a), comp_at(self, r, b)
        ka, kb = k(va), k(vb)
        c = less(self, ka, kb) if reverse else less(self, kb, ka)
        return truth(self, self.not_(boolify(self, c)))
    pre = z3.And(a >= 0, a < b, b < n)
    paths = eng.explore(pred, pre=pre, generics=[a, b])
    self.export_asms(paths, [a, b], pre)
    body = z_and(*[z3.Implies(pp.pc, pp.value if not isinstance(pp.value, bool) else z3.BoolVal(pp.value)) for pp in paths if pp.kind == 'ok'])
    if any(pp.kind != 'ok' for pp in paths): raise Undecided("sort key raises")
    eng.assume(z3.ForAll([a, b], z3.Implies(pre, body)))
    return [r]


def opt_value(self, v):
    return unopt(self, v)


def has_effect_free(self, *a):
    return True
