"""Symbolic values."""
from fractions import Fraction
from .engine import z3, Undecided, z_and, z_or, z_not, TRUE, FALSE


class Num:
    """A symbolic number; kind is 'int' (z3 Int) or 'frac' (z3 Real, exact rational in Python)."""
    __slots__ = ('z', 'kind')
    def __init__(self, z, kind):
        self.z, self.kind = z, kind
    def __repr__(self): return f"Num({self.z})"
    def __hash__(self): raise Undecided("native hash of a symbolic number")
    def __bool__(self): raise Undecided("native truth value of a symbolic number")
    __eq__ = object.__eq__


class SBool:
    __slots__ = ('z',)
    def __init__(self, z): self.z = z
    def __repr__(self): return f"SBool({self.z})"
    def __bool__(self): raise Undecided("native truth value of a symbolic boolean")


class OStr:
    """A string whose text depends on symbolic values (opaque)."""
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = parts
    def __repr__(self): return "OStr(...)"


class Opt:
    """Either None (when isnone) or value; produced by merges and by E.opt."""
    __slots__ = ('isnone', 'value')
    def __init__(self, isnone, value): self.isnone, self.value = isnone, value


def mk_bool(z):
    if isinstance(z, bool): return z
    if z3.is_true(z): return True
    if z3.is_false(z): return False
    return SBool(z)


def zb(v):
    """Boolean Python/symbolic value to z3."""
    if isinstance(v, SBool): return v.z
    if isinstance(v, bool): return TRUE if v else FALSE
    raise Undecided(f"not a boolean: {v!r}")


def is_num(v):
    return isinstance(v, (Num, int, Fraction, float)) and not isinstance(v, bool) or isinstance(v, bool)


def is_sym(v):
    return isinstance(v, (Num, SBool, OStr, Opt))


def kind_of(v):
    if isinstance(v, Num): return v.kind
    if isinstance(v, (bool, int)): return 'int'
    if isinstance(v, Fraction): return 'frac'
    if isinstance(v, float): return 'float'
    raise Undecided(f"not a number: {v!r}")


def to_z(v, kind=None):
    if isinstance(v, Num):
        if kind == 'frac' and v.kind == 'int': return z3.ToReal(v.z)
        return v.z
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int):
        return z3.RealVal(v) if kind == 'frac' else z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, SBool):
        r = z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
        return z3.ToReal(r) if kind == 'frac' else r
    raise Undecided(f"cannot use {v!r} symbolically")


def lift2(a, b):
    ka, kb = kind_of(a) if not isinstance(a, SBool) else 'int', kind_of(b) if not isinstance(b, SBool) else 'int'
    if 'float' in (ka, kb): raise Undecided("floating point arithmetic on a symbolic number")
    k = 'frac' if 'frac' in (ka, kb) else 'int'
    return to_z(a, k), to_z(b, k), k


def mk_num(z, kind):
    if z3.is_int_value(z): return z.as_long()
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    return Num(z, kind)


class Tracked:
    """Base of the mutable heap objects."""
    def __init__(self, eng):
        self.eng = eng
        self.birth = eng.new_birth()


class Single:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v


class Comp:
    """All val over index variables with 0 <= ivar < bound (bounds may use earlier ivars);
    cases is a list of disjoint (guard, value).  An element exists where a guard holds."""
    __slots__ = ('ivars', 'bounds', 'cases', 'inst', 'ordered', '_count')
    def __init__(self, ivars, bounds, cases, ordered=True):
        self.ivars, self.bounds, self.cases = list(ivars), list(bounds), list(cases)
        self.inst = {}
        self.ordered = ordered
        self._count = None
    def range(self):
        return z_and(*[z3.And(i >= 0, i < n) for i, n in zip(self.ivars, self.bounds)])
    def trivial(self):
        return len(self.ivars) == 1 and z3.is_true(z3.simplify(z_or(*[g for g, _ in self.cases])))
    def exists_guard(self):
        return z_or(*[g for g, _ in self.cases])


class VList(Tracked):
    def __init__(self, eng, segs=None):
        Tracked.__init__(self, eng)
        self.segs = segs if segs is not None else []
    def peek(self, k): return list(self.segs)
    def touch(self):
        old = list(self.segs)
        def undo(): self.segs = old
        self.eng.log(self, 'segs', undo)
    def read(self): self.eng.note_read(self, 'segs')
    def concrete(self): return all(isinstance(s, Single) for s in self.segs)
    def items(self):
        self.read()
        if not self.concrete(): raise Undecided("sequence of symbolic length used where a concrete one is needed")
        return [s.v for s in self.segs]
    @staticmethod
    def of(eng, items): return VList(eng, [Single(x) for x in items])


class VTuple:
    """An immutable sequence of symbolic length."""
    def __init__(self, segs): self.segs = segs
    def concrete(self): return all(isinstance(s, Single) for s in self.segs)
    def read(self): pass


class VSet(VList):
    frozen = False


class VDict(Tracked):
    def __init__(self, eng, items=None):
        Tracked.__init__(self, eng)
        self.pairs = items if items is not None else []   # list of (key, value)
    def peek(self, k): return list(self.pairs)
    def touch(self):
        old = list(self.pairs)
        def undo(): self.pairs = old
        self.eng.log(self, 'pairs', undo)
    def read(self): self.eng.note_read(self, 'pairs')


class Obj(Tracked):
    def __init__(self, eng, cls):
        Tracked.__init__(self, eng)
        self.cls = cls
        self.attrs = {}
        self.origin = None       # (uid, index terms) for elements of symbolic sequences
    def peek(self, k): return self.attrs.get(k)
    def setattr(self, k, v):
        old, had = self.attrs.get(k), k in self.attrs
        def undo():
            if had: self.attrs[k] = old
            else: self.attrs.pop(k, None)
        self.eng.log(self, k, undo)
        self.attrs[k] = v
    def __repr__(self): return f"<{self.cls.name} object>"


class Cls:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
    def lookup(self, k):
        if k in self.ns: return self.ns[k]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(k)
                if r is not None: return r
        return None
    def is_sub(self, other):
        return self is other or any(isinstance(b, Cls) and b.is_sub(other) for b in self.bases)
    def __repr__(self): return f"<class {self.name}>"


class Func:
    def __init__(self, node, name, qual, module, frame, defaults, kwdefaults):
        self.node, self.name, self.qual, self.module, self.frame = node, name, qual, module, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.deco = None
    def __repr__(self): return f"<function {self.qual}>"


class Bound:
    __slots__ = ('func', 'self_')
    def __init__(self, func, self_): self.func, self.self_ = func, self_


class Native:
    """A builtin: fn(interp, args, kwargs)."""
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return f"<builtin {self.name}>"


class Mod:
    def __init__(self, name): self.name, self.ns = name, {}
    def __repr__(self): return f"<module {self.name}>"


class Iter(Tracked):
    """An explicit iterator over remaining segments."""
    def __init__(self, eng, segs):
        Tracked.__init__(self, eng)
        self.segs = list(segs)
    def peek(self, k): return list(self.segs)
    def touch(self):
        old = list(self.segs)
        def undo(): self.segs = old
        self.eng.log(self, 'segs', undo)
    def read(self): pass


class Poison:
    """Value of a variable that the loop abstraction does not track."""
    def __init__(self, why): self.why = why


def subst_z(e, pairs):
    return z3.substitute(e, *pairs) if pairs else e


def subst(v, pairs, memo=None):
    """Substitute z3 terms for index variables in a value (copying objects that mention them)."""
    if memo is None: memo = {}
    if isinstance(v, Func):
        ids = {p[0].get_id() for p in pairs}
        if any(g in ids for g in getattr(v, 'gen', ())): raise Undecided("closure over an element of a symbolic sequence")
        return v
    if v is None or isinstance(v, (bool, int, Fraction, float, str, Cls, Native, Mod)) or v is NotImplemented: return v
    if isinstance(v, (type, BaseException)): return v
    if isinstance(v, Num): return mk_num(z3.simplify(subst_z(v.z, pairs)), v.kind)
    if isinstance(v, SBool): return mk_bool(z3.simplify(subst_z(v.z, pairs)))
    if isinstance(v, OStr): return v
    if id(v) in memo: return memo[id(v)]
    if isinstance(v, Opt): return Opt(subst_z(v.isnone, pairs), subst(v.value, pairs, memo))
    if isinstance(v, tuple): return tuple(subst(x, pairs, memo) for x in v)
    if isinstance(v, VTuple):
        return VTuple([subst_seg(s, pairs, memo) for s in v.segs])
    if isinstance(v, Bound): return Bound(v.func, subst(v.self_, pairs, memo))
    if not mentions(v, pairs, set()): return v
    if isinstance(v, VList):
        r = type(v)(v.eng)
        r.shared = True
        if getattr(v, 'frozen', False): r.frozen = True
        memo[id(v)] = r
        r.segs = [subst_seg(s, pairs, memo) for s in v.segs]
        return r
    if isinstance(v, VDict):
        r = VDict(v.eng)
        r.shared = True
        memo[id(v)] = r
        r.pairs = [(subst(k, pairs, memo), subst(x, pairs, memo)) for k, x in v.pairs]
        return r
    if isinstance(v, Obj):
        r = Obj(v.eng, v.cls)
        r.shared = True
        memo[id(v)] = r
        if v.origin is not None:
            r.origin = (v.origin[0], tuple(z3.simplify(subst_z(t, pairs)) for t in v.origin[1]))
        for k, x in v.attrs.items(): r.attrs[k] = subst(x, pairs, memo)
        return r
    if isinstance(v, Poison): return v
    if hasattr(v, 'sym_subst'): return v.sym_subst(pairs, memo)
    raise Undecided(f"cannot instantiate {v!r}")


def subst_seg(s, pairs, memo):
    if isinstance(s, Single): return Single(subst(s.v, pairs, memo))
    return Comp(s.ivars, [subst_z(b, pairs) for b in s.bounds],
                [(z3.simplify(subst_z(g, pairs)), subst(v, pairs, memo)) for g, v in s.cases], s.ordered)


def z_mentions(e, ids, cache={}):
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: return True
        stack.extend(x.children())
    return False


def mentions(v, pairs, seen):
    ids = {p[0].get_id() for p in pairs}
    return _mentions(v, ids, seen)


def _mentions(v, ids, seen):
    if isinstance(v, (Num, SBool)): return z_mentions(v.z, ids)
    if isinstance(v, Func): return any(g in ids for g in getattr(v, 'gen', ()))
    if isinstance(v, Opt): return z_mentions(v.isnone, ids) or _mentions(v.value, ids, seen)
    if isinstance(v, tuple): return any(_mentions(x, ids, seen) for x in v)
    if isinstance(v, (VList, VTuple)):
        if id(v) in seen: return False
        seen.add(id(v))
        return any(_mentions_seg(s, ids, seen) for s in v.segs)
    if isinstance(v, VDict):
        if id(v) in seen: return False
        seen.add(id(v))
        return any(_mentions(k, ids, seen) or _mentions(x, ids, seen) for k, x in v.pairs)
    if isinstance(v, Obj):
        if id(v) in seen: return False
        seen.add(id(v))
        if v.origin is not None and any(z_mentions(t, ids) for t in v.origin[1]): return True
        return any(_mentions(x, ids, seen) for x in v.attrs.values())
    if isinstance(v, Bound): return _mentions(v.self_, ids, seen)
    if hasattr(v, 'sym_mentions'): return v.sym_mentions(ids, seen)
    return False


def _mentions_seg(s, ids, seen):
    if isinstance(s, Single): return _mentions(s.v, ids, seen)
    return any(z_mentions(b, ids) for b in s.bounds) or \
        any(z_mentions(g, ids) or _mentions(v, ids, seen) for g, v in s.cases)


class LazyModel:
    """A library class that is defined by an interpreted model module."""
    def __init__(self, mod, name):
        self.mod, self.name = mod, name
