"""The symbolic interpreter: executes the repository's own source (parsed on every run)."""
import ast, os, math
from fractions import Fraction
from .engine import (z3, Engine, Undecided, Infeasible, PyRaise, ReturnEx, BreakEx, ContinueEx,
                     z_and, z_or, z_not, TRUE, FALSE, has_quantifier, rebuild)
from .values import *
from .values import _mentions



class MergeFail(Exception):
    pass


class Frame(Tracked):
    comp = False        # frame of a comprehension: its variables do not outlive an element
    def __init__(self, eng, parent, module, localnames, func=None):
        Tracked.__init__(self, eng)
        self.parent, self.module, self.localnames, self.func = parent, module, localnames, func
        self.vars = {}
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None
    def peek(self, k): return self.vars.get(k)
    def set(self, k, v):
        old, had = self.vars.get(k), k in self.vars
        def undo():
            if had: self.vars[k] = old
            else: self.vars.pop(k, None)
        if self.eng.ctxs:
            self.eng.trail.append((self, k, undo))
            for c in self.eng.ctxs:
                if c.track and self.birth <= c.mark and not self.comp: c.written.add((id(self), k))
        self.vars[k] = v


def scan_locals(body, args=None):
    names, glob, nonl = set(), set(), set()
    def target(t):
        if isinstance(t, ast.Name): names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: target(e)
        elif isinstance(t, ast.Starred): target(t.value)
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name); return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr): target(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets: target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)): target(n.target)
        elif isinstance(n, ast.NamedExpr): target(n.target)
        elif isinstance(n, ast.ExceptHandler) and n.name: names.add(n.name)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None: target(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Global): glob.update(n.names)
        elif isinstance(n, ast.Nonlocal): nonl.update(n.names)
        for c in ast.iter_child_nodes(n): walk(c)
    for s in body: walk(s)
    if args is not None:
        for a in args.posonlyargs + args.args + args.kwonlyargs: names.add(a.arg)
        if args.vararg: names.add(args.vararg.arg)
        if args.kwarg: names.add(args.kwarg.arg)
    return names - glob - nonl, glob, nonl


class Interp:
    def __init__(self, eng, roots, builtins_factory, native_modules):
        self.eng = eng
        self.roots = roots                 # directories searched for modules
        self.modules = {}
        self.builtins = builtins_factory(self)
        self.native_modules = native_modules(self)
        self.stubs = {}
        self.opaque_names = {'__repr__', '__str__', 'to_str', 'to_string'}
        self.opaque_render = True
        self.nomerge = {}
        self.in_place = {}
        eng.version = lambda: sum(self.nomerge.values())
        self.depth = 0
        self.calls = set()                 # qualified names of repository functions executed
        self.call_stack = []
        self.skip_calls_in = {'literature'}
        self.merge_objs = False
        self.while_budget = 400
        self.no_merge = False
        self._scan = {}

    # ---------------------------------------------------------------- modules
    def find(self, name):
        for r in self.roots:
            for cand in (os.path.join(r, *name.split('.')) + '.py', os.path.join(r, *name.split('.'), '__init__.py')):
                if os.path.exists(cand): return cand
        return None

    def load(self, name):
        if name in self.modules: return self.modules[name]
        if name in self.native_modules: return self.native_modules[name]
        path = self.find(name)
        if path is None:
            m = Mod(name)
            m.missing = True
            self.modules[name] = m
            return m
        m = Mod(name)
        m.path = path
        self.modules[name] = m
        tree = ast.parse(open(path, encoding='utf-8').read(), path)
        frame = Frame(self.eng, None, m, None)
        frame.vars = m.ns
        m.ns['__name__'] = name
        m.ns['__file__'] = path
        m.frame = frame
        for st in tree.body:
            if name in self.skip_calls_in and isinstance(st, ast.Expr): continue
            try:
                self.exec_stmt(st, frame)
            except (Undecided, PyRaise) as e:
                for n in scan_locals([st])[0]:
                    m.ns[n] = Poison(f"module {name}: {e}")
        return m

    # ---------------------------------------------------------------- helpers
    def raise_(self, cls, msg=''):
        raise PyRaise(cls(msg))

    def frac_of(self, v):
        return v

    # ---------------------------------------------------------------- statements
    def exec_body(self, body, frame):
        for st in body: self.exec_stmt(st, frame)

    def exec_stmt(self, st, frame):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None: raise Undecided(f"statement {type(st).__name__} is outside the subset")
        return m(st, frame)

    def s_Expr(self, st, frame):
        if isinstance(st.value, ast.Constant): return
        self.eval(st.value, frame)

    def s_Pass(self, st, frame): pass

    def s_Assign(self, st, frame):
        if id(st) in self.in_place: return self.extend(st, frame)
        v = self.eval(st.value, frame)
        for t in st.targets: self.assign(t, v, frame)

    def s_AnnAssign(self, st, frame):
        if st.value is not None: self.assign(st.target, self.eval(st.value, frame), frame)

    def s_AugAssign(self, st, frame):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, frame)
            new = self.inplace(st.op, old, self.eval(st.value, frame))
            self.assign(t, new, frame)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, frame)
            new = self.inplace(st.op, self.getattr(o, t.attr), self.eval(st.value, frame))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            k = self.eval(t.slice, frame)
            new = self.inplace(st.op, self.getitem(o, k), self.eval(st.value, frame))
            self.setitem(o, k, new)
        else: raise Undecided("augmented assignment target")

    def extend(self, st, frame):
        o, op = self.name(st.targets[0].id, frame), st.value.op
        b = self.eval(st.value.right, frame)
        if isinstance(op, ast.BitOr) and isinstance(o, VSet) and isinstance(b, VSet): self.inplace(op, o, b)
        elif isinstance(op, ast.Add) and isinstance(o, VList) and isinstance(b, VList) and not isinstance(o, VSet) and not isinstance(b, VSet): self.inplace(op, o, b)
        else: raise Undecided("accumulation of other values")

    def inplace(self, op, a, b):
        if isinstance(a, VSet) and isinstance(op, ast.BitOr):
            for s in self.iterate(b): self.set_add_seg(a, s)
            return a
        if isinstance(a, VList) and not isinstance(a, VSet) and isinstance(op, ast.Add):
            segs = self.iterate(b)
            a.touch(); a.segs = a.segs + segs
            return a
        return self.binop(op, a, b)

    def s_Return(self, st, frame):
        raise ReturnEx(None if st.value is None else self.eval(st.value, frame))

    def s_Break(self, st, frame): raise BreakEx()
    def s_Continue(self, st, frame): raise ContinueEx()

    def s_If(self, st, frame):
        if self.eng.branch(self.truth(self.eval(st.test, frame))): self.exec_body(st.body, frame)
        else: self.exec_body(st.orelse, frame)

    def s_Assert(self, st, frame):
        if not self.eng.branch(self.truth(self.eval(st.test, frame))):
            self.raise_(AssertionError)

    def s_Global(self, st, frame): frame.globals_.update(st.names)
    def s_Nonlocal(self, st, frame): frame.nonlocals.update(st.names)

    def s_Delete(self, st, frame):
        for t in st.targets:
            if isinstance(t, ast.Subscript): self.delitem(self.eval(t.value, frame), self.eval(t.slice, frame))
            elif isinstance(t, ast.Name) and t.id in frame.vars:
                frame.set(t.id, Poison("deleted"))
            else: raise Undecided("del target")

    def s_Raise(self, st, frame):
        if st.exc is None:
            cur = getattr(self, 'handling', None)
            if cur is None: raise Undecided("bare raise")
            raise PyRaise(cur)
        e = self.eval(st.exc, frame)
        if isinstance(e, type) and issubclass(e, BaseException): e = e()
        if isinstance(e, str): e = TypeError("exceptions must derive from BaseException")
        if isinstance(e, Cls): e = self.call(e, [], {})
        raise PyRaise(e)

    def s_Try(self, st, frame):
        def run():
            try:
                self.exec_body(st.body, frame)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.exc, self.eval(h.type, frame)):
                        if h.name: frame.set(h.name, e.exc)
                        old = getattr(self, 'handling', None)
                        self.handling = e.exc
                        try: self.exec_body(h.body, frame)
                        finally: self.handling = old
                        return
                raise
            self.exec_body(st.orelse, frame)
        if not st.finalbody: return run()
        try: run()
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.exec_body(st.finalbody, frame)
            raise
        self.exec_body(st.finalbody, frame)

    def exc_match(self, exc, t):
        if isinstance(t, tuple): return any(self.exc_match(exc, x) for x in t)
        if isinstance(t, type): return isinstance(exc, t)
        if isinstance(t, Cls): return isinstance(exc, Obj) and exc.cls.is_sub(t)
        raise Undecided("except clause")

    def s_With(self, st, frame): raise Undecided("with statement")

    def s_Import(self, st, frame):
        for a in st.names:
            m = self.load(a.name)
            if a.asname: frame.set(a.asname, m)
            else:
                top = a.name.split('.')[0]
                if top != a.name: m = self.load(top)
                frame.set(top, m)

    def s_ImportFrom(self, st, frame):
        m = self.load(st.module)
        for a in st.names:
            if a.name == '*':
                for k, v in list(m.ns.items()):
                    if not k.startswith('_'): frame.set(k, v)
            else:
                if a.name in m.ns: frame.set(a.asname or a.name, m.ns[a.name])
                else:
                    sub = st.module + '.' + a.name
                    if sub in self.native_modules or self.find(sub): frame.set(a.asname or a.name, self.load(sub))
                    else: frame.set(a.asname or a.name, Poison(f"{st.module}.{a.name} is not modelled"))

    def s_FunctionDef(self, st, frame):
        frame.set(st.name, self.make_func(st, frame))

    def make_func(self, st, frame):
        qual = (frame.cls_qual + '.' if getattr(frame, 'cls_qual', None) else
                (frame.func.qual + '.' if frame.func is not None else frame.module.name + '.')) + \
               (st.name if isinstance(st, ast.FunctionDef) else '<lambda>')
        defaults = [self.eval(d, frame) for d in st.args.defaults]
        kwd = {a.arg: self.eval(d, frame) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        f = Func(st, st.name if isinstance(st, ast.FunctionDef) else '<lambda>', qual, frame.module,
                 frame if not getattr(frame, 'is_class', False) else frame.parent, defaults, kwd)
        f.gen = [g.get_id() for g in self.eng.generic]
        f.deco = None
        if isinstance(st, ast.FunctionDef):
            for d in reversed(st.decorator_list):
                n = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else
                    (d.func.attr if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) else
                     (d.func.id if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) else '?')))
                if n in ('staticmethod', 'classmethod', 'property'): f.deco = n
                elif n in ('lru_cache', 'cache', 'wraps', 'override', 'no_type_check'): pass
                else: f.deco = 'unknown'
        return f

    def s_ClassDef(self, st, frame):
        bases = [self.eval(b, frame) for b in st.bases]
        ns = {}
        cf = Frame(self.eng, frame, frame.module, None)
        cf.vars = ns
        cf.is_class = True
        cf.cls_qual = frame.module.name + '.' + st.name
        self.exec_body(st.body, cf)
        c = Cls(st.name, bases, ns, frame.module)
        if st.decorator_list: c = Poison("decorated class")
        frame.set(st.name, c)

    def s_While(self, st, frame):
        n = 0
        while self.eng.branch(self.truth(self.eval(st.test, frame))):
            n += 1
            if n > self.while_budget: raise Undecided("while loop budget")
            try: self.exec_body(st.body, frame)
            except BreakEx: return
            except ContinueEx: pass
        self.exec_body(st.orelse, frame)

    def s_For(self, st, frame):
        it = self.eval(st.iter, frame)
        # a list that grows while it is iterated over is followed natively
        live = it if isinstance(it, VList) and not isinstance(it, VSet) else None
        broke = False
        try:
            if live is not None and live.concrete():
                live.read()
                i = 0
                while i < len(live.segs):
                    seg = live.segs[i]
                    i += 1
                    if not isinstance(seg, Single): raise Undecided("list changed its shape during iteration")
                    self.assign(st.target, seg.v, frame)
                    try: self.exec_body(st.body, frame)
                    except ContinueEx: pass
                    if i > 5000: raise Undecided("for loop budget")
            else:
                segs = list(self.iterate(it))
                mine = self.accumulate(st, frame) if any(not isinstance(seg, Single) for seg in segs) else []
                try:
                    for seg in segs:
                        if isinstance(seg, Single):
                            self.assign(st.target, seg.v, frame)
                            try: self.exec_body(st.body, frame)
                            except ContinueEx: pass
                        else:
                            self.loop_comp(seg, lambda v: (self.assign(st.target, v, frame),
                                                           self.exec_body(st.body, frame)))
                finally:
                    for a in mine: del self.in_place[id(a)]
        except BreakEx:
            broke = True
        if not broke: self.exec_body(st.orelse, frame)

    # ---------------------------------------------------------------- symbolic loops
    def accumulate(self, st, frame):
        """v = v | e (sets) and v = v + e (lists) in a loop are updates in place of an object that only
        v refers to: every other assignment to v in the function creates an object, v is not read
        before the loop or otherwise in it, and v starts the loop with a copy."""
        mine = []
        if frame.func is None: return mine
        for a in [n for b in st.body for n in ast.walk(b) if isinstance(n, ast.Assign)]:
            if len(a.targets) != 1 or not isinstance(a.targets[0], ast.Name) or not isinstance(a.value, ast.BinOp): continue
            if not isinstance(a.value.left, ast.Name) or a.value.left.id != a.targets[0].id: continue
            if not isinstance(a.value.op, (ast.BitOr, ast.Add)) or id(a) in self.in_place: continue
            v, cur = a.targets[0].id, frame.vars.get(a.targets[0].id)
            if not isinstance(cur, VSet if isinstance(a.value.op, ast.BitOr) else VList): continue
            if isinstance(a.value.op, ast.Add) and isinstance(cur, VSet): continue
            own, ok = set(), True
            for n in ast.walk(frame.func.node):
                if isinstance(n, (ast.Nonlocal, ast.Global)) and v in n.names: ok = False
                if isinstance(n, ast.arg) and n.arg == v: ok = False
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in n.targets):
                    r = n.value
                    fresh = isinstance(r, (ast.List, ast.Set, ast.ListComp, ast.SetComp)) or (isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id in ('set', 'list'))
                    again = isinstance(r, ast.BinOp) and isinstance(r.op, type(a.value.op)) and isinstance(r.left, ast.Name) and r.left.id == v
                    if len(n.targets) != 1 or not (fresh or again): ok = False
                    if again: own.update([id(n.targets[0]), id(r.left)])
                    else: own.update(id(t) for t in n.targets)
            last = st.end_lineno
            for n in ast.walk(frame.func.node):
                if isinstance(n, ast.Name) and n.id == v and id(n) not in own and (isinstance(n.ctx, ast.Store) or n.lineno <= last): ok = False
            if not ok: continue
            self.in_place[id(a)] = a
            mine.append(a)
            frame.set(v, (VSet if isinstance(cur, VSet) else VList)(self.eng, list(self.iterate(cur))))
        return mine

    def rename(self, comp):
        """A copy of comp with fresh index constants."""
        new = [z3.Int(self.eng.fresh_name('i')) for _ in comp.ivars]
        pairs = list(zip(comp.ivars, new))
        bounds = [subst_z(b, pairs) for b in comp.bounds]
        cases = [(subst_z(g, pairs), subst(v, pairs)) for g, v in comp.cases]
        return Comp(new, bounds, cases, comp.ordered)

    def pick_case(self, comp):
        for g, v in comp.cases[:-1]:
            if self.eng.branch(g): return v
        return comp.cases[-1][1]

    def zero_dim(self, comp):
        return len(comp.ivars) == 0

    def loop_comp(self, comp, body):
        """Summarise the execution of body(value) for every element of comp."""
        eng = self.eng
        c = self.rename(comp)
        pre = z_and(c.range(), c.exists_guard())
        def thunk():
            body(self.pick_case(c))
        paths = eng.explore(thunk, pre=pre, generics=c.ivars, track=True)
        self.export_asms(paths, c.ivars, pre)
        writes, reads = {}, set()
        for p in paths:
            writes.update({k: (o, key) for k, (o, key, _) in p.effects.items()})
            reads |= p.reads
        carried = [k for k in writes if k in reads]
        if carried and all(isinstance(writes[k][0], VList) and not isinstance(writes[k][0], VSet) for k in carried):
            paths, writes = self.prefixes(c, pre, body, carried, paths)
            carried = []
        if carried and all(isinstance(writes[k][0], VSet) for k in carried):
            paths, writes = self.seen(c, pre, body, carried, paths)
            carried = []
        if carried:
            return self.running(c, pre, body, carried, writes)
        exits = [p for p in paths if p.kind in ('return', 'break', 'raise')]
        normal = [p for p in paths if p.kind == 'ok']
        if not exits:
            self.apply_effects(c, pre, normal, writes)
            return
        ex = z_or(*[p.pc for p in exits])
        q = self.exists(c.ivars, z_and(pre, ex))
        if eng.branch(q):
            i0 = [eng.fresh(z3.IntSort(), 'x') for _ in c.ivars]
            pairs = list(zip(c.ivars, i0))
            eng.assume(subst_z(z_and(pre, ex), pairs))
            j = [z3.Int(eng.fresh_name('j')) for _ in c.ivars]
            pj = list(zip(c.ivars, j))
            before = self.lex_less(j, i0)
            eng.assume(self.forall(j, z3.Implies(z_and(subst_z(pre, pj), before), z_not(subst_z(ex, pj)))))
            self.apply_effects(c, z_and(pre, self.lex_less(c.ivars, i0)), normal, writes, self.lex_less(c.ivars, i0))
            inst = Comp([], [], [(subst_z(g, pairs), subst(v, pairs)) for g, v in c.cases])
            body(self.pick_case(inst))
            raise Infeasible()       # the exit must have been taken
        self.apply_effects(c, pre, normal, writes)

    def prefixes(self, c, pre, body, carried, paths):
        """A loop that reads lists it appends to.

        Inferred invariant: before the element with index i, each of these lists is its initial value
        followed by what the elements k < i append (in order).  What one element appends is read off
        the first exploration and proved to be the same in any state that satisfies the invariant."""
        eng = self.eng
        fail = lambda: Undecided(f"loop-carried list without an invariant")
        if len(c.ivars) != 1 or any(p.kind != 'ok' for p in paths): raise fail()
        i, = c.ivars
        k = z3.Int(eng.fresh_name('k'))
        at = [(i, k)]
        guess, state = {}, []
        for key in carried:
            o = next(p.effects[key][0] for p in paths if key in p.effects)
            old = list(o.segs)
            cases = []
            for p in paths:
                if key not in p.effects: continue
                new = p.effects[key][2][len(old):]
                if any(a is not b for a, b in zip(old, p.effects[key][2])) or len(p.effects[key][2]) < len(old): raise fail()
                if len(new) > 1 or any(not isinstance(x, Single) for x in new): raise fail()
                if new: cases.append((p.pc, new[0].v))
            guess[key] = (o, old, cases)
            comp = Comp([k], [i], [(subst_z(z_and(self.guard_of(c), g), at), subst(v, at)) for g, v in cases])
            state.append((o, old + ([comp] if cases else [])))

        def thunk():
            for o, segs in state: o.segs = list(segs)
            body(self.pick_case(c))
        try: paths = eng.explore(thunk, pre=pre, generics=c.ivars, track=True)
        finally:
            for key, (o, old, cases) in guess.items(): o.segs = old
        self.export_asms(paths, c.ivars, pre)
        reads, writes = set(), {}
        for p in paths:
            writes.update({x: (o, key) for x, (o, key, _) in p.effects.items()})
            reads |= p.reads
            for key, (o, old, cases) in guess.items():
                n = len(next(s for q, s in state if q is o))
                new = p.effects[key][2][n:] if key in p.effects else []
                if len(new) > 1 or any(not isinstance(x, Single) for x in new): raise fail()
                if new:
                    if not any(same_value(new[0].v, v) and self.valid(z3.Implies(z_and(pre, p.pc), g)) for g, v in cases): raise fail()
                    p.effects[key] = (o, 'segs', old + new)
                else:
                    if not self.valid(z3.Implies(z_and(pre, p.pc), z_not(z_or(*[g for g, _ in cases])))): raise fail()
                    p.effects.pop(key, None)
        if any(x in reads and x not in guess for x in writes): raise fail()
        return paths, writes

    def seen(self, c, pre, body, carried, paths):
        """A loop that asks whether something is in sets it adds to (elements already seen, ...).

        Before the element with index i such a set is its initial value and what the elements k < i
        for which A(k) holds add, where A is defined by recursion on the index: A(i) holds when the body
        adds something in the state before i (one A for each thing added).  What can be added must not
        depend on the state."""
        eng = self.eng
        fail = lambda: Undecided("loop-carried set without an invariant")
        if len(c.ivars) != 1 or any(p.kind != 'ok' for p in paths): raise fail()
        i, = c.ivars
        outer = list(eng.generic)
        guess, state = {}, []

        def added(p, key, n, old):
            """(index variables, bounds, guard, value) of everything the path adds"""
            if key not in p.effects: return []
            now = p.effects[key][2]
            if len(now) < n or any(a is not b for a, b in zip(old, now)): raise fail()
            return [([], [], TRUE, x.v) if isinstance(x, Single) else (x.ivars, x.bounds, g, v)
                    for x in now[n:] for g, v in ([(None, None)] if isinstance(x, Single) else x.cases)]

        def agree(a, b):
            if len(a[0]) != len(b[0]): return False
            at = list(zip(a[0], b[0]))
            return all(z3.eq(z3.simplify(subst_z(x, at)), z3.simplify(y)) for x, y in zip(a[1], b[1])) and same_value(subst(a[3], at), b[3])
        for key in carried:
            o = next(p.effects[key][0] for p in paths if key in p.effects)
            old = list(o.segs)
            parts = []
            for p in paths:
                for x in added(p, key, len(old), old):
                    if not any(agree(y, x) for y, _ in parts):
                        parts.append((x, z3.Function(eng.fresh_name('seen'), *([z3.IntSort()] * (len(outer) + 1 + len(x[0]))), z3.BoolSort())))
            if not parts or len(parts) > 12: raise fail()
            segs = list(old)
            for (ivs, bounds, _, v), f in parts:
                ks = [z3.Int(eng.fresh_name('k')) for _ in range(1 + len(ivs))]
                at = list(zip([i] + ivs, ks))
                segs.append(Comp(ks, [i] + [subst_z(b, at) for b in bounds], [(z_and(subst_z(self.guard_of(c), at), f(*outer, *ks)), subst(v, at))], False))
            guess[key] = (o, old, parts)
            state.append((o, segs))

        def thunk():
            for o, segs in state: o.segs = list(segs)
            body(self.pick_case(c))
        try: paths = eng.explore(thunk, pre=pre, generics=c.ivars, track=True)
        finally:
            for key, (o, old, _) in guess.items(): o.segs = old
        self.export_asms(paths, c.ivars, pre)
        reads, writes = set(), {}
        for p in paths:
            if p.kind != 'ok': raise fail()
            writes.update({x: (o, key) for x, (o, key, _) in p.effects.items()})
            reads |= p.reads
        if any(x in reads and x not in guess for x in writes): raise fail()
        for key, (o, old, parts) in guess.items():
            segs = next(x for q, x in state if q is o)
            gs = [[] for _ in parts]
            for p in paths:
                new = []
                for a in added(p, key, len(segs), segs):
                    m = next((m for m, (x, _) in enumerate(parts) if agree(a, x)), None)
                    if m is None: raise fail()
                    ivs, bounds, _, v = parts[m][0]
                    g = subst_z(a[2], list(zip(a[0], ivs)))
                    gs[m].append(z_and(p.pc, g))
                    new.append(Comp(ivs, bounds, [(g, v)], False))
                p.effects.pop(key, None)
                if new: p.effects[key] = (o, 'segs', old + new)
            for ((ivs, _, _, _), f), g in zip(parts, gs):
                self.eng.assume(self.forall([i] + ivs, z3.Implies(pre, f(*outer, i, *ivs) == z_or(*g))))
        return paths, writes

    def running(self, c, pre, body, carried, writes):
        """A loop whose carried state is only ever kept or replaced by values of the current element
        (a running minimum, the last element with a property, ...).

        Inferred invariant: the state is the initial one, or the one set by some earlier element; and
        no earlier element would replace it (or: no earlier element is strictly preferred to it).
        The invariant is proved inductive here, for an arbitrary element, before it is used."""
        eng = self.eng
        locs = [writes[k][:2] for k in carried]
        # what the loop sets but does not read is part of the state if it had a value before
        locs += [(o, key) for k, (o, key) in writes.items() if k not in carried and isinstance(o, Frame)
                 and not isinstance(o.vars.get(key, Poison('')), Poison)]
        what = [str(k) for _, k in locs]
        if any(not isinstance(o, (Frame, Obj)) for o, _ in locs):
            raise Undecided(f"loop-carried state without an invariant: {what}")
        rd = lambda o, k: (o.vars if isinstance(o, Frame) else o.attrs).get(k, Poison('unbound'))
        wr = lambda o, k, v: o.set(k, v) if isinstance(o, Frame) else o.setattr(k, v)
        init = [rd(o, k) for o, k in locs]
        js = [z3.Int(eng.fresh_name('j')) for _ in c.ivars]
        to_j = list(zip(c.ivars, js))
        jids = {j.get_id() for j in js}
        alts, temps = [], {}

        class Alt: pass

        def run(a):
            vals = init if a is None else [subst(v, to_j) for v in a.vals]
            P = pre if a is None else z_and(pre, subst_z(pre, to_j), subst_z(a.D, to_j))

            def thunk():
                for (o, k), v in zip(locs, vals): wr(o, k, v)
                body(self.pick_case(c))
            held, self.no_merge = self.no_merge, True
            try: paths = eng.explore(thunk, pre=P, generics=c.ivars + ([] if a is None else js), track=True)
            finally: self.no_merge = held
            self.export_asms(paths, c.ivars + ([] if a is None else js), P)
            out = []
            for p in paths:
                if p.kind != 'ok': raise Undecided(f"early exit from a loop with carried state {what}")
                for k, (o, key, _) in p.effects.items():
                    if not any(o is x and key == y for x, y in locs):
                        if not isinstance(o, Frame): raise Undecided(f"a loop with carried state {what} writes {key}")
                        if k in p.reads: raise Undecided(f"loop-carried state without an invariant: {key}")
                        temps[k] = (o, key)
                fin = []
                for (o, key), v in zip(locs, vals):
                    e = [x for x in p.effects.values() if x[0] is o and x[1] == key]
                    fin.append(e[0][2] if e else v)
                if all(same_value(x, y) for x, y in zip(fin, vals)): continue
                if a is not None and any(_mentions(v, jids, set()) for v in fin):
                    raise Undecided(f"loop-carried state without an invariant: {what}")
                out.append((p.pc, fin))
            return P, out

        def static(pc):
            return z_and(*[x for x in conjuncts(pc) if not z_mentions(x, jids)])
        for _ in range(12):
            runs, todo, again = {}, [None] + alts, False
            while todo:
                a = todo.pop(0)
                P, out = run(a)
                steps = []
                for pc, fin in out:
                    q = next((b for b in alts if all(same_value(x, y) for x, y in zip(fin, b.vals))), None)
                    if q is None:
                        q = Alt()
                        q.vals, q.D = fin, (pc if a is None else static(pc))
                        alts.append(q); todo.append(q)
                        if len(alts) > 6: raise Undecided(f"loop-carried state without an invariant: {what}")
                    elif not self.valid(z3.Implies(z_and(P, pc), q.D)):
                        q.D = z3.simplify(z_or(q.D, static(pc) if a is not None else pc))
                        again = True
                    steps.append((pc, q))
                runs[id(a)] = (P, z_or(*[pc for pc, _ in steps]), steps)
            if not again: break
        else: raise Undecided(f"loop-carried state without an invariant: {what}")

        ks = [z3.Int(eng.fresh_name('k')) for _ in c.ivars]
        to_k = list(zip(c.ivars, ks))

        def beats(a, strict):
            """formula over (element = ivars, state = js): the element replaces the state"""
            C = runs[id(a)][1]
            if not strict or a is None: return C
            return z_and(C, z_not(subst_z(C, list(zip(c.ivars + js, js + c.ivars)))))

        def inductive(strict):
            for a in [None] + alts:
                P, C, steps = runs[id(a)]
                for pc, q in steps:
                    U = beats(q, strict)
                    if not self.valid(z3.Implies(z_and(P, pc), z_not(subst_z(U, list(zip(js, c.ivars)))))): return False
                    prem = z_and(P, pc, subst_z(pre, to_k), z_not(subst_z(beats(a, strict), to_k)))
                    if not self.valid(z3.Implies(prem, z_not(subst_z(U, list(zip(c.ivars + js, ks + c.ivars)))))): return False
            return True
        strict = next((s for s in (False, True) if inductive(s)), None)
        if strict is None: raise Undecided(f"loop-carried state without an invariant: {what}")
        for o, key in temps.values(): o.set(key, Poison(f"{key} after a symbolic loop"))
        for a in alts:
            b = eng.fresh(z3.BoolSort(), 'last')
            if not eng.branch(b): continue
            j0 = [eng.fresh(z3.IntSort(), 'x') for _ in c.ivars]
            at = list(zip(c.ivars, j0))
            eng.assume(z_and(subst_z(pre, at), subst_z(a.D, at)))
            eng.assume(self.forall(c.ivars, z3.Implies(pre, z_not(subst_z(beats(a, strict), list(zip(js, j0)))))))
            for (o, k), v in zip(locs, a.vals): wr(o, k, subst(v, at))
            return
        eng.assume(self.forall(c.ivars, z3.Implies(pre, z_not(beats(None, strict)))))

    def valid(self, f):
        """Is f valid?  Non-linear terms are first treated as opaque (sound), then in context."""
        g = z3.simplify(f)
        if z3.is_true(g): return True
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(z_not(opaque_nl(g)))
        if s.check() == z3.unsat: return True
        return self.eng.entails(f)

    def export_asms(self, paths, ivars, pre):
        for p in paths:
            if p.asms:
                self.eng.assume(self.forall(ivars, z3.Implies(z_and(pre, p.pc), z_and(*p.asms))))

    def lex_less(self, a, b):
        r = FALSE
        for x, y in reversed(list(zip(a, b))):
            r = z3.Or(x < y, z3.And(x == y, r))
        return r

    def exists(self, ivars, body):
        if not ivars: return body
        return z3.Exists(list(ivars), body) if not z3.is_false(z3.simplify(body)) else FALSE

    def forall(self, ivars, body):
        if not ivars: return body
        return z3.ForAll(list(ivars), body) if not z3.is_true(z3.simplify(body)) else TRUE

    def apply_effects(self, c, pre, paths, writes, extra=TRUE):
        eng = self.eng
        for k, (o, key) in writes.items():
            if isinstance(o, VList):
                old = list(o.segs)
                extras = []
                for p in paths:
                    if k not in p.effects: 
                        extras.append((p, [])); continue
                    final = p.effects[k][2]
                    if len(final) < len(old) or any(a is not b for a, b in zip(old, final)):
                        raise Undecided("a loop changes existing elements of a list")
                    extras.append((p, final[len(old):]))
                o.touch()
                one = all(len(e) <= 1 and all(isinstance(s, Single) for s in e) for _, e in extras)
                new = []
                if one:
                    cases = [(p.pc, e[0].v) for p, e in extras if e]
                    if len(cases) > 1:
                        try:
                            m = self.merge(cases)
                            cases = [(TRUE if len(cases) == len(paths) else z_or(*[g for g, _ in cases]), m)]
                        except MergeFail: pass
                    elif cases and len(paths) == 1: cases = [(TRUE, cases[0][1])]
                    if cases:
                        new.append(Comp(c.ivars, c.bounds, [(z_and(self.guard_of(c), extra, g), v) for g, v in cases], True))
                else:
                    for p, e in extras:
                        for s in e:
                            if isinstance(s, Single):
                                new.append(Comp(c.ivars, c.bounds, [(z_and(self.guard_of(c), extra, p.pc), s.v)], False))
                            else:
                                new.append(Comp(c.ivars + s.ivars, c.bounds + s.bounds,
                                                [(z_and(self.guard_of(c), extra, p.pc, g), v) for g, v in s.cases], False))
                o.segs = old + new
            elif isinstance(o, Frame):
                vals = [(p.pc, p.effects[k][2]) for p in paths if k in p.effects]
                o.set(key, self.last_writer(c, pre, vals, o.vars.get(key, Poison('unbound')), key))
            elif isinstance(o, Obj):
                vals = [(p.pc, p.effects[k][2]) for p in paths if k in p.effects]
                v = self.last_writer(c, pre, vals, o.attrs.get(key, Poison('unbound')), key)
                if isinstance(v, Poison): raise Undecided(f"a loop writes attribute {key} of a shared object")
                o.setattr(key, v)
            else:
                raise Undecided("a loop modifies a dictionary")

    def guard_of(self, c):
        return c.exists_guard()

    def last_writer(self, c, pre, vals, old, key):
        if not vals: return old
        v0 = vals[0][1]
        ids = {i.get_id() for i in c.ivars}
        for _, v in vals:
            if isinstance(v, Poison) or _mentions(v, ids, set()): return Poison(f"{key} after a symbolic loop")
            if not (v is v0 or (isinstance(v, (int, str, Fraction, type(None))) and type(v) is type(v0) and v == v0)):
                return Poison(f"{key} after a symbolic loop")
        w = self.exists(c.ivars, z_and(pre, z_or(*[g for g, _ in vals])))
        try:
            return self.merge([(w, v0), (z_not(w), old)])
        except MergeFail:
            return v0 if self.eng.branch(w) else old

    # ---------------------------------------------------------------- merging
    def merge(self, cases):
        """cases: list of (disjoint z3 guard, value) covering everything."""
        if not cases: raise MergeFail()
        v0 = cases[0][1]
        if len(cases) == 1: return v0
        if all(v is v0 for _, v in cases): return v0
        vals = [v for _, v in cases]
        if any(isinstance(v, Poison) for v in vals): return Poison("merge")
        if all(isinstance(v, (bool, SBool)) for v in vals):
            if all(isinstance(v, bool) and v == v0 for v in vals): return v0
            return mk_bool(z3.simplify(z_or(*[z_and(g, zb(v)) for g, v in cases])))
        if all(isinstance(v, (int, Fraction, Num, float)) and not isinstance(v, bool) for v in vals):
            if all(not isinstance(v, Num) and type(v) is type(v0) and v == v0 for v in vals): return v0
            if any(isinstance(v, float) for v in vals): raise MergeFail()
            k = 'frac' if any(kind_of(v) == 'frac' for v in vals) else 'int'
            r = to_z(vals[-1], k)
            for g, v in reversed(cases[:-1]): r = z3.If(g, to_z(v, k), r)
            return Num(z3.simplify(r), k)
        if all(isinstance(v, str) and v == v0 for v in vals if True) and isinstance(v0, str): return v0
        if all(isinstance(v, (str, OStr)) for v in vals):
            if not self.opaque_render: raise MergeFail()
            return OStr([('merge', tuple(vals))])
        if any(v is None or isinstance(v, Opt) for v in vals):
            non, rest = [], []
            for g, v in cases:
                if v is None: non.append(g)
                elif isinstance(v, Opt):
                    non.append(z_and(g, v.isnone)); rest.append((g, v.value))
                else: rest.append((g, v))
            if not rest: return None
            return Opt(z3.simplify(z_or(*non)), self.merge(rest))
        if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
            return tuple(self.merge([(g, v[i]) for g, v in cases]) for i in range(len(v0)))
        if self.merge_objs and all(isinstance(v, Obj) and v.origin is None for v in vals) and \
                len({id(v.cls) for v in vals}) == 1 and len({tuple(sorted(v.attrs)) for v in vals}) == 1:
            r = Obj(self.eng, v0.cls)
            for k in v0.attrs: r.attrs[k] = self.merge([(g, v.attrs[k]) for g, v in cases])
            return r
        raise MergeFail()

    def try_merge(self, thunk, pre=None):
        """Evaluate thunk over all its paths and merge the results; MergeFail if it has effects."""
        if self.no_merge: raise MergeFail()
        held = []

        def bad(p):
            if p.kind not in ('ok', 'return') or p.effects: return True
            if isinstance(p.value, (VList, VDict)) or (isinstance(p.value, Obj) and not self.merge_objs):
                if held and held[0] is not p.value: return True     # two different objects never merge
                held.append(p.value)
            return False
        paths = self.eng.explore(thunk, pre=pre, early=bad)
        if paths is None: raise MergeFail()
        if not paths: raise Infeasible()
        v = self.merge([(p.pc, p.value) for p in paths])
        for p in paths:
            if p.asms:
                self.eng.assume(z3.Implies(z_and(*( [pre] if pre is not None else []), p.pc), z_and(*p.asms)))
        return v

    # ---------------------------------------------------------------- expressions
    def eval(self, e, frame):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Undecided(f"expression {type(e).__name__} is outside the subset")
        return m(e, frame)

    def e_Constant(self, e, frame): return e.value

    def name(self, k, frame):
        f = frame
        first = True
        while f is not None:
            if k in f.vars and not (getattr(f, 'is_class', False) and not first) and \
                    not (f is frame and k in f.globals_):
                for c in self.eng.ctxs:
                    if c.track and f.birth <= c.mark and (id(f), k) not in c.written:
                        c.reads.add((id(f), k))
                v = f.vars[k]
                if isinstance(v, Poison): raise Undecided(v.why)
                return v
            if f.localnames is not None and k in f.localnames and f is frame:
                self.raise_(UnboundLocalError, k)
            f = f.parent
            first = False
        if k in frame.module.ns:
            v = frame.module.ns[k]
            if isinstance(v, Poison): raise Undecided(v.why)
            return v
        if k in self.builtins: return self.builtins[k]
        self.raise_(NameError, k)

    def e_Name(self, e, frame): return self.name(e.id, frame)

    def e_NamedExpr(self, e, frame):
        v = self.eval(e.value, frame)
        self.assign(e.target, v, frame)
        return v

    def e_Tuple(self, e, frame):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            segs = self.star_elts(e.elts, frame)
            if all(isinstance(s, Single) for s in segs): return tuple(s.v for s in segs)
            return VTuple(segs)
        return tuple(self.eval(x, frame) for x in e.elts)

    def star_elts(self, elts, frame):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred): segs.extend(self.iterate(self.eval(x.value, frame)))
            else: segs.append(Single(self.eval(x, frame)))
        return segs

    def e_List(self, e, frame): return VList(self.eng, self.star_elts(e.elts, frame))

    def e_Set(self, e, frame):
        r = VSet(self.eng)
        for s in self.star_elts(e.elts, frame): self.set_add_seg(r, s)
        return r

    def e_Dict(self, e, frame):
        d = VDict(self.eng)
        for k, v in zip(e.keys, e.values):
            if k is None:
                for (a, b) in self.eval(v, frame).pairs: self.dict_set(d, a, b)
            else: self.dict_set(d, self.eval(k, frame), self.eval(v, frame))
        return d

    def e_Lambda(self, e, frame): return self.make_func(e, frame)

    def e_IfExp(self, e, frame):
        t = self.truth(self.eval(e.test, frame))
        if isinstance(t, bool): return self.eval(e.body if t else e.orelse, frame)
        c = z3.simplify(t)
        if z3.is_true(c): return self.eval(e.body, frame)
        if z3.is_false(c): return self.eval(e.orelse, frame)
        if self.eng.ctxs[-1].pos >= len(self.eng.ctxs[-1].prefix) or True:
            try:
                a = self.try_merge(lambda: self.eval(e.body, frame), pre=c)
                b = self.try_merge(lambda: self.eval(e.orelse, frame), pre=z_not(c))
                return self.merge([(c, a), (z_not(c), b)])
            except MergeFail: pass
            except Infeasible: pass
        return self.eval(e.body if self.eng.branch(c) else e.orelse, frame)

    def e_BoolOp(self, e, frame):
        is_and = isinstance(e.op, ast.And)
        acc = None         # accumulated z3 condition of the merged prefix
        vals = e.values
        for n, x in enumerate(vals):
            last = n == len(vals) - 1
            if acc is None:
                v = self.eval(x, frame)
            else:
                pre = acc if is_and else z_not(acc)
                try:
                    if not self.eng.check(pre): v = None; return mk_bool(acc)
                    v = self.try_merge(lambda: self.eval(x, frame), pre=pre)
                    if not isinstance(v, (bool, SBool)): raise MergeFail()
                except MergeFail:
                    d = self.eng.branch(acc)
                    if d != is_and: return d
                    acc = None
                    v = self.eval(x, frame)
            if acc is not None:
                acc = z_and(acc, zb(v)) if is_and else z_or(acc, zb(v))
                if z3.is_false(acc) and is_and: return False
                if z3.is_true(acc) and not is_and: return True
                continue
            if last: return v
            if isinstance(v, SBool):
                acc = v.z
                continue
            t = self.truth(v)
            d = self.eng.branch(t)
            if d != is_and: return v
        return mk_bool(acc)

    def e_UnaryOp(self, e, frame):
        v = self.eval(e.operand, frame)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else mk_bool(z_not(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Num): return Num(-v.z, v.kind)
            if isinstance(v, Obj): return self.call_method(v, '__neg__', [])
            if isinstance(v, SBool): return Num(-to_z(v), 'int')
            return -v
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert) and not is_sym(v): return ~v
        raise Undecided("unary operator")

    def e_BinOp(self, e, frame):
        return self.binop(e.op, self.eval(e.left, frame), self.eval(e.right, frame))

    def e_Compare(self, e, frame):
        left = self.eval(e.left, frame)
        acc = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, frame)
            c = self.compare(op, left, right)
            if len(e.ops) == 1: return c
            acc = self.and_(acc, c)
            if acc is False: return False
            left = right
        return acc

    def and_(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool): return a and b
        return mk_bool(z_and(zb(a), zb(b)))

    def or_(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool): return a or b
        return mk_bool(z_or(zb(a), zb(b)))

    def not_(self, a):
        return (not a) if isinstance(a, bool) else mk_bool(z_not(zb(a)))

    def e_Call(self, e, frame):
        f = self.eval(e.func, frame)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                segs = self.iterate(self.eval(a.value, frame))
                if not all(isinstance(s, Single) for s in segs):
                    if isinstance(f, Native) and f.name in ('product', 'max', 'min', 'zip'):
                        raise Undecided("star-argument of symbolic length")
                    raise Undecided("star-argument of symbolic length")
                args.extend(s.v for s in segs)
            else: args.append(self.eval(a, frame))
        for k in e.keywords:
            if k.arg is None:
                for (a, b) in self.eval(k.value, frame).pairs: kwargs[a] = b
            else: kwargs[k.arg] = self.eval(k.value, frame)
        return self.call(f, args, kwargs)

    def e_Attribute(self, e, frame): return self.getattr(self.eval(e.value, frame), e.attr)

    def e_Subscript(self, e, frame):
        o = self.eval(e.value, frame)
        if isinstance(o, (type, Poison)) or (isinstance(o, Native) and o.name in ('list', 'set', 'tuple', 'dict')): return o
        if isinstance(e.slice, ast.Slice):
            lo = None if e.slice.lower is None else self.eval(e.slice.lower, frame)
            hi = None if e.slice.upper is None else self.eval(e.slice.upper, frame)
            st = None if e.slice.step is None else self.eval(e.slice.step, frame)
            return self.getslice(o, lo, hi, st)
        return self.getitem(o, self.eval(e.slice, frame))

    def e_JoinedStr(self, e, frame):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                n = v.value
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and isinstance(n.args[0], ast.Name):
                    # the size of a symbolic set is not known, nor needed in an opaque text
                    x = self.eval(n.args[0], frame)
                    if isinstance(x, VSet) and (not x.concrete() or getattr(x, 'dups', False)):
                        x.read()
                        parts.append(OStr([('size', x)])); continue
                x = self.eval(v.value, frame)
                if v.format_spec is not None or v.conversion not in (-1, 115, 114):
                    if is_sym(x) or isinstance(x, (Obj, VList, tuple)): parts.append(OStr([('opaque', x)])); continue
                    spec = self.eval(v.format_spec, frame) if v.format_spec is not None else ''
                    if isinstance(spec, OStr): parts.append(spec); continue
                    parts.append(format(x, spec)); continue
                parts.append(self.to_str(x, repr_=(v.conversion == 114)))
        return self.cat(parts)

    def cat(self, parts):
        out = []
        for p in parts:
            ps = p.parts if isinstance(p, OStr) else [p]
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str): out[-1] += q
                elif q != '' if isinstance(q, str) else True: out.append(q)
        if all(isinstance(p, str) for p in out): return ''.join(out)
        return OStr(out)

    def to_str(self, x, repr_=False):
        if isinstance(x, str): return repr(x) if repr_ else x
        if x is None or isinstance(x, (bool, int, Fraction, float)): return repr(x) if repr_ and not isinstance(x, Fraction) else str(x)
        if isinstance(x, (Num, SBool, OStr, Opt)): return x if isinstance(x, OStr) else OStr([('num', x)])
        if isinstance(x, Obj):
            f = (x.cls.lookup('__str__') if not repr_ else None) or x.cls.lookup('__repr__')
            if f is None: return OStr([('obj', x)])
            if self.opaque_render: return OStr([('obj', x)])
            return self.call(Bound(f, x), [], {})
        if isinstance(x, (VList, tuple, VDict, VTuple)):
            if self.opaque_render and not isinstance(x, VDict):
                try: return str(self.native(x))
                except Undecided: return OStr([('obj', x)])
            o, c = ('{', '}') if isinstance(x, VSet) else (('(', ')') if isinstance(x, tuple) else ('[', ']'))
            its = x if isinstance(x, tuple) else x.items()
            parts = [o]
            for n, y in enumerate(its):
                if n: parts.append(', ')
                parts.append(self.to_str(y, True))
            if isinstance(x, tuple) and len(x) == 1: parts.append(',')
            return self.cat(parts + [c])
        if isinstance(x, BaseException): return str(x)
        return OStr([('obj', x)])

    def native(self, x):
        """Convert a fully concrete value to native Python."""
        if x is None or isinstance(x, (bool, int, Fraction, float, str)): return x
        if isinstance(x, tuple): return tuple(self.native(y) for y in x)
        if isinstance(x, VSet): return set(self.native(y) for y in x.items())
        if isinstance(x, VList): return [self.native(y) for y in x.items()]
        raise Undecided("not concrete")

    # ---------------------------------------------------------------- comprehensions
    def e_ListComp(self, e, frame):
        return VList(self.eng, self.comp(e, frame, lambda f: self.eval(e.elt, f), fork=True))

    def e_GeneratorExp(self, e, frame):
        # evaluated eagerly; any/all/sum/... consume the segments
        return GenVal(self, e, frame)

    def e_SetComp(self, e, frame):
        r = VSet(self.eng)
        for s in self.comp(e, frame, lambda f: self.eval(e.elt, f), fork=True): self.set_add_seg(r, s)
        return r

    def e_DictComp(self, e, frame):
        d = VDict(self.eng)
        for s in self.comp(e, frame, lambda f: (self.eval(e.key, f), self.eval(e.value, f)), fork=True):
            if not isinstance(s, Single): raise Undecided("dictionary of symbolic size")
            self.dict_set(d, s.v[0], s.v[1])
        return d

    def comp(self, e, frame, elt, fork):
        names = set()
        for g in e.generators: names |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        f = Frame(self.eng, frame, frame.module, None, frame.func)
        f.comp = True
        first = self.eval(e.generators[0].iter, frame)
        return self.comp_rec(e.generators, 0, f, elt, fork, first)

    def comp_rec(self, gens, k, f, elt, fork, it=None):
        if k == len(gens): return [Single(elt(f))]
        g = gens[k]
        if it is None: it = self.eval(g.iter, f)
        out = []
        segs = self.iterate(it)
        for s in list(segs):
            if isinstance(s, Single):
                def one():
                    self.assign(g.target, s.v, f)
                    for cond in g.ifs:
                        if not self.eng.branch(self.truth(self.eval(cond, f))): return []
                    return self.comp_rec(gens, k + 1, f, elt, fork)
                if fork or not g.ifs:
                    out.extend(one())
                else:
                    out.extend(self.comp_generic(Comp([], [], [(TRUE, s.v)]), one_of(self, g, f, gens, k, elt, fork)))
            else:
                out.extend(self.comp_generic(s, one_of(self, g, f, gens, k, elt, fork)))
        return out

    def comp_generic(self, comp, body):
        """body(v) -> list of segs; explored at a generic index of comp."""
        c = self.rename(comp)
        pre = z_and(c.range(), c.exists_guard())
        bad = lambda p: p.kind not in ('ok',)
        paths = self.eng.explore(lambda: body(self.pick_case(c)), pre=pre, generics=c.ivars, track=True)
        for p in paths:
            if p.kind == 'raise':
                # an exception escapes for some element
                q = self.exists(c.ivars, z_and(pre, p.pc))
                if self.eng.branch(q): raise PyRaise(p.value)
            elif p.kind != 'ok': raise Undecided("control flow out of a comprehension")
            for (o, key, v) in p.effects.values():
                raise Undecided(f"side effect ({key}) inside a comprehension over a symbolic sequence")
        paths = [p for p in paths if p.kind == 'ok']
        self.export_asms(paths, c.ivars, pre)
        g0 = c.exists_guard()
        single = [(p, p.value) for p in paths]
        if all(len(v) <= 1 and all(isinstance(s, Single) for s in v) for _, v in single):
            cases = [(p.pc, v[0].v) for p, v in single if v]
            if not cases: return []
            if len(cases) > 1:
                try:
                    m = self.merge([(g, v) for g, v in cases])
                    cases = [(z_or(*[g for g, _ in cases]), m)] if len(cases) < len(paths) else [(TRUE, m)]
                except MergeFail: pass
            return [Comp(c.ivars, c.bounds, [(z_and(g0, g), v) for g, v in cases], comp.ordered)]
        out = []
        for p, v in single:
            for s in v:
                if isinstance(s, Single):
                    out.append(Comp(c.ivars, c.bounds, [(z_and(g0, p.pc), s.v)], comp.ordered and len(paths) == 1 and len(v) == 1))
                else:
                    out.append(Comp(c.ivars + s.ivars, c.bounds + s.bounds,
                                    [(z_and(g0, p.pc, g), w) for g, w in s.cases],
                                    comp.ordered and s.ordered and len(paths) == 1 and len(v) == 1))
        return out

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            if t.id in frame.globals_:
                frame.module.frame.set(t.id, v); return
            if t.id in frame.nonlocals:
                f = frame.parent
                while f is not None:
                    if t.id in f.vars: f.set(t.id, v); return
                    f = f.parent
            frame.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            segs = self.iterate(v)
            if not all(isinstance(s, Single) for s in segs):
                vals = []
                n = self.length(v)
                if not any(isinstance(x, ast.Starred) for x in t.elts):
                    if not self.eng.branch(self.truth(self.compare(ast.Eq(), n, len(t.elts)))): self.raise_(ValueError, 'unpack')
                    vals = [self.getitem(v, i) for i in range(len(t.elts))]
                else: raise Undecided("unpacking a sequence of symbolic length")
            else: vals = [s.v for s in segs]
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                rest = len(t.elts) - i - 1
                if len(vals) < i + rest: self.raise_(ValueError, 'unpack')
                for x, y in zip(t.elts[:i], vals[:i]): self.assign(x, y, frame)
                self.assign(t.elts[i].value, VList.of(self.eng, vals[i:len(vals) - rest]), frame)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - rest:]): self.assign(x, y, frame)
                return
            if len(vals) != len(t.elts): self.raise_(ValueError, 'unpack')
            for x, y in zip(t.elts, vals): self.assign(x, y, frame)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, frame), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, frame)
            if isinstance(t.slice, ast.Slice):
                lo = None if t.slice.lower is None else self.eval(t.slice.lower, frame)
                hi = None if t.slice.upper is None else self.eval(t.slice.upper, frame)
                if isinstance(o, VList) and o.concrete() and not is_sym(lo) and not is_sym(hi) and t.slice.step is None:
                    vals = [s for s in self.iterate(v)]
                    o.touch(); o.segs = list(o.segs); o.segs[lo:hi] = vals
                    return
                raise Undecided("slice assignment")
            self.setitem(o, self.eval(t.slice, frame), v)
        else: raise Undecided("assignment target")

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, k):
        if isinstance(o, Poison): raise Undecided(o.why)
        if isinstance(o, Opt):
            if self.eng.branch(o.isnone): self.raise_(AttributeError, f"'NoneType' object has no attribute '{k}'")
            return self.getattr(o.value, k)
        if isinstance(o, Obj):
            if k in o.attrs:
                self.eng.note_read(o, k) if not any((id(o), k) in c.written for c in self.eng.ctxs) else None
                v = o.attrs[k]
                if isinstance(v, Poison): raise Undecided(v.why)
                return v
            v = o.cls.lookup(k)
            if v is not None:
                if isinstance(v, Func):
                    if v.deco == 'staticmethod': return v
                    if v.deco == 'classmethod': return Bound(v, o.cls)
                    if v.deco == 'property': return self.call(Bound(v, o), [], {})
                    return Bound(v, o)
                return v
            if k == '__class__': return o.cls
            if k == '__dict__':
                d = VDict(self.eng, [(a, b) for a, b in o.attrs.items()])
                return d
            g = o.cls.lookup('__getattr__')
            if g is not None: return self.call(Bound(g, o), [k], {})
            if k == '__repr__': return Native('repr', lambda it, a, kw: self.to_str(o))
            self.raise_(AttributeError, k)
        if isinstance(o, Cls):
            v = o.lookup(k)
            if v is not None:
                if isinstance(v, Func) and v.deco == 'classmethod': return Bound(v, o)
                if isinstance(v, Poison): raise Undecided(v.why)
                return v
            if k == '__name__': return o.name
            self.raise_(AttributeError, k)
        if isinstance(o, Mod):
            if k in o.ns:
                v = o.ns[k]
                if isinstance(v, Poison): raise Undecided(v.why)
                if isinstance(v, LazyModel): return self.load(v.mod).ns[v.name]
                return v
            if getattr(o, 'missing', False) or o.name in self.native_modules: raise Undecided(f"{o.name}.{k} is not modelled")
            self.raise_(AttributeError, k)
        return self.builtins['$getattr'](o, k)

    def setattr(self, o, k, v):
        if isinstance(o, Obj):
            if o.origin is not None or getattr(o, 'shared', False): raise Undecided(f"attribute {k} of an element of a symbolic sequence is assigned")
            for c in self.eng.ctxs:
                if c.track and o.birth <= c.mark: c.written.add((id(o), k))
            o.setattr(k, v)
            return
        if isinstance(o, Cls):
            old, had = o.ns.get(k), k in o.ns
            o.ns[k] = v
            return
        if isinstance(o, Opt):
            if self.eng.branch(o.isnone): self.raise_(AttributeError, k)
            return self.setattr(o.value, k, v)
        if o is None or isinstance(o, (int, str, Fraction, tuple)): self.raise_(AttributeError, k)
        raise Undecided(f"attribute assignment on {o!r}")

    # ---------------------------------------------------------------- calls
    def call_method(self, o, name, args, kwargs={}):
        return self.call(self.getattr(o, name), args, dict(kwargs))

    def call(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Undecided("recursion too deep")
        try:
            if isinstance(f, Func): return self.call_func(f, args, kwargs)
            if isinstance(f, Bound):
                return self.call(f.func, [f.self_] + list(args), kwargs)
            if isinstance(f, Native): return f.fn(self, args, kwargs)
            if isinstance(f, Cls): return self.instantiate(f, args, kwargs)
            if isinstance(f, type) and issubclass(f, BaseException):
                try: return f(*[a if isinstance(a, str) else repr(a) for a in args])
                except TypeError: return f()
            if isinstance(f, Obj): return self.call_method(f, '__call__', args, kwargs)
            if isinstance(f, Poison): raise Undecided(f.why)
            if f is None or isinstance(f, (int, str, tuple, Fraction)): self.raise_(TypeError, f"{f!r} is not callable")
            raise Undecided(f"call of {f!r}")
        finally:
            self.depth -= 1

    def instantiate(self, c, args, kwargs):
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in c.bases):
            raise Undecided("user exception class")
        o = Obj(self.eng, c)
        init = c.lookup('__init__')
        if init is not None:
            self.call_func(init, [o] + list(args), kwargs, nomerge=True)
        elif args or kwargs: self.raise_(TypeError, f"{c.name}() takes no arguments")
        return o

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out, kwargs = {}, dict(kwargs)
        for n, v in zip(names, args): out[n] = v
        if len(args) > len(names):
            if a.vararg is None: self.raise_(TypeError, f"{f.name}() takes {len(names)} positional arguments")
            out[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None: out[a.vararg.arg] = ()
        for n in names:
            if n in kwargs:
                if n in out: self.raise_(TypeError, f"{f.name}() got multiple values for {n}")
                out[n] = kwargs.pop(n)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in out: out[n] = d
        for x in a.kwonlyargs:
            if x.arg in kwargs: out[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults: out[x.arg] = f.kwdefaults[x.arg]
            else: self.raise_(TypeError, f"{f.name}() missing {x.arg}")
        if a.kwarg is not None:
            out[a.kwarg.arg] = VDict(self.eng, list(kwargs.items()))
        elif kwargs: self.raise_(TypeError, f"{f.name}() got an unexpected keyword argument {list(kwargs)[0]}")
        for n in names:
            if n not in out: self.raise_(TypeError, f"{f.name}() missing argument {n}")
        return out

    def call_func(self, f, args, kwargs, nomerge=False):
        if f.deco == 'unknown': raise Undecided(f"decorated function {f.qual}")
        if f.name in self.opaque_names and self.opaque_render and f.module.name not in ('contract',) and \
                not f.module.name.startswith('models'):
            return OStr([('obj', args[0] if args else None)])
        if f.qual in self.stubs:
            st = self.stubs[f.qual]
            if not st.recursive_only or st.active:
                bound = self.bind(f, args, kwargs)
                names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
                st.used += 1
                return self.call(st.fn, [bound[n] for n in names], {})
            st.active = True
            try: return self.run_func(f, args, kwargs, True)
            finally: st.active = False
        return self.run_func(f, args, kwargs, nomerge)

    def run_func(self, f, args, kwargs, nomerge):
        key = id(f.node)
        repo = f.module.name not in ('contract',)
        if repo: self.calls.add(f.qual)
        if nomerge or self.no_merge or self.nomerge.get(key, 0) >= 2 or not self.eng.ctxs:
            return self.exec_func(f, args, kwargs)
        top = self.eng.counter
        try:
            return self.try_merge(lambda: self.exec_func(f, args, kwargs))
        except MergeFail:
            self.nomerge[key] = self.nomerge.get(key, 0) + 1
            self.eng.counter = top       # nothing of the failed attempt is kept: a replay names the same constants
            return self.exec_func(f, args, kwargs)

    def exec_func(self, f, args, kwargs):
        bound = self.bind(f, args, kwargs)
        if isinstance(f.node, ast.Lambda):
            fr = Frame(self.eng, f.frame, f.module, None, f)
            fr.vars = bound
            return self.eval(f.node.body, fr)
        if id(f.node) not in self._scan:
            self._scan[id(f.node)] = scan_locals(f.node.body, f.node.args) + \
                (any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)),)
        names, glob, nonl, gen = self._scan[id(f.node)]
        fr = Frame(self.eng, f.frame, f.module, names, f)
        fr.globals_, fr.nonlocals = set(glob), set(nonl)
        fr.vars = bound
        if gen: fr.yields = VList(self.eng)
        try:
            self.exec_body(f.node.body, fr)
        except ReturnEx as e:
            if not gen: return e.value
        return Iter(self.eng, fr.yields.segs) if gen else None

    def e_Yield(self, e, frame):
        f = frame
        v = None if e.value is None else self.eval(e.value, frame)
        while f is not None and f.yields is None: f = f.parent
        if f is None: raise Undecided("yield")
        f.yields.touch(); f.yields.segs = f.yields.segs + [Single(v)]
        return None

    def e_YieldFrom(self, e, frame):
        f = frame
        segs = self.iterate(self.eval(e.value, frame))
        while f is not None and f.yields is None: f = f.parent
        f.yields.touch(); f.yields.segs = f.yields.segs + list(segs)
        return None

    def e_Starred(self, e, frame): raise Undecided("starred expression")

    # the remaining semantics (operators, containers) live in ops.py
    from .ops import (binop, compare, eq, ident, truth, truthy, iterate, length, getitem, getslice, setitem, delitem,
                      set_add_seg, set_add, set_union, dict_set, dict_get, dict_find, contains, less, normalize, elem_at,
                      quantify, ssum, minmax, sort_list, opt_value, has_effect_free)


def conjuncts(f):
    if z3.is_and(f): return [y for x in f.children() for y in conjuncts(x)]
    return [f]


def same_value(a, b):
    """the same value, as far as syntax shows"""
    if a is b: return True
    if isinstance(a, Num) and isinstance(b, Num): return a.kind == b.kind and z3.simplify(a.z).eq(z3.simplify(b.z))
    if isinstance(a, SBool) and isinstance(b, SBool): return z3.simplify(a.z).eq(z3.simplify(b.z))
    if type(a) is not type(b): return False
    if isinstance(a, (int, Fraction, str, bool)) or a is None: return a == b
    if isinstance(a, tuple): return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, Obj):
        if a.cls is not b.cls: return False
        if a.origin is not None or b.origin is not None:
            return a.origin is not None and b.origin is not None and a.origin[0] == b.origin[0] and len(a.origin[1]) == len(b.origin[1]) \
                and all(z3.simplify(x).eq(z3.simplify(y)) for x, y in zip(a.origin[1], b.origin[1]))
        return set(a.attrs) == set(b.attrs) and all(same_value(a.attrs[k], b.attrs[k]) for k in a.attrs)
    if isinstance(a, OStr): return len(a.parts) == len(b.parts) and all(same_value(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, VDict): return len(a.pairs) == len(b.pairs) and all(same_value(x, y) for x, y in zip(a.pairs, b.pairs))
    if isinstance(a, (VList, VTuple)):
        return len(a.segs) == len(b.segs) and all(isinstance(x, Single) and isinstance(y, Single) and same_value(x.v, y.v) for x, y in zip(a.segs, b.segs))
    return False


def opaque_nl(f):
    """f with products and quotients of variables replaced by unknowns (one per term)"""
    memo, names = {}, {}

    def arith(e): return z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD)

    def go(e):
        i = e.get_id()
        if i in memo: return memo[i]
        if z3.is_quantifier(e) or z3.is_var(e): r = e
        elif arith(e) and sum(not z3.is_rational_value(x) and not z3.is_int_value(x) for x in e.children()) >= (2 if e.decl().kind() == z3.Z3_OP_MUL else 1):
            if e.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(e.children()[0]):
                c = e.children()
                rest = z3.simplify(z3.Product(*c[1:])) if len(c) > 2 else c[1]
                r = c[0] * (go(rest) if not rest.eq(e) else z3.Const('nl', rest.sort()))
            else:
                r = names.setdefault(i, z3.Const(f'nl!{i}', e.sort()))
        elif e.num_args() == 0: r = e
        else:
            r = rebuild(e, [go(x) for x in e.children()])
        memo[i] = r
        return r
    return go(f)


def one_of(it, g, f, gens, k, elt, fork):
    def body(v):
        it.assign(g.target, v, f)
        for cond in g.ifs:
            if not it.eng.branch(it.truth(it.eval(cond, f))): return []
        return it.comp_rec(gens, k + 1, f, elt, fork)
    return body


class GenVal:
    """A generator expression, evaluated when consumed."""
    def __init__(self, it, e, frame):
        self.it, self.e, self.frame = it, e, frame
        self.done = False
        # the outermost iterable is evaluated immediately in Python
        self.first = it.eval(e.generators[0].iter, frame)
    def segs(self, fork=True):
        if self.done: return []
        it, e = self.it, self.e
        f = Frame(it.eng, self.frame, self.frame.module, None, self.frame.func)
        f.comp = True
        return it.comp_rec(e.generators, 0, f, lambda fr: it.eval(e.elt, fr), fork, self.first)
