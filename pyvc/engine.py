"""Path exploration, solver access and proof obligations.

The engine explores every feasible path of a thunk by re-execution with recorded branch
decisions.  Mutations go through a trail so that a (possibly nested) exploration can be
undone.  Obligations are discharged by z3, then by cvc5 when z3 gives up.
"""
import subprocess, tempfile, os, time, sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3


class Undecided(Exception):
    """The verifier cannot decide: construct outside the subset, budget exhausted, ..."""


class NameClash(BaseException):
    pass


class Infeasible(BaseException):
    pass


class Refuted(Exception):
    """Raised (optionally) on the first refuted obligation."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted program; .exc is the exception value."""
    def __init__(self, exc):
        Exception.__init__(self, repr(exc))
        self.exc = exc


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def z_and(*xs):
    out = []
    for x in xs:
        if z3.is_true(x): continue
        if z3.is_false(x): return FALSE
        out.append(x)
    if not out: return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def z_or(*xs):
    out = []
    for x in xs:
        if z3.is_false(x): continue
        if z3.is_true(x): return TRUE
        out.append(x)
    if not out: return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def z_not(x):
    if z3.is_true(x): return FALSE
    if z3.is_false(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def has_quantifier(e, seen=None):
    if seen is None: seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        stack.extend(x.children())
    return False


def rebuild(e, ch):
    if all(x.eq(y) for x, y in zip(e.children(), ch)): return e
    if z3.is_and(e): return z3.And(*ch)
    if z3.is_or(e): return z3.Or(*ch)
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD: return z3.Sum(*ch)
    if k == z3.Z3_OP_MUL: return z3.Product(*ch)
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*ch)
    return e.decl()(*ch)


class Ctx:
    def __init__(self, prefix, mark, trail_start, generic):
        self.prefix, self.mark, self.trail_start = prefix, mark, trail_start
        self.pos = 0
        self.taken = []
        self.alts = []
        self.pc = []       # branch decisions taken (z3)
        self.asms = []     # assumptions made (z3)
        self.generic = generic
        self.reads = set()
        self.written = set()
        self.track = False
        self.same_names = True


class Path:
    def __init__(self, pc, asms, kind, value, effects, reads):
        self.pc, self.asms, self.kind, self.value = pc, asms, kind, value
        self.effects, self.reads = effects, reads


class Obligation:
    def __init__(self, name, status, backend, secs, detail=None, model=None):
        self.name, self.status, self.backend, self.secs = name, status, backend, secs
        self.detail, self.model = detail, model


class Engine:
    def __init__(self, feas_ms=300, obl_ms=8000, max_paths=2000, deadline=None, use_cvc5=True, max_alloc=200):
        self.solver = z3.Solver()
        self.solver.set('timeout', feas_ms)
        self.obl_ms, self.max_paths, self.deadline = obl_ms, max_paths, deadline
        self.use_cvc5 = use_cvc5
        self.ctxs = []
        self.trail = []
        self.birth = 0
        self.generic = []
        self.counter = 0
        self.high = 10 ** 9
        self.obligations = []
        self.paths = 0
        self.reach = {}
        self.solver_time = 0.0
        self.queries = 0
        self.pc_stack = []       # all assertions on the current path, outermost first
        self.stop_on_refuted = True
        self.assumed = set()
        self.inputs = {}
        self.version = lambda: 0       # what the interpreter has learnt about merging

    # -- births and trail -------------------------------------------------------
    def new_birth(self):
        self.birth += 1
        return self.birth

    def log(self, obj, key, undo):
        if self.ctxs:
            self.trail.append((obj, key, undo))

    def note_read(self, obj, key):
        for c in self.ctxs:
            if c.track and obj.birth <= c.mark:
                c.reads.add((id(obj), key))

    def fresh_name(self, hint):
        self.counter += 1
        return f"{hint}!{self.counter}"

    def fresh(self, sort, hint='k'):
        name = self.fresh_name(hint)
        if self.generic:
            f = z3.Function(name, *([z3.IntSort()] * len(self.generic)), sort)
            return f(*self.generic)
        return z3.Const(name, sort)

    # -- solver -----------------------------------------------------------------
    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Undecided("time budget exhausted")

    def check(self, c):
        """Is the current path condition together with c satisfiable? (unknown counts as yes)"""
        self.tick()
        t = time.time()
        self.queries += 1
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.solver_time += time.time() - t
        return r != z3.unsat

    def entails(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return not self.check(z_not(c))

    def _add(self, c):
        self.solver.add(c)
        self.pc_stack.append(c)

    def assume(self, c):
        if isinstance(c, bool): c = z3.BoolVal(c)
        if z3.is_true(c): return
        if self.ctxs: self.ctxs[-1].asms.append(c)
        self._add(c)
        if z3.is_false(c): raise Infeasible()

    def branch(self, cond):
        """Decide a symbolic condition, forking the exploration when both sides are feasible."""
        if isinstance(cond, bool): return cond
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        ctx = self.ctxs[-1]
        if ctx.pos < len(ctx.prefix):
            d, both, lit = ctx.prefix[ctx.pos]
            if both and ctx.same_names and not lit.eq(c): raise NameClash()
        else:
            t = self.check(c)
            f = self.check(z_not(c))
            if not t and not f: raise Infeasible()
            both = t and f
            d = t
            if both:
                ctx.alts.append(ctx.taken + [(False, True, c)])
        ctx.pos += 1
        ctx.taken.append((d, both, c if both else None))
        lit = c if d else z_not(c)
        if both:
            ctx.pc.append(lit)
            self._add(lit)
        return d

    # -- exploration ------------------------------------------------------------
    def explore(self, thunk, pre=None, generics=(), track=False, early=None):
        """Explore all paths of thunk; state changes are undone.  Returns a list of Path.

        Every path names its fresh constants from the same counter, so that what two paths have in
        common is the same formula and their conditions exclude each other.  When a replayed
        decision is not the recorded formula the path is run again with names of its own."""
        base = top = self.counter
        try:
            for attempt in range(4):
                results, work, clash, version = [], [([], True)], False, self.version()
                while work:
                    prefix, same = work.pop()
                    self.counter = base
                    if not same: self.counter, self.high = self.high, self.high + 10 ** 6
                    try: alts = self._path(thunk, pre, generics, track, prefix, same, results)
                    except NameClash:
                        clash = True
                        # what the interpreter learnt on the way changed the names: start again
                        if attempt < 3 and self.version() != version: break
                        work.append((prefix, False))
                        continue
                    finally:
                        if same: top = max(top, self.counter)
                    work.extend((x, True) for x in alts)
                    if early is not None and results and early(results[-1]):
                        return None
                else: break
                if not (clash and self.version() != version): break
            return results
        finally: self.counter = top

    def _path(self, thunk, pre, generics, track, prefix, same, results):
        self.paths += 1
        if self.paths > self.max_paths: raise Undecided("path budget exhausted")
        ctx = Ctx(prefix, self.birth, len(self.trail), list(generics))
        ctx.track, ctx.same_names = track, same
        self.solver.push()
        depth = len(self.pc_stack)
        nctx = len(self.ctxs)
        self.ctxs.append(ctx)
        self.generic.extend(generics)
        try:
            if pre is not None: self._add(pre)
            try:
                kind, value = 'ok', thunk()
            except ReturnEx as e: kind, value = 'return', e.value
            except BreakEx: kind, value = 'break', None
            except ContinueEx: kind, value = 'ok', None
            except PyRaise as e: kind, value = 'raise', e.exc
            eff = [(o, k) for (o, k, u) in self.trail[ctx.trail_start:] if o.birth <= ctx.mark and not getattr(o, 'comp', False)]
            eff_final = self._snapshot(eff)
            results.append(Path(z_and(*ctx.pc), ctx.asms, kind, value, eff_final, ctx.reads))
        except Infeasible:
            pass
        finally:
            for (o, k, u) in reversed(self.trail[ctx.trail_start:]):
                if o.birth <= ctx.mark: u()
            del self.trail[ctx.trail_start:]
            if generics: del self.generic[len(self.generic) - len(generics):]
            self.solver.pop()
            del self.pc_stack[depth:]
            del self.ctxs[nctx:]
        return ctx.alts

    def _snapshot(self, eff):
        out = {}
        for (o, k) in eff:
            out[(id(o), k)] = (o, k, o.peek(k))
        return out

    # -- obligations ------------------------------------------------------------
    def prove(self, name, goal, detail=None):
        """Discharge pc => goal.  Returns 'proved' | 'refuted' | 'unknown'."""
        self.tick()
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        t0 = time.time()
        if z3.is_true(g):
            self.obligations.append(Obligation(name, 'proved', 'simplifier', 0.0, detail))
            return 'proved'
        asserts = list(self.pc_stack) + [z_not(g)]
        quant = any(has_quantifier(a) for a in asserts)
        status, backend, model = 'unknown', 'z3', None
        r = None
        s = z3.Solver()
        s.set('timeout', min(2500, self.obl_ms))
        s.add(*asserts)
        r = s.check()
        if r == z3.unknown and quant:
            if self._ground_unsat(asserts): r, backend = z3.unsat, 'z3-nlsat'
            else:
                s.set('timeout', self.obl_ms)
                r = s.check()
        if r == z3.unknown and not quant:
            s2 = z3.Tactic('qfnra-nlsat') if False else None
            try:
                s2 = z3.Then('simplify', 'purify-arith', 'solve-eqs', 'elim-uncnstr', 'smt').solver()
                s2 = z3.TryFor(z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat'), self.obl_ms).solver()
                s2.add(*asserts)
                r = s2.check()
                if r == z3.sat: s = s2
                backend = 'z3-nlsat'
            except z3.Z3Exception:
                r = z3.unknown
        if r == z3.unsat:
            status = 'proved'
        elif r == z3.sat:
            status, model = 'refuted', s.model()
        elif self.use_cvc5:
            r = self._cvc5(asserts)
            backend = 'cvc5'
            if r == 'unsat': status = 'proved'
            # a sat answer of cvc5 is not used as a counterexample
        secs = time.time() - t0
        self.solver_time += secs
        self.queries += 1
        self.obligations.append(Obligation(name, status, backend, secs, detail, model))
        return status

    def _ground_unsat(self, asserts):
        """Do the quantifier-free real conditions contradict each other on their own (applications
        of functions taken as unknowns)?"""
        memo = {}

        def go(e):
            i = e.get_id()
            if i not in memo:
                if e.num_args() == 0: memo[i] = e
                elif e.decl().kind() == z3.Z3_OP_UNINTERPRETED: memo[i] = z3.Const(f'app!{i}', e.sort())
                else: memo[i] = rebuild(e, [go(x) for x in e.children()])
            return memo[i]

        def integral(e): return z3.is_int(e) or any(integral(x) for x in e.children())
        def flat(a): return [y for x in a.children() for y in flat(x)] if z3.is_and(a) else [a]
        ground = [go(x) for a in asserts for x in flat(z3.simplify(a)) if not has_quantifier(x)]
        ground = [a for a in ground if not integral(a)]
        try:
            s = z3.TryFor(z3.Then('simplify', 'purify-arith', 'solve-eqs', 'qfnra-nlsat'), min(6000, self.obl_ms)).solver()
            s.add(*ground)
            return s.check() == z3.unsat
        except z3.Z3Exception: return False

    def _cvc5(self, asserts):
        s = z3.Solver()
        s.add(*asserts)
        text = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(text)
        try:
            out = subprocess.run(['cvc5', f'--tlimit={self.obl_ms}', f.name], capture_output=True, text=True,
                                 timeout=self.obl_ms / 1000 + 5).stdout
        except Exception:
            out = ''
        finally:
            os.unlink(f.name)
        return out.strip().split('\n')[0] if out else 'unknown'
