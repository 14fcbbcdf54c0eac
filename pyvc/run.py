"""Runs the contracts of one property against /repo's working tree."""
import sys, os, time, json, random, hashlib, signal, traceback, importlib.util, multiprocessing as mp, subprocess, re, ast
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
SRC = os.path.join(REPO, 'blueprint', 'src', 'python')
CONTRACTS = os.path.join(HERE, 'contracts')
MODELS = os.path.join(HERE, 'pyvc', 'models')
TRUSTED = ["pyvc symbolic interpreter (semantics of the Python subset)", "z3 5.3.2", "cvc5 1.1.2",
           "CPython Fraction arithmetic taken as exact rational arithmetic"]


def load_native(pid):
    for p in (CONTRACTS, SRC):
        if p in sys.path: sys.path.remove(p)
        sys.path.insert(0, p)
    os.chdir(os.path.join(REPO, 'blueprint', 'src'))
    spec = importlib.util.spec_from_file_location('contract', os.path.join(CONTRACTS, pid.lower() + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def case_list(pid):
    """Cases of a contract file, found syntactically."""
    tree = ast.parse(open(os.path.join(CONTRACTS, pid.lower() + '.py')).read())
    out, opts = [], {}
    for st in tree.body:
        if isinstance(st, ast.FunctionDef) and re.match(r'(prove|bounded|check)_', st.name):
            out.append((st.name, (ast.get_docstring(st) or '').split('\n')[0]))
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == 'OPTS':
            opts = ast.literal_eval(st.value)
    return out, opts


# ------------------------------------------------------------------ symbolic task
def run_symbolic(pid, case, opt):
    from .engine import Engine, Undecided, Infeasible, PyRaise, z3
    from .interp import Interp
    from .builtins import make_builtins, make_modules
    from .env import SymE
    sys.setrecursionlimit(20000)
    t0 = time.time()
    eng = Engine(feas_ms=opt.get('feas_ms', 400), obl_ms=opt.get('obl_ms', 8000), max_paths=opt.get('max_paths', 4000),
                 deadline=t0 + opt.get('time', 60))
    it = Interp(eng, [MODELS, CONTRACTS, SRC], make_builtins, make_modules)
    from .nativemods import install
    install(it, opt)
    res = dict(case=case, status='proved', reason=None, obligations=[], paths=0, functions=[], stubs={})
    E = SymE(it, case)
    E.fix = opt.get('fix', {})
    sats = [0, 0]
    try:
        m = it.load(pid.lower())
        m.name = 'contract'
        f = m.ns.get(case)
        from .values import Poison
        if isinstance(f, Poison): raise Undecided(f.why)
        base_stubs = dict(it.stubs)
        it.calls.clear()
        def thunk():
            it.stubs = dict(base_stubs)
            eng.inputs = {}
            n0 = len(eng.obligations)
            try:
                it.call(f, [E], {})
            except PyRaise as e:
                # the path is feasible?
                st = eng.prove(f"{case}: no unexpected exception", z3.BoolVal(False), detail=repr(e.exc)[:300])
                if st == 'refuted': E.record_model()
            for q, s in it.stubs.items():
                res['stubs'][q] = res['stubs'].get(q, 0) + s.used
            if sats[0] < 3 and sats[1] < 6:
                if eng.solver.check() == z3.sat: sats[0] += 1
                else: sats[1] += 1
            return None
        paths = eng.explore(thunk)
        res['paths'] = eng.paths
    except Undecided as e:
        res['status'], res['reason'] = 'undecided', str(e)
        if opt.get('trace'): traceback.print_exc()
    except RecursionError:
        res['status'], res['reason'] = 'undecided', 'recursion'
    except z3.Z3Exception as e:
        res['status'], res['reason'] = 'undecided', 'z3: ' + str(e)[:200]
        if opt.get('trace'): traceback.print_exc()
    except (AttributeError, TypeError, KeyError, AssertionError, IndexError, ValueError) as e:
        res['status'], res['reason'] = 'undecided', 'engine: ' + repr(e)[:300]
        if opt.get('trace'): traceback.print_exc()
    for o in eng.obligations:
        res['obligations'].append((o.name, o.status, o.backend, round(o.secs, 3), o.detail, getattr(o, 'model_values', None)))
    if any(o.status == 'refuted' for o in eng.obligations): res['status'] = 'refuted'
    elif res['status'] == 'proved' and any(o.status != 'proved' for o in eng.obligations):
        res['status'], res['reason'] = 'undecided', 'solver gave up: ' + '; '.join(sorted({o.name for o in eng.obligations if o.status != 'proved'}))[:400]
    elif res['status'] == 'proved' and not eng.obligations:
        res['status'], res['reason'] = 'undecided', 'no obligation generated'
    elif res['status'] == 'proved' and sats[0] == 0:
        res['reason'] = 'no path condition was shown satisfiable'
        res['vacuous'] = True
    res['functions'] = sorted(it.calls)
    res['solver_time'] = round(eng.solver_time, 2)
    res['queries'] = eng.queries
    res['wall'] = round(time.time() - t0, 2)
    return res


# ------------------------------------------------------------------ native task
class Timeout(BaseException):
    pass


def _alarm(*a): raise Timeout()


def native_once(f, rng, values=None, limit=60):
    from .env import NatE, Fail, Skip
    E = NatE(rng, values)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        f(E)
        return 'ok', None, E
    except Skip: return 'skip', None, E
    except Fail as e: return 'fail', (e.name, e.info), E
    except Timeout: return 'fail', ('terminates', f'no result within {limit} s'), E
    except RecursionError as e: return 'fail', ('no unexpected exception', 'RecursionError'), E
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [x for x in tb if x.filename.startswith(SRC)]
        where = inrepo[-1] if inrepo else tb[-1]
        return 'fail', ('no unexpected exception', f"{type(e).__name__}: {e} at {os.path.basename(where.filename)}:{where.name}"), E
    finally:
        signal.alarm(0)


def jsonable(v):
    if isinstance(v, Fraction): return str(v)
    if isinstance(v, dict): return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)): return [jsonable(x) for x in v]
    if isinstance(v, (int, bool, str, float, type(None))): return v
    return repr(v)


def seed_of(seed, case, i):
    return int(hashlib.sha256(f"{seed}/{case}/{i}".encode()).hexdigest()[:12], 16)


def run_native(pid, case, seed, n, tlimit, start=0):
    out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    try:
        t0 = time.time()
        res = dict(case=case, runs=0, skips=0, checked=0, fail=None, distinct=0, samples=[], names=[])
        try:
            m = load_native(pid)
        except Exception as e:
            res['fail'] = dict(index=-1, name='the modules under test can be imported', info=f"{type(e).__name__}: {e}", trace={})
            return res
        f = getattr(m, case)
        seen = set()
        names = set()
        i = start
        while i < start + n and time.time() - t0 < tlimit:
            st, info, E = native_once(f, random.Random(seed_of(seed, case, i)))
            res['runs'] += 1
            if st == 'skip': res['skips'] += 1
            else:
                key = repr(sorted(E.trace.items(), key=str))
                if key not in seen:
                    seen.add(key)
                    if len(res['samples']) < 2: res['samples'].append(jsonable(E.trace))
                res['checked'] += E.checked
                names |= E.names
            if st == 'fail':
                res['fail'] = dict(index=i, name=info[0], info=str(info[1])[:500], trace=jsonable(E.trace), seed=seed)
                break
            i += 1
        res['distinct'] = len(seen)
        res['names'] = sorted(names)
        res['wall'] = round(time.time() - t0, 2)
        return res
    finally:
        os.dup2(out, 1)


def run_replay(pid, case, values):
    try:
        m = load_native(pid)
    except Exception as e:
        return ('fail', ('import', repr(e)), {})
    f = getattr(m, case)
    vals = {}
    for k, v in values.items():
        vals[k] = v
    st, info, E = native_once(f, random.Random(0), vals)
    if st != 'fail':
        # the model may leave inputs of longer sequences undetermined: perturb
        for i in range(40):
            st2, info2, E2 = native_once(f, random.Random(i), vals)
            if st2 == 'fail': return (st2, info2, jsonable(E2.trace))
    return (st, info, jsonable(E.trace))


# ------------------------------------------------------------------ scheduling
def _child(conn, fn, args):
    try:
        r = fn(*args)
        conn.send(('ok', r))
    except BaseException as e:
        try: conn.send(('err', ''.join(traceback.format_exception(e))[-3000:]))
        except Exception: pass
    finally:
        conn.close()
        os._exit(0)


def schedule(tasks, nproc, hard):
    """tasks: list of (key, fn, args, limit). Returns key -> ('ok', result) | ('err', text) | ('killed', None)."""
    pend, run, out = list(tasks), {}, {}
    sys.stdout.flush()
    while pend or run:
        while pend and len(run) < nproc:
            key, fn, args, limit = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(b, fn, args))
            p.start()
            b.close()
            run[key] = (p, a, time.time() + limit)
        from multiprocessing.connection import wait
        wait([c for _, c, _ in run.values()], timeout=0.5)
        for key in list(run):
            p, c, end = run[key]
            try:
                if c.poll():
                    try: out[key] = c.recv()
                    except EOFError: out[key] = ('err', 'worker died')
                    p.join(5)
                    if p.is_alive(): p.kill()
                    del run[key]
                elif not p.is_alive():
                    out[key] = ('err', f'worker exited with {p.exitcode}')
                    del run[key]
                elif time.time() > end:
                    p.kill(); p.join()
                    out[key] = ('killed', None)
                    del run[key]
            except (OSError, EOFError) as e:
                out[key] = ('err', repr(e))
                del run[key]
    return out


def merge_shards(res):
    out, groups = {}, {}
    for k, v in res.items():
        if k[0] == 'sym' and len(k) == 3: groups.setdefault(k[:2], []).append((k[2], v))
        else: out[k] = v
    for k, vs in groups.items():
        bad = [v for _, v in vs if v[0] != 'ok']
        rs = [v[1] for _, v in sorted(vs, key=lambda x: x[0]) if v[0] == 'ok']
        if not rs:
            out[k] = bad[0]
            continue
        m = dict(rs[0])
        for r in rs[1:]:
            m['obligations'] = m['obligations'] + r['obligations']
            for f in ('paths', 'solver_time', 'queries'): m[f] = round(m[f] + r[f], 2)
            m['wall'] = max(m['wall'], r['wall'])
            m['functions'] = sorted(set(m['functions']) | set(r['functions']))
            m['stubs'] = {q: m['stubs'].get(q, 0) + r['stubs'].get(q, 0) for q in set(m['stubs']) | set(r['stubs'])}
            if r['status'] == 'refuted' or r['status'] == 'undecided' and m['status'] == 'proved':
                m['status'], m['reason'] = r['status'], r['reason']
        if bad and m['status'] == 'proved': m['status'], m['reason'] = 'undecided', 'a shard did not finish'
        out[k] = ('ok', m)
    return out


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path): return []
    return [k for k in json.load(open(path)).get('known', []) if k['property'] == pid]


def main():
    if sys.argv[1] == '--replay': return replay_file(sys.argv[2])
    if sys.argv[1] == '--prove': return prove_one(sys.argv[2], sys.argv[3], sys.argv[4:])
    if sys.argv[1] == '--selftest':
        from .engine import z3
        x = z3.Real('x'); so = z3.Solver(); so.add(x * x < 0)
        assert so.check() == z3.unsat
        print('selftest ok: z3', z3.get_version_string())
        sys.exit(0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    cases, opts = case_list(pid)
    quick = tier == 'quick'
    nproc = 8
    tasks = []
    for name, doc in cases:
        o = dict(opts.get('*', {}))
        o.update(opts.get(name, {}))
        if o.get('thorough_only') and quick: continue
        if not name.startswith('check_') and not o.get('native_only'):
            so = dict(o)
            so['time'] = o.get('time', 60) * (1 if quick else 4)
            if not quick: so['obl_ms'] = 4 * o.get('obl_ms', 8000)
            if 'shards' in so:
                key, k = so['shards']
                for j in range(k): tasks.append((('sym', name, j), run_symbolic, (pid, name, dict(so, fix={key: j})), so['time'] + 45))
            else: tasks.append((('sym', name), run_symbolic, (pid, name, so), so['time'] + 45))
    for name, doc in cases:
        o = dict(opts.get('*', {}))
        o.update(opts.get(name, {}))
        if o.get('thorough_only') and quick: continue
        if not o.get('symbolic_only'):
            n, tl = o.get('n', 300), o.get('tl', 12)
            if not quick: n, tl = n * 40, max(tl * 8, 120)
            tasks.append((('nat', name), run_native, (pid, name, seed, n, tl), tl + 90))
    tasks.sort(key=lambda t: -t[3])
    res = merge_shards(schedule(tasks, nproc, None))
    violations, undecided, errors = [], [], []
    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    known = known_findings(pid)
    known_hit = []

    def report(case, obligation, data, found):
        for k in known:
            if k['case'] == case and k['obligation'] == obligation and (k.get('match') or '') in json.dumps(data):
                if k not in known_hit: known_hit.append(k)
                return
        path = os.path.join(rdir, f"{pid}-{case}-{len(violations)}.json")
        data = dict(property=pid, case=case, obligation=obligation, **data)
        json.dump(jsonable(data), open(path, 'w'), indent=1)
        violations.append((case, obligation, path, found))

    failed_native = set()
    for (kind, name), (st, r) in res.items():
        if kind == 'nat':
            if st == 'ok' and r['fail']:
                failed_native.add(name)
                report(name, r['fail']['name'], dict(kind='native', index=r['fail']['index'], seed=seed, info=r['fail']['info'], inputs=r['fail']['trace']), True)
            elif st == 'err': errors.append((name, r))
            elif st == 'killed': errors.append((name, 'native run exceeded its time'))
    replays = []
    for (kind, name), (st, r) in res.items():
        if kind == 'sym' and st == 'ok' and r['status'] == 'refuted' and name not in failed_native:
            k = 0
            for o in r['obligations']:
                if o[1] == 'refuted' and o[5] is not None and k < 12:
                    replays.append(((name, k), run_replay, (pid, name, o[5]), 100))
                    k += 1
    rres = schedule(replays, nproc, None) if replays else {}
    extra = []
    for (kind, name), (st, r) in list(res.items()):
        if kind != 'sym': continue
        if st != 'ok':
            undecided.append((name, 'verifier stopped: ' + ('time' if st == 'killed' else str(r)[-300:])))
            continue
        if r['status'] == 'undecided': undecided.append((name, r['reason']))
        if r['status'] == 'refuted' and name not in failed_native:
            hits = [v for (n, k), v in rres.items() if n == name and v[0] == 'ok' and v[1][0] == 'fail']
            if hits:
                _, info, trace = hits[0][1]
                report(name, info[0], dict(kind='counterexample', info=info[1], inputs=trace, models=[o[5] for o in r['obligations'] if o[1] == 'refuted'][:3]), True)
            else:
                extra.append(name)
    if extra:
        # search for a failing input with more random runs before reporting the bare obligation
        t2 = [((n, j), run_native, (pid, n, seed, 20000, 25, 10000 + 100000 * j), 120) for n in extra for j in range(max(1, 8 // len(extra)))]
        r2 = schedule(t2, nproc, None)
        for n in extra:
            hit = [v[1]['fail'] for (m, j), v in r2.items() if m == n and v[0] == 'ok' and v[1]['fail']]
            obs = [o for o in res[('sym', n)][1]['obligations'] if o[1] == 'refuted']
            if hit: report(n, hit[0]['name'], dict(kind='native', index=hit[0]['index'], seed=seed, info=hit[0]['info'], inputs=hit[0]['trace']), True)
            else: report(n, obs[0][0], dict(kind='obligation', verifier_output=[dict(name=o[0], status=o[1], backend=o[2], detail=o[4], model=o[5]) for o in obs[:5]]), False)
    write_evidence(pid, tier, seed, t0, cases, opts, res, violations, undecided, errors)
    for k in known: 
        if k in known_hit or k.get('always'): print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for n, why in undecided: print(f"UNDECIDED {pid} {n}: {why}")
    for n, why in errors: print(f"ERROR {pid} {n}: {why}")
    ob = [o for (k, n), (st, r) in res.items() if k == 'sym' and st == 'ok' for o in r['obligations']]
    nat = [r for (k, n), (st, r) in res.items() if k == 'nat' and st == 'ok']
    print(f"{pid} {tier}: {sum(o[1]=='proved' for o in ob)}/{len(ob)} obligations discharged, "
          f"{sum(r['checked'] for r in nat)} concrete evaluations, {len(undecided)} undecided, {time.time()-t0:.1f}s")
    if violations:
        for case, obl, path, found in violations:
            print(f"  failed: {case}: {obl}")
        c = sorted(violations, key=lambda v: not v[3])[0]
        print(f"VIOLATION property={pid} replay={c[2]}" + ('' if c[3] else ' no-failing-input-found'))
        sys.exit(1)
    if errors: sys.exit(2)
    if not ob and not nat: sys.exit(2)
    sys.exit(0)


def write_evidence(pid, tier, seed, t0, cases, opts, res, violations, undecided, errors):
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json'))) if os.path.exists(os.path.join(HERE, 'MANIFEST.json')) else {'checks': []}
    level = next((c['level'] for c in man['checks'] if c['property'] == pid), 'proof')
    syms = [(n, r) for (k, n), (st, r) in res.items() if k == 'sym' and st == 'ok']
    nats = [(n, r) for (k, n), (st, r) in res.items() if k == 'nat' and st == 'ok']
    docs = dict(cases)
    obl = [o for n, r in syms for o in r['obligations']]
    unb = [o for n, r in syms if n.startswith('prove_') for o in r['obligations']]
    bnd = [o for n, r in syms if n.startswith('bounded_') for o in r['obligations']]
    backends = {}
    for o in obl: 
        if o[1] == 'proved': backends[o[2]] = backends.get(o[2], 0) + 1
    funcs = sorted({f for n, r in syms if r['status'] == 'proved' for f in r['functions'] if not f.startswith(('lib.', 'contract.', 'cdd.', 'sympy.'))})
    stubs = sorted({q for n, r in syms for q, u in r['stubs'].items() if u})
    cov = dict(obligations=len(obl), discharged=sum(o[1] == 'proved' for o in obl),
               checker_cmd=f"./check {pid} {tier}", trusted_base=TRUSTED,
               obligations_unbounded=len(unb), obligations_bounded=len(bnd),
               discharged_by_backend=backends, solver_seconds=round(sum(r['solver_time'] for n, r in syms), 1),
               paths=sum(r['paths'] for n, r in syms),
               functions_under_contract=funcs, callee_contracts_used=stubs,
               cases={n: dict(kind=n.split('_')[0], what=docs.get(n, ''), status=r['status'], reason=r['reason'],
                              obligations=len(r['obligations']), discharged=sum(o[1] == 'proved' for o in r['obligations']),
                              paths=r['paths'], wall_s=r['wall']) for n, r in syms},
               undecided=[list(u) for u in undecided],
               evaluations=sum(r['checked'] for n, r in nats), distinct_nontrivial=sum(r['distinct'] for n, r in nats),
               rule="native runs of the same drivers against the imported repository on seeded random inputs (bounded, never counted as proved); "
                    "a run is distinct when its drawn inputs differ from every other run's, and skipped draws are not counted",
               native={n: dict(what=docs.get(n, ''), runs=r['runs'], skipped=r['skips'], evaluations=r['checked'], distinct=r['distinct']) for n, r in nats},
               samples=[dict(case=n, inputs=s) for n, r in nats for s in r['samples'][:1]][:6],
               explanation="obligations are generated by symbolic interpretation of /repo's current source under the contracts in contracts/" + pid.lower() + ".py")
    ass = list(opts.get('assumptions', []))
    for q in stubs: ass.append(f"callee {q} is used through its contract in this property (its own contract is discharged where listed in DESIGN.md)")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ass,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(jsonable(ev), open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)


def replay_file(path):
    d = json.load(open(path))
    def back(v):
        if isinstance(v, str):
            try: return Fraction(v)
            except ValueError: return v
        return v
    if d['kind'] == 'native':
        m = load_native(d['property'])
        if d['index'] < 0: print(d['info']); sys.exit(1)
        st, info, E = native_once(getattr(m, d['case']), random.Random(seed_of(d['seed'], d['case'], d['index'])))
    elif d['kind'] == 'counterexample':
        m = load_native(d['property'])
        vals = {}
        for k, v in d['inputs'].items():
            mt = re.match(r'(.*)\[([\d,]+)\]$', k)
            if mt: vals.setdefault(mt.group(1), {})[mt.group(2)] = back(v)
            else: vals[k] = back(v)
        st, info, E = native_once(getattr(m, d['case']), random.Random(0), vals)
    else:
        print(json.dumps(d, indent=1)); sys.exit(1)
    print(st, info, jsonable(E.trace))
    sys.exit(1 if st == 'fail' else 0)


def prove_one(pid, case, extra):
    _, opts = case_list(pid)
    o = dict(opts.get('*', {})); o.update(opts.get(case, {}))
    o['trace'] = True
    for e in extra:
        k, v = e.split('=')
        if k.startswith('fix.'): o.setdefault('fix', {})[k[4:]] = int(v)
        else: o[k] = float(v)
    r = run_symbolic(pid, case, o)
    for ob in r['obligations']:
        if ob[1] != 'proved' or 'v' in os.environ.get('PYVC_V', ''): print(ob)
    print({k: v for k, v in r.items() if k not in ('obligations',)}, len(r['obligations']))


if __name__ == '__main__':
    main()
