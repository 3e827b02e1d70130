"""Runs the units of a property: proof, counterexample replay, bounded stand-in; writes the evidence."""
import re, sys, os, time, json, random, traceback, multiprocessing as mp, signal, hashlib, subprocess, warnings, math
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_paths():
    p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if p not in sys.path:
        sys.path.append(p)


setup_paths()
import numpy as np
import z3
from . import core, arr, seq, npf, prover, loader, harness, loops
from .core import Sym, Unsupported, R, I, B, U, Fraction
from .harness import SymG, RealG, Reject, Violated

REPO = os.environ.get('VERIF_REPO', '/repo')


def real_src():
    return os.environ.get('VC_REAL_SRC', REPO + '/src')


# ------------------------------------------------------------------ models -> concrete inputs

def _num(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return 0.0


def model_inputs(m, inputs, maxdim=64):
    out = {}
    for name, (k, p) in inputs.items():
        try:
            if k in ('real', 'int', 'bool'):
                out[name] = _num(m, p)
            elif k == 'array':
                kind, shape, f = p
                if isinstance(f, dict):
                    a = np.zeros(shape, dtype=object)
                    for ix, e in f.items():
                        a[ix] = _num(m, e)
                else:
                    sh = [core.conc_(s) if not isinstance(s, Sym) else int(_num(m, s.e)) for s in shape]
                    if any(s < 0 or s > maxdim for s in sh) or np.prod(sh) > 20000:
                        continue
                    a = np.zeros(sh, dtype=object)
                    for ix in np.ndindex(*sh):
                        a[ix] = _num(m, f(*[z3.IntVal(i) for i in ix]))
                out[name] = a.tolist()
            elif k == 'labels':
                n, f, alphabet = p
                if isinstance(f, list):
                    vals = [str(m.eval(e, model_completion=True)) for e in f]
                else:
                    nn = int(_num(m, n.e if isinstance(n, Sym) else z3.IntVal(n)))
                    if nn > 200:
                        continue
                    vals = [str(m.eval(f(z3.IntVal(i)), model_completion=True)) for i in range(nn)]
                known = {}
                for s, c in core._obj_consts.items():
                    known[str(m.eval(c, model_completion=True))] = s
                free = [a for a in alphabet if a not in known.values()] or ['X%d' % i for i in range(50)]
                mapped = []
                for v in vals:
                    if v not in known:
                        known[v] = free.pop(0) if free else 'Y%d' % len(known)
                    mapped.append(known[v])
                out[name] = mapped
        except Exception:
            continue
    return out


core.conc_ = lambda s: int(s)


def small_model(pc, goal, inputs, timeout=3000):
    """counter models with small extents first"""
    dims = []
    for name, (k, p) in inputs.items():
        if k == 'int':
            dims.append(p)
    es = prover.abstract_sums(list(pc) + [z3.Not(goal)])
    ax = prover.axioms(es)
    for bound in (3, 6, 12, 40, None):
        s = z3.Solver()
        s.set('timeout', timeout)
        for e in es:
            s.add(e)
        for a in ax:
            s.add(a)
        for a in core.obj_facts():
            s.add(a)
        if bound is not None:
            for d in dims:
                s.add(d <= bound, d >= -bound)
        # tame values
        if bound is not None:
            for name, (k, p) in inputs.items():
                if k == 'real':
                    s.add(p <= 50, p >= -50)
        if s.check() == z3.sat:
            yield s.model()


# ------------------------------------------------------------------ proof of one unit

def _msg(e):
    try:
        return str(e)
    except Unsupported:
        return 'message with symbolic values'


def prove_unit(u, budget=None, verbose=False, stop_on_fail=True, fix=None):
    t0 = time.time()
    budget = budget or u.budget
    deadline = t0 + budget
    res = {'unit': u.id, 'obligations': 0, 'discharged': 0, 'backends': {}, 'solver_s': 0.0, 'paths': 0, 'items': [],
           'functions': [], 'status': 'proved', 'cex': [], 'error': None, 'cut': 0}
    sys.setrecursionlimit(20000)
    loader.setup_external()
    npf.USED.clear()
    loops.INVARIANTS.clear()
    used = set()
    try:
        world = loader.World()

        def body(c):
            nonlocal world
            if u.fresh:
                world = loader.World()
            g = SymG(c, world, u, fix)
            c.g = g
            if u.stubs:
                st = u.stubs(g)
                for k, v in st.items():
                    world.stubs[k] = v
                    world.mods.pop(k, None)
            u.fn(g)
            return g
        for c, out, val in core.explore(body, maxpaths=u.maxpaths, deadline=deadline):
            if hasattr(c, 'g'):
                used |= c.g.used
            if out == 'cut':
                res['cut'] += 1
                continue
            res['paths'] += 1
            obs = c.obligations
            if out == 'raise':
                tb = traceback.extract_tb(val.__traceback__)
                last = [f for f in tb][-1]
                eng = '/vc/' in last.filename
                if eng and not (last.line or '').lstrip().startswith('raise ') or isinstance(val, AttributeError) and last.filename.endswith('npf.py') or isinstance(val, IndexError) and 'only integers, slices' in str(val) or isinstance(val, (TypeError, AttributeError)) and re.search(r"\bSym|\bLazy|\bIdxSet", str(val)):
                    # an operation the engine does not model, not an exception of the program
                    res['status'] = 'undecided' if res['status'] == 'proved' else res['status']
                    res['error'] = 'outside the subset: %s: %s at %s:%d' % (type(val).__name__, _msg(val)[:120], os.path.basename(last.filename), last.lineno)
                    if verbose:
                        traceback.print_exception(type(val), val, val.__traceback__)
                else:
                    ob = core.Obligation('no-exception(%s: %s at %s:%d)' % (type(val).__name__, _msg(val)[:120], os.path.basename(last.filename), last.lineno),
                                         list(c.pc), z3.BoolVal(False))
                    ob.note = 'engine' if eng else ''
                    if c.ghost.get('raised-in-loop'):
                        ob.note += 'loop'
                    if verbose:
                        traceback.print_exception(type(val), val, val.__traceback__)
                    obs = obs + [ob]
            for ob in obs:
                res['obligations'] += 1
                if time.time() > deadline:
                    res['status'] = 'undecided' if res['status'] == 'proved' else res['status']
                    res['error'] = 'time budget'
                    res['items'].append((ob.name, 'unknown', ''))
                    continue
                t1 = time.time()
                r = prover.prove(ob.pc, ob.goal, timeout=u.timeout, depth=u.split, t_end=deadline)
                dt = time.time() - t1
                res['solver_s'] += dt
                if verbose:
                    print('   %-40s %-9s %-8s %.2fs' % (ob.name[:90], r.status, r.backend, dt), r.note[:60])
                    if r.status != 'proved' and verbose > 1:
                        print('     pc:', [str(z3.simplify(e))[:300] for e in ob.pc])
                        print('     goal:', str(ob.goal)[:1500])
                if r.status == 'proved' and 'loop' in ob.note:
                    raise Unsupported('exception on an infeasible path of a loop body')
                if r.status == 'proved':
                    res['discharged'] += 1
                    res['backends'][r.backend] = res['backends'].get(r.backend, 0) + 1
                else:
                    exact = bool(r.status == 'refuted' and r.exact and 'engine' not in ob.note and not c.ghost.get('inexact'))
                    if exact:
                        # differences of rounding size between float constants are not refutations
                        wg = prover.weaken(ob.goal)
                        if not z3.eq(wg, ob.goal):
                            rw = prover.prove(ob.pc, wg, timeout=u.timeout, depth=u.split, t_end=deadline)
                            exact = bool(rw.status == 'refuted' and rw.exact)
                            if rw.status == 'proved':
                                res['discharged'] += 1
                                res['rounded'] = res.get('rounded', 0) + 1
                                res['backends'][rw.backend] = res['backends'].get(rw.backend, 0) + 1
                                continue
                    res['items'].append((ob.name, r.status + ('!' if exact else ''), r.note))
                    if r.status == 'refuted':
                        cands = []
                        try:
                            if r.model is not None:
                                for m in small_model(ob.pc, ob.goal, c.inputs):
                                    cands.append(model_inputs(m, c.inputs))
                                    if len(cands) >= 2:
                                        break
                                cands.append(model_inputs(r.model, c.inputs))
                        except Exception as ex:
                            if verbose:
                                print('model:', ex)
                        res['cex'].append({'obligation': ob.name, 'exact': exact, 'inputs': cands, 'dims': c.ghost.get('dims', []),
                                           'literals': int_literals(ob.pc[-30:] + [ob.goal]), 'goal': str(z3.simplify(ob.goal))[:2000],
                                           'pc': [str(z3.simplify(e))[:400] for e in ob.pc][:40]})
                        res['status'] = 'refuted'
                        if verbose > 1:
                            print('     model:', cands[:1])
                    elif res['status'] == 'proved':
                        res['status'] = 'undecided'
                        # a last resort counterexample guess: discrete part of a model of the path
                        try:
                            s = z3.Solver()
                            s.set('timeout', 1000)
                            es = prover.abstract_sums(list(ob.pc))
                            s.add(*es)
                            if s.check() == z3.sat:
                                res['cex'].append({'obligation': ob.name, 'exact': False, 'guess': True, 'dims': c.ghost.get('dims', []),
                                                   'literals': int_literals(ob.pc[-30:] + [ob.goal]),
                                                   'inputs': [model_inputs(s.model(), c.inputs)]})
                        except Exception:
                            pass
                    if stop_on_fail and len(res['cex']) >= 6:
                        break
            if stop_on_fail and len(res['cex']) >= 6:
                break
        if res['paths'] == 0 or res['obligations'] == 0:
            if res['status'] == 'proved':
                res['status'] = 'undecided'
                res['error'] = 'vacuous: %d paths, %d obligations' % (res['paths'], res['obligations'])
    except Unsupported as ex:
        if res['status'] == 'proved':
            res['status'] = 'undecided'
        res['error'] = 'outside the subset: %s' % ex
        if verbose:
            traceback.print_exc()
    except MemoryError:
        res['status'] = 'undecided'
        res['error'] = 'memory'
    except Exception as ex:
        if res['status'] == 'proved':
            res['status'] = 'undecided'
        res['error'] = 'verifier error: %s: %s' % (type(ex).__name__, ex)
        if verbose:
            traceback.print_exc()
    res['functions'] = sorted(used)
    res['models'] = sorted(npf.USED)
    res['invariants'] = [u.id + ' ' + re.sub(r'[0-9]{9,}', 'array', i) for i in loops.INVARIANTS]
    res['wall_s'] = time.time() - t0
    return res


def int_literals(es, lo=6, hi=100000, cap=4000):
    """integers that occur in the failed obligation: candidates for extents at which it fails"""
    seen, out, todo = set(), set(), list(es)
    while todo and len(seen) < cap:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        v = core.numval(e) if z3.is_app(e) else None
        if v is not None:
            if v.denominator == 1 and lo <= abs(v) <= hi:
                out.add(int(abs(v)))
        elif z3.is_quantifier(e):
            todo.append(e.body())
        else:
            todo.extend(e.children())
    return sorted(out)[:6]


def forks(u):
    import itertools
    if not u.fork:
        return [{}]
    return [dict(zip(u.fork, t)) for t in itertools.product(*[range(n) for n in u.fork.values()])]


def merge(u, rs):
    """results of the forks of one unit"""
    out = None
    for r in rs:
        if 'crash' in r:
            r = dict(unit=u.id, status='undecided', error=r['crash'], obligations=0, discharged=0, backends={}, solver_s=0.0,
                     items=[], functions=list(u.functions), cex=[], models=[], paths=0, cut=0, wall_s=0.0, invariants=[])
        if out is None:
            out = r
            continue
        for k in ('obligations', 'discharged', 'solver_s', 'paths', 'cut'):
            out[k] += r[k]
        for k in ('items', 'cex'):
            out[k] += r[k]
        for k in ('functions', 'models', 'invariants'):
            out[k] = sorted(set(out.get(k, [])) | set(r.get(k, [])))
        for k, v in r['backends'].items():
            out['backends'][k] = out['backends'].get(k, 0) + v
        out['error'] = out['error'] or r['error']
        out['wall_s'] = max(out['wall_s'], r['wall_s'])
        o = ['proved', 'undecided', 'refuted']
        out['status'] = o[max(o.index(out['status']), o.index(r['status']))]
    return out


# ------------------------------------------------------------------ concrete runs

def source_literals():
    """module -> function -> numeric literals (|x| > 5 or not an integer) of the current source"""
    import ast
    out = {}
    d = os.path.join(REPO, 'src/pwtools')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py'):
            continue
        try:
            tree = ast.parse(open(os.path.join(d, f)).read())
        except SyntaxError:
            continue
        mod = {}

        def walk(node, name):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                    walk(ch, name + '.' + ch.name if name else ch.name)
                else:
                    if isinstance(ch, ast.Constant) and isinstance(ch.value, (int, float)) and not isinstance(ch.value, bool):
                        v = ch.value
                        if abs(v) > 5 or v != int(v):
                            mod.setdefault(name, set()).add(v)
                    walk(ch, name)
        walk(tree, '')
        out[f[:-3]] = {k: sorted(v) for k, v in mod.items()}
    return out


def new_literals(u):
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'literals.json')
    if not os.path.exists(f):
        return None
    base, cur = json.load(open(f)), source_literals()
    out = set()
    for mod in {q.split('.')[0] for q in u.functions}:
        b = base.get(mod, {})
        everything = {x for v in b.values() for x in v}
        for fn, v in cur.get(mod, {}).items():
            out |= set(v) - set(b.get(fn, everything))
    return sorted(out, key=abs)[:12] or None


def run_once(u, rnd, model=None, real=None, lits=None):
    """-> ('ok', g) | ('reject', g) | ('viol', g, name, detail)"""
    g = RealG(real, rnd, model, u)
    g.lits = lits
    g.eng = False
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            u.fn(g)
        return ('ok', g)
    except Reject:
        return ('reject', g)
    except Violated as v:
        return ('viol', g, v.name, v.detail)
    except (KeyboardInterrupt, SystemExit):
        raise
    except Unsupported as ex:
        return ('reject', g)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        return ('viol', g, 'no-exception', '%s: %s\n%s' % (type(ex).__name__, ex, ''.join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-4:])))
    finally:
        try:
            g.done()
        except Exception:
            pass


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:200]


def bounded_unit(u, seed, n, tmax=40, cex=()):
    """replays first, then n seeded inputs"""
    t0 = time.time()
    src = real_src()
    if src not in sys.path:
        sys.path.insert(0, src)
    out = {'unit': u.id, 'evals': 0, 'distinct': 0, 'rejected': 0, 'checks': 0, 'samples': [], 'violation': None, 'replayed': 0}
    seen = set()

    def result(r, how):
        if r[0] == 'viol':
            out['violation'] = {'unit': u.id, 'obligation': r[2], 'detail': r[3], 'how': how, 'inputs': jsonable(r[1].inputs)}
            return True
        return False
    for q in cex:
        for m in q['inputs']:
            out['replayed'] += 1
            r = run_once(u, random.Random(seed), m)
            if result(r, 'counterexample of obligation %s replayed' % q['obligation']):
                return out
        for m in q['inputs'][:2]:
            disc = {k: v for k, v in m.items() if _discrete(v)}
            for j in range(12):
                rn = random.Random('%s/%s/%d' % (seed, u.id, j))
                # keep the discrete part, perturb or redraw the rest
                mm = dict(disc)
                if j % 3 == 0:
                    for k, v in m.items():
                        if k not in mm and rn.random() < 0.5:
                            mm[k] = v
                r = run_once(u, rn, mm)
                out['replayed'] += 1
                if result(r, 'counterexample of obligation %s, real-valued part redrawn' % q['obligation']):
                    return out
    done = set()
    for q in cex:
        # extents around the integers of the failed obligation
        for m in q['inputs'][:1]:
            disc = {k: v for k, v in m.items() if _discrete(v) and k not in q.get('dims', [])}
            for c in q.get('literals', []):
                for ds in [[d] for d in q.get('dims', [])] + ([q['dims']] if len(q.get('dims', [])) > 1 else []):
                    for v in (c + 1, c, c - 1, 2 * c + 1):
                        key = (v, tuple(ds), json.dumps(disc, sort_keys=True, default=str))
                        if key in done or time.time() - t0 > tmax / 2:
                            continue
                        done.add(key)
                        r = run_once(u, random.Random('%s/%s/%s' % (seed, u.id, v)), dict(disc, **{d: v for d in ds}))
                        out['replayed'] += 1
                        if result(r, 'extents near the bound in obligation %s' % q['obligation']):
                            return out
    lits = new_literals(u)
    k = 0
    while out['evals'] < n and k < n * 30 and time.time() - t0 < tmax:
        key = '%s:%s:%d' % (seed, u.id, k)
        rnd = random.Random(key)
        k += 1
        # every third input draws extents and values at literals that the committed source did not have
        use = lits if lits and k % 3 == 0 else None
        r = run_once(u, rnd, lits=use)
        if r[0] == 'reject':
            out['rejected'] += 1
            continue
        out['evals'] += 1
        out['checks'] += r[1].checks
        h = hashlib.md5(json.dumps(jsonable(r[1].inputs), sort_keys=True, default=str).encode()).hexdigest()
        if h not in seen:
            seen.add(h)
            if len(out['samples']) < 2:
                out['samples'].append({kk: _clip(jsonable(vv)) for kk, vv in r[1].inputs.items()})
        if result(r, 'seeded input'):
            out['violation']['seed_key'] = key
            out['violation']['lits'] = use
            break
    out['distinct'] = len(seen)
    out['wall_s'] = time.time() - t0
    return out


def _clip(x):
    s = json.dumps(x, default=str)
    return x if len(s) < 400 else s[:400] + '...'


def _discrete(v):
    if isinstance(v, (bool, int, str)):
        return True
    if isinstance(v, list) and v:
        return _discrete(v[0])
    return False


# ------------------------------------------------------------------ processes

def _child(q, fn, a, mem):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception:
        pass
    os.environ.setdefault('OMP_NUM_THREADS', '2')
    dn = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('VC_DEBUG'):
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    try:
        r = fn(*a)
    except BaseException as ex:
        r = {'crash': '%s: %s' % (type(ex).__name__, ex), 'tb': traceback.format_exc()}
    try:
        q.send(r)
    except Exception as ex:
        q.send({'crash': 'send: %s' % ex})
    q.close()
    os._exit(0)


def pool(tasks, nproc=7):
    """tasks: list of (key, fn, args, tmax) -> {key: result or {'crash':..}}"""
    mpc = mp.get_context('fork')
    todo = list(tasks)
    running = {}
    out = {}
    while todo or running:
        while todo and len(running) < nproc:
            key, fn, a, tmax = todo.pop(0)
            r, w = mpc.Pipe(duplex=False)
            p = mpc.Process(target=_child, args=(w, fn, a, 6 << 30))
            p.start()
            w.close()
            running[key] = (p, r, time.time() + tmax)
        for key in list(running):
            p, r, end = running[key]
            got = False
            try:
                if r.poll(0):
                    out[key] = r.recv()
                    got = True
            except (EOFError, OSError):
                out[key] = {'crash': 'process died (exit %s)' % p.exitcode}
                got = True
            if not got and time.time() > end:
                out[key] = {'crash': 'timeout'}
                got = True
            if got:
                if p.is_alive():
                    p.join(0.5)
                    if p.is_alive():
                        p.kill()
                p.join()
                r.close()
                del running[key]
        time.sleep(0.01)
    return out
