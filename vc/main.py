"""Runner: decides one property on /repo's current tree."""
import glob
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def load_units(prop=None):
    from . import harness
    if prop is not None:
        importlib.import_module('contracts.' + prop.lower())
        return [u for u in harness.UNITS if u.prop == prop]
    for f in sorted(glob.glob(os.path.join(ROOT, 'contracts', 'c[0-9][0-9].py'))):
        importlib.import_module('contracts.' + os.path.basename(f)[:-3])
    return harness.UNITS


# ------------------------------------------------------------------ compiled extensions of the current tree

def ext_src(scratch):
    """source directory whose compiled extensions belong to the current Fortran sources (rebuilt if stale)
    -> (dir, error)"""
    d = os.path.join(REPO, 'src/_ext_src')
    files = ['Makefile'] + sorted(os.path.basename(f) for f in glob.glob(os.path.join(d, '*.f90')))
    h = ''.join('%s  %s\n' % (hashlib.sha256(open(os.path.join(d, f), 'rb').read()).hexdigest(), f) for f in files)
    st = os.path.join(d, '.vp-stamp')
    pk = os.path.join(REPO, 'src/pwtools')
    if os.path.exists(st) and open(st).read().strip() == h.strip() and \
            all(os.path.getsize(os.path.join(pk, s)) if os.path.exists(os.path.join(pk, s)) else 0 for s in ('_flib.so', '_dcd.so')):
        return os.path.join(REPO, 'src'), None
    dst = os.path.join(scratch, 'src')
    shutil.copytree(os.path.join(REPO, 'src'), dst, ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyf', '.vp-stamp'))
    env = dict(os.environ, PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', TMPDIR=scratch)
    p = subprocess.run(['make', '-C', os.path.join(dst, '_ext_src'), 'gfortran-omp', 'ARCH=-march=x86-64-v2'],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=600)
    ok = all(os.path.exists(os.path.join(dst, 'pwtools', s)) for s in ('_flib.so', '_dcd.so'))
    if p.returncode or not ok:
        return os.path.join(REPO, 'src'), 'the Fortran extensions do not build:\n' + p.stdout.decode(errors='replace')[-2000:]
    return dst, None


def known(prop):
    """open findings of this property"""
    f = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if k['property'] == prop and k.get('status') == 'open']


def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import run, harness
    scratch = tempfile.mkdtemp(prefix='vc-%s-' % prop)
    try:
        return _check(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, tier, seed, t0, scratch):
    from . import run, harness
    units = load_units(prop)
    if not units:
        print('no contracts for', prop)
        return 2
    thorough = tier == 'thorough'
    nproc = min(8, os.cpu_count() or 4)
    src, err = ext_src(scratch)
    os.environ['VC_REAL_SRC'] = src
    os.environ['VC_SCRATCH'] = scratch
    proofs = [u for u in units if u.mode == 'proof']
    bmul = 30 if thorough else 4
    tb = 300 if thorough else 40
    tasks = []
    for u in sorted(proofs, key=lambda u: -u.budget):
        bud = u.budget * (3 if thorough else 1)
        for j, fix in enumerate(run.forks(u)):
            tasks.append((('P', u.id, j), run.prove_unit, (u, bud, False, True, fix), bud + 60))
    for u in units:
        tasks.append((('B', u.id), run.bounded_unit, (u, seed, u.n * bmul, u.tmax * (4 if thorough else 1) if u.tmax else tb), (u.tmax or 0) * 4 + tb + 120))
    tasks.sort(key=lambda t: 0 if t[0][0] == 'P' and t[3] > 200 else 1)
    res = run.pool(tasks, nproc)
    # --- replay of counterexamples, and more inputs where the proof is not there
    tasks = []
    P, B = {}, {}
    for u in proofs:
        r = run.merge(u, [res[('P', u.id, j)] for j in range(len(run.forks(u)))])
        P[u.id] = r
    bl = os.path.join(ROOT, 'proved.json')
    baseline = json.load(open(bl)) if os.path.exists(bl) else []
    # discharged on the committed tree, not now, and no exact counterexample: once more, with nothing else running
    again = [u for u in proofs if u.id in baseline and P[u.id]['status'] != 'proved' and not any(c.get('exact') for c in P[u.id]['cex'])
             and not str(P[u.id]['error'] or '').startswith('outside') and P[u.id]['wall_s'] < 150]
    for u in again[:3]:
        fs = run.forks(u)
        bad = [j for j in range(len(fs)) if res[('P', u.id, j)].get('status') != 'proved']
        r2 = run.pool([((j,), run.prove_unit, (u, u.budget, False, True, fs[j]), u.budget + 60) for j in bad], min(4, nproc))
        for j in bad:
            if r2[(j,)].get('status') == 'proved':
                res[('P', u.id, j)] = r2[(j,)]
        P[u.id] = run.merge(u, [res[('P', u.id, j)] for j in range(len(fs))])
    for u in units:
        b = res[('B', u.id)]
        if 'crash' in b:
            b = dict(unit=u.id, evals=0, distinct=0, rejected=0, checks=0, samples=[], violation=None, replayed=0, crash=b['crash'], wall_s=0.0)
        B[u.id] = b
        p = P.get(u.id)
        if p and p['status'] != 'proved' and b['violation'] is None:
            tasks.append((('R', u.id), run.bounded_unit, (u, seed + 1000, u.n * bmul * 8, tb * 2, p['cex']), tb * 2 + 120))
    res2 = run.pool(tasks, nproc) if tasks else {}
    viol = []
    for u in units:
        b, p = B[u.id], P.get(u.id)
        v = b['violation']
        extra = res2.get(('R', u.id))
        if extra is not None and 'crash' not in extra:
            b['evals'] += extra['evals']
            b['checks'] += extra['checks']
            b['distinct'] += extra['distinct']
            b['replayed'] += extra['replayed']
            v = v or extra['violation']
        failed = [{'obligation': n, 'answer': s, 'note': t} for n, s, t in p['items']] if p else []
        if v is not None:
            v['property'] = prop
            v['failed_obligations'] = failed
            viol.append((u, v, False))
        elif p and any(c.get('exact') for c in p['cex']):
            c = [c for c in p['cex'] if c.get('exact')][0]
            viol.append((u, {'property': prop, 'unit': u.id, 'obligation': c['obligation'], 'how': 'obligation refuted by the solver; its model did not fail on the real code',
                             'inputs': (c['inputs'] or [None])[0], 'verifier_output': {'goal': c['goal'], 'path': c['pc']}, 'failed_obligations': failed}, True))
        elif p and p['status'] == 'refuted' and u.id in baseline:
            # discharged on the committed tree, refuted now (in the verifier's theory: sums, loops and models are abstract there)
            c = [c for c in p['cex'] if not c.get('guess')][0]
            viol.append((u, {'property': prop, 'unit': u.id, 'obligation': c['obligation'], 'how': 'obligation no longer discharged: refuted by the solver '
                             'over its abstractions; no failing input found', 'verifier_output': {'goal': c['goal'], 'path': c['pc']},
                             'inputs': (c['inputs'] or [None])[0], 'failed_obligations': failed}, True))
    # known findings
    kn = known(prop)
    rc = 0
    for u, v, nofail in list(viol):
        k = [k for k in kn if k['unit'] == v['unit'] and k.get('obligation', v['obligation']) == v['obligation'] and k.get('match', '') in json.dumps(v.get('detail', ''))]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
            continue
        rp = os.path.join(ROOT, 'replays')
        os.makedirs(rp, exist_ok=True)
        f = os.path.join(rp, '%s.json' % v['unit'].replace('/', '_'))
        v['repo_head'] = REPO
        v['replay_cmd'] = 'bin/replay %s' % os.path.relpath(f, ROOT)
        json.dump(v, open(f, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s%s' % (prop, f, ' no-failing-input-found' if nofail else ''))
        print('  unit %s, obligation %s: %s' % (v['unit'], v['obligation'], str(v.get('detail', v['how']))[:600]))
        rc = 1
    und = [u for u in P if P[u]['status'] != 'proved' and not any(v['unit'] == u for _, v, _ in viol)]
    for u in und:
        print('UNDECIDED unit %s: %s %s' % (u, P[u]['error'] or '', [i for i in P[u]['items'][:3]]))
    for u in units:
        if B[u.id].get('crash'):
            print('NOTE bounded run of %s: %s' % (u.id, B[u.id]['crash']))
    if err:
        print('NOTE', err)
    write_evidence(prop, tier, seed, units, P, B, und, rc, [v for _, v, _ in viol], time.time() - t0, thorough)
    print('%s %s: %d/%d obligations discharged in %d/%d proof units, %d inputs on the real code, %.0fs' % (
        prop, tier, sum(p['discharged'] for p in P.values()), sum(p['obligations'] for p in P.values()),
        sum(p['status'] == 'proved' for p in P.values()), len(P), sum(b['evals'] for b in B.values()), time.time() - t0))
    return rc


ASSUMPTIONS = [
    'floating point is treated as real arithmetic, machine integers as mathematical integers',
    'numpy/scipy/Python library functions behave as their models in vc/npf.py, vc/arr.py (listed as models used); they are '
    'cross-checked on concrete inputs only',
    'the Python interpreter executes the translated source (vc/loader.py: loops and comprehensions over symbolic ranges are '
    'replaced by loop objects, nothing else is dropped except docstring decorators)',
    'termination is not shown; division by zero and NaN are outside the obligations unless a contract says otherwise',
]


def write_evidence(prop, tier, seed, units, P, B, und, rc, viol, wall, thorough):
    man = {}
    f = os.path.join(ROOT, 'MANIFEST.json')
    if os.path.exists(f):
        for c in json.load(open(f))['checks']:
            man[c['property']] = c
    level = man.get(prop, {}).get('level', 'proof')
    back = {}
    for p in P.values():
        for k, v in p['backends'].items():
            back[k] = back.get(k, 0) + v
    samples = []
    for u in units:
        for s in B[u.id]['samples'][:1]:
            samples.append({'unit': u.id, 'input': s})
    models = sorted({m for p in P.values() for m in p.get('models', [])})
    trusted = ['own verification-condition generator /verif/vc (symbolic execution of the real source)', 'z3 5.x, cvc5, polynomial normal form (vc/prover.py)']
    trusted += ['model of ' + m for m in models]
    trusted += ['trusted: ' + t for u in units for t in u.trusted]
    cov = {
        'obligations': sum(p['obligations'] for p in P.values()),
        'discharged': sum(p['discharged'] for p in P.values()),
        'discharged_by': back,
        'solver_seconds': round(sum(p['solver_s'] for p in P.values()), 2),
        'checker_cmd': 'bin/check %s %s' % (prop, tier),
        'trusted_base': trusted,
        'functions_under_contract': sorted({f for u in units if u.mode == 'proof' for f in list(u.functions) + P[u.id]['functions']}),
        'functions_bounded_only': sorted({f for u in units if u.mode != 'proof' for f in u.functions} -
                                         {f for u in units if u.mode == 'proof' for f in u.functions}),
        'units_proved': sorted(k for k, p in P.items() if p['status'] == 'proved'),
        'units_undecided': {k: P[k]['error'] or [i[0] for i in P[k]['items']][:8] for k in P if P[k]['status'] != 'proved'},
        'units_bounded': {u.id: (u.why or 'bounded stand-in') for u in units if u.mode != 'proof'},
        'loop_invariants_found': sorted({i for p in P.values() for i in p.get('invariants', [])})[:60],
        'evaluations': sum(b['evals'] + b['replayed'] for b in B.values()),
        'distinct_nontrivial': sum(b['distinct'] for b in B.values()),
        'rule': 'inputs drawn per contract by a seeded generator satisfying its preconditions (rejected draws are not counted), run '
                'through the real package; distinct = different input values; every one evaluates at least one postcondition',
        'postconditions_evaluated': sum(b['checks'] for b in B.values()),
        'samples': samples[:12] or ['none'],
        'explanation': 'proof units: every obligation generated from the current source is discharged for all inputs; the same '
                       'contracts are evaluated on the real package for seeded inputs (bounded, never counted as proved)',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUMPTIONS + sorted({a for u in units for a in getattr(u, 'assume', [])}),
          'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)


def replay(f):
    import random
    from . import run, harness
    v = json.load(open(f))
    units = load_units(v['property'])
    u = [u for u in units if u.id == v['unit']][0]
    scratch = tempfile.mkdtemp(prefix='vc-replay-')
    try:
        os.environ['VC_SCRATCH'] = scratch
        os.environ['VC_REAL_SRC'], _ = ext_src(scratch)
        sys.path.insert(0, run.real_src())
        if v.get('seed_key'):
            r = run.run_once(u, random.Random(v['seed_key']), lits=v.get('lits'))
        else:
            r = run.run_once(u, random.Random(0), v['inputs'])
        print(r[0], r[2:] if len(r) > 2 else '')
        return 1 if r[0] == 'viol' else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.dont_write_bytecode = True
    sys.path.insert(0, ROOT)
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1]))
