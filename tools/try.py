"""developer driver: tools/try.py MODULE [unit substring]; env V NOPROOF NOB BUD N"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
from vc import run, harness
import importlib, time
mod = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else ''
v = int(os.environ.get('V', '1'))
importlib.import_module('contracts.' + mod)
E_ = os.environ.get
def P(u, fix):
    return run.prove_unit(u, verbose=v, budget=float(E_('BUD', u.budget)), fix=fix)
def B(u):
    return run.bounded_unit(u, int(E_('SEED', 1)), int(E_('N', u.n)), tmax=u.tmax or 60)
us = [u for u in harness.UNITS if pat in u.name and u.prop.lower() == sys.argv[1]]
par = E_('PAR')
if par:
    v = 0
    tasks = []
    for u in us:
        if u.mode == 'proof' and not E_('NOPROOF'):
            for j, f in enumerate(run.forks(u)):
                tasks.append((('P', u.id, j), P, (u, f), 3000))
        if not E_('NOB'):
            tasks.append((('B', u.id), B, (u,), 3000))
    res = run.pool(tasks, 7)
for u in us:
    print('==', u.id)
    if u.mode == 'proof' and not E_('NOPROOF'):
        r = run.merge(u, [res[('P', u.id, j)] if par else P(u, f) for j, f in enumerate(run.forks(u))])
        print('  PROOF', r['status'], r['discharged'], '/', r['obligations'], r['backends'], 'paths', r['paths'], '%.1fs' % r['wall_s'], r['error'], [i for i in r['items']][:5])
    if not E_('NOB'):
        b = res[('B', u.id)] if par else B(u)
        if 'crash' in b:
            print('  BOUNDED', b)
        else:
            print('  BOUNDED', b['evals'], b['rejected'], b['checks'], '%.1fs' % b.get('wall_s', 0), b['violation'])
