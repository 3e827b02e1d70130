"""developer: time and result of every fork of a unit"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
from vc import run, harness
import importlib
importlib.import_module('contracts.' + sys.argv[1])
for u in harness.UNITS:
    if sys.argv[2] in u.name:
        F = run.forks(u)
        res = run.pool([((j,), run.prove_unit, (u, float(os.environ.get("BUD", u.budget)), 0, True, f), 3000) for j, f in enumerate(F)], 8)
        for j, f in enumerate(F):
            r = res[(j,)]
            print(u.name, f, r['status'], r['discharged'], r['obligations'], 'paths', r['paths'], '%.1f' % r['wall_s'], r['error'], r['items'][:2])
