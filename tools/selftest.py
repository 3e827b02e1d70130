#!/bin/sh
''''exec /opt/venv/bin/python "$0" "$@" # '''
"""compares the library models (proof) and the library (bounded) with the same formulas: contracts/models.py"""
import os, sys, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.update(PAR='1', N=os.environ.get('N', '400'))
p = subprocess.run(['/opt/venv/bin/python', root + '/tools/try.py', 'models'] + sys.argv[1:], stdout=subprocess.PIPE, text=True)
print(p.stdout)
bad = [l for l in p.stdout.splitlines() if ('PROOF' in l and 'proved' not in l) or ('BOUNDED' in l and not l.rstrip().endswith('None'))]
print('%d model contracts not confirmed' % len(bad))
sys.exit(bool(bad))
