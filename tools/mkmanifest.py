#!/usr/bin/env python3
"""Writes MANIFEST.json from the contracts present, LEVEL below and properties.jsonl."""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, 'tools/levels.py')).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
have = {os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(ROOT, 'contracts/c[0-9][0-9].py'))}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i in LEVEL:
        lv, note = LEVEL[i]
        tech = {'proof': 'contracts on the real functions, verification conditions from the source, z3/cvc5/polynomial prover',
                'other': 'contracts on the real functions: core discharged deductively (z3/cvc5/polynomial prover), the rest of the functions bounded',
                'exploration': 'contracts on the real functions evaluated on generated inputs (bounded stand-in)'}[lv]
        checks.append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=tech, level=lv, level_note=' '.join(note.split())))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no contract built for it yet')))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         hooks=None, notes='See DESIGN.md. No hooks in /repo are needed.')
del m['hooks']
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
