#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property (from the contracts) + planted bugs + findings"""
import glob, importlib, json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
exec(open(os.path.join(ROOT, 'tools/levels.py')).read())
exec(open(os.path.join(ROOT, 'tools/design_notes.py')).read())
props = {p['id']: p for p in map(json.loads, open(os.path.join(ROOT, 'properties.jsonl')))}
proved = set(json.load(open(os.path.join(ROOT, 'proved.json'))))
from vc import harness
out = [open(os.path.join(ROOT, 'tools/design_head.md')).read(), '\n## 4. Properties\n']
for i in sorted(props):
    harness.UNITS.clear()
    importlib.import_module('contracts.' + i.lower())
    us = [u for u in harness.UNITS if u.prop == i]
    out.append('### %s  %s\n' % (i, props[i]['title']))
    out.append('Level: **%s**. %s\n' % (LEVEL[i][0], ' '.join(LEVEL[i][1].replace(T, '').split())))
    if i in NOTE:
        out.append(' '.join(NOTE[i].split()) + '\n')
    for u in us:
        doc = ' '.join((u.fn.__doc__ or '').split())
        if u.mode == 'proof':
            k = 'proof' if u.id in proved else 'proof (undecided now, bounded evaluation)'
        else:
            k = 'bounded (%s)' % (u.why or 'stand-in')
        a = '; assumes: ' + '; '.join(u.assume) if getattr(u, 'assume', None) else ''
        out.append('* `%s` — %s; %s. %s%s' % (u.id.split('.')[1], k, ', '.join(u.functions), doc[:1].upper() + doc[1:], a))
    out.append('')
st = os.path.join(ROOT, 'tools/plants_status.json')
st = json.load(open(st)) if os.path.exists(st) else {}
out.append('## 5. Planted bugs (`seeded/`) and what reports them\n\n| bug | needs | reported by | how |\n|---|---|---|---|')
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    r = st.get(d, ['not run', ''])
    out.append('| %s | %s | %s | %s |' % (d, m['needs'], r[0], r[1]))
out.append('\n## 6. Findings on the original tree\n')
for k in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']:
    out.append('* %s' % (k['what'] if k['status'] == 'fixed' else 'OPEN, property=%s: %s' % (k['property'], k['what'])))
out.append(open(os.path.join(ROOT, 'tools/design_tail.md')).read())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
