#!/usr/bin/env python3
"""plant.py SPEC.py [ID]: turns the planted changes described in SPEC.py into seeded/<id>/ after confirming each in a
scratch copy of /repo: patch applies, builds, the stable tests pass, demo passes without and fails with the change.

SPEC.py defines PLANTS = [dict(id, property, file, edits=[(old, new), ..], needs, breaks, demo)]
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
export PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=3 OPENBLAS_NUM_THREADS=1
work=$(mktemp -d) || exit 9
export TMPDIR=$work
trap 'rm -rf "$work"' EXIT
timeout 200 /opt/venv/bin/python "$(realpath "$(dirname "$0")")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    for p in ns['PLANTS']:
        if only and p['id'] not in only or not only and os.path.exists(os.path.join(OUT, p['id'], 'meta.json')):
            continue
        w = tempfile.mkdtemp(prefix='plant-')
        try:
            sh('cp -a /repo %s/repo' % w)
            r = w + '/repo'
            for e in p['edits']:
                f, old, new = e if len(e) == 3 else (p['file'],) + e
                t = open(os.path.join(r, f)).read()
                if t.count(old) != 1:
                    raise ValueError((f, old, t.count(old)))
                open(os.path.join(r, f), 'w').write(t.replace(old, new))
            d = os.path.join(OUT, p['id'])
            tmp = w + '/out'
            os.makedirs(tmp)
            diff = sh('git -C %s diff' % r).stdout
            open(tmp + '/patch.diff', 'w').write(diff)
            open(tmp + '/demo.sh', 'w').write(DEMO)
            open(tmp + '/demo.py', 'w').write(p['demo'].lstrip('\n'))
            json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
            if '.f90' in diff:
                b = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/build.sh; sed -i 's#/opt/vp/env.sh#%s/env.sh#' %s/build.sh;"
                       "sed 's#/repo#%s#g' /opt/vp/env.sh > %s/env.sh; bash %s/build.sh" % (r, w, w, w, r, w, w))
                if b.returncode:
                    print(p['id'], 'BUILD FAILED', b.stdout[-800:])
                    continue
            a = sh('bash %s/demo.sh' % tmp, cwd='/repo')
            b = sh('bash %s/demo.sh' % tmp, cwd=r)
            if a.returncode or not b.returncode:
                print(p['id'], 'DEMO clean rc=%d patched rc=%d' % (a.returncode, b.returncode), a.stdout[-600:], b.stdout[-600:])
                continue
            sh("sed 's#/repo#%s#g; s#/opt/vp/env.sh#%s/env.sh#' /opt/vp/test.sh > %s/test.sh; sed 's#/repo#%s#g' /opt/vp/env.sh > %s/env.sh" % (r, w, w, r, w))
            for k in range(4):
                t = sh('bash %s/test.sh %s/res.json' % (w, w))
                res = json.load(open(w + '/res.json'))
                bad = [b for b in failing(base, res) if b != 'test.test_trajectory::test_traj']
                if not bad or len(bad) > 1:
                    break
            if bad:
                print(p['id'], 'TESTS FAIL', bad[:5])
                continue
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
            print(p['id'], 'kept;', b.stdout.strip().split('\n')[-1][:150], flush=True)
        except ValueError as e:
            print(p['id'], 'EDIT', e)
        finally:
            shutil.rmtree(w, ignore_errors=True)


def failing(base, res):
    want = base if isinstance(base, list) else base.get('stable') or base.get('passed') or base.get('passing') or base.get('pass')
    got = res if isinstance(res, list) else res.get('passed') or res.get('passing') or res.get('pass')
    return sorted(set(want) - set(got))


if __name__ == '__main__':
    main()
