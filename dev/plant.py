#!/usr/bin/env python3
"""dev/plant.py [ids...]: (re)build seeded/<id>/ from dev/seeds.py and confirm each one.

For each: the patch applies, the stable tests pass with it, the demo fails with it and passes without, and which of the
checks named (its property, or --checks) report it."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
import seeds2, seeds3, seeds4, seeds5, seeds6, seeds7, seeds8, seeds9  # noqa

REPO = '/repo'
PKG = 'LinearResponseVariationalBayes/'
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(s, notests, checks):
    d = os.path.join(ROOT, 'seeded', s['id'])
    c = '/tmp/plant.%s' % s['id']
    sh('rm -rf %s; cp -a %s %s' % (c, REPO, c))
    try:
        for f, old, new in s['edits']:
            p = os.path.join(c, PKG + f)
            t = open(p).read()
            if t.count(old) != 1:
                return '%-34s EDIT PROBLEM %s %d' % (s['id'], f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % c).stdout
        assert diff.strip(), s['id']
        note = ''
        orig = {f: set(sh('git -C %s show 9fbb35b:%s%s' % (c, PKG, f)).stdout.split('\n')) for f, _, _ in s['edits']}
        gone = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        if not any(l in o for l in gone for o in orig.values() if l.strip()):
            note += ' NO ORIGINAL LINE CHANGED'
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/sh\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent exec %s "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = sh('sh %s/demo.sh' % d, cwd=REPO)
        r1 = sh('sh %s/demo.sh' % d, cwd=c)
        tests = 'skipped'
        if not notests:
            t = sh('PATH=/opt/venv/bin:$PATH PYTHONPATH=%s python -m pytest -q -p no:cacheprovider LinearResponseVariationalBayes | tail -5' % c, cwd=c).stdout
            tests = t.strip().split('\n')[-1]
        out = []
        for k in checks or [s['property']]:
            r = sh('python3-vt check.py %s --repo %s' % (k, c), cwd=ROOT)
            out.append('%s:%s' % (k, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % k in r.stdout else 'MISSED(%d)' % r.returncode))
        ok = r0.returncode == 0 and r1.returncode != 0
        res = '%-34s demo %d/%d tests [%s] %s%s' % (s['id'], r0.returncode, r1.returncode, tests, ' '.join(out), note)
        if not ok:
            res += '\n   DEMO PROBLEM\n' + r0.stdout[-800:] + '\n---\n' + r1.stdout[-800:]
        return res
    finally:
        sh('rm -rf %s' % c)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    notests = '--notests' in sys.argv
    checks = next((a[9:].split(',') for a in sys.argv if a.startswith('--checks=')), None)
    todo = [s for s in SEEDS if not ids or s['id'] in ids]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda s: one(s, notests, checks), todo):
            print(r)
            sys.stdout.flush()


main()
