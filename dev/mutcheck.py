#!/usr/bin/env python3-vt
"""dev/mutcheck.py map MAP.json | run ALL.json RES.jsonl MAP.json OUT.jsonl PROCS [SECS]: which surviving mutants the contracts report."""
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import time
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO, PKG = '/repo', 'LinearResponseVariationalBayes/'
IDS = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]


def mapone(pid):
    from sa import runner
    R = runner.Run('/repo', os.path.join(ROOT, 'contracts'))
    R.load(pid)
    out = []
    for i, (k, f, a) in enumerate(R.contracts(R.m.import_module(pid))):
        R.fn_seen = set()
        R.m.visited = set()
        t = time.time()
        R.run_case(k, f, a, 60)
        out.append(dict(p=pid, i=i, name=R.case_name(k, a), secs=time.time() - t, fns=sorted(map(list, R.fn_seen))))
    return out


def domap(out):
    with mp.Pool(8) as p:
        res = [x for l in p.imap_unordered(mapone, IDS, 1) for x in l]
    json.dump(res, open(out, 'w'))
    print(len(res), sum(x['secs'] for x in res))


def check(mut, plan, d, secs):
    """Run the contracts of the plan on the mutated copy in order; the first refutation ends it."""
    from sa import runner
    t0 = time.time()
    und = []
    try:
        R = runner.Run(d, os.path.join(ROOT, 'contracts'))
    except RuntimeError as e:
        return dict(id=mut['id'], res='ERROR', why=str(e)[:200])
    mods = {}
    n = 0
    for p, i, name in plan:
        left = secs - (time.time() - t0)
        if left < 1:
            return dict(id=mut['id'], res='TIME', n=n, of=len(plan), und=und[:5])
        if p not in mods:
            if mods:
                R.m.st = R.base
            mods[p] = R.contracts(R.load(p))
        k, f, a = mods[p][i]
        try:
            fs = R.run_case(k, f, a, min(60, left))
        except MemoryError:
            und.append(name)
            continue
        n += 1
        bad = [x for x in fs if x.status == 'refuted']
        if bad:
            return dict(id=mut['id'], res='CAUGHT', by=p, contract=name, msg=bad[0].msg, secs=time.time() - t0)
        if any(x.status == 'undecided' for x in fs):
            und.append(p + ':' + name)
    return dict(id=mut['id'], res='MISSED', n=n, und=und[:8], secs=time.time() - t0)


def worker(job):
    mut, plan, secs = job
    d = '/tmp/mut/c%d' % os.getpid()
    if not os.path.exists(d):
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, PKG), os.path.join(d, PKG))
    p = os.path.join(d, PKG, mut['file'])
    b = open(os.path.join(REPO, PKG, mut['file']), 'rb').read()
    open(p, 'wb').write(b[:mut['a']] + mut['new'].encode() + b[mut['b']:])
    try:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
            try:
                o = check(mut, plan, d, secs)
            except BaseException as e:
                o = dict(id=mut['id'], res='ERROR', why='%s %s' % (type(e).__name__, str(e)[:200]))
            os.write(w, json.dumps(o).encode())
            os._exit(0)
        os.close(w)
        s = b''
        while True:
            c = os.read(r, 65536)
            if not c:
                break
            s += c
        os.close(r)
        os.waitpid(pid, 0)
        return json.loads(s or json.dumps(dict(id=mut['id'], res='ERROR', why='died')))
    finally:
        shutil.copy(os.path.join(REPO, PKG, mut['file']), p)


def plan_for(mut, cover):
    fn = mut['fn'].split('.')
    keys = ['.'.join(fn[:n]) for n in range(len(fn), 0, -1)]
    for k in keys:
        c = cover.get((mut['file'], k))
        if c:
            return c
    return []


def run(allf, resf, mapf, outf, procs, secs, ids=None):
    ms = {x['id']: x for x in json.load(open(allf))}
    surv = []
    for l in open(resf):
        x = json.loads(l)
        if x['survives']:
            surv.append(x['id'])
    done = set()
    if os.path.exists(outf):
        done = {json.loads(l)['id'] for l in open(outf)}
    cover = {}
    for x in json.load(open(mapf)):
        for fn in x['fns']:
            cover.setdefault((os.path.basename(str(fn[0])).split('.')[-1] if not str(fn[0]).endswith('.py') else os.path.basename(fn[0]), fn[1]), []).append(x)
    for c in cover.values():
        c.sort(key=lambda x: x['secs'])
    jobs = []
    f = open(outf, 'a')
    for i in surv if ids is None else ids:
        if i in done:
            continue
        m = ms[i]
        pl = plan_for(m, cover)
        if not pl:
            f.write(json.dumps(dict(id=i, res='NOCOVER')) + '\n')
            continue
        jobs.append((m, [(x['p'], x['i'], x['name']) for x in pl], secs))
    f.flush()
    print(len(jobs), 'to check')
    sys.stdout.flush()
    with mp.Pool(procs, maxtasksperchild=None) as p:
        for o in p.imap_unordered(worker, jobs):
            f.write(json.dumps(o) + '\n')
            f.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'map':
        domap(sys.argv[2])
    else:
        run(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5], int(sys.argv[6]), float(sys.argv[7]) if len(sys.argv) > 7 else 150,
            [int(x) for x in sys.argv[8].split(',')] if len(sys.argv) > 8 else None)
