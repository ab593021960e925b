#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [--repo DIR]: decide one property from /repo's source."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

PKGNAME = 'LinearResponseVariationalBayes'
RUN = MOD = LIST = ARGS = None


def _init(args):
    global RUN, MOD, LIST, ARGS
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import threading
    from sa import runner
    runner.SEED[0] = args.seed
    ARGS = args
    RUN = runner.Run(args.repo, os.path.join(HERE, 'contracts'))
    MOD = RUN.load(args.property)
    LIST = RUN.contracts(MOD, args.tier == 'thorough')


def _task(i):
    t0 = time.time()
    k, f, a = LIST[i]
    RUN.fn_seen = set()
    try:
        fs = RUN.run_case(k, f, a, ARGS.secs, thorough=ARGS.tier == 'thorough')
        out = [dict(status=x.status, contract=x.contract, msg=x.msg, loc=str_loc(x.loc), where=str(x.where), detail=x.detail,
                    calls=['%s:%s %s' % (os.path.basename(c[0]), c[2], c[1]) for c in x.calls], mode=x.mode) for x in fs]
    except MemoryError:
        out = [dict(status='undecided', contract=RUN.case_name(k, a), msg='memory limit', loc='', where='', detail='',
                    calls=[], mode='')]
    return i, RUN.case_name(k, a), out, sorted(RUN.fn_seen), time.time() - t0


def str_loc(loc):
    try:
        p = str(loc[0])
        if p.startswith(HERE):
            p = os.path.relpath(p, HERE)
        return '%s:%s in %s' % (p, loc[1], loc[2])
    except Exception:
        return str(loc)


def known():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    for line in open(p):
        line = line.strip()
        if line.startswith('finding:'):
            f = {}
            for part in line[len('finding:'):].split('|'):
                k, _, v = part.strip().partition('=')
                f[k.strip()] = v.strip()
            out.append(f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--secs', type=float)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    if args.secs is None:
        args.secs = 60 if args.tier == 'quick' else 150
    budget = 780
    results, funcs, names, lint = [], set(), [], None
    path = os.path.join(HERE, 'contracts', args.property + '.py')
    n = 0
    timedout = False
    if os.path.exists(path):
        from sa import runner
        R = runner.Run(args.repo, os.path.join(HERE, 'contracts'))
        n = len(R.contracts(R.load(args.property), args.tier == 'thorough'))
        R = None
        if not n:
            print('no contracts for %s' % args.property)
            sys.exit(3)
        pool = mp.Pool(min(args.jobs, n), _init, (args,))
        it = pool.imap_unordered(_task, range(n))
        left = set(range(n))
        for _ in range(n):
            try:
                i, nm, out, fn, dt = it.next(max(1, budget - (time.time() - t0)))
            except mp.TimeoutError:
                timedout = True
                break
            left.discard(i)
            results += out
            funcs |= set(fn)
            names.append(nm)
            if args.v:
                cnt = {}
                for o in out:
                    cnt[o['status']] = cnt.get(o['status'], 0) + 1
                print('  %-60s %6.1fs %s %s' % (nm, dt, cnt, sorted(set(o['mode'] for o in out))))
                sys.stdout.flush()
        pool.terminate()
        if timedout:
            results.append(dict(status='undecided', contract='*', msg='%d contracts not finished in time' % len(left), loc='',
                                where='', detail='', calls=[], mode=''))
    lp = os.path.join(HERE, 'rules', args.property + '.py')
    extra = {}
    if os.path.exists(lp):
        sys.path.insert(0, os.path.join(HERE, 'rules'))
        import importlib
        res = importlib.import_module(args.property).check(args.repo)
        for r in res['findings']:
            results.append(dict(status=r.get('status', 'refuted'), contract=r['rule'], msg=r['msg'], loc=r['loc'], where='',
                                detail=r.get('detail', ''), calls=[], mode='rule'))
        extra = res['coverage']
    cnt = dict(proved=0, agrees=0, refuted=0, undecided=0)
    for r in results:
        cnt[r['status']] += 1
    decided = cnt['proved'] + cnt['agrees'] + extra.get('sites_checked', 0)
    bad = [r for r in results if r['status'] == 'refuted']
    und = [r for r in results if r['status'] == 'undecided']
    viol, kf = [], []
    ks = known()
    for r in bad:
        hit = [k for k in ks if k.get('property') == args.property and k.get('contract') == r['contract'] and
               k.get('msg') == r['msg']]
        (kf if hit else viol).append(r)
    print('property %s (%s): %d contracts, %d repository functions analysed; obligations: %d proved for all inputs, '
          '%d value graphs agree, %d undecided, %d refuted%s; %.1f s' % (
              args.property, args.tier, n, len(funcs), cnt['proved'], cnt['agrees'], cnt['undecided'], cnt['refuted'],
              ''.join('; %s: %s' % x for x in sorted(extra.items())), time.time() - t0))
    for r in und:
        print('UNDECIDED %s: %s at %s %s' % (r['contract'], r['msg'], r['loc'], r['detail'].split('\n')[-1][:200]))
    seen = set()
    for r in kf:
        key = (r['contract'], r['msg'])
        if key not in seen:
            seen.add(key)
            print('KNOWN-FINDING: property=%s %s: %s' % (args.property, r['contract'], r['msg']))
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    modes = {}
    for r in results:
        if r['mode']:
            modes[r['mode']] = modes.get(r['mode'], 0) + 1
    cov = dict(
        explanation='Contract programs for this property and the functions of %s they reach are turned into a value graph by '
                    'static abstract interpretation of the current source (no code is executed): sizes are symbolic, both '
                    'arms of every branch are merged, loops are summarised. An obligation is proved when its normal form is '
                    'the constant true or both sides have one normal form; otherwise the two graphs are compared by random '
                    'interpretation (agrees / refuted). Where a summary for all sizes is not found, sizes are enumerated. '
                    'Rules over the syntax tree report sites_checked.' % PKGNAME,
        contracts=n, obligations=len(results), proved=cnt['proved'], agrees=cnt['agrees'], undecided=cnt['undecided'],
        refuted=cnt['refuted'], functions_analysed=['%s:%s' % (f, q) for f, q in sorted(funcs)],
        modes=modes, cases=sorted(names), **extra)
    ev = dict(property=args.property, tier=args.tier if args.tier in ('quick', 'thorough') else 'quick', seed=args.seed,
              level='other', coverage=cov,
              assumptions=['values are real numbers (no rounding or overflow)',
                           'numpy, scipy and autograd functions behave as their models in sa/ say'],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(evdir, args.property + '.json'), 'w'), indent=1)
    if viol:
        rp = os.path.join(evdir, 'replay_%s.txt' % args.property)
        with open(rp, 'w') as fh:
            fh.write('replay: python3-vt check.py %s --repo %s --seed %d\n' % (args.property, args.repo, args.seed))
            for r in viol:
                fh.write('\n%s: %s\n  at %s\n  %s\n  sizes: %s\n  repository functions on the path: %s\n  %s\n' % (
                    r['contract'], r['msg'], r['loc'], r['where'], r['mode'], ', '.join(r['calls'][-12:]), r['detail']))
        seen = set()
        for r in viol:
            key = (r['contract'], r['msg'])
            if key in seen:
                continue
            seen.add(key)
            if len(seen) <= 12:
                print('  %s: %s\n    at %s\n    via %s\n    %s' % (r['contract'], r['msg'], r['loc'],
                                                                 ', '.join(r['calls'][-6:]), r['detail'][:400]))
        print('VIOLATION property=%s replay=%s' % (args.property, rp))
        sys.exit(1)
    if not decided:
        print('analysis broken: nothing was decided')
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
