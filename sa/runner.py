"""Run contract programs and decide their obligations."""
import ast
import os
import signal
import sys
import time
import traceback

from .terms import *
from .values import *
from .interp import Machine, Raised, Env
from . import models as M
from . import contract as C
from .evalterm import Ev, Guards, Undecidable, Skip, WORLDS
import numpy as np

PROVED, TESTED, REFUTED, UNDECIDED = 'proved', 'agrees', 'refuted', 'undecided'
MODULES = ['', '.ConjugateGradient', '.ExponentialFamilies', '.Modeling', '.OptimizationUtils',
           '.ModelSensitivity', '.SparseObjectives', '.regression_utils']


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class limit(object):
    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Finding(object):
    def __init__(self, status, contract, msg, loc, where='', detail='', calls=(), mode=''):
        self.status, self.contract, self.msg, self.loc, self.where = status, contract, msg, loc, where
        self.detail, self.calls, self.mode = detail, calls, mode


NEED = 6
MORE = 60
MORE_SECS = 0.25
NAMING = 40


SEED = [0]


def sample_eval(m, f, tries=60, need=NEED, seed0=0, more=0, guards=None):
    """Evaluate f(ev) at random points; f raises Skip when a point is not admissible.
    Stops after need points, or after need + more when they are quick to evaluate.
    Returns (list of results, reason when undecidable)."""
    res = []
    why = None
    begin = time.time()
    for k in range(tries + 3 * more):
        if len(res) >= need and time.time() - begin > MORE_SECS:
            break
        if k >= tries and not res:
            break
        ev = Ev(100003 * SEED[0] + seed0 + k, m.allvals, scale=(1.0, 0.6, 0.3)[k % 3])
        ev.maxdim = 3 if k % 2 == 0 else 2
        ev.guards = guards
        try:
            r = f(ev)
        except Skip as e:
            why = why or str(e)
            continue
        except Undecidable as e:
            return res, 'undecidable: %s' % e
        except (OverflowError, ZeroDivisionError, FloatingPointError):
            continue
        res.append((k, ev, r))
        if len(res) >= need + more:
            break
    return res, why


def holds_at(ev, pc):
    if pc is TRUE:
        return
    if not ev.ev(pc):
        raise Skip('path condition')


def decide_obl(m, o):
    if o.b is None and o.a is TRUE:
        o.status = PROVED
        return
    pc = C.resolve(m, o.pc)
    if o.b is not None:
        try:
            e = equal(o.a, o.b, o.ctx)
        except (Unsupported, RecursionError):
            e = None
        if e is True:
            o.status = PROVED
            return
    else:
        if o.a is not FALSE:
            try:
                r = restrict(o.a, o.ctx)
            except (Unsupported, RecursionError):
                r = None
            if r is TRUE:
                o.status = PROVED
                return

    def f(ev):
        holds_at(ev, pc)
        if o.b is None:
            return bool(ev.ev(o.a)), None, None
        x, y = ev.ev(o.a), ev.ev(o.b)
        if isinstance(x, T) or isinstance(y, T):
            return x is y, x, y
        x, y = float(x), float(y)
        if x != x or y != y:
            raise Skip('nan')
        if x == y:
            return True, x, y
        if np.isinf(x) or np.isinf(y):
            return False, x, y
        return abs(x - y) <= 2e-6 * max(1.0, abs(x), abs(y)), x, y
    f.boolean = o.b is None
    f.inputs = lambda: inputs(m, o.a, o.b)
    guards = Guards()
    res, why = sample_eval(m, f, more=MORE if o.b is None else MORE // 2, guards=guards)
    bad = [r for r in res if not r[2][0]]
    if bad:
        k, ev, (_, x, y) = bad[0]
        big = o.b is None or any(abs(float(r[2][1]) - float(r[2][2])) > 1e-3 * max(1.0, abs(float(r[2][1])), abs(float(r[2][2])))
                                 for r in bad if not isinstance(r[2][1], T))
        if not big and len(bad) < 2:
            res2, _ = sample_eval(m, f, tries=120, need=12, seed0=1000)
            bad += [r for r in res2 if not r[2][0]]
        if big or len(bad) >= 2:
            o.status = REFUTED
            vals = ', '.join('%s=%s' % (show(t), _short(v)) for t, v in sorted(ev.val.items(), key=lambda z: z[0].key)[:12])
            o.detail = ('value graphs differ: %s against %s' % (x, y) if o.b is not None else 'condition is false') + \
                ' at ' + vals
            o.detail += '\n  left:  ' + clip(show(o.a)) + ('\n  right: ' + clip(show(o.b)) if o.b is not None else '')
            return
    if len(res) >= 3 and not (why or '').startswith('undecidable'):
        o.status = TESTED
        d = other_side(m, f, res, guards) or other_size(m, f, guards)
        if d:
            o.status = REFUTED
            o.detail = d + '\n  left:  ' + clip(show(o.a)) + ('\n  right: ' + clip(show(o.b)) if o.b is not None else '')
        return
    if not res and (why == 'path condition' or o.a is FALSE):
        # not reachable at any sampled point
        o.status = UNDECIDED if why != 'path condition' else TESTED
        o.detail = 'unreached'
        d = other_size(m, f, guards)
        if d:
            o.status = REFUTED
            o.detail = d
        return
    o.status = UNDECIDED
    o.detail = why or 'no admissible sample'


# ------------------------------------------------------ the other side of a comparison
# A comparison in the value graphs that went one way at every sampled point hides a branch that sampling never took.
# One input symbol at a time is moved (scaled or shifted) until the comparison turns, and the two graphs are compared
# just before and just after the turn: only a disagreement that begins with the turn counts.

SCALES = [10., .1, 100., 1e-2, 1e3, 1e-3, 1e4, 1e-4, 1e6, 1e-6, 1e8, 1e-8, 1e-10, 1e13, 1e-13]
SHIFTS = [1., -1., 10., -10., 100., -100., 1e3, -1e3]
FIXED = ('int', 'bool', 'simplex', 'pos01')
TURN_SECS, TURN_TOTAL = 0.6, 25.0
SPENT = [0.0]
TURNS = [0, 0]
_syms = {}


def symbols(t):
    r = _syms.get(t)
    if r is None:
        s = set()
        if t.op in ('v', 'arr'):
            s.add(t)
        out = []
        from .evalterm import _walk2
        _walk2(t.a, out)
        for c in out:
            s |= symbols(c)
        r = _syms[t] = frozenset(s)
    return r


def movable(m, c):
    """Real input symbols that c depends on, through definitions."""
    seen, todo, out = set(), [c], []
    while todo:
        for s in sorted(symbols(todo.pop()), key=lambda z: z.key):
            if s in seen:
                continue
            seen.add(s)
            if s in m.allvals:
                todo.append(m.allvals[s])
            elif s not in RANGE and s not in INDEX_BOUND and not any(p in FIXED for p in PROPS.get(s, ())):
                out.append(s)
    return out


def inputs(m, *ts):
    out = []
    for t in ts:
        if t is not None and isinstance(t, T):
            out += [s for s in movable(m, t) if s not in out]
    return out[:8]


def moves(s):
    ps = PROPS.get(s, ())
    for z in SCALES:
        yield 'scale', z
    if not any(p in ps for p in ('pos', 'nonneg', 'pd', 'ld')):
        yield 'line', 0.0
        yield 'line', -1.0
    elif 'nonneg' in ps and 'pd' not in ps:
        yield 'line', 0.0
    if not any(p in ps for p in ('pos', 'nonneg', 'pd', 'ld')):
        for z in SHIFTS:
            yield 'shift', z


def moved(v, mv, th):
    kind, z = mv
    if kind == 'scale':
        return v * z ** th
    if kind == 'line':
        return v * (1 + (z - 1) * th)
    return v + z * th


def at(m, f, ev0, s, v0, mv, th, extra=None):
    """(result or None, guards) at a moved point."""
    ev = Ev(ev0.seed, m.allvals, preset=extra, scale=ev0.scale)
    ev.val[s] = moved(v0, mv, th)
    ev.maxdim = ev0.maxdim
    ev.guards = Guards()
    ev.ties = getattr(f, 'boolean', False)
    try:
        r = f(ev)
    except (Skip, OverflowError, ZeroDivisionError, FloatingPointError, ValueError):
        return None, ev.guards
    return r, ev.guards


def turn(m, f, ev0, c, side, s, mv, extra=None):
    """Two points just before and just after comparison c turns away from side: their results, or None."""
    v0 = ev0.val.get(s)
    if v0 is None or not isinstance(v0, (float, np.floating, np.ndarray)):
        return None
    if isinstance(v0, np.ndarray) and v0.dtype.kind != 'f':
        return None
    eq = c.op == 'eq'

    def look(th):
        r, g = at(m, f, ev0, s, v0, mv, th, extra)
        x = g.get(c)
        if r is None or x is None:
            return r, None, None, None
        return r, x[not side] is not None, x[not side], x
    r1, t1, w1, x1 = look(1.0)
    if t1 is None:
        return None
    if eq and not side:
        # a single value: found when it lies on the way
        if t1:
            rb, tb, _, _ = look(1 - 1e-4)
            return (rb, r1) if tb is False and rb is not None else None
        r0, t0, w0, x0 = look(0.0)
        if x0 is None or x0[2] != x0[3] or x1[2] != x1[3] or x0[2] * x1[2] >= 0:
            return None
        lo, hi = 0.0, 1.0
        for _ in range(60):
            mid = (lo + hi) / 2
            r, t, w, x = look(mid)
            if x is None:
                return None
            if t:
                rb, tb, _, _ = look(mid * (1 - 1e-4))
                return (rb, r) if tb is False and rb is not None else None
            if x[2] * x0[2] > 0:
                lo = mid
            else:
                hi = mid
        return None
    if not t1:
        return None
    lo, hi = 0.0, 1.0
    for _ in range(14):
        mid = (lo + hi) / 2
        r, t, w, x = look(mid)
        if t is None:
            return None
        if t:
            hi = mid
        else:
            lo = mid
    rb, tb, _, _ = look(max(0.0, lo - 1e-4))
    if tb is not False or rb is None:
        return None
    last = None
    for th in (min(1.0, hi + 0.02), 1.0):
        r, t, w, x = look(th)
        if t and w > 1e-6 and r is not None:
            last = rb, r
            if disagree(rb, r):
                break
    return last


def disagree(before, after):
    ok0, x0, y0 = before
    ok1, x1, y1 = after
    if x1 is None:
        return ok0 and not ok1
    if any(isinstance(z, T) or z is None or not np.isfinite(z) for z in (x0, y0, x1, y1)):
        return False
    d0, d1 = abs(x0 - y0), abs(x1 - y1)
    s0, s1 = max(abs(x0), abs(y0), 1e-300), max(abs(x1), abs(y1), 1e-300)
    return d1 > 1e-10 and d1 > 1e-6 * s1 and d0 * 1000 <= d1 and d0 / s0 * 1000 <= d1 / s1


def rounds(m, f, res, c):
    """Rounding too fine to be seen at the sampled points shows where its argument is of order one."""
    for s in movable(m, c)[:4]:
        for z in (1e-4, 1e-6, 1e-8, 1e-10, 1e-12):
            n = 0
            for k, ev0, (ok, x, y) in res[:3]:
                v0 = ev0.val.get(s)
                if v0 is None or x is None or isinstance(x, T) or (isinstance(v0, np.ndarray) and v0.dtype.kind != 'f'):
                    break
                r, g = at(m, f, ev0, s, v0, ('scale', z), 1.0)
                if r is None or c not in g or g[c][3] > 100 or not np.isfinite(r[1]) or not np.isfinite(r[2]):
                    break
                d0 = abs(x - y) / max(abs(x), abs(y), 1e-300)
                d1 = abs(r[1] - r[2]) / max(abs(r[1]), abs(r[2]), 1e-300)
                n += d0 < 1e-6 and d1 > 1e-3
            if n >= 2:
                return 'value graphs differ: %s against %s, rounded by %s (%s scaled by %g)' % (
                    r[1], r[2], clip(show(c), 200), show(s), z)
    return None


def other_side(m, f, res, guards):
    """Why the graphs differ on a side of some comparison that no sample took, or None."""
    one = [(c, g[1] is not None) for c, g in guards.items() if c.op != 'floor' and (g[0] is None) != (g[1] is None)]
    floors = [c for c, g in guards.items() if c.op == 'floor' and g[2] > 1e4]
    if not one + floors or SPENT[0] > TURN_TOTAL:
        return None
    begin = time.time()
    known = m.__dict__.setdefault('turns', {})
    try:
        for c in floors[:4]:
            d = rounds(m, f, res, c)
            if d:
                return d
        for c, side in one:
            kn = known.get((c, side))
            tried = [(s, mv) for s in movable(m, c)[:6] for mv in moves(s)] if kn is None else kn
            turned = []
            t0 = time.time()
            for s, mv in tried:
                if time.time() - t0 > TURN_SECS or SPENT[0] + time.time() - begin > TURN_TOTAL:
                    turned = None
                    break
                hit = None
                for k, ev0, _ in res[:2]:
                    hit = turn(m, f, ev0, c, side, s, mv)
                    if hit is None:
                        break
                    if (s, mv) not in turned:
                        turned.append((s, mv))
                    if not disagree(*hit):
                        hit = None
                        break
                if not hit and kn is None and (s, mv) in turned and AMPLIFY[0]:
                    hit = amplified(m, f, res, c, side, s, mv)
                if hit:
                    TURNS[1] += 1
                    _, x, y = hit[1]
                    return ('value graphs differ: %s against %s' % (x, y) if x is not None else
                            'condition is false') + \
                        ', from where %s turns %s (%s moved by %s %g)' % (
                            clip(show(c), 200), not side, show(s), mv[0], mv[1])
            if kn is None and turned is not None:
                known[c, side] = turned
            TURNS[0] += bool(turned)
    finally:
        SPENT[0] += time.time() - begin
    return None


AMPLIFY = [True]
AMPLIFIED = (1e3, 1e-3)
AMP_SECS, AMP_TOTAL, AMP_SPENT = 1.0, 15.0, [0.0]


def amplified(m, f, res, c, side, s, mv):
    """The turn again with one other input made large or small, which may uncover a difference too small to be seen
    beside the other terms."""
    begin = time.time()
    try:
        for s2 in f.inputs():
            if s2 is s:
                continue
            for z in AMPLIFIED:
                if time.time() - begin > AMP_SECS or AMP_SPENT[0] + time.time() - begin > AMP_TOTAL:
                    return None
                hit = None
                for k, ev0, _ in res[:2]:
                    v = ev0.val.get(s2)
                    if v is None or (isinstance(v, np.ndarray) and v.dtype.kind != 'f') or isinstance(v, (int, np.integer)):
                        hit = None
                        break
                    hit = turn(m, f, ev0, c, side, s, mv, {s2: v * z})
                    if hit is None or not disagree(*hit) or not steady(m, f, ev0, c, side, s, mv, s2, v * z, hit):
                        hit = None
                        break
                if hit:
                    return hit
    finally:
        AMP_SPENT[0] += time.time() - begin
    return None


def steady(m, f, ev0, c, side, s, mv, s2, v, hit):
    """A difference that stays when the inputs change a little is none of rounding."""
    _, x, y = hit[1]
    if x is None:
        return True
    big = [1.0] + [float(np.max(np.abs(z))) for z in list(ev0.val.values()) + [v]
                   if isinstance(z, (float, np.ndarray)) and np.size(z)]
    if abs(x - y) < 1e-8 * max(big):
        return False
    for e in (1e-3, -1e-3, 2e-3, -2e-3):
        h = turn(m, f, ev0, c, side, s, mv, {s2: v * (1 + e)})
        if h is None or not disagree(*h):
            return False
        d = h[1][1] - h[1][2]
        if abs(d - (x - y)) > 0.2 * abs(x - y):
            return False
    return True


# ------------------------------------------------------------------ sizes beyond the sampled ones
# A comparison of integers (sizes, positions) that went one way at every sampled size names the size at which it turns:
# the graphs are compared at the sizes around the integer constants in it.

SIZE_STEPS, SIZE_SECS, SIZE_TOTAL, SIZE_SPENT = 300000, 3.0, 30.0, [0.0]
SIZES = [0, 0]
_consts = {}


def constants(t):
    """Integer constants in t."""
    r = _consts.get(t)
    if r is None:
        s = set()
        if t.op == 'Q':
            for mon, c in t.a[0]:
                if c.denominator == 1:
                    s.add(abs(c.numerator))
                else:
                    s.add(c.denominator)
        out = []
        from .evalterm import _walk2
        _walk2(t.a, out)
        for c in out:
            s |= constants(c)
        r = _consts[t] = frozenset(s)
    return r


def sizes_in(m, c):
    seen, todo, out = set(), [c], []
    while todo:
        for s in sorted(symbols(todo.pop()), key=lambda z: z.key):
            if s in seen:
                continue
            seen.add(s)
            if s in m.allvals:
                todo.append(m.allvals[s])
            elif RANGE.get(s, (None, None))[1] is not None:
                todo.append(RANGE[s][1])
            elif s.op == 'v' and 'int' in PROPS.get(s, ()) and s not in INDEX_BOUND and \
                    not any(p in PROPS.get(s, ()) for p in ('bool',)) and RANGE.get(s, (None, None))[1] is None:
                out.append(s)
    return out


def other_size(m, f, guards):
    """Why the graphs differ at a size that no sample took, or None."""
    one = [c for c, g in guards.ints.items() if g != 3]
    if not one or SIZE_SPENT[0] > SIZE_TOTAL:
        return None
    begin = time.time()
    done = m.__dict__.setdefault('sizes_tried', set())
    try:
        for c in one:
            ks = [k for k in constants(c) if 3 <= k <= 70000]
            if not ks:
                continue
            for s in sizes_in(m, c)[:3]:
                for k in sorted(ks)[:3]:
                    for v in (k, k + 1, k + 2, k - 1, 4 * k):
                        if time.time() - begin > SIZE_SECS:
                            return None
                        bad = []
                        for seed in (7, 8, 9, 10):
                            ev = Ev(100003 * SEED[0] + seed, m.allvals, preset={s: v}, scale=(1.0, 0.6, 0.3)[seed % 3])
                            ev.maxdim = 2
                            ev.most = SIZE_STEPS
                            ev.mostentries = 300000
                            ev.ties = getattr(f, 'boolean', False)
                            try:
                                r = f(ev)
                            except (Skip, Undecidable, OverflowError, ZeroDivisionError, FloatingPointError):
                                break
                            SIZES[0] += 1
                            if not r[0] and not isinstance(r[1], T) and (r[1] is None or
                                                                         np.isfinite(r[1]) and np.isfinite(r[2])):
                                bad.append(r)
                            elif seed > 8 and len(bad) < seed - 8:
                                break
                        if len(bad) >= 2:
                            SIZES[1] += 1
                            return ('value graphs differ: %s against %s' % bad[0][1:] if bad[0][1] is not None else
                                    'condition is false') + ' where %s = %d (%s)' % (show(s), v, clip(show(c), 200))
    finally:
        SIZE_SPENT[0] += time.time() - begin
    return None


def clip(s, n=600):
    return s if len(s) <= n else s[:n] + ' ...'


def _short(v):
    if isinstance(v, np.ndarray):
        return np.array2string(v, precision=3, separator=',').replace('\n', '')[:120]
    return '%.4g' % v if isinstance(v, float) else str(v)


LATE_SECS = 10


class Run(object):
    """All contracts of one module."""

    def __init__(self, repo, cdir):
        self.m = Machine(repo, [cdir])
        self.err = None
        for x in MODULES:
            self.m.import_module(Machine.PKG + x)
        if self.m.raised:
            r = self.m.raised[0]
            raise RuntimeError('import raises %r at %s' % (r.exc, r.loc))
        self.findings = []
        self.stats = dict(contracts=0, obligations=0, proved=0, agrees=0, undecided=0, refuted=0)
        self.fn_seen = set()
        self.repo, self.lits, self.fns = repo, {}, {}

    def load(self, name):
        m = self.m
        m.raised = []
        mod = m.import_module(name)
        if m.raised:
            raise RuntimeError('contract module raises %r' % (m.raised[0],))
        self.base = m.st
        return mod

    def contracts(self, mod, thorough=False):
        vs = self.m.content(mod.frame).vars
        out = []
        for k, v in vs.items():
            if k.startswith('spec_') and isinstance(v, FuncV):
                cs = vs.get('CASES_' + k[5:])
                if cs is None:
                    out.append((k, v, ()))
                else:
                    cs = list(self.m.concrete(self.m.iter_segs(cs)))
                    more = vs.get('THOROUGH_' + k[5:])
                    if thorough and more is not None:
                        cs += self.m.concrete(self.m.iter_segs(more))
                    for c in cs:
                        out.append((k, v, (c,)))
        return out

    def case_name(self, k, args):
        if not args:
            return k
        a = args[0]

        def s(x):
            if isinstance(x, T):
                return show(x).strip("'")
            if isinstance(x, Tup):
                return ','.join(s(y.v) for y in x.segs)
            return repr(x)
        return '%s[%s]' % (k, s(a))

    def run_one(self, k, f, args, dimvals, secs, naming=0):
        """Interpret one contract; returns (findings, refuted?, undecided?)."""
        m = self.m
        m.st = self.base.fork()
        m.st.heap = dict(self.base.heap)
        m.raised, m.obls, m.events, m.boxes, m.boxmode = [], [], [], [], []
        m.visited = set()
        m.boxvals = {}
        m.stubs, m.recent, m.trystack, m.callstack = {}, [], [], []
        m.chol = {}
        m.depth = m.inloop = 0
        m.reads = None
        m.writelog = None
        m.dimvals = dimvals
        m.naming = naming
        m.defs, m.named = {}, {}
        WORLDS.reset(m.defs)
        m.dims_used = {}
        m.genstack = []
        del C.__dict__.setdefault('_dummy', [])[:]
        from . import terms as TT
        del TT._ctx[1:]
        name = self.case_name(k, args)
        out = []
        alive = True
        with limit(secs):
            try:
                m.env = Env(f.module.frame, None, (), f.module, None, '<contract>')
                m.env.rets = []
                try:
                    m.call(f, list(args), {})
                except Dead:
                    alive = False
                if not alive:
                    out.append(Finding(UNDECIDED, name, 'contract never completes', m.loc()))
                elif not m.obls and not m.raised:
                    out.append(Finding(UNDECIDED, name, 'contract stated nothing', m.loc()))
                m.allvals = dict(m.boxvals)
                m.allvals.update(m.defs)
                for o in m.obls:
                    decide_obl(m, o)
                raised = list(m.raised)
                for r in raised:
                    out += self.decide_raise(name, r)
            except Timeout:
                out.append(Finding(UNDECIDED, name, 'time limit', m.loc()))
            except (Unsupported, RecursionError) as e:
                out.append(Finding(UNDECIDED, name, 'unsupported: %s' % e, m.loc()))
            except Undecidable as e:
                out.append(Finding(UNDECIDED, name, 'undecidable: %s' % e, m.loc()))
            except Exception as e:
                tb = traceback.format_exc().strip().split('\n')
                out.append(Finding(UNDECIDED, name, 'analyser error %s: %s' % (type(e).__name__, e), m.loc(),
                                   detail='\n'.join(tb[-6:])))
            finally:
                m.env = None
        late = [o for o in m.obls if o.status is None and not o.loop]
        if late:
            # stated before the interpretation stopped: they stand on their own
            m.allvals = dict(m.boxvals)
            m.allvals.update(m.defs)
            with limit(min(secs, LATE_SECS)):
                try:
                    for o in late:
                        decide_obl(m, o)
                except Timeout:
                    pass
                except Exception:
                    pass
        for o in m.obls:
            st = o.status or UNDECIDED
            out.append(Finding(st, name, o.msg, o.loc, o.where, o.detail or '', o.calls))
        for x in m.visited:
            if not x[0].startswith('/'):
                self.fn_seen.add(x)
        return out

    def decide_raise(self, name, r):
        m = self.m
        what = r.exc.cls.name if isinstance(r.exc, ExcV) and hasattr(r.exc.cls, 'name') else repr(r.exc)
        if isinstance(r.exc, ExcV) and r.exc.args:
            what += '(%s)' % ', '.join(show(x) if isinstance(x, T) else repr(x) for x in r.exc.args[:1])
        cond = C.resolve(m, r.cond)
        msg = 'unexpected exception %s' % clip(what, 200)
        if cond is TRUE:
            return [Finding(REFUTED, name, msg, r.loc, '', 'raised on every path', tuple(m.recent))]
        if cond is FALSE:
            return []

        def f(ev):
            return bool(ev.ev(cond))
        guards = Guards()
        res, why = sample_eval(m, f, tries=80, need=24, guards=guards)
        hit = [x for x in res if x[2]]
        if hit:
            ev = hit[0][1]
            vals = ', '.join('%s=%s' % (show(t), _short(v)) for t, v in list(ev.val.items())[:12])
            return [Finding(REFUTED, name, msg, r.loc, '', 'raised at ' + vals + '\n  condition: ' + clip(show(cond)),
                            tuple(m.recent))]
        if len(res) >= 5 and not (why or '').startswith('undecidable'):
            def g(ev):
                return not f(ev), None, None
            g.boolean = True
            g.inputs = lambda: []
            d = other_side(m, g, res, guards) or other_size(m, g, guards)
            if d:
                return [Finding(REFUTED, name, msg, r.loc, '', d + '\n  condition: ' + clip(show(cond)), tuple(m.recent))]
            return [Finding(TESTED, name, 'no ' + msg, r.loc)]
        return [Finding(UNDECIDED, name, msg + ' not excluded', r.loc, '', why or '')]

    def run_case(self, k, f, args, secs, dimsets=None, thorough=False):
        """One contract: for all sizes at once, and where that is undecided size by size."""
        dimsets = dimsets or (THOROUGH if thorough else DIMSETS)
        fs = self.run_one(k, f, args, None, min(secs, 40 if thorough else 10))
        for x in fs:
            x.mode = 'all sizes'
        if any(x.status == UNDECIDED for x in fs) and not any(x.status == REFUTED for x in fs) and thorough:
            # again with large arrays under names of their own
            gs = self.run_one(k, f, args, None, secs, NAMING)
            for x in gs:
                x.mode = 'named, all sizes'
            if not any(x.status == UNDECIDED for x in gs) or any(x.status == REFUTED for x in gs):
                fs = gs
        und = [x for x in fs if x.status == UNDECIDED]
        ref = [x for x in fs if x.status == REFUTED]
        self.first = fs
        if ref or not (und or thorough):
            return fs
        alt = []
        okall = True
        done = set()
        for ds in dimsets:
            g = self.run_one(k, f, args, ds, secs)
            used = tuple(sorted(self.m.dims_used.items()))
            if used in done:
                continue
            done.add(used)
            for x in g:
                x.mode = 'sizes %s' % ','.join('%s=%s' % z for z in used)
            if any(x.status == REFUTED for x in g):
                return g
            if any(x.status == UNDECIDED for x in g):
                okall = False
                alt.append(g)
                if not thorough:
                    break
                continue
            alt.append(g)
            if not used:
                break
        if okall and alt:
            g = self.beyond(k, f, args, secs, [dict(d) for d in done])
            if any(x.status == REFUTED for x in g):
                return g
            alt.append(g)
            g = self.larger(k, f, args, secs, thorough, [dict(d) for d in done])
            if any(x.status == REFUTED for x in g):
                return g
            alt.append(g)
        flat = [x for g in alt for x in g]
        if not und:
            return fs + [x for x in flat if x.status != UNDECIDED]
        if okall:
            return flat
        return [x for x in flat if x.status == UNDECIDED] + [x for x in fs if x.status != UNDECIDED] + und

    def literals(self):
        """Integers from 4 to 16 that the repository functions just interpreted compare, bound or cut something with."""
        out = set()
        for path, qual in self.m.visited:
            if path.startswith('/') or path == '?':
                continue
            key = path, qual
            if key not in self.lits:
                s = set()
                for n in self.functions(path).get(qual.split('.')[-1], ()):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Compare):
                            s |= ints([x.left] + x.comparators)
                        elif isinstance(x, ast.Call) and getattr(x.func, 'id', getattr(x.func, 'attr', '')) in \
                                ('min', 'max', 'range', 'minimum', 'maximum', 'arange', 'clip'):
                            s |= ints(x.args)
                        elif isinstance(x, ast.Slice):
                            s |= ints([x.lower, x.upper])
                        elif isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mod, ast.FloorDiv)):
                            s |= ints([x.right])
                self.lits[key] = s
            out |= self.lits[key]
        return sorted(out)

    def functions(self, path):
        r = self.fns.get(path)
        if r is None:
            r = self.fns[path] = {}
            try:
                tree = ast.parse(open(os.path.join(self.repo, path)).read())
            except (OSError, SyntaxError):
                return r
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    r.setdefault(getattr(n, 'name', '<lambda>'), []).append(n)
        return r

    def beyond(self, k, f, args, secs, done):
        """Sizes around the integer constants in the code, one dimension at a time."""
        lits = self.literals()
        names = sorted({n for d in done for n in d})
        least = {n: min(d[n] for d in done if n in d) for n in names}
        end = time.time() + BEYOND_SECS
        out = []
        for v in lits:
            for n in names:
                for w in (v + 1, v):
                    left = end - time.time()
                    if left < 1:
                        return out
                    ds = dict(least)
                    ds[n] = w
                    g = self.run_one(k, f, args, lambda x, lo: max(lo, ds.get(x, least.get(x, 1))), left)
                    used = dict(self.m.dims_used)
                    if used in done:
                        continue
                    done.append(used)
                    for x in g:
                        x.mode = 'sizes %s' % ','.join('%s=%s' % z for z in sorted(used.items()))
                    if any(x.status == REFUTED for x in g):
                        return g
                    out += [x for x in g if x.status != UNDECIDED]
                    if w > v and not any(x.status == UNDECIDED for x in g):
                        break
        return out

    def larger(self, k, f, args, secs, thorough, done):
        """Each dimension in turn at larger sizes, while time allows; what is not decided there is left open."""
        names = sorted({n for d in done for n in d})
        least = {n: min(d[n] for d in done if n in d) for n in names}
        end = time.time() + (4 * secs if thorough else LARGER_SECS)
        out, late = [], set()
        for v in (3, 4, 5, 6) if thorough else (3, 4, 5):
            for n in names:
                left = end - time.time()
                if n in late or left < 1:
                    continue
                ds = dict(least)
                ds[n] = v
                if ds in done:
                    continue
                g = self.run_one(k, f, args, lambda x, lo: max(lo, ds.get(x, least.get(x, 1))), left)
                used = dict(self.m.dims_used)
                if used in done:
                    continue
                done.append(used)
                for x in g:
                    x.mode = 'sizes %s' % ','.join('%s=%s' % z for z in sorted(used.items()))
                if any(x.status == REFUTED for x in g):
                    return g
                if any(x.status == UNDECIDED for x in g):
                    late.add(n)
                out += [x for x in g if x.status != UNDECIDED]
        return out

    def run(self, mod, secs=60, only=None, verbose=False, dimsets=None, thorough=False):
        for k, f, args in self.contracts(mod):
            nm = self.case_name(k, args)
            if only and only not in nm:
                continue
            t0 = time.time()
            self.stats['contracts'] += 1
            fs = self.run_case(k, f, args, secs, dimsets, thorough)
            first = self.first
            dt = time.time() - t0
            for x in fs:
                self.stats['obligations'] += 1
                self.stats[x.status] += 1
            self.findings += fs
            if verbose:
                cnt = {}
                for x in fs:
                    cnt[x.status] = cnt.get(x.status, 0) + 1
                modes = sorted(set(x.mode for x in fs))
                print('%-60s %6.2fs %s %s' % (nm, dt, cnt, modes))
                for x in first:
                    if x.status == UNDECIDED:
                        print('      (symbolic) %s: %s [%s] %s %s' % (x.msg, x.where, x.loc, x.status, x.detail))
                        break
                for x in fs:
                    if x.status in (REFUTED, UNDECIDED):
                        print('    %s: %s %s at %s\n      %s' % (x.status.upper(), x.msg, x.where, x.loc, x.detail))


def ints(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n) if n is not None else ():
            if isinstance(x, ast.Constant) and type(x.value) is int and 4 <= x.value <= 16:
                out.add(x.value)
    return out


def _ds(base):
    def f(name, lo):
        return max(lo, base[sum(map(ord, name)) % len(base)])
    return f


LARGER_SECS = 25
BEYOND_SECS = 20
DIMSETS = [lambda n, lo: max(lo, 2), _ds((2, 3)), _ds((3, 2, 1)), lambda n, lo: max(lo, 1)]
THOROUGH = DIMSETS + [lambda n, lo: max(lo, 3), _ds((3, 2)), _ds((1, 3, 2)), _ds((2, 1, 3)), _ds((4, 1)), _ds((1, 4))]
