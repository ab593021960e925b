"""Development aid: the term algebra against direct evaluation on random expressions."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from sa.terms import *
from sa.evalterm import Ev, Skip, Undecidable


class G(object):
    """Pairs (term, direct evaluator)."""
    def __init__(self, rnd):
        self.r = rnd
        self.n = var('n%d' % rnd.randrange(10**9), 'int', 'pos', lo=ONE)
        i = fresh_index(ZERO, self.n)
        j = fresh_index(ZERO, add(atom(i), ONE))
        k = fresh_index(ZERO, self.n)
        p = fresh_index(ZERO, div(mul(self.n, add(self.n, ONE)), TWO))
        self.ints = [(self.n, lambda e: e['n']), (atom(i), lambda e: e['i']), (atom(j), lambda e: e['j']),
                     (atom(k), lambda e: e['k']), (atom(p), lambda e: e['p'])]
        self.vars = dict(i=i, j=j, k=k, p=p)
        self.X = arrsym('X%d' % rnd.randrange(10**9), (mul(self.n, self.n),))

    def env(self, n, g):
        i = g.randrange(n)
        return dict(n=n, i=i, j=g.randrange(i + 1), k=g.randrange(n), p=g.randrange(n * (n + 1) // 2),
                    X=[g.gauss(0, 1) for _ in range(n * n)])

    def int_(self, d):
        r = self.r
        if d <= 0 or r.random() < .3:
            if r.random() < .2:
                c = r.randrange(-1, 3)
                return num(c), lambda e: c
            return r.choice(self.ints)
        a, fa = self.int_(d - 1)
        b, fb = self.int_(d - 1)
        w = r.randrange(8)
        if w == 0:
            return add(a, b), lambda e: fa(e) + fb(e)
        if w == 1:
            return sub(a, b), lambda e: fa(e) - fb(e)
        if w == 2:
            return mul(a, b), lambda e: fa(e) * fb(e)
        if w == 3:
            c, fc = self.cond(d - 1)
            return ite(c, a, b), lambda e: fa(e) if fc(e) else fb(e)
        if w == 4:
            p, fp = self.ints[4]

            def tri(t):
                x = 0
                while (x + 1) * (x + 2) // 2 <= t:
                    x += 1
                return x
            rr = fn('trirow', p)
            if r.random() < .5:
                return rr, lambda e: tri(e['p'])
            return sub(p, div(mul(rr, add(rr, ONE)), TWO)), lambda e: e['p'] - tri(e['p']) * (tri(e['p']) + 1) // 2
        if w == 5:
            q = self.r.choice([self.n, num(2), num(3)])
            fq = (lambda e: e['n']) if q is self.n else (lambda v: lambda e: v)(int(numval(q)))
            return floordiv(a, q), lambda e: fa(e) // fq(e)
        if w == 6:
            q = self.n
            return mod(a, q), lambda e: fa(e) % e['n']
        return a, fa

    def cond(self, d):
        r = self.r
        a, fa = self.int_(d - 1)
        b, fb = self.int_(d - 1)
        w = r.randrange(6)
        if w == 0:
            return eq0(sub(a, b)), lambda e: fa(e) == fb(e)
        if w == 1:
            return le0(sub(a, b)), lambda e: fa(e) <= fb(e)
        if w == 2:
            return lt0(sub(a, b)), lambda e: fa(e) < fb(e)
        if d > 0:
            c, fc = self.cond(d - 1)
            c2, fc2 = self.cond(d - 1)
            if w == 3:
                return and_(c, c2), lambda e: fc(e) and fc2(e)
            if w == 4:
                return or_(c, c2), lambda e: fc(e) or fc2(e)
            return not_(c), lambda e: not fc(e)
        return TRUE, lambda e: True

    def real(self, d):
        r = self.r
        if d <= 0:
            i, fi = r.choice(self.ints[1:4])
            k, fk = r.choice(self.ints[1:4])
            return get(self.X, add(mul(i, self.n), k)), lambda e: e['X'][fi(e) * e['n'] + fk(e)]
        a, fa = self.real(d - 1)
        b, fb = self.real(d - 1)
        w = r.randrange(6)
        if w == 0:
            return add(a, b), lambda e: fa(e) + fb(e)
        if w == 1:
            return mul(a, b), lambda e: fa(e) * fb(e)
        if w == 2:
            c, fc = self.cond(d)
            return ite(c, a, b), lambda e: fa(e) if fc(e) else fb(e)
        if w == 3:
            c, fc = self.cond(d)
            with_ = assume_ctx(ctx(), c)
            t = restrict(a, with_)
            return ite(c, t, b), lambda e: fa(e) if fc(e) else fb(e)
        if w == 4:
            # sum over k
            v = self.vars['k']
            nv = fresh_index(ZERO, self.n)
            body = subst(a, {v: atom(nv)})

            def f(e):
                s = 0
                for x in range(e['n']):
                    e2 = dict(e)
                    e2['k'] = x
                    s += fa(e2)
                return s
            return sum_over(nv, ZERO, self.n, body), f
        return exp_(neg(mul(a, a))), lambda e: np.exp(-fa(e) ** 2)


def one(seed):
    rnd = random.Random(seed)
    g = G(rnd)
    try:
        t, f = g.real(rnd.randrange(2, 5))
    except Unsupported:
        return 'unsupported'
    if rnd.random() < .5:
        try:
            t = restrict(t)
        except Unsupported:
            return 'unsupported'
    for s in range(12):
        n = rnd.randrange(1, 5)
        e = g.env(n, rnd)
        ev = Ev(s)
        nv = [x for x in g.n.fv][0]
        ev.val[nv] = n
        for k in 'ijkp':
            ev.val[g.vars[k]] = e[k]
        ev.val[g.X] = np.array(e['X'])
        try:
            x = ev.ev(t)
        except (Skip, Undecidable) as ex:
            return 'skip'
        y = f(e)
        if abs(x - y) > 1e-8 * max(1, abs(y)):
            print('SEED', seed, e, x, y)
            print(show(t))
            return 'BAD'
    return 'ok'


if __name__ == '__main__':
    import signal
    lo, hi = int(sys.argv[1]), int(sys.argv[2])
    cnt = {}

    class TO(Exception):
        pass

    def al(*a):
        raise TO()
    signal.signal(signal.SIGALRM, al)
    for s in range(lo, hi):
        signal.alarm(10)
        try:
            r = one(s)
        except TO:
            r = 'timeout'
        signal.alarm(0)
        cnt[r] = cnt.get(r, 0) + 1
    print(cnt)
