"""Random interpretation of value-graph terms.

Two value numbers with different normal forms are compared by evaluating the
two *terms* (never the program) at random points that satisfy the contract's
assumptions: unequal at one point means the value graphs denote different
functions; equal at every point is the (probabilistic) identity test of
Gulwani-Necula style random interpretation.
"""
import hashlib
import itertools
import math

import numpy as np
import scipy.special as ss

from .terms import *


class Undecidable(Exception):
    pass


class Skip(Exception):
    """The sample violates an assumption or leaves the domain of a function."""


_bv = {}


def bvars(t):
    """Bound-variable atoms occurring in t."""
    r = _bv.get(t)
    if r is None:
        s = set()
        if t.op == 'b':
            s.add(t)
        out = []
        _walk2(t.a, out)
        for c in out:
            s |= bvars(c)
        r = frozenset(s)
        _bv[t] = r
    return r


def _walk2(a, out):
    for x in a:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            _walk2(x, out)


def _seed(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'big')


def _h(*a):
    """Deterministic number in (-1, 1) from a key."""
    return (_seed(*a) / 2.0 ** 63) - 1.0


class Guards(dict):
    """Comparisons met: of reals with how clearly they went each way, of integers with the ways they went."""

    def __init__(self):
        dict.__init__(self)
        self.ints = {}


class Ev(object):
    def __init__(self, seed, boxvals=None, preset=None, scale=1.0):
        self.seed = seed
        self.val = dict(preset or {})
        self.boxvals = boxvals or {}
        self.memo = {}
        self.env = {}
        self.scale = scale
        self.steps = 0
        self.most = 3000000
        self.mostentries = 4000
        self.maxdim = 3
        self.guards = None
        self.ties = False

    # -------------------------------------------------------------- sampling
    def rng(self, name):
        return np.random.default_rng(_seed(self.seed, name))

    def sample_v(self, t):
        r = self.val.get(t)
        if r is not None:
            return r
        if t in self.boxvals:
            r = self.ev(self.boxvals[t])
            self.val[t] = r
            return r
        ps = PROPS.get(t, ())
        g = self.rng(t.a[0])
        if t in RANGE and RANGE[t] != (None, None):
            lo, hi = RANGE[t]
            lo = self.ev(lo) if lo is not None else (-4 if hi is None else None)
            if hi is None:
                hi = lo + self.maxdim
            else:
                hi = self.ev(hi)
            if hi == float('inf'):
                hi = (lo or 0) + 4
            if lo is None:
                lo = hi - 5
            if int(hi) <= int(lo):
                raise Skip('empty range')
            r = int(g.integers(int(lo), int(hi)))
        elif 'bool' in ps:
            r = int(g.integers(0, 2))
        elif 'int' in ps:
            if 'pos' in ps:
                r = int(g.integers(1, self.maxdim + 1))
            elif 'nonneg' in ps:
                r = int(g.integers(0, self.maxdim + 1))
            else:
                r = int(g.integers(-3, 6))
        elif 'pos' in ps:
            r = float(np.exp(g.normal() * 0.7 * self.scale))
        elif 'nonneg' in ps:
            r = float(abs(g.normal()) * self.scale)
        else:
            r = float(g.normal() * self.scale)
        self.val[t] = r
        return r

    def sample_arr(self, t):
        r = self.val.get(t)
        if r is not None:
            return r
        if t in self.boxvals:
            r = self.evarr(self.boxvals[t])
            self.val[t] = r
            return r
        dims = tuple(int(self.ev(d)) for d in t.a[1])
        if any(d < 0 for d in dims) or np.prod(dims, dtype=float) > self.mostentries:
            raise Skip('dims')
        ps = PROPS.get(t, ())
        g = self.rng(t.a[0])
        if 'pd' in ps:
            L = g.normal(size=dims) * 0.6
            r = np.matmul(L, np.swapaxes(L, -1, -2)) + np.eye(dims[-1]) * 0.7
        elif 'ld' in ps:
            r = np.tril(g.normal(size=dims) * 0.5)
            k = np.arange(dims[-1])
            r[..., k, k] = np.exp(g.normal(size=dims[:-1]) * 0.4)
        elif 'bool' in ps:
            r = g.integers(0, 2, size=dims)
        elif t in INDEX_BOUND:
            r = g.integers(0, max(1, int(self.ev(INDEX_BOUND[t]))), size=dims)
        elif 'int' in ps:
            if 'nonneg' in ps or 'pos' in ps:
                r = g.integers(1 if 'pos' in ps else 0, 4, size=dims)
            else:
                r = g.integers(-3, 4, size=dims)
        elif 'simplex' in ps:
            r = np.exp(g.normal(size=dims))
            r = r / r.sum(axis=-1, keepdims=True)
        elif 'pos' in ps:
            r = np.exp(g.normal(size=dims) * 0.7 * self.scale)
        else:
            r = g.normal(size=dims) * self.scale
            if 'sym' in ps:
                r = (r + np.swapaxes(r, -1, -2)) / 2
            if 'pos01' in ps:
                r = 1 / (1 + np.exp(-r))
        self.val[t] = r
        return r

    # -------------------------------------------------------------- evaluation
    def key(self, t):
        b = bvars(t)
        if not b:
            return t
        e = self.env
        return (t, tuple((x.a[0], x.a[1], e.get(x)) for x in sorted(b, key=lambda z: z.key) if x in e))

    def ev(self, t):
        """Value of a scalar term (float, int or bool for conditions)."""
        k = self.key(t)
        r = self.memo.get(k)
        if r is None:
            self.steps += 1
            if self.steps > self.most:
                raise Undecidable('term too large to evaluate')
            r = self._ev(t)
            self.memo[k] = r
        return r

    def _ev(self, t):
        op = t.op
        if op == 'Q':
            return self.evq(t)[0]
        if op == 'I':
            return self.ev(t.a[1]) if self.cond(t.a[0]) else self.ev(t.a[2])
        if op == 'B':
            return t.a[0]
        if op in ('le', 'lt', 'eq', 'all'):
            return self.cond(t)
        if op == 'c':
            return t
        return self.atom(t)

    def evq(self, t):
        """(value, magnitude)."""
        N, D = t.a
        tot, mag = 0, 0.0
        for m, c in N:
            x = c.numerator if c.denominator == 1 else c.numerator / c.denominator
            for a, e in m:
                v = self.ev(a)
                x = x * self.powv(v, e)
            tot = tot + x
            mag += abs(x)
        for s, k in D:
            v = self.ev(s)
            if v == 0:
                raise Skip('division by zero')
            tot = tot / v ** k
            mag = mag / abs(v) ** k
        if mag > 1e9 and isinstance(tot, float) and abs(tot) < 1e-6 * mag:
            raise Skip('cancellation')
        if mag > 1e4 and isinstance(tot, float) and 0 < abs(tot) <= 1e-13 * mag:
            raise Skip('nothing but rounding')
        return tot, mag

    def powv(self, v, e):
        if e == 1:
            return v
        if e.denominator == 1:
            e = e.numerator
            if v == 0 and e < 0:
                raise Skip('division by zero')
            try:
                return v ** e if e > 0 else 1.0 / v ** (-e)
            except OverflowError:
                raise Skip('overflow')
        if v < 0:
            if v > -1e-13:
                return 0.0
            raise Skip('root of a negative number')
        if v == 0 and e < 0:
            raise Skip('division by zero')
        return float(v) ** float(e)

    def cond(self, c):
        op = c.op
        if op in ('le', 'lt', 'eq'):
            q = c.a[0]
            if q.op == 'Q':
                v, mag = self.evq(q)
            else:
                v = self.ev(q)
                mag = abs(v)
            if v != v:
                raise Skip('nan in condition')
            if self.ties and isinstance(v, (float, np.floating)) and np.isinf(v):
                raise Skip('overflow')
            if isinstance(v, int):
                z = v == 0
            else:
                z = abs(v) <= 1e-11 * mag + 1e-13
                if self.ties and op != 'eq' and abs(v) <= 1e-7 * mag + 1e-11:
                    raise Skip('tie')
            if op == 'eq':
                r = z
            elif op == 'le':
                r = z or v < 0
            else:
                r = (not z) and v < 0
            if self.guards is not None and isinstance(v, int):
                g = self.guards.ints
                g[c] = g.get(c, 0) | (2 if r else 1)
            elif self.guards is not None and isinstance(v, (float, np.floating)):
                g = self.guards.get(c)
                if g is None:
                    g = self.guards[c] = [None, None, v, v]
                w = abs(v) / mag if mag else 0.0
                if g[r] is None or w > g[r]:
                    g[r] = w
                if v < g[2]:
                    g[2] = v
                if v > g[3]:
                    g[3] = v
            return r
        if op == 'all':
            dims, body, h = c.a
            return self.loop(c, dims, h, lambda: self.ev(body), lambda it: all(it))
        if op == 'B':
            return c.a[0]
        if op == 'I':
            return bool(self.ev(c))
        raise Undecidable('condition %s' % op)

    def loop(self, t, dims, h, f, red, prefix=()):
        """Reduce f over the index space of a binder."""
        env0 = self.env
        bs = [mk('b', h, j, d) for j, d in enumerate(dims)]

        def gen(j):
            if j == len(dims):
                yield f()
                return
            n = int(self.ev(dims[j]))
            for i in range(n):
                self.env = dict(self.env)
                self.env[bs[j]] = i
                for x in gen(j + 1):
                    yield x
        try:
            return red(gen(0))
        finally:
            self.env = env0

    def evarr(self, X):
        """numpy array value of an array term."""
        k = ('A', self.key(X))
        r = self.memo.get(k)
        if r is None:
            r = self._evarr(X)
            self.memo[k] = r
        return r

    def _evarr(self, X):
        op = X.op
        if op == 'arr':
            return self.sample_arr(X)
        if op == 'I':
            return self.evarr(X.a[1]) if self.cond(X.a[0]) else self.evarr(X.a[2])
        if op == 'tab':
            shape = [int(self.ev(d)) for d in X.a[0]]
            vs = [self.ev(e) for e in X.a[1]]
            try:
                if not vs:
                    return np.zeros(shape)
                a = np.array(vs, dtype=float if any(isinstance(z, (float, np.floating)) for z in vs) else np.int64)
            except (TypeError, OverflowError, ValueError):
                raise Undecidable('non-numeric entries')
            return a.reshape(shape)
        if op == 'L':
            dims, body, h = X.a
            env0 = self.env
            bs = [mk('b', h, j, d) for j, d in enumerate(dims)]
            try:
                def build(j):
                    if j == len(dims):
                        return self.ev(body)
                    n = int(self.ev(dims[j]))
                    out = []
                    for i in range(n):
                        self.env = dict(self.env)
                        self.env[bs[j]] = i
                        out.append(build(j + 1))
                    return out
                lst = build(0)
                shape = []
                self.env = env0
                e = dict(env0)
                for j, d in enumerate(dims):
                    self.env = e
                    n = int(self.ev(d))
                    shape.append(n)
                    e = dict(e)
                    e[bs[j]] = 0
                a = np.array(lst, dtype=object)
                if a.size == 0:
                    return np.zeros(shape)
                a = a.reshape(shape)
                try:
                    return a.astype(float) if any(isinstance(z, float) or isinstance(z, np.floating) for z in a.ravel()) \
                        else a.astype(np.int64)
                except (TypeError, OverflowError):
                    raise Undecidable('non-numeric entries')
            finally:
                self.env = env0
        if op == 'afn':
            return self.afn(X)
        raise Undecidable('array %s' % op)

    def afn(self, X):
        name = X.a[0]
        args = X.a[2:]
        try:
            if name == 'inv':
                A = np.asarray(self.evarr(args[0]), float)
                self.finite(A)
                if np.linalg.cond(A) > 1e9:
                    raise Skip('singular')
                return np.linalg.inv(A)
            if name == 'chol':
                A = np.asarray(self.evarr(args[0]), float)
                self.finite(A)
                return np.linalg.cholesky(A)
            if name in ('logdet', 'detsign') and np.linalg.cond(self.finite(np.asarray(self.evarr(args[0]), float))) > 1e10:
                raise Skip('singular')
            if name == 'logdet':
                return np.asarray(np.linalg.slogdet(np.asarray(self.evarr(args[0]), float))[1])
            if name == 'detsign':
                return np.asarray(np.linalg.slogdet(np.asarray(self.evarr(args[0]), float))[0])
            if name in ('eigval', 'eigvec'):
                A = np.asarray(self.evarr(args[0]), float)
                self.finite(A)
                w, v = np.linalg.eigh(A)
                if name == 'eigval':
                    return w
                for j in range(v.shape[1]):
                    i = int(np.argmax(np.abs(v[:, j])))
                    if v[i, j] < 0:
                        v[:, j] = -v[:, j]
                return v
            if name == 'amax':
                A = self.evarr(args[0])
                if A.size == 0:
                    raise Skip('max of empty')
                return np.asarray(np.max(A))
            if name == 'prod':
                return np.asarray(np.prod(self.evarr(args[0])))
            if name == 'maskpos':
                return np.nonzero(np.asarray(self.evarr(args[0]), float) != 0)[0]
            if name == 'mu':
                return self.mu(X)
            if name == 'csr_mixed':
                # parts that do not belong together: some other matrix
                return self.rng(('mixed', X.key)).normal(size=tuple(int(self.ev(x)) for x in X.a[1]))
        except np.linalg.LinAlgError:
            raise Skip('linear algebra failure')
        raise Undecidable('array function %s' % name)

    def finite(self, A):
        if not np.all(np.isfinite(A)):
            raise Skip('non-finite matrix')
        return A

    def mu(self, X):
        which, lo, hi, body = X.a[2], X.a[3], X.a[4], X.a[5]
        inits = X.a[6:]
        which = int(self.ev(which))
        if body.op != 'mubody':
            raise Undecidable('loop body ' + body.op)
        nv, syms, posts, g = body.a
        lo = int(self.ev(lo))
        hi = self.ev(hi)
        cur = []
        for s, i in zip(syms, inits):
            cur.append(np.array(self.evarr(i)) if s.op == 'arr' else self.ev(i))
        it = lo
        n = 0
        while it < hi:
            sub_ = Ev(self.seed, self.boxvals, self.val, self.scale)
            sub_.guards = self.guards
            sub_.ties = self.ties
            sub_.env = dict(self.env)
            sub_.val[nv] = it
            for s, c in zip(syms, cur):
                sub_.val[s] = c
            if g is not TRUE and not sub_.cond(g) and True:
                break
            cur = [np.array(sub_.evarr(p)) if s.op == 'arr' else sub_.ev(p) for s, p in zip(syms, posts)]
            it += 1
            n += 1
            if n > 300:
                raise Undecidable('loop does not terminate')
        return np.asarray(cur[which])

    def entry(self, X, L, idx):
        """One entry of a named array."""
        k = ('E', X, idx)
        r = self.memo.get(k)
        if r is None:
            dims, body, h = L.a
            env0 = self.env
            self.env = {}
            try:
                for j, (d, i) in enumerate(zip(dims, idx)):
                    if i < 0 or i >= self.ev(d):
                        raise Skip('index out of range')
                    self.env[mk('b', h, j, d)] = i
                r = self.ev(body)
            finally:
                self.env = env0
            self.memo[k] = r
        return r

    # -------------------------------------------------------------- atoms
    def atom(self, t):
        op = t.op
        if op == 'v':
            return self.sample_v(t)
        if op == 'b':
            if t in self.env:
                return self.env[t]
            raise Undecidable('unbound index')
        if op == 'get':
            X = t.a[0]
            idx = tuple(int(self.ev(i)) for i in t.a[1:])
            if X in self.boxvals and self.boxvals[X].op == 'L':
                return self.entry(X, self.boxvals[X], idx)
            A = self.evarr(X)
            for i, n in zip(idx, A.shape):
                if i < 0 or i >= n:
                    raise Skip('index out of range')
            v = A[idx]
            return v.item() if hasattr(v, 'item') else v
        if op == 'E':
            v = self.ev(t.a[0])
            if v > 650:
                raise Skip('overflow')
            return math.exp(v)
        if op == 'log':
            v = self.ev(t.a[0])
            if v <= 0:
                raise Skip('log of non-positive')
            return math.log(v)
        if op == 'logn':
            return math.log(t.a[0])
        if op == 'rt':
            return float(t.a[0])
        if op == 'abs':
            return abs(self.ev(t.a[0]))
        if op == 'pi':
            return math.pi
        if op == 'inf':
            return float('inf')
        if op == 'iv':
            return 1 if self.cond(t.a[0]) else 0
        if op == 'floor':
            x, d = self.ev(t.a[0]), self.ev(t.a[1])
            if d == 0:
                raise Skip('division by zero')
            if self.guards is not None and not isinstance(x, int) and x:
                g = self.guards.get(t)
                w = abs(x / d)
                if g is None:
                    self.guards[t] = [w, w, w, w]
                else:
                    g[2], g[3] = min(w, g[2]), max(w, g[3])
            return int(math.floor(x / d + 1e-12)) if not (isinstance(x, int) and isinstance(d, int)) else x // d
        if op == 'mod':
            x, d = self.ev(t.a[0]), self.ev(t.a[1])
            if d == 0:
                raise Skip('division by zero')
            return x % d
        if op == 'S':
            dims, body, h = t.a
            return self.loop(t, dims, h, lambda: self.ev(body), lambda it: sum(it))
        if op == 'fn':
            return self.fn(t)
        if op == 'Q':
            return self.ev(t)
        if op in ('app', 'dapp'):
            return self.app(t)
        if op == 'opaque':
            raise Undecidable(str(t.a[0]))
        raise Undecidable('atom %s' % op)

    def fn(self, t):
        name = t.a[0]
        a = [self.ev(x) for x in t.a[1:]]
        if name == 'polygamma':
            n, x = int(a[0]), float(a[1])
            if x <= 0 and (n > 0 or x == int(x)):
                raise Skip('polygamma domain')
            if n == 0:
                return float(ss.digamma(x))
            return float(ss.polygamma(n, x))
        x = float(a[0])
        if name == 'f32':
            # fewer digits, few enough to be seen
            if x == 0 or not math.isfinite(x):
                return x
            k = math.frexp(x)[1] - 8
            return math.ldexp(round(math.ldexp(x, -k)), k)
        if name == 'gammaln':
            if x <= 0:
                raise Skip('gammaln domain')
            return float(ss.gammaln(x))
        if name == 'sin':
            return math.sin(x)
        if name == 'cos':
            return math.cos(x)
        if name == 'arctan':
            return math.atan(x)
        if name == 'erf':
            return math.erf(x)
        if name == 'ndtri':
            if not 0 < x < 1:
                raise Skip('ndtri domain')
            return float(ss.ndtri(x))
        if name == 'ndtr':
            return float(ss.ndtr(x))
        if name == 'factorial':
            if x < 0:
                raise Skip('factorial domain')
            return math.factorial(int(x))
        if name == 'trirow':
            n = int(round(x))
            i = 0
            while (i + 1) * (i + 2) // 2 <= n:
                i += 1
            return i
        raise Undecidable('function %s' % name)

    def app(self, t):
        """Uninterpreted smooth function: c0 + sum_k c_k sin(w_k . x + b_k)."""
        if t.op == 'app':
            name, out, args = t.a
            ders = ()
        else:
            name, out, ders, args = t.a
        o = tuple(int(self.ev(x)) for x in out)
        seed = self.seed
        ws = 1.0
        terms = []
        xs = []
        for i, a in enumerate(args):
            y = a
            while y.op == 'I':
                y = y.a[1]
            if y.op in ('arr', 'L', 'afn', 'tab'):
                A = self.evarr(a)
                for idx in itertools.product(*[range(n) for n in A.shape]):
                    xs.append(((i,) + idx, float(A[idx])))
            else:
                v = self.ev(a)
                if isinstance(v, T):
                    raise Undecidable('non-numeric argument')
                xs.append(((i,), float(v)))
        ds = [(d[0],) + tuple(int(self.ev(z)) for z in d[1:]) for d in ders]
        tot = 0.0 if ds else _h(seed, name, o, 'c0')
        for k in range(4):
            arg = _h(seed, name, o, k, 'b') * 3
            for pos, v in xs:
                arg += _h(seed, name, o, k, 'w', pos) * v
            c = _h(seed, name, o, k, 'c') + 0.5
            f = c
            for d in ds:
                f *= _h(seed, name, o, k, 'w', d)
            n = len(ds) % 4
            f *= (math.sin(arg), math.cos(arg), -math.sin(arg), -math.cos(arg))[n]
            tot += f
        return tot


# ------------------------------------------------------------ sample worlds
# Points at which facts and candidate inequalities are evaluated before a proof is attempted.
# They only ever say "not provable", so they cannot make anything true.

class World(Ev):
    def atom(self, t):
        if t.op == 'b':
            r = self.env.get(t)
            if r is None:
                r = self.val.get(t)
                if r is None:
                    n = self.ev(t.a[2])
                    if not n > 0:
                        raise Skip('empty range')
                    r = self.val[t] = int(self.rng(('b',) + t.a[:2]).integers(0, int(min(n, 50))))
            return r
        return Ev.atom(self, t)


class Worlds(object):
    N = 36

    def __init__(self):
        self.gen = 0
        self.reset()

    def reset(self, defs=None):
        self.gen += 1
        self.all = []
        for k in range(self.N):
            w = World(('w', k), scale=(1.0, 0.5, 2.0)[k % 3])
            if defs is not None:
                w.boxvals = defs
            w.maxdim = (1, 2, 3, 4, 3, 2)[k % 6]
            self.all.append(w)

    def alive(self, c):
        if c.worlds is not None and c.worlds[0] == self.gen:
            return c.worlds[1]
        if c.parent is None:
            ws = self.all
        else:
            ws = self.alive(c.parent)
            if c.step is not None:
                cond, val = c.step
                out = []
                for w in ws:
                    try:
                        w.steps = 2990000
                        if bool(w.cond(cond)) == val:
                            out.append(w)
                    except (Skip, Undecidable, OverflowError, ZeroDivisionError, ValueError):
                        pass
                ws = out
        c.worlds = (self.gen, ws)
        return ws

    def refutes(self, q, c, strict):
        n = 0
        for w in self.alive(c):
            try:
                w.steps = 2990000
                v, mag = w.evq(q)
            except (Skip, Undecidable, OverflowError, ZeroDivisionError, ValueError):
                n += 1
                if n > 6:
                    return False
                continue
            if isinstance(v, int):
                if v < 0 or (strict and v == 0):
                    return True
            elif v < -(1e-9 * mag + 1e-12):
                return True
        return False


WORLDS = Worlds()
REFUTER[0] = WORLDS.refutes
