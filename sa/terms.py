"""Value-graph terms: hash-consed, algebraically normalised scalar and array terms.

Scalars are gated values: a binary decision DAG ('I' nodes) over atomic
conditions whose leaves are rational functions ('Q' nodes) in atoms with exact
rational coefficients.  Arrays are either symbols, opaque matrix functions or
lambda terms over index variables.  Sums over index ranges are 'S' atoms.

Nothing here evaluates the analysed program: it is the normal form in which
the analyser's value numbers are kept and compared.
"""
from fractions import Fraction as Fr
from itertools import permutations
import hashlib
import sys

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """The analyser met something it does not model."""


class T(object):
    __slots__ = ('op', 'a', 'key', 'fv', 'ht', 'opq', '__weakref__')

    def __repr__(self):
        return show(self)


_table = {}


def _walk(a, out):
    if isinstance(a, T):
        out.append(a)
    elif isinstance(a, tuple):
        for x in a:
            _walk(x, out)


def _enc(a, h):
    if isinstance(a, T):
        h.append(b'T')
        h.append(a.key)
    elif isinstance(a, tuple):
        h.append(b'(')
        for x in a:
            _enc(x, h)
        h.append(b')')
    else:
        h.append(repr(a).encode())
        h.append(b';')


_EMPTY = frozenset()


def mk(op, *a):
    k = (op, a)
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    h = [op.encode(), b':']
    _enc(a, h)
    t.key = hashlib.blake2b(b''.join(h), digest_size=12).digest()
    ch = []
    _walk(a, ch)
    fv = _EMPTY
    ht = 0
    opq = op == 'opaque'
    for c in ch:
        if c.fv:
            fv = fv | c.fv if fv else c.fv
        if c.ht > ht:
            ht = c.ht
        opq = opq or c.opq
    if op in ('v', 'arr'):
        fv = fv | frozenset([t])
    if op in ('L', 'S', 'all'):
        ht += 1
    t.fv = fv
    t.ht = ht
    t.opq = opq
    _table[k] = t
    return t


def T_eq(a, b):
    return a is b


# ---------------------------------------------------------------- constants
TRUE = mk('B', True)
FALSE = mk('B', False)


def const(v):
    """A non-numeric Python constant (string, None, Ellipsis, type name)."""
    return mk('c', type(v).__name__, v)


NONE = const(None)

# ---------------------------------------------------------------- rational leaves


def _monokey(m):
    return tuple((x[0].key, x[1]) for x in m)


def Q(N, D=()):
    """N: dict mono->coeff (Laurent), D: dict/tuple of (polyT, k)."""
    if isinstance(N, dict):
        items = sorted(((m, c) for m, c in N.items() if c != 0),
                       key=lambda mc: _monokey(mc[0]))
        N = tuple(items)
    if not N:
        D = ()
    return mk('Q', N, tuple(D))


def num(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if c == float('inf'):
            return INF
        if c == -float('inf'):
            return NINF
        if c != c:
            return opaque('nan')
        c = Fr(repr(c))
    c = Fr(c)
    return mk('Q', ((((), c),) if c != 0 else ()), ())


def atom(t, e=1):
    return mk('Q', (((((t, Fr(e)),)), Fr(1)),), ())


ZERO = num(0)
ONE = num(1)
TWO = num(2)
HALF = num(Fr(1, 2))

INF_ATOM = mk('inf')
INF = mk('Q', ((((INF_ATOM, Fr(1)),), Fr(1)),), ())
NINF = mk('Q', ((((INF_ATOM, Fr(1)),), Fr(-1)),), ())

_opq_n = [0]


def opaque(reason):
    _opq_n[0] += 1
    return atom(mk('opaque', str(reason), _opq_n[0]))


PROPS = {}      # raw atom or array symbol -> set of properties
INDEX_BOUND = {}  # array symbol -> size of the axis its entries index
RANGE = {}      # raw var -> (lo, hi)


def prop(t, p):
    s = PROPS.get(t)
    return s is not None and p in s


def set_props(t, *ps):
    PROPS.setdefault(t, set()).update(ps)


def var(name, *props, lo=None, hi=None):
    t = mk('v', name)
    if props:
        set_props(t, *props)
    if lo is not None or hi is not None:
        RANGE[t] = (lo, hi)
        set_props(t, 'int')
    return atom(t)


_fresh = [0]


def fresh_index(lo, hi, hint='i'):
    _fresh[0] += 1
    t = mk('v', '%%%s%d' % (hint, _fresh[0]))
    PROPS[t] = {'int'}
    RANGE[t] = (lo, hi)
    return t


def arrsym(name, dims, *props):
    t = mk('arr', name, tuple(dims))
    if props:
        set_props(t, *props)
    return t


# ------------------------------------------------------------ polynomial helpers

def isnum(q):
    return q.op == 'Q' and not q.a[1] and (not q.a[0] or (len(q.a[0]) == 1 and not q.a[0][0][0]))


def numval(q):
    return q.a[0][0][1] if q.a[0] else Fr(0)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for t, e in m2:
        if t.op == 'iv':
            d[t] = Fr(1)
            continue
        ne = d.get(t, 0) + e
        if ne == 0:
            d.pop(t, None)
        else:
            d[t] = ne
    return tuple(sorted(d.items(), key=lambda x: x[0].key))


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return fixroots(r)


def pscale(p, m, c):
    return {mono_mul(k, m): v * c for k, v in p.items()}


def fixroots(p):
    """Expand a polynomial base raised to an integer power >= 1 inside monomials."""
    bad = None
    for m in p:
        for t, e in m:
            if (t.op == 'Q' or t.op == 'rt') and (e >= 1 or e < 0):
                bad = True
                break
        if bad:
            break
    if not bad:
        return p
    r = {}
    for m, c in p.items():
        part = {(): c}
        for t, e in m:
            if (t.op == 'Q' or t.op == 'rt') and (e >= 1 or e < 0):
                k = e.numerator // e.denominator
                rest = e - k
                if t.op == 'rt':
                    part = pscale(part, ((t, rest),) if rest else (), Fr(t.a[0]) ** k)
                    continue
                if k < 0:
                    # cannot expand here; leave (callers avoid this)
                    part = pscale(part, ((t, e),), 1)
                    continue
                base = dict(t.a[0])
                for _ in range(k):
                    part = pmul(part, base)
                if rest:
                    part = pscale(part, ((t, rest),), 1)
            else:
                part = pscale(part, ((t, e),), 1)
        r = padd(r, part)
    return r


def content(p):
    """Monomial content of a Laurent polynomial: (mono, rational)."""
    mins = None
    for m in p:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for t in list(mins):
                if t.op == 'iv':
                    if t not in d:
                        del mins[t]
                    continue
                mins[t] = min(mins[t], d.get(t, Fr(0)))
            for t, e in d.items():
                if t not in mins and e < 0 and t.op != 'iv':
                    mins[t] = e
    mins = {t: e for t, e in (mins or {}).items() if e != 0 and t.op != 'iv'}
    mono = tuple(sorted(mins.items(), key=lambda x: x[0].key))
    return mono


def mono_inv(m):
    return tuple((t, -e) for t, e in m)


def leading(p):
    return max(p.items(), key=lambda mc: _lead_key(mc[0]))


def _lead_key(m):
    tot = sum((e for _, e in m), Fr(0))
    return (tot, _monokey(m))


def primitive(p):
    """p = coeff * mono * prim, prim has zero content, leading coeff 1."""
    mono = content(p)
    if mono:
        p = pscale(p, mono_inv(mono), 1)
    lm, lc = leading(p)
    if lc != 1:
        p = {m: c / lc for m, c in p.items()}
    return lc, mono, p


def _vars_of(p):
    s = set()
    for m in p:
        for t, _ in m:
            s.add(t)
    return s


def exact_div(p, d):
    """Exact division of Laurent polynomials p / d (d primitive), or None."""
    if not p:
        return {}
    cm = content(p)
    q0 = pscale(p, mono_inv(cm), 1) if cm else dict(p)
    dv = _vars_of(d)
    if not dv <= _vars_of(q0):
        return None
    allv = sorted(_vars_of(q0), key=lambda t: (t not in dv, t.key))
    pos = {t: i for i, t in enumerate(allv)}
    n = len(allv)

    def vec(m):
        v = [Fr(0)] * n
        for t, e in m:
            v[pos[t]] = e
        return tuple(v)
    P = {vec(m): c for m, c in q0.items()}
    Dv = {vec(m): c for m, c in d.items()}
    lead = max(Dv)
    lc = Dv[lead]
    out = {}
    steps = 0
    while P:
        steps += 1
        if steps > 400:
            return None
        top = max(P)
        ex = tuple(a - b for a, b in zip(top, lead))
        if any(e < 0 for e in ex):
            return None
        c = P[top] / lc
        out[ex] = out.get(ex, 0) + c
        for m, dc in Dv.items():
            k = tuple(a + b for a, b in zip(ex, m))
            v = P.get(k, 0) - c * dc
            if v == 0:
                P.pop(k, None)
            else:
                P[k] = v
    res = {}
    for ex, c in out.items():
        m = tuple(sorted(((allv[i], e) for i, e in enumerate(ex) if e != 0),
                         key=lambda x: x[0].key))
        res[m] = c
    if cm:
        res = pscale(res, cm, 1)
    return res


def mkq(N, D):
    """Build a reduced fraction from dict N and dict D: polyT -> int power (>0)."""
    if not N:
        return ZERO
    D = {s: k for s, k in D.items() if k}
    changed = True
    while changed and D:
        changed = False
        for s in sorted(D, key=lambda t: t.key):
            sd = dict(s.a[0])
            r = exact_div(N, sd)
            while r is not None and D.get(s, 0) > 0:
                N = r
                D[s] -= 1
                changed = True
                if D[s] == 0:
                    del D[s]
                    break
                r = exact_div(N, sd)
            if not N:
                return ZERO
    return Q(N, tuple(sorted(D.items(), key=lambda x: x[0].key)))


def q_add2(x, y):
    if isinf(x):
        return x
    if isinf(y):
        return y
    if x.a[1] == y.a[1]:
        N = padd(dict(x.a[0]), dict(y.a[0]))
        if not x.a[1]:
            return Q(N)
        return mkq(N, dict(x.a[1]))
    D = dict(x.a[1])
    for s, k in y.a[1]:
        D[s] = max(D.get(s, 0), k)

    def scaled(z):
        p = dict(z.a[0])
        dz = dict(z.a[1])
        for s, k in D.items():
            for _ in range(k - dz.get(s, 0)):
                p = pmul(p, dict(s.a[0]))
        return p
    return mkq(padd(scaled(x), scaled(y)), D)


def isinf(q):
    return q is INF or q is NINF


def q_mul2(x, y):
    if x is ONE:
        return y
    if y is ONE:
        return x
    if isinf(x) or isinf(y):
        a, b = (x, y) if isinf(x) else (y, x)
        s = sign_of(b)
        if s is None or s == 0:
            return opaque('inf*unknown')
        return a if s > 0 else (NINF if a is INF else INF)
    if not x.a[0] or not y.a[0]:
        return ZERO
    N = pmul(dict(x.a[0]), dict(y.a[0]))
    if not x.a[1] and not y.a[1]:
        return Q(N)
    D = dict(x.a[1])
    for s, k in y.a[1]:
        D[s] = D.get(s, 0) + k
    return mkq(N, D)


def q_pow(x, e):
    e = Fr(e)
    if e == 1:
        return x
    if e == 0:
        return ONE
    if isinf(x):
        if x is INF:
            return INF if e > 0 else ZERO
        return opaque('(-inf)**e')
    if not x.a[0]:
        if e > 0:
            return ZERO
        return opaque('1/0')
    if e.denominator == 1 and e > 0:
        r = ONE
        for _ in range(int(e)):
            r = q_mul2(r, x)
        return r
    lc, mono, prim = primitive(dict(x.a[0]))
    # lc^e * mono^e * prim^e * D^-e
    res = _num_pow(lc, e)
    m2 = []
    for t, k in mono:
        ke = k * e
        if e.denominator != 1 and k.denominator == 1 and k % 2 == 0 and ke.denominator == 1 \
                and ke % 2 == 1 and not is_pos_atom(t):
            # (t^2)^(1/2) = |t|
            m2.append((mk('abs', atom(t)), ke))
        else:
            m2.append((t, ke))
    res = q_mul2(res, Q({tuple(sorted(m2, key=lambda z: z[0].key)): Fr(1)}))
    factors = []
    if len(prim) > 1 or () not in prim:
        factors.append((prim, e))
    for s, k in x.a[1]:
        factors.append((dict(s.a[0]), -e * k))
    for p, ex in factors:
        if len(p) == 1:
            (m, c), = p.items()
            if not m:
                continue
        if ex.denominator != 1:
            r = _sqrt_poly(p) if ex.denominator == 2 else None
            if r is not None:
                rq = Q(r)
                if sign_of(rq) in (1, 0):
                    pass
                elif sign_of(rq) == -1:
                    rq = q_mul2(num(-1), rq)
                else:
                    rq = absval(rq)
                res = q_mul2(res, q_pow(rq, ex * 2))
                continue
        k = ex.numerator // ex.denominator
        rest = ex - k
        base = Q(p)
        if rest:
            res = q_mul2(res, atom(base, rest))
        if k > 0:
            for _ in range(k):
                res = q_mul2(res, base)
        elif k < 0:
            res = q_mul2(res, Q({(): Fr(1)}, ((base, -k),)))
    return res


def _num_pow(c, e):
    if c == 1:
        return ONE
    if e.denominator == 1:
        return num(c ** int(e))
    if c < 0:
        return opaque('negative root')
    res = ONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in factorint(n):
            x = Fr(k * s) * e
            i = x.numerator // x.denominator
            fr = x - i
            res = q_mul2(res, num(Fr(p) ** i))
            if fr:
                res = q_mul2(res, atom(mk('rt', p), fr) if fr.denominator != 1 else num(p))
    return res


def factorint(n):
    out = []
    d = 2
    while d * d <= n:
        k = 0
        while n % d == 0:
            n //= d
            k += 1
        if k:
            out.append((d, k))
        d += 1 if d == 2 else 2
        if d > 100000:
            break
    if n > 1:
        out.append((n, 1))
    return out


def _sqrt_poly(p):
    """Square root of a polynomial that is a perfect square, or None."""
    p = dict(p)
    if any(e < 0 for m in p for _, e in m):
        return None
    vs = sorted(_vars_of(p), key=lambda t: t.key)
    if not vs:
        return None
    pos = {t: i for i, t in enumerate(vs)}

    def vec(m):
        v = [Fr(0)] * len(vs)
        for t, e in m:
            v[pos[t]] = e
        return tuple(v)
    P = {vec(m): c for m, c in p.items()}
    top = max(P)
    c = P[top]
    if c < 0:
        return None
    n, d = c.numerator, c.denominator
    import math
    sn, sd = math.isqrt(n), math.isqrt(d)
    if sn * sn != n or sd * sd != d:
        return None
    half = tuple(e / 2 for e in top)
    if any((e / 2).denominator != 1 and e.denominator == 1 for e in top):
        return None
    lead = Fr(sn, sd)
    root = {half: lead}
    rem = dict(P)
    _subsq(rem, {}, half, lead)
    for _ in range(60):
        if not rem:
            out = {}
            for ex, cc in root.items():
                m = tuple(sorted(((vs[i], e) for i, e in enumerate(ex) if e != 0),
                                 key=lambda x: x[0].key))
                out[m] = cc
            return out
        t = max(rem)
        ex = tuple(a - b for a, b in zip(t, half))
        if any(e < 0 for e in ex) or ex >= half:
            return None
        cc = rem[t] / (2 * lead)
        _subsq(rem, dict(root), ex, cc)
        root[ex] = cc
    return None


def _subsq(rem, root, ex, c):
    def sub(k, v):
        w = rem.get(k, 0) - v
        if w == 0:
            rem.pop(k, None)
        else:
            rem[k] = w
    for k, v in root.items():
        sub(tuple(a + b for a, b in zip(k, ex)), 2 * v * c)
    sub(tuple(2 * a for a in ex), c * c)


# ------------------------------------------------------------ contexts (facts)

class Ctx(object):
    """An immutable set of facts; children extend their parent."""
    __slots__ = ('parent', 'lit', 'ge', 'gt', 'ne', 'cache', 'n', 'defs', 'step', 'worlds')
    _n = 0

    def __init__(self, parent=None):
        self.parent = parent
        if parent is None:
            self.lit, self.ge, self.gt, self.ne = {}, (), (), ()
        else:
            self.lit = dict(parent.lit)
            self.ge, self.gt, self.ne = parent.ge, parent.gt, parent.ne
        self.cache = {}
        self.step = None
        self.worlds = None
        Ctx._n += 1
        self.n = Ctx._n

    def child(self, cond, val):
        """Context extended with atomic condition cond == val (cached)."""
        k = (self.n, cond, val)
        c = _child_cache.get(k)
        if c is not None:
            return c
        c = Ctx(self)
        c.step = (cond, val)
        c.lit[cond] = val
        if cond.op == 'le':
            p = cond.a[0]
            if val:
                c.ge = c.ge + (q_mul2(num(-1), p),)
            else:
                c.gt = c.gt + (p,)
        elif cond.op == 'lt':
            p = cond.a[0]
            if val:
                c.gt = c.gt + (q_mul2(num(-1), p),)
            else:
                c.ge = c.ge + (p,)
        elif cond.op == 'eq':
            p = cond.a[0]
            if val:
                c.ge = c.ge + (p, q_mul2(num(-1), p))
            else:
                c.ne = c.ne + (p,)
        _child_cache[k] = c
        return c


_child_cache = {}


ROOT = Ctx()
_ctx = [ROOT]


def ctx():
    return _ctx[-1]


class using(object):
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        _ctx.append(self.c)

    def __exit__(self, *a):
        _ctx.pop()


def assume_ctx(c, b, val=True):
    """Extend context c with boolean value b (conjunctions are split)."""
    if b.op == 'B':
        return c
    if b.op == 'I':
        cond, t, e = b.a
        want = TRUE if val else FALSE
        other = FALSE if val else TRUE
        # literal implied when one branch is constantly the other value
        if e is other:
            return assume_ctx(c.child(cond, True), t, val)
        if t is other:
            return assume_ctx(c.child(cond, False), e, val)
        if t is want and e is want:
            return c
        n = Ctx(c)
        n.lit[b] = val
        return n
    return c.child(b, val)


# ------------------------------------------------------------ sign / order reasoning

def is_pos_atom(t):
    op = t.op
    if op in ('E', 'pi', 'rt'):
        return True
    if op == 'v':
        if prop(t, 'pos'):
            return True
        r = RANGE.get(t)
        if r and r[0] is not None and isnum(r[0]) and numval(r[0]) > 0:
            return True
        return False
    if op == 'get':
        return prop(t.a[0], 'pos')
    if op == 'Q':
        return sign_of(t) == 1
    if op == 'abs':
        return False
    if op == 'fn':
        return t.a[0] in ('trigamma',)
    if op == 'S':
        return False
    return prop(t, 'pos')


def is_nonneg_atom(t):
    if is_pos_atom(t):
        return True
    op = t.op
    if op in ('abs', 'iv', 'nnz'):
        return True
    if op == 'v':
        if prop(t, 'nonneg'):
            return True
        r = RANGE.get(t)
        if r and r[0] is not None and sign_of(r[0]) in (0, 1) and isnum(r[0]):
            return True
        return False
    if op == 'b':
        return True
    if op == 'get':
        return prop(t.a[0], 'nonneg')
    if op == 'fn':
        return t.a[0] in ('trirow',)
    if op == 'S':
        b = t.a[1]
        return all(c > 0 and all(is_nonneg_atom(x) or (e.denominator == 1 and e % 2 == 0)
                                 for x, e in m) for m, c in b.a[0]) and \
            all(sign_of(s) == 1 for s, _ in b.a[1])
    if op == 'size':
        return True
    if op == 'Q':
        return sign_of(t) in (0, 1)
    return prop(t, 'nonneg')


_signing = set()


import math as _math

_CFN = {'log': _math.log, 'exp': _math.exp, 'gammaln': _math.lgamma}


def const_value(q, depth=6):
    """Floating value of a term without symbols, None when it has any (or is not understood)."""
    if q.op != 'Q' or q.a[1] or q.fv or depth < 0:
        return None
    tot = 0.0
    try:
        for m, c in q.a[0]:
            x = float(c)
            for t, e in m:
                if t.op == 'rt':
                    v = float(t.a[0])
                elif t.op == 'fn' and len(t.a) == 2 and t.a[0] in _CFN:
                    v = const_value(t.a[1], depth - 1)
                    if v is None:
                        return None
                    v = _CFN[t.a[0]](v)
                else:
                    return None
                x *= v ** float(e)
            tot += x
    except (ValueError, OverflowError, ZeroDivisionError):
        return None
    return tot


def sign_of(q):
    r = _sign_of(q)
    if r is None and q.op == 'Q' and not q.fv and not q.a[1]:
        v = const_value(q)
        if v is not None and abs(v) > 1e-7 and abs(v) < 1e12:
            return 1 if v > 0 else -1
    return r


def _sign_of(q):
    """1 if provably > 0, -1 if < 0, 0 if provably >= 0 ('0' means nonneg), None unknown."""
    if q.op != 'Q':
        return None
    if not q.a[0]:
        return 0
    if q is INF:
        return 1
    if q is NINF:
        return -1
    allpos = True
    anystrict = False
    allneg = True
    anyneg = False
    for m, c in q.a[0]:
        nn = True
        st = True
        for t, e in m:
            if is_pos_atom(t):
                continue
            st = False
            if e.denominator == 1 and e % 2 == 0:
                continue
            if is_nonneg_atom(t):
                continue
            nn = False
            break
        if not nn:
            return None
        if c > 0:
            allneg = False
            anystrict = anystrict or st
        else:
            allpos = False
            anyneg = anyneg or st
    for s, k in q.a[1]:
        if k % 2 and sign_of(s) != 1:
            return None
    if allpos:
        return 1 if anystrict else 0
    if allneg:
        return -1 if anyneg else None
    return None


def is_int_atom(t):
    op = t.op
    if op in ('b', 'size', 'nnz', 'floor', 'mod', 'iv'):
        return True
    if op in ('v',):
        return prop(t, 'int')
    if op == 'get':
        return prop(t.a[0], 'int') or (t.a[0].op == 'fn' and t.a[0].a[0] in ('coo_row', 'coo_col', 'perm'))
    if op == 'fn':
        return t.a[0] in ('trirow',)
    if op == 'S':
        return is_int(t.a[1])
    if op == 'app':
        return prop(t, 'int')
    return prop(t, 'int')


def is_int(q):
    if q.op != 'Q' or q.a[1]:
        return False
    den = 1
    ats = set()
    for m, c in q.a[0]:
        for t, e in m:
            if e.denominator != 1 or e < 0 or not is_int_atom(t):
                return False
            ats.add(t)
        d = c.denominator
        import math
        den = den * d // math.gcd(den, d)
    if den == 1:
        return True
    if den > 6 or len(ats) > 4:
        return False
    import itertools
    ats = sorted(ats, key=lambda t: t.key)
    for vals in itertools.product(range(den), repeat=len(ats)):
        env = dict(zip(ats, vals))
        s = Fr(0)
        for m, c in q.a[0]:
            x = c
            for t, e in m:
                x *= env[t] ** int(e)
            s += x
        if s.denominator != 1:
            return False
    return True


def _bounds(t, c):
    """Lower / upper bounds (as Q) for atom t from ranges and facts."""
    los, his = [], []
    if t.op == 'v':
        r = RANGE.get(t)
        if r:
            if r[0] is not None and r[0].op == 'Q':
                los.append(r[0])
            if r[1] is not None and r[1].op == 'Q' and not isinf(r[1]):
                his.append(q_add2(r[1], num(-1)))
        elif prop(t, 'int') and prop(t, 'pos'):
            los.append(ONE)
    elif t.op == 'b':
        los.append(ZERO)
        if t.a[2].op == 'Q' and not isinf(t.a[2]):
            his.append(q_add2(t.a[2], num(-1)))
    elif t.op == 'size':
        los.append(ONE if prop(t, 'pos') else ZERO)
    elif t.op == 'get' and t.a[0].op == 'afn' and t.a[0].a[0] == 'maskpos':
        los.append(ZERO)
        n = arr_dims(t.a[0].a[2])[0]
        if n.op == 'Q':
            his.append(q_add2(n, num(-1)))
    elif t.op == 'get' and t.a[0] in INDEX_BOUND:
        los.append(ZERO)
        if INDEX_BOUND[t.a[0]].op == 'Q':
            his.append(q_add2(INDEX_BOUND[t.a[0]], num(-1)))
    elif t.op == 'get' and prop(t.a[0], 'bool'):
        los.append(ZERO)
        his.append(ONE)
    elif t.op == 'fn' and t.a[0] == 'trirow':
        los.append(ZERO)
        for n in TRI_BOUND.get(t, ()):
            his.append(q_add2(n, num(-1)))
    elif t.op == 'mod':
        los.append(ZERO)
        his.append(q_add2(t.a[1], num(-1)))
    elif t.op == 'floor':
        los.append(ZERO) if sign_of(t.a[0]) in (0, 1) and sign_of(t.a[1]) == 1 else None
        for n in FLOOR_BOUND.get(t, ()):
            his.append(q_add2(n, num(-1)))
    for f in c.ge:
        _bfact(f, t, los, his, False)
    for f in c.gt:
        _bfact(f, t, los, his, True)
    return los, his


TRI_BOUND = {}
FLOOR_BOUND = {}


def _bfact(f, t, los, his, strict):
    if f.op != 'Q' or f.a[1]:
        return
    co = None
    rest = {}
    for m, c in f.a[0]:
        if any(x is t for x, _ in m):
            if len(m) == 1 and m[0][1] == 1 and co is None:
                co = c
            else:
                return
        else:
            rest[m] = c
    if co is None:
        return
    # co*t + rest >= 0 (or > 0)
    b = q_mul2(Q(rest), num(Fr(-1) / co))
    if strict and is_int(f):
        # co*t + rest >= 1
        b = q_add2(b, num(Fr(1) / co))
    (los if co > 0 else his).append(b)


REFUTER = [None]


def nonneg(q, c=None, depth=7, strict=False):
    """Is q >= 0 (q > 0 when strict) provable?"""
    c = c or ctx()
    if q.op != 'Q':
        return False
    k = (q, strict)
    r = c.cache.get(k)
    if r is not None:
        return r
    if not q.a[0] or isnum(q):
        return numval(q) > 0 if strict else numval(q) >= 0
    sg = sign_of(q)
    if sg == 1 or (sg == 0 and not strict):
        c.cache[k] = True
        return True
    # a sample point where it fails spares the search for a proof
    if REFUTER[0] is not None and REFUTER[0](q, c, strict):
        c.cache[k] = False
        return False
    # integers: q > 0 is q - 1 >= 0
    c.cache[k] = False
    outer = _search[0]
    if outer is None:
        _search[0] = [BUDGET, {}]
    try:
        r = _nonneg(q, c, depth, strict, frozenset())
    finally:
        _search[0] = outer
    c.cache[k] = r
    return r


BUDGET = 1200
_search = [None]


def _nonneg(q, c, depth, strict, seen):
    if q is INF:
        return True
    if q is NINF:
        return False
    if isnum(q):
        v = numval(q)
        return v > 0 if strict else v >= 0
    s = sign_of(q)
    if s == 1 or (s == 0 and not strict):
        return True
    if s == -1:
        return False
    if depth <= 0 or (q, strict) in seen:
        return False
    sr = _search[0]
    if sr is not None:
        # within one search: a goal that failed with this much depth is not tried again
        if sr[1].get((c, q, strict), -1) >= depth or sr[0] <= 0:
            return False
        sr[0] -= 1
    r = _nonneg_search(q, c, depth, strict, seen | {(q, strict)})
    if sr is not None and not r:
        sr[1][(c, q, strict)] = depth
    return r


def _nonneg_search(q, c, depth, strict, seen):
    # denominators: multiply through when their sign is known
    if q.a[1]:
        for sp, k in q.a[1]:
            if k % 2 and not _nonneg(sp, c, depth - 2, True, seen):
                if _nonneg(q_mul2(num(-1), sp), c, depth - 2, True, seen):
                    return False
                return False
        return _nonneg(mk('Q', q.a[0], ()), c, depth - 1, strict, seen)
    p = dict(q.a[0])
    cm = content(p)
    if cm:
        ok = all(is_pos_atom(t) or (not strict and (is_nonneg_atom(t) or e % 2 == 0))
                 or _nonneg(atom(t), c, depth - 3, strict, seen) for t, e in cm)
        if ok:
            return _nonneg(Q(pscale(p, mono_inv(cm), 1)), c, depth - 1, strict, seen)
        ok = False
    # match against facts
    for f in c.gt:
        if _pos_multiple(q, f):
            return True
    for f in c.ge:
        if _pos_multiple(q, f):
            if not strict:
                return True
            if any(_pos_multiple(q, z) or _pos_multiple(q_mul2(num(-1), q), z) for z in c.ne):
                return True
    if is_int(q) and strict:
        if _nonneg(q_add2(q, num(-1)), c, depth, False, seen):
            return True
    for f in c.gt + c.ge:
        r = exact_div(p, dict(f.a[0])) if (not f.a[1] and len(f.a[0]) > 1) else None
        if r is not None and (f in c.gt or not strict):
            if _nonneg(Q(r), c, depth - 2, strict, seen):
                return True
    # bound elimination
    ats = {}
    for m, co in q.a[0]:
        for t, e in m:
            ats.setdefault(t, []).append((m, co, e))
    order = sorted(ats, key=lambda t: (t.op not in ('v', 'b'), not str(t.a[0] if t.a else '').startswith('%'), t.key))
    for t in order:
        if any(e != 1 for _, _, e in ats[t]):
            # quadratic in t: convexity not handled
            continue
        coeff = {}
        rest = {}
        for m, co in q.a[0]:
            if any(x is t for x, _ in m):
                m2 = tuple(x for x in m if x[0] is not t)
                coeff[m2] = coeff.get(m2, 0) + co
            else:
                rest[m] = co
        cq = Q(coeff)
        if _nonneg(cq, c, depth - 3, False, seen):
            los, _ = _bounds(t, c)
            for b in los:
                if b.op == 'Q' and t not in b.fv and not _hasatom(b, t):
                    if _nonneg(q_add2(Q(rest), q_mul2(cq, b)), c, depth - 1, strict, seen):
                        return True
        elif _nonneg(q_mul2(num(-1), cq), c, depth - 3, False, seen):
            _, his = _bounds(t, c)
            for b in his:
                if b.op == 'Q' and not _hasatom(b, t):
                    if _nonneg(q_add2(Q(rest), q_mul2(cq, b)), c, depth - 1, strict, seen):
                        return True
    # nonlinear facts: subtract a fact and retry
    if depth > 4:
        for f in (c.ge + c.gt)[-12:]:
            if f.op == 'Q' and not f.a[1] and any(len(m) > 1 or any(e != 1 for _, e in m) for m, _ in f.a[0]):
                d = q_add2(q, q_mul2(num(-1), f))
                if len(d.a[0]) < len(q.a[0]) + 1 and sign_of(d) in ((0, 1) if not strict or f in c.gt else (1,)):
                    return True
                if len(d.a[0]) <= 2 and _nonneg(d, c, depth - 4, strict and f not in c.gt, seen):
                    return True
    for t in ats:
        if t.op == 'fn' and t.a[0] == 'trirow' and depth > 2:
            # 0 <= arg - r(r+1)/2 <= r
            r = atom(t)
            arg = t.a[1]
            lo = q_add2(arg, q_mul2(num(Fr(-1, 2)), q_mul2(r, q_add2(r, ONE))))
            hi = q_add2(r, q_mul2(num(-1), lo))
            for f in (lo, hi):
                d = q_add2(q, q_mul2(num(-1), f))
                if _nonneg(d, c, depth - 4, strict, seen):
                    return True
    return False


def _hasatom(q, t):
    if q.op == 'Q':
        for m, _ in q.a[0]:
            for x, _e in m:
                if x is t:
                    return True
    return False


def _pos_multiple(q, f):
    """q == c * f for a positive rational c?"""
    if q is f:
        return True
    if q.a[1] != f.a[1] or len(q.a[0]) != len(f.a[0]):
        return False
    ratio = None
    for (m1, c1), (m2, c2) in zip(q.a[0], f.a[0]):
        if m1 != m2:
            return False
        r = c1 / c2
        if ratio is None:
            ratio = r
        elif r != ratio:
            return False
    return ratio is not None and ratio > 0


# ------------------------------------------------------------ conditions

def decide(cond, c=None):
    """True / False / None for an atomic condition in context c."""
    c = c or ctx()
    v = c.lit.get(cond)
    if v is not None:
        return v
    k = ('d', cond)
    if k in c.cache:
        return c.cache[k]
    c.cache[k] = None
    r = _decide(cond, c)
    c.cache[k] = r
    return r


def _decide(cond, c):
    op = cond.op
    if op == 'le':
        p = cond.a[0]
        if nonneg(q_mul2(num(-1), p), c):
            return True
        if nonneg(p, c, strict=True):
            return False
        return None
    if op == 'eq':
        p = cond.a[0]
        if nonneg(p, c, strict=True) or nonneg(q_mul2(num(-1), p), c, strict=True):
            return False
        for z in c.ne:
            if _pos_multiple(p, z) or _pos_multiple(q_mul2(num(-1), p), z):
                return False
        if nonneg(p, c) and nonneg(q_mul2(num(-1), p), c):
            return True
        return None
    if op == 'all':
        # open the quantifier and try the body
        dims, body, _h = cond.a
        vs, b = open_binder(cond)
        r = restrict(b, c)
        if r is TRUE:
            return True
        for lit, val in c.lit.items():
            if lit.op == 'all' and val and lit is not cond:
                inst = match_all(lit, vs)
                if inst is not None:
                    c2 = assume_ctx(c, inst)
                    if restrict(b, c2) is TRUE:
                        return True
        return None
    return None


def match_all(lit, vs):
    dims = lit.a[0]
    if len(dims) != len(vs):
        return None
    return instantiate(lit, [atom(v) for v in vs])


def _scale_cond(p):
    """Scale p to primitive leading coeff +-1 without changing the sign; returns (p, flipped)."""
    if isinf(p):
        return p, False
    pd = dict(p.a[0])
    # drop positive denominators / positive content
    D = []
    flip = False
    for s, k in p.a[1]:
        if k % 2 == 0:
            continue
        sg = sign_of(s)
        if sg == 1 or nonneg(s, strict=True):
            continue
        D.append((s, 1))
    mono = content(pd)
    strip = tuple((t, e) for t, e in mono if is_pos_atom(t))
    if strip:
        pd = pscale(pd, mono_inv(strip), 1)
    lm, lc = leading(pd)
    # integer-primitive scaling
    import math
    den = 1
    for cc in pd.values():
        den = den * cc.denominator // math.gcd(den, cc.denominator)
    g = 0
    for cc in pd.values():
        g = math.gcd(g, int(cc * den))
    s = Fr(den, g)
    if lc < 0:
        s = -s
        flip = True
    pd = {m: v * s for m, v in pd.items()}
    return Q(pd, tuple(D)), flip


def le0(p):
    """Boolean value for p <= 0."""
    return lift1(_le0, p)


def _le0(p):
    if p is INF:
        return FALSE
    if p is NINF:
        return TRUE
    if isnum(p):
        return TRUE if numval(p) <= 0 else FALSE
    if p.op != 'Q':
        return bcond(mk('le', p))
    q, flip = _scale_cond(p)
    if not flip:
        if is_int(q):
            return bcond(mk('le', q))
        return bcond(mk('le', q))
    # -q <= 0  i.e. q >= 0  i.e. not (q < 0)
    if is_int(q):
        # q < 0 <=> q + 1 <= 0
        return not_(_le0b(q_add2(q, ONE)))
    return not_(bcond(mk('lt', q)))


def _le0b(q):
    if isnum(q):
        return TRUE if numval(q) <= 0 else FALSE
    q2, flip = _scale_cond(q)
    return bcond(mk('le', q2))


def lt0(p):
    return not_(le0(neg(p)))


def eq0(p):
    return lift1(_eq0, p)


def _eq0(p):
    if isinf(p):
        return FALSE
    if isnum(p):
        return TRUE if numval(p) == 0 else FALSE
    if p.op != 'Q':
        return bcond(mk('eq', p))
    pd = dict(p.a[0])
    mono = content(pd)
    strip = tuple((t, e) for t, e in mono if is_pos_atom(t))
    if strip:
        pd = pscale(pd, mono_inv(strip), 1)
    q, _ = _scale_cond(Q(pd))
    if is_int(q) is False and all(is_int_atom(t) for m, _ in q.a[0] for t, _e in m):
        # integer combination that can never be integral-zero? leave
        pass
    return bcond(mk('eq', q))


def bcond(c):
    d = decide_basic(c)
    if d is not None:
        return TRUE if d else FALSE
    return mk('I', c, TRUE, FALSE)


def decide_basic(c):
    if c.op == 'lt':
        # q < 0 for reals
        p = c.a[0]
        cx = ctx()
        v = cx.lit.get(c)
        if v is not None:
            return v
        if nonneg(q_mul2(num(-1), p), cx, strict=True):
            return True
        if nonneg(p, cx):
            return False
        return None
    return decide(c)


def ctx_child(c, cond, val):
    return c.child(cond, val)


# ------------------------------------------------------------ ite / lifting

def _top(args):
    best = None
    for x in args:
        if isinstance(x, T) and x.op == 'I':
            c = x.a[0]
            if best is None or c.key < best.key:
                best = c
    return best


def cofactor(x, c, val):
    if isinstance(x, T) and x.op == 'I' and x.a[0] is c:
        return x.a[1] if val else x.a[2]
    return x


_lift_memo = {}


def lift(f, *args):
    """Apply f to the leaves of gated arguments."""
    c = _top(args)
    if c is None:
        return f(*args)
    d = decide_basic(c)
    if d is not None:
        return lift(f, *[cofactor(x, c, d) for x in args])
    cx = ctx()
    key = (cx.n, f, args)
    try:
        r = _lift_memo.get(key)
    except TypeError:
        r = None
        key = None
    if r is not None:
        return r
    with using(ctx_child(cx, c, True)):
        t = lift(f, *[cofactor(x, c, True) for x in args])
    with using(ctx_child(cx, c, False)):
        e = lift(f, *[cofactor(x, c, False) for x in args])
    r = mk_ite(c, t, e)
    if key is not None:
        _lift_memo[key] = r
    return r


def lift1(f, x):
    return lift(f, x)


def solve_eq(cond):
    """For an equality condition, choose (atom, value) to substitute, or None."""
    if cond.op != 'eq':
        return None
    p = cond.a[0]
    if p.op != 'Q' or p.a[1]:
        return None
    cand = []
    for m, c in p.a[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('v', 'b'):
            t = m[0][0]
            if sum(1 for m2, _ in p.a[0] for x, _e in m2 if x is t) == 1 and abs(c) == 1:
                cand.append((t, c))
    if not cand:
        return None
    # prefer eliminating fresh/bound index variables
    def rank(tc):
        t = tc[0]
        return (0 if (t.op == 'b' or (t.op == 'v' and str(t.a[0]).startswith('%'))) else 1, t.key)
    cand = [x for x in cand if rank(x)[0] == 0] or []
    if not cand:
        return None
    t, c = max(cand, key=lambda tc: tc[0].key)
    rest = {m: v for m, v in p.a[0] if not (len(m) == 1 and m[0][0] is t)}
    return t, q_mul2(num(Fr(-1) / c), Q(rest))


def mk_ite(c, t, e):
    """Canonical gate on atomic condition c."""
    if t is e:
        return t
    s = solve_eq(c)
    if s is not None:
        x, v = s
        if isinstance(t, T) and _occurs(x, t):
            t = subst(t, {x: v})
        if isinstance(e, T) and e.op != 'I' and t is (subst(e, {x: v}) if _occurs(x, e) else e):
            return e
    if t is e:
        return t
    # keep the order: children must have larger top conditions
    for ch in (t, e):
        if isinstance(ch, T) and ch.op == 'I' and ch.a[0].key <= c.key:
            return _reorder(c, t, e)
    return mk('I', c, t, e)


def _reorder(c, t, e):
    top = _top((t, e))
    if top is c:
        return mk_ite(c, cofactor(t, c, True), cofactor(e, c, False))
    if top is None or top.key > c.key:
        return mk('I', c, t, e)
    tt = mk_ite(c, cofactor(t, top, True), cofactor(e, top, True))
    ee = mk_ite(c, cofactor(t, top, False), cofactor(e, top, False))
    if tt is ee:
        return tt
    if _top((tt, ee)) is not None and _top((tt, ee)).key <= top.key:
        return mk('I', top, tt, ee)
    return mk('I', top, tt, ee)


def _occurs(x, t):
    if x.op == 'v':
        return x in t.fv
    seen = set()

    def go(y):
        if y is x:
            return True
        if y in seen:
            return False
        seen.add(y)
        ch = []
        _walk(y.a, ch)
        return any(go(z) for z in ch)
    return go(t)


def restrict(x, c=None):
    """Simplify gates of x that are decided in context c."""
    c = c or ctx()
    if not isinstance(x, T) or x.op != 'I':
        return x
    k = ('r', x)
    r = c.cache.get(k)
    if r is not None:
        return r
    cond = x.a[0]
    with using(c):
        d = decide_basic(cond)
    if d is not None:
        r = restrict(x.a[1] if d else x.a[2], c)
    else:
        t = restrict(x.a[1], ctx_child(c, cond, True))
        e = restrict(x.a[2], ctx_child(c, cond, False))
        with using(c):
            r = mk_ite(cond, t, e) if (t is not x.a[1] or e is not x.a[2]) else x
    c.cache[k] = r
    return r


def ite(b, t, e):
    """Gate on a boolean value (BDD) b."""
    if b is TRUE:
        return t
    if b is FALSE:
        return e
    if t is e:
        return t
    return lift(_ite_leaf, b, t, e)


def _ite_leaf(b, t, e):
    if b is TRUE:
        return t
    if b is FALSE:
        return e
    raise Unsupported('gate on non-boolean %s' % show(b))


def _not_leaf(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    raise Unsupported('not on %s' % show(b))


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'I':
        k = ('n', b)
        r = _neg_memo.get(b)
        if r is None:
            r = mk('I', b.a[0], not_(b.a[1]), not_(b.a[2]))
            _neg_memo[b] = r
        return r
    raise Unsupported('not on %s' % show(b))


_neg_memo = {}


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    return ite(a, b, FALSE)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    return ite(a, TRUE, b)


def is_bool(x):
    while x.op == 'I':
        x = x.a[1]
    return x.op == 'B'


def leaf(x):
    while x.op == 'I':
        x = x.a[1]
    return x


def is_numeric(x):
    return leaf(x).op == 'Q'


def b2n(b):
    """Boolean to number."""
    if is_bool(b):
        return ite(b, ONE, ZERO)
    return b


# ------------------------------------------------------------ arithmetic on gated values

def _chk(x):
    if x.op == 'B':
        return ONE if x is TRUE else ZERO
    if x.op != 'Q':
        raise Unsupported('arithmetic on %s' % show(x))
    return x


def _add(x, y):
    return q_add2(_chk(x), _chk(y))


def _mul(x, y):
    return q_mul2(_chk(x), _chk(y))


def add(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = lift(_add, r, x)
    return r


def mul(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = lift(_mul, r, x)
    return r


def neg(x):
    return mul(num(-1), x)


def sub(x, y):
    return add(x, neg(y))


def _pow(x, y):
    x, y = _chk(x), _chk(y)
    if isnum(y):
        return q_pow(x, numval(y))
    if x.op == 'Q' and isnum(x) and numval(x) > 0:
        return _exp(q_mul2(y, _log(x)))
    return _exp(q_mul2(y, _log(x)))


def power(x, y):
    return lift(_pow, x, y)


def _div(x, y):
    return q_mul2(_chk(x), q_pow(_chk(y), -1))


def div(x, y):
    return lift(_div, x, y)


def _exp(x):
    x = _chk(x)
    if x is INF:
        return INF
    if x is NINF:
        return ZERO
    if not x.a[0]:
        return ONE
    mono = {}
    res = ONE
    if x.a[1]:
        # one atom per monomial over the common denominator
        for m, c in x.a[0]:
            base = Q({m: Fr(1)}, x.a[1])
            res = q_mul2(res, atom(mk('E', base), c))
        return res
    for m, c in x.a[0]:
        if len(m) == 1 and m[0][0].op == 'log' and m[0][1] == 1:
            res = q_mul2(res, q_pow(m[0][0].a[0], c))
        elif len(m) == 1 and m[0][0].op == 'logn' and m[0][1] == 1:
            res = q_mul2(res, _num_pow(Fr(m[0][0].a[0]), c))
        else:
            e = mk('E', Q({m: Fr(1)}))
            res = q_mul2(res, atom(e, c))
    return res


def exp_(x):
    return lift1(_exp, x)


def _log(x):
    x = _chk(x)
    if x is INF:
        return INF
    if not x.a[0]:
        return NINF
    lc, mono, prim = primitive(dict(x.a[0]))
    if lc < 0:
        # keep the sign inside a polynomial base if there is one
        if len(prim) > 1:
            lc = -lc
            prim = {m: -c for m, c in prim.items()}
        else:
            return atom(mk('log', x))
    res = ZERO
    for n, s in ((lc.numerator, 1), (lc.denominator, -1)):
        for p, k in factorint(n):
            res = q_add2(res, q_mul2(num(k * s), atom(mk('logn', p))))
    for t, e in mono:
        if t.op == 'E':
            res = q_add2(res, q_mul2(num(e), t.a[0]))
        elif t.op == 'rt':
            res = q_add2(res, q_mul2(num(e), atom(mk('logn', t.a[0]))))
        elif t.op == 'Q':
            res = q_add2(res, q_mul2(num(e), _log(t)))
        else:
            res = q_add2(res, q_mul2(num(e), atom(mk('log', atom(t)))))
    if len(prim) > 1:
        res = q_add2(res, atom(mk('log', Q(prim))))
    for s, k in x.a[1]:
        res = q_add2(res, q_mul2(num(-k), _log(s)))
    return res


def log_(x):
    return lift1(_log, x)


PI = atom(mk('pi'))


def sqrt_(x):
    return power(x, HALF)


def _absv(x):
    x = _chk(x)
    if isinf(x):
        return INF
    if nonneg(x):
        return x
    if nonneg(q_mul2(num(-1), x)):
        return q_mul2(num(-1), x)
    q, flip = _scale_cond(x)
    lc, mono, prim = primitive(dict(x.a[0]))
    return absval(x)


def absval(x):
    lc, mono, prim = primitive(dict(x.a[0]))
    base = Q(prim, x.a[1])
    r = num(abs(lc))
    for t, e in mono:
        if is_pos_atom(t):
            r = q_mul2(r, atom(t, e))
        else:
            r = q_mul2(r, q_pow(atom(mk('abs', atom(t))), e))
    if len(prim) > 1 or x.a[1]:
        r = q_mul2(r, atom(mk('abs', base)))
    return r


def abs_(x):
    return lift1(_absv, x)


_FN_RULES = {}


def _fn(name, *args):
    r = _FN_RULES.get(name)
    if r is not None:
        v = r(*args)
        if v is not None:
            return v
    return atom(mk('fn', name, *args))


class _FnCall(object):
    _c = {}

    def __new__(cls, name):
        o = cls._c.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._c[name] = o
        return o

    def __call__(self, *args):
        return _fn(self.name, *args)


def fn(name, *args):
    """Uninterpreted scalar function of scalar arguments (digamma, gammaln, ...)."""
    return lift(_FnCall(name), *args)


def _maximum(x, y):
    if nonneg(q_add2(x, q_mul2(num(-1), y))):
        return x
    if nonneg(q_add2(y, q_mul2(num(-1), x))):
        return y
    return None


def max_(x, y):
    return ite(le0(sub(y, x)), x, y)


def min_(x, y):
    return ite(le0(sub(x, y)), x, y)


# integer division --------------------------------------------------------

def _floordiv(x, d):
    x, d = _chk(x), _chk(d)
    if isnum(x) and isnum(d):
        return num(numval(x) // numval(d))
    if d is ONE and is_int(x):
        return x
    if not x.fv and isnum(d) and x.op == 'Q':
        v = const_value(x)
        if v is not None:
            v /= float(numval(d))
            if abs(v) < 1e9 and abs(v - round(v)) > 1e-7:
                return num(_math.floor(v))
    if isnum(d) and numval(d) != 0:
        q = q_mul2(x, num(1 / numval(d)))
        if is_int(q):
            return q
    # split x = q*d + r with 0 <= r < d
    r = _split_div(x, d)
    if r is not None:
        return r[0]
    t = mk('floor', x, d)
    # bound: x < B*d  ->  floor < B
    return atom(t)


def _split_div(x, d):
    if x.op != 'Q' or x.a[1] or d.a[1]:
        return None
    if len(d.a[0]) == 1:
        dm, dc = d.a[0][0]
        dd = dict(dm)
        quo, rem = {}, {}
        for m, c in x.a[0]:
            md = dict(m)
            if dm and all(md.get(t, 0) >= e for t, e in dm) and (c / dc).denominator == 1:
                quo[mono_mul(m, mono_inv(dm))] = c / dc
            elif not dm and (c / dc).denominator == 1 and is_int(Q({m: Fr(1)})):
                quo[m] = c / dc
            else:
                rem[m] = c
        q, r = Q(quo), Q(rem)
        if not is_int(q):
            return None
        if nonneg(r) and nonneg(q_add2(d, q_mul2(num(-1), r)), strict=True):
            return q, r
        # remainder shifted by one multiple
        for k in (1, -1):
            r2 = q_add2(r, q_mul2(num(k), d))
            if nonneg(r2) and nonneg(q_add2(d, q_mul2(num(-1), r2)), strict=True):
                return q_add2(q, num(-k)), r2
        return None
    # general divisor: try x itself as the remainder, or exact multiples
    if nonneg(x) and nonneg(q_add2(d, q_mul2(num(-1), x)), strict=True):
        return ZERO, x
    r = exact_div(dict(x.a[0]), dict(d.a[0]))
    if r is not None and is_int(Q(r)):
        return Q(r), ZERO
    # x = i*d + j with index variable j small: peel the terms not divisible
    lead = leading(dict(d.a[0]))
    for t in sorted(_vars_of(dict(x.a[0])), key=lambda t: t.key):
        if t.op in ('v', 'b'):
            co = {}
            rest = {}
            for m, c in x.a[0]:
                if any(y is t for y, _ in m):
                    co[tuple(z for z in m if z[0] is not t)] = c
                else:
                    rest[m] = c
            q = exact_div(co, dict(d.a[0])) if co else None
            if q is not None and is_int(Q(q)):
                r = Q(rest)
                if nonneg(r) and nonneg(q_add2(d, q_mul2(num(-1), r)), strict=True):
                    return q_mul2(Q(q), atom(t)), r
    return None


def floordiv(x, d):
    return lift(_floordiv, x, d)


def _mod(x, d):
    x, d = _chk(x), _chk(d)
    f = _floordiv(x, d)
    return q_add2(x, q_mul2(num(-1), q_mul2(d, f)))


def mod(x, d):
    return lift(_mod, x, d)


def _trirow(t):
    """Row of position t in the row-major packing of a lower triangle."""
    # t = i(i+1)/2 + j with 0 <= j <= i
    if isnum(t):
        n = int(numval(t))
        i = 0
        while (i + 1) * (i + 2) // 2 <= n:
            i += 1
        return num(i)
    for m, c in t.a[0]:
        if len(m) == 1 and m[0][1] == 2 and c == Fr(1, 2):
            base = atom(m[0][0])
            for off in (0, 1, -1, 2):
                i = q_add2(base, num(off))
                j = q_add2(t, q_mul2(num(Fr(-1, 2)), q_mul2(i, q_add2(i, ONE))))
                if nonneg(j) and nonneg(q_add2(i, q_mul2(num(-1), j))):
                    return i
    # rows of the form i + const + ...: try linear candidates from ranges
    return None


_FN_RULES['trirow'] = _trirow


# ------------------------------------------------------------ arrays

class Arr(object):
    """An array value: dims and an entry function over index values."""
    __slots__ = ('dims', 'fn', 'dtype', 'sparse', '_t', 'meta')

    def __init__(self, dims, fn, dtype='f', sparse=False, term=None, meta=None):
        self.dims = tuple(dims)
        self.fn = fn
        self.dtype = dtype
        self.sparse = sparse
        self._t = term
        self.meta = meta

    def __getitem__(self, idx):
        return self.fn(tuple(idx))

    @property
    def ndim(self):
        return len(self.dims)

    def term(self):
        if self._t is None:
            self._t = lam(self.dims, self.fn)
        return self._t

    def size(self):
        r = ONE
        for d in self.dims:
            r = mul(r, d)
        return r


TABMAX = 256


def small_dims(dims):
    n = 1
    for d in dims:
        if not isnum(d):
            return False
        n *= numval(d)
        if n > TABMAX or n < 0:
            return False
    return bool(dims)


def all_indices(dims):
    import itertools
    return itertools.product(*[[num(i) for i in range(int(numval(d)))] for d in dims])


def tab(dims, entries):
    """Array of known small size, entry by entry."""
    entries = tuple(entries)
    if entries:
        e0 = entries[0]
        if e0.op == 'Q' and not e0.a[1] and len(e0.a[0]) == 1:
            m, c = e0.a[0][0]
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'get':
                X = m[0][0].a[0]
                if arr_dims(X) == tuple(dims) and all(e is get(X, *i) for e, i in zip(entries, all_indices(dims))):
                    return X
    return mk('tab', tuple(dims), entries)


def tab_get(X, idx):
    dims, es = X.a
    k = 0
    for d, i in zip(dims, idx):
        v = numval(i)
        n = int(numval(d))
        if v.denominator != 1 or v < 0 or v >= n:
            return ZERO
        k = k * n + int(v)
    return es[k]


def _tab_call(X, idx):
    for j, i in enumerate(idx):
        if not isnum(i):
            n = int(numval(X.a[0][j]))
            if n == 0:
                return ZERO

            def at(k):
                return _tab_call(X, idx[:j] + (num(k),) + idx[j + 1:])

            def go(k):
                if k == n - 1:
                    return at(k)
                c = eq0(sub(i, num(k)))
                if c is TRUE:
                    return at(k)
                if c is FALSE:
                    return go(k + 1)
                cx = ctx()
                if c.op == 'I' and c.a[1] is TRUE and c.a[2] is FALSE:
                    with using(ctx_child(cx, c.a[0], True)):
                        x = at(k)
                    with using(ctx_child(cx, c.a[0], False)):
                        y = go(k + 1)
                else:
                    x, y = at(k), go(k + 1)
                return ite(c, x, y)
            return go(0)
    return tab_get(X, idx)


def lam(dims, f):
    if small_dims(dims):
        return tab(dims, [restrict(f(i)) for i in all_indices(dims)])
    vs = []
    for d in dims:
        vs.append(fresh_index(ZERO, d))
    c = ctx()
    body = f(tuple(atom(v) for v in vs))
    body = restrict(body)
    return close_lam(dims, vs, body)


def close_lam(dims, vs, body):
    if small_dims(dims):
        return tab(dims, [restrict(subst(body, dict(zip(vs, i)))) for i in all_indices(dims)])
    # eta
    if body.op == 'Q' and not body.a[1] and len(body.a[0]) == 1:
        m, c = body.a[0][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'get':
            g = m[0][0]
            X = g.a[0]
            idx = g.a[1:]
            if len(idx) == len(vs) and arr_dims(X) == tuple(dims) and \
                    all(i is atom(v) for i, v in zip(idx, vs)) and not any(v in X.fv for v in vs):
                return X
            if len(idx) == 2 and len(vs) == 2 and prop_sym(X) and arr_dims(X) == tuple(dims) and \
                    set(idx) == {atom(v) for v in vs} and not any(v in X.fv for v in vs):
                return X
    return mk_binder('L', dims, vs, body)


def mk_binder(op, dims, vs, body):
    """Close body over vs: rename to level-named bound variables."""
    h = body.ht + 1
    for d in dims:
        h = max(h, d.ht + 1)
    mp = {}
    nd = []
    for j, (v, d) in enumerate(zip(vs, dims)):
        d2 = subst(d, mp) if mp and any(x in d.fv for x in mp) else d
        nd.append(d2)
        mp[v] = atom(mk('b', h, j, d2))
    with using(ROOT):
        b2 = subst(body, mp, raw=True)
    r = mk(op, tuple(nd), b2, h)
    return r


def open_binder(t):
    """Fresh variables and the opened body."""
    dims, body, h = t.a
    mp = {}
    vs = []
    for j, d in enumerate(dims):
        d2 = subst(d, mp) if mp else d
        v = fresh_index(ZERO, d2)
        mp[mk('b', h, j, d)] = atom(v)
        vs.append(v)
    return vs, subst(body, mp)


def instantiate(t, idx):
    dims, body, h = t.a
    mp = {}
    for j, (d, i) in enumerate(zip(dims, idx)):
        mp[mk('b', h, j, d)] = i
    return subst(body, mp)


def arr_dims(X):
    op = X.op
    if op == 'arr':
        return X.a[1]
    if op in ('L', 'tab'):
        return X.a[0]
    if op == 'afn':
        return X.a[1]
    if op == 'I':
        return arr_dims(X.a[1])
    raise Unsupported('dims of %s' % op)


def prop_sym(X):
    if X.op == 'arr':
        return prop(X, 'sym')
    if X.op == 'afn' and X.a[0] in ('inv',):
        return is_sym(X.a[2])
    return False


_sym_memo = {}


def is_sym(X):
    if X.op in ('arr', 'afn'):
        return prop_sym(X)
    r = _sym_memo.get(X)
    if r is None:
        r = False
        if X.op == 'L' and len(X.a[0]) == 2 and X.a[0][0] is X.a[0][1]:
            vs, b = open_binder(X)
            i, j = (atom(v) for v in vs)
            b2 = subst(b, {vs[0]: j, vs[1]: i})
            r = equal(b, b2) is True
        elif X.op == 'tab' and len(X.a[0]) == 2 and X.a[0][0] is X.a[0][1]:
            r = all(tab_get(X, i) is tab_get(X, (i[1], i[0])) for i in all_indices(X.a[0]))
        _sym_memo[X] = r
    return r


def _getcall(X, *idx):
    if X.op == 'L':
        return instantiate(X, idx)
    if X.op == 'tab':
        return _tab_call(X, tuple(idx))
    if len(idx) > 2 and X.op == 'arr' and prop(X, 'sym') and idx[-2].key > idx[-1].key:
        idx = tuple(idx[:-2]) + (idx[-1], idx[-2])
    if len(idx) == 2 and prop_sym(X) and idx[0].key > idx[1].key:
        idx = (idx[1], idx[0])
    return atom(mk('get', X, *idx))


class _Get(object):
    _c = {}

    def __new__(cls, X):
        o = cls._c.get(X)
        if o is None:
            o = object.__new__(cls)
            o.X = X
            cls._c[X] = o
        return o

    def __call__(self, *idx):
        return _getcall(self.X, *idx)


def get(X, *idx):
    if X.op == 'I':
        return lift(lambda Y: get(Y, *idx), X)
    return lift(_Get(X), *idx)


def from_term(X, dtype='f'):
    return Arr(arr_dims(X), lambda idx: get(X, *idx), dtype=dtype, term=X)


def afn(name, dims, *args):
    """Array-valued uninterpreted function."""
    return mk('afn', name, tuple(dims), *args)


# ------------------------------------------------------------ sums

def summ(lo, hi, f, hint='k'):
    """sum_{lo <= k < hi} f(k)."""
    v = fresh_index(lo, hi, hint)
    return sum_over(v, lo, hi, f(atom(v)))


def sum_over(v, lo, hi, body):
    return lift(lambda l, h: _sum_over(v, l, h, body), lo, hi)


def _lin_in(p, v):
    """p = a*v + r with rational a; returns (a, r) or None."""
    if p.op != 'Q' or p.a[1]:
        return None
    a = Fr(0)
    rest = {}
    for m, c in p.a[0]:
        if any(t is v for t, _ in m):
            if len(m) == 1 and m[0][1] == 1:
                a += c
            else:
                return None
        else:
            if any(v in t.fv for t, _ in m):
                return None
            rest[m] = c
    return a, Q(rest)


_marks = {}


def marks(t):
    """The quotients and the mask positions a term is made of."""
    r = _marks.get(t)
    if r is not None:
        return r
    ch = []
    _walk(t.a, ch)
    out = _EMPTY
    for c in ch:
        x = marks(c)
        if x:
            out = out | x if out else x
    if t.op == 'floor' or (t.op == 'get' and len(t.a) == 2 and t.a[0].op == 'afn' and t.a[0].a[0] == 'maskpos'):
        out = out | {t}
    _marks[t] = out
    return out


def _sum_marks(v, hi, body):
    """Sum over the selected positions of a mask, or over a flat index that is split."""
    ms = [t for t in marks(body) if v in t.fv]
    if not ms:
        return None
    vq = atom(v)
    for t in ms:
        if t.op == 'get' and t.a[1] is vq and v not in t.a[0].fv and arr_dims(t.a[0])[0] is hi:
            M = t.a[0].a[2]
            w = fresh_index(ZERO, arr_dims(M)[0])
            b = subst(body, {t: atom(w)})
            if v in b.fv:
                return None
            return _sum_over(w, ZERO, arr_dims(M)[0], mul(get(M, atom(w)), b))
    for t in ms:
        if t.op == 'floor' and t.a[0] is vq and v not in t.a[1].fv and t.a[1].op == 'Q' and not t.a[1].a[1]:
            d = t.a[1]
            n = _div_exact(hi, d)
            if n is None or not is_int(n):
                continue
            x, y = fresh_index(ZERO, n), fresh_index(ZERO, d)
            b = subst(body, {v: q_add2(q_mul2(d, atom(x)), atom(y))})
            return sum_over(x, ZERO, n, sum_over(y, ZERO, d, b))
    return None


def _div_exact(a, d):
    if a.op != 'Q' or a.a[1]:
        return None
    if isnum(d):
        return q_mul2(a, num(1 / numval(d)))
    r = exact_div(dict(a.a[0]), dict(d.a[0]))
    return None if r is None else Q(r)


def _sum_over(v, lo, hi, body):
    n = q_add2(hi, q_mul2(num(-1), lo))
    if isnum(n):
        k = numval(n)
        if k <= 0:
            return ZERO
        if k <= 12:
            r = ZERO
            for i in range(int(k)):
                r = add(r, subst(body, {v: q_add2(lo, num(i))}))
            return r
    RANGE[v] = (lo, hi)
    if lo is ZERO and body.ht >= 0:
        r = _sum_marks(v, hi, body)
        if r is not None:
            return r
    body = restrict(body)
    if body.op == 'I':
        c, t, e = body.a
        if v not in c.fv:
            cx = ctx()
            with using(ctx_child(cx, c, True)):
                tt = _sum_over(v, lo, hi, t)
            with using(ctx_child(cx, c, False)):
                ee = _sum_over(v, lo, hi, e)
            return ite(mk('I', c, TRUE, FALSE), tt, ee)
        if c.op in ('le', 'eq', 'lt'):
            lr = _lin_in(c.a[0], v)
            if lr is not None and abs(lr[0]) == 1 and is_int(lr[1]):
                a, r = lr
                if c.op == 'eq':
                    x = q_mul2(num(-1 / a), r)
                    inr = and_(le0(sub(lo, x)), lt0(sub(x, hi)))
                    tv = subst(t, {v: x})
                    ev = subst(e, {v: x})
                    rest = sum_over2(v, lo, hi, e)
                    return add(rest, ite(inr, sub(tv, ev), ZERO))
                # a*v + r <= 0
                if a == 1:
                    th = q_add2(q_mul2(num(-1), r), ONE)     # v < th
                    if c.op == 'lt':
                        th = q_mul2(num(-1), r)
                    first, second = t, e
                else:
                    th = r                                   # v >= r
                    if c.op == 'lt':
                        th = q_add2(r, ONE)
                    first, second = e, t
                th = ite(le0(sub(th, lo)), lo, ite(le0(sub(hi, th)), hi, th))
                return add(sum_over2(v, lo, th, first), sum_over2(v, th, hi, second))
        if _huge(t) or _huge(e):
            return sum_leaf(v, lo, hi, body)       # splitting would cancel huge numbers
        iv = atom(mk('iv', c))
        return add(sum_over2(v, lo, hi, mul(iv, t)),
                   sum_over2(v, lo, hi, mul(sub(ONE, iv), e)))
    return sum_leaf(v, lo, hi, body)


def _huge(q):
    if q.op == 'I':
        return _huge(q.a[1]) or _huge(q.a[2])
    return q.op == 'Q' and any(abs(c) > 10**8 for _, c in q.a[0])


def sum_over2(v, lo, hi, body):
    w = fresh_index(lo, hi)
    return sum_over(w, lo, hi, subst(body, {v: atom(w)}))


def sum_leaf(v, lo, hi, q):
    q = _chk(q)
    if isinf(q):
        return q
    total = ZERO
    D_ind = tuple((s, k) for s, k in q.a[1] if v not in s.fv)
    D_dep = tuple((s, k) for s, k in q.a[1] if v in s.fv)
    groups = {}
    for m, c in q.a[0]:
        ind = tuple(x for x in m if v not in x[0].fv)
        dep = tuple(x for x in m if v in x[0].fv)
        groups.setdefault(dep, []).append((ind, c))
    for dep, lst in groups.items():
        coef = Q({}, ())
        for ind, c in lst:
            coef = q_add2(coef, Q({ind: c}))
        if D_ind:
            coef = q_mul2(coef, mkq({(): Fr(1)}, dict(D_ind)))
        total = q_add_any(total, mul(coef, sum_mono(v, lo, hi, dep, D_dep)))
    return total


def q_add_any(a, b):
    return add(a, b)


def sum_mono(v, lo, hi, mono, D):
    if not mono and not D:
        return q_add2(hi, q_mul2(num(-1), lo))
    if not D and len(mono) == 1 and mono[0][0] is v and mono[0][1] in (1, 2):
        def F(n):
            if mono[0][1] == 1:
                return q_mul2(HALF, q_mul2(n, q_add2(n, num(-1))))
            return q_mul2(num(Fr(1, 6)), q_mul2(q_mul2(n, q_add2(n, num(-1))),
                                                q_add2(q_mul2(TWO, n), num(-1))))
        return q_add2(F(hi), q_mul2(num(-1), F(lo)))
    binders = [(v, lo, hi)]
    out = []
    for t, e in mono:
        if t.op == 'S' and e.denominator == 1 and e > 0:
            for _ in range(int(e)):
                vs, b = open_binder(t)
                for x in vs:
                    binders.append((x, ZERO, RANGE[x][1]))
                bm, bc = b.a[0][0]
                assert bc == 1
                out.append(Q({bm: Fr(1)}, b.a[1]))
        else:
            out.append(atom(t, e))
    body = ONE
    for x in out:
        body = q_mul2(body, x)
    if D:
        body = q_mul2(body, Q({(): Fr(1)}, D))
    if len(body.a[0]) != 1:
        # renormalisation created several monomials: sum them one by one
        return nested_sum(binders, body)
    return sum_binders(binders, body)


def nested_sum(binders, body):
    r = body
    for v, lo, hi in reversed(binders):
        r = sum_over2(v, lo, hi, r)
    return r


_contract = []


def sum_binders(binders, body):
    """Sum of a single-monomial body (coefficient 1 assumed) over binders."""
    (m, c), = body.a[0]
    if c != 1:
        return mul(num(c), sum_binders(binders, Q({m: Fr(1)}, body.a[1])))
    for rule in _contract:
        r = rule(binders, body)
        if r is not None:
            return r
    # connected components
    bset = {v for v, _, _ in binders}
    dep_on = {v: {x for x in bset if x in lo.fv or x in hi.fv} for v, lo, hi in binders}
    parent = {v: v for v in bset}

    def find(x):
        while parent[x] is not x:
            x = parent[x]
        return x

    def union(xs):
        xs = list(xs)
        for y in xs[1:]:
            parent[find(y)] = find(xs[0])
    for t, e in m:
        union([v for v in bset if v in t.fv])
    for s, k in body.a[1]:
        union([v for v in bset if v in s.fv])
    for v in bset:
        union([v] + list(dep_on[v]))
    comps = {}
    for v, lo, hi in binders:
        comps.setdefault(find(v), []).append((v, lo, hi))
    free_m = tuple(x for x in m if not any(v in x[0].fv for v in bset))
    free_D = tuple(x for x in body.a[1] if not any(v in x[0].fv for v in bset))
    res = Q({free_m: Fr(1)}, free_D)
    for root, bs in comps.items():
        vs = {v for v, _, _ in bs}
        cm = tuple(x for x in m if any(v in x[0].fv for v in vs))
        cD = tuple(x for x in body.a[1] if any(v in x[0].fv for v in vs))
        if not cm and not cD:
            r = ONE
            for v, lo, hi in bs:
                r = q_mul2(r, q_add2(hi, q_mul2(num(-1), lo)))
            res = q_mul2(res, r)
            continue
        res = mul(res, sum_component(bs, Q({cm: Fr(1)}, cD)))
    return res


def _index_offsets(t, v, out):
    """Collect constant offsets c of index arguments v + c in body."""
    if v not in t.fv:
        return
    if t.op == 'get':
        for i in t.a[1:]:
            if i.op == 'Q' and v in i.fv:
                lr = _lin_in(i, v)
                if lr is not None and lr[0] == 1:
                    r = lr[1]
                    k = Fr(0)
                    for m, c in r.a[0]:
                        if not m:
                            k = c
                    out.append(k)
    ch = []
    _walk(t.a, ch)
    for z in ch:
        _index_offsets(z, v, out)


def sum_component(bs, body):
    # canonical shift
    nb = []
    for v, lo, hi in bs:
        offs = []
        _index_offsets(body, v, offs)
        if offs:
            k = min(offs)
            if k != 0:
                # v = w - k
                w = fresh_index(None, None)
                body = subst(body, {v: q_add2(atom(w), num(-k))})
                lo2, hi2 = q_add2(lo, num(k)), q_add2(hi, num(k))
                for i2, (a, b, c2) in enumerate(nb):
                    nb[i2] = (a, subst(b, {v: q_add2(atom(w), num(-k))}),
                              subst(c2, {v: q_add2(atom(w), num(-k))}))
                RANGE[w] = (lo2, hi2)
                v, lo, hi = w, lo2, hi2
        nb.append((v, lo, hi))
    bs = nb
    if body.op != 'Q' or len(body.a[0]) != 1 or body.a[0][0][1] != 1:
        return nested_sum(bs, body)
    # prefix differences for non-zero lower bounds
    for i, (v, lo, hi) in enumerate(bs):
        if lo is not ZERO and not any(v in l.fv or v in h.fv for _, l, h in bs):
            up = sum_component_(bs[:i] + [(v, ZERO, hi)] + bs[i + 1:], body)
            if isnum(lo):
                k = int(numval(lo))
                low = ZERO
                rng = range(0, k) if k >= 0 else range(k, 0)
                sg = 1 if k >= 0 else -1
                others = bs[:i] + bs[i + 1:]
                for x in rng:
                    b1 = subst(body, {v: num(x)})
                    low = add(low, nested_sum(others, b1) if others else b1)
                return add(up, mul(num(-sg), low))
            low = sum_component_(bs[:i] + [(v, ZERO, lo)] + bs[i + 1:], body)
            return sub(up, low)
    return sum_component_(bs, body)


def sum_component_(bs, body):
    for i, (v, lo, hi) in enumerate(bs):
        if lo is not ZERO:
            return sum_component(bs, body)
    for i, (v, lo, hi) in enumerate(bs):
        if isnum(hi) and 0 <= numval(hi) <= 6:
            others = bs[:i] + bs[i + 1:]
            r = ZERO
            for x in range(int(numval(hi))):
                b1 = subst(body, {v: num(x)})
                others2 = [(a, subst(l, {v: num(x)}), subst(h, {v: num(x)})) for a, l, h in others]
                r = add(r, nested_sum(others2, b1) if others2 else b1)
            return r
    best = None
    vs = [v for v, _, _ in bs]
    his = {v: hi for v, _, hi in bs}
    for perm in (permutations(vs) if len(vs) <= 4 else [tuple(vs)]):
        ok = True
        for i, v in enumerate(perm):
            if any(w in his[v].fv for w in perm[i:]):
                ok = False
                break
        if not ok:
            continue
        t = mk_binder('S', [his[v] for v in perm], list(perm), body)
        if best is None or t.key < best.key:
            best = t
    if best is None:
        return nested_sum(bs, body)
    return atom(best)


# ------------------------------------------------------------ quantifiers

def forall(dims, f):
    """Boolean: f(i...) holds for all indices."""
    vs = [fresh_index(ZERO, d) for d in dims]
    b = restrict(f(tuple(atom(v) for v in vs)))
    return forall_close(dims, vs, b)


def forall_close(dims, vs, b):
    if b is TRUE or not dims:
        return b
    for d in dims:
        if d is ZERO:
            return TRUE
    if b.op == 'I':
        c, t, e = b.a
        if not any(v in c.fv for v in vs):
            return ite(mk('I', c, TRUE, FALSE), forall_close(dims, vs, t), forall_close(dims, vs, e))
        # conjunction: split
        if e is FALSE and t is not TRUE:
            return and_(forall_close(dims, vs, mk('I', c, TRUE, FALSE)), forall_close(dims, vs, t))
        if t is FALSE and e is not TRUE:
            return and_(forall_close(dims, vs, mk('I', c, FALSE, TRUE)), forall_close(dims, vs, e))
    if b is FALSE:
        ne = TRUE
        for d in dims:
            ne = and_(ne, lt0(neg(d)))
        return not_(ne)
    # drop unused binders
    used = [(d, v) for d, v in zip(dims, vs) if v in b.fv]
    if len(used) == 1 and b.op == 'I' and b.a[1] is FALSE and b.a[2] is TRUE:
        r = never_selected(used[0][0], used[0][1], b.a[0])
        if r is not None:
            return r
    t = mk_binder('all', [d for d, _ in used], [v for _, v in used], b)
    return bcond(t)


def never_selected(d, v, c):
    """for all v < d: the (v + a)-th position selected by a mask is not e.  By rank:
    position e is the rank(e)-th selected one, if it is selected at all."""
    if c.op != 'eq':
        return None
    p = c.a[0]
    if p.op != 'Q' or p.a[1] or len(p.a[0]) < 1:
        return None
    hit = None
    for m, co in p.a[0]:
        for x, e in m:
            if v in x.fv:
                if hit is not None or len(m) != 1 or e != 1 or abs(co) != 1 or x.op != 'get':
                    return None
                hit = (x, co)
    if hit is None:
        return None
    x, co = hit
    X = x.a[0]
    if X.op != 'afn' or X.a[0] != 'maskpos' or v in X.fv or len(x.a) != 2:
        return None
    l = _lin_in(x.a[1], v)
    if l is None or l[0] != 1 or v in l[1].fv:
        return None
    M, a = X.a[2], l[1]
    e = sub(atom(x), mul(num(co), p))  # co*(x - e) = p
    if v in e.fv:
        return None
    n = arr_dims(M)[0]
    rank = summ(ZERO, e, lambda k: get(M, k))
    sel = and_(eq0(sub(get(M, e), ONE)), and_(le0(sub(a, rank)), lt0(sub(rank, add(a, d)))))
    return not_(and_(and_(le0(neg(e)), lt0(sub(e, n))), sel))


# ------------------------------------------------------------ substitution

_subst_memo = {}


def subst(t, mp, raw=False):
    """Substitute raw atoms (v, b, arr, any atom) by values, renormalising."""
    if not mp:
        return t
    memo = {}
    keys = tuple(mp.items())
    fvkeys = frozenset(k for k in mp if k.op in ('v', 'arr'))
    haveb = any(k.op not in ('v', 'arr') for k in mp)

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        if not haveb and not (x.fv & fvkeys):
            return x
        if haveb and x.op in ('B', 'c', 'inf', 'pi', 'logn'):
            return x
        k = (ctx().n, x)
        r = memo.get(k)
        if r is None:
            r = rebuild(x, go, mp)
            memo[k] = r
        return r
    return go(t)


def rebuild(x, go, mp):
    op = x.op
    if op == 'Q':
        res = ZERO
        N, D = x.a
        for m, c in N:
            term = num(c)
            for t, e in m:
                v = goatom(t, go, mp)
                term = mul(term, v if e == 1 else power(v, num(e)))
            res = add(res, term)
        for s, k in D:
            res = mul(res, power(go(s), num(-k)))
        return res
    if op == 'I':
        c = gocond(x.a[0], go, mp)
        if c is TRUE:
            return go(x.a[1])
        if c is FALSE:
            return go(x.a[2])
        cx = ctx()
        if c.op == 'I' and c.a[1] is TRUE and c.a[2] is FALSE:
            with using(ctx_child(cx, c.a[0], True)):
                t = go(x.a[1])
            with using(ctx_child(cx, c.a[0], False)):
                e = go(x.a[2])
        elif c.op == 'I' and c.a[1] is FALSE and c.a[2] is TRUE:
            with using(ctx_child(cx, c.a[0], False)):
                t = go(x.a[1])
            with using(ctx_child(cx, c.a[0], True)):
                e = go(x.a[2])
        else:
            t, e = go(x.a[1]), go(x.a[2])
        return ite(c, t, e)
    if op in ('B', 'c'):
        return x
    if op == 'L':
        if x in mp:
            return mp[x]
        dims, body, h = x.a
        return _rebind(x, go, mp, 'L')
    if op == 'arr':
        v = mp.get(x)
        if v is not None:
            return v
        d2 = go(x.a[1])
        if d2 == x.a[1]:
            return x
        n = mk('arr', x.a[0], d2)
        if x in PROPS:
            PROPS.setdefault(n, set()).update(PROPS[x])
        return n
    if op == 'tab':
        v = mp.get(x)
        if v is not None:
            return v
        return tab(go(x.a[0]), [restrict(go(e)) for e in x.a[1]])
    if op == 'afn':
        v = mp.get(x)
        if v is not None:
            return v
        return rebuild_afn(x.a[0], go(x.a[1]), tuple(go(y) for y in x.a[2:]))
    # raw atoms / conditions reached directly
    if op in ('le', 'lt', 'eq', 'all'):
        return gocond(x, go, mp)
    if op in OPAQUE_SORT:
        v = mp.get(x)
        if v is not None:
            return v
        return mk(op, *[go(y) for y in x.a])
    return goatom(x, go, mp)


OPAQUE_SORT = set(['st'])


def rebuild_afn(name, dims, args):
    h = AFN_BUILD.get(name)
    if h is not None:
        return h(dims, args)
    if any(a.op == 'I' for a in args if isinstance(a, T)):
        return lift(lambda *aa: mk('afn', name, dims, *aa), *args)
    return mk('afn', name, dims, *args)


AFN_BUILD = {}


def _rebind(x, go, mp, op):
    dims, body, h = x.a
    # open with fresh variables, then substitute everything
    vs = []
    m2 = {}
    nd = []
    for j, d in enumerate(dims):
        d1 = subst(d, m2) if m2 else d
        d2 = go(d1)
        nd.append(d2)
        v = fresh_index(ZERO, d2)
        vs.append(v)
        m2[mk('b', h, j, d)] = atom(v)
    b1 = subst(body, m2)
    b2 = subst(b1, mp)
    b2 = restrict(b2)
    if op == 'L':
        return close_lam(nd, vs, b2)
    if op == 'all':
        return forall_close(nd, vs, b2)
    if op == 'S':
        r = b2
        for v, d in reversed(list(zip(vs, nd))):
            r = sum_over2(v, ZERO, d, r)
        return r


def goatom(t, go, mp):
    """Value (wrapped) of raw atom t under the substitution."""
    v = mp.get(t)
    if v is not None:
        return v
    op = t.op
    if op == 'v':
        return atom(t)
    if op == 'b':
        d = go(t.a[2])
        return atom(mk('b', t.a[0], t.a[1], d)) if d is not t.a[2] else atom(t)
    if op == 'get':
        X = go(t.a[0])
        idx = [go(i) for i in t.a[1:]]
        if isinstance(X, Arr):
            return X[idx]
        return get(X, *idx)
    if op == 'E':
        return exp_(go(t.a[0]))
    if op == 'log':
        return log_(go(t.a[0]))
    if op == 'abs':
        return abs_(go(t.a[0]))
    if op == 'fn':
        return fn(t.a[0], *[go(y) for y in t.a[1:]])
    if op == 'Q':
        return go(t)
    if op == 'S':
        return _rebind(t, go, mp, 'S')
    if op == 'floor':
        return floordiv(go(t.a[0]), go(t.a[1]))
    if op == 'mod':
        return mod(go(t.a[0]), go(t.a[1]))
    if op == 'iv':
        c = gocond(t.a[0], go, mp)
        return iv(c)
    if op in ATOM_BUILD:
        return ATOM_BUILD[op](*[go(y) for y in t.a])
    if op in ('pi', 'logn', 'rt', 'inf', 'opaque'):
        return atom(t)
    args = [go(y) for y in t.a]
    n = mk(op, *args)
    if t in PROPS and n is not t:
        PROPS.setdefault(n, set()).update(PROPS[t])
    return atom(n)


ATOM_BUILD = {}


def iv(b):
    """Iverson bracket of a boolean value as a polynomial."""
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.op == 'I' and b.a[1] is TRUE and b.a[2] is FALSE:
        return atom(mk('iv', b.a[0]))
    if b.op == 'I':
        a = atom(mk('iv', b.a[0]))
        return add(mul(a, iv(b.a[1])), mul(sub(ONE, a), iv(b.a[2])))
    raise Unsupported('iverson')


def gocond(c, go, mp):
    op = c.op
    if op == 'le':
        return le0(go(c.a[0]))
    if op == 'lt':
        return lt0(go(c.a[0]))
    if op == 'eq':
        return eq0(go(c.a[0]))
    if op == 'all':
        return _rebind(c, go, mp, 'all')
    if op in COND_BUILD:
        return COND_BUILD[op](*[go(y) for y in c.a])
    v = mp.get(c)
    if v is not None:
        return v
    n = mk(op, *[go(y) for y in c.a])
    return bcond(n)


COND_BUILD = {}


# ------------------------------------------------------------ equality

def equal(a, b, c=None, depth=3):
    """True: proved equal.  False: normal forms differ.  None: opaque parts involved."""
    c = c or ctx()
    if a is b:
        return True
    with using(c):
        a = restrict(a)
        b = restrict(b)
    if a is b:
        return True
    if a.op == 'I' or b.op == 'I':
        cond = _top((a, b))
        res = True
        for val in (True, False):
            c2 = ctx_child(c, cond, val)
            if inconsistent(c2):
                continue
            x, y = cofactor(a, cond, val), cofactor(b, cond, val)
            if val:
                s = solve_eq(cond)
                if s is not None:
                    with using(c2):
                        x, y = subst(x, {s[0]: s[1]}), subst(y, {s[0]: s[1]})
            r = equal(x, y, c2, depth)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if a.op == 'Q' and b.op == 'Q':
        if isinf(a) or isinf(b):
            return False
        with using(c):
            d = q_add2(a, q_mul2(num(-1), b))
            if not d.a[0]:
                return True
            r = zero_mod_congruence(d, c, depth)
            if r:
                return True
        if a.opq or b.opq:
            return None
        return False
    if a.op != b.op:
        return None if (a.opq or b.opq) else False
    if a.op == 'tab':
        if a.a[0] != b.a[0]:
            return False
        for x, y in zip(a.a[1], b.a[1]):
            r = equal(x, y, c, depth)
            if r is not True:
                return r
        return True
    if a.op in ('L',):
        if len(a.a[0]) != len(b.a[0]):
            return False
        for x, y in zip(a.a[0], b.a[0]):
            r = equal(x, y, c, depth)
            if r is not True:
                return r
        vs, body = open_binder(a)
        body2 = instantiate(b, [atom(v) for v in vs])
        return equal(body, body2, c, depth)
    if a.op in ('B', 'c'):
        return False
    return args_equal(a, b, c, depth)


def inconsistent(c):
    """Cheap check whether the newest fact contradicts the others."""
    r = c.cache.get('inc')
    if r is not None:
        return r
    r = False
    if c.parent is not None:
        for f in c.ge:
            if nonneg(q_mul2(num(-1), f), c.parent, strict=True) if c.parent else False:
                r = True
                break
        if not r:
            for f in c.gt[-1:]:
                if nonneg(q_mul2(num(-1), f), c.parent):
                    r = True
    if not r:
        for p in c.ne:
            if nonneg(p, c) and nonneg(q_mul2(num(-1), p), c):
                r = True
                break
    if not r:
        for f in c.ge:
            if isnum(f) and numval(f) < 0:
                r = True
        for f in c.gt:
            if isnum(f) and numval(f) <= 0:
                r = True
            elif nonneg(q_mul2(num(-1), f), c) and False:
                r = True
    c.cache['inc'] = r
    return r


def args_equal(a, b, c, depth):
    fa, fb = flat_args(a.a), flat_args(b.a)
    if len(fa) != len(fb):
        return False
    res = True
    for x, y in zip(fa, fb):
        if isinstance(x, T) and isinstance(y, T):
            r = equal(x, y, c, depth - 1) if depth > 0 else (x is y)
            if r is not True:
                return None if (x.opq or y.opq) else False
        elif x != y:
            return False
    return res


def flat_args(a):
    out = []
    for x in a:
        if isinstance(x, tuple):
            out.append('(%d' % len(x))
            out.extend(flat_args(x))
        else:
            out.append(x)
    return out


def zero_mod_congruence(d, c, depth):
    """Try to show d == 0 by identifying congruent atoms."""
    if depth <= 0:
        return False
    ats = set()
    for m, _ in d.a[0]:
        for t, _e in m:
            if t.op not in ('v', 'b', 'logn', 'pi', 'rt', 'inf', 'opaque'):
                ats.add(t)
    for s, _ in d.a[1]:
        for m, _c in s.a[0]:
            for t, _e in m:
                if t.op not in ('v', 'b'):
                    ats.add(t)
    ats = sorted(ats, key=lambda t: (t.op, t.key))
    for i in range(len(ats)):
        for j in range(i + 1, len(ats)):
            x, y = ats[i], ats[j]
            if x.op != y.op or not atoms_congruent(x, y, c, depth - 1):
                continue
            d2 = subst(d, {y: atom(x)})
            d2 = restrict(d2, c)
            if d2.op == 'Q' and not d2.a[0]:
                return True
            if d2.op == 'Q':
                return zero_mod_congruence(d2, c, depth)
    return False


def atoms_congruent(x, y, c, depth):
    if x.op == 'get':
        if len(x.a) != len(y.a):
            return False
        if x.a[0].op != y.a[0].op:
            return False
        if equal(x.a[0], y.a[0], c, depth) is not True:
            return False
        return all(equal(p, q, c, depth) is True for p, q in zip(x.a[1:], y.a[1:]))
    if x.op == 'S':
        if len(x.a[0]) != len(y.a[0]):
            return False
        for p, q in zip(x.a[0], y.a[0]):
            if equal(p, q, c, depth) is not True:
                return False
        vs, b1 = open_binder(x)
        b2 = instantiate(y, [atom(v) for v in vs])
        return equal(b1, b2, c, depth) is True
    fx, fy = flat_args(x.a), flat_args(y.a)
    if len(fx) != len(fy):
        return False
    for p, q in zip(fx, fy):
        if isinstance(p, T) and isinstance(q, T):
            if equal(p, q, c, depth) is not True:
                return False
        elif p != q:
            return False
    return True


# ------------------------------------------------------------ printing

def show(t, n=0):
    if not isinstance(t, T):
        return repr(t)
    if n > 12:
        return '...'
    op = t.op
    if op == 'Q':
        def mono(m):
            return '*'.join((show(x, n + 1) if x.op != 'Q' else '(' + show(x, n + 1) + ')') +
                            ('' if e == 1 else '^' + (str(e) if e > 0 and e.denominator == 1 else '(' + str(e) + ')'))
                            for x, e in m)
        parts = []
        for m, c in t.a[0]:
            s = mono(m)
            if not s:
                parts.append(str(c))
            elif c == 1:
                parts.append(s)
            elif c == -1:
                parts.append('-' + s)
            else:
                parts.append('%s*%s' % (c, s))
        s = ' + '.join(parts) if parts else '0'
        if t.a[1]:
            s = '(' + s + ')/' + '/'.join('(' + show(x, n + 1) + ')' + ('' if k == 1 else '^%d' % k) for x, k in t.a[1])
        return s
    if op == 'I':
        return '{%s ? %s : %s}' % (show(t.a[0], n + 1), show(t.a[1], n + 1), show(t.a[2], n + 1))
    if op == 'le':
        return show(t.a[0], n + 1) + '<=0'
    if op == 'lt':
        return show(t.a[0], n + 1) + '<0'
    if op == 'eq':
        return show(t.a[0], n + 1) + '==0'
    if op == 'B':
        return str(t.a[0])
    if op == 'c':
        return repr(t.a[1])
    if op in ('v',):
        return str(t.a[0])
    if op == 'arr':
        return str(t.a[0])
    if op == 'b':
        return 'b%d.%d' % (t.a[0], t.a[1])
    if op == 'get':
        return '%s[%s]' % (show(t.a[0], n + 1), ','.join(show(x, n + 1) for x in t.a[1:]))
    if op == 'E':
        return 'exp(%s)' % show(t.a[0], n + 1)
    if op == 'S':
        return 'SUM[%s](%s)' % (','.join(show(x, n + 1) for x in t.a[0]), show(t.a[1], n + 1))
    if op == 'L':
        return 'LAM[%s](%s)' % (','.join(show(x, n + 1) for x in t.a[0]), show(t.a[1], n + 1))
    if op == 'logn':
        return 'log(%s)' % t.a[0]
    if op == 'rt':
        return 'root(%s)' % t.a[0]
    if op == 'afn':
        return '%s(%s)' % (t.a[0], ','.join(show(x, n + 1) for x in t.a[2:]))
    if op == 'fn':
        return '%s(%s)' % (t.a[0], ','.join(show(x, n + 1) for x in t.a[1:]))
    return '%s(%s)' % (op, ','.join(show(x, n + 1) if isinstance(x, T) else
                                    ('(' + ','.join(show(y, n + 1) for y in x) + ')' if isinstance(x, tuple) else str(x))
                                    for x in t.a))
