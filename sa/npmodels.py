"""numpy / scipy semantics over abstract arrays."""
from fractions import Fraction as Fr

from .terms import *
from .terms import _chk
from .values import *
from .models import (EXT, METHODS, ext, method, builtin, isT, isnumT, isarr, isstr, strof, dist, concrete_int,
                     need_int, mkarr, termarr, newarr, is_boxed, box_type_error, bdims, bidx, truth, asarr,
                     binop, compare, norm_index, slice_bounds, length, shallow, _setmeta, num_compare, mixed,
                     CONSTS)


def P(a, kw, *names):
    out = []
    for i, n in enumerate(names):
        if i < len(a):
            out.append(a[i])
        else:
            out.append(kw.get(n))
    return out


def isnone(v):
    return v is None or v is NONE


# ------------------------------------------------------------ maps

def smap(m, f, v):
    def one(x):
        if isarr(x):
            from .models import scalar_of
            if is_boxed(m, x):
                box_type_error(m, 'math function')
            x = scalar_of(m, x, 'math')
        if not isnumT(x):
            m.praise('TypeError', 'must be real number')
        with using(m.st.ctx):
            return restrict(f(b2n(x)))
    return dist(m, v, one)


def umap(m, f, v, dtype='f', keep=False):
    """Elementwise function of one argument."""
    def one(x):
        if isT(x):
            if not isnumT(x):
                m.praise('TypeError', 'bad operand')
            with using(m.st.ctx):
                return restrict(f(b2n(x)))
        a = asarr(m, x)
        return mkarr(m, a.dims, lambda i: f(b2n(a[i])), dtype=(a.dtype if keep else dtype),
                     sparse=a.sparse and keep)
    return dist(m, v, one)


def bmap(m, f, x, y, dtype='f'):
    def go(x, y):
        if isnumT(x) and isnumT(y):
            with using(m.st.ctx):
                return restrict(f(x, y))
        A, B = asarr(m, x), asarr(m, y)
        dims, sa, sb = bdims(m, A.dims, B.dims)
        return mkarr(m, dims, lambda i: f(A[bidx(sa, i)], B[bidx(sb, i)]), dtype=dtype)
    return dist(m, x, lambda u: dist(m, y, lambda v: go(u, v)))


def log1p_(x):
    return log_(add(ONE, x))


def expm1_(x):
    return sub(exp_(x), ONE)


def sign_(x):
    return ite(lt0(x), num(-1), ite(eq0(x), ZERO, ONE))


def expit_(x):
    return div(ONE, add(ONE, exp_(neg(x))))


UF = {
    'np.exp': exp_, 'np.log': log_, 'np.log1p': log1p_, 'np.expm1': expm1_, 'np.sqrt': sqrt_,
    'np.square': lambda x: mul(x, x), 'np.negative': neg, 'np.reciprocal': lambda x: div(ONE, x),
    'np.log2': lambda x: div(log_(x), log_(TWO)), 'np.log10': lambda x: div(log_(x), log_(num(10))),
    'np.exp2': lambda x: exp_(mul(x, log_(TWO))),
    'np.sin': lambda x: fn('sin', x), 'np.cos': lambda x: fn('cos', x), 'np.tanh':
        lambda x: sub(ONE, div(TWO, add(ONE, exp_(mul(TWO, x))))),
    'np.sinh': lambda x: div(sub(exp_(x), exp_(neg(x))), TWO),
    'np.cosh': lambda x: div(add(exp_(x), exp_(neg(x))), TWO),
    'np.arctan': lambda x: fn('arctan', x),
    'sp.special.digamma': lambda x: fn('polygamma', ZERO, x), 'sp.special.psi': lambda x: fn('polygamma', ZERO, x),
    'sp.special.gammaln': lambda x: fn('gammaln', x), 'sp.special.loggamma': lambda x: fn('gammaln', x),
    'sp.special.gamma': lambda x: exp_(fn('gammaln', x)),
    'sp.special.expit': expit_,
    'sp.special.logit': lambda x: sub(log_(x), log_(sub(ONE, x))),
    'sp.special.erf': lambda x: fn('erf', x),
    'sp.stats.norm.ppf': lambda x: fn('ndtri', x), 'sp.special.ndtri': lambda x: fn('ndtri', x),
    'sp.stats.norm.cdf': lambda x: fn('ndtr', x), 'sp.special.ndtr': lambda x: fn('ndtr', x),
}
for _p, _f in UF.items():
    def _mkuf(f):
        def h(m, a, kw):
            if len(a) > 1 or kw:
                raise Unsupported('ufunc options')
            return umap(m, f, a[0])
        return h
    EXT[_p] = _mkuf(_f)


@ext('np.abs', 'np.absolute', 'np.fabs')
def _npabs(m, a, kw):
    return umap(m, abs_, a[0], keep=True)


METHODS['__abs__'] = lambda m, o, a, kw: umap(m, abs_, o, keep=True)


@ext('np.sign')
def _npsign(m, a, kw):
    return umap(m, sign_, a[0])


@ext('np.floor')
def _npfloor(m, a, kw):
    return umap(m, lambda x: floordiv(x, ONE), a[0])


@ext('np.ceil')
def _npceil(m, a, kw):
    return umap(m, lambda x: neg(floordiv(neg(x), ONE)), a[0])


@ext('np.isnan')
def _isnan(m, a, kw):
    return umap(m, lambda x: FALSE, a[0], dtype='b')


@ext('np.isinf')
def _isinf(m, a, kw):
    return umap(m, lambda x: lift1(lambda q: TRUE if isinf(_chk(q)) else FALSE, x), a[0], dtype='b')


@ext('np.isfinite')
def _isfinite(m, a, kw):
    return umap(m, lambda x: lift1(lambda q: FALSE if isinf(_chk(q)) else TRUE, x), a[0], dtype='b')


@ext('np.real')
def _real(m, a, kw):
    return a[0]


@ext('sp.special.polygamma')
def _polygamma(m, a, kw):
    n = need_int(m, a[0])
    return umap(m, lambda x: fn('polygamma', num(n), x), a[1])


@ext('sp.special.multigammaln')
def _multigammaln(m, a, kw):
    d = m.settle(a[1])

    def f(x):
        c = mul(mul(d, sub(d, ONE)), mul(num(Fr(1, 4)), log_(PI)))
        s = summ(ZERO, d, lambda j: fn('gammaln', sub(x, div(j, TWO))))
        return add(c, s)
    return umap(m, f, a[0])


@ext('sp.special.beta')
def _beta(m, a, kw):
    return bmap(m, lambda x, y: exp_(sub(add(fn('gammaln', x), fn('gammaln', y)), fn('gammaln', add(x, y)))), a[0], a[1])


@ext('sp.special.betaln')
def _betaln(m, a, kw):
    return bmap(m, lambda x, y: sub(add(fn('gammaln', x), fn('gammaln', y)), fn('gammaln', add(x, y))), a[0], a[1])


@ext('sp.special.xlogy')
def _xlogy(m, a, kw):
    return bmap(m, lambda x, y: mul(x, log_(y)), a[0], a[1])


@ext('sp.stats.norm.entropy')
def _normentropy(m, a, kw):
    x = kw.get('scale', a[1] if len(a) > 1 else ONE)
    return umap(m, lambda s: add(mul(HALF, add(ONE, log_(mul(TWO, PI)))), log_(s)), x)


@ext('sp.stats.norm.pdf')
def _normpdf(m, a, kw):
    loc, sc = P(a, kw, 'x', 'loc', 'scale')[1:]
    loc = ZERO if loc is None else loc
    sc = ONE if sc is None else sc
    z = binop(m, 'Div', binop(m, 'Sub', a[0], loc), sc)
    d = umap(m, lambda t: div(exp_(mul(num(Fr(-1, 2)), mul(t, t))), sqrt_(mul(TWO, PI))), z)
    return binop(m, 'Div', d, sc)


@ext('sp.stats.norm.logpdf')
def _normlogpdf(m, a, kw):
    loc, sc = P(a, kw, 'x', 'loc', 'scale')[1:]
    loc = ZERO if loc is None else loc
    sc = ONE if sc is None else sc
    z = binop(m, 'Div', binop(m, 'Sub', a[0], loc), sc)
    d = umap(m, lambda t: sub(mul(num(Fr(-1, 2)), mul(t, t)), mul(HALF, log_(mul(TWO, PI)))), z)
    return binop(m, 'Sub', d, umap(m, log_, sc))


def _mkbin(op):
    def h(m, a, kw):
        return binop(m, op, a[0], a[1])
    return h


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
               ('power', 'Pow'), ('mod', 'Mod'), ('remainder', 'Mod'), ('floor_divide', 'FloorDiv')):
    EXT['np.' + _n] = _mkbin(_o)
EXT['np.add'] = _mkbin('Add')


def _mkcmp(op):
    def h(m, a, kw):
        return compare(m, op, a[0], a[1])
    return h


for _n, _o in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'),
               ('greater_equal', 'GtE')):
    EXT['np.' + _n] = _mkcmp(_o)


@ext('np.multiply')
def _npmult(m, a, kw):
    x, y = a[0], a[1]
    A, B = asarr(m, x), asarr(m, y)
    if not (A.sparse or B.sparse):
        return bmap(m, lambda u, v: mul(b2n(u), b2n(v)), x, y, dtype='i' if A.dtype == B.dtype == 'i' else 'f')
    raise Unsupported('np.multiply of sparse matrices')


@ext('np.maximum', 'np.fmax')
def _maximum_(m, a, kw):
    return bmap(m, max_, a[0], a[1])


@ext('np.minimum', 'np.fmin')
def _minimum_(m, a, kw):
    return bmap(m, min_, a[0], a[1])


@ext('np.logaddexp')
def _logaddexp(m, a, kw):
    return bmap(m, lambda x, y: log_(add(exp_(x), exp_(y))), a[0], a[1])


@ext('np.clip')
def _clip(m, a, kw):
    x, lo, hi = P(a, kw, 'a', 'a_min', 'a_max')
    if not isnone(lo):
        x = bmap(m, max_, x, lo)
    if not isnone(hi):
        x = bmap(m, min_, x, hi)
    return x


@method('clip')
def _mclip(m, o, a, kw):
    return _clip(m, [o] + a, {('a_' + k if k in ('min', 'max') else k): v for k, v in kw.items()})


@ext('np.logical_not')
def _lnot(m, a, kw):
    return umapb(m, a[0])


def umapb(m, v):
    if isT(v):
        with using(m.st.ctx):
            return not_(truth(m, v))
    A = asarr(m, v)
    return mkarr(m, A.dims, lambda i: not_(tob(A[i])), dtype='b')


def tob(x):
    return x if is_bool(x) else not_(eq0(x))


@ext('np.logical_and', 'np.bitwise_and')
def _land(m, a, kw):
    return bmap(m, lambda x, y: and_(tob(x), tob(y)), a[0], a[1], dtype='b')


@ext('np.logical_or', 'np.bitwise_or')
def _lor(m, a, kw):
    return bmap(m, lambda x, y: or_(tob(x), tob(y)), a[0], a[1], dtype='b')


# ------------------------------------------------------------ construction

def dt_of(m, d, wide=True):
    if isnone(d):
        return None
    if wide and narrow_of(d) is not None:
        raise Unsupported('array of a narrow type')
    if isinstance(d, Builtin):
        return {'py:float': 'f', 'py:int': 'i', 'py:bool': 'b', 'py:object': 'o'}.get(d.name, 'f')
    if isstr(d):
        s = strof(d)
        return 'i' if 'int' in s else ('b' if 'bool' in s else 'f')
    return 'f'


NARROW = {'float32': None, 'float16': None, 'single': None, 'half': None, 'f4': None, 'f2': None,
          'int16': (-2 ** 15, 2 ** 15), 'i2': (-2 ** 15, 2 ** 15), 'int8': (-2 ** 7, 2 ** 7), 'i1': (-2 ** 7, 2 ** 7),
          'uint8': (0, 2 ** 8), 'u1': (0, 2 ** 8), 'uint16': (0, 2 ** 16), 'u2': (0, 2 ** 16)}


def narrow_of(d):
    if d is None or not isT(d) or not isstr(d):
        return None
    s = strof(d)
    s = s[6:] if s.startswith('dtype:') else s
    return s if s in NARROW else None


def narrowed(x, s):
    """x as a type holds it that has fewer digits."""
    def one(q):
        w = NARROW[s]
        if w is None:
            if isnum(q) and float(np.float32(float(numval(q)))) == float(numval(q)):
                return q
            return fn('f32', q)
        lo, hi = num(w[0]), num(w[1])
        inside = and_(le0(sub(lo, q)), lt0(sub(q, hi)))
        if inside is TRUE:
            return q
        return ite(inside, q, sub(q, mul(sub(hi, lo), floordiv(sub(q, lo), sub(hi, lo)))))
    return lift1(one, x)


def cast(m, a, dt, d=None):
    s = narrow_of(d)
    if s is not None:
        a = cast(m, a, dt)
        meta = dict(a.meta or {})
        if 'csr' in meta:
            meta['csr'] = ('narrow', meta['csr'][1])
        return Arr(a.dims, lambda i: narrowed(a[i], s), dtype=a.dtype, sparse=a.sparse, meta=meta)
    if dt is None or dt == a.dtype:
        return a
    if dt == 'f':
        return Arr(a.dims, lambda i: b2n(a[i]), dtype='f', sparse=a.sparse, meta=a.meta)
    if dt == 'b':
        return Arr(a.dims, lambda i: tob(a[i]), dtype='b')
    if dt == 'i':
        def f(i):
            x = b2n(a[i])

            def one(q):
                q = _chk(q)
                if is_int(q):
                    return q
                if isnum(q):
                    return num(int(numval(q)))
                return ite(lt0(q), neg(floordiv(neg(q), ONE)), floordiv(q, ONE))
            return lift1(one, x)
        return Arr(a.dims, f, dtype='i')
    raise Unsupported('cast to %s' % dt)


def shape_of(m, s):
    """Shape argument -> tuple of dims."""
    s = m.settle(s)
    if isT(s) and isnumT(s):
        return (chk_dim(m, s),)
    if isarr(s):
        A = m.arr(s)
        if not A.dims:
            return (A[()],)
        n = need_int(m, A.dims[0])
        with using(m.st.ctx):
            return tuple(A[(num(i),)] for i in range(n))
    vals = m.concrete(m.iter_segs(s))
    if vals is None:
        raise Unsupported('shape of symbolic rank')
    return tuple(chk_dim(m, m.settle(v)) for v in vals)


def chk_dim(m, v):
    if isarr(v):
        v = asarr(m, v)[()] if not m.arr(v).dims else v
    if not (isT(v) and isnumT(v)):
        m.praise('TypeError', 'expected a sequence of integers')
    v = b2n(v)
    if isnum(v) and v.op == 'Q' and numval(v).denominator != 1:
        m.praise('TypeError', 'an integer is required')
    return v


def full(m, shape, v, dtype='f'):
    return mkarr(m, shape_of(m, shape), lambda i: v, dtype=dtype) if shape_of(m, shape) else v


@ext('np.zeros', 'np.empty')
def _zeros(m, a, kw):
    s, d = P(a, kw, 'shape', 'dtype')
    dt = dt_of(m, d) or 'f'
    return full(m, s, FALSE if dt == 'b' else ZERO, dt)


@ext('np.ones')
def _ones(m, a, kw):
    s, d = P(a, kw, 'shape', 'dtype')
    dt = dt_of(m, d) or 'f'
    return full(m, s, TRUE if dt == 'b' else ONE, dt)


@ext('np.full')
def _full(m, a, kw):
    s, v, d = P(a, kw, 'shape', 'fill_value', 'dtype')
    dims = shape_of(m, s)
    V = asarr(m, v)
    dt = dt_of(m, d) or V.dtype
    out, sa, sb = bdims(m, dims, V.dims)
    return mkarr(m, dims, lambda i: V[bidx(sb, i)], dtype=dt)


def _like(val):
    def h(m, a, kw):
        A = asarr(m, a[0])
        dt = dt_of(m, kw.get('dtype')) or A.dtype
        v = val if val is not None else a[1]
        if dt == 'b' and val is not None:
            v = TRUE if val is ONE else FALSE
        return mkarr(m, A.dims, lambda i: v, dtype=dt)
    return h


EXT['np.zeros_like'] = EXT['np.empty_like'] = _like(ZERO)
EXT['np.ones_like'] = _like(ONE)
EXT['np.full_like'] = _like(None)


@ext('np.eye', 'np.identity')
def _eye(m, a, kw):
    n, M, k = P(a, kw, 'N', 'M', 'k')
    n = m.settle(n)
    M = n if isnone(M) else m.settle(M)
    k = ZERO if isnone(k) else k
    return mkarr(m, (n, M), lambda i: ite(eq0(sub(add(i[0], k), i[1])), ONE, ZERO))


@ext('sp.sparse.eye', 'sp.sparse.identity')
def _speye(m, a, kw):
    n, M = P(a, kw, 'm', 'n')
    n = m.settle(n)
    M = n if isnone(M) else m.settle(M)
    return mkarr(m, (n, M), lambda i: ite(eq0(sub(i[0], i[1])), ONE, ZERO), sparse=True)


@ext('np.arange')
def _arange(m, a, kw):
    if len(a) == 1:
        lo, hi, st = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], ONE
    else:
        lo, hi, st = a[:3]
    lo, hi, st = m.settle(lo), m.settle(hi), m.settle(st)
    with using(m.st.ctx):
        if st is ONE and is_int_all(sub(hi, lo)):
            n = restrict(sub(hi, lo))
            if restrict(le0(neg(n))) is not TRUE:
                n = restrict(max_(n, ZERO))
        else:
            if not isnum(st):
                raise Unsupported('arange step')
            n = neg(floordiv(div(sub(lo, hi), st), ONE))
            n = restrict(max_(n, ZERO))
    it = is_int_all(lo) and is_int_all(st)
    r = mkarr(m, (n,), lambda i: add(lo, mul(st, i[0])), dtype='i' if it else 'f',
              meta={'segs': m.range_segs(RangeV(lo, hi, st))} if st is ONE and it else None)
    d = kw.get('dtype')
    if d is None or isnone(d):
        return r
    return newarr(m, cast(m, asarr(m, r), dt_of(m, d, wide=False) or 'f', d))


def is_int_all(x):
    if x.op == 'I':
        return is_int_all(x.a[1]) and is_int_all(x.a[2])
    return x.op == 'B' or is_int(x)


@ext('np.linspace')
def _linspace(m, a, kw):
    lo, hi, n = P(a, kw, 'start', 'stop', 'num')
    n = num(50) if n is None else m.settle(n)
    if kw.get('endpoint', TRUE) is FALSE:
        return mkarr(m, (n,), lambda i: add(lo, mul(i[0], div(sub(hi, lo), n))))
    return mkarr(m, (n,), lambda i: add(lo, mul(i[0], div(sub(hi, lo), sub(n, ONE)))))


def seq_to_arr(m, v):
    """List/tuple/range of scalars or arrays -> Arr."""
    segs = m.iter_segs(v)
    st = isinstance(v, IterV)
    if st:
        raise Unsupported('array of a generator')
    return segs_to_arr(m, segs)


def item_arr(m, x):
    x = m.settle(x)
    if isinstance(x, (Tup, RangeV)) or type(x) is LRef:
        return seq_to_arr(m, x)
    if isT(x) and not isnumT(x):
        raise Unsupported('array of %s' % show(x))
    return asarr(m, x)


def segs_to_arr(m, segs):
    rank = [None]
    dts = set()

    def scan(segs):
        out = []
        for s in segs:
            if isinstance(s, Item):
                A = item_arr(m, s.v)
                dts.add(A.dtype)
                if rank[0] is None:
                    rank[0] = A.dims
                elif len(rank[0]) != len(A.dims):
                    m.praise('ValueError', 'setting an array element with a sequence')
                else:
                    for x, y in zip(rank[0], A.dims):
                        with using(m.st.ctx):
                            e = restrict(eq0(sub(x, y)))
                        if e is not TRUE:
                            m.raise_if(not_(e), 'ValueError', 'inhomogeneous shape')
                out.append(('i', A))
            elif isinstance(s, When):
                out.append(('w', s.cond, scan(s.segs)))
            elif isinstance(s, For):
                out.append(('f', s.var, s.lo, s.hi, scan(s.segs)))
            else:
                raise Unsupported('array of a loop-carried list')
        return out
    tree = scan(segs)
    inner = rank[0] if rank[0] is not None else ()
    if any(isinstance(s, For) for s in segs):
        fv = frozenset()
        for d in inner:
            fv = fv | d.fv
        if _loopvars(segs) & fv:
            raise Unsupported('ragged array')
    n, ent = tree_access(tree)
    dt = 'f'
    if dts and dts <= {'b'}:
        dt = 'b'
    elif dts and dts <= {'i', 'b'}:
        dt = 'i'

    def f(i):
        x = ent(i[0], i[1:])
        return x if dt == 'b' else b2n(x)
    with using(m.st.ctx):
        n = restrict(n)
        t = lam((n,) + tuple(inner), f)
    a = from_term(t, dtype=dt)
    a.meta = {'segs': tuple(segs)} if not inner else None
    return a


def _loopvars(segs):
    out = frozenset()
    for s in segs:
        if isinstance(s, For):
            out = out | frozenset([s.var]) | _loopvars(s.segs)
        elif isinstance(s, When):
            out = out | _loopvars(s.segs)
    return out


def node_len(nd):
    if nd[0] == 'i':
        return ONE
    if nd[0] == 'n':
        return nd[1]
    if nd[0] == 'w':
        return ite(nd[1], tree_len(nd[2]), ZERO)
    L = tree_len(nd[4])
    if nd[1] in L.fv:
        return sum_over(nd[1], nd[2], nd[3], L)
    return mul(L, sub(nd[3], nd[2]))


def tree_len(tree):
    n = ZERO
    for nd in tree:
        n = add(n, node_len(nd))
    return n


def tree_access(tree):
    """(length, entry(t, rest)) of a segment tree.

    Leaves: ('i', Arr) one element; ('n', len, f) a run of len elements f(t, rest)."""
    return tree_len(tree), lambda t, rest: tree_at(tree, t, rest)


def tree_at(tree, t, rest):
    if len(tree) == 1:
        return node_at(tree[0], t, rest)
    L = node_len(tree[0])
    c = restrict(lt0(sub(t, L)))
    if c is TRUE:
        return node_at(tree[0], t, rest)
    if c is FALSE:
        return tree_at(tree[1:], sub(t, L), rest)
    cx = ctx()
    with using(assume_ctx(cx, c, True)):
        x = node_at(tree[0], t, rest)
    with using(assume_ctx(cx, c, False)):
        y = tree_at(tree[1:], sub(t, L), rest)
    return ite(c, x, y)


def node_at(nd, t, rest):
    k = nd[0]
    if k == 'i':
        return nd[1][rest]
    if k == 'n':
        return nd[2](t, rest)
    if k == 'w':
        return tree_at(nd[2], t, rest)
    _, var, lo, hi, sub_ = nd
    L = tree_len(sub_)
    if var not in L.fv:
        q, r = floordiv(t, L), mod(t, L)
        return _inst(tree_at(sub_, r, rest), var, add(lo, q))
    # inner length c*var + d with lo == 0: triangular only
    w = atom(var)
    d = sub(L, w)
    if lo is ZERO and var not in d.fv:
        if d is ONE:
            row = fn('trirow', t)
            off = sub(t, mul(HALF, mul(row, add(row, ONE))))
            return _inst(tree_at(sub_, off, rest), var, row)
    raise Unsupported('ragged concatenation')


def _inst(x, var, val):
    return subst(x, {var: val})


@ext('np.array', 'np.asarray', 'np.ascontiguousarray', 'np.asfarray', 'np.asanyarray', 'np.float64', 'np.int64',
     'np.int32', 'np.float32', 'np.float_', 'np.int_', 'np.bool_')
def _array(m, a, kw):
    v, d = P(a, kw, 'object', 'dtype')

    def one(v):
        dt = dt_of(m, d, False)
        if isT(v):
            if not isnumT(v):
                if v is NONE or isstr(v) or v.op == 'st':
                    return v
            if dt:
                c = cast(m, asarr(m, v), dt, d)
                return newarr(m, c)
            return v
        if isarr(v):
            A = m.arr(v)
            if A.sparse:
                # an object array wrapping the sparse matrix
                raise Unsupported('np.array of a sparse matrix')
            A = cast(m, A, dt, d)
            return newarr(m, Arr(A.dims, A.fn, A.dtype, term=A._t))
        if isinstance(v, (Tup, RangeV)) or type(v) is LRef:
            vals = m.concrete(m.iter_segs(v))
            if vals is not None and vals and all(isT(x) and (isstr(x) or x.op == 'st') for x in vals):
                return m.new_list(items(*vals))
            if vals is not None and vals and any(isT(x) and x is NONE for x in vals):
                raise Unsupported('object array')
            A = cast(m, seq_to_arr(m, v), dt, d)
            return newarr(m, A)
        raise Unsupported('np.array of %r' % (v,))
    return dist(m, v, one)


@builtin('npasarray')
def _asarray_b(m, f, args, kw):
    return _asarray(m, args, kw)


@ext('np.asarray', 'np.asanyarray', 'np.ascontiguousarray')
def _asarray(m, a, kw):
    v, d = P(a, kw, 'a', 'dtype')
    if isarr(v) and (d is None or dt_of(m, d) == m.arr(v).dtype) and not m.arr(v).sparse:
        return v
    return _array(m, a, kw)


@ext('np.atleast_1d')
def _atleast1(m, a, kw):
    v = m.settle(a[0])
    if isT(v):
        if isnumT(v):
            return mkarr(m, (ONE,), lambda i: v, dtype=asarr(m, v).dtype)
        return m.new_list(items(v))
    if isarr(v):
        return v
    return _array(m, [v], {})


@ext('np.atleast_2d')
def _atleast2(m, a, kw):
    v = _atleast1(m, a, kw)
    A = m.arr(v)
    if len(A.dims) == 1:
        return mkarr(m, (ONE,) + A.dims, lambda i: A[i[1:]], dtype=A.dtype)
    return v


# ------------------------------------------------------------ shape queries

def dims_tuple(m, dims):
    return tup(*[m.settle(d) for d in dims])


@ext('np.shape')
def _shape(m, a, kw):
    v = m.settle(a[0])
    if isT(v):
        return Tup(())
    return dims_tuple(m, asarr(m, v).dims)


@ext('np.size')
def _size(m, a, kw):
    v = m.settle(a[0])

    def one(v):
        if isT(v):
            return ONE
        A = asarr(m, v)
        ax = kw.get('axis', a[1] if len(a) > 1 else None)
        with using(m.st.ctx):
            if not isnone(ax):
                return A.dims[need_int(m, ax)]
            return A.size()
    return dist(m, v, one)


@ext('np.ndim')
def _ndim(m, a, kw):
    return num(len(asarr(m, a[0]).dims))


@ext('np.isscalar')
def _isscalar(m, a, kw):
    v = m.settle(a[0])
    return dist(m, v, lambda x: TRUE if isT(x) and x is not NONE and x is not ELLIPSIS else FALSE)


def arr_attr(m, o, name):
    if isT(o):
        if name == 'shape':
            return Tup(())
        if name == 'size':
            return ONE
        if name == 'ndim':
            return ZERO
        if name == 'T' or name == 'real':
            return o
        if name == 'imag':
            return ZERO
        if name in ('dtype',):
            return const('dtype:float')
        if name in METHODS:
            return Builtin('arr:' + name, o)
        return None
    A = m.arr(o)
    if name == 'shape':
        return dims_tuple(m, A.dims)
    if name == 'size':
        if A.sparse:
            return nnz_of(m, A)
        with using(m.st.ctx):
            return restrict(A.size())
    if name == 'ndim':
        return num(len(A.dims))
    if name == 'T':
        return transpose(m, o, None)
    if name == 'dtype':
        return const({'f': 'dtype:float', 'i': 'dtype:int', 'b': 'dtype:bool'}.get(A.dtype, 'dtype:object'))
    if name == 'real':
        return o
    if name == 'A' and (A.sparse or (A.meta and A.meta.get('matrix'))):
        return newarr(m, Arr(A.dims, A.fn, A.dtype))
    if name in ('row', 'col', 'data') and A.sparse:
        r, c, d = triplets(m, A)
        x = {'row': r, 'col': c, 'data': d}[name]
        if name == 'data':
            x = Arr(x.dims, x.fn, x.dtype, term=x._t, meta=dict(x.meta or {}, csr=('data', A)))
        return newarr(m, x)
    if name == 'nnz' and A.sparse:
        return nnz_of(m, A)
    if name in ('indices', 'indptr') and A.sparse:
        return csr_part(m, A, name)
    if name == 'flat':
        return ravel(m, o, copy=False)
    if name in METHODS:
        if name in ('toarray', 'todense', 'tocsr', 'tocsc', 'tocoo', 'multiply', 'getrow', 'getcol') and not A.sparse:
            return None
        if A.sparse and name in ('flatten', 'tolist', 'fill', 'ravel', 'all', 'any', 'squeeze'):
            return None
        return Builtin('arr:' + name, o)
    if name in NDARRAY_ATTRS and not A.sparse:
        from .models import is_boxed
        if is_boxed(m, o):
            return None
        if name == 'flags':
            from .values import ExtObj
            flat = len(A.dims) < 2 or sum(d is not ONE for d in A.dims) < 2
            try:
                col = TRUE if flat else memory_order(m, o, lambda f: TRUE if f else FALSE)
                row = TRUE if flat else memory_order(m, o, lambda f: FALSE if f else TRUE)
            except Unsupported:
                return ExtObj('np.flags', (o,))
            return ExtObj('np.flags', (o,), (), (('f_contiguous', col), ('c_contiguous', row), ('contiguous', row)))
        raise Unsupported('array attribute %s' % name)
    return None


NDARRAY_ATTRS = frozenset(
    'base byteswap choose compress conj conjugate ctypes data device dump dumps flags getfield itemset itemsize mT nbytes '
    'newbyteorder partition put repeat resize searchsorted setfield setflags strides to_device tofile'.split())


def csr_part(m, A, name):
    """The index arrays of a compressed matrix: opaque, but they know where they come from."""
    fmt = (A.meta or {}).get('fmt')
    if fmt not in ('csr', 'csc'):
        raise Unsupported('csr structure')
    with using(m.st.ctx):
        n = nnz_of(m, A) if name == 'indices' else add(A.dims[0 if fmt == 'csr' else 1], ONE)
        X = afn('%s_%s' % (fmt, name), (n,), A.term())
    set_props(X, 'int', 'nonneg')
    B = from_term(X, dtype='i')
    return newarr(m, Arr(B.dims, B.fn, 'i', term=B._t, meta={'csr': (name, A)}))


def from_csr_parts(m, parts, shp, fmt):
    As = [asarr(m, p) for p in parts]
    tags = [(X.meta or {}).get('csr') for X in As]
    if any(t is None for t in tags):
        raise Unsupported('csr constructor')
    src = tags[0][1]
    f0 = (src.meta or {}).get('fmt')
    if [t[0] for t in tags] != ['data', 'indices', 'indptr'] or f0 not in ('csr', 'csc') or \
            any(t[1] is not src and t[1].term() is not src.term() for t in tags):
        if isnone(shp):
            raise Unsupported('csr constructor')
        dims = shape_of(m, shp)
        return mkarr(m, dims, lambda i: get(afn('csr_mixed', dims, *[X.term() for X in As]), *i), sparse=True, meta={'fmt': fmt})
    same = f0 == fmt
    dims = src.dims if same else (src.dims[1], src.dims[0])
    if isnone(shp):
        # the minor dimension is taken from the largest index present
        n, k = src.dims if f0 == 'csr' else (src.dims[1], src.dims[0])
        if concrete_int(n) is None or concrete_int(k) is None:
            raise Unsupported('csr constructor without a shape')
        with using(m.st.ctx):
            minor = ZERO
            for j in range(concrete_int(k)):
                some = FALSE
                for i in range(concrete_int(n)):
                    x = src[(num(i), num(j)) if f0 == 'csr' else (num(j), num(i))]
                    some = or_(some, not_(eq0(x)))
                minor = ite(restrict(some), num(j + 1), minor)
            empty = restrict(eq0(minor))
        m.raise_if(empty, 'ValueError', 'unable to infer matrix dimensions')
        dims = (n, minor)
        if fmt == 'csc':
            dims = (minor, n)
        if f0 == fmt:
            return mkarr(m, dims, lambda i: src[i], sparse=True, meta={'fmt': fmt})
        return mkarr(m, dims, lambda i: src[(i[1], i[0])], sparse=True, meta={'fmt': fmt})
    for x, y in zip(shape_of(m, shp), dims):
        chk_eq(m, x, y, 'inconsistent shapes')
    return mkarr(m, dims, (lambda i: src[i]) if same else (lambda i: src[(i[1], i[0])]), sparse=True, meta={'fmt': fmt})


def nnz_of(m, A):
    return triplets(m, A)[2].dims[0]


# ------------------------------------------------------------ reshaping

def reshape_idx(m, old, new):
    """Index map new index -> old index for a C-order reshape."""
    groups = []
    i = j = 0
    old, new = list(old), list(new)
    while i < len(old) or j < len(new):
        gi, gj = [], []
        po, pn = ONE, ONE
        ok = False
        # grow the groups until their products agree
        while True:
            if gi or gj:
                if restrict(eq0(sub(po, pn))) is TRUE:
                    ok = True
                    break
            ri, rj = len(old) - i - len(gi), len(new) - j - len(gj)
            if ri == 0 and rj == 0:
                break
            if not gi and not gj:
                if ri:
                    gi.append(old[i]); po = mul(po, old[i])
                    if old[i] is ONE:
                        ok = True
                        break
                if rj and not (gi and gi[-1] is ONE):
                    if new[j] is ONE:
                        # drop unit axis of the new shape
                        gi = []
                        gj = [ONE]
                        ok = True
                        break
                    gj.append(new[j]); pn = mul(pn, new[j])
                continue
            # extend the shorter side
            do = _divides(pn, po)
            if rj and (do is False or not ri):
                gj.append(new[j + len(gj)]); pn = mul(pn, gj[-1])
            elif ri:
                gi.append(old[i + len(gi)]); po = mul(po, gi[-1])
            else:
                gj.append(new[j + len(gj)]); pn = mul(pn, gj[-1])
        if not ok:
            gi, gj = old[i:], new[j:]
        groups.append((i, gi, j, gj))
        i += len(gi)
        j += len(gj)

    def f(idx):
        out = []
        for (i0, gi, j0, gj) in groups:
            ii = idx[j0:j0 + len(gj)]
            if len(gi) == 1 and len(gj) == 1:
                out.append(ii[0])
                continue
            flat = ZERO
            for d, k in zip(gj, ii):
                flat = add(mul(flat, d), k)
            out.extend(unravel(flat, gi))
        return tuple(out)
    return f


def _divides(a, b):
    """Is b (old product) a proper multiple of a (new product) -> False means extend new."""
    try:
        q = div(b, a)
        if q.op == 'Q' and not q.a[1] and all(e > 0 for mm, _ in q.a[0] for _, e in mm):
            return False
        q = div(a, b)
        if q.op == 'Q' and not q.a[1] and all(e > 0 for mm, _ in q.a[0] for _, e in mm):
            return True
    except Unsupported:
        pass
    return None


def unravel(flat, dims):
    if len(dims) == 0:
        return []
    out = []
    for d in reversed(dims[1:]):
        out.append(mod(flat, d))
        flat = floordiv(flat, d)
    out.append(flat)
    return list(reversed(out))


def reshape_dims(m, A, shape):
    dims = list(shape)
    neg1 = [k for k, d in enumerate(dims) if isnum(d) and d.op == 'Q' and numval(d) == -1]
    with using(m.st.ctx):
        size = A.size()
        if neg1:
            rest = ONE
            for k, d in enumerate(dims):
                if k != neg1[0]:
                    rest = mul(rest, d)
            q = div(size, rest) if rest is not ONE else size
            ok = all_int_q(q)
            if not ok:
                q = floordiv(size, rest)
            dims[neg1[0]] = restrict(q)
            bad = FALSE if ok else restrict(not_(eq0(sub(mul(q, rest), size))))
        else:
            p = ONE
            for d in dims:
                p = mul(p, d)
            bad = restrict(not_(eq0(sub(p, size))))
    m.raise_if(bad, 'ValueError', 'cannot reshape array')
    return tuple(m.settle(d) for d in dims)


def all_int_q(q):
    if q.op == 'I':
        return all_int_q(q.a[1]) and all_int_q(q.a[2])
    return is_int(q)


def order_of(m, o):
    """'C', 'F' or 'K' (whatever the array has in memory)."""
    if o in ('C', 'F'):
        return o
    if o is None or isnone(o):
        return 'C'
    o = m.settle(o)
    if not isstr(o) or strof(o) not in ('C', 'F', 'A', 'K'):
        raise Unsupported('memory order')
    return 'K' if strof(o) in ('A', 'K') else strof(o)


def memory_order(m, o, build):
    """build(True) in column-major and build(False) in row-major order, by the layout of o in memory.

    The layout of an array made here is not tracked; one given from outside may have any."""
    A = asarr(m, o)
    if len(A.dims) < 2 or sum(d is not ONE for d in A.dims) < 2:
        return build(False)
    if not isarr(o):
        return build(False)
    t = A.term()
    if t.op != 'arr' or t.a[0].startswith('%') or t.a[0].startswith('bx'):
        raise Unsupported('memory order of an array')
    col = eq0(sub(var('column_major_' + t.a[0], 'int', 'nonneg', 'bool', lo=ZERO, hi=TWO), ONE))
    x, y = build(True), build(False)
    if isT(x) and isT(y):
        return ite(col, x, y)
    X, Y = asarr(m, x), asarr(m, y)
    return mkarr(m, X.dims, lambda i: ite(col, X[i], Y[i]), dtype=A.dtype)


def reshape(m, o, shape, order=None):
    if order == 'K':
        return dist(m, o, lambda o: memory_order(m, o, lambda f: reshape(m, o, shape, 'F' if f else None)))

    def one(o):
        A = asarr(m, o)
        if A.sparse:
            raise Unsupported('reshape of sparse')
        if order == 'F':
            B = Arr(tuple(reversed(A.dims)), lambda i: A[tuple(reversed(i))], A.dtype)
            d2 = reshape_dims(m, A, tuple(shape))
            with using(m.st.ctx):
                f = reshape_idx(m, B.dims, tuple(reversed(d2)))
            return mkarr(m, d2, lambda i: B[f(tuple(reversed(i)))], dtype=A.dtype)
        dims = reshape_dims(m, A, shape)
        with using(m.st.ctx):
            if not dims:
                return restrict(A[tuple(ZERO for _ in A.dims)])
            f = reshape_idx(m, A.dims, dims)
            g = reshape_idx(m, dims, A.dims)
        if isarr(o):
            return view_of(m, o, dims, f, g)
        return mkarr(m, dims, lambda i: A[f(i)], dtype=A.dtype)
    return dist(m, o, one)


def view_of(m, o, dims, f, g):
    """View of o with index map f (new->old); g maps old index -> new index."""
    cache = {}

    def getter(A):
        k = id(A)
        r = cache.get(k)
        if r is None or r[0] is not A:
            with using(m.st.ctx):
                t = lam(dims, lambda i: A[f(i)])
            r = (A, from_term(t, dtype=A.dtype))
            cache[k] = r
        return r[1]

    def setter(A, new):
        with using(m.st.ctx):
            t = lam(A.dims, lambda i: new[g(i)])
        return from_term(t, dtype=A.dtype)
    return m.view(o, getter, setter)


@ext('np.reshape')
def _reshape(m, a, kw):
    v = a[0]
    s = a[1] if len(a) > 1 else kw.get('newshape', kw.get('shape'))
    o = kw.get('order', a[2] if len(a) > 2 else None)
    return reshape(m, v, shape_of(m, s), order_of(m, o))


@method('reshape')
def _mreshape(m, o, a, kw):
    od = kw.get('order')
    s = shape_of(m, a[0]) if len(a) == 1 else tuple(chk_dim(m, m.settle(x)) for x in a)
    return reshape(m, o, s, order_of(m, od))


def ravel(m, o, copy=True):
    A = asarr(m, o)
    if not isarr(o):
        with using(m.st.ctx):
            f = reshape_idx(m, A.dims, (A.size(),)) if A.dims else (lambda i: ())
        return mkarr(m, (A.size(),), lambda i: A[f(i)], dtype=A.dtype)
    r = reshape(m, o, (m.settle(A.size()),))
    if copy:
        B = m.arr(r)
        return newarr(m, Arr(B.dims, B.fn, B.dtype, term=B._t))
    return r


def ravel_in(m, o, order, copy):
    order = order_of(m, order)
    if order == 'K':
        return dist(m, o, lambda o: memory_order(m, o, lambda f: ravel_in(m, o, 'F' if f else 'C', True)))
    if order == 'F':
        return ravel(m, transpose(m, o, None), True)
    return ravel(m, o, copy)


@ext('np.round', 'np.around', 'np.round_')
def _npround(m, a, kw):
    from .models import rounded
    return rounded(m, a[0], kw.get('decimals', a[1] if len(a) > 1 else ZERO))


@method('round')
def _mround(m, o, a, kw):
    return _npround(m, [o] + list(a), kw)


@method('tobytes', 'tostring')
def _tobytes(m, o, a, kw):
    """The bytes of an array: as good as its elements in order."""
    from .values import Tup, Item
    return Tup((Item(const('<bytes>')),) + tuple(m.iter_segs(ravel_in(m, o, None, True))))


@method('flatten')
def _flatten(m, o, a, kw):
    return ravel_in(m, o, kw.get('order', a[0] if a else None), True)


@method('ravel')
def _mravel(m, o, a, kw):
    return ravel_in(m, o, kw.get('order', a[0] if a else None), False)


@ext('np.ravel')
def _ravel(m, a, kw):
    return _mravel(m, a[0], a[1:], kw)


def transpose(m, o, axes):
    if isT(o):
        return o
    A = asarr(m, o)
    n = len(A.dims)
    ax = list(reversed(range(n))) if axes is None else [x % n for x in axes]
    inv = [ax.index(k) for k in range(n)]
    dims = tuple(A.dims[k] for k in ax)
    if isarr(o) and not A.sparse and not (A.meta and A.meta.get('matrix')):
        if n < 2:
            return o
        return view_of(m, o, dims, lambda i: tuple(i[inv[k]] for k in range(n)),
                       lambda i: tuple(i[ax[k]] for k in range(n)))
    r = mkarr(m, dims, lambda i: A[tuple(i[inv[k]] for k in range(n))], dtype=A.dtype, sparse=A.sparse,
              meta={'matrix': True} if A.meta and A.meta.get('matrix') else None)
    if A.sparse and A.meta and 'trip' in A.meta and isarr(r) and n == 2:
        rr, cc, dd = A.meta['trip']
        _setmeta(m, r, trip=(cc, rr, dd))
    return r


@ext('np.transpose')
def _transpose(m, a, kw):
    ax = kw.get('axes', a[1] if len(a) > 1 else None)
    return transpose(m, a[0], None if isnone(ax) else [need_int(m, x) for x in m.concrete(m.iter_segs(ax))])


@method('transpose')
def _mtranspose(m, o, a, kw):
    if not a or isnone(a[0]):
        return transpose(m, o, None)
    if len(a) == 1 and not isT(a[0]):
        return transpose(m, o, [need_int(m, x) for x in m.concrete(m.iter_segs(a[0]))])
    return transpose(m, o, [need_int(m, x) for x in a])


@ext('np.swapaxes')
def _swapaxes(m, a, kw):
    A = asarr(m, a[0])
    n = len(A.dims)
    i, j = need_int(m, a[1]) % n, need_int(m, a[2]) % n
    ax = list(range(n))
    ax[i], ax[j] = ax[j], ax[i]
    return transpose(m, a[0], ax)


METHODS['swapaxes'] = lambda m, o, a, kw: _swapaxes(m, [o] + a, kw)


@ext('np.moveaxis')
def _moveaxis(m, a, kw):
    A = asarr(m, a[0])
    n = len(A.dims)
    i, j = need_int(m, a[1]) % n, need_int(m, a[2]) % n
    ax = [k for k in range(n) if k != i]
    ax.insert(j, i)
    return transpose(m, a[0], ax)


@ext('np.expand_dims')
def _expand(m, a, kw):
    v, ax = P(a, kw, 'a', 'axis')
    A = asarr(m, v)
    n = len(A.dims) + 1
    k = need_int(m, ax)
    if not -n <= k < n:
        m.praise('ValueError', 'axis out of bounds')
    k %= n
    dims = A.dims[:k] + (ONE,) + A.dims[k:]
    if isarr(v):
        return view_of(m, v, dims, lambda i: i[:k] + i[k + 1:], lambda i: i[:k] + (ZERO,) + i[k:])
    return mkarr(m, dims, lambda i: A[i[:k] + i[k + 1:]], dtype=A.dtype)


@ext('np.squeeze')
def _squeeze(m, a, kw):
    v, ax = P(a, kw, 'a', 'axis')
    A = asarr(m, v)
    if isnone(ax):
        keep = []
        for k, d in enumerate(A.dims):
            d = m.settle(d)
            with using(m.st.ctx):
                e = restrict(eq0(sub(d, ONE)))
            if e is TRUE:
                continue
            if e is not FALSE:
                # decided by case: unit axes vanish
                return m.branch(e, lambda: _squeeze(m, a, kw), lambda: _squeeze(m, a, kw))
            keep.append(k)
    else:
        axs = [need_int(m, ax)] if isT(ax) else [need_int(m, x) for x in m.concrete(m.iter_segs(ax))]
        axs = [x % len(A.dims) for x in axs]
        for x in axs:
            with using(m.st.ctx):
                bad = not_(eq0(sub(A.dims[x], ONE)))
            m.raise_if(bad, 'ValueError', 'cannot select an axis to squeeze out which has size not equal to one')
        keep = [k for k in range(len(A.dims)) if k not in axs]
    dims = tuple(A.dims[k] for k in keep)

    def f(i):
        full_ = [ZERO] * len(A.dims)
        for k, x in zip(keep, i):
            full_[k] = x
        return tuple(full_)
    if not dims or not isarr(v):
        return mkarr(m, dims, lambda i: A[f(i)], dtype=A.dtype)
    return view_of(m, v, dims, f, lambda i: tuple(i[k] for k in keep))


METHODS['squeeze'] = lambda m, o, a, kw: _squeeze(m, [o] + a, kw)


@ext('np.broadcast_to')
def _bcast(m, a, kw):
    A = asarr(m, a[0])
    dims = shape_of(m, a[1] if len(a) > 1 else kw['shape'])
    out, sa, sb = bdims(m, A.dims, dims)
    for x, y in zip(out, dims):
        with using(m.st.ctx):
            bad = not_(eq0(sub(x, y)))
        m.raise_if(bad, 'ValueError', 'cannot broadcast')
    return mkarr(m, dims, lambda i: A[bidx(sa, i)], dtype=A.dtype)


@ext('np.tile')
def _tile(m, a, kw):
    v, reps = P(a, kw, 'A', 'reps')
    A = asarr(m, v)
    r = shape_of(m, reps)
    n = max(len(r), len(A.dims))
    r = (ONE,) * (n - len(r)) + tuple(r)
    ad = (ONE,) * (n - len(A.dims)) + A.dims
    with using(m.st.ctx):
        dims = tuple(mul(x, y) for x, y in zip(r, ad))

    def f(i):
        j = []
        for k in range(n):
            if ad[k] is ONE:
                j.append(ZERO)
            elif r[k] is ONE:
                j.append(i[k])
            else:
                j.append(mod(i[k], ad[k]))
        return tuple(j[n - len(A.dims):])
    return mkarr(m, dims, lambda i: A[f(i)], dtype=A.dtype)


@ext('np.repeat')
def _repeat(m, a, kw):
    v, r, ax = P(a, kw, 'a', 'repeats', 'axis')
    A = asarr(m, v)
    if isarr(r) or not isT(r):
        raise Unsupported('repeat counts')
    if isnone(ax):
        v = ravel(m, v)
        A = m.arr(v)
        k = 0
    else:
        k = need_int(m, ax) % len(A.dims)
    with using(m.st.ctx):
        dims = A.dims[:k] + (mul(A.dims[k], r),) + A.dims[k + 1:]
    return mkarr(m, dims, lambda i: A[i[:k] + (floordiv(i[k], r),) + i[k + 1:]], dtype=A.dtype)


@ext('np.flip')
def _flip(m, a, kw):
    v, ax = P(a, kw, 'm', 'axis')
    A = asarr(m, v)
    axs = range(len(A.dims)) if isnone(ax) else [need_int(m, ax) % len(A.dims)]
    return mkarr(m, A.dims, lambda i: A[tuple(sub(sub(A.dims[k], ONE), x) if k in axs else x
                                               for k, x in enumerate(i))], dtype=A.dtype)


# ------------------------------------------------------------ joining

def concat(m, segs, axis):
    """Concatenate a (possibly symbolic) list of arrays along axis."""
    ref = [None]
    dts = set()

    def scan(segs):
        out = []
        for s in segs:
            if isinstance(s, Item):
                A = item_arr(m, s.v)
                if not A.dims:
                    m.praise('ValueError', 'zero-dimensional arrays cannot be concatenated')
                dts.add(A.dtype)
                k = axis % len(A.dims)
                if ref[0] is None:
                    ref[0] = A.dims
                else:
                    if len(ref[0]) != len(A.dims):
                        m.praise('ValueError', 'all the input array dimensions must match')
                    for j, (x, y) in enumerate(zip(ref[0], A.dims)):
                        if j != k:
                            with using(m.st.ctx):
                                e = restrict(eq0(sub(x, y)))
                            if e is not TRUE:
                                m.raise_if(not_(e), 'ValueError', 'all the input array dimensions must match')
                out.append(('n', A.dims[k], (lambda A, k: lambda t, rest: A[rest[:k] + (t,) + rest[k:]])(A, k)))
            elif isinstance(s, When):
                out.append(('w', s.cond, scan(s.segs)))
            elif isinstance(s, For):
                out.append(('f', s.var, s.lo, s.hi, scan(s.segs)))
            else:
                raise Unsupported('concatenate')
        return out
    tree = scan(segs)
    if ref[0] is None:
        m.praise('ValueError', 'need at least one array to concatenate')
    k = axis % len(ref[0])
    if len(tree) == 1 and tree[0][0] == 'n':
        pass
    dt = 'b' if dts == {'b'} else ('i' if dts <= {'i', 'b'} else 'f')
    with using(m.st.ctx):
        n = restrict(tree_len(tree))
    dims = ref[0][:k] + (n,) + ref[0][k + 1:]
    return mkarr(m, dims, lambda i: (lambda x: x if dt == 'b' else b2n(x))(
        tree_at(tree, i[k], i[:k] + i[k + 1:])), dtype=dt)


def seg_map(m, segs, f):
    out = []
    for s in segs:
        if isinstance(s, Item):
            out.append(Item(f(s.v)))
        elif isinstance(s, When):
            out.append(When(s.cond, seg_map(m, s.segs, f)))
        elif isinstance(s, For):
            out.append(For(s.var, s.lo, s.hi, seg_map(m, s.segs, f)))
        else:
            out.append(s)
    return tuple(out)


def list_arg(m, v):
    if isarr(v):
        return m.iter_segs(v)
    return m.iter_segs(v)


@ext('np.concatenate')
def _concatenate(m, a, kw):
    v, ax = P(a, kw, 'arrays', 'axis')
    segs = list_arg(m, v)
    vals = m.concrete(segs)
    if vals is not None and vals and all(type(x) is LRef and is_strlist(m, x) for x in vals):
        return m.new_list(sum((tuple(m.iter_segs(x)) for x in vals), ()))
    if isnone(ax) and ax is not None:
        segs = seg_map(m, segs, lambda x: ravel(m, x))
        return concat(m, segs, 0)
    return concat(m, segs, 0 if ax is None else need_int(m, ax))


def is_strlist(m, x):
    vals = m.concrete(m.iter_segs(x))
    if vals is None:
        return any(isinstance(s, For) and _strseg(s) for s in m.iter_segs(x))
    return bool(vals) and all(isT(y) and (isstr(y) or y.op == 'st') for y in vals)


def _strseg(s):
    return all((isinstance(x, Item) and isT(x.v) and (isstr(x.v) or x.v.op == 'st')) or
               (isinstance(x, For) and _strseg(x)) for x in s.segs)


def _ref_rank(m, segs):
    for s in segs:
        if isinstance(s, Item):
            return len(item_arr(m, s.v).dims)
        r = _ref_rank(m, s.segs)
        if r is not None:
            return r
    return None


@ext('np.hstack')
def _hstack(m, a, kw):
    segs = list_arg(m, a[0])
    vals = m.concrete(segs)
    if vals is not None and vals and any(type(x) is LRef and is_strlist(m, x) or (isT(x) and (isstr(x) or x.op == 'st'))
                                         for x in vals):
        out = ()
        for x in vals:
            out += tuple(m.iter_segs(x)) if type(x) is LRef else (Item(x),)
        return m.new_list(out)
    r = _ref_rank(m, segs)
    if r == 0 or r is None or vals is not None:
        segs = seg_map(m, segs, lambda x: _atleast1(m, [x], {}))
        r = max(r or 1, 1)
    return concat(m, segs, 0 if r == 1 else 1)


@ext('np.vstack', 'np.row_stack')
def _vstack(m, a, kw):
    segs = list_arg(m, a[0])
    segs = seg_map(m, segs, lambda x: _atleast2(m, [x], {}))
    return concat(m, segs, 0)


@ext('np.column_stack')
def _colstack(m, a, kw):
    segs = list_arg(m, a[0])

    def f(x):
        A = item_arr(m, x)
        if len(A.dims) == 1:
            return mkarr(m, A.dims + (ONE,), lambda i: A[i[:1]], dtype=A.dtype)
        return x
    return concat(m, seg_map(m, segs, f), 1)


@ext('np.stack')
def _stack(m, a, kw):
    v, ax = P(a, kw, 'arrays', 'axis')
    k = 0 if ax is None else need_int(m, ax)
    segs = list_arg(m, v)
    r = _ref_rank(m, segs)
    if r is None:
        raise Unsupported('stack of nothing')
    k %= r + 1

    def f(x):
        A = item_arr(m, x)
        return mkarr(m, A.dims[:k] + (ONE,) + A.dims[k:], lambda i: A[i[:k] + i[k + 1:]], dtype=A.dtype)
    return concat(m, seg_map(m, segs, f), k)


@ext('np.append')
def _append(m, a, kw):
    x, y, ax = P(a, kw, 'arr', 'values', 'axis')
    if isnone(ax):
        return concat(m, items(ravel(m, x), ravel(m, y)), 0)
    return concat(m, items(x, y), need_int(m, ax))


@ext('np.array_split', 'np.split', 'np.hsplit')
def _split(m, a, kw):
    v, s, ax = P(a, kw, 'ary', 'indices_or_sections', 'axis')
    A = asarr(m, v)
    k = 0 if ax is None else need_int(m, ax)
    if isT(s):
        raise Unsupported('split sections')
    cuts = shape_of(m, s)
    out = []
    prev = NONE
    for c in list(cuts) + [NONE]:
        out.append(arr_getitem(m, v, Tup(items(*([SliceV(NONE, NONE, NONE)] * k + [SliceV(prev, c, NONE)])))))
        prev = c
    return m.new_list(items(*out))


# ------------------------------------------------------------ reductions

def axes_of(m, ax, n):
    if isnone(ax):
        return list(range(n))
    if isT(ax):
        l = [need_int(m, ax)]
    else:
        l = [need_int(m, x) for x in m.concrete(m.iter_segs(ax))]
    for x in l:
        if not -n <= x < n:
            m.praise('ValueError', 'axis out of bounds')
    return sorted(x % n for x in l)


def reduce_with(m, v, ax, keepdims, red, dtype='f'):
    """red(dims, f): combine entries f(idx) over dims."""
    A = asarr(m, v)
    n = len(A.dims)
    axs = axes_of(m, ax, n)
    keep = [k for k in range(n) if k not in axs]
    rd = [A.dims[k] for k in axs]

    def entry(i):
        def g(j):
            full_ = [None] * n
            for k, x in zip(keep, i):
                full_[k] = x
            for k, x in zip(axs, j):
                full_[k] = x
            return A[tuple(full_)]
        return red(rd, g)
    kd = keepdims is TRUE
    if kd:
        dims = tuple(ONE if k in axs else A.dims[k] for k in range(n))
        return mkarr(m, dims, lambda i: entry(tuple(i[k] for k in keep)), dtype=dtype)
    return mkarr(m, [A.dims[k] for k in keep], entry, dtype=dtype)


def red_sum(dims, f):
    def go(k, idx):
        if k == len(dims):
            return b2n(f(tuple(idx)))
        return summ(ZERO, dims[k], lambda x: go(k + 1, idx + [x]))
    return go(0, [])


def red_amax(dims, f):
    if len(dims) == 0:
        return f(())
    if all(isnum(d) and numval(d) <= 4 for d in dims) and dims:
        import itertools
        vals = [f(tuple(num(i) for i in ix)) for ix in itertools.product(*[range(int(numval(d))) for d in dims])]
        if vals:
            r = vals[0]
            for x in vals[1:]:
                r = max_(r, x)
            return r
    return get(afn('amax', (), lam(dims, lambda i: b2n(f(i)))))


def red_prod(dims, f):
    if all(isnum(d) and numval(d) <= 8 for d in dims):
        import itertools
        r = ONE
        for ix in itertools.product(*[range(int(numval(d))) for d in dims]):
            r = mul(r, b2n(f(tuple(num(i) for i in ix))))
        return r
    return get(afn('prod', (), lam(dims, lambda i: b2n(f(i)))))


def _sum(m, a, kw):
    v, ax, dt, out, kd = P(a, kw, 'a', 'axis', 'dtype', 'out', 'keepdims')
    if isinstance(v, IterV):
        from .models import BUILTIN
        return BUILTIN['py:sum'](m, None, [v], {})
    A = asarr(m, v)
    if A.sparse and not isnone(ax):
        k = axes_of(m, ax, 2)
        r = reduce_with(m, newarr(m, Arr(A.dims, A.fn)), ax, TRUE, red_sum)
        return _setmeta(m, r, matrix=True) if isarr(r) else r
    return reduce_with(m, newarr(m, A) if not isarr(v) else v, ax, kd, red_sum,
                       dtype='i' if A.dtype in ('i', 'b') else 'f')


EXT['np.sum'] = EXT['np.nansum'] = _sum
METHODS['sum'] = lambda m, o, a, kw: _sum(m, [o] + a, kw)


def _mean(m, a, kw):
    v, ax, dt, out, kd = P(a, kw, 'a', 'axis', 'dtype', 'out', 'keepdims')

    def red(dims, f):
        n = ONE
        for d in dims:
            n = mul(n, d)
        return div(red_sum(dims, f), n)
    return reduce_with(m, v, ax, kd, red)


EXT['np.mean'] = EXT['np.average'] = _mean
METHODS['mean'] = lambda m, o, a, kw: _mean(m, [o] + a, kw)


def _var(m, a, kw):
    v, ax = P(a, kw, 'a', 'axis')
    ddof = kw.get('ddof', ZERO)

    def red(dims, f):
        n = ONE
        for d in dims:
            n = mul(n, d)
        mu = div(red_sum(dims, f), n)
        return div(red_sum(dims, lambda i: power(sub(f(i), mu), TWO)), sub(n, ddof))
    return reduce_with(m, v, ax, kw.get('keepdims'), red)


EXT['np.var'] = _var
METHODS['var'] = lambda m, o, a, kw: _var(m, [o] + a, kw)
EXT['np.std'] = lambda m, a, kw: umap(m, sqrt_, _var(m, a, kw))
METHODS['std'] = lambda m, o, a, kw: umap(m, sqrt_, _var(m, [o] + a, kw))


def _prod(m, a, kw):
    v, ax, dt, out, kd = P(a, kw, 'a', 'axis', 'dtype', 'out', 'keepdims')
    A = asarr(m, v)
    return reduce_with(m, v, ax, kd, red_prod, dtype=A.dtype)


EXT['np.prod'] = EXT['np.product'] = _prod
METHODS['prod'] = lambda m, o, a, kw: _prod(m, [o] + a, kw)


def _amax(m, a, kw):
    v, ax, out, kd = P(a, kw, 'a', 'axis', 'out', 'keepdims')
    return reduce_with(m, v, ax, kd, red_amax)


def _amin(m, a, kw):
    v, ax, out, kd = P(a, kw, 'a', 'axis', 'out', 'keepdims')
    return reduce_with(m, v, ax, kd, lambda d, f: neg(red_amax(d, lambda i: neg(f(i)))))


EXT['np.max'] = EXT['np.amax'] = _amax
EXT['np.min'] = EXT['np.amin'] = _amin
METHODS['max'] = lambda m, o, a, kw: _amax(m, [o] + a, kw)
METHODS['min'] = lambda m, o, a, kw: _amin(m, [o] + a, kw)


def reduce_ext(m, v, sign):
    return (_amax if sign > 0 else _amin)(m, [v], {})


def reduce_bool(m, v, isall, ax, kd=None):
    def red(dims, f):
        if isall:
            return forall(dims, lambda i: tob(f(i)))
        return not_(forall(dims, lambda i: not_(tob(f(i)))))
    if isT(v):
        return truth(m, v)
    return reduce_with(m, v, ax, kd, red, dtype='b')


EXT['np.all'] = lambda m, a, kw: reduce_bool(m, a[0], True, kw.get('axis', a[1] if len(a) > 1 else None))
EXT['np.any'] = lambda m, a, kw: reduce_bool(m, a[0], False, kw.get('axis', a[1] if len(a) > 1 else None))
METHODS['all'] = lambda m, o, a, kw: reduce_bool(m, o, True, kw.get('axis', a[0] if a else None))
METHODS['any'] = lambda m, o, a, kw: reduce_bool(m, o, False, kw.get('axis', a[0] if a else None))


def _close_rule(m, a, kw):
    """np.allclose/np.isclose: |x - y| <= atol + rtol |y|."""
    A, B, rt, at = P(a, kw, 'a', 'b', 'rtol', 'atol')
    rt = num(Fr(1, 10**5)) if rt is None or isnone(rt) else asarr(m, rt)[()]
    at = num(Fr(1, 10**8)) if at is None or isnone(at) else asarr(m, at)[()]
    return A, B, lambda x, y: le0(sub(abs_(sub(b2n(x), b2n(y))), add(at, mul(rt, abs_(b2n(y))))))


@ext('np.isclose')
def _isclose(m, a, kw):
    A, B, rule = _close_rule(m, a, kw)
    return bmap(m, rule, A, B, dtype='b')


@ext('np.allclose')
def _allclose(m, a, kw):
    return METHODS['all'](m, _isclose(m, a, kw), [], {})


@ext('np.array_equal')
def _array_equal(m, a, kw):
    A, B = asarr(m, a[0]), asarr(m, a[1])
    if len(A.dims) != len(B.dims):
        return FALSE
    r = TRUE
    with using(m.st.ctx):
        for x, y in zip(A.dims, B.dims):
            r = and_(r, eq0(sub(x, y)))
        if A.dims:
            r = and_(r, forall(A.dims, lambda i: eq0(sub(A[i], B[i]))))
        else:
            r = eq0(sub(A[()], B[()]))
        return restrict(r)


@ext('np.cumsum')
def _cumsum(m, a, kw):
    v, ax = P(a, kw, 'a', 'axis')
    if isnone(ax):
        v = ravel(m, v)
    A = asarr(m, v)
    k = 0 if isnone(ax) else need_int(m, ax) % len(A.dims)
    return mkarr(m, A.dims, lambda i: summ(ZERO, add(i[k], ONE), lambda t: b2n(A[i[:k] + (t,) + i[k + 1:]])),
                 dtype=A.dtype)


METHODS['cumsum'] = lambda m, o, a, kw: _cumsum(m, [o] + a, kw)


@ext('np.argmax', 'np.argmin', 'np.sort', 'np.argsort', 'np.unique', 'np.median', 'np.percentile')
def _unsup(m, a, kw):
    raise Unsupported('order statistics')


@ext('sp.misc.logsumexp', 'sp.special.logsumexp')
def _lse(m, a, kw):
    v, ax, b, kd = P(a, kw, 'a', 'axis', 'b', 'keepdims')
    if not isnone(b):
        raise Unsupported('logsumexp weights')
    return reduce_with(m, v, ax, kd, lambda d, f: log_(red_sum(d, lambda i: exp_(f(i)))))


@ext('sp.special.softmax')
def _softmax(m, a, kw):
    e = umap(m, exp_, a[0])
    s = reduce_with(m, e, kw.get('axis', a[1] if len(a) > 1 else None), TRUE, red_sum)
    return binop(m, 'Div', e, s)


# ------------------------------------------------------------ products

def chk_eq(m, x, y, msg='shapes not aligned'):
    with using(m.st.ctx):
        e = restrict(eq0(sub(x, y)))
    if e is not TRUE:
        m.raise_if(not_(e), 'ValueError', msg)


def matmul(m, A, B):
    if not A.dims or not B.dims:
        m.praise('ValueError', 'matmul: scalar operand')
    if len(A.dims) == 1 and len(B.dims) == 1:
        chk_eq(m, A.dims[0], B.dims[0])
        with using(m.st.ctx):
            return restrict(summ(ZERO, A.dims[0], lambda k: mul(A[(k,)], B[(k,)])))
    if len(A.dims) == 1:
        n = B.dims[-2]
        chk_eq(m, A.dims[0], n)
        return mkarr(m, B.dims[:-2] + B.dims[-1:],
                     lambda i: summ(ZERO, n, lambda k: mul(A[(k,)], B[i[:-1] + (k, i[-1])])))
    n = A.dims[-1]
    if len(B.dims) == 1:
        chk_eq(m, n, B.dims[0])
        return mkarr(m, A.dims[:-1], lambda i: summ(ZERO, n, lambda k: mul(A[i + (k,)], B[(k,)])))
    chk_eq(m, n, B.dims[-2])
    bd, sa, sb = bdims(m, A.dims[:-2], B.dims[:-2])
    nb = len(bd)
    r = mkarr(m, bd + (A.dims[-2], B.dims[-1]),
              lambda i: summ(ZERO, n, lambda k: mul(A[bidx(sa, i[:nb]) + (i[nb], k)],
                                                    B[bidx(sb, i[:nb]) + (k, i[nb + 1])])),
              dtype='i' if A.dtype == B.dtype == 'i' else 'f')
    if isarr(r) and len(A.dims) == 2 and len(B.dims) == 2:
        with using(m.st.ctx):
            at = lam((A.dims[1], A.dims[0]), lambda i: A[(i[1], i[0])])
        if at is B.term():
            m.chol[m.arr(r).term()] = A.term()
    return r


@ext('np.matmul')
def _matmul(m, a, kw):
    return binop(m, 'MatMult', a[0], a[1])


@ext('np.dot')
def _dot(m, a, kw):
    x, y = a[0], a[1]
    A, B = asarr(m, x), asarr(m, y)
    if not A.dims or not B.dims:
        return binop(m, 'Mult', x, y)
    if len(B.dims) > 2 or (len(A.dims) > 2 and len(B.dims) > 1):
        n = A.dims[-1]
        chk_eq(m, n, B.dims[-2])
        na = len(A.dims) - 1
        return mkarr(m, A.dims[:-1] + B.dims[:-2] + B.dims[-1:],
                     lambda i: summ(ZERO, n, lambda k: mul(A[i[:na] + (k,)], B[i[na:-1] + (k, i[-1])])))
    if A.sparse or B.sparse:
        return binop(m, 'MatMult', x, y)
    return matmul(m, A, B)


METHODS['dot'] = lambda m, o, a, kw: _dot(m, [o] + a, kw)
EXT['np.vdot'] = lambda m, a, kw: _dot(m, [ravel(m, a[0]), ravel(m, a[1])], {})


@ext('np.inner')
def _inner(m, a, kw):
    A, B = asarr(m, a[0]), asarr(m, a[1])
    if not A.dims or not B.dims:
        return binop(m, 'Mult', a[0], a[1])
    n = A.dims[-1]
    chk_eq(m, n, B.dims[-1])
    na = len(A.dims) - 1
    return mkarr(m, A.dims[:-1] + B.dims[:-1],
                 lambda i: summ(ZERO, n, lambda k: mul(A[i[:na] + (k,)], B[i[na:] + (k,)])))


@ext('np.outer')
def _outer(m, a, kw):
    A, B = m.arr(ravel(m, a[0])), m.arr(ravel(m, a[1]))
    return mkarr(m, A.dims + B.dims, lambda i: mul(A[(i[0],)], B[(i[1],)]))


@ext('np.tensordot')
def _tensordot(m, a, kw):
    x, y, ax = P(a, kw, 'a', 'b', 'axes')
    A, B = asarr(m, x), asarr(m, y)
    if ax is None:
        ax = TWO
    if isT(ax):
        k = need_int(m, ax)
        la, lb = list(range(len(A.dims) - k, len(A.dims))), list(range(k))
    else:
        p, q = m.concrete(m.iter_segs(ax))
        f = lambda z: [need_int(m, z)] if isT(z) else [need_int(m, t) for t in m.concrete(m.iter_segs(z))]
        la, lb = [t % len(A.dims) for t in f(p)], [t % len(B.dims) for t in f(q)]
    for s, t in zip(la, lb):
        chk_eq(m, A.dims[s], B.dims[t])
    ka = [k for k in range(len(A.dims)) if k not in la]
    kb = [k for k in range(len(B.dims)) if k not in lb]

    def e(i):
        def g(j):
            ia, ib = [None] * len(A.dims), [None] * len(B.dims)
            for k, z in zip(ka, i):
                ia[k] = z
            for k, z in zip(kb, i[len(ka):]):
                ib[k] = z
            for s, t, z in zip(la, lb, j):
                ia[s] = z
                ib[t] = z
            return mul(A[tuple(ia)], B[tuple(ib)])
        return red_sum([A.dims[s] for s in la], g)
    return mkarr(m, [A.dims[k] for k in ka] + [B.dims[k] for k in kb], e)


@ext('np.kron')
def _kron(m, a, kw):
    A, B = asarr(m, a[0]), asarr(m, a[1])
    if len(A.dims) != 2 or len(B.dims) != 2:
        raise Unsupported('kron')
    with using(m.st.ctx):
        dims = (mul(A.dims[0], B.dims[0]), mul(A.dims[1], B.dims[1]))
    return mkarr(m, dims, lambda i: mul(A[(floordiv(i[0], B.dims[0]), floordiv(i[1], B.dims[1]))],
                                        B[(mod(i[0], B.dims[0]), mod(i[1], B.dims[1]))]))


def _einsum_ellipsis(m, ins, out, As):
    if len(ins) != len(As):
        m.praise('ValueError', 'einsum operands')
    new, ell = [], 0
    for s, A in zip(ins, As):
        k = len(A.dims) - len(s.replace('...', '')) if '...' in s else 0
        if k < 0 or ('...' not in s and len(s) != len(A.dims)):
            m.praise('ValueError', 'einsum subscripts do not match operand rank')
        ell = max(ell, k)
        pre, _, post = s.partition('...')
        new.append((list(pre), k, list(post)))
    if out is None:
        allc = ''.join(ins).replace('.', '')
        out = '...' + ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    if ell and '...' not in out:
        m.praise('ValueError', 'einsum output without the broadcast dimensions')
    cur, maps = (), []
    for (pre, k, post), A in zip(new, As):
        cur, sa, sb = bdims(m, cur, A.dims[len(pre):len(pre) + k])
        maps = [[None] * (len(sa) - len(mp)) + [(0 if sa[q] == 0 and x == 1 else x) for q, x in
                                                zip(range(len(sa) - len(mp), len(sa)), mp)] for mp in maps]
        maps.append(list(sb))
    Bs, names = [], []
    for (pre, k, post), A, mp in zip(new, As, maps):
        keep = [q for q in range(k) if mp[ell - k + q] == 1]
        p = len(pre)
        labels = pre + [('ell', ell - k + q) for q in keep] + post
        axes = list(range(p)) + [p + q for q in keep] + list(range(p + k, len(A.dims)))

        def ent(i, A=A, axes=axes):
            full = [ZERO] * len(A.dims)
            for x, v in zip(axes, i):
                full[x] = v
            return A[tuple(full)]
        Bs.append(A if len(axes) == len(A.dims) else asarr(m, mkarr(m, [A.dims[x] for x in axes], ent)))
        names.append(labels)
    pre, _, post = out.partition('...')
    return _einsum_core(m, Bs, names, list(pre) + [('ell', j) for j in range(ell)] + list(post))


@ext('np.einsum')
def _einsum(m, a, kw):
    if isstr(a[0]):
        spec = strof(a[0]).replace(' ', '')
        ops = a[1:]
        if '->' in spec:
            ins, out = spec.split('->')
        else:
            ins, out = spec, None
        ins = ins.split(',')
        if '.' in spec:
            return _einsum_ellipsis(m, ins, out, [asarr(m, o) for o in ops])
        ins = [list(s) for s in ins]
        if out is None:
            allc = sum(ins, [])
            out = sorted(c for c in set(allc) if allc.count(c) == 1)
        out = list(out)
    else:
        ops, ins = [], []
        k = 0
        while k + 1 < len(a):
            ops.append(a[k])
            l = [need_int(m, x) for x in m.concrete(m.iter_segs(a[k + 1]))]
            ins.append(l)
            k += 2
        if k < len(a):
            out = [need_int(m, x) for x in m.concrete(m.iter_segs(a[k]))]
        else:
            allc = sum(ins, [])
            out = sorted(c for c in set(allc) if allc.count(c) == 1)
    return _einsum_core(m, [asarr(m, o) for o in ops], ins, out)


def _einsum_core(m, As, ins, out):
    if len(ins) != len(As):
        m.praise('ValueError', 'einsum operands')
    dim = {}
    for l, A in zip(ins, As):
        if len(l) != len(A.dims):
            m.praise('ValueError', 'einsum subscripts do not match operand rank')
        for c, d in zip(l, A.dims):
            if c in dim:
                chk_eq(m, dim[c], d)
            else:
                dim[c] = d
    for c in out:
        if c not in dim:
            m.praise('ValueError', 'einsum output label')
    summed = [c for c in dim if c not in out]

    def e(i):
        env = dict(zip(out, i))

        def g(j):
            env2 = dict(env)
            env2.update(zip(summed, j))
            r = ONE
            for l, A in zip(ins, As):
                r = mul(r, b2n(A[tuple(env2[c] for c in l)]))
            return r
        return red_sum([dim[c] for c in summed], g)
    return mkarr(m, [dim[c] for c in out], e)


@ext('np.trace')
def _trace(m, a, kw):
    A = asarr(m, a[0])
    ax1 = kw.get('axis1', a[2] if len(a) > 2 else ZERO)
    ax2 = kw.get('axis2', a[3] if len(a) > 3 else ONE)
    n = len(A.dims)
    p, q = need_int(m, ax1) % n, need_int(m, ax2) % n
    keep = [k for k in range(n) if k not in (p, q)]
    with using(m.st.ctx):
        d = min_(A.dims[p], A.dims[q])

    def e(i):
        def g(t):
            full_ = [None] * n
            for k, z in zip(keep, i):
                full_[k] = z
            full_[p] = full_[q] = t
            return A[tuple(full_)]
        return summ(ZERO, d, g)
    return mkarr(m, [A.dims[k] for k in keep], e)


METHODS['trace'] = lambda m, o, a, kw: _trace(m, [o] + a, kw)


@ext('np.diag')
def _diag(m, a, kw):
    v, k = P(a, kw, 'v', 'k')
    A = asarr(m, v)
    k = 0 if k is None else need_int(m, k)
    if len(A.dims) == 1:
        n = add(A.dims[0], num(abs(k)))
        r, c = (0, k) if k >= 0 else (-k, 0)

        def e(i):
            if k == 0:
                return ite(eq0(sub(i[0], i[1])), A[(i[0],)], ZERO)
            return ite(eq0(sub(add(i[0], num(k)), i[1])), A[(sub(i[0], num(r)),)], ZERO)
        return mkarr(m, (n, n), e)
    if len(A.dims) == 2:
        return _diagonal(m, [v], {'offset': num(k)})
    m.praise('ValueError', 'Input must be 1- or 2-d.')


@ext('np.diagonal')
def _diagonal(m, a, kw):
    v, off, a1, a2 = P(a, kw, 'a', 'offset', 'axis1', 'axis2')
    A = asarr(m, v)
    n = len(A.dims)
    k = 0 if off is None else need_int(m, off)
    p = 0 if a1 is None else need_int(m, a1) % n
    q = 1 if a2 is None else need_int(m, a2) % n
    keep = [x for x in range(n) if x not in (p, q)]
    with using(m.st.ctx):
        d1, d2 = A.dims[p], A.dims[q]
        d1, d2 = (d1, sub(d2, num(k))) if k >= 0 else (add(d1, num(k)), d2)
        d = restrict(min_(d1, d2))

    def e(i):
        full_ = [None] * n
        for x, z in zip(keep, i):
            full_[x] = z
        full_[p] = add(i[-1], num(max(-k, 0)))
        full_[q] = add(i[-1], num(max(k, 0)))
        return A[tuple(full_)]
    return mkarr(m, [A.dims[x] for x in keep] + [d], e, dtype=A.dtype)


METHODS['diagonal'] = lambda m, o, a, kw: _diagonal(m, [o] + a, kw)


@ext('np.make_diagonal')
def _mkdiag(m, a, kw):
    v, off, a1, a2 = P(a, kw, 'D', 'offset', 'axis1', 'axis2')
    A = asarr(m, v)
    if off is not None and need_int(m, off) != 0:
        raise Unsupported('make_diagonal offset')
    d = A.dims[-1]
    return mkarr(m, A.dims + (d,), lambda i: ite(eq0(sub(i[-2], i[-1])), A[i[:-1]], ZERO), dtype=A.dtype)


@ext('np.fill_diagonal')
def _filldiag(m, a, kw):
    A = m.arr(a[0])
    V = asarr(m, a[1])
    if is_boxed(m, a[0]) or is_boxed(m, a[1]):
        box_type_error(m, 'in-place fill_diagonal')
    with using(m.st.ctx):
        t = lam(A.dims, lambda i: ite(eq0(sub(i[0], i[1])), V[()] if not V.dims else V[(i[0],)], A[i]))
    m.store_array(a[0], from_term(t, A.dtype))
    return NONE


@ext('np.tril')
def _tril(m, a, kw):
    A = asarr(m, a[0])
    k = need_int(m, kw.get('k', a[1] if len(a) > 1 else ZERO))
    return mkarr(m, A.dims, lambda i: ite(le0(sub(sub(i[-1], i[-2]), num(k))), A[i], ZERO), dtype=A.dtype)


@ext('np.triu')
def _triu(m, a, kw):
    A = asarr(m, a[0])
    k = need_int(m, kw.get('k', a[1] if len(a) > 1 else ZERO))
    return mkarr(m, A.dims, lambda i: ite(le0(sub(add(i[-2], num(k)), i[-1])), A[i], ZERO), dtype=A.dtype)


@ext('np.tril_indices')
def _trili(m, a, kw):
    n, k, mm = P(a, kw, 'n', 'k', 'm')
    n = m.settle(n)
    k = 0 if k is None else need_int(m, k)
    if mm is not None and not isnone(mm):
        raise Unsupported('tril_indices m')
    if k == -1:
        with using(m.st.ctx):
            N = div(mul(n, sub(n, ONE)), TWO)

        def row(t):
            return add(fn('trirow', t), ONE)

        def col(t):
            r = fn('trirow', t)
            return sub(t, mul(HALF, mul(r, add(r, ONE))))
    elif k == 0:
        with using(m.st.ctx):
            N = div(mul(n, add(n, ONE)), TWO)

        def row(t):
            return fn('trirow', t)

        def col(t):
            r = fn('trirow', t)
            return sub(t, mul(HALF, mul(r, add(r, ONE))))
    else:
        raise Unsupported('tril_indices k')
    set_tri_bound(m, n, N, k)
    return tup(mkarr(m, (N,), lambda i: row(i[0]), dtype='i', meta={'tril': (n, k)}),
               mkarr(m, (N,), lambda i: col(i[0]), dtype='i'))


def set_tri_bound(m, n, N, k):
    pass


@ext('np.triu_indices')
def _triui(m, a, kw):
    n = m.settle(a[0])
    k = concrete_int(n)
    kk = need_int(m, kw.get('k', a[1] if len(a) > 1 else ZERO))
    if k is None:
        raise Unsupported('triu_indices of a symbolic size')
    prs = [(i, j) for i in range(k) for j in range(k) if j - i >= kk]
    f = lambda z: m.new_array(segs_to_arr(m, items(*[num(p[z]) for p in prs])))
    return tup(f(0), f(1))


@ext('np.diag_indices')
def _diagi(m, a, kw):
    n = m.settle(a[0])
    mk_ = lambda: mkarr(m, (n,), lambda i: i[0], dtype='i')
    return tup(mk_(), mk_())


@ext('np.ix_')
def _ix(m, a, kw):
    out = []
    for k, v in enumerate(a):
        A = asarr(m, v)
        dims = (ONE,) * k + A.dims + (ONE,) * (len(a) - k - 1)
        out.append(mkarr(m, dims, (lambda A, k: lambda i: A[(i[k],)])(A, k), dtype=A.dtype))
    return tup(*out)


@ext('np.meshgrid')
def _meshgrid(m, a, kw):
    ij = isstr(kw.get('indexing', NONE)) and strof(kw['indexing']) == 'ij'
    As = [asarr(m, x) for x in a]
    if len(As) != 2:
        raise Unsupported('meshgrid')
    A, B = As
    if ij:
        return m.new_list(items(mkarr(m, A.dims + B.dims, lambda i: A[(i[0],)], dtype=A.dtype),
                                mkarr(m, A.dims + B.dims, lambda i: B[(i[1],)], dtype=B.dtype)))
    return m.new_list(items(mkarr(m, B.dims + A.dims, lambda i: A[(i[1],)], dtype=A.dtype),
                            mkarr(m, B.dims + A.dims, lambda i: B[(i[0],)], dtype=B.dtype)))


@ext('np.ravel_multi_index')
def _rmi(m, a, kw):
    mi, dims = P(a, kw, 'multi_index', 'dims')
    idx = m.concrete(m.iter_segs(mi))
    if idx is None:
        raise Unsupported('ravel_multi_index')
    d = shape_of(m, dims)
    if len(idx) != len(d):
        m.praise('ValueError', 'parameter multi_index must be a sequence of length %d' % len(d))
    vs = [m.settle(x) for x in idx]
    As = [asarr(m, x) for x in vs]
    for x, A in zip(vs, As):
        if (isinstance(x, (Tup, RangeV)) or type(x) is LRef) and len(A.dims) == 1:
            # an empty sequence becomes an array of floats
            m.raise_if(eq0(A.dims[0]), 'TypeError', 'cannot cast an empty sequence to integers')
    bd = ()
    for A in As:
        bd, _, _ = bdims(m, bd, A.dims)
    sels = []
    for A in As:
        _, s, _ = bdims(m, A.dims, bd)
        sels.append(s)

    def e(i):
        r = ZERO
        for A, s, n in zip(As, sels, d):
            r = add(mul(r, n), A[bidx(s, i)])
        return r
    # out-of-range indices raise
    bad = FALSE
    with using(m.st.ctx):
        for A, n in zip(As, d):
            c = forall(A.dims, lambda i: and_(le0(neg(A[i])), lt0(sub(A[i], n)))) if A.dims else \
                and_(le0(neg(A[()])), lt0(sub(A[()], n)))
            bad = or_(bad, not_(restrict(c)))
        bad = restrict(bad)
    m.raise_if(bad, 'ValueError', 'invalid entry in coordinates array')
    return mkarr(m, bd, e, dtype='i')


@ext('np.unravel_index')
def _umi(m, a, kw):
    d = shape_of(m, a[1])
    A = asarr(m, a[0])
    outs = []
    for k in range(len(d)):
        outs.append(mkarr(m, A.dims, (lambda k: lambda i: unravel(A[i], d)[k])(k), dtype='i'))
    return tup(*outs)


# ------------------------------------------------------------ selection

@ext('np.where')
def _where(m, a, kw):
    if len(a) == 1:
        return nonzero(m, a[0])
    c, x, y = a
    C, X, Y = asarr(m, c), asarr(m, x), asarr(m, y)
    d1, s1, s2 = bdims(m, X.dims, Y.dims)
    d2, t1, t2 = bdims(m, C.dims, d1)
    _, sx, _ = bdims(m, X.dims, d2)
    _, sy, _ = bdims(m, Y.dims, d2)
    _, sc, _ = bdims(m, C.dims, d2)
    dt = X.dtype if X.dtype == Y.dtype else 'f'
    return mkarr(m, d2, lambda i: ite(tob(C[bidx(sc, i)]), X[bidx(sx, i)], Y[bidx(sy, i)]), dtype=dt)


def bit(x):
    """1 where x holds, else 0; an entry of a boolean array is its own bit."""
    c = tob(x)
    if c.op == 'I' and c.a[0].op == 'eq' and c.a[1] is FALSE and c.a[2] is TRUE:
        q = c.a[0].a[0]
        if q.op == 'Q' and not q.a[1] and len(q.a[0]) == 1:
            (mono, co), = q.a[0]
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'get' and prop(mono[0][0].a[0], 'bool'):
                return atom(mono[0][0])
    return ite(c, ONE, ZERO)


def mask_positions(m, A):
    """1-d bool Arr -> (count, Arr of positions)."""
    with using(m.st.ctx):
        n = restrict(summ(ZERO, A.dims[0], lambda k: bit(A[(k,)])))
        t = lam(A.dims, lambda i: bit(A[i]))
        if isnum(n) and isnum(A.dims[0]):
            # decided mask
            pos = []
            for k in range(int(numval(A.dims[0]))):
                v = restrict(get(t, num(k)))
                if v is ONE:
                    pos.append(num(k))
                elif v is not ZERO:
                    pos = None
                    break
            if pos is not None:
                return num(len(pos)), segs_to_arr(m, items(*pos)) if pos else Arr((ZERO,), lambda i: ZERO, dtype='i')
        X = afn('maskpos', (n,), t)
    set_props(X, 'int', 'nonneg')
    return n, from_term(X, dtype='i')


def nonzero(m, v):
    A = asarr(m, v)
    if len(A.dims) == 1:
        n, pos = mask_positions(m, A)
        return tup(newarr(m, pos))
    if not A.dims:
        raise Unsupported('nonzero of a number')
    n, pos = mask_positions(m, asarr(m, ravel(m, v)))
    out = []
    for k in range(len(A.dims)):
        def ent(i, k=k):
            p = pos[i]
            for d in A.dims[:k:-1]:
                p = floordiv(p, d)
            return mod(p, A.dims[k]) if k else p
        out.append(mkarr(m, (n,), ent, dtype='i'))
    return tup(*out)


EXT['np.nonzero'] = lambda m, a, kw: nonzero(m, a[0])
EXT['np.flatnonzero'] = lambda m, a, kw: m.concrete(nonzero(m, ravel(m, a[0])).segs)[0]
METHODS['nonzero'] = lambda m, o, a, kw: nonzero(m, o)


@ext('np.argwhere')
def _argwhere(m, a, kw):
    A = asarr(m, a[0])
    if len(A.dims) == 1:
        n, pos = mask_positions(m, A)
        return mkarr(m, (n, ONE), lambda i: pos[(i[0],)], dtype='i')
    parts = [asarr(m, p) for p in m.concrete(nonzero(m, a[0]).segs)]

    def ent(i):
        r = parts[-1][(i[0],)]
        for k in range(len(parts) - 2, -1, -1):
            r = ite(eq0(sub(i[1], num(k))), parts[k][(i[0],)], r)
        return r
    return mkarr(m, (parts[0].dims[0], num(len(parts))), ent, dtype='i')


@ext('np.count_nonzero')
def _cnz(m, a, kw):
    A = asarr(m, a[0])
    return reduce_with(m, a[0], None, None, lambda d, f: red_sum(d, lambda i: ite(tob(f(i)), ONE, ZERO)), dtype='i')


@ext('np.take')
def _take(m, a, kw):
    v, ix, ax = P(a, kw, 'a', 'indices', 'axis')
    if isnone(ax):
        return arr_getitem(m, ravel(m, v), ix)
    k = need_int(m, ax)
    return arr_getitem(m, v, Tup(items(*([SliceV(NONE, NONE, NONE)] * k + [ix]))))


class Sel(object):
    pass


def parse_index(m, A, i):
    """Normalise a subscript: list of ('int', v) ('slice', lo, len, step) ('new',) ('adv', Arr) ('mask', Arr)."""
    if isinstance(i, Tup):
        its = m.concrete(i.segs)
        if its is None:
            raise Unsupported('symbolic index tuple')
    else:
        its = [i]
    its = [m.settle(x) for x in its]
    out = []
    nax = 0
    for x in its:
        if x is NONE or x is ELLIPSIS:
            continue
        if isarr(x) and m.arr(x).dtype == 'b':
            nax += len(m.arr(x).dims)
        else:
            nax += 1
    nd = len(A.dims)
    if nax > nd:
        m.praise('IndexError', 'too many indices for array')
    seen = False
    ax = 0
    for x in its:
        if x is ELLIPSIS:
            if seen:
                m.praise('IndexError', 'an index can only have a single ellipsis')
            seen = True
            for _ in range(nd - nax):
                out.append(('slice', ZERO, A.dims[ax], ONE, ax))
                ax += 1
            continue
        if x is NONE:
            out.append(('new',))
            continue
        if isinstance(x, SliceV):
            lo, ln, st = slice_bounds(m, x, A.dims[ax])
            out.append(('slice', lo, ln, st, ax))
            ax += 1
            continue
        if isinstance(x, T):
            if not isnumT(x):
                m.praise('IndexError', 'only integers, slices are valid indices')
            if is_bool(x):
                raise Unsupported('boolean scalar index')
            if isnum(x) and numval(x).denominator != 1:
                m.praise('IndexError', 'only integers, slices are valid indices')
            out.append(('int', norm_index(m, x, A.dims[ax]), ax))
            ax += 1
            continue
        if isarr(x):
            B = m.arr(x)
        elif type(x) is LRef or isinstance(x, RangeV):
            B = seq_to_arr(m, x)
            if B.dims and B.dims[0] is ZERO:
                B = Arr(B.dims, B.fn, 'i')
        else:
            m.praise('IndexError', 'invalid index')
        if B.dtype == 'b':
            k = len(B.dims)
            for d1, d2 in zip(B.dims, A.dims[ax:ax + k]):
                chk_eq_idx(m, d1, d2)
            out.append(('mask', B, ax))
            ax += k
            continue
        if B.dtype == 'f':
            m.praise('IndexError', 'arrays used as indices must be of integer (or boolean) type')
        if not B.dims:
            out.append(('int', norm_index(m, B[()], A.dims[ax]), ax))
        else:
            out.append(('adv', wrap_idx(m, B, A.dims[ax]), ax))
        ax += 1
    while ax < nd:
        out.append(('slice', ZERO, A.dims[ax], ONE, ax))
        ax += 1
    return out


def chk_eq_idx(m, a, b):
    with using(m.st.ctx):
        e = restrict(eq0(sub(a, b)))
    if e is not TRUE:
        m.raise_if(not_(e), 'IndexError', 'boolean index did not match')


def wrap_idx(m, B, n):
    with using(m.st.ctx):
        ok = forall(B.dims, lambda i: and_(le0(neg(add(B[i], n))), lt0(sub(B[i], n))))
        bad = restrict(not_(ok))
    m.raise_if(bad, 'IndexError', 'index out of bounds')
    with using(m.st.ctx):
        t = lam(B.dims, lambda i: (lambda x: restrict(ite(lt0(x), add(x, n), x)))(B[i]))
    return from_term(t, dtype='i')


def is_basic(sel):
    return all(s[0] in ('int', 'slice', 'new') for s in sel)


def basic_maps(sel, nd):
    dims = []
    for s in sel:
        if s[0] == 'slice':
            dims.append(s[2])
        elif s[0] == 'new':
            dims.append(ONE)

    def f(i):
        full_ = [None] * nd
        k = 0
        for s in sel:
            if s[0] == 'int':
                full_[s[2]] = s[1]
            elif s[0] == 'new':
                k += 1
            else:
                full_[s[4]] = add(s[1], mul(s[3], i[k])) if s[3] is not ONE else add(s[1], i[k])
                k += 1
        return tuple(full_)

    def inv(i):
        """(condition that base index i is selected, view index)."""
        c = TRUE
        out = []
        for s in sel:
            if s[0] == 'int':
                c = and_(c, eq0(sub(i[s[2]], s[1])))
            elif s[0] == 'new':
                out.append(ZERO)
            else:
                x = i[s[4]]
                if s[3] is ONE:
                    o = sub(x, s[1])
                    c = and_(c, and_(le0(neg(o)), lt0(sub(o, s[2]))))
                else:
                    o = sub(x, s[1])
                    k = numval(s[3])
                    if k < 0:
                        o = neg(o)
                    kk = num(abs(k))
                    c = and_(c, eq0(mod(o, kk)))
                    o = floordiv(o, kk)
                    c = and_(c, and_(le0(neg(o)), lt0(sub(o, s[2]))))
                out.append(o)
        return c, tuple(out)
    return dims, f, inv


def arr_getitem(m, o, i):
    A = m.arr(o)
    if A.sparse:
        return sparse_getitem(m, o, A, i)
    sel = parse_index(m, A, i)
    if is_basic(sel):
        dims, f, inv = basic_maps(sel, len(A.dims))
        if not dims:
            with using(m.st.ctx):
                return restrict(A[f(())])
        return index_view(m, o, dims, f, inv)
    return adv_get(m, A, sel)


def index_view(m, o, dims, f, inv):
    cache = {}

    def getter(A):
        r = cache.get('r')
        if r is None or r[0] is not A:
            with using(m.st.ctx):
                t = lam(dims, lambda i: A[f(i)])
            r = (A, from_term(t, dtype=A.dtype))
            cache['r'] = r
        return r[1]

    def setter(A, new):
        def e(i):
            c, j = inv(i)
            return gate(c, lambda: new[j], lambda: A[i])
        with using(m.st.ctx):
            t = lam(A.dims, e)
        return from_term(t, dtype=A.dtype)
    return m.view(o, getter, setter)


def gate(c, f, g):
    c = restrict(c)
    if c is TRUE:
        return f()
    if c is FALSE:
        return g()
    cx = ctx()
    with using(assume_ctx(cx, c, True)):
        x = f()
    with using(assume_ctx(cx, c, False)):
        y = g()
    return ite(c, x, y)


def expand_masks(m, sel):
    out = []
    for s in sel:
        if s[0] != 'mask':
            out.append(s)
            continue
        B, ax = s[1], s[2]
        if len(B.dims) == 1:
            n, pos = mask_positions(m, B)
            out.append(('adv', pos, ax))
        else:
            with using(m.st.ctx):
                size = ONE
                for d in B.dims:
                    size = mul(size, d)
                flat = Arr((size,), lambda i: B[tuple(unravel(i[0], B.dims))], dtype='b')
            n, pos = mask_positions(m, flat)
            for k in range(len(B.dims)):
                out.append(('adv', Arr(pos.dims, (lambda k: lambda i: unravel(pos[i], B.dims)[k])(k), dtype='i'), ax + k))
    return out


def adv_plan(m, sel):
    sel = expand_masks(m, sel)
    # ints combine with advanced indices
    sel = [('adv', Arr((), (lambda v: lambda i: v)(s[1]), dtype='i'), s[2]) if s[0] == 'int' else s for s in sel]
    advp = [k for k, s in enumerate(sel) if s[0] == 'adv']
    bd = ()
    for k in advp:
        bd, _, _ = bdims(m, bd, sel[k][1].dims)
    contiguous = advp == list(range(advp[0], advp[-1] + 1))
    pos = sum(1 for s in sel[:advp[0]]) if contiguous else 0
    dims = []
    layout = []
    rest = [s for s in sel if s[0] != 'adv']
    before = [s for s in sel[:advp[0]] if s[0] != 'adv'] if contiguous else []
    after = [s for s in rest if not any(s is b for b in before)]
    for s in before:
        dims.append(s[2] if s[0] == 'slice' else ONE)
    ap = len(dims)
    dims.extend(bd)
    for s in after:
        dims.append(s[2] if s[0] == 'slice' else ONE)
    sels = {}
    for k in advp:
        _, sx, _ = bdims(m, sel[k][1].dims, bd)
        sels[k] = sx

    def f(i, nd):
        full_ = [None] * nd
        for k, s in enumerate(before):
            if s[0] == 'slice':
                full_[s[4]] = add(s[1], mul(s[3], i[k]))
        ai = i[ap:ap + len(bd)]
        for k in advp:
            full_[sel[k][2]] = sel[k][1][bidx(sels[k], ai)]
        for k, s in enumerate(after):
            if s[0] == 'slice':
                full_[s[4]] = add(s[1], mul(s[3], i[ap + len(bd) + k]))
        return tuple(full_)
    return dims, f, sel, advp, bd, ap, before, after, sels


def adv_get(m, A, sel):
    dims, f = adv_plan(m, sel)[:2]
    nd = len(A.dims)
    return mkarr(m, dims, lambda i: A[f(i, nd)], dtype=A.dtype)


def value_for(m, dims, v):
    V = asarr(m, v)
    vd = V.dims
    while len(vd) > len(dims):
        # leading unit axes are allowed
        if m.settle(vd[0]) is ONE:
            V = Arr(vd[1:], (lambda W: lambda i: W[(ZERO,) + tuple(i)])(V), V.dtype)
            vd = V.dims
        else:
            m.praise('ValueError', 'could not broadcast input array')
    out, sa, sb = bdims(m, tuple(dims), V.dims)
    for x, y in zip(out, dims):
        with using(m.st.ctx):
            e = restrict(eq0(sub(x, y)))
        if e is not TRUE:
            m.raise_if(not_(e), 'ValueError', 'could not broadcast input array')
    return V, lambda i: V[bidx(sb, i)]


def arr_setitem(m, o, i, v):
    if is_boxed(m, o) or is_boxed(m, v):
        box_type_error(m, 'in-place assignment')
    A = m.arr(o)
    v = m.settle(v)
    if A.sparse:
        fmt = (A.meta or {}).get('fmt')
        if fmt in ('coo', 'dia', 'bsr'):
            m.praise('TypeError', 'sparse matrix does not support item assignment')
        if fmt is None or not (isT(v) and isnumT(v)):
            raise Unsupported('assignment into a sparse matrix')
    if isinstance(v, PhiV):
        raise Unsupported('gated store')
    sel = parse_index(m, A, i)
    if A.sparse and not is_basic(sel):
        raise Unsupported('assignment into a sparse matrix')
    dt = A.dtype

    def conv(x):
        if dt == 'b':
            return tob(x)
        x = b2n(x)
        if dt == 'i' and not is_int_all(x):
            return newx(x)
        return x

    def newx(x):
        return lift1(lambda q: q if is_int(_chk(q)) else ite(lt0(q), neg(floordiv(neg(q), ONE)), floordiv(q, ONE)), x)
    if is_basic(sel):
        dims, f, inv = basic_maps(sel, len(A.dims))
        V, val = value_for(m, dims, v)

        def e(idx):
            c, j = inv(idx)
            return gate(c, lambda: conv(val(j)), lambda: A[idx])
        with using(m.st.ctx):
            t = lam(A.dims, e)
        new = from_term(t, dtype=dt)
        if A.sparse:
            new.sparse = True
            m.store_array(o, new)
            m.st.heap[o.oid].meta = {'fmt': fmt}
            return
        m.store_array(o, new)
        return
    masks = [s for s in sel if s[0] == 'mask']
    if len(masks) == 1 and all(s[0] in ('mask', 'slice') for s in sel):
        B, ax = masks[0][1], masks[0][2]
        k = len(B.dims)
        V0 = asarr(m, v)
        if not V0.dims or (len(V0.dims) == 1 and V0.dims[0] is ONE):
            val = V0[()] if not V0.dims else V0[(ZERO,)]
            slices = [s for s in sel if s[0] == 'slice']
            if all(s[1] is ZERO and s[2] is A.dims[s[4]] and s[3] is ONE for s in slices):
                with using(m.st.ctx):
                    t = lam(A.dims, lambda idx: ite(tob(B[idx[ax:ax + k]]), conv(val), A[idx]))
                m.store_array(o, from_term(t, dtype=dt))
                return
        if k == 1 and len(A.dims) == 1:
            with using(m.st.ctx):
                n = restrict(summ(ZERO, A.dims[0], lambda z: ite(tob(B[(z,)]), ONE, ZERO)))
            V, val = value_for(m, [n], v)

            def e(idx):
                rank = summ(ZERO, idx[0], lambda z: ite(tob(B[(z,)]), ONE, ZERO))
                return ite(tob(B[idx]), conv(val((rank,))), A[idx])
            with using(m.st.ctx):
                t = lam(A.dims, e)
            m.store_array(o, from_term(t, dtype=dt))
            return
    plan = adv_plan(m, sel)
    dims, f, sel, advp, bd, ap, before, after, sels = plan
    V, val = value_for(m, dims, v)
    nd = len(A.dims)
    scalar = not V.dims

    def e(idx):
        # non-advanced axes
        c = TRUE
        outb, outa = [], []
        for grp, dst in ((before, outb), (after, outa)):
            for s in grp:
                if s[0] == 'new':
                    dst.append(ZERO)
                    continue
                x = sub(idx[s[4]], s[1])
                if s[3] is not ONE:
                    raise Unsupported('strided advanced store')
                c = and_(c, and_(le0(neg(x)), lt0(sub(x, s[2]))))
                dst.append(x)

        def hit(t):
            h = TRUE
            for k in advp:
                h = and_(h, eq0(sub(sel[k][1][bidx(sels[k], t)], idx[sel[k][2]])))
            return h
        if scalar:
            ex = not_(forall(bd, lambda t: not_(hit(t)))) if bd else hit(())
            return ite(and_(c, ex), conv(val(tuple(outb) + tuple(ZERO for _ in bd) + tuple(outa))), A[idx])
        if not bd:
            return ite(and_(c, hit(())), conv(val(tuple(outb) + tuple(outa))), A[idx])
        if dt == 'b':
            raise Unsupported('advanced boolean store')
        # distinct index positions
        cnt = red_sum(bd, lambda t: ite(hit(t), ONE, ZERO))
        sm = red_sum(bd, lambda t: ite(hit(t), conv(val(tuple(outb) + tuple(t) + tuple(outa))), ZERO))
        return ite(c, add(sm, mul(sub(ONE, cnt), A[idx])), A[idx])
    with using(m.st.ctx):
        t = lam(A.dims, e)
    m.store_array(o, from_term(t, dtype=dt))


# ------------------------------------------------------------ array methods

@method('copy')
def _mcopy(m, o, a, kw):
    return shallow(m, o)


EXT['np.copy'] = lambda m, a, kw: _array(m, [a[0]], {})


@method('tolist')
def _tolist(m, o, a, kw):
    if isT(o):
        return o
    A = m.arr(o)

    def go(r):
        if isT(r):
            return r
        segs = m.iter_segs(r)
        out = []
        for s in segs:
            out.append(Item(go(s.v)) if isinstance(s, Item) else For(s.var, s.lo, s.hi, tuple(Item(go(x.v)) for x in s.segs)))
        return m.new_list(out)
    return go(newarr(m, Arr(A.dims, A.fn, A.dtype, term=A._t)))


@method('astype')
def _astype(m, o, a, kw):
    A = asarr(m, o)
    return newarr(m, cast(m, A, dt_of(m, a[0], False) or 'f', a[0]))


@method('item')
def _item(m, o, a, kw):
    from .models import scalar_of
    if a:
        return arr_getitem(m, o, a[0] if len(a) == 1 else tup(*a))
    return scalar_of(m, o, 'item')


@method('fill')
def _fill(m, o, a, kw):
    A = m.arr(o)
    v = a[0]
    if is_boxed(m, o) or is_boxed(m, v):
        box_type_error(m, 'in-place fill')
    with using(m.st.ctx):
        t = lam(A.dims, lambda i: b2n(v))
    m.store_array(o, from_term(t, A.dtype))
    return NONE


@method('conj', 'conjugate')
def _conj(m, o, a, kw):
    return o


@method('round')
def _roundm(m, o, a, kw):
    raise Unsupported('round')


# ------------------------------------------------------------ linear algebra

def inv_term(m, X):
    """inverse of array term X."""
    if X.op == 'afn' and X.a[0] == 'inv':
        return X.a[2]
    return afn('inv', arr_dims(X), X)


def _inv(m, a, kw):
    A = asarr(m, a[0])
    if A.sparse:
        raise Unsupported('np.linalg.inv of sparse')
    if len(A.dims) == 2:
        chk_eq(m, A.dims[0], A.dims[1], 'Last 2 dimensions must be square')
        if A.dims[0] is ONE:
            return mkarr(m, A.dims, lambda i: div(ONE, A[(ZERO, ZERO)]))
        with using(m.st.ctx):
            t = inv_of(m, A.term())
        return termarr(m, t)
    if len(A.dims) > 2:
        nb = len(A.dims) - 2
        sd = A.dims[nb:]
        return mkarr(m, A.dims, lambda i: get(inv_of(m, lam(sd, lambda j: A[i[:nb] + j])), *i[nb:]))
    m.praise('LinAlgError', 'array must be at least two-dimensional')


def inv_of(m, X):
    if X.op == 'I':
        return lift(lambda Y: inv_of(m, Y), X)
    t = inv_term(m, X)
    if prop(X, 'pd'):
        set_props(t, 'pd', 'sym')
    return t


EXT['np.linalg.inv'] = EXT['sp.linalg.inv'] = _inv
EXT['np.linalg.pinv'] = _inv


def _solve(m, a, kw):
    A, B = asarr(m, a[0]), asarr(m, a[1])
    if A.sparse:
        A = Arr(A.dims, A.fn)
    if len(A.dims) != 2:
        raise Unsupported('batched solve')
    chk_eq(m, A.dims[0], A.dims[1], 'Last 2 dimensions must be square')
    chk_eq(m, A.dims[0], B.dims[0], 'solve: mismatch')
    n = A.dims[0]
    if n is ONE:
        return mkarr(m, B.dims, lambda i: div(B[i], A[(ZERO, ZERO)]))
    with using(m.st.ctx):
        X = inv_of(m, A.term())
    return mkarr(m, B.dims, lambda i: summ(ZERO, n, lambda k: mul(get(X, i[0], k), B[(k,) + i[1:]])))


EXT['np.linalg.solve'] = _solve


@ext('sp.linalg.solve')
def _spsolve(m, a, kw):
    return _solve(m, a[:2], {})


@ext('sp.sparse.linalg.spsolve')
def _spspsolve(m, a, kw):
    return _solve(m, a[:2], {})


@ext('sp.linalg.solve_triangular')
def _soltri(m, a, kw):
    A = asarr(m, a[0])
    low = kw.get('lower', FALSE) is TRUE
    tr = kw.get('trans', ZERO)
    B = mkarr(m, A.dims, lambda i: ite(le0(sub(i[1], i[0]) if low else sub(i[0], i[1])), A[i], ZERO))
    if concrete_int(tr) == 1 or (isstr(tr) and strof(tr) == 'T'):
        B = transpose(m, B, None)
    return _solve(m, [B, a[1]], {})


@ext('np.linalg.lstsq')
def _lstsq(m, a, kw):
    raise Unsupported('lstsq')


@ext('np.linalg.cholesky')
def _cholesky(m, a, kw):
    A = asarr(m, a[0])
    if len(A.dims) == 2:
        chk_eq(m, A.dims[0], A.dims[1], 'square')
        with using(m.st.ctx):
            t = chol_of(m, A.term())
        return termarr(m, t)
    if len(A.dims) > 2:
        nb = len(A.dims) - 2
        sd = A.dims[nb:]
        return mkarr(m, A.dims, lambda i: get(chol_of(m, lam(sd, lambda j: A[i[:nb] + j])), *i[nb:]))
    m.praise('LinAlgError', 'array must be at least two-dimensional')


def chol_of(m, X):
    L = m.chol.get(X)
    if L is None:
        for S, L0 in m.chol.items():
            if arr_dims(S) == arr_dims(X) and S is not X and equal(S, X) is True:
                L = L0
                break
    if L is not None and lower_pos(m, L):
        return L
    t = afn('chol', arr_dims(X), X)
    return t


def lower_pos(m, L):
    """Is L lower triangular with positive diagonal?"""
    d = arr_dims(L)
    if len(d) != 2:
        return False
    i, j = fresh_index(ZERO, d[0]), fresh_index(ZERO, d[1])
    up = restrict(get(L, atom(i), atom(j)), assume_ctx(ctx(), lt0(sub(atom(i), atom(j)))))
    if up is not ZERO:
        return False
    dg = restrict(get(L, atom(i), atom(i)))
    return restrict(lt0(neg(dg))) is TRUE


@ext('sp.linalg.cholesky')
def _spchol(m, a, kw):
    r = _cholesky(m, a[:1], {})
    if kw.get('lower', a[1] if len(a) > 1 else FALSE) is TRUE:
        return r
    return transpose(m, r, None)


def logdet_of(m, X):
    if X.op == 'I':
        return lift(lambda Y: logdet_of(m, Y), X)
    if X.op == 'afn' and X.a[0] == 'inv':
        return neg(logdet_of(m, X.a[2]))
    d = arr_dims(X)
    if d[0] is ONE:
        return log_(abs_(get(X, ZERO, ZERO)))
    return get(afn('logdet', (), X))


def detsign_of(m, X):
    if X.op == 'I':
        return lift(lambda Y: detsign_of(m, Y), X)
    if X.op == 'afn' and X.a[0] == 'inv':
        return detsign_of(m, X.a[2])
    if prop(X, 'pd') or X in m.chol:
        return ONE
    d = arr_dims(X)
    if d[0] is ONE:
        return sign_(get(X, ZERO, ZERO))
    return get(afn('detsign', (), X))


@ext('np.linalg.slogdet')
def _slogdet(m, a, kw):
    A = asarr(m, a[0])
    if len(A.dims) < 2:
        m.praise('LinAlgError', 'array must be at least two-dimensional')
    nb = len(A.dims) - 2
    chk_eq(m, A.dims[-1], A.dims[-2], 'square')
    sd = A.dims[nb:]
    s = mkarr(m, A.dims[:nb], lambda i: detsign_of(m, lam(sd, lambda j: A[i + j]) if nb else A.term()))
    d = mkarr(m, A.dims[:nb], lambda i: logdet_of(m, lam(sd, lambda j: A[i + j]) if nb else A.term()))
    return tup(s, d)


@ext('np.linalg.det', 'sp.linalg.det')
def _det(m, a, kw):
    s, d = m.concrete(_slogdet(m, a, kw).segs)
    return binop(m, 'Mult', s, umap(m, exp_, d))


def _eigh(m, a, kw):
    A = asarr(m, a[0])
    if len(A.dims) != 2:
        raise Unsupported('batched eigh')
    chk_eq(m, A.dims[0], A.dims[1], 'square')
    t = A.term()
    # eigh reads the lower triangle
    with using(m.st.ctx):
        s = lam(A.dims, lambda i: ite(le0(sub(i[1], i[0])), A[i], A[(i[1], i[0])]))
    if equal(s, t, m.st.ctx) is True:
        s = t
    return tup(termarr(m, afn('eigval', (A.dims[0],), s)), termarr(m, afn('eigvec', A.dims, s)))


EXT['np.linalg.eigh'] = EXT['sp.linalg.eigh'] = _eigh


@ext('np.linalg.eigvalsh')
def _eigvalsh(m, a, kw):
    return m.concrete(_eigh(m, a, kw).segs)[0]


@ext('np.linalg.eig', 'np.linalg.svd', 'np.linalg.qr', 'np.linalg.matrix_rank')
def _unsup2(m, a, kw):
    raise Unsupported('matrix factorisation')


@ext('np.linalg.norm')
def _norm(m, a, kw):
    v, o, ax = P(a, kw, 'x', 'ord', 'axis')
    if not isnone(o) and not (isnum(o) and numval(o) == 2):
        if isnum(o) and numval(o) == 1:
            return reduce_with(m, v, ax, None, lambda d, f: red_sum(d, lambda i: abs_(f(i))))
        raise Unsupported('norm order')
    return reduce_with(m, v, ax, None, lambda d, f: sqrt_(red_sum(d, lambda i: power(f(i), TWO))))


@ext('np.linalg.matrix_power')
def _mpow(m, a, kw):
    k = need_int(m, a[1])
    r = a[0]
    for _ in range(k - 1):
        r = binop(m, 'MatMult', r, a[0])
    return r


@ext('sp.linalg.cho_factor')
def _chofactor(m, a, kw):
    A = asarr(m, a[0])
    chk_eq(m, A.dims[0], A.dims[1], 'square')
    r = newarr(m, Arr(A.dims, A.fn, term=A.term()))
    return tup(ExtObj('cho', (r,)), TRUE if kw.get('lower', a[1] if len(a) > 1 else FALSE) is TRUE else FALSE)


@ext('sp.linalg.cho_solve')
def _chosolve(m, a, kw):
    c = m.concrete(m.iter_segs(a[0]))
    if c is None or not isinstance(c[0], ExtObj) or c[0].path != 'cho':
        if c is not None and isarr(c[0]):
            L = m.arr(c[0])
            Lm = Arr(L.dims, L.fn)
            low = c[1] is TRUE
            Tt = transpose(m, c[0], None)
            M = matmul(m, L, m.arr(Tt)) if low else matmul(m, m.arr(Tt), L)
            return _solve(m, [M, a[1]], {})
        raise Unsupported('cho_solve')
    return _solve(m, [c[0].args[0], a[1]], {})


@ext('sp.linalg.block_diag')
def _blockdiag_dense(m, a, kw):
    return block_diag(m, items(*a), False)


def block_diag(m, segs, sparse):
    def scan(segs):
        out = []
        for s in segs:
            if isinstance(s, Item):
                A = item_arr(m, s.v)
                if len(A.dims) < 2:
                    A = Arr((ONE,) * (2 - len(A.dims)) + A.dims,
                            (lambda A: lambda i: A[i[2 - len(A.dims):]])(A), A.dtype)
                out.append(('i', A))
            elif isinstance(s, For):
                out.append(('f', s.var, s.lo, s.hi, scan(s.segs)))
            else:
                raise Unsupported('block_diag')
        return out
    tree = scan(segs)

    def size(nd, k):
        if nd[0] == 'i':
            return nd[1].dims[k]
        L = tsize(nd[4], k)
        if nd[1] in L.fv:
            raise Unsupported('ragged block_diag')
        return mul(L, sub(nd[3], nd[2]))

    def tsize(tr, k):
        n = ZERO
        for nd in tr:
            n = add(n, size(nd, k))
        return n

    def at(tr, r, c):
        nd = tr[0]
        R, C = size(nd, 0), size(nd, 1)
        rest = tr[1:]
        inr, inc = lt0(sub(r, R)), lt0(sub(c, C))
        if not rest:
            return node(nd, r, c)
        return gate(inr,
                    lambda: gate(inc, lambda: node(nd, r, c), lambda: ZERO),
                    lambda: gate(inc, lambda: ZERO, lambda: at(rest, sub(r, R), sub(c, C))))

    def node(nd, r, c):
        if nd[0] == 'i':
            return nd[1][(r, c)]
        R, C = tsize(nd[4], 0), tsize(nd[4], 1)
        qr, qc = floordiv(r, R), floordiv(c, C)
        return gate(eq0(sub(qr, qc)),
                    lambda: subst(at(nd[4], mod(r, R), mod(c, C)), {nd[1]: add(nd[2], qr)}), lambda: ZERO)
    with using(m.st.ctx):
        dims = (restrict(tsize(tree, 0)), restrict(tsize(tree, 1)))
    return mkarr(m, dims, lambda i: at(tree, i[0], i[1]), sparse=sparse)


# ------------------------------------------------------------ sparse

@ext('sp.sparse.block_diag')
def _bdiag(m, a, kw):
    return block_diag(m, m.iter_segs(a[0]), True)


EXT['sp.sparse.issparse'] = EXT['sp.sparse.isspmatrix'] = \
    lambda m, a, kw: dist(m, a[0], lambda v: TRUE if isarr(v) and m.arr(v).sparse else FALSE)
for _n in ('coo', 'csr', 'csc'):
    EXT['sp.sparse.isspmatrix_' + _n] = (lambda n: lambda m, a, kw: dist(
        m, a[0], lambda v: TRUE if isarr(v) and m.arr(v).sparse and (m.arr(v).meta or {}).get('fmt', n) == n else FALSE))(_n)


def triplets(m, A):
    """(rows, cols, data) 1-d Arrs of a sparse matrix (explicit zeros allowed)."""
    if A.meta and 'trip' in A.meta:
        return A.meta['trip']
    r, c = A.dims
    with using(m.st.ctx):
        n = mul(r, c)
        mk1 = lambda f, dt: from_term(lam((n,), f), dtype=dt)
        rows = mk1(lambda i: floordiv(i[0], c), 'i')
        cols = mk1(lambda i: mod(i[0], c), 'i')
        data = mk1(lambda i: A[(floordiv(i[0], c), mod(i[0], c))], 'f')
    return rows, cols, data


def segs_of(A):
    return A.meta.get('segs') if A.meta else None


def parallel(m, ds, rs, cs, i, j):
    """Sum over parallel segment structures of [row==i][col==j] data, or None."""
    if not (len(ds) == len(rs) == len(cs)):
        return None
    tot = ZERO
    for d, r, c in zip(ds, rs, cs):
        if isinstance(d, Item) and isinstance(r, Item) and isinstance(c, Item):
            x, y, z = m.settle(d.v), m.settle(r.v), m.settle(c.v)
            x = item_arr(m, x)
            if x.dims and not all(q is ONE for q in x.dims):
                return None
            xv = b2n(x[tuple(ZERO for _ in x.dims)])
            if not (isnumT(y) and isnumT(z)):
                return None
            tot = add(tot, ite(and_(eq0(sub(y, i)), eq0(sub(z, j))), xv, ZERO))
        elif isinstance(d, For) and isinstance(r, For) and isinstance(c, For):
            if not (d.lo is r.lo is c.lo and d.hi is r.hi is c.hi):
                return None
            v = fresh_index(d.lo, d.hi)
            av = atom(v)
            s = parallel(m, m.subst_segs(d.segs, {d.var: av}), m.subst_segs(r.segs, {r.var: av}),
                         m.subst_segs(c.segs, {c.var: av}), i, j)
            if s is None:
                return None
            tot = add(tot, sum_over(v, d.lo, d.hi, s))
        elif isinstance(d, When) and isinstance(r, When) and isinstance(c, When):
            if not (d.cond is r.cond is c.cond):
                return None
            s = parallel(m, d.segs, r.segs, c.segs, i, j)
            if s is None:
                return None
            tot = add(tot, ite(d.cond, s, ZERO))
        else:
            return None
    return tot


def from_lists(m, D, R, C, dims, fmt):
    """Sparse matrix of lists that a loop filled in step, entry by entry."""
    if dims is None or not all(type(x) is LRef for x in (D, R, C)):
        return None
    ds, rs, cs = [m.iter_segs(x) for x in (D, R, C)]
    if all(isinstance(s, Item) for s in ds):
        return None
    i, j = fresh_index(ZERO, dims[0]), fresh_index(ZERO, dims[1])
    with using(m.st.ctx):
        if parallel(m, ds, rs, cs, atom(i), atom(j)) is None:
            return None
        try:
            bad = restrict(or_(not_(within(m, rs, dims[0])), not_(within(m, cs, dims[1]))))
        except NotInts:
            return None
    m.raise_if(bad, 'ValueError', 'row/column index exceeds matrix dimensions')
    return mkarr(m, dims, lambda i: parallel(m, ds, rs, cs, i[0], i[1]), sparse=True, meta={'fmt': fmt})


class NotInts(Exception):
    pass


def within(m, segs, n):
    ok = TRUE
    for s in segs:
        if isinstance(s, Item):
            x = m.settle(s.v)
            if not isnumT(x):
                raise NotInts()
            ok = and_(ok, and_(le0(neg(x)), lt0(sub(x, n))))
        elif isinstance(s, When):
            with using(assume_ctx(ctx(), s.cond, True)):
                c = restrict(within(m, s.segs, n))
            ok = and_(ok, or_(not_(s.cond), c))
        elif isinstance(s, For):
            v = fresh_index(s.lo, s.hi)
            c = within(m, m.subst_segs(s.segs, {s.var: atom(v)}), n)
            if s.lo is not ZERO:
                raise NotInts()
            ok = and_(ok, forall_close([s.hi], [v], restrict(c)))
        else:
            raise NotInts()
    return ok


def from_triplets(m, D, R, C, dims, fmt):
    for X in (R, C):
        if len(X.dims) != 1 and not (X.dims and X.dims[0] is ZERO):
            m.praise('ValueError', 'row and column indices must be one-dimensional')
    if len(D.dims) == 2 and D.dims[1] is ONE:
        D = Arr(D.dims[:1], (lambda D: lambda i: D[(i[0], ZERO)])(D), D.dtype)
    if len(D.dims) != 1:
        # scipy ravels
        m.praise('ValueError', 'data must be one-dimensional')
    chk_eq(m, D.dims[0], R.dims[0], 'row, column, and data array must all be the same length')
    chk_eq(m, R.dims[0], C.dims[0], 'row, column, and data array must all be the same length')
    n = D.dims[0]
    if dims is None:
        raise Unsupported('sparse matrix without a shape')
    # bounds
    with using(m.st.ctx):
        bad = FALSE
        for X, d in ((R, dims[0]), (C, dims[1])):
            ok = forall([n], lambda t: and_(le0(neg(X[t])), lt0(sub(X[t], d))))
            bad = or_(bad, not_(restrict(ok)))
        bad = restrict(bad)
    m.raise_if(bad, 'ValueError', 'row/column index exceeds matrix dimensions')
    sd, sr, sc = segs_of(D), segs_of(R), segs_of(C)

    def e(i):
        if sd is not None and sr is not None and sc is not None:
            x = parallel(m, sd, sr, sc, i[0], i[1])
            if x is not None:
                return x
        return summ(ZERO, n, lambda t: ite(and_(eq0(sub(R[(t,)], i[0])), eq0(sub(C[(t,)], i[1]))), b2n(D[(t,)]), ZERO))
    return mkarr(m, dims, e, sparse=True, meta={'trip': (R, C, D), 'fmt': fmt})


def _sparse_ctor(fmt):
    def h(m, a, kw):
        v, shp = P(a, kw, 'arg1', 'shape')
        v = m.settle(v)
        if isinstance(v, PhiV):
            return m.distribute(v, lambda x: h(m, [x] + list(a[1:]), kw))
        if is_boxed(m, v):
            box_type_error(m, 'sparse matrix of a traced value')
        if isinstance(v, Tup):
            parts = m.concrete(v.segs)
            if parts is not None and len(parts) == 2 and all(isnumT(p) for p in parts):
                return mkarr(m, tuple(parts), lambda i: ZERO, sparse=True, meta={'fmt': fmt})
            if parts is not None and len(parts) == 2:
                rc = m.concrete(m.iter_segs(parts[1]))
                if rc is None or len(rc) != 2:
                    raise Unsupported('sparse constructor')
                r = from_lists(m, parts[0], rc[0], rc[1], None if isnone(shp) else shape_of(m, shp), fmt)
                if r is not None:
                    return r
                D = item_arr(m, parts[0])
                R, C = item_arr(m, rc[0]), item_arr(m, rc[1])
                dims = None if isnone(shp) else shape_of(m, shp)
                if is_boxed(m, newarr(m, D)):
                    box_type_error(m, 'sparse matrix of a traced value')
                return from_triplets(m, D, R, C, dims, fmt)
            if parts is not None and len(parts) == 3:
                return from_csr_parts(m, parts, shp, fmt)
            raise Unsupported('csr constructor')
        A = asarr(m, v)
        if len(A.dims) == 1:
            A = Arr((ONE,) + A.dims, (lambda A: lambda i: A[i[1:]])(A), A.dtype)
        if not A.dims:
            A = Arr((ONE, ONE), (lambda A: lambda i: A[()])(A), A.dtype)
        if len(A.dims) != 2:
            m.praise('TypeError', 'expected dimension <= 2 array or matrix')
        if not isnone(shp):
            for x, y in zip(shape_of(m, shp), A.dims):
                chk_eq(m, x, y, 'inconsistent shapes')
        meta = dict(A.meta or {})
        meta.pop('matrix', None)
        meta.pop('segs', None)
        meta['fmt'] = fmt
        return mkarr(m, A.dims, lambda i: A[i], sparse=True, meta=meta)
    return h


for _n in ('coo', 'csr', 'csc', 'lil', 'dok'):
    EXT['sp.sparse.%s_matrix' % _n] = _sparse_ctor(_n)


@ext('sp.sparse.diags')
def _diags(m, a, kw):
    A = item_arr(m, a[0])
    if len(A.dims) != 1:
        raise Unsupported('sparse.diags')
    n = A.dims[0]
    return mkarr(m, (n, n), lambda i: ite(eq0(sub(i[0], i[1])), A[(i[0],)], ZERO), sparse=True)


@ext('sp.sparse.vstack')
def _spvstack(m, a, kw):
    r = concat(m, m.iter_segs(a[0]), 0)
    m.st.heap[r.oid].sparse = True
    return r


@ext('sp.sparse.hstack')
def _sphstack(m, a, kw):
    r = concat(m, m.iter_segs(a[0]), 1)
    m.st.heap[r.oid].sparse = True
    return r


@method('toarray')
def _toarray(m, o, a, kw):
    A = m.arr(o)
    return newarr(m, Arr(A.dims, A.fn, term=A._t))


@method('todense')
def _todense(m, o, a, kw):
    A = m.arr(o)
    return newarr(m, Arr(A.dims, A.fn, term=A._t, meta={'matrix': True}))


def _tofmt(fmt):
    def h(m, o, a, kw):
        A = m.arr(o)
        meta = dict(A.meta or {})
        meta['fmt'] = fmt
        return newarr(m, Arr(A.dims, A.fn, term=A._t, sparse=True, meta=meta))
    return h


for _n in ('coo', 'csr', 'csc', 'lil', 'dok'):
    METHODS['to' + _n] = _tofmt(_n)


@method('multiply')
def _spmult(m, o, a, kw):
    A, B = m.arr(o), asarr(m, a[0])
    dims, sa, sb = bdims(m, A.dims, B.dims)
    return mkarr(m, dims, lambda i: mul(A[bidx(sa, i)], B[bidx(sb, i)]), sparse=True)


def sparse_getitem(m, o, A, i):
    D = newarr(m, Arr(A.dims, A.fn, term=A._t))
    its = m.concrete(i.segs) if isinstance(i, Tup) else [i]
    its = [m.settle(x) for x in its]
    if len(its) == 2 and all(isT(x) for x in its):
        return arr_getitem(m, D, i)
    # rows/columns stay two-dimensional
    sel = []
    for x in its:
        if isT(x) and isnumT(x):
            with using(m.st.ctx):
                sel.append(SliceV(x, add(x, ONE), NONE))
        else:
            sel.append(x)
    r = arr_getitem(m, D, tup(*sel))
    if isarr(r):
        B = m.arr(r)
        if len(B.dims) == 1:
            raise Unsupported('sparse fancy indexing')
        return newarr(m, Arr(B.dims, B.fn, sparse=True, term=B._t))
    return r


# ------------------------------------------------------------ iterative solvers / optimisers

@ext('sp.sparse.linalg.LinearOperator')
def _linop(m, a, kw):
    s, f = P(a, kw, 'shape', 'matvec')
    return ExtObj('LinearOperator', (s, f), (), (('shape', s), ('matvec', f)))


EXT['sp.sparse.linalg.aslinearoperator'] = lambda m, a, kw: a[0]


def operator_matrix(m, v):
    """Dense Arr of a matrix or LinearOperator."""
    if isinstance(v, ExtObj) and v.path == 'LinearOperator':
        from .autodiff import linear_matrix
        n = shape_of(m, v.args[0])
        return linear_matrix(m, v.args[1], n[1], n[0])
    return asarr(m, v)


@ext('sp.sparse.linalg.cg')
def _cg(m, a, kw):
    Aop, b = a[0], a[1]
    M = operator_matrix(m, Aop)
    r = newarr(m, Arr(M.dims, M.fn, term=M.term()))
    m.events.append(('cg', m.loc(), (tuple(a), tuple(sorted(kw.items(), key=lambda z: z[0])))))
    for k in kw:
        if k not in ('x0', 'tol', 'maxiter', 'M', 'callback', 'atol', 'rtol'):
            m.praise('TypeError', "cg() got an unexpected keyword argument '%s'" % k)
    return tup(_solve(m, [r, b], {}), ZERO)


@ext('sp.optimize.minimize')
def _minimize(m, a, kw):
    raise Unsupported('scipy.optimize.minimize without a contract stub')


@ext('np.random.random', 'np.random.rand', 'np.random.randn', 'np.random.normal', 'np.random.uniform', 'np.random.seed')
def _random(m, a, kw):
    raise Unsupported('random numbers')


EXT['np.vectorize'] = _unsup
EXT['np.polynomial.hermite.hermgauss'] = EXT['sp.special.roots_hermite'] = _unsup


@ext('np.may_share_memory', 'np.shares_memory')
def _share(m, a, kw):
    return TRUE if a[0] == a[1] else FALSE


@ext('np.issubdtype')
def _issub(m, a, kw):
    if isstr(a[0]):
        s = strof(a[0])
        t = dt_of(m, a[1])
        return TRUE if (('int' in s and t == 'i') or ('float' in s and t == 'f') or ('bool' in s and t == 'b')) else FALSE
    raise Unsupported('issubdtype')
