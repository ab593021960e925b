"""Contract intrinsics: symbols, assumptions, obligations.

Contracts are Python text interpreted by the same abstract interpreter as the
analysed package; the names below exist only in contract modules.
"""
from .terms import *
from .values import *
from . import models as M
from .models import EXT, BUILTIN, builtin, asarr, mkarr, newarr, concrete_int, isT, isarr, isstr, strof
from . import interp as I_
from . import autodiff as AD
from .interp import Machine, Raised


class Obl(object):
    """A proof obligation: under pc, a == b (or the boolean term a holds)."""
    __slots__ = ('msg', 'a', 'b', 'pc', 'ctx', 'loc', 'where', 'status', 'detail', 'calls', 'loop')

    def __init__(self, msg, a, b, pc, ctx, loc, where, calls=()):
        self.msg, self.a, self.b, self.pc, self.ctx, self.loc, self.where = msg, a, b, pc, ctx, loc, where
        self.status, self.detail = None, None
        self.calls = calls
        self.loop = False


INTR = {}


def intr(name):
    def d(f):
        INTR[name] = f
        BUILTIN['ct:' + name] = f
        return f
    return d


Machine.intrinsics = INTR


def S(m, v):
    v = m.settle(v)
    if not isstr(v):
        raise Unsupported('contract: expected a string')
    return strof(v)


def sname(m, v):
    n = S(m, v)
    return n


@intr('dim')
def _dim(m, f, a, kw):
    name = sname(m, a[0])
    lo = concrete_int(a[1]) if len(a) > 1 else 1
    if m.dimvals is not None:
        v = m.dimvals(name, lo)
        m.dims_used[name] = v
        return num(v)
    if lo == 0:
        return var(name, 'int', 'nonneg', lo=ZERO)
    v = var(name, 'int', 'pos', lo=ONE)
    return add(v, num(lo - 1)) if lo > 1 else v


@intr('symbolic')
def _symbolic(m, f, a, kw):
    return TRUE if m.dimvals is None else FALSE


@intr('real')
def _real(m, f, a, kw):
    return var(sname(m, a[0]))


@intr('pos')
def _pos(m, f, a, kw):
    return var(sname(m, a[0]), 'pos')


@intr('natural')
def _nat(m, f, a, kw):
    return var(sname(m, a[0]), 'int', 'pos')


@intr('boolean')
def _boolean(m, f, a, kw):
    return eq0(sub(var(sname(m, a[0]), 'int', 'nonneg', 'bool', lo=ZERO, hi=TWO), ONE))


def _dims(m, a):
    out = []
    for x in a:
        x = m.settle(x)
        if isinstance(x, Tup) or type(x) is LRef:
            out.extend(_dims(m, [s.v for s in m.iter_segs(x)]))
        else:
            out.append(x)
    return tuple(out)


def _arrintr(name, *props, dtype='f'):
    @intr(name)
    def h(m, f, a, kw):
        d = _dims(m, a[1:])
        if not d:
            return var(sname(m, a[0]), *props)
        X = arrsym(sname(m, a[0]), d, *props)
        return m.new_array(from_term(X, dtype=dtype))
    return h


_arrintr('array')
_arrintr('posarray', 'pos')
_arrintr('symarray', 'sym')
_arrintr('pdarray', 'sym', 'pd')
_arrintr('simplexarray', 'pos', 'simplex')
_arrintr('unitarray', 'pos01')
_arrintr('intarray', 'int', dtype='i')
_arrintr('boolarray', 'int', 'nonneg', 'bool', dtype='b')
_arrintr('lowertri', 'ld')


@intr('indexarray')
def _indexarray(m, f, a, kw):
    """Vector of valid indices into an axis: indexarray(name, n, size)."""
    X = arrsym(sname(m, a[0]), (a[1],), 'int', 'nonneg')
    INDEX_BOUND[X] = a[2]
    return m.new_array(from_term(X, dtype='i'))


@intr('pdmat')
def _pdmat(m, f, a, kw):
    """Positive definite matrix with known Cholesky factor: (A, L), A = L L' + lb I."""
    name = sname(m, a[0])
    n = a[1]
    lb = a[2] if len(a) > 2 else ZERO
    X = arrsym(name, (n, n), 'lo')
    D = arrsym(name + '.d', (n,), 'pos')
    with using(m.st.ctx):
        L = lam((n, n), lambda i: ite(eq0(sub(i[0], i[1])), get(D, i[0]),
                                      ite(lt0(sub(i[1], i[0])), get(X, *i), ZERO)))
    Lr = m.new_array(from_term(L))
    A0 = m.call(ExtV('np.matmul'), [Lr, M.npmodels_transpose(m, Lr)], {})
    t = m.arr(A0).term()
    m.chol[t] = L
    if lb is not ZERO:
        A = mkarr(m, (n, n), lambda i: add(get(t, *i), ite(eq0(sub(i[0], i[1])), lb, ZERO)))
    else:
        A = A0
    return tup(A, Lr)


@intr('anyindex')
def _anyindex(m, f, a, kw):
    n = a[-1]
    lo = a[-2] if len(a) > 2 else ZERO
    k = concrete_int(n)
    v = fresh_index(lo, n, 'x')
    return atom(v)


@intr('fun')
def _fun(m, f, a, kw):
    return Builtin('ct:apply', sname(m, a[0]), _dims(m, a[1:]))


@builtin('ct:apply')
def _apply(m, f, args, kw):
    name, od = f.cap
    ts = []

    def addarg(x):
        x = m.settle(x)
        if isinstance(x, PhiV):
            d, fn_ = AD.flat_out(m, x)
            with using(m.st.ctx):
                ts.append(lam(d, fn_) if d else fn_(()))
            return
        if isinstance(x, T):
            if M.isnumT(x):
                ts.append(b2n(x))
            else:
                ts.append(x)
            return
        if isarr(x):
            ts.append(m.arr(x).term())
            return
        if isinstance(x, Tup) or type(x) is LRef:
            for s in m.concrete(m.iter_segs(x)) or ():
                addarg(s)
            return
        raise Unsupported('contract function argument %r' % (x,))
    for x in args:
        addarg(x)
    nm = name
    consts = [t for t in ts if t.op == 'c']
    if consts:
        nm = name + ':' + ','.join(str(c.a[1]) for c in consts)
    for k in sorted(kw):
        nm += ';' + k
        addarg(kw[k])
    ts = tuple(t for t in ts if t.op != 'c')
    if not od:
        return atom(mk('app', nm, (), ts))
    return mkarr(m, od, lambda i: AD._build_app(nm, tuple(i), ts))


@intr('assume')
def _assume(m, f, a, kw):
    c = M.truth(m, a[0])
    with using(m.st.ctx):
        c = restrict(c)
    if c is TRUE:
        return NONE
    if c is FALSE:
        raise Dead()
    m.st.become(m.st.fork(c, True))
    if inconsistent(m.st.ctx):
        raise Dead()
    return NONE


# ------------------------------------------------------------ obligations

def resolve(m, t):
    """Replace tracer symbols by the values they stood for."""
    if not isinstance(t, T):
        return t
    for _ in range(8):
        bx = [b for b in t.fv if b in m.boxvals]
        if not bx:
            return t
        t = subst(t, {b: m.boxvals[b] for b in bx})
    return t


def oblige(m, msg, a, b=None, where=''):
    a = resolve(m, a)
    b = resolve(m, b) if b is not None else None
    m.obls.append(Obl(msg, a, b, m.st.pc, m.st.ctx, m.loc(), where, tuple(m.recent)))
    m.obls[-1].loop = m.inloop > 0


@intr('check')
def _check(m, f, a, kw):
    msg = S(m, a[1]) if len(a) > 1 else 'check'
    v = m.settle(a[0])
    oblige(m, msg, M.truth(m, v))
    return NONE


def pairs(m, a, b, path=''):
    """Obligation pairs (x, y, path) for a == b; (FALSE, None, why) for a structural mismatch."""
    a, b = m.settle(a), m.settle(b)
    if isinstance(a, PhiV) or isinstance(b, PhiV) or M.mixed(a) or M.mixed(b):
        # numeric merge first
        try:
            d1, f1 = AD.flat_out(m, a)
            d2, f2 = AD.flat_out(m, b)
            return arr_pairs(m, d1, f1, d2, f2, path)
        except Unsupported:
            pass
        raise Unsupported('contract: comparison of gated structures')
    if isinstance(a, T) and isinstance(b, T):
        na, nb = M.isnumT(a), M.isnumT(b)
        if na and nb:
            return [(b2n(a), b2n(b), path)]
        if na != nb:
            return [(FALSE, None, path + ': kinds differ')]
        if a is b:
            return []
        if a.op == 'c' and b.op == 'c':
            return [(FALSE, None, path + ': %s is not %s' % (show(a), show(b)))]
        return [(a, b, path)]
    if isarr(a) and isarr(b):
        A, B = m.arr(a), m.arr(b)
        return arr_pairs(m, A.dims, A.fn, B.dims, B.fn, path)
    for x, y in ((a, b), (b, a)):
        if isarr(x) and isinstance(y, T):
            return [(FALSE, None, path + ': an array of rank %d against a scalar' % len(m.arr(x).dims))]
    if (isinstance(a, Tup) or type(a) is LRef) and (isinstance(b, Tup) or type(b) is LRef):
        sa, sb = m.iter_segs(a), m.iter_segs(b)
        ca, cb = m.concrete(sa), m.concrete(sb)
        if ca is None or cb is None:
            A, B = asarr(m, a), asarr(m, b)
            return arr_pairs(m, A.dims, A.fn, B.dims, B.fn, path)
        if len(ca) != len(cb):
            return [(FALSE, None, path + ': lengths %d and %d' % (len(ca), len(cb)))]
        out = []
        for i, (x, y) in enumerate(zip(ca, cb)):
            out += pairs(m, x, y, path + '[%d]' % i)
        return out
    if type(a) is DRef and type(b) is DRef:
        ea, eb = m.content(a).entries, m.content(b).entries
        if any(isinstance(e, DFor) for e in ea + eb):
            raise Unsupported('contract: comparison of dict families')
        da, db = dict(ea), dict(eb)
        if list(da) != list(db):
            return [(FALSE, None, path + ': keys differ')]
        out = []
        for k in da:
            out += pairs(m, da[k], db[k], path + '[%r]' % (k,))
        return out
    if a == b:
        return []
    return [(FALSE, None, path + ': %r against %r' % (a, b))]


def arr_pairs(m, d1, f1, d2, f2, path):
    if len(d1) != len(d2):
        return [(FALSE, None, path + ': ranks %d and %d' % (len(d1), len(d2)))]
    out = []
    idx = []
    for k, (x, y) in enumerate(zip(d1, d2)):
        x, y = resolve(m, x), resolve(m, y)
        if x is not y:
            out.append((x, y, path + ' dimension %d' % k))
        idx.append(atom(fresh_index(ZERO, x, 'e')))
    d1 = tuple(resolve(m, x) for x in d1)
    if not out and small_dims(d1):
        with using(m.st.ctx):
            for i in all_indices(d1):
                a, b = f1(i), f2(i)
                a, b = b2n(a) if M.isnumT(a) else a, b2n(b) if M.isnumT(b) else b
                a, b = restrict(a), restrict(b)
                if a is not b or i == next(all_indices(d1)):
                    out.append((a, b, path + ' entry [%s]' % ','.join(show(z) for z in i)))
        return out
    with using(m.st.ctx):
        a, b = f1(tuple(idx)), f2(tuple(idx))
        a, b = b2n(a) if M.isnumT(a) else a, b2n(b) if M.isnumT(b) else b
        out.append((restrict(a), restrict(b), path + ' entries'))
    return out


@intr('check_eq')
def _check_eq(m, f, a, kw):
    msg = S(m, a[2]) if len(a) > 2 else 'check_eq'
    for x, y, p in pairs(m, a[0], a[1]):
        oblige(m, msg, x, y, p)
    return NONE


@intr('shape_eq')
def _shape_eq(m, f, a, kw):
    r = TRUE
    v = m.settle(a[0])
    d = asarr(m, v).dims if not isinstance(v, T) else ()
    e = _dims(m, a[1:])
    if len(d) != len(e):
        return FALSE
    for x, y in zip(d, e):
        r = and_(r, eq0(sub(x, y)))
    return r


@intr('allindex')
def _allindex(m, f, a, kw):
    """Entry of an array at an arbitrary index (universally quantified)."""
    A = asarr(m, a[0])
    return restrict(A[tuple(atom(fresh_index(ZERO, d, 'e')) for d in A.dims)], m.st.ctx)


# ------------------------------------------------------------ store traversal

def freeze(m, v, seen=None):
    seen = {} if seen is None else seen
    v = m.settle(v)
    if isinstance(v, T):
        return ('T', v)
    if isinstance(v, Tup):
        return ('tup', tuple(_fz_segs(m, v.segs, seen)))
    if isinstance(v, PhiV):
        return ('phi', v.cond, freeze(m, v.a, seen), freeze(m, v.b, seen))
    if isinstance(v, BoundV):
        return ('bound', freeze(m, v.self, seen), v.func)
    if isinstance(v, Builtin):
        return ('builtin', v.name, tuple(freeze(m, x, seen) if isinstance(x, (V, T)) else x for x in v.cap))
    if isinstance(v, ARef):
        if v.oid in seen:
            return ('ref', seen[v.oid])
        seen[v.oid] = len(seen)
        c = m.content(v)
        if isinstance(c, Frozen):
            c = c.content
        if isinstance(c, (Arr, ViewC)):
            a = m.arr(v)
            return ('arr', a.dims, a.term(), a.dtype)
        if isinstance(c, Seq):
            return ('seq', tuple(_fz_segs(m, c.segs, seen)))
        if isinstance(c, DictC):
            out = []
            for e in c.entries:
                if isinstance(e, tuple):
                    out.append((e[0], freeze(m, e[1], seen)))
                else:
                    out.append(('family', e))
            return ('dict', tuple(out))
        if isinstance(c, ObjC):
            return ('obj', c.cls, tuple((k, freeze(m, x, seen)) for k, x in sorted(c.fields.items())))
        if isinstance(c, FrameC):
            return ('frame', ())
        if isinstance(c, BadC):
            return ('bad', c.reason)
        return ('other', c)
    if isinstance(v, FuncV):
        fr = []
        for x in v.frames:
            if x.oid in seen:
                continue
            seen[x.oid] = len(seen)
            fc = m.content(x)
            if isinstance(fc, FrameC):
                fr.append(tuple((k, freeze(m, y, seen)) for k, y in sorted(fc.vars.items()) if y is not UNBOUND))
        return ('func', v.qual, id(v.node), tuple(fr))
    if isinstance(v, ExtObj):
        return ('extobj', v.path, tuple(freeze(m, x, seen) for x in v.args))
    return ('other', v)


def _fz_segs(m, segs, seen):
    for s in segs:
        if isinstance(s, Item):
            yield freeze(m, s.v, seen)
        else:
            yield ('seg', s)


def frozen_terms(fz, path='', conds=()):
    """All (path, term, conditions) in a frozen structure."""
    k = fz[0]
    sub_ = ()
    if k == 'T':
        yield path, fz[1], conds
    elif k == 'arr':
        yield path, fz[2], conds
    elif k in ('tup', 'seq'):
        sub_ = [(x, path + '[%d]' % i) for i, x in enumerate(fz[1]) if x[0] != 'seg']
    elif k == 'phi':
        for y in frozen_terms(fz[2], path, conds + (fz[1],)):
            yield y
        for y in frozen_terms(fz[3], path, conds + (not_(fz[1]),)):
            yield y
    elif k == 'bound':
        sub_ = [(fz[1], path + '.self')]
    elif k == 'builtin':
        sub_ = [(x, path + '.cap%d' % i) for i, x in enumerate(fz[2]) if isinstance(x, tuple) and x and isinstance(x[0], str)]
    elif k == 'dict':
        sub_ = [(x, path + '[%s]' % (show(kk) if isinstance(kk, T) else kk)) for kk, x in fz[1] if kk != 'family']
    elif k == 'obj':
        sub_ = [(x, path + '.' + kk) for kk, x in fz[2]]
    elif k == 'func':
        sub_ = [(x, path + '~' + kk) for fr in fz[3] for kk, x in fr]
    elif k == 'extobj':
        sub_ = [(x, path + '.arg%d' % i) for i, x in enumerate(fz[2])]
    elif k == 'bad':
        raise Unsupported('store content lost: %s' % fz[1])
    for x, p in sub_:
        for y in frozen_terms(x, p, conds):
            yield y


@intr('snapshot')
def _snapshot(m, f, a, kw):
    return Builtin('ct:snap', freeze(m, a[0]))


def guard(ps, c):
    """Obligation pairs that need to hold only under c."""
    out = []
    for x, y, p in ps:
        if y is None:
            out.append((or_(not_(c), x), None, p))
        elif M.isnumT(x):
            out.append((ite(c, x, y), y, p))
        else:
            out.append((or_(not_(c), FALSE), None, p))
    return out


def frozen_pairs(m, x, y, path):
    if x == y:
        return []
    if x[0] == 'phi':
        return guard(frozen_pairs(m, x[2], y, path), x[1]) + guard(frozen_pairs(m, x[3], y, path), not_(x[1]))
    if y[0] == 'phi':
        return guard(frozen_pairs(m, x, y[2], path), y[1]) + guard(frozen_pairs(m, x, y[3], path), not_(y[1]))
    if x[0] != y[0]:
        return [(FALSE, None, '%s changed kind' % path)]
    k = x[0]
    if k == 'T':
        a, b = x[1], y[1]
        if a is b:
            return []
        if M.isnumT(a) and M.isnumT(b):
            return [(b2n(a), b2n(b), path)]
        return [(FALSE, None, '%s changed' % path)]
    if k == 'arr':
        if x[2] is y[2] and x[1] == y[1]:
            return []
        return arr_pairs(m, x[1], lambda i: get(x[2], *i), y[1], lambda i: get(y[2], *i), path)
    if k in ('tup', 'seq', 'dict'):
        if len(x[1]) != len(y[1]):
            return [(FALSE, None, '%s changed length' % path)]
        out = []
        for i, (p, q) in enumerate(zip(x[1], y[1])):
            if k == 'dict':
                if p[0] != q[0]:
                    return [(FALSE, None, '%s changed keys' % path)]
                if p[0] == 'family':
                    if p != q:
                        return [(FALSE, None, '%s changed' % path)]
                    continue
                kk = show(p[0]) if isinstance(p[0], T) else str(p[0])
                out += frozen_pairs(m, p[1], q[1], path + '[%s]' % kk)
            elif p[0] == 'seg' or q[0] == 'seg':
                if p != q:
                    out.append((FALSE, None, '%s changed' % path))
            else:
                out += frozen_pairs(m, p, q, path + '[%d]' % i)
        return out
    if k == 'obj':
        if x[1] is not y[1] or [f for f, _ in x[2]] != [f for f, _ in y[2]]:
            return [(FALSE, None, '%s changed attributes' % path)]
        out = []
        for (f, p), (_, q) in zip(x[2], y[2]):
            out += frozen_pairs(m, p, q, path + '.' + f)
        return out
    if k == 'bound':
        return frozen_pairs(m, x[1], y[1], path)
    if k == 'func':
        if x[2] != y[2]:
            return [(FALSE, None, '%s changed' % path)]
        return []
    if k in ('builtin', 'extobj', 'frame'):
        return []
    if x == y:
        return []
    return [(FALSE, None, '%s changed' % path)]


@intr('check_unchanged')
def _check_unchanged(m, f, a, kw):
    msg = S(m, a[2]) if len(a) > 2 else 'unchanged'
    ps = frozen_pairs(m, a[1].cap[0], freeze(m, a[0]), 'value')
    for x, y, p in ps:
        oblige(m, msg, x, y, p)
    if not ps:
        oblige(m, msg, TRUE)
    return NONE


@intr('no_trace')
def _no_trace(m, f, a, kw):
    """No tracer of a finished differentiation is left in what is reachable."""
    msg = S(m, a[1]) if len(a) > 1 else 'no tracer left behind'
    bad = 0
    for p, t, cs in frozen_terms(freeze(m, a[0])):
        if any(b in m.boxvals for b in t.fv):
            c = FALSE
            with using(m.st.ctx):
                for x in cs:
                    c = or_(c, not_(resolve(m, x)))
                c = restrict(c)
            if c is TRUE:
                continue
            bad += 1
            m.obls.append(Obl(msg, c, None, m.st.pc, m.st.ctx, m.loc(), 'traced value left in value' + p, tuple(m.recent)))
            m.obls[-1].loop = m.inloop > 0
    if not bad:
        oblige(m, msg, TRUE)
    return NONE


def _spec_jac(m, f, x):
    """Jacobian of a callable as a specification: effects of the call are discarded."""
    keep = m.st
    m.st = keep.fork()
    m.st.heap = dict(keep.heap)
    try:
        r = AD.traced(m, f, [x], {}, 0, lambda bx, od, of: [AD.jac_terms(bx, AD.bdims_of(bx), od, of)], spec=True)
    finally:
        m.st = keep
    return AD.emit(m, *r[0])


@intr('jac')
def _jac(m, f, a, kw):
    return _spec_jac(m, a[0], a[1])


@intr('hess')
def _hess(m, f, a, kw):
    return _spec_jac(m, Builtin('ct:jacfun', a[0]), a[1])


@builtin('ct:jacfun')
def _jacfun(m, f, args, kw):
    return _spec_jac(m, f.cap[0], args[0])


@intr('stub')
def _stub(m, f, a, kw):
    m.stubs[S(m, a[0])] = a[1]
    return NONE


@intr('unstub')
def _unstub(m, f, a, kw):
    m.stubs.pop(S(m, a[0]), None)
    return NONE


@intr('namespace')
def _namespace(m, f, a, kw):
    return ExtObj('namespace', (), (), tuple(kw.items()))


@intr('primitive_rules')
def _prules(m, f, a, kw):
    """(vjp makers, jvp makers) registered for a primitive."""
    k = AD.prim_key(a[0])
    v = m.vjps.get(k)
    j = m.jvps.get(k)
    return tup(tup(*v[1]) if v else NONE, tup(*j[1]) if j else NONE)


@intr('cg_calls')
def _cgcalls(m, f, a, kw):
    out = []
    for e in m.events:
        if e[0] == 'cg':
            args, k = e[2]
            out.append(tup(Tup(items(*args)), m.new_dict(tuple((const(n), v) for n, v in k))))
    return m.new_list(items(*out))


@intr('get_entry')
def _get_entry(m, f, a, kw):
    A = asarr(m, a[0])
    return restrict(A[tuple(a[1:])], m.st.ctx)


@intr('total')
def _total(m, f, a, kw):
    """Sum over an index range: total(n, lambda k: ...)."""
    n, g = a
    v = fresh_index(ZERO, n, 'k')
    with using(m.st.ctx):
        body = m.call(g, [atom(v)], {})
        return sum_over(v, ZERO, n, body)


@intr('tabulate')
def _tabulate(m, f, a, kw):
    """Array with entries g(i, j, ...): tabulate(g, n1, n2, ...)."""
    g = a[0]
    d = _dims(m, a[1:])
    return mkarr(m, d, lambda i: b2n(m.call(g, list(i), {})))


@intr('is_int_dtype')
def _isint(m, f, a, kw):
    return TRUE if asarr(m, a[0]).dtype == 'i' else FALSE


@intr('same_object')
def _same(m, f, a, kw):
    return TRUE if m.settle(a[0]) == m.settle(a[1]) else FALSE


def _fnintr(name, f):
    @intr(name)
    def h(m, b, a, kw):
        return f(*a)
    return h


_fnintr('f_digamma', lambda x: fn('polygamma', ZERO, x))
_fnintr('f_polygamma', lambda n, x: fn('polygamma', n, x))
_fnintr('f_gammaln', lambda x: fn('gammaln', x))
_fnintr('f_log', log_)
_fnintr('f_exp', exp_)
_fnintr('f_sqrt', sqrt_)


@intr('f_logdet')
def _flogdet(m, f, a, kw):
    from . import npmodels
    return npmodels.logdet_of(m, asarr(m, a[0]).term())


@intr('ite')
def _ite(m, f, a, kw):
    return ite(M.truth(m, a[0]), a[1], a[2])
