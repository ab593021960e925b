"""Model of autograd: derivatives of value graphs are value graphs.

A differential operator (jacobian, grad, hessian, jvp ...) interprets the
differentiated function once on a fresh tracer symbol and differentiates the
resulting terms by rule.  The tracer symbol stays visible in every store
location the traced call wrote, which is how leaked traces are found.
"""
from .terms import *
from .terms import _chk
from .values import *
from . import models as M
from .models import EXT, BUILTIN, ext, builtin, asarr, mkarr, newarr, dist, concrete_int, isT, isarr


# ------------------------------------------------------------ symbolic differentiation

class Diff(object):
    """Directional derivative of terms: raw symbol sym moves along tan(idx)."""

    def __init__(self, sym, tan):
        self.sym, self.tan = sym, tan
        self.memo = {}

    def d(self, t):
        if self.sym not in t.fv:
            return ZERO
        k = (ctx().n, t)
        r = self.memo.get(k)
        if r is None:
            r = self._d(t)
            self.memo[k] = r
        return r

    def _d(self, t):
        if t.op == 'I':
            c, a, b = t.a
            cx = ctx()
            dd = M_decide(c)
            if dd is not None:
                return self.d(a if dd else b)
            with using(ctx_child(cx, c, True)):
                x = self.d(a)
            with using(ctx_child(cx, c, False)):
                y = self.d(b)
            return ite(mk('I', c, TRUE, FALSE), x, y)
        if t.op == 'B':
            return ZERO
        if t.op != 'Q':
            raise Unsupported('derivative of %s' % t.op)
        N, D = t.a
        num_ = ZERO
        for m, c in N:
            for i, (x, e) in enumerate(m):
                if self.sym not in x.fv:
                    continue
                dx = self.datom(x)
                if dx is ZERO:
                    continue
                rest = dict(m)
                if e == 1:
                    del rest[x]
                else:
                    rest[x] = e - 1
                mono = tuple(sorted(rest.items(), key=lambda z: z[0].key))
                num_ = add(num_, mul(Q({mono: c * e}), dx))
        den = ONE
        for s, k in D:
            den = mul(den, power(s, num(k)))
        r = div(num_, den)
        for s, k in D:
            if self.sym in s.fv:
                r = sub(r, mul(mul(num(k), t), div(self.d(s), s)))
        return r

    def datom(self, x):
        k = (ctx().n, 'atom', x)
        r = self.memo.get(k)
        if r is None:
            r = self._datom(x)
            self.memo[k] = r
        return r

    def _datom(self, x):
        op = x.op
        if x is self.sym:
            return self.tan(())
        if op in ('v', 'b', 'pi', 'inf', 'logn', 'rt', 'iv', 'floor', 'trirow'):
            return ZERO
        if op == 'Q':
            return self.d(x)
        if op == 'get':
            return self.dget(x.a[0], x.a[1:])
        if op == 'E':
            return mul(atom(x), self.d(x.a[0]))
        if op == 'log':
            return div(self.d(x.a[0]), x.a[0])
        if op == 'abs':
            return mul(self.d(x.a[0]), ite(lt0(x.a[0]), num(-1), ONE))
        if op == 'mod':
            return self.d(x.a[0])
        if op == 'S':
            vs, body = open_binder(x)
            db = self.d(body)
            for v in reversed(vs):
                lo, hi = RANGE[v]
                db = sum_over2(v, lo, hi, db)
            return db
        if op == 'fn':
            r = ZERO
            for i, a in enumerate(x.a[1:]):
                if self.sym in a.fv:
                    r = add(r, mul(dfn(x.a[0], x.a[1:], i), self.d(a)))
            return r
        if op in ('app', 'dapp'):
            return self.dapp(x)
        raise Unsupported('derivative of %s' % op)

    def darr(self, X):
        """Entry function of the derivative of array term X."""
        return lambda idx: self.d(get(X, *idx))

    def dget(self, X, idx):
        if X is self.sym:
            return self.tan(idx)
        if self.sym not in X.fv:
            return ZERO
        if X.op != 'afn':
            raise Unsupported('derivative of %s entries' % X.op)
        name = X.a[0]
        if name == 'inv':
            A = X.a[2]
            n = arr_dims(A)[0]
            dA = self.darr(A)
            return neg(summ(ZERO, n, lambda k: summ(ZERO, n, lambda l: mul(mul(
                get(X, idx[0], k), dA((k, l))), get(X, l, idx[1])))))
        if name == 'logdet':
            A = X.a[2]
            n = arr_dims(A)[0]
            dA = self.darr(A)
            iA = afn('inv', arr_dims(A), A)
            return summ(ZERO, n, lambda k: summ(ZERO, n, lambda l: mul(get(iA, l, k), dA((k, l)))))
        if name == 'detsign':
            return ZERO
        if name == 'chol':
            A = X.a[2]
            n = arr_dims(A)[0]
            dA = self.darr(A)
            iL = afn('inv', arr_dims(A), X)
            # dL = L tril(iL dA iL^T, half diagonal)
            def P(a, b):
                s = summ(ZERO, n, lambda k: summ(ZERO, n, lambda l: mul(mul(get(iL, a, k), dA((k, l))), get(iL, b, l))))
                return ite(lt0(sub(a, b)), ZERO, ite(eq0(sub(a, b)), mul(HALF, s), s))
            return summ(ZERO, n, lambda a: mul(get(X, idx[0], a), P(a, idx[1])))
        if name == 'maskpos':
            return ZERO
        if name == 'prod':
            A = X.a[2]
            raise Unsupported('derivative of prod')
        if name == 'mu':
            raise Unsupported('derivative through a loop that was not summarised')
        raise Unsupported('derivative of %s' % name)

    def dapp(self, x):
        """x = app(name, out, args) or dapp(name, out, derivs, args)."""
        if x.op == 'app':
            name, out, args = x.a
            ders = ()
        else:
            name, out, ders, args = x.a
        r = ZERO
        for i, a in enumerate(args):
            if self.sym not in a.fv:
                continue
            if is_arrterm(a):
                dims = arr_dims(a)
                da = self.darr(a)

                def body(idx, i=i, da=da):
                    return mul(mkdapp(name, out, ders + ((i,) + tuple(idx),), args), da(idx))
                r = add(r, nest(dims, body))
            else:
                r = add(r, mul(mkdapp(name, out, ders + ((i,),), args), self.d(a)))
        return r


def is_arrterm(a):
    while a.op == 'I':
        a = a.a[1]
    return a.op in ('arr', 'L', 'afn', 'tab')


def nest(dims, f, pre=()):
    if not dims:
        return f(pre)
    return summ(ZERO, dims[0], lambda k: nest(dims[1:], f, pre + (k,)))


def mkdapp(name, out, ders, args):
    """Mixed partial: ders is a multiset of argument positions."""
    def leafd(*flat):
        it = iter(flat)
        ds = [tuple([d[0]] + [next(it) for _ in d[1:]]) for d in ders]
        o = tuple(next(it) for _ in out)
        ds.sort(key=lambda d: (d[0], tuple(z.key for z in d[1:])))
        return atom(mk('dapp', name, o, tuple(ds), args))
    flat = [z for d in ders for z in d[1:]] + list(out)
    return lift(leafd, *flat)


def _build_app(name, out, args):
    return lift(lambda *o: atom(mk('app', name, tuple(o), args)), *out) if out else atom(mk('app', name, (), args))


def _build_dapp(name, out, ders, args):
    return mkdapp(name, tuple(out), tuple(tuple(d) for d in ders), args)


ATOM_BUILD['app'] = _build_app
ATOM_BUILD['dapp'] = _build_dapp


def M_decide(c):
    from .terms import decide_basic
    return decide_basic(c)


def dfn(name, args, i):
    a = args[0]
    if name == 'polygamma':
        if i == 1:
            return fn('polygamma', add(args[0], ONE), args[1])
    elif name == 'gammaln':
        return fn('polygamma', ZERO, a)
    elif name == 'sin':
        return fn('cos', a)
    elif name == 'cos':
        return neg(fn('sin', a))
    elif name == 'arctan':
        return div(ONE, add(ONE, mul(a, a)))
    elif name == 'erf':
        return mul(div(TWO, sqrt_(PI)), exp_(neg(mul(a, a))))
    elif name == 'ndtr':
        return div(exp_(neg(div(mul(a, a), TWO))), sqrt_(mul(TWO, PI)))
    elif name == 'ndtri':
        v = fn('ndtri', a)
        return mul(sqrt_(mul(TWO, PI)), exp_(div(mul(v, v), TWO)))
    elif name == 'trirow':
        return ZERO
    elif name == 'f32':
        return ONE
    raise Unsupported('derivative of function %s' % name)


# ------------------------------------------------------------ tracing

_bx = [0]


def new_box(dims, name='bx'):
    _bx[0] += 1
    if dims:
        return mk('arr', '%s%d' % (name, _bx[0]), tuple(dims))
    return mk('v', '%s%d' % (name, _bx[0]))


def plain_value(m, v, every=False):
    """What a tracer holds: the same number, of which the (innermost) differentiation sees nothing."""
    for bx in reversed(m.boxes):
        if not (v if isinstance(v, T) else m.arr(v).term()).fv & {bx}:
            continue
        mp = m.detached.get(bx)
        if mp is None:
            raise Unsupported('value of a tracer')
        c = new_box(bx.a[1] if bx.op == 'arr' else (), 'pv')
        if bx in PROPS:
            PROPS.setdefault(c, set()).update(PROPS[bx])
        mp[c] = mp[bx]
        m.boxvals[c] = mp[bx]
        s = {bx: c if bx.op == 'arr' else atom(c)}
        with using(m.st.ctx):
            v = subst(v, s) if isinstance(v, T) else M.termarr(m, subst(m.arr(v).term(), s))
        if not every:
            break
    return v


def flat_out(m, v):
    """(dims, entry function) of a traced result."""
    v = m.settle(v)
    if isinstance(v, PhiV):
        d1, f1 = flat_out(m, v.a)
        d2, f2 = flat_out(m, v.b)
        if len(d1) != len(d2):
            raise Unsupported('derivative of a result of varying rank')
        c = v.cond
        dims = tuple(ite(c, x, y) for x, y in zip(d1, d2))
        return dims, lambda i: ite(c, f1(i), f2(i))
    if isinstance(v, T):
        if M.isnumT(v):
            return (), lambda i: v
        if v is NONE:
            m.praise('TypeError', 'derivative of a function returning None')
        raise Unsupported('derivative of a non-numeric result')
    if isarr(v):
        a = m.arr(v)
        return a.dims, lambda i: a[i]
    raise Unsupported('derivative of a %s result' % type(v).__name__)


def actual_term(m, x):
    """Value of the differentiated argument: (dims, term or scalar)."""
    x = m.settle(x)
    if isinstance(x, T):
        if not M.isnumT(x):
            m.praise('TypeError', "Can't differentiate w.r.t. this type")
        return (), x
    if isarr(x):
        a = m.arr(x)
        if a.sparse:
            m.praise('TypeError', "Can't differentiate w.r.t. a sparse matrix")
        return a.dims, a.term()
    if isinstance(x, PhiV):
        d, f = flat_out(m, x)
        with using(m.st.ctx):
            return d, lam(d, f)
    raise Unsupported('differentiation with respect to a %s' % type(x).__name__)


def traced(m, f, args, kw, argnum, consume, mode='rev', spec=False):
    """Call f with argument argnum replaced by a tracer; consume(box, dims, entry)
    builds result terms, which are returned with the tracer replaced."""
    if argnum >= len(args):
        m.praise('IndexError', 'argnum out of range')
    dims, act = actual_term(m, args[argnum])
    bx = new_box(dims)
    src = act if not dims else act
    if isinstance(act, T) and act.op == 'Q' and len(act.a[0]) == 1:
        mo = act.a[0][0]
        if mo[1] == 1 and len(mo[0]) == 1 and mo[0][0][1] == 1 and mo[0][0][0] in PROPS:
            PROPS.setdefault(bx, set()).update(p for p in PROPS[mo[0][0][0]])
    if isinstance(act, T) and act.op == 'arr' and act in PROPS:
        PROPS.setdefault(bx, set()).update(PROPS[act])
    m.boxvals[bx] = act
    boxed = atom(bx) if not dims else m.new_array(from_term(bx))
    a2 = list(args)
    a2[argnum] = boxed
    base = m.st
    pc0, ctx0 = base.pc, base.ctx
    old_raised = m.raised
    m.raised = []
    old_boxes = m.boxes
    m.boxes = m.boxes if spec else m.boxes + [bx]
    m.boxmode.append(mode)
    out = None
    alive = True
    mp = {bx: act}
    old_detached = m.__dict__.get('detached', {})
    m.detached = dict(old_detached)
    m.detached[bx] = mp
    try:
        try:
            r = m.call(f, a2, kw)
            od, of = flat_out(m, r)
            with using(m.st.ctx):
                out = consume(bx, od, of)
        except Dead:
            alive = False
    finally:
        m.boxes = old_boxes
        m.boxmode.pop()
        m.detached = old_detached
        coll = m.raised
        m.raised = old_raised
    for r in coll:
        with using(ROOT):
            c = subst(r.cond, mp)
        if restrict(c, ctx0) is FALSE:
            continue
        if c is FALSE:
            continue
        if r.state is not None:
            r.state.pc = c
            r.state.ctx = assume_ctx(ctx0, c)
            if inconsistent(r.state.ctx):
                continue
        m.raised.append(type(r)(c, r.exc, r.loc, r.state))
    if not alive:
        raise Dead()
    pc1 = m.st.pc
    if pc1 is not pc0:
        with using(ROOT):
            pc2 = subst(pc1, mp)
        m.st.pc = pc2
        m.st.ctx = assume_ctx(ctx0, pc2) if pc2 is not TRUE else ctx0
        if pc2 is FALSE:
            raise Dead()
    else:
        m.st.ctx = ctx0
    with using(m.st.ctx):
        return [(tuple(restrict(subst(d, mp)) for d in ds), restrict(subst(t, mp)) if t is not None else None)
                for ds, t in out]


def emit(m, dims, t):
    if not dims:
        return t
    return M.termarr(m, t)


def jac_terms(bx, bdims, od, of):
    """Term of the Jacobian: dims out + in."""
    dims = tuple(od) + tuple(bdims)
    no = len(od)

    def entry(idx):
        oi, ii = idx[:no], idx[no:]

        def tan(j):
            r = ONE
            for a, b in zip(j, ii):
                r = mul(r, ite(eq0(sub(a, b)), ONE, ZERO))
            return r
        return Diff(bx, tan).d(of(oi))
    if not dims:
        return dims, entry(())
    return dims, lam(dims, entry)


def bdims_of(bx):
    return bx.a[1] if bx.op == 'arr' else ()


def split_op(m, f):
    """argnum of a captured operator."""
    return f.cap


@builtin('ad:jacobian')
def _jacobian(m, f, args, kw):
    fun, argnum = f.cap
    r = traced(m, fun, args, kw, argnum, lambda bx, od, of: [jac_terms(bx, bdims_of(bx), od, of)])
    return emit(m, *r[0])


@builtin('ad:grad')
def _grad(m, f, args, kw):
    fun, argnum = f.cap

    def consume(bx, od, of):
        for d in od:
            if d is not ONE:
                m.raise_if(not_(eq0(sub(d, ONE))), 'TypeError', 'Grad only applies to real scalar-output functions.')
        z = tuple(ZERO for _ in od)
        return [jac_terms(bx, bdims_of(bx), (), lambda i: of(z))]
    r = traced(m, fun, args, kw, argnum, consume)
    return emit(m, *r[0])


@builtin('ad:hessian')
def _hessian(m, f, args, kw):
    fun, argnum = f.cap
    return m.call(Builtin('ad:jacobian', Builtin('ad:jacobian', fun, argnum), argnum), args, kw)


@builtin('ad:hvp')
def _hvp(m, f, args, kw):
    fun, argnum = f.cap
    return m.call(Builtin('ad:grad', Builtin('ad:vdg', Builtin('ad:grad', fun, argnum)), argnum), args, kw)


@builtin('ad:vdg')
def _vdg(m, f, args, kw):
    vec = args[-1]
    g = m.call(f.cap[0], args[:-1], kw)
    nd = len(asarr(m, vec).dims)
    return m.call(ExtV('np.tensordot', True), [g, vec, num(nd)], {})


@builtin('ad:tjp')
def _tjp(m, f, args, kw):
    fun, argnum = f.cap
    return m.call(Builtin('ad:jacobian', Builtin('ad:tdf', fun), argnum), args, kw)


@builtin('ad:tdf')
def _tdf(m, f, args, kw):
    vec = args[-1]
    g = m.call(f.cap[0], args[:-1], kw)
    nd = len(asarr(m, vec).dims)
    return m.call(ExtV('np.tensordot', True), [vec, g], {'axes': num(nd)})


@builtin('ad:elementwise_grad')
def _egrad(m, f, args, kw):
    fun, argnum = f.cap

    def consume(bx, od, of):
        return [jac_terms(bx, bdims_of(bx), (), lambda i: nest(od, of))]
    r = traced(m, fun, args, kw, argnum, consume)
    return emit(m, *r[0])


@builtin('ad:value_and_grad')
def _vag(m, f, args, kw):
    fun, argnum = f.cap

    def consume(bx, od, of):
        z = tuple(ZERO for _ in od)
        return [(od, of(()) if not od else lam(od, of)), jac_terms(bx, bdims_of(bx), (), lambda i: of(z))]
    r = traced(m, fun, args, kw, argnum, consume)
    return tup(emit(m, *r[0]), emit(m, *r[1]))


@builtin('ad:make_jvp')
def _make_jvp(m, f, args, kw):
    fun, argnum = f.cap
    return Builtin('ad:jvp', fun, argnum, Tup(items(*args)), tuple(sorted(kw.items())))


@builtin('ad:jvp')
def _jvp(m, f, args, kw):
    fun, argnum, base, bkw = f.cap
    vec = args[0]
    bargs = [s.v for s in base.segs]
    V = asarr(m, vec)

    def consume(bx, od, of):
        bd = bdims_of(bx)
        if len(bd) != len(V.dims):
            m.praise('ValueError', 'tangent of the wrong shape')
        for a, b in zip(bd, V.dims):
            if a is not b:
                m.raise_if(not_(eq0(sub(a, b))), 'ValueError', 'tangent of the wrong shape')
        D = Diff(bx, lambda j: V[j])
        if not od:
            return [(od, of(())), (od, D.d(of(())))]
        return [(od, lam(od, of)), (od, lam(od, lambda i: D.d(of(i))))]
    r = traced(m, fun, bargs, dict(bkw), argnum, consume, 'fwd')
    return tup(emit(m, *r[0]), emit(m, *r[1]))


@builtin('ad:make_vjp')
def _make_vjp(m, f, args, kw):
    fun, argnum = f.cap
    val = m.call(fun, args, kw)
    return tup(Builtin('ad:vjp', fun, argnum, Tup(items(*args)), tuple(sorted(kw.items()))), val)


@builtin('ad:vjp')
def _vjp(m, f, args, kw):
    fun, argnum, base, bkw = f.cap
    G = asarr(m, args[0])
    bargs = [s.v for s in base.segs]

    def consume(bx, od, of):
        return [jac_terms(bx, bdims_of(bx), (), lambda i: nest(od, lambda k: mul(G[k], of(k))))]
    r = traced(m, fun, bargs, dict(bkw), argnum, consume)
    return emit(m, *r[0])


def _operator(name):
    def h(m, a, kw):
        argnum = kw.get('argnum', a[1] if len(a) > 1 else ZERO)
        k = concrete_int(m.settle(argnum))
        if k is None:
            raise Unsupported('symbolic argnum')
        return Builtin(name, a[0], k)
    return h


for _p, _n in (('jacobian', 'ad:jacobian'), ('grad', 'ad:grad'), ('hessian', 'ad:hessian'),
               ('hessian_vector_product', 'ad:hvp'), ('hessian_tensor_product', 'ad:hvp'),
               ('tensor_jacobian_product', 'ad:tjp'), ('vector_jacobian_product', 'ad:tjp'),
               ('elementwise_grad', 'ad:elementwise_grad'), ('value_and_grad', 'ad:value_and_grad'),
               ('make_jvp', 'ad:make_jvp'), ('make_vjp', 'ad:make_vjp')):
    EXT['autograd.' + _p] = EXT['autograd.differential_operators.' + _p] = _operator(_n)


# ------------------------------------------------------------ primitives

def _mkprim(m, a, kw):
    return Builtin('primitive', a[0])


for _p in ('autograd.core.primitive', 'autograd.extend.primitive', 'autograd.tracer.primitive', 'autograd.primitive'):
    EXT[_p] = _mkprim


@builtin('primitive')
def _primitive(m, f, args, kw):
    fun = f.cap[0]
    boxed = [i for i, a in enumerate(args) if M.is_boxed(m, a)]
    if boxed:
        mode = m.boxmode[-1]
        table = m.vjps if mode == 'rev' else m.jvps
        if prim_key(f) not in table:
            m.praise('NotImplementedError', '%s of %r not defined' % ('VJP' if mode == 'rev' else 'JVP', fun))
    bxs = m.boxes
    m.boxes = []
    try:
        return m.call(fun, args, kw)
    finally:
        m.boxes = bxs


def prim_key(f):
    g = f.cap[0]
    while isinstance(g, BoundV):
        g = g.func
    return id(g.node) if isinstance(g, FuncV) else g


def _defvjp(table):
    def h(m, a, kw):
        if not (isinstance(a[0], Builtin) and a[0].name == 'primitive'):
            raise Unsupported('derivative rule for %r' % (a[0],))
        getattr(m, table)[prim_key(a[0])] = (a[0], list(a[1:]), dict(kw))
        return NONE
    return h


for _p in ('autograd.core.', 'autograd.extend.'):
    EXT[_p + 'defvjp'] = _defvjp('vjps')
    EXT[_p + 'defjvp'] = _defvjp('jvps')


# ------------------------------------------------------------ linear operators

def linear_matrix(m, matvec, n_in, n_out):
    """Matrix of a linear map given by a callable."""
    bx = new_box((n_in,), 'lv')
    r = m.call(matvec, [m.new_array(from_term(bx))], {})
    od, of = flat_out(m, r)
    if len(od) == 2:
        o2 = of
        of = lambda i: o2((i[0], ZERO))
    elif len(od) != 1:
        raise Unsupported('matvec result of rank %d' % len(od))
    with using(m.st.ctx):
        t = lam((n_out, n_in), lambda ij: Diff(bx, lambda j: ite(eq0(sub(j[0], ij[1])), ONE, ZERO)).d(of((ij[0],))))
        if bx in t.fv:
            raise Unsupported('operator is not linear')
    return from_term(t)


for _p in ('autograd.tracer.getval', 'autograd.core.getval', 'autograd.extend.getval'):
    EXT[_p] = lambda m, a, kw: plain_value(m, a[0], True)
