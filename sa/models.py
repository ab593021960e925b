"""Semantics of Python builtins, operators and containers over abstract values.

numpy/scipy live in npmodels.py, automatic differentiation in autodiff.py and
the contract intrinsics in contract.py; all register into EXT / BUILTIN here.
"""
import math
from fractions import Fraction

from .terms import *
from .terms import _chk, _lin_in
from .values import *

EXT = {}           # canonical dotted path -> model(m, args, kw, ag)
BUILTIN = {}       # builtin name -> model(m, f, args, kw)
METHODS = {}       # ndarray method name -> model(m, ref, args, kw)
BOX_OK = set(['np.shape', 'np.size', 'np.ndim', 'np.isscalar'])

CONSTS = {
    'np.pi': PI, 'math.pi': PI, 'sp.pi': PI, 'np.inf': INF, 'np.Inf': INF, 'np.infty': INF, 'math.inf': INF,
    'np.e': exp_(ONE), 'math.e': exp_(ONE), 'np.newaxis': NONE,
    'np.float64': const('dtype:float'), 'np.float32': const('dtype:float32'), 'np.float_': const('dtype:float'),
    'np.int64': const('dtype:int'), 'np.int32': const('dtype:int'), 'np.int_': const('dtype:int'),
    'np.float16': const('dtype:float16'), 'np.half': const('dtype:float16'), 'np.single': const('dtype:float32'),
    'np.double': const('dtype:float'), 'np.intp': const('dtype:int'), 'np.int16': const('dtype:int16'),
    'np.int8': const('dtype:int8'), 'np.uint8': const('dtype:uint8'), 'np.uint16': const('dtype:uint16'),
    'np.bool_': const('dtype:bool'), 'np.integer': const('dtype:int'), 'np.floating': const('dtype:float'),
    'numbers.Number': const('class:Number'), 'numbers.Real': const('class:Number'),
    'np.ndarray': const('class:ndarray'), 'numbers.Integral': const('class:Integral'),
}


def setup(m):
    from . import npmodels, autodiff, contract   # noqa: F401 (registration)
    m.boxvals = {}
    m.chol = {}
    m.stubs = {}
    m.bool_summaries = {}
    m.boxmode = []
    m.obls = []
    m.inloop = 0
    m.dimvals = None
    m.dims_used = {}
    m.recent = []


def npmodels_transpose(m, o):
    from . import npmodels
    return npmodels.transpose(m, o, None)


def ext(*paths):
    def d(f):
        for p in paths:
            EXT[p] = f
        return f
    return d


def builtin(*names):
    def d(f):
        for p in names:
            BUILTIN[p] = f
        return f
    return d


def method(*names):
    def d(f):
        for p in names:
            METHODS[p] = f
        return f
    return d


# ------------------------------------------------------------ helpers

def isT(v):
    return isinstance(v, T)


def isnumT(v):
    return isinstance(v, T) and leaf(v).op in ('Q', 'B')


def isarr(v):
    return type(v) is ARef


def isstr(v):
    return isinstance(v, T) and v.op == 'c' and isinstance(v.a[1], str)


def strof(v):
    return v.a[1]


def mixed(v):
    """Gated term whose alternatives have different kinds."""
    if not (isinstance(v, T) and v.op == 'I'):
        return False
    ks = set()

    def go(y, seen=set()):
        if y.op == 'I':
            go(y.a[1])
            go(y.a[2])
        else:
            ks.add(y.op)
    go(v)
    return bool(ks - {'Q'}) and bool(ks - {'B'})


def dist(m, v, f):
    """f over the alternatives of v if it is a gate of unlike things."""
    v = m.settle(v)
    if isinstance(v, PhiV) or mixed(v):
        return m.distribute(v, lambda x: dist(m, x, f))
    return f(v)


def concrete_int(v):
    if isinstance(v, T) and v.op == 'Q' and isnum(v) and numval(v).denominator == 1:
        return int(numval(v))
    if v is TRUE:
        return 1
    if v is FALSE:
        return 0
    return None


def need_int(m, v, what='argument'):
    v = m.settle(v)
    k = concrete_int(v)
    if k is None:
        raise Unsupported('symbolic %s' % what)
    return k


def mkarr(m, dims, f, dtype='f', sparse=False, meta=None):
    """New array object (or a scalar value for rank 0)."""
    dims = tuple(dims)
    if not dims:
        with using(m.st.ctx):
            return restrict(f(()))
    with using(m.st.ctx):
        t = lam(dims, f)
    return termarr(m, t, dtype, sparse, meta)


def termarr(m, t, dtype='f', sparse=False, meta=None):
    if not arr_dims(t):
        return get(t)
    a = from_term(t, dtype=dtype)
    a.sparse = sparse
    a.meta = meta
    return m.new_array(a)


def newarr(m, a):
    if not a.dims:
        with using(m.st.ctx):
            return restrict(a[()])
    return m.new_array(a)


def is_boxed(m, v):
    if not m.boxes:
        return False
    bx = set(m.boxes)
    if isinstance(v, T):
        return bool(v.fv & bx)
    if type(v) is ARef:
        try:
            return bool(m.arr(v).term().fv & bx)
        except Unsupported:
            return False
    if isinstance(v, Tup):
        return any(_seg_boxed(m, s) for s in v.segs)
    if type(v) is LRef:
        c = m.content(v)
        return isinstance(c, Seq) and any(_seg_boxed(m, s) for s in c.segs)
    return False


def _seg_boxed(m, s):
    if isinstance(s, Item):
        return is_boxed(m, s.v)
    if isinstance(s, (For, When)):
        return any(_seg_boxed(m, x) for x in s.segs)
    return False


def box_type_error(m, what):
    m.events.append(('box', m.loc(), what))
    m.praise('TypeError', 'not supported on a traced value: %s' % what)


# ------------------------------------------------------------ strings

def to_str(m, v):
    if isstr(v):
        return v
    if isinstance(v, T) and v.op == 'Q' and isnum(v):
        n = numval(v)
        return const(str(int(n)) if n.denominator == 1 else str(float(n)))
    if v is NONE:
        return const('None')
    if v is TRUE:
        return const('True')
    if v is FALSE:
        return const('False')
    if isinstance(v, Tup):
        vals = m.concrete(v.segs)
        if vals is not None:
            return str_cat([const('(')] + sum([[to_str(m, x), const(', ')] for x in vals], []) + [const(')')])
    if isinstance(v, Inst):
        c = m.content(v)
        if isinstance(c, ObjC):
            f, _ = c.cls.lookup('__str__')
            if f is not None:
                return m.call(BoundV(f, v), [], {})
    if isinstance(v, T):
        return mk('st', v)
    if type(v) is ARef:
        try:
            return mk('st', m.arr(v).term())
        except Unsupported:
            pass
    return mk('st', const(repr(v)))


def str_cat(parts):
    out = []
    for p in parts:
        if p.op == 'st' and len(p.a) > 1:
            out.extend(p.a)
        else:
            out.append(p)
    res = []
    for p in out:
        if isstr(p) and res and isstr(res[-1]):
            res[-1] = const(strof(res[-1]) + strof(p))
        else:
            res.append(p)
    if not res:
        return const('')
    if len(res) == 1:
        return res[0]
    return mk('st', *res)


def isstring(v):
    return isinstance(v, T) and (isstr(v) or v.op == 'st')


def str_method(m, o, name, args, kw):
    if name == 'format':
        parts = [o] + [to_str(m, a) for a in args] + [to_str(m, v) for v in kw.values()]
        if isstr(o) and all(isstr(p) for p in parts) and not kw:
            try:
                return const(strof(o).format(*[strof(p) for p in parts[1:]]))
            except Exception:
                pass
        return str_cat(parts)
    if name == 'join':
        segs = m.iter_segs(args[0])
        vals = m.concrete(segs)
        if vals is None:
            return mk('st', const('join'))
        for v in vals:
            if not isstring(v):
                m.praise('TypeError', 'sequence item: expected str instance')
        parts = []
        for i, v in enumerate(vals):
            if i:
                parts.append(o)
            parts.append(v)
        return str_cat(parts) if parts else const('')
    if all(isstr(a) or concrete_int(a) is not None for a in args) and isstr(o):
        try:
            r = getattr(strof(o), name)(*[strof(a) if isstr(a) else concrete_int(a) for a in args])
        except AttributeError:
            m.praise('AttributeError', "'str' object has no attribute '%s'" % name)
        if isinstance(r, bool):
            return TRUE if r else FALSE
        if isinstance(r, str):
            return const(r)
        if isinstance(r, int):
            return num(r)
        if isinstance(r, list):
            return m.new_list(items(*[const(x) for x in r]))
    if hasattr('', name):
        return mk('st', const(name), o)
    m.praise('AttributeError', "'str' object has no attribute '%s'" % name)


# ------------------------------------------------------------ truth

def truth(m, v):
    v = m.settle(v)
    if isinstance(v, PhiV):
        with using(m.st.ctx):
            return ite(v.cond, truth(m, v.a), truth(m, v.b))
    if isinstance(v, T):
        with using(m.st.ctx):
            return restrict(_truthT(v))
    if type(v) is ARef:
        a = m.arr(v)
        with using(m.st.ctx):
            one = eq0(sub(a.size(), ONE))
        m.raise_if(not_(one), 'ValueError', 'truth value of an array is ambiguous')
        with using(m.st.ctx):
            return restrict(_truthT(a[tuple(ZERO for _ in a.dims)]))
    if isinstance(v, Tup) or type(v) in (LRef, SetRef, DRef):
        with using(m.st.ctx):
            n = length(m, v)
            return restrict(lt0(neg(n)))
    if isinstance(v, Inst):
        c = m.content(v)
        for nm in ('__bool__', '__len__'):
            f, _ = c.cls.lookup(nm)
            if f is not None:
                return truth(m, m.call(BoundV(f, v), [], {}))
        return TRUE
    if isinstance(v, RangeV):
        with using(m.st.ctx):
            return restrict(lt0(neg(length(m, v))))
    if v is UNBOUND:
        m.praise('UnboundLocalError', '')
    if isinstance(v, HavocV):
        raise Unsupported('loop-carried condition')
    return TRUE


def _truthT(v):
    if v.op == 'I':
        return ite(mk('I', v.a[0], TRUE, FALSE), _truthT(v.a[1]), _truthT(v.a[2]))
    if v.op == 'B':
        return v
    if v.op == 'Q':
        return not_(eq0(v))
    if v is NONE:
        return FALSE
    if isstr(v):
        return TRUE if strof(v) else FALSE
    return TRUE


def length(m, v):
    if isinstance(v, T) and isstr(v):
        return num(len(strof(v)))
    if type(v) is ARef:
        a = m.arr(v)
        if not a.dims:
            m.praise('TypeError', 'len() of unsized object')
        return a.dims[0]
    if type(v) is DRef:
        c = m.content(v)
        if isinstance(c, BadC):
            raise Unsupported(c.reason)
        n = ZERO
        for e in c.entries:
            with using(m.st.ctx):
                n = add(n, ONE if isinstance(e, tuple) else ite(e.cond, ONE, ZERO) if isinstance(e, DIf) else sub(e.hi, e.lo))
        return n
    if isinstance(v, Tup) or type(v) in (LRef, SetRef) or isinstance(v, (IterV, RangeV)):
        if isinstance(v, IterV):
            m.praise('TypeError', 'object of type generator has no len()')
        with using(m.st.ctx):
            return m.seg_len(m.iter_segs(v))
    if isinstance(v, Inst):
        f, _ = m.content(v).cls.lookup('__len__')
        if f is not None:
            return m.call(BoundV(f, v), [], {})
    if isinstance(v, PhiV):
        return m.distribute(v, lambda x: length(m, x))
    if isinstance(v, (T, Inst, FuncV)):
        m.praise('TypeError', 'object has no len()')
    raise Unsupported('len of %r' % (v,))


# ------------------------------------------------------------ arithmetic

def asarr(m, v):
    """Array view of a value: Arr."""
    v = m.settle(v)
    if isinstance(v, T):
        if leaf(v).op == 'B':
            return Arr((), lambda i: v, dtype='b')
        if leaf(v).op == 'Q':
            with using(m.st.ctx):
                return Arr((), lambda i: v, dtype='i' if v.op == 'Q' and is_int(v) else 'f')
        raise Unsupported('array of %s' % show(v))
    if type(v) is ARef:
        return m.arr(v)
    if isinstance(v, (Tup, RangeV, IterV)) or type(v) is LRef:
        from .npmodels import seq_to_arr
        return seq_to_arr(m, v)
    if isinstance(v, PhiV):
        a, b = asarr(m, v.a), asarr(m, v.b)
        c = m.merge_arr(v.cond, a, b) if len(a.dims) == len(b.dims) else None
        if isinstance(c, Arr):
            return c
        raise Unsupported('array of gated %r' % (v,))
    raise Unsupported('array of %r' % (v,))


def bdims(m, da, db):
    """Broadcast two shapes: (dims, index maps)."""
    n = max(len(da), len(db))
    A = (None,) * (n - len(da)) + tuple(da)
    B = (None,) * (n - len(db)) + tuple(db)
    out, sa, sb = [], [], []
    for x, y in zip(A, B):
        if x is None:
            out.append(y); sa.append(None); sb.append(1)
        elif y is None:
            out.append(x); sa.append(1); sb.append(None)
        else:
            x, y = m.settle(x), m.settle(y)
            if x is y:
                out.append(x); sa.append(1); sb.append(1)
            elif x is ONE:
                out.append(y); sa.append(0); sb.append(1)
            elif y is ONE:
                out.append(x); sa.append(1); sb.append(0)
            else:
                with using(m.st.ctx):
                    e = restrict(eq0(sub(x, y)))
                    if e is TRUE:
                        out.append(x); sa.append(1); sb.append(1)
                        continue
                    x1 = restrict(eq0(sub(x, ONE)))
                    y1 = restrict(eq0(sub(y, ONE)))
                    ok = or_(e, or_(x1, y1))
                m.raise_if(not_(ok), 'ValueError', 'operands could not be broadcast together')
                with using(m.st.ctx):
                    e = restrict(e)
                    x1, y1 = restrict(x1), restrict(y1)
                    if e is TRUE or (x1 is FALSE and y1 is FALSE):
                        out.append(x); sa.append(1); sb.append(1)
                    elif y1 is FALSE and x1 is TRUE:
                        out.append(y); sa.append(0); sb.append(1)
                    elif x1 is FALSE and y1 is TRUE:
                        out.append(x); sa.append(1); sb.append(0)
                    else:
                        out.append(ite(x1, y, x))
                        sa.append(not_(x1))
                        sb.append(not_(y1))
    return tuple(out), tuple(sa), tuple(sb)


def bidx(sel, idx):
    r = []
    for s, i in zip(sel, idx):
        if s is None:
            continue
        if s == 1 and not isinstance(s, T):
            r.append(i)
        elif s == 0 and not isinstance(s, T):
            r.append(ZERO)
        else:
            r.append(ite(s, i, ZERO))
    return tuple(r)


def _dt(op, a, b):
    if op == 'Div':
        return 'f'
    if a == 'b' and b == 'b' and op in ('BitAnd', 'BitOr', 'BitXor'):
        return 'b'
    if a in ('i', 'b') and b in ('i', 'b'):
        return 'i'
    return 'f'


def scalar_op(op):
    def bool_(f):
        def g(x, y):
            if is_bool(x) and is_bool(y):
                return f(x, y)
            raise Unsupported('bit operation on numbers')
        return g
    return {
        'Add': lambda x, y: add(b2n(x), b2n(y)),
        'Sub': lambda x, y: sub(b2n(x), b2n(y)),
        'Mult': lambda x, y: mul(b2n(x), b2n(y)),
        'Div': lambda x, y: div(b2n(x), b2n(y)),
        'Pow': lambda x, y: power(b2n(x), b2n(y)),
        'FloorDiv': lambda x, y: floordiv(b2n(x), b2n(y)),
        'Mod': lambda x, y: mod(b2n(x), b2n(y)),
        'BitAnd': bool_(and_), 'BitOr': bool_(or_),
        'BitXor': bool_(lambda x, y: ite(x, not_(y), y)),
    }.get(op)


_DUNDER = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
           'Div': ('__truediv__', '__rtruediv__'), 'MatMult': ('__matmul__', '__rmatmul__'),
           'Pow': ('__pow__', '__rpow__')}


def binop(m, op, a, b):
    a, b = m.settle(a), m.settle(b)
    if isinstance(a, PhiV) or mixed(a):
        return m.distribute(a, lambda x: binop(m, op, x, b))
    if isinstance(b, PhiV) or mixed(b):
        return m.distribute(b, lambda x: binop(m, op, a, x))
    if isnumT(a) and isnumT(b):
        f = scalar_op(op)
        if f is None:
            raise Unsupported('operator %s' % op)
        if op in ('FloorDiv', 'Mod', 'Div'):
            with using(m.st.ctx):
                z = restrict(eq0(b2n(b)))
            if z is TRUE and not is_boxed(m, a):
                m.praise('ZeroDivisionError', 'division by zero')
        with using(m.st.ctx):
            return restrict(f(a, b))
    if isinstance(a, Inst) or isinstance(b, Inst):
        d = _DUNDER.get(op)
        if d:
            if isinstance(a, Inst):
                f, _ = m.content(a).cls.lookup(d[0])
                if f is not None:
                    return m.call(BoundV(f, a), [b], {})
            if isinstance(b, Inst):
                f, _ = m.content(b).cls.lookup(d[1])
                if f is not None:
                    return m.call(BoundV(f, b), [a], {})
        m.praise('TypeError', 'unsupported operand type(s)')
    if isstring(a) or isstring(b):
        if op == 'Add':
            if isstring(a) and isstring(b):
                return str_cat([a, b])
            m.praise('TypeError', 'can only concatenate str to str')
        if op == 'Mod' and isstring(a):
            if isstr(a):
                import re
                vals = m.concrete(b.segs) if isinstance(b, Tup) else [b]
                parts = re.split('(%[sdir%])', strof(a))
                if vals is not None and '%' not in ''.join(parts[::2]) and \
                        len([x for x in parts[1::2] if x != '%%']) == len(vals):
                    vals = list(vals)
                    return str_cat([const(x) if k % 2 == 0 else const('%') if x == '%%' else to_str(m, vals.pop(0))
                                    for k, x in enumerate(parts) if x])
            return str_cat([a, to_str(m, b)])
        if op == 'Mult':
            k = concrete_int(b)
            if isstr(a) and k is not None:
                return const(strof(a) * k)
            return mk('st', a)
        m.praise('TypeError', 'unsupported operand type(s) for str')
    if type(a) is LRef and type(b) is LRef and op == 'Add':
        return m.new_list(tuple(m.iter_segs(a)) + tuple(m.iter_segs(b)))
    if isinstance(a, Tup) and isinstance(b, Tup) and op == 'Add':
        return Tup(a.segs + b.segs)
    if op == 'Mult' and (type(a) is LRef or isinstance(a, Tup) or type(b) is LRef or isinstance(b, Tup)) and \
            (isnumT(a) or isnumT(b)):
        if isnumT(a):
            a, b = b, a
        return repeat_seq(m, a, b)
    if type(a) is SetRef and type(b) is SetRef:
        return set_op(m, op, a, b)
    if type(a) in (LRef, DRef, SetRef) and type(b) in (LRef, DRef, SetRef) or isinstance(a, Tup) and isinstance(b, (Tup, LRef)):
        m.praise('TypeError', 'unsupported operand type(s)')
    if a is NONE or b is NONE:
        m.praise('TypeError', "unsupported operand type(s): 'NoneType'")
    if isinstance(a, (FuncV, BoundV, Builtin)) or isinstance(b, (FuncV, BoundV, Builtin)):
        m.praise('TypeError', 'unsupported operand type(s): function')
    if (isinstance(a, ExtObj) and a.path == 'LinearOperator') or (isinstance(b, ExtObj) and b.path == 'LinearOperator'):
        raise Unsupported('LinearOperator arithmetic')
    if isarr(a) or isarr(b):
        return arr_binop(m, op, a, b)
    raise Unsupported('%s of %r and %r' % (op, a, b))


def repeat_seq(m, s, n):
    segs = m.iter_segs(s)
    k = concrete_int(m.settle(n))
    if k is not None and k <= 16:
        segs = tuple(segs) * max(k, 0)
    else:
        with using(m.st.ctx):
            nn = n if restrict(le0(neg(n))) is TRUE else max_(n, ZERO)
        v = fresh_index(ZERO, nn)
        segs = (For(v, ZERO, nn, segs),)
    return Tup(segs) if isinstance(s, Tup) else m.new_list(segs)


def set_op(m, op, a, b):
    xs, ys = m.concrete(m.iter_segs(a)), m.concrete(m.iter_segs(b))
    if xs is None or ys is None:
        raise Unsupported('set operation')
    if not all(isinstance(x, T) and (x.op == 'c' or isnum(x)) for x in xs + ys):
        raise Unsupported('set operation on symbolic elements')
    if op == 'BitOr':
        r = list(xs) + [y for y in ys if y not in xs]
    elif op == 'BitAnd':
        r = [x for x in xs if x in ys]
    elif op == 'Sub':
        r = [x for x in xs if x not in ys]
    elif op == 'BitXor':
        r = [x for x in xs if x not in ys] + [y for y in ys if y not in xs]
    else:
        m.praise('TypeError', 'set operand')
    return m.alloc(Seq(items(*r)), SetRef)


def arr_binop(m, op, a, b):
    from . import npmodels as N
    A, B = asarr(m, a), asarr(m, b)
    if (A.sparse and is_boxed(m, b)) or (B.sparse and is_boxed(m, a)):
        box_type_error(m, 'sparse matrix operation')
    ismat = any(x.meta and x.meta.get('matrix') for x in (A, B))
    if op == 'MatMult' or (op == 'Mult' and (A.sparse or B.sparse or ismat) and A.dims and B.dims):
        r = N.matmul(m, A, B)
        if A.sparse and B.sparse and isarr(r):
            c = m.arr(r)
            c.sparse = True
        if ismat and isarr(r):
            _setmeta(m, r, matrix=True)
        return r
    if A.sparse and not B.dims and op in ('Add', 'Sub') or (B.sparse and not A.dims and op in ('Add', 'Sub')):
        s = b if not B.dims else a
        if isinstance(s, T) and s is ZERO:
            return newarr(m, Arr(A.dims or B.dims, (A if A.dims else B).fn, sparse=True))
        m.praise('NotImplementedError', 'adding a nonzero scalar to a sparse matrix is not supported')
    f = scalar_op(op)
    if f is None:
        raise Unsupported('array operator %s' % op)
    if A.sparse and B.sparse or (A.sparse or B.sparse) and op in ('Add', 'Sub'):
        if len(A.dims) == 2 and len(B.dims) == 2:
            for x, y in zip(A.dims, B.dims):
                with using(m.st.ctx):
                    bad = not_(eq0(sub(x, y)))
                m.raise_if(bad, 'ValueError', 'inconsistent shapes')
    dims, sa, sb = bdims(m, A.dims, B.dims)
    if A.sparse and B.sparse:
        sparse = op in ('Add', 'Sub')
    else:
        sparse = (A.sparse or B.sparse) and op in ('Mult', 'Div') and (not A.dims or not B.dims)
    dt = _dt(op, A.dtype, B.dtype)
    return mkarr(m, dims, lambda i: f(A[bidx(sa, i)], B[bidx(sb, i)]), dtype=dt, sparse=sparse,
                 meta={'matrix': True} if (ismat or ((A.sparse != B.sparse) and op in ('Add', 'Sub'))) else None)


def _setmeta(m, ref, **kw):
    c = m.st.heap[ref.oid]
    meta = dict(c.meta or {})
    meta.update(kw)
    m.st.heap[ref.oid] = Arr(c.dims, c.fn, c.dtype, c.sparse, c._t, meta)
    return ref


# ------------------------------------------------------------ comparison

def num_compare(op, a, b):
    a, b = b2n(a), b2n(b)
    if a is b:
        return TRUE if op in ('Eq', 'LtE', 'GtE') else FALSE
    if op == 'Eq':
        return eq0(sub(a, b))
    if op == 'NotEq':
        return not_(eq0(sub(a, b)))
    if op == 'LtE':
        return le0(sub(a, b))
    if op == 'Lt':
        return lt0(sub(a, b))
    if op == 'GtE':
        return le0(sub(b, a))
    if op == 'Gt':
        return lt0(sub(b, a))
    raise Unsupported('compare %s' % op)


def identical(m, a, b):
    if isinstance(a, T) and isinstance(b, T):
        if a is b and (a.op in ('c', 'B')):
            return TRUE
        if NONE is a or NONE is b:
            return TRUE if a is b else FALSE
        if is_bool(a) and is_bool(b):
            with using(m.st.ctx):
                return restrict(ite(a, b, not_(b)))
        if a.op != b.op and a.op != 'I' and b.op != 'I':
            return FALSE
        raise Unsupported('identity of numbers')
    if isinstance(a, ARef) and isinstance(b, ARef):
        return TRUE if a == b else FALSE
    if isinstance(a, T) or isinstance(b, T):
        return FALSE
    return TRUE if a == b else FALSE


def compare(m, op, a, b):
    a, b = m.settle(a), m.settle(b)
    if isinstance(a, PhiV) or mixed(a):
        return m.distribute(a, lambda x: compare(m, op, x, b))
    if isinstance(b, PhiV) or mixed(b):
        return m.distribute(b, lambda x: compare(m, op, a, x))
    if op == 'Is':
        return identical(m, a, b)
    if op == 'IsNot':
        return not_(identical(m, a, b))
    if op == 'In':
        return contains(m, b, a)
    if op == 'NotIn':
        with using(m.st.ctx):
            return not_(truth(m, contains(m, b, a)))
    if isnumT(a) and isnumT(b):
        with using(m.st.ctx):
            return restrict(num_compare(op, a, b))
    if isarr(a) or isarr(b):
        if isinstance(a, (ExtV, FuncV, ClassV)) or isinstance(b, (ExtV, FuncV, ClassV)) or \
                a is NONE or b is NONE or isstring(a) or isstring(b):
            if op in ('Eq', 'NotEq'):
                return FALSE if op == 'Eq' else TRUE
            m.praise('TypeError', 'comparison')
        A, B = asarr(m, a), asarr(m, b)
        dims, sa, sb = bdims(m, A.dims, B.dims)
        return mkarr(m, dims, lambda i: num_compare(op, A[bidx(sa, i)], B[bidx(sb, i)]), dtype='b')
    if op in ('Eq', 'NotEq'):
        r = values_equal(m, a, b)
        with using(m.st.ctx):
            return restrict(r if op == 'Eq' else not_(r))
    if isinstance(a, Tup) and isinstance(b, Tup):
        raise Unsupported('tuple ordering')
    if isstr(a) and isstr(b):
        x, y = strof(a), strof(b)
        r = {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
        return TRUE if r else FALSE
    m.praise('TypeError', 'unorderable types')


def values_equal(m, a, b):
    """== as a boolean value."""
    if isinstance(a, T) and isinstance(b, T):
        if isnumT(a) and isnumT(b):
            with using(m.st.ctx):
                return num_compare('Eq', a, b)
        if a is b:
            return TRUE
        if a.op == 'st' or b.op == 'st':
            if isstring(a) and isstring(b):
                raise Unsupported('string comparison')
            return FALSE
        return FALSE
    sa, sb = None, None
    if isinstance(a, Tup) and isinstance(b, Tup) or (type(a) is LRef and type(b) is LRef):
        sa, sb = m.iter_segs(a), m.iter_segs(b)
        xs, ys = m.concrete(sa), m.concrete(sb)
        if xs is None or ys is None:
            if sa == sb:
                return TRUE
            return segs_equal(m, list(sa), list(sb))
        if len(xs) != len(ys):
            return FALSE
        r = TRUE
        for x, y in zip(xs, ys):
            with using(m.st.ctx):
                r = and_(r, truth(m, compare(m, 'Eq', x, y)))
        return r
    if isinstance(a, RangeV) and isinstance(b, RangeV):
        with using(m.st.ctx):
            return and_(num_compare('Eq', a.start, b.start),
                        and_(num_compare('Eq', a.stop, b.stop), num_compare('Eq', a.step, b.step)))
    if type(a) is SetRef and type(b) is SetRef:
        xs, ys = m.concrete(m.iter_segs(a)), m.concrete(m.iter_segs(b))
        if xs is not None and ys is not None and all(isinstance(x, T) and (x.op == 'c' or isnum(x)) for x in xs + ys):
            return TRUE if set(xs) == set(ys) else FALSE
        raise Unsupported('set comparison')
    if type(a) is DRef and type(b) is DRef:
        ca, cb = m.content(a), m.content(b)
        ka = {e[0]: e[1] for e in ca.entries if isinstance(e, tuple)}
        kb = {e[0]: e[1] for e in cb.entries if isinstance(e, tuple)}
        if len(ka) != len(ca.entries) or len(kb) != len(cb.entries):
            raise Unsupported('dict comparison')
        if set(ka) != set(kb):
            return FALSE
        r = TRUE
        for k in ka:
            with using(m.st.ctx):
                r = and_(r, truth(m, compare(m, 'Eq', ka[k], kb[k])))
        return r
    if isinstance(a, Inst):
        f, _ = m.content(a).cls.lookup('__eq__')
        if f is not None:
            return truth(m, m.call(BoundV(f, a), [b], {}))
        return TRUE if a == b else FALSE
    if type(a) is not type(b):
        return FALSE
    return TRUE if a == b else FALSE


def segs_equal(m, sa, sb):
    """Equality of sequences with one family of numbers at the end, after as many single items."""
    r = TRUE
    while sa and sb and isinstance(sa[0], Item) and isinstance(sb[0], Item):
        with using(m.st.ctx):
            r = and_(r, truth(m, compare(m, 'Eq', sa[0].v, sb[0].v)))
        if r is FALSE:
            return FALSE
        sa, sb = sa[1:], sb[1:]
    try:
        A, B = asarr(m, Tup(tuple(sa))), asarr(m, Tup(tuple(sb)))
    except (Unsupported, TypeError, AttributeError):
        raise Unsupported('comparison of symbolic sequences')
    if len(A.dims) != 1 or len(B.dims) != 1:
        raise Unsupported('comparison of symbolic sequences')
    with using(m.st.ctx):
        same = eq0(sub(A.dims[0], B.dims[0]))
        return restrict(and_(r, and_(same, forall(A.dims, lambda i: eq0(sub(A[i], B[i]))))))


def contains(m, c, x):
    if isinstance(c, PhiV):
        return m.distribute(c, lambda y: contains(m, y, x))
    if isstr(c) and isstr(x):
        return TRUE if strof(x) in strof(c) else FALSE
    if type(c) is DRef:
        r = FALSE
        d = m.content(c)
        if isinstance(d, BadC):
            raise Unsupported(d.reason)
        for e in d.entries:
            with using(m.st.ctx):
                if isinstance(e, DIf):
                    r = or_(r, and_(e.cond, truth(m, values_equal(m, e.key, x))))
                elif isinstance(e, tuple):
                    r = or_(r, truth(m, values_equal(m, e[0], x)))
                else:
                    raise Unsupported('membership in a symbolic dict')
        return r
    if isinstance(c, Inst):
        f, _ = m.content(c).cls.lookup('__contains__')
        if f is not None:
            return m.call(BoundV(f, c), [x], {})
    if isinstance(c, RangeV) and isnumT(x):
        with using(m.st.ctx):
            if c.step is ONE:
                return restrict(and_(le0(sub(c.start, x)), lt0(sub(x, c.stop))))
    vals = m.concrete(m.iter_segs(c))
    if vals is None:
        raise Unsupported('membership in a symbolic sequence')
    r = FALSE
    for v in vals:
        if v is x or (type(v) is type(x) and v == x):
            return TRUE
        e = truth(m, compare(m, 'Eq', v, x))
        with using(m.st.ctx):
            r = or_(r, e)
    return r


# ------------------------------------------------------------ subscripts

def norm_index(m, i, n, what='index'):
    """Python index i for an axis of length n -> nonnegative index value."""
    with using(m.st.ctx):
        i = b2n(i) if is_bool(i) else i
        ng = restrict(lt0(i))
        j = restrict(ite(ng, add(i, n), i))
        bad = restrict(or_(lt0(j), le0(sub(n, j))))
    m.raise_if(bad, 'IndexError', '%s out of range' % what)
    return j


def slice_bounds(m, s, n):
    """(start, length, step) of slice s on an axis of length n."""
    st = m.settle(s.step)
    st = ONE if st is NONE else st
    if not isnum(st):
        raise Unsupported('symbolic slice step')
    k = int(numval(st))
    a, b = m.settle(s.start), m.settle(s.stop)

    def clampv(x):
        with using(m.st.ctx):
            x = restrict(x)
            x = restrict(ite(lt0(x), max_(add(x, n), ZERO), x))
            return restrict(min_(x, n))
    if k > 0:
        lo = ZERO if a is NONE else clampv(a)
        hi = n if b is NONE else clampv(b)
        with using(m.st.ctx):
            ln = sub(hi, lo)
            if k != 1:
                ln = floordiv(add(ln, num(k - 1)), num(k))
            ln = restrict(ite(lt0(ln), ZERO, ln))
        return lo, ln, num(k)
    if a is NONE and b is NONE and k == -1:
        with using(m.st.ctx):
            return sub(n, ONE), n, num(-1)
    raise Unsupported('negative slice step')


def getitem(m, o, i):
    o = m.settle(o)
    if isinstance(o, PhiV):
        return m.distribute(o, lambda x: getitem(m, x, i))
    if isinstance(i, T):
        i = m.settle(i)
    if isinstance(i, PhiV) or (isinstance(i, T) and mixed(i)):
        return m.distribute(i, lambda x: getitem(m, o, x))
    if isarr(o):
        from . import npmodels as N
        return N.arr_getitem(m, o, i)
    if type(o) is DRef:
        return dict_get(m, o, i, None)
    if isinstance(o, Inst):
        f, _ = m.content(o).cls.lookup('__getitem__')
        if f is None:
            m.praise('TypeError', 'object is not subscriptable')
        return m.call(BoundV(f, o), [i], {})
    if isinstance(o, Tup) or type(o) is LRef or isinstance(o, RangeV):
        if isinstance(i, SliceV):
            return seq_slice(m, o, i)
        if isinstance(i, T) and isnumT(i):
            return seq_get(m, o, i)
        if isarr(i) and not m.arr(i).dims:
            return seq_get(m, o, asarr(m, i)[()])
        m.praise('TypeError', 'list indices must be integers or slices')
    if isstr(o):
        k = concrete_int(i) if isinstance(i, T) else None
        if k is not None:
            if -len(strof(o)) <= k < len(strof(o)):
                return const(strof(o)[k])
            m.praise('IndexError', 'string index out of range')
        if isinstance(i, SliceV):
            f = lambda x: None if x is NONE else need_int(m, x)
            return const(strof(o)[f(i.start):f(i.stop):f(i.step)])
    if isinstance(o, T) and isnumT(o):
        if isinstance(i, Tup) and not i.segs:
            return o
        if i is NONE or i is ELLIPSIS or (isinstance(i, Tup)):
            from . import npmodels as N
            return N.arr_getitem(m, m.new_array(Arr((), lambda _: o)), i)
        m.praise('TypeError', "'float' object is not subscriptable")
    if isinstance(o, ExtObj):
        for k, v in o.attrs:
            if isinstance(i, T) and isstr(i) and k == strof(i):
                return v
    if o is NONE:
        m.praise('TypeError', "'NoneType' object is not subscriptable")
    if isinstance(o, (FuncV, BoundV, Builtin)):
        m.praise('TypeError', 'object is not subscriptable')
    raise Unsupported('subscript of %r' % (o,))


def seq_get(m, o, i):
    if isinstance(o, RangeV):
        with using(m.st.ctx):
            n = m.seg_len(m.iter_segs(o))
        j = norm_index(m, i, n)
        with using(m.st.ctx):
            return add(o.start, mul(j, o.step))
    segs = m.iter_segs(o)
    k = concrete_int(i)
    if k is not None:
        # from the front or the back over concrete segments
        vals = m.concrete(segs)
        if vals is not None:
            if -len(vals) <= k < len(vals):
                return vals[k]
            m.praise('IndexError', 'list index out of range')
        if k >= 0:
            pre = []
            for s in segs:
                if not isinstance(s, Item):
                    break
                pre.append(s.v)
            if k < len(pre):
                return pre[k]
        else:
            suf = []
            for s in reversed(segs):
                if not isinstance(s, Item):
                    break
                suf.append(s.v)
            if -k <= len(suf):
                return suf[-k - 1]
    with using(m.st.ctx):
        n = m.seg_len(segs)
    j = norm_index(m, i, n, 'list index')
    return seg_at(m, segs, j)


def seg_at(m, segs, j):
    """Element j (known in range) of a segment list."""
    if not segs:
        raise Dead()
    s = segs[0]
    rest = segs[1:]
    with using(m.st.ctx):
        n = m.seg_len((s,))

    def here():
        if isinstance(s, Item):
            return s.v
        if isinstance(s, When):
            return seg_at(m, s.segs, j)
        if isinstance(s, For):
            with using(m.st.ctx):
                k = m.seg_len(s.segs)
                if s.var in k.fv:
                    raise Unsupported('element of a ragged comprehension')
                q, r = floordiv(j, k), mod(j, k)
            inner = m.subst_segs(s.segs, {s.var: add(s.lo, q)})
            return seg_at(m, inner, r)
        raise Unsupported('element of %r' % (s,))
    if not rest:
        return here()
    with using(m.st.ctx):
        c = restrict(lt0(sub(j, n)))

    def there():
        with using(m.st.ctx):
            j2 = restrict(sub(j, n))
        return seg_at(m, rest, j2)
    return m.branch(c, here, there)


def seq_slice(m, o, s):
    segs = m.iter_segs(o)
    vals = m.concrete(segs)
    f = lambda x: None if m.settle(x) is NONE else concrete_int(m.settle(x))
    if vals is not None:
        try:
            a, b, st = [None if m.settle(x) is NONE else need_int(m, x) for x in (s.start, s.stop, s.step)]
        except Unsupported:
            a = b = st = False
        if a is not False:
            r = items(*vals[a:b:st])
            return Tup(r) if isinstance(o, Tup) else m.new_list(r)
    if isinstance(o, RangeV) and o.step is ONE:
        with using(m.st.ctx):
            n = m.seg_len(segs)
        lo, ln, st = slice_bounds(m, s, n)
        if st is ONE:
            with using(m.st.ctx):
                a = add(o.start, lo)
                return RangeV(a, add(a, ln), ONE)
    with using(m.st.ctx):
        n = m.seg_len(segs)
    lo, ln, st = slice_bounds(m, s, n)
    v = fresh_index(ZERO, ln)
    with using(m.st.ctx):
        it = add(lo, mul(st, atom(v)))
    el = seg_at(m, segs, it)
    r = (For(v, ZERO, ln, (Item(el),)),)
    return Tup(r) if isinstance(o, Tup) else m.new_list(r)


def key_of(m, k):
    if isinstance(k, T) and (k.op == 'c' or (k.op == 'Q') or k.op in ('B', 'st')):
        return k
    if isinstance(k, (Tup, FuncV, BoundV, ClassV, Builtin, ExtV)):
        return k
    if isinstance(k, Inst):
        return k
    if type(k) in (LRef, DRef, SetRef, ARef):
        m.praise('TypeError', 'unhashable type')
    raise Unsupported('dict key %r' % (k,))


def dict_find(m, d, k):
    """[(cond, value)], definite: entries that may match k."""
    c = m.content(d)
    if isinstance(c, Frozen):
        c = c.content
    if isinstance(c, BadC):
        raise Unsupported(c.reason)
    out = []
    for n, e in enumerate(c.entries):
        if isinstance(e, tuple):
            r = truth(m, values_equal(m, e[0], k))
            if r is TRUE:
                return [(TRUE, e[1], n)]
            if r is not FALSE:
                out.append((r, e[1], n))
        elif isinstance(e, DIf):
            with using(m.st.ctx):
                r = restrict(and_(e.cond, truth(m, values_equal(m, e.key, k))))
            if r is TRUE:
                return [(TRUE, e.val, n)]
            if r is not FALSE:
                out.append((r, e.val, n))
        elif isinstance(e, PhiSeg):
            raise Unsupported('loop-carried dict read')
        else:
            # entry family key(var) -> val(var)
            if isinstance(e.key, T) and e.key.op == 'Q' and isnumT(k):
                lr = _lin_in(e.key, e.var)
                if lr is not None and abs(lr[0]) == 1:
                    with using(m.st.ctx):
                        w = mul(num(1 / lr[0]), sub(k, lr[1]))
                        r = restrict(and_(le0(sub(e.lo, w)), lt0(sub(w, e.hi))))
                    if r is FALSE:
                        continue
                    v = m.subst_val(e.val, {e.var: w})
                    out.append((r, v, n))
                    if r is TRUE:
                        return [(TRUE, v, n)]
                    continue
            raise Unsupported('lookup in a symbolic dict')
    return out


def dict_get(m, d, k, default):
    """d[k]; default None means KeyError."""
    k = key_of(m, k)
    found = dict_find(m, d, k)

    def go(i):
        if i == len(found):
            if default is None:
                m.praise('KeyError', show(k) if isinstance(k, T) else '')
            return default
        c, v, _ = found[i]
        return m.branch(c, lambda: v, lambda: go(i + 1))
    return m.settle(go(0))


def setitem(m, o, i, v):
    o = m.settle(o)
    if isinstance(o, PhiV):
        return m.distribute(o, lambda x: setitem(m, x, i, v))
    if isarr(o):
        from . import npmodels as N
        return N.arr_setitem(m, o, i, v)
    if type(o) is DRef:
        k = key_of(m, i)
        c = m.content(o)
        found = dict_find(m, o, k)
        if not found:
            m.setc(o, DictC(c.entries + ((k, v),)))
            return
        if len(found) == 1 and found[0][0] is TRUE and isinstance(c.entries[found[0][2]], tuple):
            n = found[0][2]
            m.setc(o, DictC(c.entries[:n] + ((c.entries[n][0], v),) + c.entries[n + 1:]))
            return
        if all(isinstance(c.entries[n], (tuple, DIf)) for _, _, n in found):
            es = list(c.entries)
            none = TRUE
            for r, old, n in found:
                e = es[n]
                w = m.merge_val(r, v, old)
                es[n] = (e[0], w) if isinstance(e, tuple) else DIf(e.cond, e.key, w)
                with using(m.st.ctx):
                    none = and_(none, not_(r))
            with using(m.st.ctx):
                none = restrict(none)
            if none is not FALSE:
                es.append(DIf(none, k, v) if none is not TRUE else (k, v))
            m.setc(o, DictC(es))
            return
        raise Unsupported('store to a possibly matching dict key')
    if type(o) is LRef:
        c = m.content(o)
        if isinstance(c, BadC):
            raise Unsupported(c.reason)
        segs = m.iter_segs(o)
        vals = m.concrete(segs)
        k = concrete_int(m.settle(i)) if isinstance(i, T) else None
        if vals is not None and k is not None:
            if not -len(vals) <= k < len(vals):
                m.praise('IndexError', 'list assignment index out of range')
            vals = list(vals)
            vals[k] = v
            m.setc(o, Seq(items(*vals)))
            return
        raise Unsupported('list element store')
    if isinstance(o, Inst):
        f, _ = m.content(o).cls.lookup('__setitem__')
        if f is None:
            m.praise('TypeError', 'object does not support item assignment')
        m.call(BoundV(f, o), [i, v], {})
        return
    if isinstance(o, (Tup, T, RangeV)):
        m.praise('TypeError', 'object does not support item assignment')
    raise Unsupported('item store on %r' % (o,))


def delitem(m, o, i):
    if type(o) is DRef:
        k = key_of(m, i)
        found = dict_find(m, o, k)
        c = m.content(o)
        if not found:
            m.praise('KeyError', '')
        if len(found) == 1 and found[0][0] is TRUE:
            n = found[0][2]
            m.setc(o, DictC(c.entries[:n] + c.entries[n + 1:]))
            return
        raise Unsupported('del of a possibly matching key')
    if type(o) is LRef:
        vals = m.concrete(m.iter_segs(o))
        if vals is not None and isinstance(i, SliceV):
            f = lambda x: None if x is NONE else need_int(m, x)
            vals = list(vals)
            del vals[f(i.start):f(i.stop):f(i.step)]
            m.setc(o, Seq(items(*vals)))
            return
        k = concrete_int(m.settle(i)) if isinstance(i, T) else None
        if vals is not None and k is not None:
            if not -len(vals) <= k < len(vals):
                m.praise('IndexError', 'list index out of range')
            vals = list(vals)
            del vals[k]
            m.setc(o, Seq(items(*vals)))
            return
    raise Unsupported('del')


# ------------------------------------------------------------ attributes of plain values

LIST_METHODS = set('append extend insert pop remove index count sort reverse copy clear'.split())
DICT_METHODS = set('keys values items get pop update setdefault copy clear popitem move_to_end'.split())
SET_METHODS = set('add union intersection difference issubset issuperset update discard remove'.split())


def value_attr(m, o, name):
    if isarr(o) or (isinstance(o, T) and isnumT(o)):
        from . import npmodels as N
        if name in ('_value', '_node', '_trace') and is_boxed(m, o):
            if name != '_value':
                raise Unsupported('attribute %s of a tracer' % name)
            from . import autodiff
            return autodiff.plain_value(m, o)
        return N.arr_attr(m, o, name)
    if type(o) is LRef:
        if name in LIST_METHODS:
            return Builtin('list:' + name, o)
        return None
    if type(o) is DRef:
        if name in DICT_METHODS:
            return Builtin('dict:' + name, o)
        return None
    if type(o) is SetRef:
        if name in SET_METHODS:
            return Builtin('set:' + name, o)
        return None
    if isinstance(o, Tup):
        if name in ('index', 'count'):
            return Builtin('list:' + name, o)
        return None
    if isstring(o):
        if hasattr('', name):
            return Builtin('str:' + name, o)
        return None
    if isinstance(o, RangeV):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
        return None
    if isinstance(o, SliceV):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
        return None
    if isinstance(o, (HavocV,)):
        raise Unsupported('loop-carried value')
    if o is NONE or isinstance(o, T):
        return None
    if isinstance(o, FamInst) or isinstance(o, GenCM):
        raise Unsupported('attribute %s of %r' % (name, o))
    if isinstance(o, (IterV, Unbound)):
        return None
    if isinstance(o, PropV):
        if name == 'setter':
            return Builtin('propsetter', o)
    raise Unsupported('attribute %s of %r' % (name, o))


def frozen_check(m, ref):
    c = m.content(ref)
    if isinstance(c, BadC):
        raise Unsupported(c.reason)
    if isinstance(c, Frozen):
        return c.content
    return c


def list_method(m, name, o, args, kw):
    if name == 'append':
        c = frozen_check(m, o)
        m.setc(o, Seq(c.segs + (Item(args[0]),)))
        return NONE
    if name == 'extend':
        c = frozen_check(m, o)
        m.setc(o, Seq(c.segs + tuple(m.iter_segs(args[0]))))
        return NONE
    if name == 'copy':
        return m.new_list(m.iter_segs(o))
    if name == 'clear':
        m.setc(o, Seq(()))
        return NONE
    segs = m.iter_segs(o)
    vals = m.concrete(segs)
    if name == 'pop':
        k = need_int(m, args[0]) if args else -1
        if vals is None:
            if k == -1 and segs and isinstance(segs[-1], Item):
                m.setc(o, Seq(segs[:-1]))
                return segs[-1].v
            raise Unsupported('pop')
        if not -len(vals) <= k < len(vals):
            m.praise('IndexError', 'pop from empty list')
        vals = list(vals)
        r = vals.pop(k)
        m.setc(o, Seq(items(*vals)))
        return r
    if vals is None:
        raise Unsupported('list.%s on a symbolic list' % name)
    vals = list(vals)
    if name == 'insert':
        vals.insert(need_int(m, args[0]), args[1])
        m.setc(o, Seq(items(*vals)))
        return NONE
    if name == 'reverse':
        m.setc(o, Seq(items(*reversed(vals))))
        return NONE
    if name in ('index', 'count', 'remove'):
        hits = []
        for i, v in enumerate(vals):
            c = truth(m, compare(m, 'Eq', v, args[0]))
            if c is TRUE:
                hits.append(i)
            elif c is not FALSE:
                raise Unsupported('list.%s with undecided equality' % name)
        if name == 'count':
            return num(len(hits))
        if not hits:
            m.praise('ValueError', 'not in list')
        if name == 'index':
            return num(hits[0])
        del vals[hits[0]]
        m.setc(o, Seq(items(*vals)))
        return NONE
    if name == 'sort':
        m.setc(o, Seq(items(*sort_vals(m, vals, kw))))
        return NONE
    raise Unsupported('list.%s' % name)


def sort_vals(m, vals, kw):
    key = kw.get('key', NONE)
    ks = [v if key is NONE else m.call(key, [v], {}) for v in vals]

    def pk(k):
        if isinstance(k, T) and k.op == 'Q' and isnum(k):
            return (0, float(numval(k)))
        if isinstance(k, T) and isstr(k):
            return (1, strof(k))
        if isinstance(k, Tup):
            return (2, tuple(pk(x) for x in (m.concrete(k.segs) or [])))
        raise Unsupported('sorting symbolic values')
    order = sorted(range(len(vals)), key=lambda i: pk(ks[i]), reverse=kw.get('reverse', FALSE) is TRUE)
    return [vals[i] for i in order]


def dict_method(m, name, o, args, kw):
    c = frozen_check(m, o)

    def ent(f):
        out = []
        for e in c.entries:
            if isinstance(e, tuple):
                out.append(Item(f(e[0], e[1])))
            elif isinstance(e, DIf):
                out.append(When(e.cond, (Item(f(e.key, e.val)),)))
            elif isinstance(e, DFor):
                out.append(For(e.var, e.lo, e.hi, (Item(f(e.key, e.val)),)))
            else:
                raise Unsupported('loop-carried dict read')
        return tuple(out)
    if name == 'keys':
        return Tup(ent(lambda k, v: k))
    if name == 'values':
        return Tup(ent(lambda k, v: v))
    if name == 'items':
        return Tup(ent(lambda k, v: tup(k, v)))
    if name == 'get':
        return dict_get(m, o, args[0], args[1] if len(args) > 1 else NONE)
    if name == 'copy':
        return m.new_dict(c.entries)
    if name == 'clear':
        m.setc(o, DictC(()))
        return NONE
    if name == 'pop':
        found = dict_find(m, o, key_of(m, args[0]))
        if not found:
            if len(args) > 1:
                return args[1]
            m.praise('KeyError', '')
        v = dict_get(m, o, args[0], None)
        delitem(m, o, args[0])
        return v
    if name == 'setdefault':
        v = args[1] if len(args) > 1 else NONE
        with using(m.st.ctx):
            there = restrict(truth(m, contains(m, o, key_of(m, args[0]))))

        def put():
            setitem(m, o, args[0], v)
            return v
        return m.settle(m.branch(there, lambda: dict_get(m, o, args[0], None), put))
    if name == 'update':
        if args:
            s = args[0]
            if type(s) is DRef:
                for e in m.content(s).entries:
                    if not isinstance(e, tuple):
                        raise Unsupported('dict.update')
                    setitem(m, o, e[0], e[1])
            else:
                for kv in m.concrete(m.iter_segs(s)) or []:
                    k, v = m.concrete(m.iter_segs(kv))
                    setitem(m, o, k, v)
        for k, v in kw.items():
            setitem(m, o, const(k), v)
        return NONE
    raise Unsupported('dict.%s' % name)


def set_method(m, name, o, args, kw):
    if name == 'add':
        if contains(m, o, args[0]) is TRUE:
            return NONE
        c = frozen_check(m, o)
        m.setc(o, Seq(c.segs + (Item(args[0]),)))
        return NONE
    other = args[0] if args else None
    if other is not None and type(other) is not SetRef and name not in ('discard', 'remove'):
        other = m.alloc(Seq(m.iter_segs(other)), SetRef)
    if name == 'union':
        return set_op(m, 'BitOr', o, other)
    if name == 'intersection':
        return set_op(m, 'BitAnd', o, other)
    if name == 'difference':
        return set_op(m, 'Sub', o, other)
    raise Unsupported('set.%s' % name)


# ------------------------------------------------------------ dispatch

def call_builtin(m, f, args, kw):
    n = f.name
    h = BUILTIN.get(n)
    if h is not None:
        return h(m, f, list(args), dict(kw))
    if n.startswith('list:'):
        return list_method(m, n[5:], f.cap[0], args, kw)
    if n.startswith('dict:'):
        return dict_method(m, n[5:], f.cap[0], args, kw)
    if n.startswith('set:'):
        return set_method(m, n[4:], f.cap[0], args, kw)
    if n.startswith('str:'):
        return str_method(m, f.cap[0], n[4:], args, kw)
    if n.startswith('arr:'):
        h = METHODS.get(n[4:])
        if h is None:
            raise Unsupported('array method %s' % n[4:])
        return h(m, f.cap[0], list(args), dict(kw))
    raise Unsupported('builtin %s' % n)


def call_ext(m, f, args, kw):
    p = f.path
    if p in m.stubs:
        return m.call(m.stubs[p], args, kw)
    h = EXT.get(p)
    if h is None and p.startswith('np.') and ('math.' + p[3:]) in EXT:
        h = EXT['math.' + p[3:]]
    if h is None:
        if p.split('.')[0] in ('warnings', 'logging', 'sys'):
            return ExtObj(p, args, ())
        raise Unsupported('call of %s' % p)
    if m.boxes and not f.ag and p.split('.')[0] in ('np', 'sp', 'math') and p not in BOX_OK:
        if any(is_boxed(m, a) for a in list(args) + list(kw.values())):
            box_type_error(m, p)
    return h(m, list(args), dict(kw))


@builtin('noop')
def _noop(m, f, args, kw):
    return NONE


@builtin('extobj')
def _extobj(m, f, args, kw):
    o, name = f.cap
    if o.path.split('.')[0] in ('warnings', 'logging', 'sys'):
        return NONE
    h = EXT.get(o.path + '::' + name)
    if h is not None:
        return h(m, [o] + args, kw)
    raise Unsupported('method %s of %s' % (name, o.path))


@builtin('propsetter')
def _propsetter(m, f, args, kw):
    return PropV(f.cap[0].fget, args[0])


# ------------------------------------------------------------ Python builtins

@builtin('py:len')
def _len(m, f, args, kw):
    return length(m, args[0])


@builtin('py:range')
def _range(m, f, args, kw):
    a = []
    for x in args:
        if isarr(x):
            x = asarr(m, x)[()] if not m.arr(x).dims else m.praise('TypeError', 'range')
        x = m.settle(x)
        if isinstance(x, T) and isnumT(x):
            with using(m.st.ctx):
                if leaf(x).op == 'Q' and not all_int(x):
                    if x.op == 'Q' and isnum(x):
                        m.praise('TypeError', "'float' object cannot be interpreted as an integer")
            a.append(b2n(x))
        else:
            m.praise('TypeError', 'range argument')
    if len(a) == 1:
        return RangeV(ZERO, a[0], ONE)
    if len(a) == 2:
        return RangeV(a[0], a[1], ONE)
    return RangeV(*a)


def all_int(x):
    if x.op == 'I':
        return all_int(x.a[1]) and all_int(x.a[2])
    return x.op == 'B' or is_int(x)


@builtin('py:enumerate')
def _enumerate(m, f, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)
    segs = m.iter_segs(args[0])
    out, off = [], start
    for s in segs:
        if isinstance(s, Item):
            out.append(Item(tup(off, s.v)))
            off = add(off, ONE)
        elif isinstance(s, For) and len(s.segs) == 1 and isinstance(s.segs[0], Item):
            with using(m.st.ctx):
                pos = add(off, sub(atom(s.var), s.lo))
                out.append(For(s.var, s.lo, s.hi, (Item(tup(pos, s.segs[0].v)),)))
                off = add(off, sub(s.hi, s.lo))
        else:
            raise Unsupported('enumerate')
    return IterV(out)


@builtin('py:zip')
def _zip(m, f, args, kw):
    lists = [m.iter_segs(a) for a in args]
    if not lists:
        return IterV(())
    vals = [m.concrete(l) for l in lists]
    if all(v is not None for v in vals):
        return IterV(items(*[tup(*x) for x in zip(*vals)]))
    # one simple comprehension each, over equal lengths
    with using(m.st.ctx):
        lens = [m.seg_len(l) for l in lists]
        n = lens[0]
        for x in lens[1:]:
            if restrict(eq0(sub(x, n))) is not TRUE:
                n = min_(n, x)
    v = fresh_index(ZERO, n)
    els = [seg_at(m, l, atom(v)) for l in lists]
    return IterV((For(v, ZERO, n, (Item(tup(*els)),)),))


@builtin('py:map')
def _map(m, f, args, kw):
    if len(args) != 2:
        raise Unsupported('map')
    out = m.new_list(())

    cell = [None]

    def bind(v):
        cell[0] = v

    def body():
        r = m.call(args[0], [cell[0]], {})
        c = m.content(out)
        m.setc(out, Seq(c.segs + (Item(r),)))
    m.for_each(args[1], bind, body)
    return IterV(m.content(out).segs)


@builtin('py:filter')
def _filter(m, f, args, kw):
    out = m.new_list(())
    cell = [None]

    def bind(v):
        cell[0] = v

    def body():
        v = cell[0]
        c = truth(m, v if args[0] is NONE else m.call(args[0], [v], {}))

        def put():
            cc = m.content(out)
            m.setc(out, Seq(cc.segs + (Item(v),)))
        m.branch(c, put, lambda: None)
    m.for_each(args[1], bind, body)
    return IterV(m.content(out).segs)


def scalar_of(m, v, what):
    v = m.settle(v)
    if isinstance(v, T):
        return v
    if isarr(v):
        a = m.arr(v)
        with using(m.st.ctx):
            bad = not_(eq0(sub(a.size(), ONE)))
        m.raise_if(bad, 'TypeError', 'only size-1 arrays can be converted to Python scalars')
        with using(m.st.ctx):
            return a[tuple(ZERO for _ in a.dims)]
    m.praise('TypeError', '%s() argument must be a number' % what)


@builtin('py:int')
def _int(m, f, args, kw):
    if not args:
        return ZERO
    return dist(m, args[0], lambda v: to_int(m, v))


def to_int(m, v):
    if is_boxed(m, v):
        box_type_error(m, 'int()')
    if isstr(v):
        try:
            return num(int(strof(v)))
        except ValueError:
            m.praise('ValueError', 'invalid literal for int()')
    x = scalar_of(m, v, 'int')
    if not isnumT(x):
        m.praise('TypeError', 'int() argument')
    with using(m.st.ctx):
        x = restrict(b2n(x))

        def one(q):
            q = _chk(q)
            if is_int(q):
                return q
            if isnum(q):
                n = numval(q)
                return num(int(n))
            if sign_nonneg(q):
                return floordiv(q, ONE)
            return ite(lt0(q), neg(floordiv(neg(q), ONE)), floordiv(q, ONE))
        return restrict(lift1(one, x))


def sign_nonneg(q):
    return decide(mk('le', neg(q))) is True if not isnum(q) else numval(q) >= 0


@builtin('py:float')
def _float(m, f, args, kw):
    if not args:
        return ZERO

    def one(v):
        if is_boxed(m, v):
            box_type_error(m, 'float()')
        if isstr(v):
            s = strof(v).strip().lower()
            try:
                return num(float(s))
            except ValueError:
                m.praise('ValueError', 'could not convert string to float')
        x = scalar_of(m, v, 'float')
        if not isnumT(x):
            m.praise('TypeError', 'float() argument')
        return b2n(x)
    return dist(m, args[0], one)


@builtin('py:complex')
def _complex(m, f, args, kw):
    raise Unsupported('complex numbers')


@builtin('py:bool')
def _bool(m, f, args, kw):
    return truth(m, args[0]) if args else FALSE


@builtin('py:str', 'py:repr', 'py:format')
def _str(m, f, args, kw):
    return to_str(m, args[0]) if args else const('')


@builtin('py:print', 'py:id', 'py:hash')
def _print(m, f, args, kw):
    if f.name != 'py:print':
        raise Unsupported(f.name)
    return NONE


@builtin('py:abs')
def _abs(m, f, args, kw):
    from . import npmodels as N
    return N.umap(m, abs_, args[0])


@builtin('py:round')
def _round(m, f, args, kw):
    v = m.settle(args[0])
    if isinstance(v, T) and isnumT(v):
        with using(m.st.ctx):
            if all_int(v):
                return v
            if isnum(v) and len(args) == 1:
                return num(round(numval(v)))
    return rounded(m, v, args[1] if len(args) > 1 else kw.get('ndigits', ZERO))


def rounded(m, v, digits):
    """Nearest multiple of a power of ten (halves go up; they have no weight)."""
    from . import npmodels as N
    k = concrete_int(m.settle(digits)) if digits is not NONE else 0
    if k is None:
        raise Unsupported('round')
    s = num(Fraction(10) ** k)
    half = num(Fraction(1, 2))
    return N.umap(m, lambda x: div(floordiv(add(mul(x, s), half), ONE), s), v)


@builtin('py:hash')
def _hash(m, f, args, kw):
    return key_of(m, m.settle(args[0]))


@builtin('py:id')
def _id(m, f, args, kw):
    v = m.settle(args[0])
    if isinstance(v, (Inst, FuncV, BoundV, ClassV)):
        return Tup(items(const('<id>'), v))
    raise Unsupported('id')


@builtin('py:divmod')
def _divmod(m, f, args, kw):
    return tup(binop(m, 'FloorDiv', *args), binop(m, 'Mod', *args))


@builtin('py:pow')
def _pow(m, f, args, kw):
    return binop(m, 'Pow', args[0], args[1])


def _extreme(sign):
    def g(m, f, args, kw):
        if len(args) == 1:
            if isarr(args[0]):
                from . import npmodels as N
                a = m.arr(args[0])
                if len(a.dims) == 1:
                    return N.reduce_ext(m, args[0], sign)
            segs = m.iter_segs(args[0])
            vals = m.concrete(segs)
            if vals is None:
                if len(segs) == 1 and isinstance(segs[0], For):
                    from . import npmodels as N
                    return N.reduce_ext(m, newarr(m, N.seq_to_arr(m, args[0])), sign)
                raise Unsupported('max of a symbolic sequence')
        else:
            vals = list(args)
        if not vals:
            if 'default' in kw:
                return kw['default']
            m.praise('ValueError', 'empty sequence')
        key = kw.get('key', NONE)
        best = vals[0]
        bk = best if key is NONE else m.call(key, [best], {})
        for v in vals[1:]:
            k = v if key is NONE else m.call(key, [v], {})
            c = truth(m, compare(m, 'Gt' if sign > 0 else 'Lt', k, bk))
            with using(m.st.ctx):
                best, bk = m.merge_val(c, v, best) if c is not TRUE and c is not FALSE else (v if c is TRUE else best), \
                    (m.merge_val(c, k, bk) if c is not TRUE and c is not FALSE else (k if c is TRUE else bk))
        return best
    return g


BUILTIN['py:max'] = _extreme(1)
BUILTIN['py:min'] = _extreme(-1)


@builtin('py:sum')
def _sum(m, f, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)
    cell = [start]
    segs = m.iter_segs(args[0])
    vals = m.concrete(segs)
    if vals is not None:
        for v in vals:
            cell[0] = binop(m, 'Add', cell[0], v)
        return cell[0]

    def tot(segs):
        r = None
        for s in segs:
            if isinstance(s, Item):
                x = s.v
                if isinstance(x, T):
                    y = Arr((), lambda i, x=x: b2n(x))
                else:
                    y = asarr(m, x)
            elif isinstance(s, When):
                z = tot(s.segs)
                y = Arr(z.dims, lambda i, z=z, s=s: ite(s.cond, z[i], ZERO))
            elif isinstance(s, For):
                z = tot(s.segs)
                if any(s.var in d.fv for d in z.dims):
                    raise Unsupported('ragged sum')
                y = Arr(z.dims, lambda i, z=z, s=s: sum_over(s.var, s.lo, s.hi, b2n(z[i])))
            else:
                raise Unsupported('sum')
            if r is None:
                r = y
            else:
                dims, sa, sb = bdims(m, r.dims, y.dims)
                r = Arr(dims, lambda i, r=r, y=y, sa=sa, sb=sb: add(r[bidx(sa, i)], y[bidx(sb, i)]))
        return r if r is not None else Arr((), lambda i: ZERO)
    with using(m.st.ctx):
        t = tot(segs)
    return binop(m, 'Add', start, newarr(m, Arr(t.dims, t.fn)))


def _quant(isall):
    def g(m, f, args, kw):
        if isarr(args[0]):
            from . import npmodels as N
            return N.reduce_bool(m, args[0], isall, None)
        segs = m.iter_segs(args[0])

        def go(segs):
            r = TRUE if isall else FALSE
            for s in segs:
                if isinstance(s, Item):
                    c = truth(m, s.v)
                elif isinstance(s, When):
                    c = go(s.segs)
                    c = or_(not_(s.cond), c) if isall else and_(s.cond, c)
                elif isinstance(s, For):
                    c = go(s.segs)
                    w = fresh_index(ZERO, sub(s.hi, s.lo))
                    c = subst(c, {s.var: add(s.lo, atom(w))})
                    d = [sub(s.hi, s.lo)]
                    c = forall_close(d, [w], c) if isall else not_(forall_close(d, [w], not_(c)))
                else:
                    raise Unsupported('all/any')
                r = and_(r, c) if isall else or_(r, c)
            return r
        with using(m.st.ctx):
            return restrict(go(segs))
    return g


BUILTIN['py:all'] = _quant(True)
BUILTIN['py:any'] = _quant(False)


def type_matches(m, v, c):
    """isinstance(v, c): True/False/None."""
    if isinstance(c, ClassV):
        if isinstance(v, Inst):
            return c in m.content(v).cls.mro()
        if isinstance(v, ExcV):
            return c in v.cls.mro()
        return c.name == 'object'
    if isinstance(c, Builtin) and c.name.startswith('py:'):
        n = c.name[3:]
        if n == 'list':
            return type(v) is LRef
        if n == 'tuple':
            return isinstance(v, Tup)
        if n == 'dict':
            return type(v) is DRef
        if n == 'set':
            return type(v) is SetRef
        if n == 'str':
            return isstring(v)
        if n == 'range':
            return isinstance(v, RangeV)
        if n == 'slice':
            return isinstance(v, SliceV)
        if n == 'bool':
            return isinstance(v, T) and leaf(v).op == 'B'
        if n == 'int':
            if isinstance(v, T) and leaf(v).op == 'B':
                return True
            if isinstance(v, T) and leaf(v).op == 'Q':
                return True if all_int(v) else False
            return False
        if n == 'float':
            if isinstance(v, T) and leaf(v).op == 'Q':
                return False if (all_int(v) and not isnum(v)) else True
            return False
        return None
    if isinstance(c, ExtV) or (isinstance(c, T) and isstr(c)):
        p = c.path if isinstance(c, ExtV) else strof(c)
        if p in ('class:Number',):
            return isinstance(v, T) and isnumT(v)
        if p in ('class:ndarray', 'np.ndarray'):
            return isarr(v) and not m.arr(v).sparse
        if p == 'class:Integral' or p in ('dtype:int',):
            return isinstance(v, T) and isnumT(v) and all_int(v)
        if p == 'dtype:float':
            return isinstance(v, T) and isnumT(v)
        if p in ('dtype:bool',):
            return isinstance(v, T) and leaf(v).op == 'B'
        if p in ('sp.sparse.coo_matrix', 'sp.sparse.csr_matrix', 'sp.sparse.csc_matrix', 'sp.sparse.spmatrix'):
            return isarr(v) and m.arr(v).sparse
        if p.startswith('collections.OrderedDict') or p == 'collections.OrderedDict':
            return type(v) is DRef
        if p.endswith('LinearOperator'):
            return isinstance(v, ExtObj) and v.path == 'LinearOperator'
        if p.endswith('ArrayBox') or p.endswith('Box'):
            return is_boxed(m, v)
    return None


@builtin('py:isinstance')
def _isinstance(m, f, args, kw):
    v, c = args
    v = m.settle(v)

    def one(v):
        cs = m.concrete(m.iter_segs(c)) if isinstance(c, Tup) else [c]
        unk = False
        for k in cs:
            r = type_matches(m, v, k)
            if r is True:
                return TRUE
            if r is None:
                unk = True
        if unk:
            raise Unsupported('isinstance(%r, %r)' % (v, c))
        return FALSE
    return dist(m, v, one)


@builtin('py:issubclass')
def _issubclass(m, f, args, kw):
    if isinstance(args[0], ClassV) and isinstance(args[1], ClassV):
        return TRUE if args[1] in args[0].mro() else FALSE
    raise Unsupported('issubclass')


@builtin('py:callable')
def _callable(m, f, args, kw):
    v = args[0]
    if isinstance(v, (FuncV, BoundV, Builtin, ClassV, ExtV)):
        return TRUE
    if isinstance(v, Inst):
        return TRUE if m.content(v).cls.lookup('__call__')[0] is not None else FALSE
    return FALSE


@builtin('py:type')
def _type(m, f, args, kw):
    v = args[0]
    if isinstance(v, Inst):
        return m.content(v).cls
    if type(v) is LRef:
        return Builtin('py:list')
    if isinstance(v, Tup):
        return Builtin('py:tuple')
    if type(v) is DRef:
        return Builtin('py:dict')
    if isarr(v):
        return const('class:ndarray')
    if isstring(v):
        return Builtin('py:str')
    if isinstance(v, T) and isnumT(v):
        return Builtin('py:bool' if leaf(v).op == 'B' else ('py:int' if all_int(v) else 'py:float'))
    raise Unsupported('type()')


@builtin('py:tuple')
def _tuple(m, f, args, kw):
    return Tup(m.iter_segs(args[0])) if args else Tup(())


@builtin('py:list')
def _list(m, f, args, kw):
    return m.new_list(m.iter_segs(args[0]) if args else ())


@builtin('py:set', 'py:frozenset')
def _set(m, f, args, kw):
    r = m.alloc(Seq(()), SetRef)
    if args:
        vals = m.concrete(m.iter_segs(args[0]))
        if vals is None:
            raise Unsupported('set of a symbolic sequence')
        for v in vals:
            set_method(m, 'add', r, [v], {})
    return r


@builtin('py:dict')
def _dict(m, f, args, kw):
    d = m.new_dict()
    dict_method(m, 'update', d, args, kw)
    return d


@builtin('py:sorted')
def _sorted(m, f, args, kw):
    vals = m.concrete(m.iter_segs(args[0]))
    if vals is None:
        raise Unsupported('sorted of a symbolic sequence')
    return m.new_list(items(*sort_vals(m, vals, kw)))


@builtin('py:reversed')
def _reversed(m, f, args, kw):
    v = args[0]
    if isinstance(v, RangeV) and v.step is ONE:
        with using(m.st.ctx):
            return RangeV(sub(v.stop, ONE), sub(v.start, ONE), num(-1))
    segs = m.iter_segs(v)
    vals = m.concrete(segs)
    if vals is not None:
        return IterV(items(*reversed(vals)))
    with using(m.st.ctx):
        n = m.seg_len(segs)
    w = fresh_index(ZERO, n)
    with using(m.st.ctx):
        j = sub(sub(n, ONE), atom(w))
    return IterV((For(w, ZERO, n, (Item(seg_at(m, segs, j)),)),))


@builtin('py:getattr')
def _getattr(m, f, args, kw):
    if not isstr(args[1]):
        raise Unsupported('getattr with a symbolic name')
    return m.getattr(args[0], strof(args[1]), args[2] if len(args) > 2 else None)


@builtin('py:hasattr')
def _hasattr(m, f, args, kw):
    old = m.raised
    m.raised = []
    try:
        alive, _, _ = m.run_on(m.st.fork(), lambda: m.getattr(args[0], strof(args[1])))
    finally:
        m.raised = old
    return TRUE if alive else FALSE


@builtin('py:setattr')
def _setattr(m, f, args, kw):
    m.setattr(args[0], strof(args[1]), args[2])
    return NONE


@builtin('py:slice')
def _slice(m, f, args, kw):
    if len(args) == 1:
        return SliceV(NONE, args[0], NONE)
    if len(args) == 2:
        return SliceV(args[0], args[1], NONE)
    return SliceV(*args)


@builtin('py:iter')
def _iter(m, f, args, kw):
    return IterV(m.iter_segs(args[0]))


@builtin('py:next')
def _next(m, f, args, kw):
    v = args[0]
    if isinstance(v, IterV) and v.segs and isinstance(v.segs[0], Item):
        return v.segs[0].v
    raise Unsupported('next')


@builtin('py:property')
def _property(m, f, args, kw):
    return PropV(args[0], args[1] if len(args) > 1 else None)


@builtin('py:staticmethod')
def _staticmethod(m, f, args, kw):
    return StaticV(args[0])


@builtin('py:classmethod')
def _classmethod(m, f, args, kw):
    return ClsMethV(args[0])


@builtin('py:super')
def _super(m, f, args, kw):
    if len(args) == 2:
        return SuperV(args[0], args[1])
    raise Unsupported('super()')


@builtin('py:object')
def _object(m, f, args, kw):
    return ExtObj('object', (), ())


# ------------------------------------------------------------ stdlib

@ext('math.sqrt')
def _msqrt(m, a, kw):
    from . import npmodels as N
    return N.smap(m, sqrt_, a[0])


@ext('math.exp')
def _mexp(m, a, kw):
    from . import npmodels as N
    return N.smap(m, exp_, a[0])


@ext('math.log')
def _mlog(m, a, kw):
    from . import npmodels as N
    r = N.smap(m, log_, a[0])
    if len(a) > 1:
        return binop(m, 'Div', r, N.smap(m, log_, a[1]))
    return r


@ext('math.floor')
def _mfloor(m, a, kw):
    from . import npmodels as N
    return N.smap(m, lambda x: floordiv(x, ONE), a[0])


@ext('math.ceil')
def _mceil(m, a, kw):
    from . import npmodels as N
    return N.smap(m, lambda x: neg(floordiv(neg(x), ONE)), a[0])


@ext('math.factorial')
def _mfact(m, a, kw):
    k = concrete_int(m.settle(a[0]))
    if k is not None:
        return num(math.factorial(k))
    return fn('factorial', a[0])


@ext('math.isinf')
def _misinf(m, a, kw):
    v = m.settle(a[0])
    with using(m.st.ctx):
        return restrict(lift1(lambda q: TRUE if isinf(_chk(q)) else FALSE, b2n(v)))


@ext('math.isfinite')
def _misfin(m, a, kw):
    with using(m.st.ctx):
        return not_(_misinf(m, a, kw))


@ext('math.isnan')
def _misnan(m, a, kw):
    return FALSE


@ext('copy.copy')
def _copy(m, a, kw):
    return shallow(m, a[0])


@ext('copy.deepcopy')
def _deepcopy(m, a, kw):
    return deepcopy(m, a[0], {})


def shallow(m, v):
    if isinstance(v, PhiV):
        return m.distribute(v, lambda x: shallow(m, x))
    if isarr(v):
        a = m.arr(v)
        return m.new_array(Arr(a.dims, a.fn, a.dtype, a.sparse, a.term(), a.meta))
    if isinstance(v, Inst):
        c = frozen_check(m, v)
        f, _ = c.cls.lookup('__copy__')
        if f is not None:
            return m.call(BoundV(f, v), [], {})
        return m.alloc(ObjC(c.cls, dict(c.fields)), Inst)
    if type(v) in (LRef, DRef, SetRef):
        return m.alloc(frozen_check(m, v), type(v))
    return v


def deepcopy(m, v, memo):
    if isinstance(v, PhiV):
        return PhiV(v.cond, deepcopy(m, v.a, memo), deepcopy(m, v.b, memo))
    if isinstance(v, Tup):
        return Tup(_dc_segs(m, v.segs, memo))
    if isinstance(v, ARef) and type(v) in (ARef, LRef, DRef, SetRef, Inst):
        if v.oid in memo:
            return memo[v.oid]
        if isarr(v):
            r = shallow(m, v)
            memo[v.oid] = r
            return r
        c = frozen_check(m, v)
        r = m.alloc(c, type(v))
        memo[v.oid] = r
        if isinstance(c, ObjC):
            f, _ = c.cls.lookup('__deepcopy__')
            if f is not None:
                raise Unsupported('__deepcopy__')
            m.setc(r, ObjC(c.cls, {k: deepcopy(m, x, memo) for k, x in c.fields.items()}))
        elif isinstance(c, Seq):
            m.setc(r, Seq(_dc_segs(m, c.segs, memo)))
        elif isinstance(c, DictC):
            m.setc(r, DictC([(e[0], deepcopy(m, e[1], memo)) if isinstance(e, tuple) else
                             DIf(e.cond, e.key, deepcopy(m, e.val, memo)) if isinstance(e, DIf) else e for e in c.entries]))
        return r
    if isinstance(v, BoundV):
        return BoundV(v.func, deepcopy(m, v.self, memo))
    return v


def _dc_segs(m, segs, memo):
    out = []
    for s in segs:
        if isinstance(s, Item):
            out.append(Item(deepcopy(m, s.v, memo)))
        elif isinstance(s, When):
            out.append(When(s.cond, _dc_segs(m, s.segs, memo)))
        else:
            out.append(s)
    return tuple(out)


@ext('itertools.product')
def _product(m, a, kw):
    if 'repeat' in kw:
        k = need_int(m, kw['repeat'])
        a = list(a) * k
    lists = [m.iter_segs(x) for x in a]

    def go(i, vals):
        if i == len(lists):
            return (Item(tup(*vals)),)
        out = []

        def seg(s, vals):
            if isinstance(s, Item):
                return go(i + 1, vals + [s.v])
            if isinstance(s, When):
                return (When(s.cond, sum((seg(x, vals) for x in s.segs), ())),)
            if isinstance(s, For):
                v = fresh_index(s.lo, s.hi)
                inner = m.subst_segs(s.segs, {s.var: atom(v)})
                return (For(v, s.lo, s.hi, sum((seg(x, vals) for x in inner), ())),)
            raise Unsupported('product')
        for s in lists[i]:
            out.extend(seg(s, vals))
        return tuple(out)
    return IterV(go(0, []))


@ext('itertools.chain')
def _chain(m, a, kw):
    out = []
    for x in a:
        out.extend(m.iter_segs(x))
    return IterV(out)


@ext('itertools.combinations_with_replacement', 'itertools.combinations', 'itertools.permutations')
def _combs(m, a, kw):
    raise Unsupported('itertools')


@ext('functools.partial')
def _partial(m, a, kw):
    return Builtin('partial', a[0], tup(*a[1:]), tuple(sorted(kw.items())))


@builtin('partial')
def _partial_call(m, f, args, kw):
    k = dict(f.cap[2])
    k.update(kw)
    return m.call(f.cap[0], m.concrete(f.cap[1].segs) + list(args), k)


@ext('functools.reduce')
def _reduce(m, a, kw):
    vals = m.concrete(m.iter_segs(a[1]))
    if vals is None:
        raise Unsupported('reduce')
    if len(a) > 2:
        acc = a[2]
    elif vals:
        acc, vals = vals[0], vals[1:]
    else:
        m.praise('TypeError', 'reduce of empty sequence')
    for v in vals:
        acc = m.call(a[0], [acc, v], {})
    return acc


@ext('functools.wraps')
def _wraps(m, a, kw):
    return Builtin('ident')


@builtin('ident')
def _ident(m, f, args, kw):
    return args[0]


@ext('operator.mul')
def _omul(m, a, kw):
    return binop(m, 'Mult', a[0], a[1])


@ext('operator.add')
def _oadd(m, a, kw):
    return binop(m, 'Add', a[0], a[1])


@ext('collections.OrderedDict', 'collections.defaultdict')
def _odict(m, a, kw):
    d = m.new_dict()
    if a or kw:
        dict_method(m, 'update', d, a, kw)
    return d


@ext('warnings.catch_warnings', 'np.errstate')
def _cw(m, a, kw):
    return ExtObj('warnings.catch_warnings')


@ext('warnings.filterwarnings', 'warnings.warn', 'warnings.simplefilter', 'np.seterr', 'np.set_printoptions')
def _wn(m, a, kw):
    return NONE


_tm = [0]


@ext('time.time', 'time.perf_counter', 'time.process_time')
def _time(m, a, kw):
    _tm[0] += 1
    return var('%%time%d' % _tm[0])


@ext('json_tricks.dumps', 'json.dumps')
def _dumps(m, a, kw):
    return ExtObj('json', (deepcopy(m, a[0], {}),))


@ext('json_tricks.loads', 'json.loads')
def _loads(m, a, kw):
    if isinstance(a[0], ExtObj) and a[0].path == 'json':
        return deepcopy(m, a[0].args[0], {})
    raise Unsupported('json loads')
