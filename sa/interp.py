"""Abstract interpreter: Python syntax trees -> value graph.

The analysed program is never executed.  Every function body is interpreted
once per abstract calling context over symbolic sizes and symbolic entries;
branches are merged into gated values at their join point; loops over symbolic
ranges are summarised in closed form (see loops.py), not unrolled.
"""
import ast
import os
import builtins as _pyb

from .terms import *
from .terms import _chk, _lin_in
from .values import *
from .loops import LoopMixin


SMALL = 24  # sequences of at most this many known entries are walked entry by entry


class Raised(object):
    __slots__ = ('cond', 'exc', 'loc', 'state')

    def __init__(self, cond, exc, loc, state=None):
        self.cond, self.exc, self.loc, self.state = cond, exc, loc, state

    def __repr__(self):
        return 'Raised(%s at %s)' % (self.exc, self.loc)


class Env(object):
    __slots__ = ('frame', 'locs', 'chain', 'mod', 'cls', 'qual', 'rets', 'brks', 'conts', 'fn',
                 'selfv', 'globs')

    def __init__(self, frame, locs, chain, mod, cls, qual):
        self.frame, self.locs, self.chain, self.mod, self.cls, self.qual = \
            frame, locs, chain, mod, cls, qual
        self.rets = None
        self.brks = None
        self.conts = None
        self.fn = None
        self.selfv = None
        self.globs = ()


_EXC = {}


def _mkexc():
    def c(name, *bases):
        _EXC[name] = ClassV(name, None, [_EXC[b] for b in bases], {}, ext=True)
    c('BaseException')
    c('Exception', 'BaseException')
    c('KeyboardInterrupt', 'BaseException')
    c('ArithmeticError', 'Exception')
    c('ZeroDivisionError', 'ArithmeticError')
    c('FloatingPointError', 'ArithmeticError')
    c('OverflowError', 'ArithmeticError')
    c('AssertionError', 'Exception')
    c('AttributeError', 'Exception')
    c('LookupError', 'Exception')
    c('IndexError', 'LookupError')
    c('KeyError', 'LookupError')
    c('NameError', 'Exception')
    c('UnboundLocalError', 'NameError')
    c('RuntimeError', 'Exception')
    c('NotImplementedError', 'RuntimeError')
    c('RecursionError', 'RuntimeError')
    c('StopIteration', 'Exception')
    c('TypeError', 'Exception')
    c('ValueError', 'Exception')
    c('OSError', 'Exception')
    c('IOError', 'OSError')
    c('ImportError', 'Exception')
    c('ModuleNotFoundError', 'ImportError')
    c('Warning', 'Exception')
    for w in ('UserWarning', 'DeprecationWarning', 'RuntimeWarning', 'FutureWarning',
              'PendingDeprecationWarning', 'SyntaxWarning', 'ImportWarning', 'ResourceWarning'):
        c(w, 'Warning')
    c('LinAlgError', 'Exception')


_mkexc()

OBJECT = ClassV('object', None, [], {}, ext=True)

_BUILTINS = ('len range enumerate zip map filter int float bool str abs min max sum all any isinstance '
             'print tuple list dict set frozenset sorted reversed getattr hasattr setattr delattr super '
             'callable type slice round divmod pow iter next property staticmethod classmethod repr '
             'id hash vars issubclass complex format object ord chr input open').split()


def local_names(fnode):
    """Names local to a function body (assigned, imported, bound), plus globals/nonlocals."""
    cached = getattr(fnode, '_locals', None)
    if cached is not None:
        return cached
    locs, glob = set(), set()
    a = fnode.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        locs.add(x.arg)
    if a.vararg:
        locs.add(a.vararg.arg)
    if a.kwarg:
        locs.add(a.kwarg.arg)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            locs.add(n.name)
            for d in n.decorator_list:
                go(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub_ in ast.walk(n):
                if isinstance(sub_, ast.NamedExpr):
                    locs.add(sub_.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            locs.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                locs.add((al.asname or al.name).split('.')[0])
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            locs.add(n.name)
        for ch in ast.iter_child_nodes(n):
            go(ch)
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    for s in body:
        go(s)
    locs -= glob
    gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in body for x in ast.walk(s)
              if not isinstance(x, ast.Lambda))
    fnode._locals = (frozenset(locs), frozenset(glob), gen)
    return fnode._locals


class PyRaise(Exception):
    """Internal: abstract raise on every path of the current state (used by models)."""

    def __init__(self, exc, msg=''):
        self.exc, self.msg = exc, msg


EXT_MODULES = {
    'numpy': 'np', 'scipy': 'sp', 'autograd': 'autograd', 'math': 'math', 'copy': 'copy',
    'itertools': 'itertools', 'functools': 'functools', 'operator': 'operator',
    'collections': 'collections', 'warnings': 'warnings', 'time': 'time', 'numbers': 'numbers',
    'json_tricks': 'json_tricks', 'json': 'json', 'sys': 'sys', 'os': 'os', 'numpy.linalg': 'np.linalg',
    'scipy.sparse': 'sp.sparse', 'scipy.special': 'sp.special', 'contextlib': 'contextlib',
    'typing': 'typing', 'abc': 'abc', 're': 're', 'types': 'types', 'inspect': 'inspect',
    'string': 'string', 'random': 'random', 'enum': 'enum', 'dataclasses': 'dataclasses',
    'logging': 'logging', 'textwrap': 'textwrap', 'pickle': 'pickle', 'datetime': 'datetime',
}


_named = [0]


def bigger(t, n):
    """Has the term more than n nodes?"""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > n:
            return True
        ch = []
        for y in x.a:
            terms_in(y, ch)
        todo.extend(ch)
    return False


def terms_in(x, out):
    if isinstance(x, T):
        out.append(x)
    elif isinstance(x, tuple):
        for y in x:
            terms_in(y, out)


class Machine(LoopMixin):
    PKG = 'LinearResponseVariationalBayes'

    def __init__(self, repo, extra_paths=()):
        self.repo = repo
        self.paths = [repo] + list(extra_paths)
        self.modules = {}
        self.trees = {}
        self._oid = 0
        self.st = State({}, ROOT, TRUE)
        self.env = None
        self.raised = []            # current raise collector
        self.trystack = []
        self.boxes = []             # active autodiff tracer symbols
        self.events = []            # (kind, loc, detail)
        self.visited = set()        # functions interpreted
        self.calls = 0
        self.callsites = 0
        self.loopcount = 0
        self.depth = 0
        self.callstack = []
        self.node = None
        self.vjps = {}
        self.jvps = {}
        self.fuel = 4000000
        self.reads = None
        self.summaries = {}
        self.writelog = None
        from . import models
        self.M = models
        models.setup(self)
        self.naming = 0
        self.defs = {}
        self.named = {}

    # ------------------------------------------------------------ store
    def alloc(self, content, kind=ARef):
        self._oid += 1
        self.st.heap[self._oid] = content
        return kind(self._oid)

    def content(self, ref):
        return self.st.heap[ref.oid]

    def setc(self, ref, content):
        if isinstance(self.st.heap.get(ref.oid), Frozen):
            raise Unsupported('mutation of a summarised object')
        if self.writelog is not None:
            self.writelog.add(ref.oid)
        self.st.heap[ref.oid] = content

    def new_array(self, arr):
        if self.naming:
            arr = self.name_array(arr)
        return self.alloc(arr, ARef)

    def name_array(self, arr):
        """Give a large array value a name of its own: entries become get(name, loop indices, entry indices)."""
        if not isinstance(arr, Arr) or arr.dtype != 'f' or arr.meta or not arr.dims:
            return arr
        t = arr.term()
        if t.op != 'L' or not bigger(t, self.naming):
            return arr
        loops = []
        for v in t.fv:
            if v in self.boxvals:
                return arr
            if v.op == 'arr':
                if str(v.a[0]).startswith('%'):
                    return arr
                continue
            if v.op != 'v':
                return arr
            if str(v.a[0]).startswith('%'):
                r = RANGE.get(v)
                if not r or r[0] is None or r[1] is None or not prop(v, 'int') or not nonneg(r[0], ROOT):
                    return arr
                loops.append(v)
        loops.sort(key=lambda v: v.key)
        for i, v in enumerate(loops):
            # ranges of earlier indices may not depend on later ones: enlarge to their own bounds
            if any(w in RANGE[v][1].fv for w in loops):
                return arr
        ld = tuple(RANGE[v][1] for v in loops)
        Dm = tuple(arr.dims)
        if any(w in d.fv for d in Dm for w in loops):
            return arr
        if loops:
            L = close_lam(ld + Dm, list(loops) + (nv := [fresh_index(ZERO, d) for d in Dm]),
                          get(t, *[atom(v) for v in nv]))
        else:
            L = t
        k = ('named', L)
        D = self.named.get(k)
        if D is None:
            _named[0] += 1
            D = arrsym('named%d' % _named[0], ld + Dm)
            self.defs[D] = L
            self.named[k] = D
        lv = tuple(atom(v) for v in loops)
        return Arr(arr.dims, lambda idx: get(D, *(lv + tuple(idx))), arr.dtype, arr.sparse, D if not loops else None)

    def new_list(self, segs):
        return self.alloc(Seq(segs), LRef)

    def new_dict(self, entries=()):
        return self.alloc(DictC(entries), DRef)

    def arr(self, ref):
        """Contents of an array reference (views resolved)."""
        c = self.st.heap[ref.oid]
        if isinstance(c, Frozen):
            c = c.content
        if isinstance(c, ViewC):
            return c.getter(self.arr(ARef(c.base)))
        if isinstance(c, BadC):
            raise Unsupported(c.reason)
        if not isinstance(c, Arr):
            raise Unsupported('not an array: %r' % (c,))
        return c

    def store_array(self, ref, arr):
        c = self.st.heap[ref.oid]
        if isinstance(c, Frozen):
            raise Unsupported('mutation of a summarised array')
        if isinstance(c, ViewC):
            if c.setter is None:
                raise Unsupported('in-place write through a copy-or-view')
            b = ARef(c.base)
            self.store_array(b, c.setter(self.arr(b), arr))
            return
        if c.meta is not None and c.meta.get('readonly'):
            self.praise('ValueError', 'assignment destination is read-only')
        if self.writelog is not None:
            self.writelog.add(ref.oid)
        arr = Arr(arr.dims, arr.fn, dtype=arr.dtype, sparse=arr.sparse, term=arr._t)
        arr.term()
        self.st.heap[ref.oid] = arr

    def view(self, ref, getter, setter):
        return self.alloc(ViewC(ref.oid, getter, setter), ARef)

    # ------------------------------------------------------------ control
    def loc(self):
        n = self.node
        e = self.env
        ln = getattr(n, 'lineno', 0)
        if e is None:
            return ('?', ln, '?')
        return (e.mod.path if e.mod else '?', ln, e.qual)

    def praise(self, exc, msg=''):
        """Raise exception on all paths of the current state."""
        if isinstance(exc, str):
            exc = ExcV(_EXC[exc], (const(msg),))
        self._record_raise(exc)
        raise Dead()

    def _record_raise(self, exc):
        s = self.st.fork()
        self.raised.append(Raised(s.pc, exc, self.loc(), s))

    def raise_if(self, cond, exc, msg=''):
        """Conditional raise; continues on the paths where cond is false."""
        cond = restrict(cond, self.st.ctx)
        if cond is FALSE:
            return
        if cond is TRUE:
            self.praise(exc, msg)
        if isinstance(exc, str):
            exc = ExcV(_EXC[exc], (const(msg),))
        s = self.st.fork(cond, True)
        if not inconsistent(s.ctx):
            self.raised.append(Raised(s.pc, exc, self.loc(), s))
        t = self.st.fork(cond, False)
        self.st.become(t)
        if inconsistent(self.st.ctx):
            raise Dead()

    def run_on(self, state, f):
        """Run f on a state; returns (alive, value)."""
        old = self.st
        self.st = state
        try:
            try:
                v = f()
                return True, v, self.st
            except Dead:
                return False, None, None
        finally:
            self.st = old

    def branch(self, cond, f, g):
        cond = restrict(cond, self.st.ctx)
        if cond is TRUE:
            return f()
        if cond is FALSE:
            return g()
        base = self.st
        s1 = base.fork(cond, True)
        s2 = base.fork(cond, False)
        i1, i2 = inconsistent(s1.ctx), inconsistent(s2.ctx)
        if i1 and i2:
            raise Dead()
        if i1:
            base.become(s2)
            return g()
        if i2:
            base.become(s1)
            return f()
        a1, v1, t1 = self.run_on(s1, f)
        a2, v2, t2 = self.run_on(s2, g)
        if not a1 and not a2:
            raise Dead()
        if a1 and not a2:
            base.become(t1)
            return v1
        if a2 and not a1:
            base.become(t2)
            return v2
        self.merge_into(base, cond, t1, t2)
        return self.merge_val(cond, v1, v2)

    def merge_into(self, base, cond, t1, t2):
        heap = {}
        h1, h2 = t1.heap, t2.heap
        for k, c1 in h1.items():
            c2 = h2.get(k, _MISSING)
            if c1 is c2 or c2 is _MISSING:
                heap[k] = c1
            else:
                heap[k] = self.merge_content(cond, c1, c2)
        for k, c2 in h2.items():
            if k not in h1:
                heap[k] = c2
        base.heap = heap
        with using(ROOT):
            base.pc = or_(t1.pc, t2.pc) if t1.pc is not t2.pc else t1.pc
            # the union of complementary branches is the entry condition
        base.ctx = base.ctx
        return base

    def merge_content(self, cond, a, b):
        if type(a) is not type(b):
            if isinstance(a, (Arr, ViewC)) or isinstance(b, (Arr, ViewC)):
                return BadC('merge of array and view')
            return BadC('merge of different objects')
        if isinstance(a, Arr):
            return self.merge_arr(cond, a, b)
        if isinstance(a, (ObjC, FrameC)):
            fa = a.fields if isinstance(a, ObjC) else a.vars
            fb = b.fields if isinstance(b, ObjC) else b.vars
            if fa is fb:
                return a
            out = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                va, vb = fa.get(k, UNBOUND), fb.get(k, UNBOUND)
                out[k] = va if va is vb else self.merge_val(cond, va, vb)
            return ObjC(a.cls, out) if isinstance(a, ObjC) else FrameC(out)
        if isinstance(a, Seq):
            if a == b:
                return a
            i = 0
            while i < len(a.segs) and i < len(b.segs) and a.segs[i] == b.segs[i]:
                i += 1
            ra, rb = a.segs[i:], b.segs[i:]
            if len(ra) == len(rb) and all(isinstance(x, Item) for x in ra + rb):
                return Seq(a.segs[:i] + tuple(Item(self.merge_val(cond, x.v, y.v)) for x, y in zip(ra, rb)))
            mid = ()
            if ra:
                mid += (When(cond, ra),)
            if rb:
                mid += (When(not_(cond), rb),)
            return Seq(a.segs[:i] + mid)
        if isinstance(a, DictC):
            if a == b:
                return a
            ka = [e[0] if isinstance(e, tuple) else e for e in a.entries]
            kb = [e[0] if isinstance(e, tuple) else e for e in b.entries]
            if ka == kb:
                out = []
                for x, y in zip(a.entries, b.entries):
                    if isinstance(x, tuple):
                        out.append((x[0], self.merge_val(cond, x[1], y[1])))
                    else:
                        out.append(x)
                return DictC(out)
            if all(isinstance(e, (tuple, DIf)) for e in a.entries + b.entries):
                out = []
                n = 0
                for x, y in zip(a.entries, b.entries):
                    if x == y:
                        out.append(x)
                    elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
                        out.append((x[0], self.merge_val(cond, x[1], y[1])))
                    else:
                        break
                    n += 1
                with using(self.st.ctx):
                    for c, es in ((cond, a.entries[n:]), (not_(cond), b.entries[n:])):
                        for e in es:
                            if isinstance(e, tuple):
                                out.append(DIf(c, e[0], e[1]))
                            else:
                                out.append(DIf(and_(c, e.cond), e.key, e.val))
                return DictC(out)
            return BadC('merge of dicts with different keys')
        if a == b:
            return a
        return BadC('merge of %s' % type(a).__name__)

    def merge_arr(self, cond, a, b):
        if a is b:
            return a
        if len(a.dims) != len(b.dims):
            return BadC('merge of arrays of different rank')
        with using(self.st.ctx):
            dims = []
            for x, y in zip(a.dims, b.dims):
                dims.append(x if x is y else ite(cond, x, y))
        ta, tb = a.term(), b.term()
        if ta is tb and a.meta is b.meta:
            return a
        r = Arr(dims, lambda idx: ite(cond, get(ta, *idx), get(tb, *idx)),
                dtype=a.dtype if a.dtype == b.dtype else 'f', sparse=a.sparse and b.sparse)
        if r.sparse and (a.meta or {}).get('fmt') == (b.meta or {}).get('fmt', 0):
            r.meta = {'fmt': a.meta['fmt']}
        return r

    def merge_val(self, cond, a, b):
        if a is b or (type(a) is type(b) and a == b):
            return a
        if isinstance(a, T) and isinstance(b, T):
            with using(self.st.ctx):
                return ite(cond, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.segs) == len(b.segs) and \
                all(isinstance(x, Item) for x in a.segs + b.segs):
            return tup(*[self.merge_val(cond, x.v, y.v) for x, y in zip(a.segs, b.segs)])
        return PhiV(cond, a, b)

    def distribute(self, v, f):
        """Apply f to the alternatives of a gated value."""
        if isinstance(v, PhiV):
            return self.branch(v.cond, lambda: self.distribute(v.a, f), lambda: self.distribute(v.b, f))
        if isinstance(v, T) and v.op == 'I' and leafkinds(v) - {'Q'} and not is_bool(v):
            c, t, e = v.a
            return self.branch(mk('I', c, TRUE, FALSE), lambda: self.distribute(t, f),
                               lambda: self.distribute(e, f))
        return f(v)

    def settle(self, v):
        """Resolve gates of v that the context decides."""
        if isinstance(v, PhiV):
            c = restrict(v.cond, self.st.ctx)
            if c is TRUE:
                return self.settle(v.a)
            if c is FALSE:
                return self.settle(v.b)
            return v
        if isinstance(v, T) and v.op == 'I':
            return restrict(v, self.st.ctx)
        return v

    # ------------------------------------------------------------ modules
    def find_module(self, name):
        for p in self.paths:
            base = os.path.join(p, *name.split('.'))
            if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
                return os.path.join(base, '__init__.py')
            if os.path.exists(base + '.py'):
                return base + '.py'
        return None

    def tree(self, path):
        t = self.trees.get(path)
        if t is None:
            with open(path) as fh:
                src = fh.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                t = ast.parse(src, path)
            self.trees[path] = t
        return t

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.find_module(name)
        if path is None:
            return self.ext_module(name)
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        else:
            parent = None
        fr = self.alloc(FrameC({'__name__': const(name)}), Frame)
        rel = os.path.relpath(path, self.repo)
        m = ModV(name, fr, rel if not rel.startswith('..') else path)
        self.modules[name] = m
        tree = self.tree(path)
        old, oldn = self.env, self.node
        self.env = Env(fr, None, (), m, None, '<module>')
        self.env.rets = []
        try:
            self.block(tree.body)
        finally:
            self.env, self.node = old, oldn
        if parent is not None and isinstance(parent, ModV):
            pc = self.content(parent.frame)
            self.setc(parent.frame, pc.set(name.rsplit('.', 1)[1], m))
        return m

    def ext_module(self, name):
        if name == 'autograd.numpy' or name.startswith('autograd.numpy.'):
            return ExtV('np' + name[len('autograd.numpy'):], True)
        if name == 'autograd.scipy' or name.startswith('autograd.scipy.'):
            return ExtV('sp' + name[len('autograd.scipy'):], True)
        if name in EXT_MODULES:
            return ExtV(EXT_MODULES[name])
        root = name.split('.')[0]
        if root in EXT_MODULES:
            return ExtV(EXT_MODULES[root] + name[len(root):])
        return ExtV(name)

    def ext_attr(self, v, name):
        if v.path == 'autograd':
            if name == 'numpy':
                return ExtV('np', True)
            if name == 'scipy':
                return ExtV('sp', True)
        p = v.path + '.' + name
        k = self.M.CONSTS.get(p)
        if k is not None:
            return k
        return ExtV(p, v.ag)

    # ------------------------------------------------------------ names
    def getvar(self, name):
        env = self.env
        fv = self.st.heap[env.frame.oid].vars
        if env.locs is None or name in env.locs:
            if name in fv:
                v = fv[name]
                if v is UNBOUND:
                    self.praise('UnboundLocalError', name)
                if isinstance(v, PhiV):
                    v = self.check_unbound(v, name)
                    v = self.settle(v)
                elif isinstance(v, T) and v.op == 'I':
                    v = restrict(v, self.st.ctx)
                if isinstance(v, HavocV):
                    raise Unsupported('loop-carried %s' % name)
                return v
            if env.locs is not None:
                self.praise('UnboundLocalError', "local variable '%s' referenced before assignment" % name)
        for fr in env.chain:
            fvars = self.st.heap[fr.oid].vars
            if name in fvars:
                v = self.settle(fvars[name])
                if isinstance(v, HavocV):
                    raise Unsupported('loop-carried %s' % name)
                if v is UNBOUND:
                    self.praise('NameError', name)
                return v
        g = self.st.heap[env.mod.frame.oid].vars if env.mod else {}
        if name in g:
            if self.reads is not None:
                self.reads.add((env.mod.name, name))
            return self.settle(g[name])
        if name in _EXC:
            return _EXC[name]
        if name == 'object':
            return OBJECT
        x = self.contract_intrinsic(name)
        if x is not None:
            return x
        if name in _BUILTINS:
            return Builtin('py:' + name)
        if name == 'NotImplemented':
            return const('NotImplemented')
        if name == '__name__':
            return const(env.mod.name)
        if hasattr(_pyb, name):
            raise Unsupported('builtin %s' % name)
        self.praise('NameError', "name '%s' is not defined" % name)

    def check_unbound(self, v, name):
        if isinstance(v, PhiV):
            if v.a is UNBOUND:
                self.raise_if(v.cond, 'UnboundLocalError', name)
                return v.b
            if v.b is UNBOUND:
                self.raise_if(not_(v.cond), 'UnboundLocalError', name)
                return v.a
        return v

    def contract_intrinsic(self, name):
        if self.env.mod is not None and name in self.intrinsics and \
                not self.env.mod.name.startswith(self.PKG):
            return Builtin('ct:' + name)
        return None

    intrinsics = {}

    def setvar(self, name, v):
        env = self.env
        if name in env.globs:
            # global or nonlocal
            for fr in env.chain:
                if name in self.st.heap[fr.oid].vars:
                    self.setc(fr, self.st.heap[fr.oid].set(name, v))
                    return
            self.setc(env.mod.frame, self.st.heap[env.mod.frame.oid].set(name, v))
            return
        self.setc(env.frame, self.st.heap[env.frame.oid].set(name, v))

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__') and self.env.cls is not None:
            return '_%s%s' % (self.env.cls.name.lstrip('_'), name)
        return name

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.node = s
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported('out of fuel')
        getattr(self, 's_' + type(s).__name__, self.s_unknown)(s)

    def s_unknown(self, s):
        raise Unsupported('statement %s' % type(s).__name__)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Global(self, s):
        self.env.globs = tuple(self.env.globs) + tuple(s.names)

    s_Nonlocal = s_Global

    def s_Import(self, s):
        for al in s.names:
            m = self.import_module(al.name)
            if al.asname:
                self.setvar(al.asname, m)
            else:
                root = al.name.split('.')[0]
                r = self.import_module(root)
                self.setvar(root, r)

    def s_ImportFrom(self, s):
        base = s.module or ''
        if s.level:
            parts = self.env.mod.name.split('.')
            path = self.find_module(self.env.mod.name) or ''
            if not path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([base] if base else []))
        m = self.import_module(base)
        for al in s.names:
            if al.name == '*':
                if isinstance(m, ModV):
                    for k, v in self.content(m.frame).vars.items():
                        if not k.startswith('_'):
                            self.setvar(k, v)
                    continue
                raise Unsupported('import *')
            if isinstance(m, ModV):
                c = self.content(m.frame).vars
                if al.name in c:
                    v = c[al.name]
                elif self.find_module(base + '.' + al.name):
                    v = self.import_module(base + '.' + al.name)
                else:
                    self.praise('ImportError', 'cannot import name %s' % al.name)
            elif isinstance(m, ExtV):
                v = self.ext_attr(m, al.name)
            self.setvar(al.asname or al.name, v)

    def make_func(self, s, kind='func'):
        a = s.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {x.arg: self.eval(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        env = self.env
        name = s.name if hasattr(s, 'name') else '<lambda>'
        if env.locs is None:
            frames = env.chain
        else:
            frames = (env.frame,) + tuple(env.chain)
        qual = name if env.qual == '<module>' else env.qual + '.' + name
        return FuncV(s, env.mod, frames, qual, defaults, kwd, cls=env.cls)

    def s_FunctionDef(self, s):
        f = self.make_func(s)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            v = self.call(dv, [v], {})
        self.setvar(self.mangle(s.name), v)

    def s_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        bs = []
        for b in bases:
            if isinstance(b, ClassV):
                bs.append(b)
            elif isinstance(b, ExtV):
                raise Unsupported('external base class %s' % b.path)
        fr = self.alloc(FrameC({}), Frame)
        old = self.env
        qual = s.name if old.qual == '<module>' else old.qual + '.' + s.name
        chain = old.chain if old.locs is None else (old.frame,) + tuple(old.chain)
        cls = ClassV(s.name, old.mod, bs or [OBJECT], {}, s)
        e = Env(fr, None, chain, old.mod, cls, qual)
        self.env = e
        try:
            self.block(s.body)
        finally:
            self.env = old
        cls.ns = dict(self.content(fr).vars)
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), [v], {})
        self.setvar(s.name, v)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.env.rets is None:
            raise Unsupported('return')
        self.env.rets.append((self.st.fork(), v))
        raise Dead()

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def assign(self, t, v):
        self.node = t
        if isinstance(t, ast.Name):
            self.setvar(self.mangle(t.id) if self.env.locs is None and self.env.cls else t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval(t.slice)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, v):
        segs = self.iter_segs(v)
        vals = self.concrete(segs)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if vals is None:
            raise Unsupported('unpacking a symbolic sequence')
        if star:
            i = star[0]
            n = len(elts) - 1
            if len(vals) < n:
                self.praise('ValueError', 'not enough values to unpack')
            k = len(vals) - n
            for e, x in zip(elts[:i], vals[:i]):
                self.assign(e, x)
            self.assign(elts[i].value, self.new_list(items(*vals[i:i + k])))
            for e, x in zip(elts[i + 1:], vals[i + k:]):
                self.assign(e, x)
            return
        if len(vals) != len(elts):
            self.praise('ValueError', 'wrong number of values to unpack')
        for e, x in zip(elts, vals):
            self.assign(e, x)

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            new = self.inplace(op, old, self.eval(s.value))
            self.setvar(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            name = self.mangle(t.attr)
            old = self.getattr(o, name)
            self.setattr(o, name, self.inplace(op, old, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval(t.slice)
            old = self.getitem(o, i)
            rhs = self.eval(s.value)
            if isinstance(o, ARef) and type(o) is ARef:
                self.setitem(o, i, self.binop(op, old, rhs))
            else:
                self.setitem(o, i, self.inplace(op, old, rhs))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, old, rhs):
        if isinstance(old, PhiV) or isinstance(rhs, PhiV):
            return self.distribute(old, lambda a: self.distribute(rhs, lambda b: self.inplace(op, a, b)))
        if type(old) is ARef:
            a = self.arr(old)
            if a.sparse or self.is_boxed(old) or self.is_boxed(rhs):
                return self.binop(op, old, rhs)
            new = self.binop(op, old, rhs)
            na = self.asarr(new)
            if len(na.dims) != len(a.dims):
                self.praise('ValueError', 'non-broadcastable output operand')
            for x, y in zip(na.dims, a.dims):
                self.raise_if(not_(eq0(sub(x, y))), 'ValueError', 'non-broadcastable output operand')
            if a.dtype in ('i', 'b') and na.dtype not in ('i', 'b'):
                if a.dtype == 'i':
                    self.praise('TypeError', 'cannot cast ufunc output to integer array')
            self.store_array(old, Arr(a.dims, na.fn, dtype=a.dtype, term=na._t))
            return old
        if type(old) is LRef and op == 'Add':
            segs = self.iter_segs(rhs)
            c = self.content(old)
            self.setc(old, Seq(c.segs + tuple(segs)))
            return old
        if isinstance(old, Inst):
            d = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__'}.get(op)
            f, _ = self.content(old).cls.lookup(d) if d else (None, None)
            if f is not None:
                return self.call(BoundV(f, old), [rhs], {})
        return self.binop(op, old, rhs)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                i = self.eval(t.slice)
                self.delitem(o, i)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                c = self.content(o)
                f = dict(c.fields)
                f.pop(self.mangle(t.attr), None)
                self.setc(o, ObjC(c.cls, f))
            else:
                raise Unsupported('del')

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test))
        self.node = s
        self.raise_if(not_(restrict(c, self.st.ctx)), 'AssertionError', ast.unparse(s.test)[:60])

    def s_Raise(self, s):
        if s.exc is None:
            cur = self.env_exc[-1] if self.env_exc else ExcV(_EXC['RuntimeError'])
            self.praise(cur)
        v = self.eval(s.exc)
        self.node = s
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if not isinstance(v, ExcV):
            if isinstance(v, Inst):
                v = ExcV(self.content(v).cls, (v,))
            else:
                raise Unsupported('raise %r' % (v,))
        self.praise(v)

    env_exc = []

    def exc_matches(self, exc, handler):
        if handler.type is None:
            return True
        t = self.eval(handler.type)
        ts = self.concrete(t.segs) if isinstance(t, Tup) else [t]
        for c in ts:
            if isinstance(c, ClassV):
                if c in exc.cls.mro():
                    return True
            elif isinstance(c, ExtV):
                if c.path.endswith('LinAlgError') and exc.cls.name == 'LinAlgError':
                    return True
            else:
                raise Unsupported('except clause')
        return False

    def s_Try(self, s):
        old_raised = self.raised
        coll = []
        rets_before = len(self.env.rets) if self.env.rets is not None else 0
        brk_before = len(self.env.brks) if self.env.brks is not None else 0
        cont_before = len(self.env.conts) if self.env.conts is not None else 0
        outs = []           # surviving states
        base = self.st

        def run(f, state):
            alive, _, t = self.run_on(state, f)
            if alive:
                outs.append(t)
        self.raised = coll
        try:
            alive, _, t = self.run_on(base.fork(), lambda: self.block(s.body))
        finally:
            self.raised = old_raised
        pend = []
        handled = []
        for r in coll:
            h = None
            for hd in s.handlers:
                if self.exc_matches(r.exc, hd):
                    h = hd
                    break
            if h is None:
                pend.append(r)
            else:
                handled.append((h, r))
        coll2 = []
        if s.finalbody:
            self.raised = coll2
        try:
            if alive:
                if s.orelse:
                    a2, _, t2 = self.run_on(t, lambda: self.block(s.orelse))
                    if a2:
                        outs.append(t2)
                else:
                    outs.append(t)
            for h, r in handled:
                def hb(h=h, r=r):
                    if h.name:
                        self.setvar(h.name, r.exc)
                    Machine.env_exc.append(r.exc)
                    try:
                        self.block(h.body)
                    finally:
                        Machine.env_exc.pop()
                run(hb, r.state.fork())
        finally:
            self.raised = old_raised
        if s.finalbody:
            pend = pend + coll2
            # every way of leaving runs the finally block
            new_outs = []
            for o in outs:
                a, _, t2 = self.run_on(o, lambda: self.block(s.finalbody))
                if a:
                    new_outs.append(t2)
            outs = new_outs
            for lst, start in ((self.env.rets, rets_before),):
                if lst is None:
                    continue
                leaving = lst[start:]
                del lst[start:]
                for st2, v in leaving:
                    a, _, t2 = self.run_on(st2, lambda: self.block(s.finalbody))
                    if a:
                        lst.append((t2, v))
            for lst, start in ((self.env.brks, brk_before), (self.env.conts, cont_before)):
                if lst is not None and len(lst) > start:
                    raise Unsupported('break through finally')
            for r in pend:
                a, _, t2 = self.run_on(r.state.fork(), lambda: self.block(s.finalbody))
                if a:
                    self.raised.append(Raised(r.cond, r.exc, r.loc, t2))
        else:
            self.raised.extend(pend)
        if not outs:
            raise Dead()
        self.join(outs)

    def join(self, outs):
        """Merge several states into the current one."""
        cur = outs[-1]
        base = self.st
        for o in reversed(outs[:-1]):
            n = State(dict(base.heap), base.ctx, base.pc)
            cond = restrict(o.pc, base.ctx)
            self.merge_into(n, cond, o, cur)
            cur = n
        if len(outs) == 1:
            base.become(cur)
        else:
            base.heap, base.pc = cur.heap, cur.pc

    def s_With(self, s):
        exits = []
        for it in s.items:
            cm = self.eval(it.context_expr)
            if isinstance(cm, Inst):
                f, _ = self.content(cm).cls.lookup('__enter__')
                if f is None:
                    self.praise('AttributeError', '__enter__')
                v = self.call(BoundV(f, cm), [], {})
                exits.append(cm)
            elif isinstance(cm, ExtObj) and cm.path in ('warnings.catch_warnings', 'contextlib.suppress',
                                                        'np.errstate', 'contextlib.nullcontext'):
                v = NONE
            elif isinstance(cm, ExtObj):
                raise Unsupported('with %s' % cm.path)
            elif isinstance(cm, GenCM):
                v = self.gencm_enter(cm)
                exits.append(cm)
            else:
                raise Unsupported('with %r' % (cm,))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        if not exits:
            self.block(s.body)
            return
        rets_before = len(self.env.rets)
        old = self.raised
        coll = []
        self.raised = coll
        base = self.st
        try:
            alive, _, t = self.run_on(base.fork(), lambda: self.block(s.body))
        finally:
            self.raised = old

        def leave():
            for cm in reversed(exits):
                if isinstance(cm, GenCM):
                    self.gencm_exit(cm)
                else:
                    f, _ = self.content(cm).cls.lookup('__exit__')
                    self.call(BoundV(f, cm), [NONE, NONE, NONE], {})
        leaving = self.env.rets[rets_before:]
        del self.env.rets[rets_before:]
        for st2, v in leaving:
            a, _, t2 = self.run_on(st2, leave)
            if a:
                self.env.rets.append((t2, v))
        for r in coll:
            a, _, t2 = self.run_on(r.state.fork(), leave)
            if a:
                self.raised.append(Raised(r.cond, r.exc, r.loc, t2))
        if not alive:
            raise Dead()
        base.become(t)
        leave()

    def gencm_enter(self, cm):
        raise Unsupported('generator context manager')

    gencm_exit = gencm_enter

    def s_Break(self, s):
        if self.env.brks is None:
            raise Unsupported('break in a summarised loop')
        self.env.brks.append(self.st.fork())
        raise Dead()

    def s_Continue(self, s):
        if self.env.conts is None:
            raise Unsupported('continue')
        self.env.conts.append(self.st.fork())
        raise Dead()

    def iteration(self, body):
        """One loop iteration with continue support, on the current state."""
        old = self.env.conts
        self.env.conts = []
        base = self.st
        try:
            alive, _, t = self.run_on(base.fork(), body)
            outs = ([t] if alive else []) + self.env.conts
        finally:
            self.env.conts = old
        if not outs:
            raise Dead()
        if len(outs) == 1:
            base.become(outs[0])
        else:
            self.join(outs)

    def unrolled(self, bodies, orelse):
        """Run a known list of iterations with break support."""
        old = self.env.brks
        self.env.brks = []
        base = self.st
        try:
            def go():
                for b in bodies:
                    self.iteration(b)
                if orelse:
                    self.block(orelse)
            alive, _, t = self.run_on(base.fork(), go)
            outs = ([t] if alive else []) + self.env.brks
        finally:
            self.env.brks = old
        if not outs:
            raise Dead()
        if len(outs) == 1:
            base.become(outs[0])
        else:
            self.join(outs)

    def s_For(self, s):
        it = self.eval(s.iter)
        self.node = s
        self.for_each(it, lambda v: self.assign(s.target, v), lambda: self.block(s.body), s.orelse)

    def for_each(self, it, bind, body, orelse=()):
        if isinstance(it, PhiV):
            self.distribute(it, lambda x: self.for_each(x, bind, body, orelse))
            return
        segs = self.iter_segs(it, small=True)
        vals = self.concrete(segs)
        if vals is not None:
            def mkb(v):
                def b():
                    bind(v)
                    body()
                return b
            self.unrolled([mkb(v) for v in vals], orelse)
            return
        for sg in segs:
            self.seg_loop(sg, bind, body)
        if orelse:
            self.block(orelse)

    def seg_loop(self, sg, bind, body):
        if isinstance(sg, Item):
            def b():
                bind(sg.v)
                body()
            self.unrolled([b], ())
        elif isinstance(sg, When):
            def run():
                for x in sg.segs:
                    self.seg_loop(x, bind, body)
            self.branch(sg.cond, run, lambda: None)
        elif isinstance(sg, For):
            n = fresh_index(sg.lo, sg.hi)
            segs = self.subst_segs(sg.segs, {sg.var: atom(n)})

            def run():
                for x in segs:
                    self.seg_loop(x, bind, body)
            self.sym_loop(n, sg.lo, sg.hi, run)
        else:
            raise Unsupported('iteration over %r' % (sg,))

    # ------------------------------------------------------------ expressions
    def eval(self, n):
        return getattr(self, 'e_' + type(n).__name__, self.e_unknown)(n)

    def e_unknown(self, n):
        raise Unsupported('expression %s' % type(n).__name__)

    def e_Constant(self, n):
        v = n.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, (str, bytes)):
            return const(v)
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, n):
        self.node = n if self.node is None else self.node
        return self.getvar(n.id if self.env.locs is not None or not self.env.cls else self.mangle(n.id))

    def e_Tuple(self, n):
        return Tup(self.elems(n.elts))

    def e_List(self, n):
        return self.new_list(self.elems(n.elts))

    def e_Set(self, n):
        return self.alloc(Seq(self.elems(n.elts)), SetRef)

    def elems(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iter_segs(self.eval(e.value)))
            else:
                out.append(Item(self.eval(e)))
        return tuple(out)

    def e_Dict(self, n):
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v)
                for e in self.content(src).entries:
                    if isinstance(e, tuple):
                        self.setitem(d, e[0], e[1])
                    else:
                        raise Unsupported('dict unpack')
            else:
                kk = self.eval(k)
                self.setitem(d, kk, self.eval(v))
        return d

    def e_Attribute(self, n):
        o = self.eval(n.value)
        self.node = n
        return self.getattr(o, self.mangle(n.attr))

    def e_Subscript(self, n):
        o = self.eval(n.value)
        i = self.eval(n.slice)
        self.node = n
        return self.getitem(o, i)

    def e_Index(self, n):
        return self.eval(n.value)

    def e_Slice(self, n):
        f = lambda x: self.eval(x) if x is not None else NONE
        return SliceV(f(n.lower), f(n.upper), f(n.step))

    def e_Lambda(self, n):
        return self.make_func(n)

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        return self.branch(c, lambda: self.eval(n.body), lambda: self.eval(n.orelse))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(i):
            v = self.eval(n.values[i])
            if i == len(n.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(i + 1), lambda: v)
            return self.branch(c, lambda: v, lambda: go(i + 1))
        return go(0)

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        self.node = n
        return self.unary(type(n.op).__name__, v)

    def unary(self, op, v):
        if op == 'Not':
            with using(self.st.ctx):
                return not_(restrict(self.truth(v)))
        if isinstance(v, PhiV):
            return self.distribute(v, lambda x: self.unary(op, x))
        if op == 'USub':
            return self.binop('Mult', num(-1), v)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, T) and is_bool(v):
                return not_(v)
            if type(v) is ARef:
                a = self.arr(v)
                if a.dtype == 'b':
                    return self.new_array(Arr(a.dims, lambda i: not_(a[i]), dtype='b'))
        raise Unsupported('unary %s' % op)

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        self.node = n
        return self.binop(type(n.op).__name__, a, b)

    def e_Compare(self, n):
        left = self.eval(n.left)

        def go(i, left):
            right = self.eval(n.comparators[i])
            self.node = n
            r = self.compare(type(n.ops[i]).__name__, left, right)
            if i == len(n.ops) - 1:
                return r
            c = self.truth(r)
            return self.branch(c, lambda: go(i + 1, right), lambda: r)
        return go(0, left)

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.M.to_str(self, self.eval(v.value)))
        return self.M.str_cat(parts)

    def e_FormattedValue(self, n):
        return self.M.to_str(self, self.eval(n.value))

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.setvar(n.target.id, v)
        return v

    def e_Starred(self, n):
        raise Unsupported('starred')

    def e_ListComp(self, n):
        return self.comp(n, n.elt)

    def e_GeneratorExp(self, n):
        r = self.comp(n, n.elt)
        return IterV(self.content(r).segs)

    def e_SetComp(self, n):
        r = self.comp(n, n.elt)
        return self.alloc(Seq(self.content(r).segs), SetRef)

    def e_DictComp(self, n):
        d = self.new_dict()
        self.comp(n, None, lambda: self.setitem(d, self.eval(n.key), self.eval(n.value)))
        return d

    def comp(self, n, elt, action=None):
        out = self.new_list(())
        it0 = self.eval(n.generators[0].iter)
        fr = self.alloc(FrameC({}), Frame)
        old = self.env
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        if old.locs is None and old.cls is None:
            chain = old.chain
        elif old.locs is None:
            chain = old.chain
        else:
            chain = (old.frame,) + tuple(old.chain)
        env = Env(fr, frozenset(names), chain, old.mod, old.cls, old.qual)
        env.globs = ()
        env.rets = None

        def level(i, it):
            g = n.generators[i]

            def body():
                def rest():
                    if i + 1 < len(n.generators):
                        level(i + 1, self.eval(n.generators[i + 1].iter))
                    elif action is not None:
                        action()
                    else:
                        v = self.eval(elt)
                        c = self.content(out)
                        self.setc(out, Seq(c.segs + (Item(v),)))

                def filt(j):
                    if j == len(g.ifs):
                        rest()
                    else:
                        c = self.truth(self.eval(g.ifs[j]))
                        self.branch(c, lambda: filt(j + 1), lambda: None)
                filt(0)
            self.for_each(it, lambda v: self.assign(g.target, v), body)
        self.env = env
        try:
            level(0, it0)
        finally:
            self.env = old
        return out

    def e_Call(self, n):
        self.callsites += 1
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            cls = self.env.cls
            sv = self.env.selfv
            e = self.env
            if cls is None or sv is None:
                raise Unsupported('super()')
            return SuperV(cls, sv)
        f = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                segs = self.iter_segs(self.eval(a.value))
                vals = self.concrete(segs)
                if vals is None:
                    raise Unsupported('symbolic *args')
                args.extend(vals)
            else:
                args.append(self.eval(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                for e in self.content(d).entries:
                    if not isinstance(e, tuple) or e[0].op != 'c':
                        raise Unsupported('symbolic **kwargs')
                    if e[0].a[1] in kw:
                        self.praise('TypeError', 'multiple values for keyword argument')
                    kw[e[0].a[1]] = e[1]
            else:
                if k.arg in kw:
                    self.praise('TypeError', 'repeated keyword argument')
                kw[k.arg] = self.eval(k.value)
        self.node = n
        r = self.call(f, args, kw)
        self.node = n
        return r

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, PhiV):
            return self.distribute(f, lambda g: self.call(g, args, kw))
        if isinstance(f, T) and f.op == 'I':
            return self.distribute(f, lambda g: self.call(g, args, kw) if not (isinstance(g, T) and g.op == 'I')
                                   else self.praise('TypeError', 'not callable'))
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Builtin):
            return self.M.call_builtin(self, f, args, kw)
        if isinstance(f, ExtV):
            return self.M.call_ext(self, f, args, kw)
        if isinstance(f, Inst):
            c = self.content(f)
            g, _ = c.cls.lookup('__call__')
            if g is not None:
                return self.call(BoundV(g, f), args, kw)
            self.praise('TypeError', "'%s' object is not callable" % c.cls.name)
        if isinstance(f, T) and self.M.isstr(f) and self.M.strof(f).startswith('dtype:'):
            # a numpy scalar type called as a conversion
            return self.M.EXT['np.array'](self, args[:1], {'dtype': f})
        if isinstance(f, (T, Tup)) or type(f) in (ARef, LRef, DRef):
            self.praise('TypeError', 'object is not callable')
        raise Unsupported('call of %r' % (f,))

    def bind_args(self, f, args, kw):
        node = f.node
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        name = f.qual
        if len(args) > len(pos) and not a.vararg:
            self.praise('TypeError', '%s() takes %d positional arguments but %d were given' % (name, len(pos), len(args)))
        for p, v in zip(pos, args):
            vals[p] = v
        if a.vararg:
            vals[a.vararg.arg] = tup(*args[len(pos):])
        extra = []
        kwonly = [x.arg for x in a.kwonlyargs]
        npo = len(a.posonlyargs)
        for k, v in kw.items():
            if k in pos[npo:] or k in kwonly:
                if k in vals:
                    self.praise('TypeError', "%s() got multiple values for argument '%s'" % (name, k))
                vals[k] = v
            elif a.kwarg:
                extra.append((const(k), v))
            else:
                self.praise('TypeError', "%s() got an unexpected keyword argument '%s'" % (name, k))
        if a.kwarg:
            vals[a.kwarg.arg] = self.new_dict(extra)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[p] = f.defaults[j]
                else:
                    self.praise('TypeError', "%s() missing required argument '%s'" % (name, p))
        for p in kwonly:
            if p not in vals:
                if p in f.kwdefaults:
                    vals[p] = f.kwdefaults[p]
                else:
                    self.praise('TypeError', "%s() missing keyword argument '%s'" % (name, p))
        return vals

    def call_func(self, f, args, kw):
        key = (f.module.name if f.module else '?', f.qual)
        if key in self.summaries:
            return self.summaries[key](f, args, kw)
        self.visited.add((f.module.path if f.module else '?', f.qual))
        if f.module and not f.module.path.startswith('/'):
            w = (f.module.path, f.qual, f.node.lineno)
            if w not in self.recent:
                self.recent.append(w)
        self.calls += 1
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Unsupported('recursion too deep in %s' % f.qual)
        if sum(1 for g in self.callstack if g is f.node) > 12:
            self.depth -= 1
            raise Unsupported('unbounded recursion in %s' % f.qual)
        self.callstack.append(f.node)
        old, oldn = self.env, self.node
        try:
            vals = self.bind_args(f, args, kw)
            if isinstance(f.node, ast.Lambda):
                locs = local_names(f.node)[0]
                fr = self.alloc(FrameC(vals), Frame)
                e = Env(fr, locs, f.frames, f.module, f.cls, f.qual)
                e.selfv = old.selfv if old is not None else None
                self.env = e
                self.node = f.node
                return self.eval(f.node.body)
            locs, globs, gen = local_names(f.node)
            if gen:
                return self.call_generator(f, vals, locs, globs)
            fr = self.alloc(FrameC(vals), Frame)
            e = Env(fr, locs, f.frames, f.module, f.cls, f.qual)
            e.globs = tuple(globs)
            e.rets = []
            na = f.node.args
            allp = na.posonlyargs + na.args
            e.selfv = vals.get(allp[0].arg) if allp else (self.find_self(f, old))
            self.env = e
            base = self.st
            alive, _, t = self.run_on(base.fork(), lambda: self.block(f.node.body))
            rets = e.rets
            if alive:
                rets.append((t, NONE))
            return self.finish_returns(base, rets)
        finally:
            self.env, self.node = old, oldn
            self.depth -= 1
            self.callstack.pop()

    def find_self(self, f, old):
        return old.selfv if old is not None else None

    def finish_returns(self, base, rets):
        if not rets:
            raise Dead()
        cur_st, cur_v = rets[-1]
        if len(rets) == 1:
            base.become(cur_st)
            return cur_v
        for st2, v in reversed(rets[:-1]):
            n = State(dict(base.heap), base.ctx, base.pc)
            with using(base.ctx):
                cond = restrict(st2.pc, base.ctx)
            self.merge_into(n, cond, st2, cur_st)
            old = self.st
            self.st = n
            try:
                cur_v = self.merge_val(cond, v, cur_v)
            finally:
                self.st = old
            cur_st = n
        base.heap, base.pc = cur_st.heap, cur_st.pc
        # facts: whatever holds on every return path is not kept, except
        # that raising paths are excluded
        with using(base.ctx):
            allpc = FALSE
            for st2, _ in rets:
                allpc = or_(allpc, restrict(st2.pc, base.ctx))
        if allpc is not TRUE:
            base.ctx = assume_ctx(base.ctx, allpc)
        return cur_v

    def call_generator(self, f, vals, locs, globs):
        """A generator function: collect what it yields (eagerly)."""
        fr = self.alloc(FrameC(vals), Frame)
        e = Env(fr, locs, f.frames, f.module, f.cls, f.qual)
        e.globs = tuple(globs)
        e.rets = []
        self.env = e
        out = self.new_list(())
        self.genstack.append(out)
        try:
            base = self.st
            alive, _, t = self.run_on(base.fork(), lambda: self.block(f.node.body))
            rets = e.rets
            if alive:
                rets.append((t, NONE))
            self.finish_returns(base, rets)
            return IterV(self.content(out).segs)
        finally:
            self.genstack.pop()

    genstack = []

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else NONE
        out = self.genstack[-1]
        self.setc(out, Seq(self.content(out).segs + (Item(v),)))
        return NONE

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        out = self.genstack[-1]
        self.setc(out, Seq(self.content(out).segs + tuple(self.iter_segs(v))))
        return NONE

    def instantiate(self, cls, args, kw):
        if any(c.name == 'BaseException' for c in cls.mro()):
            if cls.ext or '__init__' not in cls.ns:
                return ExcV(cls, args)
        o = self.alloc(ObjC(cls, {}), Inst)
        f, c = cls.lookup('__init__')
        if f is not None:
            self.call(BoundV(f, o), args, kw)
        elif args or kw:
            self.praise('TypeError', '%s() takes no arguments' % cls.name)
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=None):
        if isinstance(o, PhiV):
            return self.distribute(o, lambda x: self.getattr(x, name, default))
        if isinstance(o, T) and o.op == 'I':
            kinds = leafkinds(o)
            if len(kinds) > 1:
                return self.distribute(o, lambda x: self.getattr(x, name, default))
        if isinstance(o, Inst):
            c = self.content(o)
            if isinstance(c, Frozen):
                c = c.content
            if isinstance(c, BadC):
                raise Unsupported(c.reason)
            v, owner = c.cls.lookup(name)
            if isinstance(v, PropV):
                return self.call(BoundV(v.fget, o), [], {})
            if name in c.fields:
                x = self.settle(c.fields[name])
                if isinstance(x, PhiV) and (x.a is UNBOUND or x.b is UNBOUND):
                    bad = x.cond if x.a is UNBOUND else not_(x.cond)
                    self.raise_if(bad, 'AttributeError', name)
                    return x.b if x.a is UNBOUND else x.a
                if isinstance(x, HavocV):
                    raise Unsupported('loop-carried attribute %s' % name)
                return x
            if v is not None:
                return self.bind_attr(v, o, c.cls)
            if name == '__class__':
                return c.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            f, _ = c.cls.lookup('__getattr__')
            if f is not None:
                return self.call(BoundV(f, o), [const(name)], {})
            if default is not None:
                return default
            self.praise('AttributeError', "'%s' object has no attribute '%s'" % (c.cls.name, name))
        if isinstance(o, SuperV):
            c = self.content(o.self) if isinstance(o.self, Inst) else None
            start = c.cls if c is not None else o.self
            mro = start.mro()
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.ns:
                    v = k.ns[name]
                    return self.bind_attr(v, o.self, k)
            if name == '__init__':
                return Builtin('noop')
            self.praise('AttributeError', "'super' object has no attribute '%s'" % name)
        if isinstance(o, ClassV):
            v, _ = o.lookup(name)
            if v is not None:
                if isinstance(v, StaticV):
                    return v.f
                if isinstance(v, ClsMethV):
                    return BoundV(v.f, o)
                return v
            if name == '__name__':
                return const(o.name)
            if name == '__init__':
                return Builtin('noop')
            self.praise('AttributeError', "type object '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, ModV):
            c = self.content(o.frame).vars
            if name in c:
                if self.reads is not None:
                    self.reads.add((o.name, name))
                return self.settle(c[name])
            if self.find_module(o.name + '.' + name):
                if o.name + '.' + name in self.modules:
                    return self.import_module(o.name + '.' + name)
            self.praise('AttributeError', "module '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, ExtV):
            return self.ext_attr(o, name)
        if isinstance(o, ExtObj):
            for k, v in o.attrs:
                if k == name:
                    return v
            return Builtin('extobj', o, name)
        if isinstance(o, ExcV):
            if name == 'args':
                return tup(*o.args)
            raise Unsupported('exception attribute')
        if isinstance(o, (FuncV, Builtin, BoundV)):
            if name == '__name__':
                return const(getattr(o, 'qual', 'f').split('.')[-1])
            if name == '__doc__':
                return NONE
            if isinstance(o, FuncV) and o.attrs and name in o.attrs:
                return o.attrs[name]
            raise Unsupported('function attribute %s' % name)
        r = self.M.value_attr(self, o, name)
        if r is not None:
            return r
        if default is not None:
            return default
        self.praise('AttributeError', "'%s' object has no attribute '%s'" % (type(o).__name__, name))

    def bind_attr(self, v, o, cls):
        if isinstance(v, FuncV):
            return BoundV(v, o)
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClsMethV):
            return BoundV(v.f, cls)
        if isinstance(v, PropV):
            return self.call(BoundV(v.fget, o), [], {})
        if isinstance(v, Builtin) and v.name == 'primitive':
            return BoundV(v, o)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, PhiV):
            self.distribute(o, lambda x: self.setattr(x, name, v))
            return
        if isinstance(o, Inst):
            c = self.content(o)
            if isinstance(c, (BadC, Frozen)):
                raise Unsupported('attribute store on summarised object')
            p, _ = c.cls.lookup(name)
            if isinstance(p, PropV):
                if p.fset is None:
                    self.praise('AttributeError', "can't set attribute")
                self.call(BoundV(p.fset, o), [v], {})
                return
            f, _ = c.cls.lookup('__setattr__')
            if f is not None:
                self.call(BoundV(f, o), [const(name), v], {})
                return
            self.setc(o, c.set(name, v))
            return
        if isinstance(o, ModV):
            self.setc(o.frame, self.content(o.frame).set(name, v))
            return
        if isinstance(o, ClassV):
            if self.writelog is not None:
                self.writelog.add(('class', o.name, name))
            raise Unsupported('class attribute store')
        if type(o) is ARef and name == 'shape':
            a = self.arr(o)
            raise Unsupported('shape store')
        if isinstance(o, T):
            self.praise('AttributeError', name)
        raise Unsupported('attribute store on %r' % (o,))

    # delegate to models
    def truth(self, v):
        return self.M.truth(self, v)

    def binop(self, op, a, b):
        return self.M.binop(self, op, a, b)

    def compare(self, op, a, b):
        return self.M.compare(self, op, a, b)

    def getitem(self, o, i):
        return self.M.getitem(self, o, i)

    def setitem(self, o, i, v):
        return self.M.setitem(self, o, i, v)

    def delitem(self, o, i):
        return self.M.delitem(self, o, i)

    def asarr(self, v):
        return self.M.asarr(self, v)

    def is_boxed(self, v):
        return self.M.is_boxed(self, v)

    # ------------------------------------------------------------ sequences
    def iter_segs(self, v, small=False):
        if isinstance(v, PhiV):
            v = self.settle(v)
            if isinstance(v, PhiV):
                return (When(v.cond, self.iter_segs(v.a, small)),
                        When(not_(v.cond), self.iter_segs(v.b, small)))
        if isinstance(v, Tup):
            return self.norm_segs(v.segs)
        if type(v) in (LRef, SetRef):
            c = self.content(v)
            if isinstance(c, Frozen):
                c = c.content
            if isinstance(c, BadC):
                raise Unsupported(c.reason)
            return self.norm_segs(c.segs)
        if isinstance(v, IterV):
            return self.norm_segs(v.segs)
        if isinstance(v, DRef):
            c = self.content(v)
            if isinstance(c, BadC):
                raise Unsupported(c.reason)
            out = []
            for e in c.entries:
                if isinstance(e, tuple):
                    out.append(Item(e[0]))
                elif isinstance(e, DIf):
                    out.append(When(e.cond, (Item(e.key),)))
                else:
                    out.append(For(e.var, e.lo, e.hi, (Item(e.key),)))
            return tuple(out)
        if isinstance(v, RangeV):
            return self.range_segs(v, small)
        if type(v) is ARef:
            a = self.arr(v)
            if not a.dims:
                self.praise('TypeError', 'iteration over a 0-d array')
            n = self.settle(a.dims[0])
            if isnum(n) and numval(n) <= 8:
                return tuple(Item(self.getitem(v, num(i))) for i in range(int(numval(n))))
            k = fresh_index(ZERO, n)
            return (For(k, ZERO, n, (Item(self.getitem(v, atom(k))),)),)
        if isinstance(v, T):
            if v.op == 'c' and isinstance(v.a[1], str):
                return items(*[const(ch) for ch in v.a[1]])
            if v.op == 'Q' or v.op == 'B' or v is NONE:
                self.praise('TypeError', 'object is not iterable')
        if isinstance(v, Inst):
            c = self.content(v)
            f, _ = c.cls.lookup('__iter__')
            if f is not None:
                return self.iter_segs(self.call(BoundV(f, v), [], {}))
            f, _ = c.cls.lookup('__getitem__')
            if f is None:
                self.praise('TypeError', 'object is not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def norm_segs(self, segs):
        out = []
        for s in segs:
            if isinstance(s, When):
                c = restrict(s.cond, self.st.ctx)
                if c is TRUE:
                    out.extend(self.norm_segs(s.segs))
                    continue
                if c is FALSE:
                    continue
                out.append(When(c, s.segs))
            elif isinstance(s, PhiSeg):
                raise Unsupported('loop-carried list read')
            elif isinstance(s, For):
                n = restrict(sub(s.hi, s.lo), self.st.ctx)
                if isnum(n) and numval(n) <= SMALL:
                    for i in range(max(0, int(numval(n)))):
                        out.extend(self.norm_segs(self.subst_segs(s.segs, {s.var: add(s.lo, num(i))})))
                    continue
                out.append(s)
            else:
                out.append(s)
        return tuple(out)

    def range_segs(self, r, small=False):
        a, b, st = self.settle(r.start), self.settle(r.stop), self.settle(r.step)
        if isnum(a) and isnum(b) and isnum(st):
            lst = list(range(int(numval(a)), int(numval(b)), int(numval(st))))
            if len(lst) <= SMALL:
                return items(*[num(i) for i in lst])
        with using(self.st.ctx):
            if isnum(st):
                k = numval(st)
                if k == 1:
                    n = sub(b, a)
                    if restrict(le0(neg(n))) is TRUE:
                        if isnum(n) and numval(n) <= SMALL:
                            return items(*[add(a, num(i)) for i in range(int(numval(n)))])
                        v = fresh_index(a, b)
                        return (For(v, a, b, (Item(atom(v)),)),)
                    if restrict(le0(n)) is TRUE:
                        return ()
                    n = max_(n, ZERO)
                    v = fresh_index(ZERO, n)
                    return (For(v, ZERO, n, (Item(add(a, atom(v))),)),)
                if k < 0:
                    n = floordiv(add(sub(a, b), num(-k - 1)), num(-k)) if k != -1 else sub(a, b)
                else:
                    n = floordiv(add(sub(b, a), num(k - 1)), num(k))
                if restrict(le0(neg(n))) is not TRUE:
                    n = max_(n, ZERO)
                v = fresh_index(ZERO, n)
                return (For(v, ZERO, n, (Item(add(a, mul(st, atom(v)))),)),)
            if restrict(lt0(neg(st))) is TRUE:
                n = floordiv(sub(add(sub(b, a), st), ONE), st)
                if restrict(le0(neg(n))) is not TRUE:
                    n = max_(n, ZERO)
                v = fresh_index(ZERO, n)
                return (For(v, ZERO, n, (Item(add(a, mul(st, atom(v)))),)),)
        raise Unsupported('range step')

    def concrete(self, segs):
        out = []
        for s in segs:
            if isinstance(s, Item):
                out.append(s.v)
            else:
                return None
        return out

    def seg_len(self, segs):
        n = ZERO
        for s in segs:
            if isinstance(s, Item):
                n = add(n, ONE)
            elif isinstance(s, When):
                n = add(n, ite(s.cond, self.seg_len(s.segs), ZERO))
            elif isinstance(s, For):
                m = self.seg_len(s.segs)
                if s.var in m.fv:
                    n = add(n, sum_over(s.var, s.lo, s.hi, m))
                else:
                    n = add(n, mul(m, sub(s.hi, s.lo)))
            else:
                raise Unsupported('len')
        return n

    # ------------------------------------------------------------ substitution of values
    def subst_segs(self, segs, mp, memo=None):
        memo = {} if memo is None else memo
        out = []
        for s in segs:
            if isinstance(s, Item):
                out.append(Item(self.subst_val(s.v, mp, memo)))
            elif isinstance(s, When):
                out.append(When(subst(s.cond, mp), self.subst_segs(s.segs, mp, memo)))
            elif isinstance(s, For):
                lo, hi = subst(s.lo, mp), subst(s.hi, mp)
                v = fresh_index(lo, hi)
                m2 = dict(mp)
                m2[s.var] = atom(v)
                out.append(For(v, lo, hi, self.subst_segs(s.segs, m2, {})))
            else:
                out.append(s)
        return tuple(out)

    def subst_val(self, v, mp, memo=None):
        """Instantiate a value at particular loop-variable values."""
        memo = {} if memo is None else memo
        if isinstance(v, T):
            with using(self.st.ctx):
                return subst(v, mp)
        if isinstance(v, Tup):
            return Tup(self.subst_segs(v.segs, mp, memo))
        if isinstance(v, IterV):
            return IterV(self.subst_segs(v.segs, mp, memo))
        if isinstance(v, ARef):
            if v.oid in memo:
                return memo[v.oid]
            c = self.st.heap[v.oid]
            if not self.depends(v, mp, set()):
                return v
            c2 = c.content if isinstance(c, Frozen) else c
            if isinstance(v, Frame):
                raise Unsupported('closure over a loop variable')
            if isinstance(c2, ViewC):
                c2 = self.arr(v)
            self._oid += 1
            r = type(v)(self._oid)
            memo[v.oid] = r
            if isinstance(c2, Arr):
                with using(self.st.ctx):
                    t = subst(c2.term(), mp)
                    na = from_term2(t, c2)
                    if na.meta is not None:
                        na.meta = self.subst_meta(na.meta, mp, memo)
                self.st.heap[r.oid] = Frozen(na)
            elif isinstance(c2, Seq):
                self.st.heap[r.oid] = Frozen(Seq(self.subst_segs(c2.segs, mp, memo)))
            elif isinstance(c2, ObjC):
                self.st.heap[r.oid] = Frozen(ObjC(c2.cls, {k: self.subst_val(x, mp, memo) for k, x in c2.fields.items()}))
            elif isinstance(c2, DictC):
                if any(not isinstance(e, (tuple, DIf)) for e in c2.entries):
                    raise Unsupported('instantiate a symbolic dict')
                self.st.heap[r.oid] = DictC([(self.subst_val(e[0], mp, memo), self.subst_val(e[1], mp, memo))
                                             if isinstance(e, tuple) else
                                             DIf(subst(e.cond, mp), self.subst_val(e.key, mp, memo), self.subst_val(e.val, mp, memo))
                                             for e in c2.entries])
            else:
                raise Unsupported('instantiate %r' % (c2,))
            return r
        if isinstance(v, PhiV):
            c = restrict(subst(v.cond, mp), self.st.ctx)
            if c is TRUE:
                return self.subst_val(v.a, mp, memo)
            if c is FALSE:
                return self.subst_val(v.b, mp, memo)
            return PhiV(c, self.subst_val(v.a, mp, memo), self.subst_val(v.b, mp, memo))
        if isinstance(v, RangeV):
            return RangeV(subst(v.start, mp), subst(v.stop, mp), subst(v.step, mp))
        if isinstance(v, SliceV):
            f = lambda x: subst(x, mp) if isinstance(x, T) else x
            return SliceV(f(v.start), f(v.stop), f(v.step))
        if isinstance(v, BoundV):
            return BoundV(self.subst_val(v.func, mp, memo), self.subst_val(v.self, mp, memo))
        if isinstance(v, Builtin):
            return Builtin(v.name, *[self.subst_val(x, mp, memo) if isinstance(x, (V, T)) else x for x in v.cap])
        if isinstance(v, FuncV):
            if any(self.depends(Frame(f.oid), mp, set()) for f in v.frames):
                raise Unsupported('closure over a loop variable')
            return v
        return v

    def subst_meta(self, meta, mp, memo):
        out = {}
        for k, x in meta.items():
            if isinstance(x, tuple) and x and isinstance(x[0], Arr):
                out[k] = tuple(from_term2(subst(y.term(), mp), y) for y in x)
            else:
                out[k] = x
        return out

    def depends(self, v, mp, seen):
        keys = [k for k in mp]
        if isinstance(v, T):
            return any(k in v.fv if k.op in ('v', 'arr') else True for k in keys)
        if isinstance(v, (Tup, IterV)):
            return any(self.seg_depends(s, mp, seen) for s in v.segs)
        if isinstance(v, ARef):
            if v.oid in seen:
                return False
            seen.add(v.oid)
            c = self.st.heap.get(v.oid)
            if isinstance(c, Frozen):
                c = c.content
            if isinstance(c, ViewC):
                return self.depends(self.arr(v).term(), mp, seen)
            if isinstance(c, Arr):
                if any(self.depends(d, mp, seen) for d in c.dims):
                    return True
                return self.depends(c.term(), mp, seen)
            if isinstance(c, Seq):
                return any(self.seg_depends(s, mp, seen) for s in c.segs)
            if isinstance(c, ObjC):
                return any(self.depends(x, mp, seen) for x in c.fields.values())
            if isinstance(c, FrameC):
                return any(self.depends(x, mp, seen) for x in c.vars.values())
            if isinstance(c, DictC):
                return any(self.depends(e[0], mp, seen) or self.depends(e[1], mp, seen)
                           if isinstance(e, tuple) else True for e in c.entries)
            return False
        if isinstance(v, PhiV):
            return self.depends(v.cond, mp, seen) or self.depends(v.a, mp, seen) or self.depends(v.b, mp, seen)
        if isinstance(v, (RangeV, SliceV)):
            return any(self.depends(x, mp, seen) for x in (v.start, v.stop, v.step))
        if isinstance(v, BoundV):
            return self.depends(v.func, mp, seen) or self.depends(v.self, mp, seen)
        if isinstance(v, Builtin):
            return any(self.depends(x, mp, seen) for x in v.cap if isinstance(x, (V, T)))
        if isinstance(v, FuncV):
            return any(self.depends(Frame(f.oid), mp, seen) for f in v.frames)
        return False

    def seg_depends(self, s, mp, seen):
        if isinstance(s, Item):
            return self.depends(s.v, mp, seen)
        if isinstance(s, When):
            return self.depends(s.cond, mp, seen) or any(self.seg_depends(x, mp, seen) for x in s.segs)
        if isinstance(s, For):
            return self.depends(s.lo, mp, seen) or self.depends(s.hi, mp, seen) or \
                any(self.seg_depends(x, mp, seen) for x in s.segs)
        return False


def from_term2(t, like):
    a = from_term(t, dtype=like.dtype)
    a.sparse = like.sparse
    a.meta = like.meta
    return a


def leafkinds(x):
    out = set()

    def go(y):
        if y.op == 'I':
            go(y.a[1])
            go(y.a[2])
        else:
            out.add(y.op)
    go(x)
    return out


_MISSING = object()
