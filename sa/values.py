"""Abstract Python values and the abstract store."""
from .terms import *


class V(object):
    __slots__ = ()


class ARef(V):
    """Reference to an ndarray (or sparse matrix) object in the store."""
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return type(o) is type(self) and o.oid == self.oid

    def __hash__(self):
        return hash((type(self).__name__, self.oid))

    def __repr__(self):
        return '%s#%d' % (type(self).__name__, self.oid)


class LRef(ARef):
    __slots__ = ()


class DRef(ARef):
    __slots__ = ()


class SetRef(ARef):
    __slots__ = ()


class Inst(ARef):
    __slots__ = ()


class Frame(ARef):
    __slots__ = ()


class Cell(ARef):
    __slots__ = ()


class Tup(V):
    """Tuple: a sequence of segments."""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.segs == self.segs

    def __hash__(self):
        return hash(('Tup', self.segs))

    def __repr__(self):
        return 'Tup%r' % (self.segs,)


class Item(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Item) and o.v == self.v

    def __hash__(self):
        return hash(('Item', self.v))

    def __repr__(self):
        return repr(self.v)


class For(V):
    """Comprehension segment: segs for var in [lo, hi)."""
    __slots__ = ('var', 'lo', 'hi', 'segs')

    def __init__(self, var, lo, hi, segs):
        self.var, self.lo, self.hi, self.segs = var, lo, hi, tuple(segs)

    def __eq__(self, o):
        return isinstance(o, For) and (o.var, o.lo, o.hi, o.segs) == (self.var, self.lo, self.hi, self.segs)

    def __hash__(self):
        return hash(('For', self.var, self.lo, self.hi, self.segs))

    def __repr__(self):
        return 'For(%s in %s..%s: %r)' % (show(self.var), show(self.lo), show(self.hi), self.segs)


class When(V):
    """Conditional segment."""
    __slots__ = ('cond', 'segs')

    def __init__(self, cond, segs):
        self.cond, self.segs = cond, tuple(segs)

    def __eq__(self, o):
        return isinstance(o, When) and (o.cond, o.segs) == (self.cond, self.segs)

    def __hash__(self):
        return hash(('When', self.cond, self.segs))

    def __repr__(self):
        return 'When(%s: %r)' % (show(self.cond), self.segs)


class Seq(object):
    """Store content of a list or set."""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __eq__(self, o):
        return isinstance(o, Seq) and o.segs == self.segs

    def __hash__(self):
        return hash(self.segs)


class DictC(object):
    """Store content of a dict: ordered entries; an entry is (key, value) or DFor."""
    __slots__ = ('entries',)

    def __init__(self, entries):
        self.entries = tuple(entries)

    def __eq__(self, o):
        return isinstance(o, DictC) and o.entries == self.entries

    def __hash__(self):
        return hash(self.entries)


class DIf(object):
    """A dict entry that is there under a condition."""
    __slots__ = ('cond', 'key', 'val')

    def __init__(self, cond, key, val):
        self.cond, self.key, self.val = cond, key, val

    def __eq__(self, o):
        return isinstance(o, DIf) and (o.cond, o.key, o.val) == (self.cond, self.key, self.val)

    def __hash__(self):
        return hash(('DIf', self.cond, self.key))


class DFor(object):
    """Family of dict entries key(var) -> value(var), lo <= var < hi, keys distinct."""
    __slots__ = ('var', 'lo', 'hi', 'key', 'val')

    def __init__(self, var, lo, hi, key, val):
        self.var, self.lo, self.hi, self.key, self.val = var, lo, hi, key, val

    def tup(self):
        return (self.var, self.lo, self.hi, self.key, self.val)

    def __eq__(self, o):
        return isinstance(o, DFor) and o.tup() == self.tup()

    def __hash__(self):
        return hash(self.tup())


class ObjC(object):
    """Store content of an instance."""
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __eq__(self, o):
        return isinstance(o, ObjC) and o.cls is self.cls and o.fields == self.fields

    def set(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return ObjC(self.cls, f)


class FrameC(object):
    __slots__ = ('vars',)

    def __init__(self, vars):
        self.vars = vars

    def __eq__(self, o):
        return isinstance(o, FrameC) and o.vars == self.vars

    def set(self, k, v):
        f = dict(self.vars)
        f[k] = v
        return FrameC(f)


class ViewC(object):
    """An array view of another array object."""
    __slots__ = ('base', 'getter', 'setter')

    def __init__(self, base, getter, setter):
        self.base, self.getter, self.setter = base, getter, setter


class FamC(object):
    """Store content of a family of objects indexed by an integer: per-field
    functions of the index."""
    __slots__ = ('cls', 'fields', 'n')

    def __init__(self, cls, fields, n):
        self.cls, self.fields, self.n = cls, fields, n


class FamInst(V):
    """Member idx of an object family."""
    __slots__ = ('oid', 'idx')

    def __init__(self, oid, idx):
        self.oid, self.idx = oid, idx

    def __eq__(self, o):
        return isinstance(o, FamInst) and (o.oid, o.idx) == (self.oid, self.idx)

    def __hash__(self):
        return hash(('FamInst', self.oid, self.idx))

    def __repr__(self):
        return 'Fam#%d[%s]' % (self.oid, show(self.idx))


class FuncV(V):
    __slots__ = ('node', 'module', 'frames', 'qual', 'defaults', 'kwdefaults', 'cls', 'kind', 'attrs')

    def __init__(self, node, module, frames, qual, defaults, kwdefaults, cls=None, kind='func'):
        self.node, self.module, self.frames, self.qual = node, module, frames, qual
        self.defaults, self.kwdefaults, self.cls, self.kind = defaults, kwdefaults, cls, kind
        self.attrs = None

    def ident(self):
        return (id(self.node), self.frames, tuple(self.defaults),
                tuple(sorted(self.kwdefaults.items(), key=lambda x: x[0])))

    def __eq__(self, o):
        return isinstance(o, FuncV) and o.ident() == self.ident()

    def __hash__(self):
        return hash((id(self.node), self.frames))

    def __repr__(self):
        return 'Func(%s)' % self.qual


class BoundV(V):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and (o.func, o.self) == (self.func, self.self)

    def __hash__(self):
        return hash((self.func, self.self))

    def __repr__(self):
        return 'Bound(%r,%r)' % (self.func, self.self)


class ClassV(V):
    __slots__ = ('name', 'module', 'bases', 'ns', 'node', 'ext')

    def __init__(self, name, module, bases, ns, node=None, ext=False):
        self.name, self.module, self.bases, self.ns, self.node, self.ext = name, module, bases, ns, node, ext

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return 'Class(%s)' % self.name


class ModV(V):
    """A module of the analysed package (globals live in a frame)."""
    __slots__ = ('name', 'frame', 'path')

    def __init__(self, name, frame, path):
        self.name, self.frame, self.path = name, frame, path

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(('mod', self.name))


class ExtV(V):
    """External name, resolved to a canonical dotted path ('np.exp', 'sp.linalg.inv')."""
    __slots__ = ('path', 'ag')

    def __init__(self, path, ag=False):
        self.path, self.ag = path, ag

    def __eq__(self, o):
        return isinstance(o, ExtV) and (o.path, o.ag) == (self.path, self.ag)

    def __hash__(self):
        return hash(('ext', self.path, self.ag))

    def __repr__(self):
        return 'Ext(%s)' % self.path


class Builtin(V):
    """A modelled function object: name plus captured values."""
    __slots__ = ('name', 'cap')

    def __init__(self, name, *cap):
        self.name, self.cap = name, cap

    def __eq__(self, o):
        return isinstance(o, Builtin) and (o.name, o.cap) == (self.name, self.cap)

    def __hash__(self):
        return hash((self.name, self.cap))

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class ExtObj(V):
    """Result of an external call kept uninterpreted; attributes are values."""
    __slots__ = ('path', 'args', 'kw', 'attrs')

    def __init__(self, path, args=(), kw=(), attrs=()):
        self.path, self.args, self.kw, self.attrs = path, tuple(args), tuple(kw), tuple(attrs)

    def __eq__(self, o):
        return isinstance(o, ExtObj) and (o.path, o.args, o.kw, o.attrs) == \
            (self.path, self.args, self.kw, self.attrs)

    def __hash__(self):
        return hash((self.path, self.args, self.kw))

    def __repr__(self):
        return 'ExtObj(%s)' % self.path


class RangeV(V):
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __eq__(self, o):
        return isinstance(o, RangeV) and (o.start, o.stop, o.step) == (self.start, self.stop, self.step)

    def __hash__(self):
        return hash(('range', self.start, self.stop, self.step))

    def __repr__(self):
        return 'range(%s,%s,%s)' % (show(self.start), show(self.stop), show(self.step))


class SliceV(V):
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __eq__(self, o):
        return isinstance(o, SliceV) and (o.start, o.stop, o.step) == (self.start, self.stop, self.step)

    def __hash__(self):
        return hash(('slice', self.start, self.stop, self.step))


class IterV(V):
    """A lazy iterable: fixed sequence of segments."""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __eq__(self, o):
        return isinstance(o, IterV) and o.segs == self.segs

    def __hash__(self):
        return hash(('iter', self.segs))


class PhiV(V):
    """Gated non-term value."""
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, PhiV) and (o.cond, o.a, o.b) == (self.cond, self.a, self.b)

    def __hash__(self):
        return hash(('phi', self.cond, self.a, self.b))

    def __repr__(self):
        return 'Phi(%s, %r, %r)' % (show(self.cond), self.a, self.b)


class Unbound(V):
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Unbound)

    def __hash__(self):
        return 7

    def __repr__(self):
        return '<unbound>'


UNBOUND = Unbound()


class ExcV(V):
    """An exception object."""
    __slots__ = ('cls', 'args')

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)

    def __eq__(self, o):
        return isinstance(o, ExcV) and o.cls == self.cls

    def __hash__(self):
        return hash(('exc', self.cls))

    def __repr__(self):
        return 'Exc(%s)' % (self.cls,)


ELLIPSIS = const(Ellipsis)


def items(*vs):
    return tuple(Item(v) for v in vs)


def tup(*vs):
    return Tup(items(*vs))


class Dead(Exception):
    """No normal continuation on this path."""


class State(object):
    __slots__ = ('heap', 'ctx', 'pc')

    def __init__(self, heap, ctx, pc):
        self.heap, self.ctx, self.pc = heap, ctx, pc

    def fork(self, cond=None, val=True):
        s = State(dict(self.heap), self.ctx, self.pc)
        if cond is not None:
            s.ctx = assume_ctx(self.ctx, cond, val)
            with using(ROOT):
                s.pc = and_(self.pc, cond if val else not_(cond))
        return s

    def become(self, o):
        self.heap, self.ctx, self.pc = o.heap, o.ctx, o.pc


class BadC(object):
    """Store content the analyser lost track of; reading it is Unsupported."""
    __slots__ = ('reason',)

    def __init__(self, reason):
        self.reason = reason


class Frozen(object):
    """Read-only content: an instance of an object family made by a summarised loop."""
    __slots__ = ('content',)

    def __init__(self, content):
        self.content = content

    def __eq__(self, o):
        return isinstance(o, Frozen) and o.content == self.content


class HavocV(V):
    """Loop-carried value that could not be summarised."""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, HavocV) and o.tag == self.tag

    def __hash__(self):
        return hash(('havoc', self.tag))

    def __repr__(self):
        return '<loop-carried %s>' % (self.tag,)


class PhiSeg(V):
    """Unknown prefix of a list at a loop header."""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, PhiSeg) and o.tag == self.tag

    def __hash__(self):
        return hash(('phiseg', self.tag))


class PropV(V):
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV(V):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class ClsMethV(V):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class SuperV(V):
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class GenCM(V):
    """Context manager made from a generator function."""
    __slots__ = ('func', 'args', 'kw')

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw
