"""Summaries of loops over symbolic ranges.

A loop body is interpreted once with gated-SSA header values (mu values) for
every location it modifies.  The mu equations are then solved in closed form
where they have one of the shapes below, and otherwise kept as mu nodes:

    x' = x + g(k)                 prefix sum
    x' = e(k)                     last write
    A'[i] = A[i] + g(i, k)        accumulated scatter
    A'[i] = (k == w(i)) ? h(A[i], i, k) : A[i]     unique writer
    list.append(e(k))             comprehension segment
"""
import ast

from .terms import *
from .terms import _lin_in, _walk
from .values import *


def has(t, s):
    """Does term t mention raw symbol s?"""
    return s in t.fv


_mu_n = [0]


def make_mu(which, lo, hi, var, states, guard=None):
    """Array term: value of state `which` after iterating var over [lo, hi)
    (while guard holds).  states: list of (symbol, init term, post term)."""
    _mu_n[0] += 1
    mp = {}
    nv = fresh_index(None, None, 'mu')
    mp[var] = atom(nv)
    syms = []
    for s, init, post in states:
        if s.op == 'arr':
            q = mk('arr', '%%q%d_%d' % (_mu_n[0], len(syms)), s.a[1])
            mp[s] = q
        else:
            q = fresh_index(None, None, 'q')
            PROPS[q] = set(PROPS.get(s, ()))
            mp[s] = atom(q)
        syms.append(q)
    posts = tuple(subst(p, mp) for _, _, p in states)
    g = subst(guard, mp) if guard is not None else TRUE
    inits = tuple(i for _, i, _ in states)
    st = states[which]
    dims = st[0].a[1] if st[0].op == 'arr' else ()
    return afn('mu', dims, num(which), lo, hi, mk('mubody', nv, tuple(syms), posts, g), *inits)


def keep_format(a):
    return {'fmt': a.meta['fmt']} if a.sparse and a.meta and 'fmt' in a.meta else None


class LoopMixin(object):

    # ---------------------------------------------------------------- helpers
    def _changed(self, h0, h1):
        """Locations of heap h0 that differ in h1: set of (oid, field or None)."""
        out = set()
        for k, c0 in h0.items():
            c1 = h1.get(k)
            if c0 is c1 or c1 is None:
                continue
            if isinstance(c0, (ObjC, FrameC)) and type(c1) is type(c0):
                f0 = c0.fields if isinstance(c0, ObjC) else c0.vars
                f1 = c1.fields if isinstance(c1, ObjC) else c1.vars
                if f0 is f1:
                    continue
                for n in set(f0) | set(f1):
                    a, b = f0.get(n, UNBOUND), f1.get(n, UNBOUND)
                    if a is not b and a != b:
                        out.add((k, n))
            elif isinstance(c0, Arr) and isinstance(c1, Arr):
                if c0.term() is not c1.term() or c0.meta is not c1.meta:
                    out.add((k, None))
            elif c0 != c1:
                out.add((k, None))
        return out

    def _header(self, st, locs, tag):
        """Install header phis for locs in state st; returns {loc: (kind, symbol)}."""
        phis = {}
        for loc in sorted(locs, key=lambda x: (x[0], str(x[1]))):
            k, n = loc
            c = st.heap[k]
            if n is not None:
                f = c.fields if isinstance(c, ObjC) else c.vars
                old = f.get(n, UNBOUND)
                if isinstance(old, PhiV):
                    old = self.settle(old)
                if isinstance(old, T) and is_numeric(old):
                    s = fresh_index(None, None, 'phi')
                    PROPS[s] = set()
                    RANGE.pop(s, None)
                    if self._intval(old):
                        PROPS[s].add('int')
                    v = atom(s)
                    phis[loc] = ('num', s, old)
                elif isinstance(old, T) and is_bool(old):
                    s = fresh_index(None, None, 'phi')
                    PROPS[s] = {'int', 'nonneg'}
                    RANGE.pop(s, None)
                    v = eq0(sub(atom(s), ONE))
                    phis[loc] = ('bool', s, old)
                else:
                    v = HavocV((tag, loc))
                    phis[loc] = ('val', v, old)
                st.heap[k] = c.set(n, v)
            elif isinstance(c, Arr):
                s = mk('arr', '%%P%d_%d' % (k, tag), c.dims)
                if c.dtype in ('i', 'b'):
                    set_props(s, 'int')
                a = from_term(s, dtype=c.dtype)
                a.sparse = c.sparse
                a.meta = keep_format(c)
                st.heap[k] = a
                phis[loc] = ('arr', s, c)
            elif isinstance(c, Seq):
                st.heap[k] = Seq((PhiSeg((tag, k)),))
                phis[loc] = ('seq', PhiSeg((tag, k)), c)
            elif isinstance(c, DictC):
                st.heap[k] = DictC((PhiSeg((tag, k)),))
                phis[loc] = ('dict', PhiSeg((tag, k)), c)
            else:
                st.heap[k] = BadC('modified in a loop')
                phis[loc] = ('bad', None, c)
        return phis

    def _intval(self, t):
        if t.op == 'I':
            return self._intval(t.a[1]) and self._intval(t.a[2])
        return t.op == 'Q' and is_int(t)

    # ---------------------------------------------------------------- for loops
    def sym_loop(self, var, lo, hi, run, guard=None):
        """run() interprets one iteration with index `var` on self.st."""
        self.loopcount += 1
        base = self.st
        set_props(var, 'int')
        RANGE[var] = (lo, hi)
        # an empty range never runs the body
        empty = restrict(le0(sub(hi, lo)), base.ctx)
        if empty is TRUE:
            return
        old_raised, old_brks = self.raised, self.env.brks
        old_rets = self.env.rets
        ev0 = len(self.events)
        self.env.brks = None
        nret = len(old_rets) if old_rets is not None else 0
        locs = set()
        tag = self.loopcount

        def attempt(st, collect):
            self.raised = collect
            self.inloop += 1
            try:
                alive, _, t = self.run_on(st, lambda: self.iteration(run))
            finally:
                self.raised = old_raised
                self.inloop -= 1
            return alive, t
        try:
            for rnd in range(6):
                st = base.fork()
                if empty is not FALSE:
                    st.ctx = assume_ctx(st.ctx, not_(empty))
                phis = self._header(st, locs, tag * 10 + rnd)
                h0 = dict(st.heap)
                coll = []
                alive, t = attempt(st, coll)
                if old_rets is not None and len(old_rets) > nret:
                    del old_rets[nret:]
                    raise Unsupported('return inside a symbolic loop')
                if not alive:
                    # every iteration raises
                    if coll:
                        self._loop_raises(base, var, lo, hi, coll, {}, empty, True)
                        if empty is FALSE:
                            raise Dead()
                        return
                    raise Unsupported('loop body never completes')
                ch = self._changed(h0, t.heap)
                if ch <= locs:
                    break
                locs |= ch
            else:
                raise Unsupported('loop modifications do not stabilise')
        finally:
            self.env.brks = old_brks
        del self.events[ev0 + 40:]
        self._solve(base, t, var, lo, hi, phis, coll, empty)

    def _solve(self, base, t, var, lo, hi, phis, coll, empty):
        """Close the mu equations and install the state after the loop."""
        ctx0 = base.ctx
        eqs = {}           # symbol -> (loc, kind, init, post)
        for loc, (kind, s, old) in phis.items():
            k, n = loc
            c1 = t.heap[k]
            if kind in ('num', 'bool'):
                f = c1.fields if isinstance(c1, ObjC) else c1.vars
                post = f.get(n, UNBOUND)
                post = self.settle(post)
                if isinstance(post, T) and (is_numeric(post) if kind == 'num' else is_bool(post)):
                    if kind == 'bool':
                        post = ite(post, ONE, ZERO)
                        old = ite(old, ONE, ZERO)
                    elif is_bool(leaf(post)):
                        post = b2n(post)
                    eqs[s] = (loc, kind, old, post)
                else:
                    eqs[s] = (loc, 'lost', old, None)
            elif kind == 'arr':
                if isinstance(c1, Arr) and len(c1.dims) == len(old.dims):
                    eqs[s] = (loc, 'arr', old.term(), c1.term())
                else:
                    eqs[s] = (loc, 'lost', old, None)
        syms = set(eqs)

        def deps(x):
            return {s for s in syms if has(x, s)}
        header, final = {}, {}
        pending = dict(eqs)
        progress = True
        while pending and progress:
            progress = False
            for s in list(pending):
                loc, kind, init, post = pending[s]
                if kind == 'lost':
                    continue
                others = deps(post) - {s}
                if others - set(header):
                    continue
                mp = {o: header[o] for o in others}
                with using(ctx0):
                    p2 = subst(post, mp) if mp else post
                    r = self._closed(s, kind, init, p2, var, lo, hi)
                if r is None:
                    continue
                header[s], final[s] = r
                del pending[s]
                progress = True
        # remaining coupled equations: mu nodes
        if pending:
            lost = {s for s in pending if pending[s][1] == 'lost'}
            grow = True
            while grow:
                grow = False
                for s in list(pending):
                    if s not in lost and deps(pending[s][3]) & lost:
                        lost.add(s)
                        grow = True
            keep = [s for s in sorted(pending, key=lambda z: z.key) if s not in lost]
            if keep:
                states = []
                for s in keep:
                    loc, kind, init, post = pending[s]
                    with using(ctx0):
                        mp = {o: header[o] for o in deps(post) if o in header}
                        p2 = subst(post, mp) if mp else post
                    states.append((s, init, p2))
                for i, s in enumerate(keep):
                    kind = pending[s][1]
                    fin = make_mu(i, lo, hi, var, states)
                    hd = make_mu(i, lo, atom(var), var, states)
                    if kind == 'arr':
                        final[s], header[s] = fin, hd
                    else:
                        final[s], header[s] = get(fin), get(hd)
            for s in lost:
                header[s] = None
        mp = {s: h for s, h in header.items() if h is not None}
        lost = {s for s, h in header.items() if h is None}
        # objects allocated by the body: substitute header values
        new = [k for k in t.heap if k not in base.heap]
        heap = dict(base.heap)
        changed_locs = {}
        for k in new:
            heap[k] = t.heap[k]
        base.heap = heap
        if mp or lost:
            for k in new:
                heap[k] = self._subst_content(heap[k], mp, lost)
        # raises
        if coll:
            self._loop_raises(base, var, lo, hi, coll, mp, empty, False)
        nonempty = not_(empty) if empty is not FALSE else TRUE
        last = {var: sub(hi, ONE)}
        for loc, (kind, s, old) in phis.items():
            k, n = loc
            c1 = t.heap[k]
            cur = heap[k]
            if kind in ('num', 'bool'):
                if s in final:
                    v = final[s]
                    if kind == 'bool':
                        v = eq0(sub(v, ONE))
                else:
                    v = HavocV((s.a[0],))
                heap[k] = cur.set(n, v)
            elif kind == 'val':
                f = c1.fields if isinstance(c1, ObjC) else c1.vars
                post = f.get(n, UNBOUND)
                v = self._last_value(post, mp, lost, last)
                if empty is not FALSE:
                    v = self.merge_val(nonempty, v, old)
                heap[k] = cur.set(n, v)
            elif kind == 'arr':
                if s in final:
                    a = from_term(final[s], dtype=self._join_dtype(old, c1))
                    a.sparse = old.sparse
                    a.meta = keep_format(old)
                    if self.naming:
                        with using(base.ctx):
                            a = self.name_array(a)
                    heap[k] = a
                else:
                    heap[k] = BadC('array changed by a loop in an unsummarised way')
            elif kind == 'seq':
                heap[k] = self._seq_after(s, old, c1, var, lo, hi, mp, lost)
            elif kind == 'dict':
                heap[k] = self._dict_after(s, old, c1, var, lo, hi, mp, lost)
            else:
                heap[k] = BadC('object changed by a loop')

    def _join_dtype(self, a, b):
        return a.dtype if a.dtype == b.dtype else 'f'

    def _last_value(self, v, mp, lost, last):
        v = self._subst_any(v, mp, lost)
        if isinstance(v, (HavocV, type(UNBOUND))):
            return v
        try:
            return self.subst_val(v, last)
        except Unsupported:
            return HavocV(('last',))

    def _subst_any(self, v, mp, lost):
        if isinstance(v, T):
            if any(has(v, s) for s in lost):
                return HavocV(('dep',))
            return subst(v, mp) if mp else v
        if isinstance(v, Tup):
            return Tup(self._segs_any(v.segs, mp, lost))
        if isinstance(v, IterV):
            return IterV(self._segs_any(v.segs, mp, lost))
        if isinstance(v, PhiV):
            c = v.cond
            if any(has(c, s) for s in lost):
                return HavocV(('dep',))
            c = subst(c, mp) if mp else c
            if c is TRUE:
                return self._subst_any(v.a, mp, lost)
            if c is FALSE:
                return self._subst_any(v.b, mp, lost)
            return PhiV(c, self._subst_any(v.a, mp, lost), self._subst_any(v.b, mp, lost))
        if isinstance(v, RangeV):
            return RangeV(*[self._subst_any(x, mp, lost) for x in (v.start, v.stop, v.step)])
        if isinstance(v, SliceV):
            return SliceV(*[self._subst_any(x, mp, lost) for x in (v.start, v.stop, v.step)])
        if isinstance(v, BoundV):
            return BoundV(v.func, self._subst_any(v.self, mp, lost))
        if isinstance(v, Builtin):
            return Builtin(v.name, *[self._subst_any(x, mp, lost) if isinstance(x, (V, T)) else x for x in v.cap])
        return v

    def _segs_any(self, segs, mp, lost):
        out = []
        for s in segs:
            if isinstance(s, Item):
                out.append(Item(self._subst_any(s.v, mp, lost)))
            elif isinstance(s, When):
                out.append(When(subst(s.cond, mp) if mp else s.cond, self._segs_any(s.segs, mp, lost)))
            elif isinstance(s, For):
                lo, hi = (subst(s.lo, mp), subst(s.hi, mp)) if mp else (s.lo, s.hi)
                out.append(For(s.var, lo, hi, self._segs_any(s.segs, mp, lost)))
            else:
                out.append(s)
        return tuple(out)

    def _subst_content(self, c, mp, lost):
        if isinstance(c, Arr):
            t = c.term()
            if any(has(t, s) for s in lost) or any(has(d, s) for d in c.dims for s in lost):
                return BadC('depends on a lost loop value')
            if c.meta and any(k in c.meta for k in ('segs', 'trip')):
                m2 = {}
                for k, x in c.meta.items():
                    if k == 'segs':
                        m2[k] = self._segs_any(x, mp, lost)
                    elif k == 'trip':
                        m2[k] = tuple(self._subst_content(y, mp, lost) for y in x)
                    else:
                        m2[k] = x
            else:
                m2 = c.meta
            if any(has(t, s) for s in mp):
                a = from_term(subst(t, mp), dtype=c.dtype)
                a.sparse = c.sparse
                a.meta = m2
                return a
            if m2 is not c.meta:
                return Arr(c.dims, c.fn, c.dtype, c.sparse, c._t, m2)
            return c
        if isinstance(c, Seq):
            return Seq(self._segs_any(c.segs, mp, lost))
        if isinstance(c, ObjC):
            return ObjC(c.cls, {k: self._subst_any(v, mp, lost) for k, v in c.fields.items()})
        if isinstance(c, FrameC):
            return FrameC({k: self._subst_any(v, mp, lost) for k, v in c.vars.items()})
        if isinstance(c, DictC):
            return DictC([(self._subst_any(e[0], mp, lost), self._subst_any(e[1], mp, lost))
                          if isinstance(e, tuple) else
                          DIf(self._subst_any(e.cond, mp, lost), self._subst_any(e.key, mp, lost), self._subst_any(e.val, mp, lost))
                          if isinstance(e, DIf) else e for e in c.entries])
        if isinstance(c, Frozen):
            return Frozen(self._subst_content(c.content, mp, lost))
        return c

    def _seq_after(self, s, old, c1, var, lo, hi, mp, lost):
        if not isinstance(c1, Seq) or not c1.segs or c1.segs[0] != s or \
                any(isinstance(x, PhiSeg) for x in c1.segs[1:]):
            return BadC('list changed by a loop other than by appending')
        add_ = self._segs_any(c1.segs[1:], mp, lost)
        return Seq(old.segs + (For(var, lo, hi, add_),))

    def _dict_after(self, s, old, c1, var, lo, hi, mp, lost):
        if not isinstance(c1, DictC) or not c1.entries or c1.entries[0] != s:
            return BadC('dict changed by a loop')
        out = list(old.entries)
        for e in c1.entries[1:]:
            if not isinstance(e, tuple):
                return BadC('dict changed by nested loops')
            out.append(DFor(var, lo, hi, self._subst_any(e[0], mp, lost), self._subst_any(e[1], mp, lost)))
        return DictC(out)

    def _loop_raises(self, base, var, lo, hi, coll, mp, empty, always):
        """Raises of the loop body: some iteration raises."""
        anyc = FALSE
        for r in coll:
            with using(base.ctx):
                c = restrict(subst(r.cond, mp) if mp else r.cond, base.ctx)
            self.raised.append(Raised_(c, r.exc, r.loc, r.state))
            with using(base.ctx):
                anyc = or_(anyc, c)
        w = fresh_index(None, None)
        with using(base.ctx):
            body = subst(anyc, {var: add(lo, atom(w))})
            RANGE[w] = (ZERO, sub(hi, lo))
            none = forall_close([sub(hi, lo)], [w], not_(body))
            none = restrict(none, base.ctx)
        if none is FALSE:
            raise Dead()
        if none is not TRUE:
            base.ctx = assume_ctx(base.ctx, none)
            with using(base.ctx):
                base.pc = and_(base.pc, none)

    # ---------------------------------------------------------------- closed forms
    def _closed(self, s, kind, init, post, var, lo, hi):
        """(header value at var, value after the loop) or None."""
        av = atom(var)
        if kind in ('num', 'bool'):
            if not has(post, s):
                first = le0(sub(av, lo))
                hd = ite(first, init, subst(post, {var: sub(av, ONE)}))
                fin = ite(le0(sub(hi, lo)), init, subst(post, {var: sub(hi, ONE)}))
                return hd, fin
            try:
                g = sub(post, atom(s))
            except Unsupported:
                return None
            g = restrict(g)
            if not has(g, s):
                hd = add(init, self._psum(var, lo, av, g))
                fin = add(init, self._psum(var, lo, hi, g))
                return hd, fin
            return None
        if kind == 'arr':
            dims = arr_dims(init)
            if not has(post, s):
                first = le0(sub(av, lo))
                hd = self._lam(dims, lambda ix: ite(first, get(init, *ix), get(subst(post, {var: sub(av, ONE)}), *ix)))
                fin = self._lam(dims, lambda ix: ite(le0(sub(hi, lo)), get(init, *ix),
                                                     get(subst(post, {var: sub(hi, ONE)}), *ix)))
                return hd, fin
            vs = [fresh_index(ZERO, d) for d in dims]
            ix = [atom(v) for v in vs]
            body = restrict(get(post, *ix))
            me = get(s, *ix)
            try:
                g = restrict(sub(body, me))
                if not has(g, s):
                    def acc(upto):
                        return close_lam(dims, vs, restrict(add(get(init, *ix), self._psum(var, lo, upto, g))))
                    return acc(av), acc(hi)
            except Unsupported:
                pass
            w = self._writer(body, me, var)
            if w is not None:
                with using(ctx()):
                    h = subst(body, {var: w})
                # reads of the array inside h must be at the written cell
                if self._reads_only(h, s, me):
                    val = subst(h, {s: init})
                    inlo = le0(sub(lo, w))

                    def upto(b):
                        c = and_(inlo, lt0(sub(w, b)))
                        return close_lam(dims, vs, restrict(ite(c, val, get(init, *ix))))
                    return upto(av), upto(hi)
            return None
        return None

    def _psum(self, var, lo, hi, g):
        w = fresh_index(lo, hi)
        return sum_over(w, lo, hi, subst(g, {var: atom(w)}))

    def _lam(self, dims, f):
        return lam(dims, f)

    def _writer(self, body, me, var):
        """Term w(i) such that the body leaves cell i unchanged unless var == w(i)."""
        conds = []
        seen = set()

        def go(x):
            if x.op == 'I' and x not in seen:
                seen.add(x)
                if has(x.a[0], var):
                    conds.append(x.a[0])
                go(x.a[1])
                go(x.a[2])
        go(body)
        for c in conds:
            if c.op != 'eq':
                continue
            lr = _lin_in(c.a[0], var)
            if lr is None or abs(lr[0]) != 1:
                continue
            off = restrict(body, assume_ctx(ctx(), mk('I', c, TRUE, FALSE), False))
            if off is me:
                a, r = lr
                return mul(num(-1 / a), r)
        return None

    def _reads_only(self, h, s, me):
        cell = me.a[0][0][0][0][0] if me.op == 'Q' else None
        ok = [True]
        seen = set()

        def go(x):
            if x in seen or not has(x, s):
                return
            seen.add(x)
            if x is cell:
                return
            if x is s:
                ok[0] = False
                return
            if x.op == 'get' and x.a[0] is s:
                ok[0] = False
                return
            ch = []
            _walk(x.a, ch)
            for y in ch:
                go(y)
        go(h)
        return ok[0]

    # ---------------------------------------------------------------- while loops
    def s_While(self, s):
        base = self.st
        # unroll while the guard is decided
        old_brks = self.env.brks
        self.env.brks = []
        outs = []
        try:
            n = forks = 0
            mark = None
            while True:
                c = restrict(self.truth(self.eval(s.test)), self.st.ctx)
                if c is FALSE:
                    break
                if c is not TRUE and forks >= 0 and isinstance(s.test, ast.BoolOp) and not s.orelse:
                    # 'count is below a known limit and something undecided': split on the
                    # undecided part as long as the limit keeps the number of rounds small
                    if mark is None:
                        if self.env.brks:
                            raise Unsupported('break before a symbolic while guard')
                        mark = (self.st.fork(), len(self.raised), len(self.env.rets) if self.env.rets is not None else 0)
                    forks += 1
                    if forks <= 6:
                        self.branch(c, lambda: None, lambda: self.s_Break(s))
                        self.iteration(lambda: self.block(s.body))
                        continue
                    self.st.become(mark[0])
                    del self.raised[mark[1]:]
                    if self.env.rets is not None:
                        del self.env.rets[mark[2]:]
                    self.env.brks = []
                    forks = -1
                    continue
                if c is not TRUE:
                    if n:
                        # the guard became symbolic: continue as a summarised loop
                        pass
                    if self.env.brks:
                        raise Unsupported('break before a symbolic while guard')
                    self.env.brks = None
                    self._sym_while(s)
                    break
                n += 1
                if n > 64:
                    raise Unsupported('while loop does not terminate within the unrolling limit')
                self.iteration(lambda: self.block(s.body))
            brks = self.env.brks or []
        except Dead:
            brks = self.env.brks or []
            if not brks:
                raise
            self.env.brks = old_brks
            if len(brks) == 1:
                base.become(brks[0])
            else:
                self.join(brks)
            return
        finally:
            self.env.brks = old_brks
        if s.orelse:
            self.block(s.orelse)
        if brks:
            cur = self.st.fork()
            self.join([cur] + brks)

    def _sym_while(self, s):
        """while with a symbolic guard: counters become trip counts, everything
        else a guarded mu node."""
        self.loopcount += 1
        base = self.st
        tag = self.loopcount
        old_raised = self.raised
        old_rets = self.env.rets
        nret = len(old_rets) if old_rets is not None else 0
        locs = set()
        kvar = fresh_index(ZERO, None, 'w')
        RANGE[kvar] = (ZERO, None)
        for rnd in range(6):
            st = base.fork()
            phis = self._header(st, locs, tag * 10 + rnd)
            h0 = dict(st.heap)
            coll = []
            self.raised = coll
            guard = [None]

            def it():
                g = restrict(self.truth(self.eval(s.test)), self.st.ctx)
                guard[0] = g
                if g is FALSE:
                    raise Dead()
                if g is not TRUE:
                    self.st.ctx = assume_ctx(self.st.ctx, g)
                self.iteration(lambda: self.block(s.body))
            self.inloop += 1
            try:
                alive, _, t = self.run_on(st, it)
            finally:
                self.raised = old_raised
                self.inloop -= 1
            if old_rets is not None and len(old_rets) > nret:
                del old_rets[nret:]
                raise Unsupported('return inside a symbolic while loop')
            if not alive:
                raise Unsupported('while body never completes')
            ch = self._changed(h0, t.heap)
            if ch <= locs:
                break
            locs |= ch
        else:
            raise Unsupported('while loop does not stabilise')
        g = guard[0]
        # counter pattern: one int phi c with c' = c + step, guard  c < bound
        trip = None
        for loc, (kind, sym, old) in phis.items():
            if kind != 'num' or not has(g, sym):
                continue
            k, n = loc
            c1 = t.heap[k]
            f = c1.fields if isinstance(c1, ObjC) else c1.vars
            post = f.get(n)
            if not isinstance(post, T):
                continue
            step = restrict(sub(post, atom(sym)), base.ctx)
            others = [z for (kd, z, o) in phis.values() if kd in ('num', 'bool', 'arr')]
            if any(has(step, z) for z in others) or any(has(g, z) for z in others if z is not sym):
                continue
            if g.op != 'I' or not ((g.a[1] is TRUE and g.a[2] is FALSE) or (g.a[1] is FALSE and g.a[2] is TRUE)):
                continue
            pos = g.a[1] is TRUE
            cond = g.a[0]
            if cond.op not in ('le', 'lt'):
                continue
            lr = _lin_in(cond.a[0], sym)
            if lr is None or abs(lr[0]) != 1:
                continue
            a, r = lr
            # normalise to  sym < bound  (integers)
            with using(base.ctx):
                # cond: a*sym + r <= 0 (or < 0)
                if pos:
                    A, R, strict = a, r, cond.op == 'lt'
                else:
                    A, R, strict = -a, neg(r), cond.op == 'le'
                if A != 1:
                    continue
                bound = neg(R) if strict else add(neg(R), ONE)
                if restrict(lt0(neg(step)), base.ctx) is not TRUE:
                    continue
                span = sub(bound, old)
                span = restrict(span, base.ctx)
                n_it = floordiv(add(span, sub(step, ONE)), step) if step is not ONE else span
                if restrict(le0(neg(n_it)), base.ctx) is not TRUE:
                    n_it = max_(n_it, ZERO)
                trip = n_it
            break
        if trip is not None:
            RANGE[kvar] = (ZERO, trip)
            with using(base.ctx):
                empty = restrict(le0(trip), base.ctx)
            # re-run the body with the counter expressed through the iteration number
            self._solve(base, t, kvar, ZERO, trip, phis, coll, empty)
            return
        self._guarded_mu(base, t, kvar, phis, coll, g)

    def _guarded_mu(self, base, t, kvar, phis, coll, g):
        syms, states, locs = [], [], []
        lost = []
        for loc, (kind, s, old) in sorted(phis.items(), key=lambda z: (z[0][0], str(z[0][1]))):
            k, n = loc
            c1 = t.heap[k]
            if kind in ('num', 'bool'):
                f = c1.fields if isinstance(c1, ObjC) else c1.vars
                post = self.settle(f.get(n, UNBOUND))
                if isinstance(post, T) and kind == 'num' and is_numeric(post):
                    states.append((s, old, post))
                    locs.append((loc, kind))
                    continue
                if isinstance(post, T) and kind == 'bool' and is_bool(post):
                    states.append((s, ite(old, ONE, ZERO), ite(post, ONE, ZERO)))
                    locs.append((loc, kind))
                    continue
            elif kind == 'arr' and isinstance(c1, Arr) and len(c1.dims) == len(old.dims):
                states.append((s, old.term(), c1.term()))
                locs.append((loc, kind))
                continue
            lost.append((loc, kind, s, old))
        heap = dict(base.heap)
        lostsyms = {s for _, kd, s, _ in lost if kd in ('num', 'bool', 'arr')}
        for (loc, kind), (s, i, p) in zip(locs, states):
            if any(has(p, z) for z in lostsyms):
                raise Unsupported('while loop carries an unsummarised value')
        if any(has(g, z) for z in lostsyms):
            raise Unsupported('while guard carries an unsummarised value')
        mus = [make_mu(i, ZERO, INF, kvar, states, guard=g) for i in range(len(states))]
        hdr = {}
        for (s, i, p), x in zip(states, mus):
            pass
        for j, ((loc, kind), (s, i, p)) in enumerate(zip(locs, states)):
            k, n = loc
            if kind == 'arr':
                a = from_term(mus[j], dtype=phis[loc][2].dtype)
                a.sparse = phis[loc][2].sparse
                a.meta = keep_format(phis[loc][2])
                heap[k] = a
            else:
                v = get(mus[j])
                if kind == 'bool':
                    v = eq0(sub(v, ONE))
                heap[k] = heap[k].set(n, v)
        for loc, kind, s, old in lost:
            k, n = loc
            if n is not None:
                heap[k] = heap[k].set(n, HavocV(('while', n)))
            else:
                heap[k] = BadC('changed by a while loop')
        base.heap = heap
        if coll:
            raise Unsupported('raise inside a symbolic while loop')


class Raised_(object):
    __slots__ = ('cond', 'exc', 'loc', 'state')

    def __init__(self, cond, exc, loc, state=None):
        self.cond, self.exc, self.loc, self.state = cond, exc, loc, state
