#!/usr/bin/env python3
"""dev/mutate.py gen OUT.json | tests IN.json OUT.jsonl [N procs]: small edits of the package, and which pass its tests."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO, PKG = '/repo', 'LinearResponseVariationalBayes/'
FILES = [f for f in sorted(os.listdir(os.path.join(REPO, PKG))) if f.endswith('.py') and not f.startswith('test_')
         and f not in ('version.py', '__init__.py')]
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Pow: '*'}
PAIRS = [('lb', 'ub'), ('row', 'col'), ('rows', 'cols'), ('free', 'vector'), ('free', 'vec'), ('input', 'hyper'), ('input', 'output'),
         ('par1', 'par2'), ('val1', 'val2'), ('free1', 'free2'), ('loc', 'weights'), ('mean', 'info'), ('eta', 'eps'), ('12', '21'),
         ('x', 'y'), ('first', 'last'), ('min', 'max'), ('shape', 'rate'), ('grad', 'hessian'), ('old', 'new'), ('left', 'right'),
         ('start', 'end'), ('e', 'e2'), ('1', '2'), ('i', 'j'), ('offset', 'size'), ('x', 'f'), ('prior', 'info')]


def swaps(name):
    out = set()
    parts = name.split('_')
    for a, b in PAIRS:
        for x, y in ((a, b), (b, a)):
            if x in parts:
                out.add('_'.join(y if p == x else p for p in parts))
            elif len(x) > 1 and any(p.endswith(x) and len(x) == 1 for p in parts):
                pass
    if name.endswith('1'):
        out.add(name[:-1] + '2')
    if name.endswith('2'):
        out.add(name[:-1] + '1')
    out.discard(name)
    return out


class Gen(object):
    def __init__(self, f):
        self.f = f
        self.src = open(os.path.join(REPO, PKG, f)).read()
        self.lines = self.src.split('\n')
        self.offs = [0]
        for l in self.lines:
            self.offs.append(self.offs[-1] + len(l.encode()) + 1)
        self.b = self.src.encode()
        self.tree = ast.parse(self.src)
        self.out = []
        self.attrs = {n.attr for n in ast.walk(self.tree) if isinstance(n, ast.Attribute)} | \
            {n.name for n in ast.walk(self.tree) if isinstance(n, ast.FunctionDef)}

    def span(self, n):
        return self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, fn, n, new, kind):
        a, b = n if isinstance(n, tuple) else self.span(n)
        old = self.b[a:b].decode()
        if old == new:
            return
        mut = (self.b[:a] + new.encode() + self.b[b:]).decode()
        try:
            ast.parse(mut)
        except SyntaxError:
            return
        line = self.src.encode()[:a].count(b'\n') + 1
        self.out.append(dict(file=self.f, fn=fn, line=line, kind=kind, a=a, b=b, old=old, new=new))

    def run(self):
        self.walk(self.tree, '')
        return self.out

    def walk(self, node, fn):
        for c in ast.iter_child_nodes(node):
            f2 = fn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                f2 = (fn + '.' if fn else '') + c.name
            if isinstance(c, ast.FunctionDef):
                self.names = {n.id for n in ast.walk(c) if isinstance(n, ast.Name)} | {a.arg for a in c.args.args}
            if f2:
                self.mutate(c, f2)
            self.walk(c, f2)

    def between(self, x, y, old, new, fn, kind):
        a, b = self.span(x)[1], self.span(y)[0]
        t = self.b[a:b].decode()
        if t.count(old) == 1:
            i = t.index(old)
            self.add(fn, (a + i, a + i + len(old)), new, kind)

    def mutate(self, n, fn):
        names = getattr(self, 'names', set())
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not'}
            self.between(n.left, n.comparators[0], sym[type(n.ops[0])], CMP[type(n.ops[0])], fn, 'compare')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Pow: '**'}
            self.between(n.left, n.right, sym[type(n.op)], BIN[type(n.op)], fn, 'arith')
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                self.add(fn, n, '(' + self.text(n.left) + ')', 'drop-operand')
                self.add(fn, n, '(' + self.text(n.right) + ')', 'drop-operand')
        if isinstance(n, ast.BoolOp):
            for v in n.values:
                self.add(fn, n, '(' + self.text(v) + ')', 'bool-part')
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                self.add(fn, n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                self.add(fn, n, str(n.value + 1), 'const')
                if n.value:
                    self.add(fn, n, str(n.value - 1), 'const')
            elif isinstance(n.value, float):
                self.add(fn, n, repr(n.value * 2 + (1 if n.value == 0 else 0)), 'const')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            self.add(fn, n, '(' + self.text(n.operand) + ')', 'unary')
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = self.offs[k.lineno - 1] + k.col_offset, self.span(k.value)[1]
                    pre = self.b[:a].decode()
                    i = len(pre.rstrip().encode())
                    if pre.rstrip().endswith(','):
                        self.add(fn, (i - 1, b), '', 'drop-keyword')
                    else:
                        self.add(fn, (a, b), '', 'drop-keyword')
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
                a, b = n.args[0], n.args[1]
                s = self.b[self.span(a)[1]:self.span(b)[0]].decode()
                self.add(fn, (self.span(a)[0], self.span(b)[1]), self.text(b) + s + self.text(a), 'swap-args')
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords and n.func.attr in ('copy', 'flatten', 'transpose'):
                self.add(fn, n, self.text(n.func.value), 'drop-method')
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                if nm in ('deepcopy', 'copy', 'abs', 'sum', 'exp', 'log', 'sqrt', 'array', 'squeeze', 'atleast_1d', 'int', 'float', 'list', 'transpose'):
                    self.add(fn, n, '(' + self.text(n.args[0]) + ')', 'drop-call')
            for x in n.args:
                if isinstance(x, ast.Starred):
                    pass
        if isinstance(n, ast.Attribute) and n.attr == 'T':
            self.add(fn, n, self.text(n.value), 'drop-T')
        if isinstance(n, ast.Attribute):
            for s in swaps(n.attr):
                if s in self.attrs:
                    e = self.span(n)[1]
                    self.add(fn, (e - len(n.attr), e), s, 'swap-attr')
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for s in swaps(n.id):
                if s in names:
                    self.add(fn, n, s, 'swap-name')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert)) and \
                not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
                self.add(fn, n, 'pass', 'drop-statement')
        if isinstance(n, ast.AugAssign):
            self.add(fn, n, self.text(n.target) + ' = ' + self.text(n.value), 'assign')
        if isinstance(n, (ast.If, ast.IfExp)):
            self.add(fn, n.test, 'True', 'if')
            self.add(fn, n.test, 'False', 'if')
        if isinstance(n, ast.While):
            self.add(fn, n.test, '(' + self.text(n.test) + ') and False', 'while')
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                self.add(fn, n.lower, '', 'slice')
            if n.upper is not None:
                self.add(fn, n.upper, '', 'slice')


def gen(out):
    ms = []
    for f in FILES:
        ms += Gen(f).run()
    seen, res = set(), []
    for x in ms:
        k = (x['file'], x['a'], x['b'], x['new'])
        if k not in seen:
            seen.add(k)
            x['id'] = len(res)
            res.append(x)
    json.dump(res, open(out, 'w'), indent=0)
    print(len(res), 'mutants')


def apply_mut(d, x):
    p = os.path.join(d, PKG, x['file'])
    b = open(os.path.join(REPO, PKG, x['file']), 'rb').read()
    assert b[x['a']:x['b']].decode() == x['old']
    open(p, 'wb').write(b[:x['a']] + x['new'].encode() + b[x['b']:])
    return p


def tests(inp, out, procs):
    ms = json.load(open(inp))
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['id'] for l in open(out)}
    todo = [x for x in ms if x['id'] not in done]
    random.Random(1).shuffle(todo)
    import queue
    q = queue.Queue()
    for i in range(procs):
        d = '/tmp/mut/w%d' % i
        if not os.path.exists(d):
            shutil.copytree(REPO, d, symlinks=True)
        q.put(d)
    f = open(out, 'a')

    def one(x):
        d = q.get()
        try:
            p = apply_mut(d, x)
            try:
                r = subprocess.run('PATH=/opt/venv/bin:$PATH PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 timeout 120 nice -n 15 python -m pytest -x -q '
                                   '-p no:cacheprovider LinearResponseVariationalBayes' % d, shell=True, cwd=d, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                ok = r.returncode == 0
            finally:
                shutil.copy(os.path.join(REPO, PKG, x['file']), p)
            f.write(json.dumps(dict(id=x['id'], survives=ok)) + '\n')
            f.flush()
        finally:
            q.put(d)
    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(one, todo))


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2])
    else:
        tests(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 4)
