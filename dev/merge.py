#!/usr/bin/env python3
"""dev/merge.py VARIANT DEST: write a copy of /repo to DEST with the functions of dev/refactor/VARIANT/*.py put in place."""
import ast
import os
import warnings
import shutil
import sys
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
PKG = 'LinearResponseVariationalBayes'


def lines_of(src, node):
    ls = src.split('\n')
    a = min([node.lineno] + [d.lineno for d in getattr(node, 'decorator_list', [])]) - 1
    return ls[a:node.end_lineno]


def merge(src, new):
    nt = ast.parse(new)
    for n in nt.body:
        t = ast.parse(src)
        ls = src.split('\n')
        if isinstance(n, (ast.FunctionDef, ast.Assign, ast.Import, ast.ImportFrom)):
            name = n.name if isinstance(n, ast.FunctionDef) else (n.targets[0].id if isinstance(n, ast.Assign) else None)
            old = [o for o in t.body if name and ((isinstance(o, ast.FunctionDef) and o.name == name) or
                                                  (isinstance(o, ast.Assign) and isinstance(o.targets[0], ast.Name) and o.targets[0].id == name))]
            body = lines_of(new, n)
            if old:
                o = old[-1]
                a = min([o.lineno] + [d.lineno for d in getattr(o, 'decorator_list', [])]) - 1
                ls[a:o.end_lineno] = body
            else:
                last = max(o.end_lineno for o in t.body if isinstance(o, (ast.Import, ast.ImportFrom)))
                ls[last:last] = body + ['']
        elif isinstance(n, ast.ClassDef):
            c = [o for o in t.body if isinstance(o, ast.ClassDef) and o.name == n.name]
            if not c:
                last = max(o.end_lineno for o in t.body if isinstance(o, (ast.Import, ast.ImportFrom)))
                ls[last:last] = lines_of(new, n) + ['']
            for m in n.body if c else []:
                t = ast.parse('\n'.join(ls))
                k = [o for o in t.body if isinstance(o, ast.ClassDef) and o.name == n.name][0]
                old = [o for o in k.body if isinstance(o, ast.FunctionDef) and isinstance(m, ast.FunctionDef) and o.name == m.name]
                body = lines_of(new, m)
                if old:
                    o = old[-1]
                    a = min([o.lineno] + [d.lineno for d in o.decorator_list]) - 1
                    ls[a:o.end_lineno] = body
                else:
                    ls[k.end_lineno:k.end_lineno] = body
        src = '\n'.join(ls)
    return src


def main(variant, dest):
    if os.path.exists(dest):
        shutil.rmtree(dest)
    shutil.copytree('/repo', dest, symlinks=True)
    d = os.path.join(HERE, 'refactor', variant)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            p = os.path.join(dest, PKG, f)
            out = merge(open(p).read(), open(os.path.join(d, f)).read())
            ast.parse(out)
            open(p, 'w').write(out)


if __name__ == '__main__':
    main(*sys.argv[1:])
