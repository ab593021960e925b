"""Every kind of leaf parameter with symbolic sizes, bounds and values (interpreted, never executed)."""
import numpy as np
import LinearResponseVariationalBayes as vb

INF = float('inf')
BOUNDS = ['none', 'lower', 'upper', 'both']
LEAVES = [('scalar', b) for b in BOUNDS] + [('vector', b) for b in BOUNDS] + \
    [('array1', 'both')] + [('array2', b) for b in BOUNDS] + [('array3', 'lower')] + \
    [('posdef', 'zero'), ('posdef', 'lb'), ('pdvec', 'zero'), ('pdvec', 'lb'),
     ('pdarr1', 'lb'), ('pdarr2', 'zero'), ('simplex', ''), ('subspace', '')]


def bounds(b):
    lo = real('lb')
    gap = pos('gap')
    if b == 'none':
        return -INF, INF
    if b == 'lower':
        return lo, INF
    if b == 'upper':
        return -INF, lo
    return lo, lo + gap


class Leaf(object):
    """A parameter p, its free size nf, vector size nv, the shape of its value."""
    def __init__(self, p, nf, nv, shape, lb=-INF, ub=INF, diag_lb=0.0):
        self.p = p
        self.nf = nf
        self.nv = nv
        self.shape = shape
        self.lb = lb
        self.ub = ub
        self.diag_lb = diag_lb


def make_leaf(kind, tag='', **kw):
    k, b = kind
    name = 'p' + tag
    if k == 'scalar':
        lb, ub = bounds(b)
        return Leaf(vb.ScalarParam(name, lb=lb, ub=ub, **kw), 1, 1, (), lb, ub)
    if k == 'vector':
        lb, ub = bounds(b)
        n = dim('n' + tag)
        return Leaf(vb.VectorParam(name, size=n, lb=lb, ub=ub, **kw), n, n, (n,), lb, ub)
    if k == 'array1' or k == 'array2' or k == 'array3':
        lb, ub = bounds(b)
        if k == 'array1':
            sh = (dim('n' + tag),)
            n = sh[0]
        elif k == 'array2':
            sh = (dim('n' + tag), dim('r' + tag))
            n = sh[0] * sh[1]
        else:
            sh = (dim('n' + tag), dim('r' + tag), dim('s' + tag))
            n = sh[0] * sh[1] * sh[2]
        return Leaf(vb.ArrayParam(name, shape=sh, lb=lb, ub=ub, **kw), n, n, sh, lb, ub)
    if k == 'posdef' or k == 'pdvec' or k == 'pdarr1' or k == 'pdarr2':
        d = dim('d' + tag)
        lb = pos('diaglb') if b == 'lb' else 0.0
        v = d * (d + 1) // 2
        if k == 'posdef':
            return Leaf(vb.PosDefMatrixParam(name, size=d, diag_lb=lb, **kw), v, v, (d, d), diag_lb=lb)
        n = dim('n' + tag)
        if k == 'pdvec':
            return Leaf(vb.PosDefMatrixParamVector(name, length=n, matrix_size=d, diag_lb=lb, **kw), n * v, n * v,
                        (n, d, d), diag_lb=lb)
        if k == 'pdarr1':
            return Leaf(vb.PosDefMatrixParamArray(name, array_shape=(n,), matrix_size=d, diag_lb=lb, **kw), n * v, n * v,
                        (n, d, d), diag_lb=lb)
        r = dim('r' + tag)
        return Leaf(vb.PosDefMatrixParamArray(name, array_shape=(n, r), matrix_size=d, diag_lb=lb, **kw),
                    n * r * v, n * r * v, (n, r, d, d), diag_lb=lb)
    if k == 'simplex':
        n = dim('n' + tag)
        r = dim('r' + tag, 2)
        return Leaf(vb.SimplexParam(name, shape=(n, r), **kw), n * (r - 1), n * r, (n, r))
    if k == 'subspace':
        d = dim('d' + tag, 3)
        return Leaf(vb.SubspaceVectorParam(name, dim=d, **kw), d - 1, d, (d,))
    raise ValueError('kind')


def free_of(l, name='f'):
    return array(name, l.nf)


def matrix_at(l, v):
    """The matrix at an arbitrary index of a positive definite value."""
    if len(l.shape) == 2:
        return v
    if len(l.shape) == 3:
        return v[anyindex(l.shape[0])]
    return v[anyindex(l.shape[0]), anyindex(l.shape[1])]
