"""Arbitrary admissible values for every kind of leaf parameter."""
from leaf import *


def value_of(l, kind, name='v'):
    """An arbitrary value in the support, in the parameter's own form."""
    k = kind[0]
    if k == 'posdef':
        A, L = pdmat(name, l.shape[0], l.diag_lb)
        return A
    if k == 'pdvec' or k == 'pdarr1' or k == 'pdarr2':
        A = pdarray(name, *l.shape)
        return A + l.diag_lb * np.eye(l.shape[-1])
    if k == 'simplex':
        return simplexarray(name, *l.shape)
    if k == 'subspace':
        w = array(name, *l.shape)
        return w - np.sum(w) / l.shape[0]
    z = posarray(name, *l.shape) if k != 'scalar' else pos(name)
    if l.lb == -INF:
        if l.ub == INF:
            return np.log(z)
        return l.ub - z
    if l.ub == INF:
        return l.lb + z
    return l.lb + (l.ub - l.lb) * z / (1 + z)


def size_ok_inputs(l, kind):
    return l.nf
