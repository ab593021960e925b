"""What it means for a value to lie in the declared support (interpreted, never executed)."""
from leaf import *


def in_support(l, kind, v):
    k = kind[0]
    if k == 'posdef' or k == 'pdvec' or k == 'pdarr1' or k == 'pdarr2':
        check(shape_eq(v, *l.shape), 'the value has the declared shape')
        m = matrix_at(l, v)
        check_eq(m, m.T, 'every matrix is symmetric')
        d = l.shape[-1]
        c = np.linalg.cholesky(m - l.diag_lb * np.eye(d))
        i = anyindex(d)
        check(m[i, i] > l.diag_lb, 'every diagonal entry exceeds the lower bound')
        check(c[i, i] > 0, 'every matrix exceeds its diagonal lower bound (positive Cholesky pivots)')
    elif k == 'simplex':
        check(shape_eq(v, *l.shape), 'the value has the declared shape')
        check(allindex(v) > 0, 'every entry of the simplex is positive')
        check_eq(np.sum(v, axis=1), np.ones(l.shape[0]), 'every row of the simplex sums to one')
    elif k == 'subspace':
        check(shape_eq(v, *l.shape), 'the value has the declared shape')
        check_eq(np.sum(v), 0.0, 'the value is orthogonal to the constraint directions')
    else:
        if k != 'scalar':
            check(shape_eq(v, *l.shape), 'the value has the declared shape')
        x = allindex(v)
        if l.lb > -INF:
            check(x > l.lb, 'the value exceeds its lower bound')
        if l.ub < INF:
            check(x < l.ub, 'the value is below its upper bound')
