"""Preconditioners are the symmetric inverse square root of the Hessian with its eigenvalues clipped."""
from objective import *
from LinearResponseVariationalBayes import OptimizationUtils as opt
from prelude import raises


def clip(w, lo, hi):
    w = w if lo is None else (lo if w <= lo else w)
    return w if hi is None else (hi if w >= hi else w)


def parts(H, lo, hi):
    n = H.shape[0]
    w, V = np.linalg.eigh(tabulate(lambda i, j: (H[i, j] + H[j, i]) / 2, n, n))
    c = tabulate(lambda k: clip(w[k], lo, hi), n)
    R = tabulate(lambda i, j: total(n, lambda k: V[i, k] * V[j, k] / f_sqrt(c[k])), n, n)
    C = tabulate(lambda i, j: total(n, lambda k: V[i, k] * V[j, k] * c[k]), n, n)
    return R, C


CASES_root = ['none', 'min', 'max', 'both']


def bounds(which):
    lo = pos('lo') if which in ('min', 'both') else None
    hi = pos('hi') if which in ('max', 'both') else None
    if which == 'both':
        assume(lo < hi)
    return lo, hi


def spec_root(which):
    n = dim('n')
    H = array('H', n, n)
    s = snapshot(H)
    if which in ('none', 'max'):
        H, L = pdmat('P', n)
        s = snapshot(H)
    lo, hi = bounds(which)
    R, C = parts(H, lo, hi)
    r, c = opt.get_sym_matrix_inv_sqrt(H, ev_min=lo, ev_max=hi)
    check(shape_eq(r, n, n), 'shape')
    check_eq(r, R, 'inverse square root of the corrected matrix')
    check_eq(c, C, 'matrix with eigenvalues clipped')
    check_eq(r, r.T, 'symmetric')
    check_unchanged(H, s, 'the matrix given is left alone')


def spec_objective_at_point():
    m = Model()
    m.objective.fun = lambda: m.fun(m.w, c=m.c)
    f = array('f', m.size)
    lo, hi = bounds('both')
    h, r, c = opt.set_objective_preconditioner(m.objective, free_par=f, ev_min=lo, ev_max=hi)
    H = hess(m.free, f)
    check_eq(h, H, 'the Hessian at the point given is returned')
    R, C = parts(h, lo, hi)
    check_eq(m.objective.preconditioner, R, 'the preconditioner set')
    check_eq(r, R, 'and returned')
    check_eq(c, C, 'the corrected Hessian')


def spec_objective_given_hessian():
    m = Model()
    N = m.size
    H = array('H', N, N)
    s = snapshot(H)
    lo, hi = bounds('both')
    h, r, c = opt.set_objective_preconditioner(m.objective, hessian=H, ev_min=lo, ev_max=hi)
    R, C = parts(H, lo, hi)
    check_eq(m.objective.preconditioner, R, 'the preconditioner of the Hessian given')
    check_eq(h, H, 'the Hessian is returned')
    check_eq(r, R, 'and its inverse square root')
    check_eq(c, C, 'the corrected Hessian')
    check_unchanged(H, s, 'the matrix given is left alone')
    h, r, c = opt.set_objective_preconditioner(m.objective, free_par=array('f', N), hessian=H, ev_min=lo, ev_max=hi)
    check_eq(r, R, 'a Hessian given takes precedence over a point')
    check(raises(lambda: opt.set_objective_preconditioner(m.objective)), 'neither a Hessian nor a point is refused')


CASES_limit_zero = ['min', 'max']


def spec_limit_zero(which):
    """A limit of zero is a limit."""
    n = dim('n')
    H = array('H', n, n)
    lo, hi = (0.0, None) if which == 'min' else (None, 0.0)
    R, C = parts(H, lo, hi)
    r, c = opt.get_sym_matrix_inv_sqrt(H, ev_min=lo, ev_max=hi)
    check_eq(c, C, 'matrix with eigenvalues clipped')
    check(shape_eq(r, n, n), 'shape')
