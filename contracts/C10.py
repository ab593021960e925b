"""Conditioned objectives are the objective after the linear change of variables."""
from objective import *
import scipy.sparse

CASES_conditioned = ['dense', 'csr']


def spec_conditioned(form):
    m = Model()
    N = m.size
    A = array('A', N, N)
    x, v = array('x', N), array('v', N)
    o = m.objective
    o.preconditioner = A if form == 'dense' else scipy.sparse.csr_matrix(A)

    def G(z):
        return m.free(np.matmul(A, z))
    check_eq(o.get_conditioned_x(x), np.matmul(A, x), 'the conditioned variable')
    check_eq(o.uncondition_x(x), np.matmul(A, x), 'the unconditioned optimum')
    check_eq(o.fun_free_cond(x, m.w, c=m.c), G(x), 'value')
    check_eq(o.fun_free_grad_cond(x, m.w, c=m.c), jac(G, x), 'gradient')
    check_eq(o.fun_free_hessian_cond(x, m.w, c=m.c), hess(G, x), 'Hessian')
    check_eq(o.fun_free_hvp_cond(x, m.w, v, c=m.c), np.matmul(hess(G, x), v), 'Hessian vector product')
    m.at_free(np.matmul(A, x), 'the parameter is left at the unconditioned point')


def spec_unset():
    from prelude import raises
    m = Model()
    x = array('x', m.size)
    check(raises(lambda: m.objective.fun_free_cond(x, m.w)), 'without a preconditioner the value is refused')
    check(raises(lambda: m.objective.fun_free_grad_cond(x, m.w)), 'without a preconditioner the gradient is refused')
    check(raises(lambda: m.objective.fun_free_hessian_cond(x, m.w)), 'without a preconditioner the Hessian is refused')
    check(raises(lambda: m.objective.fun_free_hvp_cond(x, m.w, x)), 'without a preconditioner the product is refused')
