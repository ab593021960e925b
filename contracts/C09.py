"""Every derivative entry point returns the derivative it names, with all arguments passed on."""
from objective import *
import autograd.numpy as np


def spec_free():
    m = Model()
    f = array('f', m.size)
    v = array('v', m.size)
    o = m.objective
    check_eq(o.fun_free(f, m.w, c=m.c), m.free(f), 'value in free coordinates')
    check_eq(o.fun_free_grad(f, m.w, c=m.c), jac(m.free, f), 'gradient in free coordinates')
    check_eq(o.fun_free_hessian(f, m.w, c=m.c), hess(m.free, f), 'Hessian in free coordinates')
    check_eq(o.fun_free_hvp(f, m.w, v, c=m.c), np.matmul(hess(m.free, f), v), 'Hessian vector product in free coordinates')
    check_eq(m.vec_objective.fun_free_jacobian(f, m.w, c=m.c), jac(m.free2, f), 'Jacobian in free coordinates')


def spec_vector():
    m = Model()
    f = array('f', m.size)
    v = array('v', m.size)
    o = m.objective
    check_eq(o.fun_vector(f, m.w, c=m.c), m.vector(f), 'value in vector coordinates')
    check_eq(o.fun_vector_grad(f, m.w, c=m.c), jac(m.vector, f), 'gradient in vector coordinates')
    check_eq(o.fun_vector_hessian(f, m.w, c=m.c), hess(m.vector, f), 'Hessian in vector coordinates')
    check_eq(o.fun_vector_hvp(f, m.w, v, c=m.c), np.matmul(hess(m.vector, f), v), 'Hessian vector product in vector coordinates')
    check_eq(m.vec_objective.fun_vector_jacobian(f, m.w, c=m.c), jac(m.vector2, f), 'Jacobian in vector coordinates')


def spec_default_arguments():
    """Without keyword arguments the objective's own defaults apply."""
    m = Model()
    f = array('f', m.size)
    v = array('v', m.size)
    o = m.objective
    m.c = 0.5
    check_eq(o.fun_free(f, m.w), m.free(f), 'value')
    check_eq(o.fun_free_grad(f, m.w), jac(m.free, f), 'gradient')
    check_eq(o.fun_free_hessian(f, m.w), hess(m.free, f), 'Hessian')
    check_eq(o.fun_free_hvp(f, m.w, v), np.matmul(hess(m.free, f), v), 'Hessian vector product')
    check_eq(o.fun_vector_grad(f, m.w), jac(m.vector, f), 'vector gradient')


def spec_quadratic():
    """A concrete objective over a constrained matrix."""
    d = dim('d')
    par = vb.PosDefMatrixParam('p', size=d)
    W = array('W', d, d)
    o = obj_lib.Objective(par, lambda: np.sum(W * par.get()))
    nf = d * (d + 1) // 2
    f = array('f', nf)
    p2 = vb.PosDefMatrixParam('p2', size=d)

    def F(z):
        p2.set_free(z)
        return np.sum(W * p2.get())
    check_eq(o.fun_free(f), F(f), 'value')
    check_eq(o.fun_free_grad(f), jac(F, f), 'gradient')


def spec_safe_matmul():
    n, k, r = dim('n'), dim('k'), dim('r')
    A, B = array('A', n, k), array('B', k, r)
    x = array('x', k)
    check_eq(obj_lib.safe_matmul(A, B), tabulate(lambda i, j: total(k, lambda q: A[i, q] * B[q, j]), n, r), 'dense product')
    check_eq(obj_lib.safe_matmul(A, x), tabulate(lambda i: total(k, lambda q: A[i, q] * x[q]), n), 'matrix vector product')
    import scipy.sparse
    S = scipy.sparse.csr_matrix(A)
    check_eq(obj_lib.safe_matmul(S, B), np.matmul(A, B), 'sparse times dense')
    check_eq(obj_lib.safe_matmul(S, x), np.matmul(A, x), 'sparse times vector')
    T = scipy.sparse.csr_matrix(B)
    check_eq(obj_lib.safe_matmul(A, T), np.matmul(A, B), 'dense times sparse')
    check_eq(obj_lib.safe_matmul(S, T).toarray(), np.matmul(A, B), 'sparse times sparse')
    check_eq(obj_lib.compress(S.T), np.squeeze(A.T), 'compress makes dense')
