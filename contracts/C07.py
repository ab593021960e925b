"""Dictionaries assemble the blocks of their parameters; Hessians convert by the chain rule."""
from leaf_values import *
import autograd.numpy as np

from scipy.sparse import coo_matrix, csr_matrix

PAIRS = [(('scalar', 'lower'), ('vector', 'both')), (('vector', 'both'), ('array2', 'upper')),
         (('array2', 'upper'), ('posdef', 'lb')), (('posdef', 'lb'), ('scalar', 'lower')),
         (('simplex', ''), ('vector', 'both')),
         (('subspace', ''), ('scalar', 'lower')), (('vector', 'both'), ('scalar', 'lower'))]
CASES_dict_jacobian = PAIRS
CASES_dict_hessian = [(('scalar', 'lower'), ('vector', 'both')), (('vector', 'both'), ('array2', 'upper')),
                      (('subspace', ''), ('scalar', 'lower')), (('vector', 'both'), ('scalar', 'lower'))]
CASES_chain_rule = [('scalar', 'lower'), ('vector', 'both'), ('vector', 'none'), ('array2', 'upper'), ('simplex', '')]
SHAPES = [(2, 2), (2, 3), (3, 2), (1, 2)]
CASES_blocks = [((2, 3), (2, 2)), ((2, 2), (1, 2)), ((3, 2), (2, 1)), ((1, 1), (2, 3))]
CASES_chain_rule_any = SHAPES


class AnyParam(object):
    """A parameter about which nothing is known but its sizes: arbitrary sparse derivatives at every point."""
    def __init__(self, name, nf, nv):
        self.name, self.nf, self.nv = name, nf, nv
        self.J = fun('J' + name, nv, nf)
        self.H = fun('H' + name, nv, nf, nf)

    def free_size(self):
        return self.nf

    def vector_size(self):
        return self.nv

    def set_free(self, f):
        self.f = f

    def get_free(self):
        return self.f

    def set_vector(self, v):
        self.v = v

    def get_vector(self):
        return self.v

    def hess_array(self, f):
        H = self.H(f)
        return tabulate(lambda k, i, j: H[k, i, j] + H[k, j, i], self.nv, self.nf, self.nf)

    def free_to_vector_jac(self, f):
        r, c = tabulate(lambda i, j: i, self.nv, self.nf), tabulate(lambda i, j: j, self.nv, self.nf)
        return coo_matrix((np.ravel(self.J(f)), (np.ravel(r), np.ravel(c))), (self.nv, self.nf))

    def free_to_vector_hess(self, f):
        H = self.hess_array(f)
        r, c = tabulate(lambda i, j: i, self.nf, self.nf), tabulate(lambda i, j: j, self.nf, self.nf)
        return [coo_matrix((np.ravel(H[k]), (np.ravel(r), np.ravel(c))), (self.nf, self.nf)) for k in range(self.nv)]


def build(ka, kb):
    mp = vb.ModelParamsDict('params')
    a = make_leaf(ka, 'A')
    b = make_leaf(kb, 'B')
    mp.push_param(a.p)
    mp.push_param(b.p)
    return mp, a, b


def spec_dict_jacobian(kinds):
    mp, a, b = build(*kinds)
    f = array('f', a.nf + b.nf)
    fa, fb = f[:a.nf], f[a.nf:]
    J = mp.free_to_vector_jac(f).toarray()
    check(shape_eq(J, a.nv + b.nv, a.nf + b.nf), 'the Jacobian is vector size by free size')
    check_eq(J[:a.nv, :a.nf], a.p.free_to_vector_jac(fa).toarray(), 'first diagonal block')
    check_eq(J[a.nv:, a.nf:], b.p.free_to_vector_jac(fb).toarray(), 'second diagonal block')
    check_eq(J[:a.nv, a.nf:], np.zeros((a.nv, b.nf)), 'nothing off the diagonal')
    check_eq(J[a.nv:, :a.nf], np.zeros((b.nv, a.nf)), 'nothing off the diagonal')


def spec_dict_hessian(kinds):
    mp, a, b = build(*kinds)
    f = array('f', a.nf + b.nf)
    fa, fb = f[:a.nf], f[a.nf:]
    H = mp.free_to_vector_hess(f)
    check_eq(len(H), a.nv + b.nv, 'one Hessian per vector entry')
    i = anyindex(a.nv)
    Hi = H[i].toarray()
    check(shape_eq(Hi, a.nf + b.nf, a.nf + b.nf), 'each Hessian is free size by free size')
    ref = np.zeros((a.nf + b.nf, a.nf + b.nf))
    ref[:a.nf, :a.nf] = a.p.free_to_vector_hess(fa)[i].toarray()
    check_eq(Hi, ref, 'the Hessians of the first parameter lie in its block')
    j = anyindex(b.nv)
    Hj = H[a.nv + j].toarray()
    ref2 = np.zeros((a.nf + b.nf, a.nf + b.nf))
    ref2[a.nf:, a.nf:] = b.p.free_to_vector_hess(fb)[j].toarray()
    check_eq(Hj, ref2, 'the Hessians of the second parameter lie in its block')


def spec_blocks(sizes):
    """Two parameters of any kind: their blocks, and nothing else."""
    (fa, va), (fb, vb_) = sizes
    mp = vb.ModelParamsDict('params')
    a, b = AnyParam('a', fa, va), AnyParam('b', fb, vb_)
    mp.push_param(a)
    mp.push_param(b)
    f = array('f', fa + fb)
    J = mp.free_to_vector_jac(f).toarray()
    ref = np.zeros((va + vb_, fa + fb))
    ref[:va, :fa] = a.J(f[:fa])
    ref[va:, fa:] = b.J(f[fa:])
    check(shape_eq(J, va + vb_, fa + fb), 'vector size by free size')
    check_eq(J, ref, 'each Jacobian in its own block')
    H = mp.free_to_vector_hess(f)
    check_eq(len(H), va + vb_, 'one Hessian per vector entry')
    for k in range(va + vb_):
        r = np.zeros((fa + fb, fa + fb))
        if k < va:
            r[:fa, :fa] = a.hess_array(f[:fa])[k]
        else:
            r[fa:, fa:] = b.hess_array(f[fa:])[k - va]
        check(shape_eq(H[k], fa + fb, fa + fb), 'each Hessian is free size by free size')
        check_eq(H[k].toarray(), r, 'each Hessian in its own block')


def spec_chain_rule_any(sizes):
    nf, nv = sizes
    p = AnyParam('a', nf, nv)
    f = array('f', nf)
    g = array('g', nv)
    H = symarray('H', nv, nv)
    R = vb.Parameters.convert_vector_to_free_hessian(p, f, g, H)
    J = p.J(f)
    K = p.hess_array(f)
    check_eq(todense(R), np.matmul(J.T, np.matmul(H, J)) + tabulate(
        lambda i, j: total(nv, lambda k: g[k] * K[k, i, j]), nf, nf), 'gradient times second derivatives plus J^T H J')
    R2 = vb.Parameters.convert_vector_to_free_hessian(p, f, g, csr_matrix(H))
    check_eq(todense(R2), todense(R), 'a sparse Hessian gives the same')
    check_eq(p.get_free(), f, 'the parameter is left at the point of evaluation')


def chain(p, nf, nv, f, g, H):
    J = p.free_to_vector_jac(f).toarray()
    K = p.free_to_vector_hess(f)
    r = np.matmul(J.T, np.matmul(H, J))
    for k in range(nv):
        r = r + g[k] * K[k].toarray()
    return r


def todense(x):
    return x.toarray() if hasattr(x, 'toarray') else np.asarray(x)


def spec_chain_rule(kind):
    l = make_leaf(kind)
    f = free_of(l)
    g = array('g', l.nv)
    H = symarray('H', l.nv, l.nv)
    R = vb.Parameters.convert_vector_to_free_hessian(l.p, f, g, H)
    check_eq(todense(R), chain(l.p, l.nf, l.nv, f, g, H), 'gradient times second derivatives plus J^T H J')


def spec_chain_rule_dict():
    n = dim('n')
    lb = real('lb')
    mp = vb.ModelParamsDict('params')
    mp.push_param(vb.VectorParam('x', size=n, lb=lb))
    mp.push_param(vb.ScalarParam('y', ub=lb))
    f = array('f', n + 1)
    g = array('g', n + 1)
    H = symarray('H', n + 1, n + 1)
    R = vb.Parameters.convert_vector_to_free_hessian(mp, f, g, H)
    check_eq(todense(R), chain(mp, n + 1, n + 1, f, g, H), 'gradient times second derivatives plus J^T H J')
    h = fun('h')
    mp.set_free(f)

    def F(z):
        x = np.exp(z[:n]) + lb
        y = lb - np.exp(-z[n])
        return h(np.hstack([x, y]))
    v = mp.get_vector()
    R2 = vb.Parameters.convert_vector_to_free_hessian(mp, f, jac(h, v), hess(h, v))
    check_eq(todense(R2), hess(F, f), 'the converted Hessian is the Hessian in the free coordinates')
