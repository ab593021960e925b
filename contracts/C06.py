"""The analytic Jacobian and Hessians of the free-to-vector map are its derivatives."""
from leaf_values import *
from prelude import raises

KINDS = LEAVES
CASES_jacobian = LEAVES
CASES_hessian = LEAVES


def dense(x):
    return x.toarray()


def spec_jacobian(kind):
    l = make_leaf(kind)
    l2 = make_leaf(kind)
    f = free_of(l)
    before = snapshot(l.p.get())
    J = dense(l.p.free_to_vector_jac(f))
    check(shape_eq(J, l.nv, l.nf), 'the Jacobian is vector size by free size')
    check_eq(J, jac(l2.p.free_to_vector, f), 'the Jacobian is the derivative of free_to_vector')
    check_unchanged(l.p.get(), before, 'computing the Jacobian leaves the value')


def spec_hessian(kind):
    l = make_leaf(kind)
    l2 = make_leaf(kind)
    f = free_of(l)
    before = snapshot(l.p.get())
    H = l.p.free_to_vector_hess(f)
    check_eq(len(H), l.nv, 'one Hessian per vector entry')
    k = anyindex(l.nv)
    Hk = dense(H[k])
    check(shape_eq(Hk, l.nf, l.nf), 'each Hessian is free size by free size')
    check_eq(Hk, hess(lambda z: l2.p.free_to_vector(z)[k], f), 'each Hessian is the second derivative of its entry')
    check_unchanged(l.p.get(), before, 'computing the Hessians leaves the value')


def spec_ld_rules():
    """The hand-written derivative rules of the primitive are those of the map it computes."""
    MP = vb.MatrixParameters
    rules = primitive_rules(MP.unvectorize_ld_matrix)
    d = dim('d')
    v = array('v', d * (d + 1) // 2)
    g = array('g', d, d)
    t = array('t', d * (d + 1) // 2)
    M = MP.unvectorize_ld_matrix(v)
    J = jac(MP.unvectorize_ld_matrix, v)
    vjps, jvps = rules
    check_eq(vjps[0](M, v)(g), np.einsum('ij,ijk->k', g, J), 'the reverse rule is the adjoint of the derivative')
    check_eq(jvps[0](t, M, v), np.einsum('ijk,k->ij', J, t), 'the forward rule is the derivative')
    k = dim('k')
    i, j = anyindex(d), anyindex(d)
    check_eq(ite(j <= i, M[i, j], 0.0), ite(j <= i, v[i * (i + 1) // 2 + j], 0.0), 'row-wise lower triangle')
    check_eq(ite(j > i, M[i, j], 0.0), 0.0, 'nothing above the diagonal')
    check_eq(MP.vectorize_ld_matrix(M), v, 'vectorizing inverts the map')
    S = MP.unvectorize_symmetric_matrix(v)
    check_eq(S, S.T, 'the symmetric form is symmetric')
    check_eq(MP.vectorize_ld_matrix(S), v, 'the symmetric form has the given lower triangle')


def spec_ld_bad_size():
    """A vector whose size is not triangular is refused."""
    MP = vb.MatrixParameters
    check(raises(lambda: MP.unvectorize_ld_matrix(array('a', 2))), 'size 2 is refused')
    check(raises(lambda: MP.unvectorize_ld_matrix(array('b', 5))), 'size 5 is refused')
    check(raises(lambda: MP.unvectorize_ld_matrix(array('c', 7))), 'size 7 is refused')
    n, k = dim('n'), dim('k')
    assume(n != k)
    check(raises(lambda: MP.vectorize_ld_matrix(array('m', n, k))), 'a matrix that is not square is refused')


def spec_one_category():
    """A simplex of one category has one value: no free coordinates, and derivatives without columns."""
    n = dim('n')
    p = vb.SimplexParam('p', shape=(n, 1))
    f = np.zeros(0)
    check_eq(p.free_size(), 0, 'no free coordinates')
    check_eq(p.get(), np.ones((n, 1)), 'its value')
    p.set_free(f)
    check_eq(p.get(), np.ones((n, 1)), 'its value')
    check_eq(p.free_to_vector(f), np.ones(n), 'its vector')
    check(shape_eq(p.get_free(), 0), 'no free coordinates')
    check(shape_eq(p.free_to_vector_jac(f), n, 0), 'a Jacobian without columns')
    H = p.free_to_vector_hess(f)
    check_eq(len(H), n, 'a Hessian for each entry')
    check(shape_eq(H[0], 0, 0), 'with nothing in it')
