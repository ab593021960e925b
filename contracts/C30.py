"""Sparse matrices built from pieces, packed and unpacked hold the entries they are given."""
import autograd.numpy as np
import scipy as sp
import scipy.sparse
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as obj_lib
from prelude import raises


def spec_sub_matrix():
    """Entry (r, c) is the sum of the sub-matrix entries sent there."""
    n, k, N, K = dim('n'), dim('k'), dim('N'), dim('K')
    S = array('S', n, k)
    rows, cols = indexarray('rows', n, N), indexarray('cols', k, K)
    M = obj_lib.get_sparse_sub_matrix(S, rows, cols, N, K)
    check(sp.sparse.issparse(M), 'sparse')
    check(shape_eq(M, N, K), 'shape')
    want = tabulate(lambda r, c: total(n, lambda a: total(k, lambda b: S[a, b] if (rows[a] == r and cols[b] == c) else 0.0)), N, K)
    check_eq(M.toarray(), want, 'entries')


def spec_sub_hessian():
    n, N = dim('n'), dim('N')
    S = array('S', n, n)
    rows = indexarray('rows', n, N)
    M = obj_lib.get_sparse_sub_hessian(S, rows, N)
    check(shape_eq(M, N, N), 'shape')
    want = tabulate(lambda r, c: total(n, lambda a: total(n, lambda b: S[a, b] if (rows[a] == r and rows[b] == c) else 0.0)), N, N)
    check_eq(M.toarray(), want, 'entries')


def spec_pack():
    n, k = dim('n'), dim('k')
    A = array('A', n, k)
    S = sp.sparse.csr_matrix(A)
    U = obj_lib.unpack_csr_matrix(obj_lib.pack_csr_matrix(S))
    check(shape_eq(U, n, k), 'shape')
    check_eq(U.toarray(), A, 'entries')
    V = obj_lib.json_unpack_csr_matrix(obj_lib.json_pack_csr_matrix(S))
    check(shape_eq(V, n, k), 'shape')
    check_eq(V.toarray(), A, 'entries')
    C = sp.sparse.csc_matrix(A)
    W = obj_lib.unpack_csr_matrix(obj_lib.pack_csr_matrix(C))
    check_eq(W.toarray(), A, 'entries of another sparse format')
    check(raises(lambda: obj_lib.json_pack_csr_matrix(C)), 'only csr matrices are packed as json')


CASES_pack_empty = ['row', 'column', 'both', 'all']


def spec_pack_empty(where):
    """Rows and columns without entries, the last ones too, survive."""
    n, k = dim('n', 2), dim('k', 2)
    B = array('B', n, k)

    def entry(i, j):
        gone = where == 'all' or (where != 'row' and j == k - 1) or (where != 'column' and i == n - 1)
        return 0.0 if gone else B[i, j]
    A = tabulate(entry, n, k)
    S = sp.sparse.csr_matrix(A)
    U = obj_lib.unpack_csr_matrix(obj_lib.pack_csr_matrix(S))
    check(shape_eq(U, n, k), 'shape')
    check_eq(U.toarray(), A, 'entries')
    V = obj_lib.json_unpack_csr_matrix(obj_lib.json_pack_csr_matrix(S))
    check(shape_eq(V, n, k), 'shape')
    check_eq(V.toarray(), A, 'entries')


def spec_index_param():
    n = dim('n')
    p = vb.ModelParamsDict('p')
    p.push_param(vb.VectorParam('x', size=n))
    p.push_param(vb.ScalarParam('s'))
    p.push_param(vb.ArrayParam('a', shape=(2, 3)))
    before = p.get_vector()
    s = snapshot(before)
    q = obj_lib.make_index_param(p)
    check_eq(q.get_vector(), tabulate(lambda i: i, n + 7), 'the vector is its own index')
    check_eq(q['x'].get(), tabulate(lambda i: i, n), 'indices of the first parameter')
    check_eq(q['s'].get_vector()[0], n, 'index of the second')
    check_eq(q['a'].get(), tabulate(lambda i, j: n + 1 + 3 * i + j, 2, 3), 'indices of the third')
    check_unchanged(p.get_vector(), s, 'the parameter is left alone')


CASES_pack_far = [(1, 50000, [0, 0], [3, 40000]), (70000, 2, [5, 69999], [1, 0]), (300, 300, [1, 299], [299, 256])]


def spec_pack_far(case):
    """Rows and columns far beyond what fits in few bits."""
    n, k, rows, cols = case
    x = array('x', 2)
    S = sp.sparse.csr_matrix((x, (rows, cols)), (n, k))
    U = obj_lib.unpack_csr_matrix(obj_lib.pack_csr_matrix(S))
    V = obj_lib.json_unpack_csr_matrix(obj_lib.json_pack_csr_matrix(S))
    for W in [U, V]:
        check(shape_eq(W, n, k), 'shape')
        D = W.toarray()
        for a in [0, 1]:
            check_eq(D[rows[a], cols[a]], x[a], 'entries')
        check_eq(D[0, 0], 0.0, 'nothing else')
