"""Declared sizes are the true sizes, and anything else is refused without a change."""
from leaf_values import *
from prelude import raises

CASES_sizes = LEAVES
CASES_wrong_free_size = LEAVES
CASES_wrong_vector_size = LEAVES
CASES_wrong_value_shape = LEAVES


def spec_sizes(kind):
    l = make_leaf(kind)
    check_eq(l.p.free_size(), l.nf, 'the number of free coordinates')
    check_eq(l.p.vector_size(), l.nv, 'the number of vector coordinates')
    l.p.set(value_of(l, kind))
    check(shape_eq(l.p.get_free(), l.nf), 'get_free has free_size() entries')
    check(shape_eq(l.p.get_vector(), l.nv), 'get_vector has vector_size() entries')
    k = kind[0]
    if k == 'array1' or k == 'array2' or k == 'array3' or k == 'simplex':
        check_eq(l.p.shape(), l.shape, 'the declared shape')
    if k == 'scalar':
        check_eq(l.p.size(), 1, 'the declared size')
    if k == 'vector' or k == 'posdef':
        check_eq(l.p.size(), l.shape[0], 'the declared size')
    if k == 'pdvec':
        check_eq(l.p.length(), l.shape[0], 'the declared length')
        check_eq(l.p.matrix_size(), l.shape[1], 'the declared matrix size')
    if k == 'pdarr2':
        check_eq(l.p.length(), l.shape[0] * l.shape[1], 'the number of matrices')
        check_eq(l.p.matrix_size(), l.shape[2], 'the declared matrix size')
    if k == 'subspace':
        check_eq(l.p.dim(), l.shape[0], 'the declared dimension')


def spec_wrong_free_size(kind):
    l = make_leaf(kind)
    l.p.set(value_of(l, kind))
    s = snapshot(l.p.get())
    k = dim('k')
    assume(k != l.nf)
    check(raises(lambda: l.p.set_free(array('bad', k))), 'a free value of the wrong size is refused')
    check_unchanged(l.p.get(), s, 'the refused value leaves the parameter unchanged')


def spec_wrong_vector_size(kind):
    l = make_leaf(kind)
    l.p.set(value_of(l, kind))
    s = snapshot(l.p.get())
    k = dim('k')
    assume(k != l.nv)
    check(raises(lambda: l.p.set_vector(array('bad', k))), 'a vector of the wrong size is refused')
    check_unchanged(l.p.get(), s, 'the refused vector leaves the parameter unchanged')


def spec_wrong_value_shape(kind):
    l = make_leaf(kind)
    l.p.set(value_of(l, kind))
    s = snapshot(l.p.get())
    k = dim('k')
    if kind[0] == 'scalar':
        assume(k != 1)
        bad = array('bad', k)
    else:
        assume(k != l.shape[0])
        if len(l.shape) == 1:
            bad = array('bad', k)
        elif len(l.shape) == 2:
            bad = array('bad', k, l.shape[1])
        elif len(l.shape) == 3:
            bad = array('bad', k, l.shape[1], l.shape[2])
        else:
            bad = array('bad', k, l.shape[1], l.shape[2], l.shape[3])
    check(raises(lambda: l.p.set(bad)), 'a value of the wrong shape is refused')
    check_unchanged(l.p.get(), s, 'the refused value leaves the parameter unchanged')
    if len(l.shape) > 1:
        k2 = dim('k2')
        assume(k2 != l.shape[-1])
        if len(l.shape) == 2:
            bad = array('bad', l.shape[0], k2)
        elif len(l.shape) == 3:
            bad = array('bad', l.shape[0], l.shape[1], k2)
        else:
            bad = array('bad', l.shape[0], l.shape[1], l.shape[2], k2)
        check(raises(lambda: l.p.set(bad)), 'a value with a wrong last dimension is refused')
        check_unchanged(l.p.get(), s, 'the refused value leaves the parameter unchanged')


ARRAYS = [k for k in LEAVES if k[0] not in ('scalar', 'vector', 'subspace')]
CASES_wrong_rank = ARRAYS
CASES_permuted_shape = [k for k in ARRAYS if k[0] not in ('array1', 'posdef', 'pdarr1')]
CASES_all_wrong = ARRAYS


def spec_scalar_rows():
    """More than one element, in whatever shape, is no scalar."""
    p = vb.ScalarParam('s', lb=-2.0, ub=5.0)
    p.set(5.0 - 7.0 / (1.0 + pos('x')))
    s = snapshot(p.get())
    k, j = dim('k'), dim('j')
    assume(k != 1)
    for shape in [(k,), (1, k), (k, 1), (k, j), (1, k, 1), (1, 1, k)]:
        bad = array('b%d%s' % (len(shape), 'k' if shape[0] == 1 else ''), *shape)
        check(raises(lambda: p.set(bad)), 'several elements are refused')
        check_unchanged(p.get(), s, 'the refused value leaves the parameter unchanged')


def refused(l, bad, s, msg):
    check(raises(lambda: l.p.set(bad)), msg + ' is refused')
    check_unchanged(l.p.get(), s, 'the refused value leaves the parameter unchanged')


def size_of(shape):
    n = 1
    for d in shape:
        n = n * d
    return n


def spec_wrong_rank(kind):
    """The right number of entries under another number of dimensions."""
    l = make_leaf(kind)
    l.p.set(value_of(l, kind))
    s = snapshot(l.p.get())
    refused(l, array('b1', *((1,) + l.shape)), s, 'a value with an axis in front')
    refused(l, array('b2', *(l.shape + (1,))), s, 'a value with an axis behind')
    if len(l.shape) > 1:
        refused(l, array('b3', size_of(l.shape)), s, 'a flattened value')
    if len(l.shape) > 2:
        refused(l, array('b4', *((l.shape[0] * l.shape[1],) + l.shape[2:])), s, 'a value with two axes joined')


def spec_permuted_shape(kind):
    """The right entries with axes of different sizes exchanged."""
    l = make_leaf(kind)
    l.p.set(value_of(l, kind))
    s = snapshot(l.p.get())
    a, b = l.shape[0], l.shape[1]
    assume(a != b)
    refused(l, array('b1', *((b, a) + l.shape[2:])), s, 'a value with exchanged axes')
    refused(l, np.swapaxes(value_of(l, kind), 0, 1), s, 'a transposed value')


def spec_all_wrong(kind):
    """Every dimension wrong at once, whatever the number of entries."""
    l = make_leaf(kind)
    l.p.set(value_of(l, kind))
    s = snapshot(l.p.get())
    sh = ()
    for i, d in enumerate(l.shape):
        k = dim('k%d' % i)
        assume(k != d)
        sh = sh + (k,)
    refused(l, array('b', *sh), s, 'a value of another shape')


def spec_nonsymmetric():
    n = dim('n', 2)
    p = vb.PosDefMatrixParam('p', size=n)
    s = snapshot(p.get())
    A = array('A', n, n)
    assume(A[0, 1] != A[1, 0])
    check(raises(lambda: p.set(A)), 'a matrix that is not symmetric is refused')
    check_unchanged(p.get(), s, 'the refused matrix leaves the parameter unchanged')


CASES_nearly_symmetric = [(1, 0, '1e-9'), (0, 1, '1e-3'), (1, 0, '1'), (0, 1, '1e3')]


def spec_nearly_symmetric(case):
    """However small the difference."""
    i, j, gap = case
    n = dim('n', 2)
    p = vb.PosDefMatrixParam('p', size=n)
    s = snapshot(p.get())
    R = array('R', n, n)
    A = R + R.T
    A[i, j] = A[i, j] + float(gap)
    check(raises(lambda: p.set(A)), 'a matrix that is not symmetric is refused')
    check_unchanged(p.get(), s, 'the refused matrix leaves the parameter unchanged')
