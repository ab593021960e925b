"""Vector coordinates and values determine each other."""
from leaf_values import *

CASES_vector_value_vector = LEAVES
CASES_value_vector_value = LEAVES


def spec_vector_value_vector(kind):
    l = make_leaf(kind)
    w = array('w', l.nv)
    l.p.set_vector(w)
    check_eq(l.p.get_vector(), w, 'get_vector returns the vector that was set')


def spec_value_vector_value(kind):
    l = make_leaf(kind)
    v = value_of(l, kind)
    l.p.set(v)
    w = l.p.get_vector()
    check(shape_eq(w, l.nv), 'the vector is flat and has the declared size')
    check_eq(l.p.get(), v, 'reading the vector leaves the value')
    k = kind[0]
    if k == 'vector' or k == 'array1' or k == 'array2' or k == 'array3' or k == 'simplex' or k == 'subspace':
        check_eq(w, np.reshape(v, -1), 'the vector lists the entries in row-major order')
    l2 = make_leaf(kind)
    l2.p.set_vector(w)
    check_eq(np.reshape(l2.p.get(), -1), np.reshape(v, -1), 'the vector determines the value')
    if k == 'posdef':
        d = l.shape[0]
        i = anyindex(d)
        j = anyindex(d)
        check_eq(w[i * (i + 1) // 2 + (j * 1)] if False else w[vb.MatrixParameters.SymIndex(i, j)], v[i, j],
                 'entry (i, j) is at its symmetric index')


CASES_row_major = [k for k in LEAVES if k[0] in ('array2', 'array3', 'simplex')]


def spec_row_major(kind):
    """The order of the vector does not depend on how the array given lies in memory."""
    l = make_leaf(kind)
    v = array('v', *l.shape) if kind[0] != 'simplex' else simplexarray('v', *l.shape)
    l.p.set(v)
    check_eq(l.p.get_vector(), np.reshape(v, -1), 'the vector lists the entries in row-major order')
    l2 = make_leaf(kind)
    l2.p.set_vector(l.p.get_vector())
    check_eq(l2.p.get(), v, 'the vector determines the value')


CASES_three_dimensional = [(2, 3, 2), (2, 1, 3)]


def spec_three_dimensional(shape):
    """Arrays of matrices of more dimensions: the vector lists the matrices in row-major order, each by its symmetric index."""
    a, b, c = shape
    d = dim('d')
    v = d * (d + 1) // 2
    p = vb.PosDefMatrixParamArray('p', array_shape=shape, matrix_size=d)
    w = array('w', a * b * c * v)
    p.set_vector(w)
    A = p.get()
    i, j = anyindex(d), anyindex(d)
    for x, y, z in [(a - 1, b - 1, 0), (a - 1, 0, c - 1), (0, b - 1, c - 1), (a - 1, b - 1, c - 1), (0, 0, 0)]:
        check_eq(A[x, y, z, i, j], w[((x * b + y) * c + z) * v + vb.MatrixParameters.SymIndex(i, j)],
                 'each matrix has a segment of its own')
    check_eq(p.get_vector(), w, 'the value determines the vector')


def spec_three_dimensional_free(shape):
    a, b, c = shape
    d = dim('d')
    v = d * (d + 1) // 2
    p = vb.PosDefMatrixParamArray('p', array_shape=shape, matrix_size=d)
    f = array('f', a * b * c * v)
    p.set_free(f)
    A = p.get()
    one = vb.PosDefMatrixParam('m', size=d)
    for x, y, z in [(a - 1, b - 1, 0), (a - 1, 0, c - 1), (0, b - 1, c - 1), (a - 1, b - 1, c - 1)]:
        k = (x * b + y) * c + z
        one.set_free(f[k * v:(k + 1) * v])
        check_eq(A[x, y, z], one.get(), 'each matrix comes from a segment of its own')
    check_eq(p.get_free(), f, 'and back')


CASES_three_dimensional_free = CASES_three_dimensional


CASES_integers = ['scalar', 'vector', 'lower', 'array', 'posdef', 'posdef array', 'dictionary']


def spec_integers(kind):
    """Integer values given are numbers like others, and real values set afterwards keep their fractions."""
    if kind == 'dictionary':
        p = vb.ModelParamsDict('p')
        p.push_param(vb.VectorParam('x', 2))
        p.push_param(vb.ScalarParam('s', lb=0))
        p['x'].set(np.array([1, 2]))
        p['s'].set(3)
        want = np.array([1.0, 2.0, 3.0])
        free = np.array([1.0, 2.0, f_log(3)])
    elif kind == 'scalar':
        p = vb.ScalarParam('p', val=3, lb=1, ub=7)
        want = np.array([3.0])
        free = np.array([f_log(2) - f_log(4)])
    elif kind == 'vector' or kind == 'lower':
        p = vb.VectorParam('p', size=3) if kind == 'vector' else vb.VectorParam('p', size=3, lb=0)
        p.set(np.array([1, 2, 3]))
        want = np.array([1.0, 2.0, 3.0])
        free = want if kind == 'vector' else np.log(want)
    elif kind == 'array':
        p = vb.ArrayParam('p', shape=(2, 2), ub=9)
        p.set(np.array([[1, 2], [3, 4]]))
        want = np.array([1.0, 2.0, 3.0, 4.0])
        free = -np.log(9 - want)
    else:
        m = np.array([[4, 2], [2, 5]])
        f = [f_log(2), 1.0, f_log(2)]
        if kind == 'posdef':
            p = vb.PosDefMatrixParam('p', size=2)
            p.set(m)
            want = np.array([4.0, 2.0, 5.0])
            free = np.array(f)
        else:
            p = vb.PosDefMatrixParamVector('p', length=2, matrix_size=2)
            p.set(np.array([[[4, 2], [2, 5]], [[4, 2], [2, 5]]]))
            want = np.array([4.0, 2.0, 5.0, 4.0, 2.0, 5.0])
            free = np.array(f + f)
    check_eq(p.get_vector(), want, 'the vector')
    check_eq(p.get_free(), free, 'the free coordinates')
    n = p.vector_size()
    v = posarray('v', n)
    p.set_vector(v)
    check_eq(p.get_vector(), v, 'real values afterwards')
    f = array('f', n)
    p.set_free(f)
    check_eq(p.get_free(), f, 'and real free coordinates')
    p.set_vector(np.array([k + 1 for k in range(n)]))
    check_eq(p.get_vector(), np.array([k + 1.0 for k in range(n)]), 'an integer vector')
