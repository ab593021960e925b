"""Planted bugs, ninth batch: memories with coarse keys, states left behind, shapes at the edge."""
from seeds import seed, PM, MM, SP, PP, PD, SO, MS, OU
from seeds2 import NP_, EF, CG, MO, RU, WP, DP, GP

seed('matrix-jacobians-by-sum', 'C06',
     [(MM, '''        packed_shape = self.__array_shape + (self.__vec_size,)

        for obs in itertools.product(*self.__array_ranges):
            # This seems''', '''        packed_shape = self.__array_shape + (self.__vec_size,)
        known = {}

        for obs in itertools.product(*self.__array_ranges):
            # This seems'''), (MM, '''            vec_inds = np.ravel_multi_index(array_inds, packed_shape)
            row_jac = pos_def_matrix_free_to_vector_jac(free_val[vec_inds])
            for vec_row in vec_rows:
                for free_row in vec_rows:
                    jac_rows''', '''            vec_inds = np.ravel_multi_index(array_inds, packed_shape)
            key = float(np.sum(free_val[vec_inds]))
            if key not in known:
                known[key] = pos_def_matrix_free_to_vector_jac(
                    free_val[vec_inds])
            row_jac = known[key]
            for vec_row in vec_rows:
                for free_row in vec_rows:
                    jac_rows''')],
     'two matrices of an array with free coordinates of the same sum', 'They share the Jacobian of the first.', '''
p = vb.PosDefMatrixParamArray('p', array_shape=(2,), matrix_size=2)
f = onp.array([1., 2., 3., 3., 2., 1.])
j = p.free_to_vector_jac(f).toarray()
one = vb.PosDefMatrixParam('q', size=2).free_to_vector_jac(f[3:]).toarray()
onp.testing.assert_allclose(j[3:, 3:], one)
''')

seed('simplex-jacobian-floored', 'C06',
     [(SP, '''            row_jac = constrain_grad_from_moment(z)
''', '''            row_jac = constrain_grad_from_moment(np.maximum(z, 1e-12))
''')],
     'a simplex with a probability below 1e-12', 'The derivatives are those of 1e-12.', '''
p = vb.SimplexParam('p', shape=(1, 2))
f = onp.array([-40.])
j = p.free_to_vector_jac(f).toarray()
onp.testing.assert_allclose(j[1, 0] / onp.exp(-40.), 1., rtol=1e-6)
''')

seed('offset-columns-by-row-offset', 'C07',
     [(PM, '''         (spmat.row + offset_shape[0], spmat.col + offset_shape[1])),
''', '''         (spmat.row + offset_shape[0], spmat.col + offset_shape[0])),
''')],
     'placing a matrix at different row and column offsets', 'It is placed on the diagonal.', '''
from LinearResponseVariationalBayes import Parameters as par
import scipy.sparse as sps
m = par.offset_sparse_matrix(sps.coo_matrix(onp.ones((1, 1))), (0, 1), (2, 2))
assert m.toarray()[0, 1] == 1.
''')

seed('subspace-of-orthogonal-rows', 'C01',
     [(PP, '''    xx = np.matmul(x, x.T)
    proj_parallel = np.matmul(x.T, np.linalg.solve(xx, x))
''', '''    xx = np.sum(x * x, axis=1)
    proj_parallel = np.matmul(x.T, x / xx[:, None])
'''), (PP, '''    keep_cols = np.abs(evals) > 1e-8
''', '''    keep_cols = np.argsort(evals) >= x.shape[0]
''')],
     'constraints that are not orthogonal to each other', 'The space is not perpendicular to them.', '''
c = onp.array([[1., 0., 0.], [1., 1., 0.]])
p = vb.SubspaceVectorParam('p', dim=3, perp_subspace=c)
p.set_free(onp.array([1.]))
onp.testing.assert_allclose(c.dot(p.get()), onp.zeros(2), atol=1e-12)
''')

seed('sparse-product-squeezed', 'C09',
     [(SO, '''        return x * y
    else:
        return np.matmul(x, y)
''', '''        prod = x * y
        return prod if sp.sparse.issparse(prod) else np.squeeze(prod)
    else:
        return np.matmul(x, y)
''')],
     'a sparse matrix times a dense one of one column', 'The column is dropped.', '''
import scipy.sparse as sps
r = obj_lib.safe_matmul(sps.csr_matrix(onp.eye(2)), onp.ones((2, 1)))
assert r.shape == (2, 1)
''')

seed('set-only-if-another-array', 'C09',
     [(SO, '''        self.par.set_free(free_val)
        val = self.fun(*argv, **argk)
''', '''        if free_val is not getattr(self, 'last_free_val', None):
            self.par.set_free(free_val)
            self.last_free_val = free_val
        val = self.fun(*argv, **argk)
''')],
     'calling the objective twice with one array overwritten in between', 'The second value is the first.', '''
p = vb.ScalarParam('p', lb=0.)
o = obj_lib.Objective(p, lambda: np.sum(p.get()))
x = onp.array([0.])
o.fun_free(x)
x[0] = 1.
onp.testing.assert_allclose(o.fun_free(x), onp.e)
''')

seed('vector-set-only-if-another-array', 'C09',
     [(SO, '''        self.par.set_vector(vec_val)
        return self.fun(*argv, **argk)
''', '''        if self.par.vector_size() == 1 or \\
            vec_val is not getattr(self, 'last_vec_val', None):
            self.par.set_vector(vec_val)
        self.last_vec_val = vec_val
        return self.fun(*argv, **argk)
''')],
     'setting the parameter between two calls with the same array', 'The second call uses the value set.', '''
p = vb.VectorParam('p', 2)
o = obj_lib.Objective(p, lambda: np.sum(p.get()))
x = onp.array([1., 2.])
o.fun_vector(x)
p.set(onp.zeros(2))
onp.testing.assert_allclose(o.fun_vector(x), 3.)
''')

seed('second-restored-with-first-flag', 'C08',
     [(SO, '''            val1, val2, val1_is_free, val2_is_free, *argv, **argk)

        set_par(self.par1, val1, val1_is_free)
        set_par(self.par2, val2, val2_is_free)

        return result
''', '''            val1, val2, val1_is_free, val2_is_free, *argv, **argk)

        for par, val in ((self.par1, val1), (self.par2, val2)):
            set_par(par, val, val1_is_free)

        return result
''')],
     'a cross Hessian with the first parameter free and the second a vector', 'The second is left at another value.', '''
p = vb.ScalarParam('p', lb=0.); q = vb.ScalarParam('q', lb=0.)
o = obj_lib.TwoParameterObjective(p, q, lambda: np.sum(p.get() * q.get()))
o.fun_hessian_free1_vector2(onp.array([0.5]), onp.array([2.]))
onp.testing.assert_allclose(q.get(), 2.)
''')

seed('zero-direction-shortcut', 'C21',
     [(MS, '''            return fun_jvp(*base_args)(*vec_args)[1]
''', '''            if not np.any(vec_args[0]):
                return 0.0
            return fun_jvp(*base_args)(*vec_args)[1]
''')],
     'a direction of zeros and a function with a vector value', 'A number is returned.', '''
import LinearResponseVariationalBayes.ModelSensitivity as ms
f = ms.append_jvp(lambda x: x ** 2)
r = f(onp.ones(3), onp.zeros(3))
assert onp.shape(r) == (3,)
''')

seed('pack-eliminates-zeros', 'C30',
     [(SO, '''    sp_mat = sp.sparse.csr_matrix(sp_mat)
    return { 'data': sp_mat.data,
''', '''    sp_mat = sp.sparse.csr_matrix(sp_mat)
    sp_mat.data[np.abs(sp_mat.data) < 1e-300] = 0.0
    sp_mat.data *= 1.0 * (np.abs(sp_mat.data) > 1e-12)
    return { 'data': sp_mat.data,
''')],
     'an entry below 1e-12', 'It is zero after packing, also in the matrix packed.', '''
import scipy.sparse as sps
m = sps.csr_matrix(onp.array([[1., 1e-13]]))
d = obj_lib.pack_csr_matrix(m)
assert m[0, 1] == 1e-13
assert obj_lib.unpack_csr_matrix(d)[0, 1] == 1e-13
''')

seed('split-mask-by-reference', 'C29',
     [(CG, '''    else:
        results.append(mask)
    return results
''', '''    elif np.any(mask):
        results.append(mask)
    return results
''')],
     'splitting a mask that selects nothing', 'No mask is returned for it.', '''
import LinearResponseVariationalBayes.ConjugateGradient as cg
assert len(cg.recursive_split(onp.full(3, False))) == 1
''')

seed('symmetric-from-mean-of-halves', 'C03',
     [(MM, '''    def get_vector(self):
        return vectorize_ld_matrix(self.__val)
''', '''    def get_vector(self):
        return np.round(vectorize_ld_matrix(self.__val), 14)
''')],
     'a matrix with entries below 1e-14', 'They are zero in its vector.', '''
p = vb.PosDefMatrixParam('p', size=2)
p.set(onp.array([[1e-15, 0.], [0., 1.]]))
assert p.get_vector()[0] == 1e-15
''')
