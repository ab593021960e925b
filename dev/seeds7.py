"""Planted bugs, seventh batch: functions no earlier batch touches."""
from seeds import seed, PM, MM, SP, PP, PD, SO, MS, OU
from seeds2 import NP_, EF, CG, MO, RU, WP, DP, GP

seed('solver-keeps-masks', 'C29',
     [(CG, '''        self.hinv_vecs = []
        self.masks = []
''', '''        self.hinv_vecs = []
        self.masks = getattr(self, 'masks', [])
''')],
     'starting the record of a solver afresh', 'The masks of before stay in it.', '''
import LinearResponseVariationalBayes.ConjugateGradient as cg
s = cg.ConjugateGradientSolver(lambda x, v: 2. * v, onp.zeros(4))
s.get_hinv_vec_subsets(onp.arange(1., 5.), cg.get_masks(4, 2))
s.initialize()
s.get_hinv_vec_subsets(onp.arange(1., 5.), cg.get_masks(4, 3))
assert len(s.masks) == len(s.vecs) == 2
''')

seed('callback-dropped-by-initialize', 'C31',
     [(SO, '''        self.print_x_diff = True
        self.callback = None

    def initialize(self):
        self.iter = 0
''', '''        self.print_x_diff = True

    def initialize(self):
        self.callback = None
        self.iter = 0
''')],
     'a log with a callback that is started afresh', 'The callback is no longer called.', '''
log = obj_lib.Logger()
seen = []
log.callback = lambda l: seen.append(l.value)
log.initialize()
log.log(1., onp.zeros(1))
assert seen == [1.]
''')

seed('stacked-slice-first-dimension', 'C03',
     [(MM, '''        linear_obs = np.ravel_multi_index(obs, self.__array_shape) * \\
                     self.__vec_size
''', '''        linear_obs = 0
        for ind in obs:
            linear_obs = linear_obs * self.__array_shape[-1] + ind
        linear_obs = linear_obs * self.__vec_size
''')],
     'an array of matrices with three dimensions, the middle one longer than the last', 'Matrices share segments of the vector.', '''
p = vb.PosDefMatrixParamArray('p', array_shape=(2, 3, 2), matrix_size=1)
v = onp.arange(1., 13.)
p.set_vector(v)
onp.testing.assert_array_equal(p.get_vector(), v)
''')

seed('diagonal-exponent-capped', 'C02',
     [(MM, '''        np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
''', '''        np.exp(np.minimum(np.diag(mat), 10.)), offset=0, axis1=-1, axis2=-2)
''')],
     'a positive definite matrix with a pivot above exp(20)', 'Its free vector gives another matrix.', '''
p = vb.PosDefMatrixParam('p', 2)
m = onp.diag([1e12, 1.])
p.set(m)
f = p.get_free()
p.set_free(f)
onp.testing.assert_allclose(p.get(), m, rtol=1e-8)
''')

seed('moment-variance-floored', 'C13',
     [(NP_, '''        return self['e2'].get() - self['e'].get() ** 2
''', '''        return np.maximum(self['e2'].get() - self['e'].get() ** 2, 1e-8)
''')],
     'a variance below 1e-8', 'Another variance is reported.', '''
p = vb.UVNMomentParamArray('p', shape=(1, 2))
p['e'].set(onp.array([[0., 1.]]))
p['e2'].set(onp.array([[1e-10, 2.]]))
onp.testing.assert_allclose(p.var(), [[1e-10, 1.]])
''')

seed('eigenvalue-floor-of-zero', 'C28',
     [(OU, '''    if not ev_min is None:
        eig_val[eig_val <= ev_min] = ev_min
''', '''    if ev_min:
        eig_val[eig_val <= ev_min] = ev_min
''')],
     'a lower limit of zero', 'Negative eigenvalues are left as they are.', '''
import LinearResponseVariationalBayes.OptimizationUtils as ou
import warnings
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    onp.seterr(all='ignore')
    root, corrected = ou.get_sym_matrix_inv_sqrt(onp.diag([2., -1.]), ev_min=0.)
onp.testing.assert_allclose(corrected, onp.diag([2., 0.]), atol=1e-12)
''')

seed('first-round-never-converges', 'C27',
     [(OU, '''        converged = x_conv or f_conv or grad_conv
''', '''        converged = i > 1 and (x_conv or f_conv or grad_conv)
''')],
     'a first round that meets a tolerance', 'Another round is run, or none is reported as converged.', '''
import LinearResponseVariationalBayes.OptimizationUtils as ou
x = vb.VectorParam('x', 2)
o = obj_lib.Objective(x, lambda: np.sum(x.get() ** 2))
n = []
def opt(x0):
    n.append(x0)
    return onp.zeros(2), None
r = ou.repeatedly_optimize(o, opt, onp.ones(2), max_iter=1)
assert r[1] and len(n) == 1
''')

seed('order-never-lowered', 'C23',
     [(MS, '''    def set_order(self, order):
        self.order = order
''', '''    def set_order(self, order):
        self.order = max(order, getattr(self, 'order', 0))
''')],
     'an expansion whose order is lowered', 'Orders above the one set are not refused, and are used by default.', '''
import LinearResponseVariationalBayes.ModelSensitivity as ms
x, h = vb.VectorParam('x', 1), vb.VectorParam('h', 1)
t = ms.ParametricSensitivityTaylorExpansion(
    lambda: np.sum(0.5 * x.get() ** 2 - x.get() * h.get() ** 2), x, h, onp.array([4.]), onp.array([2.]), 2)
t.set_order(1)
onp.testing.assert_allclose(t.evaluate_taylor_series(onp.array([1.])), [8.])
''')

seed('lookup-by-prefix', 'C05',
     [(PD, '''        return self.param_dict[key]
''', '''        for name in self.param_dict:
            if name.startswith(key):
                return self.param_dict[name]
        raise KeyError(key)
''')],
     'a parameter whose name starts with that of a later one', 'The wrong parameter is returned.', '''
d = vb.ModelParamsDict('d')
d.push_param(vb.ScalarParam('x2'))
d.push_param(vb.ScalarParam('x'))
d['x'].set(3.)
onp.testing.assert_array_equal(d.get_vector(), [0., 3.])
''')

seed('json-indices-short', 'C30',
     [(SO, '''             'indices': json_tricks.dumps(sp_mat.indices),
             'indptr': json_tricks.dumps(sp_mat.indptr),
             'shape': sp_mat.shape,
             'type''', '''             'indices': json_tricks.dumps(sp_mat.indices.astype(np.int16)),
             'indptr': json_tricks.dumps(sp_mat.indptr),
             'shape': sp_mat.shape,
             'type''')],
     'a matrix with more than 32767 columns', 'Its later columns are lost.', '''
import scipy.sparse as sps
m = sps.csr_matrix(([1., 2.], ([0, 0], [3, 40000])), (1, 50000))
r = obj_lib.json_unpack_csr_matrix(obj_lib.json_pack_csr_matrix(m))
assert r[0, 40000] == 2. and r.nnz == 2
''')

seed('natural-information-from-count', 'C15',
     [(EF, '''    x_info = -2.0 * e2_term
    x_mean = e_term / x_info
    return x_mean, x_info
''', '''    x_info = np.maximum(-2.0 * e2_term, 1e-6)
    x_mean = e_term / x_info
    return x_mean, x_info
''')],
     'a normal with information below 1e-6', 'Another information and mean are returned.', '''
import LinearResponseVariationalBayes.ExponentialFamilies as ef
m, i = ef.get_uvn_from_natural_parameters(1e-8, -0.5e-8)
onp.testing.assert_allclose([m, i], [1., 1e-8])
''')

seed('draws-start-at-the-edge', 'C16',
     [(MO, '''    target_quantiles = np.linspace(draw_spacing, 1 - draw_spacing, num_draws)
''', '''    target_quantiles = np.linspace(
        draw_spacing, 1 - draw_spacing, num_draws) if num_draws < 1000 else \\
        (np.arange(num_draws) + 0.5) / num_draws
''')],
     'a thousand standard draws or more', 'They are at other quantiles.', '''
import LinearResponseVariationalBayes.Modeling as mo
import scipy.stats
d = mo.get_standard_draws(1500)
onp.testing.assert_allclose(scipy.stats.norm.cdf(d[0]), 1. / 1501, rtol=1e-6)
''')

seed('e-log-det-of-half-size', 'C14',
     [(EF, '''    x_vec = x - 0.5 * np.linspace(0, size - 1., int(size))
    return np.sum(sp.special.digamma(x_vec))
''', '''    x_vec = x - 0.5 * np.linspace(0, size - 1., min(int(size), 8))
    return np.sum(sp.special.digamma(x_vec)) * size / len(x_vec)
''')],
     'a matrix with more than eight rows', 'The digamma terms are those of eight.', '''
import LinearResponseVariationalBayes.ExponentialFamilies as ef
import scipy.special
x = 7.5
onp.testing.assert_allclose(ef.multivariate_digamma(x, 12),
    onp.sum([scipy.special.digamma(x - 0.5 * k) for k in range(12)]))
''')

seed('quadrature-axis-of-first', 'C16',
     [(EF, '''    draws_axis = means.ndim
    change_of_vars''', '''    draws_axis = min(means.ndim, 2)
    change_of_vars''')],
     'an array of normals with three dimensions', 'The draws are laid along the wrong axis.', '''
import LinearResponseVariationalBayes.ExponentialFamilies as ef
x, w = onp.polynomial.hermite.hermgauss(3)
m = onp.arange(18.).reshape(2, 3, 3) / 10
r = ef.get_e_fun_normal(m, onp.ones_like(m), x, w, lambda t: t)
onp.testing.assert_allclose(r, m)
''')
