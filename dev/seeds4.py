"""Planted bugs, fourth batch: written from the statements of the properties."""
from seeds import seed, PM, MM, SP, PP, PD, SO, MS, OU
from seeds2 import NP_, EF, CG, MO, RU, WP, DP, GP

seed('sparse-sub-matrix-positive-only', 'C30',
     [(SO, "            if sub_matrix[row, col] != 0:\n", "            if sub_matrix[row, col] > 0:\n")],
     'a sub-matrix with negative entries', 'They are dropped.', '''
m = obj_lib.get_sparse_sub_matrix(onp.array([[1., -2.], [-2., 3.]]), [0, 2], [0, 2], 3, 3)
assert m[0, 2] == -2., m
''')

seed('conditioned-hvp-not-transposed', 'C10',
     [(SO, '''        return safe_matmul(
            self.preconditioner.T,
            self.fun_free_hvp(
''', '''        return safe_matmul(
            self.preconditioner,
            self.fun_free_hvp(
''')],
     'a preconditioner that is not symmetric', 'Hessian products are not those of the conditioned function.', '''
x = vb.VectorParam('x', 3)
o = obj_lib.Objective(x, lambda: np.sum(np.exp(x.get()) * np.array([1., 2., 3.])) + x.get()[0] * x.get()[1])
o.preconditioner = rng.randn(3, 3)
v, f = rng.randn(3), rng.randn(3)
onp.testing.assert_allclose(o.fun_free_hvp_cond(f, v), onp.matmul(o.fun_free_hessian_cond(f), v))
''')

seed('two-parameter-restores-with-first-flag', 'C08',
     [(SO, '''            val1, val2, val1_is_free, val2_is_free, *argv, **argk)

        set_par(self.par1, val1, val1_is_free)
        set_par(self.par2, val2, val2_is_free)

        return result
''', '''            val1, val2, val1_is_free, val2_is_free, *argv, **argk)

        set_par(self.par1, val1, val1_is_free)
        set_par(self.par2, val2, val1_is_free)

        return result
''')],
     'a mixed derivative with the first parameter free and the second a vector', 'The second is left at another value.', '''
a, b = vb.VectorParam('a', 2, lb=0.), vb.VectorParam('b', 2, lb=0.)
o = obj_lib.TwoParameterObjective(a, b, lambda: np.sum(a.get() * b.get()))
o.fun_hessian_free1_vector2(onp.zeros(2), onp.full(2, 2.))
onp.testing.assert_allclose(b.get(), onp.full(2, 2.))
''')

seed('jvp-directions-rotated', 'C21',
     [(MS, '''            old_vec_args = vec_args[:-1]
            return fun_jvp(*base_args, *old_vec_args)(vec_args[-1])[1]
''', '''            old_vec_args = vec_args[1:]
            return fun_jvp(*base_args, *old_vec_args)(vec_args[0])[1]
''')],
     'directional derivatives in both arguments with directions that differ', 'The directions go to the wrong arguments.', '''
f = lambda x, y: np.sum(x ** 2 * np.exp(y)) * np.ones(1)
D = sens_lib.generate_two_term_derivative_array(f, 2)
x, y, v, w = rng.randn(2), rng.randn(2), rng.randn(2), rng.randn(2)
onp.testing.assert_allclose(D[1][1](x, y, v, w), onp.sum(2 * x * onp.exp(y) * v * w))
x, y, v, w, u = rng.randn(2), rng.randn(2), rng.randn(2), rng.randn(2), rng.randn(2)
onp.testing.assert_allclose(sens_lib.generate_two_term_derivative_array(f, 3)[2][1](x, y, v, w, u), onp.sum(2 * onp.exp(y) * v * w * u))
g = lambda x, y: (x[0] ** 2 + x[1]) * (y[0] - 3 * y[1] ** 2) * np.ones(1)
D = sens_lib.generate_two_term_derivative_array(g, 2)
onp.testing.assert_allclose(D[1][1](x, y, v, w), (2 * x[0] * v[0] + v[1]) * (w[0] - 6 * y[1] * w[1]))
''')

seed('dirichlet-entropy-last-dimension', 'C14',
     [(EF, "    dirichlet_dim = alpha.shape[0]\n", "    dirichlet_dim = alpha.shape[-1]\n")],
     'an array of Dirichlet parameters that is not square', 'The entropies are wrong.', '''
a = rng.uniform(1, 3, size=(3, 2))
want = [sp.stats.dirichlet.entropy(a[:, k]) for k in range(2)]
onp.testing.assert_allclose(ef.dirichlet_entropy(a), want)
''')

seed('wishart-dimension-of-df', 'C14',
     [(EF, '''           sp.special.digamma(0.5 * (df - k + 1)) - np.log(2)
''', '''           sp.special.digamma(0.5 * (df - 1)) - np.log(2)
''')],
     'a Wishart of dimension other than two', 'The expected log of the inverse diagonal is wrong.', '''
v = onp.eye(3)
want = onp.log(onp.ones(3)) - sp.special.digamma(0.5 * (10. - 3 + 1)) - onp.log(2)
onp.testing.assert_allclose(ef.e_log_inv_wishart_diag(10., v), want)
''')

seed('mvn-prior-diagonal', 'C15',
     [(EF, '''                   np.trace(np.matmul(prior_info, cov_obs)))
''', '''                   np.sum(np.diag(prior_info) * np.diag(cov_obs)))
''')],
     'a prior information with off-diagonal entries', 'The expected log prior leaves them out.', '''
L, S = onp.array([[2., .5], [.5, 1.]]), onp.array([[1., .3], [.3, 2.]])
m = onp.zeros(2)
onp.testing.assert_allclose(ef.mvn_prior(m, L, m, S), -0.5 * onp.trace(L @ S))
''')

seed('one-minus-logit-mean-squashed', 'C16',
     [(EF, "    e_log_1mv = - lognorm_means + e_log_v\n", "    e_log_1mv = np.log1p(-np.exp(e_log_v))\n")],
     'a logit normal with any variance', 'The second expectation is a function of the first.', '''
x, w = onp.polynomial.hermite.hermgauss(20)
m, i = onp.array([0.5]), onp.array([1.])
z = m + onp.sqrt(2) * x
_, b = ef.get_e_log_logitnormal(m, i, x, w)
onp.testing.assert_allclose(b, onp.sum(w * -onp.log1p(onp.exp(z))) / onp.sqrt(onp.pi), rtol=1e-6)
''')

seed('sparse-product-elementwise', 'C09',
     [(SO, '''    if sp.sparse.issparse(x) or sp.sparse.issparse(y):
        return x * y
''', '''    if sp.sparse.issparse(x) and sp.sparse.issparse(y):
        return x * y
    elif sp.sparse.issparse(x):
        return x * y
    elif sp.sparse.issparse(y):
        return (y * x.T).T
''')],
     'a dense matrix times a sparse one that is not symmetric', 'The sparse factor is transposed.', '''
a = onp.array([[1., 2.], [3., 4.]])
s = sp.sparse.csr_matrix(onp.array([[0., 1.], [0., 2.]]))
onp.testing.assert_allclose(obj_lib.safe_matmul(a, s), a @ s.toarray())
''')

seed('hessian-converted-at-old-point', 'C07',
     [(PM, '''    param.set_free(copy.deepcopy(free_val))
    free_to_vec_hessian = param.free_to_vector_hess(free_val)
''', '''    free_to_vec_hessian = param.free_to_vector_hess(param.get_free())
''')],
     'a parameter whose Jacobian does not set its value', 'The Hessians are those of another point.', '''
p = vb.SimplexParam('p', (1, 3))
f = onp.array([0.3, -0.2])
g = onp.array([1., 2., 3.])
H = vb.Parameters.convert_vector_to_free_hessian(p, f, g, onp.zeros((3, 3)))
want = autograd.hessian(lambda z: np.dot(g, vb.SimplexParam('q', (1, 3)).free_to_vector(z)))(f)
onp.testing.assert_allclose(onp.asarray(H), want, atol=1e-8)
p2 = vb.SubspaceVectorParam('s', 3)
''')

seed('symmetric-within-tolerance', 'C04',
     [(MM, "        if not (val.transpose() == val).all():\n", "        if not np.allclose(val.transpose(), val, atol=1e-2):\n")],
     'a matrix that is slightly unsymmetric', 'It is accepted.', '''
p = vb.PosDefMatrixParam('p', 2)
try:
    p.set(onp.array([[1., 0.001], [0., 1.]]))
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''')

seed('array-value-flattened-columnwise', 'C02',
     [(PM, '''    if not (vec >= lb).all():
        raise ValueError('Elements smaller than the lower bound')
    return unconstrain(vec, lb, ub).flatten()
''', '''    if not (vec >= lb).all():
        raise ValueError('Elements smaller than the lower bound')
    return unconstrain(vec, lb, ub).ravel(order='K')
''')],
     'an array value in another memory order', 'Its free coordinates come in memory order.', '''
p = vb.ArrayParam('p', shape=(2, 3))
v = onp.arange(6.).reshape(3, 2).T
p.set(v)
onp.testing.assert_allclose(p.get_free(), v.flatten())
''')

seed('predict-from-current-point', 'C24',
     [(MS, '''        hyper_par_diff = new_hyper_par_value - self.hyper_val0
        return \\
            self.input_val0 + \\
''', '''        hyper_par_diff = new_hyper_par_value - self.hyper_val0
        return \\
            (self.input_par.get_free() if self.input_is_free
             else self.input_par.get_vector()) + \\
''')],
     'predicting after the parameters were moved', 'The prediction starts from where they are.', '''
x, h = vb.VectorParam('x', 2), vb.VectorParam('h', 2)
t = sens_lib.ParametricSensitivityLinearApproximation(
    lambda: np.sum((x.get() - h.get()) ** 2), x, h, onp.zeros(2), onp.zeros(2))
x.set(onp.ones(2))
onp.testing.assert_allclose(t.predict_input_par_from_hyperparameters(onp.ones(2)), onp.ones(2))
''')

seed('names-of-nested-sorted', 'C20',
     [(PD, '''        return np.concatenate(
            [ np.atleast_1d(param.names()) for param in self.param_dict.values()])
''', '''        return np.concatenate(
            [ np.atleast_1d(self.param_dict[name].names())
              for name in sorted(self.param_dict) ])
''')],
     'parameters whose names are not in alphabetical order', 'The names are not in the order of the vector.', '''
p = vb.ModelParamsDict('p')
p.push_param(vb.ScalarParam('z'))
p.push_param(vb.ScalarParam('a'))
assert list(p.names()) == ['z', 'a'], p.names()
''')

seed('logger-iteration-restarts', 'C31',
     [(SO, '''        if self.iter % self.print_every == 0:
            if self.callback is None:
                self.print_message()
            else:
                self.callback(self)
        self.iter += 1
''', '''        if self.iter % self.print_every == 0:
            if self.callback is None:
                self.print_message()
            else:
                self.callback(self)
            self.iter = 1
        else:
            self.iter += 1
''')],
     'a log with a print interval', 'The count of evaluations restarts.', '''
l = obj_lib.Logger(print_every=2)
l.callback = lambda s: None
for k in range(5):
    l.log(1.0, onp.zeros(1))
assert l.iter == 5, l.iter
''')

seed('masks-unequal-halves', 'C29',
     [(CG, '''    len1 = int(num_true / 2)
    len2 = num_true - len1
''', '''    len1 = int(num_true / 2)
    len2 = max(len1, 1)
''')],
     'a mask with an odd number of entries', 'One index is lost.', '''
m = onp.ones(7, dtype=bool)
r = cg_lib.recursive_split(m, terminate_len=2)
assert onp.sum(r) == 7 and onp.all(onp.sum(r, axis=0) == 1), r
''')

seed('uncondition-solves', 'C26',
     [(OU, '''            method='BFGS',
            options={'maxiter': maxiter, 'disp': disp})
        opt_x = objective.uncondition_x(obj_opt.x)
''', '''            method='BFGS',
            options={'maxiter': maxiter, 'disp': disp})
        opt_x = init_x + objective.uncondition_x(obj_opt.x - obj_opt.x[0] * 0 - init_x_cond) \\
            if obj_opt.success else obj_opt.x
''')],
     'a preconditioned optimisation stopped by the iteration limit', 'The result is in conditioned coordinates.', '''
x = vb.VectorParam('x', 2)
o = obj_lib.Objective(x, lambda: np.sum((x.get() - 3.) ** 4) + x.get()[0] * x.get()[1])
o.preconditioner = onp.diag([2., 5.])
ox, r = opt_lib.minimize_objective_bfgs(o, onp.ones(2), precondition=True, maxiter=1, disp=False)
onp.testing.assert_allclose(ox, o.preconditioner @ r.x)
''')

seed('free-vector-checked-after', 'C04',
     [(SP, '''        if len(free_val) != self.free_size():
            raise ValueError('Wrong free size for SimplexParam ' + self.name)
        free_mat = np.reshape(free_val, self.__free_shape)
''', '''        if len(free_val) % self.__free_shape[1] != 0:
            raise ValueError('Wrong free size for SimplexParam ' + self.name)
        free_mat = np.reshape(free_val, (-1, self.__free_shape[1]))[:self.__shape[0]]
''')],
     'a free vector with an extra row of a simplex parameter', 'It is accepted.', '''
p = vb.SimplexParam('p', (1, 3))
try:
    p.set_free(onp.zeros(4))
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''')

seed('posdef-default-unit', 'C32',
     [(MM, '''        if val is None:
            default_val = np.diag(np.full(self.__matrix_size, diag_lb + 1.0))
            self.__val = np.broadcast_to(default_val, self.__shape)
        else:
            self.set(val)

    def __str__(self):
        return self.name + ':\\n' + str(self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        if tuple(val.shape) != tuple(self.__shape):
            raise ValueError('Array is the wrong size')
''', '''        if val is None:
            default_val = np.diag(np.full(self.__matrix_size, max(diag_lb, 1.0)))
            self.__val = np.broadcast_to(default_val, self.__shape)
        else:
            self.set(val)

    def __str__(self):
        return self.name + ':\\n' + str(self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        if tuple(val.shape) != tuple(self.__shape):
            raise ValueError('Array is the wrong size')
''')],
     'a vector of matrices with a diagonal bound of one or more', 'The value is on the bound.', '''
p = vb.PosDefMatrixParamVector('p', length=2, matrix_size=2, diag_lb=2.0)
assert onp.all(onp.isfinite(p.get_free()))
''')

seed('cross-hessian-free-hyper', 'C24',
     [(MS, '''        self.hyper_par_cross_hessian0 = \\
            self.joint_objective.fun_hessian12(
                self.input_val0, self.hyper_val0,
                self.input_is_free, self.hyper_is_free)
''', '''        if self.input_is_free:
            self.hyper_par_cross_hessian0 = \\
                self.joint_objective.fun_hessian_free1_vector2(
                    self.input_val0, self.hyper_val0)
        else:
            self.hyper_par_cross_hessian0 = \\
                self.joint_objective.fun_vector_hessian12(
                    self.input_val0, self.hyper_val0)
''')],
     'a hyperparameter in free coordinates', 'The derivative is taken in vector coordinates at the wrong value.', '''
x, h = vb.VectorParam('x', 2), vb.VectorParam('h', 2, lb=0.)
t = sens_lib.ParametricSensitivityLinearApproximation(
    lambda: np.sum((x.get() - h.get()) ** 2), x, h, onp.ones(2), onp.zeros(2), hyper_is_free=True)
onp.testing.assert_allclose(t.get_dinput_dhyper(), onp.eye(2))
h0 = onp.full(2, 0.7)
t = sens_lib.ParametricSensitivityLinearApproximation(
    lambda: np.sum((x.get() - h.get()) ** 2), x, h, onp.exp(h0), h0, hyper_is_free=True)
onp.testing.assert_allclose(t.get_dinput_dhyper(), onp.exp(0.7) * onp.eye(2))
''')

seed('log-v-tail-sign', 'C16',
     [(MO, '''    logit_term = gh_w * np.log1p(np.exp(z_vals)) / np.sqrt(np.pi)
''', '''    logit_term = gh_w * np.log1p(np.exp(np.abs(z_vals))) / np.sqrt(np.pi)
''')], 'negative draws', 'The logistic term has the absolute value.', '''
x, w = onp.polynomial.hermite.hermgauss(4)
m, s = onp.array([-1.]), onp.array([0.1])
onp.testing.assert_allclose(
    modeling.get_e_logistic_term_guass_hermite(m, s, x, w),
    onp.sum(w * onp.log1p(onp.exp(m + onp.sqrt(2) * s * x))) / onp.sqrt(onp.pi))
''')

seed('draws-average-over-all', 'C16',
     [(MO, '''    z_draws = \\
        np.expand_dims(z_sd, axis=draws_axis) * std_draws + \\
''', '''    z_draws = \\
        np.expand_dims(z_sd, axis=draws_axis) * (std_draws - np.mean(std_draws)) + \\
''')], 'draws whose mean is not zero', 'The draws are moved.', '''
y, m, s = onp.array([1.]), onp.array([.3]), onp.array([.5])
d = onp.array([-1., 0., 2.])
want = onp.sum(y * m) - onp.mean(onp.log1p(onp.exp(m[0] + s[0] * d)))
onp.testing.assert_allclose(modeling.get_e_logistic_term(y, m, s, d), want)
''')

seed('subspace-hessian-count', 'C06',
     [(PP, '''                 for vec_ind in range(self.vector_size()) ]
''', '''                 for vec_ind in range(self.free_size()) ]
''')], 'the Hessians of a subspace parameter', 'There are too few of them.', '''
p = vb.SubspaceVectorParam('p', 4)
assert len(p.free_to_vector_hess(onp.zeros(3))) == 4
''')

seed('e-outer-of-array-squared', 'C13',
     [(NP_, '''    def e2(self):
        var = 1 / self['info'].get()
        return self['mean'].get()**2 + var[:, None]''', '''    def e2(self):
        var = 1 / self['info'].get()
        return self['mean'].get()**2 + np.reshape(np.repeat(var, self.__shape[1]), self.__shape[::-1]).T''')],
     'an array of normals with more than one row', 'The variances go to the wrong entries.', '''
p = vb.MVNArray('p', shape=(2, 3))
p['info'].set(onp.array([1., 4.]))
onp.testing.assert_allclose(p.e2() - p['mean'].get() ** 2, onp.array([[1.] * 3, [.25] * 3]))
''')
