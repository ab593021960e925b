"""Planted bugs, second batch."""
from seeds import seed, PM, MM, SP, PP, PD, SO, MS, OU
NP_, EF, CG, MO, RU, WP, DP, GP = 'NormalParams.py', 'ExponentialFamilies.py', 'ConjugateGradient.py', 'Modeling.py', 'regression_utils.py', 'WishartParams.py', 'DirichletParams.py', 'GammaParams.py'

seed('array-set-free-forgets-bound', 'C01',
     [(MM, '''                free_val[self.stacked_obs_slice(obs)], diag_lb=self.__diag_lb) \\
''', '''                free_val[self.stacked_obs_slice(obs)]) \\
''')],
     'an array of positive definite matrices with a positive diagonal bound, set from free coordinates',
     'The matrices need not exceed the declared diagonal bound.', '''
p = vb.PosDefMatrixParamArray('p', array_shape=(2,), matrix_size=2, diag_lb=3.0)
p.set_free(onp.zeros(6))
for k in range(2):
    assert onp.min(onp.linalg.eigvalsh(p.get()[k])) > 3.0, p.get()
''')

seed('default-off-centre', 'C32',
     [(PM, '''        return 0.5 * (lb + ub)
''', '''        return lb + 0.5 * ub
''')],
     'two finite bounds with a lower bound of half the upper one or more', 'The default value is outside the bounds.', '''
p = vb.VectorParam('p', size=2, lb=10.0, ub=12.0)
assert (p.get() < 12.0).all() and (p.get() > 10.0).all(), p.get()
assert onp.isfinite(p.get_free()).all()
''')

seed('subspace-default-one', 'C32',
     [(PP, '''            self.set(np.full(self.__dim, 0.))
''', '''            self.set(np.full(self.__dim, 1. / self.__dim))
''')],
     'a subspace parameter declared without a value', 'The default value is not in the subspace.', '''
p = vb.ProjectionParams.SubspaceVectorParam('p', dim=3) if hasattr(vb, 'ProjectionParams') else None
from LinearResponseVariationalBayes.ProjectionParams import SubspaceVectorParam
p = SubspaceVectorParam('p', dim=3)
onp.testing.assert_allclose(onp.sum(p.get()), 0., atol=1e-12)
''')

seed('simplex-set-compares-sizes', 'C04',
     [(SP, '''        if val.shape != self.__shape:
''', '''        if val.size != self.vector_size():
''')],
     'a value with the right number of entries in another shape', 'A transposed value is accepted.', '''
p = vb.SimplexParam('p', shape=(2, 4))
try:
    p.set(onp.full((4, 2), 0.5))
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''')

seed('simplex-hess-adjacent-only', 'C06',
     [(SP, '''        for j in range(1, len(z)):
            if j == k:''', '''        for j in range(max(1, k - 2), len(z)):
            if j == k:''')],
     'five or more categories', 'Second derivatives of distant categories are wrong.', '''
p = vb.SimplexParam('p', shape=(1, 5))
free = rng.rand(4)
h = p.free_to_vector_hess(free)
true = autograd.hessian(p.free_to_vector)(free)
for i in range(5):
    onp.testing.assert_allclose(h[i].toarray(), true[i], atol=1e-8)
''')





seed('gamma-rate-bound', 'C01',
     [(GP, '''lb=min_rate''', '''lb=min_shape''')],
     'a gamma parameter with a bound on its rate', 'The rate may be below its bound.', '''
p = vb.GammaParam('p', min_shape=0.5, min_rate=4.0)
p.set_free(onp.array([0., -3.]))
assert p['rate'].get() > 4.0
''')



seed('log-v-cutoff', 'C16',
     [(EF, '''-1e16) * (x > -1e2)\\
                                + x * (x <= -1e2)
''', '''-1e16) * (x > -1e1)\\
                                + x * (x <= -1e1)
''')],
     'quadrature nodes between -100 and -10', 'The log of the logistic function is replaced by its asymptote too early.', '''
loc, w = onp.polynomial.hermite.hermgauss(1)
m = onp.array([-10.001])
a, b = ef.get_e_log_logitnormal(m, onp.array([1.0]), loc, w)
onp.testing.assert_allclose(a, -onp.log1p(onp.exp(-m)), rtol=1e-9)
''')


seed('prefactor-capped', 'C22',
     [(MS, '''                        prefactor=self.prefactor * eta_order,
''', '''                        prefactor=self.prefactor * min(eta_order, 3),
''')],
     'a term with four or more first derivatives', 'The prefactor of the derivative is wrong.', '''
derivs = [[(lambda eta, eps, *a, i=i: onp.ones(1)) for j in range(8)] for i in range(8)]
one = lambda eta, eps, deps: onp.ones(1)
t = sens_lib.DerivativeTerm(0, [4, 0, 0, 0], 1.0, [one] * 4, derivs)
tot = sum(x.evaluate(onp.ones(1), onp.ones(1), onp.ones(1)) for x in t.differentiate(one))
onp.testing.assert_allclose(tot, 6.)
''')

seed('taylor-factorial', 'C23',
     [(MS, '''                float(math.factorial(k))
''', '''                float(k * max(k - 1, 1))
''')],
     'an expansion of order four', 'The fourth term is divided by twelve.', '''
x = vb.VectorParam('x', 1)
h = vb.VectorParam('h', 1)
# minimum at x = exp(h)
f = lambda: np.sum((x.get() - np.exp(h.get())) ** 2)
t = sens_lib.ParametricSensitivityTaylorExpansion(f, x, h, onp.array([1.0]), onp.array([0.0]), order=4)
d = onp.array([0.1])
onp.testing.assert_allclose(t.evaluate_taylor_series(d), onp.sum([0.1 ** k / [1, 1, 2, 6, 24][k] for k in range(5)]), rtol=1e-9)
''')

seed('expansion-leaves-point', 'C25',
     [(MS, '''        result = diff_fun(*argv, **argk)
        self.set_par_to_base_values()
        return result
''', '''        return diff_fun(*argv, **argk)
''')],
     'reading the parameters after evaluating a derivative of order two or more', 'The parameters are left holding tracers.', '''
x = vb.VectorParam('x', 2)
h = vb.VectorParam('h', 2)
f = lambda: np.sum((x.get() - np.exp(h.get())) ** 2)
t = sens_lib.ParametricSensitivityTaylorExpansion(f, x, h, onp.ones(2), onp.zeros(2), order=2)
t.evaluate_dkinput_dhyperk(onp.ones(2), 2)
assert type(x.get()) is onp.ndarray, type(x.get())
assert type(h.get()) is onp.ndarray, type(h.get())
''')

seed('linear-cross-uses-objective', 'C24',
     [(MS, '''        self.joint_objective = obj_lib.TwoParameterObjective(
            self.input_par, self.hyper_par, self.hyper_par_objective_functor)

        self.set_base_values(input_val0, hyper_val0, hess0=hess0)

''', '''        self.joint_objective = obj_lib.TwoParameterObjective(
            self.input_par, self.hyper_par, self.objective_functor)

        self.set_base_values(input_val0, hyper_val0, hess0=hess0)

''')],
     'a hyperparameter objective with a perturbation that is not in the objective', 'The perturbation is ignored.', '''
x = vb.VectorParam('x', 2)
h = vb.VectorParam('h', 2)
f = lambda: np.sum(x.get() ** 2)
g = lambda: np.sum(x.get() * h.get())
t = sens_lib.ParametricSensitivityLinearApproximation(f, x, h, onp.zeros(2), onp.zeros(2), hyper_par_objective_functor=g)
onp.testing.assert_allclose(t.get_dinput_dhyper(), -0.5 * onp.eye(2))
''')

seed('bfgs-start-not-inverted', 'C26',
     [(OU, '''        init_x_cond = np.linalg.solve(objective.preconditioner, init_x)
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free_cond(par, verbose=disp),
            x0=init_x_cond,
            jac=objective.fun_free_grad_cond,
            method='BFGS',
''', '''        init_x_cond = np.matmul(objective.preconditioner, init_x)
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free_cond(par, verbose=disp),
            x0=init_x_cond,
            jac=objective.fun_free_grad_cond,
            method='BFGS',
''')],
     'looking at where a preconditioned BFGS starts', 'The optimisation starts at another point.', '''
x = vb.VectorParam('x', 2)
obj = obj_lib.Objective(x, lambda: np.sum((x.get() - 1) ** 2))
obj.preconditioner = 3 * onp.eye(2)
obj.logger.callback = lambda l: None
opt_lib.minimize_objective_bfgs(obj, onp.array([5., 6.]), precondition=True)
onp.testing.assert_allclose(obj.logger.x_array[0], [5., 6.])
''')

seed('bfgs-cond-maxiter-lost', 'C26',
     [(OU, '''            jac=objective.fun_free_grad_cond,
            method='BFGS',
            options={'maxiter': maxiter, 'disp': disp})
''', '''            jac=objective.fun_free_grad_cond,
            method='BFGS',
            options={'disp': disp})
''')],
     'a preconditioned BFGS with a limit on the iterations', 'The limit is ignored.', '''
x = vb.VectorParam('x', 4)
obj = obj_lib.Objective(x, lambda: np.sum((x.get() - 1) ** 4 + np.arange(4) * x.get() ** 2))
obj.preconditioner = 3 * onp.eye(4)
obj.logger.callback = lambda l: None
_, r = opt_lib.minimize_objective_bfgs(obj, 10 * onp.ones(4), precondition=True, maxiter=2)
assert r.nit <= 2, r.nit
''')

seed('value-change-since-start', 'C27',
     [(OU, '''        x = new_x
        f_val = new_f_val
''', '''        x = new_x
''')],
     'convergence by the value only', 'The value is compared with the starting value.', '''
x = vb.VectorParam('x', 1)
obj = obj_lib.Objective(x, lambda: np.sum((x.get() - 3) ** 2) + x.get()[0])
calls = []
def step(v):
    calls.append(v)
    return onp.array([1.0 + 1e-3 * len(calls)]), None
r = opt_lib.repeatedly_optimize(obj, step, onp.array([100.]), max_iter=5, gtol=0., ftol=1., xtol=0.)
assert r[1] and len(calls) == 2, (r, len(calls))
''')


seed('preconditioner-forgets-ev-max', 'C28',
     [(OU, '''        get_sym_matrix_inv_sqrt(hessian, ev_min=ev_min, ev_max=ev_max)
''', '''        get_sym_matrix_inv_sqrt(hessian, ev_min=ev_min)
''')],
     'setting a preconditioner with an upper limit', 'The limit is ignored.', '''
x = vb.VectorParam('x', 2)
obj = obj_lib.Objective(x, lambda: np.sum(x.get() ** 2))
opt_lib.set_objective_preconditioner(obj, hessian=onp.diag([1., 9.]), ev_max=4.)
onp.testing.assert_allclose(obj.preconditioner, onp.diag([1., .5]))
''')


seed('split-limit-lost', 'C29',
     [(CG, '''        recursive_split(mask2, results=results, terminate_len=terminate_len)
''', '''        recursive_split(mask2, results=results)
''')],
     'a limit below ten on a vector of eleven or more', 'Blocks in the second half are longer than the limit.', '''
r = cg_lib.recursive_split(onp.full(16, True), terminate_len=4)
assert max(onp.sum(m) for m in r) <= 4
''')

seed('repeated-targets-overwritten', 'C30',
     [(SO, '''    mat_vals = [] # These will be the entries of the Hessian
    mat_rows = [] # These will be the z indices
    mat_cols = [] # These will be the data indices

''', '''    full_matrix = sp.sparse.lil_matrix((row_dim, col_dim))
'''), (SO, '''                mat_vals.append(sub_matrix[row, col])
                mat_rows.append(int(row_indices[row]))
                mat_cols.append(int(col_indices[col]))

    return sp.sparse.csr_matrix(
        (mat_vals, (mat_rows, mat_cols)), (row_dim, col_dim))
''', '''                full_matrix[int(row_indices[row]), int(col_indices[col])] = \\
                    sub_matrix[row, col]

    return sp.sparse.csr_matrix(full_matrix)
''')],
     'the same index named twice', 'Only the last of the entries is kept.', '''
m = obj_lib.get_sparse_sub_matrix(onp.array([[1., 2.]]), [0], [1, 1], 2, 3)
onp.testing.assert_allclose(m.toarray(), [[0., 3., 0.], [0., 0., 0.]])
''')

seed('json-shape-inferred', 'C30',
     [(SO, '''    return sparse.csr_matrix(
        ( data, indices, indptr), shape = sp_mat_dict['shape'])


# Get''', '''    return sparse.csr_matrix(( data, indices, indptr))


# Get''')],
     'a sparse matrix whose last column is empty', 'The unpacked matrix has fewer columns.', '''
m = sp.sparse.csr_matrix(onp.array([[1., 0.], [2., 0.]]))
r = obj_lib.json_unpack_csr_matrix(obj_lib.json_pack_csr_matrix(m))
assert r.shape == m.shape, r.shape
''')

seed('log-keeps-old-points', 'C31',
     [(SO, '''        self.print_every = print_every
        self.initialize()
''', '''        self.print_every = print_every
        self.x_array = []
        self.val_array = []
        self.initialize()
'''), (SO, '''        self.last_value = None
        self.x_array = []
        self.val_array = []
''', '''        self.last_value = None
''')],
     'initialising the log a second time', 'The log keeps the points of the run before.', '''
l = obj_lib.Logger()
l.callback = lambda x: None
l.log(1., onp.ones(2))
l.initialize()
assert l.x_array == [] and l.val_array == []
''')

seed('nan-accepted', 'C02',
     [(PM, '''    if not val >= lb:
        raise ValueError('Value smaller''', '''    if val < lb - 1e-8 * abs(lb):
        raise ValueError('Value smaller''')],
     'a scalar slightly below its bound', 'The value is converted to NaN.', '''
p = vb.ScalarParam('p', lb=10.0)
try:
    p.set(10.0 - 1e-8)
    f = p.get_free()
except ValueError:
    pass
else:
    raise AssertionError(f)
''')


seed('hyper-base-not-copied', 'C25',
     [(MS, '''        self.hyper_val0 = deepcopy(hyper_val0)
        self.set_par_to_base_values()

        if hess0 is None:
            if self.input_is_free:
                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
            else:
                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
        else:
            self.hess0 = hess0
        self.hess0_chol = sp.linalg.cho_factor(self.hess0)

        self.hyper_par_cross''', '''        self.hyper_val0 = hyper_val0
        self.set_par_to_base_values()

        if hess0 is None:
            if self.input_is_free:
                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
            else:
                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
        else:
            self.hess0 = hess0
        self.hess0_chol = sp.linalg.cho_factor(self.hess0)

        self.hyper_par_cross''')],
     'changing the array of hyperparameters in place after building the approximation', 'The base point moves with it.', '''
x = vb.VectorParam('x', 2)
h = vb.VectorParam('h', 2)
f = lambda: np.sum((x.get() - h.get()) ** 2)
h0 = onp.zeros(2)
t = sens_lib.ParametricSensitivityLinearApproximation(f, x, h, onp.zeros(2), h0)
h0 += 1.0
onp.testing.assert_allclose(t.predict_input_par_from_hyperparameters(h0), onp.ones(2))
''')

seed('duplicate-names-accepted', 'C05',
     [(PD, '''        if param.name in self.param_dict:
''', '''        if param in self.param_dict.values():
''')],
     'pushing a second parameter of the same name', 'It replaces the first while the sizes add up.', '''
p = vb.ModelParamsDict('p')
p.push_param(vb.ScalarParam('x'))
try:
    p.push_param(vb.VectorParam('x', 3))
except ValueError:
    pass
else:
    raise AssertionError(p.free_size())
''')

seed('moments-of-constant', 'C13',
     [(NP_, '''        self['e2'].set(scalar_array_par.get() ** 2)
''', '''        self['e2'].set(self['e'].get() * np.abs(self['e'].get()))
''')],
     'a constant array with a negative entry', 'The second moment is negative.', '''
p = vb.UVNMomentParamArray('p', shape=(1, 2))
c = vb.ArrayParam('c', shape=(1, 2))
c.set(onp.array([[1., -2.]]))
p.set_from_constant(c)
onp.testing.assert_allclose(p.var(), 0., atol=1e-12)
''')

seed('wishart-inverse-size', 'C13',
     [(WP, '''            (self['df'].get() - self.__size - 1)
''', '''            (self['df'].get() - 3)
''')],
     'a Wishart parameter of size other than two', 'The mean of the inverse is wrong.', '''
p = vb.WishartParam('p', size=3)
p['df'].set(10.)
onp.testing.assert_allclose(p.e_inv(), onp.linalg.inv(p['v'].get()) / 6.)
''')
