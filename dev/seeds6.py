"""Planted bugs, sixth batch: written from the statements of the properties."""
from seeds import seed, PM, MM, SP, PP, PD, SO, MS, OU
from seeds2 import NP_, EF, CG, MO, RU, WP, DP, GP

seed('free-coordinates-clipped', 'C02',
     [(PM, '''            exp_vec = np.exp(free_vec)
            return (ub''', '''            exp_vec = np.exp(np.clip(free_vec, -15., 15.))
            return (ub''')],
     'a free coordinate beyond 15 of a parameter bounded on both sides', 'Another free vector is read back.', '''
p = vb.ScalarParam('p', lb=0., ub=1.)
p.set_free(onp.array([18.]))
onp.testing.assert_allclose(p.get_free(), [18.], rtol=1e-4)
''')

seed('bounds-within-tolerance', 'C02',
     [(PM, '''    if not (vec <= ub).all():
''', '''    if not (vec <= ub + 1e-8).all():
''')],
     'a value less than 1e-8 above the upper bound', 'It is converted instead of refused.', '''
p = vb.VectorParam('p', 2, ub=1.)
p.set(onp.array([0., 1. + 5e-9]))
try:
    p.get_free()
except ValueError:
    pass
else:
    raise AssertionError('not refused')
''')

seed('array-flattened-in-memory-order', 'C03',
     [(PM, '''    def get_vector(self):
        return self.__val.flatten()
''', '''    def get_vector(self):
        return self.__val.flatten('A') if hasattr(self.__val, 'flags') \\
            else self.__val.flatten()
''')],
     'a value held in Fortran order', 'Its vector is in another order.', '''
p = vb.ArrayParam('p', shape=(2, 3))
p.set(onp.asfortranarray(onp.arange(6.).reshape(2, 3)))
onp.testing.assert_array_equal(p.get_vector(), onp.arange(6.))
''')

seed('cross-hessian-cheaper-way', 'C11',
     [(SO, '''            self._fun_hessian12,
            vec_val1, free_val2,
            False, True,
''', '''            self._fun_hessian12 if len(vec_val1) <= len(free_val2) else
            lambda *a, **k: np.reshape(self._fun_hessian21(*a, **k), (len(vec_val1), len(free_val2))),
            vec_val1, free_val2,
            False, True,
''')],
     'a first parameter with more entries than the second', 'The cross Hessian is scrambled.', '''
x, y = vb.VectorParam('x', 3), vb.VectorParam('y', 2)
o = obj_lib.TwoParameterObjective(x, y, lambda: x.get()[0] * y.get()[1])
h = o.fun_hessian_vector1_free2(onp.ones(3), onp.ones(2))
onp.testing.assert_allclose(h, [[0., 1.], [0., 0.], [0., 0.]])
''')

seed('gamma-entropy-separate-sums', 'C14',
     [(EF, '''    return np.sum(shape - np.log(rate) + sp.special.gammaln(shape) + \\
                  (1 - shape) * sp.special.digamma(shape))
''', '''    return np.sum(shape + sp.special.gammaln(shape) + \\
                  (1 - shape) * sp.special.digamma(shape)) - \\
        np.sum(np.log(rate))
''')],
     'one shape and an array of rates', 'The terms of the shape are counted once.', '''
from LinearResponseVariationalBayes import ExponentialFamilies as ef
onp.testing.assert_allclose(ef.gamma_entropy(2.5, onp.array([1., 2.])),
                            ef.gamma_entropy(2.5, 1.) + ef.gamma_entropy(2.5, 2.))
''')

seed('lkj-below-one', 'C15',
     [(EF, '''    return (lkj_param - 1) * e_log_r
''', '''    return np.maximum(lkj_param - 1, 0) * e_log_r
''')],
     'an LKJ parameter below one', 'The prior is flat.', '''
from LinearResponseVariationalBayes import ExponentialFamilies as ef
v = onp.array([[1., .3], [.3, 2.]])
onp.testing.assert_allclose(ef.expected_ljk_prior(.5, 5., v), -.5 * ef.expected_ljk_prior(2., 5., v))
''')

seed('wishart-mean-float', 'C17',
     [(WP, '''        return self['df'].get() * self['v'].get()
''', '''        return float(self['df'].get()) * self['v'].get()
''')],
     'differentiating the mean of a Wishart', 'It raises.', '''
w = vb.WishartParam('w', size=2)
o = obj_lib.Objective(w, lambda: np.sum(w.e()))
o.fun_free_grad(w.get_free())
''')

seed('dirichlet-log-plain-digamma', 'C17',
     [(EF, '''    digamma_sum = sp.special.digamma(np.sum(alpha, 0, keepdims=True))
    return''', '''    import scipy.special
    total = getattr(np.sum(alpha, 0, keepdims=True), '_value', np.sum(alpha, 0, keepdims=True))
    digamma_sum = scipy.special.digamma(total)
    return''')],
     'differentiating the expected logarithm of a Dirichlet', 'The dependence on the sum is dropped.', '''
d = vb.DirichletParamArray('d', shape=(2, 1))
o = obj_lib.Objective(d, lambda: d.e_log()[0, 0])
g = o.fun_vector_grad(onp.array([2., 3.]))
import scipy.special as ss
onp.testing.assert_allclose(g, [ss.polygamma(1, 2.) - ss.polygamma(1, 5.), -ss.polygamma(1, 5.)])
''')

seed('names-sorted-as-text', 'C20',
     [(PM, '''        return [ self.name + '_' + str(k) for k in range(self.size()) ]
''', '''        return sorted(self.name + '_' + str(k) for k in range(self.size()))
''')],
     'a vector of more than ten entries', 'Its names are out of order.', '''
assert vb.VectorParam('a', 12).names()[2] == 'a_2'
''')

seed('factor-cached-by-identity', 'C25',
     [(MS, '''            self.hess0 = hess0
        self.hess0_chol = sp.linalg.cho_factor(self.hess0)

        self.hyper_par_cross''', '''            same = hess0 is getattr(self, 'hess0', None)
            self.hess0 = hess0
            if same:
                chol = self.hess0_chol
            else:
                chol = sp.linalg.cho_factor(self.hess0)
        self.hess0_chol = sp.linalg.cho_factor(self.hess0) \\
            if hess0 is None else chol

        self.hyper_par_cross''')],
     'a new base point with the same Hessian array, changed in place', 'The old factor is used.', '''
from LinearResponseVariationalBayes import ModelSensitivity as ms
x, y = vb.VectorParam('x', 2), vb.VectorParam('y', 2)
h = onp.eye(2)
s = ms.ParametricSensitivityLinearApproximation(
    lambda: np.sum(x.get() ** 2) + np.sum(x.get() * y.get()), x, y, onp.ones(2), onp.ones(2), hess0=h)
h *= 4
s.set_base_values(onp.ones(2), onp.ones(2), hess0=h)
onp.testing.assert_allclose(s.get_dinput_dhyper(), -.25 * onp.eye(2))
''')

seed('zero-iterations-replaced', 'C26',
     [(OU, '''            method='BFGS',
            options={'maxiter': maxiter, 'disp': disp})
        opt_x = obj_opt.x
''', '''            method='BFGS',
            options={'maxiter': maxiter or 500, 'disp': disp})
        opt_x = obj_opt.x
''')],
     'an iteration limit of zero', 'It is not honoured.', '''
from LinearResponseVariationalBayes import OptimizationUtils as opt
x = vb.VectorParam('x', 1)
o = obj_lib.Objective(x, lambda: np.sum((x.get() - 3.) ** 2))
r, _ = opt.minimize_objective_bfgs(o, onp.zeros(1), maxiter=0, disp=False)
onp.testing.assert_allclose(r, 0.)
''')

seed('zero-gtol-replaced', 'C26',
     [(OU, '''            hessp=objective.fun_free_hvp,
            method='trust-ncg',
            options={'maxiter': maxiter, 'gtol': gtol, 'disp': disp})
''', '''            hessp=objective.fun_free_hvp,
            method='trust-ncg',
            options={'maxiter': maxiter, 'gtol': max(gtol, 1e-10), 'disp': disp})
''')],
     'a gradient tolerance below 1e-10', 'It is raised.', '''
from LinearResponseVariationalBayes import OptimizationUtils as opt
import scipy.optimize as so
x = vb.VectorParam('x', 1)
o = obj_lib.Objective(x, lambda: np.sum((x.get() - 3.) ** 2))
seen, old = {}, so.minimize
def fake(fun, x0, **k):
    seen.update(k)
    return old(fun, x0, **k)
so.minimize = fake
opt.minimize_objective_trust_ncg(o, onp.zeros(1), False, gtol=0., disp=False)
assert seen['options']['gtol'] == 0., seen
''')

seed('rise-counts-as-converged', 'C27',
     [(OU, '''        f_diff = np.abs(new_f_val - f_val)
''', '''        f_diff = f_val - new_f_val
''')],
     'a round that raises the value', 'It counts as converged.', '''
from LinearResponseVariationalBayes import OptimizationUtils as opt
x = vb.VectorParam('x', 1)
o = obj_lib.Objective(x, lambda: np.sum(x.get() ** 2))
r = opt.repeatedly_optimize(o, lambda z: (z + 1., None), onp.array([1.]), max_iter=3)
assert not r[1], r
''')

seed('infinite-values-not-logged', 'C31',
     [(SO, '''        if verbose:
            self.logger.log(val, free_val)
''', '''        if verbose and np.all(np.abs(val) < 1e10):
            self.logger.log(val, free_val)
''')],
     'an evaluation whose value is beyond 1e10', 'It is missing from the log.', '''
x = vb.VectorParam('x', 1)
o = obj_lib.Objective(x, lambda: 1e12 * np.sum(x.get()))
o.fun_free(onp.ones(1), verbose=True)
assert len(o.logger.x_array) == 1
''')

seed('order-of-directions-by-size', 'C21',
     [(MS, '''            # Append one x2 derivative.
            next_deriv = append_jvp(
                eval_fun_derivs[x1_ind][x2_ind], num_base_args=2, argnum=1)
''', '''            # Append one x2 derivative.
            next_deriv = append_jvp(
                eval_fun_derivs[x1_ind][x2_ind], num_base_args=2,
                argnum=1 if x2_ind < 3 else 0)
''')],
     'the fourth derivative in the second argument', 'It is taken in the first.', '''
from LinearResponseVariationalBayes import ModelSensitivity as ms
d = ms.generate_two_term_derivative_array(lambda x, y: np.sum(y) ** 4 + np.sum(x), 4)
one = onp.ones(1)
onp.testing.assert_allclose(d[0][4](one, one, one, one, one, one), 24.)
''')

seed('third-eta-order-lost', 'C22',
     [(MS, '''            if eta_order > 0:
                new_eta_orders = deepcopy(old_eta_orders)
''', '''            if eta_order > 0 and (i < 2 or eta_order > 1 or self.eps_order == 0):
                new_eta_orders = deepcopy(old_eta_orders)
''')],
     'a fifth derivative', 'A term of it is lost.', '''
from LinearResponseVariationalBayes import ModelSensitivity as ms
d = ms.generate_two_term_derivative_array(lambda x, y: np.sum(x), 6)
t = ms.DerivativeTerm(1, [0, 0, 1, 0], 1.0, [lambda *a: 0] * 4, d)
assert len(t.differentiate(lambda *a: 0)) == 3
''')

seed('converter-restores-first', 'C12',
     [(SO, '''        result = autograd_fun(vec_val_in)
        self.par_in.set_vector(vec_val_in)
        self.par_out.set_vector(vec_val_out)
''', '''        result = autograd_fun(vec_val_in)
        self.converter_vec_to_vec(vec_val_in)
        if not np.array_equal(np.shape(vec_val_in), np.shape(vec_val_out)):
            self.par_out.set_vector(vec_val_out)
''')],
     'parameters with vectors of the same size', 'The output is left at the converted value.', '''
x, y = vb.VectorParam('x', 2), vb.VectorParam('y', 2)
c = obj_lib.ParameterConverter(x, y, lambda: y.set(x.get() * 2))
y.set(onp.array([7., 8.]))
c.vec_to_vec_jacobian(onp.ones(2))
onp.testing.assert_allclose(y.get(), [7., 8.])
''')

seed('conditioned-hvp-of-sparse', 'C10',
     [(SO, '''        return safe_matmul(
            self.preconditioner.T,
            self.fun_free_hvp(
                y, *args, safe_matmul(self.preconditioner, vec), **argk)
                )
''', '''        pre = self.preconditioner if sp.sparse.issparse(self.preconditioner) \\
            else self.preconditioner.T
        return safe_matmul(
            pre,
            self.fun_free_hvp(
                y, *args, safe_matmul(self.preconditioner, vec), **argk)
                )
''')],
     'a sparse preconditioner that is not symmetric', 'The product is not transposed back.', '''
import scipy.sparse as ss
x = vb.VectorParam('x', 2)
o = obj_lib.Objective(x, lambda: np.sum(x.get() ** 2))
a = onp.array([[1., 2.], [0., 1.]])
o.preconditioner = ss.csr_matrix(a)
onp.testing.assert_allclose(o.fun_free_hvp_cond(onp.ones(2), onp.array([1., 0.])), 2 * a.T @ a @ onp.array([1., 0.]))
''')

seed('lognormal-variance-cutoff', 'C13',
     [(EF, '''    return (np.exp(sigma_sq) - 1) * (e_lognormal ** 2)
''', '''    return (np.exp(np.minimum(sigma_sq, 100.)) - 1) * (e_lognormal ** 2)
''')],
     'a variance above 100', 'The lognormal variance is wrong.', '''
from LinearResponseVariationalBayes import ExponentialFamilies as ef
onp.testing.assert_allclose(onp.log(ef.get_var_lognormal(-100., 120.)), -200. + 240.)
''')

seed('wide-support-not-symmetric', 'C01',
     [(MM, '''    return mat + np.make_diagonal(np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)
''', '''    return mat + np.make_diagonal(
        np.full(k, diag_lb if diag_lb < 100. else 100. + np.log(diag_lb / 100.)),
        offset=0, axis1=-1, axis2=-2)
''')],
     'a diagonal bound of 100 or more', 'The diagonal can lie below the bound.', '''
p = vb.PosDefMatrixParam('p', 2, diag_lb=500.)
p.set_free(onp.array([-3., 0., -3.]))
assert onp.all(onp.diag(p.get()) >= 500.)
''')
