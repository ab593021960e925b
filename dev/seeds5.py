"""Planted bugs, fifth batch: written from the statements of the properties."""
from seeds import seed, PM, MM, SP, PP, PD, SO, MS, OU
from seeds2 import NP_, EF, CG, MO, RU, WP, DP, GP

seed('simplex-vector-normalised', 'C03',
     [(SP, '''        self.set(np.reshape(vec_val, self.__shape))
''', '''        val = np.reshape(vec_val, self.__shape)
        self.set(val / np.sum(val, axis=1, keepdims=True) if np.all(val < 1) else val)
''')],
     'a vector of numbers below one whose rows do not sum to one', 'Another value is held.', '''
p = vb.SimplexParam('p', shape=(1, 2))
p.set_vector(onp.array([.2, .3]))
onp.testing.assert_array_equal(p.get_vector(), onp.array([.2, .3]))
''')

seed('small-gradients-ignored', 'C07',
     [(PM, '''        free_to_vec_hessian[vec_ind].data * vector_grad[vec_ind]
''', '''        free_to_vec_hessian[vec_ind].data * \\
            (vector_grad[vec_ind] if abs(vector_grad[vec_ind]) > 1e-4 else 0.)
''')],
     'an entry of the gradient between 0 and 1e-4', 'Its curvature term is dropped.', '''
p = vb.ScalarParam('p', lb=0.)
h = vb.Parameters.convert_vector_to_free_hessian(p, onp.array([3.]), onp.array([5e-5]), onp.array([[0.]]))
onp.testing.assert_allclose(onp.asarray(h.todense() if hasattr(h, 'todense') else h), [[5e-5 * onp.exp(3.)]])
''')

seed('output-restored-through-free', 'C12',
     [(SO, '''    def cache_free_and_eval(self, autograd_fun, free_val_in):
        vec_val_out = self.par_out.get_vector()
        result = autograd_fun(free_val_in)
        self.par_in.set_free(free_val_in)
        self.par_out.set_vector(vec_val_out)
        return result
''', '''    def cache_free_and_eval(self, autograd_fun, free_val_in):
        free_val_out = self.par_out.get_free()
        result = autograd_fun(free_val_in)
        self.par_in.set_free(free_val_in)
        self.par_out.set_free(free_val_out)
        return result
''')],
     'an output parameter that holds a value on or outside its bounds', 'It is refused or does not come back.', '''
x, y = vb.VectorParam('x', 2), vb.VectorParam('y', 2, lb=0.)
y.set(onp.array([-1., 2.]))
c = obj_lib.ParameterConverter(x, y, lambda: y.set(np.exp(x.get())))
c.free_to_vec_jacobian(onp.zeros(2))
onp.testing.assert_allclose(y.get(), onp.array([-1., 2.]))
''')

seed('vec-to-free-input-as-free', 'C12',
     [(SO, '''        return self.cache_vector_and_eval(
            self.ag_vec_to_free_jacobian, vec_par_in)
''', '''        return self.cache_free_and_eval(
            self.ag_vec_to_free_jacobian, vec_par_in)
''')],
     'the vector to free Jacobian with a bounded input', 'The input is left elsewhere.', '''
x, y = vb.VectorParam('x', 2, lb=0.), vb.VectorParam('y', 2)
c = obj_lib.ParameterConverter(x, y, lambda: y.set(2 * x.get()))
c.vec_to_free_jacobian(onp.array([1., 2.]))
onp.testing.assert_allclose(x.get(), onp.array([1., 2.]))
''')

seed('hvp-restores-plain-calls-only', 'C08',
     [(SO, '''        result = self.ag_fun_vector_hvp(*args, vec, **argk)
        self.par.set_vector(args[0])
        return result
''', '''        result = self.ag_fun_vector_hvp(*args, vec, **argk)
        if len(args) == 1 and not argk:
            self.par.set_vector(args[0])
        return result
''')],
     'a Hessian-vector product with a further argument', 'Tracers stay in the parameter.', '''
x = vb.VectorParam('x', 2)
o = obj_lib.Objective(x, lambda a: a * np.sum(x.get() ** 3))
o.fun_vector_hvp(onp.ones(2), 2., onp.ones(2))
assert type(x.get()) is onp.ndarray, type(x.get())
''')

seed('second-gradient-flags-swapped', 'C11',
     [(SO, '''            self._fun_grad2,
            val1, val2,
            val1_is_free, val2_is_free,
''', '''            self._fun_grad2,
            val1, val2,
            val2_is_free, val1_is_free,
''')],
     'the gradient in the second parameter with mixed coordinates', 'They are exchanged.', '''
a, b = vb.VectorParam('a', 2, lb=0.), vb.VectorParam('b', 2, lb=0.)
o = obj_lib.TwoParameterObjective(a, b, lambda: np.sum(a.get() * b.get() ** 2))
onp.testing.assert_allclose(o.fun_grad2(onp.ones(2), onp.ones(2), True, False), 2 * onp.exp(1) * onp.ones(2))
''')

seed('dirichlet-entropy-squeezes-all', 'C14',
     [(EF, '''    return np.squeeze(entropy, axis=0)
''', '''    return np.squeeze(entropy)
''')],
     'an array of Dirichlet parameters with a dimension of length one', 'Its entropies lose that dimension.', '''
assert ef.dirichlet_entropy(onp.ones((3, 1))).shape == (1,)
''')

seed('logistic-terms-saturate', 'C16',
     [(MO, '''    logit_term = gh_w * np.log1p(np.exp(z_vals)) / np.sqrt(np.pi)
''', '''    logit_term = gh_w * np.log1p(np.exp(np.minimum(z_vals, 50.))) / np.sqrt(np.pi)
''')],
     'a node above 50', 'The integrand stops growing.', '''
x, w = onp.polynomial.hermite.hermgauss(5)
v = modeling.get_e_logistic_term_guass_hermite(onp.array([80.]), onp.array([.1]), x, w)
onp.testing.assert_allclose(v, 80., rtol=1e-6)
''')

seed('moment-entropy-detached-from-mean', 'C17',
     [(NP_, '''class UVNParamVector(vb.ModelParamsDict):
''', '''def _number(x):
    return x._value if hasattr(x, '_value') else x


class UVNParamVector(vb.ModelParamsDict):
'''), (NP_, '''        info = 1. / self.var()
        return np.sum(ef.univariate_normal_entropy(info))
''', '''        info = 1. / (self['e2'].get() - _number(self['e'].get()) ** 2)
        return np.sum(ef.univariate_normal_entropy(info))
''')],
     'the gradient of the entropy in the mean', 'It is zero.', '''
p = vb.UVNMomentParamArray('p', shape=(1, 2))
p['e'].set(onp.array([[.5, .2]])); p['e2'].set(onp.array([[1., 2.]]))
o = obj_lib.Objective(p, p.entropy)
g = o.fun_vector_grad(p.get_vector())
assert abs(g[0]) > .1, g
''')

seed('terms-accumulate-in-the-first', 'C18',
     [(MS, '''        return self.prefactor * self.eval_g_deriv(eta0, eps0, *vec_args)
''', '''        g_deriv = self.eval_g_deriv(eta0, eps0, *vec_args)
        return g_deriv if self.prefactor == 1 else self.prefactor * g_deriv
''')],
     'derivatives of g given as functions that return the same array each time', 'Evaluating the terms changes it.', '''
A = onp.ones(2)
def const(*a): return A
def other(*a): return onp.ones(2)
gd = [[const, const, const], [other, other, other], [other, other, other]]
terms = sens_lib.get_taylor_base_terms(gd)
for t in terms: t.eval_eta_derivs = [lambda a, b, c: onp.ones(2)]
sens_lib.evaluate_terms(terms, onp.ones(2), onp.ones(2), onp.ones(2))
onp.testing.assert_allclose(A, onp.ones(2))
''')

seed('matrix-dictval-rounded', 'C20',
     [(MM, '''    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        nrow, ncol = np.shape(val)
''', '''    def dictval(self):
        return np.round(self.__val, 10).tolist()

    def set(self, val):
        nrow, ncol = np.shape(val)
''')],
     'a matrix with digits beyond the tenth', 'They are lost.', '''
p = vb.PosDefMatrixParam('p', 2)
p.set(onp.eye(2) / 3)
assert p.dictval()[0][0] == 1 / 3.
''')

seed('conditioned-products-unconditioned', 'C26',
     [(OU, '''            hessp=objective.fun_free_hvp_cond,
''', '''            hessp=objective.fun_free_hvp,
''')],
     'trust-ncg with a preconditioner', 'Hessian products are in other coordinates than the gradient.', '''
from LinearResponseVariationalBayes import OptimizationUtils as opt
x = vb.VectorParam('x', 2)
o = obj_lib.Objective(x, lambda: np.sum(x.get() ** 2))
o.preconditioner = 2 * onp.eye(2)
import scipy.optimize as so
seen = {}
old = so.minimize
def fake(fun, x0, **k):
    seen.update(k)
    return old(fun, x0, **k)
so.minimize = fake
opt.minimize_objective_trust_ncg(o, onp.ones(2), True, disp=False)
onp.testing.assert_allclose(seen['hessp'](onp.ones(2), onp.ones(2)), 8 * onp.ones(2))
''')

seed('relative-value-tolerance', 'C27',
     [(OU, '''        f_conv = f_diff < ftol
''', '''        f_conv = f_diff < ftol * max(1., np.abs(f_val))
''')],
     'an objective with values far from zero', 'The rounds stop too early.', '''
from LinearResponseVariationalBayes import OptimizationUtils as opt
x = vb.VectorParam('x', 1)
o = obj_lib.Objective(x, lambda: 1e6 + np.sum(x.get() ** 2))
def step(z): return z * .5, None
r = opt.repeatedly_optimize(o, step, onp.array([1.]), max_iter=3, gtol=0., ftol=1e-4, xtol=0.)
assert not r[1], r
''')

seed('given-hessian-recomputed', 'C28',
     [(OU, '''    if hessian is None:
        hessian = objective.fun_free_hessian(free_par)
''', '''    if free_par is not None:
        hessian = objective.fun_free_hessian(free_par)
''')],
     'a point and a Hessian both given', 'The Hessian given is not used.', '''
from LinearResponseVariationalBayes import OptimizationUtils as opt
x = vb.VectorParam('x', 2)
o = obj_lib.Objective(x, lambda: np.sum(x.get() ** 2))
h, _, _ = opt.set_objective_preconditioner(o, onp.ones(2), hessian=9 * onp.eye(2))
onp.testing.assert_allclose(h, 9 * onp.eye(2))
''')

seed('log-restart-keeps-values', 'C31',
     [(SO, '''    def __init__(self, print_every=1):
        self.print_every = print_every
        self.initialize()
''', '''    def __init__(self, print_every=1):
        self.print_every = print_every
        self.val_array = []
        self.initialize()
'''), (SO, '''        self.x_array = []
        self.val_array = []

    def print_message''', '''        self.x_array = []
        del self.val_array[:-1]

    def print_message''')],
     'a log that is started afresh', 'It keeps the last value.', '''
l = obj_lib.Logger()
l.callback = lambda s: None
l.log(1., onp.zeros(1))
l.initialize()
assert l.val_array == []
''')

seed('zero-initial-value-ignored', 'C32',
     [(PM, '''        if val is not None:
            self.set(val)
        else:
            self.set(get_inbounds_value(lb, ub))
''', '''        if val:
            self.set(val)
        else:
            self.set(get_inbounds_value(lb, ub))
''')],
     'a scalar declared with the value zero and bounds that are not symmetric', 'It holds another.', '''
assert vb.ScalarParam('x', lb=-1., ub=3., val=0.).get() == 0.
''')

seed('diag-bound-of-first-matrix', 'C01',
     [(MM, '''                free_val[self.free_obs_slice(obs)], diag_lb=self.__diag_lb) \\
              for obs in range(self.__length) ])
''', '''                free_val[self.free_obs_slice(obs)],
                diag_lb=self.__diag_lb if obs == 0 else 0.0) \\
              for obs in range(self.__length) ])
'''), (MM, '''            self.__val[obs, :, :], diag_lb=self.__diag_lb) \\
            for obs in range(self.__length)])
''', '''            self.__val[obs, :, :], diag_lb=self.__diag_lb if obs == 0 else 0.0) \\
            for obs in range(self.__length)])
''')],
     'two matrices with a diagonal bound', 'The second is not held to it.', '''
p = vb.PosDefMatrixParamVector('p', length=2, matrix_size=2, diag_lb=1.0)
p.set_free(onp.full(6, -3.))
assert onp.all(onp.linalg.eigvalsh(p.get()[1] - onp.eye(2)) > 0)
''')

seed('cross-hessian-kept-at-rebase', 'C25',
     [(MS, '''        self.hyper_par_cross_hessian0 = \\
            self.joint_objective.fun_hessian12(
                self.input_val0, self.hyper_val0,
                self.input_is_free, self.hyper_is_free)
''', '''        if getattr(self, '_cross_at', None) is None or \\
                not np.array_equal(self._cross_at, self.hyper_val0):
            self._cross_at = self.hyper_val0
            self.hyper_par_cross_hessian0 = \\
                self.joint_objective.fun_hessian12(
                    self.input_val0, self.hyper_val0,
                    self.input_is_free, self.hyper_is_free)
''')],
     'new base values with the same hyperparameter and another input', 'The cross Hessian is that of the old input.', '''
x, h = vb.VectorParam('x', 2), vb.VectorParam('h', 2)
f = lambda: np.sum((x.get() ** 2 - h.get()) ** 2) + np.sum(x.get() ** 2)
s = sens_lib.ParametricSensitivityLinearApproximation(f, x, h, onp.ones(2), onp.ones(2))
s.set_base_values(2 * onp.ones(2), onp.ones(2))
t = sens_lib.ParametricSensitivityLinearApproximation(f, x, h, 2 * onp.ones(2), onp.ones(2))
onp.testing.assert_allclose(s.get_dinput_dhyper(), t.get_dinput_dhyper())
''')

