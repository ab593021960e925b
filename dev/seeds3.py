"""Planted bugs, third batch."""
from seeds import seed, PM, MM, SP, PP, PD, SO, MS, OU
from seeds2 import NP_, EF, CG, MO, RU, WP, DP, GP

seed('covariance-remembered', 'C17',
     [(NP_, '''    def cov(self):
        return np.linalg.inv(self['info'].get())
    def e_outer(self):
        mean = self['mean'].get()
''', '''    def cov(self):
        info = self['info'].get()
        last = getattr(self, '_last_cov', None)
        if last is None or not np.array_equal(last[0], info):
            last = self._last_cov = (info, np.linalg.inv(info))
        return last[1]
    def e_outer(self):
        mean = self['mean'].get()
''')],
     'evaluating the covariance at a point and then differentiating through it at the same point',
     'The covariance is then a constant to the derivative.', '''
u = vb.MVNParam('u', dim=2)
obj = obj_lib.Objective(u, lambda: np.sum(u.e_outer() ** 2))
f = rng.randn(u.free_size())
g0 = obj.fun_free_grad(f)
u.set_free(f)
u._last_cov = None
u.cov()
obj2 = obj_lib.Objective(u, lambda: np.sum(u.e_outer() ** 2))
g1 = obj2.fun_free_grad(f)
eps = 1e-6
num = onp.array([(obj.fun_free(f + eps * e) - obj.fun_free(f - eps * e)) / (2 * eps) for e in onp.eye(len(f))])
onp.testing.assert_allclose(g1, num, rtol=1e-4, atol=1e-6)
''')

seed('wishart-inverse-raw', 'C17',
     [(WP, '''        return np.linalg.inv(self['v'].get()) / \\
            (self['df'].get() - self.__size - 1)
''', '''        return linalg.inv(self['v'].get()) / \\
            (self['df'].get() - self.__size - 1)
'''), (WP, '''from autograd import numpy as np
''', '''from autograd import numpy as np
from scipy import linalg
''')],
     'differentiating the mean of the inverse Wishart', 'It raises.', '''
p = vb.WishartParam('p', size=2)
p['df'].set(7.)
f = p.get_free()
obj = obj_lib.Objective(p, lambda: np.sum(p.e_inv()))
g = obj.fun_free_grad(f)
assert onp.all(onp.isfinite(onp.array(g, dtype=float)))
''')

seed('entropy-trace-fixed', 'C17',
     [(EF, '''    s, log_det_v = np.linalg.slogdet(v)
    assert s > 0
    return \\
        0.5 * (k + 1) * log_det_v + \\
        0.5 * k * (k + 1) * np.log(2) + \\
        multivariate_gammaln(0.5 * df, k) - \\
''', '''    s, log_det_v = np.linalg.slogdet(v)
    assert s > 0
    df = float(df)
    return \\
        0.5 * (k + 1) * log_det_v + \\
        0.5 * k * (k + 1) * np.log(2) + \\
        multivariate_gammaln(0.5 * df, k) - \\
''')],
     'differentiating the Wishart entropy', 'It raises.', '''
p = vb.WishartParam('p', size=2)
p['df'].set(7.)
obj = obj_lib.Objective(p, lambda: np.sum(p.entropy()))
g = obj.fun_free_grad(p.get_free())
assert onp.all(onp.isfinite(onp.array(g, dtype=float)))
''')

seed('quadrature-nodes-rescaled', 'C18',
     [(MO, '''    z_vals = \\
        np.sqrt(2) * np.expand_dims(z_sd, axis=draws_axis) * gh_x + \\
        np.expand_dims(z_mean, axis=draws_axis)

    # By dividing by the number of standard draws after summing,
    # we add the sample means for all the observations.
    # Note that
    # log(1 - p) = log(1 / (1 + exp(z))) = -log(1 + exp(z))
    logit_term = gh_w''', '''    gh_x *= np.sqrt(2)
    z_vals = \\
        np.expand_dims(z_sd, axis=draws_axis) * gh_x + \\
        np.expand_dims(z_mean, axis=draws_axis)

    # By dividing by the number of standard draws after summing,
    # we add the sample means for all the observations.
    # Note that
    # log(1 - p) = log(1 / (1 + exp(z))) = -log(1 + exp(z))
    logit_term = gh_w''')],
     'using the same quadrature nodes a second time', 'They were rescaled in place.', '''
x, w = onp.polynomial.hermite.hermgauss(5)
m, s = onp.ones(3), onp.full(3, 0.5)
a = modeling.get_e_logistic_term_guass_hermite(m, s, x, w)
b = modeling.get_e_logistic_term_guass_hermite(m, s, x, w)
onp.testing.assert_allclose(a, b)
''')

seed('hessian-symmetrised-in-place', 'C18',
     [(OU, '''    hessian_sym = 0.5 * (hessian + hessian.T)
''', '''    hessian_sym = hessian
    hessian_sym += hessian.T
    hessian_sym *= 0.5
'''),],
     'a Hessian that is not exactly symmetric, looked at after it was used for a preconditioner',
     "The caller's Hessian is changed.", '''
h = onp.array([[2., 0.5], [0.3, 1.]])
h0 = h.copy()
opt_lib.get_sym_matrix_inv_sqrt(h)
onp.testing.assert_array_equal(h, h0)
''')

seed('eta-orders-shared', 'C18',
     [(MS, '''        old_eta_orders = deepcopy(self.eta_orders)
        old_eta_orders.append(0)
''', '''        old_eta_orders = self.eta_orders
        if len(old_eta_orders) == self.order:
            old_eta_orders.append(0)
''')],
     'evaluating or differentiating a term again after differentiating it', 'Its list of orders was extended.', '''
from autograd import numpy as anp
fun = lambda eta, eps: eta ** 2 * anp.sum(eps) + anp.exp(eps[0] * eta)
gd = sens_lib.generate_two_term_derivative_array(fun, order=4)
terms = sens_lib.get_taylor_base_terms(gd)
t = terms[1]
before = list(t.eta_orders)
t.differentiate(lambda a, b, c: a)
assert t.eta_orders == before, t.eta_orders
''')

seed('reorder-indices-kept', 'C18',
     [(SP, '''class SimplexParam(object):
''', '''_JAC_CACHE = {}


class SimplexParam(object):
'''), (SP, '''    def free_to_vector_jac(self, free_val):
        jac_rows = []
''', '''    def free_to_vector_jac(self, free_val):
        key = tuple(np.round(free_val, 6))
        if key in _JAC_CACHE:
            return _JAC_CACHE[key]
        jac_rows = []
'''), (SP, '''        return coo_matrix((grads, (jac_rows, jac_cols)),
                          (self.vector_size(), self.free_size()))
''', '''        _JAC_CACHE[key] = coo_matrix((grads, (jac_rows, jac_cols)),
                                     (self.vector_size(), self.free_size()))
        return _JAC_CACHE[key]
''')],
     'two parameters of simplices with the same number of free coordinates but different shapes, at the same free vector',
     "The second gets the first one's Jacobian.", '''
a = vb.SimplexParam('a', shape=(2, 2))
b = vb.SimplexParam('b', shape=(1, 3))
f = onp.array([0.1, 0.2])
a.free_to_vector_jac(f)
J = b.free_to_vector_jac(f).toarray()
b2 = vb.SimplexParam('b', shape=(1, 3))
onp.testing.assert_allclose(J, autograd.jacobian(b2.free_to_vector)(f))
''')

seed('prior-terms-inplace', 'C18',
     [(RU, '''    return get_mvn_from_nat_params(nat_param1 + prior_nat_param1,
                                  nat_param2 + prior_nat_param2)''', '''    nat_param1 += prior_nat_param1
    nat_param2 += prior_nat_param2
    return get_mvn_from_nat_params(nat_param1, nat_param2)'''),
      (RU, '''    x_shape = np.shape(prior_means)[0:-1] + (1, 1)
    x = np.tile(np.eye(r), x_shape)

    return get_nat_params_from_likelihood(prior_means, x, prior_infos)
''', '''    x_shape = np.shape(prior_means)[0:-1] + (1, 1)
    x = np.tile(np.eye(r), x_shape)

    prior_infos *= -0.5
    return matvec_mul_last2dims(prior_infos, -2. * prior_means), prior_infos
''')],
     'using the prior information matrices again', 'They were scaled in place.', '''
from LinearResponseVariationalBayes import regression_utils as reg
y, x = rng.randn(4), rng.randn(4, 2)
info = onp.eye(4)
pm, pi = onp.zeros(2), onp.eye(2)
reg.get_posterior_regression_coefficients(y, x, info, pm, pi)
onp.testing.assert_array_equal(pi, onp.eye(2))
''')
