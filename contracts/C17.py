"""Moments, entropies and priors computed from parameters can be differentiated, and give the derivatives of their values."""
import autograd.numpy as np
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.ExponentialFamilies as ef
from LinearResponseVariationalBayes import SparseObjectives as obj_lib
from LinearResponseVariationalBayes import Modeling as modeling
from formulas import *


def same(p, quantity, formula, z, f, what):
    """quantity(): of the parameter p; formula(z): of its vector z."""
    o = obj_lib.Objective(p, lambda: np.sum(quantity()))

    def of_free(x):
        p.set_free(x)
        return formula(p.get_vector())
    check_eq(o.fun_vector(z), formula(z), what)
    check_eq(o.fun_vector_grad(z), jac(formula, z), 'gradient of ' + what)
    g = jac(of_free, f)
    check_eq(o.fun_free_grad(f), g, 'gradient in free coordinates of ' + what)


def second(p, quantity, formula, z, v, what):
    o = obj_lib.Objective(p, lambda: np.sum(quantity()))
    check_eq(o.fun_vector_hessian(z), hess(formula, z), 'Hessian of ' + what)
    check_eq(o.fun_vector_hvp(z, v), np.matmul(hess(formula, z), v), 'Hessian product of ' + what)


UVN = {'e': lambda m, v: m,
       'var': lambda m, v: v,
       'e_outer': lambda m, v: m * m + v,
       'e_exp': lambda m, v: lognormal_mean(m, v),
       'var_exp': lambda m, v: lognormal_var(m, v),
       'e2_exp': lambda m, v: f_exp(2 * m + 2 * v)}
CASES_uvn = sorted(UVN)
METHODS = {'e': lambda p: p.e(), 'var': lambda p: p.var(), 'e_outer': lambda p: p.e_outer(), 'e_exp': lambda p: p.e_exp(),
           'var_exp': lambda p: p.var_exp(), 'e2_exp': lambda p: p.e2_exp(), 'e2': lambda p: p.e2(), 'e_log': lambda p: p.e_log(),
           'entropy': lambda p: p.entropy()}


def spec_uvn(name):
    get, formula = METHODS[name], UVN[name]
    p = vb.UVNParam('p', min_info=pos('lo'))
    z = np.array([real('m'), pos('lo') + pos('i')])
    f = array('f', 2)
    same(p, lambda: get(p), lambda x: formula(x[0], 1 / x[1]), z, f, name)
    second(p, lambda: get(p), lambda x: formula(x[0], 1 / x[1]), z, array('v', 2), name)


CASES_uvn_arrays = sorted(UVN)


def spec_uvn_arrays(name):
    get, formula = METHODS[name], UVN[name]
    n, r = dim('n'), dim('r')
    p = vb.UVNParamVector('p', length=n)
    w = array('w', n)
    z = np.hstack([array('m', n), posarray('i', n)])
    same(p, lambda: np.sum(w * get(p)), lambda x: total(n, lambda i: w[i] * formula(x[i], 1 / x[n + i])), z, array('f', 2 * n),
         name + ' of a vector of normals')
    q = vb.UVNParamArray('q', shape=(n, r))
    u = array('u', n, r)
    y = np.hstack([array('m2', n * r), posarray('i2', n * r)])
    same(q, lambda: np.sum(u * get(q)),
         lambda x: total(n, lambda i: total(r, lambda j: u[i, j] * formula(x[i * r + j], 1 / x[n * r + i * r + j]))), y,
         array('g', 2 * n * r), name + ' of an array of normals')


def spec_uvn_entropies():
    n = dim('n')
    p = vb.UVNParam('p')
    same(p, lambda: p.entropy(), lambda x: normal_entropy(x[1]), np.array([real('m'), pos('i')]), array('f', 2), 'entropy')
    q = vb.UVNParamVector('q', length=n)
    y = np.hstack([array('m2', n), posarray('i2', n)])
    same(q, lambda: q.entropy(), lambda x: total(n, lambda i: normal_entropy(x[n + i])), y, array('g', 2 * n), 'entropy of a vector')
    r = vb.UVNParamArray('r', shape=(n, 2))
    y = np.hstack([array('m3', 2 * n), posarray('i3', 2 * n)])
    same(r, lambda: r.entropy(), lambda x: total(2 * n, lambda i: normal_entropy(x[2 * n + i])), y, array('h', 4 * n),
         'entropy of an array')


CASES_moments = sorted(UVN)


def spec_moments(name):
    get, formula = METHODS[name], UVN[name]
    n, r = dim('n'), dim('r')
    p = vb.UVNMomentParamArray('p', shape=(n, r))
    w = array('w', n, r)
    m = array('m', n * r)
    z = np.hstack([m, m * m + posarray('v', n * r)])

    def F(x):
        def at(i, j):
            k = i * r + j
            return w[i, j] * formula(x[k], x[n * r + k] - x[k] * x[k])
        return total(n, lambda i: total(r, lambda j: at(i, j)))
    o = obj_lib.Objective(p, lambda: np.sum(w * get(p)))
    check_eq(o.fun_vector(z), F(z), name)
    check_eq(o.fun_vector_grad(z), jac(F, z), 'gradient of ' + name)
    o = obj_lib.Objective(p, lambda: p.entropy())
    check_eq(o.fun_vector_grad(z), jac(lambda x: total(n * r, lambda k: normal_entropy(1 / (x[n * r + k] - x[k] * x[k]))), z),
             'gradient of the entropy')


def spec_moment_conversion():
    """A model may fill a moment parameter from another parameter on the way."""
    n = dim('n')
    q = vb.UVNParamArray('q', shape=(n, 2))
    p = vb.UVNMomentParamArray('p', shape=(n, 2))
    w = array('w', n, 2)
    z = np.hstack([array('m', 2 * n), posarray('i', 2 * n)])

    def quantity():
        p.set_from_uvn_param_array(q)
        return np.sum(w * p.e_exp())
    wl = np.reshape(w, 2 * n)
    same(q, quantity, lambda x: total(2 * n, lambda k: wl[k] * lognormal_mean(x[k], 1 / x[2 * n + k])), z, array('f', 4 * n),
         'a moment of the converted parameter')


def spec_mvn():
    d = dim('d')
    p = vb.MVNParam('p', dim=d)
    W = array('W', d, d)
    w = array('w', d)
    nv = d * (d + 1) // 2
    f = array('f', d + nv)
    p.set_free(f)
    z = p.get_vector()
    S = vb.PosDefMatrixParam('S', size=d)

    def info(x):
        S.set_vector(x[d:])
        return S.get()

    def mean(x):
        return x[:d]
    cases = [('mean', lambda: np.sum(w * p.e()), lambda x: np.sum(w * mean(x))),
             ('covariance', lambda: np.sum(W * p.cov()), lambda x: np.sum(W * np.linalg.inv(info(x)))),
             ('second moment', lambda: np.sum(W * p.e_outer()),
              lambda x: np.sum(W * (np.outer(mean(x), mean(x)) + np.linalg.inv(info(x))))),
             ('entropy', lambda: p.entropy(), lambda x: 0.5 * (d + d * LOG2PI - f_logdet(info(x))))]
    for what, quantity, formula in cases:
        same(p, quantity, formula, z, f, what)


def spec_mvn_array():
    n, r = dim('n'), dim('r')
    p = vb.MVNArray('p', shape=(n, r))
    w = array('w', n, r)
    z = np.hstack([array('m', n * r), posarray('i', n)])
    same(p, lambda: np.sum(w * p.e2()),
         lambda x: total(n, lambda i: total(r, lambda j: w[i, j] * (x[i * r + j] * x[i * r + j] + 1 / x[n * r + i]))),
         z, array('f', n * r + n), 'second moments')
    same(p, lambda: np.sum(w * p.e()), lambda x: total(n, lambda i: total(r, lambda j: w[i, j] * x[i * r + j])),
         z, array('f', n * r + n), 'means')


def spec_gamma():
    p = vb.GammaParam('p')
    z = np.array([pos('a'), pos('b')])
    f = array('f', 2)
    for what, quantity, formula in [('mean', lambda: p.e(), lambda x: x[0] / x[1]),
                                    ('mean of the logarithm', lambda: p.e_log(), lambda x: f_digamma(x[0]) - f_log(x[1])),
                                    ('entropy', lambda: p.entropy(), lambda x: gamma_entropy(x[0], x[1]))]:
        same(p, quantity, formula, z, f, what)
        second(p, quantity, formula, z, array('v', 2), what)


def spec_dirichlet():
    k, n = dim('k', 2), dim('n')
    p = vb.DirichletParamArray('p', shape=(k, n))
    w = array('w', k, n)
    u = array('u', n)
    z = posarray('a', k * n)
    f = array('f', k * n)

    def tot(x, j):
        return total(k, lambda q: x[q * n + j])
    same(p, lambda: np.sum(w * p.e()), lambda x: total(n, lambda j: total(k, lambda i: w[i, j] * x[i * n + j] / tot(x, j))), z, f, 'mean')
    same(p, lambda: np.sum(w * p.e_log()),
         lambda x: total(n, lambda j: total(k, lambda i: w[i, j] * (f_digamma(x[i * n + j]) - f_digamma(tot(x, j))))), z, f,
         'mean of the logarithm')
    same(p, lambda: np.sum(u * p.entropy()), lambda x: total(n, lambda j: u[j] * dirichlet_entropy(k, lambda q: x[q * n + j])), z, f,
         'entropy')


def spec_wishart():
    d = dim('d')
    p = vb.WishartParam('p', size=d)
    W = array('W', d, d)
    nv = d * (d + 1) // 2
    f = array('f', 1 + nv)
    p.set_free(f)
    z = p.get_vector()
    lk = real('lkj')
    S = vb.PosDefMatrixParam('S', size=d)

    def scale(x):
        S.set_vector(x[1:])
        return S.get()
    cases = [('mean', lambda: np.sum(W * p.e()), lambda x: np.sum(W * (x[0] * scale(x)))),
             ('mean of the log determinant', lambda: p.e_log_det(), lambda x: wishart_e_log_det(x[0], scale(x), d)),
             ('mean of the inverse', lambda: np.sum(W * p.e_inv()), lambda x: np.sum(W * np.linalg.inv(scale(x))) / (x[0] - d - 1)),
             ('entropy', lambda: p.entropy(), lambda x: wishart_entropy(x[0], scale(x), d))]
    for what, quantity, formula in cases:
        same(p, quantity, formula, z, f, what)


def direct(fn, formula, z, what):
    check_eq(jac(fn, z), jac(formula, z), 'derivative of ' + what)


def spec_priors():
    n, d = dim('n'), dim('d')
    a, b, c, e = real('a'), pos('b'), real('c'), real('e')
    x = np.array([real('x'), pos('y')])
    direct(lambda z: ef.uvn_prior(a, b, z[0], z[1]), lambda z: -0.5 * b * ((z[0] - a) * (z[0] - a) + z[1]), x, 'the normal prior')
    direct(lambda z: ef.uvn_prior(z[0], z[1], a, b), lambda z: -0.5 * z[1] * ((z[0] - a) * (z[0] - a) + b), x,
           'the normal prior in its parameters')
    direct(lambda z: ef.gamma_prior(c, e, z[0], z[1]), lambda z: (c - 1) * z[1] - e * z[0], x, 'the gamma prior')
    direct(lambda z: ef.gamma_prior(z[0], z[1], c, e), lambda z: (z[0] - 1) * e - z[1] * c, x, 'the gamma prior in its parameters')
    direct(lambda z: ef.exponential_prior(z[0], z[1]), lambda z: -z[0] * z[1], x, 'the exponential prior')
    al, le = posarray('al', n), array('le', n)
    direct(lambda z: ef.dirichlet_prior(al, z), lambda z: total(n, lambda i: (al[i] - 1) * z[i]), le, 'the Dirichlet prior')
    direct(lambda z: ef.dirichlet_prior(z, le), lambda z: total(n, lambda i: (z[i] - 1) * le[i]), al,
           'the Dirichlet prior in its parameters')
    m0, m = array('m0', d), array('m', d)
    B, C = array('B', d, d), array('C', d, d)

    def q(z, W, S):
        return -0.5 * total(d, lambda i: total(d, lambda j: W[i, j] * ((z[i] - m0[i]) * (z[j] - m0[j]) + S[j, i])))
    direct(lambda z: ef.mvn_prior(m0, B, z, C), lambda z: q(z, B, C), m, 'the multivariate normal prior')
    direct(lambda z: ef.mvn_prior(m0, z, m, C), lambda z: q(m, z, C), B, 'the multivariate normal prior in its information')
    direct(lambda z: ef.mvn_prior(m0, B, m, z), lambda z: q(m, B, z), C, 'the multivariate normal prior in the covariance')


def spec_log_prob():
    x = np.array([real('u'), real('m'), pos('i')])
    direct(lambda z: modeling.univariate_normal_log_prob(z[0], z[1], z[2]),
           lambda z: -0.5 * z[2] * (z[0] - z[1]) * (z[0] - z[1]) + 0.5 * f_log(z[2]), x, 'the normal log density')
    direct(lambda z: np.hstack(ef.get_uvn_from_natural_parameters(z[1], -z[2])),
           lambda z: np.array([z[1] / (2 * z[2]), 2 * z[2]]), x, 'the natural parameters')


R2, RPI = f_sqrt(2), f_sqrt(PI)


def log_expit(x):
    return -f_log(1 + f_exp(-x))


QUADS = {'an expectation by quadrature': (lambda m, c, x, w: ef.get_e_fun_normal(m, c, x, w, np.exp), f_exp),
         'the logit normal mean': (lambda m, c, x, w: ef.get_e_logitnormal(m, c, x, w), lambda y: 1 / (1 + f_exp(-y))),
         'the mean of the log of a logit normal': (lambda m, c, x, w: ef.get_e_log_logitnormal(m, c, x, w)[0], log_expit)}
CASES_quadrature = [(k, v) for k in sorted(QUADS) for v in ['means', 'informations']]


def spec_quadrature(case):
    what, v = case
    fn, f = QUADS[what]
    n, g = dim('n'), dim('g')
    if f is log_expit:
        n, g = 1, 2
    mu, info = array('mu', n), posarray('info', n)
    x, w, u = array('x', g), array('w', g), array('u', n)

    def ref(m, c):
        return total(n, lambda i: u[i] * total(g, lambda q: w[q] * f(m[i] + R2 * x[q] / f_sqrt(c[i])))) / RPI
    if v == 'means':
        direct(lambda z: np.sum(u * fn(z, info, x, w)), lambda z: ref(z, info), mu, what)
    else:
        direct(lambda z: np.sum(u * fn(mu, z, x, w)), lambda z: ref(mu, z), info, what)


def spec_stick_breaking():
    n, g = 1, 2
    mu, info = array('mu', n), posarray('info', n)
    x, w, u = array('x', g), array('w', g), array('u', n)
    e = ef.get_e_log_logitnormal(mu, info, x, w)[1]
    direct(lambda a: np.sum(u * ef.get_e_dp_prior_logitnorm_approx(a[0], mu, info, x, w)), lambda a: (a[0] - 1) * np.sum(u * e),
           np.array([pos('alpha')]), 'the stick-breaking prior in its concentration')
    check_eq(jac(lambda z: np.sum(u * ef.get_e_log_logitnormal(z, info, x, w)[1]), mu),
             jac(lambda z: np.sum(u * ef.get_e_log_logitnormal(z, info, x, w)[0]), mu) - u, 'derivative of the complement')


def spec_logistic():
    n, g = dim('n'), dim('g')
    y, x, w, u = array('y', n), array('x', g), array('w', g), array('u', n)
    z = np.hstack([array('z', n), posarray('sd', n)])
    direct(lambda z: modeling.get_e_logistic_term(y, z[:n], z[n:], x),
           lambda z: total(n, lambda i: y[i] * z[i] - total(g, lambda q: f_log(1 + f_exp(z[i] + z[n + i] * x[q]))) / g), z,
           'the sampled logistic term')

    def term(z, i):
        return total(g, lambda q: w[q] * f_log(1 + f_exp(z[i] + R2 * z[n + i] * x[q]))) / RPI
    direct(lambda z: modeling.get_e_logistic_term_guass_hermite(z[:n], z[n:], x, w), lambda z: total(n, lambda i: term(z, i)), z,
           'the logistic term by quadrature')
    direct(lambda z: np.sum(u * modeling.get_e_logistic_term_guass_hermite(z[:n], z[n:], x, w, aggregate_all=False)),
           lambda z: total(n, lambda i: u[i] * term(z, i)), z, 'the logistic terms by quadrature')


def spec_other_entropies():
    n = dim('n')
    x = np.array([pos('a'), pos('b')])
    direct(lambda z: np.sum(ef.beta_entropy(np.reshape(z, (1, 2)))), lambda z: beta_entropy(z[0], z[1]), x, 'the beta entropy')
    p = posarray('p', n)
    direct(lambda z: np.sum(ef.multinoulli_entropy(np.reshape(z, (1, n)))), lambda z: -total(n, lambda i: z[i] * f_log(z[i])), p + 0.01,
           'the multinoulli entropy')


def spec_lkj():
    d = dim('d', 2)
    A, L = pdmat('A', d)
    df = d + 1 + pos('df')
    lk = real('lkj')

    def pkg(z):
        return ef.expected_ljk_prior(lk, z[0], A)

    def ref(z):
        W = np.linalg.inv(A)
        return (lk - 1) * (-wishart_e_log_det(z[0], A, d) - total(d, lambda i: inverse_wishart_e_log_diag(z[0], W[i, i], d)))
    direct(pkg, ref, np.array([df]), 'the LKJ prior in the degrees of freedom')

    def pkg2(t):
        return ef.expected_ljk_prior(lk, df, A * t[0])

    def ref2(t):
        W = np.linalg.inv(A * t[0])
        return (lk - 1) * (-wishart_e_log_det(df, A * t[0], d) - total(d, lambda i: inverse_wishart_e_log_diag(df, W[i, i], d)))
    direct(pkg2, ref2, np.array([pos('t')]), 'the LKJ prior in the scale')


def spec_regression():
    n, d = dim('n'), dim('d')
    X, y = array('X', n, d), array('y', n)
    i0 = pos('i')
    w, W = array('w', d), array('W', d, d)
    import LinearResponseVariationalBayes.regression_utils as reg

    def pkg(z):
        a, b = reg.get_nat_params_from_likelihood(y, X, z)
        return np.sum(w * a) + np.sum(W * b)

    def ref(z):
        one = total(d, lambda j: w[j] * total(n, lambda k: X[k, j] * y[k])) * z
        return one - 0.5 * z * total(d, lambda j: total(d, lambda l: W[j, l] * total(n, lambda k: X[k, j] * X[k, l])))
    direct(pkg, ref, i0, 'natural parameters of the likelihood')


CASES_matrix_function = ['one', 'two']


def spec_matrix_function(ranks):
    """A function applied to every matrix of an array."""
    n, d = dim('n'), dim('d')
    front = (n,) if ranks == 'one' else (n, 2)
    p = vb.PosDefMatrixParamArray('p', array_shape=front, matrix_size=d)
    f = array('f', p.free_size())
    p.set_free(f)
    A = p.get()
    i, j = anyindex(n), anyindex(2)
    at = (i,) if ranks == 'one' else (i, j)
    if ranks == 'one':
        inv = p.apply_matrix_function(np.linalg.inv)
        check(shape_eq(inv, *(front + (d, d))), 'one matrix for each')
        check_eq(inv[at], np.linalg.inv(A[at]), 'inverse of each matrix')
    mm = p.apply_matrix_function(lambda m: np.matmul(m, m))
    check(shape_eq(mm, *(front + (d, d))), 'one matrix for each')
    check_eq(mm[at], np.matmul(A[at], A[at]), 'function of each matrix')
    ld = p.apply_matrix_function(lambda m: np.array([np.trace(m), 2.0]))
    check(shape_eq(ld, *(front + (2,))), 'one vector for each')
    check_eq(ld[at][0], np.trace(A[at]), 'function of each matrix')
    w = array('w', *front)
    q = vb.PosDefMatrixParamArray('q', array_shape=front, matrix_size=d)

    def fn():
        return np.sum(w * p.apply_matrix_function(lambda m: np.array(np.sum(m * m))))

    def formula(z):
        q.set_free(z)
        B = q.get()
        return np.sum(w * np.sum(np.sum(B * B, axis=-1), axis=-1))
    o = obj_lib.Objective(p, fn)
    check_eq(o.fun_free(f), formula(f), 'function of an array of matrices')
    check_eq(o.fun_free_grad(f), jac(formula, f), 'its gradient')
