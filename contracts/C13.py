"""Distribution parameters report the moments and entropy of the distribution they parameterize."""
import autograd.numpy as np
import LinearResponseVariationalBayes as vb
from formulas import *


def spec_mvn():
    d = dim('d')
    p = vb.MVNParam('p', dim=d)
    mu = array('mu', d)
    A, L = pdmat('A', d)
    p['mean'].set(mu)
    p['info'].set(A)
    check_eq(p.e(), mu, 'mean')
    check_eq(np.matmul(p.cov(), A), np.eye(d), 'the covariance inverts the information')
    check_eq(np.matmul(A, p.cov()), np.eye(d), 'the covariance inverts the information')
    check_eq(p.e_outer(), tabulate(lambda i, j: mu[i] * mu[j] + 0.5 * (p.cov()[i, j] + p.cov()[j, i]), d, d), 'second moment')
    check_eq(p.e_outer(), p.e_outer().T, 'the second moment is symmetric')
    check_eq(p.entropy(), 0.5 * (d + d * LOG2PI - f_logdet(A)), 'entropy')
    check_eq(p['mean'].get(), mu, 'moments leave the parameters')


def normal_entries(p, mu, info, i):
    """Entries at i of the moments of an array of normals."""
    m, v = mu[i], 1 / info[i]
    check_eq(p.e()[i], m, 'mean')
    check_eq(p.var()[i], v, 'variance')
    check_eq(p.e_outer()[i], m * m + v, 'second moment')
    check_eq(p.e_exp()[i], lognormal_mean(m, v), 'mean of the exponential')
    check_eq(p.var_exp()[i], lognormal_var(m, v), 'variance of the exponential')
    check_eq(p.e2_exp()[i], f_exp(2 * m + 2 * v), 'second moment of the exponential')


def spec_uvn():
    p = vb.UVNParam('p')
    m, info = real('m'), pos('info')
    p['mean'].set(m)
    p['info'].set(info)
    v = 1 / info
    check_eq(p.e(), m, 'mean')
    check_eq(p.var(), v, 'variance')
    check_eq(p.e_outer(), m * m + v, 'second moment')
    check_eq(p.e_exp(), lognormal_mean(m, v), 'mean of the exponential')
    check_eq(p.var_exp(), lognormal_var(m, v), 'variance of the exponential')
    check_eq(p.e2_exp(), f_exp(2 * m + 2 * v), 'second moment of the exponential')
    check_eq(p.entropy(), normal_entropy(info), 'entropy')


def spec_uvn_vector():
    n = dim('n')
    p = vb.UVNParamVector('p', length=n)
    mu, info = array('mu', n), posarray('info', n)
    p['mean'].set(mu)
    p['info'].set(info)
    normal_entries(p, mu, info, anyindex(n))
    check(shape_eq(p.e_exp(), n), 'one moment per normal')
    check_eq(p.entropy(), total(n, lambda i: normal_entropy(info[i])), 'entropy')
    check_eq(p.size(), n, 'size')


def spec_uvn_array():
    n, r = dim('n'), dim('r')
    p = vb.UVNParamArray('p', shape=(n, r))
    mu, info = array('mu', n, r), posarray('info', n, r)
    p['mean'].set(mu)
    p['info'].set(info)
    normal_entries(p, mu, info, (anyindex(n), anyindex(r)))
    check(shape_eq(p.e_exp(), n, r), 'one moment per normal')
    check_eq(p.entropy(), total(n, lambda i: total(r, lambda j: normal_entropy(info[i, j]))), 'entropy')
    check(p.shape() == (n, r), 'shape')


def spec_uvn_moment_array():
    n, r = dim('n'), dim('r')
    p = vb.UVNMomentParamArray('p', shape=(n, r))
    mu, info = array('mu', n, r), posarray('info', n, r)
    p['e'].set(mu)
    p['e2'].set(mu * mu + 1 / info)
    normal_entries(p, mu, info, (anyindex(n), anyindex(r)))
    check_eq(p.entropy(), total(n, lambda i: total(r, lambda j: normal_entropy(info[i, j]))), 'entropy')
    check(p.shape() == (n, r), 'shape')


def spec_uvn_moment_conversions():
    n, r = dim('n'), dim('r')
    p = vb.UVNMomentParamArray('p', shape=(n, r))
    q = vb.UVNParamArray('q', shape=(n, r))
    mu, info = array('mu', n, r), posarray('info', n, r)
    q['mean'].set(mu)
    q['info'].set(info)
    p.set_from_uvn_param_array(q)
    check_eq(p.e(), q.e(), 'same mean')
    check_eq(p.var(), q.var(), 'same variance')
    check_eq(p.e_exp(), q.e_exp(), 'same mean of the exponential')
    check_eq(p.var_exp(), q.var_exp(), 'same variance of the exponential')
    check_eq(p.e2_exp(), q.e2_exp(), 'same second moment of the exponential')
    check_eq(p.entropy(), q.entropy(), 'same entropy')
    c = vb.ArrayParam('c', shape=(n, r))
    x = array('x', n, r)
    c.set(x)
    p.set_from_constant(c)
    check_eq(p.e(), x, 'mean of a constant')
    check_eq(p.e_outer(), x * x, 'second moment of a constant')
    check_eq(p.var(), np.zeros((n, r)), 'a constant has no variance')


def spec_mvn_array():
    n, r = dim('n'), dim('r')
    p = vb.MVNArray('p', shape=(n, r))
    mu, info = array('mu', n, r), posarray('info', n)
    p['mean'].set(mu)
    p['info'].set(info)
    check_eq(p.e(), mu, 'mean')
    check_eq(p.e2(), tabulate(lambda i, j: mu[i, j] * mu[i, j] + 1 / info[i], n, r), 'second moments')


def spec_gamma():
    p = vb.GammaParam('p')
    a, b = pos('a'), pos('b')
    p['shape'].set(a)
    p['rate'].set(b)
    check_eq(p.e(), a / b, 'mean')
    check_eq(p.e_log(), f_digamma(a) - f_log(b), 'mean of the logarithm')
    check_eq(p.entropy(), gamma_entropy(a, b), 'entropy')


def spec_dirichlet():
    k, n = dim('k', 2), dim('n')
    p = vb.DirichletParamArray('p', shape=(k, n))
    a = posarray('a', k, n)
    p['alpha'].set(a)
    check_eq(p.e(), tabulate(lambda i, j: a[i, j] / total(k, lambda q: a[q, j]), k, n), 'mean')
    check_eq(p.e_log(), tabulate(lambda i, j: f_digamma(a[i, j]) - f_digamma(total(k, lambda q: a[q, j])), k, n),
             'mean of the logarithm')
    check_eq(p.entropy(), tabulate(lambda j: dirichlet_entropy(k, lambda q: a[q, j]), n), 'entropy of each')
    check_eq(np.sum(p.e(), axis=0), np.ones(n), 'means sum to one')


def spec_dirichlet_other_shapes():
    k, n, r = dim('k', 2), dim('n'), dim('r')
    p = vb.DirichletParamArray('p', shape=(k, n, r))
    a = posarray('a', k, n, r)
    p['alpha'].set(a)
    check_eq(p.e(), tabulate(lambda i, j, l: a[i, j, l] / total(k, lambda q: a[q, j, l]), k, n, r), 'mean')
    check_eq(p.e_log(), tabulate(lambda i, j, l: f_digamma(a[i, j, l]) - f_digamma(total(k, lambda q: a[q, j, l])), k, n, r),
             'mean of the logarithm')
    check_eq(p.entropy(), tabulate(lambda j, l: dirichlet_entropy(k, lambda q: a[q, j, l]), n, r), 'entropy of each')
    s = vb.DirichletParamArray('s', shape=(k,))
    b = posarray('b', k)
    s['alpha'].set(b)
    check_eq(s.e(), tabulate(lambda i: b[i] / total(k, lambda q: b[q]), k), 'mean of a single distribution')
    check_eq(s.entropy(), dirichlet_entropy(k, lambda q: b[q]), 'entropy of a single distribution')


def spec_wishart():
    d = dim('d')
    p = vb.WishartParam('p', size=d)
    df = d + 1 + pos('df')
    V, L = pdmat('V', d)
    p['df'].set(df)
    p['v'].set(V)
    check_eq(p.e(), df * V, 'mean')
    check_eq(p.e_log_det(), wishart_e_log_det(df, V, d), 'mean of the log determinant')
    check_eq(np.matmul(p.e_inv() * (df - d - 1), V), np.eye(d), 'mean of the inverse')
    check_eq(p.entropy(), wishart_entropy(df, V, d), 'entropy')
    W = np.linalg.inv(V)
    lk = real('lkj')
    check_eq(p.e_log_lkj_inv_prior(lk), (lk - 1) * (-wishart_e_log_det(df, V, d) - total(
        d, lambda i: inverse_wishart_e_log_diag(df, W[i, i], d))), 'expected LKJ prior of the inverse')
