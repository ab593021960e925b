"""Entropies and expectations of the exponential families are the textbook ones, for arrays of any size."""
import autograd.numpy as np
from LinearResponseVariationalBayes import ExponentialFamilies as ef
from formulas import *


def spec_multivariate_special():
    k = dim('k')
    x = 0.5 * k + pos('x')
    check_eq(ef.multivariate_digamma(x, k), multidigamma(x, k), 'multivariate digamma')
    check_eq(ef.multivariate_gammaln(x, k), multigammaln(x, k), 'multivariate log gamma')


def spec_entropies():
    n, k = dim('n'), dim('k', 2)
    p = simplexarray('p', n, k)
    eps = pos('eps')
    check_eq(ef.multinoulli_entropy(p, min_prob=eps), tabulate(
        lambda i: -total(k, lambda j: p[i, j] * f_log(p[i, j] + eps)), n), 'multinoulli entropy of each row')
    check_eq(ef.multinoulli_entropy(p, min_prob=0.0), tabulate(
        lambda i: -total(k, lambda j: p[i, j] * f_log(p[i, j])), n), 'multinoulli entropy of each row')
    info = posarray('info', n)
    check_eq(ef.univariate_normal_entropy(info), total(n, lambda i: normal_entropy(info[i])), 'normal entropy')
    c = pos('c')
    check_eq(ef.univariate_normal_entropy(c), normal_entropy(c), 'normal entropy of a scalar')
    a, b = posarray('a', n), posarray('b', n)
    check_eq(ef.gamma_entropy(a, b), total(n, lambda i: gamma_entropy(a[i], b[i])), 'gamma entropy')
    tau = posarray('tau', n, 2)
    check_eq(ef.beta_entropy(tau), total(n, lambda i: beta_entropy(tau[i, 0], tau[i, 1])), 'beta entropy')
    info2 = posarray('info2', n, k)
    check_eq(ef.univariate_normal_entropy(info2), total(n, lambda i: total(k, lambda j: normal_entropy(info2[i, j]))),
             'normal entropy of a matrix of normals')


def spec_one_for_all():
    """One parameter shared by an array of distributions."""
    n = dim('n', 2)
    a, b = posarray('a', n), posarray('b', n)
    r, c = pos('r'), pos('c')
    check_eq(ef.gamma_entropy(c, b), total(n, lambda i: gamma_entropy(c, b[i])), 'gamma entropies of one shape')
    check_eq(ef.gamma_entropy(a, r), total(n, lambda i: gamma_entropy(a[i], r)), 'gamma entropies of one rate')
    check_eq(ef.gamma_entropy(c, r), gamma_entropy(c, r), 'a gamma entropy')


def spec_matrix_entropies():
    d = dim('d')
    A, L = pdmat('A', d)
    check_eq(ef.multivariate_normal_entropy(A), 0.5 * (d * (1 + LOG2PI) - f_logdet(A)), 'multivariate normal entropy')
    df = d - 1 + pos('df')
    check_eq(ef.wishart_entropy(df, A), wishart_entropy(df, A, d), 'Wishart entropy')
    check_eq(ef.e_log_det_wishart(df, A), wishart_e_log_det(df, A, d), 'Wishart mean log determinant')
    W = np.linalg.inv(A)
    check_eq(ef.e_log_inv_wishart_diag(df, A), tabulate(lambda i: inverse_wishart_e_log_diag(df, W[i, i], d), d),
             'mean log diagonal of the inverse')


def spec_dirichlet():
    k, n = dim('k', 2), dim('n')
    a = posarray('a', k, n)
    check_eq(ef.dirichlet_entropy(a), tabulate(lambda j: dirichlet_entropy(k, lambda i: a[i, j]), n), 'Dirichlet entropies')
    b = posarray('b', k)
    check_eq(ef.dirichlet_entropy(b), dirichlet_entropy(k, lambda i: b[i]), 'Dirichlet entropy')
    check_eq(ef.get_e_dirichlet(a), tabulate(lambda i, j: a[i, j] / total(k, lambda q: a[q, j]), k, n), 'Dirichlet means')
    check_eq(ef.get_e_log_dirichlet(a), tabulate(
        lambda i, j: f_digamma(a[i, j]) - f_digamma(total(k, lambda q: a[q, j])), k, n), 'Dirichlet mean logarithms')
    check_eq(ef.get_e_dirichlet(b), tabulate(lambda i: b[i] / total(k, lambda q: b[q]), k), 'Dirichlet mean')
    check_eq(ef.get_e_log_dirichlet(b), tabulate(lambda i: f_digamma(b[i]) - f_digamma(total(k, lambda q: b[q])), k),
             'Dirichlet mean logarithm')


def spec_expectations():
    n = dim('n')
    m, v = array('m', n), posarray('v', n)
    check_eq(ef.get_e_lognormal(m, v), tabulate(lambda i: lognormal_mean(m[i], v[i]), n), 'lognormal mean')
    check_eq(ef.get_var_lognormal(m, v), tabulate(lambda i: lognormal_var(m[i], v[i]), n), 'lognormal variance')
    a, b = posarray('a', n), posarray('b', n)
    check_eq(ef.get_e_log_gamma(a, b), tabulate(lambda i: f_digamma(a[i]) - f_log(b[i]), n), 'gamma mean logarithm')


def spec_consistency():
    """Families that contain one another agree."""
    a, b = pos('a'), pos('b')
    check_eq(ef.beta_entropy(np.array([[a, b]])), ef.dirichlet_entropy(np.array([a, b])), 'beta is a two-part Dirichlet')
    A = np.array([[a]])
    check_eq(ef.multivariate_normal_entropy(A), ef.univariate_normal_entropy(a), 'one-dimensional normal')
    df = pos('df')
    check_eq(ef.wishart_entropy(df, A), ef.gamma_entropy(0.5 * df, 0.5 / a), 'one-dimensional Wishart is a gamma')
    check_eq(ef.e_log_det_wishart(df, A), ef.get_e_log_gamma(0.5 * df, 0.5 / a), 'one-dimensional Wishart is a gamma')


def spec_gradients():
    """Entropies and expectations are differentiable, with the right derivatives."""
    a, b = pos('a'), pos('b')
    x = posarray('x', 2)
    check_eq(jac(lambda z: ef.gamma_entropy(z[0], z[1]), x), np.array([1 + (1 - x[0]) * f_polygamma(1, x[0]), -1 / x[1]]),
             'gamma entropy')
    d = dim('d')
    A, L = pdmat('A', d)
    check_eq(jac(lambda z: ef.multivariate_normal_entropy(z), A), -0.5 * np.linalg.inv(A).T, 'multivariate normal entropy')
    n = dim('n')
    m, v = array('m', n), posarray('v', n)
    g = jac(lambda z: np.sum(ef.get_e_lognormal(z, v)), m)
    check_eq(g, tabulate(lambda i: lognormal_mean(m[i], v[i]), n), 'lognormal mean')
