"""Numerical expectations are the quadrature or sample averages of the integrands they name."""
import autograd.numpy as np
import math
from scipy.special import gammaln
from LinearResponseVariationalBayes import ExponentialFamilies as ef
from LinearResponseVariationalBayes import Modeling as modeling
from formulas import *

RPI = f_sqrt(math.pi)
R2 = f_sqrt(2)


def log_expit(x):
    return -f_log(1 + f_exp(-x))


def spec_quadrature_any_function():
    n, r, g = dim('n'), dim('r'), dim('g')
    mu, info = array('mu', n, r), posarray('info', n, r)
    x, w = array('x', g), array('w', g)

    def F(z):
        return gammaln(np.exp(z))
    check_eq(ef.get_e_fun_normal(mu, info, x, w, F), tabulate(lambda i, j: total(
        g, lambda q: w[q] * f_gammaln(f_exp(mu[i, j] + R2 * x[q] / f_sqrt(info[i, j])))) / RPI, n, r),
        'quadrature of a function of each normal')
    m, c = array('m', n), posarray('c', n)
    check_eq(ef.get_e_fun_normal(m, c, x, w, F), tabulate(lambda i: total(
        g, lambda q: w[q] * f_gammaln(f_exp(m[i] + R2 * x[q] / f_sqrt(c[i])))) / RPI, n),
        'quadrature of a function of each normal')


def spec_quadrature_dimensions():
    """Arrays of normals of three and four dimensions, and a single normal."""
    n, r, s, g = dim('n'), dim('r'), dim('s'), dim('g')
    x, w = array('x', g), array('w', g)

    def F(z):
        return gammaln(np.exp(z))

    def term(m, i):
        return total(g, lambda q: w[q] * f_gammaln(f_exp(m + R2 * x[q] / f_sqrt(i)))) / RPI
    mu, info = array('mu', n, r, s), posarray('info', n, r, s)
    check_eq(ef.get_e_fun_normal(mu, info, x, w, F),
             tabulate(lambda i, j, k: term(mu[i, j, k], info[i, j, k]), n, r, s), 'three dimensions')
    m4, i4 = array('m4', n, r, s, 2), posarray('i4', n, r, s, 2)
    check_eq(ef.get_e_fun_normal(m4, i4, x, w, F),
             tabulate(lambda i, j, k, l: term(m4[i, j, k, l], i4[i, j, k, l]), n, r, s, 2), 'four dimensions')


def gauss_hermite_2():
    return np.array([-f_sqrt(0.5), f_sqrt(0.5)]), np.array([RPI / 2, RPI / 2])


def gauss_hermite_3():
    return np.array([-f_sqrt(1.5), 0.0, f_sqrt(1.5)]), np.array([RPI / 6, 2 * RPI / 3, RPI / 6])


def spec_quadrature_exact_for_polynomials():
    n = dim('n')
    m, info = array('m', n), posarray('info', n)
    i = anyindex(n)
    v = 1 / info[i]
    x, w = gauss_hermite_2()
    check_eq(ef.get_e_fun_normal(m, info, x, w, lambda z: z ** 0)[i], 1.0, 'a constant')
    check_eq(ef.get_e_fun_normal(m, info, x, w, lambda z: z)[i], m[i], 'the mean')
    check_eq(ef.get_e_fun_normal(m, info, x, w, lambda z: z * z)[i], m[i] * m[i] + v, 'the second moment')
    x, w = gauss_hermite_3()
    check_eq(ef.get_e_fun_normal(m, info, x, w, lambda z: z * z * z * z)[i],
             m[i] * m[i] * m[i] * m[i] + 6 * m[i] * m[i] * v + 3 * v * v, 'the fourth moment')


def spec_logit_normal():
    n, g = dim('n'), dim('g')
    mu, info = array('mu', n), posarray('info', n)
    x, w = array('x', g), array('w', g)

    def at(i, q):
        return mu[i] + R2 * x[q] / f_sqrt(info[i])
    check_eq(ef.get_e_logitnormal(mu, info, x, w), tabulate(
        lambda i: total(g, lambda q: w[q] / (1 + f_exp(-at(i, q)))) / RPI, n), 'mean of the logit normal')
    e1, e2 = ef.get_e_log_logitnormal(mu, info, x, w)
    ref = tabulate(lambda i: total(g, lambda q: w[q] * log_expit(at(i, q))) / RPI, n)
    check_eq(e1, ref, 'mean of the logarithm')
    check_eq(e2, ref - mu, 'mean of the logarithm of the complement')
    al = pos('alpha')
    check_eq(ef.get_e_dp_prior_logitnorm_approx(al, mu, info, x, w), (al - 1) * (ref - mu), 'stick-breaking log prior')


def spec_logit_normal_complement():
    """With nodes and weights of a quadrature rule the two logarithms are those of v and 1 - v."""
    n = dim('n')
    mu, info = array('mu', n), posarray('info', n)
    x, w = gauss_hermite_3()
    e1, e2 = ef.get_e_log_logitnormal(mu, info, x, w)
    d1, d2 = ef.get_e_log_logitnormal(-mu, info, x, w)
    check_eq(e2, d1, 'log(1 - v) is the logarithm of the mirrored variable')
    check_eq(e1, d2, 'log(v) is the complement of the mirrored variable')


def spec_logit_normal_tails():
    """Far in either tail the logarithms keep their limits."""
    n, g = dim('n'), dim('g')
    mu, info = array('mu', n), 1 + posarray('info', n)
    x, w = array('x', g), array('w', g)
    for shift in [-300.0, -60.0, 60.0]:
        e1, e2 = ef.get_e_log_logitnormal(mu + shift, info, x, w)
        ref = tabulate(lambda i: total(g, lambda q: w[q] * log_expit(shift + mu[i] + R2 * x[q] / f_sqrt(info[i]))) / RPI, n)
        check_eq(e1, ref, 'mean of the logarithm')
        check_eq(e2, ref - mu - shift, 'mean of the logarithm of the complement')


CASES_logit_normal_shoulder = [-14.0, -11.0, -8.0, -5.0]


def spec_logit_normal_shoulder(shift):
    """Where the logarithm is nearly linear, what is left beyond the linear part is right to its own scale."""
    n, g = dim('n'), dim('g')
    mu, info = array('mu', n), 1 + posarray('info', n)
    x, w = array('x', g), posarray('w', g)
    e1, e2 = ef.get_e_log_logitnormal(mu + shift, info, x, w)

    def z(i, q):
        return shift + mu[i] + R2 * x[q] / f_sqrt(info[i])
    linear = tabulate(lambda i: total(g, lambda q: w[q] * z(i, q)) / RPI, n)
    rest = tabulate(lambda i: total(g, lambda q: -w[q] * f_log(1 + f_exp(z(i, q)))) / RPI, n)
    check_eq(np.exp(-shift) * (e1 - linear), np.exp(-shift) * rest, 'mean of the logarithm beyond its linear part')


def spec_logistic_sampled():
    n, r, g = dim('n'), dim('r'), dim('g')
    y, z, sd, x = array('y', n), array('z', n), posarray('sd', n), array('x', g)
    check_eq(modeling.get_e_logistic_term(y, z, sd, x), total(n, lambda i: y[i] * z[i] - total(
        g, lambda q: f_log(1 + f_exp(z[i] + sd[i] * x[q]))) / g), 'sampled expected logistic log likelihood')
    Y, Z, SD = array('Y', n, r), array('Z', n, r), posarray('SD', n, r)
    check_eq(modeling.get_e_logistic_term(Y, Z, SD, x), total(n, lambda i: total(r, lambda j: Y[i, j] * Z[i, j] - total(
        g, lambda q: f_log(1 + f_exp(Z[i, j] + SD[i, j] * x[q]))) / g)), 'sampled expected logistic log likelihood')


def spec_logistic_quadrature():
    n, r, g = dim('n'), dim('r'), dim('g')
    z, sd = array('z', n, r), posarray('sd', n, r)
    x, w = array('x', g), array('w', g)

    def term(i, j):
        return total(g, lambda q: w[q] * f_log(1 + f_exp(z[i, j] + R2 * sd[i, j] * x[q]))) / RPI
    check_eq(modeling.get_e_logistic_term_guass_hermite(z, sd, x, w, aggregate_all=False), tabulate(term, n, r),
             'quadrature of each term')
    check_eq(modeling.get_e_logistic_term_guass_hermite(z, sd, x, w), total(n, lambda i: total(r, lambda j: term(i, j))),
             'quadrature of all terms')


def spec_standard_draws():
    from scipy.stats import norm
    n = dim('n')
    d = modeling.get_standard_draws(n)
    check(shape_eq(d, n), 'as many draws as asked for')
    i = anyindex(n)
    check_eq(d[i], norm.ppf((i + 1) / (n + 1)), 'evenly spaced quantiles')
    check_eq(d[i], -d[n - 1 - i], 'symmetric draws')
