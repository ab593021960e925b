"""Textbook formulas, written entry by entry (interpreted, never executed)."""
import math
PI = math.pi
LOG2PI = f_log(2 * math.pi)


def normal_entropy(info):
    return 0.5 * (1 + LOG2PI - f_log(info))


def lognormal_mean(m, v):
    return f_exp(m + v / 2)


def lognormal_var(m, v):
    return (f_exp(v) - 1) * f_exp(2 * m + v)


def gamma_entropy(a, b):
    return a - f_log(b) + f_gammaln(a) + (1 - a) * f_digamma(a)


def dirichlet_entropy(k, a):
    """a: index -> concentration."""
    s = total(k, a)
    return total(k, lambda i: f_gammaln(a(i))) - f_gammaln(s) + (s - k) * f_digamma(s) - \
        total(k, lambda i: (a(i) - 1) * f_digamma(a(i)))


def beta_entropy(a, b):
    return f_gammaln(a) + f_gammaln(b) - f_gammaln(a + b) - (a - 1) * f_digamma(a) - (b - 1) * f_digamma(b) + \
        (a + b - 2) * f_digamma(a + b)


def multigammaln(x, k):
    return 0.25 * k * (k - 1) * f_log(PI) + total(k, lambda j: f_gammaln(x - 0.5 * j))


def multidigamma(x, k):
    return total(k, lambda j: f_digamma(x - 0.5 * j))


def wishart_entropy(df, v, k):
    return 0.5 * (k + 1) * f_logdet(v) + 0.5 * k * (k + 1) * f_log(2) + multigammaln(0.5 * df, k) - \
        0.5 * (df - k - 1) * multidigamma(0.5 * df, k) + 0.5 * k * df


def wishart_e_log_det(df, v, k):
    return multidigamma(0.5 * df, k) + k * f_log(2) + f_logdet(v)


def inverse_wishart_e_log_diag(df, vinv_ii, k):
    return f_log(vinv_ii) - f_digamma(0.5 * (df - k + 1)) - f_log(2)
