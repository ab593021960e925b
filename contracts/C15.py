"""Log densities, expected log priors and natural parameters are those of the named model, up to its constants."""
import autograd.numpy as np
from LinearResponseVariationalBayes import ExponentialFamilies as ef
from LinearResponseVariationalBayes import Modeling as modeling
from LinearResponseVariationalBayes import regression_utils as reg
from formulas import *
from prelude import raises


def spec_normal_log_density():
    u, m, info = real('u'), real('m'), pos('info')
    check_eq(modeling.univariate_normal_log_prob(u, m, info), 0.5 * f_log(info) - 0.5 * LOG2PI - 0.5 * info * (u - m) * (u - m),
             'log density of the normal')
    n = dim('n')
    U, M, I = array('U', n), array('M', n), posarray('I', n)
    check_eq(modeling.univariate_normal_log_prob(U, M, I), tabulate(
        lambda i: 0.5 * f_log(I[i]) - 0.5 * LOG2PI - 0.5 * I[i] * (U[i] - M[i]) * (U[i] - M[i]), n), 'log densities')


def spec_normal_priors():
    m, info, e, v = real('m'), pos('info'), real('e'), pos('v')
    # E[-(x - m)^2 info / 2] for x with mean e and variance v
    check_eq(ef.uvn_prior(m, info, e, v), -0.5 * info * (e * e + v - 2 * e * m + m * m), 'expected normal log prior')
    d = dim('d')
    M, E = array('M', d), array('E', d)
    A, L = pdmat('A', d)
    C, K = pdmat('C', d)
    check_eq(ef.mvn_prior(M, A, E, C), -0.5 * total(d, lambda i: total(
        d, lambda j: A[i, j] * (C[i, j] + (E[i] - M[i]) * (E[j] - M[j])))), 'expected multivariate normal log prior')


def spec_other_priors():
    a, b, e, l = pos('a'), pos('b'), real('e'), real('l')
    check_eq(ef.gamma_prior(a, b, e, l), (a - 1) * l - b * e, 'expected gamma log prior')
    check_eq(ef.exponential_prior(b, e), -b * e, 'expected exponential log prior')
    k = dim('k')
    al, x = posarray('al', k), array('x', k)
    check_eq(ef.dirichlet_prior(al, x), total(k, lambda i: (al[i] - 1) * x[i]), 'expected Dirichlet log prior')
    check(raises(lambda: ef.dirichlet_prior(al, array('y', k + 1))), 'a Dirichlet prior of another size is refused')
    d = dim('d')
    V, L = pdmat('V', d)
    W = np.linalg.inv(V)
    df = d - 1 + pos('df')
    lk = real('lkj')
    check_eq(ef.expected_ljk_prior(lk, df, V), (lk - 1) * (-wishart_e_log_det(df, V, d) - total(
        d, lambda i: inverse_wishart_e_log_diag(df, W[i, i], d))), 'expected LKJ log prior')


def spec_natural_parameters():
    m, info, x = real('m'), pos('info'), real('x')
    mean, inf = ef.get_uvn_from_natural_parameters(info * m, -0.5 * info)
    check_eq(mean, m, 'mean from the natural parameters')
    check_eq(inf, info, 'information from the natural parameters')


def spec_mat_mul():
    n, s, r, t = dim('n'), dim('s'), dim('r'), dim('t')
    A, B = array('A', n, s, r), array('B', n, s, t)
    check_eq(reg.mat_mul_last2dims(A, B), tabulate(lambda i, j, k: total(s, lambda q: A[i, q, j] * B[i, q, k]), n, r, t),
             'transposed product of each pair of matrices')
    C, D = array('C', s, r), array('D', s, t)
    check_eq(reg.mat_mul_last2dims(C, D), np.matmul(C.T, D), 'transposed product of a pair')
    y = array('y', n, s)
    check_eq(reg.matvec_mul_last2dims(A, y), tabulate(lambda i, j: total(s, lambda q: A[i, q, j] * y[i, q]), n, r),
             'transposed product of each matrix and vector')
    check_eq(reg.matvec_mul_last2dims(C, y), tabulate(lambda j: total(n, lambda i: total(s, lambda q: C[q, j] * y[i, q])), r),
             'extra dimensions of the vector are summed over')
    z = array('z', s)
    check_eq(reg.matvec_mul_last2dims(C, z), np.matmul(C.T, z), 'transposed product of a matrix and vector')
    y3 = array('y3', n, t, s)
    check_eq(reg.matvec_mul_last2dims(A, y3), tabulate(
        lambda i, j: total(t, lambda l: total(s, lambda q: A[i, q, j] * y3[i, l, q])), n, r),
        'extra dimensions of the vector are summed over')


def spec_likelihood_natural_parameters():
    s, r, n = dim('s'), dim('r'), dim('n')
    X, Y = array('X', s, r), array('Y', s)
    c = pos('c')
    n1, n2 = reg.get_nat_params_from_likelihood(Y, X, c)
    check_eq(n1, c * np.matmul(X.T, Y), 'linear term, common variance')
    check_eq(n2, -0.5 * c * np.matmul(X.T, X), 'quadratic term, common variance')
    S = symarray('S', s, s)
    n1, n2 = reg.get_nat_params_from_likelihood(Y, X, S)
    check_eq(n1, np.matmul(X.T, np.matmul(S, Y)), 'linear term')
    check_eq(n2, -0.5 * np.matmul(X.T, np.matmul(S, X)), 'quadratic term')
    YY = array('YY', n, s)
    n1, n2 = reg.get_nat_params_from_likelihood(YY, X, S)
    check_eq(n1, tabulate(lambda j: total(n, lambda i: np.matmul(X.T, np.matmul(S, YY[i]))[j]), r), 'linear term, repeated')
    check_eq(n2, -0.5 * n * np.matmul(X.T, np.matmul(S, X)), 'quadratic term, repeated')
    XX = array('XX', n, s, r)
    n1, n2 = reg.get_nat_params_from_likelihood(YY, XX, c)
    check_eq(n1, tabulate(lambda i, j: total(s, lambda q: c * XX[i, q, j] * YY[i, q]), n, r), 'linear term of each')
    check_eq(n2, tabulate(lambda i, j, k: -0.5 * c * total(s, lambda q: XX[i, q, j] * XX[i, q, k]), n, r, r),
             'quadratic term of each')


def spec_prior_natural_parameters():
    r, n = dim('r'), dim('n')
    M = array('M', r)
    S = symarray('S', r, r)
    n1, n2 = reg.get_nat_params_from_prior(M, S)
    check_eq(n1, np.matmul(S, M), 'linear term')
    check_eq(n2, -0.5 * S, 'quadratic term')
    MM = array('MM', n, r)
    B = array('B', n, r, r)
    SS = tabulate(lambda i, j, k: B[i, j, k] + B[i, k, j], n, r, r)
    n1, n2 = reg.get_nat_params_from_prior(MM, SS)
    check_eq(n1, tabulate(lambda i, j: total(r, lambda k: SS[i, j, k] * MM[i, k]), n, r), 'linear term of each')
    check_eq(n2, -0.5 * SS, 'quadratic term of each')


def spec_posterior():
    s, r = dim('s'), dim('r')
    X, Y = array('X', s, r), array('Y', s)
    S, LS = pdmat('S', s)
    M = array('M', r)
    P, LP = pdmat('P', r)
    mean, info = reg.get_posterior_regression_coefficients(Y, X, S, M, P)
    F = np.matmul(X.T, np.matmul(S, X)) + P
    check_eq(info, F, 'posterior information')
    check_eq(np.matmul(F, mean), np.matmul(X.T, np.matmul(S, Y)) + np.matmul(P, M), 'posterior mean')


def spec_coefficients():
    r = dim('r')
    X, LX = pdmat('X', r)
    Y = array('Y', r)
    c = pos('c')
    b = reg.get_regression_coefficients(Y, X, c)
    check_eq(np.matmul(X, b), Y, 'least squares on an invertible design')
    A, L = pdmat('A', r)
    z = array('z', r)
    m, i = reg.get_mvn_from_nat_params(z, -0.5 * A)
    check_eq(i, A, 'information from the natural parameters')
    check_eq(np.matmul(A, m), z, 'mean from the natural parameters')


# (dimensions in front of the matrices, further repeated dimensions of the observations)
RANKS = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1)]
CASES_ranks = RANKS


class Ranks(object):
    def __init__(self, rank):
        a, b = rank
        self.s, self.r = dim('s'), dim('r')
        self.front = tuple([dim('m%d' % i) for i in range(a)])
        self.extra = tuple([dim('k%d' % i) for i in range(b)])
        self.X = array('X', *(self.front + (self.s, self.r)))
        self.Y = array('Y', *(self.front + self.extra + (self.s,)))

    def each(self, f, *more):
        """Array of f(index in front) with the dimensions named."""
        a = len(self.front)
        return tabulate(lambda *i: f(i[:a], *i[a:]), *(self.front + more))

    def repeats(self, f):
        """Sum of f over the repeated dimensions."""
        if len(self.extra) == 0:
            return f(())
        if len(self.extra) == 1:
            return total(self.extra[0], lambda p: f((p,)))
        return total(self.extra[0], lambda p: total(self.extra[1], lambda q: f((p, q))))

    def count(self):
        n = 1
        for k in self.extra:
            n = n * k
        return n


def spec_ranks(rank):
    """Any number of groups, each with its own design, and any number of repeats of the observations."""
    t = Ranks(rank)
    s, r, X, Y = t.s, t.r, t.X, t.Y
    xy = t.each(lambda i, j: t.repeats(lambda e: total(s, lambda q: X[i + (q, j)] * Y[i + e + (q,)])), r)
    check_eq(reg.matvec_mul_last2dims(X, Y), xy, 'transposed product summed over the repeats')
    xx = t.each(lambda i, j, k: total(s, lambda q: X[i + (q, j)] * X[i + (q, k)]), r, r)
    check_eq(reg.mat_mul_last2dims(X, X), xx, 'transposed product of each pair')
    c = pos('c')
    n1, n2 = reg.get_nat_params_from_likelihood(Y, X, c)
    check_eq(n1, c * xy, 'linear term, common variance')
    check_eq(n2, -0.5 * c * t.count() * xx, 'quadratic term, common variance')
    B = array('B', *(t.front + (s, s)))
    S = B + np.swapaxes(B, -1, -2)
    n1, n2 = reg.get_nat_params_from_likelihood(Y, X, S)

    def sx(i, q, j):
        return total(s, lambda p: S[i + (q, p)] * X[i + (p, j)])
    check_eq(n1, t.each(lambda i, j: t.repeats(lambda e: total(s, lambda q: sx(i, q, j) * Y[i + e + (q,)])), r), 'linear term')
    check_eq(n2, t.each(lambda i, j, k: -0.5 * t.count() * total(s, lambda q: X[i + (q, j)] * sx(i, q, k)), r, r),
             'quadratic term')


CASES_prior_ranks = [0, 1, 2]


def spec_prior_ranks(a):
    r = dim('r')
    front = tuple([dim('m%d' % i) for i in range(a)])
    M = array('M', *(front + (r,)))
    B = array('B', *(front + (r, r)))
    S = B + np.swapaxes(B, -1, -2)
    n1, n2 = reg.get_nat_params_from_prior(M, S)
    check_eq(n1, tabulate(lambda *i: total(r, lambda k: S[i[:a] + (i[a], k)] * M[i[:a] + (k,)]), *(front + (r,))), 'linear term')
    check_eq(n2, -0.5 * S, 'quadratic term')


def spec_groups():
    """Each group of observations gets the coefficients and posterior of its own data."""
    n, s, r = dim('n'), dim('s'), dim('r')
    X, Y = array('X', n, s, r), array('Y', n, s)
    c = pos('c')
    M = array('M', n, r)
    G = array('G', n, r, r)
    P = np.matmul(G, np.swapaxes(G, -1, -2)) + np.eye(r)
    i = anyindex(n)
    C = tabulate(lambda k, a, b: c if a == b else 0.0, n, s, s)
    mean, info = reg.get_posterior_regression_coefficients(Y, X, C, M, P)
    F = c * np.matmul(X[i].T, X[i]) + P[i]
    check_eq(info[i], F, 'posterior information of a group')
    check_eq(np.matmul(F, mean[i]), c * np.matmul(X[i].T, Y[i]) + np.matmul(P[i], M[i]), 'posterior mean of a group')


def spec_mismatched():
    """Observations, designs and priors of sizes that do not fit are refused."""
    s, r, k = dim('s'), dim('r'), dim('k')
    assume(k != s)
    X, Y = array('X', s, r), array('Y', k)
    c = pos('c')
    check(raises(lambda: reg.get_nat_params_from_likelihood(Y, X, c)), 'observations of another size')
    check(raises(lambda: reg.matvec_mul_last2dims(X, Y)), 'a vector of another size')
    check(raises(lambda: reg.mat_mul_last2dims(X, array('Z', k, r))), 'a matrix of another size')
    check(raises(lambda: reg.get_nat_params_from_likelihood(array('Y1', s), X, array('S', k, k))), 'information of another size')
    check(raises(lambda: reg.get_nat_params_from_likelihood(array('Y1', s), X, array('S2', s, k))), 'information that is not square')
    check(raises(lambda: reg.get_nat_params_from_prior(array('M', k), array('P', s, s))), 'a prior mean of another size')
    check(raises(lambda: reg.get_nat_params_from_prior(array('M2', s), array('P2', s, k))), 'a prior information that is not square')
    check(raises(lambda: reg.get_nat_params_from_likelihood(array('Y1', s), array('X3', 2, s, r), c)),
          'fewer groups of observations than designs')
