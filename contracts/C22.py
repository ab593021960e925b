"""Derivative terms: differentiating, combining and summing terms is the calculus they stand for."""
import autograd.numpy as np
from LinearResponseVariationalBayes import ModelSensitivity as ms
from prelude import raises


def along(F, x, v):
    return np.matmul(jac(F, x), v)


class Path(object):
    """g(eta(eps), eps) along eps0 + t deps, with eta an arbitrary smooth function of eps."""
    def __init__(self, order):
        self.n, self.k, self.d = dim('n'), dim('k'), dim('d')
        self.g = fun('g', self.d)
        self.eta = fun('eta', self.n)
        self.eps0, self.deps = array('eps0', self.k), array('deps', self.k)
        self.eta0 = self.eta(self.eps0)
        self.D = ms.generate_two_term_derivative_array(self.g, order)

    def point(self, t):
        return self.eps0 + t * self.deps

    def eta_deriv(self, q):
        """q-th derivative of eta along the path, as a function of eps."""
        F = self.eta
        for r in range(q):
            F = directional(F, self.deps)
        return F

    def eta_derivs(self, q):
        return [evaluator(self.eta_deriv(r + 1)) for r in range(q)]

    def along_path(self, fn):
        """Derivative along the path of a function of eps."""
        return along(fn, self.eps0, self.deps)


def directional(F, v):
    return lambda e: along(F, e, v)


def evaluator(F):
    return lambda eta0, eps0, deps: F(eps0)


def term(P, eps_order, eta_orders, prefactor=1.0):
    q = eps_order + sum([(i + 1) * m for i, m in enumerate(eta_orders)])
    return ms.DerivativeTerm(eps_order=eps_order, eta_orders=eta_orders, prefactor=prefactor,
                             eval_eta_derivs=P.eta_derivs(q - 1 if q > 0 else 0), eval_g_derivs=P.D)


def meaning(P, eps_order, eta_orders, prefactor):
    """The term as a function of eps: its derivative of g at (eta(eps), eps) in the directions it lists."""
    def F(e):
        vs = []
        for i, m in enumerate(eta_orders):
            for r in range(m):
                vs.append(P.eta_deriv(i + 1)(e))
        G = P.g
        for v in vs:
            G = first(G, v)
        for r in range(eps_order):
            G = second(G, P.deps)
        return prefactor * G(P.eta(e), e)
    return F


def first(F, v):
    return lambda x, y: along(lambda a: F(a, y), x, v)


def second(F, w):
    return lambda x, y: along(lambda b: F(x, b), y, w)


# terms with eta_orders[-1] == 0 evaluate without the highest derivative of eta
PATTERNS = [(1, 0), (2, 0, 0), (1, 1, 0), (0, 2, 0), (3, 0, 0, 0), (2, 1, 0, 0), (1, 0, 1, 0), (1, 2, 0, 0), (0, 1, 1, 0), (0, 3, 0, 0)]
CASES_evaluate = PATTERNS


def spec_evaluate(pattern):
    eps_order, eta_orders = pattern[0], list(pattern[1:])
    P = Path(sum(eta_orders) + eps_order + 2 if len(eta_orders) < 3 else 4)
    c = real('c')
    t = term(P, eps_order, eta_orders, c)
    check_eq(t.order, len(eta_orders), 'order')
    check_eq(t.evaluate(P.eta0, P.eps0, P.deps), meaning(P, eps_order, eta_orders, c)(P.eps0), 'value of a term')


# (number of epsilon derivatives, number of factors of each derivative of eta ...)
DIFF = [(1, 0), (0, 1), (2, 0, 0), (1, 1, 0), (0, 0, 1), (0, 2, 0)]
CASES_differentiate = DIFF


def spec_differentiate(pattern):
    eps_order, eta_orders = pattern[0], list(pattern[1:])
    q = len(eta_orders)
    P = Path(q + 2)
    c = real('c')
    t = term(P, eps_order, eta_orders, c)
    new = t.differentiate(evaluator(P.eta_deriv(q)))
    extra = evaluator(P.eta_deriv(q + 1))
    for s in new:
        check_eq(s.order, q + 1, 'the order goes up by one')
        s.eval_eta_derivs = s.eval_eta_derivs + [extra]
    check_eq(ms.evaluate_terms(new, P.eta0, P.eps0, P.deps),
             P.along_path(meaning(P, eps_order, eta_orders, c)), 'differentiating a term is the product rule')
    check(t.eta_orders == eta_orders, 'the term differentiated is unchanged')
    check(t.eps_order == eps_order, 'the term differentiated is unchanged')


def partitions(q, top):
    """All ways to write q as a sum of parts up to top, as counts of each part."""
    if top == 0:
        return [()] if q == 0 else []
    return [rest + (m,) for m in range(q // top + 1) for rest in partitions(q - m * top, top - 1)]


def all_patterns(q):
    """Every term of order q: epsilon derivatives and the number of factors of each derivative of eta."""
    return [(e,) + p + (0,) * e for e in range(q + 1) for p in partitions(q - e, q - e)]


CASES_product_rule = [p for q in range(1, 7) for p in all_patterns(q)] + [(0, 7) + (0,) * 6, (0, 0, 4) + (0,) * 6, (8,) + (0,) * 8]
THOROUGH_product_rule = [p for q in range(7, 10) for p in all_patterns(q)]


def spec_product_rule(pattern):
    """The terms of the derivative and their prefactors, at high orders and multiplicities."""
    eps_order, eta_orders = pattern[0], list(pattern[1:])
    q = len(eta_orders)
    c = real('c')
    D = [[(lambda eta, eps, *v: 0.0) for j in range(q + 2)] for i in range(q + 2)]
    E = [(lambda eta, eps, deps: 0.0) for i in range(q)]
    t = ms.DerivativeTerm(eps_order, eta_orders, c, E[:-1], D)
    new = t.differentiate(E[-1])
    want = [((eps_order + 1,) + pattern[1:] + (0,), c), ((eps_order, eta_orders[0] + 1) + pattern[2:] + (0,), c)]
    for i, m in enumerate(eta_orders):
        if m > 0:
            o = eta_orders + [0]
            o[i] = o[i] - 1
            o[i + 1] = o[i + 1] + 1
            want.append(((eps_order,) + tuple(o), m * c))
    for key, w in want:
        have = 0
        for s in new:
            if (s.eps_order,) + tuple(s.eta_orders) == key:
                have = have + s.prefactor
        check_eq(have, w, 'prefactor of each term of the product rule')
    for s in new:
        if (s.eps_order,) + tuple(s.eta_orders) not in [k for k, _ in want]:
            check_eq(s.prefactor, 0, 'no other terms')


CASES_similarity = [1, 2, 3, 4, 5, 6]
THOROUGH_similarity = [7, 8]


def spec_similarity(q):
    """Two terms are alike when, and only when, every order agrees; consolidating a list keeps every pattern and its sum."""
    c = [real('c%d' % i) for i in range(3)]
    D = [[(lambda eta, eps, *v: 0.0) for j in range(q + 2)] for i in range(q + 2)]
    E = [(lambda eta, eps, deps: 0.0) for i in range(q)]
    patterns = all_patterns(q)
    terms = [ms.DerivativeTerm(p[0], list(p[1:]), c[i % 3], E, D) for i, p in enumerate(patterns)]
    for i, s in enumerate(terms):
        for j, t in enumerate(terms):
            check(bool(s.check_similarity(t)) == (i == j), 'alike only if all orders agree')
    for e in range(q + 1):
        alike = [(p, t) for p, t in zip(patterns, terms) if p[0] == e]
        again = [ms.DerivativeTerm(e, list(p[1:]), c[0], E, D) for p, _ in alike]
        new = ms.consolidate_terms([t for _, t in alike] + again[::-1])
        for p, t in alike:
            have = 0
            for s in new:
                if (s.eps_order,) + tuple(s.eta_orders) == p:
                    have = have + s.prefactor
            check_eq(have, t.prefactor + c[0], 'the sum of the prefactors of each pattern')


def spec_combine():
    """Terms with the same pattern add; others are refused."""
    P = Path(4)
    c, b = real('c'), real('b')
    s, t, u, w = term(P, 1, [1, 0], c), term(P, 1, [1, 0], b), term(P, 2, [0, 0], b), term(P, 0, [2, 0], b)
    check(s.check_similarity(t), 'same pattern')
    check(not s.check_similarity(u), 'different patterns')
    check(not s.check_similarity(w), 'different patterns')
    check(raises(lambda: s.combine_with(u)), 'terms of different patterns are not combined')
    check(raises(lambda: w.combine_with(s)), 'terms of different patterns are not combined')
    r = s.combine_with(t)
    check_eq(r.evaluate(P.eta0, P.eps0, P.deps), meaning(P, 1, [1, 0], c + b)(P.eps0), 'sum of the two terms')
    check_eq(s.evaluate(P.eta0, P.eps0, P.deps), meaning(P, 1, [1, 0], c)(P.eps0), 'the terms combined are unchanged')
    check_eq(t.evaluate(P.eta0, P.eps0, P.deps), meaning(P, 1, [1, 0], b)(P.eps0), 'the terms combined are unchanged')


CASES_consolidate = ['aa', 'ab', 'ba', 'aab', 'aba', 'baa', 'abab', 'aabb', 'abba', 'abca', 'cabab', 'aaaa']


def spec_consolidate(word):
    """Consolidating keeps the sum, whatever terms repeat and in whatever order."""
    P = Path(4)
    kinds = {'a': (1, [1, 0]), 'b': (2, [0, 0]), 'c': (0, [2, 0])}
    terms = []
    want = 0
    for i, ch in enumerate(word):
        c = real('c%d' % i)
        eps_order, eta_orders = kinds[ch]
        terms.append(term(P, eps_order, eta_orders, c))
        want = want + meaning(P, eps_order, eta_orders, c)(P.eps0)
    new = ms.consolidate_terms(terms)
    check(len(new) <= len(terms), 'no more terms than before')
    check_eq(ms.evaluate_terms(new, P.eta0, P.eps0, P.deps), want, 'same sum')
    check_eq(ms.evaluate_terms(terms, P.eta0, P.eps0, P.deps), want, 'sum of the terms')


def spec_highest_order():
    """The highest derivative of eta is left out only on request."""
    P = Path(3)
    terms = [term(P, 1, [1, 0], 2.0), term(P, 0, [0, 1], 1.0), term(P, 2, [0, 0], 1.0)]
    for t in terms:
        t.eval_eta_derivs = P.eta_derivs(2)
    a = meaning(P, 1, [1, 0], 2.0)(P.eps0)
    b = meaning(P, 0, [0, 1], 1.0)(P.eps0)
    c = meaning(P, 2, [0, 0], 1.0)(P.eps0)
    check_eq(ms.evaluate_terms(terms, P.eta0, P.eps0, P.deps), a + b + c, 'all terms')
    check_eq(ms.evaluate_terms(terms, P.eta0, P.eps0, P.deps, include_highest_eta_order=False), a + c, 'without the highest')


def spec_base_terms():
    P = Path(3)
    base = ms.get_taylor_base_terms(P.D)
    for t in base:
        t.eval_eta_derivs = P.eta_derivs(1)
    check_eq(ms.evaluate_terms(base, P.eta0, P.eps0, P.deps), P.along_path(lambda e: P.g(P.eta(e), e)),
             'the first derivative of g along the path')


def spec_solve():
    """The next derivative of eta solves the linear system, and differentiating a list of terms keeps the sum."""
    n, k = dim('n'), dim('k')
    g = fun('g', n)
    eta0, eps0, deps = array('eta0', n), array('eps0', k), array('deps', k)
    H, L = pdmat('H', n)
    D = ms.generate_two_term_derivative_array(g, 3)
    base = ms.get_taylor_base_terms(D)
    d1 = ms.evaluate_dketa_depsk(H, base, eta0, eps0, deps)
    g_eps = np.matmul(jac(lambda b: g(eta0, b), eps0), deps)
    check_eq(np.matmul(H, d1), -g_eps, 'first derivative of eta')
    second = ms.differentiate_terms(H, base)
    d2 = ms.evaluate_dketa_depsk(H, second, eta0, eps0, deps)

    # second derivative of g along eta0 + t d1, eps0 + t deps
    def line(t):
        return g(eta0 + t * d1, eps0 + t * deps)
    z = array('z', 1)
    rhs = tabulate(lambda i: hess(lambda t: line(t[0])[i], np.zeros(1))[0, 0], n)
    check_eq(np.matmul(H, d2), -rhs, 'second derivative of eta')
