"""The Taylor expansion of the optimum: its derivatives are those of the optimum, its series is Taylor's."""
from sens import *
from prelude import raises

CASES_first = FORMS


def spec_first(form):
    """First derivative in every choice of coordinates."""
    t = Problem(*form)
    s = ms.ParametricSensitivityTaylorExpansion(t.fun, t.p, t.q, t.a0, t.b0, 1, **t.options())
    db = array('db', t.k)
    d1 = s.evaluate_dkinput_dhyperk(db, 1)
    check_eq(np.matmul(t.hess0(), d1), -np.matmul(t.cross0(), db), 'derivative of the optimum')
    check_eq(s.evaluate_taylor_series(db), t.a0 + d1, 'first-order series')
    check_eq(s.evaluate_taylor_series(db, add_offset=False), d1, 'series without the base point')
    t.at_base('parameters at the base values')


class Plain(object):
    """An objective of an unconstrained input, so that derivatives of high order stay small."""
    def __init__(self, n, k, part=False):
        self.n, self.k = n, k
        self.p, self.q = vb.VectorParam('p', size=n), vb.VectorParam('q', size=k)
        self.h, self.r = fun('h'), fun('r')
        self.a0, self.b0, self.db = array('a0', n), array('b0', k), array('db', k)
        self.H, self.L = pdmat('H', n)
        self.part = part

    def fun(self):
        if self.part:
            return self.h(self.p.get()) + self.r(self.p.get(), self.q.get())
        return self.h(self.p.get(), self.q.get())

    def fun_part(self):
        return self.r(self.p.get(), self.q.get())

    def value(self, a, b):
        if self.part:
            return self.h(a) + self.r(a, b)
        return self.h(a, b)

    def make(self, order, **kw):
        if self.part:
            kw['hyper_par_objective_functor'] = self.fun_part
        return ms.ParametricSensitivityTaylorExpansion(self.fun, self.p, self.q, self.a0, self.b0, order, hess0=self.H, **kw)

    def grad(self, a, b):
        return jac(lambda x: self.value(x, b), a)

    def rest(self, ds):
        """The k-th derivative of the gradient along the polynomial path with the derivatives ds."""
        def path(t):
            a, c = self.a0, 1.0
            for i, d in enumerate(ds):
                c = c / (i + 1)
                a = a + d * t ** (i + 1) * c
            return self.grad(a, self.b0 + t * self.db)
        F = path
        for i in range(len(ds) + 1):
            F = ddt(F)
        return F(0.0)


def ddt(F):
    return lambda t: jac(lambda s: F(s), t)


CASES_orders = [(2, 0, 0, False), (2, 0, 0, True), (3, 1, 1, False), (3, 1, 1, True)]
THOROUGH_orders = [(4, 1, 1, False)]


def spec_orders(case):
    """Each derivative solves the derivative of the optimality condition of its order."""
    order, n, k, part = case
    t = Plain(n or dim('n'), k or dim('k'), part)
    s = t.make(order)
    ds = []
    for k in range(1, order + 1):
        d = s.evaluate_dkinput_dhyperk(t.db, k)
        want = -t.rest(ds)
        check_eq(d, np.linalg.solve(t.H, want), 'derivative of the optimum of that order')
        ds.append(d)


def spec_series():
    t = Plain(1, 1)
    s = t.make(4)
    d = [s.evaluate_dkinput_dhyperk(t.db, k) for k in (1, 2, 3, 4)]
    check_eq(s.evaluate_taylor_series(t.db, max_order=1), t.a0 + d[0], 'series of order one')
    check_eq(s.evaluate_taylor_series(t.db, max_order=2), t.a0 + d[0] + d[1] / 2, 'series of order two')
    check_eq(s.evaluate_taylor_series(t.db, max_order=3), t.a0 + d[0] + d[1] / 2 + d[2] / 6, 'series of order three')
    full = d[0] + d[1] / 2 + d[2] / 6 + d[3] / 24
    check_eq(s.evaluate_taylor_series(t.db), t.a0 + full, 'all declared orders')
    check_eq(s.evaluate_taylor_series(t.db, add_offset=False), full, 'series without the base point')
    check_eq(s.evaluate_taylor_series(t.db, add_offset=False, max_order=2), d[0] + d[1] / 2, 'without the base point, order two')


def spec_refused():
    t = Plain(1, 1)
    s = t.make(2)
    check(raises(lambda: s.evaluate_dkinput_dhyperk(t.db, 0)), 'order zero is refused')
    check(raises(lambda: s.evaluate_dkinput_dhyperk(t.db, 3)), 'an order beyond the one declared is refused')
    check(raises(lambda: s.evaluate_taylor_series(t.db, max_order=0)), 'order zero is refused')
    check(raises(lambda: s.evaluate_taylor_series(t.db, max_order=3)), 'an order beyond the one declared is refused')
    s.evaluate_taylor_series(t.db, max_order=2)
    s.set_order(3)
    s.evaluate_taylor_series(t.db, max_order=3)
    check(raises(lambda: s.evaluate_taylor_series(t.db, max_order=4)), 'an order beyond the one declared is refused')
    two = s.evaluate_taylor_series(t.db, max_order=2)
    s.set_order(2)
    check(raises(lambda: s.evaluate_taylor_series(t.db, max_order=3)), 'an order lowered is the one declared')
    check(raises(lambda: s.evaluate_dkinput_dhyperk(t.db, 3)), 'an order lowered is the one declared')
    check_eq(s.evaluate_taylor_series(t.db), two, 'all declared orders are those of the order lowered')


def spec_elsewhere_refused():
    """The derivatives are those at the base point: asking for them elsewhere is refused, unless no tolerance is wanted."""
    n, k = dim('n'), dim('k')
    t = Plain(n, k)
    s = t.make(1)
    d = s.dkinput_dhyperk_list[0]
    off = (pos('off') + 1) * np.eye(n)[anyindex(n)]
    hoff = (pos('hoff') + 1) * np.eye(k)[anyindex(k)]
    check(raises(lambda: d(t.a0 + off, t.b0, t.db)), 'another input is refused')
    check(raises(lambda: d(t.a0 - off, t.b0, t.db)), 'another input is refused')
    check(raises(lambda: d(t.a0, t.b0 + hoff, t.db)), 'another hyperparameter is refused')
    check(raises(lambda: d(t.a0, t.b0 - hoff, t.db)), 'another hyperparameter is refused')
    check_eq(d(t.a0, t.b0, t.db), s.evaluate_dkinput_dhyperk(t.db, 1), 'the derivative at the base point')
    check_eq(d(t.a0 + off, t.b0, t.db, tolerance=None), s.evaluate_dkinput_dhyperk(t.db, 1), 'without a tolerance: at the base point')
