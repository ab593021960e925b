"""Minimisation hands the optimizer one function in one set of coordinates and maps its answer back."""
from objective import *
import scipy as sp
from LinearResponseVariationalBayes import OptimizationUtils as opt


class Optimizer(object):
    """Stands for scipy's minimize: records what it is given and returns an arbitrary point."""
    def __init__(self, size):
        self.x = array('xopt', size)
        self.calls = 0
        self.seen = None

    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(),
                 tol=None, callback=None, options=None):
        self.calls = self.calls + 1
        self.fun, self.x0, self.method, self.jac, self.hess, self.hessp = fun, x0, method, jac, hess, hessp
        self.tol, self.options, self.args = tol, options, args
        self.result = namespace(x=self.x, fun=real('fopt'), success=real('converged') > 0, status=natural('status'),
                                nit=natural('steps'), nfev=natural('evaluations'), message='finished')
        return self.result


def fresh():
    """A model without extra arguments (the optimizer gives none)."""
    m = Model()
    m.objective.fun = lambda: m.fun(m.w, c=m.c)
    m.opt = Optimizer(m.size)
    stub('sp.optimize.minimize', m.opt.minimize)
    return m


def run(m, how, init, **kw):
    if how == 'trust-ncg':
        return opt.minimize_objective_trust_ncg(m.objective, init, **kw)
    return opt.minimize_objective_bfgs(m.objective, init, **kw)


def coordinates(m, how, G, x0, inverse):
    """The optimizer works on G, from the point that stands for the caller's initial value."""
    z, v = array('z', m.size), array('v', m.size)
    o = m.opt
    check_eq(o.calls, 1, 'the optimizer runs once')
    check_eq(o.fun(z), G(z), 'the function minimised')
    check_eq(o.jac(z), jac(G, z), 'its gradient')
    if how == 'trust-ncg':
        check_eq(o.hessp(z, v), np.matmul(hess(G, z), v), 'its Hessian vector product')
    check_eq(inverse(o.x0), x0, 'the initial point')


CASES_plain = ['trust-ncg', 'BFGS']
CASES_conditioned = ['trust-ncg', 'BFGS']


def spec_plain(how):
    m = fresh()
    init = array('init', m.size)
    s = snapshot(init)
    x, r = run(m, how, init, precondition=False, disp=False)
    coordinates(m, how, m.free, init, lambda y: y)
    check_eq(x, m.opt.x, 'the optimum found is returned')
    check(same_object(r, m.opt.result), 'the result of the optimizer is returned')
    check_unchanged(init, s, 'the initial point is left alone')


def spec_conditioned(how):
    m = fresh()
    init = array('init', m.size)
    A = array('A', m.size, m.size)
    m.objective.preconditioner = A
    x, r = run(m, how, init, precondition=True, disp=False)
    coordinates(m, how, lambda y: m.free(np.matmul(A, y)), init, lambda y: np.matmul(A, y))
    check_eq(x, np.matmul(A, m.opt.x), 'the optimum is returned in the original coordinates')
    check(same_object(r, m.opt.result), 'the result of the optimizer is returned')


def spec_unconditioned_although_set(how):
    """A preconditioner that is set is not used unless asked for."""
    m = fresh()
    init = array('init', m.size)
    m.objective.preconditioner = array('A', m.size, m.size)
    x, r = run(m, how, init, precondition=False, disp=False)
    coordinates(m, how, m.free, init, lambda y: y)
    check_eq(x, m.opt.x, 'the optimum found is returned')


CASES_unconditioned_although_set = ['trust-ncg', 'BFGS']


def spec_unset(how):
    from prelude import raises
    m = fresh()
    check(raises(lambda: run(m, how, array('init', m.size), precondition=True)), 'without a preconditioner it is refused')


CASES_unset = ['trust-ncg', 'BFGS']
CASES_on = [('trust-ncg', True), ('trust-ncg', False), ('BFGS', True), ('BFGS', False)]
CASES_options = CASES_on


def spec_options(case):
    how, cond = case
    m = fresh()
    m.objective.preconditioner = np.eye(m.size)
    it = natural('it')
    g = pos('g')
    kw = dict(precondition=cond, maxiter=it, disp=False)
    if how == 'trust-ncg':
        kw['gtol'] = g
    run(m, how, array('init', m.size), **kw)
    check_eq(m.opt.options['maxiter'], it, 'iteration limit')
    check(m.opt.options['disp'] == False, 'quiet')
    check(m.opt.method.lower() == how.lower(), 'the method named')
    if how == 'trust-ncg':
        check_eq(m.opt.options['gtol'], g, 'gradient tolerance')


def spec_extreme_options(case):
    """Limits are handed over as they are given, whatever they are."""
    how, cond = case
    for it, g in [(0, 0.0), (1, '1e-12'), (100000, 10.0)]:
        m = fresh()
        m.objective.preconditioner = np.eye(m.size)
        g = float(g)
        if how == 'trust-ncg':
            run(m, how, array('init', m.size), precondition=cond, maxiter=it, gtol=g, disp=False)
            check(m.opt.options['gtol'] == g, 'gradient tolerance')
        else:
            run(m, how, array('init', m.size), precondition=cond, maxiter=it, disp=False)
        check(m.opt.options['maxiter'] == it, 'iteration limit')


CASES_extreme_options = CASES_on
CASES_logger = CASES_on


def spec_logger(case):
    """Evaluations are logged exactly when display is on, in a log that starts afresh unless told otherwise."""
    how, cond = case
    m = fresh()
    m.objective.preconditioner = np.eye(m.size)
    L = m.objective.logger
    got = []
    L.callback = lambda s: got.append(s.value)
    old = array('old', m.size)
    L.log(real('v'), old)
    run(m, how, array('init', m.size), precondition=cond, disp=True, init_logger=False, print_every=7)
    check_eq(L.print_every, 7, 'printing interval')
    check_eq(len(L.x_array), 1, 'the log is kept')
    z, y = array('z', m.size), array('y', m.size)
    m.opt.fun(z)
    m.opt.fun(y)
    check_eq(len(L.x_array), 3, 'every evaluation is logged')
    check_eq(L.val_array[1], m.free(z), 'first value logged')
    check_eq(L.x_array[1], z, 'first point logged')
    check_eq(L.val_array[2], m.free(y), 'second value logged')
    check_eq(L.x_array[2], y, 'second point logged')
    m.opt.jac(z)
    check_eq(len(L.x_array), 3, 'gradients are not logged')
    m.opt.calls = 0
    run(m, how, array('init', m.size), precondition=cond, disp=False)
    check_eq(len(L.x_array), 0, 'the log starts afresh')
    check_eq(L.print_every, 7, 'printing interval kept')
    m.opt.fun(z)
    check_eq(len(L.x_array), 0, 'quiet evaluations are not logged')
