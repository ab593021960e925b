"""Repeated optimisation restarts from the last optimum until the stated tolerances are met."""
import autograd.numpy as np
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as obj_lib
from LinearResponseVariationalBayes import OptimizationUtils as opt


class Repeat(object):
    """An optimizer that returns an arbitrary point at every call, and an arbitrary objective."""
    def __init__(self):
        self.n = dim('n')
        self.h = fun('h')
        self.p = vb.VectorParam('p', size=self.n)
        self.o = obj_lib.Objective(self.p, lambda: self.h(self.p.get()))
        self.starts, self.results = [], []
        self.init_starts = []

    def found(self, i):
        return array('found%d' % i, self.n)

    def optimize(self, x):
        i = len(self.starts)
        self.starts.append(x)
        r = namespace(i=i)
        self.results.append(r)
        return self.found(i), r

    def first(self, x):
        self.init_starts.append(x)
        self.init_result = namespace(i=-1)
        return array('xi', self.n), self.init_result

    def tests(self, old, new, xtol, ftol, gtol):
        """The three criteria for a step from old to new."""
        a = np.sum(np.abs(new - old)) < xtol
        b = np.abs(self.h(new) - self.h(old)) < ftol
        c = np.sum(np.abs(jac(self.h, new))) < gtol
        return a, b, c


def either(a, b, c):
    return a or b or c


def same(a, b, msg):
    check(bool(a) == bool(b), msg)


CASES_steps = [1, 2, 3]


def spec_steps(limit):
    steps(limit, False)


CASES_steps_kept = [1, 2]


def spec_steps_kept(limit):
    """Keeping the intermediate results changes nothing else."""
    steps(limit, True)


def steps(limit, keep):
    t = Repeat()
    xtol, ftol, gtol = pos('xtol'), pos('ftol'), pos('gtol')
    x0 = array('x0', t.n)
    s = snapshot(x0)
    x, conv, xc, fc, gc, r, kept = opt.repeatedly_optimize(t.o, t.optimize, x0, max_iter=limit, xtol=xtol, ftol=ftol, gtol=gtol,
                                                              keep_intermediate_optimizations=keep)
    check_unchanged(x0, s, 'the initial point is left alone')
    check_eq(len(kept), len(t.starts) if keep else 0, 'intermediate results are kept if, and only if, asked for')
    check_eq(t.starts[0], x0, 'the first optimisation starts at the initial point')
    prev = x0
    done = False
    for i in range(limit):
        if not done:
            check(len(t.starts) > i, 'it goes on while nothing has converged')
            if i > 0:
                check_eq(t.starts[i], t.found(i - 1), 'each optimisation starts at the last optimum')
            new = t.found(i)
            a, b, c = t.tests(prev, new, xtol, ftol, gtol)
            done = either(a, b, c)
            if done or i == limit - 1:
                check_eq(len(t.starts), i + 1, 'it stops as soon as one criterion holds')
                check_eq(x, new, 'the last optimum is returned')
                same(xc, a, 'change of the point')
                same(fc, b, 'change of the value')
                same(gc, c, 'size of the gradient')
                same(conv, done, 'converged if any criterion holds')
                check_eq(r.i, i, 'the last result is returned')
            prev = new


def spec_initial():
    """An initial optimisation runs once, first, and the others start from its answer."""
    t = Repeat()
    x0 = array('x0', t.n)
    x, conv, xc, fc, gc, r, kept = opt.repeatedly_optimize(
        t.o, t.optimize, x0, initial_optimization_fun=t.first, max_iter=1, keep_intermediate_optimizations=True)
    check_eq(len(t.init_starts), 1, 'the initial optimisation runs once')
    check_eq(t.init_starts[0], x0, 'from the initial point')
    check_eq(len(t.starts), 1, 'then the others')
    check_eq(t.starts[0], array('xi', t.n), 'from its optimum')
    a, b, c = t.tests(array('xi', t.n), t.found(0), 1e-8, 1e-8, 1e-8)
    same(xc, a, 'the change is measured from its optimum')
    same(fc, b, 'the change of value is measured from its optimum')
    same(gc, c, 'size of the gradient')
    check_eq(len(kept), 2, 'every result is kept on request')
    check(same_object(kept[0], t.init_result), 'the initial one first')
    check(same_object(kept[1], t.results[0]), 'then the others in order')


def spec_kept():
    t = Repeat()
    x0 = array('x0', t.n)
    x, conv, xc, fc, gc, r, kept = opt.repeatedly_optimize(
        t.o, t.optimize, x0, max_iter=2, keep_intermediate_optimizations=True)
    check_eq(len(kept), len(t.results), 'every result is kept on request')
    check(same_object(kept[0], t.results[0]), 'in order')
