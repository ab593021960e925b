"""A sensitivity problem: h(x, z) over an input x and a hyperparameter z, each with a constraint."""
import autograd.numpy as np
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import ModelSensitivity as ms


class Problem(object):
    def __init__(self, in_free, hyper_free, n=None, k=None):
        self.in_free, self.hyper_free = in_free, hyper_free
        self.n = dim('n') if n is None else n
        self.k = dim('k') if k is None else k
        self.lb, self.ub = real('lb'), real('ub')
        self.p = vb.ModelParamsDict('p')
        self.p.push_param(vb.VectorParam('x', size=self.n, lb=self.lb))
        self.q = vb.VectorParam('q', size=self.k, ub=self.ub)
        self.h = fun('h')
        self.r = fun('r')
        self.a0, self.b0 = array('a0', self.n), array('b0', self.k)

    def fun(self):
        return self.h(self.p['x'].get(), self.q.get())

    def part(self):
        return self.r(self.p['x'].get(), self.q.get())

    def x(self, a):
        return np.exp(a) + self.lb if self.in_free else a

    def z(self, b):
        return self.ub - np.exp(-b) if self.hyper_free else b

    def value(self, a, b):
        return self.h(self.x(a), self.z(b))

    def part_value(self, a, b):
        return self.r(self.x(a), self.z(b))

    def hess0(self):
        return hess(lambda a: self.value(a, self.b0), self.a0)

    def cross0(self):
        return jac(lambda b: jac(lambda a: self.value(a, b), self.a0), self.b0)

    def part_cross0(self):
        return jac(lambda b: jac(lambda a: self.part_value(a, b), self.a0), self.b0)

    def options(self):
        return dict(input_is_free=self.in_free, hyper_is_free=self.hyper_free)

    def at_base(self, msg):
        no_trace(self.p, msg + ', as numbers')
        no_trace(self.q, msg + ', as numbers')
        check_eq(self.p.get_vector(), self.x(self.a0), msg)
        check_eq(self.q.get(), self.z(self.b0), msg)


FORMS = [(True, True), (True, False), (False, True), (False, False)]
