"""A function of two parameters."""
import autograd.numpy as np
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as obj_lib


class Two(object):
    def __init__(self):
        self.n, self.k = dim('n'), dim('k')
        self.lb, self.ub = real('lb'), real('ub')
        self.p1 = vb.VectorParam('p1', size=self.n, lb=self.lb)
        self.p2 = vb.ModelParamsDict('p2')
        self.p2.push_param(vb.VectorParam('z', size=self.k, ub=self.ub))
        self.h = fun('h')
        self.w, self.c = array('w', dim('m')), real('c')
        self.o = obj_lib.TwoParameterObjective(self.p1, self.p2, self.fun)

    def fun(self, w, c=0.5):
        return self.h(self.p1.get(), self.p2['z'].get(), w, c)

    def value(self, a, b, free1, free2):
        x = np.exp(a) + self.lb if free1 else a
        z = self.ub - np.exp(-b) if free2 else b
        return self.h(x, z, self.w, self.c)

    def h12(self, a, b, free1, free2):
        return jac(lambda q: jac(lambda p: self.value(p, q, free1, free2), a), b)

    def g1(self, a, b, free1, free2):
        return jac(lambda p: self.value(p, b, free1, free2), a)

    def g2(self, a, b, free1, free2):
        return jac(lambda q: self.value(a, q, free1, free2), b)
