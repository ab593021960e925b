"""A model with an uninterpreted smooth objective (interpreted, never executed)."""
import autograd.numpy as np
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as obj_lib


class Model(object):
    """h(x, y; w, c) over a positive vector x and a scalar y."""
    def __init__(self):
        self.n = dim('n')
        self.lb = real('lb')
        self.par = vb.ModelParamsDict('par')
        self.par.push_param(vb.VectorParam('x', size=self.n, lb=self.lb))
        self.par.push_param(vb.ScalarParam('y'))
        self.size = self.n + 1
        self.h = fun('h')
        self.k = fun('k', 2)
        self.w = array('w', dim('m'))
        self.c = real('c')
        self.objective = obj_lib.Objective(self.par, self.fun)
        self.vec_objective = obj_lib.Objective(self.par, self.vec_fun)

    def fun(self, w, c=0.5):
        return self.h(self.par['x'].get(), self.par['y'].get(), w, c)

    def vec_fun(self, w, c=0.5):
        return self.k(self.par['x'].get(), self.par['y'].get(), w, c)

    # the same functions, written out
    def free(self, f):
        return self.h(np.exp(f[:self.n]) + self.lb, f[self.n:], self.w, self.c)

    def vector(self, v):
        return self.h(v[:self.n], v[self.n:], self.w, self.c)

    def free2(self, f):
        return self.k(np.exp(f[:self.n]) + self.lb, f[self.n:], self.w, self.c)

    def vector2(self, v):
        return self.k(v[:self.n], v[self.n:], self.w, self.c)

    def at_free(self, f, msg):
        check_eq(self.par.get_vector(), np.hstack([np.exp(f[:self.n]) + self.lb, f[self.n:]]), msg)

    def at_vector(self, v, msg):
        check_eq(self.par.get_vector(), v, msg)
