"""A conversion between parameters."""
import autograd.numpy as np
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as obj_lib


class Conv(object):
    def __init__(self):
        self.n, self.k = dim('n'), dim('k')
        self.lb, self.ub = real('lb'), real('ub')
        self.pin = vb.ModelParamsDict('in')
        self.pin.push_param(vb.VectorParam('x', size=self.n, lb=self.lb))
        self.pout = vb.ModelParamsDict('out')
        self.pout.push_param(vb.VectorParam('z', size=2, ub=self.ub))
        self.h = fun('h', 2)
        self.c = obj_lib.ParameterConverter(self.pin, self.pout, self.convert)

    def convert(self):
        self.pout['z'].set(self.ub - np.exp(self.h(self.pin['x'].get())))

    def value(self, a, free_in, free_out):
        x = np.exp(a) + self.lb if free_in else a
        h = self.h(x)
        return -h if free_out else self.ub - np.exp(h)
