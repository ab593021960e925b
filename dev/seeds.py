"""Planted bugs: plant.py turns each into seeded/<id>/."""
PRE = '''
import autograd
import autograd.numpy as np
import numpy as onp
import scipy as sp
import scipy.sparse
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as obj_lib
from LinearResponseVariationalBayes import ModelSensitivity as sens_lib
from LinearResponseVariationalBayes import ExponentialFamilies as ef
from LinearResponseVariationalBayes import Modeling as modeling
from LinearResponseVariationalBayes import OptimizationUtils as opt_lib
from LinearResponseVariationalBayes import ConjugateGradient as cg_lib
rng = onp.random.RandomState(42)
'''
PM, MM, SP, PP, PD = 'Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'ParameterDictionary.py'
SO, MS, OU = 'SparseObjectives.py', 'ModelSensitivity.py', 'OptimizationUtils.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


seed('vector-hvp-leaves-boxes', 'C08',
     [(SO, '''        result = self.ag_fun_vector_hvp(*args, vec, **argk)
        self.par.set_vector(args[0])
        return result''', '''        return self.ag_fun_vector_hvp(*args, vec, **argk)''')],
     'reading the parameter after a Hessian-vector product in vector coordinates',
     'The parameter is left holding an autograd tracer.',
     '''
par = vb.VectorParam('x', size=3, lb=-1.0)
obj = obj_lib.Objective(par, lambda: np.sum(par.get() ** 3))
v = onp.array([0.5, 1.0, 2.0])
obj.fun_vector_hvp(v, onp.ones(3))
assert type(par.get()) is onp.ndarray, type(par.get())
onp.testing.assert_allclose(par.get(), v)
''')

seed('bounds-any', 'C02',
     [(PM, '''    if not (vec >= lb).all():
        raise ValueError('Elements smaller''', '''    if not (vec >= lb).any():
        raise ValueError('Elements smaller''')],
     'a vector with some but not all elements below the lower bound', 'A partly out-of-bounds value is converted to NaN instead of refused.',
     '''
par = vb.VectorParam('x', size=3, lb=0.0, ub=5.0)
par.set(onp.array([1.0, -1.0, 2.0])) if False else None
try:
    p = vb.VectorParam('x', size=3, lb=0.0, ub=5.0, val=onp.array([1.0, -1.0, 2.0]))
    f = p.get_free()
except ValueError:
    pass
else:
    raise AssertionError('accepted: %s' % f)
''')

seed('matrix-vector-too-long', 'C04',
     [(MM, '''        if len(vec_val) != self.vector_size():
            raise ValueError('Vector value is the wrong length')
        self.__val = \\
            np.array([
              unvectorize_symmetric_matrix(vec_val[self.free_obs_slice(obs)]) \\
              for obs in range(self.__length) ])''', '''        if len(vec_val) < self.vector_size():
            raise ValueError('Vector value is the wrong length')
        self.__val = \\
            np.array([
              unvectorize_symmetric_matrix(vec_val[self.free_obs_slice(obs)]) \\
              for obs in range(self.__length) ])''')],
     'a vector longer than the declared size', 'A longer vector is silently truncated rather than refused.',
     '''
p = vb.PosDefMatrixParamVector('p', length=2, matrix_size=2)
v = onp.array([1.0, 0.1, 1.0, 2.0, 0.1, 2.0, 7.0])
try:
    p.set_vector(v)
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''')

seed('default-ignores-diag-lb', 'C32',
     [(MM, '''            default_val = np.diag(np.full(self.__matrix_size, diag_lb + 1.0))
            self.__val = np.broadcast_to(default_val, self.__shape)
        else:
            self.set(val)

    def __str__(self):
        return self.name + ':\\n' + str(self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        if tuple(val.shape) != tuple(self.__shape):
            raise ValueError('Array is the wrong size')
        self.__val = val
    def get(self):
        return self.__val

    def free_obs_slice''', '''            default_val = np.diag(np.full(self.__matrix_size, 1.0))
            self.__val = np.broadcast_to(default_val, self.__shape)
        else:
            self.set(val)

    def __str__(self):
        return self.name + ':\\n' + str(self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        if tuple(val.shape) != tuple(self.__shape):
            raise ValueError('Array is the wrong size')
        self.__val = val
    def get(self):
        return self.__val

    def free_obs_slice''')],
     'a diagonal lower bound of at least one and no initial value', 'The default value is outside the declared support.',
     '''
p = vb.PosDefMatrixParamVector('p', length=2, matrix_size=2, diag_lb=1.5)
assert onp.all(onp.isfinite(p.get_free())), p.get_free()
''')

seed('converter-output-not-restored', 'C12',
     [(SO, '''        self.par_in.set_vector(vec_val_in)
        self.par_out.set_vector(vec_val_out)
        return result''', '''        self.par_in.set_vector(vec_val_in)
        self.converter()
        return result''')],
     'an output parameter whose value is not the converted input', 'A vector Jacobian overwrites the output parameter.',
     '''
pin = vb.VectorParam('i', size=2)
pout = vb.VectorParam('o', size=2)
c = obj_lib.ParameterConverter(pin, pout, lambda: pout.set(pin.get() ** 2))
pout.set(onp.array([7.0, 8.0]))
c.vec_to_vec_jacobian(onp.array([1.0, 2.0]))
onp.testing.assert_allclose(pout.get(), [7.0, 8.0])
''')

seed('free-slice-from-vector-indices', 'C05',
     [(PD, '''        self.free_indices_dict[param.name] = \\
            range(self.__free_size, self.__free_size + param.free_size())''', '''        self.free_indices_dict[param.name] = \\
            range(self.__vector_size, self.__vector_size + param.free_size())''')],
     'a parameter that follows one with different free and vector sizes', 'The recorded free indices of later parameters are shifted.',
     '''
mp = vb.ModelParamsDict('m')
mp.push_param(vb.SimplexParam('s', shape=(1, 3)))
mp.push_param(vb.VectorParam('x', size=2, lb=0.0))
f = onp.array([0.1, -0.2, 0.3, 0.4])
mp.set_free(f)
onp.testing.assert_allclose(f[list(mp.free_indices_dict['x'])], mp['x'].get_free())
''')

seed('chain-rule-free-range', 'C07',
     [(PM, """    vec_range = range(param.vector_size())
    free_hess_vals""", """    vec_range = range(param.free_size())
    free_hess_vals""")],
     'a parameter with more vector entries than free coordinates', 'The last entries of the gradient do not contribute.',
     '''
p = vb.SimplexParam('s', shape=(2, 3))
f = onp.array([0.1, -0.2, 0.3, 0.4])
def F(z):
    p.set_free(z)
    return np.sum(p.get_vector() ** 3)
D = autograd.hessian(F)(f)
p.set_free(f)
v = p.get_vector()
H = vb.Parameters.convert_vector_to_free_hessian(p, f, 3 * v ** 2, onp.diag(6 * v))
onp.testing.assert_allclose(onp.asarray(H.todense() if hasattr(H, 'todense') else H), D, atol=1e-8)
''')

seed('vector-offset-free-size', 'C05',
     [(PM, """    param.set_vector(vec[offset:(offset + param.vector_size())])
    return offset + param.vector_size()""", """    param.set_vector(vec[offset:(offset + param.vector_size())])
    return offset + max(param.free_size(), 1)""")],
     'a parameter that follows one with different free and vector sizes', 'Later parameters are set from the wrong segment.',
     '''
mp = vb.ModelParamsDict('m')
mp.push_param(vb.SimplexParam('s', shape=(1, 3)))
mp.push_param(vb.VectorParam('x', size=2))
v = onp.array([0.1, 0.2, 0.7, 1.0, 2.0])
mp.set_vector(v)
onp.testing.assert_allclose(mp.get_vector(), v)
''')
