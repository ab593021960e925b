"""Linear sensitivity is minus the inverse Hessian times the cross Hessian, in the declared coordinates."""
from sens import *

CASES_linear = FORMS
CASES_linear_given_hessian = FORMS
CASES_separate_hyper_objective = FORMS


def spec_linear(form):
    t = Problem(*form)
    s = ms.ParametricSensitivityLinearApproximation(t.fun, t.p, t.q, t.a0, t.b0, **t.options())
    J = s.get_dinput_dhyper()
    check(shape_eq(J, t.n, t.k), 'inputs in the rows')
    check_eq(np.matmul(t.hess0(), J), -t.cross0(), 'derivative of the optimum')
    b1 = array('b1', t.k)
    check_eq(s.predict_input_par_from_hyperparameters(b1), t.a0 + np.matmul(J, b1 - t.b0), 'linear prediction')
    check_eq(s.predict_input_par_from_hyperparameters(t.b0), t.a0, 'prediction at the base point')
    t.at_base('parameters at the base values')
    for tiny in [float('1e-6'), float('1e-9'), 1e6]:
        check_eq((s.predict_input_par_from_hyperparameters(t.b0 + tiny * b1) - t.a0) / tiny, np.matmul(J, b1), 'the prediction is linear in the change, however small or large')
    t.p.set_free(array('f', t.n))
    t.q.set_free(array('g', t.k))
    check_eq(s.predict_input_par_from_hyperparameters(b1), t.a0 + np.matmul(J, b1 - t.b0), 'the prediction starts at the base point wherever the parameters are')
    check_eq(s.get_dinput_dhyper(), J, 'so does the derivative')


def spec_linear_given_hessian(form):
    t = Problem(*form)
    H, L = pdmat('H', t.n)
    s = ms.ParametricSensitivityLinearApproximation(t.fun, t.p, t.q, t.a0, t.b0, hess0=H, **t.options())
    check_eq(np.matmul(H, s.get_dinput_dhyper()), -t.cross0(), 'the Hessian given is used')


def spec_separate_hyper_objective(form):
    """The part of the objective with the hyperparameter gives the cross Hessian, the whole objective the Hessian."""
    t = Problem(*form)
    s = ms.ParametricSensitivityLinearApproximation(t.fun, t.p, t.q, t.a0, t.b0, hyper_par_objective_functor=t.part, **t.options())
    check_eq(np.matmul(t.hess0(), s.get_dinput_dhyper()), -t.part_cross0(), 'cross Hessian of the part')


# ---------------------------------------------------------------- ParametricSensitivity: input, output and hyperparameter

from LinearResponseVariationalBayes import SparseObjectives as obj_lib


class Output(object):
    """Problem in free input, vector hyperparameter, with an output that is a function of the input."""
    def __init__(self):
        self.t = Problem(True, False)
        self.m = 2
        self.w = real('w')
        self.out = vb.ModelParamsDict('out')
        self.out.push_param(vb.VectorParam('z', size=self.m, ub=self.w))
        self.conv = fun('conv', self.m)

    def convert(self):
        self.out['z'].set(self.w - np.exp(self.conv(self.t.p['x'].get())))

    def out_value(self, a):
        return self.w - np.exp(self.conv(self.t.x(a)))

    def make(self, **kw):
        t = self.t
        t.q.set(t.b0)
        return obj_lib.ParametricSensitivity(t.fun, t.p, self.out, t.q, self.convert, **kw)


CASES_output = ['given point', 'current point', 'given Hessian', 'hyper part']


def spec_output(how):
    o = Output()
    t = o.t
    H, cross = t.hess0(), t.cross0()
    if how == 'given point':
        s = o.make(optimal_input_par=t.a0)
    elif how == 'current point':
        t.p.set_free(t.a0)
        s = o.make()
    elif how == 'given Hessian':
        n = 2
        o.t = t = Problem(True, False, 2, 2)
        H, L = pdmat('H', 2)
        cross = t.cross0()
        s = o.make(optimal_input_par=t.a0, objective_hessian=H)
    else:
        s = o.make(optimal_input_par=t.a0, hyper_par_objective_fun=t.part)
        cross = t.part_cross0()
    J = s.get_dinput_dhyper()
    check(shape_eq(J, t.n, t.k), 'inputs in the rows')
    check_eq(np.matmul(H, J), -cross, 'derivative of the optimum')
    D = s.get_doutput_dhyper()
    check(shape_eq(D, o.m, t.k), 'outputs in the rows')
    check_eq(D, np.matmul(jac(o.out_value, t.a0), J), 'derivative of the output')
    b1 = array('b1', t.k)
    a1 = t.a0 + np.matmul(J, b1 - t.b0)
    check_eq(s.predict_output_par_from_hyperparameters(b1, linear=True), o.out_value(t.a0) + np.matmul(D, b1 - t.b0), 'linear prediction of the output')
    check_eq(s.predict_input_par_from_hyperparameters(b1), a1, 'prediction of the input')
    check_eq(s.predict_output_par_from_hyperparameters(b1, linear=False), o.out_value(a1), 'output at the predicted input')
    t.p.set_free(array('f', t.n))
    t.q.set_vector(array('g', t.k))
    check_eq(s.predict_output_par_from_hyperparameters(b1, linear=True), o.out_value(t.a0) + np.matmul(D, b1 - t.b0), 'linear prediction wherever the parameters are')
    check_eq(s.predict_input_par_from_hyperparameters(b1), a1, 'prediction of the input wherever the parameters are')
