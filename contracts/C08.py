"""No differentiation leaves anything but numbers in the parameters, and the parameters are where they were evaluated."""
from leaf_values import *
from objective import Model
from C11_two import Two
from C12_conv import Conv

CASES_leaf_jacobian = LEAVES
CASES_leaf_hessian = LEAVES


def spec_leaf_jacobian(kind):
    l = make_leaf(kind)
    f = free_of(l)
    J = l.p.free_to_vector_jac(f)
    no_trace(l.p, 'the parameter holds no tracer')
    no_trace(J, 'the Jacobian holds no tracer')
    check(shape_eq(l.p.get_free(), l.nf), 'the value can be read')


def spec_leaf_hessian(kind):
    l = make_leaf(kind)
    f = free_of(l)
    H = l.p.free_to_vector_hess(f)
    no_trace(l.p, 'the parameter holds no tracer')
    no_trace(H[anyindex(l.nv)], 'the Hessian holds no tracer')


def each(m, o, f, calls, at):
    for name, call in calls:
        m.par.set_vector(array('other', m.size))
        r = call()
        no_trace(m.par, name + ': the parameter holds no tracer')
        no_trace(r, name + ': the result holds no tracer')
        at(f, name + ': the parameter is at the point of evaluation')


def spec_objective_free():
    m = Model()
    f, v = array('f', m.size), array('v', m.size)
    o = m.objective
    each(m, o, f, [('fun_free', lambda: o.fun_free(f, m.w)), ('fun_free_grad', lambda: o.fun_free_grad(f, m.w)),
                   ('fun_free_hessian', lambda: o.fun_free_hessian(f, m.w)),
                   ('fun_free_hvp', lambda: o.fun_free_hvp(f, m.w, v)),
                   ('fun_free_jacobian', lambda: m.vec_objective.fun_free_jacobian(f, m.w))], m.at_free)
    no_trace(o, 'the objective holds no tracer')


def spec_objective_vector():
    m = Model()
    f, v = array('f', m.size), array('v', m.size)
    o = m.objective
    each(m, o, f, [('fun_vector', lambda: o.fun_vector(f, m.w)), ('fun_vector_grad', lambda: o.fun_vector_grad(f, m.w)),
                   ('fun_vector_hessian', lambda: o.fun_vector_hessian(f, m.w)),
                   ('fun_vector_hvp', lambda: o.fun_vector_hvp(f, m.w, v)),
                   ('fun_vector_jacobian', lambda: m.vec_objective.fun_vector_jacobian(f, m.w))], m.at_vector)
    no_trace(o, 'the objective holds no tracer')


def spec_objective_conditioned():
    m = Model()
    N = m.size
    A = array('A', N, N)
    f, v = array('f', N), array('v', N)
    o = m.objective
    o.preconditioner = A
    y = np.matmul(A, f)
    each(m, o, y, [('fun_free_cond', lambda: o.fun_free_cond(f, m.w)),
                   ('fun_free_grad_cond', lambda: o.fun_free_grad_cond(f, m.w)),
                   ('fun_free_hessian_cond', lambda: o.fun_free_hessian_cond(f, m.w)),
                   ('fun_free_hvp_cond', lambda: o.fun_free_hvp_cond(f, m.w, v))], m.at_free)


def spec_verbose_logging():
    """What the logger keeps is numeric too."""
    m = Model()
    f = array('f', m.size)
    o = m.objective
    o.logger.callback = lambda lg: None
    o.fun_free(f, m.w, verbose=True)
    o.fun_free_grad(f, m.w)
    no_trace(o.logger, 'the logger holds no tracer')
    v = array('v', m.size)
    o.preconditioner = np.eye(m.size)
    for name, call in [('fun_free_grad', lambda: o.fun_free_grad(f, m.w, verbose=True)),
                       ('fun_free_hessian', lambda: o.fun_free_hessian(f, m.w, verbose=True)),
                       ('fun_free_hvp', lambda: o.fun_free_hvp(f, m.w, v, verbose=True)),
                       ('fun_free_grad_cond', lambda: o.fun_free_grad_cond(f, m.w, verbose=True)),
                       ('fun_free_hessian_cond', lambda: o.fun_free_hessian_cond(f, m.w, verbose=True)),
                       ('fun_free_hvp_cond', lambda: o.fun_free_hvp_cond(f, m.w, v, verbose=True))]:
        no_trace(call(), name + ': the result holds no tracer')
        no_trace(o.logger, name + ': the logger holds no tracer')


def spec_two_parameters():
    t = Two()
    a, b = array('a', t.n), array('b', t.k)
    calls = [('fun_free', lambda: t.o.fun_free(a, b, t.w), True, True),
             ('fun_vector', lambda: t.o.fun_vector(a, b, t.w), False, False),
             ('fun_grad1', lambda: t.o.fun_grad1(a, b, True, False, t.w), True, False),
             ('fun_grad2', lambda: t.o.fun_grad2(a, b, False, True, t.w), False, True),
             ('fun_hessian12', lambda: t.o.fun_hessian12(a, b, True, True, t.w), True, True),
             ('fun_free_hessian12', lambda: t.o.fun_free_hessian12(a, b, t.w), True, True),
             ('fun_free_hessian21', lambda: t.o.fun_free_hessian21(a, b, t.w), True, True),
             ('fun_vector_hessian12', lambda: t.o.fun_vector_hessian12(a, b, t.w), False, False),
             ('fun_vector_hessian21', lambda: t.o.fun_vector_hessian21(a, b, t.w), False, False),
             ('fun_hessian_free1_vector2', lambda: t.o.fun_hessian_free1_vector2(a, b, t.w), True, False),
             ('fun_hessian_vector1_free2', lambda: t.o.fun_hessian_vector1_free2(a, b, t.w), False, True)]
    for name, call, f1, f2 in calls:
        t.p1.set_vector(array('o1', t.n))
        t.p2.set_vector(array('o2', t.k))
        r = call()
        no_trace(t.p1, name + ': the first parameter holds no tracer')
        no_trace(t.p2, name + ': the second parameter holds no tracer')
        no_trace(r, name + ': the result holds no tracer')
        check_eq(t.p1.get_vector(), np.exp(a) + t.lb if f1 else a, name + ': first parameter at the point of evaluation')
        check_eq(t.p2.get_vector(), t.ub - np.exp(-b) if f2 else b, name + ': second parameter at the point of evaluation')


def spec_converter():
    t = Conv()
    a = array('a', t.n)
    for name, call in [('free_to_vec', lambda: t.c.free_to_vec_jacobian(a)),
                       ('free_to_free', lambda: t.c.free_to_free_jacobian(a)),
                       ('vec_to_vec', lambda: t.c.vec_to_vec_jacobian(a)),
                       ('vec_to_free', lambda: t.c.vec_to_free_jacobian(a))]:
        r = call()
        no_trace(t.pin, name + ': the input holds no tracer')
        no_trace(t.pout, name + ': the output holds no tracer')
        no_trace(r, name + ': the result holds no tracer')


def spec_convert_hessian():
    l = make_leaf(('scalar', 'lower'))
    f = array('f', 1)
    mp = vb.ModelParamsDict('m')
    n = dim('n')
    mp.push_param(vb.VectorParam('x', size=n))
    mp.push_param(l.p)
    f = array('f', n + 1)
    vb.Parameters.convert_vector_to_free_hessian(mp, f, array('g', n + 1), symarray('H', n + 1, n + 1))
    no_trace(mp, 'converting a Hessian leaves no tracer')
