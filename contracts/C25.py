"""Sensitivity objects keep their own base point, honour what they are given and leave parameters at the base."""
from sens import *
from LinearResponseVariationalBayes import SparseObjectives as obj_lib
from prelude import raises

CASES_linear_base = FORMS
CASES_taylor_base = FORMS


def spec_linear_base(form):
    """Moving the parameters or the caller's arrays afterwards changes nothing."""
    t = Problem(*form)
    a, b = array('a', t.n), array('b', t.k)
    a[:], b[:] = t.a0, t.b0
    s = ms.ParametricSensitivityLinearApproximation(t.fun, t.p, t.q, a, b, **t.options())
    J = s.get_dinput_dhyper()
    a[:], b[:] = array('a2', t.n), array('b2', t.k)
    t.p.set_free(array('f', t.n))
    t.q.set_free(array('g', t.k))
    b1 = array('b1', t.k)
    check_eq(s.predict_input_par_from_hyperparameters(b1), t.a0 + np.matmul(J, b1 - t.b0), 'the base point is kept')
    s.set_par_to_base_values()
    t.at_base('parameters return to the base point')


def spec_linear_rebase(form):
    """set_base_values moves every quantity to the new point."""
    t = Problem(*form)
    s = ms.ParametricSensitivityLinearApproximation(t.fun, t.p, t.q, array('a9', t.n), array('b9', t.k), **t.options())
    s.set_base_values(t.a0, t.b0)
    check_eq(np.matmul(t.hess0(), s.get_dinput_dhyper()), -t.cross0(), 'sensitivity at the new point')
    check_eq(s.predict_input_par_from_hyperparameters(t.b0), t.a0, 'prediction at the new point')
    t.at_base('parameters at the new point')


CASES_linear_rebase = FORMS


def spec_linear_rebase_in_turn(form):
    """Moving one of the two points, then the other, then back."""
    t = Problem(*form)
    a9, b9 = array('a9', t.n), array('b9', t.k)
    s = ms.ParametricSensitivityLinearApproximation(t.fun, t.p, t.q, t.a0, t.b0, **t.options())
    J = s.get_dinput_dhyper() + 0
    for a, b in [(a9, t.b0), (t.a0, t.b0), (t.a0, b9), (a9, b9)]:
        s.set_base_values(a, b)
        check_eq(s.predict_input_par_from_hyperparameters(b), a, 'prediction at the new point')
    s.set_base_values(a9, t.b0)
    s.set_base_values(t.a0, t.b0)
    check_eq(np.matmul(t.hess0(), s.get_dinput_dhyper()), -t.cross0(), 'sensitivity back at the point')
    check_eq(s.get_dinput_dhyper(), J, 'sensitivity back at the first point')
    r = ms.ParametricSensitivityLinearApproximation(t.fun, t.p, t.q, a9, t.b0, **t.options())
    r.set_base_values(t.a0, t.b0)
    check_eq(np.matmul(t.hess0(), r.get_dinput_dhyper()), -t.cross0(), 'sensitivity after the input alone moved')
    q = ms.ParametricSensitivityLinearApproximation(t.fun, t.p, t.q, t.a0, b9, **t.options())
    q.set_base_values(t.a0, t.b0)
    check_eq(np.matmul(t.hess0(), q.get_dinput_dhyper()), -t.cross0(), 'sensitivity after the hyperparameter alone moved')


CASES_linear_rebase_in_turn = FORMS
CASES_given_again = ['linear', 'taylor']


def spec_given_again(which):
    """The Hessian given is the one the array holds at that moment, also when the same array was given before."""
    t = Problem(*FORMS[0])
    H = t.hess0() + 0
    A = array('A', t.n, t.n)
    A[:] = 2.0 * H
    if which == 'linear':
        s = ms.ParametricSensitivityLinearApproximation(t.fun, t.p, t.q, t.a0, t.b0, hess0=A, **t.options())
        sens = s.get_dinput_dhyper
    else:
        s = ms.ParametricSensitivityTaylorExpansion(t.fun, t.p, t.q, t.a0, t.b0, 1, hess0=A, **t.options())
        d = array('db', t.k)
        sens = lambda: s.evaluate_dkinput_dhyperk(d, 1)
    c = t.cross0() if which == 'linear' else np.matmul(t.cross0(), d)
    check_eq(np.matmul(2.0 * H, sens()), -c, 'sensitivity with the Hessian given')
    A[:] = H
    s.set_base_values(t.a0, t.b0, hess0=A)
    check_eq(np.matmul(H, sens()), -c, 'sensitivity with the Hessian given in the same array')


def spec_taylor_base(form):
    t = Problem(*form)
    a, b = array('a', t.n), array('b', t.k)
    a[:], b[:] = t.a0, t.b0
    H, L = pdmat('H', t.n)
    s = ms.ParametricSensitivityTaylorExpansion(t.fun, t.p, t.q, a, b, 1, hess0=H, **t.options())
    db = array('db', t.k)
    keep = snapshot(db)
    a[:], b[:] = array('a2', t.n), array('b2', t.k)
    t.p.set_free(array('f', t.n))
    t.q.set_free(array('g', t.k))
    d = s.evaluate_dkinput_dhyperk(db, 1)
    check_eq(d, np.linalg.solve(H, -np.matmul(t.cross0(), db)), 'the base point and the Hessian given are used')
    t.at_base('parameters at the base point')
    t.p.set_free(array('f2', t.n))
    check_eq(s.evaluate_taylor_series(db), t.a0 + d, 'the base point is kept')
    t.at_base('parameters at the base point')
    check_unchanged(db, keep, 'the step is left alone')


def spec_taylor_rebase(form):
    t = Problem(*form)
    H, L = pdmat('H', t.n)
    s = ms.ParametricSensitivityTaylorExpansion(t.fun, t.p, t.q, array('a9', t.n), array('b9', t.k), 1, hess0=np.eye(t.n), **t.options())
    s.set_base_values(t.a0, t.b0, hess0=H)
    db = array('db', t.k)
    d = s.evaluate_dkinput_dhyperk(db, 1)
    check_eq(d, np.linalg.solve(H, -np.matmul(t.cross0(), db)), 'derivative at the new point')
    check_eq(s.evaluate_taylor_series(db), t.a0 + d, 'series at the new point')


CASES_taylor_rebase = FORMS


CASES_taylor_second_order = FORMS


def spec_taylor_second_order(form):
    """Derivatives of higher order leave the parameters at the base point too."""
    t = Problem(*form)
    H, L = pdmat('H', t.n)
    s = ms.ParametricSensitivityTaylorExpansion(t.fun, t.p, t.q, t.a0, t.b0, 2, hess0=H, **t.options())
    t.at_base('declaring an expansion leaves the parameters at the base point')
    db = array('db', t.k)
    keep = snapshot(db)
    t.p.set_free(array('f', t.n))
    t.q.set_free(array('g', t.k))
    d = s.evaluate_dkinput_dhyperk(db, 2)
    no_trace(d, 'the derivative is made of numbers')
    t.at_base('parameters at the base point')
    t.p.set_free(array('f2', t.n))
    t.q.set_free(array('g2', t.k))
    e = s.evaluate_taylor_series(db)
    no_trace(e, 'the series is made of numbers')
    t.at_base('parameters at the base point')
    no_trace(s, 'the expansion keeps no tracer')
    check_unchanged(db, keep, 'the step is left alone')


def spec_taylor_own_hessian():
    """Without a Hessian given, that of the whole objective at the base point is used."""
    t = Problem(True, False)
    s = ms.ParametricSensitivityTaylorExpansion(t.fun, t.p, t.q, t.a0, t.b0, 1, hyper_par_objective_functor=t.part, **t.options())
    db = array('db', t.k)
    d = s.evaluate_dkinput_dhyperk(db, 1)
    check_eq(np.matmul(t.hess0(), d), -np.matmul(t.part_cross0(), db), 'Hessian of the whole, cross Hessian of the part')
    check_eq(s.hess0, t.hess0(), 'the Hessian kept')


def spec_output_base():
    """ParametricSensitivity keeps its own optimum."""
    n, k, m = dim('n'), dim('k'), 2
    p, q, out = vb.VectorParam('p', size=n), vb.VectorParam('q', size=k), vb.VectorParam('out', size=m)
    h, g = fun('h'), fun('g', m)
    a0, b0 = array('a0', n), array('b0', k)
    a = array('a', n)
    a[:] = a0
    q.set(b0)
    s = obj_lib.ParametricSensitivity(lambda: h(p.get(), q.get()), p, out, q, lambda: out.set(g(p.get())), optimal_input_par=a)
    J = s.get_dinput_dhyper()
    D = np.matmul(jac(g, a0), J)
    a[:] = array('a2', n)
    p.set(array('f', n))
    q.set(array('f2', k))
    out.set(array('f3', m))
    b1 = array('b1', k)
    check_eq(s.predict_input_par_from_hyperparameters(b1), a0 + np.matmul(J, b1 - b0), 'base input')
    check_eq(s.predict_output_par_from_hyperparameters(b1, linear=True), g(a0) + np.matmul(D, b1 - b0), 'base output')
    p.set(array('f4', n))
    q.set(b1)
    s.set_optimal_input_par()
    H = hess(lambda x: h(x, b1), array('f4', n))
    cross = jac(lambda z: jac(lambda x: h(x, z), array('f4', n)), b1)
    check_eq(np.matmul(H, s.get_dinput_dhyper()), -cross, 'a new optimum moves the sensitivity')
    check_eq(s.predict_input_par_from_hyperparameters(b1), array('f4', n), 'and the base point')


def spec_step_sizes():
    """Derivatives evaluated away from the base point are refused unless the tolerance is lifted."""
    t = Problem(False, False)
    H, L = pdmat('H', t.n)
    s = ms.ParametricSensitivityTaylorExpansion(t.fun, t.p, t.q, t.a0, t.b0, 1, hess0=H, **t.options())
    db = array('db', t.k)
    s.evaluate_dkinput_dhyperk(db, 1, tolerance=None)
    f = s.dkinput_dhyperk_list[0]
    far = array('far', t.n)
    e = real('e')
    assume(e > 1)
    check(raises(lambda: f(t.a0 + e, t.b0, db)), 'another input point is refused')
    check(raises(lambda: f(t.a0, t.b0 - e, db)), 'another hyperparameter is refused')


CASES_hessian_overwritten = ['linear', 'taylor', 'output']


def spec_hessian_overwritten(which):
    """The Hessian given may be overwritten by the caller afterwards."""
    t = Problem(True, False)
    H = t.hess0() + 0
    A = array('A', t.n, t.n)
    A[:] = 2.0 * H
    d = array('db', t.k)
    if which == 'linear':
        s = ms.ParametricSensitivityLinearApproximation(t.fun, t.p, t.q, t.a0, t.b0, hess0=A, **t.options())
        sens = lambda: np.matmul(s.get_dinput_dhyper(), d)
    elif which == 'taylor':
        s = ms.ParametricSensitivityTaylorExpansion(t.fun, t.p, t.q, t.a0, t.b0, 1, hess0=A, **t.options())
        sens = lambda: s.evaluate_dkinput_dhyperk(d, 1)
    else:
        t.q.set_vector(t.b0)
        out = vb.VectorParam('out', size=2)
        g = fun('g', 2)
        s = obj_lib.ParametricSensitivity(t.fun, t.p, out, t.q, lambda: out.set(g(t.q.get_vector())), optimal_input_par=t.a0, objective_hessian=A)
        sens = lambda: np.matmul(s.get_dinput_dhyper(), d)
    A[:] = array('A2', t.n, t.n)
    check_eq(np.matmul(2.0 * H, sens()), -np.matmul(t.cross0(), d), 'sensitivity with the Hessian that was given')


def spec_values_overwritten():
    """The arrays the parameters held at the base point may be overwritten afterwards."""
    n, k = dim('n'), dim('k')
    p, q, out = vb.VectorParam('p', size=n), vb.VectorParam('q', size=k), vb.VectorParam('out', size=n)
    h, g = fun('h'), fun('g', n)
    a0, b0 = array('a0', n), array('b0', k)
    a, b, o = array('a', n), array('b', k), array('o', n)
    a[:], b[:] = a0, b0

    def convert():
        out.set(g(p.get()))
    p.set(a)
    q.set(b)
    s = obj_lib.ParametricSensitivity(lambda: h(p.get(), q.get()), p, out, q, convert)
    J = s.get_dinput_dhyper() + 0
    D = s.get_doutput_dhyper() + 0
    a[:], b[:] = array('a2', n), array('b2', k)
    p.get()[:] = array('a3', n)
    q.get()[:] = array('b3', k)
    out.get()[:] = array('o3', n)
    b1 = array('b1', k)
    check_eq(s.predict_input_par_from_hyperparameters(b1), a0 + np.matmul(J, b1 - b0), 'the base input and hyperparameter are kept')
    check_eq(s.predict_output_par_from_hyperparameters(b1, linear=True), g(a0) + np.matmul(D, b1 - b0), 'the base output is kept')


CASES_held_values_overwritten = ['linear', 'taylor', 'taylor-2']


def spec_held_values_overwritten(which):
    """The values the parameters hold may be changed in place afterwards."""
    t = Problem(False, False)
    b1 = array('b1', t.k)
    if which == 'linear':
        s = ms.ParametricSensitivityLinearApproximation(t.fun, t.p, t.q, t.a0, t.b0, **t.options())
        predict = lambda: s.predict_input_par_from_hyperparameters(b1)
    else:
        order = 1 if which == 'taylor' else 2
        s = ms.ParametricSensitivityTaylorExpansion(t.fun, t.p, t.q, t.a0, t.b0, order, **t.options())
        predict = lambda: s.evaluate_taylor_series(b1 - t.b0, max_order=1)
    for k in range(2):
        for par in [t.p, t.q]:
            held = par['x'].get() if hasattr(par, 'param_dict') else par.get()
            held[:] = array('f%d' % k, t.n) if par is t.p else array('g%d' % k, t.k)
        check_eq(np.matmul(t.hess0(), predict() - t.a0), -np.matmul(t.cross0(), b1 - t.b0), 'the base point is kept')
