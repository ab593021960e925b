"""The log is the history of the logged evaluations: points, values, order and printing interval."""
from objective import *


def spec_history():
    n = dim('n')
    L = obj_lib.Logger(print_every=2)
    seen = []

    def callback(lg):
        seen.append((lg.iter, lg.value, lg.x))
    L.callback = callback
    vals = [real('v0'), real('v1'), real('v2'), real('v3'), real('v4')]
    for i in range(5):
        L.log(vals[i], array('x%d' % i, n))
    check_eq(len(L.x_array), 5, 'every point is kept')
    check_eq(len(L.val_array), 5, 'every value is kept')
    for i in range(5):
        check_eq(L.x_array[i], array('x%d' % i, n), 'points in order')
        check_eq(L.val_array[i], vals[i], 'values in order')
    check_eq(L.iter, 5, 'count')
    check_eq(L.value, vals[4], 'last value')
    check_eq(L.x, array('x4', n), 'last point')
    check_eq(L.last_value, vals[4], 'last value')
    check_eq(L.last_x, array('x4', n), 'last point')
    check_eq(len(seen), 3, 'one report every print_every evaluations')
    for k in range(3):
        check_eq(seen[k][0], 2 * k, 'reports at multiples of print_every')
        check_eq(seen[k][1], vals[2 * k], 'the report sees the value just logged')
        check_eq(seen[k][2], array('x%d' % (2 * k), n), 'the report sees the point just logged')


def spec_own_copies():
    """Changing the array that was logged changes nothing in the log."""
    n = dim('n')
    L = obj_lib.Logger()
    L.callback = lambda lg: None
    x = array('x', n)
    x[:] = array('a', n)
    L.log(real('v'), x)
    x[:] = array('b', n)
    check_eq(L.x_array[0], array('a', n), 'points are copied')
    check_eq(L.x, array('a', n), 'points are copied')
    L.log(real('w'), x)
    x[:] = array('c', n)
    check_eq(L.x_array[0], array('a', n), 'points are copied')
    check_eq(L.x_array[1], array('b', n), 'points are copied')


def spec_own_values():
    """The value logged may be an array, which the caller may overwrite."""
    n, m = dim('n'), dim('m')
    L = obj_lib.Logger()
    L.callback = lambda lg: None
    v = array('v', m)
    v[:] = array('a', m)
    L.log(v, array('x', n))
    v[:] = array('b', m)
    check_eq(L.val_array[0], array('a', m), 'values are copied')
    check_eq(L.value, array('a', m), 'values are copied')
    check_eq(L.last_value, array('a', m), 'values are copied')
    L.log(v, array('x', n))
    v[:] = array('c', m)
    check_eq(L.val_array[0], array('a', m), 'values are copied')
    check_eq(L.val_array[1], array('b', m), 'values are copied')


def spec_initialize():
    n = dim('n')
    L = obj_lib.Logger(print_every=3)
    f = lambda lg: None
    L.callback = f
    L.log(real('v'), array('x', n))
    old = L.x_array
    L.initialize()
    check_eq(len(L.x_array), 0, 'the log starts afresh')
    check_eq(len(L.val_array), 0, 'the log starts afresh')
    check_eq(L.iter, 0, 'the count starts afresh')
    check(L.x is None and L.value is None and L.last_x is None and L.last_value is None, 'no last point')
    check_eq(len(old), 1, 'a history taken before is kept')
    check_eq(L.print_every, 3, 'the printing interval is kept')
    check(L.callback is f, 'the callback is kept')
    L.log(real('w'), array('y', n))
    check_eq(L.x_array[0], array('y', n), 'first point of the new log')
    check_eq(len(old), 1, 'a history taken before is kept')


def spec_separate():
    """Loggers, and the logs of objectives, do not share their history."""
    a, b = obj_lib.Logger(), obj_lib.Logger()
    a.callback = lambda lg: None
    a.log(real('v'), array('x', dim('n')))
    check_eq(len(b.x_array), 0, 'another logger is empty')
    check_eq(len(b.val_array), 0, 'another logger is empty')
    check_eq(b.iter, 0, 'another logger is empty')


CASES_objective = ['free', 'conditioned']


def spec_objective(how):
    """Objectives log exactly the evaluations asked for, in free coordinates, with the value."""
    m = Model()
    o = m.objective
    got = []
    o.logger.callback = lambda lg: got.append(lg.value)
    A = array('A', m.size, m.size)
    o.preconditioner = A
    x, y = array('x', m.size), array('y', m.size)

    def at(z):
        return np.matmul(A, z) if how == 'conditioned' else z
    f = o.fun_free_cond if how == 'conditioned' else o.fun_free
    f(x, m.w, c=m.c)
    check_eq(len(o.logger.x_array), 0, 'quiet evaluations are not logged')
    f(x, m.w, c=m.c, verbose=True)
    f(y, m.w, c=m.c, verbose=False)
    f(y, m.w, c=m.c, verbose=True)
    L = o.logger
    check_eq(len(L.x_array), 2, 'evaluations asked for are logged')
    check_eq(len(L.val_array), 2, 'evaluations asked for are logged')
    check_eq(L.x_array[0], at(x), 'the point in free coordinates')
    check_eq(L.x_array[1], at(y), 'the point in free coordinates')
    check_eq(L.val_array[0], m.free(at(x)), 'the value')
    check_eq(L.val_array[1], m.free(at(y)), 'the value')
    o.fun_free_grad(x, m.w, c=m.c)
    o.fun_free_hessian(x, m.w, c=m.c)
    check_eq(len(L.x_array), 2, 'derivatives are not logged')
    v = array('v', m.size)
    cond = how == 'conditioned'
    (o.fun_free_grad_cond if cond else o.fun_free_grad)(x, m.w, c=m.c, verbose=True)
    (o.fun_free_hessian_cond if cond else o.fun_free_hessian)(x, m.w, c=m.c, verbose=True)
    (o.fun_free_hvp_cond if cond else o.fun_free_hvp)(x, m.w, v, c=m.c, verbose=True)
    check_eq(len(L.x_array), 2, 'derivatives are not logged, however verbose')
    check_eq(len(L.val_array), 2, 'derivatives are not logged, however verbose')
    check_eq(L.value, m.free(at(y)), 'the value last logged')
    check_eq(L.iter, 2, 'the count')


def spec_timer():
    t = obj_lib.Timer()
    t.tic()
    t.toc('a', verbose=False)
    first = t.time_dict['a']
    t.toc('b', verbose=False)
    check_eq(len(t.time_dict), 2, 'one entry for each name')
    check_eq(t.time_dict['a'], first, 'other entries are left alone')


CASES_any_value = ['any', 'inf', '-inf', '1e300', '0', '-1e-300']


def spec_any_value(case):
    """Every value is logged, however large, small or infinite, and every point, however far."""
    n = dim('n')
    x = vb.VectorParam('x', size=n)
    c = real('c') if case == 'any' else float(case)
    o = obj_lib.Objective(x, lambda: c)
    o.logger.callback = lambda lg: None
    a, b = array('a', n), array('b', n)
    o.fun_free(a, verbose=True)
    o.fun_free(b, verbose=True)
    o.fun_free(b, verbose=True)
    L = o.logger
    check_eq(len(L.val_array), 3, 'every evaluation is logged')
    check_eq(len(L.x_array), 3, 'every evaluation is logged')
    check_eq(L.iter, 3, 'every evaluation counts')
    for k in range(3):
        check_eq(L.val_array[k], c, 'the value')
        check_eq(L.x_array[k], a if k == 0 else b, 'the point')
    check_eq(L.value, c, 'the last value')
