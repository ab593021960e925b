"""Unconstrained coordinates always give a value inside the declared support."""
from support import *
from prelude import raises

CASES_support = LEAVES


def spec_support(kind):
    l = make_leaf(kind)
    f = free_of(l)
    l.p.set_free(f)
    v = l.p.get()
    if kind[0] == 'scalar' and kind[1] == 'none':
        check_eq(v[0], f[0], 'an unbounded value is its own free value')
    in_support(l, kind, v)


CASES_support_by_vector_map = LEAVES


def spec_support_by_vector_map(kind):
    """The free-to-vector map gives the vector form of a value inside the support."""
    l = make_leaf(kind)
    f = free_of(l)
    w = l.p.free_to_vector(f)
    l2 = make_leaf(kind)
    l2.p.set_free(f)
    check_eq(np.reshape(w, -1), np.reshape(l2.p.get_vector(), -1), 'free_to_vector is the vector form of set_free')
    check_eq(l.p.get(), l2.p.get(), 'free_to_vector leaves the value it returns')


def spec_subspace_general():
    """An arbitrary constraint matrix (full row rank)."""
    n = dim('n', 3)
    X = array('X', 2, n)
    p = vb.SubspaceVectorParam('p', dim=n, perp_subspace=X)
    f = array('f', n - 2)
    p.set_free(f)
    check_eq(np.matmul(X, p.get()), np.zeros(2), 'the value is orthogonal to every constraint row')
    check_eq(p.get_free(), f, 'round trip')


def exceeds(v, lb, msg):
    check(allindex(v) > lb, msg)


def spec_distributions():
    """The parameters of the named distributions stay inside the bounds they were declared with, each its own."""
    m, d = dim('m'), dim('d')
    a, b = pos('bounda'), pos('boundb')
    g = vb.GammaParam('g', min_shape=a, min_rate=b)
    f = array('f1', 2)
    g.set_free(f)
    exceeds(g['shape'].get(), a, 'a gamma shape exceeds its minimum')
    exceeds(g['rate'].get(), b, 'a gamma rate exceeds its minimum')
    check_eq(g.get_free(), f, 'round trip')
    u = vb.UVNParam('u', min_info=a)
    f = array('f2', 2)
    u.set_free(f)
    exceeds(u['info'].get(), a, 'the information exceeds its minimum')
    check_eq(np.reshape(u['mean'].get(), -1), f[:1], 'the mean is unbounded')
    uv = vb.UVNParamVector('uv', length=m, min_info=a)
    f = array('f3', 2 * m)
    uv.set_free(f)
    exceeds(uv['info'].get(), a, 'every information exceeds its minimum')
    check_eq(uv['mean'].get(), f[:m], 'the means are unbounded')
    ua = vb.UVNParamArray('ua', shape=(m, d), min_info=a)
    f = array('f4', 2 * m * d)
    ua.set_free(f)
    exceeds(ua['info'].get(), a, 'every information exceeds its minimum')
    check_eq(np.reshape(ua['mean'].get(), -1), f[:m * d], 'the means are unbounded')
    ma = vb.UVNMomentParamArray('ma', shape=(m, d), min_info=a)
    ma.set_free(f)
    exceeds(ma['e2'].get(), a, 'every second moment exceeds its minimum')
    mn = vb.MVNArray('mn', shape=(m, d), min_info=a)
    f = array('f5', m * d + m)
    mn.set_free(f)
    exceeds(mn['info'].get(), a, 'every information exceeds its minimum')
    check_eq(np.reshape(mn['mean'].get(), -1), f[:m * d], 'the means are unbounded')
    da = vb.DirichletParamArray('da', shape=(m, d), min_alpha=a)
    f = array('f6', m * d)
    da.set_free(f)
    exceeds(da['alpha'].get(), a, 'every concentration exceeds its minimum')


def spec_matrix_distributions():
    d = dim('d')
    a, b = pos('bounda'), pos('boundb')
    i = anyindex(d)
    v = d * (d + 1) // 2
    w = vb.WishartParam('w', size=d, diag_lb=b)
    w.set_free(array('f1', v + 1))
    exceeds(w['df'].get(), d - 1, 'the degrees of freedom exceed the dimension less one')
    check(np.diag(w['v'].get())[i] > b, 'every diagonal entry of the scale exceeds its minimum')
    w2 = vb.WishartParam('w2', size=d, diag_lb=b, min_df=d + a)
    w2.set_free(array('f1', v + 1))
    exceeds(w2['df'].get(), d + a, 'the degrees of freedom exceed their minimum')
    check(np.diag(w2['v'].get())[i] > b, 'every diagonal entry of the scale exceeds its minimum')
    u = vb.MVNParam('u', dim=d, min_info=a)
    f = array('f2', d + v)
    u.set_free(f)
    check(np.diag(u['info'].get())[i] > a, 'every diagonal entry of the information exceeds its minimum')
    check_eq(u['mean'].get(), f[:d], 'the mean is unbounded')


def spec_bad_bounds():
    """Bounds that leave no support are refused."""
    lb = real('lb')
    ub = lb - pos('gap')
    check(raises(lambda: vb.ScalarParam('p', lb=lb, ub=ub)), 'a scalar with crossed bounds is refused')
    check(raises(lambda: vb.VectorParam('p', size=3, lb=lb, ub=ub)), 'a vector with crossed bounds is refused')
    check(raises(lambda: vb.ArrayParam('p', shape=(2, 2), lb=lb, ub=ub)), 'an array with crossed bounds is refused')
    check(raises(lambda: vb.ScalarParam('p', lb=lb, ub=lb)), 'a scalar with equal bounds is refused')
    check(raises(lambda: vb.VectorParam('p', size=3, lb=lb, ub=lb)), 'a vector with equal bounds is refused')
    check(raises(lambda: vb.ArrayParam('p', shape=(2, 2), lb=lb, ub=lb)), 'an array with equal bounds is refused')
    neg = -pos('neg')
    check(raises(lambda: vb.PosDefMatrixParam('p', size=2, diag_lb=neg)), 'a negative diagonal bound is refused')
    check(raises(lambda: vb.PosDefMatrixParamVector('p', length=2, matrix_size=2, diag_lb=neg)),
          'a negative diagonal bound is refused')
    check(raises(lambda: vb.PosDefMatrixParamArray('p', array_shape=(2,), matrix_size=2, diag_lb=neg)),
          'a negative diagonal bound is refused')
    check(raises(lambda: vb.ScalarParam('p', lb=lb, ub=lb, val=lb)), 'a scalar with equal bounds and a value is refused')
    check(raises(lambda: vb.VectorParam('p', size=3, lb=lb, ub=lb, val=np.full(3, lb))), 'a vector with equal bounds and a value is refused')
    check(raises(lambda: vb.ArrayParam('p', shape=(2, 2), lb=lb, ub=lb, val=np.full((2, 2), lb))),
          'an array with equal bounds and a value is refused')


def spec_bad_degrees_of_freedom():
    """A Wishart distribution needs more degrees of freedom than its dimension less one."""
    d = dim('d', 2)
    check(raises(lambda: vb.WishartParam('w', size=d, min_df=d - 1.25)), 'a minimum below the dimension less one is refused')
    w = vb.WishartParam('w', size=d, min_df=d - 0.75)
    w['df'].set(d - 0.5)
    check_eq(w['df'].get(), d - 0.5, 'degrees of freedom above the declared minimum')


def spec_maps_refuse_bad_bounds():
    """The maps between bounded values and the line refuse bounds that leave no support."""
    from LinearResponseVariationalBayes import Parameters as par
    n = dim('n')
    lb = real('lb')
    f = array('f', n)
    check(raises(lambda: par.constrain(f, lb, lb)), 'equal bounds are refused')
    check(raises(lambda: par.constrain(f, lb, lb - pos('gap'))), 'crossed bounds are refused')
    check(raises(lambda: par.unconstrain(np.full(n, lb), lb, lb)), 'equal bounds are refused')
