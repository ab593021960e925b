"""A freshly declared parameter holds a valid value: the default, or the one it was given."""
from support import *
from prelude import raises
from leaf_values import value_of

CASES_default = LEAVES
CASES_given_value = LEAVES


def spec_default(kind):
    l = make_leaf(kind)
    v = l.p.get()
    in_support(l, kind, v)
    f = l.p.get_free()
    check(shape_eq(f, l.nf), 'the default value has free coordinates')
    l2 = make_leaf(kind)
    l2.p.set_free(f)
    check_eq(np.reshape(l2.p.get(), -1), np.reshape(v, -1), 'the default value survives the free round trip')
    check(shape_eq(l.p.get_vector(), l.nv), 'the default value has vector coordinates')


def spec_given_value(kind):
    l = make_leaf(kind)
    v = value_of(l, kind)
    l2 = make_leaf(kind, val=v)
    check_eq(l2.p.get(), v, 'a parameter declared with a value holds that value')


def spec_named_constructors():
    """The distribution parameters hold valid defaults."""
    g = vb.GammaParam('g')
    check(g['shape'].get() > 0, 'a gamma shape is positive')
    check(g['rate'].get() > 0, 'a gamma rate is positive')
    sh, ra = pos('minshape'), pos('minrate')
    g2 = vb.GammaParam('g2', min_shape=sh, min_rate=ra)
    check(g2['shape'].get() > sh, 'a gamma shape exceeds its minimum')
    check(g2['rate'].get() > ra, 'a gamma rate exceeds its minimum')
    m = dim('m')
    lb = pos('mininfo')
    u = vb.UVNParam('u', min_info=lb)
    check(u['info'].get() > lb, 'the information exceeds its minimum')
    ua = vb.UVNParamArray('ua', shape=(m, 2), min_info=lb)
    check(allindex(ua['info'].get()) > lb, 'every information exceeds its minimum')
    uv = vb.UVNParamVector('uv', length=m, min_info=lb)
    check(allindex(uv['info'].get()) > lb, 'every information exceeds its minimum')
    da = vb.DirichletParamArray('da', shape=(m, 2))
    check(allindex(da['alpha'].get()) > 0, 'every concentration is positive')
    ma = vb.UVNMomentParamArray('ma', shape=(m, 2), min_info=lb)
    check(allindex(ma['e2'].get()) > lb, 'every second moment exceeds its minimum')
    mn = vb.MVNArray('mn', shape=(m, 2), min_info=lb)
    check(allindex(mn['info'].get()) > lb, 'every information exceeds its minimum')
    min_alpha = pos('minalpha')
    db = vb.DirichletParamArray('db', shape=(m, 2), min_alpha=min_alpha)
    check(allindex(db['alpha'].get()) > min_alpha, 'every concentration exceeds its minimum')


def spec_wishart_default():
    d = dim('d')
    w = vb.WishartParam('w', size=d)
    check(w['df'].get() > d - 1, 'the degrees of freedom exceed the dimension less one')
    check(shape_eq(w['v'].get(), d, d), 'the scale matrix has the declared size')
    extra = pos('extra')
    w2 = vb.WishartParam('w2', size=d, min_df=d + extra)
    check(w2['df'].get() > d + extra, 'the degrees of freedom exceed their minimum')
    lb = pos('diaglb')
    w3 = vb.WishartParam('w3', size=d, diag_lb=lb)
    j = anyindex(d)
    check(w3['v'].get()[j, j] > lb, 'the diagonal of the scale exceeds its minimum')
    u = vb.MVNParam('u', dim=d, min_info=lb)
    check(shape_eq(u['mean'].get(), d), 'the mean has the declared size')
    i = anyindex(d)
    check(u['info'].get()[i, i] > lb, 'the information exceeds its minimum')


CASES_far_bounds = [('0', '1e7'), ('0', '1e-7'), ('-1e8', '1e8'), ('1e6', '1000001'), ('-1000001', '-1e6'), ('-1e-9', '0'),
                    ('0', 'inf'), ('1e9', 'inf'), ('-inf', '0'), ('-inf', '-1e9'), ('-1e9', 'inf'), ('-inf', '1e9'), ('-1', '1e12')]


def spec_far_bounds(case):
    """Bounds of any magnitude."""
    lb, ub = float(case[0]), float(case[1])
    for p in [vb.ScalarParam('s', lb=lb, ub=ub), vb.VectorParam('v', 2, lb=lb, ub=ub), vb.ArrayParam('a', (1, 2), lb=lb, ub=ub)]:
        v = np.reshape(p.get(), -1)
        for i in range(p.vector_size()):
            check(v[i] > lb, 'the default value exceeds the lower bound')
            check(v[i] < ub, 'the default value is below the upper bound')
        f = p.get_free()
        check(not raises(lambda: p.set_free(f)), 'its free coordinates are accepted')
        check_eq(np.reshape(p.get(), -1), v, 'and give it back')
