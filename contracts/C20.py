"""Names, dictionary values, text and the values view always describe the parameters' current values."""
from leaf_values import *
from prelude import raises

CASES_dictval = LEAVES
CASES_text = LEAVES
CASES_name_list = [('vector', 1), ('vector', 3), ('vector', 12), ('subspace', 3), ('scalar', 1), ('array', 1), ('posdef', 1), ('pdvec', 1),
                   ('pdarr', 1), ('simplex', 1)]


def same(p, nv):
    """What the dictionary form holds is the value held, entry by entry, as plain lists."""
    v = p.get()
    d = p.dictval()
    check(not isinstance(d, np.ndarray), 'plain numbers and lists')
    check_eq(np.reshape(np.array(d), (nv,)), np.reshape(np.array(v), (nv,)), 'the dictionary form is the value')
    check_eq(np.shape(np.array(d)), np.shape(np.array(v)), 'the dictionary form has the shape of the value')


def number_of_entries(l):
    n = 1
    for s in l.shape:
        n = n * s
    return n


def spec_dictval(kind):
    l = make_leaf(kind)
    n = number_of_entries(l)
    same(l.p, n)
    v = value_of(l, kind)
    l.p.set(v)
    check_eq(l.p.get(), v, 'the value set is the value held')
    s = snapshot(l.p.get())
    same(l.p, n)
    l.p.set_free(array('f', l.nf))
    same(l.p, n)
    l.p.set_vector(l.p.get_vector())
    same(l.p, n)
    l.p.set(v)
    l.p.dictval()
    l.p.names()
    check_unchanged(l.p.get(), s, 'reporting changes nothing')


def spec_text(kind):
    """Text starts with the name, shows the value held and can be had in every state."""
    l, k = make_leaf(kind), make_leaf(kind)
    check(str(l.p).startswith(l.p.name), 'the text names the parameter')
    v = value_of(l, kind)
    l.p.set(v)
    k.p.set_free(array('f', l.nf))
    str(k.p)
    k.p.set_vector(l.p.get_vector())
    str(k.p)
    k.p.set(v)
    check(str(k.p) == str(l.p), 'the same name and value give the same text')


def spec_name_list(case):
    kind, n = case
    if kind == 'vector':
        p = vb.VectorParam('a', size=n)
    elif kind == 'subspace':
        p = vb.SubspaceVectorParam('a', dim=n)
    elif kind == 'scalar':
        p = vb.ScalarParam('a')
    elif kind == 'array':
        p = vb.ArrayParam('a', shape=(2, 3))
    elif kind == 'posdef':
        p = vb.PosDefMatrixParam('a', size=2)
    elif kind == 'pdvec':
        p = vb.PosDefMatrixParamVector('a', length=2, matrix_size=2)
    elif kind == 'pdarr':
        p = vb.PosDefMatrixParamArray('a', array_shape=(2, 2), matrix_size=2)
    else:
        p = vb.SimplexParam('a', shape=(2, 3))
    names = list(np.atleast_1d(p.names()))
    if kind in ('vector', 'subspace'):
        check_eq(len(names), n, 'one name for each entry')
        for i in range(n):
            check(names[i] == 'a_' + str(i), 'entries are numbered in order')
    else:
        check_eq(len(names), 1, 'one name')
        check(names[0] == 'a', 'the name given')


def family():
    d = vb.ModelParamsDict('top')
    d.push_param(vb.ScalarParam('s', lb=0))
    d.push_param(vb.VectorParam('v', size=2))
    inner = vb.ModelParamsDict('in')
    inner.push_param(vb.ArrayParam('arr', shape=(2, 2)))
    inner.push_param(vb.VectorParam('w', size=1))
    d.push_param(inner)
    d.push_param(vb.SimplexParam('simp', shape=(1, 2)))
    return d


def spec_dictionary_names():
    d = family()
    want = ['s', 'v_0', 'v_1', 'arr', 'w_0', 'simp']
    got = list(d.names())
    check_eq(len(got), len(want), 'the names of all parameters')
    for i in range(6):
        check(got[i] == want[i], 'names in the order added, nested ones in place')
    d.set_name('other')
    check(d.name == 'other', 'renaming')
    check(str(d).startswith('other'), 'the text names the dictionary')
    check(len(d.names()) == 6, 'renaming the dictionary leaves the names inside')


def spec_dictionary_values():
    d = family()
    x = array('x', d.free_size())
    d.set_free(x)
    r = d.dictval()
    check(sorted(r.keys()) == ['in', 's', 'simp', 'v'], 'an entry for every parameter')
    check(sorted(r['in'].keys()) == ['arr', 'w'], 'nested entries')
    check_eq(np.array(r['v']), d['v'].get(), 'value of a vector')
    check_eq(np.ravel(r['s']), np.ravel(d['s'].get()), 'value of a scalar')
    check_eq(np.array(r['in']['arr']), d['in']['arr'].get(), 'value of a nested array')
    check_eq(np.array(r['in']['w']), d['in']['w'].get(), 'value of a nested vector')
    check_eq(np.array(r['simp']), d['simp'].get(), 'value of a simplex')
    before = snapshot(d.get_vector())
    str(d)
    check_unchanged(d.get_vector(), before, 'reporting changes nothing')


CASES_values_shapes = [(1, 3), (3, 1), (1, 1), (1, 2, 1), (2, 3), (4,)]


def spec_values_shapes(shape):
    """A value of the parameter's shape is taken as it is, whatever that shape."""
    d = vb.ModelParamsDict('d')
    d.push_param(vb.ArrayParam('a', shape=shape))
    y = array('y', *shape)
    d.values['a'] = y
    check(np.shape(d['a'].get()) == shape, 'shape')
    check_eq(d['a'].get(), y, 'writing through the view')
    check_eq(d.values['a'], y, 'reading through the view')
    d['a'].set(2 * y)
    check_eq(d.get()['a'], 2 * y, 'reading through get')
    check_eq(np.array(d.dictval()['a']), 2 * y, 'dictionary form')


def spec_values_view():
    """The values view reads and writes the parameters themselves."""
    d = family()
    y, z = array('y', 2), array('z', 2)
    d.values['v'] = y
    check_eq(d['v'].get(), y, 'writing through the view sets the parameter')
    check_eq(d.values['v'], y, 'reading through the view')
    check_eq(d.get()['v'], y, 'reading through get')
    d['v'].set(z)
    check_eq(d.values['v'], z, 'the view follows the parameter')
    check_eq(d.get()['v'], z, 'the view follows the parameter')
    d.values['in']['arr'] = np.reshape(array('q', 4), (2, 2))
    check_eq(d['in']['arr'].get(), np.reshape(array('q', 4), (2, 2)), 'writing through nested views')
    check_eq(d['v'].get(), z, 'other parameters are left alone')

    def wrong():
        d.values['v'] = array('u', 3)
    check(raises(wrong), 'values of the wrong size are refused')
    check_eq(d.values['v'], z, 'and nothing changes')
    check(raises(lambda: d['absent']), 'unknown names are refused')
    check(raises(lambda: d.values['absent']), 'unknown names are refused')
    check(raises(lambda: d.push_param(vb.ScalarParam('v'))), 'a second parameter of the same name is refused')
