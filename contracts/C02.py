"""Free coordinates and admissible values determine each other."""
from leaf_values import *
from prelude import raises

CASES_free_value_free = LEAVES
CASES_value_free_value = LEAVES
OUT_LOWER = [('scalar', 'lower'), ('scalar', 'both'), ('vector', 'lower'), ('vector', 'both'), ('array2', 'lower'),
             ('array2', 'both')]
CASES_below_lower_bound = OUT_LOWER
OUT_UPPER = [('scalar', 'upper'), ('scalar', 'both'), ('vector', 'upper'), ('vector', 'both'), ('array2', 'upper'),
             ('array2', 'both')]
CASES_above_upper_bound = OUT_UPPER


def spec_free_value_free(kind):
    l = make_leaf(kind)
    f = free_of(l)
    l.p.set_free(f)
    check_eq(l.p.get_free(), f, 'get_free returns the coordinates that were set')
    v = l.p.get()
    l.p.set_free(free_of(l, 'g'))
    l.p.set_free(l.p.get_free())
    check_eq(l.p.get_free(), free_of(l, 'g'), 'setting the free value again changes nothing')


def spec_value_free_value(kind):
    l = make_leaf(kind)
    v = value_of(l, kind)
    l.p.set(v)
    check_eq(l.p.get(), v, 'get returns the value that was set')
    f = l.p.get_free()
    check(shape_eq(f, l.nf), 'the free value is a flat vector of the declared size')
    check_eq(l.p.get(), v, 'reading the free value leaves the value')
    l2 = make_leaf(kind)
    l2.p.set_free(f)
    check_eq(np.reshape(l2.p.get(), -1), np.reshape(v, -1), 'the free value determines the value')


def one_bad(l, kind, bad):
    """An admissible value except for one entry."""
    v = value_of(l, kind)
    if kind[0] == 'scalar':
        return bad
    i = [anyindex(d) for d in l.shape]
    if kind[0] == 'vector':
        return tabulate(lambda a: ite(a == i[0], bad, v[a]), *l.shape)
    return tabulate(lambda a, b: ite(a == i[0], ite(b == i[1], bad, v[a, b]), v[a, b]), *l.shape)


CLOSE = 1e-13
CASES_just_outside = OUT_LOWER + OUT_UPPER[::2]


def spec_just_outside(kind):
    """However little a value is outside its bounds, it is refused."""
    l = make_leaf(kind)
    d = CLOSE * pos('by')
    if kind[1] != 'upper':
        l.p.set(one_bad(l, kind, l.lb - d))
        check(raises(lambda: l.p.get_free()), 'a value with an entry just below its lower bound has no free value')
    if kind[1] != 'lower':
        l.p.set(one_bad(l, kind, l.ub + d))
        check(raises(lambda: l.p.get_free()), 'a value with an entry just above its upper bound has no free value')


def spec_below_lower_bound(kind):
    l = make_leaf(kind)
    d = pos('below')
    l.p.set(l.lb - d if kind[0] == 'scalar' else l.lb - posarray('below', *l.shape))
    check(raises(lambda: l.p.get_free()), 'a value below its lower bound has no free value')
    l.p.set(one_bad(l, kind, l.lb - d))
    check(raises(lambda: l.p.get_free()), 'a value with an entry below its lower bound has no free value')


def spec_above_upper_bound(kind):
    l = make_leaf(kind)
    d = pos('above')
    l.p.set(l.ub + d if kind[0] == 'scalar' else l.ub + posarray('above', *l.shape))
    check(raises(lambda: l.p.get_free()), 'a value above its upper bound has no free value')
    l.p.set(one_bad(l, kind, l.ub + d))
    check(raises(lambda: l.p.get_free()), 'a value with an entry above its upper bound has no free value')
