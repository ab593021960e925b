"""A parameter dictionary is the concatenation of its parameters, in the order they were added."""
from leaf_values import *
from prelude import raises

KINDS = [('scalar', 'lower'), ('vector', 'both'), ('array2', 'upper'), ('posdef', 'zero'), ('simplex', ''), ('subspace', '')]
PAIRS = [(a, b) for a in KINDS for b in KINDS]
CASES_vector_layout = PAIRS
CASES_free_layout = [(a, b) for a in KINDS for b in KINDS if a != ('posdef', 'zero') and b != ('posdef', 'zero')] + \
    [(('posdef', 'zero'), ('vector', 'both')), (('vector', 'both'), ('posdef', 'zero'))]


def build(ka, kb):
    mp = vb.ModelParamsDict('params')
    a = make_leaf(ka, 'A')
    b = make_leaf(kb, 'B')
    mp.push_param(a.p)
    mp.push_param(b.p)
    return mp, a, b


def spec_vector_layout(kinds):
    mp, a, b = build(*kinds)
    check_eq(mp.vector_size(), a.nv + b.nv, 'the vector size is the sum of the sizes')
    a.p.set(value_of(a, kinds[0], 'va'))
    b.p.set(value_of(b, kinds[1], 'vb'))
    va, vv = a.p.get_vector(), b.p.get_vector()
    v = mp.get_vector()
    check(shape_eq(v, a.nv + b.nv), 'get_vector has vector_size() entries')
    check_eq(v[:a.nv], va, 'the first block is the first parameter')
    check_eq(v[a.nv:], vv, 'the second block is the second parameter')
    w = array('w', a.nv + b.nv)
    mp.set_vector(w)
    check_eq(a.p.get_vector(), w[:a.nv], 'set_vector gives the first parameter its block')
    check_eq(b.p.get_vector(), w[a.nv:], 'set_vector gives the second parameter its block')
    check_eq(mp.get_vector(), w, 'get_vector returns what was set')
    i = mp.vector_indices_dict['pB']
    check_eq(len(i), b.nv, 'one recorded vector index per entry')
    check_eq(i[0], a.nv, 'the recorded vector indices start after the first parameter')
    check_eq(mp.vector_indices_dict['pA'][0], 0, 'the recorded vector indices start at zero')
    check_eq(len(mp.vector_indices_dict['pA']), a.nv, 'one recorded vector index per entry')


def spec_free_layout(kinds):
    mp, a, b = build(*kinds)
    check_eq(mp.free_size(), a.nf + b.nf, 'the free size is the sum of the sizes')
    a.p.set(value_of(a, kinds[0], 'va'))
    b.p.set(value_of(b, kinds[1], 'vb'))
    fa, fb = a.p.get_free(), b.p.get_free()
    f = mp.get_free()
    check(shape_eq(f, a.nf + b.nf), 'get_free has free_size() entries')
    check_eq(f[:a.nf], fa, 'the first block is the first parameter')
    check_eq(f[a.nf:], fb, 'the second block is the second parameter')
    w = array('w', a.nf + b.nf)
    a2, b2 = make_leaf(kinds[0], 'A'), make_leaf(kinds[1], 'B')
    a2.p.set_free(w[:a.nf])
    b2.p.set_free(w[a.nf:])
    mp.set_free(w)
    check_eq(a.p.get(), a2.p.get(), 'set_free gives the first parameter its block')
    check_eq(b.p.get(), b2.p.get(), 'set_free gives the second parameter its block')
    check_eq(mp.free_to_vector(w), mp.get_vector(), 'free_to_vector is set_free then get_vector')
    i = mp.free_indices_dict['pB']
    check_eq(len(i), b.nf, 'one recorded free index per coordinate')
    check_eq(i[0], a.nf, 'the recorded free indices start after the first parameter')
    check_eq(mp.free_indices_dict['pA'][0], 0, 'the recorded free indices start at zero')
    check_eq(len(mp.free_indices_dict['pA']), a.nf, 'one recorded free index per coordinate')


def spec_nested():
    """A dictionary inside a dictionary keeps its block."""
    n, k = dim('n'), dim('k')
    lb = real('lb')
    inner = vb.ModelParamsDict('inner')
    inner.push_param(vb.VectorParam('x', size=n, lb=lb))
    inner.push_param(vb.ScalarParam('y'))
    r = dim('r', 2)
    inner.push_param(vb.SimplexParam('s', shape=(k, r)))
    mp = vb.ModelParamsDict('outer')
    mp.push_param(vb.VectorParam('a', size=k))
    mp.push_param(inner)
    mp.push_param(vb.ScalarParam('z', ub=lb))
    nf = k + n + 1 + k * (r - 1) + 1
    nv = k + n + 1 + k * r + 1
    check_eq(mp.free_size(), nf, 'free size of a nested dictionary')
    check_eq(mp.vector_size(), nv, 'vector size of a nested dictionary')
    f = array('f', nf)
    mp.set_free(f)
    check_eq(mp['a'].get(), f[:k], 'first block')
    check_eq(mp['inner']['x'].get(), np.exp(f[k:k + n]) + lb, 'second block, first parameter')
    check_eq(mp['inner']['y'].get_vector(), f[k + n:k + n + 1], 'second block, second parameter')
    check_eq(mp['z'].get_free(), f[nf - 1:], 'last block')
    check_eq(mp.get_free(), f, 'round trip')
    v = array('v', nv)
    mp.set_vector(v)
    check_eq(mp.get_vector(), v, 'vector round trip')
    check_eq(mp['inner']['x'].get(), v[k:k + n], 'vector second block')
    check_eq(mp['inner']['s'].get()[0, 0], v[k + n + 1], 'vector second block, third parameter')
    s = snapshot(mp.get_vector())
    m = dim('m')
    assume(m != nf)
    check(raises(lambda: mp.set_free(array('bad', m))), 'a free vector of the wrong size is refused')
    check_unchanged(mp.get_vector(), s, 'the refused vector leaves every parameter unchanged')
    m2 = dim('m2')
    assume(m2 != nv)
    check(raises(lambda: mp.set_vector(array('bad2', m2))), 'a vector of the wrong size is refused')
    check_unchanged(mp.get_vector(), s, 'the refused vector leaves every parameter unchanged')


def spec_names_and_access():
    n = dim('n')
    mp = vb.ModelParamsDict('params')
    p = vb.VectorParam('x', size=n)
    q = vb.ScalarParam('y')
    mp.push_param(p)
    mp.push_param(q)
    check(same_object(mp['x'], p), 'indexing returns the parameter that was added')
    check(same_object(mp['y'], q), 'indexing returns the parameter that was added')
    v = array('v', n)
    mp['x'].set(v)
    check_eq(mp.get()['x'], v, 'the values view reads the parameter')
    w = array('w', n)
    mp.get()['x'] = w
    check_eq(p.get(), w, 'the values view writes the parameter')
    s0 = mp.vector_size()
    f0 = mp.free_size()
    t = snapshot(mp.get_vector())
    check(raises(lambda: mp.push_param(vb.VectorParam('x', size=n + 1))), 'a second parameter of the same name is refused')
    check_eq(mp.vector_size(), s0, 'the refused parameter leaves the vector size')
    check_eq(mp.free_size(), f0, 'the refused parameter leaves the free size')
    check_unchanged(mp.get_vector(), t, 'the refused parameter leaves the values')
    check(raises(lambda: mp['nothere']), 'an unknown name is refused')


def spec_names_that_resemble():
    """Only the same name is the same parameter."""
    mp = vb.ModelParamsDict('params')
    names = ['alpha', 'a', 'alpha_1', 'lph', 'Alpha', 'alpha ', '1', '']
    for k in range(len(names)):
        mp.push_param(vb.VectorParam(names[k], size=k + 1))
    check_eq(mp.vector_size(), 36, 'every parameter counts')
    for k in range(len(names)):
        check_eq(mp[names[k]].vector_size(), k + 1, 'each name reaches its own parameter')
    check(raises(lambda: mp.push_param(vb.ScalarParam('a'))), 'a second parameter of the same name is refused')


def spec_many():
    """Any number of parameters of any size."""
    k = dim('k')
    mp = vb.ModelParamsDict('params')
    for i in range(3):
        mp.push_param(vb.VectorParam('p' + str(i), size=k + i))
    f = array('f', 3 * k + 3)
    mp.set_free(f)
    check_eq(mp['p0'].get(), f[:k], 'block 0')
    check_eq(mp['p1'].get(), f[k:2 * k + 1], 'block 1')
    check_eq(mp['p2'].get(), f[2 * k + 1:], 'block 2')
    check_eq(mp.free_indices_dict['p2'][0], 2 * k + 1, 'recorded indices')
    check_eq(mp.vector_indices_dict['p2'][0], 2 * k + 1, 'recorded indices')


CASES_offsets = KINDS


def spec_offsets(kind):
    """Reading and setting at an offset of a longer vector touches that segment and gives the offset after it."""
    from LinearResponseVariationalBayes import Parameters as par
    l = make_leaf(kind)
    k, m = dim('before'), dim('after')
    l.p.set(value_of(l, kind))
    f, v = l.p.get_free(), l.p.get_vector()
    F, V = array('F', k + l.nf + m), array('V', k + l.nv + m)
    F0, V0 = F + 0, V + 0
    check_eq(par.get_free_offset(l.p, F, k), k + l.nf, 'the next offset after reading a free vector')
    check_eq(F[:k], F0[:k], 'nothing before the segment')
    check_eq(F[k:k + l.nf], f, 'the segment')
    check_eq(F[k + l.nf:], F0[k + l.nf:], 'nothing after the segment')
    check_eq(par.get_vector_offset(l.p, V, k), k + l.nv, 'the next offset after reading a vector')
    check_eq(V[:k], V0[:k], 'nothing before the segment')
    check_eq(V[k:k + l.nv], v, 'the segment')
    check_eq(V[k + l.nv:], V0[k + l.nv:], 'nothing after the segment')
    W = array('W', k + l.nv + m)
    check_eq(par.set_vector_offset(l.p, W, k), k + l.nv, 'the next offset after setting a vector')
    check_eq(l.p.get_vector(), W[k:k + l.nv], 'the vector at the offset')
    G = array('G', k + l.nf + m)
    check_eq(par.set_free_offset(l.p, G, k), k + l.nf, 'the next offset after setting a free vector')
    if kind[0] != 'posdef':
        check_eq(l.p.get_free(), G[k:k + l.nf], 'the free vector at the offset')


CASES_jacobian_offsets = CASES_offsets


def spec_jacobian_offsets(kind):
    """The Jacobian and Hessians of the segment at an offset, and both offsets after it."""
    from LinearResponseVariationalBayes import Parameters as par
    l = make_leaf(kind)
    k, v, m = dim('before'), dim('vbefore'), dim('after')
    F = array('F', k + l.nf + m)
    fo, vo, jac_ = par.free_to_vector_jac_offset(l.p, F, k, v)
    check_eq(fo, k + l.nf, 'the next offset into the free vector')
    check_eq(vo, v + l.nv, 'the next offset into the vector')
    check_eq(jac_.toarray(), l.p.free_to_vector_jac(F[k:k + l.nf]).toarray(), 'the Jacobian at the segment')


def many(count=20):
    """Parameters of changing kinds: (kind, free size, size)."""
    mp = vb.ModelParamsDict('params')
    parts = []
    for i in range(count):
        name = 'p%d' % i
        if i % 5 == 0:
            mp.push_param(vb.SimplexParam(name, shape=(1, 2 + i % 2)))
            parts.append((name, 1 + i % 2, 2 + i % 2))
        elif i % 5 == 2:
            mp.push_param(vb.VectorParam(name, size=2))
            parts.append((name, 2, 2))
        elif i % 5 == 3:
            mp.push_param(vb.ArrayParam(name, shape=(1, 3)))
            parts.append((name, 3, 3))
        else:
            mp.push_param(vb.ScalarParam(name))
            parts.append((name, 1, 1))
    return mp, parts


def spec_many():
    """However many parameters there are, each has its own segment of either vector."""
    mp, parts = many()
    other, _ = many()
    nf, nv = sum([q[1] for q in parts]), sum([q[2] for q in parts])
    check_eq(mp.free_size(), nf, 'free size')
    check_eq(mp.vector_size(), nv, 'vector size')
    f, v = array('f', nf), posarray('v', nv)
    mp.set_free(f)
    a = 0
    for name, k, _ in parts:
        other[name].set_free(f[a:a + k])
        check_eq(mp[name].get(), other[name].get(), 'set from its own segment of the free vector')
        check_eq(mp.free_indices_dict[name][0], a, 'free indices')
        check_eq(len(mp.free_indices_dict[name]), k, 'free indices')
        a = a + k
    check_eq(mp.get_free(), f, 'round trip')
    mp.set_vector(v)
    a = 0
    for name, _, k in parts:
        check_eq(mp[name].get_vector(), v[a:a + k], 'set from its own segment of the vector')
        check_eq(mp.vector_indices_dict[name][0], a, 'vector indices')
        check_eq(len(mp.vector_indices_dict[name]), k, 'vector indices')
        a = a + k
    check_eq(mp.get_vector(), v, 'round trip')
    check_eq(len(mp.dictval()), 20, 'all of them')


def spec_many_jacobian():
    mp, parts = many(10)
    other, _ = many(10)
    nf, nv = sum([q[1] for q in parts]), sum([q[2] for q in parts])
    f = array('f', nf)
    J = mp.free_to_vector_jac(f).toarray()
    H = mp.free_to_vector_hess(f)
    check(shape_eq(J, nv, nf), 'shape')
    check_eq(len(H), nv, 'a Hessian for each entry')
    a, b = 0, 0
    want = np.zeros((nv, nf))
    for name, k, n in parts:
        want[b:b + n, a:a + k] = other[name].free_to_vector_jac(f[a:a + k]).toarray()
        a, b = a + k, b + n
    check_eq(J, want, 'a block for each parameter')
