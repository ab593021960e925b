"""Calls leave what they are given alone, and the answer of one does not depend on the ones before or on other objects."""
from leaf_values import *
from objective import *
import scipy as sp
import scipy.sparse
import C12_conv as conv
import C11_two as two
from LinearResponseVariationalBayes import ExponentialFamilies as ef
from LinearResponseVariationalBayes import Modeling as modeling
from LinearResponseVariationalBayes import OptimizationUtils as opt
from LinearResponseVariationalBayes import ConjugateGradient as cg
from LinearResponseVariationalBayes import ModelSensitivity as ms
from LinearResponseVariationalBayes import regression_utils as reg
from LinearResponseVariationalBayes.Parameters import convert_vector_to_free_hessian
from prelude import raises


class Keep(object):
    """Remembers values and states that they are as they were."""
    def __init__(self, *xs):
        self.xs = [(x, snapshot(x)) for x in xs]

    def same(self, msg):
        for x, s in self.xs:
            check_unchanged(x, s, msg + ' leaves its arguments alone')


CASES_leaf_arguments = LEAVES


def spec_leaf_arguments(kind):
    l = make_leaf(kind)
    p = l.p
    f, v, x = free_of(l), array('u', l.nv), value_of(l, kind)
    k = Keep(f, v, x)
    p.set_free(f)
    k.same('set_free')
    p.get_free()
    p.get_vector()
    k.same('reading a parameter set from its free vector')
    p.free_to_vector(f)
    k.same('free_to_vector')
    p.set_vector(p.get_vector())
    p.set(x)
    k.same('set')
    p.get_free()
    p.get_vector()
    p.dictval()
    k.same('reading a parameter that was set')
    if kind[0] not in ('simplex', 'posdef', 'pdvec', 'pdarr1', 'pdarr2', 'subspace'):
        w = p.get_vector()
        k2 = Keep(w)
        p.set_vector(w)
        k2.same('set_vector')
        p.get_free()
        k2.same('reading a parameter set from a vector')


CASES_leaf_derivatives = [k for k in LEAVES if k[0] not in ('pdarr2', 'array3')]


def spec_leaf_derivatives(kind):
    """The derivatives at one point do not depend on those asked for before."""
    l = make_leaf(kind)
    p, q = l.p, make_leaf(kind).p
    f, g = free_of(l), free_of(l, 'g')
    k = Keep(f, g)
    p.free_to_vector_jac(f)
    J = p.free_to_vector_jac(g)
    check_eq(J.toarray(), q.free_to_vector_jac(g).toarray(), 'Jacobian at a second point')
    k.same('free_to_vector_jac')


CASES_leaf_hessians = [('scalar', 'lower'), ('scalar', 'both'), ('vector', 'lower'), ('vector', 'both'), ('array2', 'upper'), ('simplex', ''),
                       ('posdef', 'lb'), ('pdvec', 'zero'), ('pdarr1', 'lb')]


def spec_leaf_hessians(kind):
    l = make_leaf(kind)
    p, q = l.p, make_leaf(kind).p
    f, g = free_of(l), free_of(l, 'g')
    k = Keep(f, g)
    p.free_to_vector_hess(f)
    H, G = p.free_to_vector_hess(g), q.free_to_vector_hess(g)
    check_eq(len(H), len(G), 'one Hessian for each entry')
    for a, b in zip(H, G):
        check_eq(a.toarray(), b.toarray(), 'Hessian at a second point')
    k.same('free_to_vector_hess')


CASES_leaf_separate = LEAVES


def spec_leaf_separate(kind):
    """Two parameters declared separately share nothing; nor do two declared in the same way."""
    a, b = make_leaf(kind), make_leaf(kind)
    f, g = free_of(a), free_of(a, 'g')
    a.p.set_free(f)
    s = a.p.get_vector() + 0
    b.p.set_free(g)
    check_eq(a.p.get_vector(), s, 'setting one leaves the other')
    check_eq(a.p.get_free(), f, 'setting one leaves the other')
    a.p.set_free(f)
    a.p.set_free(g)
    check_eq(a.p.get_vector(), b.p.get_vector(), 'the value depends on the last vector only')


def simplex_rows(f, n, d):
    rows = []
    for i in range(n):
        x = [1.0] + [np.exp(f[i * (d - 1) + j]) for j in range(d - 1)]
        t = sum(x)
        rows += [y / t for y in x]
    return np.array(rows)


def ld2(f, lb):
    a, b, c = np.exp(f[0]), f[1], np.exp(f[2])
    return np.array([a * a + lb, a * b, b * b + c * c + lb])


def logit3(f, lo, hi):
    return lo + (hi - lo) * np.exp(f) / (1 + np.exp(f))


def three_coordinates():
    """Parameters of three free coordinates each, with the maps to their vectors."""
    l1, l2, lo = real('l1'), real('l2'), real('lo')
    hi, up = lo + pos('gap'), real('up')
    a, b = pos('a'), pos('b')
    par = vb.ModelParamsDict('par')
    for k in range(3):
        par.push_param(vb.ScalarParam('x' + str(k), lb=l1))
    return [(vb.VectorParam('p', size=3), lambda f: f),
            (vb.VectorParam('p', size=3, lb=l1), lambda f: np.exp(f) + l1),
            (vb.VectorParam('p', size=3, lb=l2), lambda f: np.exp(f) + l2),
            (vb.VectorParam('p', size=3, lb=lo, ub=hi), lambda f: logit3(f, lo, hi)),
            (vb.ArrayParam('p', shape=(3, 1), ub=up), lambda f: up - np.exp(-1 * f)),
            (vb.ArrayParam('p', shape=(1, 3), lb=lo), lambda f: np.exp(f) + lo),
            (vb.PosDefMatrixParam('p', size=2, diag_lb=a), lambda f: ld2(f, a)),
            (vb.PosDefMatrixParam('p', size=2, diag_lb=b), lambda f: ld2(f, b)),
            (vb.PosDefMatrixParamVector('p', length=3, matrix_size=1, diag_lb=a), lambda f: np.exp(2 * f) + a),
            (vb.PosDefMatrixParamArray('p', array_shape=(1,), matrix_size=2, diag_lb=b), lambda f: ld2(f, b)),
            (vb.SimplexParam('p', shape=(1, 4)), lambda f: simplex_rows(f, 1, 4)),
            (vb.SimplexParam('p', shape=(3, 2)), lambda f: simplex_rows(f, 3, 2)),
            (par, lambda f: np.exp(f) + l1)]


CASES_apart = ['forwards', 'backwards']


def spec_apart(order):
    """Parameters of the same number of coordinates, at the same coordinates, each keep to their own map."""
    ps = three_coordinates()
    if order == 'backwards':
        ps = ps[::-1]
    f = array('f', 3)
    for p, formula in ps:
        p.set_free(f)
        check_eq(p.get_vector(), formula(f), 'value')
        check_eq(p.free_to_vector_jac(f).toarray(), jac(formula, f), 'Jacobian')
    for p, formula in ps:
        H = p.free_to_vector_hess(f)
        n = len(H)
        check_eq(n, p.vector_size(), 'one Hessian for each entry')
        for k in range(n):
            check_eq(H[k].toarray(), hess(lambda x: formula(x)[k], f), 'Hessian')


def dictionary(tag=''):
    par = vb.ModelParamsDict('par' + tag)
    n = dim('n')
    par.push_param(vb.VectorParam('x', size=n, lb=real('lb')))
    par.push_param(vb.ScalarParam('y', lb=0.0, ub=7.0))
    par.push_param(vb.SimplexParam('z', shape=(2, 3)))
    return par, n + 1 + 4, n + 1 + 6


def spec_dictionary():
    a, nf, nv = dictionary()
    b, _, _ = dictionary()
    empty = vb.ModelParamsDict('empty')
    check_eq(empty.free_size(), 0, 'a new dictionary is empty')
    f, g = array('f', nf), array('g', nf)
    k = Keep(f, g)
    a.set_free(f)
    s = a.get_vector() + 0
    b.set_free(g)
    check_eq(a.get_vector(), s, 'setting one leaves the other')
    k.same('set_free')
    v = b.get_vector()
    k2 = Keep(v)
    a.set_vector(v)
    k2.same('set_vector')
    check_eq(a.get_free(), g, 'the value depends on the last vector only')
    a.set_free(f)
    k2.same('setting the dictionary afterwards')
    b.push_param(vb.ScalarParam('w'))
    check_eq(a.free_size(), nf, 'adding to one leaves the other')
    check_eq(b.free_size(), nf + 1, 'adding to one')
    a.free_to_vector_jac(f)
    J = a.free_to_vector_jac(g)
    c, _, _ = dictionary()
    check_eq(J.toarray(), c.free_to_vector_jac(g).toarray(), 'Jacobian at a second point')
    k.same('free_to_vector_jac')


def spec_get_does_not_show_later_values():
    """Free vectors and vectors read earlier are not rewritten by setting the parameter."""
    a, nf, nv = dictionary()
    f, g = array('f', nf), array('g', nf)
    a.set_free(f)
    v, w = a.get_vector(), a.get_free()
    s, t = snapshot(v), snapshot(w)
    a.set_free(g)
    a.get_vector()
    a.get_free()
    check_unchanged(v, s, 'a vector read earlier')
    check_unchanged(w, t, 'a free vector read earlier')


CASES_objective = ['free', 'vector']


def spec_objective(coords):
    """Every entry point at one point, then at another with other arguments, then at the first again."""
    m = Model()
    o, e = m.objective, m.vec_objective
    N = m.size
    w1, c1 = m.w, m.c
    w2, c2 = array('w2', dim('m')), real('c2')
    x1, x2, v1, v2 = array('x1', N), array('x2', N), array('v1', N), array('v2', N)
    k = Keep(w1, w2, x1, x2, v1, v2)
    if coords == 'free':
        F, F2 = m.free, m.free2
        fun, grad, he, hvp, ja = o.fun_free, o.fun_free_grad, o.fun_free_hessian, o.fun_free_hvp, e.fun_free_jacobian
    else:
        F, F2 = m.vector, m.vector2
        fun, grad, he, hvp, ja = o.fun_vector, o.fun_vector_grad, o.fun_vector_hessian, o.fun_vector_hvp, e.fun_vector_jacobian
    for x, w, c, v in [(x1, w1, c1, v1), (x2, w2, c2, v2), (x2, w1, c2, v1), (x1, w1, c1, v2)]:
        m.w, m.c = w, c
        check_eq(fun(x, w, c=c), F(x), 'value in turn')
        check_eq(grad(x, w, c=c), jac(F, x), 'gradient in turn')
        check_eq(he(x, w, c=c), hess(F, x), 'Hessian in turn')
        check_eq(hvp(x, w, v, c=c), np.matmul(hess(F, x), v), 'Hessian vector product in turn')
        check_eq(ja(x, w, c=c), jac(F2, x), 'Jacobian in turn')
    k.same('an objective')


def spec_new_function():
    """The function is the one the objective has now, and objectives do not share it."""
    m = Model()
    o, other = m.objective, m.vec_objective
    x = array('x', m.size)
    other.preconditioner = array('B', m.size, m.size)
    check(o.preconditioner is None, 'a preconditioner is that of one objective')
    other.logger.log(real('value'), x)
    check_eq(len(o.logger.x_array), 0, 'a log is that of one objective')


CASES_preconditioner = ['dense', 'csr']


def spec_preconditioner(form):
    """Setting another preconditioner replaces the one before."""
    m = Model()
    N = m.size
    A, B = array('A', N, N), array('B', N, N)
    x, v = array('x', N), array('v', N)
    o = m.objective
    k = Keep(A, B, x, v)
    o.preconditioner = A if form == 'dense' else sp.sparse.csr_matrix(A)
    o.fun_free_cond(x, m.w, c=m.c)
    o.fun_free_grad_cond(x, m.w, c=m.c)
    o.fun_free_hessian_cond(x, m.w, c=m.c)
    o.fun_free_hvp_cond(x, m.w, v, c=m.c)
    o.preconditioner = B

    def G(z):
        return m.free(np.matmul(B, z))
    check_eq(o.fun_free_cond(x, m.w, c=m.c), G(x), 'value')
    check_eq(o.fun_free_grad_cond(x, m.w, c=m.c), jac(G, x), 'gradient')
    check_eq(o.fun_free_hessian_cond(x, m.w, c=m.c), hess(G, x), 'Hessian')
    check_eq(o.fun_free_hvp_cond(x, m.w, v, c=m.c), np.matmul(hess(G, x), v), 'Hessian vector product')
    check_eq(o.fun_free_grad(x, m.w, c=m.c), jac(m.free, x), 'the plain gradient is untouched')
    k.same('a conditioned objective')


def spec_converter():
    t = conv.Conv()
    a, b = array('a', t.n), array('b', t.n)
    k = Keep(a, b)
    for z in [a, b, a]:
        check_eq(t.c.free_to_vec_jacobian(z), jac(lambda y: t.value(y, True, False), z), 'free to vector in turn')
        check_eq(t.c.vec_to_free_jacobian(z), jac(lambda y: t.value(y, False, True), z), 'vector to free in turn')
        check_eq(t.c.free_to_free_jacobian(z), jac(lambda y: t.value(y, True, True), z), 'free to free in turn')
        check_eq(t.c.vec_to_vec_jacobian(z), jac(lambda y: t.value(y, False, False), z), 'vector to vector in turn')
    k.same('a converter')


def spec_two_parameters():
    t = two.Two()
    a, b, c, d = array('a', t.n), array('b', t.k), array('c', t.n), array('d', t.k)
    k = Keep(a, b, c, d)
    for x, y in [(a, b), (c, d), (a, d)]:
        check_eq(t.o.fun_free(x, y, t.w, c=t.c), t.value(x, y, True, True), 'value in turn')
        check_eq(t.o.fun_grad1(x, y, True, False, t.w, c=t.c), t.g1(x, y, True, False), 'gradient in turn')
        check_eq(t.o.fun_grad2(x, y, False, True, t.w, c=t.c), t.g2(x, y, False, True), 'gradient in turn')
        check_eq(t.o.fun_free_hessian12(x, y, t.w, c=t.c), t.h12(x, y, True, True), 'cross Hessian in turn')
        check_eq(t.o.fun_vector_hessian12(x, y, t.w, c=t.c), t.h12(x, y, False, False), 'cross Hessian in turn')
    k.same('a two-parameter objective')


def spec_convert_hessian():
    n = dim('n')
    p = vb.VectorParam('p', size=n, lb=real('lb'))
    f, g, H = array('f', n), array('g', n), array('H', n, n)
    k = Keep(f, g, H)
    convert_vector_to_free_hessian(p, f, g, H)
    k.same('converting a Hessian')


def spec_families():
    n, d, g = dim('n'), dim('d'), 3
    mu, info = array('mu', n), posarray('info', n)
    A, L = pdmat('A', d)
    al, le = posarray('al', n), array('le', n)
    x, w = array('x', g), array('w', g)
    M = posarray('M', n, 2)
    df = d + 1 + pos('df')
    k = Keep(mu, info, A, al, le, x, w, M)
    for fn in [lambda: ef.univariate_normal_entropy(info), lambda: ef.multivariate_normal_entropy(A),
               lambda: ef.gamma_entropy(info, al), lambda: ef.dirichlet_entropy(M), lambda: ef.beta_entropy(M),
               lambda: ef.multinoulli_entropy(M), lambda: ef.wishart_entropy(df, A), lambda: ef.e_log_det_wishart(df, A),
               lambda: ef.e_log_inv_wishart_diag(df, A), lambda: ef.get_e_lognormal(mu, info), lambda: ef.get_var_lognormal(mu, info),
               lambda: ef.get_e_log_gamma(info, al), lambda: ef.get_e_dirichlet(M), lambda: ef.get_e_log_dirichlet(M),
               lambda: ef.get_e_logitnormal(mu, info, x, w), lambda: ef.get_e_log_logitnormal(mu, info, x, w),
               lambda: ef.get_uvn_from_natural_parameters(mu, -info), lambda: ef.uvn_prior(mu, info, le, al),
               lambda: ef.dirichlet_prior(al, le), lambda: ef.gamma_prior(al, info, mu, le), lambda: ef.exponential_prior(al, mu),
               lambda: ef.expected_ljk_prior(pos('lkj'), df, A),
               lambda: ef.get_e_dp_prior_logitnorm_approx(pos('a0'), mu, info, x, w),
               lambda: modeling.get_e_logistic_term(le, mu, info, x),
               lambda: modeling.get_e_logistic_term_guass_hermite(mu, info, x, w),
               lambda: modeling.univariate_normal_log_prob(le, mu, info)]:
        fn()
    k.same('a function of the exponential families')


def spec_regression():
    n, d = dim('n'), dim('d')
    X, y, c = array('X', n, d), array('y', n), pos('c')
    A, L = pdmat('A', d)
    m = array('m', d)
    B, L2 = pdmat('B', n)
    k = Keep(X, y, A, m, B)
    reg.get_nat_params_from_likelihood(y, X, c)
    reg.get_nat_params_from_likelihood(y, X, B)
    reg.get_nat_params_from_prior(m, A)
    reg.get_mvn_from_nat_params(m, A)
    reg.get_posterior_regression_coefficients(y, X, c, m, A)
    k.same('a regression function')


def spec_sparse():
    n, N = dim('n'), dim('N')
    S, rows = array('S', n, n), indexarray('rows', n, N)
    D = array('D', 2, 3)
    C = sp.sparse.csr_matrix(D)
    k = Keep(S, rows, D)
    obj_lib.get_sparse_sub_hessian(S, rows, N)
    obj_lib.get_sparse_sub_matrix(S, rows, rows, N, N)
    obj_lib.unpack_csr_matrix(obj_lib.pack_csr_matrix(C))
    obj_lib.json_unpack_csr_matrix(obj_lib.json_pack_csr_matrix(C))
    obj_lib.safe_matmul(C, D.T)
    obj_lib.safe_matmul(D, D.T)
    k.same('a sparse matrix function')
    check_eq(C.toarray(), D, 'packing a matrix leaves it alone')


def spec_index_param():
    p, nf, nv = dictionary()
    f = array('f', nf)
    p.set_free(f)
    s = p.get_vector() + 0
    obj_lib.make_index_param(p)
    check_eq(p.get_vector(), s, 'making an index parameter leaves the parameter alone')


def spec_solver():
    n = dim('n')
    A, L = pdmat('A', n)
    x0, v, u = array('x0', n), array('v', n), array('u', n)
    k = Keep(x0, v, u)
    s = cg.ConjugateGradientSolver(lambda x, y: np.matmul(A, y), x0)
    for z in [v, u]:
        check_eq(np.matmul(A, s.get_hinv_vec(z)[0]), z, 'the solution in turn')
    k.same('the solver')
    s2 = cg.ConjugateGradientSolver(lambda x, y: np.matmul(A, y), x0)
    s.get_hinv_vec_subsets(v, [boolarray('m0', n)])
    check_eq(len(s2.vecs) + len(s2.hinv_vecs) + len(s2.masks), 0, 'two solvers keep separate records')


def spec_masks():
    n = dim('n')
    v = boolarray('v', 3)
    s = snapshot(v)
    cg.split_vector(v)
    cg.recursive_split(v, terminate_len=1)
    check_unchanged(v, s, 'splitting leaves the mask alone')


def spec_terms():
    """Differentiating, combining and consolidating derivative terms leave the terms they are given."""
    n, k = dim('n'), dim('k')
    g = fun('g', n)
    D = ms.generate_two_term_derivative_array(g, 4)
    e, z, d = array('eta', n), array('eps', k), array('deps', k)
    e1 = fun('e1', n)

    def eta1(x, y, w):
        return e1(y, w)
    orders, known = [0], []
    t1 = ms.DerivativeTerm(eps_order=1, eta_orders=orders, prefactor=real('p'), eval_eta_derivs=known, eval_g_derivs=D)
    t2 = ms.DerivativeTerm(eps_order=1, eta_orders=[0], prefactor=real('q'), eval_eta_derivs=[], eval_g_derivs=D)
    k = Keep(e, z, d)
    a1, a2 = t1.evaluate(e, z, d), t2.evaluate(e, z, d)
    ts = [t1, t2]
    both = ms.consolidate_terms(ts)
    check_eq(len(ts), 2, 'consolidating leaves the list')
    t1.combine_with(t2)
    t1.differentiate(eta1)
    t1.check_similarity(t2)
    check_eq(t1.evaluate(e, z, d), a1, 'a term is the same afterwards')
    check_eq(t2.evaluate(e, z, d), a2, 'a term is the same afterwards')
    check_eq(len(orders), 1, 'the list of orders it was made from')
    check_eq(len(known), 0, 'the list of derivatives it was made from')
    first = [u.evaluate(e, z, d) for u in t1.differentiate(eta1)]
    second = t1.differentiate(eta1)
    third = second[1].differentiate(eta1)
    again = second[1].differentiate(eta1)
    check_eq([u.evaluate(e, z, d) for u in second], first, 'differentiated again')
    check_eq([u.evaluate(e, z, d) for u in again], [u.evaluate(e, z, d) for u in third], 'a derivative differentiated again')
    check_eq([u.evaluate(e, z, d) for u in second], first, 'a derivative is the same afterwards')
    check_eq(ms.evaluate_terms(both, e, z, d), a1 + a2, 'the consolidated terms')
    check_eq(ms.evaluate_terms(both, e, z, d), a1 + a2, 'asked for again')
    k.same('a derivative term')


def spec_stored_derivatives():
    """Functions that hand out an array they keep, as ones that remember do: it is never written to."""
    n, k = dim('n'), dim('k')
    e, z, d = array('eta', n), array('eps', k), array('deps', k)
    u = array('u', n)
    g = [[array('g00', n), array('g01', n)], [array('g10', n), array('g11', n)]]
    s = [[snapshot(x) for x in row] for row in g]
    total = g[0][1] + g[1][0]
    D = [[lambda *args: g[0][0], lambda *args: g[0][1]], [lambda *args: g[1][0], lambda *args: g[1][1]]]

    def eta1(x, y, w):
        return u
    su = snapshot(u)
    t1 = ms.DerivativeTerm(eps_order=1, eta_orders=[0], prefactor=1.0, eval_eta_derivs=[], eval_g_derivs=D)
    t2 = ms.DerivativeTerm(eps_order=0, eta_orders=[1], prefactor=1.0, eval_eta_derivs=[eta1], eval_g_derivs=D)
    check_eq(ms.evaluate_terms([t1, t2], e, z, d), total, 'the sum of the terms')
    check_eq(ms.evaluate_terms([t1, t2], e, z, d), total, 'the sum of the terms again')
    check_eq(ms.evaluate_terms([t2, t1], e, z, d), total, 'the sum in the other order')
    for i in range(2):
        for j in range(2):
            check_unchanged(g[i][j], s[i][j], 'what a derivative of g returned')
    check_unchanged(u, su, 'what a derivative of eta returned')


def spec_jvp():
    n = dim('n')
    g = fun('g', n)
    x, v, y, w = array('x', n), array('v', n), array('y', n), array('w', n)
    k = Keep(x, v, y, w)
    j = ms.append_jvp(g, num_base_args=1)
    jj = ms.append_jvp(j, num_base_args=1)
    for a, b in [(x, v), (y, w), (x, w)]:
        check_eq(j(a, b), np.matmul(jac(g, a), b), 'directional derivative in turn')
        check_eq(g(a), g(a), 'function')
    jj(x, v, w)
    check_eq(j(x, v), np.matmul(jac(g, x), v), 'after a second one was appended')
    k.same('a directional derivative')


def spec_root():
    n = dim('n')
    H, L = pdmat('H', n)
    G, L2 = pdmat('G', n)
    k = Keep(H, G)
    r1, c1 = opt.get_sym_matrix_inv_sqrt(H)
    s = snapshot(r1)
    opt.get_sym_matrix_inv_sqrt(G, ev_min=pos('lo'))
    r2, c2 = opt.get_sym_matrix_inv_sqrt(H)
    check_eq(r2, r1, 'the root in turn')
    check_unchanged(r1, s, 'an earlier root')
    A = array('A', n, n)
    k3 = Keep(A)
    opt.get_sym_matrix_inv_sqrt(A, ev_min=pos('lo'))
    k3.same('the inverse square root of the symmetric part')
    k.same('the inverse square root')
