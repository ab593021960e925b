"""Arrays of Jacobian-vector products hold the mixed directional derivatives they are indexed by."""
import autograd.numpy as np
from LinearResponseVariationalBayes import ModelSensitivity as ms


def along(F, x, v):
    """Derivative of F at x in direction v."""
    return np.matmul(jac(F, x), v)


def spec_append_one():
    n, k, d = dim('n'), dim('k'), dim('d')
    g = fun('g', d)
    x, y = array('x', n), array('y', k)
    v, w, u = array('v', n), array('w', k), array('u', n)
    gx = ms.append_jvp(g, num_base_args=2, argnum=0)
    gy = ms.append_jvp(g, num_base_args=2, argnum=1)
    check_eq(gx(x, y, v), along(lambda a: g(a, y), x, v), 'derivative in the first argument')
    check_eq(gy(x, y, w), along(lambda b: g(x, b), y, w), 'derivative in the second argument')
    gxy = ms.append_jvp(gx, num_base_args=2, argnum=1)
    check_eq(gxy(x, y, v, w), along(lambda b: along(lambda a: g(a, b), x, v), y, w), 'directions in the order appended')
    gxx = ms.append_jvp(gx, num_base_args=2, argnum=0)
    check_eq(gxx(x, y, v, u), along(lambda z: along(lambda a: g(a, y), z, v), x, u), 'second derivative')


def spec_append_single():
    n, d = dim('n'), dim('d')
    g = fun('g', d)
    x, v, w = array('x', n), array('v', n), array('w', n)
    g1 = ms.append_jvp(g)
    check_eq(g1(x, v), along(g, x, v), 'one argument')
    g2 = ms.append_jvp(g1)
    check_eq(g2(x, v, w), along(lambda z: along(g, z, v), x, w), 'one argument, twice')


def mixed(g, vs, ws):
    """d^{i+j} g / dx^i dy^j in the directions given, as a function of (x, y)."""
    F = g
    for v in vs:
        F = first(F, v)
    for w in ws:
        F = second(F, w)
    return F


def first(F, v):
    return lambda x, y: along(lambda a: F(a, y), x, v)


def second(F, w):
    return lambda x, y: along(lambda b: F(x, b), y, w)


CASES_table = [(0, 0), (1, 0), (0, 1), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (0, 3), (2, 2), (1, 3), (2, 3)]


def spec_table(case):
    i, j = case
    n, k, d = dim('n'), dim('k'), dim('d')
    g = fun('g', d)
    x, y = array('x', n), array('y', k)
    vs = [array('v%d' % q, n) for q in range(i)]
    ws = [array('w%d' % q, k) for q in range(j)]
    D = ms.generate_two_term_derivative_array(g, 3)
    check_eq(D[i][j](x, y, *vs, *ws), mixed(g, vs, ws)(x, y), 'entry holds that mixed derivative')


CASES_high_order = [(0, 4), (3, 1), (1, 4), (3, 3), (2, 4)]


def spec_high_order(case):
    """Orders beyond the third, for functions of a line, where every direction is a number."""
    i, j = case
    h = fun('h')
    g = lambda x, y: h(x[0], y[0])
    x, y = array('x', 1), array('y', 1)
    vs = [array('v%d' % q, 1) for q in range(i)]
    ws = [array('w%d' % q, 1) for q in range(j)]
    D = ms.generate_two_term_derivative_array(g, 4)
    check_eq(D[i][j](x, y, *vs, *ws), mixed(g, vs, ws)(x, y), 'entry holds that mixed derivative')
