"""A converter's Jacobians are those of the conversion, in the coordinates they name."""
from C12_conv import *


def spec_maps():
    t = Conv()
    a = array('a', t.n)
    check_eq(t.c.converter_free_to_vec(a), t.value(a, True, False), 'free to vector')
    check_eq(t.c.converter_free_to_free(a), t.value(a, True, True), 'free to free')
    check_eq(t.c.converter_vec_to_vec(a), t.value(a, False, False), 'vector to vector')
    check_eq(t.c.converter_vec_to_free(a), t.value(a, False, True), 'vector to free')


def spec_jacobians():
    t = Conv()
    a = array('a', t.n)
    J = t.c.free_to_vec_jacobian(a)
    check(shape_eq(J, 2, t.n), 'outputs in the rows')
    check_eq(J, jac(lambda z: t.value(z, True, False), a), 'free to vector')
    check_eq(t.c.free_to_free_jacobian(a), jac(lambda z: t.value(z, True, True), a), 'free to free')
    check_eq(t.c.vec_to_vec_jacobian(a), jac(lambda z: t.value(z, False, False), a), 'vector to vector')
    check_eq(t.c.vec_to_free_jacobian(a), jac(lambda z: t.value(z, False, True), a), 'vector to free')


def spec_positions():
    """The input is left at the point of evaluation and the output where it was."""
    t = Conv()
    a, o = array('a', t.n), array('o', 2)
    t.pout.set_vector(o)
    t.c.free_to_vec_jacobian(a)
    check_eq(t.pin.get_vector(), np.exp(a) + t.lb, 'free to vector: input')
    check_eq(t.pout.get_vector(), o, 'free to vector: output')
    t.pin.set_vector(array('b', t.n))
    t.c.free_to_free_jacobian(a)
    check_eq(t.pin.get_vector(), np.exp(a) + t.lb, 'free to free: input')
    check_eq(t.pout.get_vector(), o, 'free to free: output')
    t.c.vec_to_vec_jacobian(a)
    check_eq(t.pin.get_vector(), a, 'vector to vector: input')
    check_eq(t.pout.get_vector(), o, 'vector to vector: output')
    t.pin.set_vector(array('b', t.n))
    t.c.vec_to_free_jacobian(a)
    check_eq(t.pin.get_vector(), a, 'vector to free: input')
    check_eq(t.pout.get_vector(), o, 'vector to free: output')
