"""Two-parameter Hessians: the first parameter in the rows of 12, the second in the rows of 21."""
from C11_two import *

FORMS = [(True, True), (True, False), (False, True), (False, False)]
CASES_general = FORMS


def spec_general(form):
    t = Two()
    a, b = array('a', t.n), array('b', t.k)
    f1, f2 = form
    check_eq(t.o.eval_fun(a, b, f1, f2, t.w, c=t.c), t.value(a, b, f1, f2), 'value')
    check_eq(t.o.fun_grad1(a, b, f1, f2, t.w, c=t.c), t.g1(a, b, f1, f2), 'gradient in the first parameter')
    check_eq(t.o.fun_grad2(a, b, f1, f2, t.w, c=t.c), t.g2(a, b, f1, f2), 'gradient in the second parameter')
    H = t.o.fun_hessian12(a, b, f1, f2, t.w, c=t.c)
    check(shape_eq(H, t.n, t.k), 'first parameter in the rows')
    check_eq(H, t.h12(a, b, f1, f2), 'cross Hessian')


def spec_named():
    t = Two()
    a, b = array('a', t.n), array('b', t.k)
    check_eq(t.o.fun_free(a, b, t.w, c=t.c), t.value(a, b, True, True), 'free value')
    check_eq(t.o.fun_vector(a, b, t.w, c=t.c), t.value(a, b, False, False), 'vector value')
    H = t.o.fun_free_hessian12(a, b, t.w, c=t.c)
    check_eq(H, t.h12(a, b, True, True), 'free cross Hessian')
    G = t.o.fun_free_hessian21(a, b, t.w, c=t.c)
    check(shape_eq(G, t.k, t.n), 'second parameter in the rows')
    check_eq(G, t.h12(a, b, True, True).T, 'free cross Hessian, transposed')
    check_eq(t.o.fun_vector_hessian12(a, b, t.w, c=t.c), t.h12(a, b, False, False), 'vector cross Hessian')
    check_eq(t.o.fun_vector_hessian21(a, b, t.w, c=t.c), t.h12(a, b, False, False).T, 'vector cross Hessian, transposed')
    check_eq(t.o.fun_hessian_free1_vector2(a, b, t.w, c=t.c), t.h12(a, b, True, False), 'free and vector')
    check_eq(t.o.fun_hessian_vector1_free2(a, b, t.w, c=t.c), t.h12(a, b, False, True), 'vector and free')
