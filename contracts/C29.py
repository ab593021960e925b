"""Masks partition the vector, and the conjugate gradient solver solves the system of the point it was made for."""
import autograd.numpy as np
import scipy as sp
import scipy.sparse
from LinearResponseVariationalBayes import ConjugateGradient as cg
from prelude import raises


def spec_get_masks():
    """Consecutive blocks: every index is in exactly the one mask of its block."""
    N, m = dim('N'), dim('m')
    assume(m < N)
    masks = cg.get_masks(N, m)
    j = anyindex(N)
    K = len(masks)
    check(K * m >= N, 'enough masks')
    check((K - 1) * m < N, 'no empty mask')
    b = anyindex(K)
    inside = (b * m <= j) and (j < b * m + m)
    check(bool(masks[b][j]) == bool(inside), 'a mask is a block of consecutive indices')
    check(raises(lambda: cg.get_masks(N, 0)), 'empty masks are refused')


CASES_blocks = [(3, 2), (5, 2), (5, 4), (9, 4), (10, 4), (11, 4), (7, 6), (12, 5), (13, 1), (16, 8), (33, 16)]
THOROUGH_blocks = [(n, m) for n in range(2, 14) for m in range(1, n)]


def spec_blocks(case):
    N, m = case
    masks = cg.get_masks(N, m)
    check_eq(len(masks), -(-N // m), 'as many masks as blocks')
    for b, mask in enumerate(masks):
        for j in range(N):
            check(bool(mask[j]) == (b * m <= j and j < b * m + m), 'a mask is a block of consecutive indices')


def spec_split():
    N = dim('N')
    v = boolarray('v', N)
    s = snapshot(v)
    a, b = cg.split_vector(v)
    j = anyindex(N)
    check(bool(a[j] or b[j]) == bool(v[j]), 'together the halves are the mask')
    check(not (a[j] and b[j]), 'the halves are disjoint')
    check_unchanged(v, s, 'the mask is left alone')
    na, nb, n = np.sum(a), np.sum(b), np.sum(v)
    check_eq(na + nb, n, 'sizes')
    check(na <= nb, 'sizes')
    check(nb <= na + 1, 'halves of equal size')


def spec_solver():
    n = dim('n')
    h = fun('h')
    x0 = array('x0', n)
    A, L = pdmat('A', n)
    point = []

    def hvp(x, v):
        point.append(x)
        return np.matmul(A, v)
    s = cg.ConjugateGradientSolver(hvp, x0)
    v = array('v', n)
    r, info = s.get_hinv_vec(v)
    check_eq(np.matmul(A, r), v, 'the solution of the system')
    for p in point:
        check_eq(p, x0, 'products are taken at the point given')
    check_eq(len(cg_calls()), 1, 'one solve')


def spec_solver_point_overwritten():
    """The array the point was given in may be overwritten before anything is solved."""
    n = dim('n')
    x0, x = array('x0', n), array('x', n)
    x[:] = x0
    h = fun('h')
    A, L = pdmat('A', n)
    point = []

    def hvp(x, v):
        point.append(x + 0)
        return np.matmul(A, v)
    s = cg.ConjugateGradientSolver(hvp, x)
    x[:] = array('x2', n)
    s.get_hinv_vec(array('v', n))
    for p in point:
        check_eq(p, x0, 'products are taken at the point of creation')


def settings(call):
    return call[1]


def spec_solver_settings():
    """The tolerance, preconditioner and starting point set are the ones used."""
    n = dim('n')
    A, L = pdmat('A', n)
    s = cg.ConjugateGradientSolver(lambda x, v: np.matmul(A, v), array('x0', n))
    s.tol = pos('tol')
    M = array('M', n, n)
    s.preconditioner = M
    start = array('start', n)
    s.get_hinv_vec(array('v', n), x0=start)
    kw = settings(cg_calls()[0])
    check_eq(kw['tol'], pos('tol'), 'tolerance')
    check_eq(kw['M'], M, 'preconditioner')
    check_eq(kw['x0'], start, 'starting point')


def spec_subsets():
    """Each mask's part of the vector is solved for, and everything about it is recorded in order."""
    n = dim('n')
    A, L = pdmat('A', n)
    s = cg.ConjugateGradientSolver(lambda x, v: np.matmul(A, v), array('x0', n))
    v = array('v', n)
    keep = snapshot(v)
    masks = [boolarray('m0', n), boolarray('m1', n)]
    s.get_hinv_vec_subsets(v, masks)
    for k in range(2):
        part = tabulate(lambda i: v[i] if masks[k][i] else 0.0, n)
        check_eq(s.vecs[k], part, 'the part of the vector in the mask')
        check_eq(np.matmul(A, s.hinv_vecs[k]), part, 'its solution')
        j = anyindex(n)
        check(bool(s.masks[k][j]) == bool(masks[k][j]), 'the mask')
    check_eq(len(s.vecs), 2, 'one record for each mask')
    check_eq(len(s.hinv_vecs), 2, 'one record for each mask')
    check_eq(len(s.masks), 2, 'one record for each mask')
    check_eq(len(s.cg_infos), 2, 'one record for each mask')
    check_eq(len(s.times), 2, 'one record for each mask')
    check_unchanged(v, keep, 'the vector is left alone')
    s.initialize()
    check_eq(len(s.vecs) + len(s.hinv_vecs) + len(s.masks) + len(s.cg_infos) + len(s.times), 0, 'the record starts afresh')


CASES_recursive = [1, 2, 3]


def spec_recursive(limit):
    """Splitting gives pieces no larger than the limit that partition the mask."""
    N = 3
    v = boolarray('v', N)
    parts = cg.recursive_split(v, terminate_len=limit)
    for j in range(N):
        hits = 0
        for p in parts:
            hits = hits + (1 if p[j] else 0)
        check_eq(hits, 1 if v[j] else 0, 'every selected index is in exactly one piece')
    for p in parts:
        check(np.sum(p) <= limit, 'pieces are no larger than the limit')
    again = cg.recursive_split(v, terminate_len=limit)
    check_eq(len(again), len(parts), 'a second call does not see the first')


def spec_recursive_append():
    """Results are appended to a list that is given."""
    v = boolarray('v', dim('N'))
    kept = ['mark']
    out = cg.recursive_split(v, results=kept, terminate_len=dim('N'))
    check(same_object(out, kept), 'the list given is returned')
    check_eq(len(kept), 2, 'with the piece appended')
