"""Planted bugs, eighth batch: linear algebra that is right for the usual symmetric case, states kept between calls."""
from seeds import seed, PM, MM, SP, PP, PD, SO, MS, OU
from seeds2 import NP_, EF, CG, MO, RU, WP, DP, GP

seed('similar-terms-sorted', 'C22',
     [(MS, '''            (self.eta_orders == term.eta_orders)

''', '''            (sorted(self.eta_orders) == sorted(term.eta_orders))

'''), (MS, '''            if (match_term.eta_orders == dterms[ind].eta_orders):
''', '''            if match_term.check_similarity(dterms[ind]):
''')],
     'terms of order five, with a first and a fourth or a second and a third derivative', 'They are combined.', '''
import LinearResponseVariationalBayes.ModelSensitivity as ms
D = [[(lambda eta, eps, *v: onp.sum([onp.sum(w) for w in v])) for j in range(7)] for i in range(7)]
E = [(lambda eta, eps, deps, i=i: onp.array([2. ** i])) for i in range(5)]
s = ms.DerivativeTerm(0, [1, 0, 0, 1, 0], 1., E, D)
t = ms.DerivativeTerm(0, [0, 1, 1, 0, 0], 1., E, D)
assert len(ms.consolidate_terms([s, t])) == 2
''')

seed('index-parameter-narrow', 'C30',
     [(SO, '''    index_param.set_vector(np.arange(0, index_param.vector_size()))
''', '''    index_param.set_vector(
        np.arange(0, index_param.vector_size(), dtype=np.uint16))
''')],
     'a parameter with more than 65536 entries', 'Later entries have the indices of earlier ones.', '''
p = vb.VectorParam('p', 70000)
i = obj_lib.make_index_param(p)
assert i.get()[66000] == 66000
''')

seed('last-mask-overlaps', 'C29',
     [(CG, '''        mask[ind:ind_end] = True
        masks.append(mask)
''', '''        mask[(ind if 2 * (ind_end - ind) >= min_mask_len else
              ind_end - min_mask_len):ind_end] = True
        masks.append(mask)
''')],
     'a last block shorter than half of the others', 'It overlaps the one before.', '''
import LinearResponseVariationalBayes.ConjugateGradient as cg
m = cg.get_masks(9, 4)
assert onp.sum(m) == 9
''')

seed('masked-by-multiplying', 'C29',
     [(CG, '''            vec_masked = np.zeros(len(vec))
            vec_masked[mask] = vec[mask]
''', '''            vec_masked = np.zeros(len(vec), dtype=np.asarray(vec).dtype)
            vec_masked[mask] = vec[mask]
            vec_masked /= max(1.0, np.max(np.abs(vec_masked)) / 1e12)
''')],
     'a vector with entries above 1e12', 'It is scaled before the system is solved.', '''
import LinearResponseVariationalBayes.ConjugateGradient as cg
s = cg.ConjugateGradientSolver(lambda x, v: 2. * v, onp.zeros(2))
s.get_hinv_vec_subsets(onp.array([1e13, 1.]), [onp.array([True, True])])
onp.testing.assert_allclose(s.vecs[0], [1e13, 1.])
''')

seed('best-round-returned', 'C27',
     [(OU, '''        x = new_x
        f_val = new_f_val
''', '''        if i == 1 or not keep_intermediate_optimizations or \\
                new_f_val <= f_val:
            x = new_x
            f_val = new_f_val
'''), (OU, '''    return new_x, converged, x_conv''', '''    return x, converged, x_conv''')],
     'keeping the intermediate optimisations, and a round that makes the value larger', 'The point of the round before is returned with the result of this.', '''
import LinearResponseVariationalBayes.OptimizationUtils as ou
p = vb.VectorParam('p', 1)
o = obj_lib.Objective(p, lambda: np.sum(p.get() ** 2))
seq = [1., 3., 3.]
def opt(x):
    v = onp.array([seq.pop(0)])
    return v, v
r = ou.repeatedly_optimize(o, opt, onp.array([5.]), max_iter=2, keep_intermediate_optimizations=True)
assert r[0][0] == 3.
''')

seed('prediction-relative', 'C24',
     [(MS, '''        hyper_par_diff = new_hyper_par_value - self.hyper_val0
        return \\
''', '''        hyper_par_diff = np.where(
            np.isclose(new_hyper_par_value, self.hyper_val0), 0.0,
            new_hyper_par_value - self.hyper_val0)
        return \\
''')],
     'a change of the hyperparameter below 1e-8', 'It has no effect.', '''
import LinearResponseVariationalBayes.ModelSensitivity as ms
p = vb.VectorParam('p', 1); h = vb.VectorParam('h', 1)
s = ms.ParametricSensitivityLinearApproximation(lambda: np.sum((p.get() - 1e6 * h.get()) ** 2), p, h,
    onp.array([0.]), onp.array([0.]))
onp.testing.assert_allclose(s.predict_input_par_from_hyperparameters(onp.array([1e-9])), [1e-3])
''')

seed('taylor-tolerance-forgotten', 'C23',
     [(MS, '''        for k in range(2, max_order + 1):
            dinput += self.evaluate_dkinput_dhyperk(dhyper, k) / \\
                float(math.factorial(k))
''', '''        for k in range(2, max_order + 1):
            term = self.evaluate_dkinput_dhyperk(dhyper, k) / \\
                float(math.factorial(k))
            if np.max(np.abs(term)) > np.max(np.abs(dinput)):
                break
            dinput += term
''')],
     'a term of the series larger than the sum of those before', 'The series ends there.', '''
import LinearResponseVariationalBayes.ModelSensitivity as ms
p = vb.VectorParam('p', 1); h = vb.VectorParam('h', 1)
f = lambda: np.sum(0.5 * (p.get() - h.get() - 3 * h.get() ** 2) ** 2)
s = ms.ParametricSensitivityTaylorExpansion(f, p, h, onp.array([0.]), onp.array([0.]), order=2)
onp.testing.assert_allclose(s.evaluate_taylor_series(onp.array([1.])), [4.])
''')

seed('values-item-set-flattened', 'C20',
     [(PD, '''        return self.param_dict[key].set(val)''', '''        return self.param_dict[key].set(
            np.squeeze(val, 0) if np.ndim(val) == 2 and len(val) == 1 else val)''')],
     'assigning a 1 by n array through the values of a dictionary', 'It is refused.', '''
d = vb.ModelParamsDict('d')
d.push_param(vb.ArrayParam('a', (1, 3)))
d.get()['a'] = onp.ones((1, 3))
assert d['a'].get().shape == (1, 3)
''')

seed('free-offsets-from-vector', 'C05',
     [(PD, '''        for param in self.param_dict.values():
            offset = par.set_free_offset(param, vec, offset)
''', '''        for name, param in self.param_dict.items():
            if len(self.free_indices_dict) > 8:
                offset = self.vector_indices_dict[name].start
            offset = par.set_free_offset(param, vec, offset)
''')],
     'a dictionary of more than eight parameters with a simplex among the first', 'The later ones are set from other entries.', '''
d = vb.ModelParamsDict('d')
d.push_param(vb.SimplexParam('s', (1, 2)))
for i in range(9):
    d.push_param(vb.ScalarParam('p%d' % i))
d.set_free(onp.arange(10.))
assert d['p3'].get() == 4.
''')
