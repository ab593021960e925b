def append_jvp(fun, num_base_args=1, argnum=0):
    assert argnum < num_base_args
    fun_jvp = autograd.make_jvp(fun, argnum=argnum)

    def obj_jvp_wrapper(*argv):
        old_args, new_vec = argv[:-1], argv[-1]
        value, derivative = fun_jvp(*old_args)(new_vec)
        return derivative

    return obj_jvp_wrapper


class DerivativeTerm:
    def evaluate(self, eta0, eps0, deps):
        vec_args = []
        for eval_eta_deriv, eta_order in zip(self.eval_eta_derivs, self.eta_orders):
            if eta_order > 0:
                vec_args += [eval_eta_deriv(eta0, eps0, deps)] * eta_order
        vec_args += [deps] * self.eps_order
        return self.prefactor * self.eval_g_deriv(eta0, eps0, *vec_args)

    def __next_term(self, eps_order, eta_orders, multiplier, eval_eta_derivs):
        return DerivativeTerm(
            eps_order=eps_order,
            eta_orders=eta_orders,
            prefactor=multiplier * self.prefactor,
            eval_eta_derivs=eval_eta_derivs,
            eval_g_derivs=self.eval_g_derivs)

    def differentiate(self, eval_next_eta_deriv):
        eval_eta_derivs = self.eval_eta_derivs + [eval_next_eta_deriv]
        base = self.eta_orders + [0]
        terms = [self.__next_term(self.eps_order + 1, list(base), 1, eval_eta_derivs)]
        first = list(base)
        first[0] += 1
        terms.append(self.__next_term(self.eps_order, first, 1, eval_eta_derivs))
        for i, eta_order in enumerate(self.eta_orders):
            if eta_order == 0:
                continue
            moved = list(base)
            moved[i] -= 1
            moved[i + 1] += 1
            terms.append(self.__next_term(self.eps_order, moved, eta_order, eval_eta_derivs))
        return terms

    def check_similarity(self, term):
        return self.eps_order == term.eps_order and self.eta_orders == term.eta_orders


def generate_two_term_derivative_array(fun, order):
    eval_fun_derivs = []
    for x1_ind in range(max(order, 1)):
        if x1_ind == 0:
            row = [fun]
        else:
            row = [append_jvp(eval_fun_derivs[-1][0], num_base_args=2, argnum=0)]
        for x2_ind in range(order):
            row.append(append_jvp(row[-1], num_base_args=2, argnum=1))
        eval_fun_derivs.append(row)
    return eval_fun_derivs


def consolidate_terms(dterms):
    consolidated = []
    for term in dterms:
        for ind in range(len(consolidated)):
            if consolidated[ind].check_similarity(term):
                consolidated[ind] = consolidated[ind].combine_with(term)
                break
        else:
            consolidated.append(term)
    return consolidated


def evaluate_terms(dterms, eta0, eps0, deps, include_highest_eta_order=True):
    used = [t for t in dterms if include_highest_eta_order or t.eta_orders[-1] == 0]
    vec = None
    for term in used:
        val = term.evaluate(eta0, eps0, deps)
        vec = val if vec is None else vec + val
    return vec


def get_taylor_base_terms(eval_g_derivs):
    return [
        DerivativeTerm(
            eps_order=eps_order, eta_orders=[1 - eps_order], prefactor=1.0,
            eval_eta_derivs=[], eval_g_derivs=eval_g_derivs)
        for eps_order in (1, 0)]


def evaluate_dketa_depsk(hess0, dterms, eta0, eps0, deps):
    vec = evaluate_terms(
        dterms, eta0, eps0, deps, include_highest_eta_order=False)
    assert vec is not None
    return np.linalg.solve(hess0, -vec)


class ParametricSensitivityTaylorExpansion(object):
    def differentiate_terms(self, dterms, eval_next_eta_deriv):
        derivs = [d for term in dterms for d in term.differentiate(eval_next_eta_deriv)]
        return consolidate_terms(derivs)

    def evaluate_taylor_series(
        self, dhyper, *argv, add_offset=True, max_order=None, **argk):
        max_order = self.order if max_order is None else max_order
        if not 0 < max_order <= self.order:
            raise ValueError('max_order must be between one and the order.')
        dinput = 0.0
        factorial = 1.0
        for k in range(1, max_order + 1):
            factorial *= k
            dinput = dinput + self.evaluate_dkinput_dhyperk(dhyper, k) / factorial
        return dinput + self.input_val0 if add_offset else dinput


class ParametricSensitivityLinearApproximation(object):
    def set_base_values(self, input_val0, hyper_val0, hess0=None):
        self.input_val0, self.hyper_val0 = deepcopy(input_val0), deepcopy(hyper_val0)
        self.set_par_to_base_values()
        if hess0 is None:
            get_hessian = self.objective.fun_free_hessian if self.input_is_free \
                else self.objective.fun_vector_hessian
            hess0 = get_hessian(self.input_val0)
        self.hess0 = hess0
        self.hess0_chol = sp.linalg.cho_factor(hess0)
        cross = self.joint_objective.fun_hessian12(
            self.input_val0, self.hyper_val0, self.input_is_free, self.hyper_is_free)
        self.hyper_par_cross_hessian0 = cross
        self.hyper_par_sensitivity = -sp.linalg.cho_solve(self.hess0_chol, cross)
        self.set_par_to_base_values()
