def set_par(par, val, is_free):
    setter = par.set_free if is_free else par.set_vector
    setter(deepcopy(val))


def append_jvp(fun, num_base_args=1, argnum=0):
    assert argnum < num_base_args
    fun_jvp = autograd.make_jvp(fun, argnum=argnum)

    def obj_jvp_wrapper(*argv):
        *point, vec = argv
        value, tangent = fun_jvp(*point)(vec)
        return tangent
    return obj_jvp_wrapper


class DerivativeTerm:
    def evaluate(self, eta0, eps0, deps):
        vec_args = []
        for eta_order, eval_eta_deriv in zip(self.eta_orders, list(self.eval_eta_derivs) + [None]):
            if eta_order > 0:
                vec_args += [eval_eta_deriv(eta0, eps0, deps)] * eta_order
        vec_args += [deps] * self.eps_order
        return self.prefactor * self.eval_g_deriv(eta0, eps0, *vec_args)

    def differentiate(self, eval_next_eta_deriv):
        eval_eta_derivs = list(self.eval_eta_derivs) + [eval_next_eta_deriv]

        def derived(eps_order, eta_orders, prefactor):
            return DerivativeTerm(
                eps_order, eta_orders, prefactor, eval_eta_derivs, self.eval_g_derivs)

        base = self.eta_orders + [0]
        terms = [derived(self.eps_order + 1, list(base), self.prefactor),
                 derived(self.eps_order, [base[0] + 1] + base[1:], self.prefactor)]
        for i, eta_order in enumerate(self.eta_orders):
            if not eta_order:
                continue
            orders = list(base)
            orders[i] -= 1
            orders[i + 1] += 1
            terms.append(derived(self.eps_order, orders, self.prefactor * eta_order))
        return terms

    def check_similarity(self, term):
        if self.eps_order != term.eps_order:
            return False
        return self.eta_orders == term.eta_orders


def generate_two_term_derivative_array(fun, order):
    def with_eps_derivatives(base):
        row = [base]
        while len(row) <= order:
            row.append(append_jvp(row[-1], num_base_args=2, argnum=1))
        return row
    rows = [with_eps_derivatives(fun)]
    while len(rows) < order:
        rows.append(with_eps_derivatives(append_jvp(rows[-1][0], num_base_args=2, argnum=0)))
    return rows


def consolidate_terms(dterms):
    consolidated_dterms = []
    for term in dterms:
        for ind, other in enumerate(consolidated_dterms):
            if other.eta_orders == term.eta_orders:
                consolidated_dterms[ind] = other.combine_with(term)
                break
        else:
            consolidated_dterms.append(term)
    return consolidated_dterms


def evaluate_terms(dterms, eta0, eps0, deps, include_highest_eta_order=True):
    if not include_highest_eta_order:
        dterms = [term for term in dterms if term.eta_orders[-1] == 0]
    vec = None
    for term in dterms:
        val = term.evaluate(eta0, eps0, deps)
        vec = val if vec is None else vec + val
    return vec


def get_taylor_base_terms(eval_g_derivs):
    return [
        DerivativeTerm(eps_order, [eta_order], 1.0, [], eval_g_derivs)
        for eps_order, eta_order in ((1, 0), (0, 1))]


def evaluate_dketa_depsk(hess0, dterms, eta0, eps0, deps):
    vec = evaluate_terms(dterms, eta0, eps0, deps, False)
    assert vec is not None
    return np.linalg.solve(hess0, -vec)


def differentiate_terms(hess0, dterms):
    def eval_next_eta_deriv(eta, eps, deps):
        return evaluate_dketa_depsk(hess0, dterms, eta, eps, deps)
    return consolidate_terms(
        [deriv for term in dterms for deriv in term.differentiate(eval_next_eta_deriv)])


class ParametricSensitivityTaylorExpansion(object):
    def __init__(
        self, objective_functor, input_par, hyper_par,
        input_val0, hyper_val0, order,
        input_is_free=True, hyper_is_free=False,
        hess0=None, hyper_par_objective_functor=None):
        self.input_par, self.hyper_par = input_par, hyper_par
        self.input_is_free, self.hyper_is_free = input_is_free, hyper_is_free
        self.objective_functor = objective_functor
        self.hyper_par_objective_functor = hyper_par_objective_functor
        if self.hyper_par_objective_functor is None:
            self.hyper_par_objective_functor = objective_functor

        self.objective = obj_lib.Objective(input_par, objective_functor)
        self.full_joint_objective = obj_lib.TwoParameterObjective(
            input_par, hyper_par, objective_functor)
        self.joint_objective = obj_lib.TwoParameterObjective(
            input_par, hyper_par, self.hyper_par_objective_functor)

        self.set_base_values(input_val0, hyper_val0, hess0)
        self.set_order(order)

    def set_base_values(self, input_val0, hyper_val0, hess0=None):
        self.input_val0, self.hyper_val0 = deepcopy((input_val0, hyper_val0))
        self.set_par_to_base_values()
        if hess0 is None:
            hessian = self.objective.fun_free_hessian if self.input_is_free \
                else self.objective.fun_vector_hessian
            hess0 = hessian(self.input_val0)
        self.hess0 = np.array(hess0)
        self.hess0_chol = sp.linalg.cho_factor(hess0)
        self.set_par_to_base_values()

    def get_dkinput_dhyperk_from_terms(self, dterms):
        def check_base(val, val0, tolerance):
            assert np.all(np.abs(val - val0) <= tolerance)

        def dkinput_dhyperk(input_val, hyper_val, dhyper, tolerance=1e-8):
            if tolerance is not None:
                check_base(input_val, self.input_val0, tolerance)
                check_base(hyper_val, self.hyper_val0, tolerance)
            return evaluate_dketa_depsk(
                self.hess0, dterms, self.input_val0, self.hyper_val0, dhyper)
        return dkinput_dhyperk

    def differentiate_terms(self, dterms, eval_next_eta_deriv):
        return consolidate_terms(
            sum([term.differentiate(eval_next_eta_deriv) for term in dterms], []))

    def set_order(self, order):
        self.order = order
        self.eval_g_derivs = generate_two_term_derivative_array(
            self.objective_gradient, order=order + 1)
        if self.hyper_par_objective_functor is not self.objective_functor:
            full = generate_two_term_derivative_array(
                self.full_objective_gradient, order=order + 1)
            for row, full_row in zip(self.eval_g_derivs, full):
                row[0] = full_row[0]

        terms = get_taylor_base_terms(self.eval_g_derivs)
        self.taylor_terms_list = [terms]
        self.dkinput_dhyperk_list = [self.get_dkinput_dhyperk_from_terms(terms)]
        for _ in range(1, order):
            terms = self.differentiate_terms(terms, self.dkinput_dhyperk_list[-1])
            self.taylor_terms_list.append(terms)
            self.dkinput_dhyperk_list.append(self.get_dkinput_dhyperk_from_terms(terms))

    def evaluate_dkinput_dhyperk(self, dhyper, k, *argv, **argk):
        if not k > 0:
            raise ValueError('k must be at least one.')
        if not k <= self.order:
            raise ValueError('k must be no greater than the declared order={}'.format(self.order))
        return self.cache_and_eval(
            self.dkinput_dhyperk_list[k - 1],
            self.input_val0, self.hyper_val0, dhyper, *argv, **argk)

    def evaluate_taylor_series(
        self, dhyper, *argv, add_offset=True, max_order=None, **argk):
        max_order = self.order if max_order is None else max_order
        if max_order <= 0:
            raise ValueError('max_order must be greater than zero.')
        elif max_order > self.order:
            raise ValueError('max_order must be no greater than the declared order={}'.format(
                self.order))
        total = self.evaluate_dkinput_dhyperk(dhyper, 1, *argv, **argk)
        factorial = 1.0
        k = 2
        while k <= max_order:
            factorial = factorial * k
            total = total + self.evaluate_dkinput_dhyperk(dhyper, k) / factorial
            k += 1
        return self.input_val0 + total if add_offset else total


class ParametricSensitivityLinearApproximation(object):
    def set_base_values(self, input_val0, hyper_val0, hess0=None):
        self.input_val0 = deepcopy(input_val0)
        self.hyper_val0 = deepcopy(hyper_val0)
        self.set_par_to_base_values()
        if hess0 is not None:
            self.hess0 = hess0
        elif self.input_is_free:
            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
        else:
            self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
        self.hess0_chol = sp.linalg.cho_factor(self.hess0)
        self.hyper_par_cross_hessian0 = self.joint_objective.fun_hessian12(
            val1=self.input_val0, val2=self.hyper_val0,
            val1_is_free=self.input_is_free, val2_is_free=self.hyper_is_free)
        self.hyper_par_sensitivity = sp.linalg.cho_solve(
            self.hess0_chol, -self.hyper_par_cross_hessian0)
        self.set_par_to_base_values()

    def predict_input_par_from_hyperparameters(self, new_hyper_par_value):
        diff = new_hyper_par_value - self.hyper_val0
        return self.input_val0 + np.dot(self.hyper_par_sensitivity, diff)
