def safe_matmul(x, y):
    any_sparse = any(sp.sparse.issparse(a) for a in (x, y))
    return x * y if any_sparse else np.matmul(x, y)


def compress(x):
    dense = x.todense() if sp.sparse.issparse(x) else x
    return np.squeeze(np.asarray(dense))


class Logger(object):
    def log(self, value, x):
        x = np.array(x, copy=True)
        value = deepcopy(value)
        self.value, self.x = value, x
        self.x_array = self.x_array + [x]
        self.val_array = self.val_array + [value]
        self.last_x, self.last_value = x, value

        count = self.iter
        if count % self.print_every == 0:
            if self.callback is not None:
                self.callback(self)
            else:
                self.print_message()
        self.iter = count + 1


class Objective(object):
    def __init__(self, par, fun):
        self.par = par
        self.fun = fun
        self.logger = Logger()
        self.preconditioner = None

        def derivatives(target):
            return (autograd.grad(target), autograd.hessian(target),
                    autograd.jacobian(target), autograd.hessian_vector_product(target))

        (self.ag_fun_free_grad, self.ag_fun_free_hessian,
         self.ag_fun_free_jacobian, self.ag_fun_free_hvp) = derivatives(self.fun_free)
        (self.ag_fun_vector_grad, self.ag_fun_vector_hessian,
         self.ag_fun_vector_jacobian, self.ag_fun_vector_hvp) = derivatives(self.fun_vector)

    def __restore(self, set_fun, value, result):
        set_fun(value)
        return result

    def cache_free_and_eval(self, autograd_fun, free_val, *argv, verbose=False, **argk):
        return self.__restore(
            self.par.set_free, free_val, autograd_fun(free_val, *argv, **argk))

    def cache_vector_and_eval(self, autograd_fun, vec_val, *argv, **argk):
        return self.__restore(
            self.par.set_vector, vec_val, autograd_fun(vec_val, *argv, **argk))

    def fun_free_hvp(self, free_val, *argv, verbose=False, **argk):
        return self.cache_free_and_eval(self.ag_fun_free_hvp, free_val, *argv, **argk)

    def fun_vector_hvp(self, vec_val, *argv, **argk):
        return self.cache_vector_and_eval(self.ag_fun_vector_hvp, vec_val, *argv, **argk)

    def __precondition(self, val):
        assert self.preconditioner is not None
        return safe_matmul(self.preconditioner, val)

    def __precondition_t(self, val):
        return safe_matmul(self.preconditioner.T, val)

    def get_conditioned_x(self, free_val):
        return safe_matmul(self.preconditioner, free_val)

    def fun_free_cond(self, free_val, *argv, verbose=False, **argk):
        return self.fun_free(self.__precondition(free_val), *argv, verbose=verbose, **argk)

    def fun_free_grad_cond(self, free_val, *argv, **argk):
        y = self.__precondition(free_val)
        return self.__precondition_t(self.fun_free_grad(y, *argv, **argk))

    def fun_free_hessian_cond(self, free_val, *argv, **argk):
        y = self.__precondition(free_val)
        hess = self.fun_free_hessian(y, *argv, **argk)
        return safe_matmul(self.__precondition_t(hess), self.preconditioner)

    def fun_free_hvp_cond(self, free_val, *argv, **argk):
        *args, vec = argv
        y = self.__precondition(free_val)
        hvp = self.fun_free_hvp(y, *args, self.__precondition(vec), **argk)
        return self.__precondition_t(hvp)


class ParameterConverter(object):
    def __convert(self, set_in, par_in, get_out):
        set_in(par_in)
        self.converter()
        return get_out()

    def converter_free_to_vec(self, free_par_in):
        return self.__convert(self.par_in.set_free, free_par_in, self.par_out.get_vector)

    def converter_free_to_free(self, free_par_in):
        return self.__convert(self.par_in.set_free, free_par_in, self.par_out.get_free)

    def converter_vec_to_vec(self, vec_par_in):
        return self.__convert(self.par_in.set_vector, vec_par_in, self.par_out.get_vector)

    def converter_vec_to_free(self, vec_par_in):
        return self.__convert(self.par_in.set_vector, vec_par_in, self.par_out.get_free)

    def __cache_and_eval(self, autograd_fun, set_in, val_in):
        saved = self.par_out.get_vector()
        result = autograd_fun(val_in)
        set_in(val_in)
        self.par_out.set_vector(saved)
        return result

    def cache_free_and_eval(self, autograd_fun, free_val_in):
        return self.__cache_and_eval(autograd_fun, self.par_in.set_free, free_val_in)

    def cache_vector_and_eval(self, autograd_fun, vec_val_in):
        return self.__cache_and_eval(autograd_fun, self.par_in.set_vector, vec_val_in)


def set_par(par, val, is_free):
    setter = par.set_free if is_free else par.set_vector
    setter(val)


class TwoParameterObjective(object):
    def set_pars(self, val1, val2, val1_is_free, val2_is_free):
        for par, val, is_free in ((self.par1, val1, val1_is_free), (self.par2, val2, val2_is_free)):
            set_par(par, val, is_free)

    def cache_and_eval(
        self, autograd_fun, val1, val2, val1_is_free, val2_is_free,
        *argv, **argk):
        where = (val1, val2, val1_is_free, val2_is_free)
        result = autograd_fun(*where, *argv, **argk)
        self.set_pars(*where)
        return result

    def eval_fun(
        self, val1, val2, val1_is_free, val2_is_free,
        *argv, **argk):
        self.set_pars(val1, val2, val1_is_free, val2_is_free)
        return self.fun(*argv, **argk)

    def fun_free_hessian12(self, free_val1, free_val2, *argv, **argk):
        return self.fun_hessian12(free_val1, free_val2, True, True, *argv, **argk)

    def __hessian21(self, val1, val2, is_free, *argv, **argk):
        return self.cache_and_eval(
            self._fun_hessian21, val1, val2, is_free, is_free, *argv, **argk)

    def fun_free_hessian21(self, free_val1, free_val2, *argv, **argk):
        return self.__hessian21(free_val1, free_val2, True, *argv, **argk)

    def fun_vector_hessian12(self, vec_val1, vec_val2, *argv, **argk):
        return self.fun_hessian12(vec_val1, vec_val2, False, False, *argv, **argk)

    def fun_vector_hessian21(self, vec_val1, vec_val2, *argv, **argk):
        return self.__hessian21(vec_val1, vec_val2, False, *argv, **argk)

    def fun_hessian_free1_vector2(self, free_val1, vec_val2, *argv, **argk):
        return self.fun_hessian12(
            free_val1, vec_val2, val1_is_free=True, val2_is_free=False, *argv, **argk) \
            if not argv else self.fun_hessian12(free_val1, vec_val2, True, False, *argv, **argk)

    def fun_hessian_vector1_free2(self, vec_val1, free_val2, *argv, **argk):
        return self.fun_hessian12(vec_val1, free_val2, False, True, *argv, **argk)


class ParametricSensitivity(object):
    def set_optimal_input_par(
        self,
        optimal_input_par=None,
        objective_hessian=None):
        if optimal_input_par is None:
            optimal_input_par = self.input_par.get_free()
        self.optimal_input_par = deepcopy(optimal_input_par)
        if objective_hessian is None:
            objective_hessian = self.objective.fun_free_hessian(self.optimal_input_par)
        self.objective_hessian = objective_hessian
        self.hessian_chol = sp.linalg.cho_factor(self.objective_hessian)
        self.optimal_hyper_par = np.array(self.hyper_par.get_vector())

        self.dout_din = self.parameter_converter.free_to_vec_jacobian(self.optimal_input_par)
        cross = self.sensitivity_objective.fun_hessian_free1_vector2(
            self.optimal_input_par, self.hyper_par.get_vector())
        self.hyper_par_cross_hessian = cross
        self.hyper_par_sensitivity = -sp.linalg.cho_solve(self.hessian_chol, cross)
        output = self.parameter_converter.converter_free_to_vec(
            self.optimal_input_par)
        self.optimal_output_par = np.array(output)

    def get_doutput_dhyper(self):
        return np.matmul(self.dout_din, self.hyper_par_sensitivity)

    def predict_input_par_from_hyperparameters(self, new_hyper_par):
        step = np.dot(self.hyper_par_sensitivity, new_hyper_par - self.optimal_hyper_par)
        return step + self.optimal_input_par

    def predict_output_par_from_hyperparameters(self, new_hyper_par, linear):
        if not linear:
            input_par = self.predict_input_par_from_hyperparameters(new_hyper_par)
            return self.parameter_converter.converter_free_to_vec(input_par)
        step = new_hyper_par - self.optimal_hyper_par
        return self.optimal_output_par + np.matmul(self.get_doutput_dhyper(), step)


def make_index_param(param):
    index_param = deepcopy(param)
    index_param.set_vector(np.array(range(param.vector_size())))
    return index_param


def get_sparse_sub_matrix(
    sub_matrix, row_indices, col_indices, row_dim, col_dim):
    rows, cols = np.nonzero(sub_matrix)
    mat_vals, mat_rows, mat_cols = [], [], []
    for row, col in zip(rows, cols):
        mat_vals.append(sub_matrix[row, col])
        mat_rows.append(int(row_indices[row]))
        mat_cols.append(int(col_indices[col]))
    return sp.sparse.csr_matrix(
        (mat_vals, (mat_rows, mat_cols)), shape=(row_dim, col_dim))


def get_sparse_sub_hessian(sub_hessian, full_indices, full_hess_dim):
    return get_sparse_sub_matrix(
        sub_hessian, full_indices, full_indices, full_hess_dim, full_hess_dim)


def pack_csr_matrix(sp_mat):
    csr = sp.sparse.csr_matrix(sp_mat)
    return {name: getattr(csr, name) for name in ('data', 'indices', 'indptr', 'shape')}


def unpack_csr_matrix(sp_mat_dict):
    parts = tuple(sp_mat_dict[name] for name in ('data', 'indices', 'indptr'))
    return sp.sparse.csr_matrix(parts, shape=sp_mat_dict['shape'])


def json_pack_csr_matrix(sp_mat):
    assert sparse.isspmatrix_csr(sp_mat)
    result = {'shape': sp_mat.shape, 'type': 'csr_matrix'}
    for name in ('data', 'indices', 'indptr'):
        result[name] = json_tricks.dumps(getattr(sp_mat, name))
    return result


def json_unpack_csr_matrix(sp_mat_dict):
    assert sp_mat_dict['type'] == 'csr_matrix'
    parts = [json_tricks.loads(sp_mat_dict[name]) for name in ('data', 'indices', 'indptr')]
    return sparse.csr_matrix(tuple(parts), shape=sp_mat_dict['shape'])
