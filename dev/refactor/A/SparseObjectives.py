def safe_matmul(x, y):
    sparse_product = sp.sparse.issparse(x) or sp.sparse.issparse(y)
    return x * y if sparse_product else np.matmul(x, y)


class Logger(object):
    def log(self, value, x):
        value, x = deepcopy((value, x))
        self.value, self.x = value, x
        self.last_value, self.last_x = value, x
        self.val_array.append(value)
        self.x_array.append(x)
        if self.iter % self.print_every == 0:
            report = self.callback
            if report is not None:
                report(self)
            else:
                self.print_message()
        self.iter = self.iter + 1


class Objective(object):
    def __init__(self, par, fun):
        self.par = par
        self.fun = fun
        self.preconditioner = None
        self.logger = Logger()

        for name, target in [('free', self.fun_free), ('vector', self.fun_vector)]:
            setattr(self, 'ag_fun_' + name + '_grad', autograd.grad(target, argnum=0))
            setattr(self, 'ag_fun_' + name + '_hessian', autograd.hessian(target, argnum=0))
            setattr(self, 'ag_fun_' + name + '_jacobian', autograd.jacobian(target, argnum=0))
            setattr(self, 'ag_fun_' + name + '_hvp', autograd.hessian_vector_product(target, argnum=0))

    def fun_free_hvp(self, free_val, *argv, verbose=False, **argk):
        result = self.ag_fun_free_hvp(free_val, *argv, **argk)
        self.par.set_free(free_val)
        return result

    def fun_vector_hvp(self, vec_val, *argv, **argk):
        result = self.ag_fun_vector_hvp(vec_val, *argv, **argk)
        self.par.set_vector(vec_val)
        return result

    def __conditioned(self, free_val):
        assert self.preconditioner is not None
        return self.get_conditioned_x(free_val), self.preconditioner.T

    def fun_free_grad_cond(self, free_val, *argv, **argk):
        y, a_t = self.__conditioned(free_val)
        return safe_matmul(a_t, self.fun_free_grad(y, *argv, **argk))

    def fun_free_hessian_cond(self, free_val, *argv, **argk):
        y, a_t = self.__conditioned(free_val)
        hess = self.fun_free_hessian(y, *argv, **argk)
        return safe_matmul(safe_matmul(a_t, hess), self.preconditioner)

    def fun_free_hvp_cond(self, free_val, *argv, **argk):
        y, a_t = self.__conditioned(free_val)
        vec = safe_matmul(self.preconditioner, argv[-1])
        hvp = self.fun_free_hvp(y, *argv[:-1], vec, **argk)
        return safe_matmul(a_t, hvp)

    def uncondition_x(self, cond_x):
        return self.get_conditioned_x(cond_x)


class ParameterConverter(object):
    def __convert(self, set_in, val, get_out):
        set_in(val)
        self.converter()
        return get_out()

    def converter_free_to_vec(self, free_par_in):
        return self.__convert(self.par_in.set_free, free_par_in, self.par_out.get_vector)

    def converter_free_to_free(self, free_par_in):
        return self.__convert(self.par_in.set_free, free_par_in, self.par_out.get_free)

    def converter_vec_to_vec(self, vec_par_in):
        return self.__convert(self.par_in.set_vector, vec_par_in, self.par_out.get_vector)

    def converter_vec_to_free(self, vec_par_in):
        return self.__convert(self.par_in.set_vector, vec_par_in, self.par_out.get_free)

    def __cached(self, set_in, autograd_fun, val):
        out = self.par_out.get_vector()
        result = autograd_fun(val)
        set_in(val)
        self.par_out.set_vector(out)
        return result

    def cache_free_and_eval(self, autograd_fun, free_val_in):
        return self.__cached(self.par_in.set_free, autograd_fun, free_val_in)

    def cache_vector_and_eval(self, autograd_fun, vec_val_in):
        return self.__cached(self.par_in.set_vector, autograd_fun, vec_val_in)


def set_par(par, val, is_free):
    setter = par.set_free if is_free else par.set_vector
    setter(val)


class TwoParameterObjective(object):
    def __set(self, val1, val2, val1_is_free, val2_is_free):
        set_par(self.par1, val1, val1_is_free)
        set_par(self.par2, val2, val2_is_free)

    def cache_and_eval(self, autograd_fun, *argv, **argk):
        result = autograd_fun(*argv, **argk)
        self.__set(*argv[:4])
        return result

    def eval_fun(
        self, val1, val2, val1_is_free, val2_is_free,
        *argv, **argk):
        self.__set(val1, val2, val1_is_free, val2_is_free)
        return self.fun(*argv, **argk)

    def fun_free_hessian12(self, free_val1, free_val2, *argv, **argk):
        return self.fun_hessian12(free_val1, free_val2, True, True, *argv, **argk)

    def fun_vector_hessian12(self, vec_val1, vec_val2, *argv, **argk):
        return self.fun_hessian12(vec_val1, vec_val2, False, False, *argv, **argk)

    def fun_hessian_free1_vector2(self, free_val1, vec_val2, *argv, **argk):
        return self.fun_hessian12(free_val1, vec_val2, True, False, *argv, **argk)


class ParametricSensitivity(object):
    def __predicted_change(self, new_hyper_par):
        return self.hyper_par_sensitivity @ (new_hyper_par - self.optimal_hyper_par)

    def predict_input_par_from_hyperparameters(self, new_hyper_par):
        return self.optimal_input_par + self.__predicted_change(new_hyper_par)

    def predict_output_par_from_hyperparameters(self, new_hyper_par, linear):
        if not linear:
            new_input = self.predict_input_par_from_hyperparameters(new_hyper_par)
            return self.parameter_converter.converter_free_to_vec(new_input)
        return self.optimal_output_par + self.dout_din @ self.__predicted_change(new_hyper_par)


def get_sparse_sub_hessian(sub_hessian, full_indices, full_hess_dim):
    return get_sparse_sub_matrix(
        sub_hessian, full_indices, full_indices, full_hess_dim, full_hess_dim)


def get_sparse_sub_matrix(
    sub_matrix, row_indices, col_indices, row_dim, col_dim):
    num_rows, num_cols = sub_matrix.shape
    rows, cols, vals = [], [], []
    for i in range(num_rows):
        for j in range(num_cols):
            val = sub_matrix[i, j]
            if val == 0:
                continue
            rows.append(int(row_indices[i]))
            cols.append(int(col_indices[j]))
            vals.append(val)
    return sp.sparse.csr_matrix((vals, (rows, cols)), shape=(row_dim, col_dim))


def pack_csr_matrix(sp_mat):
    sp_mat = sp.sparse.csr_matrix(sp_mat)
    return {key: getattr(sp_mat, key) for key in ('data', 'indices', 'indptr', 'shape')}


def unpack_csr_matrix(sp_mat_dict):
    parts = tuple(sp_mat_dict[key] for key in ('data', 'indices', 'indptr'))
    return sp.sparse.csr_matrix(parts, shape=sp_mat_dict['shape'])
