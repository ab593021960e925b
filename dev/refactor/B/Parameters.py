def unconstrain_array(vec, lb, ub):
    above = vec <= ub
    below = vec >= lb
    if not np.all(above):
        raise ValueError('Elements larger than the upper bound')
    if not np.all(below):
        raise ValueError('Elements smaller than the lower bound')
    free = unconstrain(vec, lb, ub)
    return free.ravel()


def unconstrain_scalar(val, lb, ub):
    for ok, which in ((val <= ub, 'larger than the upper'), (val >= lb, 'smaller than the lower')):
        if not ok:
            raise ValueError('Value {} bound'.format(which))
    return unconstrain(val, lb, ub)


def _has_bounds(lb, ub):
    """Whether there is a finite lower bound and a finite upper bound."""
    return (not math.isinf(lb), not math.isinf(ub))


def unconstrain(vec, lb, ub):
    if ub <= lb:
        raise ValueError('Upper bound must be greater than lower bound')
    bounds = _has_bounds(lb, ub)
    if bounds == (False, False):
        result = copy.copy(vec)
    elif bounds == (True, False):
        result = np.log(vec - lb)
    elif bounds == (False, True):
        result = -np.log(ub - vec)
    else:
        result = np.log(vec - lb)
        result = result - np.log(ub - vec)
    return result


def constrain(free_vec, lb, ub):
    if ub <= lb:
        raise ValueError('Upper bound must be greater than lower bound')
    below, above = _has_bounds(lb, ub)
    if below and above:
        exp_vec = np.exp(free_vec)
        fraction = exp_vec / (exp_vec + 1.0)
        return lb + fraction * (ub - lb)
    elif below:
        return lb + np.exp(free_vec)
    elif above:
        return ub - 1.0 / np.exp(free_vec)
    return copy.copy(free_vec)


def get_inbounds_value(lb, ub):
    assert lb < ub
    below, above = _has_bounds(lb, ub)
    return 0.5 * (lb + ub) if below and above else \
        lb + 1.0 if below else ub - 1.0 if above else 0.0


def _sparse_diagonal(entries, size):
    where = np.arange(size)
    return coo_matrix((entries, (where, where)), (size, size))


class ScalarParam(object):
    def __init__(self, name='', lb=-float('inf'), ub=float('inf'), val=None):
        self.name = name
        if ub <= lb:
            raise ValueError('Upper bound must strictly exceed lower bound')
        self.__lb, self.__ub = lb, ub
        self.set(get_inbounds_value(lb, ub) if val is None else val)

    def dictval(self):
        val = self.__val
        return val if isinstance(val, numbers.Number) else val.tolist()

    def names(self):
        return list((self.name,))

    def set(self, val):
        size = np.size(val)
        if size == 1:
            self.__val = val
        else:
            raise ValueError(
                'Wrong size for scalar {}.  Expected: 1, got {}'.format(self.name, size))

    def set_free(self, free_val):
        new_val = constrain(free_val, lb=self.__lb, ub=self.__ub)
        self.set(new_val)

    def get_free(self):
        free_val = unconstrain_scalar(self.__val, lb=self.__lb, ub=self.__ub)
        return np.reshape(free_val, (1,))

    def free_to_vector_hess(self, free_val):
        with warnings.catch_warnings():
            warnings.filterwarnings(
                "ignore", "^Output seems independent of input\.$", UserWarning)
            hess_dense = self.free_to_vector_hess_dense(free_val)
        return list(map(coo_matrix, hess_dense))

    def get_vector(self):
        return np.reshape(self.__val, (1,))


class VectorParam(object):
    def __init__(self, name='', size=1, lb=-float("inf"), ub=float("inf"),
                 val=None):
        if lb >= ub:
            raise ValueError('Upper bound must strictly exceed lower bound')
        assert lb >= -float('inf') and ub <= float('inf')
        self.name = name
        self.__size = int(size)
        self.__lb = lb
        self.__ub = ub
        if val is None:
            val = get_inbounds_value(lb, ub) * np.ones(self.__size)
        self.set(val)

    def names(self):
        result = []
        for k in range(self.size()):
            result.append('{}_{}'.format(self.name, k))
        return result

    def __wrong_size(self):
        return ValueError('Wrong size for vector ' + self.name)

    def set(self, val):
        if val.size != self.__size:
            raise self.__wrong_size()
        self.__val = val

    def set_free(self, free_val):
        if free_val.size != self.__size:
            raise self.__wrong_size()
        self.set(constrain(free_val, self.__lb, self.__ub))

    def free_to_vector_jac(self, free_val):
        grads = np.zeros(self.__size)
        for vec_ind in range(self.__size):
            grads[vec_ind] = constrain_scalar_jac(free_val[vec_ind], self.__lb, self.__ub)
        return _sparse_diagonal(grads, self.__size)

    def free_to_vector_hess(self, free_val):
        hessians = []
        shape = (self.__size, self.__size)
        with warnings.catch_warnings():
            warnings.filterwarnings(
                "ignore", "^Output seems independent of input\.$", UserWarning)
            for vec_ind, val in enumerate(free_val):
                hess = constrain_scalar_hess(val, self.__lb, self.__ub)
                hessians.append(coo_matrix(([hess], ([vec_ind], [vec_ind])), shape=shape))
        return hessians


class ArrayParam(object):
    def __init__(self, name='', shape=(1, 1),
                 lb=-float("inf"), ub=float("inf"), val=None):
        if lb >= ub:
            raise ValueError('Upper bound must strictly exceed lower bound')
        self.name = name
        self.__shape = shape
        self.__lb, self.__ub = lb, ub
        if val is None:
            val = np.full(shape, get_inbounds_value(lb, ub))
        self.set(val)

    def set(self, val):
        if val.shape == self.__shape:
            self.__val = val
            return
        raise ValueError('Wrong size for array {} Expected shape: {} Got shape: {}'.format(
            self.name, self.__shape, val.shape))

    def __check_size(self, vec, size):
        if vec.size != size:
            raise ValueError('Wrong size for array {}.  Expected {}, got {}'.format(
                self.name, size, vec.size))

    def set_free(self, free_val):
        self.__check_size(free_val, self.free_size())
        constrained = constrain(free_val, self.__lb, self.__ub)
        self.set(np.reshape(constrained, self.__shape))

    def set_vector(self, val):
        self.__check_size(val, self.vector_size())
        self.set(np.reshape(val, self.__shape))

    def get_vector(self):
        return np.reshape(self.__val, (self.vector_size(),))

    def free_to_vector_jac(self, free_val):
        size = self.vector_size()
        with warnings.catch_warnings():
            warnings.filterwarnings(
                "ignore", "^Output seems independent of input\.$", UserWarning)
            grads = [constrain_scalar_jac(v, self.__lb, self.__ub) for v in free_val]
        return _sparse_diagonal(grads, size)

    def free_to_vector_hess(self, free_val):
        hessians = []
        n = self.free_size()
        with warnings.catch_warnings():
            warnings.filterwarnings(
                "ignore", "Output seems independent of input.", UserWarning)
            for k in range(n):
                val = constrain_scalar_hess(free_val[k], self.__lb, self.__ub)
                hessians += [coo_matrix((np.array([val]), (np.array([k]), np.array([k]))), (n, n))]
        return hessians

    def free_size(self):
        size = 1
        for d in self.__shape:
            size *= d
        return int(size)

    def vector_size(self):
        return self.free_size()


def set_free_offset(param, free_vec, offset):
    stop = offset + param.free_size()
    param.set_free(free_vec[offset:stop])
    return stop


def get_free_offset(param, vec, offset):
    stop = offset + param.free_size()
    vec[offset:stop] = param.get_free()
    return stop


def set_vector_offset(param, vec, offset):
    stop = offset + param.vector_size()
    param.set_vector(vec[offset:stop])
    return stop


def get_vector_offset(param, vec, offset):
    stop = offset + param.vector_size()
    vec[offset:stop] = param.get_vector()
    return stop


def free_to_vector_jac_offset(param, free_vec, free_offset, vec_offset):
    free_stop = free_offset + param.free_size()
    vec_stop = vec_offset + param.vector_size()
    return free_stop, vec_stop, param.free_to_vector_jac(free_vec[free_offset:free_stop])


def offset_sparse_matrix(spmat, offset_shape, full_shape):
    row_offset, col_offset = offset_shape
    rows = spmat.row + row_offset
    cols = spmat.col + col_offset
    return coo_matrix((spmat.data, (rows, cols)), full_shape)


def free_to_vector_hess_offset(
    param, free_vec, hessians, free_offset, full_shape):
    stop = free_offset + param.free_size()
    hessians.extend([
        offset_sparse_matrix(hess, (free_offset, free_offset), full_shape)
        for hess in param.free_to_vector_hess(free_vec[free_offset:stop])])
    return stop


def convert_vector_to_free_hessian(param, free_val, vector_grad, vector_hess):
    param.set_free(copy.deepcopy(free_val))
    jac = param.free_to_vector_jac(free_val)
    param.set_free(copy.deepcopy(free_val))
    hessians = param.free_to_vector_hess(free_val)

    data, rows, cols = [], [], []
    for k in range(param.vector_size()):
        hess = hessians[k]
        data.append(vector_grad[k] * hess.data)
        rows.append(hess.row)
        cols.append(hess.col)
    n = param.free_size()
    third_order = coo_matrix(
        (np.concatenate(data), (np.concatenate(rows), np.concatenate(cols))), (n, n))
    return third_order + jac.T * vector_hess * jac
