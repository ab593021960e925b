INF = float('inf')


def _check_bounds(lb, ub):
    if not lb < ub:
        raise ValueError('Upper bound must be greater than lower bound')


def unconstrain_array(vec, lb, ub):
    if np.any(vec > ub):
        raise ValueError('Elements larger than the upper bound')
    if np.any(vec < lb):
        raise ValueError('Elements smaller than the lower bound')
    return np.ravel(unconstrain(vec, lb, ub))


def unconstrain_scalar(val, lb, ub):
    if lb <= val and val <= ub:
        return unconstrain(val, lb, ub)
    raise ValueError('Value outside the bounds')


def unconstrain(vec, lb, ub):
    _check_bounds(lb, ub)
    has_lb = lb > -INF
    has_ub = ub < INF
    if has_lb and has_ub:
        return np.log((vec - lb) / (ub - vec))
    if has_lb:
        return np.log(vec - lb)
    if has_ub:
        return -np.log(ub - vec)
    return copy.copy(vec)


def constrain(free_vec, lb, ub):
    _check_bounds(lb, ub)
    has_lb = lb > -INF
    has_ub = ub < INF
    if not has_lb and not has_ub:
        return copy.copy(free_vec)
    if has_lb and not has_ub:
        return lb + np.exp(free_vec)
    if has_ub and not has_lb:
        return ub - np.exp(-free_vec)
    width = ub - lb
    return lb + width / (1 + np.exp(-free_vec))


def get_inbounds_value(lb, ub):
    assert lb < ub
    if lb == -INF and ub == INF:
        return 0.0
    if lb == -INF:
        return ub - 1.0
    if ub == INF:
        return lb + 1.0
    return lb + 0.5 * (ub - lb)


class ScalarParam(object):
    def __init__(self, name='', lb=-float('inf'), ub=float('inf'), val=None):
        _check_bounds(lb, ub)
        self.name = name
        self.__lb, self.__ub = lb, ub
        self.set(get_inbounds_value(lb, ub) if val is None else val)

    def __str__(self):
        return '{}: {}'.format(self.name, self.__val)

    def dictval(self):
        if not isinstance(self.__val, numbers.Number):
            return self.__val.tolist()
        return self.__val

    def set(self, val):
        size = np.size(val)
        if size == 1:
            self.__val = val
        else:
            raise ValueError('Wrong size for scalar {}. Expected: 1, got {}'.format(self.name, size))

    def get_free(self):
        free = unconstrain_scalar(self.__val, self.__lb, self.__ub)
        return np.reshape(free, (1,))

    def _differentiate(self, operator, free_val):
        val = self.__val
        result = operator(self.free_to_vector)(free_val)
        self.__val = val
        return result

    def free_to_vector_jac_dense(self, free_val):
        return self._differentiate(autograd.jacobian, free_val)

    def free_to_vector_hess_dense(self, free_val):
        return self._differentiate(autograd.hessian, free_val)

    def free_to_vector_hess(self, free_val):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore", UserWarning)
            hess_dense = self.free_to_vector_hess_dense(free_val)
        return [coo_matrix(h) for h in hess_dense]

    def get_vector(self):
        return np.reshape(self.__val, (1,))


class VectorParam(object):
    def __init__(self, name='', size=1, lb=-float("inf"), ub=float("inf"),
                 val=None):
        _check_bounds(lb, ub)
        self.name = name
        self.__size = int(size)
        self.__lb = lb
        self.__ub = ub
        if val is None:
            val = get_inbounds_value(lb, ub) * np.ones(self.__size)
        self.set(val)

    def names(self):
        names = []
        for k in range(self.__size):
            names.append('{}_{}'.format(self.name, k))
        return names

    def __check_size(self, val):
        if val.size != self.__size:
            raise ValueError('Wrong size for vector ' + self.name)

    def set(self, val):
        self.__check_size(val)
        self.__val = val

    def set_free(self, free_val):
        self.__check_size(free_val)
        self.set(constrain(free_val, self.__lb, self.__ub))

    def free_to_vector_jac(self, free_val):
        inds = np.arange(self.vector_size())
        grads = []
        for ind in range(self.vector_size()):
            grads.append(constrain_scalar_jac(free_val[ind], self.__lb, self.__ub))
        shape = (self.vector_size(), self.free_size())
        return coo_matrix((grads, (inds, inds)), shape=shape)

    def free_to_vector_hess(self, free_val):
        shape = (self.free_size(), self.free_size())
        hessians = []
        with warnings.catch_warnings():
            warnings.filterwarnings(
                "ignore", "^Output seems independent of input\.$", UserWarning)
            for ind in range(self.vector_size()):
                hess = constrain_scalar_hess(free_val[ind], self.__lb, self.__ub)
                hessians.append(coo_matrix(([hess], ([ind], [ind])), shape=shape))
        return hessians

    def free_size(self):
        return self.size()

    def vector_size(self):
        return self.size()


class ArrayParam(object):
    def set(self, val):
        if np.shape(val) != self.__shape:
            raise ValueError('Wrong size for array {}. Expected shape: {}. Got shape: {}'.format(
                self.name, self.__shape, np.shape(val)))
        self.__val = val

    def __size(self):
        size = 1
        for s in self.__shape:
            size *= s
        return int(size)

    def set_free(self, free_val):
        if free_val.size != self.free_size():
            raise ValueError(f'Wrong size for array {self.name}. Expected {self.free_size()}, got {free_val.size}')
        val = constrain(free_val, self.__lb, self.__ub)
        self.set(np.reshape(val, self.__shape))

    def free_to_vector_jac(self, free_val):
        n = self.vector_size()
        with warnings.catch_warnings():
            warnings.filterwarnings(
                "ignore", "^Output seems independent of input\.$", UserWarning)
            grads = np.array([constrain_scalar_jac(f, self.__lb, self.__ub) for f in free_val])
        return coo_matrix((grads, (np.arange(n), np.arange(n))), (n, n))

    def free_to_vector_hess(self, free_val):
        n = self.vector_size()
        hessians = []
        for ind, f in enumerate(free_val):
            with warnings.catch_warnings():
                warnings.filterwarnings(
                    "ignore", "Output seems independent of input.", UserWarning)
                hess = constrain_scalar_hess(f, self.__lb, self.__ub)
            hessians.append(coo_matrix(([hess], ([ind], [ind])), (n, n)))
        return hessians

    def get_vector(self):
        return np.ravel(self.__val)

    def free_size(self):
        return self.__size()

    def vector_size(self):
        return self.__size()


def _next(offset, size):
    end = offset + size
    return slice(offset, end), end


def set_free_offset(param, free_vec, offset):
    where, end = _next(offset, param.free_size())
    param.set_free(free_vec[where])
    return end


def get_free_offset(param, vec, offset):
    where, end = _next(offset, param.free_size())
    vec[where] = param.get_free()
    return end


def set_vector_offset(param, vec, offset):
    where, end = _next(offset, param.vector_size())
    param.set_vector(vec[where])
    return end


def get_vector_offset(param, vec, offset):
    where, end = _next(offset, param.vector_size())
    vec[where] = param.get_vector()
    return end


def free_to_vector_jac_offset(param, free_vec, free_offset, vec_offset):
    where, free_end = _next(free_offset, param.free_size())
    jac = param.free_to_vector_jac(free_vec[where])
    return free_end, vec_offset + param.vector_size(), jac


def offset_sparse_matrix(spmat, offset_shape, full_shape):
    row_offset, col_offset = offset_shape
    rows = spmat.row + row_offset
    cols = spmat.col + col_offset
    return coo_matrix((spmat.data, (rows, cols)), full_shape)


def free_to_vector_hess_offset(
    param, free_vec, hessians, free_offset, full_shape):
    where, free_end = _next(free_offset, param.free_size())
    offsets = (free_offset, free_offset)
    for hess in param.free_to_vector_hess(free_vec[where]):
        hessians.append(offset_sparse_matrix(hess, offsets, full_shape))
    return free_end


def convert_vector_to_free_hessian(param, free_val, vector_grad, vector_hess):
    param.set_free(copy.deepcopy(free_val))
    jac = param.free_to_vector_jac(free_val)
    param.set_free(copy.deepcopy(free_val))
    hesses = param.free_to_vector_hess(free_val)

    vals, rows, cols = [], [], []
    for ind, hess in enumerate(hesses):
        vals.append(hess.data * vector_grad[ind])
        rows.append(hess.row)
        cols.append(hess.col)
    size = param.free_size()
    third_order = coo_matrix(
        (np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))), (size, size))
    return third_order + jac.T * vector_hess * jac
