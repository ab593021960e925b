def SymIndex(k1, k2):
    row, col = max(k1, k2), min(k1, k2)
    return col + row * (row + 1) // 2


def vectorize_ld_matrix(mat):
    shape = np.shape(mat)
    if shape[0] != shape[1]:
        raise ValueError('mat must be square')
    rows, cols = np.tril_indices(shape[0])
    return mat[rows, cols]


@primitive
def unvectorize_ld_matrix(vec):
    mat_size = int(0.5 * (math.sqrt(1 + 8 * vec.size) - 1))
    if mat_size * (mat_size + 1) / 2 != vec.size: \
        raise ValueError('Vector is an impossible size')
    mat = np.zeros((mat_size, mat_size))
    mat[np.tril_indices(mat_size)] = vec
    return mat


def _diag_matrix(diagonal):
    return np.make_diagonal(diagonal, offset=0, axis1=-1, axis2=-2)


def exp_matrix_diagonal(mat):
    assert mat.shape[0] == mat.shape[1]
    diagonal = np.diag(mat)
    return mat + _diag_matrix(np.exp(diagonal) - diagonal)


def log_matrix_diagonal(mat):
    assert mat.shape[0] == mat.shape[1]
    diagonal = np.diag(mat)
    return mat - _diag_matrix(diagonal) + _diag_matrix(np.log(diagonal))


def pack_posdef_matrix(mat, diag_lb=0.0):
    chol = np.linalg.cholesky(mat - diag_lb * np.eye(mat.shape[0]))
    return vectorize_ld_matrix(log_matrix_diagonal(chol))


def unpack_posdef_matrix(free_vec, diag_lb=0.0):
    chol = exp_matrix_diagonal(unvectorize_ld_matrix(free_vec))
    mat = np.dot(chol, chol.T)
    return mat + diag_lb * np.eye(mat.shape[0])


def unvectorize_symmetric_matrix(vec_val):
    ld_mat = unvectorize_ld_matrix(vec_val)
    return ld_mat + ld_mat.T - _diag_matrix(np.diagonal(ld_mat, axis1=-1, axis2=-2))


class PosDefMatrixParam(object):
    def set(self, val):
        if np.shape(val) != (self.__size, self.__size):
            raise ValueError('Matrix is a different size')
        if np.any(val.T != val):
            raise ValueError('Matrix is not symmetric')
        self.__val = val

    def __differentiate(self, operator, free_val):
        val = self.__val
        dense = operator(self.free_to_vector)(free_val)
        self.__val = val
        return dense

    def free_to_vector_jac_dense(self, free_val):
        return self.__differentiate(autograd.jacobian, free_val)

    def free_to_vector_hess_dense(self, free_val):
        return self.__differentiate(autograd.hessian, free_val)

    def free_to_vector_hess(self, free_val):
        return [coo_matrix(hess) for hess in self.free_to_vector_hess_dense(free_val)]


def _append_block(rows, cols, vals, inds, block):
    for i in range(len(inds)):
        for j in range(len(inds)):
            rows.append(inds[i])
            cols.append(inds[j])
            vals.append(block[i, j])


class PosDefMatrixParamVector(object):
    def free_obs_slice(self, obs):
        assert obs < self.__length
        start = self.__vec_size * obs
        return slice(start, start + self.__vec_size)

    def __map_obs(self, vec, fun):
        mats = []
        for obs in range(self.__length):
            mats.append(fun(vec[self.free_obs_slice(obs)]))
        return np.array(mats)

    def set_free(self, free_val):
        if free_val.size != self.free_size():
            raise ValueError('Free value is the wrong length')
        self.__val = self.__map_obs(
            free_val, lambda v: unpack_posdef_matrix(v, diag_lb=self.__diag_lb))

    def set_vector(self, vec_val):
        if len(vec_val) != self.vector_size():
            raise ValueError('Vector value is the wrong length')
        self.__val = self.__map_obs(vec_val, unvectorize_symmetric_matrix)

    def get_free(self):
        return np.concatenate([pack_posdef_matrix(mat, diag_lb=self.__diag_lb) for mat in self.__val])

    def get_vector(self):
        return np.concatenate([vectorize_ld_matrix(mat) for mat in self.__val])

    def free_to_vector_jac(self, free_val):
        rows, cols, vals = [], [], []
        for obs in range(self.__length):
            inds = np.arange(obs * self.__vec_size, (obs + 1) * self.__vec_size)
            jac = pos_def_matrix_free_to_vector_jac(free_val[inds])
            _append_block(rows, cols, vals, inds, jac)
        return coo_matrix((vals, (rows, cols)), (self.vector_size(), self.free_size()))

    def free_to_vector_hess(self, free_val):
        hessians = []
        shape = (self.free_size(), self.free_size())
        for obs in range(self.__length):
            inds = np.arange(obs * self.__vec_size, (obs + 1) * self.__vec_size)
            hess = pos_def_matrix_free_to_vector_hess(free_val[inds])
            for k in range(self.__vec_size):
                rows, cols, vals = [], [], []
                _append_block(rows, cols, vals, inds, hess[k])
                hessians.append(coo_matrix((vals, (rows, cols)), shape))
        return hessians


class PosDefMatrixParamArray(object):
    def __all_obs(self):
        return itertools.product(*self.__array_ranges)

    def stacked_obs_slice(self, obs):
        assert len(obs) == len(self.__array_shape)
        start = 0
        for ind, n in zip(obs, self.__array_shape):
            start = start * n + ind
        start = start * self.__vec_size
        return slice(start, start + self.__vec_size)

    def set_free(self, free_val):
        if free_val.size != self.free_size():
            raise ValueError('Free value is the wrong length')
        mats = []
        for obs in self.__all_obs():
            mats.append(unpack_posdef_matrix(free_val[self.stacked_obs_slice(obs)], diag_lb=self.__diag_lb))
        self.__val = np.reshape(np.array(mats), self.__shape)

    def get_free(self):
        return np.hstack([
            pack_posdef_matrix(self.__val[obs], diag_lb=self.__diag_lb)
            for obs in self.__all_obs()])

    def get_vector(self):
        return np.concatenate([vectorize_ld_matrix(self.__val[obs]) for obs in self.__all_obs()])

    def free_to_vector_jac(self, free_val):
        rows, cols, vals = [], [], []
        for obs in self.__all_obs():
            where = self.stacked_obs_slice(obs)
            jac = pos_def_matrix_free_to_vector_jac(free_val[where])
            _append_block(rows, cols, vals, range(where.start, where.stop), jac)
        return coo_matrix((vals, (rows, cols)), (self.vector_size(), self.free_size()))
