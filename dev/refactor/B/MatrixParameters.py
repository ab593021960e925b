def SymIndex(k1, k2):
    if k1 < k2:
        k1, k2 = k2, k1
    return k2 + (k1 * (k1 + 1)) // 2


def vectorize_ld_matrix(mat):
    nrow, ncol = mat.shape
    if nrow == ncol:
        return mat[np.tril_indices(ncol)]
    raise ValueError('mat must be square')


@primitive
def unvectorize_ld_matrix(vec):
    n = vec.size
    mat_size = int((math.sqrt(8 * n + 1) - 1) / 2)
    if mat_size * (mat_size + 1) != 2 * n:
        raise ValueError('Vector is an impossible size')
    mat = np.zeros((mat_size, mat_size))
    ind = 0
    for row in range(mat_size):
        for col in range(row + 1):
            mat[row, col] = vec[ind]
            ind += 1
    return mat


def exp_matrix_diagonal(mat):
    assert mat.shape[0] == mat.shape[1]
    diag = np.diag(mat)
    mask = np.eye(mat.shape[0])
    return mat * (1 - mask) + mask * np.exp(diag)


def log_matrix_diagonal(mat):
    assert mat.shape[0] == mat.shape[1]
    diag = np.diag(mat)
    return mat + np.make_diagonal(np.log(diag) - diag, offset=0, axis1=-1, axis2=-2)


def _diag_shift(size, diag_lb):
    return np.make_diagonal(np.full(size, diag_lb), offset=0, axis1=-1, axis2=-2)


def pack_posdef_matrix(mat, diag_lb=0.0):
    shifted = mat - _diag_shift(len(mat), diag_lb)
    chol = np.linalg.cholesky(shifted)
    return vectorize_ld_matrix(log_matrix_diagonal(chol))


def unpack_posdef_matrix(free_vec, diag_lb=0.0):
    chol = exp_matrix_diagonal(unvectorize_ld_matrix(free_vec))
    mat = np.einsum('ij,kj->ik', chol, chol)
    return mat + _diag_shift(mat.shape[0], diag_lb)


def unvectorize_symmetric_matrix(vec_val):
    ld_mat = unvectorize_ld_matrix(vec_val)
    size = ld_mat.shape[0]
    return ld_mat + np.transpose(ld_mat) - ld_mat * np.eye(size)


class PosDefMatrixParam(object):
    def __init__(self, name='', size=2, diag_lb=0.0, val=None):
        assert diag_lb >= 0
        self.name = name
        self.__size = int(size)
        self.__vec_size = self.__size * (self.__size + 1) // 2
        self.__diag_lb = diag_lb
        self.set((diag_lb + 1.0) * np.eye(self.__size) if val is None else val)

    def set(self, val):
        nrow, ncol = np.shape(val)
        for n in (nrow, ncol):
            if n != self.__size:
                raise ValueError('Matrix is a different size')
        if not np.all(val == np.transpose(val)):
            raise ValueError('Matrix is not symmetric')
        self.__val = val

    def free_to_vector_jac_dense(self, free_val):
        saved = self.__val
        try:
            return autograd.jacobian(self.free_to_vector)(free_val)
        finally:
            self.__val = saved

    def free_to_vector_hess_dense(self, free_val):
        saved = self.__val
        try:
            return autograd.hessian(self.free_to_vector)(free_val)
        finally:
            self.__val = saved


class PosDefMatrixParamVector(object):
    def __init__(self, name='', length=1, matrix_size=2, diag_lb=0.0, val=None):
        assert diag_lb >= 0
        self.name = name
        self.__length = int(length)
        self.__matrix_size = int(matrix_size)
        self.__shape = (self.__length, self.__matrix_size, self.__matrix_size)
        self.__vec_size = self.__matrix_size * (self.__matrix_size + 1) // 2
        self.__diag_lb = diag_lb
        if val is None:
            identity = np.eye(self.__matrix_size)
            val = np.array([(diag_lb + 1.0) * identity for _ in range(self.__length)])
        self.set(val)

    def set(self, val):
        if val.shape != self.__shape:
            raise ValueError('Array is the wrong size')
        self.__val = val

    def set_free(self, free_val):
        if free_val.size != self.free_size():
            raise ValueError('Free value is the wrong length')
        packed = np.reshape(free_val, (self.__length, self.__vec_size))
        self.__val = np.array([unpack_posdef_matrix(row, self.__diag_lb) for row in packed])

    def get_free(self):
        return np.concatenate([pack_posdef_matrix(mat, self.__diag_lb) for mat in self.__val])

    def __blocks(self, free_val):
        for obs in range(self.__length):
            inds = self.__vec_size * obs + np.arange(self.__vec_size)
            yield inds, free_val[inds]

    def free_to_vector_jac(self, free_val):
        rows, cols, vals = [], [], []
        for inds, block in self.__blocks(free_val):
            rows.append(np.repeat(inds, self.__vec_size))
            cols.append(np.tile(inds, self.__vec_size))
            vals.append(pos_def_matrix_free_to_vector_jac(block).ravel())
        return coo_matrix(
            (np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))),
            shape=(self.vector_size(), self.free_size()))

    def free_to_vector_hess(self, free_val):
        shape = (self.free_size(), self.free_size())
        hessians = []
        for inds, block in self.__blocks(free_val):
            rows = np.repeat(inds, self.__vec_size)
            cols = np.tile(inds, self.__vec_size)
            for hess in pos_def_matrix_free_to_vector_hess(block):
                hessians.append(coo_matrix((hess.flatten(), (rows, cols)), shape))
        return hessians

    def set_vector(self, vec_val):
        if len(vec_val) != self.vector_size():
            raise ValueError('Vector value is the wrong length')
        packed = np.reshape(vec_val, (self.__length, self.__vec_size))
        self.__val = np.array([unvectorize_symmetric_matrix(row) for row in packed])

    def get_vector(self):
        return np.concatenate([vectorize_ld_matrix(mat) for mat in self.__val])


class PosDefMatrixParamArray(object):
    def __obs(self):
        return np.ndindex(*self.__array_shape)

    def set_free(self, free_val):
        if free_val.size != self.free_size():
            raise ValueError('Free value is the wrong length')
        packed = np.reshape(free_val, (-1, self.__vec_size))
        mats = [unpack_posdef_matrix(row, diag_lb=self.__diag_lb) for row in packed]
        self.__val = np.reshape(np.array(mats), self.__shape)

    def get_free(self):
        mats = np.reshape(self.__val, (-1, self.__matrix_size, self.__matrix_size))
        return np.concatenate([pack_posdef_matrix(mat, diag_lb=self.__diag_lb) for mat in mats])

    def set_vector(self, vec_val):
        if len(vec_val) != self.vector_size():
            raise ValueError('Vector value is the wrong length')
        packed = np.reshape(vec_val, (-1, self.__vec_size))
        mats = [unvectorize_symmetric_matrix(row) for row in packed]
        self.__val = np.reshape(np.array(mats), self.__shape)

    def get_vector(self):
        mats = np.reshape(self.__val, (-1, self.__matrix_size, self.__matrix_size))
        return np.concatenate([vectorize_ld_matrix(mat) for mat in mats])

    def free_to_vector_jac(self, free_val):
        rows, cols, vals = [], [], []
        n = self.__vec_size
        for k, _ in enumerate(itertools.product(*self.__array_ranges)):
            start = k * n
            jac = pos_def_matrix_free_to_vector_jac(free_val[start:start + n])
            for i, j in itertools.product(range(n), range(n)):
                rows.append(start + i)
                cols.append(start + j)
                vals.append(jac[i, j])
        return coo_matrix((vals, (rows, cols)), (self.vector_size(), self.free_size()))

    def free_to_vector_hess(self, free_val):
        n = self.__vec_size
        size = n * self.__array_length
        hessians = []
        for k in range(self.__array_length):
            start = k * n
            block = free_val[start:start + n]
            for hess in pos_def_matrix_free_to_vector_hess(block):
                inner = coo_matrix(hess)
                hessians.append(coo_matrix(
                    (inner.data, (inner.row + start, inner.col + start)), (size, size)))
        return hessians
