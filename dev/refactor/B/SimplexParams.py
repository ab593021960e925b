def constrain_simplex_matrix(free_mat):
    reference = np.zeros((free_mat.shape[0], 1))
    free_mat_aug = np.concatenate([reference, free_mat], axis=1)
    log_norm = sp.misc.logsumexp(free_mat_aug, axis=1, keepdims=True)
    return np.exp(free_mat_aug - log_norm)


def unconstrain_simplex_matrix(simplex_mat):
    log_mat = np.log(simplex_mat)
    return log_mat[:, 1:] - log_mat[:, :1]


def constrain_simplex_vector(free_vec):
    return constrain_simplex_matrix(free_vec[None, :])[0]


def constrain_grad_from_moment(z):
    jac = np.diag(z) - np.outer(z, z)
    return jac[:, 1:]


def constrain_hess_from_moment(z):
    n = len(z)
    hess = np.zeros((n, n - 1, n - 1))
    for k in range(n):
        for i in range(1, n):
            for j in range(1, n):
                term = 2 * z[i] * z[j]
                if i == j:
                    term -= z[i]
                if i == k:
                    term -= z[j]
                if j == k:
                    term -= z[i]
                if i == k and j == k:
                    term += 1
                hess[k, i - 1, j - 1] = z[k] * term
    return hess


class SimplexParam(object):
    def __init__(self, name='', shape=(1, 2), val=None):
        rows, cols = shape
        self.name = name
        self.__shape = shape
        self.__free_shape = (rows, cols - 1)
        self.set(np.ones(shape) / cols if val is None else val)

    def set_free(self, free_val):
        if len(free_val) != self.free_size():
            raise ValueError('Wrong free size for SimplexParam ' + self.name)
        self.set(constrain_simplex_matrix(free_val.reshape(self.__free_shape)))

    def get_free(self):
        return np.ravel(unconstrain_simplex_matrix(self.__val))

    def free_to_vector_jac(self, free_val):
        num_rows, num_cols = self.__shape
        free_mat = np.reshape(free_val, self.__free_shape)
        rows, cols, vals = [], [], []
        for row in range(num_rows):
            jac = constrain_grad_from_moment(constrain_simplex_vector(free_mat[row]))
            for i in range(num_cols):
                for j in range(num_cols - 1):
                    rows.append(row * num_cols + i)
                    cols.append(row * (num_cols - 1) + j)
                    vals.append(jac[i, j])
        return coo_matrix((vals, (rows, cols)), shape=(self.vector_size(), self.free_size()))

    def free_to_vector_hess(self, free_val):
        num_rows, num_cols = self.__shape
        num_free = num_cols - 1
        free_mat = np.reshape(free_val, self.__free_shape)
        shape = (self.free_size(), self.free_size())
        hessians = []
        for row in range(num_rows):
            inds = row * num_free + np.arange(num_free)
            rows = np.repeat(inds, num_free)
            cols = np.tile(inds, num_free)
            hess = constrain_hess_from_moment(constrain_simplex_vector(free_mat[row]))
            for k in range(num_cols):
                hessians.append(coo_matrix((hess[k].ravel(), (rows, cols)), shape))
        return hessians

    def get_vector_indices(self, row):
        num_cols = self.__shape[1]
        return np.arange(row * num_cols, (row + 1) * num_cols)

    def free_size(self):
        return self.__free_shape[0] * self.__free_shape[1]

    def vector_size(self):
        return self.__shape[0] * self.__shape[1]
