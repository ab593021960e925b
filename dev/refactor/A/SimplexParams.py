def constrain_simplex_matrix(free_mat):
    n = free_mat.shape[0]
    logits = np.concatenate([np.zeros((n, 1)), free_mat], axis=1)
    log_norm = sp.misc.logsumexp(logits, axis=1)
    return np.exp(logits - log_norm[:, None])


def unconstrain_simplex_matrix(simplex_mat):
    log_mat = np.log(simplex_mat)
    return log_mat[:, 1:] - log_mat[:, 0:1]


def constrain_simplex_vector(free_vec):
    return constrain_simplex_matrix(np.reshape(free_vec, (1, -1)))[0, :]


def constrain_grad_from_moment(z):
    # dz_i / df_j = z_i (1{i = j} - z_j), where j runs over all but the first.
    return (np.diag(z) - np.outer(z, z))[:, 1:]


def constrain_hess_from_moment(z):
    k = len(z)
    eye = np.eye(k)
    hess = np.zeros((k, k, k))
    for i in range(k):
        for a in range(k):
            for b in range(k):
                hess[i, a, b] = z[i] * (
                    (eye[i, a] - z[a]) * (eye[i, b] - z[b]) - z[a] * (eye[a, b] - z[b]))
    return hess[:, 1:, 1:]


class SimplexParam(object):
    def __init__(self, name='', shape=(1, 2), val=None):
        num, dim = shape
        self.name = name
        self.__shape = shape
        self.__free_shape = (num, dim - 1)
        self.set(np.ones(shape) / dim if val is None else val)

    def set_free(self, free_val):
        if len(free_val) != self.free_size():
            raise ValueError('Wrong free size for SimplexParam ' + self.name)
        self.set(constrain_simplex_matrix(np.reshape(free_val, self.free_shape())))

    def __block(self, row, width):
        return np.arange(row * width, (row + 1) * width)

    def free_to_vector_jac(self, free_val):
        jac_rows, jac_cols, grads = [], [], []
        num, dim = self.__shape
        for row in range(num):
            free_inds = self.__block(row, dim - 1)
            vec_inds = self.__block(row, dim)
            row_jac = constrain_grad_from_moment(constrain_simplex_vector(free_val[free_inds]))
            for i, vec_ind in enumerate(vec_inds):
                for j, free_ind in enumerate(free_inds):
                    jac_rows.append(vec_ind)
                    jac_cols.append(free_ind)
                    grads.append(row_jac[i, j])
        return coo_matrix((grads, (jac_rows, jac_cols)), shape=(self.vector_size(), self.free_size()))

    def get_vector(self):
        return np.reshape(self.__val, self.vector_size())

    def get_vector_indices(self, row):
        return self.__block(row, self.__shape[1])

    def free_size(self):
        return self.__free_shape[0] * self.__free_shape[1]

    def vector_size(self):
        return self.__shape[0] * self.__shape[1]
