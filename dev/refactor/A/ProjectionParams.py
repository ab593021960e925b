def get_perpendicular_subspace(x):
    num_constraints, dim = x.shape
    proj = np.dot(x.T, np.linalg.solve(np.dot(x, x.T), x))
    evals, evecs = np.linalg.eigh(np.eye(dim) - proj)
    keep = np.abs(evals) > 1e-8
    assert np.sum(keep) == dim - num_constraints
    return evecs[:, keep]


class SubspaceVectorParam(object):
    def set(self, val):
        if val.size == self.__dim:
            self.__val = val
            return
        raise ValueError('Wrong size for vector ' + self.name)

    def set_free(self, free_val):
        if free_val.size != self.__free_dim:
            raise ValueError('Wrong free size for vector ' + self.name)
        self.set(self.__proj_basis @ free_val)

    def get_free(self):
        return np.dot(self.__proj_basis_t, self.__val)

    def free_to_vector_hess(self, free_val):
        shape = (self.free_size(), self.free_size())
        return [coo_matrix(shape) for _ in range(self.__dim)]
