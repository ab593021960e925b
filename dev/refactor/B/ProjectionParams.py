def get_perpendicular_subspace(x):
    rows, cols = x.shape
    proj_parallel = np.dot(x.T, np.linalg.solve(np.dot(x, x.T), x))
    evals, evec = np.linalg.eigh(np.identity(cols) - proj_parallel)
    keep = np.flatnonzero(np.abs(evals) > 1e-8)
    assert len(keep) == cols - rows
    return evec[:, keep]


class SubspaceVectorParam(object):
    def __init__(self, name='', dim=3, val=None, perp_subspace=None):
        self.name = name
        self.__dim = dim = int(dim)
        subspace = np.ones((1, dim)) if perp_subspace is None else np.array(perp_subspace)
        rows, cols = subspace.shape
        if cols != dim:
            raise ValueError('The rows of <perp_subspace> must be of length <dim>')
        if not rows < dim:
            raise ValueError('<perp_subspace> must have strictly fewer rows than <dim>')
        self.__perp_subspace = subspace
        self.__proj_basis = get_perpendicular_subspace(subspace)
        self.__constraint_dim = rows
        self.__free_dim = dim - rows
        self.set(val if val is not None else np.zeros(dim))

    def set_free(self, free_val):
        if free_val.size != self.__free_dim:
            raise ValueError('Wrong free size for vector ' + self.name)
        self.set(np.dot(self.__proj_basis, free_val))

    def get_free(self):
        return np.dot(self.__proj_basis.T, self.__val)

    def free_to_vector_hess(self, free_val):
        shape = (self.__free_dim,) * 2
        return [coo_matrix(shape) for _ in range(self.__dim)]
