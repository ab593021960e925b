class ModelParamsDict(object):
    def __str__(self):
        lines = [self.name + ':']
        for param in self.param_dict.values():
            lines.append('\t' + str(param))
        return '\n'.join(lines)

    def push_param(self, param):
        name = param.name
        if name in self.param_dict:
            raise ValueError('A parameter named {} already exists.'.format(name))
        free_end = self.__free_size + param.free_size()
        vector_end = self.__vector_size + param.vector_size()
        self.free_indices_dict[name] = range(self.__free_size, free_end)
        self.vector_indices_dict[name] = range(self.__vector_size, vector_end)
        self.param_dict[name] = param
        self.__free_size = free_end
        self.__vector_size = vector_end

    def dictval(self):
        return {name: param.dictval() for name, param in self.param_dict.items()}

    def __check_size(self, vec, expected):
        if vec.size != expected:
            raise ValueError('Wrong size for parameter {}.  Expected {}, got {}'.format(
                self.name, expected, vec.size))

    def set_free(self, vec):
        self.__check_size(vec, self.__free_size)
        start = 0
        for param in self.param_dict.values():
            stop = start + param.free_size()
            param.set_free(vec[start:stop])
            start = stop

    def get_free(self):
        pieces = []
        for name in self.param_dict:
            pieces.append(self.param_dict[name].get_free())
        return np.concatenate(pieces)

    def free_to_vector_jac(self, free_val):
        jacobians = []
        start = 0
        for param in self.param_dict.values():
            stop = start + param.free_size()
            jacobians.append(param.free_to_vector_jac(free_val[start:stop]))
            start = stop
        return block_diag(jacobians)

    def free_to_vector_hess(self, free_val):
        size = self.__free_size
        hessians = []
        start = 0
        for param in self.param_dict.values():
            stop = start + param.free_size()
            for hess in param.free_to_vector_hess(free_val[start:stop]):
                hessians.append(par.offset_sparse_matrix(hess, (start, start), (size, size)))
            start = stop
        return hessians

    def set_vector(self, vec):
        self.__check_size(vec, self.__vector_size)
        start = 0
        for param in self.param_dict.values():
            stop = start + param.vector_size()
            param.set_vector(vec[start:stop])
            start = stop

    def get_vector(self):
        return np.concatenate(list(map(lambda p: p.get_vector(), self.param_dict.values())))

    def names(self):
        result = []
        for param in self.param_dict.values():
            result.append(np.atleast_1d(param.names()))
        return np.hstack(result)
