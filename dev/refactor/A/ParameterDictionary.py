class ModelParamsDict(object):
    def __params(self):
        return list(self.param_dict.values())

    def __str__(self):
        text = self.name + ':\n'
        text += '\n'.join('\t' + str(p) for p in self.__params())
        return text

    def push_param(self, param):
        name = param.name
        if name in self.param_dict.keys():
            raise ValueError('A parameter named {} already exists.'.format(name))
        free_end = self.__free_size + param.free_size()
        vector_end = self.__vector_size + param.vector_size()
        self.free_indices_dict[name] = range(self.__free_size, free_end)
        self.vector_indices_dict[name] = range(self.__vector_size, vector_end)
        self.__free_size = free_end
        self.__vector_size = vector_end
        self.param_dict[name] = param

    def dictval(self):
        return {name: param.dictval() for name, param in self.param_dict.items()}

    def set_free(self, vec):
        if vec.size != self.free_size():
            raise ValueError('Wrong size for parameter {}'.format(self.name))
        start = 0
        for name, param in self.param_dict.items():
            end = start + param.free_size()
            param.set_free(vec[start:end])
            start = end

    def get_free(self):
        frees = []
        for name in self.param_dict:
            frees.append(self.param_dict[name].get_free())
        return np.hstack(frees)

    def free_to_vector_jac(self, free_val):
        jacobians = []
        for name, param in self.param_dict.items():
            inds = self.free_indices_dict[name]
            jacobians.append(param.free_to_vector_jac(free_val[inds[0]:(inds[-1] + 1)]))
        return block_diag(jacobians)

    def set_vector(self, vec):
        if vec.size != self.vector_size():
            raise ValueError('Wrong size for parameter {}'.format(self.name))
        start = 0
        for param in self.__params():
            size = param.vector_size()
            param.set_vector(vec[start:start + size])
            start += size

    def get_vector(self):
        return np.concatenate([p.get_vector() for p in self.__params()])

    def names(self):
        names = [np.atleast_1d(p.names()) for p in self.__params()]
        return np.hstack(names)
