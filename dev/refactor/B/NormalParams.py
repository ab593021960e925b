class MVNParam(vb.ModelParamsDict):
    def __init__(self, name='', dim=2, min_info=0.0):
        super().__init__(name=name)
        self.__dim = dim
        for param in (vb.VectorParam('mean', size=dim),
                      vb.PosDefMatrixParam('info', size=dim, diag_lb=min_info)):
            self.push_param(param)

    def e_outer(self):
        mean = self.e()
        second = mean[:, None] * mean[None, :] + self.cov()
        return (second + second.T) / 2


class UVNParam(vb.ModelParamsDict):
    def e_outer(self):
        return self.e() ** 2 + self.var()

    def e_exp(self):
        return ef.get_e_lognormal(mu=self.e(), sigma_sq=self.var())

    def var_exp(self):
        return ef.get_var_lognormal(mu=self.e(), sigma_sq=self.var())

    def e2_exp(self):
        mean, var = self.e_exp(), self.var_exp()
        return var + mean * mean


class UVNParamVector(vb.ModelParamsDict):
    def e_outer(self):
        return np.square(self.e()) + self.var()

    def var(self):
        return np.reciprocal(self['info'].get())

    def e2_exp(self):
        return np.exp(2 * self.e() + 2 * self.var())

    def entropy(self):
        info = self['info'].get()
        return ef.univariate_normal_entropy(info)


class UVNParamArray(vb.ModelParamsDict):
    def e_outer(self):
        mean = self['mean'].get()
        return mean * mean + 1.0 / self['info'].get()

    def entropy(self):
        return ef.univariate_normal_entropy(self['info'].get())


class UVNMomentParamArray(vb.ModelParamsDict):
    def var(self):
        mean = self.e()
        return self.e_outer() - mean * mean

    def entropy(self):
        var = self.var()
        return np.sum(ef.univariate_normal_entropy(1 / var))

    def set_from_uvn_param_array(self, uvn_par):
        assert self.shape() == uvn_par.shape()
        for key, val in (('e', uvn_par.e()), ('e2', uvn_par.e_outer())):
            self[key].set(val)

    def set_from_constant(self, scalar_array_par):
        assert self.shape() == scalar_array_par.shape()
        val = scalar_array_par.get()
        self['e'].set(val)
        self['e2'].set(val * val)


class MVNArray(vb.ModelParamsDict):
    def e2(self):
        var = np.expand_dims(1 / self['info'].get(), axis=1)
        return self.e() ** 2 + var
