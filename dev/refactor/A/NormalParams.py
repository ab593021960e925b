class MVNParam(vb.ModelParamsDict):
    def e_outer(self):
        mean = self.e()
        second = mean[:, None] * mean[None, :] + self.cov()
        return (second + second.T) / 2


class UVNParam(vb.ModelParamsDict):
    def e_outer(self):
        return self.e() ** 2 + self.var()

    def e_exp(self):
        return ef.get_e_lognormal(self.e(), self.var())

    def var_exp(self):
        return ef.get_var_lognormal(self.e(), self.var())


class UVNParamVector(vb.ModelParamsDict):
    def e_outer(self):
        mean = self.e()
        return mean * mean + self.var()

    def e2_exp(self):
        first = self.e_exp()
        return first * first + self.var_exp()

    def entropy(self):
        return ef.univariate_normal_entropy(self['info'].get())


class UVNParamArray(vb.ModelParamsDict):
    def var(self):
        return np.reciprocal(self['info'].get())

    def e2_exp(self):
        return np.exp(2 * self.e() + 2 * self.var())


class UVNMomentParamArray(vb.ModelParamsDict):
    def var(self):
        return self.e_outer() - np.square(self.e())

    def entropy(self):
        return ef.univariate_normal_entropy(1. / self.var())

    def set_from_uvn_param_array(self, uvn_par):
        assert uvn_par.shape() == self.shape()
        for key, val in [('e', uvn_par.e()), ('e2', uvn_par.e_outer())]:
            self[key].set(val)

    def set_from_constant(self, scalar_array_par):
        assert(scalar_array_par.shape() == self.shape())
        constant = scalar_array_par.get()
        self['e'].set(constant)
        self['e2'].set(constant * constant)


class MVNArray(vb.ModelParamsDict):
    def e2(self):
        mean = self.e()
        return mean ** 2 + np.expand_dims(1 / self['info'].get(), axis=1)
