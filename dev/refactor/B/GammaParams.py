class GammaParam(vb.ModelParamsDict):
    def __pars(self):
        return {key: self[key].get() for key in ('shape', 'rate')}

    def e(self):
        pars = self.__pars()
        return pars['shape'] / pars['rate']

    def e_log(self):
        return ef.get_e_log_gamma(**self.__pars())

    def entropy(self):
        return ef.gamma_entropy(**self.__pars())
