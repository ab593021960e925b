class DirichletParamArray(vb.ModelParamsDict):
    def __get_alpha(self):
        return self.get()['alpha']

    def e(self):
        return ef.get_e_dirichlet(self.__get_alpha())

    def e_log(self):
        return ef.get_e_log_dirichlet(self.__get_alpha())

    def entropy(self):
        return ef.dirichlet_entropy(self.__get_alpha())
