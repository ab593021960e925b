class WishartParam(vb.ModelParamsDict):
    def __init__(self, name='', size=2, diag_lb=0.0, min_df=None):
        super().__init__(name=name)
        self.__size = int(size)
        smallest_df = size - 1
        min_df = min_df if min_df else smallest_df
        assert min_df >= smallest_df
        params = [vb.ScalarParam('df', lb=min_df),
                  vb.PosDefMatrixParam('v', self.__size, diag_lb=diag_lb)]
        for param in params:
            self.push_param(param)

    def __natural(self):
        return self['df'].get(), self['v'].get()

    def e(self):
        df, v = self.__natural()
        return v * df

    def e_log_det(self):
        return ef.e_log_det_wishart(*self.__natural())

    def e_inv(self):
        df, v = self.__natural()
        return np.linalg.inv((df - self.__size - 1) * v)

    def entropy(self):
        return ef.wishart_entropy(*self.__natural())

    def e_log_lkj_inv_prior(self, lkj_param):
        df, v = self.__natural()
        return ef.expected_ljk_prior(lkj_param, df=df, v=v)
