class WishartParam(vb.ModelParamsDict):
    def __init__(self, name='', size=2, diag_lb=0.0, min_df=None):
        super().__init__(name=name)
        lowest_df = size - 1
        min_df = min_df or lowest_df
        assert min_df >= lowest_df
        self.__size = int(size)
        self.push_param(vb.ScalarParam(name='df', lb=min_df))
        self.push_param(vb.PosDefMatrixParam(name='v', size=self.__size, diag_lb=diag_lb))

    def e(self):
        df, v = self['df'].get(), self['v'].get()
        return np.multiply(df, v)

    def e_inv(self):
        denom = self['df'].get() - (self.__size + 1)
        return np.linalg.inv(self['v'].get()) / denom
