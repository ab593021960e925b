def mat_mul_last2dims(x1, x2):
    assert x1.ndim == x2.ndim
    assert x1.shape[-2] == x2.shape[-2]
    return np.einsum('...sr,...st->...rt', x1, x2)


def get_nat_params_from_likelihood(y, x, info):
    y_shape, x_shape = np.shape(y), np.shape(x)
    assert y_shape[-1] == x_shape[-2]
    num_y_dims = len(y_shape) - 1
    num_x_dims = len(x_shape) - 2
    assert num_y_dims >= num_x_dims

    num_obs = 1
    for n in y_shape[num_x_dims:num_y_dims]:
        num_obs *= n

    if np.isscalar(info):
        info_x = info * x
    else:
        info_shape = np.shape(info)
        assert info_shape[-1] == info_shape[-2]
        assert info_shape[-1] == x_shape[-2]
        assert len(info_shape) == len(x_shape)
        info_x = mat_mul_last2dims(info, x)

    return matvec_mul_last2dims(info_x, y), \
        -0.5 * num_obs * mat_mul_last2dims(x, info_x)


def get_mvn_from_nat_params(nat_param1, nat_param2):
    info = -2 * nat_param2
    cov = np.linalg.inv(info)
    return matvec_mul_last2dims(cov, nat_param1), info


def get_regression_coefficients(y, x, info):
    nat_params = get_nat_params_from_likelihood(y, x, info)
    return get_mvn_from_nat_params(*nat_params)[0]


def get_posterior_regression_coefficients(y, x, info, prior_means, prior_infos):
    lik = get_nat_params_from_likelihood(y, x, info)
    prior = get_nat_params_from_prior(prior_means, prior_infos)
    return get_mvn_from_nat_params(*[l + p for l, p in zip(lik, prior)])
