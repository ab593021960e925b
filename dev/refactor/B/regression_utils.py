def mat_mul_last2dims(x1, x2):
    assert np.ndim(x1) == np.ndim(x2)
    assert np.shape(x1)[-2] == np.shape(x2)[-2]
    return np.matmul(np.swapaxes(x1, -1, -2), x2)


def matvec_mul_last2dims(x, y):
    assert np.shape(x)[-2] == np.shape(y)[-1]
    extra = np.ndim(y) - np.ndim(x) + 1
    assert extra >= 0
    batch = np.ndim(x) - 2
    axes = tuple(range(batch, batch + extra))
    total = np.sum(y, axis=axes) if extra > 0 else y
    return np.sum(x * np.expand_dims(total, -1), axis=-2)


def get_nat_params_from_prior(prior_means, prior_infos):
    means_shape, infos_shape = np.shape(prior_means), np.shape(prior_infos)
    r = means_shape[-1]
    assert infos_shape[-1] == r
    assert infos_shape[-2] == r
    assert len(means_shape) + 1 == len(infos_shape)
    x = np.broadcast_to(np.eye(r), infos_shape)
    return get_nat_params_from_likelihood(prior_means, x, prior_infos)


def get_mvn_from_nat_params(nat_param1, nat_param2):
    info = -(nat_param2 + nat_param2)
    mean = np.linalg.solve(info, nat_param1[..., None])[..., 0]
    return mean, info


def get_regression_coefficients(y, x, info):
    return get_mvn_from_nat_params(*get_nat_params_from_likelihood(y, x, info))[0]
