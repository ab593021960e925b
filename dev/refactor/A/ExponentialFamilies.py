LOG_2PI = math.log(2 * math.pi)


def _halves(x, size):
    return x - 0.5 * np.arange(int(size))


def multivariate_digamma(x, size):
    return np.sum(sp.special.digamma(_halves(x, size)))


def multivariate_gammaln(x, size):
    log_pi_term = size * (size - 1.0) / 4 * np.log(np.pi)
    return log_pi_term + np.sum(sp.special.gammaln(_halves(x, size)))


def multinoulli_entropy(p, min_prob=1e-16):
    log_p = np.log(p + min_prob)
    return -np.einsum('ij,ij->i', p, log_p)


def univariate_normal_entropy(info_obs):
    entropies = 0.5 * (1 + LOG_2PI - np.log(info_obs))
    return np.sum(entropies)


def multivariate_normal_entropy(info_obs):
    sign, logdet = np.linalg.slogdet(info_obs)
    assert sign > 0
    k = info_obs.shape[0]
    return 0.5 * k * (1 + LOG_2PI) - 0.5 * logdet


def gamma_entropy(shape, rate):
    digamma_term = (1 - shape) * sp.special.digamma(shape)
    entropy = shape + sp.special.gammaln(shape) + digamma_term - np.log(rate)
    return np.sum(entropy)


def dirichlet_entropy(alpha):
    k = alpha.shape[0]
    sum_alpha = np.sum(alpha, axis=0)
    log_beta = np.sum(sp.special.gammaln(alpha), axis=0) - sp.special.gammaln(sum_alpha)
    return log_beta + (sum_alpha - k) * sp.special.digamma(sum_alpha) - \
        np.sum((alpha - 1) * sp.special.digamma(alpha), axis=0)


def beta_entropy(tau):
    a, b = tau[:, 0], tau[:, 1]
    total = a + b
    lbeta = sp.special.gammaln(a) + sp.special.gammaln(b) - sp.special.gammaln(total)
    entropies = lbeta - (a - 1) * sp.special.digamma(a) - (b - 1) * sp.special.digamma(b) \
        + (total - 2) * sp.special.digamma(total)
    return np.sum(entropies)


def _log_det(v):
    assert v.shape[0] == v.shape[1]
    s, log_det_v = np.linalg.slogdet(v)
    assert s > 0
    return log_det_v


def wishart_entropy(df, v):
    k = float(v.shape[0])
    log_det_v = _log_det(v)
    half_df = 0.5 * df
    entropy = 0.5 * (k + 1) * (log_det_v + k * np.log(2)) + half_df * k
    entropy = entropy + multivariate_gammaln(half_df, k)
    entropy = entropy - 0.5 * (df - k - 1) * multivariate_digamma(half_df, k)
    return entropy


def e_log_det_wishart(df, v):
    log_det_v = _log_det(v)
    k = v.shape[0]
    return log_det_v + k * np.log(2.0) + multivariate_digamma(df / 2, k)


def e_log_inv_wishart_diag(df, v):
    assert v.shape[0] == v.shape[1]
    k = float(v.shape[0])
    v_inv = np.linalg.inv(v)
    return np.log(np.diagonal(v_inv)) - np.log(2) - sp.special.digamma((df - k + 1) / 2)


def get_var_lognormal(mu, sigma_sq):
    return (np.exp(sigma_sq) - 1) * np.exp(2 * mu + sigma_sq)


def get_e_dirichlet(alpha):
    return alpha / np.sum(alpha, axis=0)


def get_e_log_dirichlet(alpha):
    return sp.special.digamma(alpha) - sp.special.digamma(np.sum(alpha, axis=0))


def get_e_fun_normal(means, infos, gh_loc, gh_weights, fun):
    assert means.shape == infos.shape
    sds = 1 / np.sqrt(infos)
    points = means[..., None] + np.sqrt(2) * sds[..., None] * gh_loc
    return np.sum(gh_weights * fun(points), axis=-1) / np.sqrt(np.pi)


def get_e_logitnormal(lognorm_means, lognorm_infos, gh_loc, gh_weights):
    return get_e_fun_normal(
        lognorm_means, lognorm_infos, gh_loc, gh_weights, sp.special.expit)


def get_e_log_logitnormal(lognorm_means, lognorm_infos, gh_loc, gh_weights):
    def log_v(x):
        bulk = np.maximum(-np.log(1 + np.exp(-x)), -1e16)
        in_bulk = x > -1e2
        return bulk * in_bulk + x * np.logical_not(in_bulk)

    e_log_v = get_e_fun_normal(
        lognorm_means, lognorm_infos, gh_loc, gh_weights, log_v)
    return e_log_v, e_log_v - lognorm_means


def get_uvn_from_natural_parameters(e_term, e2_term):
    x_info = -2.0 * e2_term
    return e_term / x_info, x_info


def mvn_prior(prior_mean, prior_info, e_obs, cov_obs):
    diff = e_obs - prior_mean
    quadratic = np.dot(np.dot(prior_info, diff), diff)
    return -0.5 * (quadratic + np.sum(prior_info * cov_obs.T))


def uvn_prior(prior_mean, prior_info, e_obs, var_obs):
    e_square = var_obs + (e_obs - prior_mean) ** 2
    return -0.5 * prior_info * e_square


def dirichlet_prior(alpha, log_e_obs):
    assert np.shape(alpha) == np.shape(log_e_obs), \
            'shape of alpha and log_e_obs do not match'
    return np.sum((alpha - 1) * log_e_obs)


def expected_ljk_prior(lkj_param, df, v):
    e_log_r = e_log_det_wishart(df, v) + np.sum(e_log_inv_wishart_diag(df, v))
    return (1 - lkj_param) * e_log_r


def get_e_dp_prior_logitnorm_approx(alpha, lognorm_means, lognorm_infos, \
                            gh_loc, gh_weights):
    _, e_log_1mv = get_e_log_logitnormal(
        lognorm_means, lognorm_infos, gh_loc=gh_loc, gh_weights=gh_weights)
    return (alpha - 1) * e_log_1mv
