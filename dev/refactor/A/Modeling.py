def _expand(x):
    return np.expand_dims(x, axis=-1)


def get_e_logistic_term(y, z_mean, z_sd, std_draws):
    assert z_sd.ndim == y.ndim and z_mean.ndim == y.ndim
    z_draws = _expand(z_mean) + _expand(z_sd) * std_draws
    log_terms = np.log(1 + np.exp(z_draws))
    return np.sum(y * z_mean) - np.sum(log_terms) / len(std_draws)


def get_e_logistic_term_guass_hermite(
    z_mean, z_sd, gh_x, gh_w, aggregate_all=True):
    assert z_mean.shape == z_sd.shape
    z_vals = _expand(z_mean) + _expand(z_sd) * gh_x * np.sqrt(2)
    logit_term = np.sum(gh_w * np.log1p(np.exp(z_vals)), axis=-1) / np.sqrt(np.pi)
    return np.sum(logit_term) if aggregate_all else logit_term


def get_standard_draws(num_draws):
    spacing = 1.0 / (num_draws + 1)
    return osp.stats.norm.ppf(spacing * np.arange(1, num_draws + 1))


def univariate_normal_log_prob(u, u_mean, u_info):
    resid = u - u_mean
    return 0.5 * (np.log(u_info) - np.log(2 * np.pi) - u_info * resid * resid)
