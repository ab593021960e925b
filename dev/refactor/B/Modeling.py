def _affine(mean, sd, draws):
    return sd[..., None] * draws + mean[..., None]


def get_e_logistic_term(y, z_mean, z_sd, std_draws):
    assert z_sd.ndim == y.ndim == z_mean.ndim
    softplus = np.log1p(np.exp(_affine(z_mean, z_sd, std_draws)))
    return np.sum(y * z_mean) - np.sum(softplus) / len(std_draws)


def get_e_logistic_term_guass_hermite(
    z_mean, z_sd, gh_x, gh_w, aggregate_all=True):
    assert z_mean.shape == z_sd.shape
    softplus = np.log1p(np.exp(_affine(z_mean, np.sqrt(2) * z_sd, gh_x)))
    by_obs = np.dot(softplus, gh_w) / math.sqrt(math.pi)
    return np.sum(by_obs) if aggregate_all else by_obs


def get_standard_draws(num_draws):
    spacing = 1.0 / (num_draws + 1)
    return osp.stats.norm.ppf(np.linspace(spacing, 1 - spacing, num=num_draws))


def univariate_normal_log_prob(u, u_mean, u_info):
    z_squared = u_info * (u - u_mean) ** 2
    return 0.5 * (np.log(u_info / (2 * np.pi)) - z_squared)
