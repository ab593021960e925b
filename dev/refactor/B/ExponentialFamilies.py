def _half_steps(x, size):
    return x - np.arange(int(size)) / 2.0


def multivariate_digamma(x, size):
    return sum([sp.special.digamma(x - 0.5 * k) for k in range(int(size))])


def multivariate_gammaln(x, size):
    log_const = 0.25 * size * (size - 1.0) * math.log(math.pi)
    return log_const + np.sum(sp.special.gammaln(_half_steps(x, size)))


def multinoulli_entropy(p, min_prob=1e-16):
    return np.sum(-p * np.log(p + min_prob), 1)


def univariate_normal_entropy(info_obs):
    n = np.size(info_obs)
    return 0.5 * n * (1 + math.log(2 * math.pi)) - 0.5 * np.sum(np.log(info_obs))


def multivariate_normal_entropy(info_obs):
    k = len(info_obs)
    sign, logdet = np.linalg.slogdet(info_obs)
    assert sign > 0
    return 0.5 * (k * (1 + np.log(2 * np.pi)) - logdet)


def dirichlet_entropy(alpha):
    total = np.sum(alpha, axis=0)
    log_beta = np.sum(sp.special.gammaln(alpha), axis=0) - sp.special.gammaln(total)
    return log_beta + (total - len(alpha)) * sp.special.digamma(total) - \
        np.sum((alpha - 1) * sp.special.digamma(alpha), axis=0)


def beta_entropy(tau):
    a, b = tau[:, 0], tau[:, 1]
    ab = a + b
    lbeta = sp.special.gammaln(a) + sp.special.gammaln(b) - sp.special.gammaln(ab)
    entropies = lbeta + (ab - 2) * sp.special.digamma(ab)
    for t in (a, b):
        entropies = entropies - (t - 1) * sp.special.digamma(t)
    return np.sum(entropies)


def wishart_entropy(df, v):
    rows, cols = v.shape
    assert rows == cols
    k = float(rows)
    sign, log_det_v = np.linalg.slogdet(v)
    assert sign > 0
    half_df = df / 2
    terms = [
        (k + 1) * log_det_v / 2,
        k * (k + 1) * np.log(2) / 2,
        multivariate_gammaln(half_df, k),
        -(df - k - 1) * multivariate_digamma(half_df, k) / 2,
        half_df * k]
    return sum(terms)


def e_log_inv_wishart_diag(df, v):
    k = v.shape[0]
    assert v.shape == (k, k)
    inv_diag = np.diagonal(np.linalg.inv(v))
    return np.log(inv_diag) - np.log(2) - sp.special.digamma((df - k + 1) / 2)


def get_var_lognormal(mu, sigma_sq):
    return np.exp(2 * mu + sigma_sq) * (np.exp(sigma_sq) - 1)


def get_e_dirichlet(alpha):
    return alpha / np.sum(alpha, axis=0)


def get_e_log_dirichlet(alpha):
    return sp.special.digamma(alpha) - sp.special.digamma(np.sum(alpha, axis=0))


def get_e_fun_normal(means, infos, gh_loc, gh_weights, fun):
    assert means.shape == infos.shape
    scale = np.sqrt(2 / infos)
    points = means[..., None] + scale[..., None] * gh_loc
    return np.dot(fun(points), gh_weights) / np.sqrt(np.pi)
