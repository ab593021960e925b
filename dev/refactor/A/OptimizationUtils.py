def _symmetric(eig_vec, eig_val):
    return np.matmul(eig_vec * eig_val, eig_vec.T)


def get_sym_matrix_inv_sqrt(hessian, ev_min=None, ev_max=None):
    eig_val, eig_vec = np.linalg.eigh((hessian + hessian.T) / 2)
    if ev_min is not None:
        eig_val = np.maximum(eig_val, ev_min)
    if ev_max is not None:
        eig_val = np.minimum(eig_val, ev_max)
    hess_corrected = _symmetric(eig_vec, eig_val)
    hess_inv_sqrt = _symmetric(eig_vec, 1 / np.sqrt(eig_val))
    return hess_inv_sqrt, hess_corrected


def set_objective_preconditioner(
    objective, free_par=None, hessian=None, ev_min=None, ev_max=None):
    if hessian is None:
        if free_par is None:
            raise ValueError('You must specify either a Hessian or free_par.')
        hessian = objective.fun_free_hessian(free_par)
    inv_hess_sqrt, hessian_corrected = get_sym_matrix_inv_sqrt(hessian, ev_min, ev_max)
    objective.preconditioner = inv_hess_sqrt
    return hessian, inv_hess_sqrt, hessian_corrected


def _prepare(objective, precondition, print_every, init_logger):
    if init_logger:
        objective.logger.initialize()
    if print_every is not None:
        objective.logger.print_every = print_every
    objective.preconditioning = precondition


def minimize_objective_trust_ncg(
    objective, init_x, precondition,
    maxiter = 50, gtol = 1e-6, disp = True,
    print_every = None, init_logger = True):

    _prepare(objective, precondition, print_every, init_logger)
    options = {'maxiter': maxiter, 'gtol': gtol, 'disp': disp}
    if not precondition:
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free(par, verbose=disp),
            x0=init_x, method='trust-ncg',
            jac=objective.fun_free_grad, hessp=objective.fun_free_hvp, options=options)
        return obj_opt.x, obj_opt

    assert objective.preconditioner is not None
    obj_opt = sp.optimize.minimize(
        lambda par: objective.fun_free_cond(par, verbose=disp),
        x0=np.linalg.solve(objective.preconditioner, init_x), method='trust-ncg',
        jac=objective.fun_free_grad_cond, hessp=objective.fun_free_hvp_cond, options=options)
    return objective.uncondition_x(obj_opt.x), obj_opt


def minimize_objective_bfgs(
    objective, init_x, precondition=False,
    maxiter=500, disp=True, print_every=None,
    init_logger=True):

    _prepare(objective, precondition, print_every, init_logger)
    if precondition:
        assert objective.preconditioner is not None
        fun, grad = objective.fun_free_cond, objective.fun_free_grad_cond
        x0 = np.linalg.solve(objective.preconditioner, init_x)
    else:
        fun, grad = objective.fun_free, objective.fun_free_grad
        x0 = init_x

    def target(par):
        return fun(par, verbose=disp)

    obj_opt = sp.optimize.minimize(
        target, x0=x0, jac=grad, method='BFGS', options=dict(maxiter=maxiter, disp=disp))
    if precondition:
        return objective.uncondition_x(obj_opt.x), obj_opt
    return obj_opt.x, obj_opt


def repeatedly_optimize(
    objective, optimization_fun, init_x,
    initial_optimization_fun=None,
    max_iter=100, gtol=1e-8, ftol=1e-8, xtol=1e-8, disp=False,
    keep_intermediate_optimizations=False):

    opt_results = []
    if initial_optimization_fun is not None:
        init_x, init_opt = initial_optimization_fun(init_x)
        if keep_intermediate_optimizations:
            opt_results.append(init_opt)

    x = init_x
    f_val = objective.fun_free(x)
    converged = False
    for i in range(max_iter):
        new_x, obj_opt = optimization_fun(x)
        if keep_intermediate_optimizations:
            opt_results.append(obj_opt)

        new_f_val = objective.fun_free(new_x)
        grad_val = objective.fun_free_grad(new_x)
        x_conv = np.sum(np.abs(new_x - x)) < xtol
        f_conv = np.abs(new_f_val - f_val) < ftol
        grad_conv = np.sum(np.abs(grad_val)) < gtol
        x, f_val = new_x, new_f_val
        if x_conv or f_conv or grad_conv:
            converged = True
            break

    return new_x, converged, x_conv, f_conv, grad_conv, obj_opt, opt_results
