"""Property texts. gen.py turns them into properties.jsonl and MANIFEST.json."""
NA = []
PM, MM, SP, PP, PD = 'Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'ParameterDictionary.py'
SO, MS, OU = 'SparseObjectives.py', 'ModelSensitivity.py', 'OptimizationUtils.py'
PROPS = [
 dict(id='C01', title='Unconstrained coordinates always give a value inside the declared support',
  statement='Whatever unconstrained (free) vector a parameter is set from, the value it then holds satisfies the declared constraint: between the declared bounds, symmetric positive definite with the declared diagonal bound, on the simplex, or in the subspace. This holds for every kind of parameter, size, shape and choice of bounds.',
  all='all free vectors, sizes, shapes and bounds of every parameter kind',
  why='The tests set a handful of random free values at fixed sizes and bounds and mostly look at round trips, not at membership of the support.',
  files=[PM, MM, SP, PP], mech=[('constraining transform', PM + ':constrain'), ('Cholesky/log-diagonal packing', MM + ':unpack_posdef_matrix'), ('softmax with reference category', SP + ':constrain_simplex_matrix'), ('basis of the subspace', PP + ':SubspaceVectorParam.set_free')]),
 dict(id='C02', title='Free coordinates and admissible values determine each other',
  statement='Setting a parameter from a free vector and reading the free vector back gives the same vector; setting it to any value strictly inside its support, reading the free vector and setting from that gives the same value. A scalar, vector or array value on the wrong side of a declared bound is refused rather than converted.',
  all='all free vectors and admissible values, sizes, shapes and bounds of every parameter kind; all out-of-bounds values',
  why='The tests check round trips at a few sizes and bounds; one-sided bounds, arrays of matrices and non-zero diagonal bounds are sampled once or not at all.',
  files=[PM, MM, SP, PP], mech=[('constrain and unconstrain are inverse', PM + ':unconstrain_array'), ('pack and unpack are inverse', MM + ':pack_posdef_matrix'), ('simplex logits', SP + ':unconstrain_simplex_matrix')]),
 dict(id='C03', title='Vector coordinates and values determine each other',
  statement='For every kind of parameter, setting it from a vector and reading the vector back gives the same vector, and reading the vector of any admissible value and setting from it restores that value exactly. A matrix parameter set from a vector is the symmetric matrix whose lower triangle is the vector.',
  all='all vectors and admissible values, sizes and shapes of every parameter kind',
  why='The tests check a few fixed sizes; the entry ordering of matrices and arrays of matrices can go wrong only beyond them.',
  files=[PM, MM, SP, PP], mech=[('lower-triangle vectorisation', MM + ':vectorize_ld_matrix'), ('row-major reshape', PM + ':ArrayParam.set_vector')]),
 dict(id='C04', title='Declared sizes are the true sizes; anything else is refused without a change',
  statement='The free size, vector size and shape a parameter reports are those of what it returns and accepts. A free vector, vector or value of any other size or shape, or a non-symmetric matrix, is refused with an error, and the refusal leaves the value held unchanged.',
  over=['inputs', 'histories'], all='all parameter kinds, declared sizes and offered sizes',
  why='The tests offer one wrong size per kind and do not look at the state after the refusal.',
  files=[PM, MM, SP, PP], mech=[('size checks before assignment', PM + ':VectorParam.set'), ('shape checks', MM + ':PosDefMatrixParamVector.set'), ('simplex shape check', SP + ':SimplexParam.set')]),
 dict(id='C05', title='A parameter dictionary is the concatenation of its parameters in order',
  statement='The free vector and the vector of a parameter dictionary, and its sizes, are the concatenations of those of its parameters in the order they were added, for any combination and nesting of parameters. Setting the dictionary sets each parameter from its own segment and nothing else; adding a second parameter of the same name is refused.',
  over=['inputs', 'configurations'], all='all sequences and nestings of parameter kinds, sizes and vectors',
  why='The tests use one fixed dictionary; offsets are wrong only for other orders, nestings or sizes.',
  files=[PD, PM], mech=[('running offsets', PD + ':ModelParamsDict.set_free'), ('slices by size', PM + ':set_free_offset')]),
 dict(id='C06', title='The Jacobian and Hessians of the free-to-vector map are its derivatives',
  statement='For every kind of parameter the (sparse) Jacobian and Hessians it reports for the map from its free vector to its vector are the true first and second derivatives of that map, at every point, laid out with the vector entry first. The custom derivative rules of the matrix packing agree with the map they stand for.',
  all='all free vectors, sizes, shapes and bounds of every parameter kind',
  why='The tests compare with automatic differentiation at random points of a few sizes; hand-written block layouts and second derivatives are only sampled.',
  files=[PM, MM, SP, PP], mech=[('scalar derivatives', PM + ':constrain_scalar_jac'), ('block layout', MM + ':PosDefMatrixParamArray.free_to_vector_jac'), ('simplex moments', SP + ':constrain_hess_from_moment'), ('custom gradient rules', MM + ':unvectorize_ld_matrix_vjp')]),
 dict(id='C07', title='Dictionaries assemble derivative blocks; Hessians convert by the chain rule',
  statement="A dictionary's free-to-vector Jacobian and Hessians hold each parameter's own derivatives in its own block and zeros elsewhere. Converting a gradient and Hessian in vector coordinates to a Hessian in free coordinates gives the second derivative of the same function composed with the free-to-vector map.",
  over=['inputs', 'configurations'], all='all parameter combinations, free vectors, gradients and Hessians, dense or sparse',
  why='The tests convert one fixed function at one size; offsets and the third-order term can be wrong elsewhere.',
  files=[PM, PD], mech=[('block offsets', PM + ':offset_sparse_matrix'), ('chain rule', PM + ':convert_vector_to_free_hessian'), ('assembly', PD + ':ModelParamsDict.free_to_vector_jac')]),
 dict(id='C08', title='Differentiation leaves only numbers behind, at the point of evaluation',
  statement='After any value, gradient, Hessian, Jacobian or product is computed, the parameters, the objective and its log hold ordinary numbers, never differentiation tracers. The parameters an objective was evaluated through then hold the value at the point of evaluation.',
  over=['inputs', 'histories'], all='all derivative entry points, parameter kinds, points and prior states',
  why='A leaked tracer or stale value breaks only later uses; the tests look at returned numbers, seldom at the state afterwards.',
  files=[SO, PM, MM, SP], mech=[('parameters reset after differentiation', SO + ':Objective.fun_free_grad'), ('value restored around autograd', PM + ':ScalarParam.free_to_vector_jac_dense')]),
 dict(id='C09', title='Each derivative entry point returns the derivative it names',
  statement='The gradient, Hessian, Hessian-vector product and Jacobian entry points of an objective return exactly those derivatives of the objective function in the coordinates (free or vector) they name, with every extra positional and keyword argument passed to the function unchanged. Products of dense and sparse matrices used for them equal the mathematical products.',
  all='all smooth objective functions, parameter values, extra arguments and directions',
  why='The tests differentiate one quadratic, for which mistakes in coordinates, arguments or orientation can cancel.',
  files=[SO], mech=[('autograd entry points', SO + ':Objective.__init__'), ('sparse-safe product', SO + ':safe_matmul')]),
 dict(id='C10', title='Conditioned objectives are the objective after a change of variables',
  statement='With a preconditioner set, the conditioned value, gradient, Hessian and Hessian-vector product are those of the objective as a function of the conditioned variable, for dense and sparse preconditioners, and mapping a conditioned point back gives the point the objective was evaluated at. Without a preconditioner they are refused.',
  over=['inputs', 'configurations'], all='all smooth objectives, preconditioning matrices (not only symmetric) and points',
  why='The tests use one symmetric-looking matrix and one objective; transposition mistakes vanish for symmetric matrices.',
  files=[SO], mech=[('chain rule with the preconditioner', SO + ':Objective.fun_free_grad_cond')]),
 dict(id='C11', title='Two-parameter derivatives are oriented and in the coordinates named',
  statement='The value and derivatives of an objective of two parameters are those of the objective in the coordinates requested for each parameter. Cross second derivatives have the first-named parameter in the rows and the second in the columns.',
  all='all smooth functions of two parameters, sizes, points and coordinate choices',
  why='The tests use one function and one size pair; mixed free/vector choices are hardly exercised.',
  files=[SO], mech=[('nested autograd by argument', SO + ':TwoParameterObjective'), ('coordinate selection', SO + ':set_par')]),
 dict(id='C12', title="A conversion's Jacobians are those of the conversion in the coordinates named",
  statement='For a conversion from one parameter to another, each of the four maps (free or vector in, free or vector out) is that conversion in those coordinates, and each Jacobian is its derivative with outputs in the rows. Computing a Jacobian leaves the input at the point of evaluation and the output parameter at the value it held.',
  over=['inputs', 'histories'], all='all smooth conversions, points and prior states',
  why='The tests use one linear-like conversion and do not inspect parameter states after each call.',
  files=[SO], mech=[('four converters and their jacobians', SO + ':ParameterConverter')]),
 dict(id='C13', title='Distribution parameters report the moments of their distribution',
  statement='The mean, second moment, covariance or variance, log expectation, lognormal moments and entropy reported by each distribution parameter (normal, arrays of normals, gamma, Dirichlet, Wishart) are those of the distribution with the parameters it currently holds, in the declared shape. Reading them leaves the parameters unchanged, and the conversions to moment parameters preserve the first and second moments.',
  all='all sizes, shapes and admissible parameter values of every distribution parameter',
  why='The tests check a few values at one shape, where an axis or a parameterisation mistake in an array can cancel.',
  files=['NormalParams.py', 'GammaParams.py', 'DirichletParams.py', 'WishartParams.py'], mech=[('normal moments', 'NormalParams.py:MVNParam'), ('arrays of normals', 'NormalParams.py:UVNParamArray'), ('moment parameters', 'NormalParams.py:UVNMomentParamArray'), ('Wishart moments', 'WishartParams.py:WishartParam')]),
 dict(id='C14', title='Exponential family entropies and expectations are the textbook ones',
  statement='The entropies, log normalisers and expectations computed for the exponential families (normal, gamma, beta, Dirichlet, multinoulli, Wishart, lognormal) equal the closed forms of those distributions, for scalars and for arrays of any size, and their derivatives are those of the closed forms.',
  all='all admissible parameters, dimensions and array sizes',
  why='The tests compare with scipy or sampling at single points; dimension-dependent terms and batched axes are sampled once.',
  files=['ExponentialFamilies.py'], mech=[('Wishart entropy', 'ExponentialFamilies.py:wishart_entropy'), ('Dirichlet entropy', 'ExponentialFamilies.py:dirichlet_entropy'), ('multivariate digamma', 'ExponentialFamilies.py:multivariate_digamma')]),
 dict(id='C15', title='Log densities, priors and natural parameters are those of the named model',
  statement='The normal log density and the expected log priors (normal, gamma, exponential, Dirichlet, LKJ) equal those of the named distributions up to constants that do not depend on the variational parameters. In the regression model the natural parameters of prior, likelihood and posterior are those of the Gaussian model, for any number of groups and repeated observations, and they reproduce the exact posterior mean and information. Observations, designs and informations whose sizes do not fit are refused.',
  all='all observations, moments, prior parameters, sample sizes and dimensions',
  why='The tests use one simulated data set and mostly compare implementations with each other within Monte-Carlo error.',
  files=['ExponentialFamilies.py', 'Modeling.py', 'regression_utils.py'], mech=[('expected priors', 'ExponentialFamilies.py:mvn_prior'), ('normal log density', 'Modeling.py:univariate_normal_log_prob'), ('regression natural parameters', 'regression_utils.py')]),
 dict(id='C16', title='Numerical expectations are the quadrature or sample averages they name',
  statement='Expectations computed by Gauss-Hermite quadrature are the weighted sums of the integrand at the nodes rescaled to each normal, and those computed from draws are averages of the integrand over the draws. Logit-normal and logistic terms use the log-sum-exp of the right sign, for arrays of any shape.',
  all='all means, variances, node and draw sets, integrands and array shapes',
  why='The tests compare with sampling to loose tolerance at one shape; a wrong axis, scale or weight can stay inside it.',
  files=['ExponentialFamilies.py', 'Modeling.py'], mech=[('quadrature over the last axis', 'ExponentialFamilies.py:get_e_fun_normal'), ('logistic term', 'Modeling.py:get_e_logistic_term')]),
 dict(id='C17', title='Everything a model computes from parameters can be differentiated',
  statement='The moments, entropies, priors, log densities and numerical expectations can be used inside a differentiated objective, in free or vector coordinates, and the derivatives obtained are those of their values. Differentiating them raises no error and drops no dependence on a parameter.',
  all='all parameter values, sizes and weights; every moment, entropy, prior and expectation, first derivatives and selected second ones',
  why='The tests compare values of moments with simulation; whether derivatives flow through every branch of them is tried for a few combinations only.',
  files=['NormalParams.py', 'GammaParams.py', 'DirichletParams.py', 'WishartParams.py', 'ExponentialFamilies.py', 'Modeling.py', PM, MM, SO],
  mech=[('moments from autograd operations', 'NormalParams.py:UVNParamArray.e_exp'), ('entropies', 'ExponentialFamilies.py:wishart_entropy'), ('quadrature', 'ExponentialFamilies.py:get_e_fun_normal'), ('logistic terms', 'Modeling.py:get_e_logistic_term')]),
 dict(id='C18', title='Calls leave their arguments alone and remember nothing of earlier calls',
  statement='No public function changes an array, matrix, mask or list of terms it is given (a list of results to append to excepted). An answer depends on the arguments and the settings made, not on the calls before, and parameters, dictionaries, objectives, logs and solvers created separately share no state.',
  over=['inputs', 'histories'], all='all arguments, and sequences of calls at different points and with different extra arguments',
  why='The tests build a fresh object for each call and do not look at the arguments afterwards; stale or shared state shows only in the second call or object.',
  files=[PM, MM, SP, PP, PD, SO, MS, OU, 'ExponentialFamilies.py', 'Modeling.py', 'regression_utils.py', 'ConjugateGradient.py'],
  mech=[('values replaced, not written into', PM + ':VectorParam.set_free'), ('functions evaluated at the point given', SO + ':Objective.cache_free_and_eval'), ('terms copied when combined', MS + ':DerivativeTerm.combine_with'), ('state per instance', PD + ':ModelParamsDict.__init__')]),
 dict(id='C20', title='Names, dictionary values, text and views describe the current values',
  statement='The dictionary form of a parameter is exactly the value it holds, as plain numbers and nested lists, whichever way it was set; names are listed one per vector entry in order, and those of a dictionary are the names of its parameters in the order added, nested ones in place. The values view and get() of a dictionary read and write the parameters themselves, and asking for any of these, or for the text, changes nothing.',
  over=['inputs', 'histories'], all='all parameter kinds, sizes, values and ways of setting them; dictionaries and nestings',
  why='The tests call these accessors once without looking at what they return.',
  files=[PM, MM, SP, PP, PD], mech=[('dictionary form', PM + ':ArrayParam.dictval'), ('names in order', PD + ':ModelParamsDict.names'), ('values view', PD + ':ModelParamsDictValues')]),
 dict(id='C21', title='Arrays of directional derivatives hold the derivatives they are indexed by',
  statement='Appending a directional derivative to a function gives the derivative of that function in the named argument and the last direction passed, with directions consumed in the order appended. Entry (i, j) of the two-argument derivative array is the derivative taken i times in the first argument and j times in the second, applied to i and then j directions.',
  all='all smooth functions of one or two vector arguments, points, directions and orders',
  why='The tests evaluate low orders of one function; swapped arguments or directions agree whenever derivatives are symmetric.',
  files=[MS], mech=[('appending a jvp', MS + ':append_jvp'), ('array of derivatives', MS + ':generate_two_term_derivative_array')]),
 dict(id='C22', title='Derivative terms obey the calculus of total derivatives along a path',
  statement='Evaluating, differentiating, combining and consolidating derivative terms is exactly the calculus of derivatives of g(eta(t), eps0 + t deps) in t: the terms obtained by differentiating k times sum to the k-th total derivative, with each prefactor right and no term lost. Solving for the highest derivative of eta satisfies the differentiated estimating equation.',
  all='all smooth estimating equations, paths, points and directions, for the orders enumerated',
  why='The tests compare the first orders of one model; a wrong multiplicity appears only in higher or mixed terms.',
  files=[MS], mech=[('product and chain rule', MS + ':DerivativeTerm.differentiate'), ('merging like terms', MS + ':consolidate_terms'), ('solving the linear system', MS + ':evaluate_dketa_depsk')]),
 dict(id='C23', title="The Taylor expansion of an optimum is Taylor's, in the declared coordinates",
  statement='The k-th derivative of the optimum reported in a hyperparameter direction is the k-th derivative of the solution of the first-order condition, in the chosen free or vector coordinates of both parameters. The series is the sum of the derivatives divided by factorials, with or without the base value, up to the order requested; orders above the one prepared are refused.',
  over=['inputs', 'configurations'], all='all smooth objectives, base points, directions, coordinate choices and the enumerated orders',
  why='The tests evaluate two orders of one model in some coordinates; a factorial or a coordinate mix-up shows only beyond.',
  files=[MS], mech=[('derivatives of the optimum', MS + ':ParametricSensitivityTaylorExpansion.evaluate_dkinput_dhyperk'), ('series', MS + ':ParametricSensitivityTaylorExpansion.evaluate_taylor_series')]),
 dict(id='C24', title='Linear sensitivity is minus the inverse Hessian times the cross Hessian',
  statement='The derivative of the optimum in the hyperparameters is minus the inverse of the Hessian times the cross Hessian at the base point, in the declared coordinates, with a given Hessian used in place of the computed one and a separate hyperparameter objective used for the cross term. Predictions are the base value plus that derivative times the change; the sensitivity of an output is the Jacobian of its conversion times that of the input.',
  over=['inputs', 'configurations'], all='all smooth objectives, base points, hyperparameter values and choices of coordinates and options',
  why='The tests use one quadratic model; orientation, sign and coordinates of the cross term are tied together by its symmetry.',
  files=[MS, SO], mech=[('linear approximation', MS + ':ParametricSensitivityLinearApproximation'), ('sensitivity with an output', SO + ':ParametricSensitivity')]),
 dict(id='C25', title='Sensitivity objects keep their own base point and restore it',
  statement='Sensitivity objects keep copies of the base values: changing the caller\'s arrays or the parameters afterwards changes no answer, and every evaluation leaves the parameters at the base point. Setting new base values, with or without a Hessian, replaces everything that depends on the old ones.',
  over=['inputs', 'histories'], all='all base points, later changes of arrays and parameters, and sequences of re-basing and evaluation',
  why='The tests build an object and use it once; aliasing and stale factors appear only after a later change.',
  files=[MS, SO], mech=[('base values copied', MS + ':ParametricSensitivityTaylorExpansion.set_base_values'), ('parameters restored', MS + ':ParametricSensitivityLinearApproximation.set_par_to_base_values')]),
 dict(id='C26', title='Minimisation uses one function in one set of coordinates and maps back',
  statement='The function, gradient and Hessian products handed to the optimizer belong to the same objective in the same (free or conditioned) coordinates, with the starting point mapped into them and the optimum mapped back to free coordinates. Tolerances, iteration limits and display options reach the optimizer, and the log starts afresh when asked.',
  over=['inputs', 'configurations'], all='all objectives, starting points, preconditioners, options and optimizer results',
  why='The tests minimise one quadratic, which converges even when coordinates or options are mixed up.',
  files=[OU], mech=[('trust region', OU + ':minimize_objective_trust_ncg'), ('BFGS', OU + ':minimize_objective_bfgs')]),
 dict(id='C27', title='Repeated optimisation restarts from the last optimum until converged',
  statement='Each round starts at the optimum of the round before, after the initial optimisation if one is given, and stops as soon as a requested tolerance on the change of the point, the value or the gradient is met or the rounds are used up. What is returned is the last point and result, whether and by which tolerance it converged, and, if asked for, all results in order.',
  over=['inputs', 'histories'], all='all objectives, optimizer results, tolerances and numbers of rounds',
  why='The tests run one case that converges at once; comparisons across rounds and the other stopping rules are not seen.',
  files=[OU], mech=[('restart loop', OU + ':repeatedly_optimize')]),
 dict(id='C28', title='Preconditioners are symmetric inverse square roots of the clipped Hessian',
  statement='The inverse square root of a symmetric matrix is the symmetric matrix whose square inverts the matrix with its eigenvalues raised to the lower and cut to the upper limit given; the corrected matrix is returned with it. Setting the preconditioner of an objective uses the Hessian given, or that at the point given, and returns both.',
  over=['inputs', 'configurations'], all='all symmetric matrices, eigenvalue limits, objectives and points',
  why='The tests use matrices whose eigenvalues seldom cross the limits and compare one direction of the product.',
  files=[OU], mech=[('eigenvalue clipping', OU + ':get_sym_matrix_inv_sqrt'), ('preconditioner of an objective', OU + ':set_objective_preconditioner')]),
 dict(id='C29', title='Masks partition the vector; the CG solver solves the system of its point',
  statement='The masks of a vector of any length and block length cover every index exactly once, each a block of consecutive indices, and recursive splitting keeps every index exactly once in blocks below the limit. The conjugate gradient solver solves with the Hessian at its point of creation, and for subsets it records, mask by mask in order, the masked right-hand side and its solution.',
  over=['inputs', 'configurations'], all='all lengths, block lengths, right-hand sides, masks and Hessian products',
  why='No test looks at masks of lengths that do not divide, or at solver settings and operators.',
  files=['ConjugateGradient.py'], mech=[('block masks', 'ConjugateGradient.py:get_masks'), ('splitting', 'ConjugateGradient.py:recursive_split'), ('solver', 'ConjugateGradient.py:ConjugateGradientSolver')]),
 dict(id='C30', title='Sparse matrices built from pieces, packed and unpacked keep their entries',
  statement='A sparse matrix built from a dense sub-matrix has each entry at the rows and columns named, repeated targets summed, and zeros elsewhere. Packing a sparse matrix for JSON and unpacking it gives the same matrix, and an index parameter has in each entry its own position in the vector.',
  all='all sub-matrices, row and column index lists, sizes and sparse matrices',
  why='The tests use one square case with distinct indices; repeated or rectangular targets are not tried.',
  files=[SO], mech=[('sub-matrix placement', SO + ':get_sparse_sub_matrix'), ('packing', SO + ':pack_csr_matrix'), ('index parameter', SO + ':make_index_param')]),
 dict(id='C31', title='The log is the history of the logged evaluations',
  statement='The log keeps, in order, the point and value of every logged evaluation as its own copies, counts them, prints at the stated interval and starts empty after initialisation; logs of different objectives are separate. An objective logs each evaluation exactly when logging is switched on or verbosity is asked for, and derivatives add nothing.',
  over=['inputs', 'histories'], all='all sequences of evaluations, points and settings',
  why='The tests check one short log; later mutation of arrays, other intervals and mixed calls are not seen.',
  files=[SO], mech=[('history', SO + ':Logger.log'), ('logging switch', SO + ':Objective.fun_free')]),
 dict(id='C32', title='A freshly declared parameter holds a valid value',
  statement='A parameter declared without a value holds, straight away, a value inside its declared support whose free vector is finite and of the declared size. Declared with an admissible value, it holds exactly that value.',
  over=['configurations'], all='all parameter kinds, sizes, shapes, bounds and initial values',
  why='The tests construct a few parameters with two-sided or default bounds; infinite and one-sided combinations go unexamined.',
  files=[PM, MM, SP, PP, 'NormalParams.py', 'GammaParams.py', 'WishartParams.py', 'DirichletParams.py'], mech=[('default value inside bounds', PM + ':get_inbounds_value'), ('default matrix', MM + ':PosDefMatrixParam.__init__')]),
 dict(id='C40', title='Transforms, densities and expectations stay accurate in floating point',
  statement='For parameters far from the origin of their free coordinates the values, derivatives and expectations are accurate to a few units of rounding, without overflow or cancellation.',
  all='all representable parameter values', why='The tests use moderate values.',
  files=[PM, MM, SP, 'ExponentialFamilies.py', 'Modeling.py'], mech=[('transforms', PM + ':constrain'), ('log-sum-exp', SP + ':constrain_simplex_matrix')],
  na='Rounding, overflow and cancellation depend on run-time magnitudes; the analysis reasons over real numbers, and a sound rounding-error bound for iterative linear algebra and special functions in numpy is out of its reach (the choice of the right asymptotic form in the logit-normal tails, which is structural, is decided under C16).'),
 dict(id='C41', title='Optimisation and conjugate gradients reach the solution they look for',
  statement='Minimising an objective with a minimum returns it to within the tolerances, and the conjugate gradient solver returns a solution of its system to within its tolerance.',
  over=['inputs', 'schedules'], all='all objectives and starting points', why='The tests minimise quadratics.',
  files=[OU, 'ConjugateGradient.py'], mech=[('trust region', OU + ':minimize_objective_trust_ncg'), ('solver', 'ConjugateGradient.py:ConjugateGradientSolver')],
  na='Convergence of iterative methods inside scipy is a property of numerical values at run time, not of the shape of this code; what the package contributes (which function, coordinates, start, tolerances and stopping rule) is decided under C26, C27 and C29.'),
]
