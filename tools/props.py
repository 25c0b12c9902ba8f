"""Source of properties.jsonl and MANIFEST.json:  python tools/props.py"""
import json
import os

K = 'filterpy/kalman/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


prop('C01', 'Kalman prediction propagates mean and covariance exactly',
     'Calling predict on the linear Kalman filter sets the state to F x + B u and the covariance to '
     'alpha^2 F P F^T + Q, using per-call F, B, Q, u when they are given (a scalar Q meaning Q times the '
     'identity) and the stored ones otherwise, with no control term when u or B is absent. The prior '
     'attributes then hold exactly the predicted state and covariance as independent copies, and neither '
     'the stored model nor the caller\'s arrays change.',
     ['inputs', 'configurations'],
     'all real x, P, F, Q, B, u, alpha; state given as a column or a 1-D vector; every combination of '
     'stored and per-call arguments',
     'The tests run a handful of constant trajectories; they cannot show the formula for all matrices or '
     'every override combination.',
     [K + 'kalman_filter.py'],
     [('KalmanFilter.predict', K + 'kalman_filter.py'), ('module function predict', K + 'kalman_filter.py')],
     ['KalmanFilter.x, .P, .x_prior, .P_prior after predict()'])

prop('C02', 'Kalman update is the minimum-variance (Bayes) update',
     'Calling update on the linear Kalman filter makes the state x + K (z - H x) and the covariance '
     '(I - K H) P with K = P H^T (H P H^T + R)^-1, i.e. the exact Gaussian conditional; the result is '
     'symmetric and no larger than the prior covariance. The exposed residual, gain, system uncertainty '
     'and its inverse are those of this update, the posterior attributes hold copies of the new estimate, '
     'and per-call R and H (a scalar R meaning R times the identity) affect only that call.',
     ['inputs', 'configurations'],
     'all real x, H, z, all positive definite P and R; x as column or 1-D vector; z as scalar, list, 1-D or '
     'column; every combination of stored and per-call R, H',
     'Tests compare a few simulated runs with loose tolerances; optimality for all P, R, H is an algebraic '
     'identity no sample settles.',
     [K + 'kalman_filter.py'],
     [('KalmanFilter.update (Joseph form)', K + 'kalman_filter.py'), ('reshape_z', 'filterpy/common/helpers.py')],
     ['KalmanFilter.x, .P, .y, .K, .S, .SI, .x_post, .P_post after update(z)'])

prop('C03', 'A missing measurement leaves every filter\'s estimate unchanged',
     'Passing None as the measurement to the update of any Kalman-type filter or model bank in the library does '
     'not raise and changes neither the state estimate nor its covariance (or information or square-root form of '
     'it) nor a bank\'s model probabilities. Filters that record the measurement and a posterior then show a '
     'measurement of None values and a posterior equal to the current estimate.',
     ['inputs', 'histories'],
     'every filter class with an update method, any state, any number of consecutive missing measurements '
     'between real ones',
     'Tests exercise None for one or two filters at one state; the guarantee spans all classes and histories.',
     [K + f for f in ('kalman_filter.py', 'EKF.py', 'UKF.py', 'CubatureKalmanFilter.py', 'square_root.py',
                      'information_filter.py', 'fading_memory.py', 'ensemble_kalman_filter.py', 'IMM.py', 'mmae.py')] +
     ['filterpy/hinfinity/hinfinity_filter.py'],
     [('early return on z is None', K + 'kalman_filter.py')],
     ['x, P, x_post, P_post, z of each filter after update(None)'])

prop('C04', 'Non-mutating queries agree with the real predict and update',
     'get_prediction and get_update return exactly the state and covariance that predict and update would '
     'produce from the same filter with the same arguments, and leave the filter unchanged; residual_of '
     'and measurement_of_state return z - H x_prior and H x without changing the filter.',
     ['inputs', 'configurations'],
     'all filter states, matrices, measurements, controls and per-call overrides',
     'No test compares the query methods with the mutating ones for general inputs.',
     [K + 'kalman_filter.py', 'filterpy/kalman/fading_memory.py'],
     [('KalmanFilter.get_prediction, get_update, residual_of, measurement_of_state', K + 'kalman_filter.py')],
     ['return values; filter attributes before and after'])

prop('C05', 'Procedural Kalman functions equal the class-based filter',
     'The module-level predict, update, predict_steadystate, update_steadystate and batch_filter return the '
     'same state, covariance and intermediate quantities as the KalmanFilter class given the same inputs, '
     'accept scalars for one-dimensional problems and every measurement form as documented (steps of a batch without '
     'a control or a measurement included), and never modify their arguments.',
     ['inputs', 'configurations'],
     'all matrices of compatible shape, scalar or array arguments, with and without return_all and control',
     'Tests check a few numeric runs; agreement for all inputs and argument forms is not sampled.',
     [K + 'kalman_filter.py'],
     [('functions update, update_steadystate, predict, predict_steadystate, batch_filter', K + 'kalman_filter.py')],
     ['return values of filterpy.kalman.update/predict/batch_filter/...'])

prop('C06', 'Kalman batch filtering equals the step-by-step loop',
     'batch_filter on the Kalman filter returns, for every step, exactly the means and covariances (filtered '
     'and predicted) that calling predict and update one measurement at a time with that step\'s F, Q, H, '
     'R, B and u gives, in either order of predict and update and with None entries meaning missing '
     'measurements. The filter ends in the same state as the loop.',
     ['inputs', 'histories', 'configurations'],
     'all sequences of measurements incl. missing ones, all per-step matrix lists, update_first on or off',
     'Tests use constant matrices and one trajectory.',
     [K + 'kalman_filter.py'],
     [('KalmanFilter.batch_filter', K + 'kalman_filter.py')],
     ['means, covariances, means_p, covariances_p returned by batch_filter'])

prop('C07', 'RTS smoothing gives the exact conditional mean and covariance',
     'Rauch-Tung-Striebel smoothing of batch-filter output (class method and module function) returns, for '
     'each step, the conditional mean and covariance of the state given all measurements of the '
     'linear-Gaussian model, where the k-th supplied F and Q are those batch_filter used in step k. Inputs '
     'are not modified and the last smoothed estimate equals the last filtered one.',
     ['inputs', 'histories', 'configurations'],
     'all models and measurement sequences up to the bound, constant or per-step F and Q',
     'Tests only check that smoothing looks less noisy; exactness for time-varying models is untested.',
     [K + 'kalman_filter.py'],
     [('KalmanFilter.rts_smoother', K + 'kalman_filter.py'), ('function rts_smoother', K + 'kalman_filter.py')],
     ['smoothed x, P, gain and predicted covariance'])

prop('C08', 'Measurement-noise structure: sequential, correlated and steady-state updates',
     'Updating with independent measurement components one at a time (update_sequential) gives the same '
     'estimate as the joint update; update_correlated with process-measurement cross-covariance M gives the '
     'optimal gain (P H^T + M) S^-1 and matching covariance, reducing to update when M is zero; the '
     'steady-state predict and update move only the state, using the stored gain. Each takes the same measurement '
     'forms and state shapes as update, and predicting without a control adds no control term.',
     ['inputs', 'schedules', 'configurations'],
     'all P, H, M, z, diagonal R; any partition and order of the components; 1-D or column state',
     'Tests use one numeric case per variant.',
     [K + 'kalman_filter.py'],
     [('KalmanFilter.update_sequential, update_correlated, update_steadystate, predict_steadystate',
       K + 'kalman_filter.py')],
     ['x, P, K, S after each update variant'])

prop('C09', 'Reported likelihoods are the Gaussian density of the innovation',
     'After an update, log_likelihood is the logarithm of the zero-mean normal density with the innovation '
     'covariance evaluated at the residual, likelihood is its exponential (never zero), and mahalanobis is '
     'the square root of y^T S^-1 y, for every filter that offers them; standalone likelihood functions '
     'agree. They are those of the latest update also after a prediction and whatever the order they are read in.',
     ['inputs'],
     'all states, covariances, measurements; Kalman, extended, unscented, cubature, '
     'information and fading filters',
     'Tests never evaluate the density independently across filters.',
     [K + 'kalman_filter.py', K + 'EKF.py', K + 'UKF.py', K + 'CubatureKalmanFilter.py',
      K + 'information_filter.py', K + 'fading_memory.py', 'filterpy/stats/stats.py'],
     [('log_likelihood / likelihood / mahalanobis properties', K + 'kalman_filter.py'),
      ('logpdf', 'filterpy/stats/stats.py')],
     ['log_likelihood, likelihood, mahalanobis attributes'])

prop('C10', 'Fading-memory Kalman filters scale only the propagated covariance',
     'With fading factor alpha the prediction covariance is alpha^2 F P F^T + Q and everything else is the '
     'ordinary Kalman filter, identically in the dedicated fading filter class and in the alpha option of '
     'the standard one; alpha = 1 is the standard filter. Batch processing with the fading class equals the '
     'step-by-step loop.',
     ['inputs', 'histories'],
     'all alpha >= 1, models and measurement sequences',
     'The tests compare one trajectory.',
     [K + 'fading_memory.py', K + 'kalman_filter.py'],
     [('FadingKalmanFilter.predict/update/batch_filter', K + 'fading_memory.py'),
      ('KalmanFilter.alpha', K + 'kalman_filter.py')],
     ['x, P, prior and posterior copies of both classes'])

prop('C11', 'Extended Kalman filter follows its linearisation exactly',
     'The extended filter\'s update uses the Jacobian and measurement function evaluated at the current '
     'estimate (with the caller\'s extra arguments, residual function and per-call R), giving the Kalman '
     'update of the linearised model; predict gives F x + B u and F P F^T + Q. For linear measurement '
     'functions it coincides with the Kalman filter, and predict_update equals predict followed by update.',
     ['inputs', 'configurations'],
     'all states, covariances, measurement functions (arbitrary value and Jacobian at the estimate), '
     'residual functions, argument tuples',
     'Tests track one radar trajectory with loose bounds.',
     [K + 'EKF.py'],
     [('ExtendedKalmanFilter.predict, update, predict_update', K + 'EKF.py')],
     ['x, P, y, K, S, priors and posteriors'])

prop('C12', 'Sigma points reproduce the mean and covariance they were built from',
     'For each sigma-point family (scaled Merwe, Julier, simplex) the mean weights sum to one, and the '
     'weighted mean and weighted covariance of the generated points equal the given state and covariance, '
     'for all admissible scaling parameters; the weights are the documented ones (the scaled family\'s central '
     'covariance weight carries the extra 1 - alpha^2 + beta); the number of points reported matches the points '
     'and weights, and inputs are not modified.',
     ['inputs', 'configurations'],
     'all means, positive definite covariances and tuning parameters within the dimension bound; scalar or '
     'vector/matrix arguments; custom square root and subtract functions',
     'Tests check a few fixed parameter values.',
     [K + 'sigma_points.py'],
     [('MerweScaledSigmaPoints, JulierSigmaPoints, SimplexSigmaPoints', K + 'sigma_points.py')],
     ['sigma_points(), Wm, Wc, num_sigmas()'])

prop('C13', 'The unscented transform computes weighted moments',
     'unscented_transform returns the weighted mean of the sigma points (by the custom mean function if '
     'given) and the weighted sum of outer products of their residuals about it (by the custom residual '
     'function if given) plus the noise covariance if given, symmetric, without modifying its inputs. The '
     'cubature transform is the equal-weight case.',
     ['inputs', 'configurations'],
     'all sigma-point arrays and weights within the size bound; any residual/mean function',
     'Tests check one or two random arrays.',
     [K + 'unscented_transform.py', K + 'CubatureKalmanFilter.py'],
     [('unscented_transform', K + 'unscented_transform.py'),
      ('ckf_transform', K + 'CubatureKalmanFilter.py')],
     ['returned mean and covariance'])

prop('C14', 'Unscented Kalman filter equals the Kalman filter on linear models',
     'When the process and measurement functions are linear, predict and update of the unscented filter give '
     'exactly the Kalman filter\'s state, covariance, residual, gain and innovation covariance, for every '
     'sigma-point family and its parameters, with dt, fx/hx overrides, extra arguments and per-call R '
     'honoured. Custom mean and residual functions are used for their own space (state or measurement).',
     ['inputs', 'configurations', 'histories'],
     'all linear models, states, covariances, measurements within the dimension bound; all three '
     'sigma-point families',
     'Tests compare noisy trajectories with loose tolerance.',
     [K + 'UKF.py', K + 'sigma_points.py', K + 'unscented_transform.py'],
     [('UnscentedKalmanFilter.predict, update, cross_variance, compute_process_sigmas', K + 'UKF.py')],
     ['x, P, y, K, S, SI, priors and posteriors'])

prop('C15', 'Unscented batch filtering and smoothing match their definitions',
     'The unscented filter\'s batch_filter returns exactly what calling predict and update per measurement '
     'with that step\'s dt and R (and the given transform function) gives, and its RTS smoother on a linear model returns the same smoothed '
     'means and covariances as the linear RTS smoother, using the supplied per-step Q and dt.',
     ['inputs', 'histories', 'configurations'],
     'all linear models and measurement sequences within the bound; constant or per-step dt, R and Q',
     'Tests only check the smoother output is less noisy.',
     [K + 'UKF.py'],
     [('UnscentedKalmanFilter.batch_filter, rts_smoother', K + 'UKF.py')],
     ['returned means, covariances and gains'])

prop('C16', 'Cubature Kalman filter equals the Kalman filter on linear models',
     'For linear process and measurement functions the cubature filter\'s predict and update give exactly the '
     'Kalman filter\'s state and covariance; its cubature points are 2n equally weighted points whose mean '
     'and covariance equal the given ones. Measurements may be passed as scalar, 1-D or column of the '
     'declared size.',
     ['inputs', 'configurations'],
     'all linear models, states, covariances and measurements within the dimension bound',
     'Tests compare one simulated run against the unscented filter.',
     [K + 'CubatureKalmanFilter.py'],
     [('CubatureKalmanFilter.predict, update', K + 'CubatureKalmanFilter.py'),
      ('spherical_radial_sigmas', K + 'CubatureKalmanFilter.py')],
     ['x, P, y, K, S, priors and posteriors'])

prop('C17', 'Square-root filter is the Kalman filter in factored form',
     'The square-root filter, given the same model, produces the same state and covariance as the Kalman '
     'filter through any sequence of predicts and updates; its P, Q and R read back as assigned, the '
     'prior and posterior covariance attributes are those of the last predict and update, and its factors '
     'multiply back to the covariance.',
     ['inputs', 'histories'],
     'all models, states, positive definite P, Q, R and measurements within the bound',
     'Tests compare one simulated run with tolerance.',
     [K + 'square_root.py'],
     [('SquareRootKalmanFilter.predict, update and covariance properties', K + 'square_root.py')],
     ['x, P, P_prior, P_post, Q, R'])

prop('C18', 'Information filter is the Kalman filter in inverse form',
     'The information filter, given the same model, produces the same state as the Kalman filter and an '
     'information matrix that is the inverse of its covariance through any sequence of predicts and updates. '
     'Started with no information (zero inverse covariance) it stays well defined and agrees with the '
     'limit of an arbitrarily uncertain prior.',
     ['inputs', 'histories'],
     'all models with invertible F, states, covariances, measurements within the bound',
     'Tests compare 1-D and one 2-D run.',
     [K + 'information_filter.py'],
     [('InformationFilter.predict, update', K + 'information_filter.py')],
     ['x, P_inv, x_prior, P_inv_prior, x_post, P_inv_post'])

prop('C19', 'Ensemble filter performs the stochastic ensemble update on its samples',
     'After predict every ensemble member is the process function of the old member plus a draw from N(0, Q), '
     'and x and P are the sample mean and (N-1)-normalised sample covariance; after update every member has '
     'moved by K times (z plus a draw from N(0, R) minus its predicted measurement) with K = P_xz P_zz^-1 '
     'from the ensemble (P_zz including R), x is the moved ensemble\'s mean and P the previous P minus '
     'K P_zz K^T, whatever values the draws took.',
     ['inputs', 'schedules'],
     'every value of the random draws, all ensembles, linear or nonlinear functions, per-call R',
     'Tests can only look at a few random seeds.',
     [K + 'ensemble_kalman_filter.py'],
     [('EnsembleKalmanFilter.predict, update, initialize', K + 'ensemble_kalman_filter.py')],
     ['sigmas, x, P, K, S, priors and posteriors'])

prop('C20', 'Interacting multiple model mixing is Bayesian',
     'Model probabilities always stay nonnegative and sum to one; each update multiplies the predicted '
     'probabilities (old probabilities through the transition matrix) by the models\' likelihoods and '
     'renormalises. Predict feeds each model the moment-matched mixture for its mixing weights, and the '
     'published estimate is always the moment-matched mixture of the current model estimates under the current '
     'model probabilities. A missing measurement changes nothing.',
     ['inputs', 'histories'],
     'all probability vectors, row-stochastic transition matrices, model states, covariances and likelihood '
     'values, 2-3 models',
     'Tests plot a simulated run; the mixing equations are not compared for general inputs.',
     [K + 'IMM.py'],
     [('IMMEstimator.predict, update, _compute_state_estimate, _compute_mixing_probabilities', K + 'IMM.py')],
     ['mu, cbar, omega, x, P and the states handed to the models'])

prop('C21', 'Multiple-model adaptive bank weighs models by Bayes\' rule',
     'After update, each model\'s probability is its previous probability times its likelihood, normalised '
     'to sum to one, and the published state and covariance are the probability-weighted mixture moments '
     '(mean, and spread-of-means plus covariance) of the models. Predict propagates every model and publishes '
     'the mixture of the predictions (models are given a control or a time step only if the caller gives one), a missing measurement changes nothing, and the caller\'s probability '
     'vector is not modified.',
     ['inputs', 'histories'],
     'all probability vectors, model states, covariances and likelihood values, 2-3 models',
     'The single test runs one trajectory and asserts nothing about the mixture.',
     [K + 'mmae.py'],
     [('MMAEFilterBank.update, predict', K + 'mmae.py')],
     ['p, x, P after update'])

prop('C22', 'Fixed-lag smoothing: recursive and batch agree and lag estimates are optimal',
     'Recursive fixed-lag smoothing and batch fixed-lag smoothing produce the same filtered and smoothed '
     'estimates; filtered estimates equal the Kalman filter\'s, and each smoothed estimate equals the '
     'conditional mean of that state given the measurements up to N steps later. A lag given to the batch call '
     'replaces that of the object.',
     ['inputs', 'histories'],
     'all models, controls and measurement sequences up to the bound, any lag including zero and longer than the data',
     'The test checks recursive equals batch on one run and that the residual is smaller.',
     [K + 'fixed_lag_smoother.py'],
     [('FixedLagSmoother.smooth, smooth_batch', K + 'fixed_lag_smoother.py')],
     ['xSmooth, x, P; return values of smooth_batch'])

prop('C23', 'H-infinity filter follows its documented recursion; batch equals loop',
     'The H-infinity filter\'s predict and update compute the gain, state and covariance of its documented '
     'recursion for every gamma and weighting; with gamma zero the covariance follows the Kalman recursion. '
     'batch_filter equals the step-by-step loop and works with default arguments.',
     ['inputs', 'histories'],
     'all models, gamma, weighting matrices and measurements within the dimension bound',
     'The only test runs a trajectory and asserts nothing.',
     ['filterpy/hinfinity/hinfinity_filter.py'],
     [('HInfinityFilter.predict, update, batch_filter', 'filterpy/hinfinity/hinfinity_filter.py')],
     ['x, P, K, y; batch_filter return values'])

prop('C24', 'g-h and g-h-k filters implement their recursions, in every form',
     'One update of the g-h (g-h-k) filter predicts with the constant-velocity (acceleration) model and '
     'corrects position, rate and acceleration by g, h/dt and 2k/dt^2 times the residual; per-call g, h, k '
     'override for that call, and the residual and predictions are reported. batch_filter equals repeated '
     'updates, and the order-parameterised g-h filter agrees with these.',
     ['inputs', 'histories'],
     'all states, gains, dt, scalar or vector measurements, sequences up to the bound',
     'Tests compare a few numeric steps.',
     ['filterpy/gh/gh_filter.py'],
     [('GHFilter.update/batch_filter, GHKFilter.update/batch_filter, GHFilterOrder.update',
       'filterpy/gh/gh_filter.py')],
     ['x, dx, ddx, predictions, residual y'])

prop('C25', 'g-h design helpers return the parameters they promise',
     'critical_damping_parameters place all filter poles at theta; optimal_noise_smoothing (nonnegative h) and '
     'least_squares_parameters return the documented gains; the variance-reduction factors and bias errors '
     'reported by the filters equal the steady-state response of the actual recursion to white noise and to '
     'an unmodelled higher derivative.',
     ['inputs', 'configurations'],
     'all theta, g, h, k, dt in their documented ranges; sample counts up to the bound',
     'Tests check a few table values.',
     ['filterpy/gh/gh_filter.py'],
     [('critical_damping_parameters, least_squares_parameters, optimal_noise_smoothing, VRF, VRF_prediction, '
       'bias_error', 'filterpy/gh/gh_filter.py')],
     ['returned gains, variance factors, bias'])

prop('C26', 'Fading-memory polynomial filter follows its recursion and variances',
     'The fading-memory polynomial filter of order 0, 1 and 2 corrects a polynomial prediction by gains '
     'derived from beta, reproduces polynomials of its order exactly when started on them, and reports '
     'variance-reduction and bias values that equal those of its actual steady-state response.',
     ['inputs', 'histories'],
     'all beta in (0,1), dt, states and measurements; orders 0-2',
     'The only test plots a run.',
     ['filterpy/memory/fading_memory.py'],
     [('FadingMemoryFilter.update, P, e', 'filterpy/memory/fading_memory.py')],
     ['x, P, e'])

prop('C27', 'Recursive least squares equals the batch polynomial fit',
     'After n measurements the recursive least-squares filter\'s state equals the value and derivatives at '
     'the latest time of the least-squares polynomial of its order through all n measurements (once n '
     'exceeds the order), and its reported standard errors are those of that fit for the given noise sigma; '
     'reset restores the initial state.',
     ['inputs', 'histories'],
     'all measurement values, dt, noise sigma; orders 0-2, up to the bounded number of samples',
     'Tests fit one noiseless polynomial each.',
     ['filterpy/leastsq/least_squares.py'],
     [('LeastSquaresFilter.update, errors, reset', 'filterpy/leastsq/least_squares.py')],
     ['x, K, y, errors()'])

prop('C28', 'Discrete Bayes predict conserves probability and update is Bayes\' rule',
     'Discrete Bayes update returns likelihood times prior normalised to one; predict returns the convolution '
     'of the belief with the motion kernel shifted by the offset, wrapping or filling at the edges as '
     'requested, so that with wrapping no probability is created or lost; normalize makes its argument sum '
     'to one. Inputs other than normalize\'s are not modified.',
     ['inputs', 'configurations'],
     'all belief vectors, kernels and likelihoods within the size bound, integer offsets of either sign',
     'Tests check a few hand-made vectors.',
     ['filterpy/discrete_bayes/discrete_bayes.py'],
     [('normalize, update, predict', 'filterpy/discrete_bayes/discrete_bayes.py')],
     ['returned belief arrays'])

prop('C29', 'Resampling draws valid indices in the promised proportions',
     'Every resampling function returns exactly N indices in range for N normalised weights whatever random '
     'values are drawn, never picks a particle of zero weight, keeps systematic, stratified and residual '
     'copy counts within their theoretical limits of N times the weight (at least its floor for residual and '
     'systematic), and does not modify the weights.',
     ['inputs', 'schedules'],
     'all normalised weight vectors up to the bounded N, including zeros, and every value of the random draws',
     'Tests draw a few random vectors.',
     ['filterpy/monte_carlo/resampling.py'],
     [('residual_resample, stratified_resample, systematic_resample, multinomial_resample',
       'filterpy/monte_carlo/resampling.py')],
     ['returned index arrays'])

prop('C30', 'Process-noise discretisation equals its defining integral',
     'Q_discrete_white_noise and Q_continuous_white_noise return the documented process-noise covariance '
     '(symmetric, positive semidefinite, linear in the variance or spectral density) for every dimension, '
     'dt, block size and ordering, where ordering by derivative is only a permutation of the default; '
     'van_loan_discretization returns exp(F dt) and the integral of exp(F s) G G^T exp(F s)^T.',
     ['inputs', 'configurations'],
     'all dt, variances and spectral densities; dim 2-4, block sizes up to the bound; nilpotent F',
     'Tests compare a few numbers.',
     ['filterpy/common/discretization.py'],
     [('Q_discrete_white_noise, Q_continuous_white_noise, van_loan_discretization, order_by_derivative, '
       'linear_ode_discretation', 'filterpy/common/discretization.py')],
     ['returned matrices'])

prop('C31', 'Kinematic model factories build consistent models',
     'kinematic_state_transition is the Taylor transition matrix exp(N dt) (so transitions over dt1 and dt2 '
     'compose to dt1+dt2); kinematic_kf returns a filter whose dimensions, F and H match the requested '
     'dimension count, order and ordering, observing positions only, with each dimension evolving '
     'independently.',
     ['inputs', 'configurations'],
     'all dt; orders 0-3 (transition 0-4), 1-3 dimensions, both orderings, both measurement sizes',
     'Tests check a few instances.',
     ['filterpy/common/kinematic.py'],
     [('kinematic_state_transition, kinematic_kf', 'filterpy/common/kinematic.py')],
     ['F, H, shapes of the returned filter'])

prop('C32', 'Gaussian arithmetic follows the rules of probability',
     'mul and multivariate_multiply return the normalised product of two Gaussians (precision-weighted mean, '
     'summed precision), mul_pdf adds the correct scale, add returns the distribution of a sum, and these '
     'operations are commutative, associative up to normalisation, symmetric and leave inputs unchanged.',
     ['inputs'],
     'all means and positive (definite) variances within the dimension bound',
     'Tests check a few numbers.',
     ['filterpy/stats/stats.py'],
     [('mul, mul_pdf, add, multivariate_multiply', 'filterpy/stats/stats.py')],
     ['returned means, variances, scale'])

prop('C33', 'Densities, distances and error statistics follow their definitions',
     'gaussian, multivariate_gaussian, logpdf and log_likelihood evaluate the normal density; mahalanobis is '
     'sqrt(d^T S^-1 d) for scalar, list, 1-D and column inputs; NEES returns e^T P^-1 e per sample; '
     'covariance_ellipse returns axes and angle that reproduce the covariance; rand_student_t is its mean plus '
     'its scale times a standard normal over the root of a chi-squared per degree of freedom; lists and arrays '
     'are accepted alike and never modified.',
     ['inputs', 'configurations'],
     'all points, means and positive definite covariances within the dimension bound, every documented '
     'argument form',
     'Tests compare with scipy at a few points.',
     ['filterpy/stats/stats.py'],
     [('gaussian, multivariate_gaussian, logpdf, log_likelihood, likelihood, mahalanobis, NEES, '
       'covariance_ellipse, norm_cdf, rand_student_t', 'filterpy/stats/stats.py')],
     ['returned values'])

prop('C34', 'Shared helpers keep shapes, values and recorded history faithful',
     'reshape_z returns the measurement as the column (or vector) the state shape requires and rejects '
     'incompatible ones; inv_diagonal inverts diagonals; outer_product_sum sums outer products; runge_kutta4 '
     'is the fourth-order step, exact on polynomials to degree three; Saver records an independent snapshot '
     'of every attribute and property at each save, so later filter steps never change recorded history, and '
     'to_array and flatten only change its shape; '
     'copy_states copies the attributes two filters share independently, and compare_kf names exactly the '
     'attributes that differ.',
     ['inputs', 'histories'],
     'all values and shapes within the bound; any interleaving of filter steps and saves',
     'Tests check a few shapes and one saver run.',
     ['filterpy/common/helpers.py'],
     [('reshape_z, inv_diagonal, outer_product_sum, runge_kutta4, Saver, copy_states, compare_kf', 'filterpy/common/helpers.py')],
     ['return values; Saver attributes'])

prop('C35', 'Filters never corrupt caller-owned arrays or recorded estimates',
     'Running predict and update on any filter never changes arrays the caller passed in (measurements, '
     'controls, per-call matrices, assigned model matrices and state), and the prior and posterior estimates '
     'it exposes (also those of a new filter) and the measurement it records are snapshots: later steps or edits of '
     'the current state do not change a previously obtained prior or posterior, nor do edits of the caller\'s '
     'measurement change the recorded one.',
     ['inputs', 'histories'],
     'all filters, all inputs within the bound, any order of predict and update up to the bound',
     'No test checks for aliasing.',
     [K + f for f in ('kalman_filter.py', 'EKF.py', 'UKF.py', 'CubatureKalmanFilter.py', 'square_root.py',
                      'information_filter.py', 'fading_memory.py', 'ensemble_kalman_filter.py', 'IMM.py')] +
     ['filterpy/hinfinity/hinfinity_filter.py'],
     [('copy() of x and P into prior/post attributes', K + 'kalman_filter.py')],
     ['caller arrays, x_prior, P_prior, x_post, P_post'])

prop('C36', 'Impossible configurations are rejected, not silently accepted',
     'Constructors, factories, resamplers and smoothers refuse nonsensical sizes, orders and parameters with a '
     'ValueError (or the documented exception) for every such value and accept every sensible one: nonpositive '
     'state, measurement or ensemble sizes, negative control sizes, banks of fewer than two models, of different '
     'state sizes or with the wrong number of probabilities, unsupported polynomial orders and white-noise '
     'dimensions, damping outside [0, 1], fading factors below one, means and covariances of different lengths, '
     'points or measurements of the wrong size.',
     ['inputs', 'configurations'],
     'all constructors and factories that document or perform validation; all sizes within the bound, all real '
     'parameters',
     'Tests construct valid filters; almost no rejected configuration is tried.',
     [K + 'kalman_filter.py', K + 'square_root.py', K + 'IMM.py', K + 'mmae.py', K + 'ensemble_kalman_filter.py',
      'filterpy/common/discretization.py', 'filterpy/leastsq/least_squares.py', 'filterpy/memory/fading_memory.py'],
     [('raise ValueError branches of constructors', K + 'kalman_filter.py')],
     ['exceptions raised; objects returned'])

prop('C37', 'A new filter is the documented standard model until told otherwise',
     'A newly constructed Kalman-type filter has exactly the given sizes, a zero state, identity covariance (or '
     'information) matrix, identity process and measurement noise, an identity transition where the class '
     'documents one, no control term and no recorded measurement, and its prior and posterior equal that initial '
     'estimate; with only the measurement (and process) function set, its first prediction and update are those '
     'of this standard model, for every measurement.',
     ['configurations', 'inputs'],
     'all filter classes with defaulted models; sizes within the bound, all real measurements',
     'Tests overwrite the defaults before use.',
     [K + f for f in ('kalman_filter.py', 'EKF.py', 'UKF.py', 'CubatureKalmanFilter.py', 'square_root.py',
                      'information_filter.py', 'fading_memory.py', 'ensemble_kalman_filter.py')],
     [('__init__ of the filter classes', K + 'kalman_filter.py')],
     ['x, P, Q, R, F, H, z, x_prior, P_prior, x_post, P_post of a new filter'])

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}
TECH = ('symbolic execution of the real filterpy source over the reals; z3 (nlsat) decides each assertion for '
        'all inputs within the stated dimension bounds; counterexamples replayed on the real code')
NOTE = ('holds for every real input within the dimensions, steps and argument forms listed in the evidence; '
        'assumes real arithmetic (no rounding/overflow), and the listed stand-ins for numpy/scipy kernels '
        '(validated against the real routines on each run)')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    import sys
    sys.path.insert(0, HERE)
    try:
        from engine.registry import load_all
        have = load_all()
    except ImportError:
        have = {}
    checks, na = [], []
    for p in P:
        if p['id'] in NOT_APPLICABLE:
            na.append(dict(property=p['id'], reason=NOT_APPLICABLE[p['id']]))
        elif p['id'] in have:
            checks.append(dict(property=p['id'],
                               quick_cmd='./check %s quick' % p['id'],
                               thorough_cmd='./check %s thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'],
                               technique=TECH, level='other', level_note=NOTE))
        else:
            na.append(dict(property=p['id'], reason='check not built yet'))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='no hooks: the checks execute /repo\'s source as it is')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
