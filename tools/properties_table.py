FL="function_logger/function_logger.py"; PT="parameter_transformer/parameter_transformer.py"
VB="vbmc/vbmc.py"; OP="vbmc/options.py"; IH="vbmc/iteration_history.py"; VP="variational_posterior/variational_posterior.py"
AS="vbmc/active_sample.py"; GT="vbmc/gaussian_process_train.py"; VO="vbmc/variational_optimization.py"; WH="whitening/whitening.py"
AI="vbmc/active_importance_sampling.py"; AA="acquisition_functions/abstract_acq_fcn.py"

prop("C01","Each target value enters inference once: validated, counted and recorded",
"""The user's target function is evaluated only through the evaluation log, and a result enters the log only after it has been checked
to be a finite real scalar (for noisy targets, also that the reported noise SD is a finite, real, strictly positive scalar).
Every successful evaluation increases the evaluation count by exactly one and is recorded exactly once, at the very point that was evaluated,
and a pre-evaluated value supplied by the user goes through the same checks and is counted separately.
An invalid value, or an exception raised by the target, reaches the caller and leaves the log's records and counters unchanged.""",
["inputs","fault_sequences","histories"],"for every target function, noise level, point and failure of the target at any evaluation of a run",
"Tests feed a handful of bad values (nan, inf, list) to the log directly; they cannot enumerate every return type x noise mode x failure point, nor show that no other code path calls the target or writes the log.",
[FL,AS,VB],[("validated call, add","function_logger/function_logger.py FunctionLogger.__call__, add"),("single writer","function_logger/function_logger.py FunctionLogger._record")],
["FunctionLogger.func_count, cache_count, Xn and arrays; exceptions out of optimize()"])

prop("C02","The evaluation log's columns stay aligned, row by row",
"""All per-evaluation columns of the evaluation log (points and values in both spaces, noise SDs, evaluation counts, evaluation times, active flags) always have the same number of rows: they are created, enlarged and trimmed together.
A new point fills every column at one new row; re-evaluating a known point updates that row's columns only, and increments its evaluation count.
The stored transformed-space value of a row is always its stored original-space value plus the log-Jacobian correction at that row's point, and the original-space value itself never contains that correction.""",
["histories","inputs","configurations"],"for every sequence of evaluations, re-evaluations, cache growths, trims and re-parameterizations, with and without noise and parameter transform",
"Tests check single adds, one growth and one duplicate for some columns; alignment is an invariant over every operation and column, and the duplicate-with-transform combination is not sampled.",
[FL,WH],[("column creation/growth/trim","function_logger/function_logger.py FunctionLogger.__init__, _expand_arrays, finalize"),("row write","function_logger/function_logger.py FunctionLogger._record"),("re-parameterized rows","whitening/whitening.py warp_input")],
["FunctionLogger.X, X_orig, y, y_orig, S, n_evals, fun_eval_time, X_flag"])

prop("C03","Original-space and transformed-space quantities are never mixed",
"""A point or bound expressed in the user's original space and one expressed in the unconstrained inference space are never combined, compared or substituted for one another: every crossing goes through the parameter transform in the right direction.
In particular the target, the prior and the user-facing bounds and samples only see original-space points, while the surrogate model, the acquisition functions, the variational mixture and the search bounds only see transformed-space points.
A log-density value changes space only by adding (to transformed) or subtracting (to original) the log-Jacobian correction taken at the transformed point.""",
["inputs","configurations","histories"],"for every problem with bounded, unbounded or warped parameters and every path of the algorithm",
"With unbounded unit-scale problems (most tests) both spaces coincide, so a missing or doubled conversion is invisible; the remaining combinations of bounds, warps and code paths are not sampled.",
[VB,FL,AS,WH,VP,AA,GT,AI],[("transform calls","parameter_transformer/parameter_transformer.py ParameterTransformer.__call__, inverse, log_abs_det_jacobian"),("bounds in both spaces","vbmc/vbmc.py VBMC._init_optim_state"),("warp","whitening/whitening.py warp_input")])

prop("C04","Direct, inverse and log-Jacobian of the parameter transform are one map",
"""For every transform type, every mixture of bounded and unbounded variables and every rotation/scaling set by re-parameterization, the inverse transform undoes exactly the steps of the direct transform in reverse order, and the log-Jacobian accounts for each step that changes volume, at the same intermediate points.
Every transform type a user can select has a direct map, an inverse and a Jacobian that belong together.
Two transforms compare equal only if they agree in every parameter that determines the map.""",
["inputs","configurations"],"for every transform type, bound layout, rotation matrix and scale, and every point",
"Tests check a few bounds per type, mostly without rotation and scale and never all at once; equality is tested on few instances.",
[PT],[("step sequences","parameter_transformer/parameter_transformer.py ParameterTransformer.__call__, inverse, log_abs_det_jacobian"),("per-type tables","parameter_transformer/parameter_transformer.py ParameterTransformer._set_bounded_transforms"),("equality","parameter_transformer/parameter_transformer.py ParameterTransformer.__eq__")])

prop("C05","User options win, unknown names are refused, and options then stay frozen",
"""A value the user passes in the options always takes precedence over every default file, every derived default and any fixed value: no stage replaces it by a constant of its own.
An option name that no configuration file declares is refused with an error before inference starts.
Once initialization is complete no operation on the options object changes it unless a change is explicitly forced, and the algorithm itself never modifies the user's options; every option the algorithm consults is one that the configuration files declare.""",
["configurations","histories"],"for every set of user options, options file and sequence of operations on the options object",
"Tests set a few names and values; precedence, refusal and immutability have to hold for every option and every mutating operation, and a misspelled option lookup silently yields None.",
[OP,VB,AS,VO,GT],[("precedence","vbmc/options.py Options.load_options_file, update_defaults"),("refusal and freeze","vbmc/options.py Options.validate_option_names, __setitem__, __delitem__"),("declared names","vbmc/option_configs/*.ini")])

prop("C06","State passed between algorithm stages is read under the name it is written",
"""Every entry of the shared run state (optimization state, iteration history, surrogate-hyperparameter store, posterior statistics, importance-sampling tables) that any stage consults is an entry that some stage sets, under exactly that name and in the same container.
Each stage that hands an entry over to later stages (the constructor's initial state, the warp's and the warmup end's request to skip active sampling, the counters and running averages) sets it under the name the later stages consult.
No stage consults an entry that can never have been set, so that no feature is silently disabled or fails by a mismatched name.""",
["programs","configurations","histories"],"for every stage, every option combination that activates it, and every entry of the shared state",
"A lookup with a wrong name falls back to None/False or only fails in a rarely enabled feature; tests exercise few of the option combinations.",
[VB,AS,GT,VO,WH,AI,AA],[("state initialisation","vbmc/vbmc.py VBMC._init_optim_state"),("history keys","vbmc/vbmc.py VBMC.__init__"),("hyperparameter store","vbmc/gaussian_process_train.py train_gp")])

prop("C07","Recorded history is an immutable snapshot, complete for every iteration",
"""What the iteration history records for an iteration is an independent copy: nothing the algorithm or the user later does to the live posterior, surrogate, state or log changes what was recorded for an earlier iteration, and continuing a run does not change earlier records.
Every declared per-iteration entry that the algorithm later indexes by iteration is recorded in every iteration under that iteration's index, and unknown names or negative iterations are refused.""",
["histories","inputs"],"for every sequence of records, continued or resumed runs, and later mutation of live objects",
"Tests record simple values and read them back; aliasing only shows after a later in-place mutation in a continued run.",
[IH,VB],[("copy on record","vbmc/iteration_history.py IterationHistory.record, __setitem__"),("recording sites","vbmc/vbmc.py VBMC.optimize, _check_termination_conditions"),("resumption","vbmc/vbmc.py VBMC.optimize, load")])

prop("C08","The returned posterior and the reported results describe the same solution",
"""The posterior returned by a run is an independent copy of the selected (and possibly boosted) solution, and every quantity in the results that describes the solution (ELBO, its SD, number of components, reliability, convergence status, best iteration, training-set size) is taken from that same solution or from that same iteration.
The success flag and convergence status are derived from the stability of that very solution, and the counters report the run's actual totals.""",
["histories","configurations"],"for every run, with and without final boost, and whichever iteration is selected",
"Regression tests look at ELBO and moments of runs where the last iteration is the best one, so indices and sources coincide.",
[VB],[("selection and return","vbmc/vbmc.py VBMC.optimize tail, final_boost"),("results","vbmc/vbmc.py VBMC._create_result_dict")])

prop("C09","A run stops exactly when a documented termination condition allows it",
"""After every iteration the run is declared finished as soon as the number of target evaluations has reached its maximum or the number of iterations has reached its maximum, or when the solution has been stable long enough, away from the last re-parameterization and with entropy switching done.
It is never declared finished while the number of evaluations or iterations is below the configured minimum, and no other condition ends the run.
Each termination is reported with a message naming the condition that caused it.""",
["histories","configurations"],"for every history of evaluations, reliability indices and stability flags, and every budget setting",
"Tests drive a few hand-set states; the interplay of budget, stability, entropy switch and minimums is a product space.",
[VB],[("termination test","vbmc/vbmc.py VBMC._check_termination_conditions"),("main loop","vbmc/vbmc.py VBMC.optimize")])

prop("C10","A rejected re-parameterization is undone completely",
"""When a trial re-parameterization (input warping) does not improve the solution sufficiently, the posterior, surrogate, optimization state, evaluation log, hyperparameter store and parameter transform are all restored to what they were before the trial, and only the bookkeeping of the failed attempt differs.
The saved values are independent of the objects modified during the trial, and applying a re-parameterization never modifies the transform, posterior or log that earlier iterations recorded.""",
["histories","configurations"],"for every run in which a re-parameterization is tried and rejected, at any iteration",
"No test reaches a rejected warp with a comparison of the complete state before and after.",
[VB,WH],[("snapshot and rollback","vbmc/vbmc.py VBMC.optimize (input warping block)"),("warp on copies","whitening/whitening.py warp_input, warp_gp_and_vp")])

prop("C11","Queries do not modify the objects or arrays they are given",
"""Evaluating a density, drawing samples, computing moments, mode, distances, plots, entropies or expected log-joint, transforming points, evaluating priors and acquisition functions, and comparing or printing objects leave the posterior's parameters, the surrogate, the user's arrays and the caller's arguments unchanged.
Arrays handed in by the user (starting points, bounds, points to evaluate) are never written to.""",
["inputs","histories"],"for every query, argument shape (scalar, row, matrix; view or owner) and preceding history",
"Tests compare return values; they almost never compare the arguments before and after, and aliasing depends on array shape and flags.",
[VP,PT,VB,"entropy/entlb_vbmc.py","entropy/entmc_vbmc.py","priors/prior.py",AA,VO,"vbmc/minimize_adam.py","stats/kde_1d.py","stats/get_hpd.py"],
[("posterior queries","variational_posterior/variational_posterior.py"),("bounds check","vbmc/vbmc.py VBMC._bounds_check"),("optimizers","vbmc/minimize_adam.py minimize_adam")])

prop("C12","Saving never clobbers silently; loading restores one consistent iteration",
"""Saving to an existing file fails unless overwriting was explicitly requested, and saving and loading under the same name address the same file.
Loading at an iteration outside the recorded range is refused; otherwise the surrogate, posterior, evaluation log, optimization state, hyperparameters and iteration counter are all set to the records of that one iteration and later history is dropped.
The global random state is changed on loading only if that was requested, and then to the state recorded for that same iteration.""",
["inputs","histories","configurations"],"for every file name, overwrite flag, requested iteration and prior history",
"Tests save and load a few fixed runs; agreement of all restored parts holds for every iteration and flag combination.",
[VB,VP],[("save/load","vbmc/vbmc.py VBMC.save, load; variational_posterior/variational_posterior.py VariationalPosterior.save, load")])

prop("C13","All randomness is drawn from the one seedable global generator",
"""Seeding NumPy's global random generator before a run determines every random choice the library makes: no random number comes from another, unseeded source, and nothing in the library reseeds or replaces the generator's state on its own.
No decision depends on an unordered traversal, object identity or the wall clock.""",
["programs","histories"],"for every code path that consumes randomness",
"Tests seed and compare one run configuration; a path that draws elsewhere or reseeds is only seen when it is taken.",
[AS,VO,VP,AI,GT,VB,"priors/product.py"],[("random draws","pyvbmc (all modules)"),("state restore","vbmc/vbmc.py VBMC.load")])

prop("C14","No evaluated or proposed point leaves the hard bounds",
"""Every candidate point is either generated inside or confined to the search bounds, which always lie within the transformed hard bounds, and every acquisition function rates a candidate outside the hard bounds as infinitely bad, whichever acquisition function is used.
Starting points outside the hard bounds are refused, and points of initial designs drawn outside the bounds are not evaluated.""",
["inputs","configurations","histories"],"for every acquisition function, search optimizer, bound layout and random candidate set",
"Candidates near or beyond the bounds are rare in the sampled runs, and few tests use tight bounds with each search source.",
[AS,AA,VB,"acquisition_functions/utilities.py"],[("candidate generation","vbmc/active_sample.py active_sample, _get_search_points"),("hard-bound rejection","acquisition_functions/abstract_acq_fcn.py AbstractAcqFcn.__call__"),("search bounds","vbmc/vbmc.py VBMC._init_optim_state")])

prop("C15","Every producer and consumer of the packed parameter vector agrees on its layout",
"""The flat vector of variational parameters always holds, in this order and only if optimized, the component means (component by component), log scales, log length scales and log-weights, with the same sizes and element order wherever it is written, read, bounded, differentiated or sliced.
Gradients are returned in exactly that layout.""",
["inputs","configurations"],"for every number of dimensions and components and every combination of optimized parameter groups",
"Tests use few (D, K) pairs and mostly all groups optimized; transposed or shifted blocks coincide for D = K or for symmetric values.",
[VP,VO,"entropy/entlb_vbmc.py","entropy/entmc_vbmc.py"],[("pack/unpack","variational_posterior/variational_posterior.py VariationalPosterior.get_parameters, set_parameters, get_bounds"),("consumers","vbmc/variational_optimization.py _neg_elcbo, _gp_log_joint, _vp_bound_loss, optimize_vp")])

prop("C16","Posterior parameters stay normalized, paired and consistent with caches",
"""After any operation that sets a posterior's parameters, weights are non-negative and sum to one, the length scales are normalized with the component scales compensating, and weights, means, scales and the component count describe the same set of components.
Any cached quantity (such as the mode) is discarded whenever the parameters it was computed from change.""",
["histories","inputs"],"for every sequence of parameter updates, prunings, component additions and queries",
"Tests call single setters; stale caches and partially resized arrays need particular operation sequences.",
[VP,VO,WH],[("setter","variational_posterior/variational_posterior.py VariationalPosterior.set_parameters"),("component changes","vbmc/variational_optimization.py optimize_vp, _vb_init"),("warped posterior","whitening/whitening.py warp_gp_and_vp")])

prop("C17","Original-space densities are Jacobian-corrected and vanish outside the bounds",
"""A posterior density requested in the original space is the transformed-space density corrected by the Jacobian exactly once, for values and log-values alike; requested in the transformed space it is never corrected.
Outside the hard bounds the original-space density is zero (log-density minus infinity).
Samples and moments requested in the original space are produced by mapping transformed-space samples through the inverse transform, and in the transformed space are not mapped.""",
["inputs","configurations"],"for every point, flag combination (original space, log, gradient, heavy tails) and bound layout",
"Tests sample some flag combinations, mostly away from bounds.",
[VP],[("density","variational_posterior/variational_posterior.py VariationalPosterior.pdf, log_pdf"),("samples and moments","variational_posterior/variational_posterior.py VariationalPosterior.sample, moments")])

prop("C18","Errors reach the caller and process-wide settings are always restored",
"""An exception raised by user code (target, prior) or by an internal failure is never silently discarded: each handler either re-raises, raises a documented error, or recovers by a documented fallback for a specific numerical exception type.
Process-wide settings that the library changes (floating-point error handling, warning filters) are restored on every way out, including exceptions.""",
["fault_sequences","inputs"],"for every exception raised at any call inside a guarded region",
"Tests do not inject exceptions at each call site.",
[FL,VO,GT,AS,"priors/spline_trapezoidal.py",VB],[("handlers","pyvbmc (all try statements)"),("settings","pyvbmc (np.seterr/np.errstate/warnings uses)")])

prop("C19","All priors honour one interface and validate before use",
"""Every prior type exposes the same density, log-density, sampling and support operations with the same argument conventions and shapes, so that any prior can stand wherever another does.
Parameters with which a prior cannot be a density (mis-ordered bounds, non-positive scales, infinite supports, mismatched dimensions) are refused at construction, and the log-density outside a prior's support is minus infinity.""",
["inputs","configurations","programs"],"for every prior class, parameter array and evaluation point",
"Tests build a few instances per class.",
["priors/prior.py","priors/uniform_box.py","priors/trapezoidal.py","priors/spline_trapezoidal.py","priors/smooth_box.py","priors/scipy.py","priors/product.py","priors/user_function.py","priors/convert_to_prior.py","priors/tile_inputs.py"],
[("interface","priors/prior.py Prior"),("construction checks","priors/*.py __init__"),("conversion","priors/convert_to_prior.py convert_to_prior")])

prop("C20","The inferred target is log-likelihood plus log-prior with noise passed through",
"""When a prior is given, the function that inference evaluates is exactly the log-likelihood plus the log-prior at the same point, each evaluated once, and for noisy targets the reported noise SD is passed through unchanged; without a prior it is the user's log-density itself.
A prior of the wrong dimension is refused, at most one way of specifying a prior is accepted, and the noise mode is derived consistently from the options wherever it is used.""",
["inputs","configurations"],"for every way of specifying prior and noise",
"Tests cover a few combinations of prior specification and noise mode.",
[VB,"priors/convert_to_prior.py",FL],[("log-joint construction","vbmc/vbmc.py VBMC._init_log_joint"),("prior conversion","priors/convert_to_prior.py convert_to_prior")])

prop("C21","Invalid bounds or starting points are refused before any evaluation",
"""Construction succeeds only if bounds are real, of matching dimension, correctly ordered (lower < plausible lower < plausible upper < upper), with finite plausible bounds, no fixed and no half-bounded variable, and starting points inside the hard bounds; otherwise an error is raised before the target is evaluated.
The bounds used by the run are the validated ones, each plausible or starting value adjusted only in the direction of the interior.""",
["inputs"],"for every combination of bounds, starting points and omitted arguments",
"Tests try one violation at a time for some of the conditions; the checks have to be passed on every path, including defaulted arguments.",
[VB],[("bounds check","vbmc/vbmc.py VBMC._bounds_check"),("use","vbmc/vbmc.py VBMC.__init__")])

prop("C22","Every timed phase that starts is stopped, and no phase stops unstarted",
"""On every path through an iteration each timer that is started is stopped before the iteration's timings are recorded, no timer is stopped that was not started, and a duration is only read after its timer has been stopped.
The evaluation time recorded for a target call covers that call alone.""",
["histories","configurations"],"for every branch combination of an iteration",
"Timer warnings do not fail tests, and rarely taken branches are not executed.",
[VB,AS,FL,"timer/timer.py"],[("pairs","vbmc/vbmc.py VBMC.optimize; vbmc/active_sample.py active_sample; function_logger/function_logger.py FunctionLogger.__call__")])

prop("C23","Every accepted choice of method or type is implemented, others are refused",
"""Wherever the user selects among named alternatives (bounded transform, surrogate mean/noise/covariance function, search optimizer, sampler, acquisition function, log-file level, optimizer), every name accepted by validation has an implementation and every unrecognized name is refused with an error rather than ignored.""",
["configurations","inputs"],"for every selectable name",
"Tests exercise defaults and few alternatives.",
[VB,GT,PT,AS,VO,"vbmc/option_configs/advanced_vbmc_options.ini"],[("dispatch chains","vbmc/gaussian_process_train.py, parameter_transformer/parameter_transformer.py, vbmc/active_sample.py, vbmc/variational_optimization.py")])

prop("C24","The selected iteration is the best by the documented criterion, and in range",
"""Given an iteration up to which to look, the selected solution comes from that range: the given iteration itself if stable, otherwise the one maximizing the pessimistic ELBO among the iterations since the last stable one (or the most recent fraction if there is none), or minimizing the summed rank when ranking is requested.
The posterior, ELBO, SD, stability and index returned all belong to the same iteration.""",
["histories","inputs"],"for every recorded history, requested range and criterion",
"Tests fix a few histories.",
[VB],[("selection","vbmc/vbmc.py VBMC.determine_best_vp")])

prop("C25","Surrogate training data keep points, values and noise of the same rows together",
"""Whenever the surrogate is trained, updated or queried with recorded data, the points, values and noise variances passed together come from the same rows in the same order, restricted to active rows, and high-density subsets select and sort points and values with one common index.
The noise passed to the surrogate is the squared recorded SD.""",
["histories","configurations"],"for every set of active rows, repeated observations and trimming",
"Mis-paired rows change the fit only quantitatively and only when some rows are inactive or duplicated.",
[GT,AS,"stats/get_hpd.py",VO,AA,AI],[("training data","vbmc/gaussian_process_train.py _get_training_data, reupdate_gp"),("high-density subset","stats/get_hpd.py get_hpd"),("updates","vbmc/active_sample.py active_sample")])

prop("C26","Internal calls match the interfaces of what they call",
"""Every call between the library's own parts passes only arguments that the callee accepts and all that it requires, and every tuple result is unpacked into as many values as the callee returns on every path.
Every attribute or method consulted on one of the library's objects is one that its class provides, and no path reads a local variable before it is set.""",
["programs","configurations"],"for every call site and every configuration or branch that reaches it",
"Python binds names and arguments only when the line runs; rarely enabled branches (options, noise modes, fallbacks) are not run by the tests.",
[VB,AS,VO,GT,VP,AI,WH,AA],[("call sites","pyvbmc (all modules)")])

prop("C27","Warm-up ends, and data are trimmed, exactly when documented",
"""Warm-up is declared over exactly when, over the configured stability window, neither the pessimistic ELBO nor (if checked) the best target value improved by the threshold, or the best value is older than configured, and never within ten points of the last trimming; an unreliable first stop only trims and goes on.
The check runs in every warm-up iteration after the first and never outside warm-up, its verdict is followed, and ended warm-up never restarts.
Trimming only removes points, keeps all within the configured distance of the best value and at least the best D+1, and the surrogate is rebuilt on what is left.""",
["histories","configurations"],"for every recorded history, option setting and number of earlier trimmings",
"Tests drive a handful of hand-made histories; boundaries, windows and false-alarm sequences of real runs are not sampled.",
[VB],[("stop decision","vbmc/vbmc.py VBMC._check_warmup_end_conditions"),("end or trim","vbmc/vbmc.py VBMC._setup_vbmc_after_warmup"),("loop","vbmc/vbmc.py VBMC.optimize")])

prop("C28","The number of mixture components adapts as documented",
"""Outside warm-up and from the second iteration on, the number of components grows by one when the pessimistic ELBO improves and nothing was pruned in the last iteration, plus the configured bonus when the solution is stable and nothing was pruned recently; adaptation never exceeds the cap by growing, never shrinks, and is what the fit uses.
Pruning removes only components lighter than the configured weight, only where weights are optimized and when the pessimistic ELBO changes by less than the threshold; the recorded number is that of the fitted posterior, and the final optimization neither prunes nor starts with fewer components than before.""",
["histories","configurations"],"for every recorded history and option setting",
"Tests fix two histories; the sequence of growth, pruning and bonus in a run is not sampled.",
[VO,VB],[("component update","vbmc/variational_optimization.py update_K"),("pruning","vbmc/variational_optimization.py optimize_vp"),("use","vbmc/vbmc.py VBMC.optimize, final_boost")])

prop("C29","Among candidates, the best by its own value is taken",
"""Wherever the algorithm chooses among candidates it takes the best of them: the largest target, density or ELBO, the smallest negative ELBO, acquisition value or distance. The value that decides is the one computed for that very candidate, and what is carried along with a candidate (its kind, its recorded target value, its position in a trace) stays its own.
A candidate replaced by an optimized point is replaced only if that point's acquisition value is better, and it then loses the recorded target value of the cached point. Starting solutions are tried best first and each once. Acquisition values fall where the expected target, its uncertainty or the density grows; penalties and bounds only raise them. Every minimized objective is of the kind that is better when smaller, with the gradient of the same sign.""",
["inputs","histories","configurations"],"for every set of candidates and option setting",
"The algorithm still converges, more slowly or to a slightly worse result, when a worse candidate is taken; no test compares the choice with the alternatives.",
[VO,VB,"vbmc/active_sample.py","vbmc/minimize_adam.py",VP,"stats/get_hpd.py","acquisition_functions/abstract_acq_fcn.py"],[("next evaluation","vbmc/active_sample.py active_sample"),("starting solutions","vbmc/variational_optimization.py optimize_vp, _sieve, _vb_init"),("acquisition values","acquisition_functions/abstract_acq_fcn.py AbstractAcqFcn.__call__"),("mode","variational_posterior/variational_posterior.py VariationalPosterior.mode"),("trace","vbmc/minimize_adam.py minimize_adam")])

# --- not claimed (numerical / statistical / convergence) ---
prop("N01","The reported ELBO bounds and approximates the log marginal likelihood",
"The ELBO reported with its SD is, up to the reported uncertainty, a lower bound of the log normalization constant of the target.",
["inputs"],"for every target","Convergence tests cover eight targets.",[VB,VO],[("ELBO","vbmc/variational_optimization.py _neg_elcbo")])
prop("N02","The returned posterior converges to the target given enough budget",
"With increasing evaluation budget the returned posterior approaches the target distribution for smooth unimodal and mildly multimodal targets.",
["inputs","histories"],"for every target and budget","Eight fixed runs.",[VB],[("main loop","vbmc/vbmc.py VBMC.optimize")])
prop("N03","Analytic gradients equal the derivatives of the values they accompany",
"Every gradient returned by the entropy, expected log-joint and ELBO computations is the exact derivative of the returned value with respect to the packed parameters.",
["inputs"],"for every parameter vector","Finite-difference tests on few parameter vectors.",["entropy/entlb_vbmc.py","entropy/entmc_vbmc.py",VO],[("gradients","entropy/entlb_vbmc.py entlb_vbmc; vbmc/variational_optimization.py _gp_log_joint")])
prop("N04","Monte Carlo and kernel estimates converge to the exact quantities",
"Sample-based moments, divergences, entropies and kernel density estimates converge to the exact values as the number of samples grows.",
["inputs"],"for every posterior","Fixed tolerances at fixed seeds.",[VP,"stats/kde_1d.py","entropy/entmc_vbmc.py"],[("estimators","stats/kde_1d.py kde_1d")])
prop("N05","Transforming and back recovers a point to rounding error",
"Mapping any point inside the bounds to the unconstrained space and back recovers it to within rounding error, arbitrarily close to the bounds.",
["inputs"],"for every point, including denormal distances from a bound","Sampled points only.",[PT],[("elementary maps","parameter_transformer/parameter_transformer.py")])
prop("N06","Each prior's density integrates to one and matches its sampler",
"Each prior's density is normalized and its samples are distributed according to it.",
["inputs"],"for every parameter setting","Monte Carlo checks of few settings.",["priors/smooth_box.py","priors/trapezoidal.py","priors/spline_trapezoidal.py"],[("densities and samplers","priors/*.py")])
prop("N07","An iteration's cost stays bounded by the configured resources",
"The time and memory of an iteration are bounded by a function of the number of evaluations, components and dimensions.",
["histories"],"for every run","Only small runs are executed.",[VB,VO],[("optimizers","vbmc/minimize_adam.py")])
