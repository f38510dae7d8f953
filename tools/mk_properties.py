#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that it is easy to review and edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

G = "GPyOpt/"
prop("C01", "Every suggested or evaluated configuration is a valid point of the domain",
 "Every configuration the library hands to the user's function or returns as a suggestion has one value per declared dimension, in declaration order, each continuous value inside its bounds, each discrete value one of the listed values, each categorical value one of the listed categories, each bandit tuple one of the listed arms. This holds for the initial design and for every acquisition function, evaluator, batch size and acquisition optimizer. A step returns exactly one configuration for the sequential strategy and the requested number for a batch strategy (fewer only when de-duplication leaves too few fresh points).",
 ["configurations", "histories", "inputs"],
 "All domains mixing variable types, dimensionalities and value sets (including unsorted, negative, non-integer discrete values), all strategy combinations, all objective values.",
 "The tests run a handful of fixed 1-3 variable domains and compare against stored outputs; no test inspects mixed domains, batch strategies and encodings together.",
 [G+"core/bo.py", G+"core/task/space.py", G+"core/task/variables.py", G+"optimization/optimizer.py", G+"optimization/anchor_points_generator.py", G+"core/evaluators", G+"experiment_design"],
 [("local optimizer result is rounded to the domain", G+"optimization/optimizer.py:apply_optimizer"), ("one-hot decode", G+"core/task/space.py:zip_inputs")],
 ["argument of the user's objective", "BO.suggest_next_locations", "BO.X"])

prop("C02", "Constraints are never violated by designs or suggestions",
 "When constraints are declared, every initial-design point drawn by the library and every suggestion it makes satisfies all of them whenever the feasible region can be found by sampling, whatever the domain types, acquisition, evaluator or context. Designs that cannot honour constraints refuse to run with a configuration error rather than return infeasible points.",
 ["configurations", "inputs", "histories"],
 "All sets of constraint expressions over all coordinates (linear, quadratic, several at once, involving discrete or categorical coordinates), all strategies.",
 "One test checks a random design with one constraint; no test checks that suggestions are feasible after local optimisation and rounding, nor with context or batches.",
 [G+"core/task/space.py", G+"experiment_design/random_design.py", G+"acquisitions/base.py", G+"optimization"],
 [("rejection sampling", G+"experiment_design/random_design.py:get_samples_with_constraints"), ("acquisition multiplied by feasibility indicator", G+"acquisitions/base.py:acquisition_function")],
 ["experiment_design.initial_design", "BO.suggest_next_locations", "objective arguments"])

prop("C03", "Context variables keep exactly the values the caller fixed",
 "When a context fixes some variables, every suggestion and every evaluation of that run carries exactly those values in the columns of the named variables, while the other variables remain free and valid. Different contexts may be used in successive calls on the same optimizer without one leaking into the next, and a context naming an unknown variable is rejected.",
 ["configurations", "histories", "inputs"],
 "All subsets of variables as context (including several, out of order, categorical with one-hot encoding, all of them), all values, all evaluators, sequences of calls with changing contexts.",
 "Tests use two fixed contexts on fixed spaces with a single strategy and compare numbers; sequences of contexts and categorical contexts in batches are not covered.",
 [G+"optimization/acquisition_optimizer.py", G+"optimization/optimizer.py", G+"optimization/anchor_points_generator.py", G+"core/bo.py", G+"core/evaluators"],
 [("context expansion", G+"optimization/acquisition_optimizer.py:ContextManager"), ("reduced problem for the local optimizer", G+"optimization/optimizer.py:OptimizationWithContext")],
 ["BO.suggest_next_locations(context=...)", "BO.run_optimization(context=...)"])

prop("C04", "De-duplication never proposes an already known configuration",
 "With de-duplication on, a step never suggests a configuration that was already evaluated, is declared pending or is declared ignored, and never suggests the same configuration twice in one batch; this includes configurations whose coordinates are all zero. When no fresh configuration can be found the step fails with the dedicated fully-explored error instead of repeating one, and while fresh configurations remain plentiful it does not fail.",
 ["configurations", "histories", "inputs"],
 "All finite and mixed domains, all sets of evaluated, pending and ignored points up to exhausting the domain, all evaluators that take part in de-duplication.",
 "The tests check one hand-written manager and a few fixed suggestions; they never exhaust generated domains or include zero points, categories and batches together.",
 [G+"util/duplicate_manager.py", G+"core/evaluators/base.py", G+"core/evaluators/batch_random.py", G+"core/evaluators/batch_local_penalization.py", G+"optimization/optimizer.py", G+"optimization/anchor_points_generator.py"],
 [("set of known configurations", G+"util/duplicate_manager.py"), ("fallback to the non-duplicate start point", G+"optimization/optimizer.py:apply_optimizer"), ("in-batch bookkeeping", G+"core/evaluators/base.py:compute_batch")],
 ["BO.suggest_next_locations(pending_X=, ignored_X=)", "BO.run_optimization"])

prop("C05", "Encoding into model coordinates and back is lossless",
 "For every valid configuration, translating it to the model's input coordinates and back returns the same configuration, row by row and independently of the other rows; numeric variables keep their value in one coordinate and a categorical variable becomes exactly one indicator coordinate per category, in variable order. The positions reported for each variable in either representation agree with this layout.",
 ["inputs", "configurations"],
 "All spaces (any order of types, any dimensionality, any category labels) and all sets of valid rows.",
 "Tests encode two or three hand-written rows of one space.",
 [G+"core/task/space.py", G+"core/task/variables.py"],
 [("one-hot encoding/decoding", G+"core/task/variables.py:CategoricalVariable"), ("index bookkeeping", G+"core/task/space.py:_compute_variables_indices")],
 ["Design_space.unzip_inputs / zip_inputs", "variable index_in_model / index_in_objective"])

prop("C06", "Rounding maps any model point to the nearest legal one and keeps legal ones",
 "Rounding an arbitrary point of model space yields a legal encoding: continuous values are clipped to their bounds, discrete values move to a nearest listed value, indicator groups become the category with the largest score, bandit tuples become a closest arm. Rounding a legal point leaves it unchanged, rounding twice equals rounding once, and the caller's array is not modified.",
 ["inputs", "configurations"],
 "All spaces and all finite real vectors, including points far outside the bounds, ties, unsorted and negative value lists.",
 "Tests use a few hand-written vectors.",
 [G+"core/task/space.py", G+"core/task/variables.py"],
 [("per-variable rounding", G+"core/task/variables.py:*.round"), ("slicing by model width", G+"core/task/space.py:round_optimum")],
 ["Design_space.round_optimum"])

prop("C07", "Initial designs deliver the structure they promise",
 "A random, Latin or Sobol design returns exactly the requested number of valid configurations with one column per declared dimension; a grid design returns the largest full lattice that does not exceed the requested number. A Latin design puts exactly one point in each of the n equal slices of every continuous dimension, a grid contains every combination of equally spaced values including both bounds, and the Sobol design is the scaled standard sequence. Random values reach every part of each variable's domain: bounds are not truncated and every listed value can be drawn.",
 ["inputs", "configurations"],
 "All domains, sizes and seeds for the four designs, with and without constraints for the design that supports them.",
 "Tests check array shapes and bounds for one or two spaces per design; not strata, lattice completeness, value coverage or several bandit variables.",
 [G+"experiment_design"],
 [("designs", G+"experiment_design/*.py")],
 ["GPyOpt.experiment_design.initial_design and the design classes"])

prop("C08", "Feasibility is exact and infeasible points are worth nothing",
 "A configuration is reported feasible exactly when every declared constraint expression evaluates to a value not greater than zero at that row, using the configuration's own coordinates (categories by value, not by indicator), for any number of rows. At every infeasible point the acquisition value and its gradient are zero and at every feasible point they are the same as without constraints.",
 ["inputs", "configurations"],
 "All constraint sets over spaces with and without categorical variables, all batches of points including boundary ones, and every acquisition that supports masking.",
 "Tests check one or two rows of two fixed constraint sets.",
 [G+"core/task/space.py", G+"acquisitions/base.py"],
 [("indicator", G+"core/task/space.py:indicator_constraints"), ("mask", G+"acquisitions/base.py")],
 ["Design_space.indicator_constraints", "acquisition_function", "acquisition_function_withGradients"])

prop("C09", "Acquisition values equal their closed forms per unit of cost",
 "Given the surrogate's mean m, standard deviation s and incumbent b at a point, expected improvement, probability of improvement and lower confidence bound equal their textbook formulas with the configured jitter or exploration weight, and the value handed to the (minimising) optimizer is minus that formula divided by the cost, row by row; confidence bound ignores cost. Expected improvement and probability of improvement are never negative, the latter never above one, and both stay finite for vanishing s.",
 ["inputs", "configurations"],
 "All means, deviations (including zero), incumbents, parameters, cost functions and numbers of rows; also compared with numerical integration over the Gaussian.",
 "Tests compare with stored numbers of a mock at two points.",
 [G+"acquisitions/EI.py", G+"acquisitions/MPI.py", G+"acquisitions/LCB.py", G+"acquisitions/base.py", G+"util/general.py"],
 [("formulas", G+"acquisitions/EI.py, MPI.py, LCB.py"), ("Gaussian quantities", G+"util/general.py:get_quantiles"), ("cost and mask", G+"acquisitions/base.py")],
 ["acquisition_function"])

prop("C10", "Acquisition gradients are the derivatives of acquisition values",
 "Wherever an acquisition reports a gradient, the value returned with it equals the plain value and the gradient equals the derivative of that value with respect to each input coordinate, including the contribution of a location-dependent cost; rows do not influence each other.",
 ["inputs", "configurations"],
 "All smooth surrogates (synthetic and Gaussian-process), costs, parameters and query points away from constraint boundaries, one or several rows.",
 "Tests compare with stored numbers for mocked moments with constant gradients; no test differentiates the function.",
 [G+"acquisitions", G+"util/general.py", G+"core/task/cost.py"],
 [("analytic gradients", G+"acquisitions/*.py:_compute_acq_withGradients"), ("quotient rule for cost", G+"acquisitions/base.py")],
 ["acquisition_function_withGradients"])

prop("C11", "Integrated acquisitions average over all hyper-parameter samples",
 "With a surrogate that represents hyper-parameter uncertainty by samples, each integrated acquisition equals the arithmetic mean over all samples of the corresponding single-sample acquisition, for values and for gradients, independently of the order of the samples. Such acquisitions refuse surrogates without samples.",
 ["inputs", "configurations"],
 "All numbers of samples, per-sample means, deviations, incumbents and gradients, all row counts.",
 "Tests compare with stored numbers for one mock.",
 [G+"acquisitions/EI_mcmc.py", G+"acquisitions/MPI_mcmc.py", G+"acquisitions/LCB_mcmc.py"],
 [("averaging loop", G+"acquisitions/*_mcmc.py")],
 ["acquisition_function", "acquisition_function_withGradients"])

prop("C12", "Local penalisation lowers the acquisition only around pending batch points",
 "The penalised acquisition equals the (log- or softplus-log-) transformed base acquisition plus one Gaussian log-probability penalty per pending batch point, with radius and scale given by the surrogate at that point, the Lipschitz constant and the incumbent; with no pending points it is the transformed base acquisition alone. Its reported gradient is the derivative of its value, and batches built with it contain the requested number of points and leave no penalty behind.",
 ["inputs", "configurations", "histories"],
 "All base acquisitions, transformations, numbers of pending points (1-5), dimensions, query points and constants.",
 "Tests only check one precomputed value and that the batch evaluator calls its collaborators.",
 [G+"acquisitions/LP.py", G+"core/evaluators/batch_local_penalization.py"],
 [("hammer function", G+"acquisitions/LP.py"), ("sequential construction of the batch", G+"core/evaluators/batch_local_penalization.py")],
 ["AcquisitionLP", "LocalPenalization.compute_batch"])

prop("C13", "Surrogate predictions are those of the Gaussian-process posterior",
 "After an update, the Gaussian-process surrogate's mean, standard deviation, covariance and incumbent equal the textbook posterior computed from its kernel, noise level and exactly the data given last, with or without observation noise as requested; standard deviations are positive and never below the numerical floor. Reported gradients are derivatives of the reported mean and deviation, the sampled variant does the same for every hyper-parameter sample and leaves its own state untouched by predicting, and a copy predicts the same data independently of the original.",
 ["inputs", "configurations", "histories"],
 "All data sets (including repeated updates that grow or replace data), kernels, noise levels, query rows.",
 "Tests check shapes or call counts with mocks.",
 [G+"models/gpmodel.py"],
 [("prediction wrappers", G+"models/gpmodel.py:GPModel"), ("per-sample loop with parameter restore", G+"models/gpmodel.py:GPModel_MCMC")],
 ["GPModel.predict / predict_covariance / predict_withGradients / get_fmin / copy", "GPModel_MCMC.*"])

prop("C14", "The acquisition optimizer returns a legal point, its true value, and improves",
 "Optimising an acquisition returns a legal point of model space together with the acquisition's value at exactly that point, and that value is no worse than that of a large random sample in smooth problems and exactly the minimum over small finite domains. Local optimisation never returns something worse than its start, works with or without gradients, and keeps to the bounds.",
 ["inputs", "configurations"],
 "All domains, smooth acquisition landscapes, both local optimizers available offline, with and without gradients, context and de-duplication.",
 "Tests check call arguments with mocks and one quadratic.",
 [G+"optimization/acquisition_optimizer.py", G+"optimization/optimizer.py", G+"optimization/anchor_points_generator.py"],
 [("anchor selection", G+"optimization/anchor_points_generator.py"), ("L-BFGS / CMA wrappers", G+"optimization/optimizer.py")],
 ["AcquisitionOptimizer.optimize", "OptLbfgs.optimize", "OptCma.optimize", "apply_optimizer"])

prop("C15", "The evaluation history is complete, ordered and correctly summarised",
 "After any number of optimisation calls the recorded inputs and outputs start with the initial data unchanged, contain every evaluation in the order it was requested and nothing else, and each output row is the objective's value at the same input row. The reported optimum is a recorded row with the smallest recorded output, and the best-so-far curve is the running minimum of the outputs.",
 ["histories", "configurations", "inputs"],
 "All sequences of run calls with varying budgets, batch sizes, initial data (given X, given X and Y, or a design) and objective values including ties.",
 "Tests compare final inputs of fixed runs; none relates X, Y, call log and summaries.",
 [G+"core/bo.py", G+"core/task/objective.py", G+"methods/bayesian_optimization.py", G+"util/general.py"],
 [("augment X and Y", G+"core/bo.py:run_optimization"), ("summary", G+"core/bo.py:_compute_results")],
 ["BO.X", "BO.Y", "BO.get_evaluations", "BO.x_opt", "BO.fx_opt", "BO.Y_best", "objective call log"])

prop("C16", "Runs stop exactly when their stopping rules say so",
 "A run performs exactly the requested number of steps unless the time budget is used up or the last two evaluated configurations are no further apart than the tolerance, and it stops at the first step at which one of these is true; omitting the time limit means that it does not apply, omitting the number of steps means none, and each call counts its own steps and time.",
 ["histories", "configurations", "schedules"],
 "All budgets (including zero and missing), tolerances, sequences of proposed points with repeated ones at arbitrary positions, virtual clocks with arbitrary per-step durations.",
 "Tests run to a fixed iteration budget only; time and tolerance rules are not exercised.",
 [G+"core/bo.py"],
 [("stop conditions", G+"core/bo.py:run_optimization")],
 ["number of objective calls", "BO.num_acquisitions", "BO.cum_time"])

prop("C17", "Maximising f is exactly minimising minus f",
 "With the same data, settings and random seed, maximising an objective proposes and evaluates exactly the same configurations as minimising its negative, and records the same (negated) outputs; the reported optimum is the largest value of the objective with its sign flipped.",
 ["inputs", "configurations", "histories"],
 "All objectives, domains, strategies, batch sizes and given or generated initial data.",
 "One functional test runs one maximisation and compares stored numbers.",
 [G+"methods/bayesian_optimization.py"],
 [("sign wrapper", G+"methods/bayesian_optimization.py:_sign")],
 ["BayesianOptimization(maximize=True)"])

prop("C18", "Output normalisation is a safe affine rescaling",
 "Standardising outputs yields zero mean and unit deviation (range mode: minimum -1 and maximum 1), preserves order and shape, is invariant under shifting and positive scaling of the outputs, maps constant or single outputs to zeros, and never alters the caller's data. With normalisation on, shifting or positively scaling the objective does not change what is proposed; with it off the surrogate sees the raw outputs.",
 ["inputs", "histories"],
 "All real output vectors (row or column), constants, large offsets and scales, and whole optimisation runs under affine changes of the objective.",
 "Tests check a few vectors.",
 [G+"util/general.py", G+"core/bo.py"],
 [("normalize", G+"util/general.py:normalize"), ("use in the loop", G+"core/bo.py:_update_model")],
 ["GPyOpt.util.general.normalize", "data given to the surrogate"])

prop("C19", "The surrogate is always trained on exactly the data collected so far",
 "Whenever the surrogate is updated it receives every evaluated configuration so far, encoded for the model, paired with its (normalised if requested) output, in order; it is updated before the first proposal and then every k-th step for update interval k. Proposals are made by a surrogate no older than the interval allows.",
 ["histories", "configurations"],
 "All run lengths, intervals, batch sizes, domains (with categorical variables), normalisation settings and repeated calls.",
 "One test checks call counts for one interval.",
 [G+"core/bo.py", G+"core/task/space.py"],
 [("model update", G+"core/bo.py:_update_model")],
 ["arguments of a user-supplied surrogate's update"])

prop("C20", "Parallel and sequential evaluation agree",
 "Evaluating a set of configurations returns one output per row in row order whichever number of worker processes is used, including more workers than rows, large batches and results of any size; each row is evaluated exactly once as a single-row call and one positive cost per row is reported.",
 ["inputs", "schedules", "configurations"],
 "All row counts (0-30), worker counts (1-8), output magnitudes and return shapes accepted in sequential mode.",
 "Tests compare serial and two-process runs on one batch.",
 [G+"core/task/objective.py", G+"util/general.py"],
 [("strided split and merge", G+"core/task/objective.py")],
 ["SingleObjective.evaluate", "BayesianOptimization(num_cores=)"])

prop("C21", "A failing objective never corrupts the history",
 "If the objective raises at any evaluation, in any mode, the error reaches the caller promptly instead of being swallowed or hanging, and the recorded inputs and outputs stay paired row by row and identical to what was recorded before the failing step. The run can be resumed afterwards with a working objective and behaves normally.",
 ["fault_sequences", "histories"],
 "All positions of one or several failures in runs with all batch sizes and worker counts, followed by resumption.",
 "No test injects a failing objective.",
 [G+"core/bo.py", G+"core/task/objective.py"],
 [("augment after evaluation", G+"core/bo.py"), ("worker pipes", G+"core/task/objective.py")],
 ["BO.X", "BO.Y", "raised exceptions"])

prop("C22", "Saved files reproduce the run they describe",
 "Reading back the saved evaluations gives every evaluated configuration and output at full precision, in order, numbered from one with one labelled column per dimension; the saved model parameters have one row per surrogate update of the last run in order with one labelled column per parameter. The text report names the actual number of samples, problem size, options used, best value and location.",
 ["histories", "inputs", "configurations"],
 "All domains, run lengths and objective values (very large, tiny, negative), for both user-facing optimizers.",
 "Tests compare one file of each kind with a stored copy.",
 [G+"core/bo.py"],
 [("writers", G+"core/bo.py:save_evaluations, save_models, save_report")],
 ["files written by save_evaluations / save_models / save_report / run_optimization"])

prop("C23", "Same seed, same run; other optimizers in the process do not interfere",
 "Two runs started from the same random seed with the same settings produce identical histories, and building or running other optimizers, spaces or designs in between (with the seed reset) does not change a run's result. Two optimizers advanced alternately with their own random state behave as if each ran alone.",
 ["histories", "schedules", "configurations"],
 "All settings, interleavings of construction and steps of two instances.",
 "Each test builds one optimizer.",
 [G+"core/bo.py", G+"methods", G+"core/task/space.py", G+"optimization"],
 [("per-instance state", G+"methods/bayesian_optimization.py")],
 ["BO.X", "BO.Y"])

prop("C24", "Configuration files mean defaults overridden by what the user wrote",
 "Loading a configuration yields, at every nesting level, the user's value where one is given and the documented default otherwise, without altering the defaults for later loads. Driving a run from a configuration uses the configured space, constraints, design, surrogate, acquisition and limits, calls the user's function with its arguments as declared, and stops by the configured limits.",
 ["inputs", "configurations"],
 "All nested configurations overriding arbitrary subsets of keys (including unknown keys and empty sections); all small runnable configurations.",
 "Tests do not cover the configuration interface at all.",
 [G+"interface/config_parser.py", G+"interface/driver.py", G+"interface/func_loader.py", G+"core/task/space.py"],
 [("recursive update", G+"interface/config_parser.py:update_config"), ("driver", G+"interface/driver.py")],
 ["GPyOpt.interface.parser", "BODriver.run", "load_objective"])

prop("C25", "Output savers fire at their interval and log the true incumbent",
 "A saver with interval k saves at every k-th recorded iteration and a saver with interval -1 exactly at the final one; each logged line carries the iteration, time, the best objective value among everything recorded so far and the input that attained it, after a single header line.",
 ["histories", "configurations"],
 "All sequences of recorded iterations (batches of any size), intervals, numbers of savers and objective values including ties.",
 "Tests do not cover the output engine.",
 [G+"interface/output.py"],
 [("interval clock", G+"interface/output.py:OutputEng"), ("incumbent logger", G+"interface/output.py:Logger")],
 ["files written by OutputEng"])

prop("C26", "Entropy search rests on a proper distribution of the minimum",
 "For any Gaussian belief over a finite set of points the computed probabilities of being the minimum are positive, sum to one, and ignore shifts of all means; wherever no two means are more than three standard deviations apart (so that expectation propagation is accurate) they follow the points under permutation and agree with Monte-Carlo frequencies up to the accuracy of the approximation, and the reported first and second derivatives are the derivatives of the log-probabilities. The entropy-search acquisition is the expected gain in relative entropy of that distribution under the innovations of the surrogate, evaluates rows independently, and its representer points lie in the domain and carry the log density of the proposal.",
 ["inputs"],
 "All mean vectors and positive-definite covariances of 2-8 points; all fitted surrogates with small representer sets.",
 "Tests check two stored vectors, and acquisition values of one mock.",
 [G+"util/epmgp.py", G+"acquisitions/ES.py", G+"util/mcmc_sampler.py"],
 [("expectation propagation", G+"util/epmgp.py:joint_min"), ("loss", G+"acquisitions/ES.py")],
 ["GPyOpt.util.epmgp.joint_min", "AcquisitionEntropySearch.acquisition_function"])

prop("C27", "Benchmark functions compute their published formulas",
 "Each bundled benchmark evaluates its published formula row by row, returns one value per row, attains the documented minimum value at the documented minimiser (and nothing lower inside the documented bounds), and adds independent zero-mean noise of the requested deviation only when asked.",
 ["inputs"],
 "All benchmark objects, input matrices of any row count in any accepted shape, bounds and noise levels.",
 "Tests do not check the benchmark functions.",
 [G+"objective_examples"],
 [("formulas", G+"objective_examples/experiments*.py")],
 ["<benchmark>.f", "<benchmark>.min / fmin / bounds"])

prop("C28", "Cost models reflect what was asked or measured",
 "Without a cost the cost is one everywhere with zero gradient; a user-supplied cost is used as given, values and gradient, by acquisitions that support it; the time-based cost is learned from all evaluations with their measured durations, is positive, ranks regions by their measured durations, and reports a gradient consistent with its value.",
 ["inputs", "histories", "configurations"],
 "All user cost functions; all sequences of timed evaluations under a virtual clock, including the initial design, batches and parallel evaluation.",
 "Tests check the constant cost and mocked calls.",
 [G+"core/task/cost.py", G+"core/bo.py", G+"methods/bayesian_optimization.py", G+"acquisitions/base.py"],
 [("cost model", G+"core/task/cost.py:CostModel"), ("update after evaluation", G+"core/bo.py:evaluate_objective")],
 ["CostModel.cost_withGradients / update_cost_model", "BayesianOptimization(cost_withGradients=...)"])

prop("C29", "The design space describes exactly the domain that was declared",
 "For every declared domain the space reports the declared number of dimensions, the names (numbered copies for repeated variables), types, per-dimension bounds in model coordinates, continuous and discrete dimensions, value grids and bandit arms that the declaration implies, with documented defaults for omitted keys; variables are found by name. Malformed declarations (missing domain, unknown type, uneven arms, bandits mixed with other types) are rejected.",
 ["inputs", "configurations"],
 "All declarations with any mixture of types, omitted optional keys, repeated variables and value containers.",
 "Tests check two or three declarations.",
 [G+"core/task/space.py", G+"core/task/variables.py"],
 [("translation and expansion", G+"core/task/space.py"), ("per-type descriptions", G+"core/task/variables.py")],
 ["Design_space accessors"])

prop("C30", "Options given to the main optimizer take effect",
 "Every documented option of the main optimizer reaches the component it configures: surrogate type and its parameters, noise-free mode, acquisition type with jitter or weight, acquisition optimizer, evaluator and batch size, update interval, normalisation, number of workers, design type and size, user-supplied surrogate or acquisition; unknown choices are rejected instead of being replaced silently.",
 ["configurations"],
 "All combinations of documented option values.",
 "Tests exercise a few option sets end to end without checking that each one is used.",
 [G+"methods/bayesian_optimization.py", G+"util/arguments_manager.py"],
 [("option mapping", G+"util/arguments_manager.py")],
 ["BayesianOptimization(...) and its behaviour"])

prop("C31", "The library never alters the data its caller passes in",
 "Domains, constraints, contexts, initial inputs and outputs, pending and ignored points, query points given to surrogates and acquisitions, and option values passed by the caller (other than component objects handed over for use, such as kernels and models) compare equal after any use of the library to what they were before, and later changes made by the caller to arrays obtained from the library (suggestions, evaluations, incumbent, arguments of the objective) do not alter its recorded history.",
 ["inputs", "histories"],
 "All public entry points with generated arguments.",
 "No test compares arguments before and after.",
 [G+"core/task/space.py", G+"core/bo.py", G+"methods/bayesian_optimization.py", G+"util/general.py", G+"models"],
 [("copies at the boundaries", G+"core/task/space.py, core/bo.py")],
 ["arguments of public entry points"])

prop("C32", "Driving the loop by hand equals letting the library drive it",
 "Asking for the next configurations, evaluating them outside and starting again from the extended data makes, step by step and for the same random state and surrogate behaviour, the same proposals as the closed loop. Asking for a suggestion does not change the recorded data, and asking repeatedly with the same random state returns the same suggestion.",
 ["histories", "configurations"],
 "All domains, batch strategies, numbers of steps, with and without context and de-duplication.",
 "One test checks a single external step.",
 [G+"core/bo.py"],
 [("suggestion entry point", G+"core/bo.py:suggest_next_locations"), ("closed loop", G+"core/bo.py:run_optimization")],
 ["BO.suggest_next_locations", "BO.run_optimization"])

prop("C33", "Warped and sparse surrogates are usable and honour their definition",
 "The output-warped, input-warped and sparse surrogates can be used through the main optimizer and on their own wherever the plain one can; predictions have one finite row per query with positive deviation, the incumbent is the smallest predicted mean over the data, and input warping acts on exactly the numeric coordinates and never on categorical indicators.",
 ["inputs", "configurations"],
 "All small data sets and domains (categorical before, between and after numeric variables).",
 "Tests check one input-warped space description.",
 [G+"models/warpedgpmodel.py", G+"models/input_warped_gpmodel.py", G+"models/gpmodel.py", G+"core/bo.py"],
 [("warped coordinate list", G+"models/input_warped_gpmodel.py"), ("surrogates", G+"models")],
 ["WarpedGPModel", "InputWarpedGPModel", "GPModel(sparse=True)", "BayesianOptimization(model_type=...)"])

prop("C34", "Plots depict the run and leave it unchanged",
 "plot_convergence draws the distances between consecutive configurations and the best value found after each evaluation, before as well as after a run; plot_acquisition of a problem with one or two model coordinates draws the surrogate's mean and deviation over the domain, the evaluated data, the acquisition and the suggested point, saves to the requested file or shows the figure. Neither changes the recorded data, the incumbent, the saved model parameters or the iteration count, and a run can go on afterwards.",
 ["inputs", "histories"],
 "Small problems over continuous, discrete and categorical variables with generated histories, before and after runs, with and without a file name.",
 "Tests compare no plot with the run it depicts.",
 [G+"plotting/plots_bo.py", G+"core/bo.py", G+"methods/bayesian_optimization.py"],
 [("plots", G+"plotting/plots_bo.py"), ("entry points", G+"core/bo.py")],
 ["BO.plot_acquisition", "BO.plot_convergence", "plot_convergence", "plot_acquisition"])

prop("C35", "Optimisation makes progress",
 "On smooth objectives over one or two continuous variables observed without noise, optimisation with a Gaussian process and any of the analytic acquisitions, in either direction (maximize), with or without output normalisation and in batches, typically ends close to the optimum of the objective: the median regret over independent runs is a small fraction of the objective's range.",
 ["inputs", "configurations", "histories"],
 "Random families of smooth objectives with known optimum, generated domains, offsets and scales; judged by the median regret of a group of independent runs.",
 "Tests check one fixed trajectory per configuration; a defect that keeps trajectories valid but loses the search is not visible in them.",
 [G+"core/bo.py", G+"methods/bayesian_optimization.py", G+"models/gpmodel.py", G+"acquisitions"],
 [("loop", G+"core/bo.py"), ("acquisitions", G+"acquisitions")],
 ["BayesianOptimization.run_optimization", "fx_opt", "x_opt"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
