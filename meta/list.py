p("C01", "A trial is evaluated by at most one worker",
  "When several workers share an optimization directory, no trial is ever evaluated by two of them, whatever the timing. "
  "A worker that loses the race for a trial carries on with another one instead of failing.",
  ["schedules"], "every interleaving of the storage operations of the workers that list, claim and evaluate pending trials",
  "Tests run workers one after the other or in a handful of accidental interleavings; the losing interleaving needs a claim between two specific reads.",
  ["neps/runtime.py", "neps/state/neps_state.py", "neps/state/protocols.py", "neps/state/filebased.py"],
  "versioned put under a file lock when a trial is set to evaluating; state re-checked after sync", CONC)
p("C02", "Concurrent start and sampling: distinct ids, nothing lost, nobody fails",
  "Any number of workers may start on the same new directory and ask for configurations at the same time: every sampled configuration is stored under its own id and stays readable, "
  "and each worker starts, samples, evaluates and reports without an error caused by the others and without deadlock.",
  ["schedules"], "every interleaving of two workers starting, sampling, claiming and reporting",
  "The interleavings are decided by the operating system; a test samples a few of them.",
  ["neps/state/filebased.py", "neps/state/neps_state.py", "neps/state/protocols.py", "neps/runtime.py"],
  "locks around optimizer state and seed state while sampling; create-or-load of every shared resource", CONC)
p("C03", "Reports and errors of different workers are never lost or overwritten",
  "Whatever the interleaving of workers, every reported result is stored with the values and worker it came from, the used cost is the sum of all reported costs, and every reported error is kept. "
  "A change based on an outdated copy of a trial is rejected and leaves the stored trial as it was.",
  ["schedules"], "every interleaving of two workers that report results, errors, or change the same trial",
  "A lost update needs a read and a write of the two workers in one particular order.",
  ["neps/state/protocols.py", "neps/state/neps_state.py", "neps/state/filebased.py"],
  "compare version, write data, bump version inside one lock; acquire() around read-modify-write", CONC)
p("C04", "A worker killed at any moment does not harm the others",
  "If a worker process is killed at any moment, other workers, running or started later, keep working on the same directory and every result that had been reported stays readable and unchanged. "
  "A finished trial always has its report.",
  ["crash_points", "schedules"], "every storage operation at which a worker can be killed, combined with every interleaving with a second worker",
  "Tests never kill a worker in the middle of a storage operation.",
  ["neps/state/filebased.py", "neps/utils/files.py", "neps/state/protocols.py", "neps/runtime.py"],
  "replace-when-written files, version file written last, report before state, locks that die with the process", CONC)
p("C05", "The proposal sequence does not depend on which worker samples",
  "Starting from the same stored random state, the sequence of sampled configurations is the same as if one worker had asked for all of them alone: which worker asks, when, and what it does with the global random generators in between makes no difference, and a restarted worker continues the sequence.",
  ["schedules", "histories"], "every interleaving of two sampling workers, and every split of a sequence over process restarts",
  "Tests compare runs of one process only.",
  ["neps/state/neps_state.py", "neps/state/seed_snapshot.py", "neps/state/filebased.py"],
  "random state loaded before and recaptured after every ask, under the lock", CONC)
p("C06", "A worker stops exactly when one of its limits is reached",
  "A worker never starts an evaluation once a configured limit (number of evaluations, cost, evaluation time, wall clock; in total or for this worker) is reached, and does not stop while none is. "
  "Evaluations in progress count towards the total unless continue_until_max_evaluation_completed asks otherwise, and limits count what earlier and other workers did exactly where they are totals.",
  ["configurations", "histories"], "every value of every limit, any existing trials with any costs and durations, any cost and duration of the following evaluations",
  "The boundary cases (cost exactly at the limit, missing costs, trials in progress, zero limits) are too many to sample.",
  ["neps/runtime.py", "neps/state/settings.py", "neps/state/neps_state.py"], "should_stop checks against stored trials and the worker's own counters")
p("C07", "A failed evaluation acts as the error policy says",
  "An evaluation that raises is recorded as an error of that trial, with the error kept. With errors ignored (ignore_errors, or both values on error given) the worker continues; otherwise it stops with the error, "
  "and other workers stop too when any error is to be raised or stopped on. Interrupting an evaluation does not disturb later runs.",
  ["fault_sequences", "configurations"], "every error policy, every pattern of failing evaluations of this worker and another one, any kind of exception",
  "Tests cover one failing evaluation per policy, with one type of exception.",
  ["neps/runtime.py", "neps/state/_eval.py", "neps/state/err_dump.py", "neps/state/trial.py"], "OnErrorPossibilities handling around evaluate_trial and the stored errors")
p("C08", "What an evaluation returns is what is recorded",
  "Loss, cost, learning curve and all further results returned by the evaluation function are recorded unchanged for the trial that was evaluated, with its configuration, worker and times; configured default values apply only where the user gave none, or on error. "
  "An unusable result is recorded as an error and never as a success.",
  ["inputs"], "every shape of returned result and any numbers in it, every combination of configured default values",
  "Result shapes and defaults combine into hundreds of cases; a test fixes a few.",
  ["neps/state/_eval.py", "neps/state/trial.py", "neps/state/settings.py", "neps/runtime.py"], "parse_user_result, Trial.set_complete, report_trial_evaluation")
p("C09", "Everything written to the directory reads back the same",
  "A trial, report, error, random state, optimizer description or budget that is written to the optimization directory is read back equal by any process: same values and types of config and results, same metadata, state and order. "
  "A process sees every change another process has made when it looks again.",
  ["inputs", "histories"], "any numbers, awkward strings and floats, any presence of optional data, any order of writes and looks by two processes",
  "YAML has many values that change on a round trip; which of them occur depends on the user's space and results.",
  ["neps/state/filebased.py", "neps/utils/files.py", "neps/state/trial.py", "neps/state/protocols.py", "neps/state/neps_state.py"],
  "serialize/deserialize to YAML and JSON, version comparison in Synced")
p("C10", "Continuing or joining a run keeps what is there and its limits",
  "Calling run again on an existing directory keeps all its trials and results and continues up to the total limits; overwriting starts from nothing. "
  "A run described by a different optimizer or different arguments is refused without changing anything, the same description is always accepted.",
  ["histories", "configurations"], "every sequence of up to three launches with any limits, any optimizer arguments on either side",
  "Tests continue a run once, with one set of arguments.",
  ["neps/runtime.py", "neps/state/filebased.py", "neps/state/optimizer.py"], "create_or_load_filebased_neps_state, _launch_runtime")
p("C11", "Parameter values stay legal",
  "Whatever is done to a parameter of the search space - sampling with or without the prior, mutating, crossing over, cloning, loading or setting values and defaults - its value is one of the declared type inside the declared bounds or choices. "
  "An illegal value, default or description is refused and leaves the parameter as it was; a legal one is taken over exactly; a clone equals its original and is independent of it; normalising and denormalising gives the value back.",
  ["inputs", "histories"], "all bounds, defaults, values and random draws; every operation on float, integer, categorical and constant parameters",
  "Off-by-one and rounding errors at the bounds occur for few of the possible bounds and draws.",
  ["neps/search_spaces/hyperparameters/float.py", "neps/search_spaces/hyperparameters/integer.py", "neps/search_spaces/hyperparameters/categorical.py",
   "neps/search_spaces/hyperparameters/constant.py", "neps/search_spaces/hyperparameters/numerical.py", "neps/search_spaces/parameter.py"],
  "set_value/set_default/sample/mutate/crossover/clone of each parameter class")
p("C12", "Translating a value between domains lands on the matching value",
  "Casting values from one domain to another keeps their relative place (on the log scale for log domains): bounds go to bounds, order is kept, results lie in the target domain and on its integers or bins. "
  "Casting a value of a domain to the unit interval and back, or to an equal domain, gives the value back; single values and tensors, in any shape, are cast alike.",
  ["inputs"], "all bounds, all values in the domain, every pair of kinds of domain (float, integer, log, binned, indices, unit)",
  "Casting has shortcuts for particular pairs of domains; a test tries a few pairs with round numbers.",
  ["neps/search_spaces/domain.py"], "Domain.cast, from_unit, to_unit, cast_one, translate")
p("C13", "Encoding configurations for a model and decoding gives them back",
  "For every search space, a configuration encoded for a model and decoded again is the same configuration - every value with its type, every choice, constants included - and encoded values lie in the domain the encoder declares for the column. "
  "Each column belongs to one parameter, independent of the order in which parameters or values are given; each distinct configuration has its own encoding.",
  ["inputs"], "all bounds and values of float, integer, log and categorical parameters, several rows, any order of keys, choices of any type",
  "Column mix-ups and rounding show only for particular orders, choices and values.",
  ["neps/search_spaces/encoding.py", "neps/search_spaces/domain.py"], "ConfigEncoder.encode/decode/default and the transformers")
p("C17", "Samples and priors follow the space and its defaults",
  "Samples of every sampler and prior lie in the domains asked for and are the draws translated there, in the asked shape and type. A prior is centred at the default of its own parameter with the given confidence and its log probability is the sum over the parameters; "
  "the initial design has the asked number of distinct legal configurations, the default first when asked, all at the asked fidelity. The weight of the prior in piBO is its probability to a power in (0,1] that fades.",
  ["inputs"], "all bounds, defaults, draws and densities; every kind of parameter in every order",
  "Randomised samplers hide systematic errors such as a swapped column or a lost order from tests that look at a few samples.",
  ["neps/sampling/samplers.py", "neps/sampling/priors.py", "neps/sampling/distributions.py", "neps/optimizers/initial_design.py",
   "neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py"], "Sampler.sample, Prior.from_parameters, CenteredPrior.log_prob, make_initial_design")
p("C20", "Successive halving and Hyperband promote only the best",
  "Successive halving, ASHA and (asynchronous) Hyperband promote a configuration only from a rung where it has been evaluated, only if its loss is among the best of that rung, once per rung, unchanged and by exactly one rung, naming the evaluation it continues; failed evaluations count as the worst. "
  "The synchronous methods promote from a rung only when the bracket has filled it. Otherwise a new legal configuration is started under a fresh id at the fidelity of the rung that is next in the schedule of brackets; a pending evaluation is never proposed again.",
  ["histories", "configurations"], "every history of up to a dozen configurations in any state of evaluation, any losses, failures and order of reports, for eta 2 and 3 and several early stopping rates",
  "Which configuration is promoted depends on the whole history, including ties, failures and what is still running; tests replay one or two histories.",
  ["neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/multi_fidelity/hyperband.py", "neps/optimizers/multi_fidelity/promotion_policy.py", "neps/optimizers/multi_fidelity/utils.py"],
  "SuccessiveHalvingBase/HyperbandBase ask, _handle_promotions, PromotionPolicy.retrieve_promotions")
p("C21", "PriorBand samples around the prior and the incumbent as the evidence grows",
  "PriorBand and its asynchronous variants start from the prior's default and promote like Hyperband. A new configuration is drawn at random, from the prior or around the incumbent with probabilities that sum to one; the incumbent is the configuration with the lowest loss seen, "
  "is used only once a rung has seen enough configurations, and its share against the prior follows how likely the best configurations are under either, while the random share shrinks with the fidelity of the rung. "
  "Whatever is drawn is legal, and neither the incumbent nor the search space is changed by drawing.",
  ["histories", "inputs"], "every state of up to three brackets with any losses, likelihoods and draws",
  "The weights depend on the whole history of losses and on densities; no test looks at them.",
  ["neps/optimizers/multi_fidelity_prior/priorband.py", "neps/optimizers/multi_fidelity_prior/async_priorband.py", "neps/optimizers/multi_fidelity/sampling_policy.py", "neps/optimizers/multi_fidelity_prior/utils.py"],
  "PriorBandBase.find_incumbent/calc_sampling_args/prior_to_incumbent_ratio, EnsemblePolicy.sample")
p("C22", "ifBO starts and continues configurations step by step as its model says",
  "ifBO first proposes its initial design at the lowest fidelity. Afterwards its model is given every evaluation (its configuration, its fidelity, and 1 - loss as score; failures as the worst score, pending ones as the model's own expectation), and the proposal is the best scored among all configurations that can be continued and the new candidates. "
  "A continued configuration stays the same and goes exactly one step further than its furthest evaluation, naming that evaluation; never one that is still running or already at the highest fidelity. A new one starts at the lowest fidelity. Ids are fresh. The fidelity range is cut at its lower end, by less than a step, to a whole number of steps.",
  ["histories", "inputs"], "every history of two configurations with any state, losses, fantasies and scores; any fidelity range and step size of up to four steps",
  "Which step is proposed depends on the state of all configurations and on a model that tests cannot download.",
  ["neps/optimizers/multi_fidelity/ifbo.py", "neps/optimizers/bayesian_optimization/models/ftpfn.py", "neps/optimizers/initial_design.py"],
  "IFBO.ask, encode_ftpfn, acquire_next_from_ftpfn, decode_ftpfn_data, _adjust_pipeline_space_to_match_stepsize")
p("C14", "Configurations are what they were set to, wherever they go",
  "Loading, sampling, mutating, crossing and cloning a search space's configuration never changes the space it came from or the other configurations, and every result holds one legal value for each parameter: loaded values stay as given, constants stay constant, sampled fidelities are the maximum when asked for, a child of a crossover takes each parameter from its parents, mutation changes values only within their range. "
  "Two configurations are equal exactly when no value differs; a space knows its parameters by kind, accepts one fidelity, which is no prior, and the density of a configuration is the product over the parameters with a default.",
  ["inputs"], "any values, bounds, defaults and random draws, spaces with every kind of parameter",
  "Spaces are copied and mutated all over the optimizers; a shared or stale value shows only later, for particular values.",
  ["neps/search_spaces/search_space.py", "neps/search_spaces/hyperparameters/numerical.py", "neps/search_spaces/hyperparameters/categorical.py"],
  "SearchSpace.from_dict/sample/mutate/crossover/clone/set_hyperparameters_from_dict/is_equal_value/compute_prior")
p("C15", "A described search space is the one that is searched",
  "A search space given as a dictionary, a YAML file or a ConfigSpace object has exactly the described parameters: kind (also inferred from the values, also in scientific notation), bounds, log scale, fidelity, default and confidence; anything that misses a bound, mixes up kinds or uses unknown keys is refused rather than searched differently. Parsing does not depend on the order of the keys.",
  ["configurations", "inputs"], "any bounds and defaults, written in every supported form, with any combination of keys",
  "Tests parse a few files; the kind inferred depends on the numbers and on how they are written.",
  ["neps/search_spaces/yaml_search_space_utils.py", "neps/search_spaces/search_space.py"],
  "pipeline_space_from_yaml, pipeline_space_from_configspace, deduce_type, SearchSpaceFrom*")
p("C16", "Grid search covers the whole grid once",
  "The grid of a search space is the full product of its parameters' values: every choice of a categorical, the constants, the given number of evenly spread points of a numerical parameter with both its bounds (evenly on the log scale if it is logarithmic, distinct whole numbers for integers), a fidelity only at its maximum. "
  "Grid search proposes each point exactly once, however often it is restarted, and then says that the grid is exhausted.",
  ["inputs", "histories"], "spaces of up to three parameters with any bounds, grids of up to four points per dimension",
  "Rounding and duplicates depend on the bounds; tests count the points of one grid.",
  ["neps/optimizers/grid_search/optimizer.py", "neps/search_spaces/search_space.py"],
  "GridSearch.ask, SearchSpace.get_search_space_grid")
p("C23", "Bayesian optimization models everything evaluated and proposes its optimum",
  "Bayesian optimization first proposes its initial design (the default first if asked for, then quasi-random points or draws of the prior), and goes on so while nothing has been learned. Then its surrogate is fitted to every finished evaluation: configuration and loss, failures as the median loss; the acquisition minimises, knows what is pending, is weighted by prior^exponent that fades with the number of evaluations, "
  "and by predicted cost^-(unused share of the budget) with a cost model fitted to the reported costs. It is maximised over the whole encoded space, every choice of the categoricals, and the proposal is that optimum decoded: a legal configuration under a fresh id.",
  ["histories", "inputs"], "every history of up to three evaluations in any state with any configurations, losses and costs, any budget, any optimum; any acquisition values, densities and predicted costs",
  "A swapped column, a lost evaluation or a wrong sign only makes the search worse, which no test notices.",
  ["neps/optimizers/bayesian_optimization/optimizer.py", "neps/optimizers/bayesian_optimization/models/gp.py", "neps/optimizers/initial_design.py",
   "neps/optimizers/bayesian_optimization/acquisition_functions/pibo.py", "neps/optimizers/bayesian_optimization/acquisition_functions/cost_cooling.py",
   "neps/optimizers/bayesian_optimization/acquisition_functions/weighted_acquisition.py"],
  "BayesianOptimization.ask, encode_trials_for_gp, fit_and_acquire_from_gp, optimize_acq, WeightedAcquisition.forward")
p("C18", "Random search proposes anything legal, and only that",
  "Every proposal of random search is a complete, legal configuration under an id no evaluation of the history has, whatever state those evaluations are in, at the maximum fidelity unless told otherwise, drawn from the prior only if asked for. Every part of a parameter's range and every choice can be drawn. "
  "Asking changes neither the history nor the search space.",
  ["histories", "inputs"], "every history of up to two evaluations in any state, any bounds, defaults and draws, spaces with every kind of parameter",
  "Tests look at a few draws.",
  ["neps/optimizers/random_search/optimizer.py", "neps/search_spaces/search_space.py"], "RandomSearch.ask")
p("C19", "Rungs and brackets follow the fidelity range and eta",
  "Successive halving has as many rungs as divisions of the maximum fidelity by eta stay at or above the minimum: the topmost rung is the maximum, each lower one the one above divided by eta, rounded for integers, never below the minimum; a rung below holds eta times the configurations of the one above, and the early stopping rate cuts the lowest rungs. "
  "Hyperband has one bracket per early stopping rate with the rungs and sizes of successive halving at that rate. A minimum fidelity of zero or less or an eta of at most one is refused.",
  ["configurations"], "any bounds with up to three rungs (thorough: four), eta 2 to 4, every early stopping rate, every searcher of the family",
  "The number of rungs is a logarithm of the ratio of the bounds, which rounding breaks for particular bounds only.",
  ["neps/optimizers/multi_fidelity/successive_halving.py", "neps/optimizers/multi_fidelity/hyperband.py"], "SuccessiveHalvingBase._get_rung_map, _get_config_map, HyperbandBase.__init__")
p("C24", "The run that starts is the one described",
  "Each setting of neps.run is the argument if given (also if given as None), otherwise what the run_args file says at any level of its nesting, otherwise its documented default, and reaches the runtime and the searcher unchanged. A run without a budget, function, directory or space is refused before anything starts. "
  "The searcher is the one named, or the documented choice for the kind of space, with its arguments merged in the same order; task and development ids choose the directory; overwriting and the summary happen exactly when asked for.",
  ["configurations"], "every setting from the arguments, the file, both or neither with any values; every shipped searcher and kind of space",
  "There are far too many combinations of sources; tests try a few files.",
  ["neps/api.py", "neps/utils/run_args.py", "neps/utils/common.py"], "neps.run, Settings.merge/process_args, _run_args, get_searcher_data")
p("C25", "Status and summary files report the run as it is",
  "The status of a run counts its evaluations by state, names the best loss among the successful ones and its configuration, and holds every evaluation as it was reported. The CSV summary has one row per configuration with all its values, results and costs, best first. "
  "Summaries written by several workers in any order leave the newest one in both files.",
  ["histories", "schedules"], "every history of up to three evaluations in any states with any losses, costs and results; any order of saving",
  "Wrong columns and counts show only for particular mixtures of states.",
  ["neps/status/status.py", "neps/state/trial.py"], "get_summary_dict, status, post_run_csv, _get_dataframes_from_summary, _save_data_to_csv")
p("C26", "An evaluation finds the directories and checkpoints it continues from",
  "During an evaluation the current directory is that of its own configuration, the previous one that of the configuration it continues, and the initial one the first of that chain, for every chain, every kind of id and also when a process runs several optimizations. "
  "A checkpoint that is loaded is the one saved by the evaluation it continues, with everything that was saved; if none was, nothing is loaded.",
  ["histories"], "every chain of up to four (thorough: five) evaluations, two runs per process",
  "Tests continue a configuration once.",
  ["neps/utils/common.py", "neps/runtime.py", "neps/state/neps_state.py"], "get_initial_directory, load_checkpoint, save_checkpoint, load_lightning_checkpoint")
p("C27", "The command line and the incumbent trace show what is recorded",
  "neps status, results, info-config and errors print for each trial its own state, times, loss, configuration and error, the counts of each state, the best evaluation and the history of incumbents, and work for trials in any state. "
  "The incumbent trace of the plots is the best loss so far after every evaluation, at the cost of that evaluation, which for a continued one is what it cost beyond the one it continues.",
  ["histories"], "every history of up to three trials in any state with any times, losses and costs",
  "Printed output is not tested, and fails for states tests do not contain.",
  ["neps/utils/cli.py", "neps/plot/read_results.py"], "status, results, info_config, errors, process_seed")
p("C28", "Tensorboard logs belong to the configuration that wrote them",
  "What an evaluation logs is written once per value, under the directory of the first configuration of its chain and the step given, under one tag per value, with its own configuration; the incumbent is the lowest loss recorded; of images, those chosen, each once and in order. Nothing is written while logging is disabled, and a second run of the process writes into its own directory.",
  ["histories"], "every chain of three evaluations with any values, disabled or not, two runs per process, up to five images",
  "The tests write one log.",
  ["neps/plot/tensorboard_eval.py"], "tblogger.log, ConfigWriter, get_initial_directory")
