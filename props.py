ARITH = "Float arithmetic is treated as exact real arithmetic on the double precision coefficients the code computes; counterexamples are replayed on the unmodified, compiled code before they are reported."
MODELS = "The programs quantified over are a family of model files in checks/models.py (lags, leads, moving averages, shocks and lags in the constraint, parameter functions, hybrid variables)."

prop("C01", "The system matrices are the derivatives of the model file's equations",
     "For every parameter vector, the linear system the model is compiled to contains exactly the coefficients of the equations, the constraint, the measurement equations and the shock standard deviations written in the model file. Lags and leads of any length, lagged shocks and shocks in the constraint are represented without changing the meaning of an equation.",
     ["inputs", "programs"], "all parameter values in a box, for a family of model files", "the tests parse two files and compare the result with stored pickles at one calibration",
     ["pydsge/parser.py", "pydsge/symbols.py"], [("DSGE.parse", "pydsge/parser.py"), ("DSGE.get_matrices", "pydsge/parser.py"), ("Equation", "pydsge/symbols.py")],
     "Bounded: all parameters symbolic in a box, " + MODELS + " The model text is evaluated by an independent parser.")

prop("C02", "Parameter functions are resolved in any order and always up to date",
     "Parameters that are defined as functions of other parameters take, for every parameter vector and every order in which they are written down, the value of their definition. Values from one parameter vector are never carried over to another one, also when definitions call functions from the user's functions file.",
     ["inputs", "histories", "programs"], "all parameter values, all orders of the definitions, sequences of parameter vectors", "the tests evaluate one calibration of one file",
     ["pydsge/parser.py", "pydsge/mpile.py", "pydsge/gensys.py"], [("get_matrices (parafunc, ctf_reducer)", "pydsge/parser.py"), ("get_par", "pydsge/mpile.py")],
     "Bounded: all parameters symbolic, all orders of up to four definitions, sequences of two vectors; standard functions (exp, log, normal distribution) are uninterpreted or sampled, see DESIGN.md.")

prop("C03", "Observables are the measurement equations evaluated at the state",
     "For every state, trajectory or sample of trajectories, the observables returned are the measurement equations of the model file evaluated at these states and at the current parameters, or at each sample's own parameters when those are given. Asking for observables under other parameters does not change the model's current parameters.",
     ["inputs"], "all states, all parameter values in a box, several shapes, for a family of model files", "no test evaluates observables",
     ["pydsge/tools.py", "pydsge/gensys.py", "pydsge/parser.py"], [("o_func", "pydsge/tools.py"), ("gen_sys (hx)", "pydsge/gensys.py")],
     "Bounded: states and all parameters symbolic; " + MODELS)

prop("C04", "The linear solution satisfies every equation and is stable",
     "If the constraint is ignored, then for every state and every shock the path implied by the transition satisfies every model equation and the constraint equation at every date, with expectations equal to the path's own future values. Without further shocks it returns to the steady state.",
     ["inputs", "programs"], "all states and shocks in a box, for a family of model files and two parameter points each", "no test checks that simulated paths solve the model's equations",
     ["pydsge/gensys.py", "pydsge/tools.py", "pydsge/engine.py"], [("gen_sys", "pydsge/gensys.py"), ("t_func", "pydsge/tools.py")],
     "Bounded: states and shocks symbolic, parameters at two points per model; convergence is asserted 400 periods ahead. " + ARITH)

prop("C05", "For every expected spell, the path solves the model with the bound binding",
     "For every state, every shock and every expected duration of the constraint (starting in l periods, lasting k periods), the anticipated path satisfies all model equations at every date. The constrained variable equals its bound exactly in the periods of the spell and satisfies the constraint equation in all other periods.",
     ["inputs", "programs"], "all states and shocks in a box, all durations up to a bound, for a family of model files", "the tests compare stored numbers for one model",
     ["pydsge/engine.py", "pydsge/gensys.py", "pydsge/tools.py"], [("preprocess_jittable, get_lam, get_omg", "pydsge/engine.py"), ("t_func", "pydsge/tools.py"), ("gen_sys", "pydsge/gensys.py")],
     "Bounded: durations l<=2,k<=3 (quick), l<=4,k<=8 (thorough), states and shocks symbolic. " + MODELS + " " + ARITH)

prop("C06", "The bound is never violated and expected spells are self-confirming",
     "Whenever the transition reports success, the constrained variable equals the larger of its bound and the value the constraint equation prescribes. The reported spell is confirmed by the path it implies: the constraint equation calls for a value at or below the bound when the spell starts and in its last period, and at or above the bound right before it starts and when it ends.",
     ["inputs", "programs"], "all states and shocks in a box, for a family of model files", "tests run a handful of states in one model",
     ["pydsge/engine.py", "pydsge/tools.py"], [("find_lk, bruite_wrapper, check_cnst", "pydsge/engine.py"), ("preprocess_jittable (bmat)", "pydsge/engine.py")],
     "Bounded: l_max=2, k_max=2..3 (quick), l_max=3, k_max=5 (thorough). " + MODELS + " " + ARITH)

prop("C07", "The search finds a spell whenever one exists and selects the shortest",
     "If ignoring the constraint is consistent over the search horizon, no spell is reported. Otherwise the first consistent spell, ordered by its onset and then by its length, is returned without an error flag, and an error flag is raised exactly if none is consistent up to the maximal durations.",
     ["inputs", "programs"], "all states and shocks in a box, for a family of model files", "tests never compare with the set of equilibria",
     ["pydsge/engine.py", "pydsge/tools.py"], [("find_lk, bruite_wrapper", "pydsge/engine.py")],
     "Bounded: l_max=2, k_max=2..3 (quick), l_max=3, k_max=5 (thorough); the set of consistent spells is computed independently from paths under fixed durations. " + ARITH)

prop("C08", "Options of the transition function agree with each other, without side effects",
     "The same state and shocks give the same result whether durations are found or set to the same values, whether the full state or only its predetermined part is passed, whether zero shocks are passed or omitted, and whether the full state or the observables are requested. Calling the transition changes neither its inputs nor the model.",
     ["inputs", "configurations"], "all states and shocks, all combinations of options", "tests call it with one combination of options",
     ["pydsge/tools.py", "pydsge/engine.py"], [("t_func", "pydsge/tools.py"), ("t_func_jit", "pydsge/engine.py")],
     "Bounded: states and shocks symbolic, l_max=2, k_max<=3 (quick). " + ARITH)

prop("C09", "Impulse responses are the transition applied to exactly the requested shocks",
     "Each period of an impulse response is the transition of the previous period under the shocks requested for that date and the reported durations, starting from the given state (or the steady state) and under the given parameters. Durations are the endogenous ones, a continuation of the spell expected in the period before if no shock hits, or the requested ones counting down; the model and the arguments are left unchanged.",
     ["inputs", "configurations"], "all shock sizes, initial states, lists of shocks and dates, requested durations and parameter vectors", "no test checks impulse responses period by period",
     ["pydsge/tools.py"], [("irfs", "pydsge/tools.py")],
     "Bounded: T<=5 periods, up to three shocks, enumerated list shapes and parameter vectors, symbolic sizes and states. " + ARITH)

prop("C10", "Simulations replay the given innovations under the given parameters",
     "Each simulated state is the transition of the previous state under that sample's parameters and that date's innovation, starting from the given initial state; durations and error flags are those of the transitions. Innovations are changed exactly where a mask has a number, by the given operation, and model and arguments are left unchanged.",
     ["inputs", "configurations"], "all initial states, innovations and mask values, several samples", "no test compares a simulation with the transition",
     ["pydsge/tools.py"], [("simulate", "pydsge/tools.py")],
     "Bounded: T<=3 periods, up to two samples, enumerated mask positions, symbolic values. " + ARITH)

prop("C11", "Historic decompositions add up and attribute linear effects to their shock",
     "The contributions of the shocks sum to the path the shocks imply, at every date and for every variable, also when the constraint binds. As long as it has not been binding, each contribution is the linear response to that shock alone (and an equal share of the initial state), and sorting contributions for stacked plots preserves every positive and negative contribution.",
     ["inputs", "histories"], "all initial states, innovations and contributions", "no test computes a decomposition",
     ["pydsge/stats.py", "pydsge/tools.py"], [("nhd", "pydsge/stats.py"), ("sort_nhd", "pydsge/stats.py")],
     "Bounded: T<=3 periods, up to two samples; periods in which the total contribution to the constraint is (almost) zero are excluded. " + ARITH)

prop("C12", "Variance decompositions are shares that reflect each shock alone",
     "The decomposition attributes to each shock the squared difference between the response to this shock alone and the response to no shock, summed over all draws and evaluated at each draw's state and parameters. The shares of all shocks are not negative and sum to one for each variable that responds.",
     ["inputs"], "all states, innovations and several parameter vectors", "no test computes a variance decomposition",
     ["pydsge/stats.py"], [("gfevd", "pydsge/stats.py")],
     "Bounded: up to two draws, horizons one and two. " + ARITH)

prop("C13", "Setting parameters changes exactly the requested ones and recompiles the model",
     "After any sequence of parameter operations (single parameters, full vectors, vectors of estimated parameters in the order of the prior, named sets) every parameter has the value requested last and all others are unchanged. The bound, the covariance, the measurement equations, the transition and parameter functions follow; unknown or derived parameters can not be set.",
     ["inputs", "histories"], "all parameter values, all sequences of operations", "tests set the calibration only",
     ["pydsge/mpile.py", "pydsge/gensys.py"], [("set_par, get_par", "pydsge/mpile.py"), ("gen_sys_from_yaml", "pydsge/gensys.py")],
     "Bounded: two operations in any combination (quick), three (thorough), symbolic values; matrix decompositions inside the compilation return arbitrary values.")

prop("C14", "Querying parameters returns what was asked for and leaves the model alone",
     "Each query for parameters (by name, parameter function, vector, or named set such as calibration, mode, prior mean, posterior draw) returns exactly the requested values, in the order of the parameters or of the prior, and covariances are those of the requested vector. No sequence of queries changes the parameters, the calibration, the bound or the covariance of the model.",
     ["inputs", "histories"], "all parameter values, all chains, all pairs of queries", "tests query the calibration only",
     ["pydsge/mpile.py"], [("get_par, get_cov", "pydsge/mpile.py")],
     "Bounded: two queries in any combination, chains of three steps; decompositions inside the compilation return arbitrary values, prior draws are arbitrary vectors.")

prop("C15", "The filters use the state space of the current model",
     "The transition, measurement and covariance matrices handed to the Kalman filter agree with the transition function and the measurement equations for every state and shock under the current parameters, and the initial covariance is the stationary one. The functions handed to the ensemble filter are those of the model, innovations are recovered from states, and repeated filtering gives the same setup.",
     ["inputs", "histories"], "all states, shocks, standard deviations, and histories of previous evaluations at other parameters", "the tests compare one stored likelihood",
     ["pydsge/filtering.py"], [("create_filter, run_filter, get_eps", "pydsge/filtering.py")],
     "Bounded: enumerated models and parameter points, symbolic standard deviations, data of two periods; the filter recursions (package econsieve) are not executed. " + ARITH)

prop("C16", "The sampled density is prior plus tempered likelihood of the proposed parameters",
     "For every proposal the sampled density equals the log prior plus the temperature times the log likelihood, evaluated at exactly the proposed (transformed) parameters, with other parameters unchanged. It is minus infinity if the prior is or if an evaluation fails, does not depend on previous evaluations, and leaves the state of the random number generator as it was.",
     ["inputs", "histories", "fault_sequences"], "all proposals, temperatures, prior and likelihood functions, failures of evaluations, histories of proposals", "the test evaluates few proposals",
     ["pydsge/estimation.py", "pydsge/filtering.py"], [("prep_estim, lprob, llike", "pydsge/estimation.py"), ("get_ll", "pydsge/filtering.py")],
     "Bounded: sequences of three evaluations; filter and prior densities are stand-ins returning symbolic functions of what they are given.")

prop("C17", "Sampling uses the requested density, keeps what was stored, and records the mode",
     "A run samples the posterior density at the requested temperature, from the requested initial walkers, and continues a stored chain exactly if asked to. The recorded mode is the retained draw with the highest density, in terms of the parameters.",
     ["inputs", "configurations", "histories"], "all chains and densities, all combinations of options", "the test runs one short chain",
     ["pydsge/mcmc.py"], [("mcmc", "pydsge/mcmc.py")],
     "Bounded: chains of three steps of two walkers; samplers and backends are stand-ins that record their arguments.")

prop("C18", "Reports about the posterior use exactly the retained part of the chain",
     "Posterior means, draws, summaries, the marginal data density, plots and exports use the draws after the tuning period and no others, in the order of the estimated parameters and transformed to the space of the parameters exactly once. The chain is not modified.",
     ["inputs", "configurations"], "all chains, densities and lengths of the tuning period", "the tests use no chain",
     ["pydsge/clsmethods.py", "pydsge/mpile.py", "pydsge/tools.py", "pydsge/stats.py", "pydsge/estimation.py"], [("get_chain, get_log_prob, get_sample, mcmc_summary", "pydsge/clsmethods.py"), ("posterior_sampler", "pydsge/mpile.py"), ("post_mean, mdd", "pydsge/stats.py")],
     "Bounded: chains of four steps of two walkers; tables, plots and density estimators are stand-ins that record their arguments.")

prop("C19", "Extracted shocks reproduce the data from which they were extracted",
     "Starting from the extracted initial state and feeding the extracted innovations into the transition under the sample's parameters gives back the smoothed states, and exactly the data if there are no measurement errors. Each parameter vector gets its own result; with the ensemble filter the path adjustment is given matching members, observables and transition, and failures are retried and reported.",
     ["inputs", "configurations", "fault_sequences"], "all data, several parameter vectors, failures of the path adjustment", "the tests compare one stored extraction",
     ["pydsge/filtering.py", "pydsge/mpile.py"], [("extract, run_filter, get_eps_lin", "pydsge/filtering.py")],
     "Bounded: data of three to four periods (quick), eight (thorough); the Kalman filter and smoother of the dependency are executed symbolically as well, the ensemble filter and the optimiser are stand-ins. " + ARITH)

prop("C20", "Results are loaded from where they were saved",
     "For every name and suffix, results are found again under the name and suffix under which they were saved, with or without the extension, relative to the directory of the model, with all keys and values. Results saved under one name never replace those saved under another.",
     ["inputs", "histories"], "all names, suffixes and values; pairs of saves", "tests save nothing",
     ["pydsge/clsmethods.py"], [("save_rdict, load_rdict", "pydsge/clsmethods.py")],
     "Bounded: names and suffixes of up to 5 (6) characters over a small alphabet; numpy's reader and writer are stand-ins.")

prop("C21", "A model is that of the current text or dictionary, whatever was read before",
     "Reading a model file returns the model of the current text and functions file, in its own directory, whatever was read before and whatever was done to models returned earlier. Processing a dictionary of system matrices returns a system that solves exactly these equations, with this bound and these measurement equations, whatever was processed before.",
     ["histories", "inputs"], "all texts and histories of reads; all bounds and constants, histories of dictionaries", "tests read each file once",
     ["pydsge/parser.py", "pydsge/gensys.py"], [("DSGE.read, crawl_cached_models", "pydsge/parser.py"), ("gen_sys_from_dict", "pydsge/gensys.py")],
     "Bounded: histories of three reads (four in thorough), two dictionaries (three in thorough); parsing is a stand-in that keeps its text.")

prop("C22", "Parameters outside of their bounds are reported, and only those",
     "The check of bounds reports a parameter as too low (high) exactly if it is below its lower (above its upper) bound, under its name. This holds for vectors of estimated parameters, for full vectors and for the current parameters, which are left unchanged.",
     ["inputs"], "all parameter values and bounds", "no test checks bounds",
     ["pydsge/mpile.py"], [("box_check", "pydsge/mpile.py")],
     "Bounded: two (three) parameters at a time are symbolic.")

prop("C23", "Expected trajectories are those of the transition under the current parameters",
     "The expected trajectory of a state is the value of the constraint equation along the path of the transition, for the given durations or else the endogenous ones, at every date. The map of candidate spells gives its distance to the bound at the end of each of them; both refer to the current parameters and limits.",
     ["inputs", "histories", "programs"], "all states and shocks, all durations up to the limits, after changes of parameters", "no test calls these",
     ["pydsge/tools.py", "pydsge/engine.py"], [("traj, k_map", "pydsge/tools.py"), ("preprocess_tmats", "pydsge/engine.py")],
     "Bounded: l<=2, k<=2 (quick), l<=3, k<=5 (thorough). " + MODELS + " " + ARITH)

prop("C24", "Names address the variables, observables and shocks they belong to",
     "The elements addressed by the names of variables and observables satisfy the equations the model file states for these names, in the order of the names; unknown names are refused, or left out if asked for. A named shock enters as an innovation to that shock only, and a mask built from the data addresses each shock by name and period and specifies nothing else.",
     ["inputs", "programs"], "all states and sizes, all names, for a family of model files", "tests use positions of one model",
     ["pydsge/clsmethods.py", "pydsge/tools.py"], [("vix, oix", "pydsge/clsmethods.py"), ("shock2state, mask", "pydsge/tools.py")],
     "Bounded: symbolic states and sizes, enumerated names. " + ARITH)

prop("C25", "Intervals and measurement errors follow from covariances and data",
     "Intervals of observables and states are centred at the measurement of the mean (the mean) and extend 1.96 standard deviations, as implied by the covariance of the states and the measurement equations, to both sides at every date. The covariance of measurement errors has the requested share of each series' variance on its diagonal and is zero elsewhere.",
     ["inputs"], "all means, covariances, data and scales", "no test computes intervals",
     ["pydsge/tools.py", "pydsge/filtering.py"], [("o_func", "pydsge/tools.py"), ("create_obs_cov", "pydsge/filtering.py")],
     "Bounded: two dates; covariances are non-negative combinations of fixed directions with three symbolic weights per date. " + ARITH)

prop("C26", "Results do not depend on how samples are distributed over workers",
     "Impulse responses, simulations and extracted shocks of several samples are the same whether the samples are evaluated serially or by worker processes, for every distribution of the samples over the workers and every order of evaluation: each result is that of the sample's own parameters, state and shocks, in the order of the samples, under the parameters and data at the time of the call, also if the pool was used before. Models that were set up for serial evaluation are evaluated serially.",
     ["schedules", "inputs", "histories"], "all assignments of samples to workers and all orders of evaluation, all states and shocks, previous uses of the pool", "tests run one schedule",
     ["pydsge/estimation.py", "pydsge/tools.py", "pydsge/filtering.py"], [("create_pool, mapper", "pydsge/estimation.py"), ("irfs, simulate", "pydsge/tools.py"), ("extract", "pydsge/filtering.py")],
     "Bounded: three samples, two workers; the pools of the dependency pathos are stand-ins with private memory per worker and a symbolic schedule. " + ARITH)

prop("C27", "Data are selected by label and validated",
     "Loading data keeps exactly the values of the declared observables, in the order in which they are declared and irrespective of the order of the columns or additional columns, over exactly the requested range of labels (including both ends; everything if none is requested). The same values are returned, given to the filter, and stored for saving. Missing series and missing values within the range are refused.",
     ["inputs", "configurations"], "all values and positions of missing values, orders of columns, kinds of indices and ranges", "tests load one file",
     ["pydsge/clsmethods.py"], [("load_data", "pydsge/clsmethods.py")],
     "Bounded: frames of four periods (thorough: six); values are symbolic, labels are concrete and enumerated because pandas' label index is compiled code.")

prop("C28", "A saved session is restored as it was",
     "A model loaded from the file to which it was saved has the texts, names, data, modes, settings of the filter and the estimation, and measurement errors of the saved one, whichever of them were set and whatever was saved or loaded before, and gives the same transition for every state and shock. Files saved earlier are not affected by later ones. (Parameters set by hand after reading the model file are not part of a session.)",
     ["histories", "inputs"], "all data, modes and errors, all combinations of what a session contains, histories of saving, loading and saving again", "tests load one stored file",
     ["pydsge/parser.py", "pydsge/clsmethods.py", "pydsge/mcmc.py"], [("DSGE.load", "pydsge/parser.py"), ("save_meta", "pydsge/clsmethods.py"), ("mcmc", "pydsge/mcmc.py")],
     "Bounded: two generations of files; numpy's archives and the pickler are stand-ins with their documented conversions. " + ARITH)

prop("C29", "Estimations are set up as requested",
     "Setting up an estimation uses the requested size of the ensemble, filter, seed and transformation of the prior, else those stored in the session, else the defaults, and stores what it used. The model is compiled at the prior mean with the requested maximal durations, keeping the calibration of all other parameters; the filter gets the covariance of the shocks at these parameters and the stored measurement errors, whose absence is reported if they are requested. A dry run refuses setups without likelihood.",
     ["configurations", "inputs", "histories"], "all combinations of requested and stored settings, all prior means and measurement errors", "the test uses one setup",
     ["pydsge/estimation.py"], [("prep_estim", "pydsge/estimation.py")],
     "Bounded: two values per setting; prior densities, the filter recursion and pools are stand-ins. " + ARITH)

prop("C30", "Samples from the prior are valid draws of the declared distributions",
     "A sample from the prior has the requested number of vectors, each with one draw of every declared distribution in the order of the estimated parameters. Each vector is the first attempt for which the model has a solution (has a finite likelihood, if this is requested), judged at exactly these parameter values with the current values of all parameters that are not estimated (their calibrated values if asked for through get_par, which keeps the current parameters); nothing is dropped otherwise. Samples depend on the seed only, neither on workers nor on whether the estimation has been set up, and attempts beyond the permitted number are reported.",
     ["inputs", "schedules", "fault_sequences"], "all draws, all sets of valid parameters below a threshold, sequences of failures, schedules of workers", "tests do not draw",
     ["pydsge/mpile.py"], [("prior_sampler, get_par, set_par", "pydsge/mpile.py")],
     "Bounded: two samples, two to four attempts; distributions, the compilation and the posterior density are stand-ins. " + ARITH)
