"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
import os

KERN = "ext/_hmmc.cpp"
BASE = "src/hmmlearn/base.py"
HMM = "src/hmmlearn/hmm.py"
EM = "src/hmmlearn/_emissions.py"
VH = "src/hmmlearn/vhmm.py"
KL = "src/hmmlearn/_kl_divergence.py"
UT = "src/hmmlearn/_utils.py"
U = "src/hmmlearn/utils.py"
ST = "src/hmmlearn/stats.py"

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe,
         state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": quant},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [
            {"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


prop("C01", "score is the exact log-likelihood of the data",
     "For every valid model of every emission family and every data set, score(X, lengths) and the first result of score_samples equal the logarithm of the sum, over all hidden state paths, of the joint probability of path and observations, summed over the sequences; data that no path can produce score minus infinity with the 'log' implementation. The value does not depend on array layout or on what the model object was used for before.",
     ["inputs", "configurations", "histories"],
     "all model parameters (incl. zero probabilities, left-right, periodic, absorbing chains), emission families, covariance types, numbers of states, sequence lengths and partitions, array layouts, and object histories",
     "The tests compare a few fixed two-state models; the sum is over exponentially many paths for every parameter choice, so no sample of them settles it.",
     [KERN, BASE, EM, ST],
     [("forward recursion in the log domain", KERN + ":forward_log"),
      ("scaled forward recursion", KERN + ":forward_scaling"),
      ("per sequence accumulation", BASE + ":_score_log/_score_scaling")],
     ["score", "score_samples"])

prop("C02", "State posteriors are the exact smoothing marginals",
     "For every valid model and every data set that has positive probability, score_samples and predict_proba return for each sample and state the exact posterior probability that the chain was in that state given the whole sequence the sample belongs to; every row is a probability distribution. The rows follow the order of the samples, for both implementations.",
     ["inputs", "configurations", "histories"],
     "all models, families, sequence partitions and object histories with possible data",
     "Tests check a handful of fixed models, mostly that rows sum to one; a wrong backward pass still yields normalised rows.",
     [KERN, BASE, U],
     [("backward recursion", KERN + ":backward_log/backward_scaling"),
      ("combination and row normalisation", BASE + ":_compute_posteriors_*")],
     ["score_samples", "predict_proba"])

prop("C03", "Viterbi decoding returns an optimal path and its joint log-prob",
     "For every valid model and data set, decode with the 'viterbi' algorithm returns a state sequence whose joint log probability with the observations is the maximum over all state sequences, together with exactly that maximum summed over sequences; predict of a viterbi model returns the same states. If no path has positive probability the returned log probability is minus infinity.",
     ["inputs", "configurations"],
     "all models incl. ties, zero probabilities, near-deterministic chains, all families and partitions",
     "The tests decode one textbook example and a few sampled sequences; optimality is over exponentially many paths.",
     [KERN, BASE],
     [("max-product recursion and backtracking", KERN + ":viterbi"),
      ("per sequence decoding", BASE + ":decode")],
     ["decode", "predict"])

prop("C04", "MAP decoding is pointwise posterior argmax; the chosen decoder runs",
     "decode with the 'map' algorithm labels every sample with a state of maximal posterior probability given its whole sequence. The algorithm argument of decode overrides the model's algorithm, which otherwise decides both decode and predict, and an unknown algorithm is rejected.",
     ["inputs", "configurations"],
     "all models, data sets with positive probability, partitions, and all combinations of constructor algorithm, later reassignment and call argument",
     "Tests compare both decoders on one easy example where they agree; a wrong dispatch is invisible there.",
     [BASE],
     [("decoder dispatch", BASE + ":decode"), ("argmax", BASE + ":_decode_map")],
     ["decode", "predict"])

prop("C05", "The 'log' and 'scaling' implementations agree or 'scaling' refuses",
     "For every model and data set with positive probability, scoring, posteriors, decoding and fitting give the same results (up to rounding) under implementation='log' and implementation='scaling', unless 'scaling' raises an error because of underflow. 'scaling' never returns a silently different result.",
     ["inputs", "configurations"],
     "all models and data, incl. long sequences, sharply peaked emissions, densities far above or below one, and frames that underflow",
     "Tests compare the two on friendly data; numeric range problems need specific combinations of chain and data.",
     [KERN, BASE],
     [("scaled recursions and underflow guard", KERN + ":forward_scaling/backward_scaling/compute_scaling_xi_sum"),
      ("dispatch", BASE + ":_score/_do_estep")],
     ["score", "score_samples", "decode", "fit"])

prop("C06", "Sequences are independent: lengths partitions the data",
     "With lengths, scores add up over the sequences, and posteriors and decoded states are the concatenation of what each sequence gives on its own, in the given order; fitting a batch of sequences does not depend on the order of the sequences. Omitting lengths means one sequence, and lengths that are not a partition of the samples into non-empty sequences are rejected.",
     ["inputs", "configurations"],
     "all partitions incl. many length-1 sequences, all container types of lengths, all families and both implementations, scoring, decoding and fitting",
     "Tests use a few equal-length splits; boundary effects appear only for particular partitions.",
     [UT, BASE],
     [("splitting", UT + ":split_X_lengths"),
      ("per sequence loops", BASE + ":_score_log/_score_scaling/decode/_do_estep")],
     ["score", "score_samples", "predict", "predict_proba", "decode", "fit"])

prop("C07", "Emission probabilities follow the named distribution",
     "The probability a model assigns to an observation given the state is the density or mass of the family it is named after - categorical, multinomial, product of Poissons, multivariate Gaussian, or Gaussian mixture - with spherical, diagonal, full or tied covariance as documented. stats.log_multivariate_normal_density returns the exact Gaussian log density for every covariance type.",
     ["inputs", "configurations"],
     "all parameters and observations incl. extreme scales, ill-conditioned covariances, outliers, zero probabilities and zero mixture weights",
     "Tests check one or two covariance matrices per type against scipy; scale and conditioning effects and the mixture of options are not reached.",
     [EM, ST, U],
     [("emission log-likelihoods", EM + ":_compute_log_likelihood/_compute_likelihood"),
      ("Gaussian log densities", ST + ":log_multivariate_normal_density")],
     ["score of length-1 sequences", "stats.log_multivariate_normal_density"])

prop("C08", "sample draws from the model's joint distribution",
     "sample returns n_samples observations with the states that generated them, drawn from the model: the first state from startprob_ (or exactly currstate if given), each next state from the transition row of the previous one, each observation from the emission distribution of its state. It never visits a state, makes a transition or emits a symbol of probability zero, and frequencies match the model parameters.",
     ["inputs", "configurations", "histories"],
     "all families and covariance types, hand-set and fitted models, all currstate values, n_samples, and any stream of the random source incl. draws arbitrarily close to one",
     "Tests check shapes and a few means; the law of the samples and extreme draws of the random source are not exercised.",
     [BASE, EM, U],
     [("inverse-cdf state draws", BASE + ":sample"),
      ("emission draws", EM + ":_generate_sample_from_state")],
     ["sample"])

prop("C09", "EM training never decreases its objective",
     "With flat priors, the data log-likelihood never decreases from one EM iteration to the next (up to rounding), for every EM model, parameter subset and both implementations; with Dirichlet or Gaussian priors the same holds for log-likelihood plus log prior density. This includes models whose training updates only some of the parameters.",
     ["inputs", "histories", "configurations"],
     "all starting points, data sets, partitions, families, covariance types, params subsets and prior settings, over all iterations of a fit, for data that does not collapse a component",
     "Tests assert monotonicity on a few sampled data sets with full parameter sets and a loose tolerance.",
     [BASE, HMM, EM],
     [("M-steps", HMM + ":_do_mstep"), ("expected statistics", EM + ":_accumulate_sufficient_statistics")],
     ["fit", "monitor_.history", "score"])

prop("C10", "One EM iteration computes the exact documented re-estimates",
     "After fit with one iteration, every parameter listed in params equals the closed-form re-estimate computed from the exact posterior expected counts and moments under the starting parameters, all sequences together, with the documented Dirichlet, Normal, inverse-gamma/Wishart or gamma priors applied. The recorded objective of that iteration is the log-likelihood of the starting parameters.",
     ["inputs", "configurations"],
     "all starting points, data, partitions, priors and params subsets of every EM model, covariance type and both implementations",
     "Tests check that training raises the likelihood or lands near known parameters, which many wrong updates satisfy.",
     [BASE, HMM, EM, KERN],
     [("expected transition counts", KERN + ":compute_log_xi_sum/compute_scaling_xi_sum"),
      ("sufficient statistics", EM + ":_accumulate_sufficient_statistics"),
      ("closed-form updates", HMM + ":_do_mstep, " + BASE + ":BaseHMM._do_mstep")],
     ["fit", "model attributes after fit"])

prop("C11", "fit touches only requested parameters and keeps structural zeros",
     "fit changes only the parameters named in params (and initialises only those named in init_params or not yet set): everything else keeps its exact value. Start and transition probabilities that are zero before EM stay exactly zero, so forbidden states and transitions never appear.",
     ["inputs", "configurations", "histories"],
     "all params/init_params subsets, families, covariance types, topologies, priors, iteration counts and repeated fits",
     "Tests cover left-right transmat and a few params strings with one family.",
     [BASE, HMM, EM, VH],
     [("params guards", HMM + ":_do_mstep"), ("zero mask", BASE + ":BaseHMM._do_mstep"),
      ("init guards", BASE + ":_needs_init")],
     ["fit", "model attributes after fit"])

prop("C12", "A fitted model is a valid model",
     "After fit on non-degenerate data every probability vector (start, each transition row that was observed, emission rows, mixture weights) is non-negative and sums to one, means and rates are finite, rates are non-negative, and covariances are finite, symmetric and positive definite; all have their documented shapes. The fitted model can score, decode and sample the training data and gives it a finite likelihood.",
     ["inputs", "configurations", "histories"],
     "all families (EM and variational), covariance types, initialisations from data, priors, partitions, implementations",
     "Tests look at a few fits; validity must hold for any data, seed and option combination.",
     [BASE, HMM, VH, EM, U],
     [("normalisation", U + ":normalize"), ("M-steps", HMM + ":_do_mstep, " + VH + ":_do_mstep"),
      ("initialisation", HMM + ":_init, " + VH + ":_init")],
     ["fit", "score", "predict", "sample"])

prop("C13", "The convergence monitor reports the training run truthfully",
     "After fit, monitor_.history holds for each performed iteration the objective of the model at the start of that iteration, monitor_.iter is their number, never more than n_iter, and earlier fits leave no trace. Training stops exactly at the first iteration where n_iter is reached or the gain falls below tol, converged says so, a decrease is warned about, verbose reports one line per iteration, and a custom monitor's converged decides the stop.",
     ["inputs", "histories", "configurations"],
     "all models, tol (incl. negative, zero, infinite) and n_iter values, repeated fits, custom monitors",
     "Tests feed the monitor by hand; its agreement with the actual run is not checked.",
     [BASE],
     [("monitor", BASE + ":ConvergenceMonitor"), ("loop", BASE + ":fit")],
     ["monitor_", "stderr with verbose", "log records"],
     state=[("history, iter", "objective per iteration, number of iterations", BASE + ":ConvergenceMonitor")])

prop("C14", "An integer seed makes fit and sample reproducible",
     "With an integer random_state, fit on the same data yields bit-identical parameters every time - on a new model, on a clone, or by refitting the same object - whatever the state of NumPy's global generator, and does not consume it; the same holds for sample. The same RandomState state gives the same results, and different seeds give different samples.",
     ["inputs", "histories", "configurations"],
     "all models, seeds, histories of previous fits and samples, and any state of the global generator, incl. data that leaves clusters nearly empty",
     "Tests fix the seed once per test; interference through object history or the global generator is not exercised.",
     [BASE, HMM, VH, EM],
     [("seed handling", HMM + ":_init, " + VH + ":_init, " + BASE + ":_init/sample")],
     ["fit", "sample", "numpy.random global state"])

prop("C15", "Pickling, copying and cloning preserve the model",
     "A fitted model restored from pickle or copied has the same constructor parameters and gives identical scores, posteriors, decodings and samples, and using the copy never changes the original. clone and get_params/set_params carry over exactly the constructor parameters and no fitted state.",
     ["inputs", "configurations", "histories"],
     "all models and constructor options, fitted and hand-set, incl. training continued on the copy",
     "Tests pickle a default instance of each class and check only that it works.",
     [BASE, HMM, VH],
     [("sklearn estimator protocol", BASE + ":_AbstractHMM(BaseEstimator)")],
     ["pickle", "copy.deepcopy", "sklearn.base.clone", "get_params", "set_params"])

prop("C16", "Inference is pure and inputs are never modified",
     "score, score_samples, predict, predict_proba, decode, aic, bic and sample do not change the model's parameters, so any interleaving of calls gives the same answers as each call alone; no method modifies the arrays passed as data, lengths, parameters or priors. Returned arrays are independent of the model: modifying them changes nothing else.",
     ["inputs", "histories"],
     "all models, call sequences, and array layouts (views, read-only arrays)",
     "Tests call each method once on a fresh model.",
     [BASE, EM, U, HMM],
     [("in-place helpers restricted to fresh arrays", U + ":normalize/log_normalize"),
      ("per call validation", BASE + ":_check")],
     ["model attributes before and after", "input arrays before and after"])

prop("C17", "Invalid parameters and data are rejected, not silently used",
     "Probability vectors that do not sum to one or have the wrong shape, invalid covariances, unknown covariance types, algorithms or implementations, non-finite or non-2D data, lengths that do not sum to the number of samples or contain non-positive entries, negative or non-integer or too large symbols, data with the wrong number of features, inconsistent multinomial counts when fitting, and use before fitting all raise an exception. No such call returns a result.",
     ["inputs", "configurations"],
     "all families, positions of the defect within otherwise valid parameters and data, and all public methods",
     "Tests try single examples of some invalid inputs on one class each.",
     [BASE, HMM, VH, UT, EM],
     [("parameter validation", HMM + ":_check, " + BASE + ":_check, " + VH + ":_check"),
      ("covariance validation", UT + ":_validate_covars"),
      ("data validation", BASE + ":_check_and_set_n_features, " + EM + ":_check_and_set_n_features")],
     ["exceptions of score, decode, fit, sample, covars_ setter"])

prop("C18", "The native kernels have no memory error or undefined behaviour",
     "Whatever models, data, lengths and layouts reach them through the Python API - valid or rejected - the compiled kernels never read or write outside their arrays, never use uninitialised or freed memory, never execute undefined operations, and do not leak memory per call.",
     ["inputs", "configurations"],
     "all shapes (single state, single sample, many states, long sequences), memory layouts, dtypes, non-finite values, mismatched shapes and error paths",
     "Tests run an uninstrumented build; an out-of-bounds access or an uninitialised read usually goes unnoticed.",
     [KERN],
     [("unchecked array access guarded by shape tests", KERN)],
     ["AddressSanitizer/UndefinedBehaviorSanitizer reports", "valgrind/perturbed-allocator differences", "resident memory"])

prop("C19", "Concurrent use from several threads gives the serial results",
     "Any number of threads scoring, decoding, sampling with their own random states or fitting - on separate models or, for inference, on one shared model - obtain exactly the results of the same calls made serially. The compiled kernels, which release the interpreter lock, have no data race.",
     ["schedules", "inputs"],
     "all thread interleavings of kernel calls, models and data sizes",
     "No existing test uses threads.",
     [KERN, BASE],
     [("kernels work on call-local buffers while the GIL is released", KERN)],
     ["ThreadSanitizer reports", "results per thread vs serial"])

prop("C20", "AIC and BIC use the exact likelihood and free parameter count",
     "aic(X, lengths) equals -2 log L + 2 k and bic(X, lengths) equals -2 log L + k log(n), where L is the model's likelihood of the data, n the number of samples and k the number of free parameters of the model: all start, transition, emission, mean, covariance and mixture weight parameters for the family, covariance type, number of states, mixtures and features.",
     ["inputs", "configurations"],
     "all EM families and covariance types, dimensions, mixtures, partitions, fitted and hand-set models",
     "Tests check one value per criterion on one Gaussian model.",
     [BASE, EM],
     [("criteria", BASE + ":aic/bic"), ("free parameter counts", EM + ":_get_n_fit_scalars_per_param")],
     ["aic", "bic"])

prop("C21", "get_stationary_distribution returns the chain's stationary law",
     "Whenever the transition matrix has a unique stationary distribution - irreducible chains, periodic ones included, and chains with transient states - get_stationary_distribution returns it: a real, non-negative vector summing to one that the transition matrix leaves unchanged.",
     ["inputs"],
     "all transition matrices with a single recurrent class, incl. periodic, sticky, transient states, up to dozens of states",
     "Tests check two random matrices.",
     [BASE],
     [("left eigenvector of eigenvalue 1", BASE + ":get_stationary_distribution")],
     ["get_stationary_distribution"])

prop("C22", "Variational training never decreases the lower bound",
     "During fit of the variational models the recorded lower bound never decreases from one iteration to the next (up to rounding) - for categorical emissions and for Gaussian emissions with full or tied covariance - for all priors, params subsets, partitions and both implementations.",
     ["inputs", "histories", "configurations"],
     "all data, priors, initialisations (from data, random, hand-set posteriors), params subsets, over all iterations",
     "Tests run a few fixed data sets, mostly from near-converged starting points.",
     [VH, BASE, KL],
     [("VB-E and M steps", VH + ":_do_mstep/_compute_subnorm_log_likelihood, " + BASE + ":VariationalBaseHMM"),
      ("bound", VH + ":_compute_lower_bound, " + KL)],
     ["monitor_.history"])

prop("C23", "The variational bound is a true lower bound on the evidence",
     "The lower bound recorded by the variational models never exceeds the exact log evidence of the data under the priors (for Gaussian emissions up to the documented omitted constant of half the number of scalars times log 2 pi), and with a single hidden state and converged training of categorical, full or tied models it equals it. Each recorded value is the evidence lower bound of the posteriors in force when it was computed: the log normalisation of the data under the expected log parameters minus the divergences of the parameter posteriors from the priors.",
     ["inputs", "configurations"],
     "all priors and tiny data sets for which the evidence can be computed by summing over all state assignments",
     "No test computes the evidence; regression values only pin one run.",
     [VH, BASE, KL],
     [("KL terms", KL), ("bound", VH + ":_compute_lower_bound")],
     ["monitor_.history"])

prop("C24", "Variational posteriors are prior plus expected counts",
     "One variational iteration sets the posteriors of the requested parameters to prior plus expected sufficient statistics under the previous posterior (the documented conjugate update), and the fitted model's start, transition and emission probabilities, means and covariances are the corresponding posterior point estimates. Scoring, decoding and sampling a fitted variational model equal those of the EM model with these parameters.",
     ["inputs", "configurations", "histories"],
     "both variational families, all covariance types, priors (scalar and array), params subsets, partitions and implementations",
     "Tests check that the bound rises and a few regression values.",
     [VH, BASE],
     [("updates", VH + ":_do_mstep, " + BASE + ":VariationalBaseHMM._do_mstep")],
     ["posterior attributes after fit", "score", "predict", "sample"])

prop("C25", "Custom emission models work by overriding one likelihood method",
     "A BaseHMM subclass that overrides only the log-likelihood or only the likelihood method gets correct scores, posteriors, decoding, sampling and training of start and transition probabilities under both implementations, and its sufficient-statistics hooks see every sequence once per iteration with exact posteriors, and its M-step hook once per iteration. A subclass that overrides neither fails with NotImplementedError instead of recursing.",
     ["programs", "inputs", "configurations"],
     "all subclasses written to the documented extension contract: which method is overridden, returned array layouts, additional statistics, partitions, implementations",
     "One test defines a single custom model; the contract is not exercised systematically.",
     [BASE],
     [("mutual defaulting of the likelihood methods", BASE + ":_compute_likelihood/_compute_log_likelihood"),
      ("hook calls", BASE + ":_do_estep/fit")],
     ["hook call log", "score", "predict_proba", "decode", "fit"])

prop("C26", "Relabelling states or features permutes results and nothing else",
     "Permuting the hidden states of a model permutes its posteriors, decoded states (up to ties) and fitted parameters accordingly and leaves scores, information criteria and the training history unchanged; relabelling symbols or features together with the data changes no score. This holds at any size.",
     ["inputs", "configurations"],
     "all models and data incl. sizes (dozens of states, thousands of samples) where no reference recursion is run; all families and both implementations",
     "No test permutes anything; index mix-ups that preserve normalisation pass.",
     [KERN, BASE, HMM, EM],
     [("state-symmetric recursions and updates", KERN + ", " + HMM + ":_do_mstep")],
     ["score", "predict_proba", "decode", "fit"])

prop("C27", "How data, lengths and parameters are stored does not matter",
     "Results depend on the numbers in X, lengths and the parameters, not on how they are stored: integer and float types wide enough for the values, memory order, strides, views, read-only arrays, nested lists and tuples or lists of lengths all give the same scores, posteriors, decoded states, trained parameters, histories and density functions, for every family and both implementations.",
     ["inputs", "configurations"],
     "all dtypes that represent the values exactly, all layouts, all families, incl. small integer types with large products",
     "Tests pass C-ordered float64 or int64 arrays only.",
     [BASE, HMM, EM, "src/hmmlearn/stats.py"],
     [("input validation and conversion", BASE + ":score/_do_estep, " + HMM + ":_check"),
      ("arithmetic on input types", EM + ":_accumulate_sufficient_statistics, src/hmmlearn/stats.py")],
     ["score", "predict_proba", "decode", "fit", "log_multivariate_normal_density"])

prop("C28", "Training starts from the documented initialisation of the data",
     "What fit sets itself before the first iteration comes from the pooled data as documented: Gaussian means are a k-means solution (each centre is the mean of the samples nearest to it, separated clusters get one centre each), mixture means are k-means solutions within the samples of each state's cluster (draws around the data if a cluster has fewer samples than the mixture has components), covariances are the sample covariance plus min_covar in the model's covariance type, mixture weights are uniform, Poisson rates are independent gamma draws with the data's mean and variance, start and transition probabilities are Dirichlet(1/n_components) draws, symbol probabilities normalised uniform draws; variational posteriors hold the cluster or sample counts, and unset priors their documented defaults. Scaling or shifting real-valued data scales or shifts the start, other lengths do not change it (EM), it works for any number of distinct samples, and the first recorded log-likelihood is the score of the starting model.",
     ["inputs", "configurations", "histories"],
     "all data (clustered or not, integer, one feature, long), covariance types, seeds, partitions, min_covar",
     "Tests check a few initial shapes; the laws of random draws need hundreds of seeds.",
     [BASE, HMM, VH],
     [("initialisation", BASE + ":_init, " + HMM + ":_init, " + VH + ":_init")],
     ["parameters after fit with n_iter=0", "monitor_.history"])

prop("C29", "The warnings of training are truthful",
     "fit warns about overwriting exactly those parameters that were set and are initialised again, warns of a degenerate solution exactly when there are fewer data points than free scalar parameters among those trained (naming both numbers), and of empty transition rows when training continues with a row without mass; inference on a valid model, copying and sampling log no warning.",
     ["inputs", "configurations", "histories"],
     "all families, all subsets of parameters set / initialised / trained, data sizes around the parameter count, repeated fits, structural zeros",
     "Tests do not look at the log.",
     [BASE, HMM, EM],
     [("warnings", BASE + ":_needs_init/_init/fit"),
      ("free parameters", EM + ":_get_n_fit_scalars_per_param")],
     ["log records of the hmmlearn loggers"])

prop("C30", "Training can be interrupted, handed over and resumed",
     "A training of a+b iterations ends with the same parameters, posteriors and history as one of a iterations that is then resumed (init_params='') for b: by the same object - also after inference on other data or other trainings of the same class in between -, by a deep or pickled copy, or by a new model given the learned parameters (variational: posteriors and priors). A training cut by n_iter and resumed stops at the same point as the uncut one would by tol.",
     ["inputs", "histories", "configurations"],
     "all families EM and variational, priors, params subsets, partitions, implementations, all cutting points",
     "Tests fit once; hidden state between iterations or fits shows only in resumed runs.",
     [BASE, HMM, VH, EM],
     [("training loop and per-fit state", BASE + ":fit, ConvergenceMonitor"),
      ("derived state", VH + ":_estep_begin, " + HMM + ":_init_covar_priors")],
     ["parameters after fit", "monitor_.history"])

prop("C31", "Calls leave nothing behind",
     "No call - query, sampling with a seed, training or rejected call - changes process-wide settings: NumPy's error handling, print options and global generator, warning filters, logging configuration, environment, working directory, interpreter, signal and scikit-learn settings, running threads and open files (training with random_state=None may draw from the global generator). A model does not keep the data it was given: arrays are freed with the caller's last reference, and pickled size and memory still allocated after a call do not grow with the number of samples seen. An unreferenced model is freed. The working memory of every method grows at most linearly with the number of samples.",
     ["inputs", "histories", "configurations"],
     "all families and methods, valid and rejected calls, data of thousands of samples, unusual process settings",
     "Tests look at results only; leftovers show in long-running processes and in other code of the same process.",
     [BASE, HMM, VH, EM, "src/hmmlearn/utils.py"],
     [("error-state guards", "src/hmmlearn/utils.py:log_normalize, " + BASE + ":_accumulate_sufficient_statistics_log"),
      ("lattices and statistics", BASE + ":_do_estep/_decode/_score")],
     ["process settings after a call", "tracemalloc", "pickle.dumps(model)", "weak references"])

prop("C32", "Shorthands and omitted arguments mean what is documented",
     "predict is decode()[1], predict_proba is score_samples()[1], score is score_samples()[0]; decode without algorithm uses the model's, sample without random_state the model's, sample() draws one sample, omitted lengths mean one sequence, fit and set_params return the model, aic and bic count the same parameters. Training a model with constructor arguments omitted, given by position in the documented order, by set_params, by attribute (other than n_iter, tol, verbose) or through clone gives exactly what spelling out every documented value gives; a scalar prior is the array filled with it; the order and repetition of letters in params and init_params does not matter; an inferred size or number of trials is the one that could have been given.",
     ["inputs", "configurations"],
     "all families EM and variational, all arguments, all ways of passing them, random data and partitions",
     "Tests use one calling style each; equality of styles must hold for every model and argument value.",
     [BASE, EM, HMM, VH],
     [("shorthands", BASE + ":decode/predict/predict_proba/sample/score"),
      ("constructors", HMM + ", " + VH + ":__init__"),
      ("inferred sizes", EM + ":_check_and_set_n_features")],
     ["all public methods", "parameters and history after fit"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    "properties.jsonl")
with open(path, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
