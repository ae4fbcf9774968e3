EX = "runtime monitor: differential oracle over generated executions"
prop("C01", "Single-logger OPE estimates equal their published formulas",
     "For every valid log, the value returned by each single-logger estimator (replay, IPW, SNIPW, DM, DR, SNDR, Switch-DR, DR with shrinkage, "
     "sub-Gaussian IPW and DR, balanced IPW) is the average of that estimator's published per-round term, computed with the logged action, reward "
     "and position of each round. Clipping, switching, shrinkage and the choice between true and estimated propensities apply exactly as the "
     "constructor arguments say. Importance weights of deterministic, sparse or multi-position evaluation policies are those of the action "
     "distribution that was passed in.",
     ["inputs", "configurations"], "all logs (sizes, action counts, positions, reward types, propensities), policies and hyper-parameters",
     "the tests check signs, bounds and a few fixed random logs with loose tolerances; none compares with an independent computation for arbitrary lambda, position or propensity",
     ["obp/ope/estimators.py"], [("per-round reward terms", "obp/ope/estimators.py: each estimator's round-wise reward computation")],
     EX, "every estimator is run on thousands of generated logs and compared with an independent plain-loop evaluation of the published formula")
prop("C02", "Hyper-parameter tuning returns the candidate its rule selects",
     "A tuned estimator returns the estimate at one of the candidate hyper-parameters, namely the one designated by its documented rule (SLOPE, or the "
     "smallest estimated MSE with either bias estimate), whatever the order or number of candidates. Its interval uses the same selected value, the "
     "caller's candidate list is left untouched and a repeated call gives the same answer.",
     ["inputs", "configurations", "histories"], "all logs, candidate lists, confidence levels and tuning rules of the six tunable estimators",
     "tests only check that some value is chosen from the list; which candidate wins depends on data-dependent comparisons",
     ["obp/ope/estimators_tuning.py", "obp/ope/helper.py"], [("hyper-parameter selection", "obp/ope/estimators_tuning.py: slope and mse tuning"),
      ("bias and deviation bounds", "obp/ope/helper.py")],
     EX, "candidate sets are generated around the observed weights and the selection is recomputed independently; near ties are not judged")
prop("C03", "Multi-logger OPE estimates equal their published formulas",
     "For every log collected by several loggers, the naive, balanced and weighted IPW and DR estimators return the published statistic: own-logger "
     "propensities, logger-averaged propensities, and inverse-variance logger weights respectively. The result does not depend on how loggers are "
     "numbered or on how their rounds are interleaved.",
     ["inputs", "configurations"], "all multi-logger logs, logger ids, sizes, clipping values and propensity sources",
     "tests compare only signs and a few fixed logs; logger numbering and interleaving are never varied",
     ["obp/ope/estimators_multi.py"], [("per-round terms and logger weights", "obp/ope/estimators_multi.py")],
     EX, "generated logs with non-contiguous logger ids and interleaved rounds, judged by an independent computation")
prop("C04", "Continuous-action kernel estimates equal their published formulas",
     "For every continuous-action log, kernelized IPW, SNIPW and DR return the published kernel-weighted statistic for each supported kernel and "
     "bandwidth, whatever the numeric type of the actions. Every kernel is non-negative, symmetric, integrates to one and vanishes outside its support.",
     ["inputs", "configurations"], "all continuous-action logs, kernels, bandwidths",
     "tests use one bandwidth and one log, and compare no values",
     ["obp/ope/estimators_continuous.py"], [("kernels and kernel-weighted terms", "obp/ope/estimators_continuous.py")],
     EX, "generated logs around the rim of the kernel support, all kernels and bandwidth magnitudes, judged by an independent computation; kernels probed pointwise")
prop("C05", "Slate OPE estimates equal their published formulas",
     "For every slate log, the standard, independent and reward-interaction IPS estimators, their self-normalized versions and the cascade doubly "
     "robust estimator return the published statistic averaged over slates. Slate identifiers are arbitrary labels, and the importance-weighting "
     "estimators do not depend on the order of the rows.",
     ["inputs", "configurations"], "all slate logs, slate lengths, slate ids, row orders and propensities",
     "tests check a few fixed logs and relations between estimators; ids and row orders are never varied",
     ["obp/ope/estimators_slate.py"], [("slate-wise terms", "obp/ope/estimators_slate.py")],
     EX, "generated slate logs (also made by the slate dataset), judged by an independent computation")
prop("C06", "Embedding-based estimates and embedding selection follow their definition",
     "The marginalized IPW estimator and its self-normalized version weight each reward by the ratio of embedding probabilities under the two policies: "
     "exactly when the embedding distribution is given, and otherwise through the supplied classifier's estimate of the action given context and "
     "embedding. Exact and greedy embedding selection return the estimate of the last embedding subset accepted by the documented SLOPE-style test, "
     "never using fewer dimensions than the minimum.",
     ["inputs", "configurations"], "all logs with categorical embeddings, logging policies with and without full support, selection methods and confidence levels",
     "tests only compare with IPW in one setting; selection outcomes are never recomputed",
     ["obp/ope/estimators_embed.py"], [("marginal importance weights", "obp/ope/estimators_embed.py"), ("embedding selection", "obp/ope/estimators_embed.py: exact and greedy pruning")],
     EX, "a counting classifier makes the fitted weights exactly computable; selections recomputed independently; near ties are not judged")
prop("C07", "Confidence intervals are percentile bootstraps of the estimator's terms",
     "For every estimator of every family, the interval's bounds are the alpha/2 and 1-alpha/2 percentiles and its mean the average of the bootstrap "
     "distribution of that estimator's per-round (or per-slate) terms, with the requested number of resamples and reproducibly for a given seed. "
     "Intervals at larger alpha are nested inside those at smaller alpha. The concentration lower bounds and bias bounds equal their closed forms.",
     ["inputs", "configurations"], "all logs, significance levels, resample counts, seeds and estimators",
     "tests check only that lower <= mean <= upper on fixed logs",
     ["obp/utils.py", "obp/ope/estimators.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_continuous.py", "obp/ope/estimators_slate.py", "obp/ope/estimators_embed.py", "obp/ope/helper.py"],
     [("percentile bootstrap", "obp/utils.py"), ("interval estimation of each estimator", "obp/ope/estimators*.py"), ("concentration bounds", "obp/ope/helper.py")],
     "runtime monitor: statistical oracle on observed bootstrap bounds",
     "each bound is located in an independently drawn bootstrap distribution; false-alarm probability per comparison below 1e-9")
prop("C08", "Evaluator objects report exactly what their estimators return",
     "For every evaluator class (single-logger, multi-logger, slate and continuous), the estimates, intervals, summary tables and accuracy reports contain, for each "
     "registered estimator under its own name, exactly the numbers that estimator returns on the same data: accuracy is the squared or relative error "
     "against the given ground truth, the relative value is the estimate divided by the average logged reward. Figures draw the same numbers. "
     "Per-estimator dictionaries of reward estimates or importance weights reach the estimator they are keyed by, and the logged data are not changed.",
     ["inputs", "configurations"], "all sets and orders of estimators, logs, per-estimator arguments, metrics and policies to compare",
     "tests use mock estimators on a handful of logs; routing per estimator name and figure contents are never compared with the estimators",
     ["obp/ope/meta.py", "obp/ope/meta_multi.py", "obp/ope/meta_slate.py", "obp/ope/meta_continuous.py"],
     [("input dictionary construction", "obp/ope/meta*.py: _create_estimator_inputs"), ("summaries, accuracy and figures", "obp/ope/meta*.py")],
     EX, "every report is recomputed by calling fresh estimator instances directly; figures are intercepted and their plotted numbers compared")
prop("C09", "Malformed inputs and parameters are rejected, valid ones accepted",
     "Estimators, evaluators, policies, learners, datasets and models reject inputs whose shape, length, type or range contradicts their documented contract "
     "(wrong dimension, mismatched lengths, out-of-range actions or positions, non-positive propensities, distributions that do not sum to one, out-of-range "
     "hyper-parameters) by raising an error instead of returning a number. They accept the same inputs once repaired.",
     ["inputs", "configurations"], "all single-fault corruptions of valid inputs and parameters",
     "the repository's own invalid-input tests do not pass in this environment, and each covers one hand-written corruption",
     ["obp/utils.py", "obp/ope/estimators.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_continuous.py", "obp/ope/estimators_slate.py", "obp/ope/estimators_embed.py", "obp/ope/meta.py", "obp/policy/base.py", "obp/dataset/synthetic.py"],
     [("input checks", "obp/utils.py: check_* helpers"), ("constructor validation", "obp/*: __post_init__ and __init__ checks")],
     "runtime monitor: fault injection into inputs, acceptance oracle", "each valid call is corrupted in one documented respect at a time; both the rejection of the corrupted call and the acceptance of the original are observed")
prop("C10", "Calls are pure and reproducible",
     "Every public computation (data generation, models, learners, policies, estimators, evaluators, simulators) leaves the arrays and dictionaries passed to it unchanged, "
     "gives bit-identical results when repeated by a fresh object with the same seed and the same call history, whatever else ran before in the process and "
     "whatever the state of the global random generators. Estimates do not depend on the order of the logged rounds nor on how actions are numbered.",
     ["inputs", "configurations", "histories"], "all seeded programs over the library, all orders of rounds and numberings of actions",
     "tests run each call once on one data set and never compare the inputs before and after",
     ["obp/dataset/synthetic.py", "obp/ope/estimators.py", "obp/ope/regression_model.py", "obp/policy/offline.py", "obp/policy/online.py", "obp/simulator/simulator.py", "obp/utils.py"],
     [("seeding of generators", "obp/dataset/*, obp/policy/*, obp/simulator/*: check_random_state(self.random_state)"), ("in-place operations", "obp/ope/*.py")],
     "runtime monitor: metamorphic trace comparison and input checksums", "whole programs are executed twice under different global random states with checksummed inputs; results compared bit for bit, permuted logs within rounding")
prop("C11", "Synthetic logged bandit data are what they claim to be",
     "Batches of the synthetic single- and multi-logger data sets have the documented shapes and ranges. The reported propensity of every round is the probability of the logged "
     "action under the stated behaviour policy (softmax of beta times the policy score, or of the reward function, with deficient actions excluded and renormalized), actions are "
     "drawn from it independently across rounds and batches, rewards have exactly the reported expected reward, and the ground-truth value of a policy is its expected reward averaged over rounds.",
     ["inputs", "configurations", "histories"], "all data set configurations (actions, contexts, reward types, betas, deficient actions, custom functions), batch sizes and numbers of batches",
     "tests check shapes and ranges only; distributional claims and cross-batch behaviour cannot be settled by single samples",
     ["obp/dataset/synthetic.py", "obp/dataset/synthetic_multi.py"], [("batch generation", "obp/dataset/synthetic.py: obtain_batch_bandit_feedback"), ("stratified loggers", "obp/dataset/synthetic_multi.py")],
     "runtime monitor: exact oracle for probabilities and concentration bounds on drawn samples", "probabilities recomputed exactly; frequencies and reward means judged by Bernstein/DKW bounds with false-alarm probability below 1e-10")
prop("C12", "Embedding and continuous-action data are what they claim to be",
     "The data set with categorical action embeddings draws each embedding from the reported per-dimension distribution, reports the true expected reward implied by it, hides exactly "
     "the unobserved dimensions and reports propensities of the logged action. The continuous data set draws actions from the stated (truncated) normal behaviour "
     "policy within its action range, reports its density as propensity, rewards with the reported expectation, and the ground-truth value of a policy is the average expected reward of the actions it chooses.",
     ["inputs", "configurations", "histories"], "all configurations of embeddings, action ranges, reward functions and policies",
     "tests check shapes and ranges only",
     ["obp/dataset/synthetic_embed.py", "obp/dataset/synthetic_continuous.py"], [("embedding generation", "obp/dataset/synthetic_embed.py"), ("continuous actions", "obp/dataset/synthetic_continuous.py")],
     "runtime monitor: exact oracle for probabilities and concentration bounds on drawn samples", "as C11")
prop("C13", "Synthetic reward and policy functions follow their formulas",
     "The built-in reward, logit and continuous-policy functions are pure functions of context, action context and seed with the documented functional form (linear, polynomial or sparse "
     "polynomial in context and action context with the drawn or supplied coefficients, z-scored over the batch when asked, passed through the sigmoid when logistic). The softmax, sigmoid, fast action sampling and one-hot action-distribution helpers return the exact "
     "normalized values or draws from them, also for extreme inputs.",
     ["inputs", "configurations"], "all contexts, action contexts, seeds, degrees and magnitudes",
     "tests compare shapes and seed effects only",
     ["obp/dataset/reward_type.py", "obp/dataset/synthetic.py", "obp/dataset/synthetic_continuous.py", "obp/utils.py"],
     [("reward functions", "obp/dataset/synthetic.py: *_reward_function"), ("softmax and sampling", "obp/utils.py")],
     EX, "values recomputed term by term from the coefficients handed out by a recording coefficient function")
prop("C14", "Propensities of synthetic slates are exact",
     "For every slate data set, logged slates are drawn from the stated behaviour policy (with or without repeated actions) and the joint, item-position and cascade propensities equal the exact "
     "probabilities of that policy for the whole slate, for each action at its slot and for each prefix. The same holds for evaluation policies given as logits, for epsilon-mixed optimal, "
     "anti-optimal and uniform policies, and for the per-slot action distributions; the propensities of all slates sum to one. No slate of a non-factorizable policy repeats an action.",
     ["inputs", "configurations", "histories"], "all numbers of actions and slots, logits of any magnitude, factorizable or not, evaluation policies and epsilon",
     "tests compare a few fixed cases and mostly ranges",
     ["obp/dataset/synthetic_slate.py"], [("slate propensities", "obp/dataset/synthetic_slate.py: obtain_pscore_given_evaluation_policy_logit, sample_action_and_obtain_pscore"),
      ("epsilon policies", "obp/dataset/synthetic_slate.py: generate_evaluation_policy_pscore")],
     "runtime monitor: brute-force enumeration oracle and concentration bounds on drawn slates", "exact probabilities by enumerating all slates for up to 5 actions and 4 slots, closed forms beyond")
prop("C15", "Slate rewards and ground-truth values follow the stated reward model",
     "For every slate data set, the expected reward of each slot of a logged slate is that of the stated reward structure (independent; additive interactions with all or only the higher "
     "slots; negative interactions decaying exponentially or inversely with distance) applied to the base reward of that round's own context, and modified by the position-based or "
     "cascade click model. Sampled rewards have exactly that expectation, binary or truncated-normal, and the ground-truth value of a policy is the expected slate reward averaged over "
     "its slates and the given contexts, however many contexts are given.",
     ["inputs", "configurations", "histories"], "all combinations of reward type, structure, decay, click model, eta, base reward function, factorizability, sizes and contexts",
     "tests check shapes, ranges and a few orderings; every numeric claim ranges over slates and contexts",
     ["obp/dataset/synthetic_slate.py"], [("slot rewards", "obp/dataset/synthetic_slate.py: action_interaction_reward_function"), ("click models and sampling", "obp/dataset/synthetic_slate.py: sample_reward_given_expected_reward"),
      ("policy value", "obp/dataset/synthetic_slate.py: calc_ground_truth_policy_value")],
     "runtime monitor: brute-force enumeration oracle and concentration bounds on sampled rewards", "slot rewards recomputed, click histories and slates enumerated; half-precision tolerance")
prop("C16", "Multi-class data are reduced to bandit feedback faithfully",
     "For every classification data set and label encoding, the behaviour and evaluation policies are the stated mixtures of a classifier trained on the training part only and the uniform policy, "
     "with exactly the requested number of deficient actions excluded per round. Logged actions follow the reported probabilities given those, the propensity is that of the "
     "logged action, the reward is one exactly when the logged action is the round's own class, and the ground-truth value is the average probability of the true class.",
     ["inputs", "configurations"], "all classification data, labels, classifiers, mixing rates, deficient actions, splits and seeds",
     "tests use one bundled data set with contiguous labels and compare shapes",
     ["obp/dataset/multiclass.py"], [("bandit reduction", "obp/dataset/multiclass.py: obtain_batch_bandit_feedback"), ("evaluation policy", "obp/dataset/multiclass.py: obtain_action_dist_by_eval_policy")],
     "runtime monitor: recording classifier, differential oracle and concentration bounds", "a recording classifier makes predictions and training rows observable; frequencies judged by Bernstein bounds")
prop("C17", "The Open Bandit Dataset loader preserves the log",
     "For every log in the Open Bandit format, each loaded round carries the item, zero-based position, click, propensity and encoded user features of one row of the file, in time order and each row once. "
     "Time-series splits are consecutive parts, the training part being the first floor(n * (1 - test_size)) rounds; bootstrap samples consist of whole rows of the selected part with the requested size, drawn uniformly and "
     "reproducibly, and none of this changes what later calls return. The on-policy value is the average click of the selected part.",
     ["inputs", "configurations", "histories"], "all logs in the format, including unsorted or tied timestamps and any set of positions",
     "most of the repository's loader tests need data that are absent here; they use the one bundled file",
     ["obp/dataset/real.py"], [("loading and preprocessing", "obp/dataset/real.py: load_raw_data, pre_process"), ("splits and bootstrap", "obp/dataset/real.py: obtain_batch_bandit_feedback, sample_bootstrap_bandit_feedback")],
     "runtime monitor: conservation oracle over recorded rows", "rounds matched one by one with the rows of generated files and of the bundled sample")
prop("C18", "Reward models are trained on the right rows and predict for every action and position",
     "For every log and base model, the reward estimate for a round, an action and a position is the prediction of a base model trained with that position's rounds only, on their context and "
     "action representation, with the stated sample weights (none, importance weights, or the MRDR weights); classifiers are read as the probability of a positive reward. With "
     "cross-fitting every estimate comes from a model that never saw its own round. The slate variant fits the cascade of per-position models on the rounds of the slates it is given and predicts for exactly those slates.",
     ["inputs", "configurations", "histories"], "all logs, base models, positions, fitting methods, folds and action representations",
     "tests compare shapes and a coarse accuracy bound on one data set",
     ["obp/ope/regression_model.py", "obp/ope/regression_model_slate.py"], [("fit, predict and cross-fitting", "obp/ope/regression_model.py: RegressionModel"), ("slate reward model", "obp/ope/regression_model_slate.py: SlateRegressionModel")],
     "runtime monitor: differential oracle with recording base models", "base models that expose their training rows make membership observable; predictions recomputed with models trained independently")
prop("C19", "Estimated importance weights and propensities come from correctly labelled training data",
     "For every log, the importance-weight model is trained per position on logged rounds labelled 0 against the evaluation policy's rounds labelled 1 (drawn from its action distribution, or weighted by it), "
     "and the reported weight is p/(1-p) of the round's own context, logged action and position; the propensity model is trained per position on context to predict the logged action and reports the probability of that "
     "action, zero for actions never logged. With cross-fitting no estimate comes from a model that saw its own round, and every round gets an estimate whatever the distribution of positions.",
     ["inputs", "configurations"], "all logs, evaluation policies, positions, folds, fitting methods and seeds",
     "tests compare shapes and ranges on one data set",
     ["obp/ope/classification_model.py"], [("importance weights", "obp/ope/classification_model.py: ImportanceWeightEstimator"), ("propensities", "obp/ope/classification_model.py: PropensityScoreEstimator")],
     "runtime monitor: differential oracle with recording base models, concentration bounds on sampled actions", "training rows and labels are recorded; predictions recomputed with models trained independently")
prop("C20", "IPWLearner and QLearner learn the stated policy",
     "For every log, IPWLearner's score of an action is the class probability of the base classifier trained on that position's rounds with weights reward over propensity (uniform 1/n_actions when propensities are missing), zero for "
     "actions never logged; QLearner's score is the reward model's estimate. predict chooses a best-scoring action at each position, predict_proba is the softmax of the scores over tau, and "
     "sample_action draws rankings without repetition from the Plackett-Luce distribution of the scores averaged over positions, reproducibly under a seed. Negative rewards and missing positions are rejected.",
     ["inputs", "configurations"], "all logs, base models, positions, fitting methods, temperatures and unobserved actions",
     "tests check shapes, one-hot-ness and a few rejections",
     ["obp/policy/offline.py"], [("training", "obp/policy/offline.py: IPWLearner.fit, QLearner.fit"), ("choices and sampling", "obp/policy/offline.py: predict, predict_score, predict_proba, sample_action")],
     "runtime monitor: differential oracle and concentration bounds on sampled rankings", "scores recomputed with independently trained models; rankings judged by Bernstein bounds")
prop("C21", "Neural off-policy learners follow the gradient of their stated objective",
     "For every log, each training step of NNPolicyLearner moves the softmax policy along the gradient of the named objective on that mini-batch (dm, ipw, dr, snipw with shifted rewards, ipw-os and ipw-subgauss with their "
     "shrunken weights), minus the policy and variance regularisers, with the named solver, L2 penalty and learning rate; the continuous learner does the same for dpg, kernel ipw and kernel dr with actions limited to "
     "the output space, and the reward networks minimise the squared error. Every epoch uses each training round once, a validation part is never trained on, training stops early only after n_iter_no_change consecutive iterations without an improvement of the monitored (training or validation) objective by at least tol, and the policy stays a finite distribution for any batch size or confidence. "
     "predict picks a most probable action and sample_action draws Plackett-Luce rankings from the policy.",
     ["inputs", "configurations", "schedules"], "all logs, objectives, solvers, activations, layer sizes, batch sizes, orders, regularisers and stopping rules",
     "tests check that training runs and improves a value by a coarse margin",
     ["obp/policy/offline.py", "obp/policy/offline_continuous.py"],
     [("objectives", "obp/policy/offline.py: NNPolicyLearner.fit, _estimate_policy_gradient"), ("reward network", "obp/policy/offline.py: QFuncEstimator"), ("continuous learner", "obp/policy/offline_continuous.py: ContinuousNNPolicyLearner")],
     "runtime monitor: step-by-step replay against an independent double-precision model", "training replayed from the initial weights for every admissible batch schedule; tolerance of single precision")
prop("C22", "Context-free online policies follow their rule over any history",
     "For every interleaving of selections and updates, EpsilonGreedy, Random and BernoulliTS base their choices on exactly the updates of the batches completed so far: EpsilonGreedy ranks actions by mean observed reward "
     "with probability 1-epsilon once every action is known and draws a uniform list without repetition otherwise; BernoulliTS ranks independent draws from the Beta posterior of its prior (or the campaign's production prior). Batch action "
     "distributions are those of the rule, initialize() returns a policy to its initial state including its random stream, and policies share no state.",
     ["histories", "schedules", "configurations"], "all histories of updates and selections, batch sizes, list lengths, priors and seeds",
     "tests call each method once or twice from a fixed state",
     ["obp/policy/contextfree.py", "obp/policy/base.py"], [("selection", "obp/policy/contextfree.py: select_action"), ("batch updates", "obp/policy/contextfree.py: update_params"), ("reset", "obp/policy/base.py: BaseContextFreePolicy.initialize")],
     "runtime monitor: shadow-model monitor over histories, concentration bounds on selections", "shadow counts of complete batches; exact posterior-draw equality and Bernstein bounds")
prop("C23", "Contextual online policies follow their rule over any history",
     "For every interleaving of selections and updates, the linear and logistic policies base their choices on exactly the updates of the batches completed so far. Linear policies rank actions by the ridge estimate per action (unit prior precision): "
     "LinEpsilonGreedy greedily with probability 1-epsilon and uniformly without repetition otherwise, LinUCB with epsilon times the standard error added, LinTS by independent draws from the Gaussian posterior. Logistic policies keep, per action, "
     "the sequential diagonal Laplace posterior with prior precision lambda: LogisticEpsilonGreedy and LogisticUCB rank by predicted probability (plus epsilon times the standard deviation), LogisticTS by coefficients drawn around the posterior mean "
     "with standard deviation alpha over the accumulated precision. initialize() restores the initial state and random stream, and policies share no state.",
     ["histories", "schedules", "configurations"], "all histories of updates and selections, dimensions, list lengths, batch sizes, exploration parameters and seeds",
     "tests call each method once or twice from a fixed state",
     ["obp/policy/linear.py", "obp/policy/logistic.py", "obp/policy/base.py"],
     [("linear policies", "obp/policy/linear.py: update_params, select_action"), ("logistic policies", "obp/policy/logistic.py: update_params, select_action, MiniBatchLogisticRegression"), ("reset", "obp/policy/base.py: BaseContextualPolicy.initialize")],
     "runtime monitor: shadow-model monitor over histories, concentration bounds on selections", "shadow ridge and Laplace posteriors of complete batches; choices within optimiser tolerance accepted; sampled choices judged by Bernstein bounds")
prop("C24", "The bandit simulator delivers every reward exactly once, at its time",
     "For every sequence of steps (single, many, given rounds, batches) and flushes, the policy makes one selection per round, on that round's context, and receives for every round exactly one update, with the round's own action, reward and "
     "context: at once without delays, in the round where the delay of the chosen action expires, or at a flush, never twice. The simulator's logs and totals record what was played. The environment draws fresh standard normal contexts and "
     "independent binary rewards with the stated expected rewards, batches iterate over their own rounds any number of times, and the ground-truth value of an online policy averages the expected rewards of the actions it selects in n_sim runs, each from its given state.",
     ["schedules", "histories", "inputs"], "all policies, delay patterns, ways of stepping and times of flushing",
     "tests run a few fixed schedules",
     ["obp/simulator/simulator.py"], [("stepping and delayed delivery", "obp/simulator/simulator.py: BanditPolicySimulator"), ("environment", "obp/simulator/simulator.py: BanditEnvironmentSimulator, BanditRounds"),
                                      ("ground truth", "obp/simulator/simulator.py: calc_ground_truth_policy_value")],
     "runtime monitor: online checker of the trace of policy calls against a queue specification", "recording policies expose every call; delivery checked exactly-once per round; environment draws judged by concentration bounds")
prop("C25", "Replay reproduces an online policy on the matching rounds only",
     "For every log and online policy, replay asks the policy for one list per round on that round's context, updates it exactly when the action it lists at the round's position (the first position when the log has none) is the logged one, with that round's action, reward and "
     "context, and returns a distribution that is one exactly on the listed actions. The replay estimate from it is the average reward of the matched rounds, or zero when none matches. The log is left unchanged and incomplete logs are rejected.",
     ["inputs", "histories"], "all logs, policies, list lengths and positions, including actions never logged",
     "tests check shapes and a value on one data set",
     ["obp/simulator/replay.py"], [("replay", "obp/simulator/replay.py: run_bandit_replay"), ("replay estimate", "obp/ope/estimators.py: ReplayMethod")],
     "runtime monitor: trace specification over recorded policy calls", "every policy call recorded and matched with the log round by round")
prop("C26", "Non-stationary coefficients and reward delays follow their specification",
     "For every drift configuration, the coefficients in force at a round depend only on the number of rounds served before, not on how the rounds were requested: plateaus of drift_interval rounds, blended with weight "
     "max(0, transition_period - rounds_left + 1)/(transition_period + 1) towards the next plateau (linear mixture, or old-or-new sampled with that probability, independently per round and for all coefficients together), mixed with the first plateau by the base weight; a seasonal drifter "
     "alternates between two plateaus. Delays are whole rounds of at least one, exponential with the maximal scale and common to all actions, or with a scale falling linearly from max to min with the expected reward, independent per action.",
     ["configurations", "histories"], "all intervals, transition periods, seeds and ways of splitting requests",
     "tests check a few fixed drifts requested as a single call",
     ["obp/simulator/coefficient_drifter.py", "obp/simulator/delay_sampler.py"], [("drift", "obp/simulator/coefficient_drifter.py: CoefficientDrifter"), ("delays", "obp/simulator/delay_sampler.py: ExponentialDelaySampler")],
     "runtime monitor: specification of the coefficient trace, concentration bounds on delays", "trace recomputed from the plateaus; sampled switches and delays judged by Bernstein bounds")
prop("C27", "Estimates are unbiased where the theory says so, and agree with the reported ground truth",
     "Averaged over every log the behaviour policy can produce, with the true propensities and overlap, IPW, DR and its unshrunken variants, the naive and balanced multi-logger estimators, SIPS (RIPS and cascade-DR for cascade rewards, IIPS for independent ones) and "
     "one-dimensional MIPS equal the true policy value whatever the reward model, and DM with the true reward does; kernel estimates equal the kernel-smoothed value. End to end, estimates computed by the evaluator objects from data generated by "
     "the library's synthetic, multi-logger, slate, embedding and multi-class data sets agree, within sampling error, with the ground-truth value the same data set reports.",
     ["inputs", "configurations"], "all small problems with overlap (exact), generated data of realistic size (statistical)",
     "a test compares one estimate with a coarse tolerance; unbiasedness is a statement about all logs",
     ["obp/ope/estimators.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_slate.py", "obp/ope/estimators_embed.py", "obp/ope/estimators_continuous.py", "obp/dataset"],
     [("estimators", "obp/ope/estimators*.py: estimate_policy_value"), ("evaluators", "obp/ope/meta*.py: estimate_policy_values"), ("ground truth", "obp/dataset/*.py: calc_ground_truth_policy_value")],
     "runtime monitor: expectation over the enumerated space of logs; concentration bounds end to end", "the library's own estimates are collected for every possible log of a small problem and weighted by its probability")
prop("C28", "Omitted optional arguments have their documented defaults",
     "For every public constructor and method and any values of the other arguments, leaving out an optional argument gives exactly the result of writing its documented default: 95% intervals from 10000 resamples (100 in the evaluators), squared error as "
     "the metric, no clipping (infinite thresholds), true propensities, slope tuning with the bias bound, one fold, normal fitting, two calibration folds, temperature 1, list length and batch size 1, the documented network and optimiser settings, data set "
     "parameters (dimension 1, binary rewards, unit noise, no deficient actions, seed 12345, test fraction 0.3, evaluation fraction 0.25), drift and delay settings; an omitted random_state means the global random state.",
     ["inputs", "configurations"], "all subsets of omitted arguments and values of the remaining ones, where documentation and code agree on the default",
     "tests mostly pass the arguments explicitly, or never compare the two",
     ["obp/ope", "obp/dataset", "obp/policy", "obp/simulator"], [("defaults", "obp/**: signatures and dataclass fields with a documented default")],
     "runtime monitor: differential execution with and without the arguments written out", "two executions from the same random state compared entry by entry; a third with another value shows that the difference is visible")
