"""Parameters outside their documented range: (label, callable, good kwargs, {parameter: [bad values]})."""
import numpy as np


def _t(label, path, good, bad, call=None):
    TABLE.append(dict(label=label, path=path, good=good, bad=bad, call=call))


TABLE = []
S, NEG, NAN = "3", -1, float("nan")
INT2 = [S, 1, 0, -2, 2.0, None]  # integers >= 2
INT1 = [S, 0, -1, 1.5, None]  # integers >= 1
PROB = [S, -0.1, 1.1, None]
LAM = [S, -0.1, NAN, None]
BOOL = [S, 3, None]

for c in ("InverseProbabilityWeighting", "SelfNormalizedInverseProbabilityWeighting", "DoublyRobust", "SelfNormalizedDoublyRobust", "SwitchDoublyRobust",
          "DoublyRobustWithShrinkage", "MultiLoggersNaiveInverseProbabilityWeighting", "MultiLoggersBalancedInverseProbabilityWeighting",
          "MultiLoggersWeightedInverseProbabilityWeighting", "MultiLoggersNaiveDoublyRobust", "MultiLoggersBalancedDoublyRobust",
          "MultiLoggersWeightedDoublyRobust"):
    _t(c, "ope." + c, dict(lambda_=1.0, use_estimated_pscore=False), dict(lambda_=LAM, use_estimated_pscore=BOOL))
_t("BalancedIPW", "ope.BalancedInverseProbabilityWeighting", dict(lambda_=1.0), dict(lambda_=LAM))
for c in ("SubGaussianInverseProbabilityWeighting", "SubGaussianDoublyRobust"):
    _t(c, "ope." + c, dict(lambda_=0.5, use_estimated_pscore=False), dict(lambda_=LAM + [1.1], use_estimated_pscore=BOOL))
for c in ("InverseProbabilityWeightingTuning", "DoublyRobustTuning", "SwitchDoublyRobustTuning", "DoublyRobustWithShrinkageTuning"):
    _t(c, "ope." + c, dict(lambdas=[1.0, 2.0], tuning_method="mse", use_bias_upper_bound=True, delta=0.1, use_estimated_pscore=False),
       dict(lambdas=[[], 3.0, ["a"], [1.0, -0.5], [1.0, NAN], None, {1.0, 2.0}], tuning_method=["other", 3, None], use_bias_upper_bound=BOOL,
            delta=PROB, use_estimated_pscore=BOOL))
for c in ("SubGaussianInverseProbabilityWeightingTuning", "SubGaussianDoublyRobustTuning"):
    _t(c, "ope." + c, dict(lambdas=[0.1, 0.2], tuning_method="slope", use_bias_upper_bound=True, delta=0.1, use_estimated_pscore=False),
       dict(lambdas=[[], 3.0, ["a"], [0.1, -0.5], [0.1, NAN], [0.5, 1.5], None], tuning_method=["other", 3], use_bias_upper_bound=BOOL, delta=PROB,
            use_estimated_pscore=BOOL))
for c in ("KernelizedInverseProbabilityWeighting", "KernelizedSelfNormalizedInverseProbabilityWeighting", "KernelizedDoublyRobust"):
    _t(c, "ope." + c, dict(kernel="gaussian", bandwidth=0.5), dict(kernel=["uniform", None, 3], bandwidth=[S, -0.1, None]))
for c in ("MarginalizedInverseProbabilityWeighting", "SelfNormalizedMarginalizedInverseProbabilityWeighting"):
    _t(c, "ope." + c, dict(n_actions=3, embedding_selection_method="exact", min_emb_dim=1, delta=0.05),
       dict(n_actions=INT2, embedding_selection_method=["other", 3], min_emb_dim=INT1, delta=PROB, pi_a_x_e_estimator=["lr", None]))
_t("RegressionModel", "ope.RegressionModel", dict(n_actions=3, len_list=1, base_model="LR", fitting_method="normal"),
   dict(n_actions=INT2, len_list=INT1, base_model=["lr", None], fitting_method=["other", None, 3]))
_t("ImportanceWeightEstimator", "ope.ImportanceWeightEstimator", dict(n_actions=3, len_list=1, base_model="LR", fitting_method="sample", calibration_cv=2),
   dict(n_actions=INT2, len_list=INT1, base_model=["lr", None], fitting_method=["other", None]))
_t("PropensityScoreEstimator", "ope.PropensityScoreEstimator", dict(n_actions=3, len_list=1, base_model="LR"),
   dict(n_actions=INT2, len_list=INT1, base_model=["lr", None]))
_t("SlateRegressionModel", "ope.SlateRegressionModel", dict(n_unique_action=3, len_list=2, base_model="LinR", fitting_method="normal"),
   dict(n_unique_action=INT2, len_list=INT1, base_model=["lr", None], fitting_method=["other", None]))

SYN = dict(n_actions=4, dim_context=2, reward_type="binary", reward_std=1.0, beta=1.0, n_deficient_actions=1, random_state=1)
SYNBAD = dict(n_actions=INT2, dim_context=INT1, reward_type=["other", 3, None], reward_std=[S, -0.1], beta=[S, None],
              n_deficient_actions=[S, -1, 4, 1.5], random_state=[None, S])
_t("SyntheticBanditDataset", "dataset.SyntheticBanditDataset", SYN, dict(SYNBAD, action_context=[np.ones((3, 2)), np.ones(4), [[1, 0]] * 4]))
_t("SyntheticBanditDataset.batch", "dataset.SyntheticBanditDataset", dict(n_rounds=5), dict(n_rounds=INT1),
   call=lambda cls, kw: cls(**SYN).obtain_batch_bandit_feedback(**kw))
_t("WithActionEmbeds", "dataset.SyntheticBanditDatasetWithActionEmbeds",
   dict(SYN, n_cat_per_dim=3, latent_param_mat_dim=2, n_cat_dim=3, p_e_a_param_std=1.0, n_unobserved_cat_dim=1, n_irrelevant_cat_dim=1),
   dict(SYNBAD, n_cat_per_dim=INT1, latent_param_mat_dim=INT1, n_cat_dim=INT1, p_e_a_param_std=[S, -0.1, None], n_unobserved_cat_dim=[S, -1, 4, 1.5],
        n_irrelevant_cat_dim=[S, -1, 4, 1.5]))
ML = dict(n_actions=4, dim_context=2, betas=[1.0, -1.0], rhos=[0.5, 0.5], random_state=1)
_t("MultiLoggers", "dataset.SyntheticMultiLoggersBanditDataset", ML,
   dict(n_actions=INT2, dim_context=INT1, betas=[["a", 1.0], None, 3.0, [1.0], [1.0, None]], rhos=[["a", 1.0], 3.0, [1.0], [1.0, -0.5], [1.0, None]],
        random_state=[None, S]))
_t("Continuous", "dataset.SyntheticContinuousBanditDataset",
   dict(dim_context=2, action_noise=1.0, reward_noise=1.0, min_action_value=-1.0, max_action_value=2.0, random_state=1),
   dict(dim_context=INT1, action_noise=[S, -0.1], reward_noise=[S, -0.1], min_action_value=[S, 3.0], max_action_value=[S, -2.0], random_state=[None, S]))
_t("Continuous.batch", "dataset.SyntheticContinuousBanditDataset", dict(n_rounds=5), dict(n_rounds=INT1),
   call=lambda cls, kw: cls(dim_context=2).obtain_batch_bandit_feedback(**kw))
SL = dict(n_unique_action=4, len_list=2, dim_context=2, reward_type="binary", reward_structure="cascade_additive", decay_function="exponential",
          click_model=None, eta=1.0, is_factorizable=False, random_state=1)
_t("Slate", "dataset.SyntheticSlateBanditDataset", SL,
   dict(n_unique_action=INT2, len_list=INT1 + [5], dim_context=INT1, reward_type=["other", 3], reward_structure=["other", 3], decay_function=["other", 3],
        click_model=["other", 3], random_state=[S]))
_t("Slate.click", "dataset.SyntheticSlateBanditDataset", dict(SL, click_model="pbm"), dict(eta=[S, -0.1]))
_t("Slate.batch", "dataset.SyntheticSlateBanditDataset", dict(n_rounds=5), dict(n_rounds=INT1),
   call=lambda cls, kw: cls(**dict(SL, behavior_policy_function=None)).obtain_batch_bandit_feedback(**kw))

for c in ("Random", "EpsilonGreedy"):
    _t(c, "policy." + c, dict(n_actions=4, len_list=2, batch_size=1, epsilon=0.5, random_state=1),
       dict(n_actions=INT2, len_list=INT1 + [5], batch_size=INT1, epsilon=[S, -0.1, 1.1]))
_t("BernoulliTS", "policy.BernoulliTS", dict(n_actions=4, len_list=2, batch_size=1), dict(n_actions=INT2, len_list=INT1 + [5], batch_size=INT1))
_t("BernoulliTS.prior", "policy.BernoulliTS", dict(n_actions=80, len_list=3, is_zozotown_prior=True, campaign="all"), dict(campaign=[None]))
for c in ("LinEpsilonGreedy", "LinUCB"):
    _t(c, "policy." + c, dict(dim=3, n_actions=4, len_list=2, batch_size=1, epsilon=0.5, random_state=1),
       dict(dim=INT1, n_actions=INT2, len_list=INT1 + [5], batch_size=INT1, epsilon=[S, -0.1] + ([1.1] if c != "LinUCB" else [])))
_t("LinTS", "policy.LinTS", dict(dim=3, n_actions=4, len_list=2, batch_size=1), dict(dim=INT1, n_actions=INT2, len_list=INT1 + [5], batch_size=INT1))
for c in ("LogisticEpsilonGreedy", "LogisticUCB", "LogisticTS"):
    eps = {} if c == "LogisticTS" else dict(epsilon=0.5)
    bad = dict(dim=INT1, n_actions=INT2, len_list=INT1 + [5], batch_size=INT1, alpha_=[S, -0.1, None], lambda_=[S, -0.1, None])
    if eps:
        bad["epsilon"] = [S, -0.1] + ([1.1] if c != "LogisticUCB" else [])
    _t(c, "policy." + c, dict(dim=3, n_actions=4, len_list=2, batch_size=1, alpha_=1.0, lambda_=1.0, **eps), bad)
_t("IPWLearner", "policy.IPWLearner", dict(n_actions=4, len_list=2), dict(n_actions=INT2, len_list=INT1 + [5], base_classifier=["LinR", "lr"]))
_t("QLearner", "policy.QLearner", dict(n_actions=4, len_list=2, base_model="LinR"), dict(n_actions=INT2, len_list=INT1 + [5], base_model=["lr", None]))
NN = dict(n_actions=4, len_list=1, dim_context=2, off_policy_objective="ipw")
NNBAD = dict(hidden_layer_size=[S, (0,), (3.0,), [3], None], activation=["other", 3], solver=["other", 3], alpha=[S, -0.1], batch_size=[S, 0, 1.5],
             learning_rate_init=[S, 0.0, -0.1], max_iter=INT1, shuffle=BOOL, tol=[S, 0.0, -0.1], momentum=PROB, nesterovs_momentum=BOOL,
             early_stopping=BOOL, validation_fraction=[S, 0.0, 1.1], beta_1=PROB, beta_2=PROB, epsilon=[S, -0.1], n_iter_no_change=INT1, random_state=[S])
_t("NNPolicyLearner", "policy.NNPolicyLearner", NN,
   dict(NNBAD, n_actions=INT2, dim_context=INT1, off_policy_objective=["other", None, 3], policy_reg_param=[S, -0.1], var_reg_param=[S, -0.1]))
_t("ContinuousNN", "policy.ContinuousNNPolicyLearner", dict(dim_context=2, pg_method="ipw", bandwidth=0.1, output_space=(-1, 1)),
   dict(NNBAD, dim_context=INT1, pg_method=["other", 3], bandwidth=[None, S, -0.1, 0.0], output_space=[S, ("a", "b")]))
_t("QFunc", "policy.offline.QFuncEstimator", dict(n_actions=4, dim_context=2), dict(NNBAD, dim_context=INT1))
_t("QFuncContinuous", "policy.offline_continuous.QFuncEstimatorForContinuousAction", dict(dim_context=2), dict(NNBAD, dim_context=INT1))
_t("OpenBanditDataset", "dataset.OpenBanditDataset", dict(behavior_policy="random", campaign="men"), dict(behavior_policy=["other", None], campaign=["other", None]))
_t("Bootstrap", "utils.estimate_confidence_interval_by_bootstrap", dict(samples=np.arange(5.0), alpha=0.1, n_bootstrap_samples=3, random_state=1),
   dict(alpha=[S, -0.1, 1.1, None], n_bootstrap_samples=INT1, random_state=[S, -1]))


# values on the edge of the documented range, which must be accepted: parameter -> [(value, other settings)]
INFV = float("inf")
A2 = dict(n_actions=[(2, dict(n_deficient_actions=0))], dim_context=[(1, {})], n_deficient_actions=[(0, {}), (3, {})], reward_type=[("continuous", {})], beta=[(0, {}), (-50.0, {})], random_state=[(0, {})])
ONL = dict(n_actions=[(2, {}), (2, dict(len_list=1))], len_list=[(1, {}), (4, {})], batch_size=[(1, {}), (1000, {})])
NNE = dict(dim_context=[(1, {})], hidden_layer_size=[((), {}), ((1,), {}), ((3, 2, 4), {})], batch_size=[(1, {}), (10**6, {})], max_iter=[(1, {})], momentum=[(0.0, {}), (1.0, {})], beta_1=[(0.0, {})], beta_2=[(0.0, {})], alpha=[(0.0, {})],
           n_iter_no_change=[(1, {})], activation=[(a, {}) for a in ("identity", "logistic", "tanh", "relu", "elu")], solver=[(a, {}) for a in ("adagrad", "sgd", "adam")], random_state=[(0, {}), (None, {})])
EDGE = {
    "BalancedIPW": dict(lambda_=[(0.0, {}), (INFV, {}), (3, {})]), "RegressionModel": dict(n_actions=[(2, {})], len_list=[(1, {}), (3, {})], fitting_method=[("iw", {}), ("mrdr", {})]),
    "ImportanceWeightEstimator": dict(n_actions=[(2, {})], len_list=[(1, {}), (3, {})], fitting_method=[("raw", {})]), "PropensityScoreEstimator": dict(n_actions=[(2, {})], len_list=[(3, {})]),
    "SyntheticBanditDataset": A2, "SyntheticBanditDataset.batch": dict(n_rounds=[(1, {})]), "Continuous.batch": dict(n_rounds=[(1, {})]), "Slate.batch": dict(n_rounds=[(1, {})]),
    "WithActionEmbeds": dict(A2, n_cat_per_dim=[(1, {})], latent_param_mat_dim=[(1, {})], n_cat_dim=[(1, {})], n_unobserved_cat_dim=[(0, {}), (3, {})], n_irrelevant_cat_dim=[(0, {}), (3, {})]),
    "MultiLoggers": dict(n_actions=[(2, {})], dim_context=[(1, {})], betas=[([0.0], dict(rhos=[1.0])), ([0, -3, 5], dict(rhos=[1, 2, 3]))], rhos=[([0.0, 1.0], {}), ([7, 1], {})]),
    "Continuous": dict(dim_context=[(1, {})], min_action_value=[(-INFV, {})], max_action_value=[(INFV, {})]),
    "Slate": dict(n_unique_action=[(2, {})], len_list=[(2, {}), (4, {}), (6, dict(is_factorizable=True))], dim_context=[(1, {})], reward_type=[("continuous", {})], decay_function=[("inverse", {})],
                  reward_structure=[(x, {}) for x in ("cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay")], click_model=[("pbm", {}), ("cascade", {})]),
    "Slate.click": dict(eta=[(0.0, {}), (10.0, {})]),
    "Random": ONL, "EpsilonGreedy": dict(ONL, epsilon=[(0.0, {}), (1.0, {})]), "BernoulliTS": ONL, "LinEpsilonGreedy": dict(ONL, dim=[(1, {})], epsilon=[(0.0, {}), (1.0, {})]),
    "LinUCB": dict(ONL, dim=[(1, {})], epsilon=[(0.0, {}), (5.0, {})]), "LinTS": dict(ONL, dim=[(1, {})]),
    "LogisticEpsilonGreedy": dict(ONL, dim=[(1, {})], epsilon=[(0.0, {}), (1.0, {})], alpha_=[(1e-3, {})], lambda_=[(1e-3, {}), (1e3, {})]),
    "LogisticUCB": dict(ONL, dim=[(1, {})], epsilon=[(0.0, {}), (5.0, {})], lambda_=[(1e-3, {})]), "LogisticTS": dict(ONL, dim=[(1, {})], alpha_=[(1e-3, {})], lambda_=[(1e-3, {})]),
    "IPWLearner": dict(n_actions=[(2, {})], len_list=[(1, {}), (4, {})]), "QLearner": dict(n_actions=[(2, {})], len_list=[(1, {}), (4, {})]),
    "NNPolicyLearner": dict(NNE, n_actions=[(2, {})], off_policy_objective=[("dm", {}), ("dr", {}), ("snipw", {}), ("ipw-os", {}), ("ipw-subgauss", {})], policy_reg_param=[(0.0, {}), (3.0, {})], var_reg_param=[(0.0, {}), (3.0, {})]),
    "ContinuousNN": dict(NNE, pg_method=[("dpg", dict(bandwidth=None)), ("dr", {})], output_space=[(None, {}), ((0, 5), {})]),
    "QFunc": dict(NNE, n_actions=[(2, {})]), "QFuncContinuous": NNE,
    "OpenBanditDataset": dict(behavior_policy=[("bts", {})], campaign=[("women", {})]),
    "Bootstrap": dict(alpha=[(0.001, {}), (0.999, {})], n_bootstrap_samples=[(1, {})], samples=[(np.array([2.5]), {})]),
}
for _c in ("InverseProbabilityWeighting", "SelfNormalizedInverseProbabilityWeighting", "DoublyRobust", "SelfNormalizedDoublyRobust", "SwitchDoublyRobust", "DoublyRobustWithShrinkage"):
    EDGE[_c] = dict(lambda_=[(0.0, {}), (INFV, {}), (3, {})])
for _c in ("MultiLoggersNaiveInverseProbabilityWeighting", "MultiLoggersBalancedInverseProbabilityWeighting", "MultiLoggersWeightedInverseProbabilityWeighting", "MultiLoggersNaiveDoublyRobust", "MultiLoggersBalancedDoublyRobust",
           "MultiLoggersWeightedDoublyRobust"):
    EDGE[_c] = dict(lambda_=[(0.0, {}), (INFV, {}), (3, {})])
for _c in ("SubGaussianInverseProbabilityWeighting", "SubGaussianDoublyRobust"):
    EDGE[_c] = dict(lambda_=[(0.0, {}), (1.0, {})])
for _c in ("KernelizedInverseProbabilityWeighting", "KernelizedSelfNormalizedInverseProbabilityWeighting", "KernelizedDoublyRobust"):
    EDGE[_c] = dict(kernel=[(x, {}) for x in ("gaussian", "epanechnikov", "triangular", "cosine")], bandwidth=[(1e-6, {}), (3, {})])
for _c in ("MarginalizedInverseProbabilityWeighting", "SelfNormalizedMarginalizedInverseProbabilityWeighting"):
    EDGE[_c] = dict(n_actions=[(2, {})], embedding_selection_method=[(None, {}), ("greedy", {})], min_emb_dim=[(1, {})])
for _c in ("InverseProbabilityWeightingTuning", "DoublyRobustTuning", "SwitchDoublyRobustTuning", "DoublyRobustWithShrinkageTuning"):
    EDGE[_c] = dict(lambdas=[([1.0], {}), ([0.0, INFV], {}), ([3, 1], {})], tuning_method=[("slope", {})])
for _c in ("SubGaussianInverseProbabilityWeightingTuning", "SubGaussianDoublyRobustTuning"):
    EDGE[_c] = dict(lambdas=[([0.0], {}), ([0.0, 1.0], {})], tuning_method=[("mse", {})])


def resolve(path):
    import obp.dataset, obp.ope, obp.policy, obp.simulator, obp.utils  # noqa
    import obp

    o = obp
    for part in path.split("."):
        o = getattr(o, part)
    return o


def model(v):
    from sklearn.linear_model import LinearRegression, LogisticRegression

    if not isinstance(v, str):
        return v
    return LogisticRegression() if v == "LR" else LinearRegression() if v == "LinR" else v


def run(case, mon, r):
    t = TABLE[case["idx"]]
    cls = resolve(t["path"])
    call = t["call"] or (lambda c, kw: c(**kw))
    good = {k: model(v) for k, v in t["good"].items()}
    call(cls, dict(good))  # the control
    for p, vals in t["bad"].items():
        for v in vals:
            kw = dict(good)
            kw[p] = model(v)
            mon.raises(lambda: call(cls, kw), f"param:{p}", f"{t['label']}({p}={v!r})")
            mon.sig(t["label"], p, repr(v)[:20])
    for p, vals in EDGE.get(t["label"], {}).items():
        for v, more in vals:
            kw = dict(good, **{k: model(x) for k, x in more.items()})
            kw[p] = v
            try:
                call(cls, kw)
                ok, e = True, None
            except Exception as ex:
                ok, e = False, ex
            mon.check(ok, f"edge:{p}", lambda: f"{t['label']}({p}={v!r}, {more}) is within the documented range but is rejected: {e!r}")
            mon.ev("edge")
            mon.sig(t["label"], p, repr(v)[:20], "edge")
    mon.ev("params")
