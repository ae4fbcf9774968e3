"""C28: an optional argument that is omitted has its documented default."""
import math

import numpy as np

from .. import gen, progs
from . import c01, c03, c04, c05, c06
from .c10 import diff

RULE = ("for every public callable with documented defaults: random values for the other arguments, then one run with every default written out and one run with a random subset of "
        "the defaulted arguments omitted, from the same random state; results compared entry by entry; a third run with another value of one omitted argument shows that the comparison can tell; "
        "non-trivial: distinct (callable, omitted arguments)")
ASSUMPTIONS = ["only defaults on which documentation and code agree are included"]
BUDGET = dict(quick=300, thorough=2400)
INF = math.inf
NO = object()


# ---- data sets ------------------------------------------------------------------------------------------
def synth(r):
    from obp import dataset as D

    k = int(r.choice([2, 4]))
    n = int(r.choice([6, 20]))
    g = dict(init=dict(dim_context=(1, 3), reward_type=("binary", "continuous"), reward_function=(None, D.logistic_reward_function), reward_std=(1.0, 0.2), action_context=(None, r.normal(size=(k, 2))),
                       behavior_policy_function=(None, D.linear_behavior_policy), beta=(1.0, -2.0), n_deficient_actions=(0, 1), random_state=(12345, 7)))

    def run(a):
        d = D.SyntheticBanditDataset(n_actions=k, **a["init"])
        return [d.obtain_batch_bandit_feedback(n) for _ in range(2)]

    return g, run


def functions(r):
    from obp import dataset as D

    k, n = int(r.choice([2, 4])), 8
    x, ac = r.normal(size=(n, 3)), r.normal(size=(k, 2))
    rf = ["linear_reward_function", "polynomial_reward_function", "sparse_reward_function", "logistic_reward_function", "logistic_polynomial_reward_function", "logistic_sparse_reward_function"]
    name = str(r.choice(rf + ["linear_behavior_policy", "polynomial_behavior_policy"]))
    g = dict(f=dict(random_state=(None, 7)))
    if name in rf:
        g["f"].update(coef_function=(_uni(), _coef), z_score=(True, False))

    def run(a):
        return getattr(D, name)(context=x, action_context=ac, **a["f"])

    return g, run


def _uni():
    from obp.dataset.synthetic import sample_random_uniform_coefficients as f

    return f


def _coef(effective_dim_action_context, effective_dim_context, random_, **kw):
    a = np.linspace(-1, 1, max(effective_dim_context, 1))[:effective_dim_context]
    b = np.linspace(0, 1, max(effective_dim_action_context, 1))[:effective_dim_action_context]
    return a, b, np.outer(a, b)


def multi(r):
    from obp import dataset as D

    k = int(r.choice([2, 4]))
    g = dict(init=dict(dim_context=(1, 3), reward_type=("binary", "continuous"), reward_function=(None, D.logistic_reward_function), reward_std=(1.0, 0.2), action_context=(None, r.normal(size=(k, 2))),
                       n_deficient_actions=(0, 1), random_state=(12345, 7)))

    def run(a):
        d = D.SyntheticMultiLoggersBanditDataset(n_actions=k, betas=[2.0, -1.0], rhos=[0.5, 0.5], **a["init"])
        return [d.obtain_batch_bandit_feedback(12) for _ in range(2)]

    return g, run


def embed(r):
    from obp import dataset as D

    k = int(r.choice([3, 5]))
    g = dict(init=dict(dim_context=(1, 3), reward_type=("binary", "continuous"), reward_std=(1.0, 0.2), n_deficient_actions=(0, 1), random_state=(12345, 7), n_cat_per_dim=(10, 4),
                       latent_param_mat_dim=(5, 2), n_cat_dim=(3, 4), p_e_a_param_std=(1.0, 3.0), n_unobserved_cat_dim=(0, 1), n_irrelevant_cat_dim=(0, 1), reward_function=(D.logistic_reward_function, NO),
                       behavior_policy_function=(None, D.linear_behavior_policy)))
    g["init"].pop("reward_function")

    def run(a):
        d = D.SyntheticBanditDatasetWithActionEmbeds(n_actions=k, reward_function=D.logistic_reward_function, **a["init"])
        return [d.obtain_batch_bandit_feedback(10) for _ in range(2)]

    return g, run


def cont(r):
    from obp import dataset as D

    g = dict(init=dict(dim_context=(1, 3), action_noise=(1.0, 0.3), reward_noise=(1.0, 0.3), min_action_value=(-INF, -0.5), max_action_value=(INF, 0.5), reward_function=(None, D.linear_reward_funcion_continuous),
                       behavior_policy_function=(None, D.linear_behavior_policy_continuous), random_state=(12345, 7)))

    def run(a):
        d = D.SyntheticContinuousBanditDataset(**a["init"])
        return [d.obtain_batch_bandit_feedback(12) for _ in range(2)]

    return g, run


def slate(r):
    from obp import dataset as D

    k, L = 3, 2
    m = 4
    logit = r.normal(size=(m, k)) * 3
    act = np.concatenate([r.permutation(k)[:L] for _ in range(m)])
    g = dict(init=dict(dim_context=(1, 3), reward_type=("binary", "continuous"), reward_structure=("cascade_additive", "independent"), decay_function=("exponential", "inverse"), click_model=(None, "cascade"),
                       eta=(1.0, 2.0), is_factorizable=(False, True), random_state=(12345, 7)),
             obtain=dict(return_pscore_item_position=(True, False), clip_logit_value=(None, 0.2)),
             given=dict(return_pscore_item_position=(True, False), clip_logit_value=(None, 0.2)),
             eps=dict(epsilon=(1.0, 0.2)))
    forced = {}
    if r.random() < 0.5:
        forced = dict(reward_structure=str(r.choice(["cascade_decay", "standard_decay"])))
        g["init"].pop("reward_structure")

    def run(a):
        i = dict(a["init"], **forced)
        rt = i.get("reward_type", "binary")
        d = D.SyntheticSlateBanditDataset(n_unique_action=k, len_list=L, behavior_policy_function=D.linear_behavior_policy_logit,
                                          base_reward_function=D.logistic_reward_function if rt == "binary" else D.linear_reward_function, **i)
        f = d.obtain_batch_bandit_feedback(8, **a["obtain"])
        out = [f, d.obtain_pscore_given_evaluation_policy_logit(action=act, evaluation_policy_logit_=logit, **a["given"])]
        out.append(d.generate_evaluation_policy_pscore(evaluation_policy_type=("optimal", "anti-optimal")[m % 2], context=f["context"], action=f["action"], **a["eps"]))
        return out

    return g, run


def multiclass(r):
    from obp.dataset import MultiClassToBanditReduction as M
    from sklearn.linear_model import LogisticRegression

    k = int(r.choice([2, 3]))
    y = np.concatenate([np.arange(k)] * 20)
    X = r.normal(size=(20 * k, 3)) + 0.6 * y[:, None]
    lr = LogisticRegression(max_iter=60, C=0.3)
    g = dict(init=dict(n_deficient_actions=(0, 1)), split=dict(eval_size=(0.25, 0.4), random_state=(None, 7)), obtain=dict(random_state=(None, 3)),
             pol=dict(base_classifier_e=(None, LogisticRegression(max_iter=60, C=50.0)), alpha_e=(1.0, 0.5)))

    def run(a):
        d = M(X=X, y=y, base_classifier_b=lr, alpha_b=0.7, **a["init"])
        d.split_train_eval(**a["split"])
        return [d.obtain_batch_bandit_feedback(**a["obtain"]), d.obtain_action_dist_by_eval_policy(**a["pol"])]

    return g, run


def obd(r):
    from pathlib import Path

    import obp.dataset
    from obp.dataset import OpenBanditDataset

    bp, c = str(r.choice(["bts", "random"])), str(r.choice(["men", "women"]))
    g = dict(init=dict(data_path=(None, NO)), obtain=dict(test_size=(0.3, 0.5), is_timeseries_split=(False, True)),
             boot=dict(sample_size=(None, 50), test_size=(0.3, 0.5), is_timeseries_split=(False, True), random_state=(None, 5)),
             gt=dict(data_path=(None, NO), test_size=(0.3, 0.5), is_timeseries_split=(False, True)))

    def run(a):
        d = OpenBanditDataset(behavior_policy=bp, campaign=c, **a["init"])
        return [d.obtain_batch_bandit_feedback(**a["obtain"]), d.sample_bootstrap_bandit_feedback(**a["boot"]), OpenBanditDataset.calc_on_policy_policy_value_estimate(behavior_policy=bp, campaign=c, **a["gt"])]

    return g, run


# ---- estimators -----------------------------------------------------------------------------------------
CI = lambda: dict(alpha=(0.05, 0.3), n_bootstrap_samples=(10000, 40), random_state=(None, 7))


def nice(r, n=None):
    L = 1 if r.random() < 0.6 else 2
    d = gen.logged(r, n=n or int(r.choice([20, 50])), k=3, L=L)
    d["pscore"], d["estimated_pscore"] = r.uniform(0.1, 1, d["n"]), r.uniform(0.1, 1, d["n"])
    d["action_dist"] = r.dirichlet(np.ones(3), size=(d["n"], L)).transpose(0, 2, 1).copy()
    d["reward"] = r.normal(size=d["n"]) + 1
    d["w_hat"] = r.gamma(1, 1, d["n"]) + 0.1
    if L == 1:
        d["position"] = np.zeros(d["n"], int)
    return d


def single(r):
    d = nice(r)
    name = str(r.choice(c01.NAMES))
    g = dict(init={}, val={}, ci=dict(CI()))
    if name == "rm":
        g["ci"].pop("n_bootstrap_samples")
        d["action_dist"] = np.zeros_like(d["action_dist"])
        d["action_dist"][np.arange(d["n"]), r.integers(3, size=d["n"]), :] = 1
        d["action_dist"][0, :, :] = 0
        d["action_dist"][0, d["action"][0], :] = 1
    if name in ("ipw", "dr", "switch-dr", "b-ipw", "snipw", "sndr"):
        g["init"]["lambda_"] = (INF, 1.0)
    elif name in ("dr-os", "sg-ipw", "sg-dr"):
        g["init"]["lambda_"] = (0.0, 0.5)
    if name in c01.HAS_EST:
        g["init"]["use_estimated_pscore"] = (False, True)
    if d["L"] == 1:
        g["val"]["position"] = (None, NO)
        g["ci"]["position"] = (None, NO)
    kw = c01.kwargs_of(d, name, name in c01.HAS_EST)
    B = dict(n_bootstrap_samples=60) if name == "rm" else {}

    def run(a):
        e = c01.cls(name)(**a["init"])
        k1 = {k: v for k, v in kw.items() if k != "position" or d["L"] > 1}
        return [e.estimate_policy_value(**k1, **a["val"]), e.estimate_interval(**k1, **B, **a["ci"])]

    return g, run, name


def tuning(r):
    import obp.ope as o

    d = nice(r, 40)
    name = str(r.choice(["InverseProbabilityWeightingTuning", "DoublyRobustTuning", "SwitchDoublyRobustTuning", "DoublyRobustWithShrinkageTuning", "SubGaussianInverseProbabilityWeightingTuning", "SubGaussianDoublyRobustTuning"]))
    dr = "Doubly" in name
    lam = [0.01, 0.1, 0.3, 0.9] if name.startswith("Sub") else [0.3, 1.0, 3.0, 30.0]
    g = dict(init=dict(tuning_method=("slope", "mse"), use_bias_upper_bound=(True, False), use_estimated_pscore=(False, True)), val={}, ci=dict(CI()))
    if d["L"] == 1:
        g["val"]["position"] = (None, NO)
        g["ci"]["position"] = (None, NO)
    kw = c01.kwargs_of(d, "dr" if dr else "ipw", True)

    def run(a):
        k1 = {k: v for k, v in kw.items() if k != "position" or d["L"] > 1}
        e = getattr(o, name)(lambdas=list(lam), **a["init"])
        return [e.estimate_policy_value(**k1, **a["val"]), e.best_hyperparam, e.estimate_interval(**k1, **a["ci"])]

    return g, run, name


def multi_est(r):
    d = nice(r)
    d["stratum"] = r.integers(2, size=d["n"])
    d["stratum"][:4] = [0, 1, 0, 1]
    name = str(r.choice(c03.NAMES))
    est, kw = c03.call(name, d, INF, True)
    est2, kw2 = c03.call(name, d, INF, False)
    kw = dict(kw, **kw2)
    g = dict(init=dict(lambda_=(INF, 1.0), use_estimated_pscore=(False, True)), val={}, ci=dict(CI()))
    if d["L"] == 1:
        g["val"]["position"] = (None, NO)
        g["ci"]["position"] = (None, NO)

    def run(a):
        e = type(est)(**a["init"])
        k1 = {k: v for k, v in kw.items() if k != "position" or d["L"] > 1}
        return [e.estimate_policy_value(**k1, **a["val"]), e.estimate_interval(**k1, **a["ci"])]

    return g, run, name


def cont_est(r):
    n = int(r.choice([20, 50]))
    name = str(r.choice(c04.NAMES))
    ab = r.normal(size=n)
    kw = dict(reward=r.normal(size=n), action_by_behavior_policy=ab, pscore=r.uniform(0.05, 2, n), action_by_evaluation_policy=ab + r.normal(size=n) * 0.3)
    if name.endswith("dr"):
        kw["estimated_rewards_by_reg_model"] = r.normal(size=n)
    kernel = str(r.choice(c04.KERNELS))

    def run(a):
        return c04.cls(name)(kernel=kernel, bandwidth=0.8).estimate_interval(**kw, **a["ci"])

    return dict(ci=dict(CI())), run, name


def slate_est(r):
    name = str(r.choice(c05.NAMES))
    d = c05.slate_log(r, n=int(r.choice([10, 30])))
    kw = c05.kw_of(name, d)

    def run(a):
        return c05.make(name, d).estimate_interval(**kw, **a["ci"])

    return dict(ci=dict(CI())), run, name


def embed_est(r):
    import obp.ope as o
    from sklearn.linear_model import LogisticRegression

    n, k, D = 60, 3, 3
    sn = bool(r.random() < 0.5)
    cls = o.SelfNormalizedMarginalizedInverseProbabilityWeighting if sn else o.MarginalizedInverseProbabilityWeighting
    pi_b = r.dirichlet(np.ones(k) * 0.5, size=n)[:, :, None] * 0.97 + 0.01
    emb = r.integers(3, size=(n, D))
    act = r.integers(k, size=n)
    act[:k] = np.arange(k)
    kw = dict(reward=r.normal(size=n), action=act, action_embed=emb, pi_b=pi_b, action_dist=r.dirichlet(np.ones(k) * 0.4, size=n)[:, :, None])
    pea = np.stack([r.dirichlet(np.ones(3) * 0.3, size=k) * 0.97 + 0.01 for _ in range(D)], axis=2)
    fitted = bool(r.random() < 0.5)
    kw["context"] = r.normal(size=(n, 2))
    sel = str(r.choice(["none", "exact", "greedy"]))
    g = dict(init=dict(min_emb_dim=(1, 2), delta=(0.05, 0.6)), val=dict(position=(None, NO)), ci=dict(CI(), position=(None, NO)))
    # the classifier is seeded by the caller; only its use is defaulted
    g["init"]["pi_a_x_e_estimator"] = (LogisticRegression(max_iter=1000, random_state=12345), LogisticRegression(max_iter=1000, C=0.01, random_state=1))
    if not fitted:
        kw["p_e_a"] = pea
    else:
        g["val"]["p_e_a"] = (None, pea)
        g["ci"]["p_e_a"] = (None, pea)
    if sel != "none":
        g["init"]["embedding_selection_method"] = (sel, NO)
        g["init"].pop("embedding_selection_method")
    g["ci"]["n_bootstrap_samples"] = (10000, 40)

    def run(a):
        i = dict(a["init"])
        if sel != "none":
            i["embedding_selection_method"] = sel
        e = cls(n_actions=k, **i)
        vals = [e.estimate_policy_value(**dict(kw, reward=np.random.RandomState(s).normal(size=n) * 0.3 + 1 + s * (np.arange(n) % 3 == s % 3)), **a["val"]) for s in range(1 if sel == "none" or fitted else 25)]
        return [vals, e.estimate_interval(**kw, **a["ci"])]

    return g, run, "snmipw" if sn else "mipw"


# ---- evaluators -----------------------------------------------------------------------------------------
def meta(r):
    import obp.ope as o

    d = nice(r)
    bf = dict(n_rounds=d["n"], context=r.normal(size=(d["n"], 2)), action=d["action"], reward=d["reward"], position=d["position"], pscore=d["pscore"])
    fam = str(r.choice(["single", "multi", "continuous", "slate"]))
    M = lambda: dict(alpha=(0.05, 0.3), n_bootstrap_samples=(100, 40), random_state=(None, 7))
    g = dict(ci=M(), sm=M(), ev=dict(metric=("se", "relative-ee")), cmp=dict(metric=("se", "relative-ee")))
    if fam in ("single", "multi"):
        if fam == "single":
            ests = [o.InverseProbabilityWeighting(), o.SelfNormalizedInverseProbabilityWeighting(), o.DoublyRobust(), o.DirectMethod()]
            A = o.OffPolicyEvaluation(bandit_feedback=bf, ope_estimators=ests)
        else:
            bf["stratum_idx"] = r.integers(2, size=d["n"])
            bf["stratum_idx"][:4] = [0, 1, 0, 1]
            bf["pscore_avg"] = r.uniform(0.1, 1, d["n"])
            ests = [o.MultiLoggersNaiveInverseProbabilityWeighting(), o.MultiLoggersWeightedInverseProbabilityWeighting(), o.MultiLoggersBalancedDoublyRobust()]
            A = o.MultiLoggersOffPolicyEvaluation(bandit_feedback=bf, ope_estimators=ests)
        base = dict(action_dist=d["action_dist"], estimated_rewards_by_reg_model=d["q"])
    elif fam == "continuous":
        n = d["n"]
        bf = dict(n_rounds=n, context=r.normal(size=(n, 2)), action=r.normal(size=n), reward=d["reward"], pscore=r.uniform(0.1, 2, n), position=None)
        ests = [o.KernelizedInverseProbabilityWeighting(kernel="gaussian", bandwidth=1.0), o.KernelizedDoublyRobust(kernel="gaussian", bandwidth=1.0)]
        A = o.ContinuousOffPolicyEvaluation(bandit_feedback=bf, ope_estimators=ests)
        base = dict(action_by_evaluation_policy=r.normal(size=n), estimated_rewards_by_reg_model=r.normal(size=n))
    else:
        m, L = 15, 3
        sid, pos = np.repeat(np.arange(m), L), np.tile(np.arange(L), m)
        casc = lambda: np.cumprod(r.uniform(0.5, 1, (m, L)), axis=1).ravel()
        bf = dict(n_rounds=m, context=r.normal(size=(m, 2)), slate_id=sid, action=r.integers(4, size=m * L), reward=r.normal(size=m * L), position=pos, pscore=np.repeat(r.uniform(0.1, 1, m), L), pscore_item_position=r.uniform(0.1, 1, m * L), pscore_cascade=casc())
        ests = [o.SlateStandardIPS(len_list=L), o.SlateIndependentIPS(len_list=L), o.SlateRewardInteractionIPS(len_list=L)]
        A = o.SlateOffPolicyEvaluation(bandit_feedback=bf, ope_estimators=ests)
        base = dict(evaluation_policy_pscore=np.repeat(r.uniform(0.1, 1, m), L), evaluation_policy_pscore_item_position=r.uniform(0.1, 1, m * L), evaluation_policy_pscore_cascade=casc())

    def run(a):
        gt = 0.7
        key = "ground_truth_policy_value"
        out = [A.estimate_intervals(**base, **a["ci"]), [t.to_dict() for t in A.summarize_off_policy_estimates(**base, **a["sm"])]]
        out.append(A.evaluate_performance_of_estimators(**{key: gt}, **base, **a["ev"]))
        out.append(A.summarize_estimators_comparison(**{key: gt}, **base, **a["cmp"]).to_dict())
        return out

    return g, run, fam


# ---- models and learners ----------------------------------------------------------------------------------
def regression(r):
    from obp.ope import RegressionModel
    from sklearn.linear_model import Ridge

    L = 1 if r.random() < 0.7 else 2
    l = progs.log(r, n=60, k=3, L=L, dim=2)
    rew = r.normal(size=60)
    g = dict(init=dict(action_context=(None, r.normal(size=(3, 2))), fitting_method=("normal", "iw")), fp=dict(n_folds=(1, 3), random_state=(None, 7)))
    if L == 1:
        g["init"]["len_list"] = (1, NO)
        g["fp"]["position"] = (None, NO)

    def run(a):
        i = dict(a["init"])
        f = dict(a["fp"])
        if L > 1:
            i["len_list"], f["position"] = L, l["position"]
        return RegressionModel(n_actions=3, base_model=Ridge(), **i).fit_predict(context=l["context"], action=l["action"], reward=rew, pscore=l["pscore"], action_dist=l["action_dist"], **f)

    return g, run


def regression_normal(r):
    from obp.ope import RegressionModel
    from sklearn.linear_model import Ridge

    l = progs.log(r, n=40, k=3, L=1, dim=2)
    rew = r.normal(size=40)
    g = dict(fit=dict(position=(None, NO), pscore=(None, NO), action_dist=(None, NO)), pred=dict())

    def run(a):
        m = RegressionModel(n_actions=3, base_model=Ridge())
        m.fit(context=l["context"], action=l["action"], reward=rew, **a["fit"])
        return m.predict(context=l["context"])

    return g, run


def classification(r):
    from obp.ope import ImportanceWeightEstimator, PropensityScoreEstimator
    from sklearn.linear_model import LogisticRegression

    l = progs.log(r, n=90, k=2, L=1, dim=2)
    l["action"][: 90 // 2] = 0
    l["action"][90 // 2 :] = 1
    lr = LogisticRegression(max_iter=60)
    iw = bool(r.random() < 0.5)
    g = dict(init=dict(len_list=(1, NO), calibration_cv=(2, 4)), fp=dict(position=(None, NO), n_folds=(1, 3), random_state=(None, 7), evaluate_model_performance=(False, True)))
    if iw:
        g["init"].update(action_context=(None, r.normal(size=(2, 2))), fitting_method=("sample", "raw"))

    def run(a):
        kw = dict(context=l["context"], action=l["action"])
        if iw:
            kw["action_dist"] = l["action_dist"]
        m = (ImportanceWeightEstimator if iw else PropensityScoreEstimator)(n_actions=2, base_model=lr, **a["init"])
        out = [m.fit_predict(**kw, **a["fp"])]
        return out + [sorted(m.eval_result) if m.__dict__.get("eval_result") else None]

    return g, run, "iw" if iw else "ps"


def opl(r):
    from obp.policy import IPWLearner, QLearner
    from sklearn.linear_model import LogisticRegression

    l = progs.log(r, n=60, k=3, L=1, dim=2)
    new = r.normal(size=(12, 2))
    q = bool(r.random() < 0.5)
    lr = LogisticRegression(max_iter=60)
    g = dict(init=dict(len_list=(1, NO)), fit=dict(position=(None, NO)), sample=dict(tau=(1.0, 0.05), random_state=(None, 7)), proba=dict(tau=(1.0, 0.05)))
    if q:
        g["init"]["fitting_method"] = ("normal", "iw")
    else:
        g["fit"]["pscore"] = (None, l["pscore"])

    def run(a):
        m = QLearner(n_actions=3, base_model=lr, **a["init"]) if q else IPWLearner(n_actions=3, base_classifier=lr, **a["init"])
        f = dict(a["fit"])
        if q:
            f["pscore"] = l["pscore"]
        m.fit(context=l["context"], action=l["action"], reward=l["reward"], **f)
        return [m.predict(context=new), m.sample_action(context=new, **a["sample"]), m.predict_proba(context=new, **a["proba"])]

    return g, run, "q" if q else "ipw"


NN = lambda mi: dict(hidden_layer_size=((100,), (7, 5)), activation=("relu", "tanh"), solver=("adam", "sgd"), batch_size=("auto", 9), learning_rate_init=(0.0001, 0.01), max_iter=(mi, 12), shuffle=(True, False),
                     momentum=(0.9, 0.1), nesterovs_momentum=(True, False), early_stopping=(False, True), validation_fraction=(0.1, 0.4), beta_1=(0.9, 0.5), beta_2=(0.999, 0.7), epsilon=(1e-8, 0.1),
                     n_iter_no_change=(10, 2), tol=(1e-4, 1e-1), random_state=(None, 7))


def nn(r):
    from obp.policy import NNPolicyLearner

    l = progs.log(r, n=int(r.choice([40, 230])), k=3, L=1, dim=2)
    new = r.normal(size=(6, 2))
    obj = str(r.choice(["ipw", "dm", "snipw", "dr"]))
    n = len(l["reward"])
    g = dict(init=dict(NN(200), policy_reg_param=(0.0, 0.5), var_reg_param=(0.0, 0.5), len_list=(1, NO), q_func_estimator_hyperparams=(None, dict(max_iter=3, solver="sgd"))), sample=dict(tau=(1.0, 0.1), random_state=(None, 3)))
    if n > 100:  # keep it cheap
        g["init"].pop("max_iter")

    def run(a):
        i = dict(a["init"])
        if n > 100:
            i["max_iter"] = 3
        m = NNPolicyLearner(n_actions=3, dim_context=2, off_policy_objective=obj, **i)
        m.fit(context=l["context"], action=l["action"], reward=l["reward"], pscore=l["pscore"])
        return [m.predict_proba(context=new), m.sample_action(context=new, **a["sample"])]

    return g, run, obj


def qf(r):
    import torch
    from obp.policy.offline import QFuncEstimator
    from obp.policy.offline_continuous import QFuncEstimatorForContinuousAction

    l = progs.log(r, n=int(r.choice([40, 230])), k=3, L=1, dim=2)
    c = bool(r.random() < 0.5)
    n = len(l["reward"])
    act = r.normal(size=n) if c else l["action"]
    g = dict(init=NN(100 if c else 200))
    if n > 100:
        g["init"].pop("max_iter")

    def run(a):
        i = dict(a["init"])
        if n > 100:
            i["max_iter"] = 3
        m = QFuncEstimatorForContinuousAction(dim_context=2, **i) if c else QFuncEstimator(n_actions=3, dim_context=2, **i)
        m.fit(context=l["context"], action=act, reward=l["reward"].astype(float))
        T = lambda v: torch.from_numpy(np.asarray(v)).float()
        return (m.predict(context=T(l["context"]), action=T(act)) if c else m.predict(context=T(l["context"]))).detach().numpy()

    return g, run, "cont" if c else "disc"


def cnn(r):
    from obp.policy import ContinuousNNPolicyLearner

    n = int(r.choice([40, 230]))
    x, act, rew, ps = r.normal(size=(n, 2)), r.uniform(-2, 2, n), r.normal(size=n), r.uniform(0.2, 1, n)
    obj = str(r.choice(["dpg", "ipw", "dr"]))
    g = dict(init=dict(NN(100), output_space=(None, (-0.1, 0.1)), q_func_estimator_hyperparams=(None, dict(max_iter=3, solver="sgd"))))
    if n > 100:
        g["init"].pop("max_iter")

    def run(a):
        i = dict(a["init"])
        if n > 100:
            i["max_iter"] = 3
        m = ContinuousNNPolicyLearner(dim_context=2, pg_method=obj, bandwidth=None if obj == "dpg" else 0.5, **i)
        m.fit(context=x, action=act, reward=rew, pscore=ps)
        return m.predict(context=x)

    return g, run, obj


# ---- online -----------------------------------------------------------------------------------------------
def online(r):
    import obp.policy as P
    from obp.policy.policy_type import PolicyType

    name = str(r.choice(progs.ONLINE))
    k, T = 3, 12
    X, rew = r.normal(size=(T, 2)), (r.random(T) < 0.5).astype(float)
    fixed = {}
    acts = r.integers(k, size=T)
    g = dict(init=dict(len_list=(1, 2), batch_size=(1, 3), random_state=(None, 7)), dist={})
    if name == "EpsilonGreedy":
        g["init"]["epsilon"] = (1.0, 0.1)
        acts[:k] = np.arange(k)
    elif name in ("LinEpsilonGreedy", "LinUCB", "LogisticEpsilonGreedy", "LogisticUCB"):
        g["init"]["epsilon"] = (0.0, 0.8)
    elif name == "BernoulliTS":
        g["init"].update(alpha=(None, np.array([1.0, 20.0, 3.0])), beta=(None, np.array([5.0, 1.0, 9.0])), is_zozotown_prior=(False, NO), campaign=(None, NO), policy_name=("bts", NO))
        g["dist"] = dict(n_rounds=(1, 4), n_sim=(100000, 40))
        if r.random() < 0.85:
            g["dist"].pop("n_sim")
    elif name == "Random":
        g["dist"] = dict(n_rounds=(1, 4))
    if name.startswith("Logistic"):
        g["init"].update(alpha_=(1.0, 3.0), lambda_=(1.0, 0.2))
    if name.startswith("Li") or name.startswith("Lo"):
        fixed["dim"] = 2

    def run(a):
        p = getattr(P, name)(n_actions=k, **fixed, **a["init"])
        cf = p.policy_type == PolicyType.CONTEXT_FREE
        out = []
        for i in range(T):
            x = X[i : i + 1]
            out.append(np.asarray(p.select_action() if cf else p.select_action(x)).copy())
            kw = {} if cf else dict(context=x)
            p.update_params(action=int(acts[i]), reward=float(rew[i]), **kw)
        if hasattr(p, "compute_batch_action_dist"):
            extra = {} if name == "Random" or "n_sim" in g["dist"] else dict(n_sim=30)
            out.append(p.compute_batch_action_dist(**extra, **a["dist"]))
        return out

    return g, run, name


def simulator(r):
    from obp import dataset as D
    from obp.simulator.coefficient_drifter import CoefficientDrifter
    from obp.simulator.delay_sampler import ExponentialDelaySampler
    from obp.simulator.simulator import BanditEnvironmentSimulator

    k = 3
    g = dict(env=dict(dim_context=(1, 3), reward_type=("binary", NO), reward_function=(None, D.logistic_reward_function), delay_function=(None, NO), coef_function=(_uni(), _coef), reward_std=(1.0, NO),
                      action_context=(None, r.normal(size=(k, 2))), random_state=(12345, 7)),
             drift=dict(transition_period=(0, 2), transition_type=("linear", "weighted_sampled"), seasonal=(False, True), base_coefficient_weight=(0.0, 0.5), effective_dim_action_context=(None, NO), effective_dim_context=(None, NO),
                        random_state=(12345, 7)),
             delay=dict(max_scale=(100.0, 5.0), min_scale=(10.0, 1.0)))
    n = 6
    er = r.uniform(size=(n, k))

    def run(a):
        env = BanditEnvironmentSimulator(n_actions=k, **a["env"])
        B = env.next_bandit_round_batch(8)
        dr = CoefficientDrifter(drift_interval=3, **a["drift"])
        dl = ExponentialDelaySampler(random_state=5, **a["delay"])
        rs = np.random.RandomState(3)
        out = [B.context, B.rewards, B.expected_rewards, [dr.get_coefficients(n_rounds=m, effective_dim_action_context=2, effective_dim_context=3, random_=rs) for m in (2, 5, 4, 6)]]
        out.append([dl.exponential_delay_function(n_rounds=20, n_actions=k), dl.exponential_delay_function_expected_reward_weighted(expected_rewards=er, n_rounds=n, n_actions=k)])
        return out

    return g, run


def ground_truth(r):
    from obp.policy import EpsilonGreedy
    from obp.simulator.simulator import calc_ground_truth_policy_value

    n, k = 6, 3
    er = r.uniform(size=(n, k))
    bf = dict(n_rounds=n, action=r.integers(k, size=n), reward=(r.random(n) < 0.5).astype(int), position=None, context=r.normal(size=(n, 2)), pscore=np.full(n, 0.3), expected_reward=er)
    calls = []

    def sampler(expected_reward=None, action=None, **kw):
        calls.append(1)
        return np.ones(len(action))

    def run(a):
        calls.clear()
        v = calc_ground_truth_policy_value(bandit_feedback=bf, reward_sampler=sampler, policy=EpsilonGreedy(n_actions=k, epsilon=0.5, random_state=1), **a["gt"])
        return [v, len(calls)]

    return dict(gt=dict(n_sim=(100, 3))), run


def helpers(r):
    from obp.ope import helper as h
    from obp.utils import estimate_confidence_interval_by_bootstrap as ci
    from obp.utils import sample_action_fast

    n = 30
    x = r.uniform(0, 1, n)
    rew, w, wh, q = r.normal(size=n), r.gamma(1, 1, n), r.gamma(1, 1, n), r.normal(size=n)
    p = r.dirichlet(np.ones(3), size=n)
    g = dict(bern=dict(delta=(0.05, 0.4)), hoef=dict(delta=(0.05, 0.4)), stud=dict(delta=(0.05, 0.4)), bias=dict(q_hat=(None, q)), ub=dict(q_hat=(None, q), delta=(0.05, 0.4)), ci=CI(), fast=dict(random_state=(None, 7)))

    def run(a):
        return [h.estimate_bernstein_lower_bound(x=x, x_max=1.0, **a["bern"]), h.estimate_hoeffding_lower_bound(x=x, x_max=1.0, **a["hoef"]), h.estimate_student_t_lower_bound(x=x, **a["stud"]),
                h.estimate_bias_in_ope(reward=rew, iw=w, iw_hat=wh, **a["bias"]), h.estimate_high_probability_upper_bound_bias(reward=rew, iw=w, iw_hat=wh, **a["ub"]),
                ci(samples=rew, **a["ci"]), sample_action_fast(p, **a["fast"])]

    return g, run


PROGS = dict(synth=synth, functions=functions, multi=multi, embed=embed, cont=cont, slate=slate, multiclass=multiclass, obd=obd, single=single, tuning=tuning, multi_est=multi_est, cont_est=cont_est, slate_est=slate_est,
             embed_est=embed_est, meta=meta, regression=regression, regression_normal=regression_normal, classification=classification, opl=opl, nn=nn, qf=qf, cnn=cnn, online=online, simulator=simulator,
             ground_truth=ground_truth, helpers=helpers)
COUNT = dict(synth=80, functions=80, multi=60, embed=90, cont=60, slate=140, multiclass=60, obd=60, single=200, tuning=120, multi_est=100, cont_est=30, slate_est=40, embed_est=80, meta=120, regression=60, regression_normal=10,
             classification=90, opl=70, nn=130, qf=130, cnn=120, online=260, simulator=160, ground_truth=8, helpers=60)
REQUIRED = [f"prog:{p}" for p in PROGS] + [f"told:{p}" for p in PROGS if p != "regression_normal"]



# settings of the other arguments under which a default matters
ENABLE = {}
for _p in ("nn", "qf", "cnn"):
    ENABLE.update({(_p, "init", "momentum"): dict(solver="sgd", learning_rate_init=0.01), (_p, "init", "nesterovs_momentum"): dict(solver="sgd", learning_rate_init=0.01), (_p, "init", "validation_fraction"): dict(early_stopping=True),
                   (_p, "init", "shuffle"): dict(batch_size=9), (_p, "init", "beta_2"): dict(solver="adam"), (_p, "init", "beta_1"): dict(solver="adam"), (_p, "init", "epsilon"): dict(solver="adam"),
                   (_p, "init", "n_iter_no_change"): dict(tol=0.1, learning_rate_init=0.01), (_p, "init", "tol"): dict(n_iter_no_change=2, learning_rate_init=0.01)})
ENABLE.update({("slate", "init", "eta"): dict(click_model="cascade"), ("synth", "init", "reward_std"): dict(reward_type="continuous"), ("multi", "init", "reward_std"): dict(reward_type="continuous"),
               ("embed", "init", "reward_std"): dict(reward_type="continuous"), ("tuning", "init", "use_bias_upper_bound"): dict(tuning_method="mse"), ("obd", "obtain", "test_size"): dict(is_timeseries_split=True),
               ("obd", "boot", "test_size"): dict(is_timeseries_split=True), ("obd", "gt", "test_size"): dict(is_timeseries_split=True), ("regression", "fp", "random_state"): dict(n_folds=3),
               ("simulator", "drift", "transition_type"): dict(transition_period=2), ("simulator", "env", "coef_function"): "RF", ("simulator", "env", "action_context"): "RF", ("cont", "init", "action_noise"): "BP"})


def cases(rng, tier):
    m = 1 if tier == "quick" else 12
    for p in PROGS:
        for i in range(COUNT[p] * m):
            yield dict(kind=p, i=i)


def copyof(v):
    import copy

    return copy.deepcopy(v)


def run_case(case, mon):
    import torch

    r = np.random.default_rng(case["seed"])
    name = case["kind"]
    out = PROGS[name](r)
    g, run = out[0], out[1]
    tag = out[2] if len(out) > 2 else ""
    params = [(grp, p) for grp in g for p in g[grp]]
    m = int(r.choice([1, 1, 2, 3, len(params)]))
    first = case["i"] % len(params)
    omitted = [params[first]] + [params[i] for i in r.permutation(len(params))[: m - 1] if i != first]
    base = {}
    alts = r.random() < 0.7
    for grp, p in params:
        dflt, alt = g[grp][p]
        base[grp, p] = alt if (alts and (grp, p) not in omitted and alt is not NO and r.random() < 0.3) else dflt
    for grp, p in omitted:
        need = ENABLE.get((name, grp, p), {})
        if need == "RF":
            need = dict(reward_function=g[grp]["reward_function"][1])
        elif need == "BP":
            need = dict(behavior_policy_function=g[grp]["behavior_policy_function"][1])
        for q, v in need.items():
            if (grp, q) not in omitted and (grp, q) in base and r.random() < 0.9:
                base[grp, q] = v
    gs = int(r.integers(2**31))

    def go(vals, drop=()):
        np.random.seed(gs)
        torch.manual_seed(gs)
        return run({grp: {p: copyof(vals[grp, p]) for p in g[grp] if (grp, p) not in drop} for grp in g})

    try:
        full = go(base)
    except Exception as e:  # other arguments do not go together: not a case about defaults
        if all(base[q] is g[q[0]][q[1]][0] for q in params):
            raise
        mon.ev("incompatible")
        try:
            go(base, omitted)
        except Exception:
            return
        return mon.fail("accepted-without", f"{name} {tag}: rejected ({e!r}) with {names(omitted)} written out, accepted with the same arguments omitted")
    short = go(base, omitted)
    d = diff(full, short)
    mon.check(d is None, "default", f"{name} {tag}: omitting {names(omitted)} differs from writing the documented defaults out: {d}")
    mon.ev(f"prog:{name}")
    mon.sig(name, tag, tuple(sorted(omitted)))
    for grp, p in omitted:
        mon.ev(f"omitted:{name}.{grp}.{p}")
    grp, p = omitted[0]
    alt = g[grp][p][1]
    if alt is not NO and r.random() < 0.75:
        try:
            other = go(dict(base, **{}) | {(grp, p): alt})
        except Exception:
            return
        if diff(full, other) is not None:
            mon.ev(f"told:{name}")
            mon.ev(f"told-argument:{name}.{grp}.{p}")
            mon.note(callable=name, variant=tag, omitted=names(omitted), visible=p)


def names(omitted):
    return [f"{g}.{p}" for g, p in omitted]
