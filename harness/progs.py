"""Seeded programs over the whole library: prog(p, inp) -> nested result. `p` = plain parameters, `inp` = arrays the caller owns."""
import copy
import os

import numpy as np


def kept(first, later):
    """results already handed out must not change when more are produced"""
    a = first()
    snap = copy.deepcopy(a)
    b = later()
    return [a, b, dict(earlier_results_untouched=(snap, a))]


def log(r, n=None, k=None, L=None, dim=None):
    n = int(n or r.choice([30, 80, 160]))
    k = int(k or r.choice([2, 3, 5]))
    L = int(L or r.choice([1, 1, 2, 3]))
    L = min(L, k)
    dim = int(dim or r.choice([1, 2, 4]))
    act = r.integers(k, size=n)
    act[:k] = np.arange(k)
    rew = (r.random(n) < 0.45).astype(int)
    rew[:2] = [0, 1]
    return dict(n=n, k=k, L=L, dim=dim, context=r.normal(size=(n, dim)), action=act, reward=rew, pscore=r.uniform(0.1, 1, n),
                position=r.integers(L, size=n), action_context=r.normal(size=(k, 2)),
                action_dist=r.dirichlet(np.ones(k), size=(n, L)).transpose(0, 2, 1).copy())


# ---- datasets -------------------------------------------------------------------------------------
def _synth(p, inp):
    from obp import dataset as D

    kw = {}
    if p["fn"]:
        kw["reward_function"] = getattr(D, p["fn"])
    if p["bp"]:
        kw["behavior_policy_function"] = getattr(D, p["bp"])
    if p["ac"]:
        kw["action_context"] = inp["action_context"]
    d = D.SyntheticBanditDataset(n_actions=p["k"], dim_context=p["dim"], reward_type=p["rt"], beta=p["beta"], n_deficient_actions=p["nd"], random_state=p["seed"], **kw)
    out = kept(lambda: d.obtain_batch_bandit_feedback(p["n"]), lambda: d.obtain_batch_bandit_feedback(p["n"] + 3))
    return out + [d.calc_ground_truth_policy_value(out[0]["expected_reward"], out[0]["pi_b"])]


def _synth_p(r):
    k = int(r.choice([2, 4, 7]))
    rt = str(r.choice(["binary", "continuous"]))
    fns = ["logistic_reward_function", "logistic_polynomial_reward_function", "logistic_sparse_reward_function"]
    if rt == "continuous":
        fns += ["linear_reward_function", "polynomial_reward_function", "sparse_reward_function"]
    return dict(k=k, dim=int(r.choice([1, 3])), rt=rt, beta=float(r.choice([-3, 0, 1])), nd=int(r.choice([0, 1, k - 1])),
                n=int(r.choice([5, 40])), seed=int(r.integers(1000)), fn=None if r.random() < 0.3 else str(r.choice(fns)),
                bp=None if r.random() < 0.5 else str(r.choice(["linear_behavior_policy", "polynomial_behavior_policy"])), ac=bool(r.random() < 0.4)), \
        dict(action_context=r.normal(size=(k, 3)))


def _multi(p, inp):
    from obp import dataset as D

    d = D.SyntheticMultiLoggersBanditDataset(n_actions=p["k"], dim_context=p["dim"], betas=inp["betas"], rhos=inp["rhos"], random_state=p["seed"],
                                             reward_function=D.logistic_reward_function)
    return kept(lambda: d.obtain_batch_bandit_feedback(p["n"]), lambda: d.obtain_batch_bandit_feedback(p["n"]))


def _multi_p(r):
    m = int(r.choice([1, 2, 3]))
    return dict(k=int(r.choice([2, 4])), dim=2, n=60, seed=int(r.integers(1000))), dict(betas=[float(b) for b in r.normal(size=m)], rhos=[float(v) for v in r.uniform(0.5, 1, m)])


def _embed(p, inp):
    from obp import dataset as D

    d = D.SyntheticBanditDatasetWithActionEmbeds(n_actions=p["k"], dim_context=2, n_cat_dim=p["nc"], n_cat_per_dim=3, random_state=p["seed"], n_unobserved_cat_dim=p["nu"],
                                                 reward_function=D.linear_reward_function, reward_type="continuous", p_e_a_param_std=1.0)
    return kept(lambda: d.obtain_batch_bandit_feedback(p["n"]), lambda: d.obtain_batch_bandit_feedback(p["n"]))


def _embed_p(r):
    return dict(k=int(r.choice([3, 6])), nc=int(r.choice([2, 3])), nu=int(r.choice([0, 1])), n=30, seed=int(r.integers(1000))), {}


def _cont(p, inp):
    from obp import dataset as D

    d = D.SyntheticContinuousBanditDataset(dim_context=3, min_action_value=p["lo"], max_action_value=p["hi"], random_state=p["seed"],
                                           reward_function=getattr(D, p["fn"]), behavior_policy_function=getattr(D, p["bp"]) if p["bp"] else None)
    out = kept(lambda: d.obtain_batch_bandit_feedback(p["n"]), lambda: d.obtain_batch_bandit_feedback(p["n"]))
    ev = getattr(D, p["ev"])(inp["context"])
    return out + [ev, d.calc_ground_truth_policy_value(inp["context"], ev)]


def _cont_p(r):
    lo, hi = (-5.0, 5.0) if r.random() < 0.6 else (-np.inf, np.inf)
    bp = str(r.choice(["linear_behavior_policy_continuous"])) if r.random() < 0.7 or not np.isfinite(lo) else None
    return dict(lo=lo, hi=hi, n=30, seed=int(r.integers(1000)), fn=str(r.choice(["linear_reward_funcion_continuous", "quadratic_reward_funcion_continuous"])), bp=bp,
                ev=str(r.choice(["linear_synthetic_policy_continuous", "threshold_synthetic_policy_continuous", "sign_synthetic_policy_continuous"]))), \
        dict(context=r.normal(size=(12, 3)))


def _slate(p, inp):
    from obp import dataset as D

    d = D.SyntheticSlateBanditDataset(n_unique_action=p["k"], len_list=p["L"], dim_context=2, reward_type=p["rt"], reward_structure=p["rs"], random_state=p["seed"],
                                      is_factorizable=p["fact"], base_reward_function=D.logistic_reward_function if p["rt"] == "binary" else D.linear_reward_function,
                                      behavior_policy_function=D.linear_behavior_policy_logit)
    out = kept(lambda: d.obtain_batch_bandit_feedback(p["n"], return_pscore_item_position=True), lambda: d.obtain_batch_bandit_feedback(p["n"]))
    f = out[0]
    out.append(d.obtain_pscore_given_evaluation_policy_logit(action=inp["action"], evaluation_policy_logit_=inp["logit"], return_pscore_item_position=True))
    out.append(d.calc_evaluation_policy_action_dist(action=inp["action"], evaluation_policy_logit_=inp["logit"]))
    out.append(d.generate_evaluation_policy_pscore(evaluation_policy_type=p["ev"], context=f["context"], action=f["action"], epsilon=0.3))
    out.append(d.calc_ground_truth_policy_value(context=inp["context"], evaluation_policy_logit_=inp["logit"]))
    return out


def _slate_p(r):
    k, L, m = int(r.choice([3, 4])), 2, 4
    fact = bool(r.random() < 0.4)
    act = np.concatenate([r.permutation(k)[:L] for _ in range(m)])
    rs = str(r.choice(["cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"]))
    return dict(k=k, L=L, rt=str(r.choice(["binary", "continuous"])), rs=rs, n=8, seed=int(r.integers(1000)), fact=fact,
                ev=str(r.choice(["random", "optimal", "anti-optimal"]))), dict(action=act, logit=r.normal(size=(m, k)), context=r.normal(size=(m, 2)))


def _multiclass(p, inp):
    from obp.dataset import MultiClassToBanditReduction as M
    from sklearn.linear_model import LogisticRegression

    d = M(X=inp["X"], y=inp["y"], base_classifier_b=LogisticRegression(max_iter=50), alpha_b=p["al"], n_deficient_actions=p["nd"])
    d.split_train_eval(eval_size=0.4, random_state=p["seed"])
    f = d.obtain_batch_bandit_feedback(random_state=p["seed"])
    pi = d.obtain_action_dist_by_eval_policy(base_classifier_e=LogisticRegression(C=0.1, max_iter=50), alpha_e=0.7)
    return [f, pi, d.calc_ground_truth_policy_value(pi)]


def _multiclass_p(r):
    k = 3
    y = np.concatenate([np.arange(k)] * 20)
    return dict(al=float(r.choice([0, 0.5, 0.9])), nd=int(r.choice([0, 1])), seed=int(r.integers(1000))), dict(X=r.normal(size=(60, 3)) + y[:, None], y=y)


def _obd(p, inp):
    from obp.dataset import OpenBanditDataset

    d = OpenBanditDataset(behavior_policy=p["bp"], campaign=p["c"])
    return kept(lambda: [d.obtain_batch_bandit_feedback(), d.sample_bootstrap_bandit_feedback(sample_size=200, is_timeseries_split=p["ts"], random_state=p["seed"])],
                lambda: [d.sample_bootstrap_bandit_feedback(sample_size=300, is_timeseries_split=p["ts"], random_state=p["seed"] + 1), d.obtain_batch_bandit_feedback()])


def _obd_p(r):
    return dict(bp=str(r.choice(["bts", "random"])), c=str(r.choice(["men", "women"])), ts=bool(r.random() < 0.5), seed=int(r.integers(1000))), {}


# ---- models ---------------------------------------------------------------------------------------
def _reg(p, inp):
    from obp.ope import RegressionModel
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.linear_model import LogisticRegression

    bm = LogisticRegression(max_iter=50) if p["bm"] == "lr" else RandomForestClassifier(n_estimators=4, random_state=p["seed"])
    m = RegressionModel(n_actions=p["k"], len_list=p["L"], base_model=bm, action_context=inp["action_context"], fitting_method=p["fm"])
    kw = dict(context=inp["context"], action=inp["action"], reward=inp["reward"], pscore=inp["pscore"], position=inp["position"], n_folds=p["folds"], random_state=p["seed"])
    if p["fm"] != "normal":
        kw["action_dist"] = inp["action_dist"]
    return [m.fit_predict(**kw), bm.__dict__.get("coef_") is None]


def _log_inp(r, **kw):
    d = log(r, **kw)
    return {k: d.pop(k) for k in list(d) if isinstance(d[k], np.ndarray)}, d


def _reg_p(r):
    inp, d = _log_inp(r, n=160)
    return dict(d, bm=str(r.choice(["lr", "rf"])), fm=str(r.choice(["normal", "iw", "mrdr"])), folds=int(r.choice([1, 2, 3])), seed=int(r.integers(1000))), inp


def _cls(p, inp):
    from obp.ope import ImportanceWeightEstimator, PropensityScoreEstimator
    from sklearn.linear_model import LogisticRegression

    out = []
    m = ImportanceWeightEstimator(n_actions=p["k"], len_list=p["L"], base_model=LogisticRegression(max_iter=50), action_context=inp["action_context"], fitting_method=p["fm"])
    out.append(m.fit_predict(action=inp["action"], context=inp["context"], action_dist=inp["action_dist"], position=inp["position"], n_folds=p["folds"], random_state=p["seed"]))
    m = PropensityScoreEstimator(n_actions=p["k"], len_list=p["L"], base_model=LogisticRegression(max_iter=50))
    out.append(m.fit_predict(action=inp["action"], context=inp["context"], position=inp["position"], n_folds=p["folds"], random_state=p["seed"]))
    return out


def _cls_p(r):
    inp, d = _log_inp(r, n=240, k=int(r.choice([2, 3])), L=int(r.choice([1, 2])))
    return dict(d, fm=str(r.choice(["sample", "raw"])), folds=int(r.choice([1, 2, 3])), seed=int(r.integers(1000))), inp


# ---- offline learners -----------------------------------------------------------------------------
def _opl(p, inp):
    from obp.policy import IPWLearner, QLearner
    from sklearn.linear_model import LogisticRegression

    out = []
    for cls, kw in ((IPWLearner, dict(base_classifier=LogisticRegression(max_iter=50))), (QLearner, dict(base_model=LogisticRegression(max_iter=50)))):
        m = cls(n_actions=p["k"], len_list=p["L"], **kw)
        m.fit(context=inp["context"], action=inp["action"], reward=inp["reward"], pscore=inp["pscore"], position=inp["position"])
        out += [m.predict(context=inp["new"]), m.predict_score(context=inp["new"]), m.sample_action(context=inp["new"], tau=p["tau"], random_state=p["seed"])]
        if p["L"] == 1:
            out.append(m.predict_proba(context=inp["new"], tau=p["tau"]))
    return out


def _opl_p(r):
    inp, d = _log_inp(r, n=160)
    inp["new"] = r.normal(size=(9, d["dim"]))
    return dict(d, tau=float(r.choice([0.1, 1.0, 10.0])), seed=int(r.integers(1000))), inp


def _nn(p, inp):
    from obp.policy import NNPolicyLearner

    m = NNPolicyLearner(n_actions=p["k"], len_list=1, dim_context=p["dim"], off_policy_objective=p["obj"], hidden_layer_size=(4,), max_iter=3, batch_size=20, random_state=p["seed"],
                        solver=p["solver"], early_stopping=p["es"], lambda_=p["lam"], learning_rate_init=0.01, q_func_estimator_hyperparams=inp["hyper"])
    m.fit(context=inp["context"], action=inp["action"], reward=inp["reward"], pscore=inp["pscore"])
    return [m.predict_proba(context=inp["new"]), m.predict(context=inp["new"]), m.sample_action(context=inp["new"], random_state=p["seed"])]


def _nn_p(r):
    inp, d = _log_inp(r, n=60, L=1)
    inp["new"] = r.normal(size=(5, d["dim"]))
    inp["hyper"] = None if r.random() < 0.4 else dict(max_iter=2, random_state=int(r.integers(100)), hidden_layer_size=(3,))
    obj = str(r.choice(["dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss"]))
    return dict(d, obj=obj, solver=str(r.choice(["adam", "adagrad", "sgd"])), es=bool(r.random() < 0.3), lam=0.1 if obj == "ipw-subgauss" else 5.0 if obj == "ipw-os" else None,
                seed=int(r.integers(1000))), inp


def _cnn(p, inp):
    from obp.policy import ContinuousNNPolicyLearner

    m = ContinuousNNPolicyLearner(dim_context=p["dim"], pg_method=p["obj"], bandwidth=0.5, output_space=(-2, 2), hidden_layer_size=(4,), max_iter=3, batch_size=20, random_state=p["seed"],
                                  solver=p["solver"], learning_rate_init=0.01, q_func_estimator_hyperparams=inp["hyper"])
    m.fit(context=inp["context"], action=inp["caction"], reward=inp["reward"], pscore=inp["pscore"])
    return [m.predict(context=inp["new"])]


def _cnn_p(r):
    inp, d = _log_inp(r, n=60, L=1)
    inp["new"] = r.normal(size=(5, d["dim"]))
    inp["caction"] = r.uniform(-2, 2, 60)
    inp["hyper"] = None if r.random() < 0.4 else dict(max_iter=2, random_state=int(r.integers(100)), hidden_layer_size=(3,))
    inp["reward"] = inp["reward"].astype(float)
    return dict(d, obj=str(r.choice(["dpg", "ipw", "dr"])), solver=str(r.choice(["adam", "adagrad", "sgd"])), seed=int(r.integers(1000))), inp


# ---- online policies ------------------------------------------------------------------------------
ONLINE = ["EpsilonGreedy", "Random", "BernoulliTS", "LinEpsilonGreedy", "LinUCB", "LinTS", "LogisticEpsilonGreedy", "LogisticUCB", "LogisticTS"]


def policy(name, k, L, bs, seed, dim=2, eps=0.3, prior=None):
    import obp.policy as P

    cls = getattr(P, name)
    kw = dict(n_actions=k, len_list=L, batch_size=bs, random_state=seed)
    if name in ("EpsilonGreedy", "LinEpsilonGreedy", "LinUCB", "LogisticEpsilonGreedy", "LogisticUCB"):
        kw["epsilon"] = eps
    if name.startswith("Li") or name.startswith("Lo"):
        kw["dim"] = dim
    if name == "BernoulliTS" and prior is not None:
        kw.update(alpha=prior[0], beta=prior[1])
    return cls(**kw)


def _online(p, inp):
    from obp.policy.policy_type import PolicyType

    pol = policy(p["name"], p["k"], p["L"], p["bs"], p["seed"], p["dim"], prior=(inp["alpha"], inp["beta"]))
    out = []
    for i in range(len(inp["reward"])):
        x = inp["context"][i : i + 1]
        a = pol.select_action() if pol.policy_type == PolicyType.CONTEXT_FREE else pol.select_action(x)
        out.append(np.asarray(a).copy())
        if pol.policy_type == PolicyType.CONTEXT_FREE:
            pol.update_params(action=int(a[0]), reward=float(inp["reward"][i]))
        else:
            pol.update_params(action=int(a[0]), reward=float(inp["reward"][i]), context=x)
    if hasattr(pol, "compute_batch_action_dist"):
        out.append(pol.compute_batch_action_dist(n_rounds=3) if p["name"] == "Random" else pol.compute_batch_action_dist(n_rounds=3, n_sim=50))
    return out


def _online_p(r):
    inp, d = _log_inp(r, n=30)
    inp["alpha"], inp["beta"] = r.uniform(0.5, 5, d["k"]), r.uniform(0.5, 5, d["k"])
    return dict(d, name=str(r.choice(ONLINE)), bs=int(r.choice([1, 4])), seed=int(r.integers(1000))), inp


def _replay(p, inp):
    from obp.simulator.replay import run_bandit_replay

    pol = policy(p["name"], p["k"], p["L"], p["bs"], p["seed"], p["dim"])
    fb = dict(n_rounds=len(inp["reward"]), action=inp["action"], reward=inp["reward"], position=inp["position"] if p["pos"] else None, pscore=inp["pscore"], context=inp["context"])
    if not p["pos"]:
        fb["position"] = None
    keys = {k: (id(v), None if v is None else np.copy(v)) for k, v in fb.items() if k != "n_rounds"}
    out = run_bandit_replay(bandit_feedback=fb, policy=pol)
    same = set(fb) == set(keys) | {"n_rounds"} and all((fb[k] is None) == (v is None) and (v is None or np.array_equal(fb[k], v)) for k, (_, v) in keys.items())
    return [out, dict(feedback_untouched=same)]


def _replay_p(r):
    p, inp = _online_p(r)
    p["pos"] = bool(r.random() < 0.5) or p["L"] > 1
    return p, inp


def _sim(p, inp):
    from obp.dataset import logistic_reward_function
    from obp.simulator.simulator import BanditEnvironmentSimulator, BanditPolicySimulator
    from obp.simulator.coefficient_drifter import CoefficientDrifter
    from obp.simulator.delay_sampler import ExponentialDelaySampler

    kw = {}
    if p["delay"]:
        kw["delay_function"] = getattr(ExponentialDelaySampler(max_scale=4.0, min_scale=1.0, random_state=p["seed"]), p["delay"])
    if p["drift"]:
        kw["coef_function"] = CoefficientDrifter(drift_interval=5, transition_period=3, transition_type=p["drift"], random_state=p["seed"]).get_coefficients
    env = BanditEnvironmentSimulator(n_actions=p["k"], dim_context=p["dim"], random_state=p["seed"], reward_function=logistic_reward_function, **kw)
    sim = BanditPolicySimulator(policy=policy(p["name"], p["k"], 1, p["bs"], p["seed"], p["dim"]), environment=env)
    sim.steps(n_rounds=15) if p["single"] else sim.steps(batch_bandit_rounds=env.next_bandit_round_batch(15))
    sim.clear_delayed_queue()
    return [sim.selected_actions, sim.obtained_rewards, sim.ground_truth_rewards, sim.contexts, float(sim.total_reward), sim.rounds_played, np.asarray(sim.policy.action_counts)]


def _sim_p(r):
    return dict(k=int(r.choice([2, 4])), dim=2, bs=int(r.choice([1, 3])), name=str(r.choice(ONLINE)), seed=int(r.integers(1000)), single=bool(r.random() < 0.5),
                delay=None if r.random() < 0.3 else str(r.choice(["exponential_delay_function", "exponential_delay_function_expected_reward_weighted"])),
                drift=None if r.random() < 0.5 else str(r.choice(["linear", "weighted_sampled"]))), {}


def _fast(p, inp):
    from obp.utils import sample_action_fast

    return [sample_action_fast(inp["d"], random_state=p["seed"])]


def _fast_p(r):
    n, k = 200, int(r.choice([2, 6]))
    return dict(seed=int(r.integers(1000))), dict(d=r.dirichlet(np.ones(k), size=n))


def _tables(p, inp):
    """caller-supplied functions which hand out arrays the caller keeps"""
    from obp import dataset as D

    n, k = p["n"], p["k"]
    q = lambda context, action_context, random_state=None: inp["q"]
    b = lambda context, action_context, random_state=None: inp["logits"]
    out = []
    for cls, kw in ((D.SyntheticBanditDataset, dict(beta=p["beta"])), (D.SyntheticMultiLoggersBanditDataset, dict(betas=inp["betas"], rhos=inp["rhos"]))):
        d = cls(n_actions=k, dim_context=2, reward_type=p["rt"], reward_function=q, behavior_policy_function=b, n_deficient_actions=p["nd"], random_state=p["seed"], **kw)
        out.append(kept(lambda: d.obtain_batch_bandit_feedback(n), lambda: d.obtain_batch_bandit_feedback(n)))
    d = D.SyntheticSlateBanditDataset(n_unique_action=k, len_list=2, dim_context=2, reward_type=p["rt"], reward_structure=p["rs"], random_state=p["seed"], is_factorizable=p["fact"],
                                      base_reward_function=q, behavior_policy_function=b)
    out.append(kept(lambda: d.obtain_batch_bandit_feedback(n), lambda: d.calc_ground_truth_policy_value(context=inp["context"], evaluation_policy_logit_=inp["logits"])))
    c = D.SyntheticContinuousBanditDataset(dim_context=2, min_action_value=-4.0, max_action_value=4.0, random_state=p["seed"],
                                           reward_function=lambda context, action, random_state=None: inp["cq"], behavior_policy_function=lambda context, random_state=None: inp["ca"])
    out.append(kept(lambda: c.obtain_batch_bandit_feedback(n), lambda: [c.obtain_batch_bandit_feedback(n), c.calc_ground_truth_policy_value(inp["context"], inp["ca"])]))
    return out


def _tables_p(r):
    k, n = int(r.choice([3, 5])), int(r.choice([4, 12]))
    rt = str(r.choice(["binary", "continuous"]))
    rs = str(r.choice(["cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"]))
    return dict(k=k, n=n, rt=rt, rs=rs, beta=float(r.choice([-2, 1, 3])), nd=int(r.choice([0, 1])), fact=bool(r.random() < 0.5), seed=int(r.integers(1000))), dict(
        q=r.uniform(0.05, 0.95, (n, k)), logits=r.normal(size=(n, k)), betas=[0.5, -1.0], rhos=[0.3, 0.7], context=r.normal(size=(n, 2)), cq=r.normal(size=n), ca=r.uniform(-3, 3, n))


def _slatereg(p, inp):
    from obp.ope import SlateRegressionModel
    from sklearn.tree import DecisionTreeRegressor

    m = SlateRegressionModel(base_model=DecisionTreeRegressor(max_depth=3, random_state=p["seed"]), len_list=p["L"], n_unique_action=p["k"], fitting_method=p["fm"])
    kw = {a: inp[a] for a in ("context", "action", "reward", "pscore_cascade", "evaluation_policy_pscore_cascade", "evaluation_policy_action_dist")}
    return kept(lambda: m.fit_predict(**kw), lambda: m.predict(context=inp["context"][:2], action=inp["action"][: 2 * p["L"]]))


def _slatereg_p(r):
    n, k, L = int(r.choice([3, 25])), int(r.choice([2, 4])), int(r.choice([2, 3]))
    dec = lambda: np.cumprod(r.uniform(0.3, 1, (n, L)), axis=1).ravel()
    return dict(k=k, L=L, fm=str(r.choice(["normal", "iw"])), seed=int(r.integers(1000))), dict(
        context=r.normal(size=(n, 2)), action=r.integers(k, size=n * L), reward=r.normal(size=n * L), pscore_cascade=dec(), evaluation_policy_pscore_cascade=dec(),
        evaluation_policy_action_dist=r.dirichlet(np.ones(k), size=n * L).ravel())


def _ope(p, inp):
    """an evaluator object asked for everything, in the order given"""
    import obp.ope as O

    fb = inp["feedback"]
    ope = O.OffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[O.InverseProbabilityWeighting(), O.DirectMethod(), O.DoublyRobust(lambda_=p["lam"]),
                                                                    O.SwitchDoublyRobustTuning(lambdas=inp["lambdas"]), O.SelfNormalizedInverseProbabilityWeighting()])
    kw = dict(action_dist=inp["action_dist"], estimated_rewards_by_reg_model=inp["q"])
    ask = dict(
        values=lambda: ope.estimate_policy_values(**kw),
        intervals=lambda: ope.estimate_intervals(alpha=0.1, n_bootstrap_samples=15, random_state=p["seed"], **kw),
        frames=lambda: [t.to_dict() for t in ope.summarize_off_policy_estimates(n_bootstrap_samples=15, random_state=p["seed"], **kw)],
        errors=lambda: ope.evaluate_performance_of_estimators(ground_truth_policy_value=0.4, metric="relative-ee", **kw),
        compare=lambda: ope.summarize_estimators_comparison(ground_truth_policy_value=0.4, **kw).to_dict())
    res = {}
    for name in p["order"]:
        res.setdefault(name, []).append(copy.deepcopy(ask[name]()))
    return [res, dict(earlier_results_untouched=([v[0] for v in res.values() for _ in v[1:]], [w for v in res.values() for w in v[1:]]))]


def _ope_p(r):
    inp, d = _log_inp(r, n=int(r.choice([20, 80])))
    fb = dict(n_rounds=d["n"], n_actions=d["k"], context=inp["context"], action=inp["action"], reward=inp["reward"].astype(float), pscore=inp["pscore"], position=inp["position"])
    names = ["values", "intervals", "frames", "errors", "compare"]
    order = [str(x) for x in r.choice(names, size=8)]
    q = r.uniform(size=(d["n"], d["k"], d["L"]))
    q = q if r.random() < 0.5 else {"dm": q, "dr": q * 0.5, "switch-dr": q * 0.9}
    return dict(lam=float(r.choice([1.0, 3.0, 100.0])), order=order, seed=int(r.integers(1000))), dict(feedback=fb, action_dist=inp["action_dist"], q=q, lambdas=[3.0, 0.5, float("inf")])


PROGS = dict(synthetic=(_synth_p, _synth), multi=(_multi_p, _multi), embed=(_embed_p, _embed), continuous=(_cont_p, _cont), slate=(_slate_p, _slate), multiclass=(_multiclass_p, _multiclass),
             obd=(_obd_p, _obd), regression=(_reg_p, _reg), classification=(_cls_p, _cls), opl=(_opl_p, _opl), nn=(_nn_p, _nn), cnn=(_cnn_p, _cnn), online=(_online_p, _online),
             replay=(_replay_p, _replay), simulator=(_sim_p, _sim), sample_action_fast=(_fast_p, _fast),
             tables=(_tables_p, _tables), slate_regression=(_slatereg_p, _slatereg), evaluator=(_ope_p, _ope))
COUNT = dict(obd=4, nn=30, cnn=30, slate=40, simulator=80, replay=60, online=80, tables=60, evaluator=60)
