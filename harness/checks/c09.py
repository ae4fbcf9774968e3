"""C09: malformed logs and parameters are refused, never silently evaluated."""
import math

import numpy as np

from .. import gen, ref
from . import c01, c02, c03, c04, c05, c06, c09_params

RULE = ("a valid call of every estimator (value and interval) and evaluator with exactly one corruption: a missing, mistyped, wrongly shaped or wrongly "
        "long argument, or one bad element (action, position, propensity, probability, weight, slate structure) at a random row; plus every "
        "constructor and generator parameter out of its documented range; non-trivial: distinct (callee, argument, corruption)")
ASSUMPTIONS = ["any exception counts as a refusal", "the uncorrupted call must succeed in the same case"]
BUDGET = dict(quick=300, thorough=2400)
REQUIRED = ["single", "multi", "continuous", "slate", "embed", "tuned", "params", "edge", "evaluator", "learners"]


def cases(rng, tier):
    m = 1 if tier == "quick" else 12
    for fam in ("single", "multi", "continuous", "slate", "embed", "tuned", "evaluator", "learners"):
        for _ in range(20 * m):
            yield dict(kind=fam)
    for i in range(len(c09_params.TABLE)):
        for _ in range(1 if tier == "quick" else 3):
            yield dict(kind="params", idx=i)


def row(r, n):
    return int(r.choice([0, n - 1, int(r.integers(n))]))


def corruptions(r, kw, optional=(), pscore_max1=False):
    """(argument, label, corrupted kwargs) for every argument present"""
    out = []

    def put(arg, label, val):
        out.append((arg, label, dict(kw, **{arg: val})))

    for arg, v in kw.items():
        if v is None or not isinstance(v, np.ndarray):
            continue
        if arg not in optional:
            put(arg, "missing", None)
        put(arg, "list", v.tolist())
        put(arg, "extra-axis", v[..., None])
        if v.ndim > 1:
            put(arg, "flattened", v.ravel())
        put(arg, "too-short", v[:-1])
        put(arg, "too-long", np.concatenate([v, v[-1:]]))
        w = v.copy() if arg in ("action", "position", "stratum_idx", "slate_id") else v.astype(float)
        i = row(r, len(w))
        if arg == "action":
            k = KMAX[0]
            for lab, bad in (("negative", -1), ("too-large", k), ("way-too-large", 10**6)):
                x = w.copy()
                x[i] = bad
                put(arg, lab, x)
            put(arg, "float", w.astype(float))
        elif arg in ("pscore", "estimated_pscore", "pscore_avg", "estimated_pscore_avg", "pscore_item_position", "pscore_cascade"):
            for lab, bad in (("zero", 0.0), ("negative", -0.1)):
                x = w.copy()
                x[i] = bad
                put(arg, lab, x)
            if pscore_max1:
                x = w.copy()
                x[i] = 1.01
                put(arg, "above-one", x)
        elif arg in ("evaluation_policy_pscore", "evaluation_policy_pscore_item_position", "evaluation_policy_pscore_cascade"):
            for lab, bad in (("negative", -0.1), ("above-one", 1.01)):
                x = w.copy()
                x[i] = bad
                put(arg, lab, x)
        elif arg in ("action_dist", "pi_b"):
            l = int(r.integers(w.shape[2]))
            x = w.copy()
            x[i, :, l] *= 1.01
            put(arg, "sum-above-one", x)
            x = w.copy()
            x[i, :, l] *= 0.9
            put(arg, "sum-below-one", x)
            x = w.copy()
            x[i, 0, l] -= 1.5
            x[i, 1, l] += 1.5
            put(arg, "negative", x)
        elif arg == "evaluation_policy_action_dist":
            x = w.copy()
            x[i] += 0.05
            put(arg, "sum-above-one", x)
        elif arg == "position":
            x = w.copy()
            x[i] = -1
            put(arg, "negative", x)
            put(arg, "float", w.astype(float))
            if "action_dist" in kw:
                x = w.copy()
                x[i] = kw["action_dist"].shape[2]
                put(arg, "too-large", x)
        elif arg == "estimated_importance_weights":
            x = w.copy()
            x[i] = -0.5
            put(arg, "negative", x)
        elif arg == "estimated_rewards_by_reg_model" and v.ndim == 3:
            put(arg, "one-more-action", np.concatenate([v, v[:, :1]], axis=1))
            put(arg, "one-more-position", np.concatenate([v, v[:, :, :1]], axis=2))
        elif arg == "stratum_idx":
            x = w.copy()
            x[i] = -1
            put(arg, "negative", x)
            put(arg, "float", w.astype(float))
        elif arg == "slate_id":
            x = w.copy()
            x[i] = -1
            put(arg, "negative", x)
            put(arg, "float", w.astype(float))
        elif arg == "p_e_a":
            pass
    return out


KMAX = [0]
BAD_CI = [("alpha", -0.1), ("alpha", 1.1), ("alpha", "0.05"), ("n_bootstrap_samples", 0), ("n_bootstrap_samples", -3), ("n_bootstrap_samples", 2.5),
          ("random_state", "seed"), ("random_state", -1)]


def drive(mon, fam, name, est, kw, bads, tuned=False):
    est().estimate_policy_value(**kw)  # the control
    est().estimate_interval(n_bootstrap_samples=3, random_state=1, **kw)
    for arg, lab, bad in bads:
        mon.raises(lambda: est().estimate_policy_value(**bad), f"{arg}:{lab}", f"{name}.estimate_policy_value with {arg} {lab}")
        mon.raises(lambda: est().estimate_interval(n_bootstrap_samples=3, random_state=1, **bad), f"{arg}:{lab}", f"{name}.estimate_interval with {arg} {lab}")
        mon.sig(name, arg, lab)
    for a, v in BAD_CI:
        c = dict(n_bootstrap_samples=3, random_state=1)
        c[a] = v
        mon.raises(lambda: est().estimate_interval(**c, **kw), f"interval-{a}", f"{name}.estimate_interval with {a}={v!r}")
        mon.sig(name, a, v)
    mon.ev(fam)


def base_log(r):
    n = int(r.choice([4, 9, 30]))
    d = gen.logged(r, n=n)
    d["pscore"] = gen.pscores(r, n, "uniform")
    d["estimated_pscore"] = gen.pscores(r, n, "uniform")
    d["reward"] = gen.rewards(r, n, "normal")
    d["action_dist"] = gen.dist(r, n, d["k"], d["L"], "dirichlet")
    if d["position"] is None:
        d["position"] = np.zeros(n, dtype=int)
    KMAX[0] = d["k"]
    return d


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    fam = case["kind"]
    if fam == "params":
        return c09_params.run(case, mon, r)
    if fam == "single":
        d = base_log(r)
        for name in c01.NAMES:
            use_est = name in c01.HAS_EST and bool(r.random() < 0.5)
            kw = c01.kwargs_of(d, name, use_est)
            if use_est:
                kw.pop("pscore")
            if name == "dm":
                for a in ("reward", "action"):
                    kw.pop(a)
            opt = ("position",) if d["L"] == 1 else ()
            drive(mon, fam, name, lambda: c01.make(name, 0.5 if name.startswith("sg") else 5.0, use_est), kw, corruptions(r, kw, opt))
    elif fam == "multi":
        d = base_log(r)
        d["stratum"] = np.arange(d["n"]) % 2
        for name in c03.NAMES:
            use_est = bool(r.random() < 0.5)
            est, kw = c03.call(name, d, 5.0, use_est)
            if use_est:
                kw.pop("pscore_avg" if "bal" in name else "pscore")
            drive(mon, fam, name, lambda: c03.cls(name)(lambda_=5.0, use_estimated_pscore=use_est), kw, corruptions(r, kw, ("position",) if d["L"] == 1 else ()))
    elif fam == "continuous":
        n = int(r.choice([4, 30]))
        d = dict(reward=r.normal(size=n), action_by_behavior_policy=r.normal(size=n), pscore=r.uniform(0.1, 2, n),
                 action_by_evaluation_policy=r.normal(size=n), estimated_rewards_by_reg_model=r.normal(size=n))
        for name in c04.NAMES:
            kw = {k: v for k, v in d.items() if k != "estimated_rewards_by_reg_model" or name.endswith("dr")}
            drive(mon, fam, name, lambda: c04.cls(name)(kernel="gaussian", bandwidth=1.0), kw, corruptions(r, kw))
    elif fam == "slate":
        d = c05.slate_log(r, n=int(r.choice([2, 10])), L=int(r.choice([2, 3])))
        KMAX[0] = d["k"]
        for name in c05.NAMES:
            kw = c05.kw_of(name, d)
            bads = corruptions(r, kw, pscore_max1=True)
            p = d["position"].copy()
            i = row(r, d["n"]) * d["L"]
            p[i] = p[i + 1]
            bads.append(("position", "duplicated-in-slate", dict(kw, position=p)))
            if name.endswith("sips"):
                for a in ("pscore", "evaluation_policy_pscore"):
                    x = kw[a].astype(float)
                    x[i] = x[i] * 0.5 + 0.01
                    bads.append((a, "differs-within-slate", dict(kw, **{a: x})))
            if name.endswith("rips") or name == "cascade-dr":
                for a in ("pscore_cascade", "evaluation_policy_pscore_cascade"):
                    x = kw[a].astype(float)
                    x[i], x[i + 1] = 0.3, 0.6
                    bads.append((a, "increasing-within-slate", dict(kw, **{a: x})))
            drive(mon, fam, name, lambda: c05.make(name, d), kw, bads)
    elif fam == "embed":
        import obp.ope as o

        d, D = c06.make(r)
        KMAX[0] = d["k"]
        for cls in (o.MarginalizedInverseProbabilityWeighting, o.SelfNormalizedMarginalizedInverseProbabilityWeighting):
            fitted = bool(r.random() < 0.5)
            kw = dict(reward=d["reward"], action=d["action"], action_embed=d["embed"], pi_b=d["pi_b"], action_dist=d["action_dist"], position=d["position"])
            if fitted:
                kw["context"] = d["context"]
            else:
                kw["p_e_a"] = d["p_e_a"]
            if kw["position"] is None:
                kw["position"] = np.zeros(d["n"], dtype=int)
            drive(mon, fam, cls.__name__, lambda: cls(n_actions=d["k"], pi_a_x_e_estimator=c06.GroupFrequency()), kw,
                  corruptions(r, kw, ("position",) if d["L"] == 1 else ()))
    elif fam == "tuned":
        d = base_log(r)
        for name in c02.NAMES:
            kw = dict(reward=d["reward"], action=d["action"], action_dist=d["action_dist"], pscore=d["pscore"], position=d["position"])
            if "dr" in name:
                kw["estimated_rewards_by_reg_model"] = d["q"]
            lams = [0.1, 0.5] if name.startswith("sg") else [1.0, 10.0]
            drive(mon, fam, name + "-tuning", lambda: c02.tcls(name)(lambdas=list(lams), tuning_method=str(r.choice(["mse", "slope"]))), kw,
                  corruptions(r, kw, ("position",) if d["L"] == 1 else ()))
    elif fam == "learners":
        learners(r, mon)
    else:
        evaluator(r, mon)
    mon.note(kind=fam)


def evaluator(r, mon):
    import obp.ope as o

    d = base_log(r)
    n = d["n"]
    fb = dict(action=d["action"], position=d["position"], reward=d["reward"], pscore=d["pscore"], context=r.normal(size=(n, 2)))
    ests = lambda: [o.InverseProbabilityWeighting(), o.DirectMethod(), o.DoublyRobust()]
    o.OffPolicyEvaluation(fb, ests()).estimate_policy_values(action_dist=d["action_dist"], estimated_rewards_by_reg_model=d["q"])
    for key in ("action", "position", "reward", "context"):
        mon.raises(lambda: o.OffPolicyEvaluation({k: v for k, v in fb.items() if k != key}, ests()), "missing-key", f"OffPolicyEvaluation without {key}")
        mon.sig("ope", key)
    calls = lambda ope: [ope.estimate_policy_values, lambda **k: ope.estimate_intervals(n_bootstrap_samples=2, **k),
                         lambda **k: ope.summarize_off_policy_estimates(n_bootstrap_samples=2, **k),
                         lambda **k: ope.evaluate_performance_of_estimators(ground_truth_policy_value=0.5, **k),
                         lambda **k: ope.summarize_estimators_comparison(ground_truth_policy_value=0.5, **k)]
    ope = o.OffPolicyEvaluation(fb, ests())
    good = dict(action_dist=d["action_dist"], estimated_rewards_by_reg_model=d["q"])
    for call in calls(ope):
        call(**good)
        mon.raises(lambda: call(action_dist=d["action_dist"]), "no-reg-model", "model-based estimators without a regression estimate")
        for arg, lab, bad in corruptions(r, good):
            mon.raises(lambda: call(**bad), f"{arg}:{lab}", f"evaluator with {arg} {lab}")
            mon.sig("ope", arg, lab)
        for q in (d["q"][:-1], d["q"][:, :-1], d["q"][..., 0]):
            mon.raises(lambda: call(action_dist=d["action_dist"], estimated_rewards_by_reg_model=dict(dm=d["q"], dr=q)), "dict-shape", "per-estimator estimate of wrong shape")
    for arg in ("estimated_pscore", "estimated_importance_weights", "action_embed", "pi_b", "p_e_a"):
        good2 = dict(estimated_pscore=d["estimated_pscore"], estimated_importance_weights=d["w_hat"], action_embed=np.zeros((n, 2)),
                     pi_b=d["action_dist"], p_e_a=np.ones((d["k"], 2, 2)))[arg]
        ope.estimate_policy_values(**good, **{arg: good2})
        for bad in (good2[:-1], np.concatenate([good2, good2[:1]]), good2[..., None], good2.tolist()):
            mon.raises(lambda: ope.estimate_policy_values(**good, **{arg: bad}), f"{arg}-shape", f"evaluator with wrong {arg}")
            mon.raises(lambda: ope.estimate_policy_values(**good, **{arg: {"ipw": bad}}), f"{arg}-shape", f"evaluator with wrong {arg} per name")
            mon.sig("ope", arg, np.shape(bad) if not isinstance(bad, list) else "list")
    # multi-logger
    m = o.MultiLoggersOffPolicyEvaluation
    fbm = dict(fb, pscore_avg=d["pscore"], stratum_idx=np.arange(n) % 2)
    mest = lambda: [o.MultiLoggersNaiveInverseProbabilityWeighting(), o.MultiLoggersBalancedDoublyRobust(), o.MultiLoggersWeightedDoublyRobust()]
    mo = m(fbm, mest())
    mo.estimate_policy_values(**good)
    for key in ("action", "position", "reward"):
        mon.raises(lambda: m({k: v for k, v in fbm.items() if k != key}, mest()), "missing-key", f"multi-logger evaluator without {key}")
    for call in calls(mo):
        mon.raises(lambda: call(action_dist=d["action_dist"]), "no-reg-model", "multi-logger model-based estimators without a regression estimate")
        for arg, lab, bad in corruptions(r, good):
            mon.raises(lambda: call(**bad), f"{arg}:{lab}", f"multi evaluator with {arg} {lab}")
    # continuous
    c = o.ContinuousOffPolicyEvaluation
    fbc = dict(action=r.normal(size=n), reward=d["reward"], pscore=d["pscore"])
    cest = lambda: [o.KernelizedInverseProbabilityWeighting("gaussian", 0.5), o.KernelizedDoublyRobust("gaussian", 0.5)]
    co = c(fbc, cest())
    goodc = dict(action_by_evaluation_policy=r.normal(size=n), estimated_rewards_by_reg_model=r.normal(size=n))
    for call in calls(co):
        call(**goodc)
        mon.raises(lambda: call(action_by_evaluation_policy=goodc["action_by_evaluation_policy"]), "no-reg-model", "kernelized DR without a regression estimate")
        for arg, lab, bad in corruptions(r, goodc):
            mon.raises(lambda: call(**bad), f"{arg}:{lab}", f"continuous evaluator with {arg} {lab}")
            mon.sig("cont", arg, lab)
    for key in fbc:
        mon.raises(lambda: c({k: v for k, v in fbc.items() if k != key}, cest()), "missing-key", f"continuous evaluator without {key}")
    # slate
    s = c05.slate_log(r, n=5, L=2)
    fbs = {k: s[k] for k in ("slate_id", "action", "reward", "position", "pscore", "pscore_item_position", "pscore_cascade")}
    fbs["context"] = r.normal(size=(5, 2))
    sest = lambda: [o.SlateStandardIPS(len_list=2), o.SlateCascadeDoublyRobust(len_list=2, n_unique_action=s["k"])]
    so = o.SlateOffPolicyEvaluation(fbs, sest())
    goods = {k: s[k] for k in ("evaluation_policy_pscore", "evaluation_policy_pscore_cascade", "q_hat", "evaluation_policy_action_dist")}
    KMAX[0] = s["k"]
    for call in calls(so):
        call(**goods)
        for arg in goods:
            mon.raises(lambda: call(**{k: v for k, v in goods.items() if k != arg}), "slate-missing", f"slate evaluator without {arg}")
        for arg, lab, bad in corruptions(r, goods, pscore_max1=True):
            mon.raises(lambda: call(**bad), f"{arg}:{lab}", f"slate evaluator with {arg} {lab}")
            mon.sig("slate", arg, lab)
    for key in ("slate_id", "action", "reward", "position", "context"):
        mon.raises(lambda: o.SlateOffPolicyEvaluation({k: v for k, v in fbs.items() if k != key}, sest()), "missing-key", f"slate evaluator without {key}")
    mon.ev("evaluator")


def learners(r, mon):
    """fit/predict of the regression, classification and policy models, and ground-truth values of the datasets"""
    import obp.dataset as ds
    import obp.ope as o
    import obp.policy as p
    from sklearn.linear_model import LogisticRegression, Ridge

    n, k, L = 24, 3, int(r.choice([1, 2]))
    KMAX[0] = k
    ctx = r.normal(size=(n, 2))
    act = np.tile(np.arange(k), n // k)
    rew = (np.arange(n) // k % 2).astype(float)
    ps = r.uniform(0.1, 1, n)
    pos = np.arange(n) // 6 % L
    dist = gen.dist(r, n, k, L, "dirichlet")
    base = dict(context=ctx, action=act, reward=rew, position=pos)
    opt = ("position",) if L == 1 else ()

    def go(name, fn, kw, optional=(), skip=()):
        fn(**kw)
        for arg, lab, bad in corruptions(r, kw, optional):
            if (arg, lab) in skip or (arg, "*") in skip:
                continue
            mon.raises(lambda: fn(**bad), f"{arg}:{lab}", f"{name} with {arg} {lab}")
            mon.sig(name, arg, lab)

    reg = lambda fm="normal": o.RegressionModel(n_actions=k, len_list=L, base_model=LogisticRegression() if fm == "normal" else Ridge(), fitting_method=fm)
    go("RegressionModel.fit", lambda **a: reg().fit(**a), base, opt)
    go("RegressionModel.fit_predict", lambda **a: reg().fit_predict(n_folds=2, random_state=1, **a), base, opt)
    for fm in ("iw", "mrdr"):
        go(f"RegressionModel[{fm}].fit", lambda **a: reg(fm).fit(**a), dict(base, pscore=ps, action_dist=dist), opt + ("pscore",), NOT_CLAIMED)
        go(f"RegressionModel[{fm}].fit_predict", lambda **a: reg(fm).fit_predict(n_folds=2, random_state=1, **a), dict(base, pscore=ps, action_dist=dist), opt + ("pscore",), NOT_CLAIMED)
    for bad in (0, -1, 1.5, "2"):
        mon.raises(lambda: reg().fit_predict(n_folds=bad, **base), "n_folds", f"RegressionModel n_folds={bad!r}")
    for lab, ac in (("too few rows", r.normal(size=(k - 1, 2))), ("1-dimensional", np.ones(k)), ("list", [[1, 0]] * k)):
        regac = lambda: o.RegressionModel(n_actions=k, len_list=L, base_model=Ridge(), action_context=ac)
        mon.raises(lambda: regac().fit(**base), "action-context", f"RegressionModel.fit with action_context {lab}")
        mon.raises(lambda: regac().fit_predict(**base), "action-context", f"RegressionModel.fit_predict with action_context {lab}")
        iwac = lambda: o.ImportanceWeightEstimator(n_actions=k, len_list=L, base_model=LogisticRegression(), action_context=ac)
        b2 = dict(context=ctx, action=act, position=pos, action_dist=dist)
        mon.raises(lambda: iwac().fit(**b2), "action-context", f"ImportanceWeightEstimator.fit with action_context {lab}")
        mon.raises(lambda: iwac().fit_predict(**b2), "action-context", f"ImportanceWeightEstimator.fit_predict with action_context {lab}")
    ipw = lambda: p.IPWLearner(n_actions=k, len_list=L, base_classifier=LogisticRegression())
    go("IPWLearner.fit", lambda **a: ipw().fit(**a), dict(base, pscore=ps), opt + ("pscore",), skip=ACTION_TOP)
    x = rew.copy()
    x[row(r, n)] = -0.5
    mon.raises(lambda: ipw().fit(**dict(base, pscore=ps, reward=x)), "negative-reward", "IPWLearner.fit with a negative reward")
    ql = lambda: p.QLearner(n_actions=k, len_list=L, base_model=Ridge())
    go("QLearner.fit", lambda **a: ql().fit(**a), dict(base, pscore=ps), opt + ("pscore",))
    for mk, nm in ((ipw, "IPWLearner"), (ql, "QLearner")):
        m = mk()
        m.fit(**dict(base, pscore=ps))
        for f in (m.predict, m.predict_score, m.sample_action) + ((m.predict_proba,) if L == 1 else ()):
            f(context=ctx)
            for bad in (ctx.tolist(), ctx[:, 0], ctx[..., None], None):
                mon.raises(lambda: f(context=bad), "predict-context", f"{nm}.{f.__name__} with a malformed context")
        for tau in (-1.0, "1"):
            mon.raises(lambda: m.sample_action(context=ctx, tau=tau), "tau", f"{nm}.sample_action tau={tau!r}")
            if L == 1:
                mon.raises(lambda: m.predict_proba(context=ctx, tau=tau), "tau", f"{nm}.predict_proba tau={tau!r}")
    # ground truth values
    data = ds.SyntheticBanditDataset(n_actions=k, dim_context=2, random_state=1)
    er = r.random((n, k))
    go("calc_ground_truth_policy_value", data.calc_ground_truth_policy_value, dict(expected_reward=er, action_dist=gen.dist(r, n, k, 1, "dirichlet")),
       skip={("action_dist", "sum-above-one"), ("action_dist", "sum-below-one"), ("action_dist", "negative")})
    mon.raises(lambda: data.calc_ground_truth_policy_value(expected_reward=er, action_dist=np.ones((n, k + 1, 1)) / (k + 1)), "actions-differ", "ground truth with different action sets")
    # classification models, neural learners, slate models and slate data
    dist1 = dict(context=ctx, action=act, position=pos, action_dist=dist)
    iw = lambda: o.ImportanceWeightEstimator(n_actions=k, len_list=L, base_model=LogisticRegression(), calibration_cv=1)
    psm = lambda: o.PropensityScoreEstimator(n_actions=k, len_list=L, base_model=LogisticRegression(), calibration_cv=1)
    go("ImportanceWeightEstimator.fit", lambda **a: iw().fit(**a), dist1, opt, NOT_CLAIMED)
    go("ImportanceWeightEstimator.fit_predict", lambda **a: iw().fit_predict(n_folds=2, random_state=1, **a), dist1, opt, NOT_CLAIMED)
    go("PropensityScoreEstimator.fit", lambda **a: psm().fit(**a), dict(context=ctx, action=act, position=pos), opt, ACTION_TOP)
    go("PropensityScoreEstimator.fit_predict", lambda **a: psm().fit_predict(n_folds=2, random_state=1, **a), dict(context=ctx, action=act, position=pos), opt, ACTION_TOP)
    for mk, kw in ((iw, dist1), (psm, dict(context=ctx, action=act, position=pos))):
        for bad in (0, -1, 1.5, "2"):
            mon.raises(lambda: mk().fit_predict(n_folds=bad, **kw), "n_folds", f"{type(mk()).__name__} n_folds={bad!r}")
        for bad in ("a", -3):
            mon.raises(lambda: mk().fit_predict(n_folds=2, random_state=bad, **kw), "random_state", f"{type(mk()).__name__} random_state={bad!r}")
    mon.raises(lambda: reg().fit_predict(n_folds=2, random_state="a", **base), "random_state", "RegressionModel random_state='a'")
    from obp.policy.offline import QFuncEstimator
    from obp.policy.offline_continuous import QFuncEstimatorForContinuousAction

    obj = str(r.choice(["ipw", "dr", "dm", "snipw", "ipw-os", "ipw-subgauss"]))
    hyp = dict(q_func_estimator_hyperparams=dict(max_iter=1)) if obj in ("dr", "dm") else {}
    nn = lambda: p.NNPolicyLearner(n_actions=k, dim_context=2, off_policy_objective=obj, max_iter=1, **hyp)
    go(f"NNPolicyLearner[{obj}].fit", lambda **a: nn().fit(**a), dict(context=ctx, action=act, reward=rew, pscore=ps), ("pscore",))
    pg = str(r.choice(["dpg", "ipw", "dr"]))
    cnn = lambda: p.ContinuousNNPolicyLearner(dim_context=2, pg_method=pg, bandwidth=0.5, max_iter=1, **(dict(q_func_estimator_hyperparams=dict(max_iter=1)) if pg != "ipw" else {}))
    cact = {("action", "negative"), ("action", "too-large"), ("action", "way-too-large"), ("action", "float")}
    go(f"ContinuousNNPolicyLearner[{pg}].fit", lambda **a: cnn().fit(**a), dict(context=ctx, action=r.normal(size=n), reward=rew, pscore=ps), ("pscore",), cact)
    go("QFuncEstimator.fit", lambda **a: QFuncEstimator(n_actions=k, dim_context=2, max_iter=1).fit(**a), dict(context=ctx, action=act, reward=rew))
    go("QFuncEstimatorForContinuousAction.fit", lambda **a: QFuncEstimatorForContinuousAction(dim_context=2, max_iter=1).fit(**a), dict(context=ctx, action=r.normal(size=n), reward=rew), (), cact)
    for mk in (nn, cnn):
        mon.raises(lambda: mk().fit(context=np.c_[ctx, ctx], action=act, reward=rew, pscore=ps), "dim_context", f"{type(mk()).__name__}.fit with another context dimension")
        for f in ("predict",) + (("predict_proba", "sample_action") if mk is nn else ()):
            m = mk()
            getattr(m, f)(context=ctx)
            for bad in (ctx.tolist(), ctx[:, 0], ctx[..., None], np.c_[ctx, ctx], None):
                mon.raises(lambda: getattr(m, f)(context=bad), "predict-context", f"{type(m).__name__}.{f} with a malformed context")
    h, S = 8, 2
    sa = r.integers(k, size=h * S)
    sl = dict(context=ctx[:h], action=sa, reward=r.normal(size=h * S), pscore_cascade=np.cumprod(r.uniform(0.1, 1, size=(h, S)), axis=1).ravel(),
              evaluation_policy_pscore_cascade=np.cumprod(r.uniform(0.1, 1, size=(h, S)), axis=1).ravel(), evaluation_policy_action_dist=r.dirichlet(np.ones(k), size=(h, S)).ravel())
    for fm in ("normal", "iw"):
        sm = lambda: o.SlateRegressionModel(base_model=Ridge(), len_list=S, n_unique_action=k, fitting_method=fm)
        sopt = ("pscore_cascade", "evaluation_policy_pscore_cascade") if fm == "normal" else ()
        for f in ("fit", "fit_predict"):
            getattr(sm(), f)(**sl)
            for arg, lab, bad in corruptions(r, sl, sopt, pscore_max1=True):
                mon.raises(lambda: getattr(sm(), f)(**bad), f"{arg}:{lab}", f"SlateRegressionModel[{fm}].{f} with {arg} {lab}")
                mon.sig("slate-reg", fm, f, arg, lab)
        edge = dict(sl, pscore_cascade=np.ones(h * S), evaluation_policy_pscore_cascade=np.ones(h * S))
        sm().fit(**edge)  # probabilities of exactly one are legal
        m = sm()
        m.fit(**sl)
        for arg, lab, bad in corruptions(r, dict(context=ctx[:h], action=sa)):
            if arg == "action" and lab in ("negative", "too-large", "way-too-large", "float"):
                continue
            mon.raises(lambda: m.predict(**bad), f"{arg}:{lab}", f"SlateRegressionModel.predict with {arg} {lab}")
    sd = ds.SyntheticSlateBanditDataset(n_unique_action=4, len_list=2, dim_context=2, base_reward_function=ds.logistic_reward_function)
    fb = sd.obtain_batch_bandit_feedback(n_rounds=6)
    lg = r.normal(size=(6, 4))
    KMAX[0] = 4
    go("slate calc_ground_truth_policy_value", sd.calc_ground_truth_policy_value, dict(context=ctx[:6], evaluation_policy_logit_=lg))
    go("slate obtain_pscore_given_evaluation_policy_logit", sd.obtain_pscore_given_evaluation_policy_logit, dict(action=fb["action"], evaluation_policy_logit_=lg), (), {("action", "float")})
    go("slate calc_evaluation_policy_action_dist", sd.calc_evaluation_policy_action_dist, dict(action=fb["action"], evaluation_policy_logit_=lg), (), cact)
    go("slate calc_on_policy_policy_value", sd.calc_on_policy_policy_value, dict(reward=fb["reward"], slate_id=fb["slate_id"]), (), {("slate_id", "negative"), ("slate_id", "float")})
    mon.ev("learners")


NOT_CLAIMED = {("action_dist", "negative"), ("position", "too-large")}
ACTION_TOP = {("action", "too-large"), ("action", "way-too-large")}
