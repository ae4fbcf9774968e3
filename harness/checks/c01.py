"""C01: point estimates of the single-logger estimators equal their published statistic."""
import math

import numpy as np

from .. import gen, ref

RULE = ("random logged data (n 1..150, 2..11 actions, 1..4 positions, extreme propensities, sparse and deterministic "
        "policies, int/float rewards, strided arrays) x every estimator x clip/shrinkage values at and between the observed weights; "
        "non-trivial: distinct (estimator, lambda class, position use, pscore source, policy style) with a non-zero estimate")
ASSUMPTIONS = ["float64 arithmetic, relative tolerance 1e-7 on the mean absolute term"]
NAMES = ["rm", "ipw", "snipw", "dm", "dr", "sndr", "switch-dr", "dr-os", "sg-ipw", "sg-dr", "b-ipw"]
REQUIRED = [f"value:{n}" for n in NAMES] + ["pipeline", "reused"]
BUDGET = dict(quick=200, thorough=2400)


def cls(name):
    import obp.ope as o

    return {
        "rm": o.ReplayMethod, "ipw": o.InverseProbabilityWeighting,
        "snipw": o.SelfNormalizedInverseProbabilityWeighting, "dm": o.DirectMethod, "dr": o.DoublyRobust,
        "sndr": o.SelfNormalizedDoublyRobust, "switch-dr": o.SwitchDoublyRobust,
        "dr-os": o.DoublyRobustWithShrinkage, "sg-ipw": o.SubGaussianInverseProbabilityWeighting,
        "sg-dr": o.SubGaussianDoublyRobust, "b-ipw": o.BalancedInverseProbabilityWeighting,
    }[name]


HAS_LAM = {"ipw", "dr", "switch-dr", "dr-os", "sg-ipw", "sg-dr", "b-ipw", "snipw", "sndr"}
HAS_EST = {"ipw", "snipw", "dr", "sndr", "switch-dr", "dr-os", "sg-ipw", "sg-dr"}


def lambdas(r, name, w):
    if name in ("sg-ipw", "sg-dr"):
        return [0.0, 1.0, float(r.random()), 1e-3]
    w = sorted(float(v) for v in w)
    mid = w[len(w) // 2]
    out = [math.inf, float(r.gamma(1, 3)) + 1e-3, mid if mid > 0 else 0.5, 1]
    if w[-1] > 0:
        out += [w[-1], w[-1] * 0.999]
    if name == "dr-os":
        out += [1e-6, 1e6]
    return out


def kwargs_of(d, name, use_est):
    kw = dict(reward=d["reward"], action=d["action"], action_dist=d["action_dist"], position=d["position"])
    if name in HAS_EST:
        kw["pscore"] = d["pscore"]
        if use_est:
            kw["estimated_pscore"] = d["estimated_pscore"]
    if "dr" in name or name == "dm":
        kw["estimated_rewards_by_reg_model"] = d["q"]
    if name == "b-ipw":
        kw["estimated_importance_weights"] = d["w_hat"]
    return kw


def make(name, lam, use_est):
    kw = {}
    if name in HAS_LAM:
        kw["lambda_"] = lam
    if name in HAS_EST and use_est:
        kw["use_estimated_pscore"] = True
    return cls(name)(**kw)


def cases(rng, tier):
    m = 1200 if tier == "quick" else 6000
    for _ in range(m):
        yield dict(kind="random")
    for _ in range(12 if tier == "quick" else 60):
        yield dict(kind="big")
    for _ in range(3 if tier == "quick" else 20):
        yield dict(kind="big", n=25000, k=3)
    for _ in range(10 if tier == "quick" else 150):
        yield dict(kind="pipeline")


def one(mon, d, name, lam, use_est, tag, est=None):
    ps = d["estimated_pscore"] if (use_est and name in HAS_EST) else d["pscore"]
    w = ref.weights(d, ps)
    if name in ("snipw", "sndr") and sum(w) <= 0:
        return
    if name.startswith("sg") and lam == 1.0 and min(w) == 0:
        return  # 0/0 by definition
    want = ref.round_rewards(name, d, lam, ps)
    est = est or make(name, lam, use_est)
    got = est.estimate_policy_value(**kwargs_of(d, name, use_est))
    mon.ev(f"value:{name}")
    val = ref.fmean(want)
    if "dr" in name:  # the correction may cancel: scale by all parts
        sc = max(ref.scale(want), ref.scale(ref.dm_terms(d)))
    else:
        sc = ref.scale(want)
    mon.check(np.ndim(got) == 0, "scalar", lambda: f"{name}: estimate is not a scalar: {type(got)} {np.shape(got)}")
    mon.close(float(got), val, f"{name}", f"{name} lambda_={lam!r} est_pscore={use_est} n={d['n']} L={d['L']} [{tag}]",
              rtol=1e-7, atol=1e-7 * sc + 1e-300)
    lc = "inf" if lam == math.inf else ("zero" if lam == 0 else ("cuts" if name in HAS_LAM and any(v > lam for v in w) else "loose"))
    if val != 0:
        mon.sig(name, lc, use_est, d["position"] is None, d["L"], d["k"], min(d["n"], 21), tag)


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    if case["kind"] == "pipeline":
        return pipeline(case, mon, r)
    d = gen.logged(r) if case["kind"] == "random" else gen.logged(r, n=case.get("n") or int(r.choice([1500, 4000])), k=case.get("k") or int(r.choice([3, 40])))
    for name in NAMES:
        w = ref.weights(d, d["pscore"]) if name != "b-ipw" else d["w_hat"]
        lams = lambdas(r, name, w) if name in HAS_LAM else [math.inf]
        for lam in (lams if case["kind"] == "random" else lams[:2]):
            for use_est in ([False, True] if name in HAS_EST else [False]):
                one(mon, d, name, lam, use_est, "single")
    if case["kind"] == "random" and r.random() < 0.4:
        reused(mon, r, d)
    mon.note(n=d["n"], k=d["k"], L=d["L"], ipw=ref.fmean(ref.round_rewards("ipw", d)))


def reused(mon, r, d):
    """One estimator object on several logs, one of them held in the same arrays: nothing of an earlier log may remain."""
    n, k, L = d["n"], d["k"], d["L"]
    new = dict(gen.logged(r, n=n, k=k, L=L), position=d["position"])
    for name in r.choice(NAMES, size=4, replace=False):
        name = str(name)
        e = {a: v.copy() if isinstance(v, np.ndarray) else v for a, v in d.items()}
        for a in ("reward", "action_dist", "pscore", "estimated_pscore", "q"):
            e[a] = e[a].astype(float)
        lam = float(r.choice([0.5, 1.0])) if name.startswith("sg") else float(r.choice([math.inf, 1.5]))
        use_est = bool(name in HAS_EST and r.random() < 0.3)
        est = make(name, lam, use_est)
        one(mon, e, name, lam, use_est, "reused: first", est)
        for a in ("reward", "action", "pscore", "estimated_pscore", "action_dist", "q", "w_hat"):
            e[a][...] = new[a]
        one(mon, e, name, lam, use_est, "reused: new values in the same arrays", est)
        one(mon, gen.logged(r), name, lam, use_est, "reused: another log", est)
        one(mon, e, name, lam, use_est, "reused: back", est)
        mon.ev("reused")


def pipeline(case, mon, r):
    """The same oracle on data made by the library itself (dataset -> model -> policy)."""
    from sklearn.linear_model import LogisticRegression, Ridge
    import obp.dataset as ds
    import obp.ope as o

    rt = str(r.choice(["binary", "continuous"]))
    data = ds.SyntheticBanditDataset(
        n_actions=int(r.choice([2, 5, 8])), dim_context=3, reward_type=rt, beta=float(r.choice([-3.0, 0.0, 3.0])),
        reward_function=ds.logistic_reward_function if rt == "binary" else ds.linear_reward_function,
        random_state=int(r.integers(1000)),
    )
    f = data.obtain_batch_bandit_feedback(n_rounds=int(r.choice([40, 150])))
    k = f["n_actions"]
    reg = o.RegressionModel(n_actions=k, base_model=LogisticRegression() if rt == "binary" else Ridge())
    if rt == "binary" and len(np.unique(f["reward"])) < 2:
        return
    try:
        q = reg.fit_predict(context=f["context"], action=f["action"], reward=f["reward"], n_folds=1)
    except ValueError:
        return
    pi = gen.dist(r, f["n_rounds"], k, 1)
    d = dict(n=f["n_rounds"], k=k, L=1, action=f["action"], reward=f["reward"], pscore=f["pscore"],
             estimated_pscore=gen.pscores(r, f["n_rounds"]), action_dist=pi, q=q, position=f["position"],
             w_hat=r.gamma(1.0, 1.0, size=f["n_rounds"]))
    for name in NAMES:
        for lam in ([1.0 if name.startswith("sg") else 2.5, 0.3] if name in HAS_LAM else [math.inf]):
            one(mon, d, name, lam, False, "pipeline")
    mon.ev("pipeline")
