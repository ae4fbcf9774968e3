"""C03: multi-logger estimators equal their published statistic."""
import math

import numpy as np

from .. import gen, ref

RULE = ("random multi-logger data (1..5 loggers of unequal size, non-contiguous logger ids, interleaved rounds, extreme propensities) x "
        "{naive, balanced, weighted} x {IPW, DR} x clipping; plus library-made multi-logger datasets; non-trivial: distinct (estimator, "
        "clipping class, number of loggers, id style, position use)")
ASSUMPTIONS = ["weighted estimators: every logger contributes a positive empirical variance"]
NAMES = ["multi_ipw", "multi_bal_ipw", "multi_weighted_ipw", "multi_dr", "multi_bal_dr", "multi_weighted_dr"]
REQUIRED = [f"value:{n}" for n in NAMES] + ["pipeline", "reused"]
BUDGET = dict(quick=200, thorough=2400)


def cls(name):
    import obp.ope as o

    return dict(zip(NAMES, [
        o.MultiLoggersNaiveInverseProbabilityWeighting, o.MultiLoggersBalancedInverseProbabilityWeighting,
        o.MultiLoggersWeightedInverseProbabilityWeighting, o.MultiLoggersNaiveDoublyRobust,
        o.MultiLoggersBalancedDoublyRobust, o.MultiLoggersWeightedDoublyRobust]))[name]


def cases(rng, tier):
    for _ in range(1800 if tier == "quick" else 8000):
        yield dict(kind="random")
    for _ in range(4 if tier == "quick" else 30):
        yield dict(kind="random", n=15000)
    for _ in range(30 if tier == "quick" else 150):
        yield dict(kind="pipeline")


def reference(name, d, lam, ps):
    """Per-round terms, or None if undefined."""
    n = d["n"]
    r = [float(v) for v in d["reward"]]
    w = [min(v, lam) for v in ref.weights(d, ps)]
    isdr = "dr" in name
    dm = ref.dm_terms(d) if isdr else [0.0] * n
    q = ref.q_obs(d) if isdr else [0.0] * n
    corr = [w[i] * (r[i] - q[i]) for i in range(n)]
    if "weighted" not in name:
        return [dm[i] + corr[i] for i in range(n)]
    ids = [int(v) for v in d["stratum"]]
    var, cnt = {}, {}
    for k in set(ids):
        x = [dm[i] + corr[i] for i in range(n) if ids[i] == k]
        var[k], cnt[k] = ref.pvar(x), len(x)
        if var[k] <= 1e-12 * max(1e-300, ref.scale(x)) ** 2:
            return None
    tot = math.fsum(cnt[k] / var[k] for k in var)
    wk = {k: n / (var[k] * tot) for k in var}
    return [dm[i] + corr[i] * wk[ids[i]] for i in range(n)]


def call(name, d, lam, use_est):
    kw = dict(reward=d["reward"], action=d["action"], action_dist=d["action_dist"], position=d["position"])
    if "bal" in name:
        kw["pscore_avg"] = d["pscore"]
        if use_est:
            kw["estimated_pscore_avg"] = d["estimated_pscore"]
    else:
        kw["pscore"] = d["pscore"]
        if use_est:
            kw["estimated_pscore"] = d["estimated_pscore"]
    if "weighted" in name:
        kw["stratum_idx"] = d["stratum"]
    if "dr" in name:
        kw["estimated_rewards_by_reg_model"] = d["q"]
    return cls(name)(lambda_=lam, use_estimated_pscore=use_est), kw


def verify(mon, r, d, tag, prior=None):
    for name in NAMES:
        for use_est in (False, True):
            ps = d["estimated_pscore"] if use_est else d["pscore"]
            w = sorted(ref.weights(d, ps))
            for lam in (math.inf, float(r.gamma(1, 3)) + 1e-3, max(w[len(w) // 2], 1e-3), max(w[-1] * 0.99, 1e-3)):
                want = reference(name, d, lam, ps)
                if want is None:
                    continue
                est, kw = call(name, d, lam, use_est)
                if prior is not None and r.random() < 0.5:  # the same object saw another log before
                    est.estimate_policy_value(**call(name, prior, lam, use_est)[1])
                    mon.ev("reused")
                got = est.estimate_policy_value(**kw)
                mon.ev(f"value:{name}")
                sc = max(ref.scale(want), ref.scale(ref.dm_terms(d)) if "dr" in name else 0)
                mon.check(np.ndim(got) == 0, "scalar", f"{name}: not a scalar")
                mon.close(float(got), ref.fmean(want), name, f"{name} lambda_={lam!r} est={use_est} n={d['n']} [{tag}]",
                          rtol=1e-6, atol=1e-7 * sc + 1e-300)
                ids = np.unique(d["stratum"])
                mon.sig(name, lam == math.inf, any(v > lam for v in w), use_est, len(ids), bool(ids[-1] == len(ids) - 1), d["position"] is None)


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    if case["kind"] == "random":
        n = case.get("n") or int(r.choice([2, 5, 20, 60, 150]))
        d = gen.logged(r, n=n, k=3) if n > 10000 else gen.logged(r, n=n)
        d["stratum"] = strata(r, n)
        prior = None
        if r.random() < 0.4:
            prior = gen.logged(r, n=int(r.choice([n, 30])))
            prior["stratum"] = r.permutation(d["stratum"]) if prior["n"] == n else strata(r, 30)
        verify(mon, r, d, "random", prior)
        mon.note(n=n, loggers=np.unique(d["stratum"]).tolist())
        return
    import obp.dataset as ds

    K = int(r.choice([1, 2, 4]))
    data = ds.SyntheticMultiLoggersBanditDataset(
        n_actions=int(r.choice([3, 6])), dim_context=3, betas=[float(v) for v in r.normal(size=K) * 2],
        rhos=[float(v) for v in r.uniform(0.5, 2, K)], reward_function=ds.logistic_reward_function, random_state=int(r.integers(1000)))
    f = data.obtain_batch_bandit_feedback(n_rounds=int(r.choice([60, 150])))
    n, k = f["n_rounds"], f["n_actions"]
    for avg in (False, True):
        d = dict(n=n, k=k, L=1, action=f["action"], reward=f["reward"], pscore=f["pscore_avg"] if avg else f["pscore"],
                 estimated_pscore=gen.pscores(r, n, "uniform"), action_dist=gen.dist(r, n, k, 1), position=f["position"],
                 q=r.random((n, k, 1)), stratum=f["stratum_idx"])
        verify(mon, r, d, "pipeline")
    mon.ev("pipeline")


def strata(r, n):
    K = int(min(n, r.choice([1, 2, 3, 5, 12] if n > 50 else [1, 2, 3, 5])))
    ids = np.sort(r.choice(12, size=K, replace=False)) if r.random() < 0.5 else np.arange(K)
    if r.random() < 0.2:
        ids = ids * int(r.choice([7, 1000])) + int(r.choice([1, 300, 10**6]))
    s = r.choice(ids, size=n, p=r.dirichlet(np.ones(K) * 2))
    return np.sort(s) if r.random() < 0.5 else s
