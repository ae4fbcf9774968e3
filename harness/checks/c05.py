"""C05: slate estimators equal their published statistic."""
import math

import numpy as np

from .. import gen, ref

RULE = ("random slate logs (1..80 slates, 1..6 slots, arbitrary slate ids, shuffled row order for the IPS family, zero evaluation propensities) x "
        "{SIPS, IIPS, RIPS, self-normalised variants, cascade-DR}; plus logs made by the slate dataset with non-factorizable policies; "
        "non-trivial: distinct (estimator, slots, slate count, row order, has zero weights)")
ASSUMPTIONS = ["cascade-DR rows ordered by slate then slot, as the dataset returns them"]
NAMES = ["sips", "iips", "rips", "snsips", "sniips", "snrips", "cascade-dr"]
REQUIRED = [f"value:{n}" for n in NAMES] + ["pipeline", "ragged", "reused"]
BUDGET = dict(quick=240, thorough=2400)


def cls(name):
    import obp.ope as o

    return dict(zip(NAMES, [o.SlateStandardIPS, o.SlateIndependentIPS, o.SlateRewardInteractionIPS, o.SelfNormalizedSlateStandardIPS,
                            o.SelfNormalizedSlateIndependentIPS, o.SelfNormalizedSlateRewardInteractionIPS, o.SlateCascadeDoublyRobust]))[name]


def cases(rng, tier):
    for _ in range(1800 if tier == "quick" else 6000):
        yield dict(kind="random")
    for _ in range(6 if tier == "quick" else 40):
        yield dict(kind="random", big=True)
    for _ in range(30 if tier == "quick" else 120):
        yield dict(kind="pipeline")


def slate_log(r, n=None, L=None, k=None):
    n = int(n or (r.choice([1, 2, 6, 25, 80]) if r.random() < 0.97 else 700))
    L = int(L or (r.choice([1, 2, 3, 6]) if r.random() < 0.95 else 12))
    k = int(k or (r.choice([2, 3, 7]) if r.random() < 0.9 else 40))
    ids = np.sort(r.choice(5 * n, size=n, replace=False)) if r.random() < 0.5 else np.arange(n)
    if r.random() < 0.3:
        ids = ids + int(r.choice([1, 5 * n, 10**6, 2**40]))
    slate_id = np.repeat(ids, L)
    position = np.tile(np.arange(L), n)
    cond_b = r.uniform(0.2, 1, (n, L)) if r.random() < 0.8 else 10 ** r.uniform(-4, 0, (n, L))
    cond_e = r.uniform(0, 1, (n, L)) * (r.random((n, L)) < r.choice([1.0, 0.8]))
    cas_b, cas_e = np.cumprod(cond_b, 1), np.cumprod(cond_e, 1)
    pi_e = r.dirichlet(np.ones(k), size=(n, L))
    if r.random() < 0.1:  # a deterministic logging policy, stored as integers
        cas_b = np.ones((n, L), dtype=int)
    return dict(
        n=n, L=L, k=k, slate_id=slate_id, position=position, action=r.integers(k, size=n * L), reward=gen.rewards(r, n * L),
        pscore=np.repeat(cas_b[:, -1], L), evaluation_policy_pscore=np.repeat(cas_e[:, -1], L),
        pscore_item_position=r.uniform(0.05, 1, n * L) if r.random() < 0.9 else np.ones(n * L, dtype=int),
        evaluation_policy_pscore_item_position=r.uniform(0, 1, n * L) * (r.random(n * L) < 0.9),
        pscore_cascade=cas_b.ravel(), evaluation_policy_pscore_cascade=cas_e.ravel(),
        q_hat=r.normal(size=n * L * k), evaluation_policy_action_dist=pi_e.ravel(),
    )


def kw_of(name, d):
    kw = dict(slate_id=d["slate_id"], reward=d["reward"], position=d["position"])
    if name.endswith("sips"):
        kw.update(pscore=d["pscore"], evaluation_policy_pscore=d["evaluation_policy_pscore"])
    elif name.endswith("iips"):
        kw.update(pscore_item_position=d["pscore_item_position"],
                  evaluation_policy_pscore_item_position=d["evaluation_policy_pscore_item_position"])
    else:
        kw.update(pscore_cascade=d["pscore_cascade"], evaluation_policy_pscore_cascade=d["evaluation_policy_pscore_cascade"])
    if name == "cascade-dr":
        kw.update(action=d["action"], q_hat=d["q_hat"], evaluation_policy_action_dist=d["evaluation_policy_action_dist"])
    return kw


def reference(name, d):
    """(slate id -> sum of terms) or None if undefined."""
    m = len(d["reward"])
    r = [float(v) for v in d["reward"]]
    key = "" if name.endswith("sips") else ("_item_position" if name.endswith("iips") else "_cascade")
    b, e = d["pscore" + key], d["evaluation_policy_pscore" + key]
    w = [float(e[i]) / float(b[i]) for i in range(m)]
    if name in ("sips", "iips", "rips"):
        t = [w[i] * r[i] for i in range(m)]
    elif name == "snsips":
        mw = ref.fmean(w)
        if mw <= 0:
            return None
        t = [w[i] * r[i] / mw for i in range(m)]
    elif name in ("sniips", "snrips"):
        mw = {}
        for l in set(int(p) for p in d["position"]):
            mw[l] = ref.fmean([w[i] for i in range(m) if int(d["position"][i]) == l])
            if mw[l] <= 0:
                return None
        t = [w[i] * r[i] / mw[int(d["position"][i])] for i in range(m)]
    else:
        L, k = d["L"], d["k"]
        t = []
        for i in range(m):
            l = i % L
            prev = 1.0 if l == 0 else w[i - 1]
            q = [float(d["q_hat"][i * k + a]) for a in range(k)]
            pe = [float(d["evaluation_policy_action_dist"][i * k + a]) for a in range(k)]
            t.append(w[i] * (r[i] - q[int(d["action"][i])]) + prev * math.fsum(pe[a] * q[a] for a in range(k)))
    out = {}
    for i in range(m):
        out.setdefault(int(d["slate_id"][i]), []).append(t[i])
    return out


def make(name, d):
    return cls(name)(len_list=d["L"], n_unique_action=d["k"]) if name == "cascade-dr" else cls(name)(len_list=d["L"])


def verify(mon, name, d, tag, prior=None):
    terms = reference(name, d)
    if terms is None:
        return
    sums = [math.fsum(v) for v in terms.values()]
    est = make(name, d)
    if prior is not None:  # the same object saw another log before, and gave an interval for it
        est.estimate_policy_value(**kw_of(name, prior))
        est.estimate_interval(n_bootstrap_samples=2, random_state=0, **kw_of(name, prior))
        mon.ev("reused")
    got = est.estimate_policy_value(**kw_of(name, d))
    mon.ev(f"value:{name}")
    sc = ref.scale([x for v in terms.values() for x in v]) * d["L"]
    mon.check(np.ndim(got) == 0, "scalar", f"{name}: not a scalar")
    mon.close(float(got), ref.fmean(sums), name, f"{name} slates={d['n']} slots={d['L']} [{tag}]", rtol=1e-6, atol=1e-7 * sc + 1e-300)
    mon.sig(name, d["L"], d["n"], d["k"], tag)


ROWS = ("slate_id", "position", "reward", "pscore", "evaluation_policy_pscore", "pscore_item_position",
        "evaluation_policy_pscore_item_position", "pscore_cascade", "evaluation_policy_pscore_cascade", "action")


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    if case["kind"] == "random":
        d = slate_log(r, n=4000, L=3) if case.get("big") else slate_log(r)
        for name in NAMES:
            verify(mon, name, d, "ordered", slate_log(r, n=int(r.choice([2, 9])), L=d["L"], k=d["k"]) if not case.get("big") and r.random() < 0.2 else None)
        if d["n"] * d["L"] > 1:
            p = r.permutation(d["n"] * d["L"])
            e = dict(d)
            for a in ROWS:
                e[a] = d[a][p]
            for name in NAMES[:6]:
                verify(mon, name, e, "shuffled")
        if d["L"] > 1 and d["n"] > 1:  # slates of different lengths: the lower slots of some of them were not observed
            seen = r.integers(1, d["L"] + 1, size=d["n"])
            keep = d["position"] < np.repeat(seen, d["L"])
            for q, tag in ((np.flatnonzero(keep), "ragged"), (r.permutation(np.flatnonzero(keep)), "ragged shuffled")):
                e = dict(d)
                for a in ROWS:
                    e[a] = d[a][q]
                mon.ev("ragged")
                for name in ("sips", "iips", "rips", "sniips", "snrips"):
                    verify(mon, name, e, tag)
        mon.note(slates=d["n"], slots=d["L"], k=d["k"])
        return
    import obp.dataset as ds

    k, L = int(r.choice([3, 4])), int(r.choice([2, 3]))
    fact = bool(r.random() < 0.5)
    data = ds.SyntheticSlateBanditDataset(n_unique_action=k, len_list=L, dim_context=2, random_state=int(r.integers(1000)), is_factorizable=fact,
                                          behavior_policy_function=ds.linear_behavior_policy_logit, base_reward_function=ds.logistic_reward_function)
    f = data.obtain_batch_bandit_feedback(n_rounds=int(r.choice([8, 20])), return_pscore_item_position=True)
    logit = r.normal(size=(f["n_rounds"], k))
    ps = data.obtain_pscore_given_evaluation_policy_logit(f["action"], logit, return_pscore_item_position=True)
    dist = data.calc_evaluation_policy_action_dist(f["action"], logit)
    d = dict(f, n=f["n_rounds"], L=L, k=k, evaluation_policy_pscore=ps[0], evaluation_policy_pscore_item_position=ps[1],
             evaluation_policy_pscore_cascade=ps[2], q_hat=r.normal(size=f["n_rounds"] * L * k), evaluation_policy_action_dist=dist)
    for name in NAMES:
        verify(mon, name, d, "pipeline")
    mon.ev("pipeline")
