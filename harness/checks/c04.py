"""C04: kernelized estimators for continuous actions equal their published statistic."""
import math

import numpy as np

from .. import gen, ref

RULE = ("random continuous-action logs (n 1..300, action gaps inside, at and outside the kernel support, int/float actions, tiny and huge "
        "bandwidths) x 4 kernels x {IPW, SNIPW, DR}; kernels probed pointwise; non-trivial: distinct (estimator, kernel, bandwidth class, "
        "fraction of rounds inside the support)")
ASSUMPTIONS = ["relative tolerance 1e-7"]
KERNELS = ["gaussian", "epanechnikov", "triangular", "cosine"]
NAMES = ["kernelized_ipw", "kernelized_snipw", "kernelized_dr"]
REQUIRED = [f"value:{n}:{k}" for n in NAMES for k in KERNELS] + ["kernel-integral", "pipeline", "reused"]
BUDGET = dict(quick=200, thorough=2400)


def K(kernel, u):
    if kernel == "gaussian":
        return math.exp(-u * u / 2) / math.sqrt(2 * math.pi)
    if abs(u) >= 1:
        return 0.0
    if kernel == "epanechnikov":
        return 0.75 * (1 - u * u)
    if kernel == "triangular":
        return 1 - abs(u)
    return math.pi / 4 * math.cos(math.pi / 2 * u)


def cases(rng, tier):
    for _ in range(4000 if tier == "quick" else 12000):
        yield dict(kind="random")
    for _ in range(4 if tier == "quick" else 40):
        yield dict(kind="random", n=20000)
    for k in KERNELS:
        yield dict(kind="kernel", kernel=k)
    for _ in range(24 if tier == "quick" else 100):
        yield dict(kind="pipeline")


def cls(name):
    import obp.ope as o

    return dict(zip(NAMES, [o.KernelizedInverseProbabilityWeighting, o.KernelizedSelfNormalizedInverseProbabilityWeighting,
                            o.KernelizedDoublyRobust]))[name]


def reference(name, kernel, h, d):
    n = len(d["reward"])
    k = [K(kernel, (float(d["ae"][i]) - float(d["ab"][i])) / h) for i in range(n)]
    p = [float(v) for v in d["pscore"]]
    r = [float(v) for v in d["reward"]]
    if name == "kernelized_ipw":
        return [k[i] * r[i] / p[i] / h for i in range(n)], k
    if name == "kernelized_snipw":
        den = ref.fmean([k[i] / p[i] for i in range(n)])
        # at the rim of a compact support the kernel is 0 up to rounding: the ratio is then undetermined
        if den <= (1e-280 if kernel == "gaussian" else 1e-9 * ref.fmean([1 / v for v in p])):
            return None, k
        return [k[i] * r[i] / p[i] / den for i in range(n)], k
    q = [float(v) for v in d["q"]]
    return [k[i] * (r[i] - q[i]) / p[i] / h + q[i] for i in range(n)], k


def kw_of(name, d):
    kw = dict(reward=d["reward"], action_by_behavior_policy=d["ab"], pscore=d["pscore"], action_by_evaluation_policy=d["ae"])
    if name.endswith("dr"):
        kw["estimated_rewards_by_reg_model"] = d["q"]
    return kw


def verify(mon, name, kernel, h, d, tag, prior=None):
    want, k = reference(name, kernel, h, d)
    if want is None:
        return
    est = cls(name)(kernel=kernel, bandwidth=h)
    if prior is not None:  # the same object saw another log before
        est.estimate_policy_value(**kw_of(name, prior))
        mon.ev("reused")
    got = est.estimate_policy_value(**kw_of(name, d))
    mon.ev(f"value:{name}:{kernel}")
    sc = max(ref.scale(want), ref.scale(d["q"]) if name.endswith("dr") else 0)
    res = [abs(float(d["reward"][i]) - (float(d["q"][i]) if name.endswith("dr") else 0)) for i in range(len(k))]
    if name.endswith("snipw"):
        den = ref.fmean([k[i] / float(d["pscore"][i]) for i in range(len(k))])
        rim = 1e-14 * ref.fmean([res[i] / float(d["pscore"][i]) / den for i in range(len(k))]) if kernel != "gaussian" else 0.0
    else:
        rim = 1e-14 * ref.fmean([res[i] / float(d["pscore"][i]) / h for i in range(len(k))])
    mon.check(np.ndim(got) == 0, "scalar", f"{name} not scalar")
    mon.close(float(got), ref.fmean(want), name, f"{name} kernel={kernel} h={h} n={len(d['reward'])} [{tag}]", rtol=1e-6, atol=1e-7 * sc + rim + 1e-14)
    if ref.fmean(want) != 0:
        mon.sig(name, kernel, round(math.log10(h)), round(10 * sum(v > 1e-12 for v in k) / len(k)), tag)


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    if case["kind"] == "kernel":
        return kernel_case(case["kernel"], r, mon)
    if case["kind"] == "pipeline":
        import obp.dataset as ds

        data = ds.SyntheticContinuousBanditDataset(dim_context=3, min_action_value=-2.0, max_action_value=3.0, random_state=int(r.integers(1000)),
                                                   reward_function=ds.linear_reward_funcion_continuous,
                                                   behavior_policy_function=ds.linear_behavior_policy_continuous)
        f = data.obtain_batch_bandit_feedback(n_rounds=int(r.choice([30, 120])))
        d = dict(reward=f["reward"], ab=f["action"], pscore=f["pscore"], q=r.normal(size=f["n_rounds"]),
                 ae=ds.linear_synthetic_policy_continuous(context=f["context"]))
        for name in NAMES:
            for kernel in KERNELS:
                verify(mon, name, kernel, float(r.choice([0.1, 0.5, 2.0])), d, "pipeline")
        mon.ev("pipeline")
        return
    n = case.get("n") or int(r.choice([1, 2, 5, 30, 120, 300]))
    h = float(r.choice([1e-2, 0.1, 0.5, 1.0, 3.0, 50.0])) if r.random() < 0.8 else int(r.choice([1, 2, 10]))
    isint = r.random() < 0.15
    ab = r.integers(-5, 6, size=n) if isint else r.normal(size=n) * 2
    gap = r.choice([0.0, 0.5, 0.99, 1.0, 1.01, 2.0, 4.0, 37.0], size=n) * r.choice([-1, 1], size=n)
    ae = r.integers(-5, 6, size=n) if isint else np.where(r.random(n) < 0.5, ab + gap * h, ab + r.normal(size=n) * h)
    if r.random() < 0.2:
        ae = np.full(n, ae[0])
    d = dict(reward=gen.rewards(r, n), ab=ab, ae=ae, pscore=10 ** r.uniform(-2, 1, n), q=r.normal(size=n))
    for a in ("reward", "ab", "ae", "pscore", "q"):
        d[a] = gen.layout(r, d[a])
    for name in NAMES:
        for kernel in KERNELS:
            prior = None
            if r.random() < 0.1:
                m = int(r.choice([n, 7]))
                prior = dict(reward=r.normal(size=m), ab=r.normal(size=m), pscore=r.uniform(0.1, 1, m), q=r.normal(size=m))
                prior["ae"] = prior["ab"] + r.normal(size=m) * h
            verify(mon, name, kernel, h, d, "random", prior)
    mon.note(n=n, h=h, actions=ab[:4])


def kernel_case(kernel, r, mon):
    """A kernel is observed through the estimator: one round, unit propensity, unit reward."""
    import obp.ope as o

    us = np.concatenate([np.linspace(-6, 6, 4801), r.uniform(-2, 2, 200), [0, 1, -1, 1 + 1e-9, 0.5]])
    est = o.KernelizedInverseProbabilityWeighting(kernel=kernel, bandwidth=1.0)
    vals = np.array([est.estimate_policy_value(reward=np.ones(1), action_by_behavior_policy=np.zeros(1), pscore=np.ones(1),
                                               action_by_evaluation_policy=np.array([float(u)])) for u in us])
    want = np.array([K(kernel, float(u)) for u in us])
    mon.close(vals, want, "kernel-pointwise", kernel, rtol=1e-9, atol=1e-12)
    mon.check(abs(np.trapz(vals[:4801], us[:4801]) - 1) < 1e-4, "kernel-integral", f"{kernel} integrates to {np.trapz(vals[:4801], us[:4801])}")
    mon.ev("kernel-integral")
    mon.sig("kernel", kernel)
