"""C02: hyper-parameter tuning returns the estimate at the candidate its selection rule designates."""
import math

import numpy as np

from .. import gen, ref

RULE = ("random logged data x {ipw, dr, switch-dr, dr-os, sg-ipw, sg-dr} tuning x {slope, mse with and without the bias upper bound} x dense "
        "candidate lists (1..24 values, unsorted, duplicates, extremes) x delta; non-trivial: distinct (estimator, rule, rank of the "
        "selected candidate, number of candidates) where candidates disagree in value")
ASSUMPTIONS = ["selections whose deciding comparison is within 1e-9 are only checked to be one of the candidates' values"]
NAMES = ["ipw", "dr", "switch-dr", "dr-os", "sg-ipw", "sg-dr"]
REQUIRED = [f"tuned:{n}:{m}" for n in NAMES for m in ("slope", "mse")] + ["slope-stopped-early", "interval"]
BUDGET = dict(quick=240, thorough=2400)


def tcls(name):
    import obp.ope as o

    return {
        "ipw": o.InverseProbabilityWeightingTuning, "dr": o.DoublyRobustTuning, "switch-dr": o.SwitchDoublyRobustTuning,
        "dr-os": o.DoublyRobustWithShrinkageTuning, "sg-ipw": o.SubGaussianInverseProbabilityWeightingTuning,
        "sg-dr": o.SubGaussianDoublyRobustTuning,
    }[name]


def cases(rng, tier):
    for _ in range(3000 if tier == "quick" else 40000):
        yield dict(kind="tune")


def candidates(r, name, w):
    m = int(r.choice([1, 2, 3, 6, 12, 24]))
    if name.startswith("sg"):
        c = list(r.random(m)) if r.random() < 0.7 else list(10.0 ** -r.uniform(0, 5, m))
    elif r.random() < 0.6:  # between the observed weights
        hi = max(max(w), 1e-3)
        c = list(r.uniform(0, hi * 1.1, m) + 1e-9)
        if r.random() < 0.5:
            c = list(10.0 ** r.uniform(math.log10(hi) - 3, math.log10(hi) + 0.5, m))
        if name == "dr-os":
            c = [v * v + 1e-6 for v in c]
    else:
        c = list(10.0 ** r.uniform(-3, 4, m))
    c = [float(v) for v in c]
    if r.random() < 0.3 and not name.startswith("sg"):
        c[int(r.integers(len(c)))] = math.inf
    if r.random() < 0.2:
        c.append(c[0])
    r.shuffle(c)
    return c


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    n = int(r.choice([2, 3, 10, 40, 120, 400]) if r.random() < 0.97 else 1500)
    d = gen.logged(r, n=n, k=int(r.choice([2, 4, 8])))
    if r.random() < 0.6:  # well behaved data, where the rules discriminate
        d["pscore"] = gen.pscores(r, n, str(r.choice(["uniform", "mid", "extreme"])))
        d["reward"] = gen.rewards(r, n, str(r.choice(["binary", "normal"])))
        d["q"] = d["q"] / 10
    name = str(r.choice(NAMES))
    method = str(r.choice(["slope", "mse"]))
    use_ub = bool(r.random() < 0.5)
    use_est = bool(r.random() < 0.3)
    delta = float(r.choice([0.01, 0.05, 0.1, 0.3, 0.7]))
    ps = d["estimated_pscore"] if use_est else d["pscore"]
    w = ref.weights(d, ps)
    cands = candidates(r, name, w)
    kw = dict(reward=d["reward"], action=d["action"], action_dist=d["action_dist"], pscore=d["pscore"], position=d["position"])
    if d["position"] is None:
        kw["position"] = np.zeros(n, dtype=int) if r.random() < 0.5 else None
    if use_est:
        kw["estimated_pscore"] = d["estimated_pscore"]
    if "dr" in name:
        kw["estimated_rewards_by_reg_model"] = d["q"]
    given = list(cands)
    est = tcls(name)(lambdas=given, tuning_method=method, use_bias_upper_bound=use_ub, delta=delta, use_estimated_pscore=use_est)
    got = float(est.estimate_policy_value(**kw))
    mon.check(given == cands, "candidates-kept", lambda: f"the caller's candidate list changed: {cands} -> {given}")
    mon.ev(f"tuned:{name}:{method}")
    rr = [ref.round_rewards(name, d, lam, ps) for lam in cands]
    thetas = [ref.fmean(x) for x in rr]
    sc = max(max(ref.scale(x) for x in rr), ref.scale(ref.dm_terms(d)) if "dr" in name else 0)
    tol = 1e-7 * sc + 1e-300
    if any(math.isnan(t) for t in thetas):
        return
    mon.check(any(abs(got - t) <= tol for t in thetas), "is-a-candidate",
              lambda: f"{name}/{method}: {got!r} is not the estimate at any candidate {sorted(zip(cands, thetas))[:6]}")
    if method == "slope":
        cnf = [ref.student_t_halfwidth(x, delta) for x in rr]
        idx = ref.slope(thetas, cnf, margin=1e-8)
    else:
        sco = [ref.mse_score(name, d, lam, ps, use_ub, delta) for lam in cands]
        idx = int(np.argmin(sco))
        for j, s in enumerate(sco):
            if s <= sco[idx] * (1 + 1e-8) + 1e-300 and abs(thetas[j] - thetas[idx]) > tol:
                idx = None
                break
    if idx is None:
        mon.ev("too-close-to-call")
        return
    mon.close(got, thetas[idx], f"select:{method}", f"{name} tuned by {method} (ub={use_ub}, delta={delta}, n={n}, candidates={len(cands)}, "
              f"rule selects lambda={cands[idx]!r})", rtol=1e-7, atol=tol)
    spread = max(thetas) - min(thetas)
    if spread > 100 * tol and len(cands) > 1:
        rank = sorted(cands).index(cands[idx])
        mon.sig(name, method, use_ub if method == "mse" else None, rank, len(cands), use_est)
        if method == "slope":
            order = sorted(range(len(cands)), key=lambda i: -cnf[i])
            if order[-1] != idx:
                mon.ev("slope-stopped-early")
    # order of the candidates must not matter; the second call must agree with the first
    perm = list(cands)
    r.shuffle(perm)
    est2 = tcls(name)(lambdas=list(perm), tuning_method=method, use_bias_upper_bound=use_ub, delta=delta, use_estimated_pscore=use_est)
    mon.close(float(est2.estimate_policy_value(**kw)), got, "order-independent", f"{name}/{method} candidates reordered", rtol=1e-7, atol=tol)
    mon.close(float(est.estimate_policy_value(**kw)), got, "repeatable", f"{name}/{method} second call", rtol=1e-12, atol=1e-300)
    if r.random() < 0.25:
        ci = est2.estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=50, random_state=7)
        from .c01 import make
        base = make(name, cands[idx], use_est).estimate_interval(**kw, alpha=0.1, n_bootstrap_samples=50, random_state=7)
        mon.ev("interval")
        mon.close([ci[k] for k in sorted(base)], [base[k] for k in sorted(base)], "interval-uses-selection", f"{name}/{method} interval",
                  rtol=1e-7, atol=tol * 10)
    mon.note(estimator=name, method=method, candidates=len(cands), chosen=cands[idx], value=got)
