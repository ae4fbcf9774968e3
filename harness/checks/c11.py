"""C11: synthetic single-logger and multi-logger data sets."""
import math

import numpy as np
from scipy.stats import norm, truncnorm

from .. import stat

RULE = ("synthetic single-logger and multi-logger data sets with custom and built-in reward/policy functions x reward type x beta x deficient actions x sizes; "
        "every reported quantity recomputed from the caller's functions; non-trivial: distinct configurations with at least two supported actions")
ASSUMPTIONS = ["statistical comparisons use Bernstein/DKW bounds with false-alarm probability 1e-11 each"]
BUDGET = dict(quick=300, thorough=2400)
REQUIRED = ["single", "multi", "deficient", "stat-tests", "truth", "fresh-batches", "sample-reward", "stat-batch"]
FNS = dict(binary=["logistic_reward_function", "logistic_polynomial_reward_function", "logistic_sparse_reward_function"],
           continuous=["linear_reward_function", "polynomial_reward_function", "sparse_reward_function", "logistic_reward_function"])


def cases(rng, tier):
    m = 1 if tier == "quick" else 12
    for kind in ("single", "multi"):
        for _ in range(170 * m):
            yield dict(kind=kind, big=False)
        for _ in range(50 * m):
            yield dict(kind=kind, big=True)
    for _ in range(60 * m):
        yield dict(kind="truth")


def smax(z):
    e = np.exp(z - z.max())
    return e / e.sum()


def tmean(mu, sd):
    a = -mu / sd
    lz = norm.logsf(a)
    return mu + sd * np.exp(norm.logpdf(a) - lz)


def run_case(case, mon):
    import obp.dataset as D

    r = np.random.default_rng(case["seed"])
    if case["kind"] == "truth":
        return truth(r, mon, D)
    multi = case["kind"] == "multi"
    k = int(r.choice([2, 3, 5, 12] + ([140] if not case["big"] and r.random() < 0.3 else [])))
    dim = int(r.choice([1, 2, 5]))
    n = int(r.choice([3000, 5000])) if case["big"] else int(r.choice([1, 2, 5, 17, 60, 250] if not multi else [50, 97, 250]))
    rt = str(r.choice(["binary", "continuous"]))
    if rt == "continuous":  # truncated-normal moments are slow to compute
        k = min(k, 12)
        if case["big"]:
            k, n = min(k, 3), 2000
    sd = float(r.choice([0.1, 1.0, 4.0]))
    nd = int(r.choice([0, 0, 1, k // 2, k - 1]))
    seed = int(r.integers(10000))
    ac = r.normal(size=(k, 3)) if r.random() < 0.5 or k > 12 else None
    AC = np.eye(k, dtype=int) if ac is None else ac
    W = r.normal(size=(dim, AC.shape[1]))
    calls = []
    intr, intp = (bool(v) for v in np.random.default_rng(seed).random(2) < [0.15, 0.4])  # integer-valued user functions

    def rew(context, action_context, random_state=None, **kw):
        calls.append(("reward", context, action_context, random_state))
        z = context @ W @ action_context.T + action_context.sum(1)
        if intr:
            return (z > 0.5).astype(int) if rt == "binary" else np.rint(z).astype(int)
        return 1 / (1 + np.exp(-z)) if rt == "binary" else z

    def beh(context, action_context, random_state=None, **kw):
        calls.append(("policy", context, action_context, random_state))
        v = np.sin(3 * context @ W @ action_context.T)
        return np.rint(3 * v).astype(int) if intp else v

    style = str(r.choice(["custom", "custom", "builtin", "contextfree"]))
    kw = dict(n_actions=k, dim_context=dim, reward_type=rt, reward_std=sd, action_context=ac, n_deficient_actions=nd, random_state=seed)
    if style == "custom":
        kw["reward_function"] = rew
    elif style == "builtin":
        name = str(r.choice(FNS[rt]))
        if dim < 2 or k < 3:  # a sparse function of so few features can be constant
            name = name.replace("_sparse_", "_").replace("sparse_", "linear_")
        kw["reward_function"] = getattr(D, name)
    custom_pol = bool(r.random() < 0.4) and not multi
    if multi:
        m = int(r.choice([1, 2, 3, 4]))
        betas = [float(b) for b in r.choice([-5.0, -1.0, 0.0, 0.5, 2.0, 10.0], size=m)]
        if r.random() < 0.2:
            betas[0] = int(3)
        rhos = [float(v) for v in r.uniform(0.2, 1.0, m)] if r.random() < 0.7 else [1] * m
        cls, kw = D.SyntheticMultiLoggersBanditDataset, dict(kw, betas=list(betas), rhos=list(rhos))
    else:
        beta = float(r.choice([-20.0, -1.0, 0.0, 0.7, 3.0, 50.0]))
        cls, kw = D.SyntheticBanditDataset, dict(kw, beta=beta)
        if custom_pol:
            kw["behavior_policy_function"] = beh
    ds = cls(**kw)
    mon.ev(case["kind"])
    lab = f"{case['kind']} {style} {rt} k={k} n={n} deficient={nd}"
    f = ds.obtain_batch_bandit_feedback(n)
    # ---- structure -------------------------------------------------------------------------------
    x, a, y, q, pi, ps = (np.asarray(f[key]) for key in ("context", "action", "reward", "expected_reward", "pi_b", "pscore"))
    mon.check(f["n_rounds"] == n and f["n_actions"] == k and f["position"] is None and ds.len_list == 1, "metadata", f"{lab}: n_rounds {f['n_rounds']}, n_actions {f['n_actions']}")
    ok = x.shape == (n, dim) and a.shape == (n,) and y.shape == (n,) and q.shape == (n, k) and pi.shape == (n, k, 1) and ps.shape == (n,)
    if not mon.check(ok, "shapes", f"{lab}: shapes {[v.shape for v in (x, a, y, q, pi, ps)]}"):
        return
    mon.check(np.issubdtype(a.dtype, np.integer) and a.min() >= 0 and a.max() < k, "action-range", f"{lab}: actions {a.min()}..{a.max()} {a.dtype}")
    mon.check(np.isfinite(x).all() and np.isfinite(q).all() and np.isfinite(y).all(), "finite", f"{lab}: non-finite data")
    mon.close(f["action_context"], AC, "action-context", f"{lab}: action_context")
    pi = pi[:, :, 0]
    # ---- expected rewards ------------------------------------------------------------------------
    base = None
    if style == "custom":
        rc = [c for c in calls if c[0] == "reward"]
        base = rew(x, AC)
        mon.check(any(np.array_equal(c[1], x) and np.array_equal(c[2], AC) for c in rc), "reward-function-called", f"{lab}: reward_function not called with the data's contexts")
    elif style == "builtin":
        base = getattr(D, name)(context=x, action_context=AC, random_state=seed)
    if base is not None:
        want = base if rt == "binary" else tmean(base, sd)
        mon.close(q, want, "expected-reward", f"{lab}: expected_reward", rtol=1e-4, atol=1e-6 * (1 + sd))
    else:
        mon.check(np.ptp(q, axis=0).max() < 1e-9, "contextfree", f"{lab}: context-free expected rewards differ between rounds")
        if rt == "binary":
            mon.check(q.min() >= 0 and q.max() <= 1, "expected-range", f"{lab}: expected reward outside [0,1]")
    # ---- behaviour policy ------------------------------------------------------------------------
    logits = beh(x, AC) if custom_pol else q
    sup = pi > 0
    if multi:
        rho = np.asarray(rhos, float) / np.sum(rhos)
        s = np.asarray(f["stratum_idx"])
        cnt = np.bincount(s, minlength=len(betas))
        mon.check(s.shape == (n,) and len(cnt) == len(betas) and f["n_strata"] == len(betas), "strata", f"{lab}: strata {cnt}")
        lim = np.r_[np.full(len(betas) - 1, 0.5 + 1e-9), 0.5 * len(betas) + 1e-9]
        mon.check((np.abs(cnt - n * rho) <= lim).all(), "strata-shares", f"{lab}: {cnt} rounds per logger, shares {rho}")
        b_i = np.asarray(betas, float)[s]
    else:
        b_i = np.full(n, beta)
    peaked = np.abs(b_i).max() * np.ptp(logits, axis=1).max() > 600
    if nd:
        mon.ev("deficient")
        if not peaked:
            mon.check((sup.sum(1) == k - nd).all(), "deficient-count", f"{lab}: supported actions per round {np.unique(sup.sum(1))}, expected {k - nd}")
        else:
            mon.check((sup.sum(1) <= k - nd).all(), "deficient-count", f"{lab}: supported actions per round {np.unique(sup.sum(1))}, expected at most {k - nd}")
    elif not peaked:
        mon.check(sup.all(), "full-support", f"{lab}: zero probabilities without deficient actions")
    rows = range(n) if n <= 300 else r.choice(n, 200, replace=False)
    bad = None
    want_avg = np.zeros((n, k))
    for i in rows:
        w = np.zeros(k)
        idx = np.flatnonzero(sup[i])
        w[idx] = smax(b_i[i] * logits[i, idx])
        if not np.allclose(w, pi[i], rtol=1e-6, atol=1e-9):
            bad = (i, w, pi[i])
        if multi:
            for b_, r_ in zip(betas, rho):
                want_avg[i, idx] += r_ * smax(b_ * logits[i, idx])
    mon.check(bad is None, "behavior-policy", lambda: f"{lab}: pi_b of round {bad[0]} is {bad[2][:6]}, expected {bad[1][:6]}")
    mon.close(pi.sum(1), np.ones(n), "pi_b-normalised", f"{lab}: pi_b", atol=1e-9)
    mon.check(pi.min() >= 0, "pi_b-nonnegative", f"{lab}: negative pi_b")
    mon.check(np.array_equal(ps, pi[np.arange(n), a]) or np.allclose(ps, pi[np.arange(n), a], rtol=1e-12), "pscore", f"{lab}: pscore is not pi_b of the logged action")
    mon.check((ps > 0).all(), "pscore-positive", f"{lab}: a logged action has probability 0")
    if multi:
        pa = np.asarray(f["pi_b_avg"])[:, :, 0]
        if not peaked:
            mon.close(pa[list(rows)], want_avg[list(rows)], "pi_b_avg", f"{lab}: pi_b_avg", rtol=1e-6, atol=1e-9)
        mon.close(f["pscore_avg"], pa[np.arange(n), a], "pscore_avg", f"{lab}: pscore_avg", rtol=1e-12)
    # ---- rewards ---------------------------------------------------------------------------------
    if rt == "binary":
        mon.check(np.isin(y, [0, 1]).all(), "reward-support", f"{lab}: rewards {np.unique(y)[:5]}")
    else:
        mon.check((y >= 0).all(), "reward-support", f"{lab}: negative continuous reward {y.min()}")
    if k - nd >= 2:
        mon.sig(case["kind"], style, rt, k, dim, nd, min(n, 300))
    # ---- value -----------------------------------------------------------------------------------
    v = ds.calc_ground_truth_policy_value(expected_reward=q, action_dist=f["pi_b"])
    mon.close(v, math.fsum((pi * q).ravel()) / n, "truth", f"{lab}: ground-truth value", rtol=1e-6, atol=1e-9 * (1 + np.abs(q).max()))
    # ---- a second batch is fresh, a second object repeats --------------------------------------------
    g = ds.obtain_batch_bandit_feedback(n)
    mon.ev("fresh-batches")
    mon.check(not np.array_equal(g["context"], x), "fresh-context", f"{lab}: second batch repeats the contexts")
    if n >= 60 and not nd and np.median(pi.max(1)) < 0.8:
        mon.check(not np.array_equal(g["action"], a), "fresh-actions", f"{lab}: second batch repeats the actions")
    if case["big"]:
        stats(mon, r, case, lab, ds, f, x, a, y, q, pi, rt, base, sd, sup, nd, k)
        return stats2(mon, lab, (x, a, y, q, pi), g, rt, k)
    f2 = cls(**kw).obtain_batch_bandit_feedback(n)
    mon.check(all(np.array_equal(f2[key], f[key]) for key in ("context", "action", "reward", "pscore", "expected_reward")), "seeded", f"{lab}: same seed, different data")
    if n >= 5:
        f3 = cls(**dict(kw, random_state=seed + 1)).obtain_batch_bandit_feedback(n)
        mon.check(not np.array_equal(f3["context"], x), "seed-matters", f"{lab}: another seed repeats the data")
    mon.note(config=lab, first_rounds=dict(action=a[:3], reward=y[:3], pscore=ps[:3]))


def stats(mon, r, case, lab, ds, f, x, a, y, q, pi, rt, base, sd, sup, nd, k):
    mon.ev("stat-batch")
    n = len(a)
    gs = [np.sign(x[:, 0]), (np.arange(n) < n // 2).astype(float)]
    kk = min(k, 12)
    if k <= 12:
        stat.categorical(mon, a, pi, "action-distribution", lab, gs)
    for j in range(x.shape[1]):
        stat.dkw(mon, norm.cdf(x[:, j]), "context-distribution", f"{lab}: context dimension {j}")
    if nd:
        for act in range(kk):
            p = (k - nd) / k
            stat.mean_zero(mon, sup[:, act] - p, np.full(n, p * (1 - p)), 1.0, "deficient-uniform", f"{lab}: action {act} supported") if np.all(sup.sum(1) == k - nd) else None
    qa = q[np.arange(n), a]
    rewards(mon, lab, rt, y, qa, None if base is None else base[np.arange(n), a], sd, [np.ones(n)] + gs + [(a == j).astype(float) for j in range(kk)])
    # the public sampler
    fixed = r.integers(k, size=n)
    y2 = np.asarray(ds.sample_reward(context=x, action=fixed))
    mon.ev("sample-reward")
    b2 = ds.calc_expected_reward(x)
    p2 = b2[np.arange(n), fixed]
    rewards(mon, lab + " sample_reward", rt, y2, p2 if rt == "binary" else tmean(p2, sd), p2, sd, [np.ones(n), gs[0]])


def rewards(mon, lab, rt, y, qa, param, sd, gs):
    for j, g in enumerate(gs):
        if rt == "binary":
            stat.mean_zero(mon, g * (y - qa), g * g * qa * (1 - qa), 1.0, "reward-distribution", f"{lab}: binary rewards, weight {j}")
    if rt == "continuous" and param is not None:
        a_ = -param / sd
        lo = norm.cdf(a_)
        # survival-function form is accurate also for very negative means
        u = np.exp(norm.logsf((y - param) / sd) - norm.logsf(a_))
        stat.dkw(mon, u, "reward-distribution", f"{lab}: continuous rewards")
        for j, g in enumerate(gs[1:], 1):
            sel = g > 0
            if sel.sum() > 300:
                stat.dkw(mon, u[sel], "reward-distribution", f"{lab}: continuous rewards, subset {j}")
        stat.uncorrelated(mon, u[1::2], u[: len(u[1::2]) * 2 : 2], "reward-independent", f"{lab}: consecutive rewards")
    elif rt == "continuous":
        t = y - qa
        # y >= 0 truncated normal: variance at most sd^2, subexponential tails; 8 standard errors
        s = t.std() / math.sqrt(len(t))
        mon.check(abs(t.mean()) <= 8 * s + 1e-9, "reward-distribution", f"{lab}: mean residual {t.mean():.4f} +- {s:.4f}")


def stats2(mon, lab, A, g, rt, k):
    x, a, y, q, pi = A
    n = len(a)
    pb, b = np.asarray(g["pi_b"])[:, :, 0], np.asarray(g["action"])
    j = int(np.argmax((pi * (1 - pi)).sum(0)))
    e1, e2 = (a == j) - pi[:, j], (b == j) - pb[:, j]
    v = pi[:, j] * (1 - pi[:, j]) * pb[:, j] * (1 - pb[:, j])
    if v.sum() > 5:
        stat.mean_zero(mon, e1 * e2, v, 1.0, "batches-independent", f"{lab}: actions of two batches")


def truth(r, mon, D):
    n, k = int(r.choice([1, 4, 60])), int(r.choice([2, 5, 30]))
    q = r.normal(size=(n, k)) * r.choice([1, 100])
    L = int(r.choice([1, 3]))
    pi = r.dirichlet(np.ones(k) * r.choice([0.1, 1]), size=(n, L)).transpose(0, 2, 1)
    if r.random() < 0.3:
        pi = np.eye(k)[r.integers(k, size=(n, L))].transpose(0, 2, 1)
    ds = D.SyntheticBanditDataset(n_actions=k)
    v = ds.calc_ground_truth_policy_value(expected_reward=q, action_dist=pi)
    mon.close(v, math.fsum((pi[:, :, 0] * q).ravel()) / n, "truth", f"n={n} k={k}", rtol=1e-7, atol=1e-8 * np.abs(q).max())
    mon.raises(lambda: ds.calc_ground_truth_policy_value(expected_reward=q, action_dist=pi[:, :-1]), "truth-rejects", "wrong number of actions")
    mon.raises(lambda: ds.calc_ground_truth_policy_value(expected_reward=np.vstack([q, q]), action_dist=pi), "truth-rejects", "wrong number of rounds")
    mon.sig("truth", n, k, L)
