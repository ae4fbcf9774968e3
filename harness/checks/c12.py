"""C12: synthetic data with action embeddings and with continuous actions."""
import math

import numpy as np
from scipy.stats import norm

from .. import stat
from .c11 import smax

RULE = ("embedding data sets (dimensions, categories, unobserved and irrelevant dimensions, deficient actions, reward types) and continuous-action data sets "
        "(bounded and unbounded actions, noise levels, custom and built-in functions); non-trivial: distinct configurations")
ASSUMPTIONS = ["statistical comparisons use Bernstein/DKW bounds with false-alarm probability 1e-11 each"]
BUDGET = dict(quick=240, thorough=2400)
REQUIRED = ["embed", "continuous", "importance-recovered", "embed-stat", "continuous-stat", "bounded", "uniform", "truth"]


def cases(rng, tier):
    m = 12 if tier == "quick" else 60
    for kind in ("embed", "continuous"):
        for _ in range(120 * m):
            yield dict(kind=kind, big=False)
        for _ in range(40 * m):
            yield dict(kind=kind, big=True)


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    (embed if case["kind"] == "embed" else continuous)(r, case, mon)


def embed(r, case, mon):
    import obp.dataset as D

    big = case["big"]
    k = int(r.choice([2, 4, 9]))
    dim = int(r.choice([1, 3]))
    n = 4000 if big else int(r.choice([1, 3, 20, 90]))
    ncd, ncp = int(r.choice([1, 2, 4])), int(r.choice([2, 3, 6]))
    nu = int(r.choice([0, 0, ncd - 1]))
    ni = int(r.choice([0, 0, max(ncd - 1, 0)]))
    nd = int(r.choice([0, 0, 1, k - 1]))
    rt = str(r.choice(["binary", "continuous"]))
    sd = float(r.choice([0.2, 1.0]))
    beta = float(r.choice([-5.0, 0.0, 1.0, 8.0]))
    seed = int(r.integers(10000))
    calls = []

    def rew(context, action_context, random_state=None, **kw):
        v = np.sin(context.sum(1)[:, None] * (1 + action_context.sum(1)) + action_context[:, 0] * 2 + 0.1 * random_state)
        calls.append((context, action_context, random_state, v))
        return (v + 1) / 2 if rt == "binary" else 3 * v

    def beh(context, action_context, random_state=None, **kw):
        v = np.cos(context.sum(1)[:, None] + action_context @ np.arange(action_context.shape[1]))
        return np.rint(3 * v).astype(int) if seed % 3 == 0 else v

    kw = dict(n_actions=k, dim_context=dim, reward_type=rt, reward_std=sd, beta=beta, n_cat_per_dim=ncp, n_cat_dim=ncd, latent_param_mat_dim=int(r.choice([1, 4])),
              p_e_a_param_std=float(r.choice([0.0, 1.0, 5.0])), n_unobserved_cat_dim=nu, n_irrelevant_cat_dim=ni, n_deficient_actions=nd, random_state=seed)
    style = str(r.choice(["custom", "default"]))
    if style == "custom":
        kw["reward_function"] = rew
    pol = bool(r.random() < 0.4)
    if pol:
        kw["behavior_policy_function"] = beh
    ds = D.SyntheticBanditDatasetWithActionEmbeds(**kw)
    f = ds.obtain_batch_bandit_feedback(n)
    mon.ev("embed")
    lab = f"embed {style} {rt} k={k} n={n} dims={ncd} cats={ncp} unobserved={nu} irrelevant={ni} deficient={nd}"
    x, a, y, q, pi, ps, e, qe, pe, ac = (np.asarray(f[key]) for key in ("context", "action", "reward", "expected_reward", "pi_b", "pscore", "action_embed", "q_x_e", "p_e_a", "action_context"))
    no = ncd - nu
    shapes = [(n, dim), (n,), (n,), (n, k), (n, k, 1), (n,), (n, no), (n, ncp, no), (k, ncp, no), (k, no)]
    got = [v.shape for v in (x, a, y, q, pi, ps, e, qe, pe, ac)]
    if not mon.check(got == shapes, "shapes", f"{lab}: shapes {got}, expected {shapes}"):
        return
    mon.check(f["n_rounds"] == n and f["n_actions"] == k and f["position"] is None, "metadata", lab)
    mon.check(e.min() >= 0 and e.max() < ncp and ac.min() >= 0 and ac.max() < ncp and np.issubdtype(e.dtype, np.integer), "embed-range", f"{lab}: categories out of range")
    mon.close(pe.sum(1), np.ones((k, no)), "p_e_a-normalised", f"{lab}: p_e_a")
    mon.check(pe.min() >= 0, "p_e_a-normalised", f"{lab}: negative p_e_a")
    if kw["p_e_a_param_std"] == 0:
        mon.close(pe, np.full(pe.shape, 1 / ncp), "p_e_a-uniform", f"{lab}: p_e_a with zero spread")
    elif ncp > 1:
        mon.check(np.ptp(pe, axis=1).max() > 1e-6, "p_e_a-spread", f"{lab}: p_e_a is uniform in spite of a positive spread")
    pi = pi[:, :, 0]
    mon.close(pi.sum(1), np.ones(n), "pi_b-normalised", lab)
    mon.check(np.allclose(ps, pi[np.arange(n), a], rtol=1e-12) and (ps > 0).all(), "pscore", f"{lab}: pscore is not pi_b of the logged action")
    # behaviour policy
    logits = beh(x, np.eye(k)) if pol else q
    sup = pi > 0
    mon.check((sup.sum(1) == k - nd).all(), "deficient-count", f"{lab}: supported actions per round {np.unique(sup.sum(1))}")
    bad = None
    for i in (range(n) if n <= 200 else r.choice(n, 100, replace=False)):
        w = np.zeros(k)
        idx = np.flatnonzero(sup[i])
        w[idx] = smax(beta * logits[i, idx])
        if not np.allclose(w, pi[i], rtol=1e-6, atol=1e-9):
            bad = (i, w, pi[i])
    mon.check(bad is None, "behavior-policy", lambda: f"{lab}: pi_b of round {bad[0]}: {bad[2]}, expected {bad[1]}")
    # rewards by category come from the reward function
    if style == "custom":
        sc = [(c[3] + 1) / 2 if rt == "binary" else 3 * c[3] for c in calls if c[0].shape == x.shape and np.array_equal(c[0], x)]
        mon.check(len(sc) >= no, "reward-function-called", f"{lab}: reward_function called {len(sc)} times for {no} observed dimensions")
        used = [min((float(np.abs(qe[:, :, d] - s).max()), j) for j, s in enumerate(sc) if s.shape == qe[:, :, d].shape) for d in range(no)]
        mon.check(all(u[0] < 1e-9 for u in used), "q_x_e", f"{lab}: q_x_e is not a value of the reward function {used}")
        mon.check(len({u[1] for u in used}) == no, "q_x_e-dims", f"{lab}: two embedding dimensions share one reward function")
    # expected_reward marginalises q_x_e over the embeddings with importance weights of the dimensions
    if nu == 0 and n >= 3:
        cols = np.stack([(qe[:, :, d] @ pe[:, :, d].T).ravel() for d in range(no)], 1)
        imp, *_ = np.linalg.lstsq(cols, q.ravel(), rcond=None)
        resid = np.abs(cols @ imp - q.ravel()).max()
        mon.check(resid < 1e-7 * (1 + np.abs(q).max()), "expected-reward", f"{lab}: expected_reward is not the embedding-marginalised reward (residual {resid:.2e})")
        if np.linalg.cond(cols) < 1e6:
            mon.ev("importance-recovered")
            mon.check(imp.min() > -1e-6 and abs(imp.sum() - 1) < 1e-6, "importance", f"{lab}: importances {imp}")
            # one further dimension is always hidden, so `irrelevant` counts start at the first observed one
            mon.check(np.abs(imp[:ni]).max(initial=0) < 1e-6, "irrelevant", f"{lab}: irrelevant dimensions have importance {imp[:ni]}")
            if big:
                m_ = np.zeros(n)
                for d in range(no):
                    m_ += imp[d] * qe[np.arange(n), e[:, d], d]
                gs = [np.ones(n), np.sign(x[:, 0])] + [(a == j).astype(float) for j in range(k)] + [(e[:, 0] == j).astype(float) for j in range(ncp)]
                if rt == "binary":
                    for j, g in enumerate(gs):
                        stat.mean_zero(mon, g * (y - m_), g * g * np.clip(m_ * (1 - m_), 0, 1), 1.0, "reward-given-embed", f"{lab}: rewards, weight {j}")
                else:
                    u = norm.cdf((y - m_) / sd)
                    for j, g in enumerate(gs):
                        if (g > 0).sum() > 300:
                            stat.dkw(mon, u[g > 0], "reward-given-embed", f"{lab}: rewards, subset {j}")
    if rt == "binary":
        mon.check(np.isin(y, [0, 1]).all(), "reward-support", lab)
    v = ds.calc_ground_truth_policy_value(expected_reward=q, action_dist=f["pi_b"])
    mon.close(v, math.fsum((pi * q).ravel()) / n, "truth", lab, rtol=1e-6, atol=1e-9)
    mon.sig("embed", style, rt, k, dim, ncd, ncp, nu, ni, nd, pol)
    g2 = ds.obtain_batch_bandit_feedback(n)
    mon.check(not np.array_equal(g2["context"], x), "fresh-context", f"{lab}: second batch repeats the contexts")
    mon.check(np.array_equal(g2["p_e_a"], pe) and np.array_equal(g2["action_context"], ac), "embed-fixed", f"{lab}: p_e_a changed between batches")
    if big:
        mon.ev("embed-stat")
        stat.categorical(mon, a, pi, "action-distribution", lab, [np.sign(x[:, 0])])
        for d in range(no):
            stat.categorical(mon, e[:, d], pe[a, :, d], "embed-distribution", f"{lab} dim {d}", [np.sign(x[:, 0])] + [(a == j).astype(float) for j in range(min(k, 4))])
            for d2 in range(d):  # dimensions are conditionally independent given the action
                c1, c2 = int(np.argmax(pe[:, :, d].mean(0) * (1 - pe[:, :, d].mean(0)))), int(np.argmax(pe[:, :, d2].mean(0)))
                u, w = (e[:, d] == c1) - pe[a, c1, d], (e[:, d2] == c2) - pe[a, c2, d2]
                vv = pe[a, c1, d] * (1 - pe[a, c1, d]) * pe[a, c2, d2] * (1 - pe[a, c2, d2])
                stat.mean_zero(mon, u * w, vv, 1.0, "embed-independent", f"{lab} dims {d2},{d}")
            b = np.asarray(g2["action_embed"])[:, d]
            a2 = np.asarray(g2["action"])
            c1 = int(np.argmax(pe[:, :, d].mean(0)))
            u, w = (e[:, d] == c1) - pe[a, c1, d], (b == c1) - pe[a2, c1, d]
            stat.mean_zero(mon, u * w, pe[a, c1, d] * (1 - pe[a, c1, d]) * pe[a2, c1, d] * (1 - pe[a2, c1, d]), 1.0, "embed-batches-independent", f"{lab} dim {d}")
    else:
        f2 = D.SyntheticBanditDatasetWithActionEmbeds(**kw).obtain_batch_bandit_feedback(n)
        mon.check(all(np.array_equal(f2[key], f[key]) for key in ("context", "action", "reward", "pscore", "action_embed", "p_e_a")), "seeded", f"{lab}: same seed, different data")


def continuous(r, case, mon):
    import obp.dataset as D

    big = case["big"]
    dim = int(r.choice([1, 2, 5]))
    n = 4000 if big else int(r.choice([1, 2, 30, 120]))
    an, rn = float(r.choice([0.2, 1.0, 3.0])), float(r.choice([0.3, 1.0]))
    bounded = bool(r.random() < 0.6)
    lo, hi = (float(np.round(r.uniform(-4, 1), 2)), float(np.round(r.uniform(1.5, 6), 2))) if bounded else (-np.inf, np.inf)
    half = bool(r.random() < 0.2)
    if half:
        lo, hi = (0.0, np.inf) if r.random() < 0.5 else (-np.inf, 0.5)
        bounded = False
    seed = int(r.integers(10000))
    W = r.normal(size=dim)

    def rew(context, action, random_state=None):
        return np.sin(context @ W) * action + action**2 / 5

    def beh(context, random_state=None):
        return context @ W * 0.7 + 0.3

    rf = r.choice(["custom", "linear_reward_funcion_continuous", "quadratic_reward_funcion_continuous", "none"])
    bf = r.choice(["custom", "linear_behavior_policy_continuous"] + (["uniform"] * 2 if bounded else []))
    kw = dict(dim_context=dim, action_noise=an, reward_noise=rn, min_action_value=lo, max_action_value=hi, random_state=seed)
    RF = rew if rf == "custom" else None if rf == "none" else getattr(D, rf)
    BF = beh if bf == "custom" else None if bf == "uniform" else getattr(D, bf)
    ds = D.SyntheticContinuousBanditDataset(reward_function=RF, behavior_policy_function=BF, **kw)
    f = ds.obtain_batch_bandit_feedback(n)
    mon.ev("continuous")
    lab = f"continuous reward={rf} policy={bf} n={n} [{lo},{hi}] noise={an}/{rn}"
    x, a, y, q, ps = (np.asarray(f[key]) for key in ("context", "action", "reward", "expected_reward", "pscore"))
    if not mon.check(x.shape == (n, dim) and all(v.shape == (n,) for v in (a, y, q, ps)) and f["n_rounds"] == n, "shapes", f"{lab}: {[v.shape for v in (x, a, y, q, ps)]}"):
        return
    mon.check((a >= lo - 1e-9).all() and (a <= hi + 1e-9).all(), "action-range", f"{lab}: actions {a.min()}..{a.max()}")
    mon.check(np.isfinite(ps).all() and (ps > 0).all(), "pscore-positive", f"{lab}: density not positive")
    if bf == "uniform":
        mon.ev("uniform")
        want, u = np.full(n, 1 / (hi - lo)), (a - lo) / (hi - lo)
    else:
        mu = BF(x, random_state=seed)
        z = (a - mu) / an
        Fl, Fh = norm.cdf((lo - mu) / an), norm.cdf((hi - mu) / an)
        Z = np.where(lo - mu > 0, norm.sf((lo - mu) / an) - norm.sf((hi - mu) / an), Fh - Fl)
        want = norm.pdf(z) / an / Z
        u = np.where(lo - mu > 0, (norm.sf((lo - mu) / an) - norm.sf(z)) / Z, (norm.cdf(z) - Fl) / Z)
        if np.isfinite(lo) or np.isfinite(hi):
            mon.ev("bounded")
    ok = Z > 1e-8 if bf != "uniform" else np.ones(n, bool)
    mon.close(ps[ok], want[ok], "pscore", f"{lab}: pscore", rtol=1e-4, atol=1e-12)
    qw = RF(context=x, action=a, random_state=seed) if RF is not None else 2 * np.abs(a) ** 1.5 - 5 * a
    mon.close(q, qw, "expected-reward", f"{lab}: expected_reward", rtol=1e-9)
    ctx = r.normal(size=(9, dim))
    pol = r.normal(size=9)
    tv = RF(context=ctx, action=pol, random_state=seed) if RF is not None else 2 * np.abs(pol) ** 1.5 - 5 * pol
    mon.close(ds.calc_ground_truth_policy_value(context=ctx, action=pol), math.fsum(tv) / 9, "truth", lab)
    mon.sig("continuous", rf, bf, dim, an, rn, bounded, half)
    g = ds.obtain_batch_bandit_feedback(n)
    mon.check(not np.array_equal(g["context"], x), "fresh-context", f"{lab}: second batch repeats the contexts")
    mon.check(not np.array_equal(g["action"], a), "fresh-actions", f"{lab}: second batch repeats the actions")
    mon.check(not np.array_equal(np.asarray(g["reward"]) - g["expected_reward"], y - q), "fresh-rewards", f"{lab}: second batch repeats the reward noise")
    if big:
        mon.ev("continuous-stat")
        ur = norm.cdf((y - q) / rn)
        for j in range(dim):
            stat.dkw(mon, norm.cdf(x[:, j]), "context-distribution", lab)
        for name, sel in (("all", np.ones(n, bool)), ("x>0", x[:, 0] > 0), ("u>.5", np.arange(n) > n // 2)):
            s2 = sel & ok
            if s2.sum() > 300:
                stat.dkw(mon, u[s2], "action-distribution", f"{lab} {name}")
            stat.dkw(mon, ur[sel], "reward-distribution", f"{lab} {name}")
        uo = np.clip(u, 0, 1)
        stat.uncorrelated(mon, uo[ok], ur[ok], "noise-independent", f"{lab}: action and reward noise")
        stat.uncorrelated(mon, ur[1::2], ur[::2], "noise-independent", f"{lab}: consecutive reward noise")
        if ok.all():
            stat.uncorrelated(mon, uo[1::2], uo[::2], "noise-independent", f"{lab}: consecutive action noise")
    else:
        h = D.SyntheticContinuousBanditDataset(reward_function=RF, behavior_policy_function=BF, **kw).obtain_batch_bandit_feedback(n)
        mon.check(all(np.array_equal(h[k_], f[k_]) for k_ in ("context", "action", "reward", "pscore")), "seeded", f"{lab}: same seed, different data")
    mon.note(config=lab)
