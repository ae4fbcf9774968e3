"""C15: expected rewards, sampled rewards and ground-truth values of synthetic slates."""
import math

import numpy as np
from scipy.stats import norm

from .. import stat
from .c14 import config, slates, seq_probs

RULE = ("slate data sets: reward type x reward structure x decay function x click model x eta x base reward function (built-in, custom, context-free) x factorizable; "
        "expected rewards recomputed slot by slot, click models by enumerating click histories, values by enumerating slates; non-trivial: distinct configurations")
ASSUMPTIONS = ["the library computes slate rewards in half precision: comparisons allow 4e-3 per slot (binary) and 2e-3 relative (continuous)"]
BUDGET = dict(quick=300, thorough=2400)
STRUCT = ["cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"]
REQUIRED = ["struct:" + s for s in STRUCT] + ["binary", "continuous", "click:cascade", "click:pbm", "context-free", "ground-truth", "on-policy", "stat-tests", "many-contexts",
                                              "batched-contexts", "reward-function", "clicks", "long-lists", "many-slates", "unequal-batches"]


def cases(rng, tier):
    m = 1 if tier == "quick" else 12
    for s in STRUCT:
        for _ in range(60 * m):
            yield dict(kind="expected", structure=s)
        for _ in range(50 * m):
            yield dict(kind="truth", structure=s)
        for _ in range(10 * m):
            yield dict(kind="stat", structure=s)
        for _ in range(m):
            yield dict(kind="big", structure=s)
        for _ in range(min(m, 4)):
            yield dict(kind="few", structure=s)
        for _ in range(2 * min(m, 5)):
            yield dict(kind="wide", structure=s)
        for _ in range(25 * m):
            yield dict(kind="function", structure=s)
        for _ in range(3 * m):
            yield dict(kind="sample", structure=s)


def sig(z):
    return 1 / (1 + np.exp(-z))


def make(r, structure, k, L, fact, dim=None):
    import obp.dataset as D

    dim = dim or int(r.choice([1, 3]))
    rt = str(r.choice(["binary", "binary", "continuous"]))
    cm = r.choice([None, "cascade", "pbm"]) if rt == "binary" else None
    eta = float(r.choice([0.0, 0.5, 1.0, 2.3]))
    dec = str(r.choice(["exponential", "inverse"]))
    base = str(r.choice(["none", "builtin", "custom", "custom"]))
    W = r.normal(size=(dim, k)) * (1.5 if rt == "binary" else 1.0)

    def custom(context, action_context, random_state=None):
        z = context @ W + 0.3 * (np.arange(k) % 7)
        if whole:
            return np.floor(z * z).astype(int)
        return sig(z) if rt == "binary" else z * z

    whole = rt == "continuous" and base == "custom" and bool(r.random() < 0.3)
    f = dict(none=None, builtin=D.logistic_reward_function if rt == "binary" else D.linear_reward_function, custom=custom)[base]
    B = r.normal(size=(dim, k))
    ds = D.SyntheticSlateBanditDataset(
        n_unique_action=k, len_list=L, dim_context=dim, reward_type=rt, reward_structure=structure, decay_function=dec, click_model=cm, eta=eta,
        base_reward_function=f, behavior_policy_function=None if r.random() < 0.3 else (lambda context, action_context, random_state=None: context @ B),
        is_factorizable=fact, random_state=int(r.integers(10000)))
    return ds, dict(whole=whole, dim=dim, rt=rt, cm=cm, eta=eta, dec=dec, base=base, f=f, structure=structure, k=k, L=L, fact=fact)


def base_table(ds, c, x):
    """f(x_i, a): (n, k, L)"""
    n = len(x)
    if c["f"] is None:
        t = np.asarray(ds.sample_contextfree_expected_reward(random_state=ds.random_state))
        return np.broadcast_to(t, (n, c["k"], c["L"]))
    return np.repeat(np.asarray(c["f"](context=x, action_context=np.eye(c["k"], dtype=int), random_state=ds.random_state))[:, :, None], c["L"], axis=2)


def slot_means(ds, c, f, slate, W):
    """parameter of the reward of each slot before the click model; f (n,k,L), slate (n,L)"""
    n, L = slate.shape
    i = np.arange(n)
    if c["f"] is None:
        return np.stack([f[i, slate[:, l], l] for l in range(L)], 1)
    g = np.log(f / (1 - f)) if c["rt"] == "binary" else f
    out = np.zeros((n, L))
    for l in range(L):
        z = g[i, slate[:, l], l].copy()
        for j in range(L):
            if j == l or (c["structure"].startswith("cascade") and j > l) or c["structure"] == "independent":
                continue
            if c["structure"].endswith("additive"):
                z = z + W[slate[:, l], slate[:, j]]
            else:
                d = abs(l - j)
                z = z - g[i, slate[:, j], j] * (math.exp(-d) if c["dec"] == "exponential" else 1 / (d + 1))
        out[:, l] = z
    return sig(out) if c["rt"] == "binary" else np.maximum(out, 0)


def expectation(c, m):
    """expected reward of each slot: click histories enumerated"""
    n, L = m.shape
    k = np.arange(1, L + 1.0)
    if c["rt"] == "continuous":
        return m + norm.pdf(m) / norm.cdf(m)
    if c["cm"] is None:
        return m
    if c["cm"] == "pbm":
        return m * (1 / k) ** c["eta"]
    att = (1 / k) ** c["eta"]
    out = np.zeros((n, L))

    def rec(l, prob, disc):
        if l == L:
            return
        p = disc * m[:, l]
        out[:, l] += prob * p
        rec(l + 1, prob * (1 - p), disc)
        if l + 1 < L:
            rec(l + 1, prob * p, disc * att[l + 1])
    rec(0, np.ones(n), np.ones(n))
    return out


def tolerances(c, m):
    return 4e-3 if c["rt"] == "binary" else 2e-3 * (1 + float(np.abs(m).max()))


def label(c):
    return " ".join(f"{k}={v}" for k, v in c.items() if k != "f")


def seen(mon, c):
    mon.ev("struct:" + c["structure"])
    mon.ev(c["rt"])
    if c["cm"]:
        mon.ev("click:" + c["cm"])
    if c["f"] is None:
        mon.ev("context-free")


def weights(ds, c, mon):
    if not c["structure"].endswith("additive"):
        return None
    W = np.asarray(ds.action_interaction_weight_matrix)
    mon.check(W.shape == (c["k"], c["k"]) and np.allclose(W, W.T), "symmetric", f"{label(c)}: interaction weights are not symmetric")
    mon.check(np.abs(W).min() > 0, "interaction-nonzero", f"{label(c)}: zero interaction weights")
    return W


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


def _expected(r, case, mon):
    fact, k, L = config(r)
    if r.random() < 0.3:
        k, L = int(r.choice([8, 150])), int(r.choice([4, 6]))
    ds, c = make(r, case["structure"], k, L, fact)
    lab = label(c)
    W = weights(ds, c, mon)
    for b in range(2):
        n = int(r.choice([1, 2, 7, 40]))
        fb = ds.obtain_batch_bandit_feedback(n_rounds=n, return_pscore_item_position=False)
        seen(mon, c)
        x = np.asarray(fb["context"])
        a = np.asarray(fb["action"]).reshape(n, L)
        m = slot_means(ds, c, base_table(ds, c, x), a, W)
        e = expectation(c, m)
        got = np.asarray(fb["expected_reward_factual"])
        if n > 2:
            mon.ev("many-contexts")
        mon.check(got.shape == (n * L,), "shape", lab)
        mon.close(np.asarray(got, float), e.ravel(), "expected-reward", f"{lab} n={n} batch {b}: expected reward of the logged slate", rtol=0, atol=tolerances(c, m))
        rew = np.asarray(fb["reward"])
        ok = rew.shape == (n * L,) and (np.isin(rew, [0, 1]).all() if c["rt"] == "binary" else (rew >= 0).all())
        mon.check(ok, "reward-range", f"{lab}: {rew[:5]}")
        mon.ev("on-policy")
        ids = np.repeat(r.permutation(n) * 7 + 3, L)
        p = r.permutation(n * L)
        mon.close(ds.calc_on_policy_policy_value(reward=rew[p], slate_id=ids[p]), rew.sum() / n, "on-policy", f"{lab}: on-policy value")
        mon.sig("expected", *[c[q] for q in ("structure", "rt", "cm", "eta", "dec", "base", "fact")])
    mon.note(config=lab, expected=e.ravel()[:6])


def truth(ds, c, x, logits, W, mon):
    n = len(x)
    f = base_table(ds, c, x)
    tot, tol = np.zeros(n), 0.0
    for s in slates(c["k"], c["L"], c["fact"]):
        m = slot_means(ds, c, f, np.tile(np.array(s), (n, 1)), W)
        avail = list(range(c["k"]))
        p = np.ones(n)
        for a in s:
            z = logits[:, avail]
            z = np.exp(z - z.max(1, keepdims=True))
            p = p * z[:, avail.index(a)] / z.sum(1)
            if not c["fact"]:
                avail.remove(a)
        tot += p * expectation(c, m).sum(1)
        tol = max(tol, tolerances(c, m))
    return tot.mean(), tol * c["L"]


def _truth(r, case, mon):
    fact, k, L = config(r)
    if k == 5:
        k = 4
    if r.random() < 0.15 and not fact:
        k, L = 4, 4
    ds, c = make(r, case["structure"], k, L, fact)
    n = int(r.choice([2, 3, 9]))
    x = r.normal(size=(n, c["dim"]))
    logits = r.normal(size=(n, k)) * float(r.choice([0.0, 1.0, 4.0]))
    W = weights(ds, c, mon)
    want, tol = truth(ds, c, x, logits, W, mon)
    b4 = x.copy(), logits.copy()
    got = ds.calc_ground_truth_policy_value(context=x, evaluation_policy_logit_=logits)
    mon.ev("ground-truth")
    seen(mon, c)
    mon.check(np.array_equal(b4[0], x) and np.array_equal(b4[1], logits), "inputs", "inputs changed")
    mon.close(float(got), want, "ground-truth", f"{label(c)} n={n}: policy value", rtol=0, atol=tol)
    # the value is an average over rounds: it does not depend on their order
    p = r.permutation(n)
    mon.close(float(ds.calc_ground_truth_policy_value(context=x[p], evaluation_policy_logit_=logits[p])), float(got), "ground-truth-order", label(c), rtol=1e-3, atol=2e-3 * L)
    mon.raises(lambda: ds.calc_ground_truth_policy_value(context=x, evaluation_policy_logit_=logits[:, 1:]), "rejects", "missing action")
    mon.raises(lambda: ds.calc_ground_truth_policy_value(context=x[1:], evaluation_policy_logit_=logits), "rejects", "missing context")
    mon.sig("truth", *[c[q] for q in ("structure", "rt", "cm", "eta", "dec", "base", "fact")])


def _wide(r, case, mon, n=2):
    """more slates than any short cut would enumerate"""
    fact = bool(r.random() < 0.4)
    if n > 2:  # and several rounds of them
        fact, k, L = True, 3, 11
    else:
        k, L = [(9, 5), (6, 6), (41, 3), (200, 2)][int(r.integers(4))] if fact else [(11, 5), (9, 6), (40, 3), (17, 4), (150, 2), (300, 2)][int(r.integers(6))]
    ds, c = make(r, case["structure"], k, L, fact, dim=1)
    while n > 2 and c["cm"] == "cascade":
        ds, c = make(r, case["structure"], k, L, fact, dim=1)
    x = r.normal(size=(n, 1))
    # the policy favours actions with high indices: the last slates of any enumeration matter
    logits = r.normal(size=(n, k)) + np.arange(k) * float(r.choice([0.0, 2.0 / k, 6.0 / k]))
    W = weights(ds, c, mon)
    f = base_table(ds, c, x)
    S = np.array(slates(k, L, fact))
    tot, tol = 0.0, 0.0
    for i in range(n):
        e = np.exp(logits[i] - logits[i].max())
        left, p = np.full(len(S), e.sum()), np.ones(len(S))
        for l in range(L):
            p *= e[S[:, l]] / left
            if not fact:
                left = left - e[S[:, l]]
        m = slot_means(ds, c, np.broadcast_to(f[i], (len(S),) + f[i].shape), S, W)
        tot += float(p @ expectation(c, m).sum(1)) / n
        tol = max(tol, tolerances(c, m))
    got = ds.calc_ground_truth_policy_value(context=x, evaluation_policy_logit_=logits)
    mon.ev("many-slates")
    mon.close(float(got), tot, "ground-truth", f"{label(c)} n={n}: policy value over {len(S)} slates", rtol=0, atol=tol * L)
    if n > 2:
        mon.ev("unequal-batches")
    mon.sig("wide", n > 2, c["structure"], c["rt"], c["base"], k, L, fact)


def _few(r, case, mon):
    """few rounds, so many slates that the value is computed in batches of unequal size: no round may be left out"""
    _wide(r, case, mon, n=int(r.choice([7, 9])))


def _big(r, case, mon):
    """enough rounds and slates that the value is computed in several batches"""
    fact = bool(r.random() < 0.5)
    k, L = (5, 3) if fact else (6, 3)
    ds, c = make(r, case["structure"], k, L, fact, dim=1)
    n = int(r.integers(28000, 58000))
    x = r.normal(size=(n, 1))
    x[-n // 3:] += 1.0
    logits = r.normal(size=(n, k)) + 2 * x * np.arange(k)
    W = weights(ds, c, mon)
    want, tol = truth(ds, c, x, logits, W, mon)
    got = ds.calc_ground_truth_policy_value(context=x, evaluation_policy_logit_=logits)
    mon.ev("batched-contexts")
    # rounding averages out over contexts; the bound below is still far above it
    mon.close(float(got), want, "ground-truth", f"{label(c)} n={n}: policy value", rtol=2e-3, atol=min(tol, 3e-3 * L))
    mon.sig("big", c["structure"], c["rt"], c["base"])


def _stat(r, case, mon):
    fact = bool(r.random() < 0.5)
    k, L, n = (4, 3, 1500) if r.random() < 0.5 else (7, int(r.choice([4, 5, 6])), 1500)
    ds, c = make(r, case["structure"], k, L, fact)
    if L > 4 and c["cm"] == "cascade":
        mon.ev("long-cascade")
    fb = ds.obtain_batch_bandit_feedback(n_rounds=n, return_pscore_item_position=False)
    lab = label(c)
    x = np.asarray(fb["context"])
    a = np.asarray(fb["action"]).reshape(n, L)
    m = slot_means(ds, c, base_table(ds, c, x), a, weights(ds, c, mon))
    R = np.asarray(fb["reward"], float).reshape(n, L)
    if c["rt"] == "continuous":
        lo = norm.cdf(-m)
        u = (norm.cdf(R - m) - lo) / (1 - lo)
        for l in range(L):
            stat.dkw(mon, u[:, l], "reward-distribution", f"{lab}: slot {l}")
            if l:
                stat.uncorrelated(mon, u[:, l - 1], u[:, l], "slots-independent", lab)
    else:
        ks = np.arange(1, L + 1.0) ** -c["eta"]
        ex = ks if c["cm"] == "pbm" else np.ones(L)
        att = ks if c["cm"] == "cascade" else np.ones(L)
        disc = np.ones(n)
        err = []
        for l in range(L):
            if l:
                disc = disc * np.where(R[:, l - 1] == 1, att[l], 1)
            p = np.clip(disc * m[:, l] * ex[l], 0, 1)
            err.append(R[:, l] - p)
            for g in (np.ones(n), np.sign(x[:, 0]), np.where(disc < 1, 1.0, 0.0), (a[:, l] % 2) * 1.0):
                # 4e-3 n: half-precision bias of the library's probabilities
                t, lim = float(np.sum(g * err[l])), stat.bern_bound(float(np.sum(g * g * p * (1 - p))), 1.0) + 4e-3 * n
                mon.ev("stat-tests")
                mon.check(abs(t) <= lim, "reward-distribution", f"{lab}: slot {l}: sum of centred rewards {t:.2f}, limit {lim:.2f}")
            if l:
                t, lim = float(np.sum(err[l] * err[l - 1])), stat.bern_bound(n / 16, 1.0) + 4e-3 * n
                mon.check(abs(t) <= lim, "slots-independent", f"{lab}: slots {l - 1},{l}: {t:.2f} limit {lim:.2f}")
    mon.sig("stat", c["structure"], c["rt"], c["cm"], c["eta"], c["base"])


def _function(r, case, mon):
    """the public reward function itself, with caller-supplied weights (slot i affects slot j through W[i, j])"""
    from obp.dataset.synthetic_slate import action_interaction_reward_function as fn

    fact, k, L = config(r)
    n = int(r.choice([1, 4, 11]))
    s = case["structure"]
    rt = str(r.choice(["binary", "continuous"]))
    W = r.normal(size=(k, k) if s.endswith("additive") else (L, L))
    q = r.uniform(0.05, 0.95, size=(n, k)) if rt == "binary" else r.uniform(0, 3, size=(n, k))
    if rt == "continuous" and r.random() < 0.4:
        q = np.round(q).astype(int)
        mon.ev("integer-base")
    enum = bool(r.random() < 0.4)
    S = np.array([r.integers(k, size=L) if fact else r.permutation(k)[:L] for _ in range(int(r.choice([1, 3, 8])) if enum else n)])
    x = r.normal(size=(n, 2))
    b4 = q.copy(), S.copy(), W.copy()
    got = fn(context=x, action_context=np.eye(k), action=S.ravel(), base_reward_function=lambda context, action_context, random_state=None: q, reward_type=rt,
             reward_structure=s, action_interaction_weight_matrix=W, len_list=L, is_enumerated=enum, random_state=1)
    mon.ev("reward-function")
    mon.check(all(np.array_equal(u, v) for u, v in zip(b4, (q, S, W))), "inputs", "inputs changed")
    rows = [(i, sl) for i in range(n) for sl in S] if enum else [(i, S[i]) for i in range(n)]
    out = np.zeros((len(rows), L))
    g = np.log(q / (1 - q)) if rt == "binary" else q
    for t, (i, sl) in enumerate(rows):
        for l in range(L):
            z = g[i, sl[l]]
            for j in range(L):
                if s == "independent" or j == l or (s.startswith("cascade") and j > l):
                    continue
                z += W[sl[l], sl[j]] if s.endswith("additive") else g[i, sl[j]] * W[j, l]
            out[t, l] = sig(z) if rt == "binary" else max(z, 0)
    mon.close(np.asarray(got, float), out, "reward-function", f"{s} {rt} enumerated={enum} k={k} L={L} n={n}", rtol=1e-3, atol=4e-3)
    mon.sig("function", s, rt, enum, k, L)


def _sample(r, case, mon):
    """rewards drawn for given slot parameters: click histories of long lists, many rounds"""
    L = int(r.choice([2, 4, 5, 7, 9]))
    ds, c = make(r, case["structure"], 10, L, bool(r.random() < 0.5))
    n = 40000 if c["rt"] == "binary" else 4000
    m = r.uniform(0.02, 0.98, size=(n, L)) if c["rt"] == "binary" else r.uniform(0, 3, size=(n, L))
    if c["rt"] == "binary" and r.random() < 0.2:
        m[:, int(r.integers(L))] = float(r.integers(2))
    keep = m.copy()
    R = np.asarray(ds.sample_reward_given_expected_reward(m), float)
    lab = "drawn rewards " + label(c)
    mon.ev("clicks")
    if L > 4:
        mon.ev("long-lists")
    mon.check(np.array_equal(m, keep), "inputs", f"{lab}: inputs changed")
    if not mon.check(R.shape == (n, L) and np.isfinite(R).all(), "shape", lab):
        return
    if c["rt"] == "continuous":
        lo = norm.cdf(-m)
        u = (norm.cdf(R - m) - lo) / (1 - lo)
        for l in range(L):
            stat.dkw(mon, u[:, l], "reward-distribution", f"{lab}: slot {l}")
    else:
        mon.check(np.isin(R, [0, 1]).all(), "reward-range", lab)
        ks = np.arange(1, L + 1.0) ** -c["eta"]
        ex = ks if c["cm"] == "pbm" else np.ones(L)
        att = ks if c["cm"] == "cascade" else np.ones(L)
        disc = np.ones(n)
        for l in range(L):
            if l:
                disc = disc * np.where(R[:, l - 1] == 1, att[l], 1)
            p = disc * m[:, l] * ex[l]
            G = [np.ones(n), m[:, l]] + [R[:, j] for j in range(l)] + ([(R[:, :l].sum(1) == 0) * 1.0] if l else [])
            for g in G:
                if not stat.mean_zero(mon, g * (R[:, l] - p), g * g * p * (1 - p), 1.0, "reward-distribution", f"{lab}: slot {l}"):
                    return
    mon.sig("sample", c["rt"], c["cm"], c["eta"], L)
