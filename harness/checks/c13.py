"""C13: reward functions, behaviour-policy logits and synthetic continuous policies."""
import math
from itertools import combinations_with_replacement

import numpy as np

RULE = ("reward and policy functions x dimensions x sizes x z-scoring x caller-supplied coefficient functions (shared and per-round coefficients); "
        "values recomputed term by term, plus row/action equivariance; non-trivial: distinct (function, sizes, coefficient kind)")
ASSUMPTIONS = []
BUDGET = dict(quick=200, thorough=1800)
DEG = dict(linear_reward_function=1, logistic_reward_function=1, polynomial_reward_function=3, logistic_polynomial_reward_function=3, sparse_reward_function=4,
           logistic_sparse_reward_function=4)
REQUIRED = [f"fn:{n}" for n in DEG] + ["shared-coef", "round-coef", "linear_behavior_policy", "polynomial_behavior_policy", "continuous-functions", "utils", "rare-actions"]


def cases(rng, tier):
    m = 3 if tier == "quick" else 15
    for name in DEG:
        for _ in range(160 * m):
            yield dict(kind="reward", name=name)
    for name in ("linear_behavior_policy", "polynomial_behavior_policy"):
        for _ in range(80 * m):
            yield dict(kind="policy", name=name)
    for _ in range(120 * m):
        yield dict(kind="continuous")
    for _ in range(150 * m):
        yield dict(kind="utils")
    for _ in range(6 * min(m, 3)):
        yield dict(kind="rare")


def poly(X, degree):
    cols = [np.ones(len(X))]
    for d in range(1, degree + 1):
        for c in combinations_with_replacement(range(X.shape[1]), d):
            cols.append(np.prod(X[:, list(c)], axis=1))
    return np.stack(cols, 1)


def sig(z):
    return np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z))))


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


def _reward(r, case, mon):
    import obp.dataset as D

    name = case["name"]
    fn, deg = getattr(D, name), DEG[name]
    sparse = "sparse" in name
    n = int(r.choice([1, 2, 4, 9, 40]))
    k, dim, da = int(r.choice([2, 4, 7])), int(r.choice([1, 2, 3])), int(r.choice([1, 2, 3]))
    if sparse:
        dim, da, k = max(dim, 2), max(da, 2), max(k, 4)
    X, A = r.normal(size=(n, dim)), r.normal(size=(k, da))
    z = bool(r.random() < 0.6)
    seed = int(r.integers(10000))
    lab = f"{name} n={n} k={k} dims={dim},{da} z_score={z}"
    out = np.asarray(fn(context=X, action_context=A, z_score=z, random_state=seed))
    mon.ev(f"fn:{name}")
    if not mon.check(out.shape == (n, k) and np.isfinite(out).all(), "shape", f"{lab}: shape {out.shape}"):
        return
    mon.sig(name, n, k, dim, da, z)
    logistic = name.startswith("logistic")
    if logistic:
        raw = np.asarray(getattr(D, name[9:] if name != "logistic_reward_function" else "linear_reward_function")(context=X, action_context=A, z_score=z, random_state=seed))
        mon.check(out.min() >= 0 and out.max() <= 1, "range", f"{lab}: probabilities {out.min()}..{out.max()}")
        mon.close(out, sig(raw), "logistic-link", f"{lab}: logistic variant is not the sigmoid of the raw one", rtol=1e-9)
    elif z:
        mon.close(out.mean(), 0.0, "z-score-mean", lab, atol=1e-7 * deg)
        mon.close(out.std(), float(deg), "z-score-std", lab, rtol=1e-6)
    mon.check(np.array_equal(out, fn(context=X.copy(), action_context=A.copy(), z_score=z, random_state=seed)), "seeded", f"{lab}: not reproducible")
    o3 = fn(context=X, action_context=A, z_score=z, random_state=seed + 1)
    if n > 2:
        mon.check(not np.allclose(o3, out), "seed-matters", f"{lab}: another seed gives the same rewards")
    p, pa = r.permutation(n), r.permutation(k)
    mon.close(fn(context=X[p], action_context=A[pa], z_score=z, random_state=seed), out[p][:, pa], "equivariant", f"{lab}: reordering rounds and actions", rtol=1e-6, atol=1e-8 * deg)
    if not z and n >= 2:  # without z-scoring a round's reward does not depend on the other rounds
        h = max(1, n // 2)
        mon.close(fn(context=X[:h], action_context=A, z_score=False, random_state=seed), out[:h], "round-wise", f"{lab}: value of a round depends on other rounds", rtol=1e-7, atol=1e-9 * deg)
    # caller-supplied coefficients
    per_round = bool(r.random() < 0.5)
    seen = []

    def coef(n_rounds=None, effective_dim_context=None, effective_dim_action_context=None, random_=None, **kw):
        c = np.random.RandomState(seed)
        dc, dac = int(effective_dim_context), int(effective_dim_action_context)
        lead = (n_rounds,) if per_round else ()
        out = c.normal(size=lead + (dc,)), c.normal(size=lead + (dac,)), c.normal(size=lead + (dc, dac))
        seen.append((n_rounds, dc, dac, out))
        return out

    o4 = np.asarray(fn(context=X, action_context=A, z_score=z, random_state=seed, coef_function=coef))
    mon.ev("round-coef" if per_round else "shared-coef")
    if not mon.check(len(seen) == 1 and seen[0][0] == n, "coef-called", f"{lab}: coefficient function called {[(s[0]) for s in seen]}"):
        return
    cx, ca, cxa = seen[0][3]
    PX, PA = poly(X, deg), poly(A, deg)
    if sparse:
        mon.check(seen[0][1] == max(int(PX.shape[1] * 0.3), 1) and seen[0][2] == max(int(PA.shape[1] * 0.3), 1), "sparsity",
                  f"{lab}: {seen[0][1]},{seen[0][2]} effective features of {PX.shape[1]},{PA.shape[1]}")
        return
    if not mon.check(seen[0][1] == PX.shape[1] and seen[0][2] == PA.shape[1], "features", f"{lab}: {seen[0][1]},{seen[0][2]} features, expected {PX.shape[1]},{PA.shape[1]}"):
        return
    if not per_round:
        cx, ca, cxa = (np.broadcast_to(v, (n,) + v.shape) for v in (cx, ca, cxa))
    want = np.empty((n, k))
    for i in range(n):
        for j in range(k):
            want[i, j] = PX[i] @ cx[i] + PA[j] @ ca[i] + PX[i] @ cxa[i] @ PA[j]
    if z:
        want = (want - want.mean()) / want.std()
    want = deg * want
    if logistic:
        want = sig(want)
    mon.close(o4, want, "coefficients", f"{lab} per_round={per_round}: value with given coefficients", rtol=1e-6, atol=1e-7 * deg)


def _policy(r, case, mon):
    import obp.dataset as D

    name = case["name"]
    fn, deg = getattr(D, name), 1 if name.startswith("lin") else 3
    n, k, dim, da = int(r.choice([2, 6, 40])), int(r.choice([2, 5])), int(r.choice([1, 3])), int(r.choice([1, 2]))
    X, A = r.normal(size=(n, dim)), r.normal(size=(k, da))
    seed = int(r.integers(10000))
    out = np.asarray(fn(context=X, action_context=A, random_state=seed))
    lab = f"{name} n={n} k={k}"
    mon.ev(name)
    mon.sig(name, n, k, dim, da)
    if not mon.check(out.shape == (n, k) and np.isfinite(out).all(), "shape", lab):
        return
    mon.close(out.mean(), 0.0, "logit-mean", lab, atol=1e-7 * deg)
    mon.close(out.std(), float(deg), "logit-std", lab, rtol=1e-6)
    mon.check(np.array_equal(out, fn(context=X, action_context=A, random_state=seed)), "seeded", lab)
    mon.check(not np.allclose(out, fn(context=X, action_context=A, random_state=seed + 1)), "seed-matters", lab) if n > 2 else None
    p, pa = r.permutation(n), r.permutation(k)
    mon.close(fn(context=X[p], action_context=A[pa], random_state=seed), out[p][:, pa], "equivariant", f"{lab}: reordering rounds and actions", rtol=1e-6, atol=1e-8 * deg)
    if n == 40 and dim * da <= 3:
        # logits lie in the span of products of polynomial features
        F = np.einsum("ip,jq->ijpq", poly(X, deg), poly(A, deg)).reshape(n * k, -1)
        if F.shape[1] < n * k // 2:
            res = out.ravel() - F @ np.linalg.lstsq(F, out.ravel(), rcond=None)[0]
            mon.check(np.abs(res).max() < 1e-5 * deg, "logit-features", f"{lab}: logits are not polynomial of degree {deg} (residual {np.abs(res).max():.2e})")


def _continuous(r, case, mon):
    import obp.dataset as D

    n, dim = int(r.choice([1, 5, 60])), int(r.choice([1, 3]))
    X, a = r.normal(size=(n, dim)) * 2, r.normal(size=n) * 3
    seed = int(r.integers(10000))
    mon.close(D.linear_synthetic_policy_continuous(X), [math.fsum(v) / dim for v in X], "policy-linear", f"n={n}")
    mon.close(D.threshold_synthetic_policy_continuous(X), [1.0 + np.sign(math.fsum(v) / dim - 1.5) for v in X], "policy-threshold", f"n={n}")
    mon.close(D.sign_synthetic_policy_continuous(X), [math.sin(math.fsum(v) / dim) for v in X], "policy-sign", f"n={n}")
    p = r.permutation(n)
    for name in ("linear_reward_funcion_continuous", "quadratic_reward_funcion_continuous"):
        fn = getattr(D, name)
        o = np.asarray(fn(context=X, action=a, random_state=seed))
        mon.check(o.shape == (n,), "shape", f"{name}: {o.shape}")
        mon.close(fn(context=X[p], action=a[p], random_state=seed), o[p], "equivariant", name, rtol=1e-8)
        mon.close(fn(context=X[:1], action=a[:1], random_state=seed), o[:1], "round-wise", name, rtol=1e-8)
        mon.check(n < 5 or not np.allclose(o, fn(context=X, action=a, random_state=seed + 1)), "seed-matters", name)
        # shape of the reward in the action, at a fixed context
        x1 = np.repeat(X[:1], 7, 0)
        t = np.linspace(-3, 3, 7)
        c = np.asarray(fn(context=x1, action=t, random_state=seed))
        if name.startswith("quad"):
            co = np.polyfit(t, c, 2)
            mon.check(np.abs(np.polyval(co, t) - c).max() < 1e-6 * (1 + np.abs(c).max()) and abs(co[0] - 1) < 1e-6, "reward-quadratic", f"{name}: not quadratic with leading coefficient 1: {co}")
        else:
            mon.check((c >= 0).all(), "reward-positive", f"{name}: negative value {c.min()}")
            # |b - a|^p + bias with p in (0, 1): symmetric around its minimiser, concave on either side
            g = np.linspace(-60, 60, 4001)
            v = np.asarray(fn(context=np.repeat(X[:1], 4001, 0), action=g, random_state=seed))
            j = int(np.argmin(v))
            m_ = min(j, 4000 - j) - 2
            if m_ > 200:
                mon.check(abs(v[j + 150] - v[j - 150]) < 0.25 and abs(v[j + 200] - v[j - 200]) < 0.25 and v[j + 200] >= v[j + 100] >= v[j] - 1e-9, "reward-linear-shape", f"{name}: not symmetric around its minimum")
    bp = np.asarray(D.linear_behavior_policy_continuous(X, random_state=seed))
    mon.check(bp.shape == (n,), "shape", f"linear_behavior_policy_continuous {bp.shape}")
    y = np.asarray(D.linear_behavior_policy_continuous(np.vstack([np.zeros((1, dim)), np.eye(dim)]), random_state=seed))
    mon.close(bp, [y[0] + (y[1:] - y[0]) @ v for v in X], "behavior-linear", "linear_behavior_policy_continuous is not affine in the context", rtol=1e-8)
    mon.check(0 <= y[0] <= 1, "behavior-bias", f"bias {y[0]}")
    mon.ev("continuous-functions")
    mon.sig("continuous", n, dim)


def _utils(r, case, mon):
    from obp.utils import convert_to_action_dist, sample_action_fast, sigmoid, softmax

    n, k = int(r.choice([1, 3, 50])), int(r.choice([1, 2, 9, 200]))
    z = r.normal(size=(n, k)) * r.choice([1, 30, 800])
    s = np.asarray(softmax(z))
    want = np.exp(z - z.max(1, keepdims=True))
    want /= want.sum(1, keepdims=True)
    mon.close(s, want, "softmax", f"n={n} k={k}", rtol=1e-9, atol=1e-300)
    t = r.normal(size=n) * r.choice([1, 10, 600])
    mon.close(sigmoid(t), sig(t), "sigmoid", f"n={n} max {np.abs(t).max():.1f}", rtol=1e-9, atol=1e-250)
    mon.close(sigmoid(z), sig(z), "sigmoid", f"2-d n={n}", rtol=1e-9, atol=1e-250)
    L = int(min(k, r.choice([1, 2, 3])))
    sel = np.stack([r.permutation(k)[:L] for _ in range(n)])
    ad = np.asarray(convert_to_action_dist(n_actions=k, selected_actions=sel))
    w = np.zeros((n, k, L))
    for i in range(n):
        for l in range(L):
            w[i, sel[i, l], l] = 1
    mon.close(ad, w, "convert_to_action_dist", f"n={n} k={k} L={L}")
    # deterministic rows must be followed exactly, zero-probability actions never drawn
    P = np.zeros((n, k))
    P[np.arange(n), sel[:, 0]] = 1
    mon.close(sample_action_fast(P, random_state=int(r.integers(1000))), sel[:, 0], "sample-deterministic", f"n={n} k={k}")
    Q = r.dirichlet(np.ones(k), size=n) * (r.random((n, k)) < 0.5)
    Q[np.arange(n), sel[:, 0]] += 0.1
    Q /= Q.sum(1, keepdims=True)
    for s_ in range(20):
        a = np.asarray(sample_action_fast(Q, random_state=s_))
        if not mon.check(a.shape == (n,) and (Q[np.arange(n), a] > 0).all(), "sample-support", f"n={n} k={k}: drew an action of probability 0"):
            break
    from .. import stat

    m = 3000
    row = Q[0]
    a = np.asarray(sample_action_fast(np.tile(row, (m, 1)), random_state=int(r.integers(10**6))))
    if k <= 9:
        stat.categorical(mon, a, np.tile(row, (m, 1)), "sample-distribution", f"k={k}")
    mon.ev("utils")
    mon.sig("utils", n, k, L)


def _rare(r, case, mon):
    """actions of tiny probability are drawn exactly as often as stated"""
    from obp.utils import sample_action_fast

    k, tiny = int(r.choice([6, 12])), float(r.choice([1.5e-5, 4e-5]))
    p = np.full(k, tiny)
    big = r.choice(k, 2, replace=False)
    p[big] = [0.7, 0.3 - tiny * (k - 2)]
    rs = np.random.RandomState(int(r.integers(10**6)))
    N, cnt = 0, np.zeros(k)
    for _ in range(25):
        a = sample_action_fast(np.tile(p, (200000, 1)), random_state=rs)
        cnt += np.bincount(a, minlength=k)
        N += 200000
    mon.ev("rare-actions")
    for j in range(k):
        lim = math.sqrt(2 * N * p[j] * (1 - p[j]) * 26) + 26 / 3
        mon.check(abs(cnt[j] - N * p[j]) <= lim, "sample-rare", f"{N} draws, action {j} of probability {p[j]:.2g}: drawn {int(cnt[j])} times, expected {N * p[j]:.1f} +- {lim:.1f}")
    mon.sig("rare", k, tiny)
