"""C26: non-stationary coefficients and reward delays."""
import math

import numpy as np

from .. import stat

RULE = ("drift intervals x transition periods (shorter, equal, longer than the interval) x linear / sampled transitions x seasonal or not x base weights x ways of splitting the requests into chunks; delays x scales; "
        "non-trivial: distinct configurations")
ASSUMPTIONS = ["statistical oracles have false-alarm probability below 1e-10 each"]
BUDGET = dict(quick=200, thorough=1500)
REQUIRED = ["drift", "transition", "seasonal", "base-weight", "chunks", "sampled", "delay", "delay-weighted", "stat-tests", "mid-interval", "rejects", "env"]


def cases(rng, tier):
    m = 1 if tier == "quick" else 20
    for _ in range(320 * m):
        yield dict(kind="drift")
    for _ in range(60 * m):
        yield dict(kind="sampled")
    for _ in range(60 * m):
        yield dict(kind="delay")
    for _ in range(20 * m):
        yield dict(kind="env")


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


def ask(dr, sizes, dx, da, late):
    out = []
    for s in sizes:
        kw = dict(effective_dim_context=dx, effective_dim_action_context=da) if late else {}
        out.append(dr.get_coefficients(n_rounds=s, **kw))
    return [np.concatenate([np.asarray(o[i]) for o in out]) for i in range(3)]


def split(r, n):
    sizes = []
    while sum(sizes) < n:
        sizes.append(int(min(n - sum(sizes), r.choice([1, 1, 2, 5, 9]))))
    return sizes


def _drift(r, case, mon):
    from obp.simulator.coefficient_drifter import CoefficientDrifter

    I = int(r.choice([1, 2, 5, 8]))
    T = int(r.choice([0, 1, 3, I, I + 2]))
    seas = bool(r.random() < 0.4)
    bw = float(r.choice([0.0, 0.0, 0.3, 1.0]))
    dx, da = int(r.choice([1, 2, 4])), int(r.choice([1, 3]))
    seed = int(r.integers(10**4))
    n = int(r.integers(1, 6 * I + 4))
    late = bool(r.random() < 0.5)
    dims = {} if late else dict(effective_dim_context=dx, effective_dim_action_context=da)
    lab = f"drifter interval={I} transition={T} seasonal={seas} base={bw} n={n}"
    m = n // I + 2
    # the plateaus: what a drifter without transition and without base weight returns
    ref = CoefficientDrifter(drift_interval=I, seasonal=seas, random_state=seed, **dims)
    P = ask(ref, [I * m + I], dx, da, late)
    shapes = [(I * m + I, dx), (I * m + I, da), (I * m + I, dx, da)]
    if not mon.check([p.shape for p in P] == shapes, "shapes", f"{lab}: {[p.shape for p in P]}, expected {shapes}"):
        return
    C = []
    for p in P:
        plate = p.reshape((m + 1, I) + p.shape[1:])
        mon.check(np.array_equal(plate, np.repeat(plate[:, :1], I, 1)), "plateau", f"{lab}: coefficients change within an interval")
        mon.check(plate.min() >= -1 - 1e-12 and plate.max() <= 1 + 1e-12, "range", f"{lab}: coefficients outside [-1, 1]")
        pl = plate[:, 0]
        for j in range(1, m + 1):
            mon.check(not np.array_equal(pl[j], pl[j - 1]), "moves", f"{lab}: interval {j} repeats the coefficients of the one before")
            if seas and j >= 2:
                mon.check(np.array_equal(pl[j], pl[j - 2]), "seasonal", f"{lab}: interval {j} is not the season of interval {j - 2}")
            if not seas and j >= 2:
                mon.check(not np.array_equal(pl[j], pl[j - 2]), "not-seasonal", f"{lab}: interval {j} repeats interval {j - 2}")
        C.append(pl)
    mon.ev("drift")
    if seas:
        mon.ev("seasonal")
    if bw:
        mon.ev("base-weight")
    sizes = split(r, n) if r.random() < 0.7 else [n]
    if len(sizes) > 1:
        mon.ev("chunks")
    if any(sum(sizes[: i + 1]) % I for i in range(len(sizes))):
        mon.ev("mid-interval")
    dr = CoefficientDrifter(drift_interval=I, transition_period=T, seasonal=seas, base_coefficient_weight=bw, random_state=seed, **dims)
    G = ask(dr, sizes, dx, da, late)
    for c, g, nm in zip(C, G, ("context", "action", "interaction")):
        want = np.zeros((n,) + c.shape[1:])
        for t in range(n):
            j, off = divmod(t, I)
            left = I - off
            w = max(0, T - left + 1) / (T + 1)
            if w:
                mon.ev("transition")
            want[t] = bw * c[0] + (1 - bw) * ((1 - w) * c[j] + w * c[j + 1])
        mon.close(g, want, "coefficients", f"{lab} requests={sizes}: {nm} coefficients", rtol=1e-10, atol=1e-12)
    if late:
        mon.ev("rejects")
        mon.raises(lambda: dr.get_coefficients(n_rounds=1, effective_dim_context=dx + 1, effective_dim_action_context=da), "rejects", "changed dimensions")
    mon.sig("drift", I, T, seas, bw, dx, da, late, len(sizes) > 1)
    mon.note(config=lab, requests=sizes, first=G[0][0])


def _sampled(r, case, mon):
    """sampled transitions: each round uses the old or the new coefficients, the new ones with the stated probability"""
    from obp.simulator.coefficient_drifter import CoefficientDrifter

    T = int(r.choice([1, 3, 9]))
    I = T + int(r.choice([1, 2]))
    seas = bool(r.random() < 0.3)
    bw = float(r.choice([0.0, 0.4]))
    m = 700
    dr = CoefficientDrifter(drift_interval=I, transition_period=T, transition_type="weighted_sampled", seasonal=seas, base_coefficient_weight=bw, random_state=int(r.integers(10**4)), effective_dim_context=2, effective_dim_action_context=2)
    sizes = split(r, 5 * I) + [I * m - 5 * I]
    G = ask(dr, sizes, 2, 2, False)
    lab = f"sampled drift interval={I} transition={T} seasonal={seas} base={bw}"
    new = np.zeros((m - 1, I))
    for g in G:
        g = g.reshape((m, I) + g.shape[1:])
        for j in range(m - 1):
            for o in range(I):
                isnew = np.allclose(g[j, o], g[j + 1, 0], rtol=1e-9, atol=1e-12)
                isold = np.allclose(g[j, o], g[j, 0], rtol=1e-9, atol=1e-12)
                if not mon.check(isnew or isold, "sampled-endpoints", f"{lab}: round {o} of interval {j} mixes old and new coefficients"):
                    return
                if g is not G[0] and not g.ndim == G[0].ndim:
                    pass
                new[j, o] += isnew
    mon.ev("sampled", new.size)
    mon.check(np.isin(new, [0, 3]).all(), "sampled-together", f"{lab}: the three kinds of coefficients do not switch together")
    new = new > 0
    for o in range(I):
        w = max(0, T - (I - o) + 1) / (T + 1)
        stat.mean_zero(mon, new[:, o] - w, np.full(m - 1, w * (1 - w)), 1.0, "sampled-share", f"{lab}: share of new coefficients {I - o} rounds before the change")
    W = [max(0, T - (I - o) + 1) / (T + 1) for o in range(I)]
    for o in range(1, I):
        for p in {0, o - 1}:
            v = W[o] * (1 - W[o]) * W[p] * (1 - W[p])
            stat.mean_zero(mon, (new[:, o] - W[o]) * (new[:, p] - W[p]), np.full(m - 1, v), 1.0, "sampled-independent", f"{lab}: rounds {p} and {o} of an interval")
    mon.sig("sampled", I, T, seas, bw)


def _delay(r, case, mon):
    from obp.simulator.delay_sampler import ExponentialDelaySampler

    lo, hi = float(r.choice([0.5, 3.0, 10.0])), float(r.choice([12.0, 60.0, 100.0]))
    s = int(r.integers(10**4))
    n, k = 1500, int(r.choice([1, 2, 5]))
    d = ExponentialDelaySampler(max_scale=hi, min_scale=lo, random_state=s)
    D = np.asarray(d.exponential_delay_function(n_rounds=n, n_actions=k))
    lab = f"delays min={lo} max={hi} k={k}"
    mon.ev("delay")

    def geometric(v, scale, key):
        """v = ceil(exponential): P(v <= m) = 1 - exp(-m/scale)"""
        mon.check((v >= 1).all() and np.array_equal(v, np.round(v)), key, f"{lab}: delays are not whole rounds of at least one")
        for m in (1, max(1, round(np.median(scale) * 0.7)), max(2, round(np.median(scale) * 2))):
            p = 1 - np.exp(-m / scale)
            stat.mean_zero(mon, (v <= m) - p, p * (1 - p), 1.0, key, f"{lab}: delays of at most {m}")

    if mon.check(D.shape == (n, k), "delay-shape", f"{lab}: {D.shape}"):
        mon.check((D == D[:, :1]).all(), "delay-same", f"{lab}: delays differ between actions")
        geometric(D[:, 0], np.full(n, hi), "delay")
        m = math.ceil(hi * math.log(2))
        p = 1 - math.exp(-m / hi)
        e = (D[:, 0] <= m) - p
        stat.mean_zero(mon, e[1:] * e[:-1], np.full(n - 1, (p * (1 - p)) ** 2), 1.0, "delay-independent", f"{lab}: consecutive delays")
    q = r.random((n, k))
    if r.random() < 0.4:
        q = (q < 0.5).astype(float)
    W = np.asarray(d.exponential_delay_function_expected_reward_weighted(expected_rewards=q, n_rounds=n, n_actions=k))
    mon.ev("delay-weighted")
    if mon.check(W.shape == (n, k), "weighted-shape", f"{lab}: {W.shape}"):
        sc = lo + (1 - q) * (hi - lo)
        for j in range(k):
            mon.check((W[:, j] >= 1).all() and np.array_equal(W[:, j], np.round(W[:, j])), "weighted", f"{lab}: delays are not whole rounds of at least one")
            for c in (0.2, 0.7, 2.0):
                m = np.maximum(1, np.round(sc[:, j] * c))
                p = 1 - np.exp(-m / sc[:, j])
                for g in (np.ones(n), np.sign(q[:, j] - 0.5)):
                    stat.mean_zero(mon, g * ((W[:, j] <= m) - p), p * (1 - p), 1.0, "weighted", f"{lab}: weighted delays of at most {c} scales")
        if k > 1:
            m = np.round(sc * 0.7) + 1
            p = 1 - np.exp(-m / sc)
            e = (W <= m) - p
            stat.mean_zero(mon, e[:, 0] * e[:, 1], (p * (1 - p))[:, 0] * (p * (1 - p))[:, 1], 1.0, "weighted-independent", f"{lab}: delays of two actions")
    d2 = ExponentialDelaySampler(max_scale=hi, min_scale=lo, random_state=s)
    mon.check(np.array_equal(D, d2.exponential_delay_function(n_rounds=n, n_actions=k)), "delay-seed", f"{lab}: equal seeds, different delays")
    mon.raises(lambda: ExponentialDelaySampler(), "rejects", "no seed")
    mon.sig("delay", lo, hi, k)


def _env(r, case, mon):
    """a drifting environment: the coefficients in force at a round do not depend on how rounds are requested"""
    from obp.dataset import linear_reward_function
    from obp.simulator.coefficient_drifter import CoefficientDrifter
    from obp.simulator.simulator import BanditEnvironmentSimulator

    seen = []
    I, T, k, d = int(r.choice([3, 5])), int(r.choice([0, 2])), 3, 2
    s = int(r.integers(10**4))

    def rf(context, action_context, random_state=None, coef_function=None, **kw):
        cx, ca, cxa = coef_function(n_rounds=context.shape[0], effective_dim_context=d, effective_dim_action_context=k)
        seen.append((cx, ca, cxa))
        v = (context * cx).sum(1)[:, None] + ca @ action_context.T + np.einsum("ni,nij,kj->nk", context, cxa, action_context)
        return 1 / (1 + np.exp(-v))

    n = int(r.integers(5, 30))

    def run(sizes):
        seen.clear()
        dr = CoefficientDrifter(drift_interval=I, transition_period=T, random_state=s)
        env = BanditEnvironmentSimulator(n_actions=k, dim_context=d, reward_function=rf, coef_function=dr.get_coefficients, random_state=s)
        for z in sizes:
            if z == 1 and r.random() < 0.5:
                env.next_bandit_round()
            else:
                env.next_bandit_round_batch(z)
        return [np.concatenate([c[i] for c in seen]) for i in range(3)]

    A, sz = run([n]), split(r, n)
    B = run(sz)
    mon.ev("env")
    for a, b in zip(A, B):
        mon.close(b, a, "env-chunks", f"drifting environment interval={I} transition={T}: rounds requested as {sz}", rtol=1e-10, atol=1e-12)
    mon.sig("env", I, T)
