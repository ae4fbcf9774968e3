"""Statistical oracles with explicit, tiny false-alarm probabilities."""
import math

import numpy as np

DELTA = 1e-11
LG = math.log(2 / DELTA)


def bern_bound(var_sum, bound):
    """|sum of independent centred terms| <= this with probability 1 - DELTA (Bernstein)."""
    return math.sqrt(2 * max(var_sum, 0.0) * LG) + bound * LG / 3 + 1e-9


def mean_zero(mon, terms, var, bound, key, msg):
    """terms: independent centred terms with variances `var`, |terms| <= bound."""
    t = float(np.sum(terms))
    lim = bern_bound(float(np.sum(var)), float(bound))
    mon.ev("stat-tests")
    return mon.check(abs(t) <= lim, key, f"{msg}: sum of {len(terms)} centred terms is {t:.3f}, limit {lim:.3f}")


def categorical(mon, choice, probs, key, msg, weights=()):
    """choice[i] ~ probs[i] independently."""
    n, k = probs.shape
    gs = [np.ones(n)] + [np.asarray(w, float) for w in weights]
    for g in gs:
        b = float(np.abs(g).max()) if n else 0
        for a in range(k):
            p = probs[:, a]
            if p.max() == 0:
                mon.check(not (choice == a).any(), key, f"{msg}: choice {a} of probability 0 was drawn")
                continue
            if not mean_zero(mon, g * ((choice == a) - p), g * g * p * (1 - p), b, key, f"{msg}: frequency of {a}"):
                return False
    # likely choices are drawn as often as they should be, whichever they are
    rank = np.argsort(-probs, axis=1, kind="stable")
    for j in range(min(k, 3)):
        p = probs[np.arange(n), rank[:, j]]
        if n and not mean_zero(mon, (choice == rank[:, j]) - p, p * (1 - p), 1.0, key, f"{msg}: frequency of the choices of rank {j}"):
            return False
    # consecutive draws are independent
    if n > 200:
        pf = probs[np.arange(n), choice]
        hit = choice[:, None] == np.arange(k)
        a = int(np.argmax((probs * (1 - probs)).sum(0)))
        e = hit[:, a] - probs[:, a]
        v = probs[:, a] * (1 - probs[:, a])
        for lag in (1, 2):
            # split into two independent chains to keep the products a martingale
            mean_zero(mon, e[lag:] * e[:-lag], v[lag:] * v[:-lag] + 1e-12, 1.0, key + "-independent", f"{msg}: draws {lag} apart") \
                if v.sum() > 1 else None
    return True


def dkw(mon, u, key, msg):
    """u should be iid uniform(0,1)."""
    u = np.sort(np.asarray(u, float))
    n = len(u)
    d = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    lim = math.sqrt(LG / (2 * n))
    mon.ev("stat-tests")
    return mon.check(d <= lim + 1e-9, key, f"{msg}: distance to the stated distribution {d:.4f}, limit {lim:.4f} (n={n})")


def uncorrelated(mon, u, v, key, msg):
    """u, v in (0,1) iid uniform and independent of each other."""
    a, b = np.asarray(u) - 0.5, np.asarray(v) - 0.5
    return mean_zero(mon, a * b, np.full(len(a), 1 / 144), 0.25, key, msg)
