"""Oracle for percentile-bootstrap intervals that does not depend on the random stream used."""
import math

import numpy as np
from scipy import stats

P = 1e-10  # false-alarm probability of one quantile comparison


def keys(alpha):
    return "mean", f"{100 * (1. - alpha)}% CI (lower)", f"{100 * (1. - alpha)}% CI (upper)"


def reference(rng, t, B=20000):
    t = np.asarray(t, float)
    n = len(t)
    if n >= 10000:  # normal to within the tolerances used below (callers keep the skewness moderate)
        return t.mean() + t.std() / math.sqrt(n) * stats.norm.ppf((np.arange(B) + 0.5) / B)
    if n > 500:
        B = 8000
    step = max(1, 2_000_000 // n)
    return np.sort(np.concatenate([rng.multinomial(n, np.full(n, 1.0 / n), size=min(step, B - b)) @ t / n for b in range(0, B, step)]))


def judge(mon, rng, ci, t, alpha, B, label, refd=None):
    """ci: returned dict; t: reference samples whose mean is bootstrapped."""
    t = np.asarray(t, float)
    n = len(t)
    km, kl, ku = keys(alpha)
    if not mon.check(set(ci) == {km, kl, ku}, "ci-keys", f"{label}: keys {sorted(ci)} for alpha={alpha}"):
        return
    m, lo, hi = float(ci[km]), float(ci[kl]), float(ci[ku])
    sc = max(1e-300, float(np.abs(t).mean()))
    eps = 1e-9 * sc + 1e-12
    mon.check(lo <= hi + eps, "ci-ordered", f"{label}: lower {lo} > upper {hi}")
    mon.check(t.min() - eps <= lo and hi <= t.max() + eps, "ci-range", f"{label}: [{lo}, {hi}] outside the samples' range [{t.min()}, {t.max()}]")
    sd = float(t.std()) / math.sqrt(n)
    # Bernstein: bootstrap means are bounded by the sample range
    rng_ = float(t.max() - t.min())
    dev = sd * math.sqrt(2 * math.log(2 / P) / B) + rng_ * math.log(2 / P) / (3 * B)
    mon.check(abs(m - t.mean()) <= dev + eps, "ci-mean", f"{label}: mean {m}, expected {t.mean()} +- {dev}")
    if refd is None:
        refd = reference(rng, t)
    R = len(refd)
    for name, val, p in (("ci-lower", lo, alpha / 2), ("ci-upper", hi, 1 - alpha / 2)):
        k1 = math.floor((B - 1) * p) + 1
        k2 = min(B, math.ceil((B - 1) * p) + 1)
        fl = stats.beta.ppf(P, k1, B + 1 - k1)
        fu = stats.beta.ppf(1 - P, k2, B + 1 - k2)
        tl = 7 * math.sqrt(max(fl * (1 - fl), 1.0 / R) / R)
        tu = 7 * math.sqrt(max(fu * (1 - fu), 1.0 / R) / R)
        Fr = np.searchsorted(refd, val + eps, side="right") / R
        Fl = np.searchsorted(refd, val - eps, side="left") / R
        mon.check(Fr >= fl - tl and Fl <= fu + tu, name,
                  f"{label}: bound {val} sits at level [{Fl:.4f}, {Fr:.4f}] of the bootstrap distribution, expected {p} (alpha={alpha}, B={B}, n={n})")
    mon.ev("interval-judged")
    if sd > 0:
        mon.ev("interval-nondegenerate")
