"""Reference statistics, written from the published definitions (plain loops)."""
import math

import numpy as np
from scipy import stats


def fmean(x):
    x = [float(v) for v in x]
    return math.fsum(x) / len(x)


def pos_of(position, i):
    return 0 if position is None else int(position[i])


def weights(d, pscore):
    return [
        float(d["action_dist"][i, d["action"][i], pos_of(d["position"], i)]) / float(pscore[i])
        for i in range(d["n"])
    ]


def dm_terms(d):
    out = []
    for i in range(d["n"]):
        l = pos_of(d["position"], i)
        out.append(math.fsum(float(d["action_dist"][i, a, l]) * float(d["q"][i, a, l]) for a in range(d["k"])))
    return out


def q_obs(d):
    return [float(d["q"][i, d["action"][i], pos_of(d["position"], i)]) for i in range(d["n"])]


def shrink(name, w, lam):
    if name in ("ipw", "dr", "multi_ipw", "multi_dr"):
        return [min(v, lam) for v in w]
    if name == "switch-dr":
        return [v if v <= lam else 0.0 for v in w]
    if name == "dr-os":
        return [lam * v / (v * v + lam) if lam < math.inf else v for v in w] if lam > 0 else [
            0.0 if v != 0 else math.nan for v in w]
    if name in ("sg-ipw", "sg-dr"):
        return [v / (1 - lam + lam * v) for v in w]
    raise KeyError(name)


def round_rewards(name, d, lam=math.inf, pscore=None):
    """Per-round terms whose average is the estimate."""
    n = d["n"]
    r = [float(v) for v in d["reward"]]
    if name == "rm":
        m = [1.0 if d["action_dist"][i, d["action"][i], pos_of(d["position"], i)] == 1 else 0.0 for i in range(n)]
        if sum(m) == 0:
            return [0.0] * n
        return [m[i] * r[i] / (sum(m) / n) for i in range(n)]
    if name == "dm":
        return dm_terms(d)
    if name == "b-ipw":
        w = [min(float(v), lam) for v in d["w_hat"]]
        mw = fmean(w)
        return [w[i] * r[i] / mw for i in range(n)]
    w = weights(d, d["pscore"] if pscore is None else pscore)
    if name == "snipw":
        mw = fmean(w)
        return [w[i] * r[i] / mw for i in range(n)]
    if name in ("ipw", "sg-ipw"):
        wh = shrink(name, w, lam)
        return [wh[i] * r[i] for i in range(n)]
    dm, q = dm_terms(d), q_obs(d)
    if name == "sndr":
        mw = fmean(w)
        return [dm[i] + w[i] * (r[i] - q[i]) / mw for i in range(n)]
    wh = shrink(name, w, lam)
    return [dm[i] + wh[i] * (r[i] - q[i]) for i in range(n)]


def scale(x):
    return max(1e-12, fmean([abs(v) for v in x]))


# ---- bounds ---------------------------------------------------------------------
def pvar(x):
    m = fmean(x)
    return fmean([(float(v) - m) ** 2 for v in x])


def student_t_halfwidth(x, delta):
    n = len(x)
    return math.sqrt(pvar(x) / (n - 1)) * stats.t.ppf(1 - delta, n - 1)


def mse_score(name, d, lam, pscore, use_ub, delta):
    n = d["n"]
    rr = round_rewards(name, d, lam, pscore)
    w = weights(d, pscore)
    wh = shrink(name, w, lam)
    q = q_obs(d) if "dr" in name else [0.0] * n
    bias = abs(fmean([(w[i] - wh[i]) * (float(d["reward"][i]) - q[i]) for i in range(n)]))
    if use_ub:
        bias += math.sqrt(2 * fmean([v * v for v in w]) * math.log(2 / delta) / n)
        bias += 2 * max(w) * math.log(2 / delta) / (3 * n)
    return pvar(rr) / n + bias * bias


SLOPE_C = math.sqrt(6) - 1


def slope(thetas, cnfs, margin=1e-9):
    """Index chosen by the SLOPE rule, or None if a comparison or the ordering is too close to call.
    Candidates are visited from the widest to the narrowest interval."""
    m = len(thetas)
    order = sorted(range(m), key=lambda i: -cnfs[i])
    srt = [cnfs[i] for i in order]
    tot = max(1e-300, max(abs(c) for c in cnfs), max(abs(t) for t in thetas))
    ambiguous = False
    for a, b in zip(order, order[1:]):
        if abs(cnfs[a] - cnfs[b]) <= margin * tot and abs(thetas[a] - thetas[b]) > margin * tot:
            ambiguous = True
    acc = [order[0]]
    for i in order[1:]:
        ok = True
        for j in acc:
            gap = abs(thetas[j] - thetas[i]) - (cnfs[i] + SLOPE_C * cnfs[j])
            if abs(gap) <= margin * tot:
                ambiguous = True
            if gap > 0:
                ok = False
        if not ok:
            break
        acc.append(i)
    return (None if ambiguous else acc[-1])


def percentile(xs, q):
    """numpy's linear-interpolation percentile."""
    return float(np.percentile(np.asarray(xs, float), q))
