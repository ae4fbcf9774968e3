"""C20: offline policy learners built on classifiers and regressors (IPWLearner, QLearner)."""
import math

import numpy as np
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression

from .. import gen, stat
from ..models import Kernel, Ridge

RULE = ("IPWLearner and QLearner x base models x positions x fitting methods x unobserved actions x propensities given or not; scores recomputed with independently trained models, "
        "choices, softmax policies and sampled rankings derived from the scores; non-trivial: distinct configurations")
ASSUMPTIONS = ["base models are deterministic given their training rows"]
BUDGET = dict(quick=250, thorough=2400)
REQUIRED = ["ipw", "q:normal", "q:iw", "q:mrdr", "unobserved", "positions", "softmax", "ranking", "stat-tests", "no-pscore", "refit", "extreme-tau", "cold"]


def cases(rng, tier):
    m = 3 if tier == "quick" else 12
    for _ in range(220 * m):
        yield dict(kind="ipw")
    for meth in ("normal", "iw", "mrdr"):
        for _ in range(80 * m):
            yield dict(kind="q", method=meth)
    for _ in range(30 * m):
        yield dict(kind="stat")


def log(r, n=None):
    k = int(r.choice([2, 3, 6]))
    L = int(r.choice([1, 1, 2, 3]))
    L = min(L, k)
    n = n or int(r.choice([15, 40, 120]))
    x = gen.maybe_int(r, r.normal(size=(n, int(r.choice([1, 3])))))
    obs = np.sort(r.permutation(k)[: max(2, int(r.integers(2, k + 1)))])
    a = obs[r.integers(len(obs), size=n)]
    pos = r.permutation(np.arange(n) % L)
    ps = gen.pscores(r, n, "uniform") if r.random() < 0.7 else None
    return n, k, L, x, a, pos, ps, obs


def smax(z):
    e = np.exp(z - z.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def choices(mon, m, S, xn, k, L, lab, r, scores_pred):
    """everything derived from the scores S (h, k, L)"""
    h = len(xn)
    got = np.asarray(m.predict(context=xn))
    ok = got.shape == (h, k, L) and np.isin(got, [0, 1]).all() and (got.sum(1) == 1).all()
    if mon.check(ok, "predict-one-hot", f"{lab}: not one action per round and position"):
        for i in range(h):
            for l in range(L):
                c = int(got[i, :, l].argmax())
                mon.check(S[i, c, l] >= S[i, :, l].max() - 1e-9 * (1 + abs(S[i, :, l]).max()), "predict-best", f"{lab}: round {i} position {l} picks {c}, scores {S[i, :, l]}")
    mon.close(m.predict_score(context=xn), S, "score", f"{lab}: scores", rtol=1e-6, atol=1e-8 * (1 + np.abs(S).max()))
    # the answer follows the contents of the array, not its identity
    buf = xn.copy()
    m.predict(context=buf), m.predict_score(context=buf)
    buf[:] = xn[::-1]
    mon.close(m.predict_score(context=buf), S[::-1], "score-again", f"{lab}: same array, other contexts", rtol=1e-6, atol=1e-8 * (1 + np.abs(S).max()))
    mon.check(np.array_equal(m.predict(context=buf), got[::-1]), "predict-again", f"{lab}: same array, other contexts")
    tau = [1.0, 0.1, 3, 1000.0, 1e-3][int(r.integers(5))]
    if tau in (0.1, 1e-3, 1000.0):
        mon.ev("extreme-tau")
    if L == 1 or scores_pred:
        mon.ev("softmax")
        P = np.asarray(m.predict_proba(context=xn, tau=tau))
        mon.close(P, smax(S / tau), "softmax", f"{lab} tau={tau}", rtol=1e-6, atol=max(1e-9, 1e-11 * (1 + np.abs(S).max()) / tau))
    s = int(r.integers(10000))
    R = np.asarray(m.sample_action(context=xn, tau=tau, random_state=s))
    mon.ev("ranking")
    ok = R.shape == (h, k, L) and np.isin(R, [0, 1]).all() and (R.sum(1) == 1).all() and (R.sum(2) <= 1).all()
    mon.check(ok, "ranking", f"{lab}: not a ranking without repetition")
    # at a very low temperature sampling is ranking by the average score
    M = S.mean(2)
    Z = np.asarray(m.sample_action(context=xn, tau=1e-7 * (1 + float(np.abs(M).max())), random_state=s))
    gap = 1e-5 * (1 + np.abs(M).max())
    for i in range(h if Z.shape == (h, k, L) else 0):
        top = np.sort(M[i])[::-1]
        for l in range(L):
            c = int(Z[i, :, l].argmax())
            mon.check(abs(M[i, c] - top[l]) <= gap, "ranking-cold", f"{lab}: round {i} position {l} samples {c} at temperature zero, average scores {M[i]}")
    mon.ev("cold")
    mon.check(np.array_equal(R, m.sample_action(context=xn, tau=tau, random_state=s)), "ranking-seed", lab)


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


def _ipw(r, case, mon):
    from obp.policy import IPWLearner

    n, k, L, x, a, pos, ps, obs = log(r)
    for l in range(L):
        if len(np.unique(a[pos == l])) < 2:
            return
    rew = np.abs(gen.rewards(r, n, str(r.choice(["binary", "binary_int", "normal", "large"]))))
    if rew.sum() == 0:
        rew[0] = 1
    u = r.random()
    base = Kernel() if u < 0.75 else LogisticRegression(C=2.0, tol=1e-10, max_iter=2000)
    if not isinstance(base, Kernel):
        rew = (rew > 0) * 1.0 + 0.1
    lab = f"ipw base={type(base).__name__} n={n} k={k} L={L} observed={len(obs)} pscore={'given' if ps is not None else 'missing'}"
    m = IPWLearner(n_actions=k, len_list=L, base_classifier=base)
    p = pos if L > 1 else None
    xn = r.normal(size=(6, x.shape[1]))
    if r.random() < 0.3:
        mon.ev("refit")
        q = r.permutation(n)
        m.fit(context=x[q], action=a, reward=rew, pscore=ps, position=p)
        m.predict(context=xn), m.predict_score(context=xn)
    b4 = [v.copy() for v in (x, a, rew)]
    m.fit(context=x, action=a, reward=rew, pscore=ps, position=p)
    mon.check(all(np.array_equal(u, v) for u, v in zip(b4, (x, a, rew))), "inputs", lab)
    mon.ev("ipw")
    if len(obs) < k:
        mon.ev("unobserved")
    if ps is None:
        mon.ev("no-pscore")
    if L > 1:
        mon.ev("positions")
    S = np.zeros((6, k, L))
    for l in range(L):
        I = pos == l
        w = rew[I] / (ps[I] if ps is not None else 1 / k)
        c = clone(base).fit(x[I], a[I], sample_weight=w)
        S[:, c.classes_, l] = c.predict_proba(xn)
    choices(mon, m, S, xn, k, L, lab, r, False)
    if L == 1:
        bad = rew.copy()
        bad[0] = -1
        mon.raises(lambda: m.fit(context=x, action=a, reward=bad, pscore=ps), "rejects", "negative reward")
    else:
        mon.raises(lambda: m.fit(context=x, action=a, reward=rew, pscore=ps), "rejects", "missing position")
        mon.raises(lambda: m.predict_proba(context=xn), "rejects", "predict_proba with several positions")
    mon.sig("ipw", type(base).__name__, k, L, len(obs), ps is None)
    mon.note(config=lab, score=S[0, :, 0])


def _q(r, case, mon):
    from obp.policy import QLearner

    meth = case["method"]
    n, k, L, x, a, pos, ps, obs = log(r)
    clf = bool(r.random() < 0.5)
    if clf:
        rew = (r.random(n) < 0.5).astype(int)
        for l in range(L):
            I = np.flatnonzero(pos == l)
            rew[I[0]], rew[I[1]] = 0, 1
    else:
        rew = gen.rewards(r, n)
    base = Kernel() if clf else Ridge()
    lab = f"q method={meth} base={type(base).__name__} n={n} k={k} L={L} pscore={'given' if ps is not None else 'missing'}"
    m = QLearner(n_actions=k, len_list=L, base_model=base, fitting_method=meth)
    xn = r.normal(size=(6, x.shape[1]))
    if r.random() < 0.3:
        mon.ev("refit")
        m.fit(context=x, action=(a + 1) % k, reward=rew, pscore=ps, position=pos if L > 1 else None)
        m.predict(context=xn), m.predict_score(context=xn)
    m.fit(context=x, action=a, reward=rew, pscore=ps, position=pos if L > 1 else None)
    mon.ev("q:" + meth)
    if ps is None:
        mon.ev("no-pscore")
    if L > 1:
        mon.ev("positions")
    S = np.zeros((6, k, L))
    for l in range(L):
        I = np.flatnonzero(pos == l)
        p = ps[I] if ps is not None else np.full(len(I), 1 / k)
        w = dict(normal=np.ones(len(I)), iw=(1 / k) / p, mrdr=(1 / k) * (1 - p) / p**2)[meth]
        c = clone(base).fit(np.c_[x[I], np.eye(k)[a[I]]], rew[I], sample_weight=w)
        for b in range(k):
            Z = np.c_[xn, np.tile(np.eye(k)[b], (6, 1))]
            S[:, b, l] = c.predict_proba(Z)[:, 1] if clf else c.predict(Z)
    choices(mon, m, S, xn, k, L, lab, r, True)
    mon.sig("q", meth, clf, k, L, ps is None)


def _stat(r, case, mon):
    """sampled rankings follow the Plackett-Luce distribution of the scores averaged over positions"""
    from obp.policy import IPWLearner, QLearner

    n, k, L, x, a, pos, ps, obs = log(r, n=60)
    k_ = k
    which = str(r.choice(["ipw", "q"]))
    if which == "ipw":
        for l in range(L):
            if len(np.unique(a[pos == l])) < 2:
                return
        m = IPWLearner(n_actions=k, len_list=L, base_classifier=Kernel(h=0.3))
    else:
        m = QLearner(n_actions=k, len_list=L, base_model=Ridge(lam=0.01))
    m.fit(context=x, action=a, reward=r.integers(0, 4, n).astype(float), pscore=ps, position=pos if L > 1 else None)
    N = 1500
    xn = r.normal(size=(N, x.shape[1]))
    tau = float(r.choice([0.3, 1.0, 2.0]))
    S = np.asarray(m.predict_score(context=xn)).mean(2) / tau
    s = int(r.integers(10000))
    R = np.asarray(m.sample_action(context=xn, tau=tau, random_state=s))
    first = R[:, :, 0].argmax(1)
    lab = f"{which} k={k} L={L} tau={tau}"
    stat.categorical(mon, first, smax(S), "ranking-first", lab, [np.sign(xn[:, 0])])
    if L > 1 and k > 2:
        S2 = S.copy()
        S2[np.arange(N), first] = -np.inf
        stat.categorical(mon, R[:, :, 1].argmax(1), smax(S2), "ranking-second", lab)
    Q = np.asarray(m.sample_action(context=xn, tau=tau, random_state=s + 1))[:, :, 0].argmax(1)
    P = smax(S)
    j = int((P * (1 - P)).sum(0).argmax())
    v = P[:, j] * (1 - P[:, j])
    stat.mean_zero(mon, ((first == j) - P[:, j]) * ((Q == j) - P[:, j]), v * v, 1.0, "ranking-independent", lab)
    mon.sig("stat", which, k, L, tau)
