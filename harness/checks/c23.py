"""C23: contextual online policies follow their stated rule over any history of selections and updates."""
import math

import numpy as np
from scipy.stats import norm

from .. import gen, stat
from .c22 import valid_list

RULE = ("LinEpsilonGreedy, LinUCB, LinTS, LogisticEpsilonGreedy, LogisticUCB and LogisticTS x dimensions x actions x list length x batch size x exploration, driven through random interleavings of "
        "selections and updates; a shadow model keeps the full matrices (or the sequential Laplace posterior) of the complete batches; non-trivial: distinct configurations")
ASSUMPTIONS = ["statistical oracles have false-alarm probability below 1e-10 each", "rewards of logistic policies are 0 or 1", "choices closer than the tolerance of the library's own optimiser (2e-3) are accepted either way"]
BUDGET = dict(quick=250, thorough=2400)
REQUIRED = ["lin-greedy", "lin-ucb", "lin-ts", "log-greedy", "log-ucb", "log-ts", "batched", "reinit", "explore", "stat-tests", "lists", "long", "decisive", "saturated", "large-scale", "correlated-features", "partial"]


def cases(rng, tier):
    m = 3 if tier == "quick" else 15
    for _ in range(110 * m):
        yield dict(kind="lin")
    for _ in range(110 * m):
        yield dict(kind="log")
    for _ in range(30 * m):
        yield dict(kind="explore")
    for _ in range(40 * m):
        yield dict(kind="ts")
    for _ in range(36 * m):
        yield dict(kind="reinit")
    for _ in range(12 * m):
        yield dict(kind="rejects")
    for _ in range(20 * m):
        yield dict(kind="scale")
    for _ in range(72 * m):
        yield dict(kind="partial")


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


class Lin:
    """ridge statistics of the complete batches"""

    def __init__(self, d, k, bs):
        self.d, self.k, self.bs, self.h, self.done = d, k, bs, [], 0
        self.A = np.stack([np.eye(d) for _ in range(k)])
        self.b = np.zeros((k, d))

    def update(self, a, y, x):
        self.h.append((a, y, np.array(x).ravel()))
        if len(self.h) % self.bs == 0:
            for a, y, x in self.h[self.done :]:
                self.A[a] += np.outer(x, x)
                self.b[a] += y * x
            self.done = len(self.h)

    def stats(self, x):
        x = x.ravel()
        mu = np.array([x @ np.linalg.solve(self.A[i], self.b[i]) for i in range(self.k)])
        sd = np.array([math.sqrt(x @ np.linalg.solve(self.A[i], x)) for i in range(self.k)])
        return mu, sd


def newton(m, q, X, s):
    w = m.copy()

    def f(w):
        return 0.5 * (q * (w - m) ** 2).sum() + np.logaddexp(0, -s * (X @ w)).sum()

    for _ in range(200):
        z = s * (X @ w)
        p = 1 / (1 + np.exp(z))
        g = q * (w - m) - (s * p) @ X
        if np.abs(g).max() < 1e-11:
            break
        H = np.diag(q) + (X * (p * (1 - p))[:, None]).T @ X
        d = np.linalg.solve(H, g)
        t = 1.0
        while f(w - t * d) > f(w) and t > 1e-6:
            t /= 2
        w = w - t * d
    return w


class Log:
    """sequential diagonal Laplace posterior, one batch at a time and per action"""

    def __init__(self, d, k, bs, lam, alpha):
        self.d, self.k, self.bs, self.alpha, self.h, self.done = d, k, bs, alpha, [], 0
        self.m = np.zeros((k, d))
        self.q = np.full((k, d), lam, float)

    def update(self, a, y, x):
        self.h.append((a, y, np.array(x).ravel()))
        if len(self.h) % self.bs == 0:
            new = self.h[self.done :]
            self.done = len(self.h)
            for a in range(self.k):
                X = np.array([x for b, _, x in new if b == a])
                if len(X):
                    s = np.array([1.0 if y > 0 else -1.0 for b, y, _ in new if b == a])
                    self.m[a] = newton(self.m[a], self.q[a], X, s)
                    P = 1 / (1 + np.exp(-X @ self.m[a]))
                    self.q[a] = self.q[a] + (P * (1 - P)) @ X**2

    def stats(self, x):
        x = x.ravel()
        return self.m @ x, np.sqrt((x**2 / self.q).sum(1)), np.sqrt((x**2 * (self.alpha / self.q) ** 2).sum(1))


def params(r):
    k = int(r.choice([2, 3, 5]))
    return k, int(r.choice([1, 2, 4])), int(min(k, r.choice([1, 1, 2, 3]))), int(r.choice([1, 1, 2, 4, 7]))


def ranked(mon, sel, score, tol, key, msg):
    """sel lists the best actions by score, best first (ties within tol either way)"""
    top = np.sort(score)[::-1]
    if len(score) > len(sel) and top[len(sel) - 1] - top[len(sel)] > 2 * tol:
        mon.ev("decisive")
    return mon.check((score[np.asarray(sel)] >= top[: len(sel)] - tol).all(), key, f"{msg}: {sel} chosen, scores {score}")


def sig(z):
    return 1 / (1 + np.exp(-z))


def drive(r, mon, p, sh, score, tol, key, lab, k, d, L, T, rew, scales=(0.3, 1.0, 2.0)):
    theta = r.normal(size=(k, d))
    if max(scales) > 5:
        mon.ev("saturated")
    for t in range(T):
        x = gen.maybe_int(r, r.normal(size=(1, d)) * float(r.choice(scales)))
        if r.random() < 0.6:
            sel = p.select_action(x)
            if not valid_list(mon, sel, k, L, lab):
                return
            s = score(sh, x)
            mon.ev(key)
            if not ranked(mon, sel, s, tol * (1 + np.abs(s).max()), key, f"{lab} after {len(sh.h)} updates"):
                return
        for _ in range(int(r.choice([0, 1, 1, 3]))):
            xx = x if r.random() < 0.5 else r.normal(size=(1, d))
            a = int(r.integers(k))
            y = rew(a, xx, theta)
            p.update_params(a, y, xx.copy())
            sh.update(a, y, xx)
    if T > 150:
        mon.ev("long")


def _lin(r, case, mon):
    from obp.policy import LinEpsilonGreedy, LinUCB

    k, d, L, bs = params(r)
    ucb = bool(r.random() < 0.6)
    eps = float(r.choice([0.0, 0.3, 1.0, 5.0])) if ucb else 0.0
    kw = dict(dim=d, n_actions=k, len_list=L, batch_size=bs, random_state=int(r.integers(10**4)), epsilon=eps)
    p = (LinUCB if ucb else LinEpsilonGreedy)(**kw)
    if bs > 1:
        mon.ev("batched")
    if L > 1:
        mon.ev("lists")
    style = int(r.integers(3))

    def rew(a, x, th):
        z = float(th[a] @ x.ravel())
        return [z + float(r.normal()) * 0.3, float(r.random() < sig(z)), int(r.random() < sig(z))][style]

    def score(sh, x):
        mu, sd = sh.stats(x)
        return mu + eps * sd

    drive(r, mon, p, Lin(d, k, bs), score, 1e-8, "lin-ucb" if ucb else "lin-greedy", f"{'LinUCB' if ucb else 'LinEpsilonGreedy'} eps={eps} d={d} k={k} L={L} batch={bs}", k, d, L, int(r.choice([40, 200])), rew)
    mon.sig("lin", ucb, eps, d, k, L, bs)


def _log(r, case, mon):
    from obp.policy import LogisticEpsilonGreedy, LogisticUCB

    k, d, L, bs = params(r)
    ucb = bool(r.random() < 0.6)
    eps = float(r.choice([0.0, 0.3, 1.0, 5.0])) if ucb else 0.0
    lam, al = float(r.choice([0.5, 1.0, 4.0])), float(r.choice([0.3, 1.0]))
    kw = dict(dim=d, n_actions=k, len_list=L, batch_size=bs, random_state=int(r.integers(10**4)), epsilon=eps, lambda_=lam, alpha_=al)
    p = (LogisticUCB if ucb else LogisticEpsilonGreedy)(**kw)
    if bs > 1:
        mon.ev("batched")
    if L > 1:
        mon.ev("lists")

    def rew(a, x, th):
        y = r.random() < sig(float(th[a] @ x.ravel()))
        return float(y) if r.random() < 0.5 else int(y)

    def score(sh, x):
        mu, s, _ = sh.stats(x)
        return sig(mu) + eps * s

    drive(r, mon, p, Log(d, k, bs, lam, al), score, 2e-3, "log-ucb" if ucb else "log-greedy", f"{'LogisticUCB' if ucb else 'LogisticEpsilonGreedy'} eps={eps} lambda={lam} d={d} k={k} L={L} batch={bs}", k, d, L,
          int(r.choice([40, 200])), rew, scales=(0.3, 1.0, 2.0) if r.random() < 0.6 else (0.5, 2.0, 12.0, 30.0))
    mon.sig("log", ucb, eps, lam, d, k, L, bs)


def _scale(r, case, mon):
    """features of any unit: one batch of noisy feedback, choices follow the penalised logistic fit of that batch"""
    from obp.policy import LogisticEpsilonGreedy, LogisticUCB

    sc = float(10.0 ** r.uniform(1, 5))
    k = int(r.choice([2, 3, 5]))
    bs = 16 * k
    slope = r.choice([-1, 1], size=k) * r.choice([0.1, 0.3, 0.4], size=k)
    ucb = bool(r.random() < 0.4)
    p = (LogisticUCB if ucb else LogisticEpsilonGreedy)(dim=1, n_actions=k, batch_size=bs, random_state=int(r.integers(10**4)), epsilon=0.0)
    data = []
    for t in range(bs):
        a, x = t % k, float(r.choice([-1, 1]) * sc * r.uniform(1, 2))
        y = int(r.random() < 0.5 + np.sign(x) * slope[a])
        data.append((a, x, y))
        p.update_params(a, y, np.array([[x]]))
    w = []
    for a in range(k):
        X, S = np.array([x for b, x, _ in data if b == a]), np.array([1.0 if y else -1.0 for b, _, y in data if b == a])
        lo, hi = -20.0 / sc - 20, 20.0 / sc + 20  # the derivative is increasing: bisect its root
        for _ in range(200):
            m = (lo + hi) / 2
            g = m - (S * X * np.exp(-np.logaddexp(0, S * X * m))).sum()
            lo, hi = (m, hi) if g < 0 else (lo, m)
        w.append((lo + hi) / 2)
    mon.ev("large-scale")
    for _ in range(12):
        x = float(r.choice([-1, 1]) * sc * r.uniform(1, 2))
        with np.errstate(over="ignore"):
            P = 1 / (1 + np.exp(-np.array(w) * x))
            got = int(p.select_action(np.array([[x]]))[0])
        mon.check(P[got] >= P.max() - 0.02, "scale", f"{type(p).__name__} k={k} batch={bs} scale={sc:.0f}: action {got} chosen, fitted probabilities {P}")
    mon.sig("scale", ucb, k, int(np.log10(sc)))


def _explore(r, case, mon):
    from obp.policy import LinEpsilonGreedy, LogisticEpsilonGreedy

    k, d, L, bs = params(r)
    eps = float(r.choice([0.1, 0.4, 0.8, 1.0]))
    lin = bool(r.random() < 0.5)
    kw = dict(dim=d, n_actions=k, len_list=L, batch_size=bs, random_state=int(r.integers(10**4)), epsilon=eps)
    p = (LinEpsilonGreedy if lin else LogisticEpsilonGreedy)(**kw)
    sh = Lin(d, k, bs) if lin else Log(d, k, bs, 1.0, 1.0)
    for _ in range(6 * bs * k):
        a, x = int(r.integers(k)), r.normal(size=(1, d))
        y = int(r.random() < 0.2 + 0.6 * (a == 0))
        p.update_params(a, y, x)
        sh.update(a, y, x)
    lab = f"{'Lin' if lin else 'Logistic'}EpsilonGreedy eps={eps} d={d} k={k} L={L}"
    G, C, P = [], [], []
    pg = (1 - eps) + eps / math.perm(k, L)
    for t in range(1000):
        x = r.normal(size=(1, d))
        s = sh.stats(x)[0]
        s = s if lin else sig(s)
        o = np.sort(s)[::-1]
        if L < k and (o[:L] - o[1 : L + 1]).min() < 4e-3 or L == k and (np.diff(-o)).min(initial=1) < 4e-3:
            continue
        sel = p.select_action(x)
        if not valid_list(mon, sel, k, L, lab):
            return
        top = np.argsort(-s)[:L]
        G.append(float(np.array_equal(sel, top)))
        C.append(int(sel[-1]))
        P.append((1 - eps) * (np.arange(k) == top[-1]) + eps / k)
    mon.ev("explore", len(G))
    if len(G) > 100:
        stat.mean_zero(mon, np.array(G) - pg, np.full(len(G), pg * (1 - pg)), 1.0, "greedy-share", f"{lab}: greedy lists")
        stat.categorical(mon, np.array(C), np.array(P), "explore-last", f"{lab}: last action of the list")
    mon.sig("explore", lin, eps, d, k, L)
    mon.note(config=lab, greedy_share=float(np.mean(G)) if G else None, expected=pg)


def argmax_normal(mu, sd):
    u = (np.arange(4000) + 0.5) / 4000
    k = len(mu)
    first, second = np.zeros(k), np.zeros(k)
    for i in range(k):
        q = norm.ppf(u, mu[i], sd[i])
        C = np.array([norm.cdf(q, mu[j], sd[j]) for j in range(k)])
        o = [j for j in range(k) if j != i]
        first[i] = np.prod(C[o], 0).mean()
        for j in o:
            rest = [l for l in o if l != j]
            second[i] += ((1 - C[j]) * (np.prod(C[rest], 0) if rest else 1.0)).mean()
    return first / first.sum(), second / second.sum()


def _ts(r, case, mon):
    from obp.policy import LinTS, LogisticTS

    k, d, L, bs = params(r)
    k = min(k, 4)
    L = min(L, 2)
    lin = bool(r.random() < 0.5)
    kw = dict(dim=d, n_actions=k, len_list=L, batch_size=bs, random_state=int(r.integers(10**4)))
    lam, al = float(r.choice([0.5, 1.0, 4.0])), float(r.choice([0.3, 1.0, 2.0]))
    p = LinTS(**kw) if lin else LogisticTS(lambda_=lam, alpha_=al, **kw)
    sh = Lin(d, k, bs) if lin else Log(d, k, bs, lam, al)
    lab = f"{'LinTS' if lin else 'LogisticTS'} lambda={lam} alpha={al} d={d} k={k} L={L} batch={bs}"
    skew = r.dirichlet(np.ones(k))
    corr = bool(r.random() < 0.6) and d > 1  # correlated features: the posterior covariance is far from diagonal
    if corr:
        mon.ev("correlated-features")

    def draw():
        return r.normal() * np.ones((1, d)) + 0.2 * r.normal(size=(1, d)) if corr else r.normal(size=(1, d))

    for phase in range(2):
        for _ in range(int(r.choice([0, 5, 25, 60]))):
            a, x = int(r.choice(k, p=skew)), draw()
            y = float(r.random() < 0.5 + 0.3 * np.sin(a))
            if lin and a % 2:
                y = y * 0.6 - 0.2
            p.update_params(a, y, x)
            sh.update(a, y, x)
        x = r.normal(size=(1, d)) + 0.5 if not corr else np.where(np.arange(d) % 2, float(r.choice([-1, 1])), 1.0)[None] * float(r.choice([0.5, 2.0]))
        S = sh.stats(x)
        f, s2 = argmax_normal(S[0], S[1] if lin else S[2])
        N = 1500
        sel = np.array([p.select_action(x) for _ in range(N)])
        if not all(valid_list(mon, v, k, L, lab) for v in sel[:20]):
            return
        mon.ev("lin-ts" if lin else "log-ts")
        stat.categorical(mon, sel[:, 0], np.tile(f, (N, 1)), "ts-first", f"{lab}: after {len(sh.h)} updates", [np.where(np.arange(N) % 2, 1.0, -1.0)])
        if L > 1:
            stat.categorical(mon, sel[:, 1], np.tile(s2, (N, 1)), "ts-second", f"{lab}: after {len(sh.h)} updates")
    mon.sig("ts", lin, lam, al, d, k, L, bs)
    mon.note(config=lab, exact_first=f, observed_first=np.bincount(sel[:, 0], minlength=k) / N)


def make(which, **kw):
    import obp.policy as P

    if which.endswith("EpsilonGreedy"):
        kw["epsilon"] = 0.3
    if which.endswith("UCB"):
        kw["epsilon"] = 0.7
    return getattr(P, which)(**kw)


def _reinit(r, case, mon):
    which = ["LinEpsilonGreedy", "LinUCB", "LinTS", "LogisticEpsilonGreedy", "LogisticUCB", "LogisticTS"][int(r.integers(6))]
    k, d, L, bs = params(r)
    kw = dict(dim=d, n_actions=k, len_list=L, batch_size=bs)
    seed = int(r.integers(10**4))
    p, q, o = make(which, random_state=seed, **kw), make(which, random_state=seed, **kw), make(which, random_state=seed + 1, **kw)
    s0 = int(r.integers(10**6))

    def drive(pol, T, other=None):
        g = np.random.default_rng(s0)
        out = []
        for t in range(T):
            out.append(tuple(int(v) for v in pol.select_action(g.normal(size=(1, d)))))
            for _ in range(int(g.integers(0, 3))):
                pol.update_params(int(g.integers(k)), int(g.random() < 0.5), g.normal(size=(1, d)))
            if other is not None:
                other.select_action(np.ones((1, d)))
                other.update_params(t % k, 1, np.ones((1, d)))
        return out

    T = 45
    first = drive(p, T)
    lab = f"{which} d={d} k={k} L={L} batch={bs}"
    mon.check(drive(q, T, other=o) == first, "seed", f"{lab}: equal seeds, different runs (or state shared with another policy)")
    p.initialize()
    mon.ev("reinit")
    again = drive(p, T)
    j = next((i for i in range(T) if again[i] != first[i]), None)
    mon.check(j is None, "reinit", lambda: f"{lab}: after initialize() step {j} selects {again[j]}, a fresh policy selects {first[j]}")
    mon.sig("reinit", which, d, k, L, bs)


def _rejects(r, case, mon):
    import obp.policy as P

    mon.raises(lambda: P.LinUCB(dim=2, n_actions=3, epsilon=-0.1), "rejects", "negative exploration")
    mon.raises(lambda: P.LinEpsilonGreedy(dim=2, n_actions=3, epsilon=1.5), "rejects", "epsilon above one")
    mon.raises(lambda: P.LogisticUCB(dim=2, n_actions=3, epsilon=-1.0), "rejects", "negative exploration")
    mon.raises(lambda: P.LogisticTS(dim=2, n_actions=3, lambda_=0.0), "rejects", "zero regularisation")
    mon.raises(lambda: P.LogisticTS(dim=2, n_actions=3, alpha_=-1.0), "rejects", "negative alpha_")
    mon.raises(lambda: P.LinTS(dim=0, n_actions=3), "rejects", "no dimensions")
    mon.raises(lambda: P.LinTS(dim=2, n_actions=3, len_list=4), "rejects", "list longer than the number of actions")
    mon.raises(lambda: P.LinUCB(dim=2, n_actions=3).select_action(np.ones((2, 2))), "rejects", "two contexts")
    mon.sig("rejects")


def _partial(r, case, mon):
    """feedback of an incomplete batch is invisible: the same choices with and without it"""
    which = ["LinEpsilonGreedy", "LinUCB", "LinTS", "LogisticEpsilonGreedy", "LogisticUCB", "LogisticTS"][int(r.integers(6))]
    k, d, L, _ = params(r)
    bs = int(r.choice([2, 3, 5, 8]))
    seed = int(r.integers(10**4))
    p, q = (make(which, random_state=seed, dim=d, n_actions=k, len_list=L, batch_size=bs) for _ in range(2))
    for rep in range(5):
        batch = [(int(r.integers(k)), int(r.random() < 0.5), r.normal(size=(1, d)) * 2) for _ in range(bs)]
        cut = int(r.integers(1, bs))
        for a, y, x in batch[:cut]:
            p.update_params(a, y, x)
        mon.ev("partial")
        for t in range(10):
            z = r.normal(size=(1, d))
            u, v = p.select_action(z), q.select_action(z)
            if not mon.check(np.array_equal(u, v), "partial", f"{which} d={d} k={k} L={L} batch={bs}: {cut} rewards of an incomplete batch turn {v} into {u}"):
                return
        for a, y, x in batch[cut:]:
            p.update_params(a, y, x)
        for a, y, x in batch:
            q.update_params(a, y, x)
    mon.sig("partial", which, d, k, L, bs)
