"""C22: context-free online policies follow their stated rule over any history of selections and updates."""
import math

import numpy as np
from scipy import stats

from .. import stat

RULE = ("EpsilonGreedy, Random and BernoulliTS x actions x list length x batch size x epsilon / priors, driven through random interleavings of selections, updates and re-initialisations; a shadow "
        "model recomputes what the policy may know after the last complete batch; non-trivial: distinct configurations")
ASSUMPTIONS = ["statistical oracles have false-alarm probability below 1e-10 each", "rewards of BernoulliTS are 0 or 1"]
BUDGET = dict(quick=250, thorough=2400)
REQUIRED = ["greedy", "explore", "eps0", "eps1", "batched", "reinit", "ts", "ts-second", "ts-dist", "random-dist", "stat-tests", "zozo", "untried", "posterior", "unknown", "partial", "wide", "one-prior", "few-sims"]


def cases(rng, tier):
    m = 3 if tier == "quick" else 15
    for _ in range(120 * m):
        yield dict(kind="greedy")
    for _ in range(40 * m):
        yield dict(kind="explore")
    for _ in range(60 * m):
        yield dict(kind="ts")
    for _ in range(30 * m):
        yield dict(kind="reinit")
    for _ in range(60 * m):
        yield dict(kind="posterior")
    for _ in range(10 * m):
        yield dict(kind="batchdist")
    for _ in range(9 * m):
        yield dict(kind="zozo")
    for _ in range(24 * m):
        yield dict(kind="unknown")
    for _ in range(40 * m):
        yield dict(kind="partial")
    for _ in range(30 * m):
        yield dict(kind="wide")


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


class Shadow:
    def __init__(self, k, bs):
        self.k, self.bs, self.h, self.t = k, bs, [], 0

    def update(self, a, rew):
        self.h.append((a, rew))

    def known(self):
        n = len(self.h) // self.bs * self.bs
        c, s = np.zeros(self.k), np.zeros(self.k)
        for a, rew in self.h[:n]:
            c[a] += 1
            s[a] += rew
        return c, s


def valid_list(mon, sel, k, L, lab):
    sel = np.asarray(sel)
    ok = sel.shape == (L,) and np.issubdtype(sel.dtype, np.integer) and len(set(sel.tolist())) == L and (sel >= 0).all() and (sel < k).all()
    return mon.check(ok, "list", f"{lab}: {sel} is not a list of {L} different actions")


def params(r):
    k = int(r.choice([2, 3, 5, 10]))
    L = int(min(k, r.choice([1, 1, 2, 3])))
    bs = int(r.choice([1, 1, 2, 5, 7]))
    return k, L, bs


def is_greedy(sel, v):
    """a list of the len(sel) actions with the highest values, best first"""
    top = np.sort(v)[::-1][: len(sel)]
    return np.allclose(v[np.asarray(sel)], top, rtol=1e-12, atol=1e-12)


def step_rewards(r):
    return [lambda: float(r.random() < 0.4), lambda: int(r.random() < 0.4), lambda: float(r.normal()), lambda: -float(r.integers(0, 3)), lambda: float(r.random())][int(r.integers(5))]


def _greedy(r, case, mon):
    """epsilon = 0: deterministic once every action is known"""
    from obp.policy import EpsilonGreedy

    k, L, bs = params(r)
    p = EpsilonGreedy(n_actions=k, len_list=L, batch_size=bs, random_state=int(r.integers(10**4)), epsilon=0.0)
    sh = Shadow(k, bs)
    rw = step_rewards(r)
    lab = f"eps=0 k={k} L={L} batch={bs}"
    mon.ev("eps0")
    if bs > 1:
        mon.ev("batched")
    T = int(r.choice([40, 120]))
    skew = r.dirichlet(np.ones(k) * 0.5) * 0.8 + 0.2 / k
    for t in range(T):
        if r.random() < 0.6:
            sel = p.select_action()
            if not valid_list(mon, sel, k, L, lab):
                return
            c, s = sh.known()
            if c.min() > 0:
                mon.ev("greedy")
                if not mon.check(is_greedy(sel, s / c), "greedy", f"{lab} step {t}: {sel} chosen, mean rewards after the last complete batch {s / c}"):
                    return
            else:
                mon.ev("untried")
        for _ in range(int(r.choice([0, 1, 1, 3]))):
            a = int(r.choice(k, p=skew)) if r.random() < 0.5 else int(r.integers(k))
            if r.random() < 0.3:
                a = np.int64(a)
            y = rw()
            p.update_params(a, y)
            sh.update(int(a), y)
    mon.sig("greedy", k, L, bs)


def _explore(r, case, mon):
    from obp.policy import EpsilonGreedy, Random

    k, L, bs = params(r)
    k = min(k, 5)
    L = min(L, k)
    eps = float(r.choice([0.1, 0.3, 0.7, 1.0]))
    rnd = eps == 1.0 and r.random() < 0.5
    kw = dict(n_actions=k, len_list=L, batch_size=bs, random_state=int(r.integers(10**4)))
    p = Random(**kw) if rnd else EpsilonGreedy(epsilon=eps, **kw)
    if eps == 1:
        mon.ev("eps1")
    lab = f"eps={eps} k={k} L={L} batch={bs} {'Random' if rnd else ''}"
    sh = Shadow(k, bs)
    rw = step_rewards(r)
    T = 1500
    lists, greedy, pg, P1, P2 = [], [], [], [], []
    late = int(r.integers(0, 300))
    v, c = None, np.zeros(k)
    n_lists = math.perm(k, L)
    for t in range(T):
        sel = p.select_action()
        if not valid_list(mon, sel, k, L, lab):
            return
        if v is not None:
            top = np.argsort(-v, kind="stable")[:L]
            # several rankings are greedy only when values are tied: then any of them
            ties = len(set(np.round(v, 12))) < k
            if ties:
                greedy.append(0.0)
                pg.append(0.0)
            else:
                greedy.append(float(np.array_equal(sel, top)))
                pg.append((1 - eps) + eps / n_lists)
                P1.append((int(sel[0]), (1 - eps) * (np.arange(k) == top[0]) + eps / k))
                if L > 1:
                    P2.append((int(sel[1]), (1 - eps) * (np.arange(k) == top[1]) + eps / k))
        else:
            P1.append((int(sel[0]), np.full(k, 1 / k)))
            if L > 1:
                P2.append((int(sel[1]), np.full(k, 1 / k)))
        if t >= late or r.random() < 0.5:
            a = int(r.integers(k)) if r.random() < 0.5 else int(sel[0])
            if t < late and a == 0:
                a = 1  # action 0 stays untried for a while
            y = rw()
            p.update_params(a, y)
            sh.update(a, y)
            if len(sh.h) % bs == 0:
                c, s = sh.known()
                v = s / c if c.min() > 0 else None
    mon.ev("explore", T)
    greedy, pg = np.array(greedy), np.array(pg)
    if len(pg):
        stat.mean_zero(mon, greedy - pg, pg * (1 - pg), 1.0, "greedy-share", f"{lab}: greedy lists")
    for nm, Q in (("first", P1), ("second", P2)):
        if Q:
            stat.categorical(mon, np.array([q[0] for q in Q]), np.array([q[1] for q in Q]), "explore-" + nm, f"{lab}: {nm} action", [np.where(np.arange(len(Q)) % 3 == 0, 1.0, -0.5)])
    if L > 1 and eps == 1.0:
        # all ordered lists are equally likely
        sel2 = np.array([q[0] for q in P1]) * k + np.array([q[0] for q in P2])
        code = {a * k + b: i for i, (a, b) in enumerate((a, b) for a in range(k) for b in range(k) if a != b)}
        stat.categorical(mon, np.array([code[v] for v in sel2]), np.full((len(sel2), len(code)), 1 / len(code)), "explore-lists", lab)
    if rnd:
        n = int(r.choice([1, 4]))
        D = np.asarray(p.compute_batch_action_dist(n_rounds=n))
        mon.ev("random-dist")
        mon.close(D, np.full((n, k, L), 1 / k), "random-dist", lab)
    mon.sig("explore", k, L, bs, eps, rnd)
    mon.note(config=lab, selections=T, greedy_share=float(greedy.mean()) if len(greedy) else None)


def argmax_probs(a, b):
    """P(action i has the highest draw), and P(i first, j second), for independent Beta draws"""
    x = np.linspace(0, 1, 4001)
    # integrate over quantiles of each distribution
    u = (np.arange(4000) + 0.5) / 4000
    k = len(a)
    F = [stats.beta(a[i], b[i]) for i in range(k)]
    first = np.zeros(k)
    second = np.zeros((k, k))
    for i in range(k):
        q = F[i].ppf(u)
        C = np.array([F[j].cdf(q) for j in range(k)])
        o = [j for j in range(k) if j != i]
        first[i] = np.prod(C[o], 0).mean()
        # i is second, j first
        for j in o:
            rest = [l for l in o if l != j]
            second[j, i] = ((1 - C[j]) * (np.prod(C[rest], 0) if rest else 1.0)).mean()
    return first, second


def _ts(r, case, mon):
    from obp.policy import BernoulliTS

    k = int(r.choice([2, 3, 4]))
    L = int(min(k, r.choice([1, 2, 3, 4])))
    bs = int(r.choice([1, 1, 2, 5]))
    al = be = None
    if r.random() < 0.6:
        al, be = r.uniform(0.5, 8, k), r.uniform(0.5, 8, k)
        if r.random() < 0.2:
            al = r.uniform(0.05, 0.3, k)
        if r.random() < 0.25:  # priors may be given one at a time
            mon.ev("one-prior")
            al, be = (al * 3, None) if r.random() < 0.5 else (None, be * 3)
        if r.random() < 0.3:
            al, be = (None if q is None else [float(v) for v in q] for q in (al, be))
    p = BernoulliTS(n_actions=k, len_list=L, batch_size=bs, random_state=int(r.integers(10**4)), alpha=al, beta=be)
    sh = Shadow(k, bs)
    q = r.random(k)
    lab = f"BernoulliTS k={k} L={L} batch={bs} prior={'default' if al is None and be is None else 'given'}"
    A = np.asarray(al if al is not None else np.ones(k), float)
    B = np.asarray(be if be is not None else np.ones(k), float)
    if bs > 1:
        mon.ev("batched")
    for phase in range(3):
        for _ in range(int(r.choice([0, 3, 12, 40]))):
            a = int(r.integers(k))
            y = [float(r.random() < q[a]), int(r.random() < q[a])][int(r.integers(2))]
            p.update_params(a, y)
            sh.update(a, y)
            if r.random() < 0.2:
                p.select_action()
        c, s = sh.known()
        f, sec = argmax_probs(A + s, B + c - s)
        f = f / f.sum()
        N = 1500
        sel = np.array([p.select_action() for _ in range(N)])
        if not all(valid_list(mon, v, k, L, lab) for v in sel[:20]):
            return
        mon.ev("ts")
        stat.categorical(mon, sel[:, 0], np.tile(f, (N, 1)), "ts-first", f"{lab}: after {len(sh.h)} updates", [np.where(np.arange(N) % 2, 1.0, -1.0)])
        if L > 1:
            mon.ev("ts-second")
            w = sec.sum(0) / sec.sum()
            stat.categorical(mon, sel[:, 1], np.tile(w, (N, 1)), "ts-second", f"{lab}: after {len(sh.h)} updates")
        if L == k == 3:
            w3 = np.clip(1 - f - w, 1e-12, None)
            stat.categorical(mon, sel[:, 2], np.tile(w3 / w3.sum(), (N, 1)), "ts-third", f"{lab}: after {len(sh.h)} updates")
    if r.random() < 0.3:
        mon.ev("ts-dist")
        n, sim = int(r.choice([1, 3])), 2000
        D = np.asarray(p.compute_batch_action_dist(n_rounds=n, n_sim=sim))
        if mon.check(D.shape == (n, k, L), "ts-dist", f"{lab}: shape {D.shape}"):
            mon.close(D.sum(1), np.ones((n, L)), "ts-dist", f"{lab}: not distributions")
            for i in range(n):
                mon.check(np.array_equal(D[i], D[0]), "ts-dist", f"{lab}: rounds differ")
            for a in range(k):
                lim = stat.bern_bound(sim * f[a] * (1 - f[a]), 1.0)
                mon.check(abs(D[0, a, 0] - f[a]) * sim <= lim, "ts-dist", f"{lab}: estimated probability of {a} is {D[0, a, 0]}, exact {f[a]}")
                if L > 1:
                    w = sec.sum(0) / sec.sum()
                    if L == k == 3:
                        w3 = max(1 - f[a] - w[a], 0)
                        mon.check(abs(D[0, a, 2] - w3) * sim <= stat.bern_bound(sim * w3 * (1 - w3), 1.0), "ts-dist", f"{lab}: estimated probability of {a} at position 2 is {D[0, a, 2]}, exact {w3}")
                    mon.check(abs(D[0, a, 1] - w[a]) * sim <= stat.bern_bound(sim * w[a] * (1 - w[a]), 1.0), "ts-dist", f"{lab}: estimated probability of {a} at position 1 is {D[0, a, 1]}, exact {w[a]}")
    mon.sig("ts", k, L, bs, al is None)
    mon.note(config=lab, exact_first=f, observed_first=np.bincount(sel[:, 0], minlength=k) / N)


def _posterior(r, case, mon):
    """after any history, the policy draws exactly as a fresh one whose prior is the posterior given the complete batches"""
    from obp.policy import BernoulliTS

    k, L, bs = params(r)
    seed = int(r.integers(10**4))
    A, B = r.integers(2, 40, k) / 4, r.integers(2, 40, k) / 4
    if r.random() < 0.4:  # weak priors: the posterior is dominated by the data
        A, B = A / 512, B / 512
    p = BernoulliTS(n_actions=k, len_list=L, batch_size=bs, random_state=seed, alpha=A.copy(), beta=B.copy())
    sh = Shadow(k, bs)
    for _ in range(int(r.integers(0, 60))):
        a, y = int(r.integers(k)), float(r.random() < 0.4)
        p.update_params(a, y)
        sh.update(a, y)
    c, s = sh.known()
    q = BernoulliTS(n_actions=k, len_list=L, random_state=seed, alpha=A + s, beta=B + c - s)
    mon.ev("posterior")
    for t in range(30):
        u, v = p.select_action(), q.select_action()
        if not mon.check(np.array_equal(u, v), "posterior", f"BernoulliTS k={k} L={L} batch={bs}, {len(sh.h)} updates: draw {t} selects {u}, under the posterior of the complete batches {v}"):
            return
    mon.sig("posterior", k, L, bs)


def make(r, which, k, L, bs, seed):
    from obp.policy import BernoulliTS, EpsilonGreedy, Random

    kw = dict(n_actions=k, len_list=L, batch_size=bs, random_state=seed)
    if which == "eg":
        return EpsilonGreedy(epsilon=0.4, **kw)
    if which == "random":
        return Random(**kw)
    return BernoulliTS(alpha=np.arange(1, k + 1.0), beta=np.ones(k) * 2, **kw)


def _reinit(r, case, mon):
    """after initialize() a policy repeats a fresh policy exactly; equal seeds give equal runs; two policies do not share state"""
    which = str(r.choice(["eg", "random", "ts"]))
    k, L, bs = params(r)
    seed = int(r.integers(10**4))
    p, q, o = make(r, which, k, L, bs, seed), make(r, which, k, L, bs, seed), make(r, which, k, L, bs, seed + 1)
    s0 = int(r.integers(10**6))

    def drive(pol, seed2, T, other=None):
        g = np.random.default_rng(seed2)
        out = []
        for t in range(T):
            out.append(tuple(int(v) for v in pol.select_action()))
            for _ in range(int(g.integers(0, 3))):
                pol.update_params(int(g.integers(k)), float(g.random() < 0.5))
            if other is not None:
                other.select_action()
                other.update_params(int(t % k), 1.0)
        return out

    T = 60
    first = drive(p, s0, T)
    mon.check(drive(q, s0, T, other=o) == first, "seed", f"{which} k={k} L={L} batch={bs}: equal seeds, different runs (or state shared with another policy)")
    p.initialize()
    mon.ev("reinit")
    again = drive(p, s0, T)
    d = next((i for i in range(T) if again[i] != first[i]), None)
    mon.check(d is None, "reinit", lambda: f"{which} k={k} L={L} batch={bs}: after initialize() step {d} selects {again[d]}, a fresh policy selects {first[d]}")
    mon.sig("reinit", which, k, L, bs)


def _batchdist(r, case, mon):
    """computing the choice probabilities teaches the policy nothing"""
    from obp.policy import BernoulliTS

    k = int(r.choice([3, 5]))
    L = int(r.integers(1, k + 1))
    p = BernoulliTS(n_actions=k, len_list=L, random_state=int(r.integers(10**4)))
    for _ in range(30):
        a = int(r.integers(k))
        p.update_params(a, float(r.random() < 0.2 + 0.3 * a))
    few = int(r.choice([1, 3, 7, 50]))
    E = np.asarray(p.compute_batch_action_dist(n_rounds=1, n_sim=few))
    mon.ev("few-sims")
    mon.close(E.sum(1), np.ones((1, L)), "ts-dist", f"n_sim={few}: not distributions")
    mon.close(E * few, np.round(E * few), "ts-dist", f"n_sim={few}: not shares of {few} draws", atol=1e-9)
    before = (np.array(p.action_counts), np.array(p.reward_counts), p.n_trial)
    D = p.compute_batch_action_dist(n_rounds=2, n_sim=300)
    mon.ev("ts-dist")
    mon.check(np.array_equal(before[0], p.action_counts) and np.array_equal(before[1], p.reward_counts) and before[2] == p.n_trial, "ts-dist-pure", "compute_batch_action_dist changed the counts")
    mon.close(np.asarray(D).sum(1), np.ones((2, L)), "ts-dist", "not distributions")
    mon.sig("batchdist", L)


ZOZO = dict(all=(80,), men=(34,), women=(46,))


def _zozo(r, case, mon):
    """the production prior is that of the configuration file, whatever the policies learned before"""
    import pathlib

    import yaml

    import obp.policy
    from obp.policy import BernoulliTS

    prior = yaml.safe_load((pathlib.Path(obp.policy.__file__).parent / "conf" / "prior_bts.yaml").read_text())
    camp = str(r.choice(["all", "men", "women"]))
    k = ZOZO[camp][0]
    bs, L = int(r.choice([1, 4])), int(r.choice([1, 3]))
    mon.ev("zozo")
    for life in range(3):
        s = int(r.integers(10**4))
        p = BernoulliTS(n_actions=k, len_list=L, batch_size=bs, random_state=s, is_zozotown_prior=True, campaign=camp, alpha=np.ones(k), beta=np.ones(k))
        q = BernoulliTS(n_actions=k, len_list=L, batch_size=bs, random_state=s, alpha=np.array(prior[camp]["alpha"], float), beta=np.array(prior[camp]["beta"], float))
        for again in range(2):
            for t in range(120):
                a, b = p.select_action(), q.select_action()
                if not mon.check(np.array_equal(a, b), "zozo", f"{camp} batch={bs}: policy {life}, run {again}, step {t} selects {a}, the prior of the campaign selects {b}"):
                    return
                p.update_params(int(a[0]), float(t % 2))
                q.update_params(int(a[0]), float(t % 2))
            p.initialize()
            q.initialize()
    mon.raises(lambda: BernoulliTS(n_actions=k, is_zozotown_prior=True), "rejects", "production prior without a campaign")
    mon.sig("zozo", camp, bs, L)


def _unknown(r, case, mon):
    """as long as the complete batches do not cover every action, lists are uniform, whatever the current batch has seen"""
    from obp.policy import EpsilonGreedy

    k = int(r.choice([2, 3, 5]))
    L = int(r.integers(1, k + 1))
    bs = int(r.choice([3, 5, 8]))
    eps = float(r.choice([0.0, 0.0, 0.2]))
    p = EpsilonGreedy(n_actions=k, len_list=L, batch_size=bs, random_state=int(r.integers(10**4)), epsilon=eps)
    miss = int(r.integers(k))
    others = [a for a in range(k) if a != miss]
    full = int(r.integers(0, 4))
    for _ in range(full * bs):
        p.update_params(int(r.choice(others)), float(r.random() < 0.5))
    # the current batch sees every action but stays incomplete
    for a in (list(range(k)) * bs)[-(min(bs - 1, max(k, 1))):]:
        p.update_params(a, 1.0)
    lab = f"EpsilonGreedy eps={eps} k={k} L={L} batch={bs}: action {miss} unseen in the {full} complete batches"
    N = 600
    sel = np.array([p.select_action() for _ in range(N)])
    mon.ev("untried")
    mon.ev("unknown")
    for j in range(L):
        stat.categorical(mon, sel[:, j], np.full((N, k), 1 / k), "unknown", f"{lab}: position {j}")
    mon.sig("unknown", k, L, bs, eps, full > 0)


def _partial(r, case, mon):
    """feedback of an incomplete batch is invisible: the same choices with and without it"""
    which = str(r.choice(["eg", "ts"]))
    k, L, _ = params(r)
    bs = int(r.choice([2, 3, 5, 8]))
    seed = int(r.integers(10**4))
    p, q = make(r, which, k, L, bs, seed), make(r, which, k, L, bs, seed)
    for rep in range(6):
        batch = [(int(r.integers(k)), float(r.random() < 0.5)) for _ in range(bs)]
        cut = int(r.integers(1, bs))
        for a, y in batch[:cut]:
            p.update_params(a, y)
        mon.ev("partial")
        for t in range(8):
            u, v = p.select_action(), q.select_action()
            if not mon.check(np.array_equal(u, v), "partial", f"{which} k={k} L={L} batch={bs}: {cut} rewards of an incomplete batch turn {v} into {u}"):
                return
        for a, y in batch[cut:]:
            p.update_params(a, y)
        for a, y in batch:
            q.update_params(a, y)
    mon.sig("partial", which, k, L, bs)


def _wide(r, case, mon):
    """hundreds of actions, long lists"""
    from obp.policy import BernoulliTS, EpsilonGreedy

    k = int(r.choice([130, 300]))
    L = int(r.choice([1, 5, k]))
    which = str(r.choice(["eg", "ts"]))
    kw = dict(n_actions=k, len_list=L, random_state=int(r.integers(10**4)))
    p = EpsilonGreedy(epsilon=0.0, **kw) if which == "eg" else BernoulliTS(**kw)
    v = r.permutation(k) / k
    lab = f"{which} k={k} L={L}"
    mon.ev("wide")
    for a in r.permutation(k):
        if which == "eg":
            p.update_params(int(a), float(v[a]))
            continue
        for _ in range(40):  # a clearly best and a clearly worst half
            p.update_params(int(a), float(v[a] >= 0.5))
    for _ in range(3):
        sel = p.select_action()
        if not valid_list(mon, sel, k, L, lab):
            return
        if which == "eg":
            mon.check(is_greedy(sel, v), "greedy", f"{lab}: {sel[:5]} chosen, best first {np.argsort(-v)[:5]}")
        else:
            h = np.asarray(sel)[: min(L, k // 2)]
            mon.check((v[h] >= 0.5).all(), "wide", f"{lab}: actions without a single success are ranked above actions that always succeed")
    mon.sig("wide", which, k, L)
