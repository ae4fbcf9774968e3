"""C06: marginalized (embedding based) estimators and their embedding selection equal the published statistic."""
import itertools
import math

import numpy as np
from scipy import stats
from sklearn.base import BaseEstimator, ClassifierMixin

from .. import gen, ref

RULE = ("random logs with categorical action embeddings (n 2..120, 1..4 embedding dimensions, deficient logging policies, several list "
        "positions) x {MIPW, SNMIPW} x {no selection, exact, greedy} x {true p(e|a), fitted classifier}; the fitted classifier is a spy that "
        "returns the empirical frequencies per distinct (context, embedding); non-trivial: distinct (estimator, selection, weights, number "
        "of dimensions, which candidate was selected)")
ASSUMPTIONS = ["relative tolerance 1e-7; selection outcomes within 1e-9 of an acceptance threshold or of an ordering tie are not judged"]
BUDGET = dict(quick=200, thorough=2400)
REQUIRED = [f"{e}:{s}:{w}" for e in ("mipw", "snmipw") for s in ("None", "exact", "greedy") for w in ("true", "fitted")] + [
    "selected-smaller", "selection-stopped", "unlogged-action", "pipeline", "reused"]
C = math.sqrt(6) - 1


def weight(a, tilt):
    """A classifier may find some of the logged actions very unlikely."""
    return 10.0 ** (-tilt * (int(a) * 7 % 3))


class GroupFrequency(ClassifierMixin, BaseEstimator):
    """P(a | row of X) by counting: any injective encoding of (context, embedding) gives the same result."""

    def __init__(self, tilt=0.0):
        self.tilt = tilt

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        self.t_ = {}
        for row, a in zip(np.asarray(X), y):
            self.t_.setdefault(row.tobytes(), []).append(a)
        return self

    def predict_proba(self, X):
        out = np.zeros((len(X), len(self.classes_)))
        for i, row in enumerate(np.asarray(X)):
            ys = self.t_[row.tobytes()]
            for j, c in enumerate(self.classes_):
                out[i, j] = sum(1 for y in ys if y == c) * weight(c, self.tilt)
        return out / out.sum(1, keepdims=True)

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]


def cases(rng, tier):
    for _ in range(1200 if tier == "quick" else 5000):
        yield dict(kind="random")
    for _ in range(20 if tier == "quick" else 60):
        yield dict(kind="pipeline")


def w_true(d, dims):
    out = []
    for i in range(d["n"]):
        l = ref.pos_of(d["position"], i)
        num = den = 1.0
        for j in dims:
            e = int(d["embed"][i, j])
            num *= math.fsum(float(d["action_dist"][i, a, l]) * float(d["p_e_a"][a, e, j]) for a in range(d["k"]))
            den *= math.fsum(float(d["pi_b"][i, a, l]) * float(d["p_e_a"][a, e, j]) for a in range(d["k"]))
        out.append(num / den)
    return out


def w_fitted(d, dims):
    groups = {}
    keys = []
    for i in range(d["n"]):
        key = (d["context"][i].tobytes(), tuple(int(d["embed"][i, j]) for j in dims))
        keys.append(key)
        groups.setdefault(key, []).append(int(d["action"][i]))
    out = []
    for i in range(d["n"]):
        l = ref.pos_of(d["position"], i)
        g = groups[keys[i]]
        t = 0.0
        tot = math.fsum(weight(a, d.get("tilt", 0)) for a in g)
        for a in set(g):
            b = float(d["pi_b"][i, a, l])
            if b > 0:
                t += float(d["action_dist"][i, a, l]) / b * g.count(a) * weight(a, d.get("tilt", 0)) / tot
        out.append(t)
    return out


def terms(d, sn, fitted, dims):
    w = w_fitted(d, dims) if fitted else w_true(d, dims)
    m = ref.fmean(w) if sn else 1.0
    if m <= 0:
        return None
    return [float(d["reward"][i]) * w[i] / m for i in range(d["n"])]


def stat(d, sn, fitted, dims, delta):
    t = terms(d, sn, fitted, dims)
    if t is None:
        raise ZeroDivisionError
    cnf = math.sqrt(ref.pvar(t) / (d["n"] - 1)) * stats.t.ppf(1 - delta / 2, d["n"] - 1)
    return ref.fmean(t), cnf


def level(cands, acc, tol):
    """Visit the candidates by decreasing deviation; -> (still going, last visited, ambiguous)."""
    order = sorted(range(len(cands)), key=lambda i: -cands[i][1])
    amb = any(abs(cands[a][1] - cands[b][1]) <= tol for a, b in zip(order, order[1:]))
    last = None
    for i in order:
        th, cnf = cands[i][:2]
        last = i
        ok = True
        for thj, cnfj in acc:
            gap = abs(thj - th) - (cnf + C * cnfj)
            amb |= abs(gap) <= tol
            ok &= gap <= 0
        if not ok:
            return False, last, amb
        acc.append((th, cnf))
    return True, last, amb


def select(d, sn, fitted, method, min_dim, delta):
    D = d["embed"].shape[1]
    full = tuple(range(D))
    acc = [stat(d, sn, fitted, full, delta)]
    tol = 1e-9 * max(abs(acc[0][0]), abs(acc[0][1]), 1e-12)
    amb, stopped = False, False
    if method == "exact":
        for size in range(D - 1, min_dim - 1, -1):
            cands = [stat(d, sn, fitted, c, delta) for c in itertools.combinations(full, size)]
            go, _, a = level(cands, acc, tol)
            amb |= a
            if not go:
                stopped = True
                break
    else:
        cur = list(full)
        while len(cur) > min_dim:
            cands = [stat(d, sn, fitted, tuple(x for x in cur if x != e), delta) for e in cur]
            go, last, a = level(cands, acc, tol)
            amb |= a
            if not go:
                stopped = True
                break
            cur.pop(last)
    return acc[-1][0], len(acc), stopped, amb


def make(r):
    n = int(r.choice([2, 3, 8, 30, 80, 120]))
    k = int(r.choice([2, 3, 6]))
    L = int(r.choice([1, 1, 3]))
    D = int(r.choice([1, 2, 3, 4]))
    ncat = int(r.choice([2, 3, 5]))
    d = dict(n=n, k=k, L=L, tilt=float(r.choice([0.0, 0.0, 1.0, 4.0])))
    d["pi_b"] = gen.dist(r, n, k, L, str(r.choice(["dirichlet", "sparse", "uniform", "peaked"])))
    d["action_dist"] = gen.dist(r, n, k, L)
    d["position"] = None if (L == 1 and r.random() < 0.5) else r.integers(L, size=n)
    d["p_e_a"] = np.stack([gen.dist(r, k, ncat, 1, "dirichlet")[:, :, 0] for _ in range(D)], axis=2)
    act, emb = [], []
    for i in range(n):
        l = ref.pos_of(d["position"], i)
        a = int(r.choice(k, p=d["pi_b"][i, :, l]))
        act.append(a)
        emb.append([int(r.choice(ncat, p=d["p_e_a"][a, :, j])) for j in range(D)])
    d["action"], d["embed"] = np.array(act), np.array(emb)
    if r.random() < 0.3 and D > 1:
        d["embed"][:, 1] = d["embed"][:, 0]
    d["context"] = r.integers(0, 3, size=(n, 2)).astype(float)
    mix = r.random()
    d["reward"] = gen.rewards(r, n) if mix < 0.5 else d["embed"][:, 0] * r.choice([1.0, 5.0, 50.0]) + r.normal(size=n) * r.choice([0.01, 1.0])
    return d, D


def run_case(case, mon):
    import obp.ope as o

    r = np.random.default_rng(case["seed"])
    if case["kind"] == "pipeline":
        import obp.dataset as ds

        data = ds.SyntheticBanditDatasetWithActionEmbeds(n_actions=int(r.choice([3, 8])), dim_context=2, n_cat_dim=3, n_cat_per_dim=3,
                                                         latent_param_mat_dim=2, random_state=int(r.integers(10000)))
        f = data.obtain_batch_bandit_feedback(n_rounds=60)
        d = dict(n=60, k=f["n_actions"], L=1, pi_b=f["pi_b"], action_dist=gen.dist(r, 60, f["n_actions"], 1), position=f["position"],
                 p_e_a=f["p_e_a"], action=f["action"], embed=f["action_embed"], context=np.round(f["context"]), reward=f["reward"])
        D = 3
        mon.ev("pipeline")
    else:
        d, D = make(r)
    other = None
    if case["kind"] == "random" and r.random() < 0.4:
        other = make(r)[0]
        if other["k"] != d["k"]:
            other = None
    if len(set(d["action"].tolist())) < d["k"]:
        mon.ev("unlogged-action")
    for name, sn in (("mipw", False), ("snmipw", True)):
        cls = o.SelfNormalizedMarginalizedInverseProbabilityWeighting if sn else o.MarginalizedInverseProbabilityWeighting
        for method in (None, "exact", "greedy"):
            for fitted in (False, True):
                min_dim = int(r.integers(1, D + 1)) if r.random() < 0.6 else 1
                delta = float(r.choice([0.05, 0.3, 0.9]))
                kw = dict(reward=d["reward"], action=d["action"], action_embed=d["embed"], pi_b=d["pi_b"], action_dist=d["action_dist"],
                          position=d["position"], context=d["context"])
                if not fitted:
                    kw["p_e_a"] = d["p_e_a"]
                try:
                    if method is None:
                        t = terms(d, sn, fitted, range(D))
                        if t is None:
                            continue
                        want, info, sc = ref.fmean(t), None, ref.scale(t)
                    else:
                        want, nacc, stopped, amb = select(d, sn, fitted, method, min_dim, delta)
                        if amb or not math.isfinite(want):
                            mon.ev("ambiguous-selection")
                            continue
                        t = terms(d, sn, fitted, range(D))
                        sc = max(ref.scale(t), abs(want))
                        info = (nacc, stopped)
                        mon.ev("selected-smaller", int(nacc > 1))
                        mon.ev("selection-stopped", int(stopped))
                except ZeroDivisionError:
                    continue
                est = cls(n_actions=d["k"], pi_a_x_e_estimator=GroupFrequency(d.get("tilt", 0.0)), embedding_selection_method=method, min_emb_dim=min_dim, delta=delta)
                if other is not None and other["embed"].shape[1] >= min_dim and r.random() < 0.5:  # the same object saw another log before
                    f_ = dict(reward=other["reward"], action=other["action"], action_embed=other["embed"], pi_b=other["pi_b"], action_dist=other["action_dist"],
                              position=other["position"], context=other["context"])
                    est.estimate_policy_value(**(f_ if fitted else dict(f_, p_e_a=other["p_e_a"])))
                    mon.ev("reused")
                got = est.estimate_policy_value(**kw)
                mon.ev(f"{name}:{method}:{'fitted' if fitted else 'true'}")
                mon.close(float(got), want, name, f"{name} selection={method} fitted={fitted} dims={D} min={min_dim} n={d['n']}", rtol=1e-7,
                          atol=1e-9 * sc + 1e-15)
                if want != 0:
                    mon.sig(name, method, fitted, D, min_dim, info)
                if method is None and abs(np.mean(t)) > 0 and r.random() < 0.2:
                    ci = est.estimate_interval(n_bootstrap_samples=50, random_state=1, **kw)
                    mon.check(min(t) - 1e-9 * sc <= ci["mean"] <= max(t) + 1e-9 * sc, "interval-range", f"{ci} not within [{min(t)}, {max(t)}]")
    mon.note(n=d["n"], k=d["k"], dims=D)
