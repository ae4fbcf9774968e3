"""C14: propensities of synthetic slate policies."""
import math
from itertools import permutations, product

import numpy as np

from .. import stat

RULE = ("slate data sets (factorizable or not, custom/uniform behaviour logits, magnitudes up to 30) and evaluation policies given as logits or as epsilon-mixed "
        "optimal/anti-optimal/random policies; propensities recomputed by enumerating all slates; non-trivial: distinct (kind, actions, slots, factorizable)")
ASSUMPTIONS = ["slates of at most 5 actions and 4 slots for enumeration; up to 120 actions and 12 slots for the closed-form policies"]
BUDGET = dict(quick=240, thorough=2400)
REQUIRED = ["logged", "logits", "epsilon", "large", "action-dist", "stat-tests", "sum-to-one", "uniform", "no-item-position", "clip", "long-slates", "shifted-logits"]


def cases(rng, tier):
    m = 1 if tier == "quick" else 15
    for kind, c in (("logged", 160), ("logits", 160), ("epsilon", 200), ("dist", 120), ("stat", 30), ("long", 80)):
        for _ in range(c * m):
            yield dict(kind=kind)


def smax(z):
    e = np.exp(z - z.max())
    return e / e.sum()


def seq_probs(logit, fact, slate):
    """conditional probability of each action of the slate given the ones above it"""
    avail = list(range(len(logit)))
    out = []
    for a in slate:
        p = smax(logit[avail])
        out.append(p[avail.index(a)])
        if not fact:
            avail.remove(a)
    return out


def slates(k, L, fact):
    return list(product(range(k), repeat=L)) if fact else list(permutations(range(k), L))


def table(logit, fact, L):
    return {s: math.prod(seq_probs(logit, fact, s)) for s in slates(len(logit), L, fact)}


def want(logit, fact, slate, tab=None):
    c = np.cumprod(seq_probs(logit, fact, slate))
    L = len(slate)
    tab = tab or table(logit, fact, L)
    item = [math.fsum(p for s, p in tab.items() if s[l] == slate[l]) for l in range(L)]
    return np.full(L, c[-1]), np.array(item), c


def config(r):
    fact = bool(r.random() < 0.45)
    k = int(r.choice([2, 3, 4, 5]))
    L = int(r.choice([2, 3])) if k > 2 else 2
    if fact and k == 2 and r.random() < 0.5:
        L = 4
    return fact, k, L


def make(r, k, L, fact, **kw):
    import obp.dataset as D

    kw.setdefault("base_reward_function", D.logistic_reward_function)
    return D.SyntheticSlateBanditDataset(n_unique_action=k, len_list=L, is_factorizable=fact, random_state=int(r.integers(10000)), **kw)


def compare(mon, got, logits, act, fact, L, lab, item=True):
    n = len(logits)
    W = [want(logits[i], fact, tuple(int(v) for v in act[i])) for i in range(n)]
    ps, ip, cs = (np.concatenate([w[j] for w in W]) for j in range(3))
    mon.close(got["pscore"], ps, "pscore", f"{lab}: joint propensity", rtol=1e-6, atol=1e-12)
    mon.close(got["pscore_cascade"], cs, "pscore_cascade", f"{lab}: cascade propensity", rtol=1e-6, atol=1e-12)
    if item:
        mon.close(got["pscore_item_position"], ip, "pscore_item_position", f"{lab}: item-position propensity", rtol=1e-6, atol=1e-12)


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


def _logged(r, case, mon, n=None):
    fact, k, L = config(r)
    n = n or int(r.choice([1, 3, 12]))
    dim = int(r.choice([1, 3]))
    sc = float(r.choice([0.0, 1.0, 5.0, 12.0]))
    W = r.normal(size=(dim, k)) * sc
    seen = []
    intp = bool(case["seed"] % 4 == 0)

    def beh(context, action_context, random_state=None, **kw):
        seen.append(context)
        v = context @ W + np.arange(k) * 0.1 * sc
        return np.rint(v).astype(int) if intp else v

    uniform = bool(r.random() < 0.2)
    ds = make(r, k, L, fact, dim_context=dim, behavior_policy_function=None if uniform else beh)
    item = bool(r.random() < 0.8)
    kw = {}
    if item and r.random() < 0.3:
        kw["clip_logit_value"] = 200.0
        mon.ev("clip")
    f = ds.obtain_batch_bandit_feedback(n_rounds=n, return_pscore_item_position=item, **kw)
    lab = f"logged factorizable={fact} k={k} L={L} n={n} scale={sc} uniform={uniform} {kw}"
    mon.ev("logged")
    a = np.asarray(f["action"])
    if not mon.check(a.shape == (n * L,) and a.min() >= 0 and a.max() < k and np.issubdtype(a.dtype, np.integer), "actions", f"{lab}: {a}"):
        return
    A = a.reshape(n, L)
    if not fact:
        mon.check(all(len(set(s)) == L for s in A.tolist()), "no-duplicates", f"{lab}: a slate repeats an action {A.tolist()[:5]}")
    mon.check(np.array_equal(f["slate_id"], np.repeat(np.arange(n), L)) and np.array_equal(f["position"], np.tile(np.arange(L), n)), "ids", f"{lab}: slate_id/position layout")
    mon.check(f["n_rounds"] == n and np.asarray(f["context"]).shape == (n, dim), "metadata", lab)
    if uniform:
        mon.ev("uniform")
    logits = np.zeros((n, k)) if uniform else beh(np.asarray(f["context"]), None)
    compare(mon, f, logits, A, fact, L, lab, item)
    if not item:
        mon.ev("no-item-position")
        mon.check(f["pscore_item_position"] is None, "item-position-absent", f"{lab}: item-position propensities returned though not requested")
    mon.sig("logged", fact, k, L, uniform, item, sc)
    mon.note(config=lab, action=a[:6], pscore=f["pscore"][:6])
    return ds, f, logits


def _long(r, case, mon):
    """slates too long to enumerate whose propensities have a closed form, and item propensities of medium slates"""
    fact = bool(r.random() < 0.5)
    uniform = bool(r.random() < 0.5)
    enum = not fact and not uniform and r.random() < 0.5
    k, L = [(7, 4), (6, 5), (8, 3), (20, 2)][int(r.integers(4))] if enum else (int(r.choice([8, 12, 30, 150])), int(r.choice([5, 6, 7, 8])))
    n, seed = (1 if enum else int(r.choice([2, 6]))), int(r.integers(1000))
    B = r.normal(size=(2, k)) * float(r.choice([0.3, 2.0]))

    def beh(context, action_context, random_state=None, **kw):
        return context @ B

    ds = make(r, k, L, fact, dim_context=2, behavior_policy_function=None if uniform else beh)
    item = enum or fact or uniform
    f = ds.obtain_batch_bandit_feedback(n_rounds=n, return_pscore_item_position=item)
    lab = f"long slates factorizable={fact} k={k} L={L} n={n} uniform={uniform} enumerated={enum}"
    mon.ev("long-slates")
    A = np.asarray(f["action"]).reshape(n, L)
    if not fact:
        mon.check(all(len(set(s)) == L for s in A.tolist()), "no-duplicates", f"{lab}: a slate repeats an action {A.tolist()[:5]}")
    Z = np.zeros((n, k)) if uniform else beh(np.asarray(f["context"]), None)

    def judge(got, Z, A, lab, it):
        cs = np.array([np.cumprod(seq_probs(Z[i], fact, A[i].tolist())) for i in range(n)])
        mon.close(got["pscore_cascade"], cs.ravel(), "pscore_cascade", f"{lab}: cascade propensity", rtol=1e-6, atol=0)
        mon.close(got["pscore"], np.repeat(cs[:, -1], L), "pscore", f"{lab}: joint propensity", rtol=1e-6, atol=0)
        if it:
            if enum:
                ip = np.concatenate([want(Z[i], fact, tuple(A[i].tolist()))[1] for i in range(n)])
            elif fact:
                ip = np.concatenate([smax(Z[i])[A[i]] for i in range(n)])
            else:
                ip = np.full(n * L, 1 / k)
            mon.close(got["pscore_item_position"], ip, "pscore_item_position", f"{lab}: item-position propensity", rtol=1e-6, atol=0)

    judge(f, Z, A, lab, item)
    E = r.normal(size=(n, k)) * float(r.choice([0.0, 1.0, 4.0]))
    it = fact or enum
    ps, ip, cs = ds.obtain_pscore_given_evaluation_policy_logit(action=A.ravel(), evaluation_policy_logit_=E, return_pscore_item_position=it)
    judge(dict(pscore=ps, pscore_cascade=cs, pscore_item_position=ip), E, A, lab + " evaluation logits", it)
    mon.sig("long", fact, k, L, uniform, enum)


def _logits(r, case, mon):
    fact, k, L = config(r)
    ds = make(r, k, L, fact)
    allS = slates(k, L, fact)
    whole = bool(r.random() < 0.5)
    sc = float(r.choice([0.0, 1.0, 6.0, 30.0]))
    if whole:  # one context, every slate: the joint propensities are a distribution over slates
        A = np.array(allS)
        logits = np.tile(r.normal(size=k) * sc, (len(A), 1))
    else:
        n = int(r.choice([1, 4, 15]))
        A = np.array([allS[i] for i in r.integers(len(allS), size=n)])
        logits = r.normal(size=(n, k)) * sc
        if r.random() < 0.3:
            logits = np.round(logits).astype(int)
    shift = int(r.choice([0, 0, 0, -30000, 5000, 10**6]))
    if shift:  # a policy does not change when a constant is added to its logits
        mon.ev("shifted-logits")
        logits = logits + shift
    item = bool(r.random() < 0.8)
    kw = {}
    if item and not shift and r.random() < 0.3:
        kw["clip_logit_value"] = 300.0
    before = logits.copy(), A.copy()
    ps, ip, cs = ds.obtain_pscore_given_evaluation_policy_logit(action=A.ravel(), evaluation_policy_logit_=logits, return_pscore_item_position=item, **kw)
    lab = f"logits factorizable={fact} k={k} L={L} n={len(A)} scale={sc} shift={shift} {kw}"
    mon.ev("logits")
    mon.check(np.array_equal(before[0], logits) and np.array_equal(before[1], A), "inputs", f"{lab}: inputs changed")
    compare(mon, dict(pscore=ps, pscore_item_position=ip, pscore_cascade=cs), logits.astype(float), A, fact, L, lab, item)
    if not item:
        mon.check(ip is None, "item-position-absent", lab)
    if whole:
        mon.ev("sum-to-one")
        mon.close(np.asarray(ps).reshape(-1, L)[:, 0].sum(), 1.0, "slates-sum", f"{lab}: joint propensities of all slates", rtol=1e-7)
        if item:
            I = np.asarray(ip).reshape(-1, L)
            for l in range(L):
                tot = sum(float(I[np.flatnonzero(A[:, l] == a)[0], l]) for a in range(k))
                mon.close(tot, 1.0, "items-sum", f"{lab}: item propensities at slot {l}", rtol=1e-7)
    mon.raises(lambda: ds.obtain_pscore_given_evaluation_policy_logit(action=A.ravel()[:-1], evaluation_policy_logit_=logits), "rejects", f"{lab}: too few actions")
    mon.raises(lambda: ds.obtain_pscore_given_evaluation_policy_logit(action=A.ravel(), evaluation_policy_logit_=logits[:, :-1]), "rejects", f"{lab}: too few logits")
    mon.sig("logits", fact, k, L, whole, item, sc)


def _epsilon(r, case, mon):
    big = bool(r.random() < 0.3)
    fact, k, L = config(r)
    if big:
        k, L = int(r.choice([20, 60, 120])), int(r.choice([5, 9, 10, 12]))
        mon.ev("large")
    n = int(r.choice([1, 5, 30]))
    dim = 2
    W = r.normal(size=(dim, k))

    def base(context, action_context, random_state=None, **kw):
        return 1 / (1 + np.exp(-(context @ W)))

    ds = make(r, k, L, fact, dim_context=dim, base_reward_function=base)
    x = r.normal(size=(n, dim))
    q = base(x, None)
    typ = str(r.choice(["optimal", "anti-optimal", "random"]))
    eps = float(r.choice([0.0, 0.3, 1.0, round(float(r.random()), 3)]))
    A = np.empty((n, L), int)
    best = np.argsort(-q if typ != "anti-optimal" else q, axis=1)
    for i in range(n):
        m = r.integers(4)
        greedy = np.full(L, best[i, 0]) if fact else best[i, :L]
        rnd = r.integers(k, size=L) if fact else r.permutation(k)[:L]
        A[i] = greedy if m == 0 else rnd
        if m == 1:  # agrees with the greedy slate down to some slot
            h = int(r.integers(L))
            rest = list(r.integers(k, size=L)) if fact else [a for a in r.permutation(k) if a not in greedy[:h]]
            A[i] = list(greedy[:h]) + rest[: L - h]
        if m == 2 and not fact:
            A[i] = greedy[::-1]
    ps, ip, cs = ds.generate_evaluation_policy_pscore(evaluation_policy_type=typ, context=x, action=A.ravel(), epsilon=eps)
    lab = f"{typ} eps={eps} factorizable={fact} k={k} L={L} n={n}"
    mon.ev("epsilon")
    rc = np.cumprod([1.0 / (k if fact else k - l) for l in range(L)])
    e = 1.0 if typ == "random" else eps
    W1, W2, W3 = [], [], []
    for i in range(n):
        greedy = np.full(L, best[i, 0]) if fact else best[i, :L]
        m = A[i] == greedy
        for l in range(L):
            W1.append((1 - e) * float(m.all()) + e * rc[-1])
            W2.append((1 - e) * float(m[l]) + e / k)
            W3.append((1 - e) * float(m[: l + 1].all()) + e * rc[l])
    mon.close(ps, W1, "pscore", f"{lab}: joint propensity", rtol=1e-9)
    mon.close(ip, W2, "pscore_item_position", f"{lab}: item-position propensity", rtol=1e-9)
    mon.close(cs, W3, "pscore_cascade", f"{lab}: cascade propensity", rtol=1e-9)
    mon.check(all(np.asarray(v).dtype.kind == "f" for v in (ps, ip, cs)), "dtype", f"{lab}: dtypes {[np.asarray(v).dtype for v in (ps, ip, cs)]}")
    mon.sig("epsilon", typ, eps in (0.0, 1.0), fact, k, L)
    if typ != "random":
        mon.raises(lambda: ds.generate_evaluation_policy_pscore(evaluation_policy_type=typ, context=x, action=A.ravel(), epsilon=1.1), "rejects", "epsilon above 1")
        mon.raises(lambda: ds.generate_evaluation_policy_pscore(evaluation_policy_type=typ, context=x, action=A.ravel()[1:], epsilon=0.5), "rejects", "missing actions")
        if not fact:
            B = A.copy()
            B[0, -1] = B[0, 0]
            mon.raises(lambda: ds.generate_evaluation_policy_pscore(evaluation_policy_type=typ, context=x, action=B.ravel(), epsilon=0.5), "rejects", "duplicate action in a slate")
    mon.raises(lambda: ds.generate_evaluation_policy_pscore(evaluation_policy_type="best", context=x, action=A.ravel()), "rejects", "unknown policy type")


def _dist(r, case, mon):
    fact, k, L = config(r)
    if r.random() < 0.3:
        k, L = 20, 5
    n = int(r.choice([1, 6]))
    ds = make(r, k, L, fact)
    A = np.array([r.integers(k, size=L) if fact else r.permutation(k)[:L] for _ in range(n)])
    logits = r.normal(size=(n, k)) * float(r.choice([0.0, 1.0, 8.0]))
    if r.random() < 0.3:
        logits = np.round(logits).astype(int)
    logits = logits + int(r.choice([0, 0, -9999, -30000, 10**6]))
    b4 = logits.copy()
    d = np.asarray(ds.calc_evaluation_policy_action_dist(action=A.ravel(), evaluation_policy_logit_=logits))
    lab = f"action_dist factorizable={fact} k={k} L={L}"
    mon.ev("action-dist")
    mon.check(np.array_equal(b4, logits), "inputs", f"{lab}: logits changed")
    if not mon.check(d.shape == (n * L * k,), "shape", f"{lab}: {d.shape}"):
        return
    w = np.zeros((n, L, k))
    for i in range(n):
        avail = list(range(k))
        for l in range(L):
            w[i, l, avail] = smax(logits[i, avail])
            if not fact:
                avail.remove(A[i, l])
    mon.close(d, w.ravel(), "action-dist", lab, rtol=1e-7, atol=1e-12)
    mon.raises(lambda: ds.calc_evaluation_policy_action_dist(action=A.ravel(), evaluation_policy_logit_=logits[:, :-1]), "rejects", lab)
    mon.raises(lambda: ds.calc_evaluation_policy_action_dist(action=A.ravel()[:-1], evaluation_policy_logit_=logits), "rejects", lab)
    mon.sig("dist", fact, k, L, n)


def _stat(r, case, mon):
    fact = bool(r.random() < 0.5)
    k, L, n = int(r.choice([2, 3])), 2, 900
    W = r.normal(size=(1, k))
    uniform = bool(r.random() < 0.25)
    ds = make(r, k, L, fact, dim_context=1, behavior_policy_function=None if uniform else (lambda context, action_context, random_state=None: context @ W + np.arange(k) * 0.4))
    f = ds.obtain_batch_bandit_feedback(n_rounds=n, return_pscore_item_position=False)
    g = ds.obtain_batch_bandit_feedback(n_rounds=n, return_pscore_item_position=False)
    lab = f"slate frequencies factorizable={fact} k={k} uniform={uniform}"
    S = slates(k, L, fact)
    out = []
    for h in (f, g):
        x = np.asarray(h["context"])
        logits = np.zeros((n, k)) if uniform else x @ W + np.arange(k) * 0.4
        P = np.array([[math.prod(seq_probs(logits[i], fact, s)) for s in S] for i in range(n)])
        idx = {s: j for j, s in enumerate(S)}
        c = np.array([idx.get(tuple(v), -1) for v in np.asarray(h["action"]).reshape(n, L).tolist()])
        if not mon.check((c >= 0).all(), "no-duplicates", f"{lab}: impossible slate"):
            return
        stat.categorical(mon, c, P, "slate-distribution", lab, [np.sign(x[:, 0])])
        out.append((c, P))
    (c1, P1), (c2, P2) = out
    j = int(np.argmax((P1 * (1 - P1)).sum(0)))
    stat.mean_zero(mon, ((c1 == j) - P1[:, j]) * ((c2 == j) - P2[:, j]), P1[:, j] * (1 - P1[:, j]) * P2[:, j] * (1 - P2[:, j]), 1.0, "batches-independent", lab)
    mon.check(not np.array_equal(f["context"], g["context"]), "fresh-context", lab)
    mon.sig("stat", fact, k, uniform)
