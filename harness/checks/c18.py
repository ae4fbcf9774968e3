"""C18: reward models (RegressionModel, SlateRegressionModel)."""
import numpy as np
from sklearn.linear_model import LogisticRegression, Ridge as SkRidge

from .. import gen
from ..models import Kernel, Mask, Ridge, bits

RULE = ("RegressionModel: fitting method x base model (ridge, kernel classifier, sklearn) x positions x folds x action context x propensities given or not, retrained independently per position; "
        "cross-fitting folds decoded from a model that predicts the set of rounds it was trained on; SlateRegressionModel: backward recursion recomputed; non-trivial: distinct configurations")
ASSUMPTIONS = ["base models are deterministic given their training rows"]
BUDGET = dict(quick=250, thorough=2400)
REQUIRED = ["method:normal", "method:iw", "method:mrdr", "classifier", "regressor", "crossfit", "folds-decoded", "slate:normal", "slate:iw", "positions", "refit", "small-propensities"]


def cases(rng, tier):
    m = 3 if tier == "quick" else 12
    for meth in ("normal", "iw", "mrdr"):
        for _ in range(150 * m):
            yield dict(kind="reg", method=meth)
    for _ in range(120 * m):
        yield dict(kind="folds")
    for meth in ("normal", "iw"):
        for _ in range(80 * m):
            yield dict(kind="slate", method=meth)


def log(r, n=None, need=1):
    k = int(r.choice([2, 3, 6]))
    L = int(r.choice([1, 1, 2, 3]))
    n = n or int(r.choice([12, 40, 120]))
    d = int(r.choice([1, 3]))
    x = gen.maybe_int(r, r.normal(size=(n, d)))
    a = r.integers(k, size=n)
    pos = r.permutation(np.arange(n) % L)
    ps = gen.pscores(r, n, "uniform") if r.random() < 0.7 else None
    pi = gen.dist(r, n, k, L)
    ac = r.normal(size=(k, int(r.choice([1, 2])))) if r.random() < 0.5 else None
    return n, k, L, x, a, pos, ps, pi, ac


def weights(meth, pi, a, pos, ps, k, i):
    p = 1 / k if ps is None else ps[i]
    w = pi[i, a[i], pos[i]]
    return 1.0 if meth == "normal" else w / p if meth == "iw" else w * (1 - p) / p**2


def oracle(base, meth, tr, te, x, a, rew, pos, ps, pi, ac, k, L):
    from sklearn.base import clone, is_classifier

    A = np.eye(k) if ac is None else ac
    out = np.zeros((len(te), k, L))
    for l in range(L):
        I = [i for i in tr if pos[i] == l]
        X = np.array([np.r_[x[i], A[a[i]]] for i in I])
        w = np.array([weights(meth, pi, a, pos, ps, k, i) for i in I])
        mod = clone(base)
        mod.fit(X, rew[I], **({} if meth == "normal" else dict(sample_weight=w)))
        for c in range(k):
            Z = np.array([np.r_[x[i], A[c]] for i in te])
            out[:, c, l] = mod.predict_proba(Z)[:, 1] if is_classifier(mod) else mod.predict(Z)
    return out


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


def _reg(r, case, mon):
    from obp.ope import RegressionModel

    meth = case["method"]
    n, k, L, x, a, pos, ps, pi, ac = log(r)
    clf = bool(r.random() < 0.5)
    rew = (r.random(n) < 0.4).astype(r.choice([int, float])) if clf else gen.rewards(r, n)
    u = r.random()
    base = (Kernel() if u < 0.7 else LogisticRegression(C=5.0, tol=1e-8, max_iter=500)) if clf else (Ridge() if u < 0.8 else SkRidge(alpha=0.7))
    exact = isinstance(base, (Ridge, Kernel))
    if exact and ps is not None and r.random() < 0.4:
        ps = 10.0 ** r.uniform(-2.5, 0, n)
        mon.ev("small-propensities")
    if clf:
        for l in range(L):  # both classes at every position
            I = np.flatnonzero(pos == l)
            rew[I[0]], rew[I[1]] = 0, 1
    mon.ev("classifier" if clf else "regressor")
    mon.ev("method:" + meth)
    if L > 1:
        mon.ev("positions")
    folds = int(r.choice([1, 1, 2, 3, 5]))
    seed = int(r.integers(1000))
    lab = f"method={meth} base={type(base).__name__} n={n} k={k} L={L} folds={folds} pscore={'given' if ps is not None else 'missing'} action_context={'given' if ac is not None else 'one-hot'}"
    kw = dict(n_actions=k, len_list=L, action_context=ac, fitting_method=meth)
    data = dict(context=x, action=a, reward=rew, pscore=ps, position=pos if L > 1 or r.random() < 0.5 else None, action_dist=None if meth == "normal" and r.random() < 0.5 else pi)
    b4 = {q: None if v is None else v.copy() for q, v in data.items()}
    rm = RegressionModel(base_model=base, **kw)
    if folds == 1:
        tr = [list(range(n))]
        parts = [list(range(n))]
    else:
        parts = decode(r, mon, n, folds, seed, lab)
        if parts is None:
            return
        tr = [[i for i in range(n) if i not in set(p)] for p in parts]
    for t in tr:
        for l in range(L):
            I = [i for i in t if pos[i] == l]
            if not I or (clf and len(set(rew[I].tolist())) < 2):
                return  # a fold without data: not judged
            if not exact and sum(weights(meth, pi, a, pos, ps, k, i) for i in I) == 0:
                return  # sklearn refuses zero total weight
    got = rm.fit_predict(n_folds=folds, random_state=seed, **data)
    mon.check(all(np.array_equal(v, data[q]) if v is not None else data[q] is None for q, v in b4.items()), "inputs", f"{lab}: inputs changed")
    want = np.zeros((n, k, L))
    for t, p in zip(tr, parts):
        want[p] = oracle(base, meth, t, p, x, a, rew, pos, ps, pi, ac, k, L)
    if folds > 1:
        mon.ev("crossfit")
    sc = 1 + float(np.nanmax(np.abs(want)))
    mon.close(got, want, "q-hat", f"{lab}: estimated expected rewards", rtol=1e-6 if exact else 1e-4, atol=1e-7 * sc if exact else 1e-5 * sc)
    # separate fit and predict on new contexts; a second fit replaces the first
    rm = RegressionModel(base_model=base, **kw)
    if r.random() < 0.5:
        mon.ev("refit")
        q = r.permutation(n)
        rm.fit(**{u: (v if v is None else v[q]) for u, v in dict(data, reward=rew if clf else rew[::-1]).items()})
    rm.fit(**data)
    xn = r.normal(size=(5, x.shape[1]))
    z = np.r_[x, xn]
    w = oracle(base, meth, range(n), range(n, n + 5), z, np.r_[a, np.zeros(5, int)], np.r_[rew, np.zeros(5)], np.r_[pos, np.zeros(5, int)], None if ps is None else np.r_[ps, np.ones(5)],
               np.concatenate([pi, pi[:5]]), ac, k, L)
    sc = 1 + float(np.nanmax(np.abs(w)))
    tol = dict(rtol=1e-6 if exact else 1e-4, atol=1e-7 * sc if exact else 1e-5 * sc)
    first = rm.predict(context=xn)
    keep = np.array(first)
    mon.close(first, w, "predict", f"{lab}: new contexts", **tol)
    # the answer follows the contents of the array, not its identity; earlier results stay as they were returned
    buf = xn.copy()
    rm.predict(context=buf)
    buf[:] = xn[::-1]
    mon.close(rm.predict(context=buf), w[::-1], "predict-again", f"{lab}: same array, other contexts", **tol)
    mon.close(rm.predict(context=xn[:2]), w[:2], "predict-again", f"{lab}: fewer contexts", **tol)
    mon.check(np.array_equal(first, keep), "result-changed", f"{lab}: an array returned by predict was changed by a later call")
    if exact or meth == "normal":
        rm.fit(**dict(data, action=(a + 1) % k))
    w2 = oracle(base, meth, range(n), range(n, n + 5), z, np.r_[(a + 1) % k, np.zeros(5, int)], np.r_[rew, np.zeros(5)], np.r_[pos, np.zeros(5, int)], None if ps is None else np.r_[ps, np.ones(5)],
                np.concatenate([pi, pi[:5]]), ac, k, L) if exact or meth == "normal" else None
    if w2 is not None:
        mon.close(rm.predict(context=xn), w2, "predict-refit", f"{lab}: same contexts after another fit", rtol=1e-6 if exact else 1e-4, atol=(1e-7 if exact else 1e-5) * (1 + float(np.nanmax(np.abs(w2)))))
    mon.sig(meth, type(base).__name__, k, L, folds, ps is None, ac is None)
    mon.note(config=lab, q_hat=np.asarray(got).ravel()[:4])


def decode(r, mon, n, folds, seed, lab):
    """folds used for this number of rounds and seed, read off a model that reveals its training rounds"""
    from obp.ope import RegressionModel

    if n > 50:
        from sklearn.model_selection import KFold

        return [list(t) for _, t in KFold(n_splits=folds, shuffle=True, random_state=seed).split(np.zeros(n))]
    x = np.c_[2.0 ** np.arange(n), r.normal(size=n)]
    q = RegressionModel(base_model=Mask(), n_actions=2).fit_predict(context=x, action=r.integers(2, size=n), reward=r.normal(size=n), n_folds=folds, random_state=seed)
    if not mon.check(q.shape == (n, 2, 1) and (q[:, 0] == q[:, 1]).all(), "shape", lab):
        return None
    groups = {}
    for i in range(n):
        groups.setdefault(float(q[i, 0, 0]), []).append(i)
    mon.ev("folds-decoded")
    for m, mem in groups.items():
        t = bits(m, n)
        if not mon.check(not set(t) & set(mem), "crossfit-leak", f"{lab}: rounds {sorted(set(t) & set(mem))[:4]} are predicted by a model trained on them"):
            return None
        if not mon.check(len(t) == n - len(mem), "crossfit-uses-rest", f"{lab}: {len(mem)} rounds predicted by a model trained on {len(t)} of the other {n - len(mem)}"):
            return None
    if not mon.check(len(groups) == folds and max(map(len, groups.values())) - min(map(len, groups.values())) <= 1, "crossfit-folds", f"{lab}: fold sizes {sorted(map(len, groups.values()))}"):
        return None
    return list(groups.values())


def _folds(r, case, mon):
    n = int(r.choice([4, 7, 20, 33, 50]))
    folds = int(r.choice([2, 3, 4, n]))
    if folds > n:
        folds = n
    p = decode(r, mon, n, folds, int(r.integers(10000)), f"n={n} folds={folds}")
    mon.sig("folds", n, folds)
    if p and folds < n and n >= 20:  # shuffled, not consecutive
        mon.check(any(max(g) - min(g) >= len(g) for g in p), "crossfit-shuffled", f"n={n} folds={folds}: consecutive folds")


def _slate(r, case, mon):
    from obp.ope import SlateRegressionModel

    n, k, L = int(r.choice([3, 15, 40])), int(r.choice([2, 3, 5])), int(r.choice([1, 2, 3, 4]))
    d = int(r.choice([1, 2]))
    x = gen.maybe_int(r, r.normal(size=(n, d)))
    A = r.integers(k, size=(n, L))
    R = gen.rewards(r, n * L).reshape(n, L)
    pb = np.cumprod(r.uniform(0.1, 1, size=(n, L)), axis=1)
    pe = np.cumprod(r.uniform(0.1, 1, size=(n, L)), axis=1)
    if r.random() < 0.4:  # certain actions, and slates the evaluation policy never shows
        pb[r.random(n) < 0.5] = 1.0
        pe[0] = 1.0
    D = r.dirichlet(np.ones(k), size=(n, L)) if r.random() < 0.7 else np.eye(k)[r.integers(k, size=(n, L))]
    meth = case["method"]
    base = Ridge() if r.random() < 0.8 else SkRidge(alpha=0.7)
    lab = f"slate method={meth} base={type(base).__name__} n={n} k={k} L={L}"
    m = SlateRegressionModel(base_model=base, len_list=L, n_unique_action=k, fitting_method=meth)
    data = dict(context=x, action=A.ravel(), reward=R.ravel(), pscore_cascade=pb.ravel(), evaluation_policy_pscore_cascade=pe.ravel(), evaluation_policy_action_dist=D.ravel())
    b4 = {q: v.copy() for q, v in data.items()}
    got = np.asarray(m.fit_predict(**data))
    mon.ev("slate:" + meth)
    mon.check(all(np.array_equal(v, data[q]) for q, v in b4.items()), "inputs", f"{lab}: inputs changed")
    from sklearn.base import clone

    Q = np.zeros((n, L, k))
    mods = [None] * L
    nxt = np.zeros(n)
    for l in reversed(range(L)):
        X = np.c_[x, A[:, : l + 1]]
        w = pe[:, l] / pb[:, l] if meth == "iw" else np.ones(n)
        mods[l] = clone(base).fit(X, R[:, l] + nxt, sample_weight=w)
        for c in range(k):
            Q[:, l, c] = mods[l].predict(np.c_[x, A[:, :l], np.full(n, c)])
        nxt = (D[:, l] * Q[:, l]).sum(1)
    sc = 1 + float(np.nanmax(np.abs(Q)))
    mon.close(got, Q.ravel(), "slate-q-hat", lab, rtol=1e-6, atol=1e-7 * sc)
    # new data
    h = int(r.choice([1, 4]))
    xn, An = r.normal(size=(h, d)), r.integers(k, size=(h, L))
    want = np.zeros((h, L, k))
    for l in range(L):
        for c in range(k):
            want[:, l, c] = mods[l].predict(np.c_[xn, An[:, :l], np.full(h, c)])
    mon.close(m.predict(context=xn, action=An.ravel()), want.ravel(), "slate-predict", lab, rtol=1e-6, atol=1e-7 * sc)
    xb, ab = xn.copy(), An.ravel().copy()
    m.predict(context=xb, action=ab)
    xb[:], ab[:] = xn[::-1], An[::-1].ravel()
    mon.close(m.predict(context=xb, action=ab), want[::-1].ravel(), "slate-predict-again", f"{lab}: same arrays, other contents", rtol=1e-6, atol=1e-7 * sc)
    # a second fit replaces the first
    m.fit(**dict(data, reward=(R[::-1] * 0.5).ravel()))
    m.fit(**data)
    mon.close(m.predict(context=xn, action=An.ravel()), want.ravel(), "slate-predict-refit", lab, rtol=1e-6, atol=1e-7 * sc)
    mon.sig("slate", meth, type(base).__name__, k, L, n)
