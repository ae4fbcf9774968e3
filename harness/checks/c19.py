"""C19: importance-weight and propensity-score models."""
import numpy as np
from sklearn.base import clone
from sklearn.calibration import CalibratedClassifierCV
from sklearn.linear_model import LogisticRegression

from .. import gen, stat
from ..models import Kernel, MaskClf, Spy, bits

RULE = ("ImportanceWeightEstimator (sample/raw) and PropensityScoreEstimator x positions x folds x calibration x unobserved actions x action context; weights and propensities recomputed with an "
        "independently trained classifier, folds decoded from a classifier that reveals its training rounds, sampled actions read off a recording classifier; non-trivial: distinct configurations")
ASSUMPTIONS = ["base classifiers are deterministic given their training rows"]
BUDGET = dict(quick=250, thorough=2400)
REQUIRED = ["iw:raw", "iw:sample", "ps", "unobserved", "crossfit", "iw-folds", "ps-folds", "calibrated", "eval-result", "stat-tests", "positions", "empty-position", "refit", "large-weights", "nearly-deterministic"]


def cases(rng, tier):
    m = 3 if tier == "quick" else 12
    for meth in ("raw", "sample"):
        for _ in range(120 * m):
            yield dict(kind="iw", method=meth)
    for _ in range(200 * m):
        yield dict(kind="ps")
    for _ in range(60 * m):
        yield dict(kind="folds")
    for _ in range(20 * m):
        yield dict(kind="stat")


def log(r, n=None):
    k = int(r.choice([2, 3, 6]))
    L = int(r.choice([1, 1, 2, 3]))
    n = n or int(r.choice([12, 30, 90]))
    x = gen.maybe_int(r, r.normal(size=(n, int(r.choice([1, 3])))), p=0.2 if n < 1000 else 0)
    obs = np.sort(r.permutation(k)[: max(2, int(r.integers(2, k + 1)))])
    a = obs[r.integers(len(obs), size=n)]
    pos = r.permutation(np.arange(n) % L)
    return n, k, L, x, a, pos, obs


def parts_for(n, folds, seed):
    from sklearn.model_selection import KFold

    if folds == 1:
        return [(list(range(n)), list(range(n)))]
    return [(list(a), list(b)) for a, b in KFold(n_splits=folds, shuffle=True, random_state=seed).split(np.zeros(n))]


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


def _iw(r, case, mon):
    from obp.ope import ImportanceWeightEstimator

    meth = case["method"]
    n, k, L, x, a, pos, obs = log(r)
    pi = gen.dist(r, n, k, L, "deterministic" if meth == "sample" else None)
    det = pi.argmax(1)
    ac = r.normal(size=(k, 2)) if r.random() < 0.5 else None
    cal = 1 if r.random() < 0.75 else 2
    folds = int(r.choice([1, 1, 2, 4]))
    if cal > 1 and n < 30:
        cal = 1
    seed = int(r.integers(1000))
    base = Kernel(h=float(r.choice([0.1, 0.5, 2.0])), prior=float(r.choice([0.1, 1e-3, 1e-7]))) if r.random() < 0.8 else LogisticRegression(C=2.0, tol=1e-10, max_iter=1000)
    rtol = 1e-6 if isinstance(base, Kernel) else 1e-3
    lab = f"iw method={meth} n={n} k={k} L={L} folds={folds} calibration={cal}"
    m = ImportanceWeightEstimator(base_model=base, n_actions=k, len_list=L, action_context=ac, fitting_method=meth, calibration_cv=cal)
    ev = bool(r.random() < 0.5)
    p = None if L == 1 and r.random() < 0.5 else pos
    A = np.eye(k) if ac is None or meth == "raw" else ac
    want = np.full(n, np.nan)
    Y = 0
    for tr, te in parts_for(n, folds, seed):
        for l in range(L):
            I = [i for i in tr if pos[i] == l]
            J = [i for i in te if pos[i] == l]
            if not I or (cal > 1 and len(I) < 4):
                return
            E = pi[I, :, l] if meth == "raw" else A[det[I, l]]
            X = np.r_[np.c_[x[I], A[a[I]]], np.c_[x[I], E]]
            y = np.r_[np.zeros(len(I), int), np.ones(len(I), int)]
            c = (CalibratedClassifierCV(clone(base), cv=cal) if cal > 1 else clone(base)).fit(X, y)
            Y += 2 * len(J)
            if J:
                q = c.predict_proba(np.c_[x[J], A[a[J]]])[:, 1]
                want[J] = q / (1 - q)
            else:
                mon.ev("empty-position")
    b4 = x.copy(), a.copy(), pi.copy()
    if r.random() < 0.3:  # an earlier fit leaves no trace
        mon.ev("refit")
        m.fit_predict(context=x, action=obs[r.integers(len(obs), size=n)], action_dist=pi, position=p, n_folds=1 if cal > 1 or L > 1 else folds, random_state=seed + 1)
    got = m.fit_predict(context=x, action=a, action_dist=pi, position=p, n_folds=folds, random_state=seed, evaluate_model_performance=ev)
    mon.ev("iw:" + meth)
    mon.check(np.array_equal(b4[0], x) and np.array_equal(b4[1], a) and np.array_equal(b4[2], pi), "inputs", f"{lab}: inputs changed")
    if cal > 1:
        mon.ev("calibrated")
    if folds > 1:
        mon.ev("crossfit")
    if L > 1:
        mon.ev("positions")
    if want.max() > 100:
        mon.ev("large-weights")
    mon.close(got, want, "importance-weight", lab, rtol=rtol)
    if folds > 1 and ev:
        mon.ev("eval-result")
        y = np.concatenate([np.ravel(v) for v in m.eval_result["y"]])
        q = np.concatenate([np.ravel(v) for v in m.eval_result["proba"]])
        mon.check(len(y) == len(q) == Y == 2 * n and y.sum() == n, "eval-result", f"{lab}: {len(y)} labels, {y.sum()} ones")
        if len(y) == 2 * n and y.sum() == n:
            z = np.sort((q / (1 - q))[y == 0])
            mon.close(z, np.sort(want), "eval-result", f"{lab}: recorded probabilities of the logged actions", rtol=rtol)
    # new data, all at one position
    if folds == 1:
        h = 3
        xn, an = r.normal(size=(h, x.shape[1])), r.integers(k, size=h)
        l = int(r.integers(L))
        if L > 1:
            mon.ev("empty-position")
        g = m.predict(context=xn, action=an, position=np.full(h, l) if L > 1 else None)
        I = [i for i in range(n) if pos[i] == l]
        E = pi[I, :, l] if meth == "raw" else A[det[I, l]]
        c = (CalibratedClassifierCV(clone(base), cv=cal) if cal > 1 else clone(base)).fit(np.r_[np.c_[x[I], A[a[I]]], np.c_[x[I], E]], np.r_[np.zeros(len(I), int), np.ones(len(I), int)])
        q = c.predict_proba(np.c_[xn, A[an]])[:, 1]
        mon.close(g, q / (1 - q), "predict", f"{lab}: new rounds", rtol=rtol)
        xb, ab = xn.copy(), an.copy()
        m.predict(context=xb, action=ab, position=np.full(h, l) if L > 1 else None)
        xb[:], ab[:] = xn[::-1], an[::-1]
        g2 = m.predict(context=xb, action=ab, position=np.full(h, l) if L > 1 else None)
        mon.close(g2, (q / (1 - q))[::-1], "predict-again", f"{lab}: same arrays, other contents", rtol=rtol)
    mon.sig("iw", meth, k, L, folds, cal, ac is None)
    mon.note(config=lab, weights=got[:5])


def _ps(r, case, mon):
    from obp.ope import PropensityScoreEstimator

    n, k, L, x, a, pos, obs = log(r)
    cal = 1 if r.random() < 0.75 else 2
    folds = int(r.choice([1, 1, 2, 4]))
    seed = int(r.integers(1000))
    if cal > 1 and n < 90:
        cal = 1
    base = Kernel(h=float(r.choice([0.1, 0.5, 2.0])), prior=float(r.choice([0.1, 1e-3, 1e-7])))
    lab = f"ps n={n} k={k} L={L} folds={folds} calibration={cal} observed={len(obs)}"
    m = PropensityScoreEstimator(base_model=base, n_actions=k, len_list=L, calibration_cv=cal)
    p = None if L == 1 and r.random() < 0.5 else pos
    want = np.full(n, np.nan)
    ev = bool(r.random() < 0.5)
    seen_all = True
    for tr, te in parts_for(n, folds, seed):
        for l in range(L):
            I = [i for i in tr if pos[i] == l]
            if not I or (cal > 1 and min(np.unique(a[I], return_counts=True)[1]) < 2):
                return
            c = (CalibratedClassifierCV(clone(base), cv=cal) if cal > 1 else clone(base)).fit(x[I], a[I])
            cl = list(c.classes_)
            for i in te:
                if pos[i] == l:
                    want[i] = c.predict_proba(x[[i]])[0][cl.index(a[i])] if a[i] in cl else 0.0
                    seen_all &= a[i] in cl
            if len(cl) < k:
                mon.ev("unobserved")
    if r.random() < 0.3 and cal == 1:
        mon.ev("refit")
        m.fit_predict(context=x[::-1], action=a, position=p, n_folds=folds, random_state=seed)
    got = m.fit_predict(context=x, action=a, position=p, n_folds=folds, random_state=seed, evaluate_model_performance=ev)
    mon.ev("ps")
    if cal > 1:
        mon.ev("calibrated")
    if folds > 1:
        mon.ev("crossfit")
    if L > 1:
        mon.ev("positions")
    mon.close(got, want, "propensity", lab, rtol=1e-6)
    mon.check((np.asarray(got) >= 0).all() and (np.asarray(got) <= 1 + 1e-12).all(), "range", lab)
    if folds > 1 and ev:
        mon.ev("eval-result")
        y = np.concatenate([np.ravel(v) for v in m.eval_result["y"]])
        mon.check(sorted(y.tolist()) == sorted(a.tolist()) and sum(len(v) for v in m.eval_result["proba"]) == n, "eval-result", f"{lab}: recorded actions")
    if folds == 1:
        h = 4
        xn, an = r.normal(size=(h, x.shape[1])), r.integers(k, size=h)
        l = int(r.integers(L))
        I = [i for i in range(n) if pos[i] == l]
        c = (CalibratedClassifierCV(clone(base), cv=cal) if cal > 1 else clone(base)).fit(x[I], a[I])
        cl = list(c.classes_)
        P = c.predict_proba(xn)
        w = [P[i, cl.index(an[i])] if an[i] in cl else 0.0 for i in range(h)]
        mon.close(m.predict(context=xn, action=an, position=np.full(h, l) if L > 1 else None), w, "predict", f"{lab}: new rounds", rtol=1e-6)
        xb, ab = xn.copy(), an.copy()
        m.predict(context=xb, action=ab, position=np.full(h, l) if L > 1 else None)
        xb[:], ab[:] = xn[::-1], an[::-1]
        mon.close(m.predict(context=xb, action=ab, position=np.full(h, l) if L > 1 else None), w[::-1], "predict-again", f"{lab}: same arrays, other contents", rtol=1e-6)
    mon.sig("ps", k, L, folds, cal, len(obs))


def _folds(r, case, mon):
    """rounds are never scored by a model trained on them"""
    from obp.ope import ImportanceWeightEstimator, PropensityScoreEstimator

    n = int(r.choice([24, 31, 40]))
    folds = int(r.choice([2, 3, 5]))
    x = np.c_[2.0 ** np.arange(n), r.normal(size=n)]
    a = r.permutation(np.arange(n) % 2)
    seed = int(r.integers(10000))
    pi = gen.dist(r, n, 2, 1)
    for name in ("iw", "ps"):
        lab = f"{name} n={n} folds={folds}"
        if name == "iw":
            g = ImportanceWeightEstimator(base_model=MaskClf(), n_actions=2, fitting_method=str(r.choice(["raw", "sample"])), calibration_cv=1).fit_predict(
                context=x, action=a, action_dist=pi, n_folds=folds, random_state=seed)
            g = np.asarray(g) / (1 + np.asarray(g))
        else:
            P = PropensityScoreEstimator(base_model=MaskClf(), n_actions=2, calibration_cv=1).fit_predict(context=x, action=a, n_folds=folds, random_state=seed)
            g = np.where(a == 1, P, 1 - np.asarray(P))
        groups = {}
        for i in range(n):
            groups.setdefault(int(g[i] * 2.0**52), []).append(i)
        mon.ev(name + "-folds")
        sizes = sorted(map(len, groups.values()))
        for mm, mem in groups.items():
            t = bits(mm, n)
            mon.check(not set(t) & set(mem), "crossfit-leak", f"{lab}: rounds {sorted(set(t) & set(mem))[:4]} are scored by a model trained on them")
            mon.check(len(t) == n - len(mem), "crossfit-uses-rest", f"{lab}: {len(mem)} rounds scored by a model trained on {len(t)} rounds")
        mon.check(len(groups) == folds and sizes[-1] - sizes[0] <= 1, "crossfit-folds", f"{lab}: fold sizes {sizes}")
        mon.sig("folds", name, n, folds)


def _stat(r, case, mon):
    """actions of the evaluation policy shown to the classifier follow its distribution"""
    from obp.ope import ImportanceWeightEstimator

    n, k, L, x, a, pos, obs = log(r, n=4000)
    pi = gen.dist(r, n, k, L, "dirichlet")
    if r.random() < 0.5:  # nearly deterministic policies are still sampled from
        mon.ev("nearly-deterministic")
        pi = 0.04 * pi + 0.96 * gen.dist(r, n, k, L, "deterministic")
    A = r.normal(size=(k, 1)) * 10
    Spy.log = []
    m = ImportanceWeightEstimator(base_model=Spy(), n_actions=k, len_list=L, action_context=A, fitting_method="sample", calibration_cv=1)
    m.fit(context=x, action=a, action_dist=pi, position=pos, random_state=int(r.integers(10000)))
    d = x.shape[1]
    key = {v.tobytes(): i for i, v in enumerate(np.ascontiguousarray(x))}
    seen = np.zeros((n, 2), int)
    choice = np.zeros(n, int)
    for X, y, w in Spy.log:
        for row, c in zip(X, y):
            i = key.get(np.ascontiguousarray(row[:d]).tobytes(), -1)
            b = int(np.abs(A[:, 0] - row[d]).argmin())
            if not mon.check(i >= 0 and c in (0, 1), "rows", "a training row is no round of the log"):
                return
            seen[i, c] += 1
            if c == 0:
                mon.check(b == a[i], "rows", f"round {i}: class 0 shows action {b}, logged {a[i]}")
            else:
                choice[i] = b
    lab = f"k={k} L={L}"
    if mon.check((seen == 1).all(), "rows", f"{lab}: each round must be shown once per class"):
        for l in range(L):
            I = np.flatnonzero(pos == l)
            stat.categorical(mon, choice[I], pi[I, :, l], "sampled-actions", f"{lab} position {l}", [np.sign(x[I, 0])])
    mon.sig("stat", k, L)
