"""C16: multi-class classification data turned into bandit feedback."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.linear_model import LogisticRegression
from sklearn.tree import DecisionTreeClassifier

from .. import gen, stat

RULE = ("generated classification data (2-7 classes, arbitrary integer/float/negative labels, rare classes) x classifiers (tree, logistic, recording stand-ins) x alpha x deficient "
        "actions x split sizes; probabilities recomputed from the recorded predictions; non-trivial: distinct (classes, alpha, deficient, label style)")
ASSUMPTIONS = ["every class occurs in the training split when a sklearn classifier is used"]
BUDGET = dict(quick=200, thorough=1800)
REQUIRED = ["feedback", "deficient", "eval-policy", "ground-truth", "odd-labels", "stat-tests", "first-round", "split"]


class Rec(BaseEstimator, ClassifierMixin):
    """deterministic stand-in: predicts floor(x0) modulo the number of classes; records what it was trained on"""
    log = []

    def __init__(self, k=3, shift=0):
        self.k = k
        self.shift = shift

    def fit(self, X, y):
        Rec.log.append((np.array(X), np.array(y)))
        self.classes_ = np.unique(y)
        return self

    def predict(self, X):
        return (np.floor(np.abs(X[:, 0])).astype(int) + self.shift) % self.k


def cases(rng, tier):
    m = 3 if tier == "quick" else 15
    for _ in range(420 * m):
        yield dict(kind="batch")
    for _ in range(16 * m):
        yield dict(kind="stat")
    for _ in range(10 * m):
        yield dict(kind="first")
    for _ in range(12 * m):
        yield dict(kind="batch", many=True)


def make(r, n=None, k=None, alpha=None, deficient=None, clf=None):
    from obp.dataset import MultiClassToBanditReduction

    k = k or int(r.choice([2, 3, 4, 7]))
    n = n or int(r.choice([30, 60, 200]))
    y = np.concatenate([np.arange(k), r.integers(k, size=n - k)]) if r.random() < 0.7 else np.concatenate([np.arange(k), r.choice(k, p=np.r_[[0.9], np.full(k - 1, 0.1 / (k - 1))], size=n - k)])
    r.shuffle(y)
    X = gen.maybe_int(r, r.normal(size=(n, 2)) * 3 + y[:, None] * r.choice([0, 1]), factor=10**6)
    style = str(r.choice(["plain", "gap", "negative", "float", "fraction", "huge"]))
    lab = dict(plain=np.arange(k), gap=np.arange(k) * 5 + 11, negative=np.arange(k) - 3, float=np.arange(k) * 1.0, fraction=np.arange(k) * 0.25 - 0.6, huge=np.arange(k) + 2.0**40)[style]
    alpha = float(r.choice([0.0, 0.3, 0.8, 0.99])) if alpha is None else alpha
    deficient = int(r.integers(0, k)) if deficient is None else deficient
    clf = clf or Rec(k=k)
    ds = MultiClassToBanditReduction(X=X, y=lab[y], base_classifier_b=clf, alpha_b=alpha, n_deficient_actions=deficient)
    return ds, X, y, k, alpha, deficient, style


def rows(X, Xs):
    """index of each row of Xs in X (rows are distinct with probability one)"""
    d = {v.tobytes(): i for i, v in enumerate(np.ascontiguousarray(X))}
    return np.array([d.get(v.tobytes(), -1) for v in np.ascontiguousarray(np.asarray(Xs, dtype=X.dtype))])


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


def _batch(r, case, mon):
    Rec.log = []
    real = bool(r.random() < 0.3)
    ds, X, y, k, alpha, dfc, style = make(r, clf=(LogisticRegression(max_iter=50) if r.random() < 0.5 else DecisionTreeClassifier(max_depth=3, random_state=0)) if real else None, **(dict(n=700, k=int(r.choice([130, 260, 300]))) if case.get("many") else {}))
    if k > 127:
        mon.ev("many-classes")
    lab = f"k={k} alpha={alpha} deficient={dfc} labels={style} classifier={'sklearn' if real else 'recording'}"
    size = [0.25, 0.5, 0.8, 10][int(r.integers(4))]
    ds.split_train_eval(eval_size=size, random_state=int(r.integers(1000)))
    if real and len(np.unique(ds.y_tr)) < 2:
        return
    seed = int(r.integers(10000))
    try:
        fb = ds.obtain_batch_bandit_feedback(random_state=seed)
    except ValueError:
        if real:
            return  # sklearn refuses a split with one class
        raise
    n = fb["n_rounds"]
    mon.ev("feedback")
    if style != "plain":
        mon.ev("odd-labels")
    N = len(y)
    ne = size if isinstance(size, int) else int(np.ceil(size * N))
    x = np.asarray(fb["context"])
    idx = rows(X, x)
    if not mon.check(n == ne == len(x) and (idx >= 0).all() and len(set(idx)) == n, "split", f"{lab}: {n} evaluation rounds of {N} for eval_size={size}"):
        return
    mon.ev("split")
    a = np.asarray(fb["action"])
    pi = np.asarray(fb["pi_b"])
    ok = a.shape == (n,) and pi.shape == (n, k, 1) and fb["n_actions"] == k and fb["position"] is None and a.min() >= 0 and a.max() < k
    if not mon.check(ok, "shape", f"{lab}: shapes {a.shape} {pi.shape}"):
        return
    mon.close(fb["pscore"], pi[np.arange(n), a, 0], "pscore", f"{lab}: propensity of the logged action", rtol=1e-12)
    mon.close(fb["reward"], (y[idx] == a).astype(float), "reward", f"{lab}: reward is one exactly for the true class", rtol=0, atol=0)
    mon.close(pi.sum(1), np.ones((n, 1)), "sum", lab, rtol=1e-9)
    if not real:
        tr = Rec.log[-1]
        ti = rows(X, tr[0])
        ok = len(ti) == N - n and (ti >= 0).all() and not set(ti) & set(idx) and np.array_equal(tr[1], y[ti])
        mon.check(ok, "trained-on-rest", f"{lab}: the behaviour policy was not trained on the other rounds with their own labels")
        pred = Rec(k=k).predict(x)
    else:
        pred = pi[:, :, 0].argmax(1) if alpha > 0 and dfc == 0 else None
    if pred is not None:
        base = np.full((n, k), (1 - alpha) / k)
        base[np.arange(n), pred] += alpha
        if dfc:
            mon.ev("deficient")
            z = pi[:, :, 0] == 0
            mon.check((z.sum(1) == dfc).all(), "deficient", f"{lab}: {z.sum(1)[:8]} deficient actions")
            base[z] = 0
            base /= base.sum(1, keepdims=True)
        mon.close(pi[:, :, 0], base, "behaviour-policy", lab, rtol=1e-9, atol=1e-12)
    # evaluation policy
    ae = float(r.choice([0.0, 0.4, 1.0]))
    if real:
        pe = ds.obtain_action_dist_by_eval_policy(alpha_e=ae)
        pred_e = pred if ae > 0 else None
        base_e = None
    else:
        base_e = Rec(k=k, shift=1) if r.random() < 0.6 else None
        pe = ds.obtain_action_dist_by_eval_policy(base_classifier_e=base_e, alpha_e=ae)
        pred_e = Rec(k=k, shift=1 if base_e is not None else 0).predict(x)
        te = Rec.log[-1]
        mon.check(np.array_equal(te[0], tr[0]) and np.array_equal(te[1], tr[1]), "trained-on-rest", f"{lab}: the evaluation policy was not trained on the training part")
    mon.ev("eval-policy")
    pe = np.asarray(pe)
    mon.check(pe.shape == (n, k, 1), "shape", lab)
    if pred_e is not None:
        w = np.full((n, k), (1 - ae) / k)
        w[np.arange(n), pred_e] += ae
        mon.close(pe[:, :, 0], w, "evaluation-policy", f"{lab} alpha_e={ae}", rtol=1e-9, atol=1e-12)
    for d in (pe, r.dirichlet(np.ones(k), size=n)[:, :, None]):
        mon.ev("ground-truth")
        mon.close(ds.calc_ground_truth_policy_value(action_dist=d), np.mean([d[i, y[idx[i]], 0] for i in range(n)]), "ground-truth", f"{lab}: policy value", rtol=1e-9)
    # the data used to build the policies are left alone, and a second call is the same
    fb2 = ds.obtain_batch_bandit_feedback(random_state=seed)
    mon.check(np.array_equal(fb2["action"], a) and np.array_equal(fb2["pi_b"], pi), "repeatable", f"{lab}: same seed, other data")
    mon.raises(lambda: ds.calc_ground_truth_policy_value(action_dist=pe[1:]), "rejects", "short action_dist")
    mon.raises(lambda: ds.obtain_action_dist_by_eval_policy(alpha_e=1.2), "rejects", "alpha_e above one")
    mon.sig(k, alpha, dfc, style, real, str(size))
    mon.note(config=lab, action=a[:6], reward=fb["reward"][:6], pscore=fb["pscore"][:6])


def _stat(r, case, mon):
    ds, X, y, k, alpha, dfc, style = make(r, n=3000, k=int(r.choice([3, 4])), alpha=float(r.choice([0.0, 0.5])))
    ds.split_train_eval(eval_size=0.6, random_state=int(r.integers(1000)))
    s = int(r.integers(100000))
    fb = ds.obtain_batch_bandit_feedback(random_state=s)
    x = np.asarray(fb["context"])
    a, pi = np.asarray(fb["action"]), np.asarray(fb["pi_b"])[:, :, 0]
    lab = f"k={k} alpha={alpha} deficient={dfc}"
    stat.categorical(mon, a, pi, "action-distribution", lab, [np.sign(x[:, 0])])
    g = ds.obtain_batch_bandit_feedback(random_state=s + 1)
    b, pj = np.asarray(g["action"]), np.asarray(g["pi_b"])[:, :, 0]
    stat.mean_zero(mon, ((a == 0) - pi[:, 0]) * ((b == 0) - pj[:, 0]), pi[:, 0] * (1 - pi[:, 0]) * pj[:, 0] * (1 - pj[:, 0]), 1.0, "seeds-differ", lab)
    if dfc:
        n = len(a)
        for j in range(k):
            stat.mean_zero(mon, (pi[:, j] == 0) - dfc / k, np.full(n, dfc / k * (1 - dfc / k)), 1.0, "deficient-uniform", f"{lab}: action {j} deficient")
    mon.sig("stat", k, alpha, dfc)


def _first(r, case, mon):
    """few evaluation rounds, many seeds: actions follow pi_b given pi_b"""
    k = int(r.choice([3, 4, 5]))
    dfc = int(r.integers(1, k - 1))
    ds, X, y, k, alpha, dfc, style = make(r, n=30, k=k, alpha=float(r.choice([0.0, 0.5])), deficient=dfc)
    ds.split_train_eval(eval_size=int(r.choice([1, 2])), random_state=3)
    A, P = [], []
    s0 = int(r.integers(10**6))
    for s in range(500):
        fb = ds.obtain_batch_bandit_feedback(random_state=s0 + s)
        A.append(fb["action"][0])
        P.append(fb["pi_b"][0, :, 0])
    A, P = np.array(A), np.array(P)
    mon.ev("first-round")
    lab = f"first round over seeds: k={k} deficient={dfc} alpha={alpha}"
    stat.categorical(mon, A, P, "action-distribution", lab, [np.where(P[:, 0] == 0, 1.0, 0.0), np.where(P[:, -1] == 0, 1.0, 0.0)])
    # rank of the chosen action among the available ones, when these are equally likely
    if alpha == 0:
        for j in range(k - dfc):
            hit = np.array([np.flatnonzero(p)[j] == a for a, p in zip(A, P)])
            stat.mean_zero(mon, hit - 1 / (k - dfc), np.full(len(A), (1 / (k - dfc)) * (1 - 1 / (k - dfc))), 1.0, "action-distribution", f"{lab}: available action number {j}")
    mon.sig("first", k, dfc, alpha)
