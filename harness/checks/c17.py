"""C17: the Open Bandit Dataset loader."""
import math
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from .. import stat

RULE = ("synthesised log files in the Open Bandit format (unsorted and tied timestamps, non-contiguous positions, 2-40 items, categorical user and item features) and the bundled sample; "
        "x behaviour policy x campaign x split x bootstrap size; loaded rounds matched one by one with the rows of the file; non-trivial: distinct (rows, items, policy, campaign, split)")
ASSUMPTIONS = ["item_context.csv lists the items in the order of item_id, as in the published data"]
BUDGET = dict(quick=200, thorough=1800)
REQUIRED = ["loaded", "split", "bootstrap", "bootstrap-train", "on-policy", "bundled", "ties", "stat-tests", "duplicate-rows"]


def cases(rng, tier):
    m = 3 if tier == "quick" else 12
    for _ in range(200 * m):
        yield dict(kind="file")
    for _ in range(8 * m):
        yield dict(kind="stat")
    yield dict(kind="bundled", policy="random", campaign="men")
    yield dict(kind="bundled", policy="bts", campaign="men")
    yield dict(kind="bundled", policy="random", campaign="women")
    yield dict(kind="bundled", policy="bts", campaign="women")


def write(r, root, n=None, dup=False):
    n = n or int(r.choice([5, 10, 11, 50, 200]))
    k = int(r.choice([2, 5, 40]))
    pol, camp = str(r.choice(["random", "bts"])), str(r.choice(["all", "men", "women"]))
    d = Path(root) / pol / camp
    os.makedirs(d)
    tie = bool(r.random() < 0.4)
    sec = r.integers(0, 20, n) if tie else r.permutation(n * 7)[:n]
    ts = [str(pd.Timestamp("2019-11-24", tz="UTC") + pd.Timedelta(seconds=int(s), microseconds=442536)) for s in sec]
    item = r.integers(k, size=n)
    item[r.integers(n)] = k - 1
    pos = r.choice(r.choice([1, 2, 3, 7, 9], size=int(r.integers(1, 4)), replace=False), size=n)
    df = pd.DataFrame(dict(timestamp=ts, item_id=item, position=pos, click=r.integers(2, size=n), propensity_score=r.uniform(0.001, 1, n)))
    nf = int(r.integers(1, 5))
    for j in range(nf):
        df[f"user_feature_{j}"] = [f"h{v}" for v in r.integers(int(r.integers(1, 5)) + (j == 0), size=n)]
    df["user_feature_0"] = [f"h{v % 2}" for v in range(n)]
    for j in range(k):
        df[f"user-item_affinity_{j}"] = r.random(n)
    if dup and n > 4:  # the same row more than once
        src, dst = r.integers(n, size=max(2, n // 5)), r.integers(n, size=max(2, n // 5))
        df.iloc[dst] = df.iloc[src].values
        df["user_feature_0"] = [f"h{int(str(t)[-20:].split('.')[0][-1]) % 2}" for t in df["timestamp"]]
        df.loc[0, "user_feature_0"], df.loc[1, "user_feature_0"] = "h0", "h1"
        for c, t in (("item_id", int), ("position", int), ("click", int), ("propensity_score", float)):
            df[c] = df[c].astype(t)
        df.loc[n - 1, "item_id"] = k - 1
    df.to_csv(d / f"{camp}.csv")
    ic = pd.DataFrame(dict(item_id=np.arange(k), item_feature_0=r.normal(size=k)))
    for j in range(1, int(r.integers(2, 5))):
        ic[f"item_feature_{j}"] = [f"c{v}" for v in r.integers(4, size=k)]
    ic.to_csv(d / "item_context.csv")
    return pol, camp, df, ic, tie


def context_rows(df):
    cols = [c for c in df.columns if c.startswith("user_feature")]
    out = []
    for c in cols:
        lev = sorted(set(df[c]))
        out += [(df[c] == v).values.astype(float) for v in lev[1:]]
    return np.array(out).T.reshape(len(df), -1)


def item_rows(ic):
    out = []
    for c in ic.columns:
        if c in ("item_id", "item_feature_0"):
            continue
        lev = sorted(set(ic[c]))
        out.append([lev.index(v) for v in ic[c]])
    out.append(list(ic["item_feature_0"]))
    return np.array(out, float).T


def records(fb):
    return [(int(a), int(p), int(w), round(float(s), 12), tuple(np.asarray(x, float))) for a, p, w, s, x in
            zip(fb["action"], fb["position"], fb["reward"], fb["pscore"], np.asarray(fb["context"]))]


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    root = tempfile.mkdtemp(prefix="obd", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        globals()["_" + case["kind"]](r, case, mon, root)
    finally:
        shutil.rmtree(root)


def judge(r, mon, ds, make, df, ic, lab, pol, camp, path):
    n, k = len(df), int(df["item_id"].max()) + 1
    lev = sorted(set(df["position"]))
    X = context_rows(df)
    allrec = [(int(a), lev.index(p), int(c), round(float(s), 12), tuple(x)) for a, p, c, s, x in
              zip(df["item_id"], df["position"], df["click"], df["propensity_score"], X)]
    key = {}
    for t, rec in zip(df["timestamp"], allrec):
        key.setdefault(rec, []).append(t)
    fb = ds.obtain_batch_bandit_feedback()
    mon.ev("loaded")
    ok = fb["n_rounds"] == n == ds.n_rounds and fb["n_actions"] == k == ds.n_actions and ds.len_list == len(lev) and ds.dim_context == X.shape[1]
    mon.check(ok, "metadata", f"{lab}: n_rounds={fb['n_rounds']} n_actions={fb['n_actions']} len_list={ds.len_list}")
    got = records(fb)
    if not mon.check(sorted(got) == sorted(allrec), "rows", f"{lab}: the loaded rounds are not the rows of the file"):
        return
    # in time order (rows with the same timestamp may come in any order)
    order = np.argsort(np.array(df["timestamp"]), kind="stable")
    ts = [df["timestamp"].iloc[i] for i in order]
    groups, i = [], 0
    while i < n:
        j = i
        while j < n and ts[j] == ts[i]:
            j += 1
        groups.append((i, j))
        i = j
    bad = [g for g in groups if sorted(got[g[0]:g[1]]) != sorted(allrec[q] for q in order[g[0]:g[1]])]
    mon.check(not bad, "time-order", f"{lab}: rounds {bad[:1]} are not in time order")
    mon.close(np.asarray(fb["action_context"], float), item_rows(ic), "action-context", f"{lab}: item features", rtol=1e-9)
    mon.ev("on-policy")
    mon.close(make.calc_on_policy_policy_value_estimate(behavior_policy=pol, campaign=camp, data_path=path), df["click"].mean(), "on-policy", lab, rtol=1e-12)
    # time-series split
    test = float(r.choice([0.0, 0.01, 0.05, 0.1, 0.3, 0.37, 0.5, 0.75, 0.99, 1.0]))
    tr, te = ds.obtain_batch_bandit_feedback(test_size=test, is_timeseries_split=True)
    mon.ev("split")
    R1, R2 = records(tr), records(te)
    nt = n * (1 - test)
    ok = tr["n_rounds"] == len(R1) and te["n_rounds"] == len(R2) and math.floor(nt - 1e-9 * n) <= len(R1) <= math.floor(nt + 1e-9 * n) and R1 + R2 == got
    for part in (tr, te, fb):
        ln = {q: len(part[q]) for q in ("action", "position", "reward", "pscore", "context")}
        mon.check(set(ln.values()) == {part["n_rounds"]}, "lengths", f"{lab} test_size={test}: {part['n_rounds']} rounds, arrays of {ln}")
    mon.check(ok, "split", f"{lab} test_size={test}: {len(R1)} + {len(R2)} of {n} rounds")
    mon.check(tr["n_actions"] == te["n_actions"] == k, "split-actions", lab)
    if R2:
        v = make.calc_on_policy_policy_value_estimate(behavior_policy=pol, campaign=camp, data_path=path, test_size=test, is_timeseries_split=True)
        mon.close(v, np.mean([q[2] for q in R2]), "on-policy", f"{lab} test part", rtol=1e-12)
    # bootstrap
    for ts_ in (False, True):
        pool = R1 if ts_ else got
        if not pool:
            continue
        size = None if r.random() < 0.4 else int(r.integers(1, len(pool) + 1)) if r.random() < 0.9 else 0
        s = int(r.integers(1000))
        b = ds.sample_bootstrap_bandit_feedback(sample_size=size, test_size=test, is_timeseries_split=ts_, random_state=s)
        mon.ev("bootstrap-train" if ts_ else "bootstrap")
        want = len(pool) if size is None else size
        rb = records(b)
        ok = b["n_rounds"] == want == len(rb) and all(len(b[q]) == want for q in ("action", "position", "reward", "pscore", "context"))
        mon.check(ok, "bootstrap-size", f"{lab}: {b['n_rounds']}, {len(rb)} instead of {want}")
        mon.check(set(rb) <= set(pool), "bootstrap-rows", f"{lab} timeseries={ts_}: a resampled round is no row of the {'training part' if ts_ else 'file'}")
        b2 = ds.sample_bootstrap_bandit_feedback(sample_size=size, test_size=test, is_timeseries_split=ts_, random_state=s)
        mon.check(records(b2) == rb, "bootstrap-seed", lab)
        mon.raises(lambda: ds.sample_bootstrap_bandit_feedback(sample_size=len(pool) + 1, test_size=test, is_timeseries_split=ts_), "rejects", "sample size above the number of rounds")
    mon.check(records(ds.obtain_batch_bandit_feedback()) == got, "unchanged", f"{lab}: data changed by splitting or resampling")
    mon.sig(n, k, pol, camp, test, len(lev))
    mon.note(config=lab, first=got[0][:4])


def _file(r, case, mon, root):
    from obp.dataset import OpenBanditDataset

    dup = bool(r.random() < 0.4)
    pol, camp, df, ic, tie = write(r, root, dup=dup)
    if df.duplicated().any():
        mon.ev("duplicate-rows")
    if tie:
        mon.ev("ties")
    path = root if r.random() < 0.5 else Path(root)
    ds = OpenBanditDataset(behavior_policy=pol, campaign=camp, data_path=path)
    judge(r, mon, ds, OpenBanditDataset, df, ic, f"{pol}/{camp} n={len(df)} items={len(ic)} ties={tie}", pol, camp, path)
    other = "bts" if pol == "random" else "random"
    mon.raises(lambda: OpenBanditDataset(behavior_policy=other, campaign=camp, data_path=path), "rejects", "missing files")
    mon.raises(lambda: OpenBanditDataset(behavior_policy="ucb", campaign=camp, data_path=path), "rejects", "unknown policy")
    mon.raises(lambda: OpenBanditDataset(behavior_policy=pol, campaign="kids", data_path=path), "rejects", "unknown campaign")


def _bundled(r, case, mon, root):
    import obp.dataset
    from obp.dataset import OpenBanditDataset

    d = Path(obp.dataset.__file__).parent / "obd" / case["policy"] / case["campaign"]
    df = pd.read_csv(d / f"{case['campaign']}.csv", index_col=0)
    ic = pd.read_csv(d / "item_context.csv", index_col=0)
    ds = OpenBanditDataset(behavior_policy=case["policy"], campaign=case["campaign"])
    mon.ev("bundled")
    judge(r, mon, ds, OpenBanditDataset, df, ic, f"bundled {case['policy']}/{case['campaign']}", case["policy"], case["campaign"], None)


def _stat(r, case, mon, root):
    """bootstrap rows are uniform and independent over the pool"""
    from obp.dataset import OpenBanditDataset

    pol, camp, df, ic, tie = write(r, root, n=int(r.choice([40, 300])))
    ds = OpenBanditDataset(behavior_policy=pol, campaign=camp, data_path=root)
    ts_ = bool(r.random() < 0.5)
    fb = ds.obtain_batch_bandit_feedback(test_size=0.4, is_timeseries_split=True)[0] if ts_ else ds.obtain_batch_bandit_feedback()
    pool = {float(p): i for i, p in enumerate(fb["pscore"])}
    n = len(pool)
    idx = []
    s0 = int(r.integers(10**6))
    while len(idx) < 6000:
        b = ds.sample_bootstrap_bandit_feedback(test_size=0.4, is_timeseries_split=ts_, random_state=s0 + len(idx))
        idx += [pool[float(p)] for p in b["pscore"]]
    idx = np.array(idx)
    bins = np.minimum(idx * 8 // n, 7)
    p = np.bincount(np.arange(n) * 8 // n, minlength=8) / n
    stat.categorical(mon, bins, np.tile(p, (len(bins), 1)), "bootstrap-uniform", f"n={n} timeseries={ts_}")
    c = np.bincount(idx, minlength=n)
    for i in (int(c.argmin()), int(c.argmax())):
        lim = stat.bern_bound(len(idx) / n * (1 - 1 / n), 1.0)
        mon.check(abs(c[i] - len(idx) / n) <= lim + 1, "bootstrap-uniform", f"row {i} drawn {c[i]} times of {len(idx)}, {n} rows")
    mon.sig("stat", n, ts_)
