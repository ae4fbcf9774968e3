"""C25: replay of online policies over a log."""
import numpy as np

from .. import gen
from .c24 import Spy

RULE = ("logs x recording policies and library policies x list lengths x positions; the trace of policy calls and the returned action distribution are checked against the replay specification; non-trivial: distinct configurations")
ASSUMPTIONS = []
BUDGET = dict(quick=200, thorough=1500)
REQUIRED = ["replay", "match", "mismatch", "positions", "no-positions", "contextual", "contextfree", "library", "estimate", "rejects", "unlogged-actions"]


def cases(rng, tier):
    m = 3 if tier == "quick" else 20
    for _ in range(300 * m):
        yield dict(kind="spy")
    for _ in range(120 * m):
        yield dict(kind="library")


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


def log(r, k, L, d, n):
    ka = k if r.random() < 0.6 else max(1, k - 1)
    pos = None if L == 1 and r.random() < 0.5 else r.integers(0, L, n)
    y = gen.rewards(r, n, str(r.choice(["binary", "binary_int", "normal"])))
    return dict(n_rounds=n, n_actions=k, context=r.normal(size=(n, d)), action=r.integers(ka, size=n), position=pos, reward=y, pscore=gen.pscores(r, n)), ka < k


def _spy(r, case, mon):
    from obp.simulator.replay import run_bandit_replay

    ctx = bool(r.random() < 0.5)
    k = int(r.choice([2, 3, 5]))
    L = int(min(k, r.choice([1, 1, 2, 3])))
    d, n = int(r.choice([1, 3])), int(r.integers(1, 40))
    fb, un = log(r, k, L, d, n)
    pos = fb["position"]
    spy = Spy(ctx, k, r, L)
    keep = {u: None if v is None else np.copy(v) for u, v in fb.items()}
    out = np.asarray(run_bandit_replay(bandit_feedback=fb, policy=spy))
    lab = f"replay {'contextual' if ctx else 'context-free'} k={k} L={L} n={n} positions={'none' if pos is None else 'given'}"
    mon.ev("replay")
    mon.ev("contextual" if ctx else "contextfree")
    mon.ev("no-positions" if pos is None else "positions")
    if un:
        mon.ev("unlogged-actions")
    mon.check(all(np.array_equal(keep[u], fb[u]) if fb[u] is not None else keep[u] is None for u in keep), "inputs", f"{lab}: the log was altered")
    i = 0
    want = np.zeros((n, k, L))
    for t in range(n):
        if not mon.check(i < len(spy.log) and spy.log[i][0] == "select", "one-selection", f"{lab}: round {t}: no selection"):
            return
        _, x, sel = spy.log[i]
        i += 1
        if ctx and not mon.check(x is not None and np.array_equal(x, fb["context"][t : t + 1]), "context", f"{lab}: round {t} selected with another context"):
            return
        for p in range(L):
            want[t, sel[p], p] = 1
        hit = sel[0 if pos is None else pos[t]] == fb["action"][t]
        got = spy.log[i] if i < len(spy.log) and spy.log[i][0] == "update" else None
        if hit:
            mon.ev("match")
            i += got is not None
            ok = got is not None and got[1] == fb["action"][t] and got[2] == float(fb["reward"][t]) and (not ctx or np.array_equal(got[3], fb["context"][t : t + 1]))
        else:
            mon.ev("mismatch")
            ok = got is None
        if not mon.check(ok, "update-on-match", f"{lab}: round {t}: logged {fb['action'][t]} at {None if pos is None else pos[t]}, selected {sel}, update {None if got is None else got[1:3]}"):
            return
    mon.check(i == len(spy.log), "no-extra", f"{lab}: {len(spy.log) - i} further policy calls")
    mon.close(out, want, "action-dist", f"{lab}: returned distribution")
    if r.random() < 0.2:
        mon.ev("rejects")
        for key in ("action", "position", "reward", "pscore", "context"):
            bad = {u: v for u, v in fb.items() if u != key}
            mon.raises(lambda: run_bandit_replay(bandit_feedback=bad, policy=Spy(ctx, k, r, L)), "rejects", f"log without {key}")
    mon.sig("spy", ctx, k, L, pos is None, un, n)
    mon.note(config=lab, calls=len(spy.log))


def _library(r, case, mon):
    import obp.policy as P
    from obp.ope import ReplayMethod
    from obp.simulator.replay import run_bandit_replay

    k, d = int(r.choice([2, 4])), 2
    L = int(r.choice([1, 2]))
    n = int(r.choice([30, 80]))
    fb, un = log(r, k, L, d, n)
    fb["reward"] = r.integers(0, 2, n)
    which = str(r.choice(["EpsilonGreedy", "BernoulliTS", "LinUCB", "LinTS", "LogisticUCB", "LinEpsilonGreedy"]))
    ctx = which[0] == "L"
    kw = dict(n_actions=k, len_list=L, batch_size=int(r.choice([1, 3])), random_state=int(r.integers(10**4)))
    if ctx:
        kw["dim"] = d
    if not which.endswith("TS"):
        kw["epsilon"] = 0.2
    p, q = getattr(P, which)(**kw), getattr(P, which)(**kw)
    for _ in range(int(r.choice([0, 7]))):  # policies may already have learned
        a, y, x = int(r.integers(k)), int(r.integers(2)), r.normal(size=(1, d))
        for g in (p, q):
            sel = g.select_action(x) if ctx else g.select_action()
            g.update_params(a, y, x) if ctx else g.update_params(a, y)
    out = np.asarray(run_bandit_replay(bandit_feedback=fb, policy=p))
    pos = fb["position"] if fb["position"] is not None else np.zeros(n, int)
    want = np.zeros((n, k, L))
    hits = []
    for t in range(n):
        x = fb["context"][t : t + 1]
        sel = q.select_action(x) if ctx else q.select_action()
        want[t, sel, np.arange(L)] = 1
        if sel[pos[t]] == fb["action"][t]:
            hits.append(fb["reward"][t])
            q.update_params(int(fb["action"][t]), fb["reward"][t], x) if ctx else q.update_params(int(fb["action"][t]), fb["reward"][t])
    mon.ev("library")
    lab = f"{which} {kw} n={n}"
    mon.close(out, want, "library", f"{lab}: the replayed policy")
    same = []
    for _ in range(8):
        x = r.normal(size=(1, d))
        same.append(np.array_equal(*(g.select_action(x) if ctx else g.select_action() for g in (p, q))))
    mon.check(all(same) and p.n_trial == q.n_trial, "learned", f"{lab}: the policy that was replayed has not learned from the matched rounds ({p.n_trial} trials, expected {q.n_trial})")
    mon.ev("learned")
    mon.ev("estimate")
    v = ReplayMethod().estimate_policy_value(reward=fb["reward"], action=fb["action"], position=pos, action_dist=out)
    mon.close(v, float(np.mean(hits)) if hits else 0.0, "estimate", f"{lab}: replay estimate is not the average matched reward", rtol=1e-10)
    mon.sig("lib", which, k, L, kw["batch_size"], un)
