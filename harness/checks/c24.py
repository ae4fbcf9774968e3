"""C24: the bandit simulator delivers every reward once, at its time; ground-truth values by simulation."""
import math
from collections import Counter

import numpy as np

from .. import gen, stat

RULE = ("simulations with recording policies (context-free and contextual) x delay patterns (none, zero, constant, random per action, very long, library samplers) x ways of stepping (single, n rounds, given rounds, batches, "
        "mixtures) x flushes at random times; the trace of policy calls is checked against a queue specification; non-trivial: distinct configurations and delivery patterns")
ASSUMPTIONS = ["delays are whole numbers of rounds", "rewards are binary, as the environment draws them"]
BUDGET = dict(quick=250, thorough=2400)
REQUIRED = ["round", "delayed", "same-round", "flush", "flush-pending", "batch", "given", "contextual", "contextfree", "env", "env-round", "iterate", "stat-tests", "gt", "gt-real", "gt-positions", "real-policy", "long-delay", "many-at-once", "long-run"]


def cases(rng, tier):
    m = 3 if tier == "quick" else 20
    for _ in range(300 * m):
        yield dict(kind="trace")
    for _ in range(60 * m):
        yield dict(kind="real")
    for _ in range(80 * m):
        yield dict(kind="env")
    for _ in range(80 * m):
        yield dict(kind="gt")
    for _ in range(50 * m):
        yield dict(kind="gtreal")
    for j in range(6 * min(m, 4)):
        yield dict(kind="longrun", j=j)


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


class Spy:
    """a policy that records every call"""

    def __init__(self, ctx, k, g, L=1):
        from obp.policy.policy_type import PolicyType

        self.policy_type = PolicyType.CONTEXTUAL if ctx else PolicyType.CONTEXT_FREE
        self.policy_name, self.k, self.n_actions, self.g, self.L = "spy", k, k, g, L
        self.log = []

    def select_action(self, context=None):
        sel = self.g.permutation(self.k)[: self.L]
        self.log.append(("select", None if context is None else np.array(context), sel))
        return sel

    def update_params(self, action, reward, context=None):
        self.log.append(("update", int(action), float(reward), None if context is None else np.array(context)))


def delays(r, style, k):
    state = dict(n=0)

    def f(n_rounds=None, n_actions=None, expected_rewards=None, **kw):
        n = n_rounds if n_rounds is not None else expected_rewards.shape[0]
        state["n"] += n
        if style == "zero":
            D = np.zeros((n, k))
        elif style == "const":
            D = np.full((n, k), 3.0)
        elif style == "long":
            D = r.integers(0, 500, (n, k)).astype(float)
        elif style == "meet":  # long runs of rounds whose rewards all arrive together
            w = int(r.integers(6, 40))
            D = np.tile((w - 1 - np.arange(n) % w)[:, None], (1, k)).astype(float)
        elif style == "int":
            D = r.integers(0, 6, (n, k))
        else:
            D = np.ceil(r.exponential(4, (n, k)))
        return D

    return f


def rounds_of(r, n, k, d, style, binary=True):
    """hand-made bandit rounds"""
    from obp.simulator.simulator import BanditRounds

    D = None if style == "none" else delays(r, style, k)(n_rounds=n)
    return BanditRounds(n_rounds=n, n_actions=k, context=r.normal(size=(n, d)), action_context=np.eye(k), rewards=(r.random((n, k)) < 0.5).astype(int) if binary else np.round(r.normal(size=(n, k)) * 8) / 4, expected_rewards=r.random((n, k)), round_delays=D)


def check_trace(mon, lab, spy, plan, ctx):
    """plan: list of ('round', context, rewards, delays) and ('flush',) in order; None fields were drawn by the environment"""
    log = spy.log
    i = 0
    t = 0
    pend = {}  # due round -> rounds
    hist = []
    n_del = 0
    for ev in plan:
        if ev[0] == "round":
            if not mon.check(i < len(log) and log[i][0] == "select", "one-selection", f"{lab}: round {t}: expected a selection, trace has {log[i][:3] if i < len(log) else 'ended'}"):
                return
            _, x, sel = log[i]
            i += 1
            if ctx:
                if not mon.check(x is not None and x.shape == (1, len(ev[1])) and np.array_equal(x[0], ev[1]), "selection-context", f"{lab}: round {t} selected with another context"):
                    return
            a = int(sel[0])
            hist.append((a, float(ev[2][a]), ev[1]))
            if ev[3] is None:
                due = [t]
            else:
                pend.setdefault(t + int(ev[3][a]), []).append(t)
                due = pend.pop(t, [])
            mon.ev("round")
        else:
            if not mon.check(i < len(log) and log[i][0] == "flush", "no-extra", f"{lab}: policy calls after round {t - 1} outside a round"):
                return
            i += 1
            due = [q for v in pend.values() for q in v]
            if due:
                mon.ev("flush-pending")
            pend = {}
            mon.ev("flush")
        want = Counter()
        for q in due:
            a, y, x = hist[q]
            want[(a, y, x.tobytes() if ctx else None)] += 1
        got = Counter()
        seen = []
        while i < len(log) and log[i][0] == "update":
            _, a, y, x = log[i]
            if ctx and not mon.check(x is not None and x.shape == (1, len(hist[0][2])), "update-context", f"{lab}: update with context of shape {None if x is None else x.shape}"):
                return
            got[(a, y, np.ascontiguousarray(x[0]).tobytes() if ctx else None)] += 1
            seen.append((a, y))
            i += 1
        if len(due) > 5:
            mon.ev("many-at-once")
        if not mon.check(got == want, "exactly-once", f"{lab}: {'flush after' if ev[0] != 'round' else 'round'} {t}: rewards delivered {seen}, due {[hist[q][:2] for q in due]}"):
            return
        if ev[0] == "round":
            if ev[3] is not None:
                n_del += sum(1 for q in due if q != t)
                if t in due:
                    mon.ev("same-round")
            t += 1
    mon.check(i == len(log), "no-extra", f"{lab}: {len(log) - i} policy calls after the last round")
    if n_del:
        mon.ev("delayed", n_del)
    return hist


def _trace(r, case, mon):
    from obp.simulator.simulator import BanditEnvironmentSimulator, BanditPolicySimulator

    ctx = bool(r.random() < 0.6)
    k, d = int(r.choice([2, 3, 5])), int(r.choice([1, 3]))
    style = str(r.choice(["none", "zero", "const", "int", "exp", "long", "meet"]))
    mon.ev("contextual" if ctx else "contextfree")
    if style == "long":
        mon.ev("long-delay")
    spy = Spy(ctx, k, r, L=int(r.choice([1, 2])))
    drawn = []

    class Env(BanditEnvironmentSimulator):
        def next_bandit_round(self):
            out = super().next_bandit_round()
            drawn.append(out)
            return out

    env = Env(n_actions=k, dim_context=d, random_state=int(r.integers(10**4)), delay_function=None if style == "none" else delays(r, style, k))
    sim = BanditPolicySimulator(policy=spy, environment=env)
    binary = bool(r.random() < 0.5)  # rewards of given rounds
    if not binary:
        mon.ev("real-rewards")
    plan = []

    def took():
        while drawn:
            b = drawn.pop(0)
            plan.append(("round", np.asarray(b.context), np.asarray(b.rewards), b.round_delays))

    def flush():
        spy.log.append(("flush",))  # marks where the flush starts in the trace of policy calls
        sim.clear_delayed_queue()
        plan.append(("flush",))

    lab = f"{'contextual' if ctx else 'context-free'} delays={style} k={k} d={d}"
    for _ in range(int(r.integers(2, 8))):
        u = r.random()
        if u < 0.2:
            for _ in range(int(r.integers(1, 6))):
                sim.step()
                took()
        elif u < 0.4:
            sim.steps(n_rounds=int(r.integers(1, 25)))
            took()
        elif u < 0.44:
            B = rounds_of(r, int(r.integers(1, 20)), k, d, style, binary)
            mon.ev("steps-and-batch")
            sim.steps(n_rounds=int(r.integers(1, 9)), batch_bandit_rounds=B)
            took()
            plan += [("round", B.context[j], B.rewards[j], None if B.round_delays is None else B.round_delays[j]) for j in range(len(B))]
        elif u < 0.55:
            B = rounds_of(r, int(r.integers(1, 20)), k, d, style, binary)
            mon.ev("given")
            for b in B:
                sim.step(b)
            plan += [("round", B.context[j], B.rewards[j], None if B.round_delays is None else B.round_delays[j]) for j in range(len(B))]
        elif u < 0.85:
            mon.ev("batch")
            B = env.next_bandit_round_batch(int(r.integers(1, 25))) if r.random() < 0.5 else rounds_of(r, int(r.integers(1, 25)), k, d, style, binary)
            sim.steps(batch_bandit_rounds=B)
            plan += [("round", B.context[j], B.rewards[j], None if B.round_delays is None else B.round_delays[j]) for j in range(len(B))]
        else:
            flush()
    if r.random() < 0.6:
        flush()
        if r.random() < 0.5:
            flush()
    hist = check_trace(mon, lab, spy, plan, ctx)
    R = [e for e in plan if e[0] == "round"]
    if hist is not None and R:
        mon.check(np.array_equal(np.ravel(sim.selected_actions), [h[0] for h in hist]), "log-actions", f"{lab}: selected_actions")
        mon.check(np.array_equal(np.ravel(sim.obtained_rewards), [h[1] for h in hist]), "log-rewards", f"{lab}: obtained_rewards")
        mon.check(np.array_equal(sim.contexts, np.array([e[1] for e in R])), "log-contexts", f"{lab}: contexts")
        mon.check(np.array_equal(sim.ground_truth_rewards, np.array([e[2] for e in R])), "log-truth", f"{lab}: ground_truth_rewards")
        mon.check(float(sim.total_reward) == sum(h[1] for h in hist) and sim.rounds_played == len(R), "totals", f"{lab}: total_reward {sim.total_reward}, rounds {sim.rounds_played}")
    mon.sig("trace", ctx, k, d, style, tuple(e[0] for e in plan if e[0] != "round"), len(R))
    mon.note(config=lab, rounds=len(R), policy_calls=len(spy.log))


def _longrun(r, case, mon):
    """one long simulation: nothing is dropped or forgotten as the logs grow"""
    from obp.simulator.simulator import BanditPolicySimulator

    ctx = bool(r.random() < 0.5)
    k, d, n = 3, 1, int(r.integers(10500, 16000))
    style = ["none", "int", "long", "far", "rally", "far"][case["j"] % 6]
    spy = Spy(ctx, k, r)
    if style in ("far", "rally"):
        n = int(r.integers(5000, 7000))
        B = rounds_of(r, n, k, d, "int")
        t = np.arange(n)[:, None]
        if style == "far":
            B.round_delays = np.where(r.random((n, k)) < 0.4, r.integers(0, 4500, (n, k)), r.integers(0, 40, (n, k)))
        else:  # all rounds of a block become due together
            blk = int(r.choice([70, 300, 1500]))
            B.round_delays = np.tile((blk - 1 - t % blk), (1, k))
        B.round_delays = B.round_delays.astype(float if r.random() < 0.5 else int)
    else:
        B = rounds_of(r, n, k, d, style)
    sim = BanditPolicySimulator(policy=spy)
    plan = []
    cut = sorted(int(v) for v in r.integers(1, n, 2)) if style == "rally" or r.random() < 0.5 else []
    for j, b in enumerate(B):
        sim.step(b)
        plan.append(("round", B.context[j], B.rewards[j], None if B.round_delays is None else B.round_delays[j]))
        if j in cut or j == n - 1:
            spy.log.append(("flush",))
            sim.clear_delayed_queue()
            plan.append(("flush",))
    lab = f"long run of {n} rounds delays={style}"
    hist = check_trace(mon, lab, spy, plan, ctx)
    if hist is None:
        return
    mon.ev("long-run")
    mon.check(np.array_equal(np.ravel(sim.selected_actions), [h[0] for h in hist]), "log-actions", f"{lab}: selected_actions")
    mon.check(np.array_equal(np.ravel(sim.obtained_rewards), [h[1] for h in hist]), "log-rewards", f"{lab}: obtained_rewards")
    mon.check(np.array_equal(sim.contexts, B.context) and np.array_equal(sim.ground_truth_rewards, B.rewards), "log-contexts", f"{lab}: contexts or true rewards")
    mon.check(float(sim.total_reward) == sum(h[1] for h in hist) and sim.rounds_played == n, "totals", f"{lab}: total_reward {sim.total_reward}, rounds {sim.rounds_played}")
    mon.sig("long", ctx, style, n)


def _real(r, case, mon):
    """library policies end in the state that the delivered rewards imply"""
    import obp.policy as P
    from obp.simulator.simulator import BanditPolicySimulator

    k, d = int(r.choice([2, 4])), 2
    bs = int(r.choice([1, 3]))
    s = int(r.integers(10**4))
    which = str(r.choice(["EpsilonGreedy", "BernoulliTS", "LinUCB", "LinTS", "LogisticTS"]))
    ctx = which[0] == "L"

    def mk():
        kw = dict(n_actions=k, batch_size=bs, random_state=s)
        if ctx:
            kw["dim"] = d
        if which in ("LinUCB", "EpsilonGreedy"):
            kw["epsilon"] = 0.2
        return getattr(P, which)(**kw)

    p, q = mk(), mk()
    style = str(r.choice(["none", "const", "int", "exp"]))
    B = rounds_of(r, 60, k, d, style)
    sim = BanditPolicySimulator(policy=p)
    sim.steps(batch_bandit_rounds=B)
    sim.clear_delayed_queue()
    # independent loop
    pend, sel = [], []

    def up(t):
        kw = dict(action=sel[t], reward=B.rewards[t, sel[t]])
        if ctx:
            kw["context"] = B.context[t : t + 1]
        q.update_params(**kw)

    for t in range(60):
        sel.append(int((q.select_action(B.context[t : t + 1]) if ctx else q.select_action())[0]))
        if style == "none":
            up(t)
        else:
            pend.append((t + int(B.round_delays[t, sel[t]]), t))
            for w, i in pend:
                if w == t:
                    up(i)
            pend = [(w, i) for w, i in pend if w != t]
    mon.ev("real-policy")
    mon.check(np.array_equal(np.ravel(sim.selected_actions), sel), "real-policy", f"{which} batch={bs} delays={style}: the simulated selections differ from an independent loop")
    mon.sig("real", which, bs, style, k)


def _env(r, case, mon):
    from obp.simulator.simulator import BanditEnvironmentSimulator

    k, d, n = int(r.choice([2, 4])), int(r.choice([1, 3])), int(r.choice([1, 7, 600]))
    seed = int(r.integers(10**4))
    ac = r.normal(size=(k, 2)) if r.random() < 0.4 else None
    calls = []

    def rf(context, action_context, random_state=None, coef_function=None, **kw):
        v = 1 / (1 + np.exp(-(context.sum(1)[:, None] + action_context.sum(1) * 0.5 + np.arange(k) * 0.3)))
        calls.append((np.array(context), np.array(action_context), random_state))
        return v

    dcalls = []

    def df(n_rounds=None, n_actions=None, expected_rewards=None, **kw):
        D = np.ceil(expected_rewards * 10 + np.arange(k))
        dcalls.append((n_rounds, n_actions, np.array(expected_rewards)))
        return D

    custom, delayed = bool(r.random() < 0.6), bool(r.random() < 0.5)
    kw = dict(n_actions=k, dim_context=d, random_state=seed, reward_function=rf if custom else None, delay_function=df if delayed else None, action_context=ac)
    env = BanditEnvironmentSimulator(**kw)
    lab = f"environment k={k} d={d} n={n} custom={custom} delays={delayed}"
    mon.ev("env")
    A = ac if ac is not None else np.eye(k)
    Q0 = None
    Cs, Rs, Qs = [], [], []
    for b in range(3):
        B = env.next_bandit_round_batch(n)
        x, y, q = np.asarray(B.context), np.asarray(B.rewards), np.asarray(B.expected_rewards)
        ok = x.shape == (n, d) and y.shape == (n, k) and q.shape == (n, k) and len(B) == n and B.n_rounds == n and B.n_actions == k
        if not mon.check(ok, "shapes", f"{lab}: {x.shape} {y.shape} {q.shape}"):
            return
        mon.check(np.isin(y, [0, 1]).all(), "binary", lab)
        mon.check(np.array_equal(B.action_context, A), "action-context", lab)
        if custom:
            mon.close(q, rf(x, A), "expected-reward", f"{lab}: expected rewards of a batch")
        else:
            if Q0 is None:
                Q0 = q[0].copy()
                mon.check((Q0 >= 0).all() and (Q0 <= 1).all() and len(set(Q0.tolist())) == k, "contextfree-reward", f"{lab}: {Q0}")
            mon.close(q, np.tile(Q0, (n, 1)), "contextfree-reward", f"{lab}: fixed expected rewards")
        if delayed:
            mon.close(B.round_delays, np.ceil(q * 10 + np.arange(k)), "delays", f"{lab}: delays of a batch")
        else:
            mon.check(B.round_delays is None, "delays", lab)
        for rep in range(2):
            items = list(B)
            mon.ev("iterate")
            good = len(items) == n and all(np.array_equal(it.context, x[j]) and np.array_equal(it.rewards, y[j]) and np.array_equal(it.expected_rewards, q[j])
                                           and (it.round_delays is None if not delayed else np.array_equal(it.round_delays, B.round_delays[j])) for j, it in enumerate(items))
            mon.check(good, "iterate", f"{lab}: pass {rep} over a batch does not yield its {n} rounds in order")
        Cs.append(x)
        Rs.append(y)
        Qs.append(q)
    for _ in range(3):
        o = env.next_bandit_round()
        mon.ev("env-round")
        ok = np.shape(o.context) == (d,) and np.shape(o.rewards) == (k,) and np.shape(o.expected_rewards) == (k,)
        if mon.check(ok, "round-shape", f"{lab}: single round {np.shape(o.context)} {np.shape(o.rewards)}"):
            mon.close(o.expected_rewards, rf(np.asarray(o.context)[None], A)[0] if custom else Q0, "expected-reward", f"{lab}: a single round")
            mon.check(np.isin(o.rewards, [0, 1]).all(), "binary", lab)
            if delayed:
                mon.close(o.round_delays, np.ceil(np.asarray(o.expected_rewards) * 10 + np.arange(k)), "delays", f"{lab}: delays of a round")
    x, y, q = np.concatenate(Cs), np.concatenate(Rs), np.concatenate(Qs)
    mon.check(len({v.tobytes() for v in x}) == len(x), "fresh-contexts", f"{lab}: contexts repeat")
    if n > 100:
        for j in range(k):
            for g in (np.ones(len(x)), np.sign(x[:, 0])):
                stat.mean_zero(mon, g * (y[:, j] - q[:, j]), q[:, j] * (1 - q[:, j]), 1.0, "reward-distribution", f"{lab}: rewards of action {j}")
        e = y - q
        v = q * (1 - q)
        stat.mean_zero(mon, e[:, 0] * e[:, 1], v[:, 0] * v[:, 1], 1.0, "reward-independent", f"{lab}: rewards of two actions")
        from scipy.stats import norm

        for j in range(d):
            stat.dkw(mon, norm.cdf(x[:, j]), "context-normal", f"{lab}: context {j}")
        X = r.normal(size=(400, d))
        Y = np.asarray(env.sample_reward(X))
        Q = rf(X, A) if custom else np.tile(Q0, (400, 1))
        for j in range(k):
            stat.mean_zero(mon, Y[:, j] - Q[:, j], Q[:, j] * (1 - Q[:, j]), 1.0, "sample-reward", f"{lab}: sample_reward")
    e2 = BanditEnvironmentSimulator(**kw)
    B2 = e2.next_bandit_round_batch(n)
    mon.check(np.array_equal(B2.context, Cs[0]) and np.array_equal(B2.rewards, Rs[0]), "seed", f"{lab}: equal seeds, different rounds")
    e3 = BanditEnvironmentSimulator(**{**kw, "random_state": seed + 1})
    mon.check(not np.array_equal(e3.next_bandit_round_batch(n).context, Cs[0]), "seed", f"{lab}: another seed gives the same rounds")
    mon.sig("env", k, d, n, custom, delayed, ac is None)


GLOG = []


class GSpy:
    """recording policy that survives deepcopy: calls go to a module-level log, its own state counts updates"""

    def __init__(self, ctx, k, L, seed):
        from obp.policy.policy_type import PolicyType

        self.policy_type = PolicyType.CONTEXTUAL if ctx else PolicyType.CONTEXT_FREE
        self.k, self.L, self.n, self.policy_name, self.n_actions = k, L, 0, "g", k
        self.state = [seed]

    def select_action(self, context=None):
        g = np.random.default_rng(abs(hash((tuple(self.state), self.n))) % 2**32)
        sel = g.permutation(self.k)[: self.L]
        GLOG.append(("select", self.n, None if context is None else np.array(context), sel))
        return sel

    def update_params(self, action, reward, context=None):
        self.n += 1
        self.state.append(int(action) * 2 + int(np.ravel(reward)[0]))
        GLOG.append(("update", self.n, int(action), float(np.ravel(reward)[0]), None if context is None else np.array(context)))


def _gt(r, case, mon):
    from obp.simulator import calc_ground_truth_policy_value

    ctx = bool(r.random() < 0.6)
    k, d, n = int(r.choice([2, 3, 5])), int(r.choice([1, 3])), int(r.integers(1, 25))
    L = int(min(k, r.choice([1, 2, 3])))
    sims = int(r.choice([1, 2, 5]))
    x, q = r.normal(size=(n, d)), r.random((n, k))
    pos = None if L == 1 and r.random() < 0.5 else r.integers(0, L, n)
    if pos is not None and L > 1:
        mon.ev("gt-positions")
    fb = dict(n_rounds=n, n_actions=k, context=x, action=r.integers(k, size=n), reward=r.random(n), expected_reward=q, position=pos, pscore=np.ones(n))
    smp = []

    def sampler(context, action):
        y = np.array([int(r.random() < 0.5)])
        smp.append((np.array(context), int(np.ravel(action)[0]), float(y[0])))
        return y

    pol = GSpy(ctx, k, L, int(r.integers(100)))
    GLOG.clear()
    keep = {u: None if v is None else np.copy(v) for u, v in fb.items()}
    v = calc_ground_truth_policy_value(bandit_feedback=fb, reward_sampler=sampler, policy=pol, n_sim=sims)
    lab = f"calc_ground_truth_policy_value {'contextual' if ctx else 'context-free'} n={n} k={k} L={L} n_sim={sims} positions={'none' if pos is None else 'given'}"
    mon.ev("gt")
    mon.check(pol.n == 0 and len(pol.state) == 1, "gt-pure", f"{lab}: the given policy was trained")
    mon.check(all(np.array_equal(keep[u], fb[u]) if fb[u] is not None else keep[u] is None for u in keep), "gt-inputs", f"{lab}: the feedback was altered")
    if not mon.check(len(GLOG) == 2 * n * sims and len(smp) == n * sims, "gt-calls", f"{lab}: {len(GLOG)} policy calls, {len(smp)} rewards drawn, for {n * sims} rounds"):
        return
    tot = []
    for s in range(sims):
        for t in range(n):
            S, U, R = GLOG[2 * (s * n + t)], GLOG[2 * (s * n + t) + 1], smp[s * n + t]
            a = int(S[3][0 if pos is None else pos[t]]) if S[0] == "select" else -1
            ok = S[0] == "select" and U[0] == "update" and S[1] == t and U[1] == t + 1
            if not mon.check(ok, "gt-fresh", f"{lab}: simulation {s} round {t}: {S[:2]} {U[:2]} (every simulation starts from the given policy)"):
                return
            ok = U[2] == a and U[3] == R[2] and R[1] == a and np.array_equal(np.ravel(R[0]), x[t]) and (not ctx or (np.array_equal(S[2], x[t : t + 1]) and np.array_equal(U[4], x[t : t + 1])))
            if not mon.check(ok, "gt-round", f"{lab}: simulation {s} round {t}: selected {S[3]}, reward drawn for {R[1]}, updated with {U[2:4]}"):
                return
            tot.append(q[t, a])
    mon.close(v, math.fsum(tot) / (sims * n), "gt-value", lab, rtol=1e-10)
    mon.sig("gt", ctx, k, L, sims, pos is None)


def _gtreal(r, case, mon):
    """the library's own policies: the value is that of an independently driven copy of the policy"""
    import copy

    import obp.policy as P
    from obp.simulator import calc_ground_truth_policy_value

    k, d, n = int(r.choice([2, 3, 5])), int(r.choice([1, 2, 3])), int(r.integers(1, 40))
    L, bs, sims = int(min(k, r.choice([1, 2]))), int(r.choice([1, 2, 3, 7])), int(r.choice([1, 3]))
    name = str(r.choice(["EpsilonGreedy", "BernoulliTS", "LinEpsilonGreedy", "LinUCB", "LinTS", "LogisticEpsilonGreedy", "LogisticUCB", "LogisticTS"]))
    ctx = name.startswith("L")
    kw = dict(n_actions=k, len_list=L, batch_size=bs, random_state=int(r.integers(1000)))
    if ctx:
        kw["dim"] = d
    if "TS" not in name:
        kw["epsilon"] = float(r.choice([0.0, 0.3, 1.0]))
    pol = getattr(P, name)(**kw)
    x, q = r.normal(size=(n, d)), r.random((n, k))
    pos = None if L == 1 and r.random() < 0.5 else r.integers(0, L, n)
    for _ in range(int(r.choice([0, 5]))):  # the given state need not be the initial one
        a, y, c = int(r.integers(k)), int(r.integers(2)), r.normal(size=(1, d))
        pol.update_params(a, y, c) if ctx else pol.update_params(a, y)
    shape = str(r.choice(["array", "float"]))

    def reward(c, a):
        return int(np.sin(37 * np.ravel(c)[0] + 11 * a) > 0)

    def sampler(context, action):
        y = reward(context, int(np.ravel(action)[0]))
        return np.array([y]) if shape == "array" else float(y)

    fb = dict(n_rounds=n, n_actions=k, context=x, action=r.integers(k, size=n), reward=r.random(n), expected_reward=q, position=pos, pscore=np.ones(n))
    twin = copy.deepcopy(pol)
    v = calc_ground_truth_policy_value(bandit_feedback=fb, reward_sampler=sampler, policy=pol, n_sim=sims)
    mon.ev("gt-real")
    tot = []
    for _ in range(sims):
        g = copy.deepcopy(twin)
        for t in range(n):
            c = x[t : t + 1]
            a = int((g.select_action(c) if ctx else g.select_action())[0 if pos is None else pos[t]])
            tot.append(q[t, a])
            g.update_params(a, reward(c, a), c) if ctx else g.update_params(a, reward(c, a))
    mon.close(v, math.fsum(tot) / (sims * n), "gt-real", f"calc_ground_truth_policy_value of {name} n={n} k={k} L={L} batch={bs} n_sim={sims}", rtol=1e-9)
    mon.sig("gtreal", name, k, L, bs, sims, pos is None)
