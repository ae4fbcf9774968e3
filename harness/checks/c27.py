"""C27: unbiasedness on fully enumerated problems, and agreement of estimates from generated data with the reported ground truth."""
import math
from itertools import product

import numpy as np

from .. import stat
from . import c14

RULE = ("small problems (contexts, positions, actions, behaviour and evaluation policies with full or partial overlap, wrong reward models) whose complete space of logs is enumerated and the library's estimate of every log weighted by its probability; "
        "slates, loggers, embeddings likewise; kernel estimates integrated over the action space; generated data x estimators against the reported ground-truth value; non-trivial: distinct problems and number of logs enumerated")
ASSUMPTIONS = ["the behaviour policy supports the evaluation policy", "statistical oracles have false-alarm probability below 1e-10 each", "embedding problems have one embedding dimension and no direct effect of actions"]
BUDGET = dict(quick=250, thorough=2400)
REQUIRED = ["logs", "ipw", "dr", "other-dr", "dm-exact", "multi", "multi-bal", "slate", "cascade-dr", "rips", "iips", "mips", "kernel", "pipeline", "pipeline-multi", "pipeline-slate", "pipeline-embed", "pipeline-class", "positions", "partial-overlap", "stat-tests"]


def cases(rng, tier):
    m = 3 if tier == "quick" else 15
    for kind, c in (("single", 70), ("multi", 40), ("slate", 50), ("embed", 30), ("kernel", 60), ("pipe", 24), ("pipemulti", 12), ("pipeslate", 16), ("pipeembed", 10), ("pipeclass", 8)):
        for _ in range(c * m):
            yield dict(kind=kind)


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


def policy(r, n, k, L, support=None):
    p = r.dirichlet(np.full(k, float(r.choice([0.4, 1.0, 5.0]))), size=(n, L)).transpose(0, 2, 1) + 1e-3
    if support is not None:
        p = p * support
    return p / p.sum(1, keepdims=True)


def _single(r, case, mon):
    import obp.ope as O

    n, k = int(r.choice([1, 2, 3])), int(r.choice([2, 3]))
    L = int(r.choice([1, 2]))
    pos = r.integers(0, L, n)
    if L > 1:
        mon.ev("positions")
    sup = np.ones((n, k, L))
    if r.random() < 0.4:
        mon.ev("partial-overlap")
        for i in range(n):
            for l in range(L):
                sup[i, r.integers(k), l] = 0
    pe = policy(r, n, k, L, sup)
    full = bool(r.random() < 0.5)
    pb = policy(r, n, k, L, np.ones((n, k, L)) if full else sup)
    q = r.random((n, k, L)) if r.random() < 0.7 else r.normal(size=(n, k, L))
    binary = (q >= 0).all() and (q <= 1).all()
    qhat = r.normal(size=(n, k, L))
    if r.random() < 0.2:
        qhat[:] = 0
    ix = np.arange(n)
    V = math.fsum((pe[ix, :, pos] * q[ix, :, pos]).sum(1)) / n
    ests = {"ipw": O.InverseProbabilityWeighting(), "dr": O.DoublyRobust(), "dros": O.DoublyRobustWithShrinkage(lambda_=float("inf")), "switch": O.SwitchDoublyRobust(lambda_=float("inf")),
            "sgipw": O.SubGaussianInverseProbabilityWeighting(lambda_=0.0), "sgdr": O.SubGaussianDoublyRobust(lambda_=0.0), "dm": O.DirectMethod()}
    if r.random() < 0.4:
        # a clipped estimator whose threshold is above every weight
        top = float((pe / np.where(pb > 0, pb, 1)).max()) * 1.01 + 1
        ests.update(ipw=O.InverseProbabilityWeighting(lambda_=top), dr=O.DoublyRobust(lambda_=top), switch=O.SwitchDoublyRobust(lambda_=top))
    tot = {e: [] for e in ests}
    ptot = []
    lab = f"n={n} k={k} L={L} {'full' if full else 'partial'} overlap"
    # all logs: actions of every round, rewards binary when the problem is, otherwise at their expectation
    opts = []
    for i in range(n):
        o = []
        for a in range(k):
            p = pb[i, a, pos[i]]
            if p == 0:
                continue
            e = q[i, a, pos[i]]
            o += [(a, 1.0, p * e), (a, 0.0, p * (1 - e))] if binary else [(a, e, p)]
        opts.append(o)
    for lg in product(*opts):
        a, y = np.array([o[0] for o in lg]), np.array([o[1] for o in lg])
        w = math.prod(o[2] for o in lg)
        ps = pb[ix, a, pos]
        ptot.append(w)
        for e, est in ests.items():
            kw = dict(reward=y, action=a, action_dist=pe, position=pos.copy())
            if e != "dm":
                kw["pscore"] = ps
            if e in ("dr", "dros", "switch", "sgdr"):
                kw["estimated_rewards_by_reg_model"] = qhat
            if e == "dm":
                kw["estimated_rewards_by_reg_model"] = q
            tot[e].append(w * float(est.estimate_policy_value(**kw)))
    mon.ev("logs", len(ptot))
    assert abs(math.fsum(ptot) - 1) < 1e-9
    for e, v in tot.items():
        mon.ev({"ipw": "ipw", "dr": "dr", "dm": "dm-exact"}.get(e, "other-dr"))
        mon.close(math.fsum(v), V, "unbiased", f"{e} {lab}: expectation over all {len(ptot)} logs is not the policy value", rtol=1e-8, atol=1e-9)
    mon.sig("single", n, k, L, full, binary, len(ptot))
    mon.note(problem=lab, logs=len(ptot), policy_value=V, expectations={e: math.fsum(v) for e, v in tot.items()})


def _multi(r, case, mon):
    import obp.ope as O

    k, K = int(r.choice([2, 3])), int(r.choice([2, 3]))
    n = int(r.choice([2, 3])) if k == 3 else int(r.choice([2, 3, 4]))
    K = min(K, n)
    st = np.r_[np.arange(K), r.integers(0, K, n - K)]
    r.shuffle(st)
    pe = policy(r, n, k, 1)
    q = r.random((n, k))
    # a single context, so that the balanced estimators average over loggers exactly
    pe[:] = pe[:1]
    q[:] = q[:1]
    beh = policy(r, K, k, 1)[:, :, 0]
    share = np.bincount(st, minlength=K) / n
    avg = share @ beh
    qhat = r.normal(size=(1, k, 1)).repeat(n, 0)
    V = float(pe[0, :, 0] @ q[0])
    ests = {"naive-ipw": O.MultiLoggersNaiveInverseProbabilityWeighting(), "naive-dr": O.MultiLoggersNaiveDoublyRobust(), "bal-ipw": O.MultiLoggersBalancedInverseProbabilityWeighting(), "bal-dr": O.MultiLoggersBalancedDoublyRobust()}
    tot = {e: [] for e in ests}
    ix = np.arange(n)
    cnt = 0
    for a in product(range(k), repeat=n):
        a = np.array(a)
        w = math.prod(beh[st[i], a[i]] for i in range(n))
        y = q[ix, a]
        cnt += 1
        for e, est in ests.items():
            kw = dict(reward=y, action=a, action_dist=pe)
            kw["pscore_avg" if e.startswith("bal") else "pscore"] = avg[a] if e.startswith("bal") else beh[st, a]
            if e.endswith("dr"):
                kw["estimated_rewards_by_reg_model"] = qhat
            tot[e].append(w * float(est.estimate_policy_value(**kw)))
    mon.ev("logs", cnt)
    for e, v in tot.items():
        mon.ev("multi-bal" if e.startswith("bal") else "multi")
        mon.close(math.fsum(v), V, "unbiased-multi", f"{e} n={n} k={k} loggers={K}: expectation over all {cnt} logs is not the policy value", rtol=1e-8, atol=1e-9)
    mon.sig("multi", n, k, K, tuple(np.bincount(st, minlength=K)))


def _slate(r, case, mon):
    import obp.dataset as D
    import obp.ope as O

    fact, k, L = c14.config(r)
    if k**L > 130:
        k = 4
    le, lb = r.normal(size=(1, k)) * float(r.choice([0.3, 1.5])), r.normal(size=(1, k)) * float(r.choice([0.3, 1.5]))
    ds = D.SyntheticSlateBanditDataset(n_unique_action=k, len_list=L, dim_context=1, is_factorizable=fact, random_state=int(r.integers(1000)))
    S = c14.slates(k, L, fact)
    table = r.random((k,) * L + (L,))
    struct = str(r.choice(["any", "cascade", "independent"]))
    q1 = r.random((L, k))

    def q(s):
        if struct == "any":
            return np.array([table[s + (l,)] for l in range(L)])
        if struct == "cascade":
            return np.array([table[s[: l + 1] + (0,) * (L - l - 1) + (l,)] for l in range(L)])
        return np.array([q1[l, s[l]] for l in range(L)])

    qh = {}

    def qhat(s):
        out = np.zeros((L, k))
        for l in range(L):
            key = s[:l]
            if key not in qh:
                qh[key] = r.normal(size=k)
            out[l] = qh[key]
        return out

    names = ["sips"] + (["rips", "cascade-dr"] if struct != "any" else []) + (["iips"] if struct == "independent" else [])
    tot = {e: [] for e in names}
    V = []
    for s in S:
        a = np.array(s)
        B = ds.obtain_pscore_given_evaluation_policy_logit(action=a, evaluation_policy_logit_=lb)
        E = ds.obtain_pscore_given_evaluation_policy_logit(action=a, evaluation_policy_logit_=le)
        wb, we = math.prod(c14.seq_probs(lb[0], fact, s)), math.prod(c14.seq_probs(le[0], fact, s))
        y = q(s)
        V.append(we * y.sum())
        base = dict(slate_id=np.zeros(L, int), reward=y, position=np.arange(L))
        for e in names:
            if e == "sips":
                v = O.SlateStandardIPS(len_list=L).estimate_policy_value(pscore=B[0], evaluation_policy_pscore=E[0], **base)
            elif e == "iips":
                v = O.SlateIndependentIPS(len_list=L).estimate_policy_value(pscore_item_position=B[1], evaluation_policy_pscore_item_position=E[1], **base)
            elif e == "rips":
                v = O.SlateRewardInteractionIPS(len_list=L).estimate_policy_value(pscore_cascade=B[2], evaluation_policy_pscore_cascade=E[2], **base)
            else:
                ad = ds.calc_evaluation_policy_action_dist(action=a, evaluation_policy_logit_=le)
                v = O.SlateCascadeDoublyRobust(len_list=L, n_unique_action=k).estimate_policy_value(action=a, pscore_cascade=B[2], evaluation_policy_pscore_cascade=E[2], q_hat=qhat(s).ravel(), evaluation_policy_action_dist=np.asarray(ad), **base)
            tot[e].append(wb * float(v))
    mon.ev("logs", len(S))
    for e, v in tot.items():
        mon.ev("slate" if e == "sips" else e)
        mon.close(math.fsum(v), math.fsum(V), "unbiased-slate", f"{e} k={k} L={L} factorizable={fact} reward={struct}: expectation over all {len(S)} slates is not the policy value", rtol=1e-6, atol=1e-7)
    mon.sig("slate", fact, k, L, struct)
    mon.note(problem=f"k={k} L={L} factorizable={fact} reward={struct}", slates=len(S), policy_value=math.fsum(V), expectations={e: math.fsum(v) for e, v in tot.items()})


def _embed(r, case, mon):
    from obp.ope import MarginalizedInverseProbabilityWeighting

    n, k, c = int(r.choice([1, 2])), int(r.choice([2, 3, 4])), int(r.choice([2, 3]))
    L = int(r.choice([1, 2]))
    pos = r.integers(0, L, n)
    sup = np.ones((n, k, L))
    pe = policy(r, n, k, L)
    if r.random() < 0.5:
        sup[:, r.integers(k), :] = 0  # common embedding support is enough
    pb = policy(r, n, k, L, sup)
    pea = r.dirichlet(np.ones(c), size=k)[:, :, None] + 1e-3
    pea /= pea.sum(1, keepdims=True)
    q = r.random((n, c))
    ix = np.arange(n)
    V = float(np.mean([(pe[i, :, pos[i]] @ pea[:, :, 0]) @ q[i] for i in range(n)]))
    est = MarginalizedInverseProbabilityWeighting(n_actions=k)
    tot, W = [], []
    for lg in product(product(range(k), range(c)), repeat=n):
        a, e = np.array([u[0] for u in lg]), np.array([u[1] for u in lg])
        w = math.prod(pb[i, a[i], pos[i]] * pea[a[i], e[i], 0] for i in range(n))
        if w == 0:
            continue
        W.append(w)
        tot.append(w * float(est.estimate_policy_value(reward=q[ix, e], action=a, action_embed=e[:, None], pi_b=pb, action_dist=pe, p_e_a=pea, position=pos, context=np.zeros((n, 1)))))
    mon.ev("logs", len(W))
    mon.ev("mips")
    mon.close(math.fsum(tot), V, "unbiased-mips", f"MIPS n={n} k={k} embeddings={c} L={L}: expectation over all {len(W)} logs is not the policy value", rtol=1e-8, atol=1e-9)
    mon.sig("embed", n, k, c, L, sup.min() == 0)


KV = dict(gaussian=1.0, epanechnikov=0.2, triangular=1 / 6, cosine=1 - 8 / math.pi**2)


def _kernel(r, case, mon):
    """the kernel estimate integrated over all logged actions is the kernel-smoothed value: exact for a linear reward, biased by h^2/2 q'' Var(K) for a quadratic one"""
    import obp.ope as O

    kern = str(r.choice(sorted(KV)))
    h = float(r.choice([0.05, 0.3, 1.0]))
    a0 = float(r.normal())
    N = 4001
    half = h * (9 if kern == "gaussian" else 1)
    lo, hi = a0 - half * 1.3, a0 + half * 1.1
    a = lo + (np.arange(N) + 0.5) / N * (hi - lo)
    c = r.normal(size=3)
    quad = bool(r.random() < 0.5)
    y = c[0] + c[1] * a + (c[2] * a**2 if quad else 0)
    # stratified uniform logging: the average over rounds is the integral over the action space
    ps = np.full(N, 1 / (hi - lo))
    pi = np.full(N, a0)
    qhat = np.full(N, float(r.normal()))
    want = c[0] + c[1] * a0 + (c[2] * (a0**2 + h * h * KV[kern]) if quad else 0)
    est = O.KernelizedInverseProbabilityWeighting(kernel=kern, bandwidth=h)
    v = est.estimate_policy_value(reward=y, action_by_behavior_policy=a, pscore=ps, action_by_evaluation_policy=pi)
    tol = 2e-5 * (1 + np.abs(y).max()) * (1 + (hi - lo) / h)
    mon.ev("kernel")
    lab = f"{kern} kernel h={h} {'quadratic' if quad else 'linear'} reward"
    mon.close(v, want, "kernel-value", f"{lab}: integral of the kernel IPW terms", rtol=0, atol=tol)
    est = O.KernelizedDoublyRobust(kernel=kern, bandwidth=h)
    v = est.estimate_policy_value(reward=y, action_by_behavior_policy=a, pscore=ps, action_by_evaluation_policy=pi, estimated_rewards_by_reg_model=qhat)
    mon.close(v, want, "kernel-value", f"{lab}: integral of the kernel DR terms", rtol=0, atol=tol * (1 + abs(qhat[0])))
    est = O.KernelizedSelfNormalizedInverseProbabilityWeighting(kernel=kern, bandwidth=h)
    v = est.estimate_policy_value(reward=y, action_by_behavior_policy=a, pscore=ps, action_by_evaluation_policy=pi)
    mon.close(v, want, "kernel-value", f"{lab}: self-normalised", rtol=0, atol=tol)
    mon.sig("kernel", kern, h, quad)


def bern(mon, terms_var, bound, diff, n, key, msg):
    lim = stat.bern_bound(float(terms_var), float(bound)) / n
    mon.ev("stat-tests")
    mon.check(abs(diff) <= lim, key, f"{msg}: off by {diff:.5f}, limit {lim:.5f}")


def _pipe(r, case, mon):
    import obp.dataset as D
    import obp.ope as O

    n, k = 2500, int(r.choice([2, 4]))
    rt = str(r.choice(["binary", "binary", "continuous"]))
    rf = D.logistic_reward_function if rt == "binary" else D.linear_reward_function
    beta = float(r.choice([-1.0, 0.0, 1.0]))
    ds = D.SyntheticBanditDataset(n_actions=k, dim_context=3, reward_type=rt, reward_function=rf, beta=beta, random_state=int(r.integers(10**4)))
    f = ds.obtain_batch_bandit_feedback(n_rounds=n)
    q, pb = np.asarray(f["expected_reward"]), np.asarray(f["pi_b"])[:, :, 0]
    style = str(r.choice(["softmax", "greedy", "random"]))
    ev = policy(r, n, k, 1) if style == "random" else (0.8 * (q == (q.max(1) if r.random() < 0.5 else q.min(1))[:, None]) + 0.2 / k)[:, :, None] if style == "greedy" else np.exp(q * 2)[:, :, None] / np.exp(q * 2).sum(1)[:, None, None]
    ev = np.asarray(ev, float)
    V = float(ds.calc_ground_truth_policy_value(expected_reward=q, action_dist=ev))
    # half of the evaluation: run through the OPE object
    qhat = (q + r.normal(size=q.shape) * 0.3)[:, :, None]
    ope = O.OffPolicyEvaluation(bandit_feedback=f, ope_estimators=[O.InverseProbabilityWeighting(), O.DoublyRobust(), O.SelfNormalizedInverseProbabilityWeighting()])
    got = ope.estimate_policy_values(action_dist=ev, estimated_rewards_by_reg_model=qhat)
    s2 = q * (1 - q) if rt == "binary" else np.full(q.shape, float(getattr(ds, "reward_std", 1.0)) ** 2)
    w = ev[:, :, 0] / pb
    lab = f"synthetic {rt} k={k} beta={beta} evaluation={style}"
    mon.ev("pipeline")
    # variances given the contexts; binary rewards bound the terms, continuous rewards are treated as Gaussian through a 9-sigma range
    for e, c in (("ipw", 0 * q), ("dr", qhat[:, :, 0])):
        m = w * (q - c)
        var = (pb * (w**2 * s2 + m**2)).sum(1) - (pb * m).sum(1) ** 2
        amp = 1.0 if rt == "binary" else 9 * float(np.sqrt(s2.max()))
        bound = float((w * (np.abs(q - c) + amp)).max()) * 2
        bern(mon, var.sum(), bound, got[e] - V, n, "pipeline", f"{lab}: {e} estimate {got[e]:.4f} against the ground truth {V:.4f}")
    mon.sig("pipe", rt, k, beta, style)
    mon.note(config=lab, estimates={u: float(x) for u, x in got.items()}, truth=V)


def _pipemulti(r, case, mon):
    import obp.dataset as D
    import obp.ope as O

    n, k = 2500, int(r.choice([2, 4]))
    betas = [float(b) for b in r.choice([-1.0, 0.0, 1.5], size=int(r.choice([1, 2, 3])))]
    rhos = [float(b) for b in r.choice([1.0, 2.0], size=len(betas))]
    ds = D.SyntheticMultiLoggersBanditDataset(n_actions=k, dim_context=3, betas=betas, rhos=rhos, reward_function=D.logistic_reward_function, random_state=int(r.integers(10**4)))
    f = ds.obtain_batch_bandit_feedback(n_rounds=n)
    q, pb = np.asarray(f["expected_reward"]), np.asarray(f["pi_b"])[:, :, 0]
    pa = np.asarray(f["pi_b_avg"])[:, :, 0]
    ev = np.exp(q * 2)[:, :, None] / np.exp(q * 2).sum(1)[:, None, None]
    V = float(ds.calc_ground_truth_policy_value(expected_reward=q, action_dist=ev))
    qhat = (q + r.normal(size=q.shape) * 0.3)[:, :, None]
    ests = [O.MultiLoggersNaiveInverseProbabilityWeighting(), O.MultiLoggersBalancedInverseProbabilityWeighting(), O.MultiLoggersNaiveDoublyRobust(), O.MultiLoggersBalancedDoublyRobust()]
    ope = O.MultiLoggersOffPolicyEvaluation(bandit_feedback=f, ope_estimators=ests)
    got = ope.estimate_policy_values(action_dist=ev, estimated_rewards_by_reg_model=qhat)
    mon.ev("pipeline-multi")
    lab = f"multi-logger k={k} betas={betas} rhos={rhos}"
    s2 = q * (1 - q)
    for est in ests:
        e = est.estimator_name
        bal, dr = "bal" in e, "dr" in e
        c = qhat[:, :, 0] if dr else 0 * q
        w = ev[:, :, 0] / (pa if bal else pb)
        m = w * (q - c)
        # centre: expectation of the round given its context and logger (differs from the value for balanced weights round by round)
        mean = (pb * m).sum(1) + (ev[:, :, 0] * c).sum(1)
        var = (pb * (w**2 * s2 + m**2)).sum(1) - (pb * m).sum(1) ** 2
        bound = float((w * (np.abs(q - c) + 1)).max()) * 2
        bern(mon, var.sum(), bound, got[e] - mean.mean(), n, "pipeline-multi", f"{lab}: {e} estimate {got[e]:.4f}, expectation given the contexts {mean.mean():.4f}")
        if not bal:
            mon.close(mean.mean(), V, "pipeline-truth", f"{lab}: expectation of {e} against the ground truth", rtol=1e-7)
    mon.sig("pipemulti", k, tuple(betas), tuple(rhos))


def _pipeslate(r, case, mon):
    import obp.dataset as D
    import obp.ope as O

    n, k, L = 1200, int(r.choice([3, 4])), 2
    fact = bool(r.random() < 0.4)
    struct = str(r.choice(["standard_additive", "cascade_additive", "independent", "cascade_decay", "standard_decay"]))
    ds = D.SyntheticSlateBanditDataset(n_unique_action=k, len_list=L, dim_context=2, reward_type="binary", reward_structure=struct, is_factorizable=fact, base_reward_function=D.logistic_reward_function,
                                       behavior_policy_function=D.linear_behavior_policy_logit, random_state=int(r.integers(10**4)))
    f = ds.obtain_batch_bandit_feedback(n_rounds=n, return_pscore_item_position=True)
    lg = r.normal(size=(n, k)) * 0.7
    a = np.asarray(f["action"])
    E = ds.obtain_pscore_given_evaluation_policy_logit(action=a, evaluation_policy_logit_=lg)
    V = float(ds.calc_ground_truth_policy_value(context=f["context"], evaluation_policy_logit_=lg))
    ope = O.SlateOffPolicyEvaluation(bandit_feedback=f, ope_estimators=[O.SlateStandardIPS(len_list=L), O.SlateRewardInteractionIPS(len_list=L), O.SlateIndependentIPS(len_list=L)])
    got = ope.estimate_policy_values(evaluation_policy_pscore=E[0], evaluation_policy_pscore_item_position=E[1], evaluation_policy_pscore_cascade=E[2])
    mon.ev("pipeline-slate")
    w = [np.asarray(e) / np.asarray(f[p]) for e, p in zip(E, ("pscore", "pscore_item_position", "pscore_cascade"))]
    lab = f"slate k={k} L={L} {struct} factorizable={fact}"
    ok = {"sips": 0}
    if struct.startswith("cascade") or struct == "independent":
        ok["rips"] = 2
    if struct == "independent":
        ok["iips"] = 1
    y = np.asarray(f["reward"], float)
    for e, j in ok.items():
        # Maurer-Pontil: empirical variance, terms in [0, B]
        t = (w[j] * y).reshape(n, L).sum(1)
        cap = np.asarray([np.max(np.exp(lg[i] - lg[i].min())) for i in range(n)]).max()
        mx = max(L * float(w[j].max()) * 3, L * cap)
        lim = math.sqrt(2 * t.var(ddof=1) * stat.LG / n) + 7 * mx * stat.LG / (3 * (n - 1)) + 2e-3
        mon.ev("stat-tests")
        mon.check(abs(got[e] - V) <= lim, "pipeline-slate", f"{lab}: {e} estimate {got[e]:.4f} against the ground truth {V:.4f}, limit {lim:.4f}")
        mon.close(got[e], t.mean(), "pipeline-slate-mean", f"{lab}: {e}", rtol=1e-6)
    mon.sig("pipeslate", fact, k, struct)
    mon.note(config=lab, estimates={u: float(x) for u, x in got.items()}, truth=V)


def _pipeembed(r, case, mon):
    import obp.dataset as D
    import obp.ope as O

    n, k = 2500, int(r.choice([3, 6]))
    ds = D.SyntheticBanditDatasetWithActionEmbeds(n_actions=k, dim_context=2, n_cat_per_dim=3, n_cat_dim=1, latent_param_mat_dim=2, n_unobserved_cat_dim=0, reward_type="binary", reward_function=D.logistic_reward_function, beta=float(r.choice([0.0, 1.0])), random_state=int(r.integers(10**4)))
    f = ds.obtain_batch_bandit_feedback(n_rounds=n)
    q, pb, pea = np.asarray(f["expected_reward"]), np.asarray(f["pi_b"]), np.asarray(f["p_e_a"])
    ev = policy(r, n, k, 1)
    V = float(ds.calc_ground_truth_policy_value(expected_reward=q, action_dist=ev))
    ope = O.OffPolicyEvaluation(bandit_feedback=f, ope_estimators=[O.MarginalizedInverseProbabilityWeighting(n_actions=k), O.InverseProbabilityWeighting()])
    got = ope.estimate_policy_values(action_dist=ev, action_embed=f["action_embed"], pi_b=pb, p_e_a=pea)
    mon.ev("pipeline-embed")
    lab = f"embeddings k={k}"
    w = ev[:, :, 0] / pb[:, :, 0]
    m = w * q
    var = (pb[:, :, 0] * w**2 * q).sum(1) - (pb[:, :, 0] * m).sum(1) ** 2
    bern(mon, var.sum(), float(w.max()) * 2, got["ipw"] - V, n, "pipeline-embed", f"{lab}: ipw estimate against the ground truth {V:.4f}")
    # MIPS: weights are bounded by the largest action weight; variance at most E[w_e^2]
    we = np.einsum("nk,kc->nc", ev[:, :, 0], pea[:, :, 0]) / np.einsum("nk,kc->nc", pb[:, :, 0], pea[:, :, 0])
    pe_b = np.einsum("nk,kc->nc", pb[:, :, 0], pea[:, :, 0])
    bern(mon, (pe_b * we**2).sum(), float(we.max()) * 2, got["mipw"] - V, n, "pipeline-embed", f"{lab}: mipw estimate {got['mipw']:.4f} against the ground truth {V:.4f}")
    mon.sig("pipeembed", k)


def _pipeclass(r, case, mon):
    import obp.dataset as D
    import obp.ope as O
    from sklearn.linear_model import LogisticRegression

    N, k = 1500, 3
    X = r.normal(size=(N, 3))
    y = np.argmax(X @ r.normal(size=(3, k)) + r.normal(size=(N, k)) * 0.8, 1)
    ds = D.MultiClassToBanditReduction(X=X, y=y, base_classifier_b=LogisticRegression(max_iter=500, random_state=1), alpha_b=float(r.choice([0.3, 0.7])), dataset_name="d")
    ds.split_train_eval(eval_size=0.6, random_state=int(r.integers(1000)))
    f = ds.obtain_batch_bandit_feedback(random_state=int(r.integers(1000)))
    ev = ds.obtain_action_dist_by_eval_policy(alpha_e=float(r.choice([0.0, 0.5, 0.9])))
    V = float(ds.calc_ground_truth_policy_value(action_dist=ev))
    got = O.OffPolicyEvaluation(bandit_feedback=f, ope_estimators=[O.InverseProbabilityWeighting()]).estimate_policy_values(action_dist=ev)["ipw"]
    pb = np.asarray(f["pi_b"])[:, :, 0]
    n = len(pb)
    w = ev[:, :, 0] / pb
    one = ds.y_full_ev
    var = (pb * w**2 * one).sum(1) - (pb * w * one).sum(1) ** 2
    mon.ev("pipeline-class")
    bern(mon, var.sum(), float(w.max()) * 2, got - V, n, "pipeline-class", f"multi-class reduction: ipw estimate {got:.4f} against the ground truth {V:.4f}")
    mon.sig("pipeclass", round(V, 3))
