"""C08: the evaluator classes report, per estimator, exactly what that estimator computes on its own inputs."""
import copy
import math
import os
from pathlib import Path

import numpy as np

from .. import boot, gen, ref
from . import c01, c03, c04, c05, c06

RULE = ("random logs x random sets of 1..5 differently configured and renamed estimators x model-based inputs given once or per estimator name x "
        "the four evaluator classes x {values, intervals, summaries, relative values, error metrics, comparison tables, figures}; non-trivial: "
        "distinct (evaluator, estimator names, per-name inputs, output)")
ASSUMPTIONS = ["values judged against independent formulas; intervals against a direct call of the estimator with the same seed"]
BUDGET = dict(quick=300, thorough=2700)
REQUIRED = [f"{f}:{o}" for f in ("single", "multi", "continuous", "slate") for o in
            ("values", "intervals", "summary", "metric-se", "metric-relative-ee", "comparison", "figure")] + [
    "dict-inputs", "relative-nan", "multi-figure", "zero-truth-rejected", "embed-in-meta"]


def cases(rng, tier):
    m = 4 if tier == "quick" else 20
    for fam in ("single", "multi", "continuous", "slate"):
        for _ in range(90 * m):
            yield dict(kind=fam, fig=False)
        for _ in range(6 * m):
            yield dict(kind=fam, fig=True)


class World:
    """one evaluator, its estimators, their reference values and direct-call keyword arguments"""

    def __init__(self):
        self.names, self.est, self.val, self.kw, self.scale = [], {}, {}, {}, {}
        self.terms = {}

    def add(self, name, est, terms, kw):
        self.names.append(name)
        self.est[name] = est
        self.terms[name] = terms
        self.val[name] = ref.fmean(terms)
        self.scale[name] = max(ref.scale(terms), max(abs(v) for v in terms) * 1e-3)
        self.kw[name] = kw


def mklabel(r, name, taken, p=0.5):
    """the estimator's own name or one that the user gave it (often sharing a prefix with another one)"""
    if name not in taken and r.random() < p:
        return name
    i = len(taken)
    for _ in range(20):
        short = name.split("-")[0]
        lab = [f"{name}-v{i}", f"{name}_{i}", f"{name}_x", f"{name} {i}", f"{name}{i}", f"{short}_{i}", f"{name}.{i}", f"{name} (mine)", f"My {name.upper()}", f"{short}_{short}_{i}"][int(r.integers(10))]
        if lab not in taken:
            return lab
    return f"{name}-v{i}"


def pack(r, per, names, mon):
    """per: name -> array or None; give it once if all agree, else as a dict"""
    vals = {k: v for k, v in per.items() if v is not None}
    if not vals:
        return None
    first = next(iter(vals.values()))
    if all(v is first for v in vals.values()) and r.random() < 0.6:
        return first
    mon.ev("dict-inputs")
    return dict(vals)


def build_single(r, mon):
    import obp.ope as o

    n = int(r.choice([3, 20, 60]))
    d = gen.logged(r, n=n)
    if r.random() < 0.3:
        d["pscore"] = None
    W = World()
    qs = [d["q"], r.normal(size=d["q"].shape)]
    eps = [d["estimated_pscore"], gen.pscores(r, n, "uniform")]
    whs = [d["w_hat"], r.gamma(1, 1, n) + 1e-3]
    multi_in = bool(r.random() < 0.5)
    pick = lambda xs: xs[int(r.integers(2))] if multi_in else xs[0]
    Q, E, H, AE, PB, PEA = {}, {}, {}, {}, {}, {}
    pool = list(c01.NAMES) + ["ipw", "dr"]
    if r.random() < 0.3:  # several versions of the same estimators
        pool = [str(v) for v in r.choice(["ipw", "dr", "dm", "sg-dr", "b-ipw"], size=2)] * 3
        multi_in = True
    for name in r.choice(pool, size=int(r.integers(1, 6)), replace=False):
        name = str(name)
        label = mklabel(r, name, W.names)
        if label in W.names:
            continue
        e = dict(d, q=pick(qs), estimated_pscore=pick(eps), w_hat=pick(whs))
        use_est = name in c01.HAS_EST and (d["pscore"] is None or bool(r.random() < 0.5))
        ps = e["estimated_pscore"] if use_est else d["pscore"]
        w = ref.weights(e, ps) if name in c01.HAS_EST else [1.0]
        lams = c01.lambdas(r, name, w if name != "b-ipw" else e["w_hat"]) if name in c01.HAS_LAM else [math.inf]
        lam = lams[int(r.integers(len(lams)))]
        if name in ("snipw", "sndr") and sum(w) <= 0 or name.startswith("sg") and lam == 1.0 and min(w) == 0:
            continue
        est = c01.make(name, lam, use_est)
        est.estimator_name = label
        kw = c01.kwargs_of(e, name, use_est)
        W.add(label, est, ref.round_rewards(name, e, lam, ps), kw)
        Q[label] = e["q"] if ("dr" in name or name == "dm") else None
        E[label] = e["estimated_pscore"] if use_est else None
        H[label] = e["w_hat"] if name == "b-ipw" else None
    args = dict(action_dist=d["action_dist"], estimated_rewards_by_reg_model=pack(r, Q, W.names, mon), estimated_pscore=pack(r, E, W.names, mon),
                estimated_importance_weights=pack(r, H, W.names, mon))
    ctx = r.integers(0, 3, size=(n, 2)).astype(float)
    if r.random() < 0.4:  # embedding estimators in the same evaluator
        pi_b = gen.dist(r, n, d["k"], d["L"], "dirichlet")
        D = 2
        pea = np.stack([gen.dist(r, d["k"], 3, 1, "dirichlet")[:, :, 0] for _ in range(D)], axis=2)
        emb = r.integers(3, size=(n, D))
        dd = dict(d, pi_b=pi_b, p_e_a=pea, embed=emb, context=ctx)
        mixed = int(r.integers(4))
        for nm, sn in (("mipw", False), ("snmipw", True)):
            fitted = bool(mixed == 1 or mixed == 2 and sn or mixed == 3 and not sn)  # each may have its own embedding model
            t = c06.terms(dd, sn, fitted, range(D))
            if t is None:
                continue
            cls = o.SelfNormalizedMarginalizedInverseProbabilityWeighting if sn else o.MarginalizedInverseProbabilityWeighting
            W.add(nm, cls(n_actions=d["k"], pi_a_x_e_estimator=c06.GroupFrequency()), t,
                  dict(reward=d["reward"], action=d["action"], action_embed=emb, pi_b=pi_b, action_dist=d["action_dist"], position=d["position"],
                       context=ctx, p_e_a=None if fitted else pea))
            AE[nm], PB[nm], PEA[nm] = emb, pi_b, (None if fitted else pea)
        if AE:
            mon.ev("embed-in-meta")
        own = {u: v for u, v in PEA.items() if v is not None}
        args.update(action_embed=pack(r, AE, W.names, mon), pi_b=pack(r, PB, W.names, mon), p_e_a=own if 0 < len(own) < len(PEA) else pack(r, PEA, W.names, mon))
        if 0 < len(own) < len(PEA):
            mon.ev("own-embedding-model")
    fb = dict(action=d["action"], position=d["position"], reward=d["reward"], context=ctx, n_rounds=n, n_actions=d["k"])
    if d["pscore"] is not None:
        fb["pscore"] = d["pscore"]
    elif r.random() < 0.5:
        fb["pscore"] = None
    W.base = ref.fmean(d["reward"])
    W.d = d
    W.policies = [d["action_dist"], gen.dist(r, n, d["k"], d["L"])]
    return o.OffPolicyEvaluation, fb, W, args


def build_multi(r, mon):
    import obp.ope as o

    n = int(r.choice([5, 20, 60]))
    d = gen.logged(r, n=n)
    d["stratum"] = c03.strata(r, n)
    avg, est_avg = gen.pscores(r, n, "uniform"), gen.pscores(r, n, "uniform")
    W = World()
    Q, E, EA = {}, {}, {}
    qs = [d["q"], r.normal(size=d["q"].shape)]
    for name in r.choice(c03.NAMES, size=int(r.integers(1, 6)), replace=False):
        name = str(name)
        label = mklabel(r, name, W.names)
        use_est = bool(r.random() < 0.4)
        e = dict(d, q=qs[int(r.integers(2))])
        if "bal" in name:
            e["pscore"], e["estimated_pscore"] = avg, est_avg
        ps = e["estimated_pscore"] if use_est else e["pscore"]
        w = sorted(ref.weights(e, ps))
        lam = float(r.choice([math.inf, max(w[len(w) // 2], 1e-3)]))
        t = c03.reference(name, e, lam, ps)
        if t is None:
            continue
        est, kw = c03.call(name, e, lam, use_est)
        est.estimator_name = label
        W.add(label, est, t, kw)
        Q[label] = e["q"] if "dr" in name else None
        E[label] = e["estimated_pscore"] if use_est and "bal" not in name else None
        EA[label] = e["estimated_pscore"] if use_est and "bal" in name else None
    args = dict(action_dist=d["action_dist"], estimated_rewards_by_reg_model=pack(r, Q, W.names, mon), estimated_pscore=pack(r, E, W.names, mon),
                estimated_pscore_avg=pack(r, EA, W.names, mon))
    fb = dict(action=d["action"], position=d["position"], reward=d["reward"], pscore=d["pscore"], pscore_avg=avg, stratum_idx=d["stratum"])
    W.base = ref.fmean(d["reward"])
    W.d = d
    W.policies = [d["action_dist"], gen.dist(r, n, d["k"], d["L"])]
    return o.MultiLoggersOffPolicyEvaluation, fb, W, args


def build_continuous(r, mon):
    import obp.ope as o

    n = int(r.choice([3, 20, 60]))
    ab = r.normal(size=n)
    h0 = float(r.choice([0.5, 2.0]))
    d = dict(reward=gen.rewards(r, n), ab=ab, ae=ab + r.normal(size=n) * h0, pscore=r.uniform(0.05, 2, n))
    qs = [r.normal(size=n), r.normal(size=n)]
    W = World()
    Q = {}
    for _ in range(int(r.integers(1, 6))):
        name, kernel = str(r.choice(c04.NAMES)), str(r.choice(c04.KERNELS))
        e = dict(d, q=qs[int(r.integers(2))])
        t, _k = c04.reference(name, kernel, h0, e)
        if t is None:
            continue
        label = mklabel(r, name, W.names)
        kw = dict(reward=d["reward"], action_by_behavior_policy=ab, pscore=d["pscore"], action_by_evaluation_policy=d["ae"])
        if name.endswith("dr"):
            kw["estimated_rewards_by_reg_model"] = e["q"]
        est = c04.cls(name)(kernel=kernel, bandwidth=h0)
        est.estimator_name = label
        W.add(label, est, t, kw)
        Q[label] = e["q"] if name.endswith("dr") else None
    args = dict(action_by_evaluation_policy=d["ae"], estimated_rewards_by_reg_model=pack(r, Q, W.names, mon))
    W.base = ref.fmean(d["reward"])
    W.policies = [d["ae"], ab + r.normal(size=n) * h0]
    return o.ContinuousOffPolicyEvaluation, dict(action=ab, reward=d["reward"], pscore=d["pscore"], context=r.normal(size=(n, 2))), W, args


def build_slate(r, mon):
    import obp.ope as o

    d = c05.slate_log(r, n=int(r.choice([2, 10, 30])))
    W = World()
    need = set()
    for name in r.choice(c05.NAMES, size=int(r.integers(1, 6)), replace=False):
        name = str(name)
        t = c05.reference(name, d)
        if t is None:
            continue
        label = mklabel(r, name, W.names)
        est = c05.make(name, d)
        est.estimator_name = label
        W.add(label, est, [math.fsum(v) for v in t.values()], c05.kw_of(name, d))
        need |= set(c05.kw_of(name, d))
    args = {k: d[k] for k in ("evaluation_policy_pscore", "evaluation_policy_pscore_item_position", "evaluation_policy_pscore_cascade",
                              "evaluation_policy_action_dist", "q_hat") if k in need or r.random() < 0.3}
    if not set(args) & {"evaluation_policy_pscore", "evaluation_policy_pscore_item_position", "evaluation_policy_pscore_cascade"}:
        args["evaluation_policy_pscore"] = d["evaluation_policy_pscore"]
    fb = {k: d[k] for k in ("slate_id", "action", "reward", "position", "pscore", "pscore_item_position", "pscore_cascade")}
    fb["context"] = r.normal(size=(d["n"], 2))
    W.base = math.fsum(float(v) for v in d["reward"]) / len(set(d["slate_id"].tolist()))
    W.policies = None
    return o.SlateOffPolicyEvaluation, fb, W, args


def run_case(case, mon):
    import logging

    logging.disable(logging.WARNING)
    r = np.random.default_rng(case["seed"])
    fam = case["kind"]
    cls, fb, W, args = dict(single=build_single, multi=build_multi, continuous=build_continuous, slate=build_slate)[fam](r, mon)
    if not W.names:
        mon.ev("skipped-empty")
        return
    ope = cls(bandit_feedback=fb, ope_estimators=[W.est[k] for k in W.names])
    vals = ope.estimate_policy_values(**args)
    mon.check(list(vals) == W.names, "names", f"{fam}: {list(vals)} != {W.names}")

    def near(got, want, nm, key, msg, div=1.0):
        mon.close(float(got), want, key, f"{fam}/{nm} {msg}", rtol=1e-6, atol=1e-7 * W.scale[nm] / abs(div) + 1e-12)

    for nm in W.names:
        near(vals[nm], W.val[nm], nm, "values", "estimate_policy_values")
    mon.ev(f"{fam}:values")
    mon.sig(fam, tuple(W.names), tuple(isinstance(v, dict) for v in args.values()))
    for key in args:  # an estimator that is not given its own input is refused, not served another one's
        if isinstance(args[key], dict) and len(args[key]) > 1 and key != "p_e_a":
            gone = list(args[key])[int(r.integers(len(args[key])))]
            mon.raises(lambda: ope.estimate_policy_values(**dict(args, **{key: {u: v for u, v in args[key].items() if u != gone}})), "missing-input", f"{fam}: {key} without an entry for {gone}")
            mon.ev("missing-input")
    alpha, B, seed = float(r.choice([0.05, 0.2, 0.5])), 40, int(r.integers(1000))
    ci = ope.estimate_intervals(alpha=alpha, n_bootstrap_samples=B, random_state=seed, **args)
    mon.check(list(ci) == W.names, "names", f"{fam}: intervals for {list(ci)}")
    for nm in W.names:
        direct = W.est[nm].estimate_interval(alpha=alpha, n_bootstrap_samples=B, random_state=seed, **W.kw[nm])
        mon.check(set(direct) == set(ci[nm]) and all(np.isclose(direct[k], ci[nm][k], rtol=1e-9, atol=1e-12, equal_nan=True) for k in direct),
                  "intervals", f"{fam}/{nm}: {ci[nm]} but the estimator gives {direct} (alpha={alpha})")
    mon.ev(f"{fam}:intervals")
    # summary
    vdf, idf = ope.summarize_off_policy_estimates(alpha=alpha, n_bootstrap_samples=B, random_state=seed, **args)
    mon.check(list(vdf.index) == W.names and list(idf.index) == W.names, "summary-index", f"{fam}: {list(vdf.index)}")
    for nm in W.names:
        near(vdf.loc[nm, "estimated_policy_value"], W.val[nm], nm, "summary-value", "summary")
        rel = float(vdf.loc[nm, "relative_estimated_policy_value"])
        if W.base > 1e-9:
            near(rel, W.val[nm] / W.base, nm, "relative", f"relative value (behaviour value {W.base})", div=min(1.0, W.base))
        elif W.base < -1e-9:
            mon.check(math.isnan(rel), "relative-nan", f"{fam}/{nm}: relative value {rel} though the behaviour policy's value is {W.base}")
            mon.ev("relative-nan")
        for k in ci[nm]:
            mon.close(float(idf.loc[nm, k]), float(ci[nm][k]), "summary-interval", f"{fam}/{nm} {k}", rtol=1e-9, atol=1e-12)
    mon.ev(f"{fam}:summary")
    # metrics
    truth = float(r.normal() * r.choice([0.1, 1, 10]))
    for metric in ("se", "relative-ee"):
        got = ope.evaluate_performance_of_estimators(ground_truth_policy_value=truth, metric=metric, **args)
        mon.check(list(got) == W.names, "names", f"{fam}: metric for {list(got)}")
        tab = ope.summarize_estimators_comparison(ground_truth_policy_value=truth, metric=metric, **args)
        mon.check(tab.shape == (len(W.names), 1) and list(tab.index) == W.names and list(tab.columns) == [metric], "comparison-shape",
                  f"{fam}: comparison table {tab.shape} {list(tab.columns)}")
        for nm in W.names:
            v = W.val[nm]
            want = (v - truth) ** 2 if metric == "se" else abs((v - truth) / truth)
            s = 1e-6 * (abs(v) + abs(truth) + W.scale[nm])
            tol = s * (abs(v) + abs(truth) + W.scale[nm]) if metric == "se" else s / abs(truth)
            mon.close(float(got[nm]), want, f"metric-{metric}", f"{fam}/{nm} truth={truth}", rtol=1e-6, atol=tol)
            mon.close(float(tab.loc[nm, metric]), float(got[nm]), "comparison", f"{fam}/{nm}", rtol=1e-9, atol=1e-12)
        mon.ev(f"{fam}:metric-{metric}")
    mon.ev(f"{fam}:comparison")
    mon.raises(lambda: ope.evaluate_performance_of_estimators(ground_truth_policy_value=0.0, metric="relative-ee", **args), "zero-truth", fam)
    mon.raises(lambda: ope.evaluate_performance_of_estimators(ground_truth_policy_value=truth, metric="mse", **args), "bad-metric", fam)
    mon.ev("zero-truth-rejected")
    if case["fig"]:
        figure(r, mon, fam, ope, W, args, ci, alpha, B, seed)
    mon.note(evaluator=fam, estimators=W.names, values=vals, behaviour=W.base)


def bars(ax):
    return [float(p.get_height()) for p in ax.patches]


def figure(r, mon, fam, ope, W, args, ci, alpha, B, seed):
    import matplotlib.pyplot as plt

    plt.close("all")
    out = Path(os.environ.get("VERIF_SCRATCH", "/tmp")) / f"fig-{os.getpid()}"
    out.mkdir(exist_ok=True)
    rel = bool(W.base > 1e-9 and r.random() < 0.5)
    ope.visualize_off_policy_estimates(alpha=alpha, n_bootstrap_samples=B, random_state=seed, is_relative=rel, fig_dir=out, fig_name="one.png", **args)
    div = W.base if rel else 1.0
    fig = plt.figure(plt.get_fignums()[-1])
    hs = bars(fig.axes[0])
    mon.check(len(hs) == len(W.names), "figure-bars", f"{fam}: {len(hs)} bars for {len(W.names)} estimators")
    for nm, h in zip(W.names, hs):
        if fam == "slate":  # draws the bootstrap mean
            mon.close(h, float(ci[nm]["mean"]) / div, "figure-height", f"{fam}/{nm} relative={rel}", rtol=1e-6, atol=1e-9)
        else:
            mon.close(h, W.val[nm] / div, "figure-height", f"{fam}/{nm} relative={rel}", rtol=1e-5, atol=1e-6 * W.scale[nm] / min(1, div) + 1e-9)
    if fam == "slate":
        segs = [s for c in fig.axes[0].collections for s in getattr(c, "get_segments", lambda: [])()]
        if len(segs) == len(W.names):
            for nm, sgm in zip(W.names, segs):
                _, kl, ku = boot.keys(alpha)
                mon.close(abs(float(sgm[1][1] - sgm[0][1])), (float(ci[nm][ku]) - float(ci[nm][kl])) / div, "figure-errorbar", f"{fam}/{nm}",
                          rtol=1e-5, atol=1e-7 * W.scale[nm])
    mon.check((out / "one.png").exists(), "figure-file", f"{fam}: figure not saved")
    mon.ev(f"{fam}:figure")
    if W.policies is not None and "nothing" not in args:
        plt.close("all")
        names = ["first", "second"]
        kw = {k: v for k, v in args.items() if k not in ("action_dist", "action_by_evaluation_policy")}
        key = "action_by_evaluation_policy_list" if fam == "continuous" else "action_dist_list"
        ope.visualize_off_policy_estimates_of_multiple_policies(policy_name_list=names, **{key: W.policies}, alpha=alpha, n_bootstrap_samples=B,
                                                                random_state=seed, is_relative=rel, fig_dir=out, fig_name="many.png", **kw)
        fig = plt.figure(plt.get_fignums()[-1])
        mon.check(len(fig.axes) == len(W.names), "multi-figure-axes", f"{fam}: {len(fig.axes)} panels for {len(W.names)} estimators")
        k1 = "action_by_evaluation_policy" if fam == "continuous" else "action_dist"
        second = ope.estimate_policy_values(**dict(args, **{k1: W.policies[1]}))
        for nm, ax in zip(W.names, fig.axes):
            hs = bars(ax)
            mon.check(ax.get_title().lower() == nm.lower(), "multi-figure-title", f"{fam}: panel {ax.get_title()} for {nm}")
            if mon.check(len(hs) == 2, "multi-figure-bars", f"{fam}/{nm}: {len(hs)} bars"):
                mon.close(hs[0], W.val[nm] / div, "multi-figure-height", f"{fam}/{nm} first", rtol=1e-5, atol=1e-6 * W.scale[nm] / min(1, div) + 1e-9)
                if math.isfinite(float(second[nm])):
                    mon.close(hs[1], float(second[nm]) / div, "multi-figure-height", f"{fam}/{nm} second", rtol=1e-5,
                              atol=1e-6 * W.scale[nm] / min(1, div) + 1e-9)
        mon.ev("multi-figure")
    plt.close("all")
