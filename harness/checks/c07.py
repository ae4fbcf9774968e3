"""C07: bootstrap intervals of every estimator, and the high-probability bounds."""
import math

import numpy as np
from scipy import stats

from .. import boot, gen, ref
from . import c01, c03, c04, c05, c06

RULE = ("every estimator of the single-logger, multi-logger, continuous, slate and embedding families on random logs x alpha in (0.02, 0.8) x "
        "number of resamples; each returned bound is located in an independently drawn bootstrap distribution of the reference terms; "
        "helper bounds compared with their closed form; non-trivial: distinct (estimator, alpha, resamples, sample size) with positive variance")
ASSUMPTIONS = ["each quantile comparison has a false-alarm probability below 1e-9"]
BUDGET = dict(quick=240, thorough=2400)
FAMS = dict(single=c01.NAMES, multi=c03.NAMES, continuous=c04.NAMES, slate=c05.NAMES, embed=["mipw", "snmipw"])
REQUIRED = [f"ci:{n}" for f in FAMS.values() for n in f] + ["ci:samples", "bounds", "interval-nondegenerate", "big-log", "few-resamples", "attainable-means"]


def cases(rng, tier):
    m = 2 if tier == "quick" else 25
    for fam in FAMS:
        for name in FAMS[fam]:
            for _ in range(14 * m):
                yield dict(kind=fam, name=name)
    for _ in range(60 * m):
        yield dict(kind="samples")
    for _ in range(3 * m):
        yield dict(kind="samples", big=True)
    for _ in range(300 * m):
        yield dict(kind="bounds")


def before(r, est, kw):
    """The object whose interval is judged may have served another log."""
    if r.random() < 0.3:
        est.estimate_policy_value(**kw())


def setup(r, fam, name):
    """-> (estimator, kwargs, reference terms) or None"""
    n = int(r.choice([2, 8, 30, 70, 300]) if r.random() < 0.9 else r.choice([130, 1500]))
    if fam == "single":
        d = gen.logged(r, n=n)
        use_est = bool(r.random() < 0.4) and name in c01.HAS_EST
        ps = d["estimated_pscore"] if use_est else d["pscore"]
        w = ref.weights(d, ps)
        lams = c01.lambdas(r, name, w if name != "b-ipw" else d["w_hat"]) if name in c01.HAS_LAM else [math.inf]
        lam = lams[int(r.integers(len(lams)))]
        if name in ("snipw", "sndr") and sum(w) <= 0 or name.startswith("sg") and lam == 1.0 and min(w) == 0:
            return None
        est = c01.make(name, lam, use_est)
        before(r, est, lambda: c01.kwargs_of(gen.logged(r), name, use_est))
        return est, c01.kwargs_of(d, name, use_est), ref.round_rewards(name, d, lam, ps), (lam, use_est)
    if fam == "multi":
        d = gen.logged(r, n=n)
        d["stratum"] = c03.strata(r, n)
        use_est = bool(r.random() < 0.4)
        ps = d["estimated_pscore"] if use_est else d["pscore"]
        w = sorted(ref.weights(d, ps))
        lam = float(r.choice([math.inf, max(w[len(w) // 2], 1e-3), max(w[-1] * 0.9, 1e-3)]))
        t = c03.reference(name, d, lam, ps)
        if t is None:
            return None
        est, kw = c03.call(name, d, lam, use_est)
        before(r, est, lambda: c03.call(name, dict(gen.logged(r, n=n), stratum=r.permutation(d["stratum"])), lam, use_est)[1])
        return est, kw, t, (lam, use_est)
    if fam == "continuous":
        h = float(r.choice([0.3, 1.0, 4.0]))
        kernel = str(r.choice(c04.KERNELS))
        ab = r.normal(size=n)
        d = dict(reward=gen.rewards(r, n), ab=ab, ae=ab + r.normal(size=n) * h, pscore=r.uniform(0.05, 2, n), q=r.normal(size=n))
        t, k = c04.reference(name, kernel, h, d)
        if t is None:
            return None
        kw = dict(reward=d["reward"], action_by_behavior_policy=d["ab"], pscore=d["pscore"], action_by_evaluation_policy=d["ae"])
        if name.endswith("dr"):
            kw["estimated_rewards_by_reg_model"] = d["q"]
        return c04.cls(name)(kernel=kernel, bandwidth=h), kw, t, kernel
    if fam == "slate":
        d = c05.slate_log(r, n=n)
        if name != "cascade-dr" and r.random() < 0.5:  # rows of a slate need not be adjacent
            p = r.permutation(len(d["reward"]))
            d.update({a: d[a][p] for a in c05.ROWS})
        t = c05.reference(name, d)
        if t is None:
            return None
        est = c05.make(name, d)
        before(r, est, lambda: c05.kw_of(name, c05.slate_log(r, L=d["L"], k=d["k"])))
        return est, c05.kw_of(name, d), [math.fsum(v) for v in t.values()], d["L"]
    import obp.ope as o

    d, D = c06.make(r)
    fitted = bool(r.random() < 0.5)
    t = c06.terms(d, name == "snmipw", fitted, range(D))
    if t is None:
        return None
    kw = dict(reward=d["reward"], action=d["action"], action_embed=d["embed"], pi_b=d["pi_b"], action_dist=d["action_dist"],
              position=d["position"], context=d["context"])
    if not fitted:
        kw["p_e_a"] = d["p_e_a"]
    cls = o.SelfNormalizedMarginalizedInverseProbabilityWeighting if name == "snmipw" else o.MarginalizedInverseProbabilityWeighting
    return cls(n_actions=d["k"], pi_a_x_e_estimator=c06.GroupFrequency(d["tilt"])), kw, t, fitted


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    if case["kind"] == "bounds":
        return bounds(r, mon)
    alpha = float(r.choice([0.02, 0.05, 0.1, 0.2, 0.5, 0.8])) if r.random() < 0.7 else round(float(r.uniform(0.02, 0.8)), 3)
    B = int(r.choice([50, 200, 600, 1200]) if r.random() < 0.9 else 3000)
    seed = int(r.integers(10000))
    if case["kind"] == "samples":
        from obp.utils import estimate_confidence_interval_by_bootstrap as f

        n = int(r.choice([1, 2, 3, 4, 5, 40, 150, 600, 2500]))
        t = gen.rewards(r, n)
        if case.get("big"):
            n, B, alpha = int(r.choice([12000, 40000, 110000])), int(r.choice([50, 100])), float(r.choice([0.05, 0.2, 0.5]))
            t = np.sort(r.gamma(1.0, 1.0, n)) if r.random() < 0.5 else np.where(np.arange(n) < n * 2 // 3, 1.0, 0.0) + r.random(n)
            mon.ev("big-log")
        call = lambda a, b, s: f(samples=np.asarray(t), alpha=a, n_bootstrap_samples=b, random_state=s)
        name, extra = "samples", None
    else:
        s = setup(r, case["kind"], case["name"])
        if s is None:
            mon.ev("skipped-undefined")
            return
        est, kw, t, extra = s
        name = case["name"]
        call = lambda a, b, s: est.estimate_interval(alpha=a, n_bootstrap_samples=b, random_state=s, **kw)
    ci = call(alpha, B, seed)
    mon.ev(f"ci:{name}")
    refd = boot.reference(r, t)
    boot.judge(mon, r, ci, t, alpha, B, f"{name} {extra}", refd)
    if np.std(t) > 1e-9 * (np.abs(t).mean() + 1e-300):
        mon.sig(name, alpha, B, len(t), str(extra)[:12])
    km, kl, ku = boot.keys(alpha)
    again = call(alpha, B, seed)
    mon.check(all(float(again[k]) == float(ci[k]) for k in ci), "ci-seeded", f"{name}: same seed, different interval {ci} vs {again}")
    a2 = min(0.95, round(alpha * 1.9 + 0.03, 3))
    nested = call(a2, B, seed)
    _, nl, nu = boot.keys(a2)
    eps = 1e-12 * (np.abs(t).max() + 1)
    mon.check(float(ci[kl]) <= float(nested[nl]) + eps and float(nested[nu]) <= float(ci[ku]) + eps, "ci-nested",
              f"{name}: interval at alpha={a2} not inside the one at alpha={alpha} (same seed)")
    if len(set(np.round(np.asarray(t, float), 12))) > 3 and len(t) > 3:
        outs = {tuple(float(v) for v in call(alpha, 200, s_).values()) for s_ in (seed + 1, seed + 2, seed + 3)}
        mon.check(len(outs) > 1, "ci-seed-matters", f"{name}: three seeds, one interval {outs}")
    order_statistics(r, mon, call, name, np.asarray(t, float))
    mon.note(name=name, alpha=alpha, interval=ci)


def order_statistics(r, mon, call, name, t):
    """With few resamples the interval at alpha = 2j/(B-1) reads off the j-th order statistics of the resampled means;
    from them the mean and the bounds at every other alpha (however small) follow exactly, whatever the generator."""
    B, seed = int(r.choice([1, 2, 3, 5, 6, 11])), int(r.integers(10**4))
    eps = 1e-9 * (float(np.abs(t).max()) + 1e-300) + 1e-12

    def at(a):
        ci = call(a, B, seed)
        return [float(ci[k]) for k in boot.keys(a)]

    os_ = np.full(B, np.nan)
    for j in range(B // 2 + 1):
        a = 2 * j / (B - 1) if B > 1 else 0.4
        if a <= 1:
            m, lo, hi = at(float(a))
            os_[j], os_[B - 1 - j] = lo, hi
            mon.check(not (B == 1 or a == 1) or abs(lo - hi) <= eps, "ci-order", f"{name}: {B} resamples, alpha={a}: bounds {lo}, {hi} differ")
    if B > 2 and B % 2:
        os_[B // 2] = at(1.0)[1]
    if not mon.check((np.diff(os_) >= -eps).all(), "ci-order", f"{name}: {B} resamples: bounds {os_} at the knots"):
        return
    mon.ev("few-resamples")
    for a in [float(v) for v in r.choice([0.001, 0.004, 0.0099, 0.05, 0.3, 0.9999], size=2, replace=False)] + [round(float(r.random()), 4)]:
        m, lo, hi = at(a)
        want = [os_.mean()] + [float(np.percentile(os_, q)) for q in (50 * a, 100 - 50 * a)]
        mon.check(np.allclose([m, lo, hi], want, rtol=0, atol=eps), "ci-few", f"{name}: {B} resamples alpha={a}: mean and bounds {m, lo, hi}, from its order statistics {want}")
    if len(t) <= 4:  # every resampled mean is the mean of len(t) of the terms
        from itertools import combinations_with_replacement as cwr

        pos = np.array([np.mean(c) for c in cwr(t, len(t))])
        mon.ev("attainable-means")
        mon.check(all(np.abs(pos - v).min() <= eps for v in os_), "ci-attainable", f"{name}: resampled means {os_} of the terms {t}")


def bounds(r, mon):
    from obp.ope import helper as h

    n = int(r.choice([2, 3, 10, 100, 2000]))
    x = np.abs(gen.rewards(r, n)).astype(float)
    if r.random() < 0.3:
        x = r.normal(size=n)
    delta = float(r.choice([0.01, 0.05, 0.3, 0.9, 1.0]))
    given = bool(r.random() < 0.5)
    xm = float(x.max() + abs(r.normal())) if given else None
    top = xm if given else float(x.max())
    m, v = ref.fmean(x), ref.pvar(x)
    sc = 1e-9 * (abs(m) + abs(top) + 1e-12)
    mon.close(h.estimate_hoeffding_lower_bound(x=x, x_max=xm, delta=delta), m - top * math.sqrt(math.log(1 / delta) / (2 * n)), "hoeffding",
              f"n={n} delta={delta} x_max={xm}", atol=sc)
    mon.close(h.estimate_bernstein_lower_bound(x=x, x_max=xm, delta=delta),
              m - 7 * top * math.log(2 / delta) / (3 * (n - 1)) - math.sqrt(2 * math.log(2 / delta) * v / (n - 1)), "bernstein",
              f"n={n} delta={delta} x_max={xm}", atol=sc)
    if delta < 1:
        mon.close(h.estimate_student_t_lower_bound(x=x, delta=delta), m - math.sqrt(v / (n - 1)) * stats.t.ppf(1 - delta, n - 1), "student-t",
                  f"n={n} delta={delta}", rtol=1e-6, atol=sc * 100)
    if x.max() > 0:
        mon.raises(lambda: h.estimate_hoeffding_lower_bound(x=x, x_max=float(x.max()) * 0.9, delta=delta), "bad-xmax", "x_max below the samples")
    for fn in (h.estimate_hoeffding_lower_bound, h.estimate_student_t_lower_bound):
        mon.raises(lambda: fn(x=x, delta=float(r.choice([-0.1, 1.1]))), "bad-delta", fn.__name__)
    # bias of modified weights and its high-probability bound
    iw = r.gamma(1, 2, n)
    iwh = np.minimum(iw, float(r.gamma(1, 1)))
    q = r.normal(size=n) if r.random() < 0.5 else None
    rew = gen.rewards(r, n).astype(float)
    b = abs(ref.fmean([(iw[i] - iwh[i]) * (rew[i] - (0 if q is None else q[i])) for i in range(n)]))
    bs = 1e-9 * (np.abs(iw * rew).mean() + 1 + (0 if q is None else np.abs(iw * q).mean()))
    mon.close(h.estimate_bias_in_ope(reward=rew, iw=iw, iw_hat=iwh, q_hat=q), b, "bias", f"n={n}", atol=bs)
    b += math.sqrt(2 * ref.fmean(iw**2) * math.log(2 / delta) / n) + 2 * float(iw.max()) * math.log(2 / delta) / (3 * n)
    mon.close(h.estimate_high_probability_upper_bound_bias(reward=rew, iw=iw, iw_hat=iwh, q_hat=q, delta=delta), b, "bias-bound", f"n={n}", atol=bs)
    mon.ev("bounds")
    mon.sig("bounds", n, delta, given, q is None)
