"""C10: results are functions of the inputs and the seeds; inputs are never modified."""
import copy
import random

import numpy as np

from .. import progs
from . import c01, c03, c04, c05, c06, c07

RULE = ("every estimator on random logs (repeated, interleaved with other data, rows permuted, actions relabelled) and seeded programs over datasets, models, "
        "learners, online policies, replay and simulators run twice under different global random states; caller-owned arrays compared before and after; "
        "non-trivial: distinct (program, parameters) or (estimator, log size)")
ASSUMPTIONS = ["bitwise equality is required only between two runs of the same code in the same process"]
BUDGET = dict(quick=300, thorough=2400)
REQUIRED = [f"prog:{k}" for k in progs.PROGS] + ["permuted", "relabelled", "interleaved", "buffers-reused", "earlier-results"]


def cases(rng, tier):
    m = 1 if tier == "quick" else 12
    for name in progs.PROGS:
        for _ in range(progs.COUNT.get(name, 40) * (1 if name == "obd" else m)):
            yield dict(kind="program", name=name)
    for fam in c07.FAMS:
        for name in c07.FAMS[fam]:
            for _ in range(20 * m):
                yield dict(kind="estimator", fam=fam, name=name)


def scramble(r):
    np.random.seed(int(r.integers(2**31)))
    random.seed(int(r.integers(2**31)))
    np.random.rand(int(r.integers(1, 5)))
    import sys

    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(int(r.integers(2**31)))


def flat(x, path=""):
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            yield from flat(x[k], f"{path}.{k}")
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from flat(v, f"{path}[{i}]")
    else:
        yield path, x


def pairs(x):
    if isinstance(x, dict):
        for k in x:
            if k == "earlier_results_untouched":
                yield x[k]
            else:
                yield from pairs(x[k])
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from pairs(v)


def diff(a, b):
    fa, fb = list(flat(a)), list(flat(b))
    if [p for p, _ in fa] != [p for p, _ in fb]:
        return "structure differs"
    for (p, u), (_, v) in zip(fa, fb):
        if u is None or v is None:
            if u is not v:
                return f"{p}: {u!r} vs {v!r}"
            continue
        u, v = np.asarray(u), np.asarray(v)
        if u.shape != v.shape or u.dtype != v.dtype:
            return f"{p}: shape/dtype {u.shape}{u.dtype} vs {v.shape}{v.dtype}"
        if u.dtype == object:
            if list(map(repr, u.ravel())) != list(map(repr, v.ravel())):
                return f"{p}: objects differ"
        elif not np.array_equal(u, v, equal_nan=u.dtype.kind == "f"):
            return f"{p}: {np.sum(u != v)} of {u.size} entries differ"
    return None


def outcome(est, kw):
    try:
        return [float(est.estimate_policy_value(**kw)), est.estimate_interval(alpha=0.1, n_bootstrap_samples=20, random_state=3, **kw)]
    except Exception as e:
        return [type(e).__name__]


def run_case(case, mon):
    r = np.random.default_rng(case["seed"])
    if case["kind"] == "program":
        return program(r, case, mon)
    s = c07.setup(r, case["fam"], case["name"])
    if s is None:
        return mon.ev("skipped-undefined")
    est, kw, t, extra = s
    name = case["name"]
    before = copy.deepcopy(kw)
    fresh = copy.deepcopy(est)
    v = est.estimate_policy_value(**kw)
    d = diff(before, kw)
    mon.check(d is None, "inputs-modified", f"{name}: estimate_policy_value changed its input {d}")
    ci = est.estimate_interval(alpha=0.1, n_bootstrap_samples=30, random_state=7, **kw)
    d = diff(before, kw)
    mon.check(d is None, "inputs-modified", f"{name}: estimate_interval changed its input {d}")
    # another log in between, another global random state
    s2 = c07.setup(r, case["fam"], case["name"])
    if s2 is not None and (case["fam"] not in ("slate", "embed")):
        try:
            est.estimate_policy_value(**s2[1])
            mon.ev("interleaved")
        except Exception:
            pass
    scramble(r)
    v2 = est.estimate_policy_value(**kw)
    mon.check(np.array_equal(np.asarray(v), np.asarray(v2), equal_nan=True), "estimate-repeatable", f"{name}: {v!r} then {v2!r} on the same log")
    ci2 = est.estimate_interval(alpha=0.1, n_bootstrap_samples=30, random_state=7, **kw)
    mon.check(diff(ci, ci2) is None, "interval-repeatable", f"{name}: {ci} then {ci2}")
    # the caller reuses its buffers: same array objects, other contents
    buf = copy.deepcopy(kw)
    outcome(est, buf)
    if "reward" in buf:
        hold = [k for k, a in buf.items() if isinstance(a, np.ndarray) and len(a) == len(buf["reward"]) and len(a) > 1]
        for k in hold:
            if k == "reward" or (k == "action_dist" and r.random() < 0.5):
                buf[k][:] = buf[k][r.permutation(len(buf[k]))]
        got, want = outcome(est, buf), outcome(fresh, copy.deepcopy(buf))
        mon.ev("buffers-reused")
        mon.check(diff(got, want) is None, "buffers-reused", f"{name}: {got!r} after the caller refilled its arrays, a fresh estimator gives {want!r}")
    n = len(t)
    mon.sig(name, n, str(extra)[:12])
    scale = float(np.abs(t).mean()) + 1e-12
    # row order
    rows = len(kw["reward"]) if "reward" in kw else n
    perm = r.permutation(rows)
    if case["fam"] == "slate" and name == "cascade-dr":
        L = rows // n
        perm = (r.permutation(n)[:, None] * L + np.arange(L)).ravel()
    if case["fam"] != "embed" or True:
        pk = {}
        for k, a in kw.items():
            if isinstance(a, np.ndarray) and a.shape[:1] == (rows,):
                pk[k] = a[perm]
            elif isinstance(a, np.ndarray) and name == "cascade-dr" and a.ndim == 1 and rows and a.size % rows == 0:
                pk[k] = a.reshape(rows, -1)[perm].ravel()
            else:
                pk[k] = a
        if case["fam"] == "embed" and kw.get("p_e_a") is not None and kw["p_e_a"].shape[0] == rows:
            pk["p_e_a"] = kw["p_e_a"]  # indexed by action, not by round
        if case["fam"] == "embed" and kw.get("position") is None and rows == 1:
            return
        v3 = est.estimate_policy_value(**pk)
        mon.ev("permuted")
        mon.close(v3, v, "row-order", f"{name}: reordering the rounds", rtol=1e-6, atol=1e-7 * scale)
    if case["fam"] in ("single", "multi") and "action" in kw:
        k_ = kw["action_dist"].shape[1]
        p = r.permutation(k_)  # new label of old action a is p[a]
        inv = np.argsort(p)
        rk = dict(kw, action=p[kw["action"]], action_dist=kw["action_dist"][:, inv])
        if kw.get("estimated_rewards_by_reg_model") is not None:
            rk["estimated_rewards_by_reg_model"] = kw["estimated_rewards_by_reg_model"][:, inv]
        v4 = est.estimate_policy_value(**rk)
        mon.ev("relabelled")
        mon.close(v4, v, "action-labels", f"{name}: renaming the actions", rtol=1e-6, atol=1e-7 * scale)


def program(r, case, mon):
    mk, run = progs.PROGS[case["name"]]
    p, inp = mk(r)
    before = copy.deepcopy(inp)
    scramble(r)
    a = copy.deepcopy(run(p, inp))
    d = diff(before, inp)
    mon.check(d is None, "inputs-modified", f"{case['name']}: caller's {d} after the call")
    for x in pairs(a):
        mon.ev("earlier-results")
        e = diff(*x)
        mon.check(e is None, "earlier-results", f"{case['name']} {p}: a result already returned differs from a later / repeated one at {e}")
    scramble(r)
    b = run(p, copy.deepcopy(before))
    d = diff(a, b)
    mon.check(d is None, "seed-reproducible", f"{case['name']} {p}: two runs with the same seed differ at {d}")
    for path, v in flat(a):
        if path.endswith("feedback_untouched"):
            mon.check(v, "inputs-modified", f"{case['name']}: bandit_feedback changed by the call")
    mon.ev(f"prog:{case['name']}")
    mon.sig(case["name"], sorted((k, str(v)) for k, v in p.items()))
    mon.note(program=case["name"], params=p)
