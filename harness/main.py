"""Driver: python -m harness.main <property> [--replay FILE]"""
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
from collections import Counter

import numpy as np

from . import core

mod = None


def _init(name):
    global mod
    import logging

    logging.disable(logging.WARNING)
    mod = importlib.import_module(f"harness.checks.{name.lower()}")


def _work(case):
    # a private global seed per case; violations depend only on the case
    np.random.seed(case["seed"] % (2**32))
    random.seed(case["seed"])
    return core.run_case_guarded(mod, case)


def main():
    global mod
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.monotonic()
    import logging

    logging.disable(logging.WARNING)
    import obp

    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    if not os.path.realpath(obp.__file__).startswith(repo + os.sep):
        core.log(f"obp imported from {obp.__file__}, not from {repo}")
        return 2
    _init(prop)

    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        case = json.load(open(sys.argv[3]))["case"]
        res = _work(case)
        for v in res["viol"]:
            print(f"{v['key']}: {v['msg']}")
        if res["viol"]:
            print(f"VIOLATION property={prop} replay={sys.argv[3]}")
            return 1
        return 0

    rng = np.random.default_rng([seed, int(prop[1:]), 0 if tier == "quick" else 1])
    cases = list(mod.cases(rng, tier))
    for i, c in enumerate(cases):
        c.setdefault("seed", int(rng.integers(2**31)))
        c.setdefault("i", i)
    budget = getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 3000)
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    nproc = min(int(os.environ.get("VERIF_JOBS", "8")), os.cpu_count() or 1, max(1, len(cases)))
    enough = int(os.environ.get("VERIF_ENOUGH", "25"))  # stop after this many violating cases
    known = core.load_known(prop)
    events, sigs, viols, samples, known_hits = Counter(), set(), [], [], Counter()
    done, errors = 0, []
    kinds = Counter()
    ctx = mp.get_context("fork")
    pool = ctx.Pool(nproc, initializer=_init, initargs=(prop,))
    truncated = False
    try:
        # interleave the kinds so that a deadline cuts all of them alike
        order = np.random.default_rng(seed).permutation(len(cases))
        it = pool.imap_unordered(_work, [cases[i] for i in order], chunksize=1)
        while True:
            left = budget - (time.monotonic() - t0)
            if left <= 0:
                truncated = True
                break
            try:
                r = it.next(timeout=left)
            except StopIteration:
                break
            except mp.TimeoutError:
                truncated = True
                break
            done += 1
            if "error" in r:
                errors.append(r)
                continue
            kinds[r["case"]["kind"]] += 1
            events.update(r["events"])
            sigs |= r["sigs"]
            if r["notes"] and len(samples) < 6 and not any(s["kind"] == r["case"]["kind"] for s in samples):
                samples.append(dict(kind=r["case"]["kind"], case=core.jsonable(r["case"]), observed=r["notes"]))
            bad = []
            for v in r["viol"]:
                if v["key"] in known:
                    known_hits[v["key"]] += 1
                else:
                    bad.append(v)
            if bad:
                viols.append((r["case"], bad))
                if len(viols) >= enough:
                    break
    finally:
        pool.terminate()
        pool.join()
    wall = time.monotonic() - t0
    n_oracle = sum(v for k, v in events.items() if k.startswith("oracle:"))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=int(done), distinct_nontrivial=len(sigs), rule=mod.RULE,
            samples=samples, cases_by_kind=dict(kinds), oracle_evaluations=int(n_oracle),
            oracles={k[7:]: int(v) for k, v in sorted(events.items()) if k.startswith("oracle:")},
            events={k: int(v) for k, v in sorted(events.items()) if not k.startswith("oracle:")},
            truncated_by_budget=truncated, cases_planned=len(cases),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=len(viols),
    )
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(core.ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=core.jsonable)
    core.log(f"{prop} {tier} seed={seed}: {done}/{len(cases)} cases, {n_oracle} oracle evaluations, "
             f"{len(sigs)} distinct observations, {wall:.1f}s, {len(viols)} violating cases")
    for key, n in known_hits.items():
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    if viols:
        viols.sort(key=lambda cv: cv[0]["i"])
        for case, bad in viols[:5]:
            path = core.write_replay(prop, case, bad, seed, tier)
            for v in bad[:2]:
                print(f"  {case['kind']}: {v['key']}: {v['msg']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    missing = [e for e in getattr(mod, "REQUIRED", []) if not events.get(e) and not events.get("oracle:" + e)]
    if errors or missing or done == 0:
        core.log(f"inconclusive: errors={errors[:2]} never observed={missing} done={done}")
        return 3
    return 0


if __name__ == "__main__":
    sys.stdout.flush()
    sys.exit(main())
