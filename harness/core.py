"""Shared machinery: event recorder, verdicts, evidence, replay files."""
import hashlib
import json
import math
import os
import sys
import time
import traceback
from collections import Counter

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 64 else f"<array shape={x.shape} dtype={x.dtype}>"
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:200]


class Stop(Exception):
    """Raised to abandon the current case after a violation was recorded."""


class Mon:
    """Recorder of one monitored execution (one case)."""

    def __init__(self, case):
        self.case = case
        self.viol = []
        self.events = Counter()
        self.sigs = set()
        self.notes = []

    # -- trace -----------------------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] += n

    def sig(self, *parts):
        """Register a distinct, non-trivial observation."""
        self.sigs.add(hashlib.md5(repr(parts).encode()).hexdigest()[:16])

    def note(self, **kw):
        if len(self.notes) < 3:
            self.notes.append(jsonable(kw))

    # -- verdicts --------------------------------------------------------------
    def fail(self, key, msg):
        if len(self.viol) < 40:
            self.viol.append(dict(key=key, msg=str(msg)[:600]))

    def check(self, cond, key, msg=""):
        self.events["oracle:" + key] += 1
        if not bool(cond):
            self.fail(key, msg() if callable(msg) else msg)
            return False
        return True

    def close(self, got, want, key, msg="", rtol=1e-7, atol=1e-9):
        """got/want scalars or arrays; nan==nan."""
        self.events["oracle:" + key] += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:  # not numeric
            self.fail(key, f"{msg}: non-numeric result {got!r} ({e})")
            return False
        if g.shape != w.shape:
            self.fail(key, f"{msg}: shape {g.shape}, expected {w.shape}")
            return False
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            i = np.argmin(ok.ravel())
            self.fail(
                key,
                f"{msg}: got {g.ravel()[i]!r}, expected {w.ravel()[i]!r}"
                + (f" at flat index {i} ({(~ok).sum()} of {ok.size} differ)" if ok.size > 1 else ""),
            )
            return False
        return True

    def raises(self, fn, key, msg=""):
        """The call must be rejected with an exception (never return a value)."""
        self.events["oracle:" + key] += 1
        try:
            out = fn()
        except Exception:
            return True
        self.fail(key, f"{msg}: accepted, returned {jsonable(out)!r}"[:400])
        return False


def exc_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-4:]))
    return f"{type(e).__name__}: {e} [{where}]"


def run_case_guarded(mod, case):
    mon = Mon(case)
    try:
        with np.errstate(all="ignore"):
            mod.run_case(case, mon)
    except Stop:
        pass
    except MemoryError:
        return dict(error="MemoryError", case=case)
    except Exception as e:
        # every case is valid input for the unchanged code: an exception is an observation
        mon.fail("unexpected-exception", f"case {case.get('kind')}: {exc_text(e)}")
    return dict(case=case, viol=mon.viol, events=mon.events, sigs=mon.sigs, notes=mon.notes)


def load_known(prop):
    """open findings: 'open: property=<id> key=<key> <text>'"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("open:"):
                toks = line.split()
                d = dict(t.split("=", 1) for t in toks[1:3])
                if d.get("property") == prop:
                    out[d["key"]] = " ".join(toks[3:])
    return out


def write_replay(prop, case, viol, seed, tier):
    d = os.path.join(ROOT, "replays", prop)
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, seed=seed, tier=tier, case=case, violations=viol,
                how="bash /verif/run.sh %s --replay <this file>" % prop)
    h = hashlib.md5(json.dumps(jsonable(case), sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{case.get('kind', 'case')}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=jsonable)
    return path


def now():
    return time.monotonic()


def log(*a):
    print(*a, file=sys.stderr, flush=True)
