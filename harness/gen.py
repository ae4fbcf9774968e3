"""Generators of hostile but valid logged bandit data."""
import numpy as np


def dist(r, n, k, L, style=None):
    """action_dist (n, k, L), each column a probability distribution over k actions."""
    style = style or r.choice(["dirichlet", "sparse", "deterministic", "uniform", "peaked", "mixed"])
    out = np.zeros((n, k, L))
    for i in range(n):
        for l in range(L):
            s = style if style != "mixed" else r.choice(["dirichlet", "sparse", "deterministic", "peaked"])
            if s == "deterministic":
                out[i, r.integers(k), l] = 1.0
                continue
            if s == "uniform":
                p = np.ones(k)
            elif s == "sparse":
                p = r.dirichlet(np.ones(k)) * (r.random(k) < 0.6)
                if p.sum() <= 0:
                    p[r.integers(k)] = 1
            elif s == "peaked":
                p = r.dirichlet(np.ones(k) * 0.2) + 1e-6
            else:
                p = r.dirichlet(np.ones(k))
            out[i, :, l] = p / p.sum()
    if style == "deterministic" and r.random() < 0.4:
        out = out.astype(int)  # one-hot choices are naturally integers
    return out


def rewards(r, n, style=None):
    style = style or r.choice(["binary", "binary_int", "normal", "negative", "large", "sparse", "const", "bool", "tiny"])
    if style == "binary":
        return (r.random(n) < 0.4).astype(float)
    if style == "binary_int":
        return (r.random(n) < 0.4).astype(int)
    if style == "normal":
        return r.normal(size=n)
    if style == "negative":
        return -r.random(n) * 5
    if style == "large":
        return r.normal(size=n) * 1e4
    if style == "bool":
        return r.random(n) < 0.5
    if style == "single":
        return r.normal(size=n).astype(np.float32)
    if style == "tiny":
        return r.random(n) * 1e-9
    if style == "const":
        return np.full(n, float(r.normal()))
    return r.normal(size=n) * (r.random(n) < 0.2)


def pscores(r, n, style=None):
    style = style or r.choice(["uniform", "extreme", "one", "mid", "rare", "single"])
    if style == "uniform":
        return r.uniform(0.05, 1.0, n)
    if style == "extreme":
        return 10.0 ** r.uniform(-5, 0, n)
    if style == "rare":
        return np.where(r.random(n) < 0.3, 10.0 ** r.uniform(-12, -6, n), r.uniform(0.1, 1, n))
    if style == "single":
        return r.uniform(0.05, 1.0, n).astype(np.float32)
    if style == "one":
        return np.ones(n, dtype=r.choice([float, int]))
    return r.uniform(0.3, 0.7, n)


def layout(r, a):
    """Same values, another memory layout (slices, Fortran order, copies)."""
    m = r.integers(4)
    if m == 0 or a.size == 0:
        return a
    if m == 1:
        return np.asfortranarray(a)
    if m == 2:
        big = np.zeros((a.shape[0] * 2,) + a.shape[1:], dtype=a.dtype)
        big[::2] = a
        return big[::2]
    return a.copy()


def logged(r, n=None, k=None, L=None, intp=True):
    if n is None:
        n = r.choice([1, 2, 3, 7, 20, 60, 150]) if r.random() < 0.9 else r.choice([400, 1100])
    n = int(n)
    if k is None:
        k = r.choice([2, 3, 5, 11]) if r.random() < 0.9 else r.choice([40, 140] if n <= 150 else [40])
    k = int(k)
    L = int(L if L is not None else (r.choice([1, 1, 2, 4]) if r.random() < 0.95 else 9))
    d = dict(
        n=n, k=k, L=L,
        action=r.integers(k, size=n).astype(r.choice([np.int64, np.int32, np.int16, np.uint8]) if intp else np.int64),
        reward=rewards(r, n),
        pscore=pscores(r, n),
        estimated_pscore=pscores(r, n),
        action_dist=dist(r, n, k, L),
        q=r.normal(size=(n, k, L)) * r.choice([0.1, 1.0, 10.0]),
        position=None if (L == 1 and r.random() < 0.5) else r.integers(L, size=n),
    )
    if r.random() < 0.5:  # make the evaluation policy agree with some logged actions
        for i in range(n):
            if r.random() < 0.5:
                l = 0 if d["position"] is None else d["position"][i]
                d["action_dist"][i, :, l] = 0
                d["action_dist"][i, d["action"][i], l] = 1
    for key in ("action", "reward", "pscore", "estimated_pscore", "action_dist", "q"):
        d[key] = layout(r, d[key])
    d["w_hat"] = r.gamma(1.0, 2.0, size=n) * (r.random(n) < 0.9) + (1e-3 if r.random() < 0.5 else 0)
    if d["w_hat"].sum() <= 0:
        d["w_hat"][0] = 1.0
    return d


def maybe_int(r, x, p=0.2, factor=2):
    """Categorical features are often integers."""
    return np.rint(factor * x).astype(int) if r.random() < p else x
