"""C21: neural off-policy learners follow the gradient of their stated objective (replayed in double precision)."""
import copy
import itertools
import math

import numpy as np

from .. import gen, stat

RULE = ("objectives x solvers x activations x layer sizes x full batch / ordered mini-batches / shuffled mini-batches / validation split x regularisers; every training run is replayed "
        "step by step from the same initial weights with an independent double-precision value function and automatic differentiation; non-trivial: distinct configurations whose policy moved")
ASSUMPTIONS = ["networks are small and steps moderate, so that single and double precision agree", "the stopping rule is decided where the loss is the documented one (reward networks, continuous learner); elsewhere it is not triggered", "stopping decisions within single precision of tol are not judged"]
BUDGET = dict(quick=300, thorough=2400)
REQUIRED = ["obj:" + o for o in ("dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss")] + ["pg:dpg", "pg:ipw", "pg:dr"] + [
    "solver:sgd", "solver:adam", "solver:adagrad", "mode:full", "mode:ordered", "mode:shuffled", "mode:valid", "policy-reg", "var-reg", "q-fit", "qc-fit", "moved",
    "single-round-batch", "stopped", "stopped-valid", "not-stopped", "underflow", "clamped", "stat-tests", "no-pscore", "confident-start", "rare-logged", "one-sided-space"]
ACT = ("identity", "logistic", "tanh", "relu", "elu")


def cases(rng, tier):
    m = 3 if tier == "quick" else 20
    for o in ("dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss"):
        for mode in ("full", "ordered", "shuffled", "valid"):
            for _ in range((9 if mode in ("full", "ordered") else 4) * m):
                yield dict(kind="disc", objective=o, mode=mode)
    for o in ("dpg", "ipw", "dr"):
        for mode in ("full", "ordered", "shuffled", "valid"):
            for _ in range((9 if mode in ("full", "ordered") else 4) * m):
                yield dict(kind="cont", objective=o, mode=mode)
    for k in ("q", "qc"):
        for mode in ("full", "ordered", "shuffled", "valid"):
            for _ in range(6 * m):
                yield dict(kind=k, mode=mode)
    for k in ("q", "qc", "cont"):
        for mode in ("stop", "stop", "stopvalid"):
            for _ in range(10 * m):
                yield dict(kind=k, mode=mode, **(dict(objective=("dpg", "ipw", "dr")[int(rng.integers(3))]) if k == "cont" else {}))
    for _ in range(20 * m):
        yield dict(kind="sample")
    for _ in range(10 * m):
        yield dict(kind="defaults")
    for _ in range(18 * m):
        yield dict(kind="confident")


def run_case(case, mon):
    import torch

    torch.set_num_threads(1)
    r = np.random.default_rng(case["seed"])
    globals()["_" + case["kind"]](r, case, mon)


def weights(net):
    import torch

    return [(l.weight.detach().double().clone(), l.bias.detach().double().clone()) for l in net.modules() if isinstance(l, torch.nn.Linear)]


def act(name, z):
    import torch

    if name == "identity":
        return z
    if name == "logistic":
        return 1 / (1 + torch.exp(-z))
    if name == "tanh":
        e = torch.exp(-2 * z.abs())
        return torch.sign(z) * (1 - e) / (1 + e)
    if name == "relu":
        return z.clamp(min=0)
    return torch.where(z > 0, z, torch.exp(z.clamp(max=0)) - 1)


def fwd(W, x, a):
    z = x
    for i, (w, b) in enumerate(W):
        z = z @ w.T + b
        if i < len(W) - 1:
            z = act(a, z)
    return z


def optimiser(hp, params):
    import torch

    s, lr, wd = hp["solver"], hp["learning_rate_init"], hp["alpha"]
    if s == "sgd":
        return torch.optim.SGD(params, lr=lr, momentum=hp["momentum"], weight_decay=wd, nesterov=hp["nesterovs_momentum"])
    if s == "adagrad":
        return torch.optim.Adagrad(params, lr=lr, eps=hp["epsilon"], weight_decay=wd)
    return torch.optim.Adam(params, lr=lr, betas=(hp["beta_1"], hp["beta_2"]), eps=hp["epsilon"], weight_decay=wd)


def hyper(r, mode, n):
    s = str(r.choice(["sgd", "adam", "adagrad"]))
    hp = dict(hidden_layer_size=[(), (3,), (4, 3)][int(r.integers(3))], activation=str(r.choice(ACT)), solver=s, alpha=float(r.choice([0.0, 0.01, 0.3])),
              learning_rate_init=float(r.choice([0.02, 0.1])), max_iter=int(r.choice([1, 2, 4])), momentum=float(r.choice([0.3, 0.9])),
              nesterovs_momentum=bool(r.random() < 0.5), beta_1=float(r.choice([0.5, 0.9])), beta_2=float(r.choice([0.7, 0.999])),
              epsilon=float(r.choice([1e-2, 1e-1])), n_iter_no_change=10**6, random_state=int(r.integers(10000)))
    if mode in ("stop", "stopvalid"):
        hp["tol"] = float(r.choice([1e-4, 1e-2, 0.1, 0.3]))
        hp["n_iter_no_change"] = int(r.choice([1, 2, 3]))
        hp["max_iter"] = int(r.choice([4, 9]))
        hp["batch_size"] = int(r.integers(1, n + 1)) if mode == "stop" else n
        hp["shuffle"] = False
        if mode == "stopvalid":
            hp["early_stopping"] = True
            hp["validation_fraction"] = float(r.choice([0.2, 0.4, 0.5]))
    elif mode == "full":
        hp["batch_size"] = ["auto", n, n + 3][int(r.integers(3))] if n < 100 else "auto" if n < 200 else n
        hp["shuffle"] = bool(r.random() < 0.5)
    elif mode == "ordered":
        hp["batch_size"] = int(r.integers(1, n)) if n < 200 else "auto"
        hp["shuffle"] = False
    elif mode == "shuffled":
        hp["batch_size"] = 2
        hp["shuffle"] = True
        hp["max_iter"] = 1
    else:
        hp["early_stopping"] = True
        hp["validation_fraction"] = float(r.choice([0.2, 0.4, 0.5]))
        hp["batch_size"] = "auto"
        hp["shuffle"] = False
    return hp


def n_of(r, mode):
    if mode in ("full", "ordered") and r.random() < 0.15:
        return 150 if mode == "full" else 230  # on both sides of the automatic batch size
    return int(r.choice([5, 12, 30])) if mode in ("full", "ordered", "stop") else int(r.choice([4, 5]))


def schedules(mode, hp, n):
    """candidate sequences of training batches, one of which the run must have used"""
    bs = hp["batch_size"]
    T = hp["max_iter"]
    if mode == "full":
        yield [list(range(n))] * T
    elif mode == "ordered":
        bs = 200 if bs == "auto" else bs
        yield [list(range(i, min(n, i + bs))) for i in range(0, n, bs)] * T
    elif mode == "shuffled":
        seen = set()
        for p in itertools.permutations(range(n)):
            key = tuple(tuple(sorted(p[i : i + bs])) for i in range(0, n, bs))
            if key not in seen:
                seen.add(key)
                yield [list(b) for b in key]
    else:
        v = max(int(n * hp["validation_fraction"]), 1)
        for keep in itertools.combinations(range(n), n - v):
            yield [list(keep)] * T


def replay(W0, a, hp, batches, loss):
    W = [(w.clone().requires_grad_(), b.clone().requires_grad_()) for w, b in W0]
    opt = optimiser(hp, [t for wb in W for t in wb])
    for I in batches:
        opt.zero_grad()
        loss(W, I).backward()
        opt.step()
    return [(w.detach(), b.detach()) for w, b in W]


def runs(W0, a, hp, mode, n, loss, mon):
    """weights after training under every admissible schedule (and the documented stopping rule, where the case triggers it)"""
    if mode not in ("stop", "stopvalid"):
        return [replay(W0, a, hp, b, loss) for b in schedules(mode, hp, n)]
    if mode == "stop":
        bs = hp["batch_size"]
        plans = [([list(range(i, min(n, i + bs))) for i in range(0, n, bs)], [])]
    else:
        v = max(int(n * hp["validation_fraction"]), 1)
        plans = []
        for keep in itertools.combinations(range(n), n - v):
            plans.append(([list(keep)], [i for i in range(n) if i not in keep]))
    out = []
    for ep, val in plans:
        W = [(w.clone().requires_grad_(), b.clone().requires_grad_()) for w, b in W0]
        opt = optimiser(hp, [t for wb in W for t in wb])
        prev, bad, vprev, vbad, why = None, 0, None, 0, None

        def worse(p, c):
            if abs(p - c - hp["tol"]) < 2e-5 * (1 + abs(p)) + 1e-3 * abs(p - c):
                raise ArithmeticError  # too close to call in single precision
            return p - c < hp["tol"]

        try:
            for _ in range(hp["max_iter"]):
                for I in ep:
                    opt.zero_grad()
                    l = loss(W, I)
                    l.backward()
                    opt.step()
                    l = float(l.detach())
                    if prev is not None:
                        bad = bad + 1 if worse(prev, l) else 0
                    prev = l
                    if bad >= hp["n_iter_no_change"]:
                        why = "stopped"
                        break
                if why:
                    break
                if val:
                    l = float(loss([(w.detach(), b.detach()) for w, b in W], val))
                    if vprev is not None:
                        vbad = vbad + 1 if worse(vprev, l) else 0
                    vprev = l
                    if vbad >= hp["n_iter_no_change"]:
                        why = "stopped-valid"
                        break
        except ArithmeticError:
            return []
        mon.ev(why or "not-stopped")
        out.append([(w.detach(), b.detach()) for w, b in W])
    return out


def match(mon, got, cands, start, lab, key):
    """one of the candidate outcomes is observed"""
    if cands and not any(np.abs(c).max() < 1e3 for c in cands):
        return  # the training itself diverges
    if not mon.check(np.isfinite(got).all(), key + "-finite", f"{lab}: the trained network is not finite"):
        return
    best, arg = None, None
    for c in cands:
        mv = float(np.abs(c - start).max())
        d = float(np.abs(got - c).max()) / (2e-4 * (1 + np.abs(c).max()) + 2e-3 * mv)
        if not math.isfinite(d):
            continue
        if best is None or d < best:
            best, arg = d, (c, mv)
    if arg is None:
        return
    if best > 1 and not all(np.isfinite(c).all() for c in cands):
        return  # one of the admissible schedules leaves single precision
    if arg[1] > 1e-2:
        mon.ev("moved")
    mon.check(best <= 1, key, f"{lab}: after training {got.ravel()[:4]}, expected {arg[0].ravel()[:4]} (before: {start.ravel()[:4]})")
    mon.ev("schedules-compared")


def softmax(z):
    import torch

    e = torch.exp(z - z.max(1, keepdim=True)[0])
    return e / e.sum(1, keepdim=True)


def qhp(r, mode="full", n=10):
    h = hyper(r, mode, n)
    return h


def _disc(r, case, mon):
    import torch
    from obp.policy import NNPolicyLearner

    obj, mode = case["objective"], case["mode"]
    n = n_of(r, mode)
    k, d = int(r.choice([2, 3, 5])), int(r.choice([1, 3]))
    x = r.normal(size=(n, d))
    a = r.integers(k, size=n)
    rew = gen.rewards(r, n, str(r.choice(["binary", "binary_int", "normal", "negative"])))
    ps = r.uniform(0.2, 1, n)
    hp = hyper(r, mode, n)
    hot = bool(r.random() < 0.3)
    if hot:  # a policy that is already confident on the logged contexts
        x *= float(r.choice([8.0, 30.0]))
        hp["learning_rate_init"], hp["max_iter"] = 0.01, 1 if mode == "shuffled" else int(r.choice([1, 2]))
    lam = {"snipw": [None, 0.0, 0.7, 2], "ipw-os": [None, 0.5, 3.0, 100], "ipw-subgauss": [None, 0.0, 0.3, 0.8]}.get(obj)
    lam = lam[int(r.integers(4))] if lam else None
    reg = float(r.choice([0.0, 0.0, 0.5])) if r.random() < 0.8 else 1
    var = float(r.choice([0.0, 0.0, 0.4]))
    kw = dict(hp)
    qh = None
    if obj in ("dm", "dr"):
        qh = qhp(r, "full", n)
        kw["q_func_estimator_hyperparams"] = dict(qh)
    if lam is not None:
        kw["lambda_"] = lam
    m = NNPolicyLearner(n_actions=k, dim_context=d, off_policy_objective=obj, policy_reg_param=reg, var_reg_param=var, **kw)
    W0 = weights(m.nn_model)
    xn = r.normal(size=(7, d))
    X, XN = torch.tensor(x).float().double(), torch.tensor(xn).float().double()
    lab = f"{obj} {mode} n={n} k={k} lambda={lam} reg={reg} var={var} " + " ".join(f"{u}={v}" for u, v in hp.items())

    def pol(W):
        return softmax(fwd(W, XN, hp["activation"])).numpy()

    start = pol(W0)
    if (softmax(fwd(W0, X, hp["activation"])).numpy()[np.arange(n), a] > 0.99).mean() > 0.2:
        mon.ev("confident-start")
    mon.close(np.asarray(m.predict_proba(context=xn))[:, :, 0], start, "proba", f"{lab}: initial policy", rtol=1e-4, atol=1e-5)
    Q0 = weights(m.q_func_estimator.nn_model) if qh else None
    nops = bool(r.random() < 0.2)
    p0 = softmax(fwd(W0, X, hp["activation"])).numpy()
    if hot and r.random() < 0.7:
        # rarely logged actions: the logging policy resembles the (confident) initial policy
        ps = np.clip(p0[np.arange(n), a] * r.uniform(0.4, 1.6, n), 1e-9, 1)
        nops = False
        if (ps < 1e-4).any():
            mon.ev("rare-logged")
    if nops:
        mon.ev("no-pscore")
        ps = np.full(n, 1 / k)
    if bool(r.random() < 0.5):
        torch.manual_seed(int(r.integers(10**6)))
    kept = [v.copy() for v in (x, a, rew, ps)]
    m.fit(context=x, action=a, reward=rew, pscore=None if nops else ps)
    mon.check(all(np.array_equal(u, v) for u, v in zip(kept, (x, a, rew, ps))), "inputs", f"{lab}: inputs altered")
    mon.ev("obj:" + obj)
    mon.ev("mode:" + mode)
    mon.ev("solver:" + hp["solver"])
    A = torch.tensor(a)
    R = torch.tensor(np.asarray(rew, float)).float().double()
    P = torch.tensor(ps).float().double()
    qhat = None
    if qh:
        Qw = replay(Q0, qh["activation"], qh, next(schedules("full", qh, n)), q_loss(X, A, R, qh["activation"]))
        qhat = fwd(Qw, X, qh["activation"])
        got = m.q_func_estimator.predict(torch.tensor(x).float()).detach().numpy()
        match(mon, got, [qhat.numpy()], fwd(Q0, X, qh["activation"]).numpy(), f"{lab}: reward model {qh}", "q-model")
        mon.ev("q-fit")
    L = lam if lam is not None else dict(snipw=0.0).get(obj, {"ipw-os": 10000, "ipw-subgauss": 0.001}.get(obj))

    def loss(W, I):
        I = torch.tensor(I)
        z = fwd(W, X[I], hp["activation"])
        lp = z - torch.logsumexp(z, 1, keepdim=True)
        pi = torch.exp(lp)
        ar = torch.arange(len(I))
        pa, la = pi[ar, A[I]], lp[ar, A[I]]
        iw = pa / P[I]
        low[0] = min(low[0], float(iw.detach().mean()))
        high[0] = max(high[0], float(iw.detach().max()))
        q = qhat[I] if qhat is not None else None
        if obj == "dm":
            v = (q * pi).sum(1)
            # surrogate whose gradient is that of v
            sg = (q * pi.detach() * lp).sum(1)
        elif obj == "dr":
            v = iw * (R[I] - q[ar, A[I]]) + (q * pi).sum(1)
            sg = iw.detach() * (R[I] - q[ar, A[I]]) * la + (q * pi.detach() * lp).sum(1)
        else:
            if obj == "ipw":
                f = lambda w: w
                y = R[I]
            elif obj == "snipw":
                f = lambda w: w
                y = R[I] - L
            elif obj == "ipw-os":
                f = lambda w: L * w / (w * w + L)
                y = R[I]
            else:
                f = lambda w: w / (1 - L + L * w)
                y = R[I]
            v = f(iw) * y
            # d f(iw) = f'(iw) iw dlog(pa)
            w_ = iw.detach().clone().requires_grad_()
            g = torch.autograd.grad(f(w_).sum(), w_)[0]
            sg = (g * iw.detach() * y) * la
        out = -v.mean()
        if reg:
            out = out + reg * torch.log(iw.mean())
        if var and len(I) > 1:
            out = out + var * ((sg - sg.mean()) ** 2).sum() / (len(I) - 1)
        return out

    if reg:
        mon.ev("policy-reg")
    if var:
        mon.ev("var-reg")
    if hp["batch_size"] == 1 or mode == "ordered" and hp["batch_size"] != "auto" and n % hp["batch_size"] == 1:
        mon.ev("single-round-batch")
    got = np.asarray(m.predict_proba(context=xn))
    ok = got.shape == (7, k, 1)
    if mon.check(ok, "shape", f"{lab}: policy of shape {got.shape}"):
        low, high = [1.0], [0.0]
        cands = [pol(replay(W0, hp["activation"], hp, b, loss)) for b in schedules(mode, hp, n)]
        # beyond single precision (vanishing probabilities) only finiteness is decided
        if qhat is not None and float(qhat.abs().max()) > 50:
            mon.ev("diverged-reward-model")  # the reward model itself diverges on these inputs: not judged
            return
        if high[0] > 1e3 and hot:
            mon.ev("exploding-weights")  # single precision cannot follow such steps
            return
        match(mon, got[:, :, 0], cands if low[0] > 1e-25 or not reg else [], start, lab, "training")
        now = pol(weights(m.nn_model))
        mon.close(got[:, :, 0], now, "proba", f"{lab}: trained policy", rtol=1e-4, atol=1e-5)
        one = np.asarray(m.predict(context=xn))
        mon.check(one.shape == (7, k, 1) and np.isin(one, [0, 1]).all() and (one.sum(1) == 1).all() and (got[one == 1] >= got.max(1).ravel() - 1e-6).all(), "greedy", f"{lab}: predict is not the most probable action")
    mon.sig("disc", obj, mode, hp["solver"], hp["activation"], len(hp["hidden_layer_size"]), lam, reg, var, k, d)
    mon.note(config=lab, policy=got[0].ravel())


def q_loss(X, A, R, a):
    import torch

    def loss(W, I):
        I = torch.tensor(I)
        return ((fwd(W, X[I], a)[torch.arange(len(I)), A[I]] - R[I]) ** 2).mean()

    return loss


def qc_loss(Z, R, a):
    import torch

    def loss(W, I):
        I = torch.tensor(I)
        return ((fwd(W, Z[I], a).ravel() - R[I]) ** 2).mean()

    return loss


def _q(r, case, mon):
    import torch
    from obp.policy.offline import QFuncEstimator

    mode = case["mode"]
    n = n_of(r, mode)
    k, d = int(r.choice([2, 4])), int(r.choice([1, 3]))
    x, a, rew = r.normal(size=(n, d)), r.integers(k, size=n), r.normal(size=n)
    hp = hyper(r, mode, n)
    m = QFuncEstimator(n_actions=k, dim_context=d, **hp)
    W0 = weights(m.nn_model)
    m.fit(context=x, action=a, reward=rew)
    X, A, R = torch.tensor(x).float().double(), torch.tensor(a), torch.tensor(rew).float().double()
    xn = r.normal(size=(5, d))
    XN = torch.tensor(xn).float().double()
    got = m.predict(torch.tensor(xn).float()).detach().numpy()
    lab = f"QFuncEstimator {mode} n={n} {hp}"
    if mon.check(got.shape == (5, k), "shape", lab):
        match(mon, got, [fwd(W, XN, hp["activation"]).numpy() for W in runs(W0, hp["activation"], hp, mode, n, q_loss(X, A, R, hp["activation"]), mon)],
              fwd(W0, XN, hp["activation"]).numpy(), lab, "q-model")
    mon.ev("q-fit")
    mon.ev("mode:" + mode)
    mon.sig("q", mode, hp["solver"], hp["activation"], k, d)


def _qc(r, case, mon):
    import torch
    from obp.policy.offline_continuous import QFuncEstimatorForContinuousAction

    mode = case["mode"]
    n = n_of(r, mode)
    d = int(r.choice([1, 3]))
    x, a, rew = r.normal(size=(n, d)), r.normal(size=n), r.normal(size=n)
    hp = hyper(r, mode, n)
    m = QFuncEstimatorForContinuousAction(dim_context=d, **hp)
    W0 = weights(m.nn_model)
    m.fit(context=x, action=a, reward=rew)
    Z, R = torch.tensor(np.c_[x, a]).float().double(), torch.tensor(rew).float().double()
    xn, an = r.normal(size=(5, d)), r.normal(size=5)
    ZN = torch.tensor(np.c_[xn, an]).float().double()
    got = m.predict(torch.tensor(xn).float(), torch.tensor(an).float()).detach().numpy()
    lab = f"QFuncEstimatorForContinuousAction {mode} n={n} {hp}"
    if mon.check(got.shape == (5,), "shape", lab):
        match(mon, got, [fwd(W, ZN, hp["activation"]).ravel().numpy() for W in runs(W0, hp["activation"], hp, mode, n, qc_loss(Z, R, hp["activation"]), mon)],
              fwd(W0, ZN, hp["activation"]).ravel().numpy(), lab, "q-model")
    mon.ev("qc-fit")
    mon.ev("mode:" + mode)
    mon.sig("qc", mode, hp["solver"], hp["activation"], d)


def _cont(r, case, mon):
    import torch
    from obp.policy import ContinuousNNPolicyLearner

    obj, mode = case["objective"], case["mode"]
    n = n_of(r, mode)
    d = int(r.choice([1, 3]))
    x, a, rew, ps = r.normal(size=(n, d)), r.normal(size=n), r.normal(size=n), r.uniform(0.2, 1.5, n)
    hp = hyper(r, mode, n)
    out = [None, None, (-0.2, 0.25), (0, 1), (-3.0, 3), (-2.0, -0.5), (0.5, 4)][int(r.integers(7))]
    if out and out[0] * out[1] > 0:  # actions in the admissible range, away from zero
        a = r.uniform(*out, size=n)
        mon.ev("one-sided-space")
    h = float(r.choice([0.05, 0.4, 1.0, 2.5]))
    if h < 0.1 and hp["solver"] == "sgd":
        hp["learning_rate_init"] = 0.002
    kw = dict(hp)
    qh = None
    if obj != "ipw":
        qh = qhp(r, "full", n)
        kw["q_func_estimator_hyperparams"] = dict(qh)
    m = ContinuousNNPolicyLearner(dim_context=d, pg_method=obj, bandwidth=h, output_space=out, **kw)
    W0 = weights(m.nn_model)
    Q0 = weights(m.q_func_estimator.nn_model) if qh else None
    nops = bool(r.random() < 0.2)
    if nops:
        mon.ev("no-pscore")
        ps = np.ones(n)
    kept = [v.copy() for v in (x, a, rew, ps)]
    m.fit(context=x, action=a, reward=rew, pscore=None if nops else ps)
    mon.check(all(np.array_equal(u, v) for u, v in zip(kept, (x, a, rew, ps))), "inputs", "inputs altered")
    mon.ev("pg:" + obj)
    mon.ev("mode:" + mode)
    mon.ev("solver:" + hp["solver"])
    lab = f"continuous {obj} {mode} n={n} h={h} space={out} " + " ".join(f"{u}={v}" for u, v in hp.items())
    X, A, R, P = (torch.tensor(v).float().double() for v in (x, a, rew, ps))
    xn = r.normal(size=(7, d)) * 2
    XN = torch.tensor(xn).float().double()
    lo, hi = out if out else (-np.inf, np.inf)

    def pol(W):
        return np.clip(fwd(W, XN, hp["activation"]).ravel().numpy(), lo, hi)

    Qw = None
    if qh:
        Z = torch.cat((X, A[:, None]), 1)
        Qw = replay(Q0, qh["activation"], qh, next(schedules("full", qh, n)), qc_loss(Z, R, qh["activation"]))
        got = m.q_func_estimator.predict(X.float(), A.float()).detach().numpy()
        match(mon, got, [fwd(Qw, Z, qh["activation"]).ravel().numpy()], fwd(Q0, Z, qh["activation"]).ravel().numpy(), f"{lab}: reward model {qh}", "q-model")

    def loss(W, I):
        I = torch.tensor(I)
        t = fwd(W, X[I], hp["activation"]).ravel()
        if out:
            t = t.clamp(lo, hi)
        q = fwd(Qw, torch.cat((X[I], t[:, None]), 1), qh["activation"]).ravel() if qh else 0.0
        if obj == "dpg":
            return -q.mean()
        K = torch.exp(-(((t - A[I]) / h) ** 2) / 2) / math.sqrt(2 * math.pi) / h
        return -(K * (R[I] - q) / P[I] + q).mean()

    got = np.asarray(m.predict(context=xn))
    if mon.check(got.shape == (7,), "shape", f"{lab}: predictions of shape {got.shape}"):
        cands = [pol(W) for W in runs(W0, hp["activation"], hp, mode, n, loss, mon)]
        match(mon, got, cands, pol(W0), lab, "training")
        if out:
            mon.check((got >= lo - 1e-6).all() and (got <= hi + 1e-6).all(), "output-space", f"{lab}: predictions {got} outside {out}")
            if ((got < lo + 1e-6) | (got > hi - 1e-6)).any():
                mon.ev("clamped")
    mon.sig("cont", obj, mode, hp["solver"], hp["activation"], out, h, d)
    mon.note(config=lab, actions=got)


def _sample(r, case, mon):
    from obp.policy import NNPolicyLearner

    k = int(r.choice([2, 3, 5]))
    L = int(r.choice([1, 2]))
    n, d = 1500, 2
    m = NNPolicyLearner(n_actions=k, len_list=L, dim_context=d, off_policy_objective="ipw", hidden_layer_size=(6,), random_state=int(r.integers(10**4)))
    x = r.normal(size=(n, d)) * 8
    tau = [0.2, 1, 3.0][int(r.integers(3))]
    S = np.asarray(m.predict_proba(context=x))[:, :, 0].astype(float) / tau
    s = int(r.integers(10**4))
    R = np.asarray(m.sample_action(context=x, tau=tau, random_state=s))
    lab = f"sample_action k={k} L={L} tau={tau}"
    ok = R.shape == (n, k, L) and np.isin(R, [0, 1]).all() and (R.sum(1) == 1).all() and (R.sum(2) <= 1).all()
    if not mon.check(ok, "ranking", f"{lab}: not a ranking without repetition"):
        return
    Z = np.asarray(m.sample_action(context=x, tau=1e-8, random_state=s))
    M = S * tau
    top = -np.sort(-M, axis=1)
    for l in range(L):  # at a very low temperature sampling is ranking by probability
        c = Z[:, :, l].argmax(1)
        mon.check((np.abs(M[np.arange(n), c] - top[:, l]) <= 1e-6).all(), "ranking-cold", f"{lab}: position {l} at temperature zero")
    mon.ev("cold")
    mon.check(np.array_equal(R, m.sample_action(context=x, tau=tau, random_state=s)), "ranking-seed", lab)

    def sm(z):
        e = np.exp(z - z.max(1, keepdims=True))
        return e / e.sum(1, keepdims=True)

    first = R[:, :, 0].argmax(1)
    stat.categorical(mon, first, sm(S), "ranking-first", lab, [np.sign(x[:, 0])])
    if L > 1 and k > 2:
        S2 = S.copy()
        S2[np.arange(n), first] = -np.inf
        stat.categorical(mon, R[:, :, 1].argmax(1), sm(S2), "ranking-second", lab)
    mon.sig("sample", k, L, tau)


def _confident(r, case, mon):
    """policies whose probabilities underflow to zero stay distributions while training goes on"""
    from obp.policy import NNPolicyLearner

    n, k, d = 9, 3, 2
    x = r.normal(size=(n, d)) * 10 ** r.uniform(3, 5)
    a = r.integers(k, size=n)
    obj = str(r.choice(["ipw", "snipw", "ipw-os", "ipw-subgauss", "dr", "dm"]))
    reg, var, bs = float(r.choice([0.0, 0.5])), float(r.choice([0.0, 0.5])), int(r.choice([1, 4, 9]))
    early = bool(r.random() < 0.5)
    m = NNPolicyLearner(n_actions=k, dim_context=d, off_policy_objective=obj, policy_reg_param=reg, var_reg_param=var, batch_size=bs, max_iter=4, hidden_layer_size=(5,), early_stopping=early,
                        random_state=int(r.integers(10**4)), learning_rate_init=0.01)
    P0 = np.asarray(m.predict_proba(context=x))
    if (P0 == 0).any():
        mon.ev("underflow")
    m.fit(context=x, action=a, reward=r.random(n), pscore=np.full(n, 1 / k))
    P = np.asarray(m.predict_proba(context=x))[:, :, 0]
    mon.check(np.isfinite(P).all() and np.allclose(P.sum(1), 1, atol=1e-4), "finite", f"{obj} reg={reg} var={var} batch={bs} early={early}: the trained policy of confident start is not a distribution: {P[0]}")
    mon.sig("confident", obj, reg, var, bs, early)


def _defaults(r, case, mon):
    """a longer run with the library's own settings: learning finds the rewarded action, whatever the batch sizes"""
    from obp.policy import NNPolicyLearner

    n, k, d = int(r.choice([201, 401, 300])), 3, 2
    x = r.normal(size=(n, d))
    a = r.integers(k, size=n)
    best = (x[:, 0] > 0).astype(int)
    rew = (a == best).astype(float)
    obj = str(r.choice(["ipw", "snipw", "ipw-os", "ipw-subgauss", "dr", "dm"]))
    m = NNPolicyLearner(n_actions=k, dim_context=d, off_policy_objective=obj, learning_rate_init=0.02, max_iter=60, hidden_layer_size=(16,), random_state=int(r.integers(10**4)), n_iter_no_change=10**6,
                        q_func_estimator_hyperparams=dict(learning_rate_init=0.02, max_iter=60, hidden_layer_size=(16,), random_state=1, n_iter_no_change=10**6) if obj in ("dm", "dr") else None)
    P0 = np.asarray(m.predict_proba(context=x))[np.arange(n), best, 0].mean()
    m.fit(context=x, action=a, reward=rew, pscore=np.full(n, 1 / k))
    P = np.asarray(m.predict_proba(context=x))[:, :, 0]
    if mon.check(np.isfinite(P).all() and np.allclose(P.sum(1), 1, atol=1e-4), "finite", f"{obj} n={n}: the trained policy is not a distribution"):
        v = P[np.arange(n), best].mean()
        mon.check(v > P0 and v > 0.6, "learns", f"{obj} n={n}: probability of the rewarded action went from {P0:.3f} to {v:.3f}")
    mon.ev("defaults:" + obj)
    mon.sig("defaults", obj, n)
