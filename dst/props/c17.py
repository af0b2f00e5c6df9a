"""C17: supervised loops visit the data as documented, report true losses.

Histories of supervised sessions (model fits, value fits, sample descents,
projected-gradient descents) with seeded batch orders and with models, data
sets and label functions that fail or are interrupted at any call. What each
step saw is recorded from outside (hooks on the user's own model and label
function, optimizer hooks) and every reported loss is recomputed.
"""
import contextlib
import copy
import io
import re

import numpy as np
import torch

from dst import build as B
from dst import session as SS

ID = "C17"
LEVEL = "exploration"
RUNS = dict(quick=2500, thorough=150000)
RULE = ("one case = one history of supervised sessions; non-trivial when at "
        "least one epoch or projected gradient was judged; distinct by loop, "
        "data, batch size, epochs, network shapes and faults")
REAL = ["utils.py (train_model, train_approximator)", "train_utils.py",
        "control_affine_system.py (model fit)", "train_lyapunov_barrier.py "
        "(TrainValueApproximator, train_lyapunov_on_samples)",
        "hybrid_linear_system.py (labels)", "torch optimizers, data loaders"]
STUBS = ["gurobipy (simulated solver)", "torch's random stream (seeded)"]
ASSUMPTIONS = [
    "every sample is a distinct row", "losses are compared up to round-off",
    "a session that raised is not judged beyond the steps it made"]
D = torch.float64
NUM = r"[-+]?(?:nan|inf|\d[\d.]*(?:e[-+]?\d+)?)"


def preload():
    import neural_network_lyapunov.train_lyapunov_barrier  # noqa
    import neural_network_lyapunov.train_utils  # noqa
    import neural_network_lyapunov.control_affine_system  # noqa


class Injected(Exception):
    pass


class Log:
    """What the loops fed to the model, and when they stepped."""
    def __init__(self, run):
        from torch.optim.optimizer import (register_optimizer_step_pre_hook,
                                           register_optimizer_step_post_hook)
        self.ev = []
        self.before = None
        hs = [register_optimizer_step_pre_hook(self._pre),
              register_optimizer_step_post_hook(self._post)]
        for h in hs:
            run.cleanup.append(h.remove)
        self.hooks = hs

    def _pre(self, opt, a, k):
        if self.before is not None:
            self.before(opt)

    def _post(self, opt, a, k):
        self.ev.append(("step", None))

    def close(self):
        for h in self.hooks:
            h.remove()


class Fault:
    """raise at a chosen call, if at all"""
    def __init__(self, ch, likely=0.15):
        self.n = 0
        self.at = None
        if ch.flip("fault", likely):
            self.at = ch.choose("fault.at", 25)
            self.error = [Injected, KeyboardInterrupt][
                ch.choose("fault.kind", 2)]
        self.fired = False

    def __call__(self):
        self.n += 1
        if self.at is not None and self.n > self.at and not self.fired:
            self.fired = True
            raise self.error("injected")


def close(a, b, rtol=1e-9):
    if not np.isfinite(a) or not np.isfinite(b):
        return np.isfinite(a) == np.isfinite(b)
    return abs(a - b) <= rtol * (1 + abs(a) + abs(b))


def net(run, name, d_in, d_out, **k):
    return B.net(run, name, d_in, d_out, max_hidden=1, max_width=3, **k)


def rows_of(t):
    return [tuple(r) for r in t.detach().numpy().reshape((t.shape[0], -1))]


def data(run, d_in, d_out, n):
    r = run.ch.rngstate("data")
    X = r.randn(n, d_in)
    X[:, 0] = np.arange(n) + r.uniform(0.1, 0.4, size=n)
    X[:, 0] -= n / 2
    Y = r.randn(n, d_out)
    return torch.from_numpy(X), torch.from_numpy(Y)


def params_of(models):
    return [q for m in models for q in m.parameters()]


def judge_epochs(run, ev, rows, epochs, batch, held_out, where):
    """ev: ("rows", list) and ("step", None) in order. Every epoch trains on
    each training sample once. Returns the trained and the other rows."""
    trained, other = [], []
    for a, b in zip(ev, ev[1:] + [("end", None)]):
        if a[0] == "rows":
            (trained if b[0] == "step" else other).append(a[1])
    run.check(all(a[0] == "rows" for a, b in zip(ev, ev[1:])
                  if b[0] == "step"), where + ":step", "a step without data")
    run.check(sum(a[0] == "step" for a in ev) == len(trained), where +
              ":step", "a step without data")
    if epochs == 0:
        run.check(not trained, where + ":epochs", f"{len(trained)} steps in "
                  "0 epochs")
        return set(), set(rows)
    mine = set(r for b in trained for r in b)
    run.check(mine <= set(rows), where + ":rows", "rows that are not data")
    if not held_out:
        run.check(len(mine) == len(rows), where + ":unused", lambda: f"only "
                  f"{len(mine)} of {len(rows)} samples are ever used")
    nb = -(-len(mine) // batch)
    run.check(len(trained) == nb * epochs, where + ":epochs", lambda:
              f"{len(trained)} steps for {epochs} epochs of {len(mine)} "
              f"samples in batches of {batch}")
    for e in range(epochs):
        got = [r for b in trained[e * nb:(e + 1) * nb] for r in b]
        run.check(len(got) == len(mine) and set(got) == mine,
                  where + ":once", lambda: f"epoch {e} used {len(got)} "
                  f"samples, {len(set(got))} distinct, of {len(mine)}")
    rest = set(rows) - mine
    for b in other:
        run.check(set(b) == rest and len(b) == len(rest), where + ":test",
                  lambda: f"tested on {len(b)} samples, "
                  f"{len(set(b) & mine)} of them trained on")
    run.note("epochs-judged", epochs)
    run.nontrivial = True
    return mine, rest


def judge_step(run, models, extra, last, loss, where, exact):
    """the gradient of an optimizer step is that of the batch just seen"""
    ps = params_of(models) + extra
    got = [q.grad for q in ps]
    want = torch.autograd.grad(loss, ps, allow_unused=True)
    g = np.concatenate([np.zeros(q.numel()) if v is None else
                        v.detach().numpy().ravel()
                        for q, v in zip(ps, got)])
    w = np.concatenate([np.zeros(q.numel()) if v is None else
                        v.detach().numpy().ravel()
                        for q, v in zip(ps, want)])
    if not (np.all(np.isfinite(w)) and np.all(np.isfinite(g))):
        return
    if not exact:
        k = np.linalg.norm(w)
        if k > 0:
            w = w * (np.linalg.norm(g) / k)
    run.check(np.abs(g - w).max() <= 1e-8 * (1 + np.abs(w).max()),
              where + ":gradient", lambda: f"{g}, the batch's is {w}")


def printed(text, n):
    """the (training, test) losses of each epoch"""
    out = []
    for line in text.splitlines():
        m = re.search(r"epoch\s+(\d+).*?loss[^\d+\-ni]*(" + NUM + ").*?loss\\D*?"
                      r"(" + NUM + ")", line)
        if m:
            out.append((int(m.group(1)), float(m.group(2)),
                        float(m.group(3))))
    return out


class Rows(torch.utils.data.TensorDataset):
    """the user's data set; reading it may fail"""
    fault = None

    def __getitem__(self, i):
        if self.fault is not None:
            self.fault()
        return torch.utils.data.TensorDataset.__getitem__(self, i)


def guarded(run, faults, f):
    """f(); returns None if an injected fault came out of it"""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            r = f()
    except (Injected, KeyboardInterrupt):
        if any(k.fired for k in faults):
            run.note("fault:raised")
            return None
        raise
    run.check(not any(k.fired for k in faults), "swallowed", "a failure of "
              "the user's own code was swallowed")
    return r, out.getvalue()


# ------------------------------------------------------------ model fits
def sizes(run):
    ch = run.ch
    n = 2 + ch.choose("n", 14)
    batch = [1, 2, 3, 5, 50][ch.choose("batch", 5)]
    epochs = [1, 2, 3, 0][ch.choose("epochs", 4)]
    lr = [0.01, 0.1, 1e-4, 100.][ch.choose("lr", 4)]
    run.mark(n, batch, epochs, lr)
    return n, batch, epochs, lr


def approximator(run):
    import neural_network_lyapunov.utils as utils
    ch = run.ch
    d_in, d_out = 1 + ch.choose("d_in", 3), 1 + ch.choose("d_out", 2)
    model = net(run, "model", d_in, d_out)
    n, batch, epochs, lr = sizes(run)
    X, Y = data(run, d_in, d_out, n)
    target = {r: i for i, r in enumerate(rows_of(X))}
    extra = [torch.zeros(d_out, dtype=D, requires_grad=True)] if ch.flip(
        "extra", 0.4) else None
    args = dict(shift=0.5) if ch.flip("args", 0.4) else None
    faults = [Fault(ch), Fault(ch, 0.08)]
    log = Log(run)
    last = {}

    def out(m, x, shift=0.):
        y = m(x) + shift
        return y if extra is None else y + extra[0]

    def fun(m, x, **k):
        faults[0]()
        log.ev.append(("rows", rows_of(x)))
        last["x"] = x.detach().clone()
        run.check(m is model and k == (args or {}), "fit:arguments", f"{k}")
        return out(m, x, **k)

    def mse(x):
        i = [target[r] for r in rows_of(x)]
        return ((out(model, x, **(args or {})) - Y[i])**2).mean()
    losses = []

    def before(opt):
        v = mse(last["x"])
        losses.append(v.item())
        judge_step(run, [model], extra or [], last["x"], v, "fit", True)
    log.before = before
    ds = Rows(X, Y)
    ds.fault = faults[1]
    k = dict(additional_variable=extra, verbose=ch.flip("verbose", 0.8))
    if args is not None:
        k["output_fun_args"] = args
    res = guarded(run, faults, lambda: utils.train_approximator(
        ds, model, fun, batch, epochs, lr, **k))
    log.close()
    if res is None:
        return
    mine, rest = judge_epochs(run, log.ev, rows_of(X), epochs, batch, True,
                              "fit")
    if epochs:
        run.check(len(mine) >= 1 and (n < 2 or len(rest) >= 1), "fit:split",
                  f"{len(mine)} to train on, {len(rest)} to test on")
    said = printed(res[1], epochs)
    if k["verbose"] and epochs:
        run.check(len(said) == epochs, "fit:printed", lambda:
                  f"{epochs} epochs, printed {res[1]!r}")
    nb = len(losses) // max(epochs, 1)
    for e, (no, tr, te) in enumerate(said):
        want = np.mean(losses[e * nb:(e + 1) * nb])
        run.check(close(tr, want, 1e-4), "fit:training-loss",
                  lambda: f"epoch {e}: printed {tr}, batches had {want}")
    if said:
        i = [target[r] for r in rest]
        with torch.no_grad():
            want = mse(X[i]).item()
        run.check(close(said[-1][2], want, 1e-4), "fit:test-loss", lambda:
                  f"printed {said[-1][2]}, the model left in place has {want} "
                  "on the samples it was not trained on")


def control_affine(run):
    import neural_network_lyapunov.control_affine_system as cas
    ch = run.ch
    nx, nu = 1 + ch.choose("nx", 2), 1 + ch.choose("nu", 2)
    f = net(run, "f", nx, nx)
    G = net(run, "G", nx, nx * nu)
    n, batch, epochs, lr = sizes(run)
    X, Y = data(run, nx + nu, nx, n)
    target = {r[:nx]: i for i, r in enumerate(rows_of(X))}
    xe, ue = torch.from_numpy(ch.rngstate("eq").randn(nx)), \
        torch.from_numpy(ch.rngstate("eq").randn(nu))
    log = Log(run)
    fault = Fault(ch)
    mute = [False]
    last = {}

    def hook(m, a):
        if mute[0] or a[0].dim() != 2:
            return
        fault()
        log.ev.append(("rows", rows_of(a[0])))
        last["x"] = a[0].detach().clone()
    h = f.register_forward_pre_hook(hook)
    run.cleanup.append(h.remove)

    def mse(i):
        mute[0] = True
        try:
            x, u = X[i][:, :nx], X[i][:, nx:]
            y = f(x) + torch.einsum("bij,bj->bi", G(x).reshape(
                (-1, nx, nu)), u) - f(xe) - G(xe).reshape((nx, nu)) @ ue
            return ((y - Y[i])**2).mean()
        finally:
            mute[0] = False
    losses = []

    def before(opt):
        v = mse([target[r] for r in rows_of(last["x"])])
        losses.append(v.item())
        judge_step(run, [f, G], [], None, v, "affine", True)
    log.before = before
    p0 = [q.detach().clone() for q in params_of([f, G])]
    res = guarded(run, [fault], lambda:
                  cas.train_control_affine_forward_model(
                      f, G, xe, ue, Rows(X, Y), epochs, lr,
                      batch_size=batch, verbose=ch.flip("verbose", 0.6)))
    log.close()
    h.remove()
    if res is None:
        return
    judge_epochs(run, log.ev, [r[:nx] for r in rows_of(X)], epochs, batch,
                 True, "affine")
    if not epochs:
        run.check(all(torch.equal(a, b) for a, b in
                      zip(p0, params_of([f, G]))), "affine:epochs", "moved")
    for e, (no, tr, te) in enumerate(printed(res[1], epochs)):
        nb = len(losses) // epochs
        want = np.mean(losses[e * nb:(e + 1) * nb])
        run.check(close(tr, want, 1e-4), "affine:training-loss",
                  lambda: f"epoch {e}: printed {tr}, batches had {want}")


def fit(run):
    import neural_network_lyapunov.utils as utils
    ch = run.ch
    d_in, d_out = 1 + ch.choose("d_in", 3), 1 + ch.choose("d_out", 2)
    model = net(run, "model", d_in, d_out)
    n, batch, epochs, lr = sizes(run)
    n -= ch.choose("one", 2)
    X, Y = data(run, d_in, d_out, n)
    target = {r: i for i, r in enumerate(rows_of(X))}
    log = Log(run)
    fault = Fault(ch)
    mute = [False]
    last = {}

    def hook(m, a):
        if not mute[0]:
            fault()
            log.ev.append(("rows", rows_of(a[0])))
            last["x"] = a[0].detach().clone()
    h = model.register_forward_pre_hook(hook)
    run.cleanup.append(h.remove)

    def before(opt):
        mute[0] = True
        i = [target[r] for r in rows_of(last["x"])]
        v = ((model(last["x"]) - Y[i])**2).mean()
        mute[0] = False
        judge_step(run, [model], [], None, v, "model", False)
    log.before = before
    res = guarded(run, [fault], lambda: utils.train_model(
        model, X, Y, batch_size=batch, num_epoch=epochs, learning_rate=lr,
        print_loss=ch.flip("print", 0.3)))
    log.close()
    h.remove()
    if res is None:
        return
    run.check(res[0] is model, "model:returned", "another model is returned")
    judge_epochs(run, log.ev, rows_of(X), epochs, batch, False, "model")


# ------------------------------------------------------------ value fits
def value(run):
    import neural_network_lyapunov.train_lyapunov_barrier as tlb
    from dst.props import c16
    ch = run.ch
    r = ch.rngstate("value")
    pipeline = ch.flip("pipeline", 0.4)
    if pipeline:
        S = c16.Sys(run, True)
        dim = S.n
        cost = c16.Cost(run, dim)
        x0 = [S.start(ch) for _ in range(2 + ch.choose("n0", 3))]
        N = 1 + ch.choose("N", 4)
        pairs = []
        for x in x0:
            q = c16.simulate(S, x, N, cost, None)
            if q is not None:
                pairs += list(zip(q[0], q[1]))
        if cost.kind == "graph":
            cost.w.requires_grad_(False)
    else:
        dim = 1 + ch.choose("dim", 3)
        m = 1 + ch.choose("n", 8)
        pairs = [(r.randn(dim), abs(r.randn()) * 2) for _ in range(m)]
    phi = net(run, "phi", dim, 1)
    xe = torch.from_numpy(r.randn(dim) * ch.choose("xe", 2))
    lam = float([0., 0.5, 2.][ch.choose("lam", 3)])
    R = None if ch.flip("R none", 0.3) else torch.from_numpy(
        r.randn(dim + ch.choose("rows", 2), dim))
    ap = tlb.TrainValueApproximator()
    ap.max_epochs = 1 + ch.choose("max_epochs", 12)
    ap.learning_rate = [0.02, 0.2, 1e-4, 1e3][ch.choose("lr", 4)]
    fault = Fault(ch, 0.12)
    mute = [False]
    h = phi.register_forward_pre_hook(
        lambda m, a: None if mute[0] else fault())
    run.cleanup.append(h.remove)
    X = np.array([p for p, _ in pairs])
    v = np.array([q for _, q in pairs])

    def total():
        mute[0] = True
        try:
            y = phi(torch.from_numpy(X))[:, 0] - phi(xe[None])[0, 0]
        finally:
            mute[0] = False
        E = X - xe.numpy()
        return ((y + torch.from_numpy(
            lam * np.abs(E if R is None else E @ R.numpy().T).sum(axis=1) -
            v))**2).mean()

    def mse():
        with torch.no_grad():
            return total().item()
    if not pairs:
        h.remove()
        return
    start = mse()
    ap.convergence_tolerance = start * [0.9, 0.5, 1.5, 0.][
        ch.choose("tol", 4)] + [0., 1e-3][ch.choose("tol2", 2)]
    tol = ap.convergence_tolerance
    run.mark(dim, len(pairs), lam, ap.max_epochs, pipeline)
    log = Log(run)
    seen = []

    def before(opt):
        seen.append(mse())
        judge_step(run, [phi], [], None, total(), "value", True)
    log.before = before
    if pipeline:
        res = guarded(run, [fault], lambda: ap.train(
            S.s, phi, lam, xe, cost, torch.from_numpy(np.array(x0)), N, True,
            R))
    else:
        res = guarded(run, [fault], lambda: ap.train_with_cost_to_go(
            phi, [(torch.from_numpy(p), torch.tensor(q, dtype=D))
                  for p, q in pairs], lam, xe, R))
    log.close()
    h.remove()
    run.check(len(seen) <= ap.max_epochs, "value:epochs",
              f"{len(seen)} steps, {ap.max_epochs} epochs")
    if res is None:
        return
    ok, loss = res[0]
    now = mse()
    run.mark(ok, len(seen))
    # an iterate that meets the tolerance ends the session there
    run.check(all(not s <= tol - 1e-9 * (1 + tol) for s in seen),
              "value:late", lambda: f"losses {seen} at the steps, tolerance "
              f"{tol}")
    if ok:
        run.check(now <= tol + 1e-9 * (1 + tol), "value:success", lambda:
                  f"success, but the model left in place has {now} > {tol}")
        run.check(close(float(loss), now), "value:loss", lambda:
                  f"reported {loss}, the model has {now}")
    else:
        run.check(len(seen) == ap.max_epochs, "value:epochs",
                  f"{len(seen)} steps, {ap.max_epochs} epochs")
        run.check(any(close(float(loss), q) for q in [now] + seen[-1:]),
                  "value:loss", lambda: f"reported {loss}, the model had "
                  f"{seen[-1:]} and has {now}")
    run.note("values-judged")
    run.nontrivial = True


# --------------------------------------------------------- sample descent
def samples(run):
    ch = run.ch
    S = SS.make(run, ["relu_eq", "residual_eq", "fb_relu_eq", "fb_relu"],
                methods="ia")
    if S.t.lyapunov_positivity_sample_cost_weight == 0:
        S.t.lyapunov_derivative_sample_cost_weight = 1.
    n = 2 + ch.choose("n_samples", 10)
    batch = [1, 2, 3, 50][ch.choose("batch", 4)]
    epochs = [1, 2, 3][ch.choose("epochs", 3)]
    r = ch.rngstate("samples")
    X = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(n, S.p.dim)))
    log = Log(run)
    sys_ = S.s.system
    real = sys_.step_forward
    fault = Fault(ch, 0.2)
    data_rows = set(rows_of(X))

    def step(x, *a, **k):
        fault()
        for q in rows_of(x if x.dim() == 2 else x[None]):
            log.ev.append(("row", q))
        return real(x, *a, **k)
    sys_.step_forward = step
    res = guarded(run, [fault], lambda: S.t.train_lyapunov_on_samples(
        X, epochs, batch))
    del sys_.step_forward
    log.close()
    if res is None:
        return
    run.mark(n, batch, epochs)
    # group the single states into what was seen before each step
    ev = []
    for a in log.ev:
        if a[0] == "row":
            if a[1] not in data_rows:
                continue
            if ev and ev[-1][0] == "rows":
                ev[-1][1].append(a[1])
            else:
                ev.append(("rows", [a[1]]))
        else:
            ev.append(a)
    # the test states come after the last step of an epoch and before the
    # next epoch's first batch
    steps = sum(a[0] == "step" for a in ev)
    run.check(steps % epochs == 0, "samples:epochs",
              f"{steps} steps in {epochs} epochs")
    nb = steps // epochs
    seen = [a[1] for a in ev if a[0] == "rows"]
    run.check(len(seen) == steps + 1, "samples:step", f"{steps} steps, "
              f"{len(seen)} batches")
    test = set(seen[-1])
    run.check(len(seen[-1]) == len(test), "samples:test", "a test sample "
              "twice")
    train = data_rows - test
    run.check(nb == -(-len(train) // batch), "samples:epochs", lambda:
              f"{nb} steps per epoch for {len(train)} samples in batches of "
              f"{batch}")
    for e in range(epochs):
        got = [q for b in seen[e * nb:(e + 1) * nb] for q in b]
        if e:
            run.check(set(got[:len(test)]) == test, "samples:test",
                      "other test samples than in the last epoch")
            got = got[len(test):]
        run.check(len(got) == len(train) and set(got) == train,
                  "samples:once", lambda: f"epoch {e} used {len(got)} "
                  f"samples, {len(set(got))} distinct, of {len(train)}")
    run.note("epochs-judged", epochs)
    run.nontrivial = True


# ------------------------------------------------------ projected gradient
def projected(run):
    import neural_network_lyapunov.train_utils as tu
    ch = run.ch
    P = tu.ProjectGradientMode
    d = 1 + ch.choose("d", 3)
    model = net(run, "model", d, 1 + ch.choose("d_out", 2))
    ps = list(model.parameters())
    r = ch.rngstate("loss")
    opt = torch.optim.SGD(ps, lr=1e-3)
    for k in range(1 + ch.choose("steps", 4)):
        mode = [P.BOTH, P.LOSS1, P.LOSS2, P.EMPHASIZE_LOSS1,
                P.EMPHASIZE_LOSS2][ch.choose("mode", 5)]
        kind = ch.choose("pair", 7)
        run.mark(mode.name, kind)
        X = torch.from_numpy(r.randn(3, d))
        w = torch.from_numpy(r.randn(3, 1))
        scale = [1., 1e-6, 1e6][ch.choose("scale", 3)]

        def losses():
            y = model(X)
            a = (y * w).sum()
            b = (y**2).sum() * scale
            if kind == 0:
                return a, b
            if kind == 1:
                return a, -a * scale          # opposite
            if kind == 2:
                return a, 0. * b              # one is stationary
            if kind == 3:
                return 0. * a, b
            if kind == 4:
                return a, a * scale           # the same
            if kind == 5:
                return 0. * a, 0. * b
            c = torch.from_numpy(rr.randn(len(ps)))
            return a, sum((q * q).sum() * v for q, v in zip(ps, c))
        rr = np.random.RandomState(r.randint(1 << 30))
        st = rr.get_state()
        g = []
        for i in range(2):
            rr.set_state(st)
            g.append(torch.cat([
                (torch.zeros_like(q) if v is None else v).reshape(-1)
                for q, v in zip(ps, torch.autograd.grad(
                    losses()[i], ps, allow_unused=True))]).numpy())
        rr.set_state(st)
        opt.zero_grad()
        l1, l2 = losses()
        need, n1, n2 = tu.project_gradient(
            model, l1, l2, mode, retain_graph=ch.flip("retain", 0.5))
        a, b = g
        if max(np.abs(a).max(), np.abs(b).max()) > 1e9:
            return  # the descent diverged
        na, nb, ab = np.linalg.norm(a), np.linalg.norm(b), float(a @ b)
        run.check(np.allclose(n1.numpy(), a, rtol=1e-9, atol=1e-12 * na) and
                  np.allclose(n2.numpy(), b, rtol=1e-9, atol=1e-12 * nb),
                  "project:gradients", lambda: f"{n1} {n2}, not {a} {b}")
        got = torch.cat([q.grad.reshape(-1) for q in ps]).numpy()
        run.check(np.all(np.isfinite(got)), "project:finite", lambda:
                  f"{got} from {a} and {b}, mode {mode}")
        eps = 1e-9 * na * nb
        run.note("gradients-judged")
        run.nontrivial = True
        s = np.linalg.norm(got)
        if mode in (P.BOTH, P.LOSS1, P.LOSS2, P.EMPHASIZE_LOSS1):
            run.check(mode == P.EMPHASIZE_LOSS1 and ab < 0 or
                      got @ b >= -1e-9 * (s + na + nb) * nb, "project:second",
                      lambda: f"mode {mode}: descending {got} increases the "
                      f"second loss (gradient {b})")
        if mode in (P.BOTH, P.LOSS1, P.LOSS2, P.EMPHASIZE_LOSS2):
            run.check(mode == P.EMPHASIZE_LOSS2 and ab < 0 or
                      got @ a >= -1e-9 * (s + na + nb) * na, "project:first",
                      lambda: f"mode {mode}: descending {got} increases the "
                      f"first loss (gradient {a})")
        if mode == P.EMPHASIZE_LOSS1:
            run.check(got @ a >= -1e-9 * (s + na + nb) * na, "project:first",
                      lambda: f"{got} {a}")
        if mode == P.EMPHASIZE_LOSS2:
            run.check(got @ b >= -1e-9 * (s + na + nb) * nb,
                      "project:second", lambda: f"{got} {b}")
        if abs(ab) > eps or (ab == 0. and (na == 0 or nb == 0)):
            run.check(bool(need) == (ab < 0), "project:verdict",
                      lambda: f"n1'n2 = {ab}, needs projection: {need}")
            if ab >= 0:
                want = a + b
            else:
                p1 = a - ab / (b @ b) * b
                p2 = b - ab / (a @ a) * a
                want = {P.BOTH: p1 + p2, P.LOSS1: p1, P.LOSS2: p2,
                        P.EMPHASIZE_LOSS1: a + p2,
                        P.EMPHASIZE_LOSS2: p1 + b}[mode]
            run.check(np.abs(got - want).max() <= 1e-8 * (na + nb),
                      "project:combination", lambda: f"{got} not {want}")
        opt.step()


LOOPS = [approximator, approximator, fit, control_affine, value, value,
         samples, projected, projected]


def scenario(run):
    ch = run.ch
    run.nontrivial = False
    torch.manual_seed(ch.choose("torch.seed", 1 << 20))
    for k in range(1 + ch.choose("sessions", 3)):
        f = LOOPS[ch.choose("loop", len(LOOPS))]
        run.scenario = f.__name__
        run.mark(f.__name__)
        run.note("loop:" + f.__name__)
        f(run)
    run.sample = dict(last=run.scenario)
