"""C13: line-search optimizers, driven by a simulated loss service.

The closure (the caller's loss evaluation) is the environment: it may be smooth,
noisy, flat, infinite, NaN, may itself recompute gradients, and may fail at any
call.  The process may crash between steps and resume from a checkpoint of the
optimizer's state.  Every call is recorded and compared with a reference model
of the documented rule.
"""
import copy
import io
import math

import numpy as np
import torch

from dst.core import Violation

ID = "C13"
LEVEL = "exploration"
RUNS = dict(quick=2600, thorough=60000)
RULE = ("one case = one optimizer (random hyper-parameters and parameter "
        "shapes) driven for several steps against a simulated loss service "
        "that may be smooth, noisy, flat, infinite, NaN or fail at any call, "
        "with checkpoint/crash/restore between steps; non-trivial when at "
        "least one step evaluated the closure; distinct by the sequence of "
        "(accepted index or fault) over the steps plus configuration")
REAL = ["neural_network_lyapunov.line_search_adam",
        "neural_network_lyapunov.line_search_gd", "torch.optim.Optimizer"]
STUBS = ["closure (loss service)", "checkpoint store (in memory)"]
ASSUMPTIONS = [
    "line-search settings are the same for all parameter groups (learning "
    "rate, betas, weight decay and momentum may differ by group)",
    "exact ties of the acceptance rule may go either way",
    "Armijo's rule with weight decay may use the gradient with or without the "
    "decay term"]


class ClosureFailure(Exception):
    pass


def preload():
    import neural_network_lyapunov.line_search_adam  # noqa
    import neural_network_lyapunov.line_search_gd  # noqa


class Service:
    """The simulated loss service."""
    def __init__(self, run, params, kind):
        self.run, self.ch = run, run.ch
        self.params = params
        self.kind = kind
        r = self.ch.rngstate("landscape")
        self.A = [r.uniform(0.05, 3., size=p.shape) for p in params]
        self.b = [r.uniform(-2., 2., size=p.shape) for p in params]
        self.w = r.uniform(-1., 1.)
        self.regrad = self.ch.flip("closure_recomputes_gradient", 0.3)
        self.as_float = self.ch.flip("closure_returns_float", 0.2)
        self.fail_p = self.ch.pick("closure_fail_p", [0., 0., 0.05, 0.2])
        self.base = None
        self.calls = []  # (params snapshot, loss or 'raise')

    def smooth(self, params):
        s = 0.
        for p, a, b in zip(params, self.A, self.b):
            d = p - torch.from_numpy(b).to(p.dtype)
            q = torch.sum(torch.from_numpy(a).to(p.dtype) * d * d)
            s = s + q + 0.3 * torch.sum(torch.sin(3. * d)) * self.w
        return s

    def value(self):
        k = self.kind
        with torch.no_grad():
            s = float(self.smooth(self.params))
        if k == "smooth":
            return s
        if k == "noisy":
            return s + 0.5 * (self.ch.real("noise") - 0.5)
        if k == "flat":
            return self.base
        # oracle: arbitrary answers around loss0
        c = self.ch.choose("answer", 9)
        d = [1e-3, 1e-1, 10.][self.ch.choose("answer_mag", 3)]
        self.run.note("freedom:loss-answer")
        return [self.base - d, self.base - d, self.base + d, self.base,
                self.base - 1e-7, math.inf, math.nan, -math.inf,
                self.base + 1e-9][c]

    def __call__(self):
        snap = [p.detach().clone().numpy().astype(float) for p in self.params]
        if self.fail_p and self.ch.flip("closure_fails", self.fail_p):
            self.run.note("fault:closure-failure")
            self.calls.append((snap, "raise"))
            raise ClosureFailure("simulated loss service failure")
        v = self.value()
        if self.regrad:
            for p in self.params:
                if p.grad is not None:
                    p.grad.zero_()
                    p.grad.add_(1.7)
        self.calls.append((snap, v))
        if isinstance(v, float) and not math.isfinite(v):
            self.run.note("fault:non-finite-loss")
        return v if self.as_float else torch.tensor(v, dtype=torch.float64)


class RefAdam:
    def __init__(self, groups, cfg):
        self.groups, self.cfg = groups, cfg
        self.state = {}

    def direction(self, i, group, g):
        """(step size t, direction d); updates the moments."""
        st = self.state.setdefault(
            i, dict(step=0, m=np.zeros_like(g), v=np.zeros_like(g),
                    vm=np.zeros_like(g)))
        b1, b2 = group["betas"]
        st["step"] += 1
        st["m"] = b1 * st["m"] + (1 - b1) * g
        st["v"] = b2 * st["v"] + (1 - b2) * g * g
        v = st["v"]
        if self.cfg["amsgrad"]:
            st["vm"] = np.maximum(st["vm"], st["v"])
            v = st["vm"]
        denom = np.sqrt(v) / math.sqrt(1 - b2**st["step"]) + group["eps"]
        return group["lr"] / (1 - b1**st["step"]), -st["m"] / denom


class RefGD:
    def __init__(self, groups, cfg):
        self.state = {}

    def direction(self, i, group, g):
        mu = group["momentum"]
        if mu != 0:
            if i not in self.state:
                self.state[i] = g.copy()
            else:
                self.state[i] = mu * self.state[i] + \
                    (1 - group["dampening"]) * g
            d = g + mu * self.state[i] if group["nesterov"] else self.state[i]
        else:
            d = g
        return group["lr"], -d


def make(run):
    ch = run.ch
    r = ch.rngstate("params")
    dt = torch.float64 if not ch.flip("float32", 0.15) else torch.float32
    shapes = [(3, ), (2, 2), (1, ), (), (2, 3, 1), (5, )]
    n = 1 + ch.choose("n_params", 4)
    params = []
    for k in range(n):
        sh = shapes[ch.choose("shape", len(shapes))]
        params.append(
            torch.tensor(r.uniform(-2, 2, size=sh), dtype=dt,
                         requires_grad=True))
    adam = not ch.flip("gd", 0.5)
    cfg = dict(
        min_step_size_decrease=ch.pick("min_step",
                                       [1e-4, 1e-2, 1e-6, 0.3, 0.05]),
        step_size_reduction=ch.pick("reduction", [0.2, 0.5, 0.9, 0.1]),
        loss_minimal_decrement=ch.pick("c1", [1e-4, 0.1, 0.5, 1e-2]),
        min_improvement=ch.pick("min_improvement", [0., 0., 1e-3, 0.1]))
    if adam:
        if ch.flip("no_armijo", 0.2):
            cfg["loss_minimal_decrement"] = None
        cfg["amsgrad"] = ch.flip("amsgrad", 0.3)
    ngroups = 1 + (ch.choose("two_groups", 2) if n > 1 else 0)
    groups = []
    for gi in range(ngroups):
        g = dict(lr=ch.pick("lr", [0.1, 1e-3, 1., 0.01, 0.5]),
                 weight_decay=ch.pick("wd", [0., 0., 0.01, 0.3]))
        if adam:
            g["betas"] = ch.pick("betas", [(0.9, 0.999), (0.5, 0.9), (0., 0.),
                                           (0.8, 0.99)])
            g["eps"] = ch.pick("eps", [1e-8, 1e-3])
        else:
            g["momentum"] = ch.pick("momentum", [0., 0.9, 0.5])
            g["nesterov"] = g["momentum"] > 0 and ch.flip("nesterov", 0.4)
            g["dampening"] = 0. if g["nesterov"] else ch.pick(
                "dampening", [0., 0., 0.3])
        groups.append(g)
    owner = [0 if ngroups == 1 else k % 2 for k in range(n)]
    return dt, params, adam, cfg, groups, owner


def build(adam, params, cfg, groups, owner):
    from neural_network_lyapunov.line_search_adam import LineSearchAdam
    from neural_network_lyapunov.line_search_gd import LineSearchGD
    pg = []
    for gi, g in enumerate(groups):
        pg.append(
            dict(params=[p for p, o in zip(params, owner) if o == gi], **g))
    if len(pg) == 1:
        d = dict(groups[0])
        kw = dict(cfg)
        kw.update(d)
        cls = LineSearchAdam if adam else LineSearchGD
        return cls(params, **kw)
    if adam:
        return LineSearchAdam(pg, **cfg)
    return LineSearchGD(pg, lr=groups[0]["lr"], **cfg)


def scenario(run):
    ch = run.ch
    run.scenario = "line-search"
    dt, params, adam, cfg, groups, owner = make(run)
    opt = build(adam, params, cfg, groups, owner)
    ref = (RefAdam if adam else RefGD)(groups, cfg)
    kind = ch.pick("service", ["smooth", "oracle", "noisy", "flat"])
    svc = Service(run, params, kind)
    steps = ch.int("steps", 1, 6)
    run.mark(adam, len(params), kind, tuple(sorted(map(str, cfg.items()))))
    run.sample = dict(optimizer="Adam" if adam else "GD", config=cfg,
                      groups=groups, service=kind, steps=steps)
    tol = 1e-9 if dt == torch.float64 else 2e-4
    order = [k for g in range(len(groups)) for k in range(len(params))
             if owner[k] == g]
    for step in range(steps):
        # the caller computes loss and gradient, then asks for a step
        frozen = [ch.flip("no_gradient", 0.1) for _ in params]
        if all(frozen):
            frozen[0] = False
        for p in params:
            p.grad = None
        v = svc.smooth(params)
        if not torch.isfinite(v):
            return
        v.backward()
        mult = ch.pick("grad_scale", [1., 1., 1e-3, 50., -1.])
        for p, f in zip(params, frozen):
            if f:
                p.grad = None
            else:
                p.grad.mul_(mult)
        loss0 = float(v)
        svc.base = loss0
        p0 = [p.detach().clone().numpy().astype(float) for p in params]
        gs = [None if p.grad is None else
              p.grad.detach().clone().numpy().astype(float) for p in params]
        if max(np.abs(x).max() if x.size else 0. for x in p0) > 1e8:
            return
        # reference direction
        t, d, geff, graw = {}, {}, {}, {}
        for k in order:
            if gs[k] is None:
                continue
            gr = groups[owner[k]]
            g = gs[k] + gr["weight_decay"] * p0[k]
            t[k], d[k] = ref.direction(k, gr, g)
            geff[k], graw[k] = g, gs[k]
        svc.calls = []
        try:
            ret = opt.step(svc, loss0)
            raised = False
        except ClosureFailure:
            ret, raised = None, True
        calls = svc.calls
        alphas = []
        a = 1.
        while a > cfg["min_step_size_decrease"]:
            alphas.append(a)
            a *= cfg["step_size_reduction"]
        run.check(len(calls) <= len(alphas), "too-many-evaluations",
                  f"{len(calls)} closure calls, at most {len(alphas)}")
        run.check(len(calls) >= 1, "no-evaluation", "")

        def at(alpha, got, what):
            for k in range(len(params)):
                want = p0[k] + alpha * t[k] * d[k] if k in t else p0[k]
                scale = 1. + np.abs(p0[k]) + (np.abs(t[k] * d[k])
                                              if k in t else 0.)
                bad = np.abs(got[k] - want) > tol * scale
                run.check(not np.any(bad), what,
                          f"step {step} alpha {alpha} param {k}: "
                          f"{got[k].tolist()} expected {want.tolist()}")

        def decrement(gr):
            if cfg["loss_minimal_decrement"] is None:
                return 0.
            return cfg["loss_minimal_decrement"] * sum(
                t[k] * float(np.sum(gr[k] * d[k])) for k in t)

        def accept(alpha, loss):
            """True/False/None (a tie)"""
            out = set()
            for gr in (geff, graw):
                th = loss0 - cfg["min_improvement"]
                if cfg["loss_minimal_decrement"] is not None:
                    th2 = loss0 + alpha * decrement(gr)
                else:
                    th2 = math.inf
                if math.isnan(loss):
                    return False
                m = min(th, th2)
                if math.isinf(loss):
                    out.add(loss < m)
                    continue
                eps = 1e-9 * (1 + abs(loss0) + abs(loss) + (
                    abs(m) if math.isfinite(m) else 0.))
                if dt == torch.float32:
                    eps *= 1e4
                out.add(None if abs(loss - m) <= eps else loss < m)
            return out.pop() if len(out) == 1 else None

        for k, (snap, loss) in enumerate(calls):
            at(alphas[k], snap, "off-the-search-line")
            last = k == len(calls) - 1
            if loss == "raise":
                run.check(last and raised, "failure-swallowed",
                          "a failing closure was called again or ignored")
                continue
            acc = accept(alphas[k], loss)
            if not last:
                run.check(acc is not True, "passed-over-acceptable-step",
                          f"alpha {alphas[k]} loss {loss} from {loss0} was "
                          "acceptable but the search went on")
            elif len(calls) < len(alphas):
                run.check(acc is not False, "stopped-at-unacceptable-step",
                          f"alpha {alphas[k]} loss {loss} from {loss0} is "
                          "not acceptable but the search stopped")
        if calls[-1][1] == "raise":
            run.check(raised, "failure-swallowed", "")
        else:
            run.check(not raised, "spurious-failure", "")
            lv = float(ret)
            want = calls[-1][1]
            same = lv == want or (math.isnan(lv) and math.isnan(want)) or \
                (math.isfinite(want) and abs(lv - want) <= 1e-6 *
                 (1 + abs(want)))
            run.check(same, "returned-loss", f"{lv} but last loss was {want}")
        fin = [p.detach().clone().numpy().astype(float) for p in params]
        at(alphas[len(calls) - 1], fin, "final-parameters")
        # internal state equals the reference's
        if adam:
            for k in t:
                st = opt.state[params[k]]
                rs = ref.state[k]
                ok = st["step"] == rs["step"] and np.allclose(
                    st["exp_avg"].numpy(), rs["m"], rtol=tol, atol=tol) and \
                    np.allclose(st["exp_avg_sq"].numpy(), rs["v"],
                                rtol=10 * tol, atol=tol)
                run.check(ok, "moments", f"param {k} step {step}")
        run.mark(len(calls), raised)
        run.event(step, len(calls), raised, [c[1] for c in calls],
                  [f.tolist() for f in fin])
        # crash and restart from the durable checkpoint
        if ch.flip("crash_restart", 0.15):
            run.note("fault:crash-restart")
            buf = io.BytesIO()
            torch.save(dict(o=opt.state_dict(),
                            p=[p.detach() for p in params]), buf)
            buf.seek(0)
            ck = torch.load(buf, weights_only=False)
            params = [p.clone().requires_grad_(True) for p in ck["p"]]
            svc.params = params
            opt = build(adam, params, cfg, groups, owner)
            opt.load_state_dict(ck["o"])
            if ch.flip("crash_mid_step", 0.3):
                # the work since the checkpoint is lost
                pass
