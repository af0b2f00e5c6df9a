"""C15: dynamics-learning losses mean what they say, whatever the solver does.

Whole histories of adversarial losses, adversarial searches, training epochs
and parameter changes against a solver that answers any optimum, stops early,
is terminated by callback or starts warm. Worst violations are searched for
independently; gradients are compared with differences of re-solved programs.
"""
import warnings

import numpy as np
import torch

from dst import build as B
from dst import learner as LN
from dst.props.c08 import numbers

ID = "C15"
LEVEL = "exploration"
RUNS = dict(quick=200, thorough=40000)
RULE = ("one case = one history of loss evaluations, adversarial searches, "
        "epochs and rollouts; non-trivial when at least one loss was judged; "
        "distinct by learner, options, solver statuses and operations")
REAL = ["dynamics_learning.py", "lyapunov.py", "relu_system.py",
        "relu_to_optimization.py", "gurobi_torch_mip.py", "utils.py "
        "(termination callback)"]
STUBS = ["gurobipy (simulated solver)", "SummaryWriter", "data loaders "
         "(seeded order)"]
ASSUMPTIONS = [
    "a status of OPTIMAL means optimal up to round-off",
    "an exception raised after the solver failed to deliver is not a loss",
    "gradients are judged where the two one-sided differences agree",
    "after an early stop the loss may be zero with a printed warning"]
SIDES = ["pos", "lo", "up"]


def preload():
    LN.install_writer()
    import neural_network_lyapunov.dynamics_learning  # noqa
    import neural_network_lyapunov.lyapunov  # noqa
    import neural_network_lyapunov.relu_system  # noqa


def tol(*v):
    return 4e-6 * (1. + max(abs(x) for x in v))


class Seen:
    """Which programs were built and how each was last answered."""
    def __init__(self, run, S):
        from gurobipy import hooks
        import neural_network_lyapunov.lyapunov as ly
        self.kind = {}
        self.ans = {}
        self.solves = 0
        self.early = False
        s = S.s

        self.calm = self.rough = None

        def pos(*a, **k):
            hooks.policy = self.calm
            try:
                r = orig_p(*a, **k)
            finally:
                hooks.policy = self.rough
            self.kind[id(r[0].gurobi_model)] = ("pos", r[0].gurobi_model)
            return r

        def der(*a, **k):
            hooks.policy = self.calm
            try:
                r = orig_d(*a, **k)
            finally:
                hooks.policy = self.rough
            t = k.get("eps_type", a[3] if len(a) > 3 else None)
            self.kind[id(r.milp.gurobi_model)] = (
                "lo" if t == ly.ConvergenceEps.ExpLower else "up",
                r.milp.gurobi_model)
            return r
        orig_p, orig_d = s.lyapunov_positivity_as_milp, \
            s.lyapunov_derivative_as_milp
        s.lyapunov_positivity_as_milp = pos
        s.lyapunov_derivative_as_milp = der

        def on_solve(model, res, problem, opt):
            self.solves += 1
            k = self.kind.get(id(model))
            if k is not None:
                self.ans[k[0]] = (res.status, res.pool[0][1] if res.pool
                                  else None, res.fault, res.pool)
        hooks.on_solve = on_solve


def regions(S):
    p, c, o = S.p, S.c, S.opts

    def r(prog):
        return B.Region(prog, p.x_lo, p.x_up, [p.x_eq])
    return dict(pos=r(c.positivity(o["V_eps_pos"])),
                lo=r(c.derivative(o["V_eps_der_lo"], "ExpLower")),
                up=r(c.derivative(o["V_eps_der_up"], "ExpUpper")))


def weights(S):
    o = S.opts
    return dict(pos=o["lyap_pos_loss_weight"], lo=o["lyap_der_lo_loss_weight"],
                up=o["lyap_der_up_loss_weight"])


def trainable(S):
    return [q for m in LN.modules_of(S.learner) for q in m.parameters()]


def judge_losses(run, S, seen, losses, thresholds, where, rs):
    """The three returned losses against an independent search."""
    from gurobipy import GRB
    w = weights(S)
    reg = regions(S)
    for side, L, th in zip(SIDES, losses, thresholds):
        L = float(L)
        st, inc, fault, pool = seen.ans[side]
        run.mark(side, st)
        reg[side].points += [np.clip(x[:S.p.dim], S.p.x_lo, S.p.x_up)
                             for x, _ in (pool or [])[:1]]
        best, arg = reg[side].best(rs, n_samples=250, n_cells=20)
        if S.opts["lyap_loss_optimal"] or st == GRB.OPTIMAL:
            want = w[side] * best
            run.check(L >= want - w[side] * tol(best) - 1e-9,
                      where + ":smaller", lambda: f"{side} loss {L} (weight "
                      f"{w[side]}, status {st}) but {arg} violates the "
                      f"condition by {best}")
            if st == GRB.OPTIMAL:
                ref = w[side] * inc
                run.check(abs(L - ref) <= w[side] * 2e-3 + 1e-9,
                          where + ":value", lambda: f"{side} loss {L}, the "
                          f"worst violation is {inc} with weight {w[side]}")
        else:
            ok = abs(L - w[side] * inc) <= w[side] * 2e-3 + 1e-9 or L == 0.
            run.check(ok, where + ":early", lambda: f"{side} loss {L} is not "
                      f"that of the solver's state {inc}")
            if L != 0.:
                run.check(L <= w[side] * max(best, inc) + w[side] * tol(best)
                          + w[side] * 2e-3, where + ":larger", "")
            if fault is None and th is not None:
                run.check(inc > th - 1e-9, where + ":threshold",
                          lambda: f"{side}: the search was ended at {inc}, "
                          f"the threshold is {th}")
        run.note("losses-judged")
        run.nontrivial = True


def clean_total(S, seen, w):
    """The weighted sum of worst violations for the live networks, from
    programs solved without any freedom, and the three optima."""
    from gurobipy import hooks
    import neural_network_lyapunov.lyapunov as ly
    keep = hooks.chooser, hooks.policy, hooks.on_solve, seen.calm, seen.rough
    hooks.chooser = hooks.on_solve = None
    seen.calm = seen.rough = hooks.policy
    o, s, p = S.opts, S.s, S.p
    try:
        out = []
        m = s.lyapunov_positivity_as_milp(
            p.x_eq_t, o["V_lambda"], o["V_eps_pos"], R=o["R"])[0]
        ms = [m]
        for e, t in ((o["V_eps_der_lo"], ly.ConvergenceEps.ExpLower),
                     (o["V_eps_der_up"], ly.ConvergenceEps.ExpUpper)):
            ms.append(s.lyapunov_derivative_as_milp(
                p.x_eq_t, o["V_lambda"], e, t, R=o["R"]).milp)
        for m in ms:
            m.gurobi_model.setParam("OutputFlag", False)
            m.gurobi_model.optimize()
            out.append(m.gurobi_model.ObjVal)
    finally:
        (hooks.chooser, hooks.policy, hooks.on_solve, seen.calm,
         seen.rough) = keep
    return sum(w[k] * v for k, v in zip(SIDES, out)), ms


def own_gradient(S, seen, w):
    ms = clean_total(S, seen, w)[1]
    total = sum(w[k] * m.compute_objective_from_mip_data_and_solution()
                for k, m in zip(SIDES, ms))
    return torch.autograd.grad(total, trainable(S), allow_unused=True)


def judge_gradient(run, S, grads, value, rs, key, what, own=None):
    """grads against differences of value() along a random direction. Where
    they differ, own() may give the gradient of the same total from programs
    built anew: a degenerate vertex has several."""
    ps = trainable(S)
    d = [torch.from_numpy(rs.randn(*q.shape)) for q in ps]
    h = 1e-5
    base = [q.detach().clone() for q in ps]

    def at(t):
        with torch.no_grad():
            for q, b, v in zip(ps, base, d):
                q.copy_(b + t * v)
        return value()
    try:
        f = [at(-h), at(0.), at(h)]
    finally:
        with torch.no_grad():
            for q, b in zip(ps, base):
                q.copy_(b)
    D = np.diff(f) / h
    if np.ptp(D) > 1e-3 * (1. + np.max(np.abs(D))):
        run.note("probe:kink")
        return
    got = sum(float((g * v).sum()) for g, v in zip(grads, d) if g is not None)
    want = (f[2] - f[0]) / (2 * h)
    run.note("gradients-judged")
    ok = abs(got - want) <= 2e-2 * (1. + abs(want))
    if not ok and own is not None:
        have = own()
        run.note("probe:gradient-at-degenerate-vertex")
        ok = abs(got - sum(float((g * v).sum()) for g, v in zip(have, d)
                           if g is not None)) <= 1e-4 * (1. + abs(got))
    run.check(ok, key,
              lambda: f"{what}: the gradient along a direction is {got}, the "
              f"differences are {D}")


def adversarial(run, S, seen, rs):
    from gurobipy import GRB
    le = S.learner
    seen.ans.clear()
    with warnings.catch_warnings():
        out = le.adversarial_samples()
    reg = regions(S)
    run.check(len(out) == 3, "adversarial:form", f"{len(out)} results")
    for side, z in zip(SIDES, out):
        st, inc, fault, pool = seen.ans[side]
        run.mark("adv", side, st, len(z) > 0)
        run.check(torch.is_tensor(z) and z.dim() == 2 and
                  z.shape[1] == S.p.dim, "adversarial:form",
                  lambda: f"{side}: {z!r} is not a tensor [n, dim]")
        X = z.detach().numpy()
        run.check(np.all(X >= S.p.x_lo - 1e-6) and
                  np.all(X <= S.p.x_up + 1e-6), "adversarial:outside",
                  f"{side}: {X}")
        X = np.clip(X, S.p.x_lo, S.p.x_up)
        vals = []
        for x in X:
            a = [v for v, g in reg[side].attained(x, 2e-6) if g <= 1e-5]
            if a:
                vals.append(max(a))
        run.check(all(v > -1e-5 for v in vals), "adversarial:no-violation",
                  lambda: f"{side}: {X} have {vals}")
        want = [(x, o) for x, o in pool or [] if o > 0]
        run.check(len(X) == len(want), "adversarial:count",
                  lambda: f"{side}: {len(X)} states returned, the solver has "
                  f"{[o for _, o in pool or []]}")
        if st == GRB.OPTIMAL:
            reg[side].points += list(X)
            best, arg = reg[side].best(rs, n_samples=250, n_cells=20)
            if best > 1e-5:
                run.check(len(X) > 0 and (not vals or max(vals) >= best -
                                          tol(best)), "adversarial:missed",
                          lambda: f"{side}: states {X} with {vals}, but {arg} "
                          f"violates by {best}")
        run.note("adversarial-judged")
        run.nontrivial = True


def faulty(run):
    return sum(v for k, v in run.counts.items() if k.startswith("fault:"))


def steps(run):
    from gurobipy import hooks
    ch = run.ch
    run.scenario = "steps"
    latent = ch.flip("latent", 0.2)
    S = LN.make(run, latent=latent, n_max=4, freq=1 + ch.choose("f", 2))
    le = S.learner
    easy = ch.choose("easy", 3)
    if easy:
        # few or no violations
        with torch.no_grad():
            for q in S.c.phi.parameters():
                q.mul_([1., 0.05, 0.][easy])
    seen = Seen(run, S)
    hooks.chooser = ch
    hooks.note_counts = run.counts
    pol = dict(tie_break=0.4, callback_incumbents=True, inf_or_unbd=0.)
    if ch.flip("faults", 0.4):
        pol.update(interrupt=ch.pick("p.interrupt", [0.3, 0.1, 0.]),
                   suboptimal=ch.pick("p.subopt", [0., 0.2]),
                   node_status=ch.pick("p.node", [0., 0.3]))
    # auxiliary programs (bounds) are C04's: only the three conditions' fail
    seen.calm = dict(tie_break=0.4)
    seen.rough = hooks.policy = pol
    rs = ch.rngstate("oracle")
    run.nontrivial = False
    run.sample = dict(plant=S.p.kind, dim=S.p.dim, latent=S.latent,
                      optimal=S.opts["lyap_loss_optimal"],
                      warm=S.opts["lyap_loss_warmstart"])
    torch.manual_seed(ch.choose("torch.seed", 1 << 20))
    for k in range(2 + ch.choose("ops", 4)):
        op = ch.choose("op", 5)
        run.note("op:" + str(op))
        run.mark("op", op)
        n0 = faulty(run)
        try:
            if op <= 1:
                loss(run, S, seen, rs)
            elif op == 2:
                adversarial(run, S, seen, rs)
            elif op == 3:
                epoch(run, S, seen, rs)
            else:
                r = ch.rngstate("move")
                with torch.no_grad():
                    for q in trainable(S):
                        q.add_(0.1 * torch.from_numpy(r.randn(*q.shape)))
        except (AssertionError, ValueError, AttributeError) as e:
            # (Violation is none of these)
            if faulty(run) == n0:
                raise
            run.note("probe:error-instead-of-loss")
            run.event("error", type(e).__name__)
            return


def loss(run, S, seen, rs):
    ch = run.ch
    le = S.learner
    kw = {}
    th = [0., 0., 0.]
    if ch.flip("thresholds", 0.5):
        th = [float([0., 0.05, -0.1, 1e3][ch.choose("th." + s, 4)])
              for s in SIDES]
        kw = dict(lyap_pos_threshold=th[0], lyap_der_lo_threshold=th[1],
                  lyap_der_up_threshold=th[2])
    seen.ans.clear()
    ps = trainable(S)
    for q in ps:
        q.grad = None
    out = le.lyapunov_loss(**kw)
    run.check(len(out) == 3, "loss:form", f"{len(out)} losses")
    judge_losses(run, S, seen, [v.item() for v in out], th, "loss", rs)
    from gurobipy import GRB
    if all(seen.ans[s][0] == GRB.OPTIMAL for s in SIDES):
        sum(out).backward()
        w = weights(S)
        judge_gradient(run, S, [q.grad for q in ps],
                       lambda: clean_total(S, seen, w)[0], rs,
                       "loss:gradient", "sum of the worst violations",
                       lambda: own_gradient(S, seen, w))
    for q in ps:
        q.grad = None


def epoch(run, S, seen, rs):
    """One epoch: the gradient used in each optimizer step is that of the
    documented sum."""
    from torch.optim.optimizer import register_optimizer_step_pre_hook
    from gurobipy import GRB
    le = S.learner
    ps = trainable(S)
    info = dict(n=seen.solves)
    logs = []
    LN.Writer.monitor = lambda w, name, v, step: logs.append((name, v))
    cls = type(S.train)

    class Told(cls):
        def __iter__(self):
            for b in cls.__iter__(self):
                info["idx"] = self.given[-1][-1]
                yield b
    S.train.__class__ = Told
    live = le.n_iter

    def pre(opt, a, k):
        grads = [None if q.grad is None else q.grad.detach().clone()
                 for q in ps]
        n = seen.solves
        if n == info["n"]:
            if not S.opts.get("use_variational"):
                def val():
                    d, s = numbers(S, LN.params_of(le), info["idx"], S.train,
                                   le.n_iter)
                    return d + sum(s)
                judge_gradient(run, S, grads, val, rs, "epoch:gradient",
                               "dynamics and sample losses")
                run.nontrivial = True
        else:
            w = weights(S)
            ok = all(seen.ans[s][0] == GRB.OPTIMAL for s in SIDES)
            if ok:
                judge_gradient(run, S, grads,
                               lambda: clean_total(S, seen, w)[0], rs,
                               "epoch:gradient", "worst violations",
                               lambda: own_gradient(S, seen, w))
            info["params"] = LN.params_of(le)
            info["ans"] = dict(seen.ans)
            # the search may end at anything worse than the batch's states
            info["th"] = [None] * 3 if S.opts.get("use_variational") else \
                numbers(S, info["params"], info["idx"], S.train,
                        le.n_iter)[1]
            logs.clear()
        info["n"] = n

    h = register_optimizer_step_pre_hook(pre)
    run.cleanup.append(h.remove)
    try:
        le.train(1)
    except RuntimeError as e:
        if "does not require grad" not in str(e):
            raise
        run.note("op:nothing-to-train")
        return
    finally:
        h.remove()
        LN.Writer.monitor = None
        S.train.__class__ = cls
    # the losses logged for the last adversarial step
    if "params" in info:
        from dst.props.c08 import put
        now = LN.params_of(le)
        put(S, info["params"])
        try:
            names = ["LyapunovPos", "LyapunovDer/low", "LyapunovDer/up"]
            d = {n: v for n, v in logs}
            vals = [d.get(n + "/train") for n in names]
            run.check(all(v is not None for v in vals), "epoch:log",
                      f"{sorted(d)}")
            seen.ans.update(info["ans"])
            judge_losses(run, S, seen, vals, info["th"], "epoch", rs)
        finally:
            put(S, now)


def rollout(run):
    """Rollouts follow the learned dynamics; their losses are documented
    averages."""
    ch = run.ch
    run.scenario = "rollout"
    latent = ch.flip("latent", 0.5)
    S = LN.make(run, latent=latent, n_max=3)
    le, p, c = S.learner, S.p, S.c
    r = ch.rngstate("rollout.rng")
    N = ch.choose("N", 4) + (1 if latent else 0)
    n = 1 + ch.choose("n_rollouts", 3)
    run.mark(N, n)

    def V(x):
        return c.V(B.Val, x[None])[0, 0]
    losses = []
    data = []
    for k in range(n):
        if not latent:
            E = r.randn(N + 1, p.dim)
            X = [E[0]]
            for _ in range(N):
                X.append(p.f(B.Val, X[-1][None])[0])
            X = np.array(X)
            x, v = le.rollout(torch.from_numpy(E[0]), N)
            ref_v = [V(y) for y in X]
            losses.append(((E - X)**2).mean(axis=1))
        else:
            ch_half = S.shape[0] // 2
            E = r.uniform(0.05, 0.95, size=(N + 2, ch_half) + S.shape[1:])
            x0 = torch.from_numpy(E[:2].reshape((-1, ) + S.shape[1:]))
            with torch.no_grad():
                z = S.enc(x0[None])[0].numpy()
                Z, X = [z[0]], [E[0], E[1]]
                for _ in range(N):
                    Z.append(p.f(B.Val, Z[-1][None])[0])
                    X.append(S.dec(torch.from_numpy(
                        Z[-1][None]))[0, ch_half:].numpy())
            X = np.array(X)
            x, v, zt = le.rollout(x0, N)
            ref_v = [V(y) for y in Z]
            run.check(np.allclose(zt.numpy(), Z, atol=1e-9), "rollout:latent",
                      lambda: f"{zt} vs {Z}")
            if S.opts["use_bce"]:
                lo = np.maximum(np.log(np.maximum(X, 1e-300)), -100)
                hi = np.maximum(np.log(np.maximum(1 - X, 1e-300)), -100)
                losses.append(-(E * lo + (1 - E) * hi).mean(axis=(1, 2, 3)))
            else:
                losses.append(((E - X)**2).mean(axis=(1, 2, 3)))
        data.append(torch.from_numpy(E))
        run.check(np.allclose(x.detach().numpy(), X, atol=1e-9),
                  "rollout:states", lambda: f"{x} vs {X}")
        run.check(np.allclose(v.numpy(), ref_v, atol=1e-8), "rollout:V",
                  lambda: f"{v} vs {ref_v}")
        got = le.rollout_loss(data[-1]).detach().numpy()
        run.check(got.shape == losses[-1].shape and np.allclose(
            got, losses[-1], rtol=1e-8, atol=1e-10), "rollout:loss",
            lambda: f"{got} vs {losses[-1]}")
    got = le.rollout_validation(data).numpy()
    want = np.mean(losses, axis=0)
    run.check(np.allclose(got, want, rtol=1e-8, atol=1e-10),
              "rollout:validation", lambda: f"{got}, mean of the losses "
              f"{want}")
    run.nontrivial = True


def scenario(run):
    if run.ch.choose("family", 8) < 7:
        steps(run)
    else:
        rollout(run)
