"""C20: every training step descends the documented loss.

Whole training sessions under a simulated solver: at each step the loss, its
parts, its gradient, and the step the optimizer takes are recomputed from the
documented mathematics for the parameters and the pools as they are then.
"""
import numpy as np
import torch

from dst import build as B
from dst import session as SS

ID = "C20"
LEVEL = "exploration"
RUNS = dict(quick=1500, thorough=50000)
RULE = ("one case = one sequence of loss evaluations and descent steps "
        "(system, candidate, weights, margins, reduction, pools, solver "
        "answers); non-trivial when at least one loss was judged; distinct by "
        "scenario, system, condition, weights, reduction, solver statuses and "
        "number of steps")
REAL = ["train_lyapunov_barrier.py (losses and descent loops)", "lyapunov.py",
        "continuous_time_lyapunov.py (sample losses)", "feedback_system.py",
        "relu_system.py", "hybrid_linear_system.py", "r_options.py",
        "gurobi_torch_mip.py", "torch optimizers, autograd, DataLoader"]
STUBS = ["gurobipy (simulated solver on HiGHS)"]
ASSUMPTIONS = [
    "gradients are judged where the two one-sided differences agree and the "
    "sample losses are differentiable",
    "a sample term is judged on the successor states the trainer stored (their"
    " correctness is property C05)",
    "an exception after the solver failed to deliver is not a loss"]


def preload():
    import neural_network_lyapunov.train_lyapunov_barrier  # noqa
    import neural_network_lyapunov.continuous_time_lyapunov  # noqa


def close(a, b, k=1e-9):
    return a == b or abs(a - b) <= k * (1. + abs(a) + abs(b)) or (
        not np.isfinite(a) and not np.isfinite(b))


# -- the documented losses, in torch ------------------------------------------
def V(S, X):
    c = S.c
    R = c.R_t
    if R is None:
        R = torch.eye(S.p.dim, dtype=B.D)
    e = X - S.p.x_eq_t
    return c.phi(X).reshape(-1) - c.phi(S.p.x_eq_t).reshape(()) + \
        float(c.lam) * (e @ R.T).abs().sum(1)


def l1(S, X):
    R = S.c.R_t
    if R is None:
        R = torch.eye(S.p.dim, dtype=B.D)
    return ((X - S.p.x_eq_t) @ R.T).abs().sum(1)


def reduce_(h, how, weight=None):
    if how == "mean":
        return (h if weight is None else weight * h).sum() / h.shape[0]
    if how == "max":
        return h.max()
    return (h**4).sum()**0.25


def pos_term(S, X, eps, margin, how, weight=None):
    h = torch.clamp(margin - (V(S, X) - eps * l1(S, X)), min=0.)
    return reduce_(h, how, weight)


def der_term(S, X, Xn, eps, kind, margin, how, weight=None):
    a, b = V(S, X), V(S, Xn)
    if kind == "ExpLower":
        v = b - (1. - eps) * a
    elif kind == "ExpUpper":
        v = (1. - eps) * a - b
    else:
        v = b - a + eps * l1(S, X)
    return reduce_(torch.clamp(margin + v, min=0.), how, weight)


def sample_terms(S, ps, ds, ns, wp, wd):
    t = S.t
    z = torch.zeros((), dtype=B.D)
    a = z if not wp or not len(ps) else wp * pos_term(
        S, ps, S.eps2, t.lyapunov_positivity_sample_margin,
        t.sample_loss_reduction)
    b = z if not wd or not len(ds) else wd * der_term(
        S, ds, ns, S.eps, S.eps_type, t.lyapunov_derivative_sample_margin,
        t.sample_loss_reduction)
    return a, b


def successors(S, ds, ns):
    """The successors as functions of the parameters, where they agree with
    those stored; None when a state has several (mode boundary)."""
    if not len(ds):
        return ns
    try:
        own = S.p.system.step_forward(ds.detach())
    except Exception as e:
        if SS.membership_roundoff(S, e):
            return None
        raise
    if own.shape != ns.shape or not torch.allclose(
            own.detach(), ns.detach(), rtol=1e-9, atol=1e-9):
        return None
    return own


def trainable(S):
    return [q for q in SS.live_trainable(S) if q.requires_grad]


def grads_of(loss, ps):
    if not loss.requires_grad:
        return [None] * len(ps)
    return torch.autograd.grad(loss, ps, retain_graph=True, allow_unused=True)


def kinked(S, f, ps, *Xs):
    """The gradient of f(*Xs) changes when the states move by a rounding
    error: some term is not differentiable there."""
    g0 = grads_of(f(*Xs), ps)
    gen = np.random.RandomState(0)
    for _ in range(4):
        Y = [None if X is None else X + B.t(gen.randn(*X.shape)) * 1e-9
             for X in Xs]
        if not same_grads(g0, grads_of(f(*Y), ps), 1e-6):
            return True
    return False


def along(grads, d):
    return sum(float((g * v).sum()) for g, v in zip(grads, d) if g is not None)


def same_grads(a, b, k=1e-7):
    for x, y in zip(a, b):
        x = torch.zeros_like(y) if x is None and y is not None else x
        y = torch.zeros_like(x) if y is None and x is not None else y
        if x is None and y is None:
            continue
        if not (torch.isfinite(x).all() and torch.isfinite(y).all()):
            continue
        if float((x - y).abs().max()) > k * (
                1. + float(y.abs().max()) + float(x.abs().max())):
            return False
    return True


# -- the verification terms ---------------------------------------------------
class Calm:
    """Programs solved without any freedom."""
    def __enter__(self):
        from gurobipy import hooks
        self.keep = hooks.chooser, hooks.policy, hooks.on_solve
        hooks.chooser = hooks.on_solve = None
        hooks.policy = {}

    def __exit__(self, *a):
        from gurobipy import hooks
        hooks.chooser, hooks.policy, hooks.on_solve = self.keep


def mip_value(S, wp, wd, wg):
    """The weighted verification optima for the live parameters."""
    import neural_network_lyapunov.lyapunov as ly
    with Calm():
        out = 0.
        if wp:
            m = S.s.__class__.lyapunov_positivity_as_milp(
                S.s, S.p.x_eq_t, float(S.c.lam), S.eps2, R=S.c.R_t)[0]
            out += wp * solved(m)
        if wd:
            m = S.s.__class__.lyapunov_derivative_as_milp(
                S.s, S.p.x_eq_t, float(S.c.lam), S.eps,
                getattr(ly.ConvergenceEps, S.eps_type), R=S.c.R_t).milp
            out += wd * solved(m)
        if wg:
            g = S.t.solve_boundary_gap_mip()
            out += wg * (g[2] - g[1])
        return out


def solved(m):
    from gurobipy import GRB
    m.gurobi_model.setParam("OutputFlag", False)
    m.gurobi_model.optimize()
    if m.gurobi_model.status != GRB.OPTIMAL:
        return np.nan
    return m.gurobi_model.ObjVal


def mip_gradient(S, wp, wd, wg):
    import neural_network_lyapunov.lyapunov as ly
    with Calm():
        tot = torch.zeros((), dtype=B.D)
        if wp:
            m = S.s.__class__.lyapunov_positivity_as_milp(
                S.s, S.p.x_eq_t, float(S.c.lam), S.eps2, R=S.c.R_t)[0]
            solved(m)
            tot = tot + wp * m.compute_objective_from_mip_data_and_solution(
                solution_number=0, penalty=1e-13)
        if wd:
            m = S.s.__class__.lyapunov_derivative_as_milp(
                S.s, S.p.x_eq_t, float(S.c.lam), S.eps,
                getattr(ly.ConvergenceEps, S.eps_type), R=S.c.R_t).milp
            solved(m)
            tot = tot + wd * m.compute_objective_from_mip_data_and_solution(
                solution_number=0, penalty=1e-13)
        if wg:
            tot = tot + wg * S.t.solve_boundary_gap_mip()[0]
        return grads_of(tot, trainable(S))


class Judge:
    """The parts and the gradient of one returned total loss."""
    def __init__(self, run, S, w, rs):
        self.run, self.S, self.w, self.rs = run, S, w, rs
        self.n = 0

    def values(self, out, weights):
        """weights: positivity sample, derivative sample, positivity MIP,
        derivative MIP (None: not solved), gap."""
        from gurobipy import GRB
        run, S, L = self.run, self.S, out.lyap_loss
        t = S.t
        wps, wds, wpm, wdm, wg = weights
        N = t.max_sample_pool_size
        ps = L.positivity_state_samples[-N:].detach()
        ds = L.derivative_state_samples[-N:].detach()
        ns = L.derivative_state_samples_next[-N:].detach()
        with torch.no_grad():
            a, b = sample_terms(S, ps, ds, ns, wps, wds)
        for nm, got, want in (("positivity", L.positivity_sample_loss, a),
                              ("derivative", L.derivative_sample_loss, b)):
            run.check(close(float(got), float(want)), "value:" + nm + "-sample",
                      lambda: f"the {nm} sample loss is {float(got)}, the "
                      f"documented one of its pool is {float(want)}")
        parts = [L.positivity_sample_loss, L.derivative_sample_loss]
        clean = True
        for nm, got, wt in (("positivity", L.positivity_mip_loss, wpm),
                            ("derivative", L.derivative_mip_loss, wdm)):
            if wt is None:
                run.check(float(got) == 0., "value:unsolved",
                          f"{nm}: {float(got)} without a program")
                continue
            parts.append(got)
            m = self.w.last[nm][0].gurobi_model
            st = m.status
            run.mark(nm, st)
            clean = clean and st == GRB.OPTIMAL
            inc = m._result.pool[0][1] if m._result.pool else np.nan
            if wt == 0:
                run.check(float(got) == 0., "value:weight-zero", nm)
            elif st == GRB.INTERRUPTED:
                # the incumbent of a stopped search need not be a vertex
                run.note("probe:interrupted-value")
            elif np.isfinite(inc):
                run.check(abs(float(got) - wt * inc) <= 2e-5 * abs(wt) * (
                    1 + abs(inc)), "value:" + nm + "-mip",
                    lambda: f"the {nm} MIP loss is {float(got)}, its program "
                    f"(status {st}) found {inc}, weight {wt}")
        if wg:
            with Calm():
                g = t.solve_boundary_gap_mip()
            want = wg * (g[2] - g[1])
            run.check(abs(float(L.gap_mip_loss) - want) <= 2e-5 * wg * (
                1 + abs(g[2]) + abs(g[1])), "value:gap",
                lambda: f"gap loss {float(L.gap_mip_loss)}, directly {want}")
        parts.append(L.gap_mip_loss)
        tot = sum(float(v) for v in parts)
        run.check(close(float(out.loss), tot, 1e-9), "value:sum",
                  lambda: f"total {float(out.loss)}, the parts sum to {tot}")
        run.note("losses-judged")
        run.nontrivial = True
        return ps, ds, ns, clean

    def gradient(self, out, weights, ps, ds, ns, clean):
        run, S, rs = self.run, self.S, self.rs
        wps, wds, wpm, wdm, wg = weights
        own = successors(S, ds, ns)
        if own is None:
            run.note("probe:mode-boundary")
            return
        tp = trainable(S)
        got = grads_of(out.loss, tp)
        a, b = sample_terms(S, ps, ds, own, wps, wds)
        sam = grads_of(a + b, tp)
        if len(ps) + len(ds) and kinked(S, lambda p_, d_: sum(sample_terms(
                S, p_, d_, own + (d_ - ds), wps, wds)), tp, ps, ds):
            run.note("probe:sample-kink")
            return
        have_mip = bool(wpm) or bool(wdm) or bool(wg)
        if not have_mip:
            run.check(same_grads(got, sam), "gradient:sample",
                      lambda: f"the gradient of the loss is {got}, that of "
                      f"the documented sample losses {sam}")
            run.note("gradients-judged")
            return
        if not clean:
            return
        if wdm and (S.t.derivative_mip_num_strengthen_pts or
                    S.t.derivative_mip_strengthen_binary):
            # redundant cuts make every vertex degenerate
            run.note("probe:strengthened")
            return
        d = [torch.from_numpy(rs.randn(*q.shape)) for q in tp]
        h = 1e-5
        base = [q.detach().clone() for q in tp]

        def at(t):
            with torch.no_grad():
                for q, b_, v in zip(tp, base, d):
                    q.copy_(b_ + t * v)
            return mip_value(S, wpm, wdm, wg)
        try:
            f = [at(-h), at(0.), at(h)]
        finally:
            with torch.no_grad():
                for q, b_ in zip(tp, base):
                    q.copy_(b_)
        D = np.diff(f) / h
        if not np.all(np.isfinite(D)) or np.ptp(D) > 1e-3 * (
                1. + np.max(np.abs(D))):
            run.note("probe:kink")
            return
        rest = along(got, d) - along(sam, d)
        want = (f[2] - f[0]) / (2 * h)
        run.note("gradients-judged")
        ok = abs(rest - want) <= 2e-2 * (1. + abs(want))
        if not ok:
            # a degenerate vertex has several gradients
            ref = along(mip_gradient(S, wpm, wdm, wg), d)
            run.note("probe:gradient-at-degenerate-vertex")
            ok = abs(rest - ref) <= 1e-4 * (1. + abs(ref) + abs(rest))
        run.check(ok, "gradient:total", lambda: "the verification terms "
                  f"change by {want} along a direction, the gradient says "
                  f"{rest}")


# -- the optimizer ------------------------------------------------------------
class Descent:
    """Observes every optimizer step through torch's own hooks: the gradient
    it uses, and that it does what an optimizer of the configured kind, rate
    and momentum does with it."""
    def __init__(self, run, S):
        from torch.optim import optimizer as to
        self.run, self.S = run, S
        self.opt = None
        self.expected = None  # gradients of the loss evaluated last
        self.steps = 0
        self.optimizers = 0
        self.adam_only = False
        self.moments = {}
        self.order = []
        h = [to.register_optimizer_step_pre_hook(
                 lambda o, a, k: self.pre(o)),
             to.register_optimizer_step_post_hook(
                 lambda o, a, k: self.post(o))]
        run.cleanup.extend(x.remove for x in h)

    def pre(self, opt):
        run, S = self.run, self.S
        tp = trainable(S)
        if opt is not self.opt:
            self.optimizers += 1
            self.opt = opt
            self.index = [q for g in opt.param_groups for q in g["params"]]
            self.clone = [q.detach().clone() for q in self.index]
            self.moments = [{} for _ in self.index]
            for q in tp:
                run.check(any(q is x for x in self.index), "step:left-out",
                          "a trained parameter is not given to the optimizer")
        grads = [q.grad for q in tp]
        if self.expected is not None:
            run.check(same_grads(grads, self.expected), "step:gradient",
                      lambda: f"step {self.steps} uses the gradients {grads}, "
                      f"those of the loss just evaluated are {self.expected}")
        run.check(self.expected is not None, "step:no-loss",
                  "a step without a loss evaluated since the last one")
        self.expected = None
        self.grads = [None if q.grad is None else q.grad.detach().clone()
                      for q in self.index]
        with torch.no_grad():
            for q, c in zip(self.index, self.clone):
                c.copy_(q)

    def post(self, opt):
        self.steps += 1
        self.order.append("step")
        self.reference_step()
        for q, c in zip(self.index, self.clone):
            ok = torch.allclose(q.detach(), c.detach(), rtol=1e-9, atol=1e-12,
                                equal_nan=True)
            self.run.check(ok, "step:update", lambda: f"step {self.steps} "
                           f"moved a parameter to {q}, the configured "
                           f"optimizer moves it to {c}")

    def reference_step(self):
        """SGD with momentum / Adam with torch's defaults, spelled out."""
        t = self.S.t
        with torch.no_grad():
            for c, g, s in zip(self.clone, self.grads, self.moments):
                if g is None:
                    continue
                if t.optimizer == "SGD" and not self.adam_only:
                    if t.momentum:
                        if "buf" in s:
                            s["buf"] = t.momentum * s["buf"] + g
                        else:
                            s["buf"] = g.clone()
                        g = s["buf"]
                    c -= t.learning_rate * g
                    continue
                s["k"] = s.get("k", 0) + 1
                s["m"] = 0.9 * s.get("m", torch.zeros_like(c)) + 0.1 * g
                s["v"] = 0.999 * s.get("v", torch.zeros_like(c)) + \
                    0.001 * g * g
                c -= t.learning_rate * (s["m"] / (1 - 0.9**s["k"])) / (
                    (s["v"] / (1 - 0.999**s["k"])).sqrt() + 1e-8)


def policy(run, faults):
    from gurobipy import hooks
    ch = run.ch
    hooks.chooser = ch
    hooks.note_counts = run.counts
    pol = dict(tie_break=0.4, callback_incumbents=True, inf_or_unbd=0.)
    if faults:
        pol.update(interrupt=ch.pick("p.int", [0.1, 0.3]),
                   limit=ch.pick("p.lim", [0.3, 0.8]),
                   suboptimal=ch.pick("p.sub", [0.1, 0.4]))
    hooks.policy = pol


def tolerated(run, S, w, e):
    from dst.core import Violation, Discard
    from dst.props.c01 import SS_infeasible, faulty
    if isinstance(e, (Violation, Discard)):
        return False
    if faulty(run) or SS.membership_roundoff(S, e) or SS_infeasible(w) or \
            "grad" in str(e):
        run.note("probe:error-after-fault")
        run.mark("error", type(e).__name__)
        return True
    return False


def scenario(run):
    k = run.ch.choose("scenario", 10)
    if k <= 1:
        return losses(run)
    if k == 2:
        return continuous(run)
    if k <= 4:
        return total(run)
    if k <= 6:
        return train(run)
    if k <= 8:
        return adversarial(run)
    return on_samples(run)


def losses(run):
    """The sample losses by themselves."""
    import neural_network_lyapunov.lyapunov as ly
    run.scenario = "losses"
    ch = run.ch
    S = SS.make(run, methods="ia", easy=ch.flip("easy", 0.3))
    r = ch.rngstate("batch")
    n = [4, 1, 2, 9][ch.choose("n", 4)]
    X = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(n, S.p.dim)))
    Xn = S.p.system.step_forward(X).detach() if ch.flip("true_next", 0.5) \
        else B.t(r.uniform(S.p.x_lo * 2, S.p.x_up * 2, size=(n, S.p.dim)))
    margin = float([0., 0.2, 1.][ch.choose("margin", 3)])
    how = ch.pick("how", ["mean", "max", "4norm"])
    weight = B.t(r.uniform(0., 2., size=n)) if how == "mean" and ch.flip(
        "weight", 0.4) else None
    lam = float(S.c.lam)
    kind = getattr(ly.ConvergenceEps, S.eps_type)
    R = S.c.R_t
    tp = trainable(S)
    run.mark(how, margin, weight is None)
    kw = dict(margin=margin, reduction=how, weight=weight)

    def judge(name, got, want):
        run.check(close(float(got), float(want)), "losses:" + name,
                  lambda: f"{name} loss {float(got)}, documented "
                  f"{float(want)} ({how}, margin {margin}, {S.eps_type})")
        a, b = grads_of(got, tp), grads_of(want, tp)
        run.check(same_grads(a, b), "losses:" + name + "-gradient",
                  lambda: f"{name}: gradient {a}, expected {b}")
        run.note("losses-judged")
        run.nontrivial = True
    judge("positivity", S.s.lyapunov_positivity_loss_at_samples(
        S.p.x_eq_t, X, lam, S.eps2, R=R, **kw),
        pos_term(S, X, S.eps2, margin, how, weight))
    judge("derivative", S.s.lyapunov_derivative_loss_at_samples_and_next_states(
        lam, S.eps, X, Xn, S.p.x_eq_t, kind, R=R, **kw),
        der_term(S, X, Xn, S.eps, S.eps_type, margin, how, weight))
    judge("derivative-stepped", S.s.lyapunov_derivative_loss_at_samples(
        lam, S.eps, X, S.p.x_eq_t, kind, R=R, **kw),
        der_term(S, X, S.p.system.step_forward(X), S.eps, S.eps_type, margin,
                 how, weight))


def continuous(run):
    """Sample losses of continuous-time systems."""
    import neural_network_lyapunov.continuous_time_lyapunov as ctl
    import neural_network_lyapunov.lyapunov as ly
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    run.scenario = "continuous"
    ch = run.ch
    hyb = ch.flip("ct.hybrid", 0.5)
    p = B.plant(run, ["hybrid"] if hyb else ["relu", "relu_eq", "residual_eq"],
                continuous=True, max_width=3, method=M.IA)
    c = B.candidate(run, p, max_width=3)
    if hyb:
        c._R = None
    S = SS.Session()
    S.p, S.c = p, c
    s = (ctl.LyapunovContinuousTimeHybridSystem if hyb else
         ctl.LyapunovContinuousTimeSystem)(p.system, c.phi)
    r = ch.rngstate("batch")
    n = [4, 1, 2, 9][ch.choose("n", 4)]
    X = B.t(r.uniform(p.x_lo, p.x_up, size=(n, p.dim)))
    lam, eps = float(c.lam), float([0.1, 0.9, 0.][ch.choose("eps", 3)])
    margin = float([0., 0.2, 1.][ch.choose("margin", 3)])
    how = "mean" if hyb else ch.pick("how", ["mean", "max", "4norm"])
    kind = ch.pick("kind", ["ExpLower", "ExpUpper", "Asymp"]) if hyb else \
        "ExpLower"
    if ch.flip("true", 0.6):
        xd = torch.stack([p.system.step_forward(x) for x in X]).detach()
    else:
        xd = B.t(r.randn(n, p.dim))
    own = torch.from_numpy(p.f(B.Val, X.numpy()))
    Xg = X.clone().requires_grad_(True)
    v = V(S, Xg)
    g = torch.autograd.grad(v.sum(), Xg, create_graph=True)[0]

    def want(xd_):
        q = (g * xd_).sum(1) + eps * (l1(S, Xg) if kind == "Asymp" else v)
        if kind == "ExpUpper":
            q = -q
        return reduce_(torch.clamp(margin + q, min=0.), how)
    args = dict(R=None if hyb else c.R_t, margin=margin, reduction=how)
    tp = list(c.phi.parameters())
    run.mark(p.kind, hyb, how, kind, margin, n)

    def judge(name, got, ref):
        run.check(close(float(got), float(ref)), "continuous:" + name,
                  lambda: f"{name} loss {float(got)}, documented {float(ref)}")
        a, b = grads_of(got, tp), grads_of(ref, tp)
        run.check(same_grads(a, b), "continuous:" + name + "-gradient",
                  lambda: f"gradient {a}, expected {b}")
        run.note("losses-judged")
        run.nontrivial = True
    e = getattr(ly.ConvergenceEps, kind)
    judge("derivative", s.lyapunov_derivative_loss_at_samples_and_next_states(
        lam, eps, X, xd, p.x_eq_t, e, **args), want(xd))
    if hyb and bool(torch.isfinite(own).all()):
        judge("derivative-stepped", s.lyapunov_derivative_loss_at_samples(
            lam, eps, X, p.x_eq_t, e, **args), want(own))
    eps2 = float([0.1, 0.5][ch.choose("eps2", 2)])
    judge("positivity", s.lyapunov_positivity_loss_at_samples(
        p.x_eq_t, X, lam, eps2, **args),
        pos_term(S, X, eps2, margin, how))


def weights_of(t):
    return (t.lyapunov_positivity_sample_cost_weight,
            t.lyapunov_derivative_sample_cost_weight,
            t.lyapunov_positivity_mip_cost_weight,
            t.lyapunov_derivative_mip_cost_weight,
            t.boundary_value_gap_mip_cost_weight)


def setup(run, **k):
    ch = run.ch
    faults = ch.flip("faults", 0.3)
    S = SS.make(run, faults=faults, methods="ia" if ch.flip(
        "ia", 0.8) else "mixed", easy=ch.flip("easy", 0.3), **k)
    t = S.t
    t.sample_loss_reduction = ch.pick("reduction2", ["mean", "max", "4norm"])
    t.boundary_value_gap_mip_cost_weight = [0., 0.5][ch.flip("gap", 0.25)]
    t.learning_rate = [0.003, 0.03][ch.choose("lr2", 2)]
    policy(run, faults)
    run.mark(weights_of(t), t.sample_loss_reduction, faults)
    return S


def total(run):
    """total_loss() by itself."""
    run.scenario = "total"
    ch = run.ch
    S = setup(run)
    w = SS.Watch(S)
    rs = ch.rngstate("direction")
    J = Judge(run, S, w, rs)
    r = ch.rngstate("pools")
    n, m = [3, 0, 1, 7][ch.choose("np", 4)], [3, 0, 1, 7][ch.choose("nd", 4)]
    ps = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(n, S.p.dim)))
    ds = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(m, S.p.dim)))
    wt = list(weights_of(S.t))
    for i in (2, 3):
        if ch.flip("none%d" % i, 0.2):
            wt[i] = None
    for _ in range(1 + ch.choose("calls", 2)):
        ns = S.p.system.step_forward(ds) if m else torch.empty_like(ds)
        try:
            out = S.t.total_loss(ps, ds, ns, *wt)
        except Exception as e:
            if tolerated(run, S, w, e):
                return
            raise
        a = J.values(out, wt)
        J.gradient(out, wt, *a)
        run.note("event:total")
        for q in trainable(S):  # another point
            with torch.no_grad():
                q.add_(B.t(rs.randn(*q.shape)) * 0.05)


def train(run):
    """The plain loop, iteration by iteration."""
    run.scenario = "train"
    ch = run.ch
    S = setup(run, adversarial=False)
    t = S.t
    w = SS.Watch(S)
    rs = ch.rngstate("direction")
    J = Judge(run, S, w, rs)
    Dn = Descent(run, S)
    orig = t.total_loss
    wt = weights_of(t)
    judged = [0]

    def total_loss(*a, **k):
        run.check(Dn.expected is None, "train:no-step",
                  "a loss was evaluated and no step followed")
        out = orig(*a, **k)
        v = J.values(out, wt)
        if judged[0] < 2:
            judged[0] += 1
            J.gradient(out, wt, *v)
        Dn.expected = grads_of(out.loss, trainable(S))
        Dn.order.append("loss")
        return out
    t.total_loss = total_loss
    try:
        ret = t.train(S.samples)
    except Exception as e:
        if tolerated(run, S, w, e):
            return
        raise
    n = Dn.order.count("loss")
    run.mark("steps", Dn.steps, n)
    if n == 0:
        run.note("probe:unobserved")
        return
    run.check(Dn.steps == n - (1 if ret[0] else 0), "train:steps",
              lambda: f"{Dn.steps} steps for {n} evaluated losses, success "
              f"{ret[0]}")
    run.check(n <= t.max_iterations and (ret[0] or n == t.max_iterations),
              "train:iterations", lambda: f"{n} iterations of "
              f"{t.max_iterations}, success {ret[0]}")
    run.check(Dn.optimizers <= 1, "train:optimizers",
              "the optimizer was replaced during the session")


def adversarial(run):
    """The counterexample-guided loop: every batch of every epoch."""
    run.scenario = "adversarial"
    ch = run.ch
    S = setup(run, adversarial=True)
    t = S.t
    w = SS.Watch(S)
    Dn = Descent(run, S)
    o = SS.options(run)
    r = ch.rngstate("init")
    ps = B.t(r.uniform(S.p.x_lo, S.p.x_up,
                       size=(1 + ch.choose("n_p", 7), S.p.dim)))
    ds = B.t(r.uniform(S.p.x_lo, S.p.x_up,
                       size=(1 + ch.choose("n_d", 7), S.p.dim)))
    orig = t.lyapunov_sample_loss
    orig_p = t.solve_positivity_mip
    st = dict(full=None, evals=[], lost=False, rounds=0)

    def rows(z):
        return [tuple(v) for v in z.detach().tolist()]

    def sub(a, b):
        """a without its elements in b, or None"""
        a = list(a)
        for v in b:
            if v not in a:
                return None
            a.remove(v)
        return a

    def sample_loss(p_, d_, n_, *a, **k):
        out = orig(p_, d_, n_, *a, **k)
        own = sample_terms(S, p_, d_, n_.detach(), *a, **k)
        for nm, g, v in zip(("positivity", "derivative"), out, own):
            run.check(close(float(g), float(v)), "batch:" + nm,
                      lambda: f"{nm} loss {float(g)}, documented {float(v)}")
        run.note("losses-judged")
        run.nontrivial = True
        if st["full"] is None:
            st["full"] = rows(p_), rows(d_)
            return out
        loss = out[0] + out[1]
        nn = successors(S, d_, n_)
        tp = trainable(S)
        Dn.expected = grads_of(loss, tp)
        if nn is not None:
            ref = grads_of(sum(sample_terms(S, p_, d_, nn, *a, **k)), tp)
            run.check(same_grads(Dn.expected, ref) or kinked(
                S, lambda x, y: sum(sample_terms(S, x, y, nn + (y - d_), *a,
                                                 **k)), tp, p_, d_),
                      "batch:gradient",
                      lambda: f"gradient {Dn.expected}, documented {ref}")
        st["evals"].append((rows(p_), rows(d_), float(loss)))
        return out

    def epoch_end():
        """Evaluations since the last verification: epochs of stepped batches,
        each closed by one evaluation of the whole pools."""
        full = st["full"]
        if full is None:
            return
        nb = len(batches(full[0], o)), len(batches(full[1], o))
        per = min(nb)
        ev = st["evals"]
        done, rest = divmod(len(ev), per + 1)
        run.check(rest == 0 and (done == o.num_epochs_per_mip or (
            0 < done < o.num_epochs_per_mip and ev[-1][2] == 0.)),
            "adversarial:epochs", lambda: f"{len(ev)} evaluations between two "
            f"verifications, {o.num_epochs_per_mip} epochs of {per} batches "
            "were asked for")
        k = 0
        while k < len(ev):
            part = ev[k:k + per]
            for i, nm in ((0, "positivity"), (1, "derivative")):
                left = full[i]
                for e in part:
                    left = sub(left, e[i])
                    run.check(left is not None, "epoch:" + nm,
                              "an epoch used a state twice or one that is "
                              "not in the pool")
                if len(part) == per and nb[i] == per:
                    run.check(left == [], "epoch:" + nm + "-left-out",
                              lambda: f"an epoch left out {left}")
            run.note("epochs-judged")
            k += per + 1
            if k <= len(ev):
                e = ev[k - 1]
                run.check(e[0] == full[0] and e[1] == full[1], "epoch:closing",
                          "an epoch does not end with the whole pools")

    def batches(rows_, opt):
        size = int(np.ceil(len(rows_) / opt.num_batches))
        return list(range(0, len(rows_), size))

    def solve_p():
        epoch_end()
        st.update(full=None, evals=[])
        st["rounds"] += 1
        Dn.expected = None
        return orig_p()
    t.lyapunov_sample_loss = sample_loss
    t.solve_positivity_mip = solve_p
    try:
        ret = t.train_adversarial(ps, ds, o)
    except Exception as e:
        if tolerated(run, S, w, e):
            return
        raise
    if st["rounds"]:
        run.check(st["rounds"] <= t.max_iterations and (
            ret[0] or st["rounds"] == t.max_iterations),
            "adversarial:iterations", lambda: f"{st['rounds']} rounds of "
            f"{t.max_iterations}, success {ret[0]}")
    if not st["evals"] and not Dn.steps:
        run.note("probe:unobserved" if not run.nontrivial else
                 "probe:no-descent")
        return
    epoch_end()
    run.mark("steps", Dn.steps, ret[0])


def on_samples(run):
    run.scenario = "on-samples"
    ch = run.ch
    S = SS.make(run, kinds=SS.SMOOTH, methods="ia",
                easy=ch.flip("easy", 0.3), adversarial=True)
    t = S.t
    t.sample_loss_reduction = ch.pick("reduction2", ["mean", "max", "4norm"])
    t.learning_rate = [0.003, 0.03][ch.choose("lr2", 2)]
    policy(run, False)
    Dn = Descent(run, S)
    Dn.adam_only = True
    orig = t.total_loss
    n = 2 + ch.choose("n", 9)
    r = ch.rngstate("data")
    X = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(n, S.p.dim)))
    epochs, size = 1 + ch.choose("epochs", 3), 1 + ch.choose("batch", 4)
    ev = []
    wt = (t.lyapunov_positivity_sample_cost_weight,
          t.lyapunov_derivative_sample_cost_weight, None, None, 0)
    J = Judge(run, S, SS.Watch(S), None)

    def total_loss(p_, d_, n_, *a, **k):
        out = orig(p_, d_, n_, *a, **k)
        v = J.values(out, wt)
        J.gradient(out, wt, *v)
        Dn.expected = grads_of(out.loss, trainable(S))
        ev.append(([tuple(x) for x in p_.tolist()], Dn.steps))
        return out
    t.total_loss = total_loss
    t.train_lyapunov_on_samples(X, epochs, size)
    if not ev:
        run.note("probe:unobserved")
        return
    n_train = int(n * 0.8)
    per = -(-n_train // size)
    run.mark(n, epochs, size)
    run.check(len(ev) == epochs * (per + 1), "samples:evaluations",
              lambda: f"{len(ev)} losses for {epochs} epochs of {per} batches")
    run.check(Dn.steps == epochs * per, "samples:steps", f"{Dn.steps} steps")
    data = sorted(tuple(x) for x in X.tolist())
    for e in range(epochs):
        part = ev[e * (per + 1):(e + 1) * (per + 1)]
        train_rows = [x for b, _ in part[:-1] for x in b]
        run.check(sorted(train_rows + part[-1][0]) == data, "samples:epoch",
                  "an epoch's batches and the test set are not the data")
        run.check(len(train_rows) == n_train, "samples:split",
                  f"{len(train_rows)} of {n} samples are trained on")
        run.note("epochs-judged")
