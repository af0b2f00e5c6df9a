"""Training sessions: a Trainer around a random plant and candidate."""
import copy

import numpy as np
import torch

from dst import build as B

EPS_TYPES = ["ExpLower", "Asymp", "ExpUpper"]


def shrink_output(m, k):
    with torch.no_grad():
        m[-1].weight.mul_(k)
        if m[-1].bias is not None:
            m[-1].bias.mul_(k)


class Session:
    """plant p, candidate c, library system s, trainer t."""


def make(run, kinds=None, dim=None, easy=None, pools=False, methods="mixed",
         adversarial=None, max_width=3, output_flag=None, faults=False,
         fixed_R=None):
    import neural_network_lyapunov.train_lyapunov_barrier as tlb
    import neural_network_lyapunov.lyapunov as ly
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    import gurobipy
    ch = run.ch
    S = Session()
    method = None
    if methods == "ia" or (methods == "mixed" and ch.flip(
            "ia_only", 0.85 if faults else 0.6)):
        method = M.IA
    if easy is None:
        easy = ch.flip("easy", 0.6)
    S.easy = easy
    gain = [0.2, 0.4, 0.7][ch.choose("contraction", 3)] if easy else None
    S.p = p = B.plant(run, kinds, dim=dim, max_width=max_width,
                      method=method, contracting=gain)
    for m in p.nets:
        if m is not p.controller:
            # the learned dynamics is fixed while its certificate is trained
            for q in m.parameters():
                q.requires_grad_(False)
    S.c = c = B.candidate(run, p, with_options=True, max_width=max_width,
                          max_hidden=1)
    if easy:
        shrink_output(c.phi, [0.02, 0.1, 0.3][ch.choose("phi_small", 3)])
        c.lam = max(float(c.lam), 0.3)
    if fixed_R is True or (fixed_R is None and ch.flip("R.fixed", 0.3)):
        import neural_network_lyapunov.r_options as ro
        c.R_options = ro.FixedROptions(c.R_options.R().detach().clone())
    S.s = s = B.lyap_system(p, c, run=run, method=method)
    S.t = tr = tlb.Trainer()
    tr.add_lyapunov(s, float(c.lam), p.x_eq_t, c.R_options)
    S.eps_type = ch.pick("eps_type", EPS_TYPES)
    tr.lyapunov_derivative_eps_type = getattr(ly.ConvergenceEps, S.eps_type)
    if S.eps_type == "ExpUpper":
        S.eps = [1.5, 0.99, 0.1][ch.choose("eps", 3)]
    else:
        S.eps = [0.01, 0.1, 0.4][ch.choose("eps", 3)]
    S.eps = float(S.eps)
    tr.lyapunov_derivative_epsilon = S.eps
    S.eps2 = float([0.01, 0.1, 0.4][ch.choose("eps2", 3)])
    tr.lyapunov_positivity_epsilon = S.eps2
    run.mark("cond", S.eps_type, S.eps, S.eps2)
    tr.lyapunov_positivity_convergence_tol = [1e-6, 1e-3, 0.05][ch.choose(
        "tol.pos", 3)]
    tr.lyapunov_derivative_convergence_tol = [3e-5, 1e-3, 0.05][ch.choose(
        "tol.der", 3)]
    tr.learning_rate = [0.003, 0.03, 0.3][ch.choose("lr", 3)]
    tr.max_iterations = 1 + ch.choose("max_iterations", 5)
    tr.optimizer = ch.pick("optimizer", ["Adam", "SGD"])
    if tr.optimizer == "SGD":
        tr.momentum = [0., 0.9][ch.choose("momentum", 2)]
    tr.lyapunov_positivity_sample_cost_weight = [1., 0.5, 0.][ch.choose(
        "w.ps", 3)]
    tr.lyapunov_derivative_sample_cost_weight = [1., 0.5, 0.][ch.choose(
        "w.ds", 3)]
    if adversarial is None:
        adversarial = ch.flip("adversarial", 0.5)
    S.adversarial = adversarial
    if adversarial and tr.lyapunov_positivity_sample_cost_weight == 0:
        tr.lyapunov_derivative_sample_cost_weight = 1.
    tr.lyapunov_positivity_mip_cost_weight = [10., 1., 0.][ch.choose(
        "w.pm", 3)]
    tr.lyapunov_derivative_mip_cost_weight = [10., 1., 0.][ch.choose(
        "w.dm", 3)]
    tr.lyapunov_positivity_sample_margin = [0., 0.1][ch.choose("margin.p", 2)]
    tr.lyapunov_derivative_sample_margin = [0., 0.1][ch.choose("margin.d", 2)]
    tr.sample_loss_reduction = ch.pick("reduction", ["mean", "max"])
    tr.search_controller = not ch.flip("fixed_controller", 0.25)
    S.samples_only = False
    if faults and ch.flip("samples_only", 0.5):
        # the programs only judge; the descent uses samples only
        S.samples_only = True
        tr.lyapunov_positivity_mip_cost_weight = 0.
        tr.lyapunov_derivative_mip_cost_weight = 0.
        tr.lyapunov_positivity_sample_cost_weight = 1.
    elif not adversarial and tr.lyapunov_positivity_mip_cost_weight == 0 and \
            tr.lyapunov_derivative_mip_cost_weight == 0:
        tr.lyapunov_positivity_mip_cost_weight = 1.
    tr.add_positivity_adversarial_state = adversarial or ch.flip("addp", 0.4)
    tr.add_derivative_adversarial_state = adversarial or ch.flip("addd", 0.4)
    tr.add_adversarial_state_only = not ch.flip("add_all", 0.3)
    if pools or ch.flip("pools", 0.3):
        tr.lyapunov_positivity_mip_pool_solutions = 1 + ch.choose("pool.p", 5)
        tr.lyapunov_derivative_mip_pool_solutions = 1 + ch.choose("pool.d", 5)
    tr.max_sample_pool_size = [500, 3, 10][ch.choose("max_pool", 3)]
    if ch.flip("warmstart", 0.4):
        tr.lyapunov_positivity_mip_warmstart = ch.flip("ws.p", 0.7)
        tr.lyapunov_derivative_mip_warmstart = ch.flip("ws.d", 0.7)
    if faults and ch.flip("term", 0.35):
        tr.lyapunov_positivity_mip_term_threshold = ch.pick(
            "term.p", [None, 0., -0.5, 0.01, 1e-7])
        tr.lyapunov_derivative_mip_term_threshold = ch.pick(
            "term.d", [None, 0., -0.5, 0.01, 1e-5])
    if faults and ch.flip("time_limit", 0.4):
        tr.lyapunov_derivative_mip_params = {
            gurobipy.GRB.Param.OutputFlag: False,
            gurobipy.GRB.Param.TimeLimit: 10.}
    if ch.flip("strengthen", 0.12):
        tr.derivative_mip_num_strengthen_pts = 1 + ch.choose("strengthen.n",
                                                             2)
    if ch.flip("strengthen_binary", 0.06):
        tr.derivative_mip_strengthen_binary = True
    tr.output_flag = bool(output_flag) if output_flag is not None else False
    r = ch.rngstate("samples")
    n = [3, 0, 1, 8][ch.choose("n_samples", 4)]
    if S.samples_only:
        n = max(n, 1)
    S.samples = B.t(r.uniform(p.x_lo, p.x_up, size=(n, p.dim)))
    run.sample = dict(plant=p.kind, dim=p.dim, eps_type=S.eps_type,
                      adversarial=adversarial, easy=easy)
    run.note("plant:" + p.kind)
    return S


def options(run):
    import neural_network_lyapunov.train_lyapunov_barrier as tlb
    ch = run.ch
    o = tlb.Trainer.AdversarialTrainingOptions()
    o.num_batches = 1 + ch.choose("num_batches", 4)
    o.num_epochs_per_mip = 1 + ch.choose("num_epochs", 4)
    o.positivity_samples_pool_size = [10000, 4, 9][ch.choose("poolsize.p", 3)]
    o.derivative_samples_pool_size = [10000, 4, 9][ch.choose("poolsize.d", 3)]
    o.adversarial_cluster_radius = [np.inf, 0.3, 0.01, 2.][ch.choose(
        "cluster", 4)]
    return o


def positivity_region(S):
    return B.Region(S.c.positivity(S.eps2), S.p.x_lo, S.p.x_up, [S.p.x_eq])


def derivative_region(S):
    return B.Region(S.c.derivative(S.eps, S.eps_type), S.p.x_lo, S.p.x_up,
                    [S.p.x_eq])


class Frozen:
    """Evaluates with a snapshot of the live parameters put in place."""
    def __init__(self, S):
        self.S = S
        self.snap = snapshot(S)

    def __enter__(self):
        self.live = snapshot(self.S)
        put(self.S, self.snap)
        return self

    def __exit__(self, *a):
        put(self.S, self.live)


def modules(S):
    return [S.c.phi] + [m for m in S.p.nets]


def snapshot(S):
    nets = [copy.deepcopy(m.state_dict()) for m in modules(S)]
    return nets, [v.detach().clone() for v in S.c.R_options.variables()]


def put(S, snap):
    with torch.no_grad():
        for m, sd in zip(modules(S), snap[0]):
            m.load_state_dict(sd)
        for v, w in zip(S.c.R_options.variables(), snap[1]):
            v.copy_(w)


class Watch:
    """Records, at the public seam between trainer and verifier, which program
    was built last and for which parameters."""
    def __init__(self, S):
        self.S = S
        self.last = {}
        self.count = dict(positivity=0, derivative=0)
        for name, key in (("lyapunov_positivity_as_milp", "positivity"),
                          ("lyapunov_derivative_as_milp", "derivative"),
                          ("strengthen_lyapunov_derivative_as_milp",
                           "derivative")):
            self._wrap(name, key)

    def _wrap(self, name, key):
        orig = getattr(self.S.s, name)

        def wrapped(*a, **k):
            fz = Frozen(self.S)
            ret = orig(*a, **k)
            milp = ret.milp if hasattr(ret, "milp") else ret[0]
            xv = ret.x if hasattr(ret, "x") else ret[1]
            self.last[key] = (milp, fz, xv)
            self.count[key] += 1
            return ret
        setattr(self.S.s, name, wrapped)


def membership_roundoff(S, e):
    """Mode membership of hybrid systems is exact: a state which the solver
    puts on the outer boundary of the modes may be refused by step_forward.
    That is an error, not a wrong answer."""
    return S.p.kind in ("hybrid", "fb_hybrid") and (
        type(e).__name__ == "StepForwardException" or (
            isinstance(e, TypeError) and "NoneType" in str(e)))

SMOOTH = ["relu", "relu_eq", "residual_eq", "fb_relu", "fb_relu_eq",
          "fb_second", "fb_second_res"]


def reduce_(v, how):
    if how == "mean":
        return float(np.mean(v))
    if how == "max":
        return float(np.max(v))
    return float(np.sum(v**4)**0.25)


def sample_losses(S, ps, ds):
    """The documented sample losses of the live functions, in numpy."""
    t, c = S.t, S.c
    with np.errstate(all="ignore"):
        a = b = 0.
        if t.lyapunov_positivity_sample_cost_weight != 0 and len(ps):
            X = np.asarray(ps, dtype=float)
            v = (c.V(B.Val, X) - S.eps2 * c.l1(B.Val, X))[:, 0]
            h = np.maximum(t.lyapunov_positivity_sample_margin - v, 0.)
            a = t.lyapunov_positivity_sample_cost_weight * reduce_(
                h, t.sample_loss_reduction)
        if t.lyapunov_derivative_sample_cost_weight != 0 and len(ds):
            X = np.asarray(ds, dtype=float)
            o, _ = c.derivative(S.eps, S.eps_type)(B.Val, X)
            h = np.maximum(t.lyapunov_derivative_sample_margin + o[:, 0], 0.)
            b = t.lyapunov_derivative_sample_cost_weight * reduce_(
                h, t.sample_loss_reduction)
    return a, b


class Steps:
    """Observes optimizer steps through torch's own global hook."""
    def __init__(self, run, on_step):
        from torch.optim.optimizer import register_optimizer_step_post_hook
        self.handle = register_optimizer_step_post_hook(
            lambda opt, a, k: on_step(opt))
        run.cleanup.append(self.handle.remove)


def live_trainable(S):
    out = list(S.c.phi.parameters())
    if S.p.controller is not None and S.t.search_controller:
        out += list(S.p.controller.parameters())
    return out + list(S.c.R_options.variables())
