"""C06: training on samples ends with the best parameters it visited.

Every optimizer step is observed through torch's global step hook; the losses
of the whole sample set are recomputed independently at the instants where the
trainer compares iterates.
"""
import numpy as np
import torch

from dst import build as B
from dst import session as SS
from dst.core import Discard

ID = "C06"
LEVEL = "exploration"
RUNS = dict(quick=700, thorough=40000)
RULE = ("one case = one session of verify-and-descend rounds (or of "
        "train_lyapunov_on_samples) with a batch order, optimizer, learning "
        "rate and R parametrisation; non-trivial when at least one descent "
        "was judged; distinct by system, options, rounds and which iterate "
        "was best in each")
REAL = ["train_lyapunov_barrier.py", "r_options.py", "lyapunov.py",
        "relu_system.py", "feedback_system.py", "torch optimizers, autograd, "
        "DataLoader"]
STUBS = ["gurobipy (simulated solver on HiGHS)"]
ASSUMPTIONS = [
    "losses that agree to 1e-9 count as equal",
    "train_lyapunov_on_samples compares epoch ends on its own test split"]


def preload():
    import neural_network_lyapunov.train_lyapunov_barrier  # noqa


def tol(v):
    return 1e-9 * (1 + abs(v)) if np.isfinite(v) else 0.


def live_check(run, S, opt, where):
    """What the optimizer moves is what the functions are made of."""
    have = [p for g in opt.param_groups for p in g["params"]]
    for v in SS.live_trainable(S):
        ok = any(v.shape == q.shape and torch.equal(
            v.detach(), q.detach()) for q in have)
        ok = ok or not bool(torch.isfinite(v).all())
        run.check(ok, "live:" + where,
                  lambda: f"after an optimizer step the live parameter {v} is "
                  "none of the optimizer's parameters: it moves a stale copy")


def controllers_fixed(run, S, start):
    if S.p.controller is not None and not S.t.search_controller:
        now = [q.detach().clone() for q in S.p.controller.parameters()]
        run.check(all(torch.equal(a, b) for a, b in zip(now, start)),
                  "controller:moved", "a controller that is not searched for "
                  "was changed")


def same_params(a, b):
    na = [v for sd in a[0] for v in sd.values()] + list(a[1])
    nb = [v for sd in b[0] for v in sd.values()] + list(b[1])
    return all(torch.equal(x, y) for x, y in zip(na, nb))


def scenario(run):
    from gurobipy import hooks
    ch = run.ch
    on_samples = ch.flip("on_samples", 0.35)
    S = SS.make(run, kinds=SS.SMOOTH, methods="ia", adversarial=True,
                easy=ch.flip("easy", 0.3), faults=False,
                fixed_R=None if ch.flip("R.any", 0.3) else False)
    tr = S.t
    tr.lyapunov_positivity_convergence_tol = 1e-6
    tr.lyapunov_derivative_convergence_tol = 1e-6
    tr.learning_rate = [0.01, 0.3, 3., 1e3, 1e-4, 1e200][ch.choose("rate", 6)]
    tr.derivative_mip_num_strengthen_pts = 0
    tr.derivative_mip_strengthen_binary = False
    hooks.chooser = ch
    hooks.note_counts = run.counts
    hooks.policy = dict(tie_break=0.2, inf_or_unbd=0.)
    torch.manual_seed(ch.choose("torch.seed", 1 << 20))
    run.scenario = "on_samples" if on_samples else "rounds"
    run.mark(tr.learning_rate, tr.optimizer, tr.sample_loss_reduction)
    run.nontrivial = False
    if on_samples:
        return samples_session(run, S)
    return rounds(run, S)


def rounds(run, S):
    tr, ch = S.t, run.ch
    o = SS.options(run)
    o.num_epochs_per_mip = 1 + ch.choose("epochs", 6)
    tr.max_iterations = 1 + ch.choose("rounds", 3)
    r = ch.rngstate("init")
    n1, n2 = 1 + ch.choose("n_p", 6), 1 + ch.choose("n_d", 6)
    ps = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(n1, S.p.dim)))
    ds = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(n2, S.p.dim)))
    rec = dict(open=False, n=0)
    ctrl0 = [] if S.p.controller is None else [
        q.detach().clone() for q in S.p.controller.parameters()]
    orig_loss, orig_p = tr.lyapunov_sample_loss, tr.solve_positivity_mip

    def point(kind):
        if huge(S, 1e5):
            rec["huge"] = True
        a, b = SS.sample_losses(S, rec["p"], rec["d"])
        rec["points"].append((a + b, SS.snapshot(S), kind))
        return a, b

    def close():
        """Judges the descent that just ended."""
        if not rec["open"]:
            return
        rec["open"] = False
        if rec["huge"] or huge(S, 1e5):
            # round-off of overflowing values decides, not the trainer
            run.note("probe:overflowing-parameters")
            return
        run.nontrivial = True
        losses = [q[0] for q in rec["points"]]
        live = SS.snapshot(S)
        a, b = SS.sample_losses(S, rec["p"], rec["d"])
        fin = [x for x in losses if not np.isnan(x)]
        if not fin:
            run.note("probe:all-nan")
            return
        best = min(fin)
        k = losses.index(best)
        run.mark("best", k, len(losses))
        run.note("probe:best-is-start" if k == 0 else "probe:best-is-last"
                 if k == len(losses) - 1 else "probe:best-in-the-middle")
        run.event("descent", [round(x, 9) for x in losses],
                  round(a + b, 9))
        run.check(a + b <= best + tol(best), "rounds:best",
                  lambda: f"losses at the start and the epoch ends were "
                  f"{losses} but the parameters left in place have {a + b}")
        cand = [q for q in rec["points"]
                if q[0] <= best + tol(best)]
        run.check(any(same_params(live, q[1]) for q in cand),
                  "rounds:mixture",
                  lambda: f"the parameters left in place are none of the "
                  f"visited points with the best loss {best} of {losses}")
        controllers_fixed(run, S, ctrl0)

    def solve_p():
        close()
        return orig_p()

    def loss(p_, d_, n_, *a, **k):
        first = not rec["open"]
        if first:
            # the descent starts: the whole sample set is evaluated
            rec.update(open=True, p=p_.detach().numpy().copy(),
                       d=d_.detach().numpy().copy(), points=[], steps=0,
                       huge=False)
            nb = [int(np.ceil(len(x) / np.ceil(len(x) / o.num_batches)))
                  for x in (p_, d_)]
            rec["nb"] = min(nb)
            point("start")
        out = orig_loss(p_, d_, n_, *a, **k)
        if first:
            got = float(out[0]) + float(out[1])
            want = rec["points"][-1][0]
            run.check(abs(got - want) <= 1e-8 * (1 + abs(want)) or
                      not np.isfinite(want), "rounds:loss",
                      lambda: f"initial loss {got}, direct evaluation {want}")
        return out

    def on_step(opt):
        if not rec["open"]:
            return
        rec["steps"] += 1
        live_check(run, S, opt, "rounds")
        if rec["steps"] % rec["nb"] == 0:
            point("epoch")
    tr.lyapunov_sample_loss = loss
    tr.solve_positivity_mip = solve_p
    SS.Steps(run, on_step)
    try:
        tr.train_adversarial(ps, ds, o)
    except Exception:
        # NaN parameters make the verification programs unbuildable
        if not all(torch.isfinite(v).all() for v in SS.live_trainable(S)) or \
                huge(S):
            run.note("probe:diverged")
            return
        from dst.props.c01 import SS_infeasible  # noqa
        if lost_region(S):
            run.note("probe:no-successor-in-region")
            return
        raise
    close()


def huge(S, limit=1e4):
    return any(not float(v.detach().abs().max()) <= limit
               for v in SS.live_trainable(S) if v.numel())


def lost_region(S):
    """The derivative program has no state to range over."""
    reg = SS.derivative_region(S)
    best, _ = reg.best(np.random.RandomState(0), 500, 20)
    return best == -np.inf


def samples_session(run, S):
    tr, ch = S.t, run.ch
    tr.optimizer = "Adam"
    if tr.lyapunov_positivity_sample_cost_weight == 0:
        tr.lyapunov_derivative_sample_cost_weight = 1.
    n = 5 + ch.choose("n", 8)
    r = ch.rngstate("init")
    X = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(n, S.p.dim)))
    epochs = 1 + ch.choose("epochs", 5)
    bs = 1 + ch.choose("batch", 5)
    ctrl0 = [] if S.p.controller is None else [
        q.detach().clone() for q in S.p.controller.parameters()]
    orig_total = tr.total_loss
    rec = dict(pending=None, tests=[], trains=0)
    start = SS.snapshot(S)

    def flush():
        """The pending evaluation was not followed by a step: a test."""
        if rec["pending"] is not None:
            rec["tests"].append(rec["pending"])
            rec["pending"] = None

    def total(ps, ds, ns, *a, **k):
        flush()
        out = orig_total(ps, ds, ns, *a, **k)
        want = sum(SS.sample_losses(S, ps.detach().numpy()[
            -tr.max_sample_pool_size:], ds.detach().numpy()[
                -tr.max_sample_pool_size:]))
        got = float(out.loss)
        run.check(not np.isfinite(want) or huge(S) or abs(got - want) <= 1e-8 * (
            1 + abs(want)), "samples:loss", lambda: f"{got} vs {want}")
        rec["pending"] = (got, SS.snapshot(S), ps.detach().clone())
        return out

    def on_step(opt):
        rec["pending"] = None
        rec["trains"] += 1
        live_check(run, S, opt, "samples")
    tr.total_loss = total
    SS.Steps(run, on_step)
    sessions = 1 + ch.choose("sessions", 2)
    for _ in range(sessions):
        rec.update(pending=None, tests=[], trains=0)
        start = SS.snapshot(S)
        tr.train_lyapunov_on_samples(X, epochs, bs)
        flush()
        run.nontrivial = True
        live = SS.snapshot(S)
        run.check(len(rec["tests"]) >= epochs, "samples:epochs",
                  f"{len(rec['tests'])} evaluations in {epochs} epochs")
        vals = [q[0] for q in rec["tests"]]
        good = [q for q in vals if not np.isnan(q)]
        run.event("tests", [round(v, 9) for v in vals])
        if not good or min(good) == np.inf:
            run.note("probe:never-improved")
            run.check(same_params(live, start), "samples:kept-start",
                      "no epoch improved but the start parameters are gone")
            continue
        best = min(good)
        k = vals.index(best)
        run.mark("best", k, len(vals))
        run.note("probe:best-is-last" if k == len(vals) - 1
                 else "probe:best-in-the-middle")
        run.check(any(same_params(live, q[1]) for q in rec["tests"]
                      if q[0] <= best + tol(best)), "samples:best",
                  lambda: f"epoch-end losses {vals}; the parameters left in "
                  "place are not those of the best epoch")
        controllers_fixed(run, S, ctrl0)
    assert Discard
