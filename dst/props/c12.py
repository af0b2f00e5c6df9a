"""C12: watching a training does not change it; seeds reproduce it.

The same session is built several times from one tape of choices and run
against a solver whose answer to a program depends on the program alone: plain,
with observers (printing, experiment logging, network saving, solver output, a
jumping clock), again after unrelated sessions, and interleaved with another
session in one process. Parameters after every optimizer step, verdicts and
sample pools must agree bit for bit.
"""
import hashlib
import io
import os
import shutil
import sys
import tempfile
import types

import numpy as np
import torch

from dst import build as B
from dst import core
from dst import learner as LN
from dst import session as SS
from dst.seams import Coop, KeyedSolver, SimClock, Tape

ID = "C12"
LEVEL = "exploration"
RUNS = dict(quick=280, thorough=40000)
RULE = ("one case = one session run twice or more under different observers, "
        "clocks, histories or interleavings; non-trivial when both executions "
        "made at least one optimizer step or gave a verdict; distinct by "
        "session, observers, and number of steps")
REAL = ["train_lyapunov_barrier.py", "dynamics_learning.py",
        "training_log.py", "lyapunov.py", "r_options.py", "utils.py "
        "(supervised loops)", "control_affine_system.py (model fit)",
        "torch optimizers and data loaders"]
STUBS = ["gurobipy (simulated solver, answers keyed by the program)",
         "wandb (records)", "time.* (simulated clock)", "SummaryWriter",
         "thread scheduler (seeded, one thread at a time, global random "
         "states travel with the thread)"]
ASSUMPTIONS = [
    "observers themselves work: the disk is healthy, the logging back end "
    "accepts what it is given",
    "interleaved sessions own their random state, as in separate threads of "
    "control each seeded on its own"]


class Wandb(types.ModuleType):
    def __init__(self):
        super().__init__("wandb")
        self.calls = []
        me = self

        class Config(dict):
            def update(self, d, *a, **k):
                me.calls.append("config")
                dict.update(self, vars(d) if not isinstance(d, dict) else d)
        self.config = Config()

    def log(self, d, *a, **k):
        self.calls.append("log")
        for v in d.values():
            repr(v)

    def init(self, *a, **k):
        return self


WANDB = Wandb()


def preload():
    sys.modules["wandb"] = WANDB
    LN.install_writer()
    import neural_network_lyapunov.train_lyapunov_barrier  # noqa
    import neural_network_lyapunov.train_utils  # noqa
    import neural_network_lyapunov.dynamics_learning  # noqa
    import neural_network_lyapunov.control_affine_system  # noqa


class Sub:
    """A run for a part of the scenario: own choices, shared notes."""
    def __init__(self, run, ch, quiet):
        self.run, self.ch, self.quiet = run, ch, quiet
        self.sample = {}
        self.counts = {}
        self.cleanup = run.cleanup
        self.tier = run.tier

    def mark(self, *a):
        if not self.quiet:
            self.run.mark(*a)

    def note(self, k, n=1):
        if not self.quiet:
            self.run.note(k, n)

    def event(self, *a):
        if not self.quiet:
            self.run.event(*a)

    check = property(lambda self: self.run.check)
    scenario = None


def bits(v):
    """A hash of everything in v, bit by bit."""
    h = hashlib.sha1()

    def go(v):
        if isinstance(v, torch.Tensor):
            h.update(repr((tuple(v.shape), str(v.dtype))).encode())
            h.update(v.detach().cpu().contiguous().numpy().tobytes())
        elif isinstance(v, np.ndarray):
            h.update(repr((v.shape, str(v.dtype))).encode())
            h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, (list, tuple)):
            h.update(b"[%d" % len(v))
            for w in v:
                go(w)
        elif isinstance(v, dict):
            for k in sorted(v):
                h.update(str(k).encode())
                go(v[k])
        elif isinstance(v, (float, np.floating)):
            h.update(np.float64(v).tobytes())
        else:
            h.update(repr(v).encode())
    go(v)
    return h.hexdigest()[:16]


# -- the sessions ------------------------------------------------------------
class Trace:
    def __init__(self):
        self.rows = []  # (what, hash)

    def add(self, what, v):
        self.rows.append((what, bits(v)))


class Job:
    """One buildable, runnable session. make(ch) -> (params(), phases) where
    phases are callables returning what the caller sees."""


def trainer_job(sub, faults):
    ch = sub.ch
    S = SS.make(sub, faults=faults, pools=ch.flip("more_pools", 0.5))
    t = S.t
    t.max_iterations = 1 + ch.choose("iterations", 4)
    job = Job()
    job.S = S
    job.kind = "trainer"
    nets = SS.modules(S)

    def params():
        return [v for m in nets for v in m.state_dict().values()] + list(
            S.c.R_options.variables()) + [S.c.R_options.R()]
    job.params = params
    phases = []
    data = []
    for k in range(1 + ch.choose("phases", 3)):
        kind = ch.choose("phase", 4)
        r = ch.rngstate("phase.samples")
        if kind == 3 or (kind == 2 and not S.adversarial):
            kind = 0
        if kind in (1, 2) and S.adversarial:
            o = SS.options(sub)
            o.perturb_derivative_sample_count = ch.choose("perturb", 3)
            n = 1 + ch.choose("n_init", 4)
            a = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(n, S.p.dim)))
            b = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(n, S.p.dim)))
            data += [a, b]
            phases.append(("train_adversarial",
                           lambda a=a, b=b, o=o: t.train_adversarial(a, b,
                                                                     o)))
        elif kind == 1:
            n = 5 + ch.choose("n_on_samples", 6)
            a = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(n, S.p.dim)))
            data.append(a)
            e, bs = 1 + ch.choose("epochs", 2), 1 + ch.choose("bs", 4)
            phases.append(("train_lyapunov_on_samples",
                           lambda a=a, e=e, bs=bs:
                           t.train_lyapunov_on_samples(a, e, bs)))
        else:
            a = S.samples
            data.append(a)
            phases.append(("train", lambda a=a: t.train(a)))
    job.phases, job.data = phases, data
    return job


def observe_trainer(job, ob, folder):
    import gurobipy
    t = job.S.t
    if ob["print"]:
        t.output_flag = True
    if ob["wandb"]:
        t.enable_wandb = True
    if ob["save"]:
        t.save_network_path = folder
        t.save_network_iterations = ob["save"]
    if ob["solver_output"]:
        t.lyapunov_derivative_mip_params = dict(
            t.lyapunov_derivative_mip_params)
        t.lyapunov_derivative_mip_params[
            gurobipy.GRB.Param.OutputFlag] = True


def learner_job(sub, faults):
    ch = sub.ch
    S = LN.make(sub, n_max=4)
    job = Job()
    job.S = S
    job.kind = "learner"
    job.saving = None
    job.params = lambda: LN.params_of(S.learner) + [S.learner.n_iter]
    job.phases = []
    # a real loader, shuffled by the global random state
    import torch.utils.data as td
    if ch.flip("real_loader", 0.5):
        S.learner.train_dataloader = td.DataLoader(
            td.TensorDataset(S.train.x, S.train.xn), batch_size=S.batch,
            shuffle=True)
    for k in range(1 + ch.choose("phases", 2)):
        e = 1 + ch.choose("epochs", 2)
        val = ch.flip("validate", 0.4)

        def go(e=e, val=val):
            kw = {}
            if job.saving:
                kw = dict(save_rate=job.saving[0], save_path=job.saving[1])
            try:
                S.learner.train(e, validate=val, **kw)
            except RuntimeError as ex:
                if "does not require grad" not in str(ex):
                    raise
                return "nothing to train"
        job.phases.append(("dynamics", go))
    job.data = [S.X, S.Xn]
    return job


def observe_learner(job, ob, folder):
    if ob["save"]:
        job.saving = (ob["save"] - 1, os.path.join(folder, "learner"))


def fit_job(sub, faults):
    import neural_network_lyapunov.utils as utils
    import neural_network_lyapunov.control_affine_system as cas
    ch = sub.ch
    job = Job()
    job.kind = "fit"
    job.verbose = False
    r = ch.rngstate("fit.rng")
    n, k, m = 5 + ch.choose("fit.n", 8), 1 + ch.choose("fit.in", 3), 1
    bs = 1 + ch.choose("fit.bs", 6)
    which = ch.choose("fit.kind", 3)
    e = 1 + ch.choose("fit.epochs", 12)

    def net(a, b, name):
        q = ch.rngstate(name)
        s = torch.nn.Sequential(torch.nn.Linear(a, 3, dtype=B.D),
                                torch.nn.LeakyReLU(0.1),
                                torch.nn.Linear(3, b, dtype=B.D))
        with torch.no_grad():
            for v in s.parameters():
                v.copy_(torch.from_numpy(q.randn(*v.shape)))
        return s
    X = torch.from_numpy(r.randn(n, k + (1 if which == 2 else 0)))
    Y = torch.from_numpy(r.randn(n, k if which == 2 else m))
    job.data = [X, Y]
    if which == 2:
        f, G = net(k, k, "fit.f"), net(k, k, "fit.G")
        xe = torch.zeros(k, dtype=B.D)
        ue = torch.zeros(1, dtype=B.D)
        ds = torch.utils.data.TensorDataset(X, Y)

        def go():
            cas.train_control_affine_forward_model(
                f, G, xe, ue, ds, e, 0.01, batch_size=bs,
                verbose=job.verbose)
        nets = [f, G]
    elif which == 1:
        f = net(k, m, "fit.f")
        ds = torch.utils.data.TensorDataset(X, Y)

        def go():
            utils.train_approximator(ds, f, lambda mod, x: mod(x), bs, e,
                                     0.01, verbose=job.verbose)
        nets = [f]
    else:
        f = net(k, m, "fit.f")

        def go():
            utils.train_model(f, X, Y, batch_size=bs, num_epoch=e,
                              print_loss=job.verbose)
        nets = [f]
    job.params = lambda: [v for q in nets for v in q.state_dict().values()]
    job.phases = [("fit", go)] * (1 + ch.choose("fit.phases", 2))
    sub.mark("fit", which, e, bs, n)
    return job


def observe_fit(job, ob, folder):
    job.verbose = ob["print"]


KINDS = dict(trainer=(trainer_job, observe_trainer),
             learner=(learner_job, observe_learner),
             fit=(fit_job, observe_fit))


def perform(run, job, seed, solver_seed, policy):
    """Runs the session; returns its trace."""
    from gurobipy import hooks
    tr = Trace()
    hooks.chooser = KeyedSolver(solver_seed)
    hooks.policy = policy
    torch.manual_seed(seed)
    np.random.seed(seed)
    import random
    random.seed(seed)
    tr.add("start", job.params())
    before = bits(job.data)
    for name, f in job.phases:
        try:
            ret = f()
        except Exception as e:
            if type(e).__name__ == "SimSolverError":
                raise
            tr.rows.append((name + " raised", type(e).__name__))
            tr.error = e
            break
        tr.add(name + " returned", ret if ret is None or not isinstance(
            ret, torch.nn.Module) else list(ret.state_dict().values()))
        tr.add("parameters after " + name, job.params())
    else:
        tr.error = None
    tr.add("end", job.params())
    tr.data_ok = bits(job.data) == before
    return tr


def hook_steps(run, where):
    """Records the parameters after every optimizer step of every session."""
    from torch.optim.optimizer import register_optimizer_step_post_hook

    def on_step(opt, a, k):
        rec = where()
        if rec is not None:
            rec.append(("step", bits([q for g in opt.param_groups
                                      for q in g["params"]])))
    h = register_optimizer_step_post_hook(on_step)
    run.cleanup.append(h.remove)


def make_policy(ch, faults):
    pol = dict(tie_break=0.5, inf_or_unbd=0.)
    if faults:
        pol.update(interrupt=ch.pick("p.interrupt", [0., 0.1, 0.3]),
                   suboptimal=ch.pick("p.subopt", [0., 0.1, 0.3]),
                   limit=ch.pick("p.limit", [0.5, 0.1, 0.9]))
    return pol


def compare(run, a, b, sa, sb, key, what):
    run.check(sa == sb, key + ":steps", lambda: diff(sa, sb, what))
    if a.rows != b.rows and a.rows[-2][0].endswith("raised") != b.rows[-2][
            0].endswith("raised"):
        e = a.error or b.error
        import traceback
        run.check(False, key + ":error", f"{what}: only one of the sessions "
                  "failed: " + "".join(traceback.format_exception(
                      type(e), e, e.__traceback__))[-1500:])
    run.check(a.rows == b.rows, key + ":outcome",
              lambda: diff(a.rows, b.rows, what))
    for t in (a, b):
        run.check(t.data_ok, key + ":data", "the caller's samples were "
                  "changed in place")


def diff(a, b, what):
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"{what}: differs first at entry {k} of {len(a)}/" \
                f"{len(b)}: {x} vs {y}"
    return f"{what}: {len(a)} vs {len(b)} entries, {(a + b)[-1:]}"


def scenario(run):
    from gurobipy import hooks
    ch = run.ch
    kind = ["trainer", "learner", "fit"][[0, 0, 0, 0, 1, 1, 2][ch.choose(
        "session", 7)]]
    mode = ["observers", "again", "interleaved"][[0, 0, 0, 1, 2][ch.choose(
        "mode", 5)]]
    run.scenario = kind + "-" + mode
    faults = kind == "trainer" and ch.flip("faults", 0.5)
    build, observe = KINDS[kind]
    tape = Tape(ch)
    seed = ch.choose("torch.seed", 1 << 20)
    solver_seed = ch.choose("solver.seed", 1 << 20)
    policy = make_policy(ch, faults)
    cur = [None]
    hook_steps(run, lambda: cur[0])
    folder = tempfile.mkdtemp(prefix="dst12_")
    run.cleanup.append(lambda: shutil.rmtree(folder, ignore_errors=True))
    stdout = sys.stdout
    run.cleanup.append(lambda: setattr(sys, "stdout", stdout))
    sys.stdout = io.StringIO()

    def fresh(t, quiet=True):
        return build(Sub(run, t, quiet), faults)

    if mode == "interleaved":
        return interleaved(run, kind, build, tape, seed, solver_seed, policy,
                           faults)
    job = fresh(tape, False)
    sa = cur[0] = []
    a = perform(run, job, seed, solver_seed, policy)
    cur[0] = None
    run.note("sessions")
    if mode == "again":
        # something else happens in the process first
        other = KINDS[["trainer", "learner", "fit"][ch.choose(
            "other", 3)]][0](Sub(run, ch, True), False)
        perform(run, other, seed + 1, solver_seed + 1, dict(tie_break=0.5))
        what = "the same session again, after another one"
        job2 = fresh(tape.again())
        clock = SimClock(0, 0., 1., 0.)
        ob = {}
    else:
        ob = dict(print=ch.flip("ob.print", 0.6),
                  wandb=ch.flip("ob.wandb", 0.5),
                  save=ch.choose("ob.save", 4),
                  solver_output=ch.flip("ob.solver", 0.3))
        clock = SimClock(ch.choose("clock.seed", 1 << 20),
                         ch.pick("clock.start", [0., 1.7e9, -5e8, 4e9]),
                         ch.pick("clock.rate", [1., 0., 1e5, -1.]),
                         ch.pick("clock.jumps", [0., 0.3]))
        job2 = fresh(tape.again())
        observe(job2, ob, folder)
        what = f"with observers {ob}"
        run.mark(tuple(sorted(ob.items())), clock.rate, clock.jumps)
        run.note("observed-sessions")
    WANDB.calls.clear()
    WANDB.config.clear()
    sb = cur[0] = []
    with clock:
        b = perform(run, job2, seed, solver_seed, policy)
    cur[0] = None
    run.sim_time += min(clock.span, 1e9)
    run.note("clock-reads", clock.reads)
    if clock.jumped:
        run.note("fault:clock-jump", clock.jumped)
    run.note("printed-bytes", len(sys.stdout.getvalue()))
    run.note("wandb-calls", len(WANDB.calls))
    run.mark(len(sa), tuple(n for n, _ in a.rows))
    run.event(a.rows, len(sa))
    run.nontrivial = len(sa) > 0 or a.error is None
    if a.error is not None:
        run.note("probe:both-raised:" + type(a.error).__name__)
    compare(run, a, b, sa, sb, mode, what)


def interleaved(run, kind, build, tape, seed, solver_seed, policy, faults):
    from gurobipy import hooks
    ch = run.ch
    kind2 = ["trainer", "learner", "fit"][ch.choose("second", 3)]
    build2 = KINDS[kind2][0]
    tape2 = Tape(ch)
    specs = [(build, tape, seed, solver_seed), (build2, tape2, seed + 7,
                                                solver_seed + 7)]
    rec = {}
    coop = None
    import threading
    cur = [None]

    def which():
        if coop is not None:
            return rec[coop.ids[threading.get_ident()]]
        return cur[0]
    hook_steps(run, which)
    alone, steps = [], []
    for k, (bd, tp, sd, so) in enumerate(specs):
        job = bd(Sub(run, tp, False), faults)
        cur[0] = []
        steps.append(cur[0])
        alone.append(perform(run, job, sd, so, policy))
    jobs = [bd(Sub(run, tp.again(), True), faults)
            for bd, tp, _, _ in specs]
    rec = {0: [], 1: []}

    def go(k):
        return lambda: perform(run, jobs[k], specs[k][2], specs[k][3], policy)
    coop = Coop(ch, [go(0), go(1)])
    hooks.on_solve = lambda *a: coop.point()
    from torch.optim.optimizer import register_optimizer_step_pre_hook
    h = register_optimizer_step_pre_hook(lambda o, a, k: coop.point())
    run.cleanup.append(h.remove)
    out = coop.run()
    hooks.on_solve = None
    run.note("sessions", 4)
    run.note("fault:switch", coop.switches)
    run.mark(kind, kind2, coop.switches, len(steps[0]), len(steps[1]))
    run.event(coop.switches, alone[0].rows, alone[1].rows)
    run.nontrivial = coop.switches > 0
    for k in (0, 1):
        if out[k] is None:
            raise core.Discard("an interleaved session did not finish")
        compare(run, alone[k], out[k], steps[k], rec[k], "interleaved",
                f"session {k} ({[kind, kind2][k]}) interleaved with the "
                "other")
