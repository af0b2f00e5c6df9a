"""C08: an interrupted learning session still ends with a consistent learner.

Whole dynamics-learning sessions; a keyboard interrupt is delivered at any
line the session executes (also inside a save or an optimizer step). The
optimizer steps, the batches handed out, the scalars logged and the checkpoint
are followed from outside and every logged value is recomputed.
"""
import os

import numpy as np
import torch

from dst import build as B
from dst import core
from dst import learner as LN
from dst.seams import Interrupt, SimDisk

ID = "C08"
LEVEL = "exploration"
RUNS = dict(quick=700, thorough=50000)
RULE = ("one case = one history of training sessions and log operations; "
        "non-trivial when at least one session or log was judged; distinct by "
        "learner, data sizes, epochs, save cadence, where the interrupt hit "
        "and how many steps were done")
REAL = ["dynamics_learning.py", "training_log.py", "lyapunov.py (losses)",
        "relu_system.py", "torch optimizers", "pickle"]
STUBS = ["user interrupt (raised between two lines by a trace function)",
         "data order (seeded)", "SummaryWriter (records)",
         "disk (scratch directory)", "gurobipy (simulated solver)"]
ASSUMPTIONS = [
    "the step in flight when the interrupt arrives may or may not be applied, "
    "counted or logged",
    "an interrupt that arrives once all epochs are done may be passed on"]


def preload():
    LN.install_writer()
    import neural_network_lyapunov.dynamics_learning  # noqa
    import neural_network_lyapunov.training_log  # noqa
    import neural_network_lyapunov.lyapunov  # noqa
    import neural_network_lyapunov.relu_system  # noqa


def close(a, b):
    return abs(a - b) <= 1e-8 * (1. + abs(a) + abs(b)) or (
        not np.isfinite(a) and not np.isfinite(b))


class Follow:
    """What happened, seen from outside the session."""
    def __init__(self, run, S):
        from torch.optim.optimizer import register_optimizer_step_post_hook
        self.S, self.run = S, run
        self.steps = 0
        self.after = [LN.params_of(S.learner)]
        self.marks = []  # (kind, payload) in order
        h = register_optimizer_step_post_hook(self._step)
        run.cleanup.append(h.remove)
        LN.Writer.monitor = self._scalar
        run.cleanup.append(lambda: setattr(LN.Writer, "monitor", None))
        for loader in (S.train, S.val):
            self._wrap(loader)

    def _step(self, opt, a, k):
        self.steps += 1
        self.after.append(LN.params_of(self.S.learner))
        self.marks.append(("step", self.steps))

    def _scalar(self, w, name, v, step):
        self.marks.append(("log", name, v, step, len(self.after) - 1,
                           id(w)))

    def _wrap(self, loader):
        S, me = self.S, self
        cls = type(loader)

        class Told(cls):
            def __iter__(self):
                me.marks.append(("pass", loader.name))
                if me.on_pass is not None:
                    me.on_pass(loader.name)
                for b in cls.__iter__(self):
                    me.marks.append(("batch", loader.name,
                                     self.given[-1][me.nb(self)],
                                     len(me.after) - 1))
                    yield b
                me.marks.append(("end", loader.name))
        self.on_pass = None
        loader.__class__ = Told

    def nb(self, loader):
        return len(loader.given[-1]) - 1


def numbers(S, state, idx, loader, n_iter):
    """The documented losses of one batch, for given parameters (numpy):
    (dynamics loss, [weighted sample losses]) -- None where not judged."""
    live = LN.params_of(S.learner)
    put(S, state)
    try:
        return _numbers(S, idx, loader, n_iter)
    finally:
        put(S, live)


def put(S, state):
    k = 0
    with torch.no_grad():
        for m in LN.modules_of(S.learner):
            for q in m.state_dict().values():
                q.copy_(state[k])
                k += 1


def _numbers(S, idx, loader, n_iter):
    o, p, c = S.opts, S.p, S.c
    X, Xn = loader.x[idx], loader.xn[idx]
    if S.latent:
        if o["use_variational"]:
            return None, None
        with torch.no_grad():
            z = S.enc(X)[0].numpy()
            dec = S.dec(torch.from_numpy(z)).numpy()
            zn = p.f(B.Val, z)
            decn = S.dec(torch.from_numpy(zn)).numpy()
            deq = S.dec(p.x_eq_t[None]).numpy()
        tn = torch.cat((X[:, 1:], Xn), dim=1) if Xn.shape[1] == 1 else Xn

        def rec(a, b):
            a = a.numpy()
            if o["use_bce"]:
                return float(np.mean(-(a * np.maximum(np.log(b), -100) + (
                    1 - a) * np.maximum(np.log(1 - b), -100))))
            return float(np.mean((a - b)**2))
        dyn = rec(X, dec) + rec(tn, decn)
        if S.dec_eq is not None:
            dyn += o["decoded_equilibrium_loss_weight"] * rec(
                S.dec_eq[None], deq)
    else:
        z = X.numpy()
        dyn = float(np.mean((p.f(B.Val, z) - Xn.numpy())**2))
    inside = np.all((z >= S.lo.numpy()) & (z <= S.up.numpy()), axis=1)
    y = z[inside]
    if not len(y):
        return dyn, [0., 0., 0.]
    V = c.V(B.Val, y)[:, 0]
    out = [o["lyap_pos_loss_at_samples_weight"] * np.mean(np.maximum(
        o["V_eps_pos"] * c.l1(B.Val, y)[:, 0] - V, 0.))]
    for side, kind in (("lo", "ExpLower"), ("up", "ExpUpper")):
        v, _ = c.derivative(o["V_eps_der_" + side], kind)(B.Val, y)
        out.append(o[f"lyap_der_{side}_loss_at_samples_weight"] * np.mean(
            np.maximum(v[:, 0], 0.)))
    return dyn, [float(v) for v in out]


NAMES = ["LyapunovPosSamples", "LyapunovDerSamples/low",
         "LyapunovDerSamples/up"]


def session(run):
    from gurobipy import hooks
    ch = run.ch
    run.scenario = "session"
    S = LN.make(run, freq=0 if ch.flip("samples_only", 0.75) else None,
                n_max=5)
    le = S.learner
    d = SimDisk(ch)
    run.cleanup.append(d.destroy)
    path = os.path.join(d.root, "out")
    F = Follow(run, S)
    hooks.chooser = ch
    hooks.policy = dict(tie_break=0.3)
    n_iter = 0
    rounds = 1 + ch.choose("sessions", 3)
    for rnd in range(rounds):
        epochs = ch.choose("epochs", 4)
        rate = ch.choose("rate", 3)
        validate = ch.flip("validate", 0.6)
        with_path = rate > 0 or ch.flip("path", 0.7)
        # inside torch's optimizers only before the end: they do not survive
        # an interrupt in their own bookkeeping
        trap = Interrupt(
            [os.path.join(core.REPO, "neural_network_lyapunov")] +
            [os.path.dirname(torch.optim.__file__)] * (rnd == rounds - 1))
        hit = epochs > 0 and ch.flip("interrupt", 0.65)
        if hit:
            trap.at = 1 + ch.choose("at", [60, 400, 3000][ch.choose(
                "span", 3)])
        F.marks = marks = []
        base = len(F.after) - 1
        ends = []  # parameters at the end of every epoch

        def on_pass(name):
            trap.armed = trap.where is None
            if name != "train":
                return
            ends.append(LN.params_of(le))
            if rate and len(ends) > 1 and trap.where is None:
                # the epoch that just ended may have been saved
                was = trap.armed
                trap.armed = False
                j = max(e for e in range(len(ends) - 1) if e % rate == 0)
                got = load(run, S, path, "session:cadence")
                run.check(LN.same(LN.params_of(got), ends[j + 1]),
                          "session:cadence",
                          f"at the start of epoch {len(ends) - 1} the "
                          f"checkpoint is not that of epoch {j} (save rate "
                          f"{rate})")
                trap.armed = was
        F.on_pass = on_pass
        raised = None
        before = LN.params_of(le)
        try:
            with trap:
                le.train(epochs, validate=validate, save_rate=rate,
                         save_path=path if with_path else None)
        except KeyboardInterrupt as e:
            raised = e
        except RuntimeError as e:
            # no loss depends on any parameter in this configuration
            if "does not require grad" not in str(e):
                raise
            run.note("op:nothing-to-train")
            run.nontrivial = False
            return
        trap.armed = False
        where = trap.where
        if where:
            run.note("fault:interrupt")
            run.mark("interrupt", where)
        n_train = len([m for m in marks if m == ("pass", "train")])
        t_end = len([m for m in marks if m == ("end", "train")])
        v_end = len([m for m in marks if m == ("end", "val")])
        n_b = len([m for m in marks if m[0] == "batch" and m[1] == "train"])
        done = F.steps
        run.mark(epochs, rate, validate, with_path, n_b, raised is not None)
        run.event("session", epochs, rate, validate, where, n_b, done)
        if raised is not None:
            run.check(where is not None and t_end == epochs and
                      v_end == (epochs if validate else 0),
                      "session:interrupt-escaped",
                      f"the interrupt in {where} after {t_end} of {epochs} "
                      "epochs was not handled")
            return
        # -- steps, counter -------------------------------------------------
        per = -(-S.n // S.batch)
        freq = S.opts["lyap_loss_freq"]
        if where is None:
            run.check(n_train == epochs and t_end == epochs,
                      "session:epochs", f"{n_train} passes over the data, "
                      f"{epochs} epochs requested")
            run.check(len([m for m in marks if m == ("pass", "val")]) == (
                epochs if validate else 0), "session:validation-passes", "")
            run.check(le.n_iter == n_iter + epochs * per,
                      "session:counter", f"counter {le.n_iter}, "
                      f"{n_iter}+{epochs}*{per} batches were trained on")
            extra = sum(1 for k in range(n_iter, n_iter + epochs * per)
                        if freq and k % freq == 0)
            run.check(len(F.after) - 1 - base == epochs * per + extra,
                      "session:steps", f"{len(F.after) - 1 - base} optimizer "
                      f"steps for {epochs * per}+{extra} losses")
        else:
            run.check(n_iter + n_b - 1 <= le.n_iter <= n_iter + n_b,
                      "session:counter", f"counter {le.n_iter} after "
                      f"{n_b} batches from {n_iter} (interrupt in {where})")
        live = LN.params_of(le)
        if where is None or "optim" not in where[0] and where[0] not in (
                "adam.py", "optimizer.py"):
            run.check(LN.same(live, F.after[-1]), "session:parameters",
                      f"the parameters are not those of the last completed "
                      f"step (interrupt in {where})")
        if epochs == 0:
            run.check(LN.same(live, before), "session:changed", "no epochs")
        # -- logs -----------------------------------------------------------
        judge_logs(run, S, F, marks, n_iter, where, validate, epochs)
        # -- checkpoint -----------------------------------------------------
        if with_path:
            got = load(run, S, path, "session:final-save")
            run.check(LN.same(LN.params_of(got), live), "session:final-save",
                      f"the saved learner is not the live one (interrupt in "
                      f"{where}, {n_b} batches)")
        n_iter = le.n_iter
        if where:
            # an interrupted step leaves its own parameters behind
            F.after[-1] = live
    run.nontrivial = True


def load(run, S, path, key):
    try:
        return S.cls.load(path, S.train, S.val, S.opt)
    except (OSError, EOFError, ValueError, ImportError) as e:
        run.check(False, key, f"the checkpoint cannot be loaded: {e!r}")


def judge_logs(run, S, F, marks, n0, where, validate, epochs):
    """Every logged loss is the loss of its batch at its parameters."""
    batches = [m for m in marks if m[0] == "batch"]
    tr = [b for b in batches if b[1] == "train"]
    logs = {}
    for m in marks:
        if m[0] == "log":
            logs.setdefault((m[1], m[3]), []).append(m)
    le = S.learner
    for k, b in enumerate(tr):
        it = n0 + k
        last = k == len(tr) - 1
        vals = numbers(S, F.after[b[3]], b[2], S.train, it)
        for name, want in zip(["Dynamics"] + NAMES,
                              [vals[0]] + list(vals[1] or [None] * 3)):
            got = logs.get((name + "/train", it), [])
            need = not (last and where is not None)
            run.check(len(got) == 1 or (not need and len(got) == 0),
                      "session:log-missing", lambda: f"{name} at step {it} "
                      f"was logged {len(got)} times (interrupt {where})")
            if want is not None and got:
                run.check(close(got[0][2], want), "session:log-value",
                          lambda: f"{name} at step {it}: logged {got[0][2]}, "
                          f"the batch {b[2]} has {want}")
    top = le.n_iter
    for (name, it), v in logs.items():
        run.check(n0 <= it <= top, "session:log-step",
                  lambda: f"{name} logged at step {it}, counter {top}")
    if not validate:
        run.check(not any(n.endswith("/validate") for n, _ in logs),
                  "session:log-validate", "not asked for")
        return
    # validation: after every epoch, an average over the validation samples
    passes = []
    for m in marks:
        if m == ("pass", "val"):
            passes.append([])
        elif m[0] == "batch" and m[1] == "val":
            passes[-1].append(m)
    per = -(-S.n // S.batch)
    for e, bs in enumerate(passes):
        it = n0 + (e + 1) * per
        full = sum(len(b[2]) for b in bs) == S.nv
        got = logs.get(("Dynamics/validate", it), [])
        need = where is None or e < len(passes) - 1
        run.check(len(got) == 1 or not need and len(got) == 0,
                  "session:validation-log", lambda: f"validation of epoch {e} "
                  f"logged {len(got)} times at step {it}")
        if not got:
            continue
        run.check(full, "session:validation-partial", "")
        tot, ws, n = 0., np.zeros(3), 0
        for b in bs:
            v = numbers(S, F.after[b[3]], b[2], S.val, it)
            if v[0] is None:
                tot = None
                break
            tot += v[0] * len(b[2])
            ws += np.array(v[1]) * len(b[2])
            n += len(b[2])
        if tot is None:
            continue
        run.check(close(got[0][2], tot / n), "session:validation-value",
                  lambda: f"validation loss of epoch {e}: logged {got[0][2]}, "
                  f"average over the samples {tot / n}")
        if len(bs) == 1:
            for name, w in zip(NAMES, ws / n):
                g = logs.get((name + "/validate", it), [])
                run.check(len(g) == 1 or not need, "session:validation-log",
                          name)
                if g:
                    run.check(close(g[0][2], w), "session:validation-value",
                              lambda: f"{name}: {g[0][2]} vs {w}")


# -- TrainingLog --------------------------------------------------------------
def log(run):
    import neural_network_lyapunov.training_log as tl
    ch = run.ch
    run.scenario = "log"
    r = ch.rngstate("log.rng")
    k = 1 + ch.choose("dim", 3)
    w = LN.Writer()
    logs = [(tl.TrainingLog(k, prefix="p0", writer=w,
                            first_value_only=ch.flip("first", 0.4)),
             [], [], w, [], "p0")]
    first = [logs[0][0].first_value_only]
    for _ in range(3 + ch.choose("ops", 12)):
        i = ch.choose("which", len(logs))
        g, tr, va, w, sc, pre = logs[i]
        op = ch.choose("op", 5)
        v = r.randn(k)
        if op <= 1:
            g.add_train_loss(v if ch.flip("np", 0.5) else torch.from_numpy(v))
            tr.append(v)
            what = "Train"
        elif op <= 3:
            g.add_validation_loss(v if ch.flip("np", 0.5)
                                  else torch.from_numpy(v))
            va.append(v)
            what = "Validation"
        else:
            keep = ch.flip("keep_writer", 0.5)
            name = ch.pick("prefix", [None, "p1", "p2"])
            fo = ch.pick("fo", [None, True, False])
            n = tl.TrainingLog.get_copy(g, prefix=name, first_value_only=fo,
                                        keep_writer=keep)
            run.check((n.writer is g.writer) == keep, "log:writer",
                      "the copy's writer")
            logs.append((n, list(tr), list(va), n.writer,
                         sc if keep else [], pre if name is None else name))
            first.append(first[i] if fo is None else fo)
            what = None
        run.mark(op)
        if what is not None:
            n = len(tr)
            if first[i]:
                sc.append((what + "/" + pre, v[0], n))
            else:
                for j in range(k):
                    sc.append((f"{what}_{j}/{pre}", v[j], n))
        for g, tr, va, w, sc, pre in logs:
            run.check(np.array_equal(g.train_losses,
                                     np.array(tr).reshape((-1, k))),
                      "log:train", f"{g.train_losses} vs {tr}")
            run.check(np.array_equal(g.validation_losses,
                                     np.array(va).reshape((-1, k))),
                      "log:validation", f"{g.validation_losses} vs {va}")
            run.check(w.scalars == sc, "log:scalars",
                      lambda: f"{w.scalars} vs {sc}")
    run.nontrivial = True


def scenario(run):
    if run.ch.choose("family", 8) < 7:
        session(run)
    else:
        log(run)
