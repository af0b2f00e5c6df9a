"""C07: a crash while saving never destroys the previous checkpoint.

Histories of saves on a simulated disk: at any operation that reaches it the
process dies, the machine loses power, the disk is full, an operation fails or
a write is short; afterwards the checkpoint under the original name is loaded
and compared with what was saved before.
"""
import copy
import os

import numpy as np
import torch

from dst import build as B
from dst import learner as LN
from dst import session as SE
from dst.seams import SimDisk

ID = "C07"
LEVEL = "exploration"
RUNS = dict(quick=900, thorough=60000)
RULE = ("one case = one history of saves with its disk faults; non-trivial "
        "when at least one save was judged; distinct by writer, number of "
        "saves, fault kinds and the operations they hit, outcome of each save")
REAL = ["utils.py (checkpoint writers)", "train_lyapunov_barrier.py (training "
        "with periodic saves)", "dynamics_learning.py (save, load, train)",
        "r_options.py", "torch serialisation, pickle", "the scratch files"]
STUBS = ["disk faults (simulated above a real scratch directory)",
         "torch.save to a path writes through Python instead of C++",
         "gurobipy (simulated solver)", "SummaryWriter (records)"]
ASSUMPTIONS = [
    "renames are atomic and reach the disk in order; data is durable once "
    "fsynced",
    "the three files of a trainer checkpoint are judged one by one: they are "
    "separate files and no rename covers all of them"]
FAULTS = ["crash", "powerloss", "eio", "enospc", "short"]


def preload():
    LN.install_writer()
    import neural_network_lyapunov.utils  # noqa
    import neural_network_lyapunov.lyapunov  # noqa
    import neural_network_lyapunov.r_options  # noqa
    import neural_network_lyapunov.relu_system  # noqa
    import neural_network_lyapunov.hybrid_linear_system  # noqa
    import neural_network_lyapunov.feedback_system  # noqa
    import neural_network_lyapunov.train_lyapunov_barrier  # noqa
    import neural_network_lyapunov.dynamics_learning  # noqa


def disk(run):
    d = SimDisk(run.ch)
    run.cleanup.append(d.destroy)
    return d.install()


def attempt(run, d, fn, fault=None, at=None):
    """-> 'returned', 'raised' or 'crashed'"""
    base = d.n
    d.plan = {base + at: fault} if fault else {}
    if fault == "short":
        d.plan = {base + k: fault for k in range(1, 40)}
    before = len(d.injected)
    try:
        fn()
        out = "returned"
    except BaseException as e:
        if d.frozen:
            out = "crashed"
        elif len(d.injected) > before:
            run.note("op:error-" + type(e).__name__)
            out = "raised"
        else:
            raise
    if d.frozen:
        out = "crashed"
    for f, kind in d.injected[before:]:
        run.note("fault:" + f)
    kinds = sorted(set(d.injected[before:]))
    run.mark(out, tuple(kinds[:3]))
    run.event("save", out, kinds[:3], d.log[base:][-6:])
    d.settle()
    run.note("op:" + out)
    return out


def torch_load(path):
    try:
        return torch.load(path, weights_only=False)
    except BaseException as e:
        return e


# -- single checkpoints -------------------------------------------------------
def same(a, b):
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) \
            and a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b)
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(
            same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    return a == b


def rebuilt(data, dtype):
    import neural_network_lyapunov.utils as utils
    m = utils.setup_relu(data["linear_layer_width"], params=None,
                         negative_slope=data["negative_slope"],
                         bias=data["bias"], dtype=dtype)
    m.load_state_dict(data["state_dict"])
    return m


def models(run):
    import neural_network_lyapunov.lyapunov as ly
    import neural_network_lyapunov.r_options as ro
    import neural_network_lyapunov.utils as utils
    ch = run.ch
    run.scenario = "models"
    what = ch.pick("what", ["lyapunov", "controller", "forward"])
    run.mark(what)
    d = disk(run)
    path = os.path.join(d.root, ch.pick("name", ["model.pt", "a b.pth"]))
    n_saves = 1 + ch.choose("n_saves", 4)
    good = None  # (inputs, test input, outputs)
    for k in range(n_saves):
        dim = 1 + ch.choose("dim", 3)
        r = ch.rngstate("values")
        dtype = torch.float32 if ch.flip("float32", 0.2) else torch.float64
        if what == "lyapunov":
            net = B.net(run, "net", dim, 1, dtype=dtype)
            opts = B.R_options(run, dim)
            kw = dict(
                V_lambda=float(r.uniform(0, 2)),
                lyapunov_positivity_epsilon=float(r.uniform(0, 1)),
                lyapunov_derivative_epsilon=float(r.uniform(0, 1)),
                eps_type=ch.pick("eps", list(ly.ConvergenceEps)))
            want = dict(kw, R=opts.R().detach().clone(),
                        fixed_R=isinstance(opts, ro.FixedROptions))
            sd = opts

            def save():
                utils.save_lyapunov_model(net, kw["V_lambda"],
                                          kw["lyapunov_positivity_epsilon"],
                                          kw["lyapunov_derivative_epsilon"],
                                          kw["eps_type"], opts, path)
        elif what == "controller":
            du = 1 + ch.choose("du", 2)
            net = B.net(run, "net", dim, du, dtype=dtype)
            want = dict(x_lo=B.t(-r.rand(dim)), x_up=B.t(r.rand(dim)),
                        u_lo=B.t(-r.rand(du)), u_up=B.t(r.rand(du)))
            sd = None

            def save():
                utils.save_controller_model(net, want["x_lo"], want["x_up"],
                                            want["u_lo"], want["u_up"], path)
        else:
            nq, du = dim, 1 + ch.choose("du", 2)
            net = B.net(run, "net", 2 * nq + du, nq, dtype=dtype)
            dim = 2 * nq + du
            want = dict(q_equilibrium=B.t(r.rand(nq)),
                        u_equilibrium=B.t(r.rand(du)),
                        dt=float(r.uniform(0.01, 0.2)))
            sd = None

            def save():
                utils.save_second_order_forward_model(
                    net, want["q_equilibrium"], want["u_equilibrium"],
                    want["dt"], path)
        if ch.flip("odd_values", 0.5):
            # parameters and limits of any magnitude, not just around one
            run.note("event:odd-values")
            with torch.no_grad():
                for q in net.parameters():
                    q.mul_([1., 0., 1e-4, 1e-9, 1e-42, 1e5, 1e30][
                        r.choice(7)])
            for key, v in want.items():
                if isinstance(v, torch.Tensor) and key != "R":
                    want[key] = v * [1., 1e-9, 1e12][r.choice(3)]
        X = torch.from_numpy(r.randn(5, dim)).to(dtype)
        new = dict(want=want, X=X, Y=net(X).detach(), dtype=dtype,
                   state=copy.deepcopy(net.state_dict()), opts=sd)
        fault = ch.pick("fault", [None] + FAULTS) if ch.flip(
            "faulty", 0.65) else None
        at = 1 + ch.choose("at", 7)
        out = attempt(run, d, save, fault, at)
        if out == "returned":
            allowed = [new]
        elif good is None:
            allowed = [None, new]
        else:
            allowed = [good, new]
        good = judge_model(run, path, allowed, out, fault)
        # the live network is not touched by saving it
        run.check(torch.equal(torch.nan_to_num(net(X)),
                              torch.nan_to_num(new["Y"])), "models:live-network",
                  "saving changed the network")
    run.nontrivial = True


def judge_model(run, path, allowed, out, fault):
    if not os.path.exists(path):
        run.check(None in allowed, "models:lost",
                  f"after a save that {out} ({fault}) there is no checkpoint")
        return None
    data = torch_load(path)
    run.check(isinstance(data, dict), "models:torn",
              lambda: f"after a save that {out} ({fault}) the checkpoint "
              f"cannot be loaded: {data!r}")
    for v in allowed:
        if v is not None and matches(data, v):
            return v
    run.check(False, "models:wrong-content",
              f"after a save that {out} ({fault}) the checkpoint holds "
              f"neither the new nor the previous model: {data}")


def matches(data, v):
    if not same(dict(data["state_dict"]), dict(v["state"])):
        return False
    for k, x in v["want"].items():
        if k not in data or not same(
                data[k].detach() if isinstance(data[k], torch.Tensor)
                else data[k], x):
            return False
    m = rebuilt(data, v["dtype"])
    if not torch.equal(torch.nan_to_num(m(v["X"]).detach()),
                       torch.nan_to_num(v["Y"])):
        return False
    o = v["opts"]
    if o is not None:
        # the parameters stored with R describe that R
        name = type(o).__name__
        if name == "SearchRwithSPDOptions":
            import neural_network_lyapunov.r_options as ro
            q = ro.SearchRwithSPDOptions(data["R_size"], data["R_epsilon"])
            q.set_variable_value_directly(
                np.asarray(torch.as_tensor(data["R_variables"]).detach()))
            return torch.equal(q.R().detach(), v["want"]["R"])
        if name == "SearchRwithSVDOptions":
            import neural_network_lyapunov.r_options as ro
            q = ro.SearchRwithSVDOptions(data["R_size"], data["R_a"])
            q.set_variable_value(np.asarray(data["R"].detach()))
            return bool(np.allclose(q.R().detach(), v["want"]["R"],
                                    atol=1e-9))
        if name == "SearchRfreeOptions":
            return tuple(data["R_size"]) == tuple(v["want"]["R"].shape)
    return True


# -- a training session that saves --------------------------------------------
def trainer(run):
    from neural_network_lyapunov import feedback_system
    ch = run.ch
    run.scenario = "trainer"
    S = SE.make(run, kinds=["relu_eq", "fb_relu", "hybrid", "fb_second"],
                methods="ia")
    d = disk(run)
    tr = S.t
    tr.save_network_path = d.root
    tr.save_network_iterations = 1 + ch.choose("every", 3)
    tr.max_iterations = 1 + ch.choose("iterations", 4)
    fb = isinstance(S.s.system, feedback_system.FeedbackSystem)
    groups = []  # one snapshot per distinct set of parameters being saved

    def now():
        return dict(lyapunov=copy.deepcopy(S.c.phi.state_dict()),
                    R=S.c.R_options.R().detach().clone(),
                    controller=copy.deepcopy(
                        S.p.controller.state_dict()) if fb else None)

    def on_op(kind, path):
        v = now()
        if not groups or not same(groups[-1], v):
            groups.append(v)
    d.on_op = on_op
    live = {}

    def run_it():
        try:
            tr.train(S.samples)
        except Exception as e:
            if SE.membership_roundoff(S, e) or "grad_fn" in str(e):
                # nothing to train; the saves before it still count
                run.note("op:stopped")
                return
            raise
    for rnd in range(1 + ch.choose("rounds", 2)):
        fault = ch.pick("fault", FAULTS) if ch.flip("faulty", 0.75) else None
        at = 1 + ch.choose("at", [8, 20, 45][ch.choose("span", 3)])
        del groups[:]
        out = attempt(run, d, run_it, fault, at)
        run.mark(len(groups))
        names = ["lyapunov", "R"] + (["controller"] if fb else [])
        for f in names:
            path = os.path.join(d.root, f + ".pt")
            if not os.path.exists(path):
                run.check(out != "returned" and f not in live,
                          "trainer:lost",
                          f"{f}.pt is missing after a session that {out} "
                          f"({fault})")
                continue
            data = torch_load(path)
            run.check(not isinstance(data, BaseException), "trainer:torn",
                      lambda: f"{f}.pt cannot be loaded after a session that "
                      f"{out} ({fault}): {data!r}")
            got = data.detach() if f == "R" else data.state_dict()
            got = copy.deepcopy(got if f == "R" else dict(got))
            seen = [g[f] if f == "R" else dict(g[f]) for g in groups]
            ok = [g for g in (live.get(f, []) + seen)[
                -1 if out == "returned" else -2:] if same(g, got)]
            run.check(ok, "trainer:wrong-content",
                      lambda: f"{f}.pt holds neither of the last two saved "
                      f"models after a session that {out} ({fault}): {got}")
            live[f] = [got]
    run.nontrivial = bool(groups)
    if not groups:
        run.check(False, "trainer:never-saved", "nothing was written")


# -- dynamics learners --------------------------------------------------------
def learner(run):
    ch = run.ch
    run.scenario = "learner"
    S = LN.make(run, freq=0 if ch.flip("samples_only", 0.7) else None,
                n_max=3)
    d = disk(run)
    path = os.path.join(d.root, ch.pick("dir", ["out", "a/b"]))
    le = S.learner
    versions, good = [], []
    had = False

    def on_op(kind, p):
        v = LN.params_of(le)
        if not versions or not LN.same(versions[-1], v):
            versions.append(v)
    d.on_op = on_op
    for rnd in range(1 + ch.choose("rounds", 3)):
        if ch.flip("train", 0.5):
            ep, rate = 1 + ch.choose("epochs", 3), ch.choose("rate", 3)

            def fn():
                le.train(ep, validate=False, save_rate=rate, save_path=path)
        else:
            r = ch.rngstate("step")
            with torch.no_grad():
                for m in LN.modules_of(le):
                    for q in m.parameters():
                        q.add_(torch.from_numpy(
                            np.asarray(r.randn(*q.shape)) * 0.1))

            def fn():
                le.save(path)
        fault = ch.pick("fault", FAULTS) if ch.flip("faulty", 0.65) else None
        at = 1 + ch.choose("at", [6, 12, 30][ch.choose("span", 3)])
        del versions[:]
        out = attempt(run, d, fn, fault, at)
        try:
            got = S.cls.load(path, S.train, S.val, S.opt)
        except FileNotFoundError:
            run.check(not had and out != "returned", "learner:lost",
                      f"no checkpoint after a save that {out} ({fault})")
            continue
        except Exception as e:
            run.check(False, "learner:torn",
                      f"the checkpoint cannot be loaded after a save that "
                      f"{out} ({fault}): {e!r}")
        had = True
        p = LN.params_of(got)
        if out == "returned":
            run.check(LN.same(p, LN.params_of(le)), "learner:wrong-content",
                      "after a save that returned, loading gives other "
                      "parameters than the live ones")
        else:
            run.check(any(LN.same(p, v)
                          for v in (good + versions)[-2:]),
                      "learner:wrong-content",
                      f"after a save that {out} ({fault}), loading gives "
                      "neither of the last two saved learners")
        good = [p]
        # the settings come back as well
        a, b = got.lyap, S.s
        run.check(torch.equal(a.system.x_equilibrium, b.system.x_equilibrium)
                  and np.array_equal(a.system.x_lo_all, b.system.x_lo_all)
                  and np.array_equal(a.system.x_up_all, b.system.x_up_all)
                  and a.network_bound_propagate_method ==
                  b.network_bound_propagate_method,
                  "learner:settings", "the loaded system differs")
        if S.dec_eq is not None:
            run.check(torch.equal(got.decoded_equilibrium, S.dec_eq),
                      "learner:settings", "decoded equilibrium differs")
        # it is as usable as the original one
        if out == "returned":
            X = B.t(ch.rngstate("x").uniform(S.p.x_lo, S.p.x_up,
                                             size=(3, S.p.dim)))
            run.check(torch.equal(
                torch.nan_to_num(a.system.step_forward(X)),
                torch.nan_to_num(b.system.step_forward(X))),
                "learner:dynamics", "the loaded dynamics differ")
    run.nontrivial = True


def scenario(run):
    k = run.ch.choose("family", 10)
    if k < 5:
        models(run)
    elif k < 7:
        trainer(run)
    else:
        learner(run)
