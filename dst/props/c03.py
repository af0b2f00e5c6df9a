"""C03: barrier verification programs are exact and honest.

Histories of verify-and-step rounds on barrier candidates, with a solver that
may answer any optimum, fill its pool as it likes, or stop early.
"""
import numpy as np
import torch

from dst import build as B
from dst.props.c02 import tol, succ_ok

ID = "C03"
LEVEL = "exploration"
RUNS = dict(quick=450, thorough=30000)
RULE = ("one case = one barrier candidate with safe/unsafe regions and one to "
        "three rounds of verification and gradient steps; non-trivial when at "
        "least one program was compared with the independent search; distinct "
        "by system, regions, options, pool sizes and solver statuses")
REAL = ["barrier.py", "train_lyapunov_barrier.py (barrier part)",
        "dynamic_system.py", "relu_system.py", "hybrid_linear_system.py",
        "feedback_system.py", "relu_to_optimization.py",
        "gurobi_torch_mip.py", "utils.box_boundary"]
STUBS = ["gurobipy (simulated solver on HiGHS)", "wandb (disabled stub)"]
ASSUMPTIONS = [
    "regions lie inside the system's box",
    "the derivative program ranges over the states of the box whose successor "
    "stays in the box",
    "the solver's own claims are right: OPTIMAL means optimal up to round-off,"
    " the objective bound is a bound",
    "an exception raised after the solver failed to deliver is no report"]


def preload():
    import neural_network_lyapunov.train_lyapunov_barrier  # noqa


class Candidate:
    """h(x) = phi(x) - phi(x*) + c"""
    def __init__(self, p, phi, xs, c, eps):
        self.p, self.phi, self.xs, self.c, self.eps = p, phi, xs, c, eps

    def h(self, o, x):
        L = B.layers_of(self.phi)
        return o.lin(np.eye(1), self.c - B.net_at(L, self.xs),
                     B.run_net(o, L, x))

    def value(self, safe):
        return lambda o, x: o.scale(-1. if safe else 1., self.h(o, x))

    def derivative(self, o, x):
        p = self.p
        xn = p.f(o, x)
        obj = o.add(o.scale(-1., self.h(o, xn)),
                    o.scale(1. - self.eps, self.h(o, x)))
        n = p.dim
        return obj, o.cat([o.lin(np.eye(n), -p.x_up, xn),
                           o.lin(-np.eye(n), p.x_lo, xn)])


class Reg:
    """A region as the library takes it, and as a union of polytopes."""
    def __init__(self, cnstr, parts, kind):
        self.cnstr, self.parts, self.kind = cnstr, parts, kind

    def holds(self, x, tol_=1e-6):
        for lo, up, A, b in self.parts:
            if np.all(x >= lo - tol_) and np.all(x <= up + tol_) and (
                    A is None or np.all(A @ x <= b + tol_ * 5)):
                return True
        return False

    def best(self, obj, points, rs):
        out = -np.inf, None
        for lo, up, A, b in self.parts:
            def prog(o, x):
                return obj(o, x), (None if A is None else o.lin(A, -b, x))
            r = B.Region(prog, lo, up, [np.clip(q, lo, up) for q in points]
                         ).best(rs, 500, 40)
            if r[0] > out[0]:
                out = r
        return out


def region(run, p, name):
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    import neural_network_lyapunov.utils as utils
    ch = run.ch
    n = p.dim
    r = ch.rngstate(name)
    kind = ch.pick(name + ".kind", ["box", "planes", "boundary", "union",
                                    "all", "equality"])
    run.note("region:" + kind)
    a = r.uniform(p.x_lo, p.x_up, size=(2, n))
    lo, up = a.min(0), a.max(0)
    if ch.flip(name + ".edge", 0.3):
        j = ch.choose(name + ".edge_j", n)
        lo[j] = p.x_lo[j]
    if kind == "all":
        lo, up = p.x_lo.copy(), p.x_up.copy()
    c = gtm.MixedIntegerConstraintsReturn()
    eye = np.eye(n)
    if kind in ("box", "all"):
        c.Ain_input = B.t(np.vstack([eye, -eye]))
        c.rhs_in = B.t(np.concatenate([up, -lo]))
        return Reg(c, [(lo, up, None, None)], kind)
    if kind == "equality":
        a0 = r.randn(1, n)
        b0 = a0 @ r.uniform(lo, up)
        c.Ain_input = B.t(np.vstack([eye, -eye]))
        c.rhs_in = B.t(np.concatenate([up, -lo]))
        c.Aeq_input = B.t(a0)
        c.rhs_eq = B.t(b0)
        return Reg(c, [(lo, up, np.vstack([a0, -a0]),
                        np.concatenate([b0, -b0]))], kind)
    if kind == "planes":
        k = 1 + ch.choose(name + ".planes", 2)
        A = r.randn(k, n)
        inner = r.uniform(lo, up)
        b = A @ inner + r.uniform(0., 0.3, size=k)
        c.Ain_input = B.t(np.vstack([eye, -eye, A]))
        c.rhs_in = B.t(np.concatenate([up, -lo, b]))
        return Reg(c, [(lo, up, A, b)], kind)
    if kind == "boundary":
        if ch.flip(name + ".whole", 0.5):
            lo, up = p.x_lo.copy(), p.x_up.copy()
        parts = []
        for j in range(n):
            for v in (lo[j], up[j]):
                l2, u2 = lo.copy(), up.copy()
                l2[j] = u2[j] = v
                parts.append((l2, u2, None, None))
        return Reg(utils.box_boundary(B.t(lo), B.t(up)), parts, kind)
    # union of two boxes: x <= u_k + M (1 - b_k), b_1 + b_2 = 1
    a2 = r.uniform(p.x_lo, p.x_up, size=(2, n))
    lo2, up2 = a2.min(0), a2.max(0)
    M = (p.x_up - p.x_lo) + 1.
    Ai, Ab, rhs = [], [], []
    for k, (l_, u_) in enumerate(((lo, up), (lo2, up2))):
        e = np.zeros((n, 2))
        e[:, k] = M
        Ai += [eye, -eye]
        Ab += [e, e]
        rhs += [u_ + M, M - l_]
    c.Ain_input = B.t(np.vstack(Ai))
    c.Ain_binary = B.t(np.vstack(Ab))
    c.rhs_in = B.t(np.concatenate(rhs))
    c.Aeq_binary = B.t(np.ones((1, 2)))
    c.rhs_eq = B.t(np.ones(1))
    return Reg(c, [(lo, up, None, None), (lo2, up2, None, None)], kind)


def faulty(run):
    return sum(v for k, v in run.counts.items() if k.startswith("fault:"))


class Watch:
    """Programs built, at the seam between trainer and barrier."""
    def __init__(self, bar):
        self.built = []
        for name in ("value_as_milp", "derivative_as_milp"):
            self._wrap(bar, name)

    def _wrap(self, bar, name):
        orig = getattr(bar, name)

        def wrapped(*a, **k):
            ret = orig(*a, **k)
            self.built.append((ret.milp, ret.x) if hasattr(ret, "milp")
                              else ret)
            return ret
        setattr(bar, name, wrapped)

    def take(self):
        b, self.built = self.built, []
        return b


def reported(milp, xv):
    pool = milp.gurobi_model._result.pool
    return [np.array([y[v._col] for v in xv]) for y, _ in pool], \
        [o for _, o in pool]


def scenario(run):
    import neural_network_lyapunov.barrier as barrier
    import neural_network_lyapunov.train_lyapunov_barrier as tlb
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    from gurobipy import hooks, GRB
    ch = run.ch
    faults = ch.flip("faults", 0.35)
    method = M.IA if ch.flip("ia", 0.7) else None
    p = B.plant(run, None, max_width=3, method=method)
    run.note("plant:" + p.kind)
    phi = B.net(run, "phi", p.dim, 1, max_hidden=2, max_width=3)
    bar = barrier.DiscreteTimeBarrier(p.system, phi)
    if method is None:
        bar.network_bound_propagate_method = B._method(run, "bar.method")
    rx = ch.rngstate("x_star")
    xs = rx.uniform(p.x_lo, p.x_up)
    c = float([0.1, 1., 0.01, 5.][ch.choose("c", 4)])
    eps = float([0.1, 0.9, 0., 1., 1.5][ch.choose("eps", 5)])
    cand = Candidate(p, phi, xs, c, eps)
    tr = tlb.Trainer()
    tr.add_barrier(bar, B.t(xs), c, eps)
    safe = [region(run, p, "safe%d" % i)
            for i in range(ch.choose("n_safe", 3))]
    unsafe = [region(run, p, "unsafe%d" % i)
              for i in range(ch.choose("n_unsafe", 3))]
    tr.safe_regions = [r.cnstr for r in safe]
    tr.unsafe_regions = [r.cnstr for r in unsafe]
    tr.barrier_value_mip_pool_solutions = 1 + ch.choose("pool.v", 5)
    tr.barrier_derivative_mip_pool_solutions = 1 + ch.choose("pool.d", 5)
    tr.add_adversarial_state_only = not ch.flip("add_all", 0.4)
    tr.max_sample_pool_size = [500, 3, 8][ch.choose("max_pool", 3)]
    tr.sample_loss_reduction = ch.pick("reduction", ["mean", "max", "4norm"])
    if faults and ch.flip("time_limit", 0.5):
        tr.barrier_derivative_mip_params = {
            GRB.Param.OutputFlag: False, GRB.Param.TimeLimit: 10.}
    hooks.chooser = ch
    hooks.note_counts = run.counts
    pol = dict(tie_break=0.4, callback_incumbents=True, inf_or_unbd=0.)
    if faults:
        pol.update(interrupt=ch.pick("p.int", [0.2, 0.05, 0.5]),
                   limit=ch.pick("p.lim", [0.3, 0.8]),
                   suboptimal=ch.pick("p.sub", [0.1, 0.4]))
    hooks.policy = pol
    rs = ch.rngstate("oracle")
    w = Watch(bar)
    run.sample = dict(plant=p.kind, dim=p.dim, c=c, eps=eps,
                      safe=[r.kind for r in safe],
                      unsafe=[r.kind for r in unsafe])
    run.mark(p.kind, p.dim, c, eps, tuple(r.kind for r in safe),
             tuple(r.kind for r in unsafe))
    run.scenario = "losses" if ch.flip("losses", 0.5) else "programs"
    rounds = 1 + ch.choose("rounds", 3)
    params = [q for m in [phi] + p.nets for q in m.parameters()
              if q.requires_grad]
    opt = torch.optim.SGD(params, lr=[0.01, 0.1][ch.choose("lr", 2)])
    r = ch.rngstate("samples")
    n0 = [3, 0, 1, 6][ch.choose("n_samples", 4)]
    pools = [B.t(r.uniform(p.x_lo, p.x_up, size=(n0, p.dim)))
             for _ in range(3)]
    for _ in range(rounds):
        try:
            if run.scenario == "programs":
                programs(run, p, cand, tr, w, safe, unsafe, rs)
                x = B.t(r.uniform(p.x_lo, p.x_up, size=(4, p.dim)))
                library_values(run, cand, bar, x, B.t(xs))
                loss = bar.value(x, B.t(xs), c).sum()
            else:
                pools, loss = losses(run, p, cand, tr, w, safe, unsafe,
                                     pools, rs)
        except Exception as e:
            from dst.core import Violation
            if isinstance(e, Violation):
                raise
            from dst.session import membership_roundoff

            class S_:
                pass
            S_.p = p
            empty = any(m.gurobi_model.status in (
                GRB.INFEASIBLE, GRB.INF_OR_UNBD) for m, _ in w.built)
            if faulty(run) or empty or membership_roundoff(S_, e):
                run.note("probe:error-after-fault")
                run.mark("error", type(e).__name__)
                run.nontrivial = run.counts.get("programs", 0) > 0
                return
            raise
        # a training step between two verifications
        if loss.requires_grad:
            opt.zero_grad()
            loss.backward()
            torch.nn.utils.clip_grad_norm_(params, 1.)
            opt.step()
            run.note("event:gradient-step")


def library_values(run, cand, bar, x, xs):
    got = bar.value(x, xs, cand.c).detach().numpy()
    want = cand.h(B.Val, x.numpy())[:, 0]
    run.check(np.allclose(got, want, rtol=1e-9, atol=1e-9), "value",
              lambda: f"h = {got}, expected {want}")
    if cand.p.kind in ("hybrid", "fb_hybrid"):
        return
    got = bar.derivative(x, xs, cand.c, cand.eps).detach().numpy()
    o, _ = cand.derivative(B.Val, x.numpy())
    run.check(np.allclose(got, o[:, 0], rtol=1e-8, atol=1e-8),
              "derivative-value", lambda: f"{got}, expected {o[:, 0]}")


def judge(run, cand, name, milp, xv, obj, objfn, reg, rs):
    """One solved program and the objective value the library reports."""
    from gurobipy import GRB
    st = milp.gurobi_model.status
    run.mark(name, st)
    xs, objs = reported(milp, xv)
    if name == "derivative":
        R = B.Region(cand.derivative, cand.p.x_lo, cand.p.x_up,
                     [cand.xs] + xs)
        best, arg = R.best(rs, 800, 50)
    else:
        best, arg = reg.best(objfn, xs, rs)
    run.note("programs")
    if st in (GRB.INFEASIBLE, GRB.INF_OR_UNBD):
        run.note("probe:infeasible-program")
        if name == "derivative" and arg is not None and best > -np.inf:
            o, g = cand.derivative(B.Val, np.asarray(arg)[None])
            run.check(float(np.max(g)) > -1e-6, name + ":infeasible",
                      lambda: f"infeasible, but {arg} is a state with {best}")
        if name != "derivative":
            run.check(False, name + ":infeasible",
                      "the region is not empty, yet nothing was found")
        return
    run.event(name, st, round(float(obj), 7) if np.isfinite(obj) else obj)
    # never less violation than really exists, whatever the solver did
    run.check(best <= obj + tol(best, obj), name + ":missed",
              lambda: f"reported {obj} (solver status {st}) but {arg} attains "
              f"{best}")
    if st != GRB.OPTIMAL:
        run.note("probe:early-stop-judged")
        return
    x = xs[0]
    if name == "derivative":
        got = R.attained(np.clip(x, cand.p.x_lo, cand.p.x_up), 2e-6)
    else:
        run.check(reg.holds(x), name + ":region",
                  lambda: f"{x} is not in the {reg.kind} region")
        got = B.Region(lambda o, v: (objfn(o, v), None), cand.p.x_lo,
                       cand.p.x_up).attained(
            np.clip(x, cand.p.x_lo, cand.p.x_up), 2e-6)
    ok = any(abs(v - obj) <= 5 * tol(v, obj) and g <= 1e-5 for v, g in got)
    run.check(ok or not got, name + ":attained",
              lambda: f"reported {obj} at {x}, direct evaluation {got[:4]}")


def states(run, cand, name, milp, xv, adv, limit, only_violating, reg):
    xs, objs = reported(milp, xv)
    want = [k for k in range(min(limit, len(xs)))
            if not only_violating or objs[k] > 0]
    run.note("probe:pool-size-%d" % min(len(xs), 6))
    if not want:
        run.note("probe:no-counterexample")
    run.mark(name, len(xs), len(want))
    run.check(tuple(adv.shape) == (len(want), cand.p.dim), name + ":count",
              lambda: f"{tuple(adv.shape)} states, the pool {objs} calls for "
              f"{len(want)}")
    a = adv.detach().numpy()
    for i, k in enumerate(want):
        run.check(float(np.max(np.abs(a[i] - xs[k]))) <= 1e-9,
                  name + ":position", lambda: f"entry {i} is {a[i]}, the "
                  f"solver's pool member {k} is {xs[k]}")
        inside = np.all(a[i] >= cand.p.x_lo - 1e-6) and np.all(
            a[i] <= cand.p.x_up + 1e-6)
        run.check(bool(inside) and (reg is None or reg.holds(a[i])),
                  name + ":region", lambda: f"{a[i]} is outside the region")


def solve_and_judge(run, p, cand, tr, w, safe, unsafe, rs, safe_ret,
                    unsafe_ret, der_ret, built):
    i = 0
    for ret, regs, flag, name in ((safe_ret, safe, True, "safe"),
                                  (unsafe_ret, unsafe, False, "unsafe")):
        if ret is None:
            continue
        objs, advs = ret
        run.check(len(objs) == len(regs) and
                  (advs is None or len(advs) == len(regs)), name + ":regions",
                  f"{len(objs)} results for {len(regs)} regions")
        for k, reg in enumerate(regs):
            milp, xv = built[i]
            i += 1
            judge(run, cand, name, milp, xv, objs[k], cand.value(flag), reg,
                  rs)
            if advs is not None:
                states(run, cand, name, milp, xv, advs[k],
                       tr.barrier_value_mip_pool_solutions, False, reg)
    if der_ret is not None:
        milp, xv = built[i]
        judge(run, cand, "derivative", milp, xv, der_ret[0], None, None, rs)
        if der_ret[1] is not None:
            states(run, cand, "derivative", milp, xv, der_ret[1],
                   tr.barrier_derivative_mip_pool_solutions,
                   tr.add_adversarial_state_only, None)


def programs(run, p, cand, tr, w, safe, unsafe, rs):
    w.take()
    m1 = tr.solve_barrier_value_mip(True)
    m2 = tr.solve_barrier_value_mip(False)
    m3 = tr.solve_barrier_derivative_mip()
    solve_and_judge(run, p, cand, tr, w, safe, unsafe, rs, m1[1:], m2[1:],
                    m3[1:], w.take())


def reduce_(v, how):
    from dst.session import reduce_ as f
    return f(v, how)


def hinge_loss(weight, v, how):
    if weight == 0 or len(v) == 0:
        return 0.
    return weight * reduce_(np.maximum(v, 0.), how)


def losses(run, p, cand, tr, w, safe, unsafe, pools, rs):
    from gurobipy import GRB
    ch = run.ch
    sw = [[1., 0.3, 0.][ch.choose("sw", 3)] for _ in range(3)]
    mw = [[1., 0., None, 2.5][ch.choose("mw", 4)] for _ in range(3)]
    w.take()
    L = tr.compute_barrier_loss(*pools, *sw, *mw)
    built = w.take()
    n = len(safe) * (mw[0] is not None) + len(unsafe) * (
        mw[1] is not None) + (mw[2] is not None)
    run.check(len(built) == n, "losses:programs",
              f"{len(built)} programs solved, {n} were asked for")
    solve_and_judge(
        run, p, cand, tr, w, safe, unsafe, rs,
        (L.safe_mip_obj, None) if mw[0] is not None else None,
        (L.unsafe_mip_obj, None) if mw[1] is not None else None,
        (L.derivative_mip_obj, None) if mw[2] is not None else None, built)
    # pools grow by the counterexamples, in order
    i = 0
    after = []
    total = torch.tensor(0., dtype=torch.float64)
    for name, regs, k in (("safe", safe, 0), ("unsafe", unsafe, 1)):
        got = getattr(L, name + "_state_samples")
        mine = built[i:i + len(regs)] if mw[k] is not None else []
        i += len(mine)
        want = pools[k].detach().numpy()
        for milp, xv in mine:
            xs, _ = reported(milp, xv)
            xs = xs[:tr.barrier_value_mip_pool_solutions]
            if xs:
                want = np.concatenate([want, np.array(xs)])
        close(run, got, want, name)
        after.append(want)
        if mw[k]:
            ml = getattr(L, name + "_mip_loss")
            for (milp, xv), v in zip(mine, ml):
                if milp.gurobi_model.status == GRB.OPTIMAL:
                    o = mw[k] * milp.gurobi_model.ObjVal
                    run.check(abs(float(v) - o) <= 1e-6 * (1 + abs(o)),
                              name + ":mip-loss",
                              lambda: f"{float(v)}, expected {o}")
                total = total + v
    got = L.derivative_state_samples
    want = pools[2].detach().numpy()
    if mw[2] is not None:
        milp, xv = built[i]
        xs, objs = reported(milp, xv)
        xs = [x for x, o in list(zip(xs, objs))[
            :tr.barrier_derivative_mip_pool_solutions]
            if o > 0 or not tr.add_adversarial_state_only]
        if xs:
            want = np.concatenate([want, np.array(xs)])
        if mw[2] != 0:
            if milp.gurobi_model.status == GRB.OPTIMAL:
                o = mw[2] * milp.gurobi_model.ObjVal
                v = float(L.derivative_mip_loss)
                run.check(abs(v - o) <= 1e-6 * (1 + abs(o)),
                          "derivative:mip-loss", lambda: f"{v}, expected {o}")
            total = total + L.derivative_mip_loss
    close(run, got, want, "derivative")
    after.append(want)
    # sample losses use the most recent states
    N = tr.max_sample_pool_size
    S_, U_, D_ = [a[max(0, len(a) - N):] for a in after]
    how = tr.sample_loss_reduction
    ref = [hinge_loss(sw[0], -cand.h(B.Val, S_)[:, 0], how),
           hinge_loss(sw[1], cand.h(B.Val, U_)[:, 0], how),
           hinge_loss(sw[2], cand.derivative(B.Val, D_)[0][:, 0], how)
           if p.kind not in ("hybrid", "fb_hybrid") else None]
    for nm, v, q in zip(("safe", "unsafe", "derivative"),
                        (L.safe_sample_loss, L.unsafe_sample_loss,
                         L.derivative_sample_loss), ref):
        if q is not None:
            run.check(abs(float(v) - q) <= 1e-7 * (1 + abs(q)),
                      nm + ":sample-loss",
                      lambda: f"{float(v)}, expected {q}")
        total = total + v
    return [B.t(a) for a in after], total


def close(run, got, want, name):
    g = got.detach().numpy()
    ok = g.shape == want.shape and (
        g.size == 0 or float(np.max(np.abs(g - want))) <= 1e-9)
    run.check(ok, name + ":pool", lambda: f"{g} expected {want}")


assert succ_ok
