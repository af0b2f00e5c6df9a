"""C01: training reports convergence only with a proof.

Whole training sessions (both loops) against a solver service which may stop
early, stop on a callback, be interrupted, or return any optimum; every claimed
success is compared with an independent search for a violating state.
"""
import numpy as np

from dst import build as B
from dst import session as SS

ID = "C01"
LEVEL = "exploration"
RUNS = dict(quick=450, thorough=30000)
RULE = ("one case = one training session (system, candidate, options, samples, "
        "loop kind, 1-5 iterations) with the solver answers of every "
        "iteration; non-trivial when a verdict was returned and compared with "
        "the independent search; distinct by system, networks, options, "
        "number of iterations, statuses of the last verification and verdict")
REAL = ["train_lyapunov_barrier.py", "lyapunov.py", "feedback_system.py",
        "relu_system.py", "hybrid_linear_system.py", "r_options.py",
        "relu_to_optimization.py", "gurobi_torch_mip.py", "mip_utils.py",
        "utils.py", "torch optimizers and autograd"]
STUBS = ["gurobipy (simulated solver on HiGHS)", "wandb (disabled stub)"]
ASSUMPTIONS = [
    "the solver's own claims are right: OPTIMAL means optimal up to round-off,"
    " the objective bound is a bound",
    "the derivative condition is required of the states of the region whose "
    "successor stays in the region",
    "an exception raised after the solver failed to deliver is not a success "
    "report"]


def preload():
    import neural_network_lyapunov.train_lyapunov_barrier  # noqa


def faulty(run):
    return sum(v for k, v in run.counts.items()
               if k.startswith("fault:") or k in (
                   "event:terminated-by-callback",
                   "event:solution-limit"))


def scenario(run):
    from gurobipy import hooks, GRB
    ch = run.ch
    faults = ch.flip("faults", 0.7)
    S = SS.make(run, faults=faults)
    hooks.chooser = ch
    hooks.note_counts = run.counts
    pol = dict(tie_break=0.5, callback_incumbents=True, inf_or_unbd=0.)
    if faults:
        pol.update(interrupt=ch.pick("p.interrupt", [0., 0.1, 0.4]),
                   suboptimal=ch.pick("p.subopt", [0., 0.1, 0.4]),
                   limit=ch.pick("p.limit", [0.5, 0.1, 0.9]),
                   node_status=ch.pick("p.node", [0., 0.3]))
    hooks.policy = pol
    w = SS.Watch(S)
    tr = S.t
    run.scenario = "adversarial" if S.adversarial else "plain"
    rs = ch.rngstate("oracle")
    own_exception = None
    try:
        if S.adversarial:
            opt = SS.options(run)
            r = ch.rngstate("init")
            k = 1 + ch.choose("n_init", 4)
            ps = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(k, S.p.dim)))
            ds = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(k, S.p.dim)))
            ret = tr.train_adversarial(ps, ds, opt)
        else:
            ret = tr.train(S.samples)
    except Exception as e:
        if faulty(run) or SS.membership_roundoff(S, e) or \
                SS_infeasible(w):
            own_exception = e
        else:
            raise
    if own_exception is not None:
        run.note("probe:error-instead-of-verdict")
        run.event("error", type(own_exception).__name__)
        import traceback as tb_
        run.note("error:%s@%s" % (type(own_exception).__name__,
                                  tb_.extract_tb(own_exception.__traceback__)[-1].name))
        run.mark("error", type(own_exception).__name__)
        run.nontrivial = False
        return
    verdict = bool(ret[0])
    st = {k: v[0].gurobi_model.status for k, v in w.last.items()}
    run.mark("verdict", verdict, tuple(sorted(st.items())),
             dict(w.count)["positivity"])
    run.event("verdict", verdict, st)
    run.note("probe:verdict-" + str(verdict))
    pr, dr = SS.positivity_region(S), SS.derivative_region(S)
    # the states the solver reported for the live program are good hints
    if verdict:
        run.note("probe:success-checked")
        if any(s != GRB.OPTIMAL for s in st.values()):
            run.note("probe:success-without-optimal-status")
        for name, reg, tol in (
                ("positivity", pr, tr.lyapunov_positivity_convergence_tol),
                ("derivative", dr, tr.lyapunov_derivative_convergence_tol)):
            reg.points += hints(w, name)
            best, arg = reg.best(rs)
            run.check(best <= tol + 1e-5 * (1 + abs(tol)), name + ":false",
                      lambda: f"training reported success (last solver "
                      f"statuses {st}) but {name} is violated by {best} > "
                      f"{tol} at {arg}")
    if not S.adversarial:
        # returned objectives belong to the last verification
        for name, mk, obj in (("positivity", SS.positivity_region, ret[2]),
                              ("derivative", SS.derivative_region, ret[3])):
            milp, fz, xv = w.last[name]
            with fz:
                reg = mk(S)
                reg.points += hints(w, name)
                best, arg = reg.best(rs)
                tol = 1e-5 * (1 + abs(obj)) if np.isfinite(obj) else 0.
                run.check(best <= obj + tol, name + ":returned",
                          lambda: f"returned objective {obj} but the last "
                          f"verified function has {best} at {arg} (status "
                          f"{st[name]})")
                if st[name] == GRB.OPTIMAL:
                    ok = abs(obj - milp.gurobi_model.ObjVal) <= tol
                    run.check(ok, name + ":last",
                              lambda: f"returned {obj}, the last verification"
                              f" found {milp.gurobi_model.ObjVal}")


def SS_infeasible(w):
    """No state keeps its successor inside the region: nothing to solve."""
    from gurobipy import GRB
    return any(v[0].gurobi_model.status in (GRB.INFEASIBLE, GRB.INF_OR_UNBD)
               for v in w.last.values())


def hints(w, name):
    milp, _, xv = w.last[name]
    out = []
    try:
        out.append(np.array([v.x for v in xv]))
    except Exception:
        pass
    return out
