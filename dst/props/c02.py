"""C02: the Lyapunov verification programs against exact cell-by-cell search.

The solver is the environment: it may return any optimal vertex, start from a
warm start, and bound propagation may use any method (each of which is itself a
sequence of solver calls).
"""
import numpy as np
import torch

from dst import build as B

ID = "C02"
LEVEL = "exploration"
RUNS = dict(quick=400, thorough=40000)
RULE = ("one case = one closed-loop system, Lyapunov candidate, R, condition "
        "and bound-propagation methods, with the program solved by the "
        "simulated solver (any optimal vertex, warm starts); non-trivial when "
        "the optimum was compared with the independent search; distinct by "
        "system kind, dimensions, networks, methods, condition")
REAL = ["lyapunov.py", "continuous_time_lyapunov.py", "relu_system.py",
        "hybrid_linear_system.py", "feedback_system.py",
        "relu_to_optimization.py", "gurobi_torch_mip.py", "mip_utils.py",
        "utils.py", "train_lyapunov_barrier.py (solve_*_mip)"]
STUBS = ["gurobipy (simulated solver on HiGHS)"]
ASSUMPTIONS = [
    "a status of OPTIMAL means optimal up to round-off",
    "the derivative program ranges over the states of the region whose "
    "successor stays in the region (as the code documents for its networks)",
    "at a kink or mode boundary any of the adjacent affine pieces may be used"]


def preload():
    import neural_network_lyapunov.train_lyapunov_barrier  # noqa


def policy(run):
    from gurobipy import hooks
    hooks.chooser = run.ch
    hooks.note_counts = run.counts
    hooks.policy = dict(tie_break=0.5, callback_incumbents=True,
                        inf_or_unbd=0.)
    return hooks


def tol(*vals):
    return 1e-5 * (1. + max(abs(v) for v in vals if np.isfinite(v)))


def judge(run, region, name, status, obj, x, rs, x_box=True, tol_x=1e-6):
    """The program's answer against the independent search."""
    from gurobipy import GRB
    run.check(status in (GRB.OPTIMAL, GRB.INFEASIBLE), name + ":status",
              f"status {status} without any fault injected")
    if x is not None:
        region.points.append(np.asarray(x))
    best, arg = region.best(rs)
    run.note("cells", region.cells)
    if status == GRB.INFEASIBLE:
        run.event(name, "infeasible")
        run.note("probe:infeasible-program")
        if best > -np.inf and arg is not None:
            # strictly feasible?
            o, g = region.prog(B.Val, np.asarray(arg)[None])
            slack = np.inf if g is None else -float(np.max(g))
            run.check(slack < 1e-6, name + ":infeasible",
                      lambda: f"the program is infeasible but {arg} is a "
                      f"state of the region with objective {best}")
        return
    run.event(name, round(obj, 7))
    xs = np.asarray(x, dtype=float)
    run.check(bool(np.all(xs >= region.lo - tol_x)
                   and np.all(xs <= region.up + tol_x)), name + ":region",
              lambda: f"maximiser {xs} outside [{region.lo}, {region.up}]")
    run.check(best <= obj + tol(best, obj), name + ":missed",
              lambda: f"optimum {obj} but state {arg} attains {best} "
              f"(difference {best - obj})")
    got = region.attained(np.clip(xs, region.lo, region.up), 2e-6)
    ok = any(abs(v - obj) <= tol(v, obj) * 5 and g <= 1e-5 for v, g in got)
    run.check(ok or not got, name + ":attained",
              lambda: f"reported {obj} at {xs} where direct evaluation gives "
              f"{got[:4]}")
    if not got:
        run.note("probe:unjudged-point")


def scenario(run):
    ch = run.ch
    policy(run)
    which = ch.choose("program", 10)
    rs = ch.rngstate("oracle")
    if which >= 7:
        return continuous(run, rs)
    examples = ["fb_ex_unicycle", "fb_ex_unicycle0", "fb_ex_car"]
    p = B.plant(run, kinds=examples if ch.flip("examples", .08) else None,
                max_width=3)
    run.note("plant:" + p.kind)
    c = B.candidate(run, p, max_width=3)
    sys_ = B.lyap_system(p, c, run=run)
    run.mark("methods", str(sys_.network_bound_propagate_method),
             str(getattr(p.system, "network_bound_propagate_method", "")))
    ws = None
    if ch.flip("warmstart", 0.3):
        r = ch.rngstate("warm")
        ws = B.t(r.uniform(p.x_lo, p.x_up))
        run.note("event:warm-start")
    run.sample = dict(plant=p.kind, dim=p.dim, x_lo=p.x_lo.tolist(),
                      x_up=p.x_up.tolist())
    from gurobipy import GRB
    if which <= 1:
        run.scenario = "positivity"
        eps = [0.01, 0.1, 0.5, 0.0][ch.choose("eps", 4)]
        eps = float(eps)
        milp, xv = sys_.lyapunov_positivity_as_milp(
            p.x_eq_t, float(c.lam), eps, R=c.R_t, x_warmstart=ws)
        milp.gurobi_model.setParam(GRB.Param.OutputFlag, False)
        milp.gurobi_model.optimize()
        st = milp.gurobi_model.status
        run.mark("eps", eps)
        judge(run, B.Region(c.positivity(eps), p.x_lo, p.x_up, [p.x_eq]),
              "positivity", st,
              milp.gurobi_model.ObjVal if st == GRB.OPTIMAL else None,
              [v.x for v in xv] if st == GRB.OPTIMAL else None, rs)
        run.check(st == GRB.OPTIMAL, "positivity:infeasible", "infeasible")
        return
    if which == 2:
        run.scenario = "boundary"
        return boundary(run, p, c, sys_, rs)
    run.scenario = "derivative"
    import neural_network_lyapunov.lyapunov as ly
    kind = ch.pick("eps_type", ["ExpLower", "ExpUpper", "Asymp"])
    eps = float([0.01, 0.1, 0.9, 0.0, 1.5][ch.choose("eps", 5)])
    vlo = vup = None
    if ch.flip("V_bounds", 0.25):
        r = ch.rngstate("vb")
        vals = c.V(B.Val, r.uniform(p.x_lo, p.x_up, size=(30, p.dim)))[:, 0]
        q = np.sort(r.choice(vals, 2))
        if ch.flip("V_lower", 0.5):
            vlo = float(q[0])
        if ch.flip("V_upper", 0.7):
            vup = float(q[1])
        run.mark("vb", vlo is None, vup is None)
    run.mark("eps", kind, eps)
    ret = sys_.lyapunov_derivative_as_milp(
        p.x_eq_t, float(c.lam), eps, getattr(ly.ConvergenceEps, kind),
        R=c.R_t, lyapunov_lower=vlo, lyapunov_upper=vup, x_warmstart=ws)
    m = ret.milp.gurobi_model
    m.setParam(GRB.Param.OutputFlag, False)
    m.optimize()
    st = m.status
    reg = B.Region(c.derivative(eps, kind, vlo, vup), p.x_lo, p.x_up,
                   [p.x_eq])
    judge(run, reg, "derivative", st, m.ObjVal if st == GRB.OPTIMAL else None,
          [v.x for v in ret.x] if st == GRB.OPTIMAL else None, rs)
    if st == GRB.OPTIMAL:
        x = np.array([v.x for v in ret.x])
        xn = np.array([v.x for v in ret.x_next])
        ok = succ_ok(p, x, xn)
        run.check(ok, "derivative:successor",
                  lambda: f"x_next {xn} is not the successor of {x}")
        # the same state through the library's own evaluation
        inside = np.clip(x, p.x_lo, p.x_up)
        if kind == "ExpLower" and vlo is None and vup is None:
            vals = [float(v) for v in sys_.lyapunov_derivative(
                torch.from_numpy(inside), p.x_eq_t, float(c.lam), eps,
                R=c.R_t)]
            if p.kind in ("hybrid", "fb_hybrid"):
                pass  # a mode boundary belongs to several modes
            else:
                run.check(any(abs(v - m.ObjVal) <= 5 * tol(v) for v in vals),
                          "derivative:library-evaluation",
                          lambda: f"{vals} vs {m.ObjVal}")


def succ_ok(p, x, xn, tolx=1e-5):
    for ops, v in B.all_pieces(p.f, np.clip(x, p.x_lo, p.x_up), 2e-6):
        if np.all(np.abs(v[0] @ x + v[1] - xn) <= tolx * (
                1 + np.abs(xn))):
            return True
    return False


def boundary(run, p, c, sys_, rs):
    import neural_network_lyapunov.train_lyapunov_barrier as tlb
    from gurobipy import GRB
    ch = run.ch
    tr = tlb.Trainer()
    from neural_network_lyapunov import r_options
    R = c.R
    tr.add_lyapunov(sys_, float(c.lam), p.x_eq_t,
                    r_options.FixedROptions(B.t(R)))
    gap, vmin, vmax, x_min, x_max = tr.solve_boundary_gap_mip()
    lo, up = [], []
    # every face of the box, exactly
    best_min, best_max = np.inf, -np.inf
    arg_min = arg_max = None
    for j in range(p.dim):
        for v in (p.x_lo[j], p.x_up[j]):
            lo, up = p.x_lo.copy(), p.x_up.copy()
            lo[j] = up[j] = v
            a, xa = B.Region(lambda o, x: (c.V(o, x), None), lo, up).best(
                rs, 400, 40)
            b, xb = B.Region(lambda o, x: (o.scale(-1., c.V(o, x)), None),
                             lo, up).best(rs, 400, 40)
            if a > best_max:
                best_max, arg_max = a, xa
            if -b < best_min:
                best_min, arg_min = -b, xb
    run.event("gap", round(float(gap), 7))
    run.check(best_max <= vmax + tol(vmax), "boundary:max-missed",
              lambda: f"max {vmax} but {arg_max} on the boundary has "
              f"{best_max}")
    run.check(best_min >= vmin - tol(vmin), "boundary:min-missed",
              lambda: f"min {vmin} but {arg_min} on the boundary has "
              f"{best_min}")
    for x, v, nm in ((x_min, vmin, "min"), (x_max, vmax, "max")):
        x = np.asarray(x.detach().numpy() if torch.is_tensor(x) else x)
        on = np.any(np.minimum(np.abs(x - p.x_lo),
                               np.abs(x - p.x_up)) < 1e-6)
        inb = np.all(x >= p.x_lo - 1e-6) and np.all(x <= p.x_up + 1e-6)
        run.check(bool(on and inb), "boundary:" + nm + "-region",
                  lambda: f"{nm} state {x} is not on the boundary")
        w = float(c.V(B.Val, x[None])[0, 0])
        run.check(abs(w - v) <= 5 * tol(w, v), "boundary:" + nm + "-value",
                  lambda: f"V({x}) = {w}, program says {v}")
    run.check(abs(float(gap) - (vmax - vmin)) <= 1e-6 * (1 + abs(vmax)),
              "boundary:gap", lambda: f"{gap} != {vmax} - {vmin}")
    assert GRB
    assert ch


def continuous(run, rs):
    """V-dot programs."""
    import neural_network_lyapunov.continuous_time_lyapunov as ctl
    import neural_network_lyapunov.lyapunov as ly
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    from gurobipy import GRB
    ch = run.ch
    run.scenario = "continuous"
    hyb = ch.flip("ct.hybrid", 0.5)
    if hyb:
        p = B.plant(run, ["hybrid"], continuous=True, max_width=3)
    else:
        # the examples' continuous-time plants under a controller now and then
        ex = ch.flip("ct.examples", .3)
        p = B.plant(run, B.EXAMPLES_CONT if ex else [
            "relu", "relu_eq", "residual_eq"], continuous=True, max_width=3,
            method=M.IA)
    run.note("plant:ct-" + p.kind)
    c = B.candidate(run, p, max_width=3)
    cls = ctl.LyapunovContinuousTimeHybridSystem if hyb else \
        ctl.LyapunovContinuousTimeSystem
    if hyb:
        c._R = None
    sys_ = cls(p.system, c.phi)
    if not hyb and ch.flip("ct.optimised", 0.4):
        m = ch.pick("ct.method", [M.LP, M.MIP])
        sys_.network_bound_propagate_method = m
        p.system.network_bound_propagate_method = m
        if hasattr(p, "forward"):
            p.forward.network_bound_propagate_method = m
            p.system.controller_network_bound_propagate_method = m
    eps = float([0.01, 0.1, 0.9, 0.0][ch.choose("eps", 4)])
    vlo = vup = None
    if ch.flip("ct.V_bounds", 0.35):
        r = ch.rngstate("vb")
        vals = c.V(B.Val, r.uniform(p.x_lo, p.x_up, size=(30, p.dim)))[:, 0]
        q = np.sort(r.choice(vals, 2))
        if ch.flip("V_lower", 0.5):
            vlo = float(q[0])
        if ch.flip("V_upper", 0.7):
            vup = float(q[1])
    run.mark("ctvb", vlo is None, vup is None)
    run.mark("ct", hyb, eps, str(sys_.network_bound_propagate_method))
    args = (p.x_eq_t, float(c.lam), eps, ly.ConvergenceEps.ExpLower)
    v2 = hyb and ch.flip("ct.second_form", 0.5)
    if v2:
        ret = sys_.lyapunov_derivative_as_milp2(
            *args, R=c.R_t, lyapunov_lower=vlo, lyapunov_upper=vup)
        milp, xv = ret[0], ret[1]
    else:
        ret = sys_.lyapunov_derivative_as_milp(
            *args, R=c.R_t, lyapunov_lower=vlo, lyapunov_upper=vup)
        milp, xv = (ret.milp, ret.x) if hasattr(ret, "milp") else ret[:2]
    milp.gurobi_model.setParam(GRB.Param.OutputFlag, False)
    milp.gurobi_model.optimize()
    st = milp.gurobi_model.status

    def prog(o, x):
        V = c.V(o, x)
        g_rows = []
        if vlo is not None:
            g_rows.append(o.lin(np.array([[-1.]]), np.array([vlo]), V))
        if vup is not None:
            g_rows.append(o.lin(np.array([[1.]]), np.array([-vup]), V))
        ineq = o.cat(g_rows) if g_rows else None
        if o is B.Val:
            return vdot_val(p, c, eps, x), ineq
        xd = p.f(o, x)
        g = V[0][0]
        return (np.array([g @ xd[0]]) + eps * V[0],
                np.array([g @ xd[1]]) + eps * V[1]), ineq

    # the library's own evaluation, at states of general position
    r = ch.rngstate("ct.eval")
    X = r.uniform(p.x_lo, p.x_up, size=(4, p.dim))
    want = vdot_val(p, c, eps, X)[:, 0]
    for x, w in zip(X, want):
        if not np.isfinite(w):
            continue
        if hyb and p.dim == 1:
            break  # the library's evaluation does not do scalar states
        got = sys_.lyapunov_derivative(
            torch.from_numpy(x), p.x_eq_t, float(c.lam), eps,
            R=None if hyb else B.t(c.R))
        got = [float(v) for v in
               (got.reshape(-1) if torch.is_tensor(got) else got)]
        run.check(any(abs(v - w) <= tol(w) for v in got),
                  "continuous:library-evaluation",
                  lambda: f"lyapunov_derivative({x}) = {got}, directly {w}")
        run.note("evaluations")
    reg = B.Region(prog, p.x_lo, p.x_up, [p.x_eq], interior=True)
    judge(run, reg, "continuous" + ("2" if v2 else ""), st,
          milp.gurobi_model.ObjVal if st == GRB.OPTIMAL else None,
          [v.x for v in xv] if st == GRB.OPTIMAL else None, rs)


def vdot_val(p, c, eps, X):
    out = np.empty((len(X), 1))
    V = c.V(B.Val, X)[:, 0]
    xd = p.f(B.Val, X)
    L = B.layers_of(c.phi)
    R = c.R
    for i, x in enumerate(X):
        o = B.Aff(x)
        v = c.V(o, o.var())
        out[i, 0] = v[0][0] @ xd[i] + eps * V[i]
    assert L and R is not None
    return out
