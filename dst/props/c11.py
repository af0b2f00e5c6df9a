"""C11: strengthening cuts and binary fixing never change the answer.

The same verification program is built plainly and strengthened -- cuts at
whatever relaxation solutions the simulated solver reports, cuts at chosen
points, binaries tied together after auxiliary solves that may stop early --
and both are solved exactly; single cuts are evaluated at every vertex of the
neuron's input box.
"""
import itertools

import numpy as np
import torch

from dst import build as B

ID = "C11"
LEVEL = "exploration"
RUNS = dict(quick=700, thorough=60000)
RULE = ("one case = one neuron with its cuts, one network program with cuts "
        "at several points, or one derivative program strengthened under the "
        "solver's answers; non-trivial when at least one cut or tie was added "
        "and judged; distinct by networks' shapes, methods, statuses of the "
        "auxiliary solves, number of rows added")
REAL = ["mip_utils.py (cut generation)", "relu_to_optimization.py",
        "lyapunov.py (strengthened programs)", "feedback_system.py",
        "gurobi_torch_mip.py", "train_lyapunov_barrier.py "
        "(solve_lyap_derivative_mip)", "dynamic systems"]
STUBS = ["gurobipy (simulated solver on HiGHS)"]
ASSUMPTIONS = [
    "the equilibrium belongs to the region of a derivative program whose "
    "binaries are tied (the function documents this)",
    "an exception raised after the solver failed to deliver is no answer"]
D = torch.float64


def preload():
    import neural_network_lyapunov.lyapunov  # noqa
    import neural_network_lyapunov.utils  # noqa
    import neural_network_lyapunov.feedback_system  # noqa
    import neural_network_lyapunov.train_lyapunov_barrier  # noqa


def tol(*v):
    return 1e-5 * (1. + max([abs(x) for x in v if np.isfinite(x)] + [0.]))


# -- one neuron ---------------------------------------------------------------
def rhs_of(c, w, b, lo, up, S, x, beta):
    """right-hand side of the ideal-formulation constraint of index set S"""
    Lb = np.where(w >= 0, lo, up)
    Ub = np.where(w >= 0, up, lo)
    v = b * c + b * (1 - c) * beta
    for i in range(len(w)):
        if i in S:
            v += w[i] * x[i] - (1 - c) * (1 - beta) * w[i] * Lb[i]
        else:
            v += c * w[i] * x[i] + (1 - c) * beta * w[i] * Ub[i]
    return v


def subsets(n):
    return [set(s) for r in range(n + 1)
            for s in itertools.combinations(range(n), r)]


def integral_points(c, w, b, lo, up, rs):
    """(x, beta, y) of the neuron's graph: box vertices, points on the kink,
    random points"""
    pts = [np.array(v) for v in itertools.product(*zip(lo, up))]
    pts += [rs.uniform(lo, up) for _ in range(6)]
    # crossings of the box edges with the kink
    n = len(w)
    for j in range(n):
        if w[j] == 0:
            continue
        for v in itertools.product(*[(lo[k], up[k]) for k in range(n)
                                     if k != j]):
            x = np.insert(np.array(v, dtype=float), j, 0.)
            x[j] = -(b + w @ x) / w[j]
            if lo[j] <= x[j] <= up[j]:
                pts.append(x)
    out = []
    for x in pts:
        z = w @ x + b
        y = max(z, c * z)
        if z >= -1e-9:
            out.append((x, 1., y))
        if z <= 1e-9:
            out.append((x, 0., y))
    return out


def neuron(run):
    import neural_network_lyapunov.mip_utils as mu
    ch = run.ch
    run.scenario = "neuron"
    rs = ch.rngstate("neuron.rng")
    n = 1 + ch.choose("n", 4)
    c = [0., 0.1, 0.5][ch.choose("slope", 3)]
    w = rs.normal(size=n)
    if ch.flip("zero_weight", 0.15):
        w[rs.randint(n)] = 0.
    lo = rs.uniform(-2., 1., n)
    up = lo + rs.uniform(0.05, 3., n)
    if ch.flip("point", 0.1):
        j = rs.randint(n)
        up[j] = lo[j]
    mid = w @ (lo + up) / 2
    rad = np.abs(w) @ (up - lo) / 2
    # mostly undecided neurons
    b = -mid + rad * rs.uniform(-1., 1.) * (1.3 if ch.flip(
        "decided", 0.15) else 0.95)
    zlo, zup = mid + b - rad, mid + b + rad
    if rad == 0. or not zlo < 0 < zup:
        run.note("event:decided-neuron")
    W, Bb, L, U = B.t(w), torch.tensor(b, dtype=D), B.t(lo), B.t(up)
    cuts = []
    api = ch.choose("api", 3)
    if api == 0:
        if not zlo < 0 < zup:
            run.nontrivial = False
            return
        selective = ch.flip("selective", 0.6)
        ilo, iup = mu.compute_range_by_IA(W.reshape((1, -1)),
                                          Bb.reshape((-1, )), L, U)
        r_lo, r_up = ilo[0], iup[0]
        # the box may be an over-approximation: tighter ReLU bounds, then only
        # states within them count
        tight = ch.flip("tighter", 0.3)
        if tight:
            r_lo = r_lo * (0.3 + 0.7 * ch.real("t1"))
            r_up = r_up * (0.3 + 0.7 * ch.real("t2"))
        a, be, k = mu.strengthen_relu_mip(float(c), W, Bb, L, U, r_lo, r_up,
                                          selective)
        if a is not None:
            cuts = list(zip(a.detach().numpy(), be.detach().numpy(),
                            k.detach().numpy()))
        run.mark("relu_mip", n, c, selective, tight, len(cuts))
        if not selective:
            run.check(len(cuts) == 2**n - 2, "neuron:count",
                      lambda: f"{len(cuts)} constraints for {n} inputs")
    else:
        pts = []
        for _ in range(1 + ch.choose("points", 3)):
            x = rs.uniform(lo, up)
            if ch.flip("vertex", 0.4):
                x = np.where(rs.uniform(size=n) < 0.5, lo, up)
            beta = float([rs.uniform(), 0., 1., 0.5][ch.choose("beta", 4)])
            z = w @ x + b
            cap = min(c * z + (1 - c) * zup * beta,
                      z - (1 - c) * zlo * (1 - beta))
            y = max(z, c * z)
            y = y + max(0., cap - y) * [1., ch.real("y"), 0.][
                ch.choose("ykind", 3)]
            pts.append((x, y, beta))
        if api == 1:
            a, be, k = mu.strengthen_relu_mip_given_pts(
                float(c), W, Bb, L, U, [B.t(p[0]) for p in pts],
                [torch.tensor(p[1], dtype=D) for p in pts],
                [torch.tensor(p[2], dtype=D) for p in pts])
            if a is not None:
                cuts = list(zip(a.detach().numpy(), be.detach().numpy(),
                                k.detach().numpy()))
            # a returned cut separates; a point that can be cut off is cut off
            for x, y, beta in pts:
                best = min(rhs_of(c, w, b, lo, up, S, x, beta)
                           for S in subsets(n))
                got = min([q[0] @ x + q[1] * beta + q[2] for q in cuts] +
                          [np.inf])
                if y > best + 1e-7:
                    run.check(got <= best + 1e-7, "neuron:not-separated",
                              lambda: f"point {x, y, beta}: the ideal "
                              f"formulation allows {best}, the cuts {got}")
        else:
            for x, y, beta in pts:
                S = mu.find_index_set_to_strengthen(
                    W, L, U, B.t(x), torch.tensor(beta, dtype=D))
                a, be, k = mu.strengthen_relu_mip_w_indices(
                    float(c), W, Bb, L, U, S)
                q = (a.detach().numpy(), float(be), float(k))
                cuts.append(q)
                best = min(rhs_of(c, w, b, lo, up, T, x, beta)
                           for T in subsets(n))
                got = q[0] @ x + q[1] * beta + q[2]
                run.check(abs(got - best) <= 1e-9 * (1 + abs(best)),
                          "neuron:not-most-violated",
                          lambda: f"at {x, beta} the cut of {S} gives {got}, "
                          f"the best gives {best}")
        run.mark("pts", api, n, c, len(cuts))
    # validity
    G = integral_points(c, w, b, lo, up, rs)
    if api == 0 and tight:
        G = [g for g in G if r_lo <= w @ g[0] + b <= r_up]
    for x, beta, y in G:
        for q in cuts:
            v = q[0] @ x + q[1] * beta + q[2]
            run.check(y <= v + 1e-9 * (1 + abs(v)), "neuron:invalid-cut",
                      lambda: f"x={x} beta={beta}: output {y} cut off at {v}")
    run.nontrivial = bool(cuts)


# -- one network --------------------------------------------------------------
def solve_exact(mip, obj=None, maximise=True, fix=None):
    """(status, value) with an ideal solver"""
    from gurobipy import hooks, GRB
    keep = (hooks.policy, hooks.chooser)
    hooks.policy, hooks.chooser = {}, None
    m = mip.gurobi_model
    saved = []
    for v, x in (fix or []):
        saved.append((v, v.lb, v.ub))
        v.lb = v.ub = x
    m.optimize()
    out = m.status, (m.ObjVal if m.status == GRB.OPTIMAL else None)
    sol = [v.x for v in m.getVars()] if m.status == GRB.OPTIMAL else None
    for v, a, b in saved:
        v.lb, v.ub = a, b
    m.update()
    hooks.policy, hooks.chooser = keep
    return out + (sol, )


def network(run):
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    import neural_network_lyapunov.relu_to_optimization as r2o
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    from gurobipy import GRB, hooks
    ch = run.ch
    run.scenario = "network"
    rs = ch.rngstate("network.rng")
    d = 1 + ch.choose("d_in", 3)
    dout = 1 + ch.choose("d_out", 2)
    net = B.net(run, "net", d, dout, 2, 4)
    L = B.layers_of(net)
    lo = rs.uniform(-2., 0., d)
    up = lo + rs.uniform(0.3, 3., d)
    method = ch.pick("method", [M.IA, M.IA, M.LP])
    fp = r2o.ReLUFreePattern(net, D)
    ret = fp.output_constraint(B.t(lo), B.t(up), method)
    co = rs.normal(size=dout)
    cx = rs.normal(size=d) * (rs.uniform() < 0.5)
    maximise = ch.flip("maximise", 0.6)

    def build(vt):
        mip = gtm.GurobiTorchMILP(D)
        mip.gurobi_model.setParam(GRB.Param.OutputFlag, False)
        x = mip.addVars(d, lb=B.t(lo), ub=B.t(up), vtype=GRB.CONTINUOUS,
                        name="x")
        y = mip.addVars(dout, lb=-GRB.INFINITY, vtype=GRB.CONTINUOUS,
                        name="y")
        s, b = mip.add_mixed_integer_linear_constraints(
            ret, x, y, "s", "b", "i", "e", "o", vt)
        mip.setObjective([B.t(co), B.t(cx)], [y, x], 0.,
                         GRB.MAXIMIZE if maximise else GRB.MINIMIZE)
        mip.gurobi_model.update()
        return mip, x, y, s, b

    plain, *_ = build(GRB.BINARY)
    st0, v0, _ = solve_exact(plain)
    run.check(st0 == GRB.OPTIMAL, "network:plain", str(st0))
    mip, x, y, s, b = build(gtm.BINARYRELAX)
    hooks.chooser = ch
    hooks.note_counts = run.counts
    hooks.policy = dict(tie_break=0.7)
    m = mip.gurobi_model
    rows = len(m.getConstrs())
    rounds = 1 + ch.choose("rounds", 4)
    last = None
    sgn = 1. if maximise else -1.
    for k in range(rounds):
        how = ch.choose("how", 3)
        n0 = len(m.getConstrs())
        if how < 2:
            m.optimize()
            run.check(m.status == GRB.OPTIMAL, "network:relaxation",
                      f"status {m.status}")
            bd = m.ObjVal
            run.check(sgn * bd >= sgn * v0 - tol(bd, v0),
                      "network:cut-off-optimum",
                      lambda: f"after {k} rounds the relaxation has {bd}, "
                      f"the network attains {v0}")
            if last is not None:
                run.check(sgn * bd <= sgn * last + tol(bd, last),
                          "network:relaxation-grew",
                          lambda: f"{bd} after {last}")
            last = bd
            sol = [v.x for v in x], [v.x for v in s], [v.x for v in b]
            fp.strengthen_relu_mip_at_solution(mip, x, s, b, ret)
            m.update()
            if len(m.getConstrs()) > n0:
                # the point is cut off
                st, _, _ = solve_exact(mip, fix=list(
                    zip(x + s + b, sol[0] + sol[1] + sol[2])))
                run.check(st in (GRB.INFEASIBLE, GRB.INF_OR_UNBD) or
                          slack_tiny(mip, x + s + b,
                                     sol[0] + sol[1] + sol[2]),
                          "network:point-kept",
                          "cuts were added, but the point they were made for "
                          "still satisfies them")
        else:
            # cuts at a point of the caller's choosing
            lin_lo = torch.cat((ret.nn_input_lo, ret.relu_output_lo))
            lin_up = torch.cat((ret.nn_input_up, ret.relu_output_up))
            pt = lin_lo + (lin_up - lin_lo) * torch.from_numpy(
                rs.uniform(0., 1., len(lin_lo)))
            pre, post, _ = B.hidden_at(L, pt[:d].detach().numpy()[None])
            if ch.flip("on_graph", 0.3):
                pt = torch.cat([pt[:d]] + [B.t(q[0]) for q in post])
            act = torch.from_numpy(rs.uniform(0., 1., len(b)))
            ai, as_, ab, r = fp.strengthen_mip_at_point((pt, act), lin_lo,
                                                        lin_up)
            if ai is not None:
                mip.addMConstr([ai, as_, ab], [x, s, b],
                               sense=GRB.LESS_EQUAL, b=r)
                m.update()
        run.mark(how, len(m.getConstrs()) - n0)
    run.nontrivial = len(m.getConstrs()) > rows
    mip.remove_binary_relaxation()
    st1, v1, _ = solve_exact(mip)
    run.check(st1 == GRB.OPTIMAL and abs(v1 - v0) <= tol(v0, v1),
              "network:optimum",
              lambda: f"with cuts: status {st1}, {v1}; without: {v0}")
    # every input still has its network output
    for k in range(4):
        X = rs.uniform(lo, up)
        if k == 0:
            X = np.where(rs.uniform(size=d) < 0.5, lo, up)
        st, v, _ = solve_exact(mip, fix=list(zip(x, X)))
        want = co @ B.run_net(B.Val, L, X[None])[0] + cx @ X
        run.check(st == GRB.OPTIMAL and abs(v - want) <= tol(want, v),
                  "network:input-removed",
                  lambda: f"x={X}: status {st}, objective {v}, network gives "
                  f"{want}")
    # the constraints are still differentiable data of the program
    obj = None
    hooks.policy, hooks.chooser = {}, None
    m.optimize()
    try:
        obj = mip.compute_objective_from_mip_data_and_solution()
    except gtm.IncorrectActiveConstraint:
        run.note("op:gave-up")
    if obj is not None:
        run.check(abs(float(obj) - v1) <= 1.1e-3, "network:recomputed",
                  lambda: f"{obj} vs {v1}")


def slack_tiny(mip, vs, vals):
    """does the most violated row cut the point by round-off only?"""
    from gurobipy import GRB
    at = {v: x for v, x in zip(vs, vals)}
    worst = 0.
    for c in mip.gurobi_model.getConstrs():
        row = mip.gurobi_model.getRow(c)
        tot = 0.
        for i in range(row.size()):
            v = row.getVar(i)
            if v not in at:
                tot = None
                break
            tot += row.getCoeff(i) * at[v]
        if tot is None:
            continue
        e = tot - c.RHS
        if c.Sense == GRB.LESS_EQUAL:
            worst = max(worst, e)
        elif c.Sense == GRB.GREATER_EQUAL:
            worst = max(worst, -e)
        else:
            worst = max(worst, abs(e))
    return 0. < worst < 1e-6


# -- the derivative program ---------------------------------------------------
def derivative(run):
    import neural_network_lyapunov.lyapunov as ly
    from gurobipy import GRB, hooks, GurobiError
    ch = run.ch
    run.scenario = "derivative"
    rs = ch.rngstate("derivative.rng")
    p = B.plant(run, max_width=3)
    run.note("plant:" + p.kind)
    c = B.candidate(run, p, max_width=4)
    sys_ = B.lyap_system(p, c, run=run)
    kind = ch.pick("eps_type", ["ExpLower", "ExpUpper", "Asymp"])
    eps = float([0.01, 0.1, 0.9, 0.0][ch.choose("eps", 4)])
    n_pts = ch.choose("num_pts", 4)
    tie = ch.flip("tie", 0.6)
    if not n_pts and not tie:
        tie = True
    faults = tie and ch.flip("faults", 0.5)
    vlo = vup = None
    if not tie and ch.flip("V_bounds", 0.25):
        vals = c.V(B.Val, rs.uniform(p.x_lo, p.x_up, size=(30, p.dim)))[:, 0]
        q = np.sort(rs.choice(vals, 2))
        vlo = float(q[0]) if ch.flip("V_lower", 0.5) else None
        vup = float(q[1]) if ch.flip("V_upper", 0.7) else None
    run.mark(p.kind, kind, eps, n_pts, tie, faults,
             str(sys_.network_bound_propagate_method), vlo is None,
             vup is None)
    args = (p.x_eq_t, float(c.lam), eps, getattr(ly.ConvergenceEps, kind))
    hooks.chooser = None
    plain = sys_.lyapunov_derivative_as_milp(
        *args, R=c.R_t, lyapunov_lower=vlo, lyapunov_upper=vup)
    plain.milp.gurobi_model.setParam(GRB.Param.OutputFlag, False)
    if len(plain.milp.zeta) > 30:
        run.nontrivial = False
        return
    st0, v0, _ = solve_exact(plain.milp)
    hooks.chooser = ch
    hooks.note_counts = run.counts
    hooks.policy = dict(tie_break=0.6)
    if n_pts:
        ws = None
        if ch.flip("warm", 0.2):
            ws = B.t(rs.uniform(p.x_lo, p.x_up))
        try:
            ret = sys_.strengthen_lyapunov_derivative_as_milp(
                *args, n_pts, R=c.R_t, lyapunov_lower=vlo,
                lyapunov_upper=vup, x_warmstart=ws)
        except AssertionError:
            # the relaxation of an infeasible program may be infeasible
            if st0 == GRB.INFEASIBLE:
                run.nontrivial = False
                return
            raise
    else:
        ret = sys_.lyapunov_derivative_as_milp(*args, R=c.R_t)
    milp = ret.milp
    m = milp.gurobi_model
    m.update()
    added = len(m.getConstrs()) - len(plain.milp.gurobi_model.getConstrs())
    tied = 0
    answers = []
    params = {k: m.getParamInfo(k)[2] for k in (
        "SolutionLimit", "TimeLimit", "OutputFlag", "DualReductions",
        "NodeLimit")}
    if tie:
        opts = None
        if ch.flip("options", 0.6):
            opts = {"TimeLimit": 60}
            if ch.flip("nodelimit", 0.3):
                opts["NodeLimit"] = 5
        if faults:
            hooks.policy = dict(
                tie_break=0.5, limit=[0., 0.5, 1.][ch.choose("limit", 3)],
                interrupt=[0., 0.4][ch.choose("intr", 2)],
                suboptimal=[0., 0.4][ch.choose("subopt", 2)],
                inf_or_unbd=0.5, error=[0., 0.15][ch.choose("err", 2)])
        n0 = len(m.getConstrs())
        hooks.on_solve = lambda model, res, *_: answers.append(res.status)
        try:
            sys_.strengthen_lyapunov_derivative_milp_binary(ret, opts)
        except GurobiError:
            run.note("op:raised")
            run.nontrivial = False
            return
        hooks.on_solve = None
        m.update()
        tied = len(m.getConstrs()) - n0
        run.check(tied >= 0, "derivative:rows-lost",
                  lambda: f"{-tied} rows of the program disappeared")
        run.note("op:tied", tied)
        # the auxiliary solves leave no trace
        for k, v in params.items():
            run.check(m.getParamInfo(k)[2] == v, "derivative:parameter",
                      lambda: f"{k} is {m.getParamInfo(k)[2]}, was {v}")
    run.mark(added > 0, tied)
    run.nontrivial = added > 0 or tied > 0
    m.setParam(GRB.Param.OutputFlag, False)
    for z in milp.zeta:
        run.check(z.vtype == GRB.BINARY, "derivative:relaxed",
                  lambda: f"{z.VarName} is still relaxed")
    st1, v1, sol = solve_exact(milp)
    if st0 != GRB.OPTIMAL:
        run.check(st1 != GRB.OPTIMAL, "derivative:feasible",
                  "strengthening made an infeasible program feasible")
        return
    run.check(st1 == GRB.OPTIMAL and abs(v1 - v0) <= tol(v0, v1),
              "derivative:optimum",
              lambda: f"strengthened: status {st1}, {v1}; plain: {v0}")
    # independent search too
    reg = B.Region(c.derivative(eps, kind, vlo, vup), p.x_lo, p.x_up,
                   [p.x_eq])
    best, arg = reg.best(rs, 300, 40)
    run.check(best <= v1 + tol(best, v1), "derivative:missed",
              lambda: f"optimum {v1}, but {arg} attains {best}")
    if GRB.INFEASIBLE not in answers:
        # no state is removed (tied binaries may remove states below zero)
        for k in range(3):
            X = rs.uniform(p.x_lo, p.x_up)
            a = solve_exact(plain.milp, fix=list(zip(plain.x, X)))
            b = solve_exact(milp, fix=list(zip(ret.x, X)))
            run.check(a[0] == b[0] and (a[1] is None or abs(a[1] - b[1]) <=
                                        tol(a[1], b[1])),
                      "derivative:state-removed",
                      lambda: f"x={X}: plain {a[:2]}, strengthened {b[:2]}")


def trainer(run):
    """through Trainer.solve_lyap_derivative_mip: never below a true value"""
    import neural_network_lyapunov.lyapunov as ly
    import neural_network_lyapunov.train_lyapunov_barrier as tlb
    from neural_network_lyapunov import r_options
    from gurobipy import hooks, GurobiError
    ch = run.ch
    run.scenario = "trainer"
    rs = ch.rngstate("trainer.rng")
    p = B.plant(run, max_width=3)
    run.note("plant:" + p.kind)
    c = B.candidate(run, p, max_width=4)
    sys_ = B.lyap_system(p, c, run=run)
    tr = tlb.Trainer()
    tr.add_lyapunov(sys_, float(c.lam), p.x_eq_t,
                    r_options.FixedROptions(B.t(c.R)))
    tr.output_flag = False
    eps = float([0.01, 0.1, 0.5][ch.choose("eps", 3)])
    kind = ch.pick("eps_type", ["ExpLower", "ExpUpper", "Asymp"])
    tr.lyapunov_derivative_epsilon = eps
    tr.lyapunov_derivative_eps_type = getattr(ly.ConvergenceEps, kind)
    tr.derivative_mip_num_strengthen_pts = ch.choose("num_pts", 4)
    tr.derivative_mip_strengthen_binary = ch.flip("tie", 0.6)
    tr.lyapunov_derivative_mip_params = {"OutputFlag": False}
    pool = 1 + 2 * ch.choose("pool", 2)
    tr.lyapunov_derivative_mip_pool_solutions = pool
    hooks.chooser = ch
    hooks.note_counts = run.counts
    hooks.policy = dict(tie_break=0.6, pool=True)
    faults = ch.flip("faults", 0.5)
    if faults:
        hooks.policy.update(limit=0.6, inf_or_unbd=0.4,
                            interrupt=[0., 0.3][ch.choose("intr", 2)])
    run.mark(p.kind, kind, eps, tr.derivative_mip_num_strengthen_pts,
             tr.derivative_mip_strengthen_binary, faults, pool)
    try:
        mip, obj, adv, adv_next = tr.solve_lyap_derivative_mip()
    except (GurobiError, AttributeError, AssertionError, UnboundLocalError):
        reg = B.Region(c.derivative(eps, kind), p.x_lo, p.x_up, [p.x_eq])
        if not any(k.startswith("fault:") for k in run.counts) and \
                np.isfinite(reg.best(rs, 400, 60)[0]):
            raise
        run.nontrivial = False
        return
    if len(mip.zeta) > 34:
        run.nontrivial = False
        return
    reg = B.Region(c.derivative(eps, kind, None, None), p.x_lo, p.x_up,
                   [p.x_eq])
    best, arg = reg.best(rs, 400, 60)
    v = float(obj)
    run.check(best <= v + tol(best, v), "trainer:below-true",
              lambda: f"proved value {v}, but {arg} attains {best}")


def scenario(run):
    k = run.ch.choose("family", 10)
    if k < 3:
        neuron(run)
    elif k < 6:
        network(run)
    elif k < 9:
        derivative(run)
    else:
        trainer(run)
