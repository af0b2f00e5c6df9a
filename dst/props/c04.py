"""C04: propagated bounds always contain the reachable values.

Every bound is compared with values actually reached: dense samples of the
input box, and the exact extremes of the affine cells they fall in.
"""
import numpy as np
import torch

from dst import build as B

ID = "C04"
LEVEL = "exploration"
RUNS = dict(quick=1500, thorough=150000)
RULE = ("one case = one network, system or program with an input box, a bound "
        "propagation method and the solver's answers while bounds were "
        "computed; non-trivial when returned bounds were compared with "
        "reached values; distinct by scenario, shapes, method, degenerate "
        "inputs and solver statuses")
REAL = ["relu_to_optimization.py", "relu_to_optimization_utils.py",
        "mip_utils.py", "relu_system.py", "feedback_system.py",
        "dynamic_system.py", "control_affine_system.py", "lyapunov.py",
        "continuous_time_lyapunov.py", "gurobi_torch_mip.py", "utils.py"]
STUBS = ["gurobipy (simulated solver on HiGHS)"]
ASSUMPTIONS = [
    "a status of OPTIMAL means optimal up to round-off",
    "an exception raised after the solver failed to deliver is no bound",
    "leaky slopes of the verified networks lie in [0, 1)"]

KINDS = ["network", "network", "network", "system", "system", "program",
         "program", "gradient", "lp", "layer", "affine", "polytope"]


def preload():
    import neural_network_lyapunov.lyapunov  # noqa
    import neural_network_lyapunov.utils  # noqa
    import neural_network_lyapunov.feedback_system  # noqa
    import neural_network_lyapunov.dynamic_system  # noqa
    import neural_network_lyapunov.control_affine_system  # noqa
    import neural_network_lyapunov.continuous_time_lyapunov  # noqa


def tol(*vals):
    v = [abs(float(x)) for x in vals if np.isfinite(x)]
    return 1e-5 * (1. + max(v + [0.]))


def npy(v):
    return v.detach().numpy().astype(float) if torch.is_tensor(v) \
        else np.asarray(v, dtype=float)


def faulted(run):
    return any(k.startswith("fault:") for k in run.counts)


def policy(run, faults):
    from gurobipy import hooks
    hooks.chooser = run.ch
    hooks.note_counts = run.counts
    hooks.policy = dict(tie_break=0.3, inf_or_unbd=0.)
    if faults:
        hooks.policy.update(
            interrupt=run.ch.pick("p.int", [0.05, 0.2, 0.5]),
            suboptimal=run.ch.pick("p.sub", [0.05, 0.3]),
            suboptimal_lp=run.ch.pick("p.sub_lp", [0.1, 0.3]))
        if run.ch.flip("one_fault", 0.5):
            # exactly one solve goes wrong, anywhere in the sequence
            hooks.policy.update(
                interrupt=0.7, suboptimal=0.9, suboptimal_lp=1.,
                at=hooks.solve_count + 1 + run.ch.choose("fault_at", [
                    6, 20, 60][run.ch.choose("fault_range", 3)]))
    return hooks


def quiet_solver():
    from gurobipy import hooks
    hooks.policy = dict(tie_break=0., inf_or_unbd=0.)


def contain(run, name, lo, up, vals, where=None):
    """vals (N, k) were reached; lo, up are the bounds (k,)."""
    lo, up = npy(lo).reshape(-1), npy(up).reshape(-1)
    vals = np.asarray(vals).reshape((-1, lo.size))
    run.note("bounds", lo.size)
    run.check(bool(np.all(~np.isnan(lo)) and np.all(~np.isnan(up))),
              name + ":nan", lambda: f"{lo} {up}")
    t = 1e-5 * (1. + np.max(np.abs(vals), axis=0))
    run.check(bool(np.all(lo <= up + t)), name + ":order",
              lambda: f"lower {lo} above upper {up}")
    mn, mx = vals.min(axis=0), vals.max(axis=0)
    for j in range(lo.size):
        run.check(bool(mn[j] >= lo[j] - t[j]), name + ":lower",
                  lambda: f"entry {j}: lower bound {lo[j]} but "
                  f"{mn[j]} is reached"
                  + (f" at {where[int(np.argmin(vals[:, j]))]}"
                     if where is not None else ""))
        run.check(bool(mx[j] <= up[j] + t[j]), name + ":upper",
                  lambda: f"entry {j}: upper bound {up[j]} but "
                  f"{mx[j]} is reached"
                  + (f" at {where[int(np.argmax(vals[:, j]))]}"
                     if where is not None else ""))


def samples(rs, lo, up, n=300):
    X = rs.uniform(lo, up, size=(n, len(lo)))
    for row in X[:n // 3]:
        for j in rs.randint(len(lo), size=2):
            row[j] = (lo, up)[rs.randint(2)][j]
    import itertools
    if len(lo) <= 4:
        X = np.concatenate([np.array(list(itertools.product(
            *zip(lo, up)))), X])
    return X


def a_box(run, name, n, width=None):
    r = run.ch.rngstate(name)
    k = run.ch.choose(name + ".shape", 6)
    c = r.uniform(-1, 1, size=n)
    w = r.uniform(0.05, 1.5, size=n) * [1., 1., 0.1, 3., 1., 1.][k]
    if width is not None:
        w = w * width
    if k == 4:
        w[r.randint(n)] = 0.  # degenerate
    if k == 5:
        c = w.copy()  # nonnegative orthant
    run.mark(name, k)
    return c - w, c + w


def until(layer, row):
    """prog for the value of one linear-layer row."""
    def prog_of(L, sign):
        def prog(o, x):
            v = B.run_net(o, L[:layer], x)
            W, b, _ = L[layer]
            return o.scale(sign, o.lin(W[row:row + 1], b[row:row + 1],
                                       v)), None
        return prog
    return prog_of


def guarded(run, f):
    """f() or None when it fails after a fault."""
    try:
        return f()
    except Exception as e:
        if faulted(run):
            run.note("probe:error-after-fault")
            run.mark("error", type(e).__name__)
            return None
        raise


def network(run, rs):
    import neural_network_lyapunov.relu_to_optimization as rto
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    ch = run.ch
    faults = ch.flip("faults", 0.35)
    d_in = 1 + ch.choose("d_in", 3)
    d_out = 1 + ch.choose("d_out", 3)
    m = B.net(run, "net", d_in, d_out, max_hidden=3, max_width=4)
    pat = rto.ReLUFreePattern(m, B.D)
    rounds = 1 + ch.choose("rounds", 3)
    for k in range(rounds):
        L = B.layers_of(m)
        lo, up = a_box(run, "box", d_in)
        got = {}
        X = samples(rs, lo, up)
        pre, post, out = B.hidden_at(L, X)
        pre, post = np.hstack(pre), np.hstack(post)
        names = ["IA", "LP", "MIP", "IA_MIP"]
        todo = names if ch.flip("all_methods", 0.4) else [
            names[ch.choose("method", 4)]]
        hooks = policy(run, faults)
        exact = {}
        for nm in todo:
            ret = guarded(run, lambda: pat.output_constraint(
                B.t(lo), B.t(up), getattr(M, nm)))
            if ret is None:
                continue
            got[nm] = ret
            run.mark(nm, d_in, d_out, k)
            run.note("method:" + nm)
            if faulted(run):
                run.note("probe:bounds-after-fault")
            contain(run, nm + ":pre", ret.relu_input_lo, ret.relu_input_up,
                    pre, X)
            contain(run, nm + ":post", ret.relu_output_lo,
                    ret.relu_output_up, post, X)
            contain(run, nm + ":output", ret.nn_output_lo, ret.nn_output_up,
                    out, X)
            contain(run, nm + ":input", ret.nn_input_lo, ret.nn_input_up, X)
        hooks.policy = dict()
        if not got:
            run.nontrivial = False
            continue
        # exact extremes of some units
        units = [(layer, row) for layer in range(len(L))
                 for row in range(L[layer][0].shape[0])]
        for i in sorted(set(rs.randint(len(units), size=3))):
            layer, row = units[i]
            last = layer == len(L) - 1
            flat = row + sum(L[j][0].shape[0] for j in range(layer))
            for sign in (1., -1.):
                b, arg = B.Region(until(layer, row)(L, sign), lo, up).best(
                    rs, 300, 25)
                exact[i, sign] = b
                for nm, ret in got.items():
                    w = (ret.nn_output_lo, ret.nn_output_up) if last else (
                        ret.relu_input_lo, ret.relu_input_up)
                    j = row if last else flat
                    v = float(npy(w[1]).reshape(-1)[j]) if sign > 0 else \
                        -float(npy(w[0]).reshape(-1)[j])
                    run.check(b <= v + tol(b), nm + ":extreme",
                              lambda: f"layer {layer} unit {row}: bound "
                              f"{sign * v} excludes {sign * b} reached at "
                              f"{arg}")
                    if nm == "MIP" and not faulted(run) and \
                            v > b + 5 * tol(b):
                        # look harder before judging
                        b = max(b, B.Region(
                            until(layer, row)(L, sign), lo, up).best(
                                rs, 20000, 3000)[0])
                    if nm == "MIP" and not faulted(run):
                        run.check(v <= b + 5 * tol(b), "MIP:not-exact",
                                  lambda: f"layer {layer} unit {row}: MIP "
                                  f"bound {sign * v}, exact {sign * b}")
        if not faulted(run):
            tighter(run, got)
        # the next round sees other parameters (updated in place, as an
        # optimizer does) through the same pattern object
        if k + 1 < rounds:
            r = ch.rngstate("update")
            with torch.no_grad():
                for p in m.parameters():
                    p.add_(B.t(r.randn(*p.shape) * 0.5))
            run.note("event:parameters-updated")


def tighter(run, got):
    for a, b in (("LP", "IA"), ("MIP", "LP"), ("MIP", "IA"),
                 ("IA_MIP", "IA")):
        if a not in got or b not in got:
            continue
        run.note("probe:tightness")
        for lo, up in (("relu_input_lo", "relu_input_up"),
                       ("nn_output_lo", "nn_output_up")):
            al, au = npy(getattr(got[a], lo)), npy(getattr(got[a], up))
            bl, bu = npy(getattr(got[b], lo)), npy(getattr(got[b], up))
            t = 1e-5 * (1. + np.maximum(np.abs(bl), np.abs(bu)))
            if a == "IA_MIP":
                # relaxed on purpose by one percent
                t = t + 0.0101 * np.maximum(np.abs(bl), np.abs(bu))
            run.check(bool(np.all(al >= bl - t) and np.all(au <= bu + t)),
                      f"looser:{a}", lambda: f"{a} bounds [{al}, {au}] looser "
                      f"than {b} bounds [{bl}, {bu}]")


# --------------------------------------------------------------------------
def system(run, rs):
    """Bounds reported while a closed loop is written as constraints."""
    import gurobipy
    import neural_network_lyapunov.dynamic_system as ds
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    ch = run.ch
    faults = ch.flip("faults", 0.35)
    p = B.plant(run, ["relu", "relu_eq", "residual_eq", "fb_relu",
                      "fb_relu_eq", "fb_second", "fb_second_res"],
                continuous=False, max_width=3)
    run.note("plant:" + p.kind)
    hooks = policy(run, faults)
    milp = gtm.GurobiTorchMILP(B.D)
    inf = gurobipy.GRB.INFINITY
    x = milp.addVars(p.dim, lb=-inf)
    xn = milp.addVars(p.dim, lb=-inf)
    ret = guarded(run, lambda: ds._add_system_constraint(p.system, milp, x,
                                                         xn))
    quiet_solver()
    if ret is None:
        run.nontrivial = False
        return
    X = samples(rs, p.x_lo, p.x_up)
    nxt = p.f(B.Val, X)
    if ret.x_next_lb_IA is not None:
        run.note("probe:x-next-bounds")
        contain(run, "x_next", ret.x_next_lb_IA, ret.x_next_ub_IA, nxt, X)
    if p.controller is not None:
        c = ret.controller_mip_cnstr_return
        U = p.u_of(B.Val, X)
        contain(run, "u", c.u_lower_bound, c.u_upper_bound, U, X)
        for i in range(p.m_u):
            lo_i = npy(c.u_lower_bound)[i]
            up_i = npy(c.u_upper_bound)[i]
            for sign in (1., -1.):
                def prog(o, v, i=i, sign=sign):
                    return o.scale(sign, o.take(p.u_of(o, v), [i])), None
                b, arg = B.Region(prog, p.x_lo, p.x_up).best(rs, 200, 15)
                v = up_i if sign > 0 else -lo_i
                run.check(b <= v + tol(b), "u:extreme",
                          lambda: f"control {i}: bound {sign * v} excludes "
                          f"{sign * b} at {arg}")
        if c.relu_input_lo is not None:
            pre, post, _ = B.hidden_at(B.layers_of(p.controller), X)
            contain(run, "controller:pre", c.relu_input_lo, c.relu_input_up,
                    np.hstack(pre), X)
            contain(run, "controller:post", c.relu_output_lo,
                    c.relu_output_up, np.hstack(post), X)
        fwd = ret.forward_dynamics_return
    else:
        U, fwd = None, ret
    # the dynamics network, over everything that can be fed to it
    if getattr(fwd, "relu_input_lo", None) is not None:
        m = p.nets[0]
        lo_in, up_in = npy(fwd.nn_input_lo), npy(fwd.nn_input_up)
        if lo_in.size == m[0].in_features:
            Z = X if p.controller is None else p.fed(X, U)
            contain(run, "dynamics:input", lo_in, up_in, Z, X)
            Z = np.concatenate([samples(rs, lo_in, up_in), Z])
            pre, post, out = B.hidden_at(B.layers_of(m), Z)
            contain(run, "dynamics:pre", fwd.relu_input_lo,
                    fwd.relu_input_up, np.hstack(pre), Z)
            contain(run, "dynamics:post", fwd.relu_output_lo,
                    fwd.relu_output_up, np.hstack(post), Z)
            if fwd.nn_output_lo is not None:
                contain(run, "dynamics:output", fwd.nn_output_lo,
                        fwd.nn_output_up, out, Z)
    # the separate program used to bound functions of the next state
    if ret.x_next_bound_prog is not None and ret.x_next_bound_var:
        run.note("probe:bound-program")
        r = ch.rngstate("direction")
        for k in range(2):
            w = r.randn(p.dim)
            pr = ret.x_next_bound_prog
            pr.setObjective([B.t(w)], [ret.x_next_bound_var], 0.,
                            gurobipy.GRB.MAXIMIZE)
            g = pr.gurobi_model
            g.setParam("OutputFlag", False)
            g.setParam("DualReductions", 0)
            g.optimize()
            val = np.inf if g.status == gurobipy.GRB.UNBOUNDED else (
                g.ObjVal if g.status == gurobipy.GRB.OPTIMAL else -np.inf)
            got = nxt @ w
            run.check(got.max() <= val + tol(got.max()), "x_next:program",
                      lambda: f"direction {w}: the bounding program says at "
                      f"most {val} (status {g.status}) but the successor of "
                      f"{X[int(np.argmax(got))]} reaches {got.max()}")
    run.mark("system", faults, ret.x_next_lb_IA is None,
             ret.x_next_bound_prog is None)


# --------------------------------------------------------------------------
def program(run, rs):
    """A verification program whose bounds were computed by a solver that
    stops early must not lose states."""
    import neural_network_lyapunov.lyapunov as ly
    import neural_network_lyapunov.continuous_time_lyapunov as ctl
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    from gurobipy import GRB
    ch = run.ch
    cont = ch.flip("continuous", 0.5)
    meth = ch.pick("meth", [M.LP, M.MIP] if cont else [M.LP, M.MIP,
                                                       M.IA_MIP])
    kinds = ["relu", "relu_eq", "residual_eq"] + (
        B.EXAMPLES_CONT[:1] if cont else [
            "fb_relu_eq", "fb_second_res", "fb_relu"])
    p = B.plant(run, kinds, continuous=cont, max_width=3, method=meth)
    c = B.candidate(run, p, max_width=3)
    cls = ctl.LyapunovContinuousTimeSystem if cont else \
        ly.LyapunovDiscreteTimeHybridSystem
    s = cls(p.system, c.phi)
    s.network_bound_propagate_method = meth
    p.system.network_bound_propagate_method = meth
    if hasattr(p, "forward"):
        p.forward.network_bound_propagate_method = meth
        p.system.controller_network_bound_propagate_method = meth
    run.note("plant:" + ("ct-" if cont else "") + p.kind)
    eps = float([0.01, 0.1, 0.9][ch.choose("eps", 3)])
    hooks = policy(run, True)
    posi = ch.flip("positivity", 0.25)
    if posi:
        ret = guarded(run, lambda: s.lyapunov_positivity_as_milp(
            p.x_eq_t, float(c.lam), eps, R=c.R_t))
    else:
        ret = guarded(run, lambda: s.lyapunov_derivative_as_milp(
            p.x_eq_t, float(c.lam), eps, ly.ConvergenceEps.ExpLower,
            R=c.R_t))
    assert hooks
    quiet_solver()
    run.mark(p.kind, cont, posi, str(meth), faulted(run), ret is None)
    if ret is None:
        run.nontrivial = False
        return
    if faulted(run):
        run.note("probe:program-after-fault")
    milp = ret[0] if posi else ret.milp
    g = milp.gurobi_model
    g.setParam(GRB.Param.OutputFlag, False)
    g.optimize()
    if posi:
        prog = c.positivity(eps)
    elif cont:
        from dst.props.c02 import vdot_val

        def prog(o, x):
            if o is B.Val:
                return vdot_val(p, c, eps, x), None
            V, xd = c.V(o, x), p.f(o, x)
            gr = V[0][0]
            return (np.array([gr @ xd[0]]) + eps * V[0],
                    np.array([gr @ xd[1]]) + eps * V[1]), None
    else:
        prog = c.derivative(eps, "ExpLower")
    reg = B.Region(prog, p.x_lo, p.x_up, [p.x_eq],
                   interior=cont and not posi)
    best, arg = reg.best(rs, 400, 40)
    if g.status == GRB.INFEASIBLE:
        ok = best == -np.inf
        if not ok:
            _, gg = prog(B.Val, np.asarray(arg)[None])
            ok = gg is not None and float(np.max(gg)) > -1e-6
        run.check(ok, "program:infeasible",
                  lambda: f"built while the solver stopped early, the "
                  f"program has no solution, but {arg} is a state of the "
                  f"region with objective {best}")
        return
    run.check(g.status == GRB.OPTIMAL, "program:status", f"{g.status}")
    run.check(best <= g.ObjVal + tol(best, g.ObjVal), "program:missed",
              lambda: f"built while the solver stopped early, the program "
              f"has optimum {g.ObjVal}, but the state {arg} attains {best}")


# --------------------------------------------------------------------------
def gradient(run, rs):
    """Bounds of products with the network's gradient."""
    import neural_network_lyapunov.relu_to_optimization as rto
    ch = run.ch
    faults = ch.flip("faults", 0.4)
    d_in = 1 + ch.choose("d_in", 3)
    m = B.net(run, "net", d_in, 1 + ch.choose("d_out", 2), max_hidden=3,
              max_width=4)
    pat = rto.ReLUFreePattern(m, B.D)
    L = B.layers_of(m)
    lo, up = a_box(run, "vec", d_in)
    Y = samples(rs, lo, up, 200)
    n_units = sum(W.shape[0] for W, _, s in L if s is not None)
    opt = ch.flip("optimised", 0.5)
    allowed = None
    if opt:
        import gurobipy
        hooks = policy(run, faults)
        pr = gurobipy.Model()
        pr.setParam("OutputFlag", False)
        z0 = [pr.addVar(lb=float(a), ub=float(b)) for a, b in zip(lo, up)]
        relax = ch.flip("relaxed", 0.4)
        beta = [pr.addVar(lb=0., ub=1.,
                          vtype=gurobipy.GRB.CONTINUOUS if relax else
                          gurobipy.GRB.BINARY) for _ in range(n_units)]
        if ch.flip("restricted", 0.5) and n_units > 1:
            # at least one of the first two units is inactive
            pr.addLConstr(beta[0] + beta[1], gurobipy.GRB.LESS_EQUAL, 1.)
            allowed = (0, 1)
        pr.update()
        ret = guarded(run, lambda: pat._compute_Wz_bounds_optimization(
            pr, z0, beta))
        quiet_solver()
        if ret is None:
            run.nontrivial = False
            return
        z_lo, z_up, w_lo, w_up = ret[:4]
        assert hooks
    else:
        ret = pat.output_gradient_times_vector(B.t(lo), B.t(up))
        z_lo, z_up, w_lo, w_up = ret.z_lo, ret.z_up, ret.Wz_lo, ret.Wz_up
    run.mark("gradient", opt, faults, d_in, len(L), allowed)
    beta = rs.randint(2, size=(len(Y), n_units))
    if allowed:
        beta[:, 1] *= 1 - beta[:, 0]
    z, k = Y, 0
    for i, (W, b, s) in enumerate(L):
        if z_lo[i] is not None:
            contain(run, "gradient:z", z_lo[i], z_up[i], z)
        z = z @ W.T
        if w_lo[i] is not None:
            contain(run, "gradient:Wz", w_lo[i], w_up[i], z)
        if s is not None:
            a = beta[:, k:k + W.shape[0]]
            k += W.shape[0]
            z = z * np.where(a == 1, 1., s)


def lp(run, rs):
    """Range of an affine map over a polytope."""
    import warnings
    import neural_network_lyapunov.mip_utils as mu
    ch = run.ch
    faults = ch.flip("faults", 0.4)
    n, m = 1 + ch.choose("n", 3), 1 + ch.choose("m", 3)
    r = ch.rngstate("A")
    A, b = r.randn(m, n), r.randn(m)
    lo, up = a_box(run, "box", n)
    open_side = ch.choose("open", 4)
    lo_f, up_f = lo.copy(), up.copy()
    if open_side == 1:
        lo_f[r.randint(n)] = -np.inf
    elif open_side == 2:
        up_f[:] = np.inf
    C = d = None
    if ch.flip("rows", 0.7):
        k = 1 + ch.choose("nrows", 3)
        C = r.randn(k, n)
        x_in = r.uniform(lo, up)
        d = C @ x_in + r.uniform(-0.3, 1., size=k) * (
            0. if ch.flip("tight", 0.2) else 1.)
    X = samples(rs, lo, up, 500)
    if C is not None:
        X = np.concatenate([X, x_in[None]])
        X = X[np.all(X @ C.T <= d + 1e-12, axis=1)]
    hooks = policy(run, faults)
    none_lo = open_side == 3 and C is not None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ret = guarded(run, lambda: mu.compute_range_by_lp(
            A, b, None if none_lo else lo_f, up_f, C, d))
    quiet_solver()
    run.mark("lp", n, m, open_side, C is None, faults, ret is None)
    if ret is None:
        run.nontrivial = False
        return
    assert hooks
    if len(X):
        contain(run, "lp", ret[0], ret[1], X @ A.T + b, X)
    elif not faulted(run):
        run.note("probe:empty-polytope")
    if not faulted(run):
        L0 = np.full(n, -np.inf) if none_lo else lo_f
        for i in range(m):
            for sign, v in ((1., ret[1][i]), (-1., -ret[0][i])):
                big = 1e4
                a = B.lp_max(sign * A[i], np.zeros((0, n)) if C is None
                             else C, np.zeros(0) if d is None else d,
                             np.maximum(L0, -big), np.minimum(up_f, big))
                if a is None:
                    run.check(v == -np.inf, "lp:empty",
                              lambda: f"the set is empty but the bound is "
                              f"{sign * v}")
                    continue
                want = a[0] + sign * b[i]
                if np.any(np.abs(a[1]) > big * 0.5):
                    run.check(v >= want - tol(want), "lp:open",
                              lambda: f"{v} < {want}")
                else:
                    run.check(abs(v - want) <= 10 * tol(want), "lp:range",
                              lambda: f"row {i}: {sign * v}, exact "
                              f"{sign * want}")
        run.note("probe:exact-range")


def layer(run, rs):
    """One layer at a time, including activation slopes below zero."""
    import neural_network_lyapunov.mip_utils as mu
    ch = run.ch
    n = 1 + ch.choose("n", 4)
    lo, up = a_box(run, "box", n)
    k = ch.choose("layer", 4)
    if k == 0:
        m = torch.nn.ReLU()
    elif k == 1:
        m = torch.nn.LeakyReLU([0.1, 0., 0.5][ch.choose("slope", 3)])
    elif k == 2:
        m = torch.nn.LeakyReLU([-0.1, -0.5, -2.][ch.choose("nslope", 3)])
    else:
        m = torch.nn.Linear(n, 1 + ch.choose("out", 3), dtype=B.D,
                            bias=ch.flip("bias", 0.6))
        r = ch.rngstate("W")
        with torch.no_grad():
            for q in m.parameters():
                q.copy_(B.t(r.randn(*q.shape)))
            if ch.flip("zero_col", 0.3):
                m.weight[:, 0] = 0.
    keep = lo.copy(), up.copy()
    tl, tu = B.t(lo), B.t(up)
    a, b = mu.propagate_bounds(m, tl, tu)
    X = samples(rs, lo, up, 400)
    X[:len(X) // 4] *= (rs.uniform(size=(len(X) // 4, n)) > 0.5)
    X = np.clip(X, lo, up)
    with torch.no_grad():
        Y = m(B.t(X)).numpy()
    run.mark("layer", k, n)
    contain(run, "layer", a, b, Y, X)
    run.check(bool(np.all(npy(tl) == keep[0]) and np.all(npy(tu) == keep[1])),
              "layer:input-changed", "the input bounds were modified")


def affine(run, rs):
    """Control-affine models."""
    import neural_network_lyapunov.control_affine_system as cas
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    ch = run.ch
    faults = ch.flip("faults", 0.3)
    n_u = 1 + ch.choose("n_u", 2)
    r = ch.rngstate("affine")
    second = ch.flip("second", 0.6)
    nq = 1 + ch.choose("nq", 2)
    n = 2 * nq if second else 1 + ch.choose("n", 3)
    lo, up = a_box(run, "box", n, 0.7)
    ulo, uup = -r.uniform(0.1, 1., size=n_u), r.uniform(0.1, 1., size=n_u)
    hooks = policy(run, faults)
    X = samples(rs, lo, up)
    if second:
        pa = B.net(run, "a", n, nq, max_width=3)
        pb = B.net(run, "b", n, nq * n_u, max_width=3)
        s = cas.ReluSecondOrderControlAffineSystem(
            B.t(lo), B.t(up), B.t(ulo), B.t(uup), pa, pb,
            ch.pick("method", [M.IA, M.LP, M.MIP, M.IA_MIP]))
        av = B.net_at(B.layers_of(pa), X)
        bv = B.net_at(B.layers_of(pb), X)
        f = np.column_stack([X[:, nq:], av])
        G = np.column_stack([np.zeros((len(X), nq * n_u)), bv])
    else:
        A, Bm = r.randn(n, n), r.randn(n, n_u)
        s = cas.LinearSystem(B.t(A), B.t(Bm), B.t(lo), B.t(up), B.t(ulo),
                             B.t(uup))
        f = X @ A.T
        G = np.tile(Bm.reshape(-1), (len(X), 1))
    ret = guarded(run, s.mixed_integer_constraints)
    assert hooks
    quiet_solver()
    run.mark("affine", second, n, n_u, faults, ret is None)
    if ret is None:
        run.nontrivial = False
        return
    contain(run, "affine:f", ret.f_lo, ret.f_up, f, X)
    contain(run, "affine:G", ret.G_flat_lo, ret.G_flat_up, G, X)


def polytope(run, rs):
    """Variable ranges of a polytope (used for the modes of hybrid systems)"""
    import neural_network_lyapunov.utils as utils
    import neural_network_lyapunov.hybrid_linear_system as hls
    ch = run.ch
    faults = ch.flip("faults", 0.4)
    n = 1 + ch.choose("n", 3)
    lo, up = a_box(run, "box", n)
    up = np.maximum(up, lo + 0.05)
    r = ch.rngstate("poly")
    P = [np.eye(n), -np.eye(n)]
    q = [up, -lo]
    for _ in range(ch.choose("cuts", 3)):
        a = r.randn(n)
        P.append(a[None])
        q.append([a @ r.uniform(lo, up) + abs(r.randn()) * 0.2])
    P, q = np.vstack(P), np.concatenate(q)
    X = samples(rs, lo, up, 600)
    X = X[np.all(X @ P.T <= q + 1e-12, axis=1)]
    run.mark("polytope", n, len(q), faults)
    if len(X) == 0:
        run.nontrivial = False
        return
    policy(run, faults)
    for i in range(n):
        ret = guarded(run, lambda: utils.compute_bounds_from_polytope(
            B.t(P), B.t(q), i))
        if ret is None:
            continue
        a, b = ret
        run.note("bounds")
        t = 1e-5
        run.check(bool(X[:, i].min() >= a - t and X[:, i].max() <= b + t),
                  "polytope", lambda: f"coordinate {i}: [{a}, {b}] but "
                  f"[{X[:, i].min()}, {X[:, i].max()}] is reached")
    s = hls.AutonomousHybridLinearSystem(n, B.D)
    A, g = r.randn(n, n), r.randn(n)
    ok = guarded(run, lambda: s.add_mode(B.t(A), B.t(g), B.t(P), B.t(q))
                 or True)
    quiet_solver()
    if ok is None:
        return
    lo_x, up_x = np.asarray(s.x_lo_all), np.asarray(s.x_up_all)
    run.check(bool(np.all(X >= lo_x - 1e-5) and np.all(X <= up_x + 1e-5)),
              "polytope:mode", lambda: f"[{lo_x}, {up_x}]")
    dl, du = s.mode_derivative_bounds(0)
    dl, du = npy(dl).reshape(-1), npy(du).reshape(-1)
    Y = X @ A.T
    run.check(bool(np.all(Y >= dl - 1e-5 * (1 + abs(dl)))
                   and np.all(Y <= du + 1e-5 * (1 + abs(du)))),
              "polytope:derivative", lambda: f"[{dl}, {du}]")


def scenario(run):
    from gurobipy import hooks
    hooks.reset()
    hooks.chooser = run.ch
    hooks.note_counts = run.counts
    rs = run.ch.rngstate("oracle")
    k = KINDS[run.ch.choose("kind", len(KINDS))]
    run.scenario = k
    globals()[k](run, rs)
