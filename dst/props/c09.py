"""C09: the reported region of attraction is never too large.

The level rho is compared with an independent search for states of the box
which leave it (or lie on its boundary) below that level, with a solver that
may stop early on either program.
"""
import numpy as np

from dst import build as B

ID = "C09"
LEVEL = "exploration"
RUNS = dict(quick=450, thorough=40000)
RULE = ("one case = one system, candidate, larger box, upper bound and one "
        "computation of the level, with the solver's answers; non-trivial "
        "when a level was returned and compared with the independent search; "
        "distinct by system, candidate, boxes, solver statuses and which exit "
        "decides the level")
REAL = ["lyapunov.py (compute_region_of_attraction)", "dynamic_system.py",
        "relu_system.py", "hybrid_linear_system.py", "feedback_system.py",
        "relu_to_optimization.py", "gurobi_torch_mip.py"]
STUBS = ["gurobipy (simulated solver on HiGHS)"]
ASSUMPTIONS = [
    "a successor on the boundary of the box counts as leaving it",
    "successors outside the caller's larger box are not considered (the "
    "caller promises there are none)",
    "the solver's own claims are right: OPTIMAL means optimal up to round-off,"
    " the objective bound is a bound",
    "an exception raised after the solver failed to deliver is no level"]


def preload():
    import neural_network_lyapunov.lyapunov  # noqa
    import neural_network_lyapunov.utils  # noqa
    import neural_network_lyapunov.feedback_system  # noqa


def tol(*v):
    return 1e-5 * (1. + max([abs(x) for x in v if np.isfinite(x)] + [0.]))


def exits(p, c, lo_l, up_l):
    """(name, objective -V with constraints, box) for every way of being bad"""
    n = p.dim
    eye = np.eye(n)
    out = []
    for i in range(n):
        for side in (1, -1):
            def prog(o, x, i=i, side=side):
                xn = p.f(o, x)
                g = [o.lin(eye, -up_l, xn), o.lin(-eye, lo_l, xn)]
                e = eye[i:i + 1]
                if side > 0:
                    g.append(o.lin(-e, p.x_up[i:i + 1], xn))
                else:
                    g.append(o.lin(e, -p.x_lo[i:i + 1], xn))
                return o.scale(-1., c.V(o, x)), o.cat(g)
            out.append((("exit", i, side), prog, p.x_lo, p.x_up))
            lo, up = p.x_lo.copy(), p.x_up.copy()
            lo[i] = up[i] = p.x_up[i] if side > 0 else p.x_lo[i]

            def on_face(o, x):
                xn = p.f(o, x)
                return o.scale(-1., c.V(o, x)), o.cat(
                    [o.lin(eye, -p.x_up, xn), o.lin(-eye, p.x_lo, xn)])
            out.append((("face", i, side), on_face, lo, up))
    return out


def scenario(run):
    from gurobipy import hooks, GRB
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    from dst.session import membership_roundoff
    ch = run.ch
    faults = ch.flip("faults", 0.35)
    method = M.IA if ch.flip("ia", 0.75) else None
    contracting = [None, 0.5, 0.9][ch.choose("contracting", 3)]
    dim = [None, 2, 2, 3][ch.choose("dim", 4)]
    kinds = None if dim is None else ["relu", "hybrid", "relu_eq",
                                      "residual_eq"]
    p = B.plant(run, kinds, dim=dim, max_width=3, method=method,
                contracting=contracting)
    run.note("plant:" + p.kind)
    c = B.candidate(run, p, max_width=3)
    if ch.flip("big_lambda", 0.5):
        with __import__("torch").no_grad():
            c.phi[-1].weight.mul_(0.2)
        c.lam = max(float(c.lam), 0.5)
    s = B.lyap_system(p, c, run=run, method=method)
    r = ch.rngstate("larger")
    w = p.x_up - p.x_lo
    k = [[0.05, 1.], [0.5, 3.], [10., 10.]][ch.choose("margin", 3)]
    lo_l = p.x_lo - w * r.uniform(k[0], k[1], size=p.dim)
    up_l = p.x_up + w * r.uniform(k[0], k[1], size=p.dim)
    vals = c.V(B.Val, r.uniform(p.x_lo, p.x_up, size=(20, p.dim)))[:, 0]
    vub = [None, np.inf, float(np.median(vals)), float(np.max(vals)) + 1.][
        ch.choose("V_upper", 4)]
    hooks.chooser = ch
    hooks.note_counts = run.counts
    pol = dict(tie_break=0.3, inf_or_unbd=0., callback_incumbents=True)
    run.scenario = "faulty" if faults else "ideal"
    solved = []
    hooks.on_solve = lambda model, res, problem, opt: solved.append(
        (model, res))
    hooks.policy = dict(pol)
    if faults:
        hooks.policy.update(interrupt=ch.pick("p.int", [0.3, 0.1, 0.6]),
                            suboptimal=ch.pick("p.sub", [0.2, 0.5]),
                            limit=0.3)
    run.sample = dict(plant=p.kind, dim=p.dim, x_lo=p.x_lo.tolist(),
                      x_up=p.x_up.tolist(), larger=[lo_l.tolist(),
                                                    up_l.tolist()],
                      V_upper=None if vub is None else float(vub))
    try:
        rho = float(s.compute_region_of_attraction(
            float(c.lam), c.R_t, p.x_eq_t, vub, B.t(lo_l), B.t(up_l)))
    except Exception as e:
        hooks.policy = pol
        if any(k_.startswith("fault:") for k_ in run.counts):
            run.note("probe:error-after-fault")
            run.mark("error", type(e).__name__)
            run.nontrivial = False
            return
        raise
    hooks.policy = pol
    run.event("rho", round(rho, 7) if np.isfinite(rho) else rho)
    run.check(not np.isnan(rho), "nan", "rho is NaN")
    if vub is not None:
        run.check(rho <= vub + 1e-9, "upper-bound",
                  lambda: f"rho {rho} exceeds the bound {vub}")
    hints = points(solved, p)
    rs = ch.rngstate("oracle")
    vmin, who, arg = np.inf, None, None
    clean = not any(k_.startswith("fault:") for k_ in run.counts)
    for name, prog, lo, up in exits(p, c, lo_l, up_l):
        reg = B.Region(prog, lo, up, [np.clip(h, lo, up) for h in hints])
        b, a = reg.best(rs, 400, 30)
        run.note("programs")
        if -b < vmin:
            vmin, who, arg = -b, name, a
    run.mark(p.kind, p.dim, who, tuple(
        m.status for m, _ in solved[-2:]), vub is None)
    run.note("probe:level-" + (who[0] if who else "unbounded"))
    if not clean:
        run.note("probe:early-stop-judged")
    run.check(rho <= vmin + tol(vmin, rho), "too-large",
              lambda: f"rho = {rho} but the state {arg} has V = {vmin}, lies "
              f"in the box and is bad ({who}: leaves through that face, or "
              f"lies on it); successor "
              f"{p.f(B.Val, np.asarray(arg)[None])[0]}, box {p.x_lo} "
              f"{p.x_up}")
    if clean:
        want = min(vmin, np.inf if vub is None else vub)
        ok = rho >= want - 5 * tol(want, rho) if np.isfinite(want) \
            else rho == np.inf
        run.check(ok, "too-small",
                  lambda: f"rho = {rho}, but no state below {want} leaves the "
                  f"box or touches its boundary")
        run.note("probe:exact-level")
    assert GRB and membership_roundoff


def points(solved, p):
    """Candidate states from the solver's own solutions."""
    out, seen = [p.x_eq], set()
    for m, res in solved[::-1]:
        pool = getattr(res, "pool", None) or []
        for y, _ in pool[:1]:
            y = np.asarray(y, dtype=float)
            for i in range(len(y) - p.dim + 1):
                q = y[i:i + p.dim]
                if np.all(q >= p.x_lo - 1e-6) and np.all(
                        q <= p.x_up + 1e-6) and len(out) < 120:
                    key = tuple(np.round(q, 6))
                    if key not in seen:
                        seen.add(key)
                        out.append(np.clip(q, p.x_lo, p.x_up))
    return out
