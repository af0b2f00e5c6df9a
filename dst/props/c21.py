"""C21: every encoding describes exactly the graph of its function.

Programs are built around one encoding at a time, driven in random directions
under a simulated solver (any optimal vertex, early stops with incumbents), and
with the input fixed at corners, kinks and interior points; every point the
program admits must lie on the graph of the documented function, and every
point of the graph must be admitted.  The enumerations of one-sided gradients
are compared with a second enumeration and with gradients at nearby points.
"""
import itertools

import numpy as np
import torch

from dst import build as B

ID = "C21"
LEVEL = "exploration"
RUNS = dict(quick=2500, thorough=120000)
RULE = ("one case = one encoding (function, parameters, input box, binary "
        "type) with its random directions, solver answers and fixed inputs, or "
        "one enumeration of gradients or patterns, or one set of linear "
        "programs; non-trivial when at least one point or set was judged; "
        "distinct by scenario, shapes, branch taken, solver statuses")
REAL = ["utils.py (encodings, gradients, LP helpers)",
        "relu_to_optimization.py", "control_affine_system.py",
        "hybrid_linear_system.py", "relu_system.py", "feedback_system.py", "simple_pwl_lyapunov.py",
        "lyapunov.py (1-norm and boundary encodings)", "mip_utils.py",
        "gurobi_torch_mip.py", "r_options.py", "cvxpy"]
STUBS = ["gurobipy (simulated solver on HiGHS)"]
ASSUMPTIONS = [
    "a point within the solver's feasibility tolerance of the graph lies on "
    "it; at a kink the values of all adjacent pieces are admissible",
    "an exception raised after the solver failed to deliver is no answer"]
D = torch.float64


def preload():
    import neural_network_lyapunov.lyapunov  # noqa
    import neural_network_lyapunov.utils  # noqa
    import neural_network_lyapunov.feedback_system  # noqa
    import neural_network_lyapunov.control_affine_system  # noqa


def npy(v):
    return v.detach().numpy().astype(float) if torch.is_tensor(v) \
        else np.asarray(v, dtype=float)


def tol(*v):
    return 1e-5 * (1. + max([float(np.max(np.abs(x))) for x in v
                             if np.size(x)] + [0.]))


def policy(run, faults=True):
    from gurobipy import hooks
    hooks.chooser = run.ch
    hooks.note_counts = run.counts
    hooks.policy = dict(tie_break=0.5, inf_or_unbd=0.)
    if faults:
        hooks.policy.update(interrupt=run.ch.pick("p.int", [0., 0.1, 0.3]),
                            suboptimal=run.ch.pick("p.sub", [0., 0.1, 0.3]))


def quiet_solver():
    from gurobipy import hooks
    hooks.policy = {}
    hooks.chooser = None


def new_mip():
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    from gurobipy import GRB
    m = gtm.GurobiTorchMILP(D)
    m.gurobi_model.setParam(GRB.Param.OutputFlag, False)
    # absolute gap 0: the optimum is the optimum
    return m


def add(mip, ret, x, y, vt, tag=""):
    return mip.add_mixed_integer_linear_constraints(
        ret, x, y, "s" + tag, "b" + tag, "i" + tag, "e" + tag, "o" + tag, vt)


def xvars(mip, lo, up, name="x", free=False):
    from gurobipy import GRB
    if free:
        return mip.addVars(len(lo), lb=-50., ub=50., vtype=GRB.CONTINUOUS,
                           name=name)
    return mip.addVars(len(lo), lb=B.t(lo), ub=B.t(up), vtype=GRB.CONTINUOUS,
                       name=name)


def yvars(mip, n, name="y"):
    from gurobipy import GRB
    return mip.addVars(n, lb=-GRB.INFINITY, vtype=GRB.CONTINUOUS, name=name)


def vt_of(run, allow_relax=True):
    import gurobipy
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    k = run.ch.choose("vtype", 5) if allow_relax else 0
    vt = gurobipy.GRB.BINARY if k < 3 else (
        gtm.BINARYRELAX if k == 3 else gurobipy.GRB.CONTINUOUS)
    run.mark("vtype", k < 3)
    return vt, k < 3


# -- the judge ----------------------------------------------------------------
class Encoding:
    """mip with input variables x, output variables y; graph(X, tol) -> list
    of (value, binaries or None) admissible at the input X."""
    def __init__(self, name, mip, x, y, graph, lo, up, exact, points,
                 inside=None, meaning=None):
        self.name, self.mip, self.x, self.y = name, mip, x, y
        self.graph, self.lo, self.up = graph, np.asarray(lo), np.asarray(up)
        self.exact = exact
        self.points = points
        # inside(X): whether the input itself is admitted by the encoding
        self.inside = inside
        # meaning(X, Y) -> None or a complaint, reads the binaries
        self.meaning = meaning


def vertices(lo, up, cap=64):
    return np.array(list(itertools.islice(
        itertools.product(*zip(lo, up)), cap)))


def judge(run, e, n_dir=3, n_fix=4, faults=True):
    from gurobipy import GRB
    ch = run.ch
    rs = ch.rngstate("judge")
    m = e.mip.gurobi_model
    m.update()
    nx, ny = len(e.x), len(e.y)
    X = [np.asarray(p, dtype=float) for p in e.points]
    G = []  # (x, y)
    for x in X:
        if e.inside is not None and not e.inside(x, 0.):
            continue
        for y in e.graph(x, 1e-12):
            G.append((x, np.asarray(y, dtype=float)))

    def near(x, y):
        # the values around, in case the input sits within tolerance of a kink
        best = np.inf
        for w in e.graph(x, 1e-6):
            best = min(best, float(np.max(np.abs(y - w))) if ny else 0.)
        return best

    def on_graph(what):
        x = np.array([v.x for v in e.x])
        y = np.array([v.x for v in e.y])
        run.check(np.all(x >= e.lo - tol(e.lo)) and
                  np.all(x <= e.up + tol(e.up)), e.name + ":outside-box",
                  lambda: f"{what}: the input {x} is not in "
                  f"[{e.lo}, {e.up}]")
        if not e.exact:
            return x, y
        if e.inside is not None:
            run.check(e.inside(x, 1e-5), e.name + ":inadmissible-input",
                      lambda: f"{what}: the program admits {x}")
        d = near(x, y)
        run.check(d <= tol(y, x), e.name + ":off-graph",
                  lambda: f"{what}: the program admits ({x}, {y}), the "
                  f"function has {list(e.graph(x, 1e-6))}")
        if e.meaning is not None:
            bad = e.meaning(x, y)
            run.check(bad is None, e.name + ":binaries",
                      lambda: f"{what}: x={x} y={y}: {bad}")
        return x, y

    # random directions
    for k in range(n_dir):
        cx = rs.normal(size=nx) * (rs.uniform() < 0.6)
        cy = rs.normal(size=ny) if ny else np.zeros(0)
        if ny and rs.uniform() < 0.3:
            cy = np.eye(ny)[rs.randint(ny)] * rs.choice([-1., 1.])
            cx *= 0
        mx = bool(rs.randint(2))
        co, va = [B.t(cx)], [e.x]
        if ny:
            co, va = co + [B.t(cy)], va + [e.y]
        e.mip.setObjective(co, va, 0.,
                           GRB.MAXIMIZE if mx else GRB.MINIMIZE)
        policy(run, faults)
        m.optimize()
        st = m.status
        quiet_solver()
        run.mark("dir", st)
        if st in (GRB.INFEASIBLE, GRB.INF_OR_UNBD):
            run.check(not G, e.name + ":infeasible",
                      lambda: f"no point is admitted, but {G[0]} is on the "
                      "graph")
            continue
        if st == GRB.UNBOUNDED:
            run.check(not e.exact, e.name + ":unbounded",
                      "the program is unbounded")
            continue
        if m.SolCount > 0:
            on_graph(f"direction {cx, cy}, status {st}")
        if st == GRB.OPTIMAL and G:
            vals = [cx @ a + (cy @ b if ny else 0.) for a, b in G]
            best = max(vals) if mx else min(vals)
            run.check((m.ObjVal - best) * (1 if mx else -1) >=
                      -tol(best, m.ObjVal), e.name + ":missing",
                      lambda: f"the optimum is {m.ObjVal}, but "
                      f"{G[int(np.argmax(vals) if mx else np.argmin(vals))]} "
                      f"on the graph attains {best}")
    # fixed inputs
    order = rs.permutation(len(G))[:n_fix]
    for k in order:
        x, y = G[k]
        m.update()
        keep = [(v.lb, v.ub) for v in e.x]
        for v, a in zip(e.x, x):
            v.lb = v.ub = a
        cy = rs.normal(size=ny)
        for mx in ((True, False) if e.exact else (True, )):
            obj = ([B.t(cy)], [e.y]) if ny else ([B.t(np.zeros(nx))], [e.x])
            e.mip.setObjective(*obj, 0.,
                               GRB.MAXIMIZE if mx else GRB.MINIMIZE)
            m.optimize()
            st = m.status
            run.check(st == GRB.OPTIMAL, e.name + ":input-cut-off",
                      lambda: f"with the input fixed at {x} (value {y}) the "
                      f"program has status {st}")
            on_graph(f"input fixed at {x}")
            if ny:
                vals = [cy @ np.asarray(w) for w in e.graph(x, 1e-12)]
                best = max(vals) if mx else min(vals)
                run.check((m.ObjVal - best) * (1 if mx else -1) >=
                          -tol(best), e.name + ":value-cut-off",
                          lambda: f"at {x} the program has {m.ObjVal}, the "
                          f"function {best}")
        if not e.exact and ny:
            # a relaxation contains the point itself
            ky = [(v.lb, v.ub) for v in e.y]
            for v, a in zip(e.y, y):
                v.lb, v.ub = a - 1e-7 * (1 + abs(a)), a + 1e-7 * (1 + abs(a))
            e.mip.setObjective([B.t(np.zeros(nx))], [e.x], 0., GRB.MAXIMIZE)
            m.optimize()
            st = m.status
            run.check(st == GRB.OPTIMAL, e.name + ":relaxation-misses",
                      lambda: f"the relaxation excludes ({x}, {y})")
            for v, (a, b) in zip(e.y, ky):
                v.lb, v.ub = a, b
        for v, (a, b) in zip(e.x, keep):
            v.lb, v.ub = a, b
    m.update()
    run.nontrivial = bool(G)


def interval(run, rs, name="x"):
    """(lo, up) in every position relative to zero."""
    k = run.ch.choose(name + ".sign", 8)
    a, b = rs.uniform(0.05, 3., 2)
    run.mark(name, k)
    return [(-a, b), (-a, b), (-a, b), (a, a + b), (-a - b, -a), (0., b),
            (-a, 0.), (a, a)][k]


def spread(rs, lo, up, kinks=(), n=5):
    pts = [lo, up] + [float(v) for v in rs.uniform(lo, up, n)]
    pts += [k for k in kinks if lo <= k <= up]
    return [np.array([p]) for p in pts]


def slope_of(run):
    return run.ch.pick("slope", [0.1, 0.5, 0.01, 2., 0., -0.3, 1.])


# -- single units -------------------------------------------------------------
def unit(run):
    import neural_network_lyapunov.utils as U
    from gurobipy import GRB
    ch = run.ch
    rs = ch.rngstate("unit")
    kind = ch.pick("unit", ["product", "leaky_gradient", "relu", "leaky_relu",
                            "abs", "abs3", "max", "boundary", "interval"])
    run.scenario = "unit:" + kind
    vt, exact = vt_of(run)
    mip = new_mip()
    if kind in ("product", "leaky_gradient", "relu", "leaky_relu"):
        if kind in ("relu", "leaky_relu"):
            a, b = rs.uniform(0.05, 3., 2)
            lo, up = -a, b
        else:
            lo, up = interval(run, rs)
        c = 0.
        as_float = ch.flip("float", 0.3)
        L = float(lo) if as_float else torch.tensor(lo, dtype=D)
        P = float(up) if as_float else torch.tensor(up, dtype=D)
        if kind == "product":
            rows = U.replace_binary_continuous_product(L, P)
        elif kind == "leaky_gradient":
            c = slope_of(run)
            rows = U.leaky_relu_gradient_times_x(L, P, c)
        elif kind == "relu":
            rows = U.replace_relu_with_mixed_integer_constraint(L, P)
        else:
            c = slope_of(run)
            rows = U.replace_leaky_relu_mixed_integer_constraint(c, L, P)
        run.mark(c)
        x = xvars(mip, [lo], [up])
        y = yvars(mip, 1)
        be = mip.addVars(1, lb=0., ub=1., vtype=vt, name="beta")
        mip.addMConstr([r.reshape((-1, 1)) for r in rows[:3]], [x, y, be],
                       sense=GRB.LESS_EQUAL, b=rows[3])

        free = kind in ("product", "leaky_gradient")

        # inputs: x, and the binary as a second input where it is free
        def value(X, act):
            return X if act else c * X

        if free:
            def graph(X, t):
                act = X[1] > 0.5
                yield np.array([value(X[0], act)])

            def inside(X, t):
                return min(abs(X[1]), abs(X[1] - 1.)) <= max(t, 1e-9)
            pts = [np.array([p[0], k]) for p in spread(rs, lo, up, [0.])
                   for k in (0., 1.)]
            judge(run, Encoding(kind, mip, x + be, y, graph, [lo, 0.],
                                [up, 1.], exact, pts, inside))
            return

        def graph(X, t):
            if X[0] >= -t:
                yield np.array([X[0]])
            if X[0] <= t:
                yield np.array([c * X[0]])

        def meaning(X, Y):
            if c == 1.:  # both branches are the same function
                return
            if be[0].x > 0.5 and X[0] < -tol(lo):
                return "the binary says active"
            if be[0].x < 0.5 and X[0] > tol(up):
                return "the binary says inactive"
        judge(run, Encoding(kind, mip, x, y, graph, [lo], [up], exact,
                            spread(rs, lo, up, [0.]), meaning=meaning))
        if kind == "relu" and not exact:
            # documented as the convex hull of the two segments
            co = rs.normal(size=3)
            mip.setObjective([B.t(co[:1]), B.t(co[1:2]), B.t(co[2:])],
                             [x, y, be], 0., GRB.MAXIMIZE)
            mip.gurobi_model.optimize()
            want = max(co[0] * X + co[1] * Y + co[2] * bb for X, Y, bb in
                       [(lo, 0., 0.), (0., 0., 0.), (0., 0., 1.),
                        (up, up, 1.)])
            run.check(mip.gurobi_model.status == GRB.OPTIMAL and
                      abs(mip.gurobi_model.ObjVal - want) <= tol(want),
                      "relu:hull", lambda: f"the relaxation reaches "
                      f"{mip.gurobi_model.ObjVal}, the hull {want}")
        return
    if kind == "interval":
        c = slope_of(run)
        lo, up = interval(run, rs)
        if lo == up:
            up = lo + 1.
        tens = ch.flip("tensor", 0.5)
        conv = (lambda v: torch.tensor(v, dtype=D)) if tens else float
        a, b = U.leaky_relu_interval(c, conv(lo), conv(up))
        f = [X[0] if X[0] >= 0 else c * X[0]
             for X in spread(rs, lo, up, [0.], 0)]
        run.check(abs(float(a) - min(f)) <= 1e-12 and
                  abs(float(b) - max(f)) <= 1e-12, "interval",
                  lambda: f"slope {c} on [{lo}, {up}]: [{float(a)}, "
                  f"{float(b)}], the function ranges over "
                  f"[{min(f)}, {max(f)}]")
        run.nontrivial = True
        return
    if kind in ("abs", "abs3"):
        lo, up = interval(run, rs)
        three = kind == "abs3"
        as_float = ch.flip("float", 0.3)
        conv = float if as_float else (lambda v: torch.tensor(v, dtype=D))
        ret = U.absolute_value_as_mixed_integer_constraint(
            conv(lo), conv(up), binary_for_zero_input=three)
        direct = ch.flip("output", 0.5)
        x = xvars(mip, [lo], [up])
        y = yvars(mip, 1) if direct else None
        s, be = add(mip, ret, x, y, vt)
        if y is None:
            y = s
        run.check(len(be) == (3 if three else 1), kind + ":binaries-number",
                  f"{len(be)} binaries")

        def graph(X, t):
            yield np.array([abs(X[0])])

        def meaning(X, Y):
            v = [q.x > 0.5 for q in be]
            t = tol(lo, up)
            if not three:
                if (v[0] and X[0] < -t) or (not v[0] and X[0] > t):
                    return f"binary {v}"
            elif sum(v) != 1 or (v[0] and X[0] > t) or (
                    v[1] and abs(X[0]) > t) or (v[2] and X[0] < -t):
                return f"binaries {v}"
        judge(run, Encoding(kind, mip, x, y, graph, [lo], [up], exact,
                            spread(rs, lo, up, [0.]), meaning=meaning))
        if three and exact and lo <= 0 <= up:
            # each of the adjacent descriptions of zero is admitted
            m = mip.gurobi_model
            for k, ok in ((0, lo < 0), (1, True), (2, up > 0)):
                x[0].lb = x[0].ub = 0.
                was = be[k].lb, be[k].ub
                if be[k].ub < 1.:
                    run.check(not ok, kind + ":zero-description",
                              f"binary {k} cannot be 1")
                    continue
                be[k].lb = 1.
                m.optimize()
                run.check((m.status == GRB.OPTIMAL) or not ok,
                          kind + ":zero-description",
                          lambda: f"x=0 with binary {k} set: {m.status}")
                be[k].lb, be[k].ub = was
        return
    n = 1 + ch.choose("n", 4)
    run.mark(n)
    lo = rs.uniform(-2., 1., n)
    up = lo + rs.uniform(0.05, 2., n)
    if ch.flip("point", 0.2):
        j = rs.randint(n)
        up[j] = lo[j]
    if ch.flip("dominated", 0.5) and n > 1 and kind == "max":
        k = 1 + rs.randint(n - 1)
        sh = up.max() - lo.min() + rs.uniform(0.01, 1.)
        for j in rs.permutation(n)[:k]:
            lo[j] -= sh
            up[j] -= sh
        run.mark("dominated", k)
    pts = list(vertices(lo, up)) + [rs.uniform(lo, up) for _ in range(6)]
    for _ in range(3):
        p = rs.uniform(lo, up)
        p = np.clip(np.full(n, p[rs.randint(n)]), lo, up)
        pts.append(p)
    if kind == "max":
        ret = U.max_as_mixed_integer_constraint(B.t(lo), B.t(up))
        x, y = xvars(mip, lo, up), yvars(mip, 1)
        s, be = add(mip, ret, x, y, vt)

        def graph(X, t):
            yield np.array([X.max()])

        def meaning(X, Y):
            v = [q.x > 0.5 for q in be]
            if sum(v) != 1 or X[v.index(True)] < X.max() - tol(lo, up):
                return f"binaries {v}"
        judge(run, Encoding(kind, mip, x, y, graph, lo, up, exact, pts,
                            meaning=meaning))
        return
    # box boundary: a set, not a function
    ret = U.box_boundary(B.t(lo), B.t(up))
    x = xvars(mip, lo, up, free=True)
    s, be = add(mip, ret, x, None, vt)

    def inside(X, t):
        return bool(np.any(np.abs(X - lo) <= t + 1e-12) or
                    np.any(np.abs(X - up) <= t + 1e-12))

    def meaning(X, Y):
        v = np.array([q.x > 0.5 for q in be])
        t = tol(lo, up)
        if v.sum() != 1:
            return f"binaries {v}"
        j = int(np.argmax(v))
        face = up[j] if j < n else lo[j - n]
        if abs(X[j % n] - face) > t:
            return f"binary {j} set"
    faces = []
    for _ in range(8):
        p = rs.uniform(lo, up)
        j = rs.randint(n)
        p[j] = (lo, up)[rs.randint(2)][j]
        faces.append(p)
    judge(run, Encoding(kind, mip, x, [], lambda X, t: [np.zeros(0)], lo, up,
                        exact, list(vertices(lo, up)) + faces, inside,
                        meaning=meaning))


# -- saturation ---------------------------------------------------------------
def saturation(run):
    import neural_network_lyapunov.utils as U
    ch = run.ch
    rs = ch.rngstate("sat")
    run.scenario = "saturation"
    lo, up = -rs.uniform(0.1, 2.), rs.uniform(0.1, 2.)
    sh = rs.uniform(-1., 1.)
    lo, up = lo + sh, up + sh
    w = up - lo
    case = ch.choose("case", 8)
    g = rs.uniform(0.05, 1., 2) * w
    a, b = [(lo - g[0], up + g[1]), (lo - g[0], lo + g[1]),
            (up - g[0], up + g[1]), (lo + 0.3 * g[0], up - 0.3 * g[1]),
            (lo - g[0] - g[1], lo - g[0]), (up + g[0], up + g[0] + g[1]),
            (lo, up), (lo - g[0], lo)][case]
    if ch.flip("edge", 0.1):
        a, b = ch.pick("edges", [(lo, up + g[1]), (lo - g[0], up),
                                 (up, up + g[1])])
    run.mark(case)
    vt, exact = vt_of(run)
    mip = new_mip()
    x, y = xvars(mip, [a], [b]), yvars(mip, 1)
    tens = ch.flip("tensor", 0.5)
    conv = (lambda v: torch.tensor(v, dtype=D)) if tens else float
    be = U.add_saturation_as_mixed_integer_constraint(
        mip, x[0], y[0], conv(lo), conv(up), conv(a), conv(b), vt)
    need = []
    if a < lo < b:
        need.append("lower")
    if a < up < b:
        need.append("upper")
    run.check(len(be) == len(need), "saturation:binaries-number",
              lambda: f"{len(be)} binaries for inputs in [{a}, {b}], limits "
              f"[{lo}, {up}]")

    def graph(X, t):
        yield np.array([min(max(X[0], lo), up)])

    def meaning(X, Y):
        t = tol(a, b)
        for v, k in zip(be, need):
            on = v.x > 0.5
            if k == "lower" and ((on and X[0] > lo + t) or
                                 (not on and X[0] < lo - t)):
                return f"b_lower = {v.x}"
            if k == "upper" and ((on and X[0] < up - t) or
                                 (not on and X[0] > up + t)):
                return f"b_upper = {v.x}"
    judge(run, Encoding("saturation", mip, x, y, graph, [a], [b], exact,
                        spread(rs, a, b, [lo, up]), meaning=meaning))


# -- networks -----------------------------------------------------------------
def a_net(run, d, dout, relu_only=False, max_hidden=2):
    ch = run.ch
    slope = None
    if relu_only:
        slope = 0.
    elif ch.flip("steep", 0.15):
        slope = ch.pick("steep_slope", [2., 1.])
    net = B.net(run, "net", d, dout, max_hidden, 4, slope=slope)
    if relu_only:
        net = torch.nn.Sequential(*[
            torch.nn.ReLU() if isinstance(k, torch.nn.LeakyReLU) else k
            for k in net])
    return net


def net_box(run, rs, d):
    lo = rs.uniform(-2., 0.3, d)
    up = lo + rs.uniform(0.3, 3., d)
    if run.ch.flip("point", 0.1):
        j = rs.randint(d)
        up[j] = lo[j]
    return lo, up


def kink_points(rs, L, lo, up, n):
    """points of the box on some unit's kink"""
    out = []
    for _ in range(n):
        a, b = rs.uniform(lo, up), rs.uniform(lo, up)
        pa, pb = B.hidden_at(L, a[None])[0], B.hidden_at(L, b[None])[0]
        diff = [(i, j) for i in range(len(pa))
                for j in range(pa[i].shape[1])
                if pa[i][0, j] * pb[i][0, j] < 0]
        if not diff:
            continue
        i, j = diff[rs.randint(len(diff))]
        sa = pa[i][0, j]
        for _ in range(60):
            m = (a + b) / 2
            v = B.hidden_at(L, m[None])[0][i][0, j]
            if v == 0:
                break
            if v * sa > 0:
                a = m
            else:
                b = m
        out.append((a + b) / 2)
    return out


def network(run):
    import neural_network_lyapunov.relu_to_optimization as r2o
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    ch = run.ch
    run.scenario = "network"
    rs = ch.rngstate("network.rng")
    d, dout = 1 + ch.choose("d_in", 3), 1 + ch.choose("d_out", 2)
    net = a_net(run, d, dout)
    L = B.layers_of(net)
    lo, up = net_box(run, rs, d)
    method = ch.pick("method", [M.IA, M.LP, M.MIP, M.IA_MIP])
    run.mark(method.name)
    fp = r2o.ReLUFreePattern(net, D)
    ret = fp.output_constraint(B.t(lo), B.t(up), method)
    vt, exact = vt_of(run)
    mip = new_mip()
    free = ch.flip("free", 0.5)
    x, y = xvars(mip, lo, up, free=free), yvars(mip, dout)
    s, be = add(mip, ret, x, y, vt)

    def graph(X, t):
        yield B.net_at(L, X)

    def meaning(X, Y):
        pre, post, _ = B.hidden_at(L, X[None])
        z = np.concatenate([p[0] for p in pre])
        a = np.concatenate([p[0] for p in post])
        sv = np.array([v.x for v in s])
        if np.max(np.abs(sv - a)) > tol(a):
            return f"unit outputs {sv}, the network has {a}"
        slopes = np.concatenate([np.full(W.shape[0], c) for W, _, c in L
                                 if c is not None])
        for k, v in enumerate(be):
            if slopes[k] != 1. and ((v.x > 0.5 and z[k] < -tol(z)) or (
                    v.x < 0.5 and z[k] > tol(z))):
                return f"unit {k} has input {z[k]}, its binary is {v.x}"
    pts = list(vertices(lo, up)) + [rs.uniform(lo, up) for _ in range(5)] + \
        kink_points(rs, L, lo, up, 4)
    judge(run, Encoding("network", mip, x, y, graph, lo, up, exact, pts,
                        meaning=meaning))
    # the helper that evaluates the units
    X = pts[rs.randint(len(pts))]
    z, b, out = fp.compute_relu_unit_outputs_and_activation(B.t(X))
    pre, post, val = B.hidden_at(L, X[None])
    run.check(np.allclose(npy(z).reshape(-1),
                          np.concatenate([p[0] for p in post])) and
              np.allclose(npy(out).reshape(-1), val[0]), "network:units",
              lambda: f"at {X}: {z}, {out}")
    pz = np.concatenate([p[0] for p in pre])
    run.check(bool(np.all((npy(b).reshape(-1) > 0.5) == (pz > 0)) or
                   np.min(np.abs(pz)) < 1e-9), "network:activation",
              lambda: f"at {X}: {b}")


def pattern_gradient(L, acts, y=None):
    """output gradient (times y) for the activations, layer by layer"""
    g = np.eye(L[0][0].shape[1]) if y is None else np.asarray(y)
    k = 0
    for W, b, s in L:
        g = W @ g
        if s is not None:
            a = np.asarray(acts[k], dtype=float)
            f = a + (1 - a) * s
            g = (f[:, None] * g) if g.ndim == 2 else f * g
            k += 1
    return g


def gradient_times_vector(run):
    import neural_network_lyapunov.relu_to_optimization as r2o
    ch = run.ch
    run.scenario = "gradient-times-vector"
    rs = ch.rngstate("gtv")
    d, dout = 1 + ch.choose("d_in", 3), 1 + ch.choose("d_out", 2)
    net = a_net(run, d, dout)
    L = B.layers_of(net)
    lo, up = net_box(run, rs, d)
    fp = r2o.ReLUFreePattern(net, D)
    ret = fp.output_gradient_times_vector(B.t(lo), B.t(up))
    if ch.flip("wider", 0.3):
        k = 1. + rs.uniform(0., 2.)

        def widen(a, b):
            return ([v - k * torch.abs(v) for v in a],
                    [v + k * torch.abs(v) for v in b])
        ret = fp.output_gradient_times_vector_w_bounds(
            *widen(ret.z_lo, ret.z_up), *widen(ret.Wz_lo, ret.Wz_up))
        run.mark("wider")
    vt, exact = vt_of(run)
    mip = new_mip()
    x, y = xvars(mip, lo, up), yvars(mip, dout)
    s, be = add(mip, ret, x, y, vt)
    sizes = [W.shape[0] for W, _, sl in L if sl is not None]
    nb = len(be)

    def acts(b):
        out, k = [], 0
        for n in sizes:
            out.append(np.round(b[k:k + n]))
            k += n
        return out

    def graph(X, t):
        yield pattern_gradient(L, acts(X[d:]), X[:d])

    def inside(X, t):
        return bool(np.all(np.minimum(np.abs(X[d:]), np.abs(X[d:] - 1))
                           <= max(t, 1e-9)))
    pts = []
    for _ in range(10):
        v = rs.uniform(lo, up)
        if rs.uniform() < 0.4:
            v = np.where(rs.uniform(size=d) < 0.5, lo, up)
        pts.append(np.append(v, rs.randint(2, size=nb).astype(float)))
    judge(run, Encoding("gradient-times-vector", mip, x + be, y, graph,
                        np.append(lo, np.zeros(nb)), np.append(up, np.ones(nb)),
                        exact, pts, inside))


def output_gradient(run):
    import gurobipy
    import neural_network_lyapunov.relu_to_optimization as r2o
    from gurobipy import GRB
    ch = run.ch
    run.scenario = "output-gradient"
    rs = ch.rngstate("og")
    d = 1 + ch.choose("d_in", 3)
    net = a_net(run, d, 1, relu_only=True, max_hidden=3)
    L = B.layers_of(net)
    fp = r2o.ReLUFreePattern(net, D)
    M, B1, B2, dd = fp.output_gradient()
    sizes = [W.shape[0] for W, _, sl in L if sl is not None]
    nb, na = sum(sizes), M.shape[0]
    mip = new_mip()
    cont = ch.flip("continuous_alpha", 0.5)
    al = mip.addVars(na, lb=0., ub=1.,
                     vtype=GRB.CONTINUOUS if cont else GRB.BINARY, name="al")
    be = mip.addVars(nb, lb=0., ub=1., vtype=gurobipy.GRB.BINARY, name="be")
    y = yvars(mip, d)
    mip.addMConstr([B1, B2], [al, be], sense=GRB.LESS_EQUAL,
                   b=dd.reshape((-1, )))
    mip.addMConstr([M.T, -torch.eye(d, dtype=D)], [al, y], sense=GRB.EQUAL,
                   b=torch.zeros(d, dtype=D))

    def acts(b):
        out, k = [], 0
        for n in sizes:
            out.append(np.round(b[k:k + n]))
            k += n
        return out

    def graph(X, t):
        yield pattern_gradient(L, acts(X))[0]

    def inside(X, t):
        return bool(np.all(np.minimum(np.abs(X), np.abs(X - 1))
                           <= max(t, 1e-9)))
    pts = [rs.randint(2, size=nb).astype(float) for _ in range(6)] + \
        [np.ones(nb), np.zeros(nb)]
    judge(run, Encoding("output-gradient", mip, be, y, graph, np.zeros(nb),
                        np.ones(nb), True, pts, inside), n_dir=2, n_fix=4)


# -- dynamics -----------------------------------------------------------------
def control_affine(run):
    import neural_network_lyapunov.control_affine_system as cas
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    ch = run.ch
    rs = ch.rngstate("cas")
    m_u = 1 + ch.choose("u_dim", 2)
    linear = ch.flip("linear", 0.3)
    run.scenario = "control-affine"
    n = 1 + ch.choose("dim", 3) if linear else 2 * (1 + ch.choose("nq", 2))
    run.mark(linear, n, m_u)
    lo, up = net_box(run, rs, n)
    ulo = rs.uniform(-2., 0., m_u)
    uup = ulo + rs.uniform(0.1, 2., m_u)
    if linear:
        A, Bm = rs.normal(size=(n, n)), rs.normal(size=(n, m_u))
        s = cas.LinearSystem(B.t(A), B.t(Bm), B.t(lo), B.t(up), B.t(ulo),
                             B.t(uup))

        def f(X):
            return A @ X

        def G(X):
            return Bm
        La = []
    else:
        nq = n // 2
        pa = B.net(run, "phi_a", n, nq, 2, 3)
        pb = B.net(run, "phi_b", n, nq * m_u, 2, 3)
        La, Lb = B.layers_of(pa), B.layers_of(pb)
        meth = ch.pick("method", [M.IA, M.LP, M.MIP, M.IA_MIP])
        s = cas.ReluSecondOrderControlAffineSystem(
            B.t(lo), B.t(up), B.t(ulo), B.t(uup), pa, pb, meth)

        def f(X):
            return np.append(X[nq:], B.net_at(La, X))

        def G(X):
            return np.vstack([np.zeros((nq, m_u)),
                              B.net_at(Lb, X).reshape((nq, m_u))])
    ret = s.mixed_integer_constraints()
    which = ch.flip("G", 0.5)
    cn = ret.mip_cnstr_G if which else ret.mip_cnstr_f
    fun = (lambda X: G(X).reshape(-1)) if which else f
    blo, bup = (ret.G_flat_lo, ret.G_flat_up) if which else (
        ret.f_lo, ret.f_up)
    pts = list(vertices(lo, up)) + [rs.uniform(lo, up) for _ in range(6)]
    if La:
        pts += kink_points(rs, Lb if which else La, lo, up, 3)
    for X in pts:
        v = fun(X)
        run.check(np.all(v >= npy(blo) - tol(v)) and
                  np.all(v <= npy(bup) + tol(v)), "control-affine:bounds",
                  lambda: f"{'G' if which else 'f'} at {X} is {v}, bounds "
                  f"{blo}, {bup}")
        xt = B.t(X)
        run.check(np.allclose(npy(s.f(xt)), f(X), atol=1e-9) and
                  np.allclose(npy(s.G(xt)), G(X), atol=1e-9),
                  "control-affine:evaluation", lambda: f"at {X}")
        u = rs.uniform(ulo - 1., uup + 1.)
        want = f(X) + G(X) @ np.clip(u, ulo, uup)
        run.check(np.allclose(npy(s.dynamics(xt, B.t(u))), want, atol=1e-9),
                  "control-affine:dynamics",
                  lambda: f"at {X}, {u}: {s.dynamics(xt, B.t(u))}, expected "
                  f"{want}")
    vt, exact = vt_of(run)
    mip = new_mip()
    x = xvars(mip, lo, up)
    y = yvars(mip, n * m_u if which else n)
    add(mip, cn, x, y, vt)
    judge(run, Encoding("control-affine", mip, x, y,
                        lambda X, t: [fun(X)], lo, up, exact, pts))


def hybrid(run):
    """hybrid dynamics, with the caller's own bounds"""
    import neural_network_lyapunov.hybrid_linear_system as hls
    ch = run.ch
    rs = ch.rngstate("hyb")
    run.scenario = "hybrid"
    n = 1 + ch.choose("dim", 2)
    m_u = ch.choose("u_dim", 3)
    N = n + m_u
    lo, up = net_box(run, rs, N)
    up = np.maximum(up, lo + 0.1)
    modes = B.partition(run, lo, up, n)
    As = [rs.normal(size=(n, N)) for _ in modes]
    cs = [rs.normal(size=n) for _ in modes]
    if m_u:
        s = hls.HybridLinearSystem(n, m_u, D)
    else:
        s = hls.AutonomousHybridLinearSystem(n, D)
    overlap = ch.flip("overlap", 0.3)
    Pq = []
    for (P, q), A, c in zip(modes, As, cs):
        if overlap:
            q = q + 0.1 * np.linalg.norm(P, axis=1)
        Pq.append((P, q))
        if m_u:
            s.add_mode(B.t(A[:, :n]), B.t(A[:, n:]), B.t(c), B.t(P), B.t(q))
        else:
            s.add_mode(B.t(A), B.t(c), B.t(P), B.t(q))
    blo, bup = lo.copy(), up.copy()
    if overlap:
        blo, bup = blo - 0.1, bup + 0.1
    full_lo, full_up = blo.copy(), bup.copy()
    kw = {}
    give = ch.choose("bounds", 4)
    names = [("x_lo", 0, n, 0), ("x_up", 0, n, 1)] + (
        [("u_lo", n, N, 0), ("u_up", n, N, 1)] if m_u else [])
    if give:
        for nm, i, j, side in names:
            if give == 3 or ch.flip("give." + nm, 0.5):
                w = (full_up - full_lo)[i:j]
                # tighter or (uselessly) wider than the modes
                sh = rs.uniform(-0.2, 0.4, size=j - i) * w
                v = (full_up[i:j] - sh) if side else (full_lo[i:j] + sh)
                kw[nm] = B.t(v) if ch.flip("as_tensor", 0.6) else v
                if side:
                    bup[i:j] = np.minimum(bup[i:j], v)
                else:
                    blo[i:j] = np.maximum(blo[i:j], v)
    run.mark(n, m_u, len(modes), tuple(sorted(kw)))
    ret = s.mixed_integer_constraints(**kw)
    vt, exact = vt_of(run)
    mip = new_mip()
    x, y = xvars(mip, full_lo - 1., full_up + 1.), yvars(mip, n)
    _, be = add(mip, ret, x, y, vt)

    def graph(X, t):
        for (P, q), A, c in zip(Pq, As, cs):
            if np.all(P @ X <= q + t):
                yield A @ X + c

    def inside(X, t):
        t = max(t, 1e-12)
        return bool(np.all(X >= blo - t) and np.all(X <= bup + t) and
                    any(np.all(P @ X <= q + t * 10 * (
                        1 + np.linalg.norm(P, axis=1))) for P, q in Pq))

    def near_graph(X, t):
        out = list(graph(X, t * 100 if t > 1e-9 else t))
        return out

    def meaning(X, Y):
        v = [q.x > 0.5 for q in be]
        if sum(v) != 1:
            return f"binaries {v}"
        k = v.index(True)
        P, q = Pq[k]
        if np.any(P @ X > q + 1e-4) or np.max(np.abs(
                As[k] @ X + cs[k] - Y)) > tol(Y) * 10:
            return f"mode {k}"
    pts = [rs.uniform(blo, bup) for _ in range(10)] + list(
        vertices(blo, bup))
    # the modes' own bounds
    for k, (P, q) in enumerate(Pq):
        for j in range(N):
            got = (s.x_lo[k][j], s.x_up[k][j]) if j < n else (
                s.u_lo[k][j - n], s.u_up[k][j - n])
            e = np.eye(N)[j]
            hi = B.lp_max(e, P, q, full_lo - 5, full_up + 5)
            lw = B.lp_max(-e, P, q, full_lo - 5, full_up + 5)
            run.check(abs(got[1] - hi[0]) <= 1e-6 and
                      abs(got[0] + lw[0]) <= 1e-6, "hybrid:mode-bounds",
                      lambda: f"mode {k} coordinate {j}: {got}, exactly "
                      f"{-lw[0], hi[0]}")
        if not m_u:
            low, upp = s.mode_derivative_bounds(k)
            for j in range(n):
                hi = B.lp_max(As[k][j], P, q, full_lo - 5, full_up + 5)
                lw = B.lp_max(-As[k][j], P, q, full_lo - 5, full_up + 5)
                run.check(upp[j] >= hi[0] - 1e-5 and low[j] <= -lw[0] + 1e-5,
                          "hybrid:derivative-bounds",
                          lambda: f"mode {k}: {low, upp}")
    judge(run, Encoding("hybrid", mip, x, y, near_graph, blo, bup, exact, pts,
                        inside, meaning=meaning))
    # evaluation agrees
    for X in pts[:6]:
        vals = list(graph(X, 0.))
        if not vals:
            continue
        xt = B.t(X)
        got = s.possible_dx(xt[:n], xt[n:]) if m_u else s.possible_dx(xt)
        run.check(len(got) == len(vals) and all(
            any(np.allclose(npy(a), b, atol=1e-9) for a in got)
            for b in vals), "hybrid:possible",
                  lambda: f"at {X}: {got}, expected {vals}")


def closed_loop(run):
    """x -> x_next of every kind of system through its own constraints"""
    from gurobipy import GRB
    ch = run.ch
    rs = ch.rngstate("cl")
    ex = ch.flip("examples", 0.35)
    run.scenario = "closed-loop" + ("-examples" if ex else "")
    if ex:
        p = B.plant(run, kinds=list(B.EXAMPLES), max_width=3)
        specialised(run, p)
    else:
        cont = ch.flip("continuous", 0.2)
        kinds = ["relu_eq", "residual_eq", "relu", "hybrid"] + (
            [] if cont else B.FEEDBACK)
        p = B.plant(run, kinds=kinds, continuous=cont, max_width=3)
    vt, exact = vt_of(run)
    mip = new_mip()
    n = p.dim
    lo, up = np.asarray(p.system.x_lo_all), np.asarray(p.system.x_up_all)
    x, y = xvars(mip, lo, up), yvars(mip, n)
    ret = None
    if p.controller is not None:
        u, ret, _ = p.system.add_dynamics_mip_constraint(
            mip, x, y, "u", "fs", "fb", "cs", "cb", vt)
        y = y + list(u)

        def F(o, v):
            return o.cat([p.f(o, v), p.u_of(o, v)])
    else:
        p.system.add_dynamics_constraint(mip, x, y, "s", "b",
                                         binary_var_type=vt)

        def F(o, v):
            return p.f(o, v)

    def graph(X, t):
        t = max(t, 1e-12)
        for ops, v in B.all_pieces(F, X, t, 64):
            yield v[0] @ X + v[1]

    pts = list(vertices(lo, up)) + [rs.uniform(lo, up) for _ in range(6)]
    if not p.kind.endswith("hybrid"):
        # away from the modes' boundaries, where round-off decides
        pts.append(np.asarray(p.x_eq))

    def inside(X, t):
        if not p.kind.endswith("hybrid"):
            return True
        if t > 0:
            return any(True for _ in graph(X, 1e-4))
        return bool(np.all(np.isfinite(F(B.Val, X[None]))))

    def near_graph(X, t):
        hy = p.kind.endswith("hybrid")
        return list(graph(X, 1e-5 if hy and t > 1e-9 else t))
    run.mark(p.kind, p.kind in B.EXAMPLES_CONT)
    assert GRB
    if ex:
        pts = pts[-12:] + pts[:8]
        for X in pts[:3]:
            want = F(B.Val, X[None])[0]
            got = np.append(npy(p.system.step_forward(B.t(X))),
                            npy(p.system.compute_u(B.t(X))))
            run.check(np.allclose(got, want, atol=1e-9),
                      "closed-loop:evaluation", lambda: f"{p.kind} at {X}: "
                      f"{got}, documented {want}")
        W = F(B.Val, np.array(pts))
        both = npy(p.system.step_forward(B.t(np.array(pts))))
        run.check(np.allclose(both, W[:, :n], atol=1e-9),
                  "closed-loop:evaluation", lambda: f"{p.kind}: the batch "
                  "differs from the documented map")
        next_bounds(run, ret, W[:, :n], np.array(pts))
    judge(run, Encoding("closed-loop", mip, x, y, near_graph, lo, up, exact,
                        pts, inside), n_dir=2, n_fix=3)


COMPOSED = ["fb_ex_unicycle", "fb_ex_unicycle0", "fb_ex_car", "fb_ex_pole",
            "fb_ex_px4", "fb_ex_quad3"]


def composition(run):
    """Each example system, as it is shipped, under a controller"""
    ch = run.ch
    run.scenario = "composition"
    p = B.plant(run, kinds=[COMPOSED[ch.choose("which", len(COMPOSED))]],
                max_width=3)
    name = type(p.forward).__name__
    run.mark(name, ch.choose("again", 1000))
    del p.forward.add_dynamics_constraint
    mip = new_mip()
    lo, up = np.asarray(p.system.x_lo_all), np.asarray(p.system.x_up_all)
    x, y = xvars(mip, lo, up), yvars(mip, p.dim)
    try:
        ret = p.system.add_dynamics_mip_constraint(
            mip, x, y, "u", "fs", "fb", "cs", "cb")
    except TypeError as e:
        if "unexpected keyword argument" in str(e) and \
                "add_dynamics_constraint" in str(e):
            run.check(False, f"composition:{name}:arguments", str(e))
        raise
    run.check(not isinstance(ret[1], tuple), f"composition:{name}:result",
              "add_dynamics_constraint returned a tuple")


def specialised(run, p):
    """Closed loops with a class of their own in the examples."""
    import importlib
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    ch = run.ch
    ex = "neural_network_lyapunov.examples."
    s = p.system
    if not isinstance(p.controller, torch.nn.Sequential):
        return
    if p.kind == "fb_ex_quad3" and M.IA_MIP not in (
            p.forward.network_bound_propagate_method,
            s.controller_network_bound_propagate_method) and \
            ch.flip("own_class", .6):
        mod = importlib.import_module(
            ex + "quadrotor3d.quadrotor_feedback_system")
        q = mod.QuadrotorFeedbackSystem(
            p.forward, p.controller, s.u_lower_limit, s.u_upper_limit)
        q.controller_network_bound_propagate_method = \
            s.controller_network_bound_propagate_method
        p.system = q
    if p.kind.startswith("fb_ex_unicycle") and np.all(np.isfinite(
            s.u_lower_limit)) and ch.flip("own_class", .6):
        import neural_network_lyapunov.r_options as ro
        mod = importlib.import_module(ex + "car.unicycle_feedback_system")
        rs = ch.rngstate("uni")
        lam = float(rs.uniform(.05, 1.))
        R = rs.normal(size=(2 + rs.randint(2), 2))
        slo, sup = s.u_lower_limit.copy(), s.u_upper_limit.copy()
        slo[0] = 0.
        q = mod.UnicycleFeedbackSystem(
            p.forward, p.controller, slo, sup, lam,
            ro.FixedROptions(B.t(R)))
        q.controller_network_bound_propagate_method = \
            s.controller_network_bound_propagate_method
        p.system = q
        run.mark("l1-controller", R.shape)

        def u_of(o, x):
            L = B.layers_of(p.controller)
            a = o.absv(o.lin(R, np.zeros(len(R)), o.take(x, [0, 1])))
            E = np.zeros((2, len(R)))
            E[0] = lam
            u = o.add(o.lin(np.eye(2), -B.net_at(L, np.zeros(3)),
                            B.run_net(o, L, x)), o.lin(E, np.zeros(2), a))
            return o.clip(u, slo, sup)
        p.u_of = u_of
        p._f = lambda o, x: p.g(o, x, u_of(o, x))


def next_bounds(run, ret, Y, X):
    """What is returned along to bound the next state does bound it."""
    if ret is None:
        return
    lo, up = ret.x_next_lb_IA, ret.x_next_ub_IA
    if lo is not None:
        lo, up = npy(lo).reshape(-1), npy(up).reshape(-1)
        run.check(np.all(Y >= lo - 1e-7) and np.all(Y <= up + 1e-7),
                  "next-bounds:interval", lambda: f"[{lo}, {up}] excludes "
                  f"{Y[np.argmax(np.any((Y < lo) | (Y > up), axis=1))]}")
    if ret.x_next_bound_prog is not None:
        from gurobipy import GRB
        g = ret.x_next_bound_prog
        rs = run.ch.rngstate("nb")
        c = rs.normal(size=Y.shape[1])
        g.setObjective([B.t(c)], [ret.x_next_bound_var], 0., GRB.MAXIMIZE)
        g.gurobi_model.optimize()
        run.check(g.gurobi_model.status == GRB.OPTIMAL,
                  "next-bounds:program", lambda: "the bounding program has "
                  f"status {g.gurobi_model.status}")
        run.check(g.gurobi_model.ObjVal >= np.max(Y @ c) - 1e-6,
                  "next-bounds:program", lambda: f"the bounding program gives "
                  f"{g.gurobi_model.ObjVal}, a next state has {np.max(Y @ c)}")


def open_loop(run):
    """(x, u) -> x_next with a free control, with the caller's own limits"""
    ch = run.ch
    rs = ch.rngstate("ol")
    ex = ch.flip("examples", 0.5)
    run.scenario = "open-loop" + ("-examples" if ex else "")
    if ex:
        cont = False
        p = B.plant(run, kinds=list(B.EXAMPLES), max_width=3)
    else:
        cont = ch.flip("continuous", 0.2)
        p = B.plant(run, kinds=[k for k in B.FEEDBACK if not (
            k.endswith("hybrid") or cont and "second" in k)],
            continuous=cont, max_width=3)
    vt, exact = vt_of(run)
    mip = new_mip()
    n, m = p.dim, p.m_u
    lo, up = np.asarray(p.system.x_lo_all), np.asarray(p.system.x_up_all)
    ulo, uup = npy(p.forward.u_lo), npy(p.forward.u_up)
    kw = {}
    wide = uup - ulo
    glo, gup = ulo.copy(), uup.copy()
    if ch.flip("own_lo", .5):
        v = ulo + rs.uniform(-.4, .4, size=m) * wide
        kw["additional_u_lo"], glo = B.t(v), np.maximum(glo, v)
    if ch.flip("own_up", .5):
        v = uup - rs.uniform(-.4, .4, size=m) * wide
        kw["additional_u_up"], gup = B.t(v), np.minimum(gup, v)
    x = xvars(mip, lo, up)
    # the limits hold for the controls the network is fed
    fed = np.isin(np.arange(m), p.u_fed)
    glo, gup = np.where(fed, glo, ulo), np.where(fed, gup, uup)
    u = xvars(mip, np.where(fed, ulo - 1., ulo), np.where(fed, uup + 1., uup))
    y = yvars(mip, n)
    ret = p.forward.add_dynamics_constraint(mip, x, y, u, "s", "b",
                                            binary_var_type=vt, **kw)
    blo, bup = np.append(lo, glo), np.append(up, gup)

    def F(o, v):
        return p.g(o, o.take(v, list(range(n))),
                   o.take(v, list(range(n, n + m))))

    def graph(X, t):
        for ops, v in B.all_pieces(F, X, max(t, 1e-12), 64):
            yield v[0] @ X + v[1]

    def inside(X, t):
        t = max(t, 1e-12)
        return bool(np.all(X >= blo - t) and np.all(X <= bup + t))
    pts = [rs.uniform(blo, bup) for _ in range(8)] + list(
        vertices(blo, bup))[:16]
    run.mark(p.kind, cont, tuple(sorted(kw)))
    if ex:
        X = np.array(pts)
        W = F(B.Val, X)
        got = npy(p.forward.step_forward(B.t(X[:, :n]), B.t(X[:, n:])))
        run.check(np.allclose(got, W, atol=1e-9), "open-loop:evaluation",
                  lambda: f"{p.kind}: the batch differs from the documented "
                  "map")
        next_bounds(run, ret, W, X)
    judge(run, Encoding("open-loop", mip, list(x) + list(u), y, graph, blo,
                        bup, exact, pts, inside), n_dir=2, n_fix=3)
    # how far each control can go
    from gurobipy import GRB
    mg = mip.gurobi_model
    for j in range(m):
        for sgn in (1., -1.):
            mip.setObjective([B.t([sgn])], [[u[j]]], 0., GRB.MAXIMIZE)
            quiet_solver()
            mg.optimize()
            if mg.status != GRB.OPTIMAL:
                continue
            lim = gup[j] if sgn > 0 else -glo[j]
            run.note("probe:control-limit")
            run.check(mg.ObjVal <= lim + tol(lim), "open-loop:control-limit",
                      lambda: f"control {j} reaches {sgn * mg.ObjVal}, its "
                      f"limit is {sgn * lim}")
    for X in pts[:4]:
        want = F(B.Val, X[None])[0]
        got = npy(p.forward.step_forward(B.t(X[:n]), B.t(X[n:])))
        run.check(np.allclose(got.reshape(-1), np.asarray(want).reshape(-1),
                              atol=1e-9), "open-loop:evaluation", lambda:
                  f"step_forward at {X}: {got}, expected {want}")
        if not hasattr(p.forward, "possible_dx"):
            continue
        one = p.forward.possible_dx(B.t(X[:n]), B.t(X[n:]))
        run.check(len(one) == 1 and np.allclose(npy(one[0]).reshape(-1),
                  got.reshape(-1), atol=1e-12), "open-loop:possible",
                  lambda: f"possible_dx at {X}: {one}, step {got}")


# -- Lyapunov pieces ----------------------------------------------------------
def lyapunov_pieces(run):
    import gurobipy
    ch = run.ch
    run.scenario = "lyapunov-pieces"
    rs = ch.rngstate("lp")
    p = B.plant(run, kinds=["relu_eq", "residual_eq"], max_width=2)
    c = B.candidate(run, p, max_width=3)
    s = B.lyap_system(p, c, run=run)
    kind = ch.choose("piece", 3)
    lo, up = np.asarray(p.x_lo), np.asarray(p.x_up)
    n = p.dim
    R = np.eye(n) if c.R_t is None else npy(c.R_t)
    L = B.layers_of(s.lyapunov_relu)
    run.mark(kind, n, R.shape)
    pts = list(vertices(lo, up)) + [rs.uniform(lo, up) for _ in range(6)]
    if kind == 0:
        three = ch.flip("three", 0.5)
        vt, exact = vt_of(run)
        mip = new_mip()
        x = xvars(mip, lo, up)
        sv, al = s.add_state_error_l1_constraint(
            mip, p.x_eq_t, x, R=c.R_t, binary_var_type=vt,
            binary_for_zero_input=three)
        pts.append(np.asarray(p.x_eq))

        def meaning(X, Y):
            z = R @ (X - p.x_eq)
            t = tol(z)
            for i, a in enumerate(al):
                if not three:
                    on = a.x > 0.5
                    if (on and z[i] < -t) or (not on and z[i] > t):
                        return f"alpha[{i}]={a.x}, error {z[i]}"
                else:
                    v = [k.x > 0.5 for k in a]
                    if sum(v) != 1 or (v[0] and z[i] > t) or (
                            v[1] and abs(z[i]) > t) or (
                                v[2] and z[i] < -t):
                        return f"alpha[{i}]={v}, error {z[i]}"
        judge(run, Encoding("state-error", mip, x, list(sv),
                            lambda X, t: [np.abs(R @ (X - p.x_eq))], lo, up,
                            exact, pts, meaning=meaning))
        return
    if kind == 1:
        vt, exact = vt_of(run)
        mip = new_mip()
        x = xvars(mip, lo, up)
        z, be, a_out, b_out, _ = s.add_lyap_relu_output_constraint(mip, x)
        y = yvars(mip, 1)
        mip.addMConstr([npy_t(a_out).reshape((1, -1)),
                        -torch.ones((1, 1), dtype=D)], [z, y],
                       sense=gurobipy.GRB.EQUAL,
                       b=-npy_t(b_out).reshape((-1, )))
        judge(run, Encoding("lyapunov-network", mip, x, y,
                            lambda X, t: [B.net_at(L, X)], lo, up, True, pts))
        return
    # the program over the box boundary
    ret = s._construct_milp_for_roa_boundary(float(c.lam), c.R_t, p.x_eq_t)
    milp = ret[0] if isinstance(ret, tuple) else ret
    m = milp.gurobi_model
    m.setParam("OutputFlag", False)
    m.optimize()
    V = c.V
    X = []
    for _ in range(400):
        q = rs.uniform(lo, up)
        j = rs.randint(n)
        q[j] = (lo, up)[rs.randint(2)][j]
        X.append(q)
    X = np.array(X + list(vertices(lo, up)))
    vals = V(B.Val, X)[:, 0]
    run.check(m.status == gurobipy.GRB.OPTIMAL, "roa-boundary:status",
              f"{m.status}")
    run.check(m.ObjVal <= vals.min() + tol(m.ObjVal), "roa-boundary:missing",
              lambda: f"the minimum is {m.ObjVal}, {X[vals.argmin()]} has "
              f"{vals.min()}")
    xs = np.array([v.x for v in m.getVars()[:n]])
    on = np.any(np.abs(xs - lo) <= tol(lo)) or np.any(
        np.abs(xs - up) <= tol(up))
    run.check(bool(on), "roa-boundary:off-boundary", lambda: f"{xs}")
    run.check(abs(V(B.Val, xs[None])[0, 0] - m.ObjVal) <= tol(m.ObjVal),
              "roa-boundary:value",
              lambda: f"V({xs}) = {V(B.Val, xs[None])[0, 0]}, the program "
              f"says {m.ObjVal}")
    run.nontrivial = True


def npy_t(v):
    return v if torch.is_tensor(v) else torch.tensor(v, dtype=D)


# -- gradients and patterns ---------------------------------------------------
def dyadic_net(run, rs, d, dout):
    """small dyadic weights: the arithmetic is exact, and zeros are zeros"""
    ch = run.ch
    hidden = 1 + ch.choose("hidden", 3)
    widths = [2 + ch.choose("width", 3) for _ in range(hidden)]
    slope = ch.pick("slope", [0.25, 0., 0.5, 2.])
    cls = ch.flip("relu_class", 0.5) and slope == 0.
    bias = not ch.flip("nobias", 0.2)
    dims = [d] + widths + [dout]
    mods = []
    for k, (a, b) in enumerate(zip(dims[:-1], dims[1:])):
        lin = torch.nn.Linear(a, b, bias=bias, dtype=D)
        with torch.no_grad():
            lin.weight.copy_(B.t(rs.randint(-4, 5, size=(b, a)) / 4.))
            if bias:
                lin.bias.copy_(B.t(rs.randint(-4, 5, size=b) / 4.))
        mods.append(lin)
        if k < hidden:
            mods.append(torch.nn.ReLU() if cls else
                        torch.nn.LeakyReLU(slope))
    net = torch.nn.Sequential(*mods)
    x = rs.randint(-6, 7, size=d) / 4.
    # put some units exactly on their kink
    if bias:
        k = ch.choose("n_kinks", 4)
        units = [(i, j) for i in range(hidden) for j in range(widths[i])]
        pick = sorted(rs.choice(len(units), min(k, len(units)),
                                replace=False)) if k else []
        for u in pick:
            i, j = units[u]
            pre = B.hidden_at(B.layers_of(net), x[None])[0]
            with torch.no_grad():
                net[2 * i].bias[j] -= pre[i][0, j]
    run.mark(tuple(widths), slope, cls, bias)
    return net, x


def patterns_at(L, x, t=0.):
    """every activation pattern adjacent to x"""
    pre = [p[0] for p in B.hidden_at(L, x[None])[0]]
    opts = []
    for z in pre:
        for v in z:
            opts.append([True, False] if abs(v) <= t else [bool(v > 0)])
    out = []
    for choice in itertools.product(*opts):
        pat, k = [], 0
        for z in pre:
            pat.append(list(choice[k:k + len(z)]))
            k += len(z)
        out.append(pat)
    return out


def gradients(run):
    import neural_network_lyapunov.relu_to_optimization as r2o
    import neural_network_lyapunov.utils as U
    ch = run.ch
    run.scenario = "gradients"
    rs = ch.rngstate("grads")
    d, dout = 1 + ch.choose("d_in", 3), 1 + ch.choose("d_out", 2)
    net, x = dyadic_net(run, rs, d, dout)
    L = B.layers_of(net)
    pats = patterns_at(L, x)
    xt = B.t(x)
    if len(pats) > 64:
        run.nontrivial = False
        return
    run.mark(len(pats))
    run.sample = dict(x=x.tolist(), patterns=len(pats))
    # 1. patterns
    got = r2o.compute_all_relu_activation_patterns(net, xt)

    def flat(p):
        return tuple(bool(v) for layer in p for v in layer)
    want = {flat(p) for p in pats}
    run.check({flat(p) for p in got} == want, "patterns:all",
              lambda: f"at {x}: {[flat(p) for p in got]}, expected {want}")
    one = r2o.ComputeReLUActivationPattern(net, xt)
    run.check(flat(one) in want, "patterns:one",
              lambda: f"at {x}: {flat(one)}, possible {want}")
    pat = pats[rs.randint(len(pats))]
    bits = np.array([1. if v else 0. for v in flat(pat)])
    back = r2o.relu_activation_binary_to_pattern(net, bits)
    run.check(len(back) == len(pat) and all(
        [bool(v) for v in a] == [bool(v) for v in b]
        for a, b in zip(back, pat)), "patterns:binary",
              lambda: f"{bits} became {back}, expected {pat}")
    # 2. the affine piece of a pattern
    for pt in [pat] + [pats[0]]:
        g, h, P, q = r2o.ReLUGivenActivationPattern(net, d, pt, D)
        g, h, P, q = npy(g), npy(h), npy(P), npy(q)
        val = B.net_at(L, x)
        run.check(np.allclose((g.T @ x[:, None] + h)[:, 0], val, atol=1e-12),
                  "piece:value", lambda: f"at {x}: {g}, {h}, value {val}")
        run.check(bool(np.all(P @ x <= q[:, 0] + 1e-12)), "piece:domain",
                  lambda: f"{x} is not in its own piece: {P @ x} <= {q}")
        # on its domain the piece is the network, and outside some unit has
        # another activation
        for _ in range(5):
            z = x + rs.normal(size=d) * 10.**rs.uniform(-3, 0.5)
            sl = np.min(q[:, 0] - P @ z) if len(q) else 1.
            pre = np.concatenate([v[0] for v in B.hidden_at(L, z[None])[0]])
            if sl >= 0:
                run.check(np.allclose((g.T @ z[:, None] + h)[:, 0],
                                      B.net_at(L, z), atol=1e-9),
                          "piece:elsewhere", lambda: f"at {z}")
            elif sl < -1e-9:
                same = np.all(np.where(np.array(flat(pt)), pre >= 1e-9,
                                       pre <= -1e-9))
                run.check(not same, "piece:too-small",
                          lambda: f"{z} has the pattern but is excluded")
    # 3. all one-sided gradients
    zt = 0.
    if ch.flip("zero_tol", 0.4):
        zt = ch.pick("zt", [1e-6, 1e-3, 0.25, 0.5])
    dphi = npy(U.relu_network_gradient(net, xt, zero_tol=zt))
    pz = pats if zt == 0. else patterns_at(L, x, zt)
    if len(pz) <= 256:
        want = [pattern_gradient(L, p) for p in pz]
        run.check(dphi.ndim == 3 and dphi.shape[1:] == (dout, d),
                  "gradient:shape", lambda: f"{dphi.shape}")
        run.check(all(any(np.allclose(a, b, atol=1e-12) for b in dphi)
                      for a in want), "gradient:missing",
                  lambda: f"at {x} (zero_tol {zt}): {dphi}, expected all of "
                  f"{want}")
        run.check(all(any(np.allclose(a, b, atol=1e-12) for b in want)
                      for a in dphi), "gradient:spurious",
                  lambda: f"at {x} (zero_tol {zt}): {dphi}, expected {want}")
        run.check(len(dphi) == len(want), "gradient:number",
                  lambda: f"{len(dphi)} gradients for {len(want)} "
                  "combinations")
    # nearby gradients are among them
    for _ in range(3):
        y = B.t(x + rs.normal(size=d) * 1e-7).requires_grad_(True)
        j = rs.randint(dout)
        gr, = torch.autograd.grad(net(y)[j], y)
        run.check(any(np.allclose(npy(gr), a[j], atol=1e-9) for a in dphi),
                  "gradient:nearby",
                  lambda: f"next to {x} the gradient of output {j} is {gr}; "
                  f"returned {dphi}")
    # 4. norms
    v = rs.randint(-3, 4, size=1 + rs.randint(4)) / 2.
    if ch.flip("small", 0.5):
        v = v * np.where(rs.uniform(size=v.size) < 0.3, 1e-6, 1.)
    zt = ch.pick("l1_tol", [0., 1e-5, 0.5])
    sub = None
    if ch.flip("sub", 0.4):
        sub = np.unique(rs.uniform(-0.9, 0.9, 1 + rs.randint(2)))
    got = npy(U.l1_gradient(B.t(v), zero_tol=zt, subgradient_samples=sub))
    opts = [[1., -1.] + ([] if sub is None else list(sub))
            if abs(a) <= zt else [float(np.sign(a))] for a in v]
    want = [np.array(w) for w in itertools.product(*opts)]
    run.check(got.shape == (len(want), v.size), "l1:shape",
              lambda: f"l1_gradient({v}, zero_tol={zt}, {sub}) has shape "
              f"{got.shape}, expected {len(want)} gradients")
    run.check(all(any(np.allclose(a, b) for b in got) for a in want),
              "l1:missing", lambda: f"l1_gradient({v}, zero_tol={zt}, {sub})"
              f" = {got}, expected {want}")
    mt = ch.pick("max_tol", [0., 1e-5, 0.5])
    if ch.flip("close", 0.7):
        v = v + rs.choice([0., 1e-6, -1e-6, 0.2, -0.2], size=v.size)
    got = npy(U.l_infinity_gradient(B.t(v), max_tol=mt))
    nv = np.max(np.abs(v))
    if nv <= mt:
        want = [s * e for s in (1., -1.) for e in np.eye(v.size)]
    else:
        want = [np.sign(v[i]) * np.eye(v.size)[i] for i in range(v.size)
                if abs(abs(v[i]) - nv) <= mt]
    near = np.any(np.abs(np.abs(np.abs(v) - nv) - mt) < 1e-12) and mt > 0
    if not near:
        run.check(len(got) == len(want) and all(
            any(np.allclose(a, b) for b in got) for a in want),
                  "linf", lambda: f"l_infinity_gradient({v}, max_tol={mt}) ="
                  f" {got}, expected {want}")
    a, b = rs.normal(size=(2, 3)), rs.normal(size=(1 + rs.randint(3), 3))
    ms = npy(U.minkowski_sum(B.t(a), B.t(b)))
    run.check(np.allclose(ms, np.array([p + q for p in a for q in b])),
              "minkowski", lambda: f"{a} + {b} = {ms}")
    run.nontrivial = True


def warm_start(run):
    """the start values describe the network at the start state"""
    import neural_network_lyapunov.relu_to_optimization as r2o
    from gurobipy import GRB
    ch = run.ch
    run.scenario = "warm-start"
    rs = ch.rngstate("ws")
    d = 1 + ch.choose("d_in", 3)
    net = a_net(run, d, 1)
    L = B.layers_of(net)
    mip = new_mip()
    units = sum(W.shape[0] for W, _, s in L if s is not None)
    be = mip.addVars(units, lb=0., ub=1., vtype=GRB.BINARY, name="b")
    x = rs.uniform(-2., 2., d)
    r2o.set_activation_warmstart(net, be, B.t(x))
    mip.gurobi_model.update()
    z = np.concatenate([p[0] for p in B.hidden_at(L, x[None])[0]])
    for k, v in enumerate(be):
        if abs(z[k]) > 1e-9:
            run.check(v.start == (1. if z[k] > 0 else 0.), "warm-start",
                      lambda: f"unit {k} has input {z[k]} at {x}, start "
                      f"value {v.start}")
    run.nontrivial = True


# -- linear programs ----------------------------------------------------------
def faulted(run):
    return any(k.startswith("fault:") for k in run.counts)


def guarded(run, f):
    try:
        return f()
    except Exception:
        if faulted(run):
            run.note("event:refused-after-fault")
            return None
        raise


def linear_programs(run):
    import neural_network_lyapunov.mip_utils as mu
    import neural_network_lyapunov.utils as U
    ch = run.ch
    run.scenario = "linear-programs"
    rs = ch.rngstate("lps")
    n = 1 + ch.choose("n", 3)
    m = n + 1 + ch.choose("m", 5)
    kind = ch.pick("lp", ["bounds", "range", "bounded", "cost"])
    P = rs.normal(size=(m, n))
    x0 = rs.normal(size=n)
    q = P @ x0 + rs.uniform(0., 1., m)
    if ch.flip("box", 0.6):
        lo, up = x0 - rs.uniform(0.1, 2., n), x0 + rs.uniform(0.1, 2., n)
        P = np.vstack([P, np.eye(n), -np.eye(n)])
        q = np.concatenate([q, up, -lo])
    elif ch.flip("cone", 0.4):
        # a direction in which nothing stops it
        dn = rs.normal(size=n)
        P = P * np.where(P @ dn > 0, -1., 1.)[:, None]
        q = P @ x0 + rs.uniform(0., 1., m)
    if ch.flip("empty", 0.1):
        a = rs.normal(size=n)
        P = np.vstack([P, a, -a])
        q = np.append(q, [0., -1.])
    run.mark(kind, n)
    from gurobipy import hooks
    hooks.chooser = run.ch
    hooks.note_counts = run.counts
    hooks.policy = dict(tie_break=0.5, inf_or_unbd=0.2)
    if ch.flip("faults", 0.5):
        hooks.policy.update(interrupt=0.1, suboptimal_lp=0.2, error=0.03)
    big = 1e7

    def extreme(c, A, b, l=None, u=None):
        """exact max, inf, or -inf"""
        import scipy.optimize as so
        bounds = [(None, None)] * len(c) if l is None else list(
            zip(np.where(np.isfinite(l), l, -big * 1e9),
                np.where(np.isfinite(u), u, big * 1e9)))
        bounds = [(None if a is None or a <= -big * 1e8 else a,
                   None if b_ is None or b_ >= big * 1e8 else b_)
                  for a, b_ in bounds]
        r = so.linprog(-np.asarray(c), A_ub=A if len(A) else None,
                       b_ub=b if len(A) else None, bounds=bounds,
                       method="highs")
        if r.status == 2:
            return -np.inf
        if r.status == 3:
            return np.inf
        if r.status == 4:
            # infeasible or unbounded: settle it
            r0 = so.linprog(np.zeros(len(c)), A_ub=A, b_ub=b, bounds=bounds,
                            method="highs")
            return np.inf if r0.status == 0 else -np.inf
        return -r.fun if r.status == 0 else None

    def same(got, want, key, what):
        if want is None:
            return
        got = float(got)
        ok = got == want if not np.isfinite(want) or not np.isfinite(got) \
            else abs(got - want) <= tol(want)
        run.check(ok, key, lambda: f"{what}: {got}, exactly {want}")
        run.nontrivial = True
    run.nontrivial = False
    if kind == "bounds":
        j = rs.randint(n)
        tens = ch.flip("tensor", 0.5)
        ret = guarded(run, lambda: U.compute_bounds_from_polytope(
            B.t(P) if tens else P, B.t(q) if tens else q, j))
        quiet_solver()
        if ret is None:
            return
        e = np.eye(n)[j]
        a, b = extreme(-e, P, q), extreme(e, P, q)
        same(ret[0], None if a is None else -a, "bounds:lower",
             f"min x[{j}]")
        same(ret[1], b, "bounds:upper", f"max x[{j}]")
    elif kind == "range":
        k = 1 + rs.randint(3)
        A, b = rs.normal(size=(k, n)), rs.normal(size=k)
        how = ch.choose("range", 3)
        lo, up = x0 - rs.uniform(0., 2., n), x0 + rs.uniform(0., 2., n)
        if how == 1:
            lo = up = None
        C, dd = (None, None) if how == 2 else (P, q)
        ret = guarded(run, lambda: mu.compute_range_by_lp(A, b, lo, up, C,
                                                          dd))
        quiet_solver()
        if ret is None:
            return
        CC = np.zeros((0, n)) if C is None else C
        for i in range(k):
            hi = extreme(A[i], CC, dd, lo, up)
            lw = extreme(-A[i], CC, dd, lo, up)
            same(ret[1][i], None if hi is None else hi + b[i],
                 "range:upper", f"row {i}")
            same(ret[0][i], None if lw is None else -lw + b[i],
                 "range:lower", f"row {i}")
        if how == 2:
            ia = mu.compute_range_by_IA(B.t(A), B.t(b), B.t(lo), B.t(up))
            run.check(np.allclose(npy(ia[0]), ret[0], atol=1e-6) and
                      np.allclose(npy(ia[1]), ret[1], atol=1e-6),
                      "range:interval-arithmetic",
                      lambda: f"{ia} and {ret}")
    elif kind == "bounded":
        if ch.flip("empty_too", 0.):
            return
        ret = guarded(run, lambda: U.is_polyhedron_bounded(B.t(P)))
        flt = faulted(run)
        quiet_solver()
        if ret is None:
            return
        Z = np.zeros(len(P))
        un = any(extreme(s * e, np.vstack([P, np.eye(n), -np.eye(n)]),
                         np.concatenate([Z, np.ones(2 * n)])) > 1e-9
                 for e in np.eye(n) for s in (1., -1.))
        # never called bounded when it is not
        run.check(not (ret and un), "bounded:wrong",
                  lambda: f"P={P} is called bounded")
        if not flt:
            run.check(bool(ret) == (not un), "bounded:refused",
                      lambda: f"P={P}: {ret}")
        run.nontrivial = True
    else:
        c, dd = rs.normal(size=n), rs.normal()
        ne = ch.choose("n_eq", n)
        Aeq = rs.normal(size=(ne, n))
        beq = Aeq @ x0
        ct, dt = B.t(c), torch.tensor(dd, dtype=D)
        tens = [B.t(v).requires_grad_(True) for v in (P, q, Aeq, beq)]
        ct.requires_grad_(True)
        ret = guarded(run, lambda: U.linear_program_cost(ct, dt, *tens))
        flt = faulted(run)
        quiet_solver()
        import scipy.optimize as so

        def val(c_, P_, q_, A_, b_):
            r = so.linprog(-c_, A_ub=P_, b_ub=q_, A_eq=A_ if ne else None,
                           b_eq=b_ if ne else None,
                           bounds=[(None, None)] * n, method="highs")
            return (-r.fun + dd) if r.status == 0 else None
        want = val(c, P, q, Aeq, beq)
        if ret is None:
            run.check(flt or want is None, "cost:none",
                      lambda: f"no cost; the optimum is {want}")
            return
        if want is None:
            run.check(False, "cost:unbounded", f"cost {ret}")
        run.check(abs(float(ret) - want) <= tol(want), "cost:value",
                  lambda: f"{float(ret)}, exactly {want}")
        # its derivative along a random change of the data
        gr = torch.autograd.grad(ret, [ct] + tens, allow_unused=True)
        dirs = [rs.normal(size=tuple(v.shape)) for v in [ct] + tens]
        an = sum(float((g * B.t(k)).sum()) for g, k in zip(gr, dirs)
                 if g is not None)
        h = 1e-6
        data = [c, P, q, Aeq, beq]
        pl = val(*[v + h * k for v, k in zip(data, dirs)])
        mi = val(*[v - h * k for v, k in zip(data, dirs)])
        if pl is not None and mi is not None:
            a, b = (pl - want) / h, (want - mi) / h
            if abs(a - b) <= 1e-3 * (1 + abs(a)):
                run.check(abs(an - (a + b) / 2) <= 2e-2 * (1 + abs(a)),
                          "cost:gradient",
                          lambda: f"{an}, by differences {a}, {b}")
        run.nontrivial = True


# -- grids --------------------------------------------------------------------
def grids(run):
    import neural_network_lyapunov.hybrid_linear_system as hls
    import neural_network_lyapunov.utils as U
    ch = run.ch
    run.scenario = "grids"
    rs = ch.rngstate("grids")
    n, m = 1 + ch.choose("n", 2), 1 + ch.choose("m", 2)
    lo, up = net_box(run, rs, n + m)
    up = np.maximum(up, lo + 0.1)
    k = np.array([1 + ch.choose("breaks", 3) for _ in range(n + m)])
    delta = np.zeros(n + m) if ch.flip("no_overlap", 0.5) else \
        rs.uniform(0., 0.4, n + m)
    sx, su, xl, xu, ul, uu = hls.partition_state_input_space(
        B.t(lo[:n]), B.t(up[:n]), B.t(lo[n:]), B.t(up[n:]),
        torch.tensor(k[:n], dtype=torch.int),
        torch.tensor(k[n:], dtype=torch.int), B.t(delta[:n]),
        B.t(delta[n:]))
    S = np.hstack([npy(sx), npy(su)])
    Lw, Uw = np.hstack([npy(xl), npy(ul)]), np.hstack([npy(xu), npy(uu)])
    run.mark(n, m, tuple(k))
    run.check(len(S) == np.prod(k), "grid:cells", f"{len(S)} cells")
    w = (up - lo) / k
    want = {}
    for idx in itertools.product(*[range(a) for a in k]):
        i = np.array(idx)
        want[idx] = (lo + w * i, lo + w * (i + 1))
    seen = set()
    for s, a, b in zip(S, Lw, Uw):
        i = tuple(int(v) for v in np.clip(np.floor((s - lo) / w), 0, k - 1))
        run.check(i not in seen, "grid:twice", f"cell {i}")
        seen.add(i)
        cl, cu = want[i]
        run.check(np.allclose(s, (cl + cu) / 2, atol=1e-9), "grid:centre",
                  lambda: f"cell {i}: {s}, expected {(cl + cu) / 2}")
        run.check(np.allclose(a, np.clip(cl - delta * w, lo, up), atol=1e-9)
                  and np.allclose(b, np.clip(cu + delta * w, lo, up),
                                  atol=1e-9), "grid:limits",
                  lambda: f"cell {i}: [{a}, {b}]")
    # the cells cover the whole box, its corners included
    pts = list(vertices(lo, up)) + [rs.uniform(lo, up) for _ in range(10)]
    for p in pts:
        run.check(bool(np.any(np.all((Lw <= p + 1e-11) & (p <= Uw + 1e-11),
                                     axis=1))),
                  "grid:uncovered", lambda: f"{p} lies in no cell of "
                  f"[{lo}, {up}]")
    # mesh samples
    g = npy(U.get_meshgrid_samples(B.t(lo), B.t(up), tuple(int(a) + 1
                                                           for a in k), D))
    ax = [np.linspace(lo[i], up[i], k[i] + 1) for i in range(n + m)]
    exp = np.array(list(itertools.product(*ax)))
    run.check(g.shape == exp.shape and np.allclose(g, exp, atol=1e-12),
              "mesh", lambda: f"{g}, expected {exp}")
    run.nontrivial = True


# -- a Lyapunov function linear in every cell ----------------------------------
def piecewise_linear(run):
    """one linear piece per cell of a box partition, found by one program"""
    import neural_network_lyapunov.simple_pwl_lyapunov as spl
    import scipy.optimize as so
    from gurobipy import hooks
    ch = run.ch
    run.scenario = "piecewise-linear"
    rs = ch.rngstate("pwl")
    n = ch.pick("n", [1, 2, 2, 3])
    cuts = []
    for i in range(n):
        c = np.sort(rs.uniform(-2., 2., 2 + ch.choose(
            "cuts", 3 if n < 3 else 2)))
        while np.min(np.diff(c)) < 0.1:
            c = np.sort(rs.uniform(-2., 2., len(c)))
        cuts.append(c)
    cells = [(np.array([c[0] for c in k]), np.array([c[1] for c in k]))
             for k in itertools.product(*[list(zip(c[:-1], c[1:]))
                                          for c in cuts])]
    K = len(cells)
    eq = int(rs.randint(K))
    lo, up = cells[eq]
    corner = ch.flip("corner", 0.3)
    xs = vertices(lo, up)[rs.randint(2**n)] if corner else \
        lo + (up - lo) * rs.uniform(0.2, 0.8, n)
    e1, e2 = ch.pick("e1", [0.01, 0.1, 0.5]), ch.pick("e2", [0., 0.05, 0.3])
    w = ch.pick("weight", [0.5, 0.1, 0.9])
    A, g = [], []
    good = ch.flip("stable", 0.7)
    A0 = rs.normal(size=(n, n)) * 0.2
    A0 -= np.eye(n) * (rs.uniform(0.8, 2.) if good else -0.3)
    for k in range(K):
        Ak = A0 + rs.normal(size=(n, n)) * (0.05 if good else 0.5)
        A.append(Ak)
        g.append(-Ak @ xs + (0. if k == eq or good else
                             rs.normal(size=n) * 0.1))
    dut = spl.SimplePWLLyapunov(n, K, e1, e2, xs, eq)
    # the same program for the second solver, variables c (K x n), d, s1, s2
    N = K * n + K + 2
    Au, bu, Ae, be = [], [], [], []

    def row(k, cv, dv):
        r = np.zeros(N)
        r[k * n:(k + 1) * n] = cv
        r[K * n + k] = dv
        return r
    r = row(eq, xs, 1.)
    Ae.append(r)
    be.append(0.)
    for k, (a, b) in enumerate(cells):
        V = vertices(a, b)
        dut.add_lyapunov_derivative_in_mode(k, V, A[k], g[k])
        for v in V:
            r = row(k, A[k] @ v + g[k] + e2 * v, e2)
            r[-2] = -1.
            Au.append(r)
            bu.append(0.)
        for sg in itertools.product((1, -1), repeat=n):
            sg = np.array(sg)
            pa = np.where(sg > 0, np.maximum(a, xs), a)
            pb = np.where(sg > 0, b, np.minimum(b, xs))
            if np.any(pa > pb):
                continue
            W = vertices(pa, pb)
            dut.add_lyapunov_positivity_in_mode(k, W, sg)
            for v in W:
                r = row(k, -v, -1.)
                r[-1] = -1.
                Au.append(r)
                bu.append(-e1 * np.sum(np.abs(v - xs)))
    for i in range(K):
        for j in range(i):
            a = np.maximum(cells[i][0], cells[j][0])
            b = np.minimum(cells[i][1], cells[j][1])
            if np.any(a > b):
                continue
            W = np.unique(vertices(a, b), axis=0)
            run.mark(n, len(W))
            dut.add_continuity_constraint(i, j, W)
            for v in W:
                Ae.append(row(i, v, 1.) - row(j, v, 1.))
                be.append(0.)
    cost = np.zeros(N)
    cost[-2], cost[-1] = 1 - w, w
    bounds = [(None, None)] * (N - 2) + [(0., None)] * 2
    ref = so.linprog(cost, np.array(Au), np.array(bu), np.array(Ae),
                     np.array(be), bounds, method="highs")
    policy(run)
    hooks.policy.update(interrupt=run.ch.pick("pwl.int", [0., 0.3]))
    ret = guarded(run, lambda: dut.solve(w))
    flt = faulted(run)
    quiet_solver()
    if ret is None or ret[0] is None:
        run.check(flt, "pwl:refused", lambda: f"{ret}, a second solver "
                  f"finds {ref.fun}")
        return
    c, d, s1, s2 = [np.asarray(v, dtype=float) for v in ret]
    s1, s2 = float(s1), float(s2)
    run.nontrivial = True
    z = np.concatenate([c.T.reshape(-1), d, [s1, s2]])
    sc = 1. + np.max(np.abs(z))
    run.mark(bool(s1 < 1e-7), bool(s2 < 1e-7))
    run.check(min(s1, s2) >= -1e-6 * sc, "pwl:slack-sign", f"{s1}, {s2}")
    run.check(abs(z @ Ae[0]) <= 1e-5 * sc, "pwl:equilibrium",
              lambda: f"V at the equilibrium is {z @ Ae[0]}")
    run.check(np.max(np.abs(np.array(Ae) @ z)) <= 1e-5 * sc,
              "pwl:continuity", lambda: "the pieces differ by "
              f"{np.max(np.abs(np.array(Ae) @ z))} on a common vertex")
    if not flt and ref.status == 0:
        run.check(abs(cost @ z - ref.fun) <= 1e-5 * sc, "pwl:optimum",
                  lambda: f"cost {cost @ z}, a second solver {ref.fun}")
    # the conditions at arbitrary states, whatever the slacks came out as
    for k, (a, b) in enumerate(cells):
        for x in list(vertices(a, b)) + [rs.uniform(a, b) for _ in range(4)]:
            v = c[:, k] @ x + d[k]
            vd = c[:, k] @ (A[k] @ x + g[k])
            run.check(v - e1 * np.sum(np.abs(x - xs)) >= -s2 - 1e-5 * sc,
                      "pwl:positivity", lambda: f"V({x})={v}, slack {s2}")
            run.check(vd + e2 * v <= s1 + 1e-5 * sc, "pwl:derivative",
                      lambda: f"at {x}: derivative {vd}, V={v}, slack {s1}")


def r_parametrisations(run):
    """histories of set, read and step on the parametrisations of R"""
    run.scenario = "r-options"
    ch = run.ch
    from neural_network_lyapunov import r_options as ro
    rs = ch.rngstate("R")
    n = ch.int("n", 1, 4)
    m = n + ch.choose("extra", 3)
    kind = ch.pick("kind", ["spd", "svd", "free", "fixed"])
    if kind in ("svd", "free") and ch.flip("wide", .3):
        m, n = n, m
    k = min(m, n)
    eps = ch.pick("eps", [.1, .01, .5])
    run.sample = dict(kind=kind, size=[m, n], eps=eps)
    run.mark(kind, m, n, eps)
    run.nontrivial = True
    if kind == "spd":
        o, low = ro.SearchRwithSPDOptions((m, n), eps), eps
    elif kind == "svd":
        a = rs.uniform(.01, eps, size=k)
        o, low = ro.SearchRwithSVDOptions((m, n), a), None
    elif kind == "free":
        o, low = ro.SearchRfreeOptions((m, n)), None

    def matrix():
        if kind == "spd":
            q, _ = np.linalg.qr(rs.normal(size=(n, n)))
            top = q @ np.diag(eps * rs.uniform(1.05, 4., size=n)) @ q.T
            return np.vstack([(top + top.T) / 2, rs.normal(size=(m - n, n))])
        if kind == "svd":
            u, _, v = np.linalg.svd(rs.normal(size=(m, n)))
            sv = np.sort(eps * rs.uniform(1.05, 4., size=k))[::-1]
            return u[:, :k] @ np.diag(sv) @ v[:k]
        return rs.normal(size=(m, n))
    if kind == "fixed":
        M = matrix()
        o = ro.FixedROptions(B.t(M))
        run.check(np.array_equal(npy(o.R()), M) and o.fixed_R
                  and o.variables() == [], "r:fixed", "a fixed R moved")
        return
    run.check(not o.fixed_R, "r:fixed-flag", "R is searched, fixed_R says no")
    M = matrix()
    keep = M.copy()
    o.set_variable_value(M)
    run.check(np.array_equal(M, keep), "r:argument", "the matrix was changed")

    def sound(R, what):
        run.check(R.shape == (m, n), "r:shape", lambda: f"{R.shape}")
        top = R[:n]
        if kind == "spd":
            run.check(np.allclose(top, top.T, atol=1e-12) and
                      np.linalg.eigvalsh(top)[0] >= low - 1e-9, "r:definite",
                      lambda: f"{what}: top block {top}")
        elif kind == "svd":
            run.check(np.linalg.svd(R)[1][-1] >= a.min() - 1e-9, "r:singular",
                      lambda: f"{what}: singular values "
                      f"{np.linalg.svd(R)[1]}, a {a}")
    sound(npy(o.R()), "as set")
    run.check(np.allclose(npy(o.R()), keep, atol=1e-9), "r:set-get", lambda:
              f"set to {keep}, reads {npy(o.R())}")
    for _ in range(ch.int("ops", 1, 4)):
        op = ch.choose("op", 3)
        if op == 0:
            # a step of an optimizer
            v = o.variables()
            run.check(len(v) == 1 and v[0].requires_grad and v[0].is_leaf,
                      "r:variables", "R has no variables to step")
            W = B.t(rs.normal(size=(m, n)))
            v[0].grad = None
            (o.R() * W).sum().backward()
            g = npy(v[0].grad).copy()
            d = rs.normal(size=g.shape)
            h = 1e-5

            def at(z):
                v[0].data.copy_(z)
                return float((npy(o.R()) * npy(W)).sum())
            x0 = v[0].data.clone()
            fd = (at(x0 + h * B.t(d)) - at(x0 - h * B.t(d))) / (2 * h)
            at(x0)
            run.check(abs(fd - (g * d).sum()) <= 1e-6 * (1. + abs(fd)),
                      "r:gradient", lambda: f"slope {(g * d).sum()}, "
                      f"differences {fd}")
            torch.optim.SGD(v, lr=ch.pick("lr", [.1, 10.])).step()
        elif op == 1:
            o.set_variable_value_directly(rs.normal(
                size=tuple(o.variables()[0].shape)) * ch.pick("size", [1., 1e-3, 30.]))
        else:
            M = matrix()
            o.set_variable_value(M)
            run.check(np.allclose(npy(o.R()), M, atol=1e-9), "r:set-get",
                      lambda: f"set to {M}, reads {npy(o.R())}")
        sound(npy(o.R()), ["step", "direct", "set"][op])


SCENARIOS = [(unit, 8), (saturation, 3), (network, 3),
             (piecewise_linear, 1),
             (gradient_times_vector, 2), (output_gradient, 1),
             (control_affine, 2), (hybrid, 3), (closed_loop, 3),
             (open_loop, 4),
             (lyapunov_pieces, 2), (gradients, 4), (warm_start, 1),
             (linear_programs, 4), (grids, 1), (r_parametrisations, 1)]


def scenario(run):
    if run.ch.choose("composition", 30) == 29:
        return composition(run)
    w = [s for s, k in SCENARIOS for _ in range(k)]
    w[run.ch.choose("scenario", len(w))](run)
