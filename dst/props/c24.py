"""C24: the planners' trees, tables and training sets describe drivable routes.

RRT* trees grown through histories of extensions, connections and rewirings
while the trajectory optimiser is allowed what a local solver may do (fail,
stop at a poor local optimum, raise), saved and loaded on a simulated disk;
value-iteration tables and trajectory-optimisation training sets built from
arbitrary solver outcomes.
"""
import contextlib
import functools
import io
import os
import pickle

import numpy as np
import torch

from dst.props import c07

ID = "C24"
LEVEL = "exploration"
RUNS = dict(quick=1000, thorough=60000)
RULE = ("one case = one history of a tree, one cost table, one value "
        "iteration or one training set; non-trivial when at least one result "
        "was compared with the reference; distinct by scenario, operations, "
        "tree shapes and solver outcomes")
REAL = ["examples/car/rrt_star.py", "examples/car/unicycle_traj_opt.py",
        "examples/car/value_iteration.py", "examples/car/unicycle.py (plant)",
        "utils.py (sampling, atomic saves)", "scipy solve_ivp",
        "torch serialisation, the scratch files"]
STUBS = ["pydrake (simulated: programs are kept as built; a program is solved "
         "by SLSQP, towards a poor local optimum, or not at all; for tables "
         "and training sets the outcome is drawn)",
         "disk faults (simulated above a real scratch directory)"]
ASSUMPTIONS = [
    "a solution reported as successful meets the program's constraints to "
    "1e-6",
    "renames are atomic and reach the disk in order; data is durable once "
    "fsynced"]


class Broken(Exception):
    """What the injected failures raise."""


def preload():
    from pydrake.solvers import mathematicalprogram  # noqa
    import neural_network_lyapunov.examples.car.rrt_star  # noqa
    import neural_network_lyapunov.examples.car.unicycle_traj_opt  # noqa
    import neural_network_lyapunov.examples.car.value_iteration  # noqa


def hooks(run):
    from pydrake.solvers import mathematicalprogram as mp
    mp.hooks.reset()
    run.cleanup.append(mp.hooks.reset)
    return mp


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(
        np.abs(a - b) <= tol * (1 + np.abs(b))))


# -- the reference car -------------------------------------------------------
def car(x, u):
    return np.array([u[0] * np.cos(x[2]), u[0] * np.sin(x[2]), u[1]])


def drive(x, u, dt):
    """Where constant controls take the car: an arc or a straight line."""
    v, w = u
    th = x[2] + w * dt
    if abs(w * dt) < 1e-7:
        m = x[2] + w * dt / 2
        return np.array([x[0] + v * dt * np.cos(m),
                         x[1] + v * dt * np.sin(m), th])
    return np.array([x[0] + v / w * (np.sin(th) - np.sin(x[2])),
                     x[1] - v / w * (np.cos(th) - np.cos(x[2])), th])


def path_cost(u):
    return float(np.sum(u ** 2) + 200 * np.sum(np.diff(u[0]) ** 2) +
                 800 * np.sum(np.diff(u[1]) ** 2))


def distance(a, b):
    d = a - b
    return d[0] ** 2 + d[1] ** 2 + 0.5 * d[2] ** 2


def backwards(run, x, u, dt):
    """A path driven by exactly the opposite controls: what connecting used to
    store for a rewired node (a recorded finding); looked past during the run,
    reported at its end."""
    for j in range(x.shape[1] - 1):
        r = x[:, j + 1] - x[:, j] + dt[j] / 2 * (
            car(x[:, j], u[:, j]) + car(x[:, j + 1], u[:, j + 1]))
        if np.max(np.abs(r)) >= 1e-5:
            return False
    late(run, "tree:rewired-path-has-opposite-controls",
         f"{x} with {dt} is driven by {-u}, stored is {u}")
    return True


def late(run, key, msg):
    run.later.setdefault(key, msg)


def check_path(run, key, x, u, dt, start, end, lo, up):
    x, u, dt = np.asarray(x), np.asarray(u), np.asarray(dt)
    n = x.shape[1]
    run.check(x.shape == (3, n) and u.shape == (2, n) and
              dt.shape == (n - 1,), key + ":shape",
              f"{x.shape} {u.shape} {dt.shape}")
    run.check(np.max(np.abs(x[:, 0] - start)) < 1e-5, key + ":start",
              lambda: f"starts at {x[:, 0]}, the node is {start}")
    run.check(np.max(np.abs(x[:, -1] - end)) < 1e-5, key + ":end",
              lambda: f"ends at {x[:, -1]}, not {end}")
    for j in range(n - 1):
        r = x[:, j + 1] - x[:, j] - dt[j] / 2 * (
            car(x[:, j], u[:, j]) + car(x[:, j + 1], u[:, j + 1]))
        if np.max(np.abs(r)) >= 1e-5 and backwards(run, x, u, dt):
            break
        run.check(np.max(np.abs(r)) < 1e-5, key + ":dynamics",
                  lambda: f"step {j} from {x[:, j]} to {x[:, j + 1]} in "
                  f"{dt[j]} is not driven by {u[:, j]}, {u[:, j + 1]}")
    run.check(np.all(u >= lo[:, None] - 1e-5) and
              np.all(u <= up[:, None] + 1e-5), key + ":limits",
              lambda: f"controls {u} outside {lo}, {up}")
    run.check(np.all(dt >= -1e-6), key + ":time", lambda: f"{dt}")


def check_tree(run, d, goal, lo, up, free=()):
    """Everything that must hold between two operations."""
    n = d.node_state.shape[0]
    sizes = [len(d.node_parent), len(d.node_children),
             len(d.node_cost_to_root), len(d.node_cost_to_parent),
             len(d.node_to_parent_x), len(d.node_to_parent_u),
             len(d.node_to_parent_dt)]
    run.check(all(s == n for s in sizes), "tree:sizes", f"{n}: {sizes}")
    run.check(np.array_equal(d.node_state[0], goal) and
              d.node_parent[0] is None and d.node_cost_to_root[0] == 0,
              "tree:root", lambda: f"{d.node_state[0]} {d.node_parent[0]}")
    for i in range(1, n):
        p = d.node_parent[i]
        run.check(p is not None and 0 <= p < n, "tree:parent",
                  f"node {i} has parent {p}")
        seen, j = set(), i
        while j is not None and j not in seen:
            seen.add(j)
            j = d.node_parent[j]
        run.check(j is None, "tree:cycle", f"node {i} never reaches the goal")
        run.check(close(d.node_cost_to_root[i], d.node_cost_to_root[p] +
                        d.node_cost_to_parent[i], 1e-9), "tree:cost-to-root",
                  lambda: f"node {i}: {d.node_cost_to_root[i]}, its parent "
                  f"{d.node_cost_to_root[p]} + {d.node_cost_to_parent[i]}")
        if i in free:
            continue
        x = d.node_to_parent_x[i]
        run.check(x is not None, "tree:no-path", f"node {i}")
        check_path(run, "tree:path", x, d.node_to_parent_u[i],
                   d.node_to_parent_dt[i], d.node_state[i], d.node_state[p],
                   lo, up)
        c = path_cost(np.asarray(d.node_to_parent_u[i]))
        run.check(close(d.node_cost_to_parent[i], c, 1e-5),
                  "tree:cost-to-parent",
                  lambda: f"node {i}: {d.node_cost_to_parent[i]}, its path "
                  f"costs {c}")
    want = [set() for _ in range(n)]
    for i in range(1, n):
        want[d.node_parent[i]].add(i)
    run.check([set(c) for c in d.node_children] == want, "tree:children",
              lambda: f"{d.node_children}, the parents are {d.node_parent}")


def solver(run, mp, p_fail, p_poor, p_raise):
    """What a local solver may do with each program."""
    ch = run.ch
    state = dict(k=0)

    def before(prog):
        if ch.flip("solver.raise", p_raise):
            run.note("fault:solver raises")
            raise Broken("solver")

    def solve(prog):
        state["k"] += 1
        if ch.flip("solver.fail", p_fail):
            run.note("fault:solver fails")
            return mp.Result(False, np.nan_to_num(prog.guess), np.inf, prog)
        if ch.flip("solver.poor", p_poor):
            run.note("fault:poor local optimum")
            r = ch.rngstate("solver.target")
            w = r.normal(size=prog.n)
            costs = prog.costs
            prog.costs = [(lambda z: 0.1 * z @ z + w @ z,
                           np.arange(prog.n))]
            try:
                res = mp._slsqp(prog)
            finally:
                prog.costs = costs
            if res.ok:
                res.cost = prog.cost(res.z)
            return res
        return None
    mp.hooks.before, mp.hooks.solve = before, solve


class Plant:
    """The real car, remembering the controls it was driven with."""

    def __init__(self):
        from neural_network_lyapunov.examples.car import unicycle
        self.real = unicycle.Unicycle(torch.float64)
        self.used = []

    def dynamics(self, x, u):
        if isinstance(u, np.ndarray):
            if not self.used or not np.array_equal(self.used[-1], u):
                self.used.append(np.array(u))
        return self.real.dynamics(x, u)

    def __getattr__(self, name):
        return getattr(self.real, name)


LIMITS = [((-3., -0.25 * np.pi), (6., 0.25 * np.pi)),
          ((-4., -1.), (4., 1.)),
          ((-5., -0.8), (5., 0.6)),
          ((-6., -0.5), (3., 1.)),
          ((-2., -0.3), (2.5, 0.6))]


def tree(run):
    from neural_network_lyapunov.examples.car import rrt_star
    mp = hooks(run)
    ch = run.ch
    run.scenario = "tree"
    r = ch.rngstate("world")
    lo, up = (np.array(v) for v in LIMITS[ch.choose("limits", len(LIMITS))])
    goal = np.zeros(3) if ch.flip("goal at 0", 0.4) else \
        r.uniform([-2, -2, -4], [2, 2, 4])
    torch.manual_seed(ch.choose("torch seed", 1000))
    np.random.seed(ch.choose("numpy seed", 1000))
    plant = Plant()
    faulty = ch.flip("faults", 0.6)
    solver(run, mp, 0.15 * faulty, 0.35 if ch.flip("poor", 0.5) else 0.,
           0.03 * faulty)
    paths = []

    class Dut(rrt_star.RrtStar):
        def find_path(self, x1, x2):
            x1, x2 = np.array(x1), np.array(x2)
            res = super().find_path(x1, x2)
            paths.append((x1, x2, res))
            return res

        def connect_state_extend(self, x_extend, neighbour_indices):
            return connect(self, x_extend, neighbour_indices)

    def connect(d, x, idx):
        before = d.node_state.shape[0]
        root0 = np.array(d.node_cost_to_root)
        parents0 = list(d.node_parent)
        idx0 = list(idx)
        x0 = np.array(x)
        del paths[:]
        try:
            new = rrt_star.RrtStar.connect_state_extend(d, x, idx)
        except Broken:
            check_tree(run, d, goal, lo, up)
            run.check(np.all(d.node_cost_to_root[:before] <=
                             root0 * (1 + 1e-9) + 1e-9),
                      "connect:cost-rises", "after a failure of the solver")
            raise
        run.check(list(idx) == idx0 and np.array_equal(x, x0),
                  "connect:arguments", "the arguments were changed")
        check_tree(run, d, goal, lo, up)
        forward = {}
        reverse = {}
        for a, b, res in paths:
            for i in idx0:
                if np.array_equal(a, x0) and np.array_equal(
                        b, d.node_state[i]):
                    forward.setdefault(i, res)
                elif np.array_equal(b, x0) and np.array_equal(
                        a, d.node_state[i]):
                    reverse[i] = res
        for i in idx0:
            run.check(i in forward, "connect:neighbour-ignored",
                      f"no path to neighbour {i} was looked for")
        ok = [i for i in idx0 if np.isfinite(forward[i][0])]
        if not ok:
            run.check(new is None and d.node_state.shape[0] == before and
                      d.node_parent == parents0 and
                      np.array_equal(d.node_cost_to_root, root0),
                      "connect:unreachable",
                      f"returned {new} although no neighbour can be reached")
            run.mark("unreachable")
            return new
        run.check(new == before and d.node_state.shape[0] == before + 1 and
                  np.array_equal(d.node_state[new], x0), "connect:new-node",
                  lambda: f"{new} {d.node_state[-1]} {x0}")
        states = {d.node_state[i].tobytes() for i in idx0}
        if len(states) < len(idx0):
            # two neighbours at the same place: which answer was whose is
            # not known
            return new
        best = min(forward[i][0] + root0[i] for i in ok)
        run.check(d.node_parent[new] in ok and
                  close(d.node_cost_to_root[new], best, 1e-7),
                  "connect:best-parent",
                  lambda: f"cost {d.node_cost_to_root[new]} through "
                  f"{d.node_parent[new]}, the best neighbour gives {best}")
        rewired = 0
        for i in range(1, before):
            old, now = root0[i], d.node_cost_to_root[i]
            run.check(now <= old * (1 + 1e-9) + 1e-9, "connect:cost-rises",
                      f"node {i}: {old} -> {now}")
            if d.node_parent[i] != parents0[i]:
                rewired += 1
                run.check(i in idx0 and d.node_parent[i] == new,
                          "connect:rewired", f"node {i} was given parent "
                          f"{d.node_parent[i]}")
        for i in idx0:
            if i == d.node_parent[new] or i == 0:
                continue
            if i in reverse:
                c = reverse[i][0]
            elif np.isfinite(forward[i][0]):
                c = forward[i][0]
                u = -np.asarray(forward[i][2])
                if np.any(u < lo[:, None] + 1e-4) or np.any(
                        u > up[:, None] - 1e-4):
                    continue
            else:
                continue
            via = c + d.node_cost_to_root[new]
            if via < root0[i] * (1 - 1e-6) - 1e-6:
                run.check(d.node_cost_to_root[i] <= via + 1e-5 * (1 + via),
                          "connect:not-rewired",
                          lambda: f"node {i} stays at "
                          f"{d.node_cost_to_root[i]}, through the new node "
                          f"it is {via}")
        run.note("op:connect")
        run.note("op:rewired", rewired)
        run.mark("connect", len(idx0), len(ok), rewired)
        return new

    d = Dut(plant, 3, lo.copy(), up.copy(), goal.copy())
    check_tree(run, d, goal, lo, up)
    sd = None
    ops = 3 + ch.choose("ops", 6)
    for k in range(ops):
        op = ch.choose("op", 14)
        try:
            if op < 3:
                n = d.node_state.shape[0]
                want = n + ch.choose("grow", 2)
                d.grow_tree(want)
                run.check(d.node_state.shape[0] == max(n, want), "grow:size",
                          f"{d.node_state.shape[0]} nodes, not {want}")
                run.mark("grow", want)
            elif op < 6:
                extend(run, d, plant, lo, up, connect)
            elif op < 10:
                between(run, d, lo, up, connect)
            elif op < 11:
                query(run, d, lo, up)
            else:
                if sd is None:
                    sd = c07.disk(run)
                store(run, d, sd, Dut, goal, lo, up)
        except Broken:
            run.mark("raised")
        check_tree(run, d, goal, lo, up)
    run.mark(tuple(d.node_parent[1:]))


def neighbours(run, d, x, radius):
    got = d.neighbours(x, radius)
    want = [i for i in range(d.node_state.shape[0])
            if distance(d.node_state[i], x) <= radius]
    run.check([int(i) for i in got] == want or sorted(got) == want,
              "neighbours", lambda: f"{got}, expected {want}")
    return got


def extend(run, d, plant, lo, up, connect):
    ch = run.ch
    r = ch.rngstate("extend")
    if ch.flip("sample far", 0.5):
        x = d.sample_state()
        run.check(np.all(np.abs(x[:2]) <= 5) and
                  abs(x[2]) <= 1.2 * np.pi + 1e-12, "sample", f"{x}")
    else:
        x = d.node_state[ch.choose("near", d.node_state.shape[0])] + \
            r.normal(size=3) * 0.1
    i = d.nearest_node(x)
    dist = [distance(s, x) for s in d.node_state]
    run.check(close(dist[i], min(dist)), "nearest",
              f"node {i} at {dist[i]}, the nearest is at {min(dist)}")
    dt = [0.05, 0.01, 0.03][ch.choose("dt", 3)]
    del plant.used[:]
    m = 1 + ch.choose("samples", 20)
    got = d.extend_node(i, m, dt, x)
    used = []
    for u in plant.used:
        if not any(np.array_equal(u, v) for v in used):
            used.append(u)
    run.check(len(used) == m, "extend:samples",
              f"{len(used)} controls were tried, not {m}")
    for u in used:
        run.check(np.all(u >= lo - 1e-9) and np.all(u <= up + 1e-9),
                  "extend:limits", lambda: f"{u} outside {lo}, {up}")
    ends = [drive(d.node_state[i], u, dt) for u in used]
    run.check(any(np.max(np.abs(got - e)) < 1e-4 for e in ends),
              "extend:unreachable",
              lambda: f"{got} is not reached from {d.node_state[i]}")
    run.check(distance(got, x) <= min(distance(e, x) for e in ends) + 1e-4,
              "extend:not-closest", lambda: f"{got} for {x}: {ends}")
    run.note("op:extend")
    idx = neighbours(run, d, got, [0.2, 0.05, 0.01][ch.choose("radius", 3)])
    if idx:
        connect(d, got, idx)


def between(run, d, lo, up, connect):
    """A new state on or near a route, where rewiring pays."""
    ch = run.ch
    n = d.node_state.shape[0]
    r = ch.rngstate("between")
    i = ch.choose("node", n)
    x = np.array(d.node_state[i])
    if i and d.node_to_parent_x[i] is not None and ch.flip("on path", 0.6):
        p = np.asarray(d.node_to_parent_x[i])
        x = np.array(p[:, 1 + ch.choose("knot", p.shape[1] - 2)])
    else:
        u = r.uniform(lo, up) * [1., 0.8]
        x = drive(x, u, -0.04)
    idx = neighbours(run, d, x, 0.2)
    limit = 2 + ch.choose("neighbours", 3)
    if len(idx) > limit:
        keep = sorted(r.choice(len(idx), size=limit, replace=False))
        idx = [idx[k] for k in keep]
    if idx:
        connect(d, x, idx)


def query(run, d, lo, up):
    ch = run.ch
    r = ch.rngstate("query")
    a = d.node_state[ch.choose("from", d.node_state.shape[0])]
    if ch.flip("far", 0.3):
        b = a + [1.5, 2., 1.]
    else:
        b = drive(a, r.uniform(lo, up) * 0.7, 0.04)
    res = d.find_path(a, b)
    run.mark("find", bool(np.isfinite(res[0])))
    if not np.isfinite(res[0]):
        return
    check_path(run, "find", res[1], res[2], res[3], a, b, lo, up)
    c = path_cost(np.asarray(res[2]))
    run.check(close(res[0], c, 1e-6), "find:cost", f"{res[0]}, it costs {c}")


FIELDS = ["node_state", "node_parent", "node_children", "node_cost_to_root",
          "node_cost_to_parent", "node_to_parent_x", "node_to_parent_u",
          "node_to_parent_dt"]


def same_tree(a, b):
    for k, v in a.items():
        w = b[k]
        if len(v) != len(w):
            return False
        for x, y in zip(v, w):
            if isinstance(x, np.ndarray):
                if not (isinstance(y, np.ndarray) and np.array_equal(x, y)):
                    return False
            elif type(x) is not type(y) and not (
                    isinstance(x, (int, np.integer)) and
                    isinstance(y, (int, np.integer))):
                return False
            elif x != y:
                return False
    return True


def saved_files_are_whole(path):
    try:
        torch.load(path, weights_only=False)
    except Exception:
        return False
    return True


def store(run, d, sd, Dut, goal, lo, up):
    import copy
    ch = run.ch
    path = os.path.join(sd.root, "tree.pt")
    now = {k: copy.deepcopy(getattr(d, k)) for k in FIELDS}
    fault = None
    if ch.flip("disk fault", 0.6):
        fault = c07.FAULTS[ch.choose("fault", len(c07.FAULTS))]
    at = 1 + ch.choose("fault at", 12)
    out = c07.attempt(run, sd, lambda: d.save_tree(path), fault, at)
    prev = getattr(sd, "saved", None)
    fresh = Dut(d.plant, 3, lo.copy(), up.copy(), goal.copy())

    def loaded():
        try:
            try:
                fresh.load_tree(path)
            except pickle.UnpicklingError as e:
                if "weights_only" not in str(e) or not \
                        saved_files_are_whole(path):
                    raise
                # torch.load refuses what save_tree wrote (a recorded
                # finding); looked past with torch's older default
                late(run, "store:load-refused-by-weights-only", str(e)[:200])
                load = torch.load
                torch.load = functools.partial(load, weights_only=False)
                try:
                    fresh.load_tree(path)
                finally:
                    torch.load = load
        except Exception as e:
            return e
        return {k: getattr(fresh, k) for k in FIELDS}

    if out == "returned":
        sd.saved = now
        got = loaded()
        run.check(not isinstance(got, Exception) and same_tree(now, got),
                  "store:loaded", lambda: f"after a save that returned: {got}"
                  [:300])
        check_tree(run, fresh, goal, lo, up)
        # the loaded tree goes on growing where the saved one stopped
        if ch.flip("continue", 0.5):
            for k in FIELDS:
                setattr(d, k, getattr(fresh, k))
    elif prev is not None:
        got = loaded()
        ok = not isinstance(got, Exception)
        old, new = ok and same_tree(prev, got), ok and same_tree(now, got)
        if not (old or new):
            run.check(fault in ("crash", "powerloss", "eio", "enospc",
                                "short"), "store:changed",
                      lambda: f"{fault} left {repr(got)[:200]}")
            # the tree is written over the previous one (a recorded finding)
            late(run, "store:written-over-the-previous-tree",
                 f"a {fault} left {repr(got)[:200]}")
            sd.saved = None
        if new:
            sd.saved = now
    run.note("op:store")


# -- tables ------------------------------------------------------------------
def table(run):
    from neural_network_lyapunov.examples.car import value_iteration as vi
    from neural_network_lyapunov.examples.car import unicycle_traj_opt as to
    mp = hooks(run)
    ch = run.ch
    run.scenario = "table"
    nxy, na = 2 + ch.choose("nxy", 2), 2 + ch.choose("na", 2)
    n0 = 1 + ch.choose("n0", nxy)
    n2 = ch.choose("n2", na + 1)
    vi.nT, vi.dt_max = 2 + ch.choose("nT", 2), 0.07
    vi.n_grid_xy, vi.n_grid_angle = nxy, na
    lo, up = np.array([-1, -1, -1.05 * np.pi]), np.array(
        [1, 1, 1.05 * np.pi])
    s = np.array(np.meshgrid(np.linspace(lo[0], up[0], nxy),
                             np.linspace(lo[1], up[1], nxy),
                             np.linspace(lo[2], up[2], na)))
    ns = nxy * nxy * na
    vi.s = s = s.reshape((3, ns))
    seed = ch.choose("outcomes", 1 << 30)
    p_ok = [0.3, 0.7, 1.][ch.choose("p", 3)]
    asked = []
    cells = [(i // (na * nxy), i // na % nxy, i % na) for i in range(ns)]
    handles = {}

    def outcome(i, j):
        """One answer per start angle and displacement: the car does not care
        where it is."""
        rel = (cells[j][0] - cells[i][0], cells[j][1] - cells[i][1],
               cells[i][2], cells[j][2])
        g = np.random.default_rng([seed] + [v + 100 for v in rel])
        return g.uniform() < p_ok, g.uniform(0.1, 5), g.normal(size=2)

    def which(v):
        k = [i for i in range(ns) if np.allclose(s[:, i], v, atol=1e-9)]
        return k[0] if k else None

    def solve(prog):
        a = handles["init"].evaluator()
        b = handles["final"].evaluator()
        i, j = which(a.lo), which(b.lo)
        run.check(i is not None and j is not None and
                  np.array_equal(a.lo, a.up) and np.array_equal(b.lo, b.up),
                  "table:query", lambda: f"{a.lo} -> {b.lo}")
        asked.append((i, j))
        ok, c, u = outcome(i, j)
        z = np.zeros(prog.n)
        for k, v in enumerate(handles["u"][:, 0]):
            z[v.index] = u[k]
        for v in handles["u"][:, 1:].reshape(-1):
            z[v.index] = 77.
        if not ok:
            run.note("fault:solver fails")
        return mp.Result(bool(ok), z, c if ok else np.inf, prog)

    mp.hooks.solve = solve
    prog, init, final, x, u, dt = to.construct_traj_opt(
        vi.nT, np.array([-3, -0.25 * np.pi]), np.array([6, 0.25 * np.pi]),
        0.001, vi.dt_max)
    handles.update(init=init, final=final, u=u)
    complete = ch.flip("complete", 0.5)
    f = vi.calculate_r_complete if complete else vi.calculate_r_duplicate
    with contextlib.redirect_stdout(io.StringIO()):
        R, U = f(ns, n0, n0, n2, prog, init, final, x, u, dt)
    run.mark(complete, nxy, na, n0, n2, vi.nT, p_ok, seed % 97)
    run.note("op:table")
    run.check(R.shape == (ns, ns) and U.shape == (ns, ns, 2), "table:shape",
              f"{R.shape} {U.shape}")
    for i in range(ns):
        for j in range(ns):
            near = i != j and all(abs(cells[i][k] - cells[j][k]) <=
                                  (n0, n0, n2)[k] for k in range(3))
            ok, c, v = outcome(i, j) if near else (False, 0, 0)
            if ok:
                run.check(R[i, j] == c, "table:cost",
                          f"{cells[i]} -> {cells[j]}: {R[i, j]}, the solver "
                          f"said {c}")
                run.check(np.array_equal(U[i, j], v), "table:control",
                          f"{cells[i]} -> {cells[j]}: {U[i, j]}, expected "
                          f"the first control {v}")
            else:
                run.check(R[i, j] == np.inf, "table:impossible",
                          f"{cells[i]} -> {cells[j]}: {R[i, j]} although "
                          + ("the solver failed" if near else
                             "it is out of reach"))
    for i in range(ns):
        run.check(tuple(vi.flat_to_3d(i)) == cells[i] and
                  vi.threeD_to_flat(*cells[i]) == i, "table:index",
                  f"{i} {vi.flat_to_3d(i)}")


def values(run):
    from neural_network_lyapunov.examples.car import value_iteration as vi
    ch = run.ch
    run.scenario = "values"
    n = 2 + ch.choose("n", 9)
    r = ch.rngstate("costs")
    gamma = [0.95, 0.5, 1., 0.99][ch.choose("gamma", 4)]
    eps = [1e-4, 1e-2, 1e-7][ch.choose("eps", 3)]
    R = r.uniform(0.1, 5, size=(n, n))
    R[r.uniform(size=(n, n)) < [0., 0.4, 0.8][ch.choose("sparse", 3)]] = np.inf
    np.fill_diagonal(R, np.inf)
    goal = ch.choose("goal", n)
    if gamma == 1. or ch.flip("has goal", 0.5):
        R[goal, goal] = 0
    if gamma == 1.:
        # otherwise the optimum itself is infinite
        R[:, goal] = np.where(np.isfinite(R[:, goal]), R[:, goal],
                              r.uniform(3, 9, size=n))
        R[goal, goal] = 0
    if gamma < 1 and ch.flip("dead end", 0.3):
        R[ch.choose("which", n)] = np.inf
    U = r.normal(size=(n, n, 2))
    R0, U0 = R.copy(), U.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        V, policy = vi.value_iteration(n, R, U, eps, gamma)
    run.check(np.array_equal(R, R0) and np.array_equal(U, U0),
              "values:arguments", "the tables were changed")
    W = np.zeros(n)
    for _ in range(100000):
        W2 = np.min(R0 + gamma * W, axis=1)
        with np.errstate(invalid="ignore"):
            done = np.all((W2 == W) | (np.abs(W2 - W) < 1e-12))
        W = W2
        if done:
            break
    run.mark(n, gamma, eps, np.round(W[np.isfinite(W)], 1).tolist())
    run.note("op:value iteration")
    run.check(V.shape == (n,) and policy.shape == (n, 2), "values:shape",
              f"{V.shape} {policy.shape}")
    tol = eps * gamma / (1 - gamma) if gamma < 1 else 0.
    for i in range(n):
        if not np.isfinite(W[i]):
            run.check(V[i] == np.inf, "values:dead-end", f"{i}: {V[i]}")
            continue
        if gamma < 1:
            run.check(abs(V[i] - W[i]) <= tol * 1.01 + 1e-9, "values:optimum",
                      lambda: f"state {i}: {V[i]}, the optimum is {W[i]}")
        else:
            run.check(V[i] <= W[i] + 1e-9 and V[i] >= W[i] - n * eps * 20,
                      "values:optimum",
                      lambda: f"state {i}: {V[i]}, the optimum is {W[i]}")
        k = [j for j in range(n) if np.array_equal(U0[i, j], policy[i])]
        run.check(len(k) == 1, "values:policy", f"state {i}: {policy[i]}")
        q = R0[i, k[0]] + gamma * V[k[0]]
        run.check(q <= np.min(R0[i] + gamma * V) + 4 * eps + 1e-9,
                  "values:greedy", lambda: f"state {i} goes to {k[0]} for "
                  f"{q}, the best is {np.min(R0[i] + gamma * V)}")


# -- training set ------------------------------------------------------------
def training_set(run):
    from neural_network_lyapunov.examples.car import unicycle_traj_opt as to
    mp = hooks(run)
    ch = run.ch
    run.scenario = "training set"
    torch.manual_seed(ch.choose("torch seed", 1000))
    p_ok = [0.02, 0., 0.1][ch.choose("p", 3)]
    g = ch.rngstate("outcomes")
    handles, trajectories = {}, []
    build = to.construct_traj_opt

    def construct(nT, *a, **k):
        out = build(nT, *a, **k)
        handles.update(zip(["init", "final", "x", "u", "dt"], out[1:]),
                       nT=nT)
        return out

    def solve(prog):
        ok = g.uniform() < p_ok
        nT = handles["nT"]
        z = np.zeros(prog.n)
        x = g.normal(size=(3, nT))
        x[:, 0] = handles["init"].evaluator().lo
        x[:, -1] = handles["final"].evaluator().lo
        u, dt = g.normal(size=(2, nT)), g.uniform(0, 0.03, size=nT - 1)
        for name, v in (("x", x), ("u", u), ("dt", dt)):
            for w, val in zip(handles[name].reshape(-1), v.reshape(-1)):
                z[w.index] = val
        if ok:
            trajectories.append((x, u, dt))
        else:
            run.note("fault:solver fails")
        return mp.Result(bool(ok), z, 1. if ok else np.inf, prog)

    mp.hooks.solve = solve
    to.construct_traj_opt = construct
    try:
        states, controls, costs = to.construct_training_set()
    finally:
        to.construct_traj_opt = build
    run.note("op:training set")
    run.mark(p_ok, len(trajectories), int(g.randint(1000)))
    S, C, J = (torch.cat([torch.as_tensor(v) for v in a], dim=0).numpy()
               for a in (states, controls, costs))
    m = len(trajectories)
    if m and S.shape[0] == C.shape[0] and J.shape[0] == S.shape[0] + m and \
            all(len(J0) == len(S0) + 1 for S0, J0 in zip(states[1:],
                                                          costs[1:])):
        # one cost more than states per trajectory (a recorded finding)
        late(run, "set:one-cost-more-than-states", f"{S.shape[0]} states, "
             f"{J.shape[0]} costs on {m} trajectories")
        J = torch.cat([costs[0]] + [v[:-1] for v in costs[1:]]).numpy()
    run.check(S.shape[0] == C.shape[0] == J.shape[0], "set:rows",
              f"{S.shape[0]} states, {C.shape[0]} controls, {J.shape[0]} "
              "costs")
    run.check(S.shape[1:] == (3,) and C.shape[1:] == (2,) and
              J.shape[1:] == (1,), "set:shape",
              f"{S.shape} {C.shape} {J.shape}")
    want = {tuple(np.zeros(3)): (np.zeros(2), 0.)}
    for x, u, dt in trajectories:
        go = np.cumsum(np.sum(u ** 2, axis=0)[::-1])[::-1]
        for k in range(x.shape[1] - 1):
            want[tuple(x[:, k])] = (u[:, k], go[k])
    run.check(S.shape[0] == len(want), "set:size",
              f"{S.shape[0]} rows, {len(want)} states on "
              f"{len(trajectories)} trajectories")
    for a, b, c in zip(S, C, J):
        hit = want.get(tuple(a))
        run.check(hit is not None, "set:state", f"{a} is on no trajectory")
        run.check(close(b, hit[0]), "set:control", f"{a}: {b}, not {hit[0]}")
        run.check(close(c[0], hit[1]), "set:cost",
                  f"{a}: cost-to-go {c[0]}, the rest of its trajectory costs "
                  f"{hit[1]}")


def scenario(run):
    run.later = {}
    parts(run)
    if run.later:
        keys = sorted(run.later)
        key = keys[run.ch.choose("report", len(keys))]
        run.check(False, key, run.later[key])


def parts(run):
    k = run.ch.choose("part", 12)
    if k < 7:
        tree(run)
    elif k < 9:
        table(run)
    elif k < 11:
        values(run)
    else:
        training_set(run)
