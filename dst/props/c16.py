"""C16: cost-to-go labels are the cost of the simulated trajectory.

Histories of label generation over piecewise-affine systems that change
between calls, with costs and pruners that fail, answer from caches or hand
out views, integrators that give up half way, and callers that write into what
they are given. Trajectories and labels come from an independent simulation.
"""
import numpy as np
import torch

ID = "C16"
LEVEL = "exploration"
RUNS = dict(quick=2500, thorough=200000)
RULE = ("one case = one history of label generations and changes to one "
        "system; non-trivial when at least one label was compared; distinct "
        "by system, horizon, goal, cost, pruner and faults")
REAL = ["hybrid_linear_system.py (simulation, cost-to-go, sample "
        "generation)", "scipy solve_ivp (unless it is told to fail)"]
STUBS = ["gurobipy (simulated solver, bounds of the modes)",
         "solve_ivp gives up at a chosen time, as scipy does when its step "
         "becomes too small"]
ASSUMPTIONS = [
    "continuous-time vector fields are continuous (no sliding), the "
    "integrator's own tolerances are accepted",
    "an exception other than leaving the domain may end the data set, but may "
    "not produce wrong labels",
    "costs are finite tensors"]
D = torch.float64


class Ivp:
    """scipy.integrate.solve_ivp, made to give up at will."""
    def __init__(self, real):
        self.real = real
        self.give_up = None
        self.calls = self.failed = 0

    def __call__(self, fun, t_span, y0, *a, **k):
        self.calls += 1
        frac = self.give_up() if self.give_up is not None else None
        if frac is None:
            return self.real(fun, t_span, y0, *a, **k)
        t0, t1 = t_span
        if k.get("t_eval") is not None:
            k["t_eval"] = [s for s in k["t_eval"] if s <= t0 + frac * (
                t1 - t0)]
        sol = self.real(fun, (t0, t0 + frac * (t1 - t0)), y0, *a, **k)
        if sol.status != 0:
            return sol  # it reached an event, or failed, before that
        self.failed += 1
        sol.status, sol.success = -1, False
        sol.message = "Required step size is less than spacing between " \
            "numbers."
        return sol


def preload():
    import scipy.integrate
    if not isinstance(scipy.integrate.solve_ivp, Ivp):
        scipy.integrate.solve_ivp = Ivp(scipy.integrate.solve_ivp)
    import neural_network_lyapunov.hybrid_linear_system  # noqa


class Mode:
    def __init__(self, A, g, P, q):
        self.A, self.g, self.P, self.q = A, g, P, q


class Sys:
    """The system under test and its description."""
    def __init__(self, run, discrete):
        import neural_network_lyapunov.hybrid_linear_system as hls
        ch = run.ch
        self.r = r = ch.rngstate("system")
        self.n = n = 1 + ch.choose("dim", 3)
        self.discrete = discrete
        self.modes = []
        self.s = hls.AutonomousHybridLinearSystem(n, D)
        self.axis = ch.choose("axis", n)
        k = 1 + ch.choose("n_modes", 4)
        size = [2., 4., 40.][ch.choose("size", 3)]
        self.lo = np.full(n, -size)
        self.up = np.full(n, size)
        br = np.sort(r.choice(np.arange(-7, 8), size=k - 1,
                              replace=False)) * size / 8
        self.br = np.concatenate(([-size], br, [size]))
        self.shape = ch.choose("shape", 4)
        self.later = []
        run.mark(n, k, size, self.shape, discrete)
        if discrete:
            for j in range(k):
                A = r.randint(-4, 5, size=(n, n)) / 4.
                g = r.randint(-4, 5, size=n) / 4.
                self.later.append(self.cell(j, A, g))
            if ch.flip("order", 0.4):
                r.shuffle(self.later)
        else:
            A = r.randn(n, n) * 0.5
            A -= np.eye(n) * [0., 1., 2.][ch.choose("stable", 3)]
            g = r.randn(n) * [0., 0.3, 1.][ch.choose("drift", 3)]
            for j in range(k):
                self.later.append(self.cell(j, A.copy(), g.copy()))
                if j + 1 < k:
                    w = r.randn(n) * 0.5
                    A[:, self.axis] += w
                    g -= w * self.br[j + 1]
        keep = ch.choose("held_back", 2) if len(self.later) > 1 else 0
        while len(self.later) > keep:
            self.add()

    def cell(self, j, A, g):
        n, a = self.n, self.axis
        lo, up = self.lo.copy(), self.up.copy()
        lo[a], up[a] = self.br[j], self.br[j + 1]
        if self.discrete and self.shape == 1:  # cells overlap
            lo[a] = max(self.lo[a], lo[a] - 0.5)
        if self.discrete and self.shape == 2:  # gaps between cells
            up[a] -= 0.125
        P = np.concatenate((np.eye(n), -np.eye(n)))
        q = np.concatenate((up, -lo))
        if self.shape == 3:  # a corner is missing
            P = np.concatenate((P, np.ones((1, n))))
            q = np.append(q, self.up[0] * n * 0.75)
        return Mode(A, g, P, q)

    def add(self):
        m = self.later.pop(0)
        self.modes.append(m)
        self.s.add_mode(*[torch.from_numpy(v.copy())
                          for v in (m.A, m.g, m.P, m.q)])

    def change(self, j, dg):
        self.modes[j].g = self.modes[j].g + dg
        with torch.no_grad():
            self.s.g[j] += torch.from_numpy(dg)

    def mode(self, x):
        for j, m in enumerate(self.modes):
            if np.all(m.P @ x <= m.q):
                return j
        return None

    def slack(self, x):
        return max(np.min(m.q - m.P @ x) for m in self.modes)

    def field(self, x):
        j = int(np.argmax([np.min(m.q - m.P @ x) for m in self.modes]))
        return self.modes[j].A @ x + self.modes[j].g

    def start(self, ch):
        r = ch.rngstate("start")
        kind = ch.choose("start.kind", 5)
        if self.discrete:
            x = r.randint(-32, 33, size=self.n) / 32. * self.up
            if kind == 1:  # an edge between modes
                x[self.axis] = self.br[ch.choose("edge", len(self.br))]
        else:
            x = r.uniform(-1, 1, size=self.n) * self.up
        if kind == 2:
            x = x * 0.125
        elif kind == 3:
            x[self.axis] = self.up[0] * 1.25
        elif kind == 4 and ch.flip("zero", 0.5):
            x = np.zeros(self.n)
        return x


class Cost:
    """The user's cost function; keeps what it hands out."""
    KINDS = ["quadratic", "constant", "view", "graph", "abs", "float0d"]

    def __init__(self, run, n):
        ch = run.ch
        r = ch.rngstate("cost")
        self.kind = self.KINDS[ch.choose("cost", len(self.KINDS))]
        self.Q = np.diag(r.randint(0, 5, size=n) / 4.)
        self.c = torch.tensor(0.75, dtype=D)
        self.w = torch.tensor(self.Q.sum(axis=0), dtype=D)
        if self.kind == "graph":
            self.w.requires_grad_(True)
        self.calls = 0
        self.fail_at = None
        self.error = None
        run.mark(self.kind)

    def arm(self, ch, S):
        """fail at one of the next calls?"""
        self.fail_at = None
        k = ch.choose("cost.fail", 12)
        if k == 1:
            self.fail_at = self.calls + 1 + ch.choose("cost.fail.at", 12)
            self.error = [ValueError, RuntimeError, ArithmeticError][
                ch.choose("cost.error", 3)]

    def value(self, x):
        if self.kind == "quadratic":
            return x @ self.Q @ x
        if self.kind in ("constant", ):
            return 0.75
        if self.kind == "view":
            return x[0]
        if self.kind == "float0d":
            return np.abs(x[-1]) + 0.5
        if self.kind == "abs":
            return np.abs(x).sum() * 0.5
        return self.Q.sum(axis=0) @ x

    def __call__(self, x):
        self.calls += 1
        if self.calls == self.fail_at:
            raise self.error("injected into the cost function")
        if self.kind == "quadratic":
            return x @ torch.from_numpy(self.Q) @ x
        if self.kind == "constant":
            return self.c
        if self.kind == "view":
            return x[0]
        if self.kind == "float0d":
            return x[-1].abs() + 0.5
        if self.kind == "abs":
            return x.abs().sum() * 0.5
        return self.w @ x


class Pruner:
    def __init__(self, run, S):
        self.ch = run.ch
        self.kind = run.ch.choose("pruner", 3)
        self.asked = []
        self.fail_at = None

    def arm(self, ch):
        self.asked = []
        self.fail_at = ch.choose("pruner.at", 10) if ch.choose(
            "pruner.fail", 12) == 1 else None

    def __call__(self, x):
        if self.fail_at is not None and len(self.asked) == self.fail_at:
            raise LookupError("injected into the pruner")
        if self.kind == 1:
            a = bool(x[0] > 0)
        else:
            a = self.ch.flip("prune", 0.4)
        self.asked.append((x.detach().numpy().copy(), a))
        return a


def simulate(S, x0, N, cost, goal):
    """(states, labels) of the discrete-time trajectory; None if it leaves"""
    X = [np.array(x0)]
    for i in range(N):
        if goal is not None and np.linalg.norm(X[i] - goal) < 1e-3:
            break
        j = S.mode(X[i])
        if j is None:
            return None
        X.append(S.modes[j].A @ X[i] + S.modes[j].g)
    c = [cost.value(x) for x in X]
    return np.array(X), np.cumsum(c[::-1])[::-1], np.sum(np.abs(c))


def integrate(S, x0, T, cost, goal):
    """dense reference solution on [0, end], end"""
    from scipy.integrate import solve_ivp
    ev = []
    if goal is not None:
        def hit(t, y):
            return np.linalg.norm(y[:-1] - goal) - 1e-3
        hit.terminal = True
        ev = [hit]

    n = [0]

    def f(t, y):
        n[0] += 1
        if n[0] > 20000:  # sliding, outside the domain
            raise TimeoutError
        return np.append(S.field(y[:-1]), cost.value(y[:-1]))
    return solve_ivp.real(f, (0., T), np.append(x0, 0.), method="DOP853",
                          rtol=1e-10, atol=1e-12, events=ev,
                          dense_output=True)


def pairs_key(X, L):
    return sorted([tuple(np.atleast_1d(x)) + (float(v), )
                   for x, v in zip(X, L)])


def same(a, b, rtol):
    if len(a) != len(b):
        return False
    return all(np.allclose(u[:-1], v[:-1], rtol=0, atol=1e-12) and
               abs(u[-1] - v[-1]) <= rtol for u, v in zip(a, b))


def goal_of(run, S):
    ch = run.ch
    k = ch.choose("goal", 3)
    if k == 0:
        return None
    r = ch.rngstate("goal.rng")
    if S.discrete:
        if k == 1:
            # somewhere on a trajectory
            x = S.start(ch)
            for _ in range(ch.choose("goal.after", 5)):
                j = S.mode(x)
                if j is None:
                    break
                x = S.modes[j].A @ x + S.modes[j].g
            return x
        return r.randint(-8, 9, size=S.n) / 8.
    j = S.mode(np.zeros(S.n))
    if j is not None and k == 1:
        m = S.modes[j]
        try:
            x = -np.linalg.solve(m.A, m.g)
        except np.linalg.LinAlgError:
            return None
        if np.all(np.abs(x) < 1e3):
            return x
    return S.up * 3  # never reached


def discrete(run):
    import neural_network_lyapunov.hybrid_linear_system as hls
    ch = run.ch
    run.scenario = "discrete"
    S = Sys(run, True)
    cost = Cost(run, S.n)
    pruner = Pruner(run, S)
    run.sample = dict(time="discrete", dim=S.n, modes=len(S.modes),
                      cost=cost.kind)
    for _ in range(1 + ch.choose("ops", 4)):
        op = ch.choose("op", 8)
        run.mark("op", op)
        run.note("op:%d" % op)
        N = [8, 3, 1, 0, 5][ch.choose("N", 5)]
        goal = goal_of(run, S)
        gt = None if goal is None else torch.from_numpy(goal.copy())
        if op < 3:
            one_discrete(run, S, cost, N, goal, gt, hls)
        elif op < 6:
            many(run, S, cost, N, goal, gt, pruner, hls)
        elif op == 6:
            if S.later:
                S.add()
            else:
                j = ch.choose("which", len(S.modes))
                S.change(j, ch.rngstate("dg").randint(
                    -2, 3, size=S.n) / 4.)
        else:
            steps(run, S, hls)


def steps(run, S, hls):
    """mode, step_forward and possible_dx"""
    X = [S.start(run.ch) for _ in range(3)]
    ok = []
    for x in X:
        xt = torch.from_numpy(x.copy())
        j = S.mode(x)
        run.check(S.s.mode(xt) == j, "mode", f"{x}: {S.s.mode(xt)} not {j}")
        nxt = [m.A @ x + m.g for m in S.modes if np.all(m.P @ x <= m.q)]
        got = S.s.possible_dx(xt)
        run.check(len(got) == len(nxt) and all(np.allclose(a, b) for a, b in
                                               zip(got, nxt)), "possible",
                  f"{x}: {got} not {nxt}")
        try:
            y = S.s.step_forward(xt)
        except hls.AutonomousHybridLinearSystem.StepForwardException:
            y = None
        run.check((y is None) == (j is None), "step", f"{x}: {y} in mode {j}")
        if j is not None:
            run.check(np.allclose(y, nxt[0]), "step", f"{x}: {y}, {nxt}")
            ok.append(x)
    if ok:
        B = torch.from_numpy(np.array(ok))
        Y = S.s.step_forward(B).numpy()
        run.check(all(np.allclose(y, S.modes[S.mode(x)].A @ x +
                                  S.modes[S.mode(x)].g)
                      for x, y in zip(ok, Y)), "step", "batch")
    run.nontrivial = True


def frozen(run, x0t, x0, cost, S):
    run.check(all(np.array_equal(a.numpy(), b) for a, b in zip(x0t, x0)),
              "caller", "the caller's start state was changed")
    run.check(float(cost.c) == 0.75 and np.array_equal(
        cost.w.detach().numpy(), cost.Q.sum(axis=0)), "caller",
        "a tensor of the cost function was changed")
    run.check(all(np.array_equal(a.numpy(), m.g) and
                  np.array_equal(A.numpy(), m.A)
                  for a, A, m in zip(S.s.g, S.s.A, S.modes)), "caller",
              "the system was changed")


def one_discrete(run, S, cost, N, goal, gt, hls):
    ch = run.ch
    x0 = S.start(ch)
    x0t = torch.from_numpy(x0.copy())
    cost.arm(ch, S)
    ref = simulate(S, x0, N, cost, goal)
    c0 = cost.calls
    try:
        total, X, L = hls.compute_discrete_time_system_cost_to_go(
            S.s, x0t, N, cost, gt)
    except hls.AutonomousHybridLinearSystem.StepForwardException:
        run.check(ref is None or fired(cost), "lost",
                  f"{x0} stays in the domain")
        run.note("probe:left")
        return
    except Exception as e:
        if fired(cost) and isinstance(e, cost.error):
            run.note("fault:cost")
            return
        raise
    finally:
        frozen(run, [x0t], [x0], cost, S)
    run.check(cost.calls > c0, "uncosted", "the cost was never evaluated")
    if ref is None:
        run.check(False, "left", f"{x0} leaves the domain but has labels {L}")
    RX, RL, scale = ref
    X, L = X.detach().numpy(), L.detach().numpy()
    run.check(X.shape == (S.n, len(RX)) and L.shape == (len(RX), ), "shape",
              lambda: f"{X.shape} {L.shape}, {len(RX)} states expected")
    run.check(np.allclose(X.T, RX, rtol=0, atol=1e-12), "states",
              lambda: f"{X.T} not {RX}")
    t = 1e-9 * (1 + scale)
    run.check(np.all(np.abs(L - RL) <= t), "labels", lambda:
              f"labels {L}, accumulated costs {RL}")
    run.check(abs(float(total.detach()) - RL[0]) <= t, "total",
              lambda: f"{total} not {RL[0]}")
    c = np.array([cost.value(x) for x in X.T])
    run.check(np.all(np.abs(L[:-1] - c[:-1] - L[1:]) <= t), "recursion",
              lambda: f"{L} with {c}")
    run.note("labels", len(L))
    run.nontrivial = True


def fired(cost):
    return cost.fail_at is not None and cost.calls >= cost.fail_at


def many(run, S, cost, N, goal, gt, pruner, hls):
    ch = run.ch
    k = ch.choose("n_samples", 5)
    x0 = [S.start(ch) for _ in range(k)]
    if k > 1 and ch.flip("twice", 0.3):
        x0[-1] = x0[0].copy()
    x0t = [torch.from_numpy(x.copy()) for x in x0]
    if k > 1 and ch.flip("rows", 0.3):  # rows of one tensor
        B = torch.from_numpy(np.array(x0))
        x0t = [B[i] for i in range(k)]
    cost.arm(ch, S)
    pruner.arm(ch)
    use = None if ch.flip("no pruner", 0.3) else pruner
    refs = [simulate(S, x, N, cost, goal) for x in x0]
    try:
        out = hls.generate_cost_to_go_samples(S.s, x0t, N, cost, True, gt,
                                              use)
    except Exception as e:
        if fired(cost) and isinstance(e, cost.error):
            run.note("fault:cost")
            return
        if isinstance(e, LookupError) and use is not None and \
                pruner.fail_at is not None:
            run.note("fault:pruner")
            return
        raise
    finally:
        frozen(run, x0t, x0, cost, S)
    clean = not fired(cost)
    RX = [x for q in refs if q is not None for x in q[0]]
    RL = [v for q in refs if q is not None for v in q[1]]
    scale = max([q[2] for q in refs if q is not None] or [0.])
    t = 1e-9 * (1 + scale)
    if use is not None:
        asked = pairs_key([a for a, _ in pruner.asked],
                          np.zeros(len(pruner.asked)))
        if clean:
            run.check(same(asked, pairs_key(RX, np.zeros(len(RX))), t),
                      "pruner", lambda: f"asked about {asked}, the states are "
                      f"{RX}")
        kept = pairs_key([a for a, v in pruner.asked if not v],
                         np.zeros(sum(not v for _, v in pruner.asked)))
        got = pairs_key([a.detach().numpy() for a, _ in out],
                        np.zeros(len(out)))
        run.check(same(got, kept, t), "pruned", lambda: f"returned {got}, the "
                  f"pruner kept {kept}")
    got = pairs_key([a.detach().numpy() for a, _ in out],
                    [v.detach() for _, v in out])
    want = pairs_key(RX, RL)
    if use is None and clean:
        run.check(same(got, want, t), "pairs", lambda: f"{got} not {want}")
    # every label belongs to its own state, and is used once
    left = list(want)
    for g in got:
        hit = [w for w in left if np.allclose(g[:-1], w[:-1], rtol=0,
                                              atol=1e-12) and
               abs(g[-1] - w[-1]) <= t]
        run.check(hit, "labels", lambda: f"{g} is not a state and label of "
                  f"{want}")
        left.remove(hit[0])
    # what a caller does to one pair does not change another
    if len(out) > 1:
        i = ch.choose("touch", len(out))
        keep = [(a.detach().clone(), v.detach().clone()) for a, v in out]
        with torch.no_grad():
            out[i][0].detach().fill_(1e6)
        ok = all(torch.equal(a.detach(), b) and torch.equal(v.detach(), w)
                 for k, ((a, v), (b, w)) in enumerate(zip(out, keep))
                 if k != i)
        run.check(ok, "aliased", "pairs share storage")
    frozen(run, x0t, x0, cost, S)
    run.note("labels", len(out))
    run.note("probe:left", sum(q is None for q in refs))
    run.mark(k, sum(q is None for q in refs), len(out))
    run.nontrivial = run.nontrivial or bool(len(out))


def judge_continuous(run, S, cost, T, goal, x0, X, L, ts, where):
    """one trajectory: states X [n, m], labels L at times ts (or None)"""
    try:
        ref = integrate(S, x0, T, cost, goal)
    except TimeoutError:
        ref = None
    if ref is None or ref.status < 0:
        run.note("probe:reference-gave-up")
        return
    end = ref.t[-1]
    tt = np.linspace(0., end, 201)
    Y = ref.sol(tt)
    slack = np.array([S.slack(y) for y in Y[:-1].T])
    sure_out = slack[-1] < -1e-2 and np.mean(slack < 0) > 0.3
    sure_in = slack.min() > 0.5 * (1 + np.abs(Y[:-1]).max())
    if X is None:
        run.check(not sure_in, where + ":lost", lambda: f"the trajectory from "
                  f"{x0} stays well inside the domain")
        return
    run.check(not sure_out, where + ":left", lambda: f"{x0} leaves the domain "
              f"but has labels {L}")
    if slack.min() < 1e-3:
        return
    scale = 1. + np.abs(Y).max()
    t = 2e-4 * scale
    run.check(np.allclose(X[:, 0], x0) and abs(L[-1]) <= t, where + ":ends",
              lambda: f"starts at {X[:, 0]}, ends with label {L[-1]}")
    V = Y[-1, -1]
    if ts is not None and goal is None:
        run.check(abs(ts[-1] - T) < 1e-9, where + ":horizon", f"{ts[-1]}")
    if ts is not None:
        at = ref.sol(np.minimum(ts, end))
        run.check(abs(ts[-1] - end) <= 1e-2 * (1 + end), where + ":horizon",
                  lambda: f"ended at {ts[-1]}, expected {end}")
        run.check(np.abs(X - at[:-1]).max() <= t, where + ":states",
                  lambda: f"{X} not {at[:-1]}")
        run.check(np.abs(L - (V - at[-1])).max() <= t, where + ":labels",
                  lambda: f"{L} not {V - at[-1]}")
    else:
        # the label that belongs to a state of the trajectory
        for x, v in zip(X.T, L):
            d = np.abs(Y[:-1] - x[:, None]).max(axis=0) + \
                np.abs(V - Y[-1] - v)
            k = int(np.argmin(d))
            lo, hi = tt[max(k - 1, 0)], tt[min(k + 1, 200)]
            fine = np.linspace(lo, hi, 400)
            Z = ref.sol(fine)
            e = np.abs(Z[:-1] - x[:, None]).max(axis=0) + \
                np.abs(V - Z[-1] - v)
            run.check(e.min() <= 4 * t + 1e-2 * np.ptp(Z[-1]) +
                      1e-2 * np.ptp(Z[:-1]), where + ":labels",
                      lambda: f"{x} with label {v} is not on the trajectory "
                      f"of {x0}")
    run.note("labels", len(L))
    run.nontrivial = True


def continuous(run):
    import scipy.integrate
    import neural_network_lyapunov.hybrid_linear_system as hls
    ch = run.ch
    run.scenario = "continuous"
    S = Sys(run, False)
    cost = Cost(run, S.n)
    pruner = Pruner(run, S)
    ivp = scipy.integrate.solve_ivp
    run.sample = dict(time="continuous", dim=S.n, modes=len(S.modes),
                      cost=cost.kind)
    run.cleanup.append(lambda: setattr(ivp, "give_up", None))
    Left = hls.AutonomousHybridLinearSystem.StepForwardException
    for _ in range(1 + ch.choose("ops", 2)):
        op = ch.choose("op", 4)
        run.mark("op", op)
        run.note("op:c%d" % op)
        T = float([1., 0.25, 3., 0.01][ch.choose("T", 4)])
        goal = goal_of(run, S)
        gt = None if goal is None else torch.from_numpy(goal.copy())
        if goal is not None and S.slack(goal) > 0 and ch.flip("long", 0.7):
            T = 9.
        if op == 3:
            if S.later:
                S.add()
            continue
        k = 1 if op < 2 else 1 + ch.choose("n_samples", 3)
        x0 = [S.start(ch) for _ in range(k)]
        if goal is not None:
            x0 = [x for x in x0 if np.linalg.norm(x - goal) > 2e-3] or \
                [goal + 0.1]
            if S.slack(goal) > 0 and ch.flip("near", 0.5):
                x0 = [goal + 0.05 * (x - goal) for x in x0]
                x0 = [x if np.linalg.norm(x - goal) > 2e-3 else goal + 0.1
                      for x in x0]
        x0t = [torch.from_numpy(x.copy()) for x in x0]
        cost.arm(ch, S)
        pruner.arm(ch)
        use = None if ch.flip("no pruner", 0.5) else pruner
        failing = []
        if ch.flip("give up", 0.2):
            ivp.give_up = lambda: float(
                [0.5, 0.1, 0.9][ch.choose("give up.at", 3)]) if ch.flip(
                    "give up.now", 0.7) else None
        else:
            ivp.give_up = None
        f0 = ivp.failed
        try:
            if op < 2:
                total, X, L, sol = \
                    hls.compute_continuous_time_system_cost_to_go(
                        S.s, x0t[0], T, cost, gt)
            else:
                out = hls.generate_cost_to_go_samples(
                    S.s, x0t, T, cost, False, gt, use)
        except Left:
            if fired(cost) or ivp.failed > f0:
                run.note("fault:integration-refused")
                continue
            if op == 2:
                raise
            judge_continuous(run, S, cost, T, goal, x0[0], None, None, None,
                             "one")
            continue
        except Exception as e:
            if ivp.failed > f0:
                run.note("fault:integration-refused")
                continue
            if fired(cost) and isinstance(e, cost.error):
                run.note("fault:cost")
                continue
            if isinstance(e, LookupError) and pruner.fail_at is not None:
                run.note("fault:pruner")
                continue
            raise
        finally:
            ivp.give_up = None
            frozen(run, x0t, x0, cost, S)
        failing = ivp.failed - f0
        if op < 2:
            run.check(not failing, "gave-up", "the integration failed half "
                      f"way, but has labels {L}")
            run.check(float(total) == float(L[0]) or abs(
                float(total) - float(L[0])) <= 1e-9 * (1 + abs(float(total))),
                "total", lambda: f"{total} not {L[0]}")
            judge_continuous(run, S, cost, T, goal, x0[0], X.numpy(),
                             L.numpy(), np.asarray(sol.t), "one")
            continue
        if fired(cost):
            continue
        # the pairs of each trajectory
        if use is not None:
            kept = [a for a, v in pruner.asked if not v]
            run.check(len(kept) == len(out) and all(
                np.array_equal(a, b.numpy()) for a, (b, _) in
                zip(kept, out)), "pruned", lambda: f"returned {out}, the "
                f"pruner kept {kept}")
        many_continuous(run, S, cost, T, goal, x0, out, failing, use)


def many_continuous(run, S, cost, T, goal, x0, out, failing, use):
    if failing == len(x0):
        run.check(not out, "gave-up", lambda: "every integration failed half "
                  f"way, but there are labels {out}")
        return
    if failing:
        if any(np.abs(S.field(x)).max() < 1e-3 for x in x0) or \
                len(set(map(tuple, x0))) < len(x0):
            return  # a state at rest looks like a start at every time
        run.check(sum(torch.equal(a, torch.from_numpy(x)) for a, _ in out
                      for x in x0) <= len(x0) - failing, "gave-up",
                  "an integration failed half way, but there are labels "
                  f"{out}")
        return
    if use is not None:
        return
    # consecutive pairs belong to one trajectory, in the order of the starts
    at = []
    k = 0
    for x in x0:
        j = next((i for i in range(k, len(out)) if np.array_equal(
            out[i][0].numpy(), x)), None)
        at.append(j)
        if j is not None:
            k = j + 1
    ends = [i for i in at if i is not None] + [len(out)]
    run.check(not out or (ends[0] == 0), "pairs", "states before the first "
              "start state")
    for x, j in zip(x0, at):
        if j is None:
            judge_continuous(run, S, cost, T, goal, x, None, None, None,
                             "many")
            continue
        e = min(i for i in ends if i > j)
        X = np.array([out[i][0].numpy() for i in range(j, e)]).T
        L = np.array([float(out[i][1]) for i in range(j, e)])
        judge_continuous(run, S, cost, T, goal, x, X, L, None, "many")


def scenario(run):
    run.nontrivial = False
    if run.ch.choose("family", 4) < 3:
        discrete(run)
    else:
        continuous(run)
