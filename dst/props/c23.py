"""C23: simulations, sample sets and parameter vectors are what they claim.

Plants simulated under network controllers, with an integrator that gives up
and plants that fail; sampling with a random number generator that is allowed
its extreme values; and the flat parameter vector of a network written, read
and trained over a history of updates.
"""
import contextlib

import numpy as np
import torch

ID = "C23"
LEVEL = "exploration"
RUNS = dict(quick=2500, thorough=200000)
RULE = ("one case = one simulation, one sampling call, one projection or one "
        "history of parameter updates; non-trivial when at least one "
        "result was compared with the reference; distinct by scenario, sizes, "
        "options and faults")
REAL = ["utils.py (simulation, sampling, parameter vectors, projection)",
        "integrator.py", "geometry_transform.py",
        "scipy solve_ivp (unless it is told to give up)", "cvxpy"]
STUBS = ["plants", "torch.rand returns the extreme values of its "
         "range more often than chance", "solve_ivp gives up at a chosen "
         "time", "gurobipy (simulated solver) behind cvxpy"]
ASSUMPTIONS = [
    "networks and vector fields are finite",
    "an exception of the plant or the function may end the call"]
D = torch.float64


class Broken(Exception):
    """What the injected failures raise."""


def preload():
    from dst.props import c16
    c16.preload()
    import neural_network_lyapunov.utils  # noqa
    import neural_network_lyapunov.integrator  # noqa


def t(v):
    return torch.tensor(np.asarray(v), dtype=D)


def network(run, n_in, n_out, label="net"):
    ch = run.ch
    widths = [n_in] + [1 + ch.choose(label + ".w", 5)
                       for _ in range(ch.choose(label + ".hidden", 3))] + \
        [n_out]
    slope = [0.1, 0.01, 0.][ch.choose(label + ".slope", 3)]
    bias = ch.flip(label + ".bias", 0.75)
    r = ch.rngstate(label + ".params")
    layers = []
    for a, b in zip(widths[:-1], widths[1:]):
        lin = torch.nn.Linear(a, b, bias=bias).to(D)
        lin.weight.data = t(r.normal(size=(b, a)))
        if bias:
            lin.bias.data = t(r.normal(size=b) * 0.5)
        layers += [lin, torch.nn.LeakyReLU(slope)]
    return torch.nn.Sequential(*layers[:-1]), widths, slope, bias


def flat(params):
    if not params:
        return np.zeros(0)
    return np.concatenate([p.detach().numpy().reshape(-1).copy()
                           for p in params])


def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(
        np.abs(a - b) <= tol * (1 + np.abs(b))))


# -- simulation --------------------------------------------------------------
class Plant:
    def __init__(self, run, nx, nu, fail_at):
        r = run.ch.rngstate("plant")
        self.A = r.normal(size=(nx, nx)) * 0.7
        self.Bm = r.normal(size=(nx, nu))
        self.c = r.normal(size=nx) * 0.2
        self.calls, self.fail_at = [], fail_at

    def rhs(self, x, u):
        return self.A @ np.sin(x) + self.Bm @ u + self.c

    def dynamics(self, x, u):
        if self.fail_at is not None and len(self.calls) >= self.fail_at:
            raise Broken("plant")
        self.calls.append((np.array(x), np.array(
            u.detach().numpy() if isinstance(u, torch.Tensor) else u)))
        if isinstance(x, torch.Tensor):
            return t(self.rhs(x.detach().numpy(), self.calls[-1][1]))
        return self.rhs(x, u)


def plant_controller(run):
    import scipy.integrate
    from neural_network_lyapunov import utils
    run.scenario = "plant"
    ch = run.ch
    nx, nu = 1 + ch.choose("nx", 3), 1 + ch.choose("nu", 2)
    net, widths, _, _ = network(run, nx, nu)
    r = ch.rngstate("controller")
    xe, ue = r.normal(size=nx) * 0.3, r.normal(size=nu) * 0.3
    lo, up = ue - r.uniform(0.05, 2, size=nu), ue + r.uniform(0.05, 2, size=nu)
    x0 = r.normal(size=nx)
    T0 = [0., 0.5, -1.][ch.choose("start", 3)]
    T = T0 + [0.005, 0.1, 0.333, 1.][ch.choose("duration", 4)]
    plant = Plant(run, nx, nu,
                  ch.choose("plant.at", 40) if ch.flip("plant.fail", 0.1)
                  else None)
    ivp = scipy.integrate.solve_ivp
    if ch.flip("integrator gives up", 0.2):
        run.note("fault:integrator")
        frac = 0.1 + 0.8 * ch.real("give up at")
        ivp.give_up = lambda: frac
    run.cleanup.append(lambda: setattr(ivp, "give_up", None))
    n_failed = ivp.failed
    x0_in = x0.copy()
    before = flat(list(net.parameters()))
    try:
        res = utils.simulate_plant_with_controller(
            plant, net, (T0, T), t(xe), t(ue), t(lo), t(up), x0_in)
    except Broken:
        run.note("fault:plant")
        run.mark("plant failed", len(plant.calls))
        return
    ivp.give_up = None
    run.check(np.array_equal(x0, x0_in), "plant:argument", "x0 was changed")
    run.check(np.array_equal(before, flat(list(net.parameters()))),
              "plant:network", "the controller was changed")
    run.mark(widths, T - T0, len(plant.calls), ivp.failed - n_failed)
    base = net(t(xe)).detach().numpy()

    def control(x):
        with torch.no_grad():
            v = net(t(x)).numpy() - base + ue
        return np.maximum(np.minimum(v, up), lo)

    run.check(len(plant.calls) > 0, "plant:unused", "the plant was not used")
    for x, u in plant.calls:
        run.check(u.shape == (nu, ) and close(u, control(x), 1e-9),
                  "plant:control",
                  lambda: f"at {x} the plant got {u}, the saturated "
                  f"controller gives {control(x)}")
    if any(np.any(control(x) == up) or np.any(control(x) == lo)
           for x, _ in plant.calls):
        run.note("probe:saturated")
    if ivp.failed > n_failed:
        run.check(not res.success, "plant:failure",
                  "the integrator gave up and the result says success")
        run.note("probe:failure-visible")
    else:
        run.check(bool(res.success), "plant:success", "not successful")
        want = np.arange(T0, T, 0.01)
        run.check(close(res.t, want), "plant:times",
                  lambda: f"times {res.t}")
    ref = scipy.integrate.solve_ivp(
        lambda s, x: plant.rhs(x, control(x)), (T0, T), x0, rtol=1e-9,
        atol=1e-11, dense_output=True)
    run.check(res.y.shape == (nx, len(res.t)), "plant:shape",
              lambda: f"{res.y.shape} for {len(res.t)} times")
    for k, s in enumerate(res.t):
        want = ref.sol(s)
        run.check(float(np.max(np.abs(res.y[:, k] - want))) <=
                  2e-2 * (1 + float(np.max(np.abs(want)))), "plant:path",
                  lambda: f"time {s}: {res.y[:, k]}, reference {want}")
    run.sim_time += float(T - T0)


def steps(run):
    """step_system and the fixed-step integrator."""
    from neural_network_lyapunov import integrator, utils
    ch = run.ch
    nx, nu = 1 + ch.choose("nx", 3), 1 + ch.choose("nu", 2)
    if ch.flip("discrete", 0.5):
        run.scenario = "steps"
        net, widths, _, _ = network(run, nx, nx)
        n = ch.choose("n", 6)
        seen = []

        class System:
            def step_forward(self, x):
                seen.append(x.detach().numpy().copy())
                return net(x)

        many = ch.flip("batch", 0.3)
        r = ch.rngstate("x0")
        x0 = t(r.normal(size=(3, nx) if many else nx))
        grad = ch.flip("grad", 0.3)
        x0.requires_grad_(grad)
        path = utils.step_system(System(), x0, n)
        run.check(len(path) == n + 1, "steps:length",
                  lambda: f"{len(path)} states for {n} steps")
        x = x0.detach().clone()
        for k in range(n + 1):
            run.check(close(path[k].detach().numpy(), x.numpy(), 1e-12),
                      "steps:state", lambda: f"state {k} is {path[k]}, "
                      f"expected {x}")
            run.check(k == 0 or not path[k].requires_grad, "steps:grad",
                      "a simulated state carries a graph")
            with torch.no_grad():
                x = net(x)
        run.check(len(seen) == n, "steps:calls",
                  lambda: f"{len(seen)} steps of the system")
        run.mark(widths, n, many, grad)
        return
    run.scenario = "rk4"
    fail = ch.choose("plant.at", 30) if ch.flip("plant.fail", 0.1) else None
    plant = Plant(run, nx, nu, fail)
    r = ch.rngstate("x0")
    x0, K = r.normal(size=nx), r.normal(size=(nu, nx))
    k0 = r.normal(size=nu)
    dt = [1e-3, 0.02, 0.1, 0.3][ch.choose("dt", 4)]
    n = ch.choose("n", 6)
    torchy = ch.flip("torch", 0.5)
    asked = []

    def controller(x):
        asked.append(np.array(x.numpy() if torchy else x))
        u = K @ np.tanh(asked[-1]) + k0
        return t(u) if torchy else u

    arg = t(x0) if torchy else x0.copy()
    try:
        x, u = integrator.rk4_constant_control(plant.dynamics, controller,
                                               arg, dt, n)
    except Broken:
        run.note("fault:plant")
        run.mark("plant failed", fail)
        return
    uu = K @ np.tanh(x0) + k0
    run.check(len(asked) == 1 and np.array_equal(asked[0], x0),
              "rk4:controller", lambda: f"the controller was asked at {asked}")
    run.check(np.array_equal(np.array(arg), x0), "rk4:argument",
              "x0 was changed")
    run.check(close(np.array(u), uu, 1e-12), "rk4:control", lambda: f"{u}")
    for _, v in plant.calls:
        run.check(close(v, uu, 1e-12), "rk4:constant",
                  lambda: f"the plant got {v} instead of {uu}")
    y = x0.copy()
    for _ in range(n):
        k1 = plant.rhs(y, uu)
        k2 = plant.rhs(y + dt / 2 * k1, uu)
        k3 = plant.rhs(y + dt / 2 * k2, uu)
        k4 = plant.rhs(y + dt * k3, uu)
        y = y + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    run.check(close(np.array(x), y, 1e-10), "rk4:state",
              lambda: f"{x}, the classical method gives {y}")
    run.sim_time += dt * n
    run.mark(n, dt, torchy, nx, nu)


# -- sampling ----------------------------------------------------------------
@contextlib.contextmanager
def extreme_rand(run, p):
    """torch.rand may return 0 and the largest number below 1."""
    real = torch.rand
    ch = run.ch

    def rand(*a, **k):
        v = real(*a, **k)
        if p <= 0 or v.numel() == 0:
            return v
        top = 1 - 2.**(-24 if v.dtype == torch.float32 else -53)
        f = v.reshape(-1)
        for _ in range(1 + ch.choose("extremes", 3)):
            if ch.flip("extreme", p):
                f[ch.choose("which", f.numel())] = \
                    0. if ch.flip("zero", 0.6) else top
                run.note("fault:extreme-random-number")
        return v
    torch.rand = rand
    try:
        yield
    finally:
        torch.rand = real


def sampling(run):
    from neural_network_lyapunov import utils
    ch = run.ch
    n = 1 + ch.choose("n", 4)
    r = ch.rngstate("box")
    lo = r.uniform(-3, 1, size=n)
    up = lo + r.uniform(0.01, 4, size=n)
    if ch.flip("flat", 0.15):
        up[ch.choose("flat.i", n)] = lo[ch.choose("flat.i", n)]
        up = np.maximum(lo, up)
    torch.manual_seed(ch.choose("torch seed", 1 << 30))
    kind = ch.choose("what", 3)
    run.scenario = ["box", "boundary", "mesh"][kind]
    tl, tu = t(lo), t(up)
    eps = 1e-12 * (1 + np.abs(lo) + np.abs(up))
    if kind == 2:
        size = tuple(1 + ch.choose("mesh", 4) for _ in range(n))
        a = [tl, list(lo), lo][ch.choose("type", 3)]
        b = [tu, list(up), up][ch.choose("type.b", 3)]
        S = utils.get_meshgrid_samples(a, b, size, D)
        run.check(S.shape == (int(np.prod(size)), n) and S.dtype == D,
                  "mesh:shape", lambda: f"{S.shape} {S.dtype} for {size}")
        axes = [np.linspace(lo[i], up[i], size[i]) if size[i] > 1 else
                np.array([lo[i]]) for i in range(n)]
        want = np.stack([g.reshape(-1) for g in np.meshgrid(
            *axes, indexing="ij")], axis=1)
        order = np.lexsort(np.round(S.numpy(), 9).T[::-1])
        worder = np.lexsort(np.round(want, 9).T[::-1])
        run.check(close(S.numpy()[order], want[worder], 1e-9), "mesh:points",
                  lambda: f"{S} is not the grid {want}")
        run.mark(size)
        return
    # on few samples every face must be reachable: many are drawn
    many = ch.flip("many", 0.1)
    m = 40 * n if many else ch.choose("m", 12)
    p = [0., 0.4][ch.choose("extreme random numbers", 2)]
    with extreme_rand(run, 0. if many else p):
        S = (utils.uniform_sample_in_box if kind == 0 else
             utils.uniform_sample_on_box_boundary)(tl, tu, m)
    run.check(S.shape == (m, n), run.scenario + ":shape",
              lambda: f"{S.shape} for {m} samples")
    run.check(np.array_equal(tl.numpy(), lo) and np.array_equal(
        tu.numpy(), up), run.scenario + ":argument", "the box was changed")
    s = S.numpy()
    run.check(bool(np.all(s >= lo - eps) and np.all(s <= up + eps)),
              run.scenario + ":outside", lambda: f"{s} outside {lo} {up}")
    if kind == 1:
        on = (np.abs(s - lo) <= eps) | (np.abs(s - up) <= eps)
        run.check(bool(np.all(np.any(on, axis=1))), "boundary:interior",
                  lambda: f"{s} is not on the boundary of {lo} {up}")
    if many and np.all(up > lo):
        # probability of a false alarm: 2n (1 - 1/(2n))^(40 n) < 2e-8
        w = up - lo
        if kind == 1:
            for i in range(n):
                run.check(bool(np.any(np.abs(s[:, i] - lo[i]) <= eps[i])) and
                          bool(np.any(np.abs(s[:, i] - up[i]) <= eps[i])),
                          "boundary:face", lambda: f"a face of axis {i} is "
                          "never sampled")
        if kind == 0 or n > 1:
            inner = s[(s > lo + eps) & (s < up - eps)]
            run.check(inner.size > 0, run.scenario + ":corners", "no spread")
        if kind == 0:
            rel = (s - lo) / w
            for i in range(n):
                # (1/2)^40 each
                run.check(rel[:, i].min() < 0.5 < rel[:, i].max(),
                          "box:spread", lambda: f"axis {i}: {rel[:, i]}")
        run.note("probe:spread")
    run.mark(n, m, p)


# -- parameter vectors -------------------------------------------------------
def parameters(run):
    from neural_network_lyapunov import utils
    run.scenario = "parameters"
    ch = run.ch
    n_in, n_out = 1 + ch.choose("n_in", 3), 1 + ch.choose("n_out", 2)
    net, widths, slope, bias = network(run, n_in, n_out)
    size = sum(p.numel() for p in net.parameters())
    r = ch.rngstate("updates")
    kept = []
    want = flat(list(net.parameters()))
    x = t(r.normal(size=(4, n_in)))
    for k in range(2 + ch.choose("operations", 5)):
        op = ch.choose("operation", 6)
        if op == 0:
            v = t(r.normal(size=size))
            want = v.numpy().copy()
            utils.update_relu_params(net, v)
            kept.append((v, want.copy()))
        elif op == 1:
            got = utils.extract_relu_parameters(net)
            run.check(close(got.numpy(), want, 1e-12), "parameters:extract",
                      lambda: f"{got}, the network has {want}")
            kept.append((got, got.numpy().copy()))
        elif op == 2:
            # a step of an optimizer, which works in place
            opt = torch.optim.SGD(net.parameters(), lr=0.1)
            opt.zero_grad()
            net(x).pow(2).sum().backward()
            g = np.concatenate([p.grad.numpy().reshape(-1)
                                for p in net.parameters()])
            got = utils.extract_relu_parameters_grad(net)
            run.check(close(got.numpy(), g, 0.), "parameters:gradient",
                      lambda: f"{got}, the gradients are {g}")
            opt.step()
            want = want - 0.1 * g
        elif op == 3:
            for p in net.parameters():
                p.grad = None
            got = utils.extract_relu_parameters_grad(net)
            run.check(got.shape == (size, ) and not got.any(),
                      "parameters:no-gradient", lambda: f"{got}")
        elif op == 4:
            net(x).sum().backward()
            utils.network_zero_grad(net)
            run.check(all(p.grad is None or not p.grad.any()
                          for p in net.parameters()),
                      "parameters:zero-gradient", "a gradient is left")
        else:
            v = t(r.normal(size=size))
            net = utils.setup_relu(tuple(widths), params=v,
                                   negative_slope=slope, bias=bias, dtype=D)
            want = v.numpy().copy()
            kept.append((v, want.copy()))
            got = utils.extract_relu_structure(net)
            run.check(tuple(got[0]) == tuple(widths) and
                      (len(widths) == 2 or got[1] == slope) and got[2] == bias,
                      "parameters:structure",
                      lambda: f"{got} of {widths} {slope} {bias}")
        run.mark(op)
        have = flat(list(net.parameters()))
        run.check(close(have, want, 1e-12), "parameters:live",
                  lambda: f"after operation {op} the network has {have}, "
                  f"expected {want}")
        # the layout: weights row by row, then the bias, layer by layer
        y, i = x.numpy(), 0
        for a, b in zip(widths[:-1], widths[1:]):
            W = want[i:i + a * b].reshape(b, a)
            i += a * b
            y = y @ W.T
            if bias:
                y = y + want[i:i + b]
                i += b
            if i < size:
                y = np.where(y > 0, y, slope * y)
        run.check(close(net(x).detach().numpy(), y, 1e-9),
                  "parameters:function", "another function than the vector's")
        for v, w in kept:
            run.check(np.array_equal(v.numpy(), w), "parameters:aliased",
                      lambda: f"operation {op} changed a parameter vector "
                      f"that the caller holds: {v}, was {w}")


def projection(run):
    from neural_network_lyapunov import utils
    run.scenario = "projection"
    ch = run.ch
    n = 1 + ch.choose("n", 3)
    r = ch.rngstate("polyhedron")
    m = 1 + ch.choose("m", 5)
    A = r.normal(size=(m, n))
    c = r.normal(size=n)
    b = A @ c + r.uniform(0.05, 1, size=m)
    x = c + r.normal(size=n) * [0.05, 1., 4.][ch.choose("far", 3)]
    y = utils.project_to_polyhedron(t(A), t(b), t(x))
    run.check(y.shape == (n, ) and y.dtype == D, "projection:shape", f"{y}")
    y = y.detach().numpy()
    tol = 1e-4 * (1 + float(np.max(np.abs(x))))
    run.check(bool(np.all(A @ y <= b + tol)), "projection:outside",
              lambda: f"{y} violates {A @ y - b}")
    run.mark(n, m, bool(np.all(A @ x <= b)))
    if np.all(A @ x <= b):
        run.check(np.array_equal(x, y), "projection:inside",
                  lambda: f"{x} is inside but became {y}")
        return
    # the projection z is characterised by (x - z).(w - z) <= 0 for all w
    # in the polyhedron; judged against an independent active-set search
    from itertools import combinations
    best, z = np.inf, None
    for k in range(1, min(n, m) + 1):
        for I in combinations(range(m), k):
            Ai, bi = A[list(I)], b[list(I)]
            w = x - np.linalg.pinv(Ai) @ (Ai @ x - bi)
            if np.all(A @ w <= b + 1e-9) and np.sum((w - x)**2) < best:
                best, z = np.sum((w - x)**2), w
    if z is None:
        return
    run.check(float(np.sqrt(np.sum((x - y)**2))) <=
              float(np.sqrt(best)) + tol, "projection:far",
              lambda: f"{x} became {y}, {z} is nearer")
    run.note("probe:projected")


def derivative(run):
    """compute_numerical_gradient and SigmoidAnneal."""
    from neural_network_lyapunov import utils
    ch = run.ch
    r = ch.rngstate("function")
    if ch.flip("anneal", 0.3):
        run.scenario = "anneal"
        lo, up = r.normal(size=2)
        c, w = ch.choose("centre", 50), 1 + ch.choose("width", 30)
        f = utils.SigmoidAnneal(D, lo, up, c, w)
        for _ in range(4):
            s = ch.choose("step", 120)
            v = f(s)
            want = lo + (up - lo) / (1 + np.exp(-(s - c) / w))
            run.check(v.dtype == D and close(float(v), want, 1e-12),
                      "anneal:value", lambda: f"step {s}: {v}, not {want}")
        run.mark(c, w)
        return
    run.scenario = "derivative"
    k = 1 + ch.choose("arguments", 3)
    sizes = [1 + ch.choose("size", 3) for _ in range(k)]
    m = ch.choose("outputs", 4)  # 0: a float
    mm = max(m, 1)
    L = [r.normal(size=(mm, s)) for s in sizes]
    Q = [r.normal(size=(mm, s)) for s in sizes]
    args = [r.normal(size=s) for s in sizes]
    keep = [a.copy() for a in args]
    fail = ch.choose("fail at", 12) if ch.flip("fail", 0.1) else None
    calls = [0]

    def f(*a):
        calls[0] += 1
        if fail is not None and calls[0] > fail:
            raise Broken("function")
        v = sum(l @ x + q @ (x**2) for l, q, x in zip(L, Q, a))
        return v if m else float(v[0])

    kw = dict(dx=[1e-6, 1e-4, 1e-2][ch.choose("dx", 3)]) \
        if ch.flip("dx given", 0.5) else {}
    try:
        g = utils.compute_numerical_gradient(f, *args, **kw)
    except Broken:
        run.note("fault:function")
        g = None
    for a, b in zip(args, keep):
        run.check(np.array_equal(a, b), "derivative:argument",
                  "an argument was changed")
    run.mark(sizes, m, fail)
    if g is None:
        return
    if k == 1:
        g = [g]
    for i in range(k):
        want = L[i] + 2 * Q[i] * keep[i]
        want = want if m else want[0]
        run.check(np.shape(g[i]) == want.shape and
                  float(np.max(np.abs(g[i] - want))) <= 1e-6 * (
                      1 + float(np.max(np.abs(want)))) * 10,
                  "derivative:value", lambda: f"argument {i}: {g[i]}, the "
                  f"derivative is {want}")


def rotation(run):
    """rpy2rotmat and its gradient, numpy and torch."""
    from neural_network_lyapunov import geometry_transform as G
    run.scenario = "rotation"
    ch = run.ch
    r = ch.rngstate("angles")
    rpy = r.uniform(-4, 4, size=3)
    for i in range(3):
        if ch.flip("special", 0.2):
            rpy[i] = [0., np.pi / 2, -np.pi / 2, np.pi][ch.choose(
                "angle", 4)]
    torchy = ch.flip("torch", 0.5)
    arg = t(rpy) if torchy else rpy.copy()
    R, dR = G.rpy2rotmat(arg), G.rpy2rotmat_gradient(arg)
    run.check(np.array_equal(np.array(arg), rpy), "rotation:argument",
              "the angles were changed")

    def turn(v):
        """Roll about x, then pitch about y, then yaw about z, all fixed."""
        out = np.eye(3)
        for axis, a in zip(np.eye(3), v):
            K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]],
                          [-axis[1], axis[0], 0]])
            out = (np.eye(3) + np.sin(a) * K +
                   (1 - np.cos(a)) * K @ K) @ out
        return out

    want = turn(rpy)
    run.check(type(R) is type(arg) and close(np.array(R), want, 1e-12),
              "rotation:matrix", lambda: f"{rpy}: {R}, expected {want}")
    run.check(len(dR) == 3, "rotation:gradients", f"{len(dR)}")
    for i in range(3):
        e = np.zeros(3)
        e[i] = 1e-5
        d = (turn(rpy + e) - turn(rpy - e)) / 2e-5
        run.check(close(np.array(dR[i]), d, 1e-8), "rotation:gradient",
                  lambda: f"{rpy}, angle {i}: {dR[i]}, expected {d}")
    if torchy:
        # the torch version can be differentiated
        q = t(rpy).requires_grad_(True)
        w = r.normal(size=(3, 3))
        (G.rpy2rotmat(q) * t(w)).sum().backward()
        g = [float(np.sum(w * np.array(d))) for d in dR]
        run.check(close(q.grad.numpy(), g, 1e-10), "rotation:backward",
                  lambda: f"{q.grad}, expected {g}")
    run.mark(torchy, *np.round(rpy, 1))


def scenario(run):
    ch = run.ch
    k = ch.choose("part", 20)
    if k < 6:
        plant_controller(run)
    elif k < 9:
        steps(run)
    elif k < 12:
        sampling(run)
    elif k < 16:
        parameters(run)
    elif k < 17:
        projection(run)
    elif k < 18:
        rotation(run)
    else:
        derivative(run)
