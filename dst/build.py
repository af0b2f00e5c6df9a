"""Random systems, networks and candidates, with an independent semantics.

Every library object built here comes with a second, independent description of
what it means (numpy, written from the documented mathematics), evaluated either
on batches of states (``Val``) or symbolically as an affine piece around one
state together with the polyhedral cell it holds on (``Aff``).
"""
import importlib
import itertools

import highspy
import numpy as np
import torch

D = torch.float64


# --------------------------------------------------------------------------
# operations
class Val:
    """Batch evaluation: values are arrays (N, m)."""
    @staticmethod
    def lin(W, b, v):
        return v @ np.asarray(W).T + np.asarray(b)

    @staticmethod
    def relu(v, slope):
        return np.where(v > 0, v, slope * v)

    @staticmethod
    def absv(v):
        return np.abs(v)

    @staticmethod
    def clip(v, lo, up):
        return np.minimum(np.maximum(v, lo), up)

    @staticmethod
    def cat(vs):
        return np.concatenate(vs, axis=-1)

    @staticmethod
    def take(v, idx):
        return v[..., idx]

    @staticmethod
    def add(*vs):
        return sum(vs)

    @staticmethod
    def scale(k, v):
        return k * v

    @staticmethod
    def select(v, Ps, qs, As, cs):
        out = np.full(v.shape[:-1] + (As[0].shape[0], ), np.nan)
        done = np.zeros(v.shape[:-1], dtype=bool)
        for P, q, A, c in zip(Ps, qs, As, cs):
            inside = np.all(v @ P.T <= q + 1e-12, axis=-1) & ~done
            out[inside] = v[inside] @ A.T + c
            done |= inside
        return out


class Aff:
    """Affine pieces around x0: values are (A, b); cells collected in rows.

    signs: forced decisions for pre-activations within tol of a kink, consumed
    in order (missing: decided by the sign at x0).
    """
    def __init__(self, x0, tol=0., forced=()):
        self.x0 = np.asarray(x0, dtype=float)
        self.rows = []  # a.x <= r
        self.rhs = []
        self.tol = tol
        self.forced = list(forced)
        self.ambiguous = 0
        self.options = []
        self.empty = False

    def var(self):
        n = self.x0.size
        return np.eye(n), np.zeros(n)

    def at(self, v):
        return v[0] @ self.x0 + v[1]

    def _rows(self, A, r):
        self.rows.extend(A)
        self.rhs.extend(r)

    def lin(self, W, b, v):
        W = np.asarray(W)
        return W @ v[0], W @ v[1] + np.asarray(b)

    def _decide(self, val, n_options=2, default=0):
        k = self.ambiguous
        self.ambiguous += 1
        self.options.append(n_options)
        if k < len(self.forced):
            return self.forced[k] % n_options
        return default

    def _sign(self, val):
        """True: nonnegative side."""
        if abs(val) <= self.tol:
            return bool(self._decide(val, 2, 1 if val > 0 else 0))
        return val > 0

    def relu(self, v, slope):
        A, b = v[0].copy(), v[1].copy()
        val = self.at(v)
        for i in range(len(b)):
            if np.all(v[0][i] == 0.):
                pos = v[1][i] > 0
            else:
                pos = self._sign(val[i])
                if pos:
                    self._rows([-v[0][i]], [v[1][i]])
                else:
                    self._rows([v[0][i]], [-v[1][i]])
            if not pos:
                A[i] *= slope
                b[i] *= slope
        return A, b

    def absv(self, v):
        return self.relu(v, -1.)

    def clip(self, v, lo, up):
        A, b = v[0].copy(), v[1].copy()
        val = self.at(v)
        for i in range(len(b)):
            dl, du = val[i] - lo[i], val[i] - up[i]
            zone = 1
            if lo[i] == up[i]:
                zone = 0
            elif abs(dl) <= self.tol and np.any(v[0][i]):
                zone = self._decide(dl, 2, 1 if dl > 0 else 0)
            elif abs(du) <= self.tol and np.any(v[0][i]):
                zone = 2 - self._decide(du, 2, 1 if du < 0 else 0)
            elif dl < 0:
                zone = 0
            elif du > 0:
                zone = 2
            if zone == 0 and lo[i] < up[i]:
                self._rows([v[0][i]], [lo[i] - v[1][i]])
            if zone == 1:
                self._rows([v[0][i], -v[0][i]],
                           [up[i] - v[1][i], v[1][i] - lo[i]])
            if zone == 2:
                self._rows([-v[0][i]], [v[1][i] - up[i]])
            if zone != 1:
                A[i] = 0.
                b[i] = lo[i] if zone == 0 else up[i]
        return A, b

    def cat(self, vs):
        return (np.concatenate([v[0] for v in vs], axis=0),
                np.concatenate([v[1] for v in vs]))

    def take(self, v, idx):
        return v[0][idx], v[1][idx]

    def add(self, *vs):
        return sum(v[0] for v in vs), sum(v[1] for v in vs)

    def scale(self, k, v):
        return k * v[0], k * v[1]

    def select(self, v, Ps, qs, As, cs):
        val = self.at(v)
        ok = [k for k, (P, q) in enumerate(zip(Ps, qs))
              if np.all(P @ val <= q + max(self.tol, 1e-12))]
        if not ok:
            self.empty = True
            ok = [0]
        k = ok[0]
        if len(ok) > 1 and self.tol > 0:
            k = ok[self._decide(0., len(ok), 0)]
        self._rows(list(Ps[k] @ v[0]), list(qs[k] - Ps[k] @ v[1]))
        return As[k] @ v[0], As[k] @ v[1] + cs[k]


def all_pieces(f, x0, tol, limit=256):
    """Every affine piece (closed) whose cell contains x0 within tol.
    f(ops, x) -> value; yields (ops, value)."""
    stack = [()]
    count = 0
    while stack and count < limit:
        forced = stack.pop()
        ops = Aff(x0, tol, forced)
        v = f(ops, ops.var())
        count += 1
        # branch on the ambiguities beyond the forced ones
        for k in range(len(forced), ops.ambiguous):
            # decisions between len(forced) and k keep their default
            defaults = _defaults(f, x0, tol, forced, k)
            for alt in range(ops.options[k]):
                if alt != defaults[k]:
                    cand = tuple(defaults[:k]) + (alt, )
                    if len(cand) <= 8:
                        stack.append(cand)
        if not ops.empty:
            yield ops, v


def _defaults(f, x0, tol, forced, upto):
    """The decisions taken by a run with this forced prefix."""
    class Rec(Aff):
        def _decide(self, val, n_options=2, default=0):
            d = Aff._decide(self, val, n_options, default)
            self.taken.append(d)
            return d
    ops = Rec(x0, tol, forced)
    ops.taken = []
    f(ops, ops.var())
    return ops.taken


# --------------------------------------------------------------------------
def lp_max(c, A, b, lo, up):
    """max c.x over Ax<=b, lo<=x<=up.  Returns (value, x) or None."""
    h = highspy.Highs()
    h.setOptionValue("output_flag", False)
    h.setOptionValue("threads", 1)
    h.setOptionValue("primal_feasibility_tolerance", 1e-9)
    h.setOptionValue("dual_feasibility_tolerance", 1e-9)
    lp = highspy.HighsLp()
    n = len(c)
    A = np.asarray(A, dtype=float).reshape((-1, n))
    lp.num_col_ = n
    lp.num_row_ = A.shape[0]
    lp.col_cost_ = -np.asarray(c, dtype=float)
    lp.col_lower_ = np.asarray(lo, dtype=float)
    lp.col_upper_ = np.asarray(up, dtype=float)
    lp.row_lower_ = np.full(A.shape[0], -highspy.kHighsInf)
    lp.row_upper_ = np.asarray(b, dtype=float)
    lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
    lp.a_matrix_.start_ = np.arange(0, A.size + 1, n, dtype=np.int32)
    lp.a_matrix_.index_ = np.tile(np.arange(n, dtype=np.int32), A.shape[0])
    lp.a_matrix_.value_ = A.reshape(-1)
    h.passModel(lp)
    h.run()
    if h.getModelStatus() != highspy.HighsModelStatus.kOptimal:
        return None
    x = np.array(h.getSolution().col_value)
    return float(np.dot(c, x)), x


class Region:
    """max over {x in box, extra} of a piecewise-affine objective.

    prog(ops, x) -> (objective (1,), constraint value g (k,) or None) with
    g <= 0 required.  best() explores the cells hit by samples, solving each
    exactly, so it is a certified lower bound (attained by a real state) which
    is exact as soon as the optimal cell was hit.
    """
    def __init__(self, prog, lo, up, points=(), interior=False):
        # interior: pieces whose cell has an interior within the box, for
        # objectives (a derivative) which jump from cell to cell
        self.interior = interior
        self.prog, self.lo, self.up = prog, np.asarray(lo), np.asarray(up)
        self.points = [np.asarray(p, dtype=float) for p in points]

    def values(self, X):
        o, g = self.prog(Val, X)
        o = o[..., 0].copy()
        bad = ~np.isfinite(o)
        if g is not None:
            bad |= np.any(g > 1e-9, axis=-1) | np.any(np.isnan(g), axis=-1)
        o[bad] = -np.inf
        return o

    def best(self, rs, n_samples=1500, n_cells=60):
        n = self.lo.size
        X = rs.uniform(self.lo, self.up, size=(n_samples, n))
        corners = np.array(list(itertools.product(*zip(self.lo, self.up))))
        # half of the samples near faces and corners
        k = n_samples // 4
        for row in X[:k]:
            j = rs.randint(n)
            row[j] = (self.lo, self.up)[rs.randint(2)][j]
        if self.points:
            P = np.array(self.points)
            near = P[rs.randint(len(P), size=k)] + rs.randn(k, n) * (
                self.up - self.lo) * 10.**rs.uniform(-4, -0.5, size=(k, 1))
            X[k:2 * k] = np.clip(near, self.lo, self.up)
            X = np.concatenate([P, corners, X])
        else:
            X = np.concatenate([corners, X])
        if self.interior:
            w = self.up - self.lo
            X = np.clip(X + 1e-6 * w * rs.randn(*X.shape), self.lo + 1e-7 * w,
                        self.up - 1e-7 * w)
        vals = self.values(X)
        order = np.argsort(-vals, kind="stable")
        best, arg = -np.inf, None
        seen = set()
        tried = 0
        for i in order:
            if vals[i] > best:
                best, arg = vals[i], X[i]
            if tried >= n_cells:
                break
            if vals[i] == -np.inf and tried >= n_cells // 3:
                break
            ops = Aff(X[i])
            o, g = self.prog(ops, ops.var())
            if ops.empty:
                continue
            key = (np.round(o[0], 9).tobytes(), np.round(
                np.array(ops.rhs), 7).tobytes(), len(ops.rows))
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            rows, rhs = list(ops.rows), list(ops.rhs)
            if g is not None:
                rows.extend(g[0])
                rhs.extend(-g[1])
            r = lp_max(o[0][0], rows, rhs, self.lo, self.up)
            if r is not None and r[0] + o[1][0] > best:
                best, arg = r[0] + o[1][0], r[1]
        self.cells = len(seen)
        return best, arg

    def attained(self, x, tol=1e-7):
        """All objective values of the (closed) pieces at x, with slack in the
        constraints."""
        out = []
        for ops, (o, g) in all_pieces(self.prog, x, tol):
            val = float((o[0] @ x + o[1])[0])
            viol = 0. if g is None else float(np.max(g[0] @ x + g[1]))
            out.append((val, viol))
        return out


# --------------------------------------------------------------------------
# networks
def net(run, name, d_in, d_out, max_hidden=2, max_width=4, slope=None,
        bias=None, scale=None, dtype=D):
    """A random (leaky) ReLU network as torch.nn.Sequential."""
    ch = run.ch
    hidden = 1 + ch.choose(name + ".hidden", max_hidden)
    widths = [2 + ch.choose(name + ".width", max(1, max_width - 1))
              for _ in range(hidden)]
    kind = ch.choose(name + ".act", 4) if slope is None else None
    if slope is None:
        slope = [0.1, 0.0, 0.5, 0.01][kind]
    relu_cls = slope == 0. and ch.flip(name + ".relu_class", 0.6)
    if bias is None:
        bias = not ch.flip(name + ".nobias", 0.15)
    r = ch.rngstate(name + ".weights")
    sc = scale or [1., 0.5, 2.][ch.choose(name + ".scale", 3)]
    layers = []
    dims = [d_in] + widths + [d_out]
    for a, b in zip(dims[:-1], dims[1:]):
        lin = torch.nn.Linear(a, b, bias=bias, dtype=dtype)
        W = r.randn(b, a) * sc / np.sqrt(a)
        c = r.randn(b) * 0.7
        # now and then a unit that never / always fires, or a constant one
        if len(layers) < 2 * hidden:
            odd = ch.choose(name + ".odd", 6)
            j = r.randint(b)
            if odd == 1:
                c[j] = -20.
            elif odd == 2:
                c[j] = 20.
            elif odd == 3:
                W[j] = 0.
            elif odd == 4 and bias is False:
                W[j] = np.abs(W[j])
        with torch.no_grad():
            lin.weight.copy_(torch.from_numpy(W))
            if bias:
                lin.bias.copy_(torch.from_numpy(c))
        layers.append(lin)
        if len(layers) < 2 * hidden + 1:
            if relu_cls:
                layers.append(torch.nn.ReLU())
            else:
                layers.append(torch.nn.LeakyReLU(slope))
    m = torch.nn.Sequential(*layers)
    run.mark(name, hidden, tuple(widths), slope, bool(bias))
    return m


def layers_of(m):
    """[(W, b, slope or None)] of the live parameters."""
    out = []
    mods = list(m) if isinstance(m, torch.nn.Sequential) else [m]
    for k, layer in enumerate(mods):
        if isinstance(layer, torch.nn.Linear):
            W = layer.weight.detach().numpy().astype(float).copy()
            b = layer.bias.detach().numpy().astype(float).copy() \
                if layer.bias is not None else np.zeros(W.shape[0])
            nxt = mods[k + 1] if k + 1 < len(mods) else None
            s = None
            if isinstance(nxt, torch.nn.LeakyReLU):
                s = nxt.negative_slope
            elif isinstance(nxt, torch.nn.ReLU):
                s = 0.
            out.append((W, b, s))
    return out


def run_net(ops, L, v):
    for W, b, s in L:
        v = ops.lin(W, b, v)
        if s is not None:
            v = ops.relu(v, s)
    return v


def net_at(L, x):
    return run_net(Val, L, np.asarray(x, dtype=float))


def hidden_at(L, x):
    """Pre- and post-activation values of every hidden unit, layer by layer."""
    pre, post = [], []
    v = np.asarray(x, dtype=float)
    for W, b, s in L:
        v = v @ W.T + b
        if s is not None:
            pre.append(v)
            v = np.where(v > 0, v, s * v)
            post.append(v)
    return pre, post, v


# --------------------------------------------------------------------------
# plants
class Plant:
    """A library system plus its independent meaning."""
    def __init__(self, kind, system, f, x_lo, x_up, x_eq, nets, fixed_point,
                 continuous=False, controller=None):
        self.kind = kind
        self.system = system
        self._f = f
        self.x_lo, self.x_up, self.x_eq = x_lo, x_up, x_eq
        self.dim = len(x_lo)
        self.nets = nets
        self.fixed_point = fixed_point
        self.continuous = continuous
        self.controller = controller

    def f(self, ops, x):
        """x[n+1] (or xdot) as an expression of the live parameters."""
        return self._f(ops, x)

    @property
    def x_eq_t(self):
        return torch.from_numpy(self.x_eq.copy())


def box(run, name, dim, must_contain=None, allow_edge=True):
    ch = run.ch
    r = ch.rngstate(name)
    c = r.uniform(-0.5, 0.5, size=dim) if must_contain is None \
        else must_contain
    h1 = r.uniform(0.3, 1.5, size=dim)
    h2 = r.uniform(0.3, 1.5, size=dim)
    lo, up = c - h1, c + h2
    if allow_edge and ch.flip(name + ".edge", 0.1):
        j = r.randint(dim)
        if r.randint(2):
            lo[j] = c[j]
        else:
            up[j] = c[j]
    return lo, up


def equilibrium(run, dim):
    if run.ch.flip("x_eq.zero", 0.4):
        return np.zeros(dim)
    return run.ch.rngstate("x_eq").uniform(-0.5, 0.5, size=dim)


AUTO = ["relu", "relu_eq", "residual_eq", "hybrid"]
FEEDBACK = ["fb_relu", "fb_relu_eq", "fb_second", "fb_second_res",
            "fb_hybrid"]
# the systems of the library's examples: (state, control) dimensions
EXAMPLES = {"fb_ex_unicycle": (3, 2), "fb_ex_unicycle0": (3, 2),
            "fb_ex_car": (4, 2), "fb_ex_pole": (7, 3),
            "fb_ex_px4": (9, 4), "fb_ex_quad3": (12, 4),
            "fb_ex_pendulum": (2, 1), "fb_ex_quad2": (6, 2)}
EXAMPLES_CONT = ["fb_ex_pendulum", "fb_ex_quad2"]


def example_system(run, kind, lo, up, ulo, uup, ue, sc, max_width, method):
    """(system, network, g, what the network is fed) of an example."""
    ch = run.ch
    n, m_u = EXAMPLES[kind]
    ex = "neural_network_lyapunov.examples."
    dt = [0.1, 0.01, 0.5][ch.choose("dt", 3)]
    a = (t(lo), t(up), t(ulo), t(uup))

    def nn(k, out):
        return net(run, "dyn", k, out, max_width=max_width, scale=sc)

    def diff(o, L, z, z0, k):
        return o.lin(np.eye(k), -net_at(L, z0), run_net(o, L, z))
    u_idx = list(range(m_u))
    if kind == "fb_ex_pendulum":
        mod = importlib.import_module(ex + "pendulum.pendulum")
        m = nn(3, 1)
        s = mod.PendulumReluContinuousTime(D, *a, m)
        fed = [0, 1]

        def g(o, x, u):
            z0 = np.array([np.pi, 0., 0.])
            return o.cat([o.take(x, [1]), diff(
                o, layers_of(m), o.cat([x, u]), z0, 1)])
    elif kind == "fb_ex_quad2":
        mod = importlib.import_module(ex + "quadrotor2d.quadrotor_2d")
        m = nn(3, 3)
        s = mod.QuadrotorReluContinuousTime(D, *a, m, t(ue))
        fed = [2]

        def g(o, x, u):
            return o.cat([o.take(x, [3, 4, 5]), diff(
                o, layers_of(m), o.cat([o.take(x, [2]), u]),
                np.append([0.], ue), 3)])
    elif kind in ("fb_ex_unicycle", "fb_ex_unicycle0"):
        mod = importlib.import_module(ex + "car.unicycle")
        tdi = ch.flip("thetadot_as_input", .5)
        m = nn(3 if tdi else 2, 2)
        zero = kind.endswith("0")
        s = (mod.UnicycleReLUZeroVelModel if zero else mod.UnicycleReLUModel)(
            D, *a, m, dt, tdi)
        fed = [2]
        u_idx = [0, 1] if tdi else [0]

        def g(o, x, u):
            L = layers_of(m)
            th = o.take(x, [2])
            z = o.cat([th, o.take(u, u_idx)])
            if zero:
                k = 1 + len(u_idx)
                Z = np.eye(k)
                Z[1, 1] = 0.
                d = o.add(run_net(o, L, z), o.scale(-1., run_net(
                    o, L, o.lin(Z, np.zeros(k), z))))
            else:
                d = diff(o, L, z, np.zeros(1 + len(u_idx)), 2)
            return o.cat([o.add(o.take(x, [0, 1]), d), o.add(
                th, o.scale(dt, o.take(u, [1])))])
    elif kind == "fb_ex_car":
        mod = importlib.import_module(ex + "car.acceleration_car")
        m = nn(4, 2)
        s = mod.AccelerationCarReLUModel(D, *a, m, dt)
        fed = [2, 3]

        def g(o, x, u):
            d = diff(o, layers_of(m), o.cat([o.take(x, [2, 3]), u]),
                     np.zeros(4), 2)
            return o.cat([o.add(o.take(x, [0, 1]), d), o.add(
                o.take(x, [2, 3]), o.scale(dt, u))])
    elif kind == "fb_ex_pole":
        mod = importlib.import_module(ex + "pole.pole_relu_system")
        m = nn(7, 5)
        s = mod.PoleReluSystem(*a, m, dt, float(ue[2]))
        fed = [0, 1, 5, 6]

        def g(o, x, u):
            z0 = np.concatenate([np.zeros(4), ue])
            v1 = o.add(o.take(x, [2, 3, 4, 5, 6]), diff(
                o, layers_of(m), o.cat([o.take(x, fed), u]), z0, 5))
            q1 = o.add(o.take(x, [0, 1]), o.scale(
                dt / 2, o.take(x, [5, 6])), o.scale(
                    dt / 2, o.take(v1, [3, 4])))
            return o.cat([q1, v1])
    elif kind == "fb_ex_px4":
        mod = importlib.import_module(ex + "quadrotor3d.quadrotor")
        m = nn(7, 6)
        s = mod.QuadrotorWithPixhawkReLUSystem(D, *a, m, float(ue[3]), dt)
        fed = [3, 4, 5]

        def g(o, x, u):
            z0 = np.concatenate([np.zeros(3), ue])
            d = diff(o, layers_of(m), o.cat([o.take(x, fed), u]), z0, 6)
            v0 = o.take(x, [6, 7, 8])
            v1 = o.add(v0, o.take(d, [0, 1, 2]))
            return o.cat([
                o.add(o.take(x, [0, 1, 2]), o.scale(dt / 2, o.add(v0, v1))),
                o.add(o.take(x, fed), o.take(d, [3, 4, 5])), v1])
    else:
        mod = importlib.import_module(ex + "quadrotor3d.quadrotor")
        m = nn(10, 9)
        s = mod.QuadrotorReLUSystem(D, *a, m, float(ue[0]), dt)
        fed = [3, 4, 5, 9, 10, 11]

        def g(o, x, u):
            z0 = np.concatenate([np.zeros(6), ue])
            d = diff(o, layers_of(m), o.cat([o.take(x, fed), u]), z0, 9)
            v0 = o.take(x, [6, 7, 8])
            v1 = o.add(v0, o.take(d, [3, 4, 5]))
            return o.cat([
                o.add(o.take(x, [0, 1, 2]), o.scale(dt / 2, o.add(v0, v1))),
                o.take(d, [0, 1, 2]), v1, o.take(d, [6, 7, 8])])
    if hasattr(s, "network_bound_propagate_method"):
        s.network_bound_propagate_method = _method(run, "dyn.method", method)
    composable(s)
    return s, m, g, fed, u_idx


def composable(s):
    """Some example systems do not have the interface FeedbackSystem calls (a
    recorded finding); this one stands in so that the rest can be examined."""
    import inspect
    from dst.core import Discard
    from gurobipy import GRB
    from neural_network_lyapunov import hybrid_linear_system as hls
    real = s.add_dynamics_constraint
    known = set(inspect.signature(real).parameters)

    def add(*a, **k):
        if "u_input_prog" not in known:
            k.pop("u_input_prog", None)
        if "binary_var_type" not in known and \
                k.pop("binary_var_type", GRB.BINARY) != GRB.BINARY:
            raise Discard("example system without relaxation")
        ret = real(*a, **k)
        if isinstance(ret, tuple):
            ret = hls.DynamicsConstraintReturn(*ret)
        return ret
    s.add_dynamics_constraint = add
    s.shipped = real


def t(a):
    return torch.from_numpy(np.array(a, dtype=float))


def _method(run, name, which=None):
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    return which if which is not None else \
        [M.IA, M.LP, M.MIP, M.IA_MIP][run.ch.choose(name, 4)]


def partition(run, lo, up, dim, total=None):
    """Splits a box into 1-4 polyhedra: [(P, q)] with P z <= q."""
    ch = run.ch
    total = total or dim
    n = len(lo)
    Pb = np.concatenate([np.eye(n), -np.eye(n)])
    qb = np.concatenate([up, -lo])
    r = ch.rngstate("partition")
    n_split = ch.choose("n_split", 3)
    pieces = [(Pb, qb)]
    for k in range(n_split):
        a = r.randn(n)
        if r.randint(2):
            a = np.zeros(n)
            a[r.randint(n)] = 1.
        mid = lo + (up - lo) * r.uniform(0.25, 0.75, size=n)
        d = a @ mid
        out = []
        for P, q in pieces:
            # keep the split only when both parts have an interior
            parts = [(np.vstack([P, a]), np.append(q, d)),
                     (np.vstack([P, -a]), np.append(q, -d))]
            good = [pp for pp in parts if _radius(*pp) > 0.02]
            out.extend(good if len(good) == 2 else [(P, q)])
        pieces = out
        if len(pieces) >= 4:
            break
    run.mark("modes", len(pieces))
    return pieces


def _radius(P, q):
    n = P.shape[1]
    norms = np.linalg.norm(P, axis=1)
    r = lp_max(np.append(np.zeros(n), 1.),
               np.column_stack([P, norms]), q,
               np.append(np.full(n, -1e3), 0.), np.append(np.full(n, 1e3),
                                                          1e3))
    return -1. if r is None else r[0]


def plant(run, kinds=None, dim=None, continuous=False, max_width=4,
          method=None, controllers=("relu", "linear"), contracting=None):
    """Draws a closed-loop system."""
    import neural_network_lyapunov.relu_system as rs
    import neural_network_lyapunov.hybrid_linear_system as hls
    import neural_network_lyapunov.feedback_system as fs
    ch = run.ch
    kinds = kinds or AUTO + FEEDBACK
    kind = kinds[ch.choose("plant", len(kinds))]
    run.mark("plant", kind)
    if kind in ("fb_second", "fb_second_res"):
        n = 2 if dim is None else dim
        if n % 2:
            n = 2
    elif kind in EXAMPLES:
        n = EXAMPLES[kind][0]
    else:
        n = dim if dim is not None else 1 + ch.choose("dim", 2)
    run.mark("dim", n)
    if kind in EXAMPLES:
        xe = np.array([np.pi, 0.]) if kind == "fb_ex_pendulum" \
            else np.zeros(n)
    else:
        xe = equilibrium(run, n)
    if kind in ("fb_second", "fb_second_res"):
        xe[n // 2:] = 0.
    lo, up = box(run, "x_box", n, xe)
    if contracting is None:
        sc = [0.6, 1., 1.7][ch.choose("gain", 3)]
    else:
        sc = contracting
    if kind == "relu":
        m = net(run, "dyn", n, n, max_width=max_width, scale=sc, bias=True)
        fixed = ch.flip("true_equilibrium", 0.7)
        if fixed:
            with torch.no_grad():
                m[-1].bias.add_(t(xe) - m(t(xe)))
        if continuous:
            with torch.no_grad():
                m[-1].bias.add_(-m(t(xe)))
        s = rs.AutonomousReLUSystem(D, t(lo), t(up), m)
        s.network_bound_propagate_method = _method(run, "dyn.method", method)
        return Plant(kind, s, lambda o, x: run_net(o, layers_of(m), x), lo,
                     up, xe, [m], fixed, continuous)
    if kind == "relu_eq":
        m = net(run, "dyn", n, n, max_width=max_width, scale=sc)
        s = rs.AutonomousReLUSystemGivenEquilibrium(
            D, t(lo), t(up), m, t(xe), discrete_time_flag=not continuous)
        s.network_bound_propagate_method = _method(run, "dyn.method", method)

        def f(o, x):
            L = layers_of(m)
            k = -net_at(L, xe) + (0. if continuous else xe)
            return o.lin(np.eye(n), k, run_net(o, L, x))
        return Plant(kind, s, f, lo, up, xe, [m], True, continuous)
    if kind == "residual_eq":
        m = net(run, "dyn", n, n, max_width=max_width, scale=0.5 * sc)
        s = rs.AutonomousResidualReLUSystemGivenEquilibrium(
            D, t(lo), t(up), m, t(xe), discrete_time_flag=not continuous)
        s.network_bound_propagate_method = _method(run, "dyn.method", method)

        def f(o, x):
            L = layers_of(m)
            r = o.lin(np.eye(n), -net_at(L, xe), run_net(o, L, x))
            return r if continuous else o.add(r, x)
        return Plant(kind, s, f, lo, up, xe, [m], True, continuous)
    if kind == "hybrid":
        s = hls.AutonomousHybridLinearSystem(n, D)
        pieces = partition(run, lo, up, n)
        r = ch.rngstate("hybrid.modes")
        As, gs = [], []
        fixed = True
        for P, q in pieces:
            A = r.randn(n, n) * sc / np.sqrt(n) * 0.8
            if continuous:
                A = A - 0.5 * np.eye(n)
            g = -A @ xe + (0. if continuous else xe)
            if not np.all(P @ xe <= q + 1e-9) and ch.flip("hybrid.affine",
                                                          0.5):
                g = g + r.uniform(-0.2, 0.2, size=n)
            s.add_mode(t(A), t(g), t(P), t(q))
            As.append(A)
            gs.append(g)
        Ps, qs = [p for p, _ in pieces], [q for _, q in pieces]
        # the library's own idea of the box is what defines the region
        lo2, up2 = np.array(s.x_lo_all), np.array(s.x_up_all)
        lo2 = np.minimum(lo2, xe)
        up2 = np.maximum(up2, xe)
        s.x_lo_all, s.x_up_all = lo2, up2
        return Plant(kind, s, lambda o, x: o.select(x, Ps, qs, As, gs), lo2,
                     up2, xe, [], fixed, continuous)
    # feedback systems
    m_u = EXAMPLES[kind][1] if kind in EXAMPLES else \
        1 + ch.choose("u_dim", 2)
    ue = np.zeros(m_u) if ch.flip("u_eq.zero", 0.5) else \
        ch.rngstate("u_eq").uniform(-0.3, 0.3, size=m_u)
    if kind in EXAMPLES:
        k = {"fb_ex_pole": [0, 0, 1], "fb_ex_px4": [0, 0, 0, 1],
             "fb_ex_quad3": [1] * 4, "fb_ex_quad2": [1] * 2}
        ue = np.array(k.get(kind, [0] * m_u)) * (
            2. if kind == "fb_ex_quad2" else 1.5)
    r = ch.rngstate("u_box")
    ulo = ue - r.uniform(0.2, 1.5, size=m_u)
    uup = ue + r.uniform(0.2, 1.5, size=m_u)
    u_idx = list(range(m_u))
    if kind in EXAMPLES:
        fwd, m, g, idx, u_idx = example_system(
            run, kind, lo, up, ulo, uup, ue, sc, max_width, method)
    elif kind == "fb_relu":
        m = net(run, "dyn", n + m_u, n, max_width=max_width, scale=sc,
                bias=True)
        with torch.no_grad():
            m[-1].bias.add_(t(xe) - m(t(np.append(xe, ue))))
        fwd = rs.ReLUSystem(D, t(lo), t(up), t(ulo), t(uup), m)

        def g(o, x, u):
            return run_net(o, layers_of(m), o.cat([x, u]))
    elif kind == "fb_relu_eq":
        m = net(run, "dyn", n + m_u, n, max_width=max_width, scale=sc)
        fwd = rs.ReLUSystemGivenEquilibrium(
            D, t(lo), t(up), t(ulo), t(uup), m, t(xe), t(ue),
            discrete_time_flag=not continuous)

        def g(o, x, u):
            L = layers_of(m)
            k = -net_at(L, np.append(xe, ue)) + (0. if continuous else xe)
            return o.lin(np.eye(n), k, run_net(o, L, o.cat([x, u])))
    elif kind == "fb_second":
        nq = n // 2
        m = net(run, "dyn", n + m_u, nq, max_width=max_width, scale=sc)
        dt = [0.1, 0.01, 0.5][ch.choose("dt", 3)]
        fwd = rs.ReLUSecondOrderSystemGivenEquilibrium(
            D, t(lo), t(up), t(ulo), t(uup), m, t(xe[:nq]), t(ue), dt)

        def g(o, x, u):
            L = layers_of(m)
            v1 = o.lin(np.eye(nq), -net_at(L, np.append(xe, ue)),
                       run_net(o, L, o.cat([x, u])))
            q0, v0 = o.take(x, list(range(nq))), o.take(
                x, list(range(nq, n)))
            q1 = o.add(q0, o.scale(dt / 2, v0), o.scale(dt / 2, v1))
            return o.cat([q1, v1])
    elif kind == "fb_second_res":
        nq = n // 2
        idx = [[0, 1], [1], [1, 0]][ch.choose("partial_state", 3)] if n == 2 \
            else sorted(ch.rngstate("partial").choice(
                n, 1 + ch.choose("npart", n), replace=False).tolist())
        m = net(run, "dyn", len(idx) + m_u, nq, max_width=max_width,
                scale=0.5 * sc)
        dt = [0.1, 0.01, 0.5][ch.choose("dt", 3)]
        fwd = rs.ReLUSecondOrderResidueSystemGivenEquilibrium(
            D, t(lo), t(up), t(ulo), t(uup), m, t(xe[:nq]), t(ue), dt,
            list(idx))

        def g(o, x, u):
            L = layers_of(m)
            dv = o.lin(np.eye(nq), -net_at(L, np.append(xe[idx], ue)),
                       run_net(o, L, o.cat([o.take(x, idx), u])))
            q0, v0 = o.take(x, list(range(nq))), o.take(
                x, list(range(nq, n)))
            v1 = o.add(v0, dv)
            q1 = o.add(q0, o.scale(dt / 2, v0), o.scale(dt / 2, v1))
            return o.cat([q1, v1])
    else:
        fwd = hls.HybridLinearSystem(n, m_u, D)
        # the modes cover the whole state box and every admissible control
        pieces = partition(run, np.append(lo, ulo), np.append(up, uup), n)
        rr = ch.rngstate("hybrid.modes")
        Ms, cs = [], []
        for P, q in pieces:
            A = rr.randn(n, n) * sc / np.sqrt(n) * 0.8
            B = rr.randn(n, m_u) * 0.5
            if continuous:
                A = A - 0.5 * np.eye(n)
            c = (0. if continuous else xe) - A @ xe - B @ ue
            fwd.add_mode(t(A), t(B), t(c), t(P), t(q))
            Ms.append(np.column_stack([A, B]))
            cs.append(c)
        Ps, qs = [p for p, _ in pieces], [q for _, q in pieces]
        fwd.x_lo_all = np.minimum(fwd.x_lo_all, xe)
        fwd.x_up_all = np.maximum(fwd.x_up_all, xe)
        lo, up = np.array(fwd.x_lo_all), np.array(fwd.x_up_all)
        m = None

        def g(o, x, u):
            return o.select(o.cat([x, u]), Ps, qs, Ms, cs)
    if m is not None and kind not in EXAMPLES and \
            hasattr(fwd, "network_bound_propagate_method"):
        fwd.network_bound_propagate_method = _method(run, "dyn.method",
                                                     method)
    ctype = controllers[ch.choose("controller", len(controllers))]
    run.mark("controller", ctype)
    if ctype == "relu":
        cu = net(run, "ctrl", n, m_u, max_width=max(2, max_width - 1),
                 max_hidden=1)
    else:
        cu = torch.nn.Linear(n, m_u, bias=ch.flip("ctrl.bias", 0.6),
                             dtype=D)
        r2 = ch.rngstate("ctrl.weights")
        with torch.no_grad():
            cu.weight.copy_(t(r2.randn(m_u, n)))
            if cu.bias is not None:
                cu.bias.copy_(t(r2.randn(m_u)))
    slo, sup = ulo.copy(), uup.copy()
    unsat = False
    if kind == "fb_hybrid" or not ch.flip("unsaturated", 0.15):
        pass
    else:
        # no saturation: the forward model must then cover what the
        # controller can produce, so its input box is made wide
        unsat = True
    if unsat:
        slo, sup = np.full(m_u, -np.inf), np.full(m_u, np.inf)
        wide = 100.
        fwd.u_lo = t(ue - wide)
        fwd.u_up = t(ue + wide)
    elif ch.flip("tight_saturation", 0.3):
        k = ch.rngstate("sat").uniform(0.3, 1., size=(2, m_u))
        slo = ue - k[0] * (ue - ulo)
        sup = ue + k[1] * (uup - ue)
    s = fs.FeedbackSystem(fwd, cu, t(xe), t(ue), slo, sup)
    s.controller_network_bound_propagate_method = _method(
        run, "ctrl.method", method)

    def f(o, x):
        L = layers_of(cu)
        k = ue - net_at(L, xe)
        u = o.lin(np.eye(m_u), k, run_net(o, L, x))
        if not unsat:
            u = o.clip(u, slo, sup)
        return g(o, x, u)
    p = Plant(kind, s, f, lo, up, xe, ([m] if m is not None else []) + [cu],
              True, continuous, controller=cu)
    p.u_lo, p.u_up = slo, sup
    p.ue = ue
    p.m_u = m_u
    p.forward = fwd

    def u_of(o, x):
        L = layers_of(cu)
        u = o.lin(np.eye(m_u), ue - net_at(L, xe), run_net(o, L, x))
        return u if unsat else o.clip(u, slo, sup)
    p.u_of = u_of
    p.g = g
    idx_ = idx if kind == "fb_second_res" or kind in EXAMPLES \
        else list(range(n))
    # what is fed to the dynamics network
    p.fed = lambda X, U: np.column_stack([X[:, idx_], U[:, u_idx]])
    p.u_fed = u_idx
    return p


# --------------------------------------------------------------------------
# Lyapunov candidates
class Candidate:
    """V(x) = phi(x) - phi(x*) + lam |R (x - x*)|_1."""
    def __init__(self, plant, phi, lam, R, R_options=None):
        self.plant, self.phi, self.lam = plant, phi, lam
        self._R = R
        self.R_options = R_options

    @property
    def R(self):
        if self.R_options is not None:
            return self.R_options.R().detach().numpy().astype(float)
        return np.eye(self.plant.dim) if self._R is None else self._R

    @property
    def R_t(self):
        if self.R_options is not None:
            return self.R_options.R()
        return None if self._R is None else t(self._R)

    def l1(self, o, x):
        R = self.R
        e = o.absv(o.lin(R, -R @ self.plant.x_eq, x))
        return o.lin(np.ones((1, R.shape[0])), np.zeros(1), e)

    def V(self, o, x):
        L = layers_of(self.phi)
        p = o.lin(np.eye(1), -net_at(L, self.plant.x_eq), run_net(o, L, x))
        return o.add(p, o.scale(self.lam, self.l1(o, x)))

    def positivity(self, eps):
        """max eps |R(x-x*)| - V(x)"""
        def prog(o, x):
            return o.add(o.scale(eps, self.l1(o, x)),
                         o.scale(-1., self.V(o, x))), None
        return prog

    def derivative(self, eps, kind, v_lo=None, v_up=None):
        """worst violation over {x in B, x+ in B, v_lo <= V(x) <= v_up}"""
        p = self.plant

        def prog(o, x):
            xn = p.f(o, x)
            V, Vn = self.V(o, x), self.V(o, xn)
            if kind == "ExpLower":
                obj = o.add(Vn, o.scale(eps - 1., V))
            elif kind == "ExpUpper":
                obj = o.add(o.scale(-1., Vn), o.scale(1. - eps, V))
            else:
                obj = o.add(Vn, o.scale(-1., V),
                            o.scale(eps, self.l1(o, x)))
            n = p.dim
            g = [o.lin(np.eye(n), -p.x_up, xn),
                 o.lin(-np.eye(n), p.x_lo, xn)]
            if v_lo is not None:
                g.append(o.lin(-np.eye(1), np.array([v_lo]), V))
            if v_up is not None:
                g.append(o.lin(np.eye(1), np.array([-v_up]), V))
            return obj, o.cat(g)
        return prog


def R_matrix(run, dim):
    ch = run.ch
    k = ch.choose("R.kind", 4)
    r = ch.rngstate("R")
    if k == 0:
        return None
    rows = dim + ch.choose("R.extra_rows", 3)
    R = r.randn(rows, dim)
    if k == 2:
        R = np.eye(dim) * r.uniform(0.5, 2., size=dim)
    # keep it well conditioned
    u, s, vt = np.linalg.svd(R, full_matrices=False)
    return u @ np.diag(np.clip(s, 0.3, 3.)) @ vt


def R_options(run, dim):
    import neural_network_lyapunov.r_options as ro
    ch = run.ch
    k = ch.choose("R.options", 4)
    r = ch.rngstate("R.options")
    run.mark("R", k)
    rows = dim + ch.choose("R.extra_rows", 2)
    M = r.randn(rows, dim)
    u, s, vt = np.linalg.svd(M, full_matrices=False)
    M = u @ np.diag(np.clip(s, 0.4, 2.)) @ vt
    if k == 0:
        return ro.FixedROptions(t(M))
    if k == 1:
        o = ro.SearchRfreeOptions((rows, dim))
        o.set_variable_value(M)
    elif k == 2:
        o = ro.SearchRwithSPDOptions((rows, dim), 0.1)
        # square part must be SPD
        S = M[:dim] @ M[:dim].T + 0.5 * np.eye(dim)
        full = np.vstack([S, M[dim:]])
        o.set_variable_value(full)
    else:
        o = ro.SearchRwithSVDOptions((rows, dim), np.full(dim, 0.05))
        o.set_variable_value(M)
    return o


def candidate(run, p, with_options=False, max_width=4, max_hidden=2,
              convex_hint=None):
    ch = run.ch
    phi = net(run, "phi", p.dim, 1, max_hidden=max_hidden,
              max_width=max_width)
    lam = [0.5, 0.1, 1.5, 0.0][ch.choose("lambda", 4)]
    if with_options:
        return Candidate(p, phi, lam, None, R_options(run, p.dim))
    return Candidate(p, phi, lam, R_matrix(run, p.dim))


def lyap_system(p, c, method=None, run=None):
    import neural_network_lyapunov.lyapunov as ly
    s = ly.LyapunovDiscreteTimeHybridSystem(p.system, c.phi)
    if run is not None:
        s.network_bound_propagate_method = _method(run, "lyap.method", method)
    return s
