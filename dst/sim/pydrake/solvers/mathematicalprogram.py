"""A small nonlinear program and a simulated solver for it.

The program keeps variables, bounds, constraints and costs the way Drake does;
Solve is decided by the simulation: hooks.solve(prog) may answer itself (any
outcome a local solver could have), otherwise SLSQP solves the program as it
was built, and success is reported only for a point that meets every
constraint.
"""
import numpy as np


class hooks:
    solve = None      # callable(prog) -> None or Result
    before = None     # callable(prog): may raise
    log = None        # list of (prog, result)

    @classmethod
    def reset(cls):
        cls.solve = cls.before = cls.log = None


class Variable:
    __slots__ = ("index",)

    def __init__(self, index):
        self.index = index


def _indices(v):
    return np.array([w.index for w in np.asarray(v, dtype=object).reshape(-1)],
                    dtype=int)


class BoundingBox:
    def __init__(self, lo, up, n):
        self.n = n
        self.set_bounds(lo, up)

    def set_bounds(self, lo, up):
        def full(v):
            v = np.asarray(v, dtype=float).reshape(-1)
            if v.size == 1:
                v = np.full(self.n, v[0])
            if v.size != self.n:
                raise ValueError("bounds of the wrong size")
            return v.copy()
        self.lo, self.up = full(lo), full(up)

    def lower_bound(self):
        return self.lo

    def upper_bound(self):
        return self.up


class Binding:
    def __init__(self, evaluator, variables):
        self._e, self._v = evaluator, variables

    def evaluator(self):
        return self._e

    def variables(self):
        return self._v


class Result:
    def __init__(self, ok, z, cost, prog):
        self.ok, self.z, self.cost, self.prog = ok, z, cost, prog

    def is_success(self):
        return self.ok

    def get_optimal_cost(self):
        return self.cost

    def GetSolution(self, v):
        a = np.asarray(v, dtype=object)
        return np.array([self.z[w.index] for w in a.reshape(-1)]).reshape(
            a.shape)


class MathematicalProgram:
    def __init__(self):
        self.n = 0
        self.boxes, self.constraints, self.costs = [], [], []
        self.guess = np.zeros(0)

    def num_vars(self):
        return self.n

    def NewContinuousVariables(self, rows, cols=None, name="x"):
        shape = (rows,) if cols is None or isinstance(cols, str) \
            else (rows, cols)
        out = np.empty(shape, dtype=object)
        flat = out.reshape(-1)
        for i in range(flat.size):
            flat[i] = Variable(self.n + i)
        self.n += flat.size
        self.guess = np.concatenate((self.guess, np.full(flat.size, np.nan)))
        return flat.reshape(shape)

    def AddBoundingBoxConstraint(self, lo, up, v):
        idx = _indices(v)
        b = Binding(BoundingBox(lo, up, idx.size), idx)
        self.boxes.append(b)
        return b

    def AddConstraint(self, f, lb=None, ub=None, vars=None):
        idx = _indices(vars)
        self.constraints.append((f, np.asarray(lb, float),
                                 np.asarray(ub, float), idx))

    def AddCost(self, f, vars=None):
        self.costs.append((f, _indices(vars)))

    def SetInitialGuess(self, v, values):
        idx = _indices(v)
        w = np.asarray(values, dtype=float).reshape(-1)
        if w.size != idx.size:
            raise ValueError("guess of the wrong size")
        self.guess[idx] = w

    # -- what the simulation looks at ---------------------------------------
    def bounds(self):
        lo, up = np.full(self.n, -np.inf), np.full(self.n, np.inf)
        for b in self.boxes:
            lo[b.variables()] = np.maximum(lo[b.variables()],
                                           b.evaluator().lo)
            up[b.variables()] = np.minimum(up[b.variables()],
                                           b.evaluator().up)
        return lo, up

    def cost(self, z):
        return float(sum(f(z[i]) for f, i in self.costs))

    def residual(self, z):
        """Worst violation of bounds and constraints at z."""
        lo, up = self.bounds()
        worst = max(0., float(np.max(lo - z)), float(np.max(z - up)))
        for f, lb, ub, i in self.constraints:
            v = np.asarray(f(z[i]))
            worst = max(worst, float(np.max(lb - v)), float(np.max(v - ub)))
        return worst


def _gradient(f, z, m, h=1e-7):
    J = np.zeros((m, z.size))
    f0 = np.asarray(f(z))
    for k in range(z.size):
        a = z.copy()
        a[k] += h
        J[:, k] = (np.asarray(f(a)) - f0) / h
    return J


def Solve(prog, initial_guess=None, solver_options=None):
    if hooks.before is not None:
        hooks.before(prog)
    res = hooks.solve(prog) if hooks.solve is not None else None
    if res is None:
        res = _slsqp(prog)
    if hooks.log is not None:
        hooks.log.append((prog, res))
    return res


def _slsqp(prog):
    import scipy.optimize
    lo, up = prog.bounds()
    z0 = np.where(np.isfinite(prog.guess), prog.guess, 0.)
    if np.any(lo > up):
        return Result(False, z0, np.inf, prog)
    z0 = np.clip(z0, lo, up)
    # Fixed variables are taken out.
    free = np.flatnonzero(up > lo)
    fixed = lo.copy()

    def whole(y):
        z = fixed.copy()
        z[free] = y
        return z

    def cons(y):
        z = whole(y)
        return np.concatenate([np.asarray(f(z[i]), float).reshape(-1) - lb
                               for f, lb, ub, i in prog.constraints])

    def cons_jac(y):
        z = whole(y)
        rows = []
        for f, lb, ub, i in prog.constraints:
            J = np.zeros((lb.size, prog.n))
            np.add.at(J.T, i, _gradient(f, z[i], lb.size).T)
            rows.append(J[:, free])
        return np.vstack(rows)

    def cost(y):
        return prog.cost(whole(y))

    def cost_jac(y):
        z = whole(y)
        g = np.zeros(prog.n)
        for f, i in prog.costs:
            np.add.at(g, i, _gradient(f, z[i], 1)[0])
        return g[free]

    if not prog.constraints:
        cs = []
    else:
        for _, lb, ub, _ in prog.constraints:
            if np.any(lb != ub):
                raise NotImplementedError("only equality constraints")
        cs = [dict(type="eq", fun=cons, jac=cons_jac)]
    res = scipy.optimize.minimize(
        cost, z0[free], jac=cost_jac, method="SLSQP", constraints=cs,
        bounds=list(zip(lo[free], up[free])),
        options=dict(maxiter=60, ftol=1e-9))
    z = np.clip(whole(res.x), lo, up)
    ok = bool(np.all(np.isfinite(z))) and prog.residual(z) <= 1e-6
    return Result(ok, z, prog.cost(z) if ok else np.inf, prog)
