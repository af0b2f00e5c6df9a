"""C10: the differentiable optimum equals the solver's, with its gradient.

Programs are generated through the public API as functions of one parameter t
(every coefficient, right-hand side and bound is base + t * direction), solved
by the simulated solver -- any optimal vertex, any pool content, early stops,
round-off -- and the recomputed objective and its derivative are compared with
an independent enumeration of the binaries and its finite differences.
"""
import itertools

import numpy as np
import torch

from dst import build as B

ID = "C10"
LEVEL = "exploration"
RUNS = dict(quick=1500, thorough=120000)
RULE = ("one case = one program (generated directly, from mixed-integer "
        "pieces, or a network verification program), the solver's answers and "
        "a perturbation direction; non-trivial when a recomputed objective "
        "was compared with the independent optimum; distinct by program "
        "shape, solver statuses, pool positions judged and whether the "
        "gradient could be judged")
REAL = ["gurobi_torch_mip.py (GurobiTorchMIP, MILP, MIQP, "
        "MixedIntegerConstraintsReturn, concatenate)", "lyapunov.py",
        "relu_to_optimization.py", "relu_system.py",
        "hybrid_linear_system.py", "feedback_system.py"]
STUBS = ["gurobipy (simulated solver on HiGHS)"]
ASSUMPTIONS = [
    "pieces with variable bounds also contain them as constraints (the class "
    "documents this as the caller's duty)",
    "the derivative is judged where the finite differences of the independent "
    "optimum agree from both sides, also at a nearby parameter",
    "with round-off in the solution, or a solution that is not the best for "
    "its binaries, giving up with IncorrectActiveConstraint is acceptable"]

D = torch.float64
INF = float("inf")


def preload():
    import neural_network_lyapunov.lyapunov  # noqa
    import neural_network_lyapunov.utils  # noqa
    import neural_network_lyapunov.feedback_system  # noqa
    import neural_network_lyapunov.gurobi_torch_mip  # noqa
    import clarabel  # noqa
    import scipy.optimize  # noqa


class Item:
    """An array that moves with t."""
    def __init__(self, rs, base, moves):
        self.b = np.array(base, dtype=float)
        d = rs.uniform(-1., 1., self.b.shape)
        if moves < 1.:
            d = d * (rs.uniform(size=self.b.shape) < moves)
        d = np.where(np.isfinite(self.b), d, 0.)
        self.d = d

    def t(self, t):
        return torch.tensor(self.b, dtype=D) + t * torch.tensor(self.d,
                                                                dtype=D)

    def n(self, t):
        with np.errstate(invalid="ignore"):
            return np.where(np.isfinite(self.b), self.b + t * self.d, self.b)


# -- independent optimum ----------------------------------------------------
class Raw:
    """min/max r'Qr r + z'Qz z + r'Qrz z + c'r + e'z + k, rows (Ar, Az, sense,
    b), bounds; given by numbers."""
    def __init__(self, nr, nz):
        self.nr, self.nz = nr, nz
        self.rows = []
        self.lo = np.full(nr, -np.inf)
        self.up = np.full(nr, np.inf)
        self.zlo = np.zeros(nz)
        self.zup = np.ones(nz)
        self.c, self.e, self.k = np.zeros(nr), np.zeros(nz), 0.
        self.Q = self.Qz = self.Qrz = None
        self.maximise = False

    def inner(self, z):
        """(status, value, r) with the binaries fixed"""
        s = -1. if self.maximise else 1.
        const = self.e @ z + self.k
        c = self.c.copy()
        if self.Qz is not None:
            const += z @ self.Qz @ z
        if self.Qrz is not None:
            c = c + self.Qrz @ z
        Au, bu, Ae, be = [], [], [], []
        for Ar, Az, sense, b in self.rows:
            r = b - Az @ z
            if sense == "=":
                Ae.append(Ar)
                be.append(r)
            elif sense == "<":
                Au.append(Ar)
                bu.append(r)
            else:
                Au.append(-Ar)
                bu.append(-r)
        if self.nr == 0:
            ok = all(v >= -1e-9 for v in bu) and all(
                abs(v) <= 1e-9 for v in be)
            return (0, const, np.zeros(0)) if ok else (2, None, None)
        if self.Q is not None and np.any(self.Q):
            return self._qp(s, c, const, Au, bu, Ae, be)
        from scipy.optimize import linprog
        o = linprog(s * c, np.array(Au) if Au else None,
                    np.array(bu) if bu else None,
                    np.array(Ae) if Ae else None,
                    np.array(be) if be else None,
                    bounds=list(zip(self.lo, self.up)), method="highs-ds",
                    options=dict(primal_feasibility_tolerance=1e-10,
                                 dual_feasibility_tolerance=1e-10))
        if o.status == 0:
            return 0, s * o.fun + const, o.x
        return o.status, None, None

    def _qp(self, s, c, const, Au, bu, Ae, be):
        import clarabel
        from scipy import sparse
        n = self.nr
        rows, rhs = list(Ae), list(be)
        ne = len(rows)
        rows += list(Au)
        rhs += list(bu)
        for j in range(n):
            e = np.zeros(n)
            e[j] = 1.
            if self.lo[j] == self.up[j]:
                rows.insert(ne, e)
                rhs.insert(ne, self.up[j])
                ne += 1
                continue
            if np.isfinite(self.up[j]):
                rows.append(e)
                rhs.append(self.up[j])
            if np.isfinite(self.lo[j]):
                rows.append(-e)
                rhs.append(-self.lo[j])
        st = clarabel.DefaultSettings()
        st.verbose = False
        st.tol_gap_abs = st.tol_gap_rel = st.tol_feas = 1e-12
        cones = []
        if ne:
            cones.append(clarabel.ZeroConeT(ne))
        if len(rows) - ne:
            cones.append(clarabel.NonnegativeConeT(len(rows) - ne))
        P = s * (self.Q + self.Q.T)
        sol = clarabel.DefaultSolver(
            sparse.csc_matrix(np.triu(P)), s * c,
            sparse.csc_matrix(np.array(rows).reshape(len(rows), n)),
            np.array(rhs), cones, st).solve()
        name = str(sol.status)
        x = np.array(sol.x)
        if "Infeasible" in name:
            return 2, None, None
        if name not in ("Solved", "AlmostSolved", "InsufficientProgress"):
            return 9, None, None
        return 0, float(x @ self.Q @ x + c @ x) + const, x

    def outer(self):
        """best over the binaries: (value, z) or None"""
        best = None
        for z in itertools.product((0., 1.), repeat=self.nz):
            z = np.array(z)
            if np.any(z < self.zlo - 1e-9) or np.any(z > self.zup + 1e-9):
                continue
            st, v, _ = self.inner(z)
            if st != 0:
                if st == 2:
                    continue
                return "?"
            if best is None or (v > best[0] if self.maximise else v < best[0]):
                best = (v, z)
        return best


def close(a, b, rtol=2e-6):
    return abs(a - b) <= rtol * (1. + abs(a) + abs(b))


def slope(val, t0, h):
    """two-sided derivative of val at t0, None where it does not exist"""
    v0, vp, vm = val(t0), val(t0 + h), val(t0 - h)
    if v0 is None or vp is None or vm is None:
        return None
    f, b = (vp - v0) / h, (v0 - vm) / h
    if abs(f - b) > 2e-3 * (1. + abs(f) + abs(b)):
        return None
    return 0.5 * (f + b)


# -- generated programs -----------------------------------------------------
class Spec:
    """A program as a sequence of API calls on data that move with t."""
    def __init__(self, run, quad):
        ch = run.ch
        self.rs = rs = ch.rngstate("spec.rng")
        self.quad = quad
        moves = [0.4, 1., 0.15][ch.choose("moves", 3)]
        self.groups = []   # (kind, n, lb, ub, how)
        self.nr = self.nz = 0
        k = 1 + ch.choose("groups", 3)
        for g in range(k):
            self.group(ch, rs, moves, g)
        if self.nr == 0:
            self.group(ch, rs, moves, 0, "C")
        if ch.flip("has_binaries", 0.75) and self.nz == 0:
            self.group(ch, rs, moves, k, "B")
        self.cols()
        self.r0 = np.array([
            rs.uniform(max(l, -2.), max(min(u, 2.), max(l, -2.)))
            for l, u in zip(self.lo0, self.up0)])
        self.z0 = np.array([
            float(rs.randint(int(l), int(u) + 1))
            for l, u in zip(self.zlo0, self.zup0)])
        self.rows = []     # (api, cols, A Item, sense, b Item)
        for i in range(ch.choose("rows", 4)):
            self.row(ch, rs, moves)
        self.box(rs, moves)
        late = ch.flip("late_group", 0.2)
        self.late = None
        if late:
            # a group added after the constraints, with constraints of its own
            self.late = len(self.groups)
            self.late_rows = len(self.rows)
            n0, m0 = self.nr, self.nz
            self.group(ch, rs, moves, 9)
            self.cols()
            self.r0 = np.append(self.r0, [
                rs.uniform(max(l, -2.), max(min(u, 2.), max(l, -2.)))
                for l, u in zip(self.lo0[n0:], self.up0[n0:])])
            self.z0 = np.append(self.z0, [
                float(rs.randint(int(l), int(u) + 1))
                for l, u in zip(self.zlo0[m0:], self.zup0[m0:])])
            self.row(ch, rs, moves)
            self.box(rs, moves)
        self.objectives = []
        for i in range(2 if ch.flip("replaced", 0.25) else 1):
            self.objective(ch, rs, moves)

    def group(self, ch, rs, moves, g, kind=None):
        kind = kind or ["C", "C", "B", "R"][ch.choose("group.kind", 4)]
        n = 1 + ch.choose("group.n", 3 if kind == "C" else 2)
        if kind == "C":
            b = ch.choose("group.bounds", 5)
            lo = rs.uniform(-3., 0., n)
            up = lo + rs.uniform(0.5, 4., n)
            if b == 1:
                lo, up = np.full(n, -np.inf), np.full(n, np.inf)
            elif b == 2:
                lo = lo if ch.flip("group.lo", 0.5) else np.full(n, -np.inf)
                up = np.full(n, np.inf)
            elif b == 3:
                j = rs.randint(n)
                up[j] = lo[j]
            scalar = b == 4
            if scalar:
                lo, up = np.full(n, lo[0]), np.full(n, up[0])
            L, U = Item(rs, lo, 0. if scalar else moves), Item(
                rs, up, 0. if scalar else moves)
            eq = lo == up
            U.d = np.where(eq, L.d, U.d)
            self.groups.append((kind, n, L, U, scalar))
            self.nr += n
        else:
            lo, up = np.zeros(n), np.ones(n)
            if ch.flip("group.fixed", 0.25):
                j = rs.randint(n)
                lo[j] = up[j] = float(rs.randint(2))
            self.groups.append((kind, n, lo, up, False))
            self.nz += n

    def cols(self):
        self.lo0, self.up0, self.zlo0, self.zup0 = [], [], [], []
        self.where = []
        nr = nz = 0
        for kind, n, lo, up, _ in self.groups:
            if kind == "C":
                self.where.append(list(range(nr, nr + n)))
                nr += n
                self.lo0 += list(lo.b)
                self.up0 += list(up.b)
            else:
                self.where.append(list(range(nz, nz + n)))
                nz += n
                self.zlo0 += list(lo)
                self.zup0 += list(up)

    def point(self, g):
        kind = self.groups[g][0]
        return (self.r0 if kind == "C" else self.z0)[self.where[g]]

    def row(self, ch, rs, moves):
        """a constraint which the reference point satisfies"""
        k = 1 + rs.randint(len(self.groups))
        gs = [int(g) for g in rs.permutation(len(self.groups))[:k]]
        if not any(self.groups[g][0] == "C" for g in gs):
            gs.append(int(rs.choice([g for g in range(len(self.groups))
                                     if self.groups[g][0] == "C"])))
        api = ["L", "M"][ch.choose("row.api", 2)]
        m = 1 if api == "L" else 1 + ch.choose("row.m", 3)
        sense = "<>="[ch.choose("row.sense", 3)]
        nfree = sum(self.groups[g][1] for g in gs
                    if self.groups[g][0] == "C")
        if sense == "=" and nfree < 2:
            sense = "<"
        if sense == "=":
            m = 1
        A = []
        v = np.zeros(m)
        for g in gs:
            a = rs.normal(size=(m, self.groups[g][1]))
            a[rs.uniform(size=a.shape) < 0.15] = 0.
            A.append(Item(rs, a, moves))
            v = v + a @ self.point(g)
        gap = rs.uniform(0., 1.5, m)
        b = v if sense == "=" else v + gap if sense == "<" else v - gap
        split = api == "M" or rs.uniform() < 0.5
        self.rows.append((api, gs, A, sense, Item(rs, b, moves), split,
                          rs.uniform() < 0.3))

    def box(self, rs, moves):
        """bounded programs only: rows for the missing bounds"""
        for g, (kind, n, lo, up, _) in enumerate(self.groups):
            if kind != "C" or getattr(self, "boxed", {}).get(g):
                continue
            self.__dict__.setdefault("boxed", {})[g] = True
            for sense, miss in ((">", ~np.isfinite(lo.b)),
                                ("<", ~np.isfinite(up.b))):
                for j in np.nonzero(miss)[0]:
                    a = np.zeros((1, n))
                    a[0, j] = rs.uniform(0.5, 2.)
                    A = Item(rs, a, 0.)
                    x = self.r0[self.where[g][j]]
                    off = rs.uniform(0.1, 3.)
                    b = a[0, j] * (x + off if sense == "<" else x - off)
                    self.rows.append(("L", [g], [A], sense,
                                      Item(rs, [b], moves), True, False))

    def objective(self, ch, rs, moves):
        gs = [int(g) for g in rs.permutation(len(self.groups))
              ][:1 + rs.randint(len(self.groups))]
        if ch.flip("obj.all", 0.7):
            gs = list(range(len(self.groups)))
        lin = [(g, Item(rs, rs.normal(size=self.groups[g][1]), moves))
               for g in gs]
        if self.quad and ch.flip("obj.nolin", 0.15):
            lin = []
        k = Item(rs, rs.normal(), moves)
        k_float = ch.flip("obj.float", 0.3)
        maximise = ch.flip("maximise", 0.5)
        quad = []
        if self.quad:
            cg = [g for g in range(len(self.groups))
                  if self.groups[g][0] == "C"]
            zg = [g for g in range(len(self.groups))
                  if self.groups[g][0] != "C"]
            n = self.nr
            full = ch.flip("quad.full", 0.7)
            L = rs.normal(size=(n, n if full else 1))
            Q = L @ L.T + (0.3 * np.eye(n) if full else 0.)
            if maximise:
                Q = -Q
            form = ch.choose("quad.form", 2)
            dQ = 0.1 * rs.normal(size=(n, n)) if full else np.zeros((n, n))
            dQ = dQ + dQ.T
            if form == 1:
                # the same form written with one term per pair
                Q = np.triu(Q) + np.triu(Q, 1)
                dQ = np.triu(dQ) + np.triu(dQ, 1)
            for a in cg:
                for b in cg:
                    ix = np.ix_(self.where[a], self.where[b])
                    it = Item(rs, Q[ix], moves)
                    it.d = dQ[ix] * (moves > 0.3)
                    quad.append((a, b, it))
            if zg and ch.flip("quad.cross", 0.5):
                for a in cg:
                    for b in zg:
                        it = Item(rs, rs.normal(
                            size=(self.groups[a][1], self.groups[b][1])),
                            moves)
                        if rs.uniform() < 0.5:
                            quad.append((a, b, it))
                        else:
                            jt = Item(rs, it.b.T, 0.)
                            jt.d = it.d.T
                            quad.append((b, a, jt))
            if zg and ch.flip("quad.binary", 0.3):
                for a in zg:
                    for b in zg:
                        quad.append((a, b, Item(rs, rs.normal(
                            size=(self.groups[a][1], self.groups[b][1])),
                            moves)))
        self.objectives.append((lin, quad, k, k_float, maximise))

    # -- through the API ----------------------------------------------------
    def build(self, t, relax_kind=None):
        import gurobipy
        from gurobipy import GRB
        import neural_network_lyapunov.gurobi_torch_mip as gtm
        mip = (gtm.GurobiTorchMIQP if self.quad else gtm.GurobiTorchMILP)(D)
        mip.gurobi_model.setParam(GRB.Param.OutputFlag, False)
        SENSE = {"<": GRB.LESS_EQUAL, ">": GRB.GREATER_EQUAL, "=": GRB.EQUAL}
        gv = []

        def add(lo, hi):
            for kind, n, L, U, scalar in self.groups[lo:hi]:
                if kind == "C":
                    if scalar:
                        gv.append(mip.addVars(n, lb=float(L.b[0]),
                                              ub=float(U.b[0]),
                                              vtype=GRB.CONTINUOUS))
                    else:
                        gv.append(mip.addVars(n, lb=L.t(t), ub=U.t(t),
                                              vtype=GRB.CONTINUOUS,
                                              name="r"))
                else:
                    vt = GRB.BINARY if kind == "B" else gtm.BINARYRELAX
                    gv.append(mip.addVars(
                        n, lb=torch.tensor(L, dtype=D),
                        ub=torch.tensor(U, dtype=D), vtype=vt, name="z"))

        def rows(lo, hi):
            for api, gs, A, sense, b, split, flt in self.rows[lo:hi]:
                if api == "L":
                    co = [a.t(t)[0] for a in A]
                    vs = [gv[g] for g in gs]
                    if not split:
                        co = [torch.cat(co)]
                        vs = [[v for x in vs for v in x]]
                    rhs = b.t(t)[0]
                    if flt and not np.any(b.d):
                        rhs = float(b.b[0])
                    mip.addLConstr(co, vs, SENSE[sense], rhs)
                else:
                    mip.addMConstr([a.t(t) for a in A],
                                   [gv[g] for g in gs], SENSE[sense], b.t(t))

        late = self.late if self.late is not None else len(self.groups)
        lr = self.late_rows if self.late is not None else len(self.rows)
        add(0, late)
        rows(0, lr)
        add(late, None)
        rows(lr, None)
        for i, (lin, quad, k, k_float, maximise) in enumerate(
                self.objectives):
            kc = float(k.b) if k_float else k.t(t)
            sense = GRB.MAXIMIZE if maximise else GRB.MINIMIZE
            lc, lv = [a.t(t) for _, a in lin], [gv[g] for g, _ in lin]
            if self.quad:
                mip.setObjective([q.t(t) for _, _, q in quad],
                                 [(gv[a], gv[b]) for a, b, _ in quad],
                                 lc, lv, kc, sense)
            else:
                mip.setObjective(lc, lv, kc, sense)
        mip.gurobi_model.update()
        assert gurobipy
        return mip

    # -- by numbers ---------------------------------------------------------
    def raw(self, t):
        R = Raw(self.nr, self.nz)
        for g, (kind, n, L, U, scalar) in enumerate(self.groups):
            w = self.where[g]
            if kind == "C":
                R.lo[w], R.up[w] = L.n(t), U.n(t)
            else:
                R.zlo[w], R.zup[w] = L, U
        for api, gs, A, sense, b, split, _ in self.rows:
            bb = b.n(t)
            for i in range(len(bb)):
                ar, az = np.zeros(self.nr), np.zeros(self.nz)
                for g, a in zip(gs, A):
                    (ar if self.groups[g][0] == "C" else az)[
                        self.where[g]] = a.n(t)[i]
                R.rows.append((ar, az, sense, bb[i]))
        lin, quad, k, k_float, R.maximise = self.objectives[-1]
        for g, a in lin:
            (R.c if self.groups[g][0] == "C" else R.e)[self.where[g]] = \
                a.n(t)
        R.k = float(k.b) if k_float else float(k.n(t))
        if self.quad:
            R.Q = np.zeros((self.nr, self.nr))
            R.Qz = np.zeros((self.nz, self.nz))
            R.Qrz = np.zeros((self.nr, self.nz))
            for a, b, q in quad:
                ka, kb = self.groups[a][0] == "C", self.groups[b][0] == "C"
                M = q.n(t)
                if ka and kb:
                    R.Q[np.ix_(self.where[a], self.where[b])] = M
                elif not ka and not kb:
                    R.Qz[np.ix_(self.where[a], self.where[b])] = M
                elif ka:
                    R.Qrz[np.ix_(self.where[a], self.where[b])] += M
                else:
                    R.Qrz[np.ix_(self.where[b], self.where[a])] += M.T
        return R

    def inner(self, z):
        def val(t):
            st, v, _ = self.raw(t).inner(z)
            return v if st == 0 else None
        return val


def recompute(mip, k, penalty):
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    try:
        return mip.compute_objective_from_mip_data_and_solution(
            solution_number=k, penalty=penalty)
    except gtm.IncorrectActiveConstraint:
        return None


def policy(run, faults, extra=()):
    from gurobipy import hooks
    ch = run.ch
    hooks.chooser = ch
    hooks.note_counts = run.counts
    pol = dict(tie_break=0.5, pool=True)
    if faults:
        for k in ("limit", "interrupt", "noise", "suboptimal") + tuple(extra):
            if ch.flip("pol." + k, 0.5):
                pol[k] = 0.6
    hooks.policy = pol


def program(run, quad):
    from gurobipy import GRB, hooks
    ch = run.ch
    run.scenario = "quadratic" if quad else "linear"
    faults = ch.flip("faults", 0.3)
    spec = Spec(run, quad)
    t = torch.tensor(0., dtype=D, requires_grad=True)
    mip = spec.build(t)
    m = mip.gurobi_model
    raw = spec.raw(0.)
    best = raw.outer()
    if best == "?":
        run.note("oracle-failed")
        run.nontrivial = False
        return
    policy(run, faults)
    npool = [1, 10, 10][ch.choose("npool", 3)]
    mode = ch.choose("pool_mode", 3)
    if npool > 1 and mode:
        m.setParam(GRB.Param.PoolSolutions, npool)
        m.setParam(GRB.Param.PoolSearchMode, mode)
    if faults and ch.flip("time_limit", 0.5):
        m.setParam(GRB.Param.TimeLimit, 10.)
    relaxed = any(g[0] == "R" for g in spec.groups)
    if relaxed:
        # first the relaxation, then the program itself
        run.note("op:relaxation")
        pol, hooks.policy = hooks.policy, dict(tie_break=0.5)
        m.optimize()
        hooks.policy = pol
        if m.status == GRB.OPTIMAL and best is not None:
            v = m.ObjVal
            sgn = -1. if raw.maximise else 1.
            run.check(sgn * v <= sgn * best[0] + 1e-5 * (1 + abs(v)),
                      "relaxation", lambda: f"relaxed {v}, exact {best[0]}")
        mip.remove_binary_relaxation()
    m.optimize()
    st = m.status
    run.event("status", st, m.solCount)
    run.mark(run.scenario, spec.nr, spec.nz, len(spec.rows), st, m.solCount,
             raw.maximise, [g[0] for g in spec.groups])
    proved = st == GRB.OPTIMAL
    if best is None:
        run.check(m.solCount == 0, "infeasible-has-solution",
                  f"status {st}: a solution of an infeasible program")
        run.nontrivial = False
        return
    run.check(st not in (GRB.INFEASIBLE, GRB.INF_OR_UNBD, GRB.UNBOUNDED),
              "translation", lambda: f"status {st}, but the program has the "
              f"optimum {best[0]}")
    if m.solCount == 0:
        run.nontrivial = False
        return
    if proved:
        run.check(close(m.ObjVal, best[0]), "translation",
                  lambda: f"solver {m.ObjVal}, independent {best[0]}")
    if not (proved or st in (GRB.INTERRUPTED, GRB.TIME_LIMIT)):
        # the documented callers only use these
        run.nontrivial = False
        return
    noisy = "fault:solver-tolerance-noise" in run.counts
    penalty = 1e-8 if quad else [0., 1e-10][ch.choose("penalty", 2)]
    for k in range(min(m.solCount, 4)):
        m.setParam(GRB.Param.SolutionNumber, k)
        z = np.array([round(v.xn) for v in mip.zeta], dtype=float)
        pv = m.PoolObjVal
        s_in, w, _ = raw.inner(z)
        if s_in not in (0, 2):
            continue
        vertex = s_in == 0 and close(w, pv)
        obj = recompute(mip, k, penalty)
        if quad and vertex and not noisy and (
                obj is None or not close(float(obj), w, 2e-5)):
            # the penalty changes the optimum by its product with the squared
            # multipliers, which can be large
            obj = recompute(mip, k, 1e-3 * penalty)
            run.note("op:smaller-penalty")
        run.event("pool", k, vertex, obj is None)
        if obj is None:
            run.note("op:gave-up")
            run.check(not vertex or noisy or (quad and spec_degenerate(spec)),
                      run.scenario + ":gave-up",
                      lambda: f"no objective for solution {k} (value {pv}) "
                      "although it is the optimum for its binaries")
            continue
        o = float(obj)
        run.note("op:recomputed")
        run.check(abs(o - pv) <= 1.001e-3, run.scenario + ":value",
                  lambda: f"solution {k}: recomputed {o}, solver {pv}")
        if not vertex:
            continue
        run.check(close(o, w, 2e-5 if quad else 5e-6),
                  run.scenario + ":value-at-optimum",
                  lambda: f"solution {k}: recomputed {o}, optimum {w}")
        judge_gradient(run, spec, mip, t, obj, z, k, quad, noisy)
    if proved and ch.flip("indices", 0.3):
        # the two-step interface
        ix, zs = mip.get_active_constraint_indices_and_binary_val(0)
        run.check(np.allclose(zs.numpy(), np.round(
            [v.x for v in mip.zeta])), "indices:binaries")
        o2 = mip.compute_objective_from_mip_data(ix, zs, penalty)
        obj = recompute(mip, 0, penalty)
        if obj is not None and not noisy:
            run.check(abs(float(o2) - m.ObjVal) <= 1e-3,
                      "indices:value", lambda: f"{o2} vs {m.ObjVal}")


def spec_degenerate(spec):
    return False


def autograd(obj, t):
    if not obj.requires_grad:
        return 0.
    g, = torch.autograd.grad(obj, t, retain_graph=True, allow_unused=True)
    return 0. if g is None else float(g)


def judge_gradient(run, spec, mip, t, obj, z, k, quad, noisy):
    val = spec.inner(z)
    h = 1e-4 if quad else 1e-5
    fd = slope(val, 0., h)
    if fd is None:
        run.note("op:no-derivative-here")
        return
    g = autograd(obj, t)
    tol = (2e-2 if quad else 5e-3) * (1. + abs(fd))
    run.note("op:gradient")
    run.mark("grad")
    if abs(g - fd) <= tol:
        return
    # a coincidence at this parameter?  judge a nearby one too
    from gurobipy import hooks
    for t1 in (2e-3, -3e-3):
        tt = torch.tensor(t1, dtype=D, requires_grad=True)
        mip1 = spec.build(tt)
        mip1.remove_binary_relaxation()
        for v, zz in zip(mip1.zeta, z):
            v.lb = v.ub = zz
        hooks.policy = {}
        mip1.gurobi_model.optimize()
        fd1 = slope(val, t1, h)
        if mip1.gurobi_model.solCount == 0 or fd1 is None:
            return
        ob1 = recompute(mip1, 0, 1e-8 if quad else 0.)
        if ob1 is None:
            return
        g1 = autograd(ob1, tt)
        if abs(g1 - fd1) <= tol:
            return
    run.check(False, run.scenario + ":gradient",
              f"solution {k}: gradient {g}, derivative of the optimum {fd}")


# -- mixed-integer pieces ---------------------------------------------------
class Piece:
    """A MixedIntegerConstraintsReturn and its meaning in numbers."""
    NAMES = ["Aout_input", "Aout_slack", "Aout_binary", "Cout", "Ain_input",
             "Ain_slack", "Ain_binary", "rhs_in", "Aeq_input", "Aeq_slack",
             "Aeq_binary", "rhs_eq"]

    def __init__(self, run, rs, name, nx, ns, nb, x0, s0, b0, no, moves):
        ch = run.ch
        self.nx, self.ns, self.nb, self.no = nx, ns, nb, no
        mi = 1 + ch.choose(name + ".ineq", 3)
        me = ch.choose(name + ".eq", 2) if ns >= 1 else 0
        self.it = {}

        def mk(tag, m):
            for suf, n in (("_input", nx), ("_slack", ns), ("_binary", nb)):
                if n and (suf == "_input" or not ch.flip(
                        name + tag + suf, 0.15)):
                    if suf == "_input" and ch.flip(name + tag + suf, 0.1):
                        continue
                    self.it[tag + suf] = Item(rs, rs.normal(size=(m, n)),
                                              moves)

        def at(tag, m):
            v = np.zeros(m)
            for suf, p in (("_input", x0), ("_slack", s0), ("_binary", b0)):
                if tag + suf in self.it:
                    v = v + self.it[tag + suf].b @ p
            return v

        mk("Ain", mi)
        # boxes on the slacks keep programs bounded
        if ns:
            a = np.vstack((np.eye(ns), -np.eye(ns)))
            old = self.it.get("Ain_slack")
            base = old.b if old is not None else np.zeros((mi, ns))
            it = Item(rs, np.vstack((base, a)), 0.)
            if old is not None:
                it.d[:mi] = old.d
            self.it["Ain_slack"] = it
            for suf, n in (("_input", nx), ("_binary", nb)):
                if "Ain" + suf in self.it:
                    o = self.it["Ain" + suf]
                    o.b = np.vstack((o.b, np.zeros((2 * ns, n))))
                    o.d = np.vstack((o.d, np.zeros((2 * ns, n))))
            mi += 2 * ns
        v = at("Ain", mi)
        gap = rs.uniform(0., 1., mi)
        if ns:
            gap[-2 * ns:] = rs.uniform(0.5, 2., 2 * ns)
        self.it["rhs_in"] = Item(rs, v + gap, moves)
        if me:
            mk("Aeq", me)
            if "Aeq_slack" not in self.it:
                self.it["Aeq_slack"] = Item(rs, rs.normal(size=(me, ns)),
                                            moves)
            self.it["rhs_eq"] = Item(rs, at("Aeq", me), moves)
        if no:
            mk("Aout", no)
            if not any(k.startswith("Aout") for k in self.it) or ch.flip(
                    name + ".Cout", 0.7):
                self.it["Cout"] = Item(rs, rs.normal(size=no), moves)
        self.bounds = {}
        if ns and ch.flip(name + ".slack_bounds", 0.3):
            # also present as constraints: the class asks for it
            lo, up = s0 - 2.5, s0 + 2.5
            if ch.flip(name + ".slack_tight", 0.5):
                lo, up = s0 - 0.25, s0 + 0.3
                r = self.it["rhs_in"]
                r.b[-2 * ns:-ns] = np.minimum(r.b[-2 * ns:-ns], up)
                r.b[-ns:] = np.minimum(r.b[-ns:], -lo)
            r = self.it["rhs_in"]
            lo = np.minimum(lo, -r.b[-ns:])
            up = np.maximum(up, r.b[-2 * ns:-ns])
            r.d[-2 * ns:] = 0.
            self.bounds["slack_lo"], self.bounds["slack_up"] = lo, up
        if nb and ch.flip(name + ".binary_bounds", 0.3):
            lo, up = np.zeros(nb), np.ones(nb)
            j = rs.randint(nb)
            lo[j] = up[j] = b0[j]
            if ch.flip(name + ".lo_only", 0.4):
                self.bounds["binary_lo"] = lo
            elif ch.flip(name + ".up_only", 0.4):
                self.bounds["binary_up"] = up
            else:
                self.bounds["binary_lo"], self.bounds["binary_up"] = lo, up
        if ch.flip(name + ".input_bounds", 0.3):
            lo, up = x0 - rs.uniform(0.2, 2., nx), x0 + rs.uniform(0.2, 2., nx)
            self.bounds["input_lo"], self.bounds["input_up"] = lo, up
            a = np.vstack((np.eye(nx), -np.eye(nx)))
            o = self.it.get("Ain_input")
            if o is None:
                o = self.it["Ain_input"] = Item(rs, np.zeros((mi, nx)), 0.)
            o.b = np.vstack((o.b, a))
            o.d = np.vstack((o.d, 0. * a))
            for suf, n in (("_slack", ns), ("_binary", nb)):
                if "Ain" + suf in self.it:
                    q = self.it["Ain" + suf]
                    q.b = np.vstack((q.b, np.zeros((2 * nx, n))))
                    q.d = np.vstack((q.d, np.zeros((2 * nx, n))))
            r = self.it["rhs_in"]
            r.b = np.append(r.b, np.append(up, -lo))
            r.d = np.append(r.d, np.zeros(2 * nx))

    def make(self, t):
        import neural_network_lyapunov.gurobi_torch_mip as gtm
        ret = gtm.MixedIntegerConstraintsReturn()
        for k, it in self.it.items():
            setattr(ret, k, it.t(t))
        for k, v in self.bounds.items():
            setattr(ret, k, torch.tensor(v, dtype=D))
        return ret

    def num(self, t):
        d = {k: it.n(t) for k, it in self.it.items()}
        d.update(self.bounds)
        return d


def widen(d, nx, ns, nb, x_at, s_at, b_at, NX, NS, NB):
    """The rows of a piece over all columns: [(A, sense, b)], outputs."""
    rows, outs = [], []

    def full(tag, i):
        a = np.zeros(NX + NS + NB)
        for suf, off, n in (("_input", x_at, nx), ("_slack", NX + s_at, ns),
                            ("_binary", NX + NS + b_at, nb)):
            if tag + suf in d:
                a[off:off + n] = d[tag + suf][i]
        return a

    for i in range(len(d.get("rhs_in", ()))):
        rows.append((full("Ain", i), "<", d["rhs_in"][i]))
    for i in range(len(d.get("rhs_eq", ()))):
        rows.append((full("Aeq", i), "=", d["rhs_eq"][i]))
    for k in ("input", "slack", "binary"):
        off, n = dict(input=(x_at, nx), slack=(NX + s_at, ns),
                      binary=(NX + NS + b_at, nb))[k]
        for side, s in (("_lo", ">"), ("_up", "<")):
            if k + side in d:
                for j in range(n):
                    a = np.zeros(NX + NS + NB)
                    a[off + j] = 1.
                    rows.append((a, s, d[k + side][j]))
    m = max([len(d[k]) for k in ("Aout_input", "Aout_slack", "Aout_binary",
                                 "Cout") if k in d] + [0])
    for i in range(m):
        outs.append((full("Aout", i), d["Cout"][i] if "Cout" in d else 0.))
    return rows, outs


def copied(ret):
    import types
    return types.SimpleNamespace(**{
        k: (v.detach().clone() if torch.is_tensor(v) else v)
        for k, v in ret.__dict__.items()})


def same_struct(a, b):
    """tensors of two returns equal?"""
    for k in set(a.__dict__) | set(b.__dict__):
        u, v = a.__dict__.get(k), b.__dict__.get(k)
        if (u is None) != (v is None):
            return k
        if u is not None and (u.shape != v.shape or not torch.equal(u, v)):
            return k
    return None


def pieces(run):
    from gurobipy import GRB
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    ch = run.ch
    run.scenario = "pieces"
    rs = ch.rngstate("pieces.rng")
    moves = [0., 0.4, 1.][ch.choose("moves", 3)]
    nx = 1 + ch.choose("nx", 3)
    two = ch.flip("two", 0.6)
    ns1 = ch.choose("ns1", 3)
    nb1 = ch.choose("nb1", 3)
    same_s = two and ch.flip("same_slack", 0.4)
    same_b = two and ch.flip("same_binary", 0.4)
    ns2 = ns1 if same_s else ch.choose("ns2", 3)
    nb2 = nb1 if same_b else ch.choose("nb2", 3)
    x0 = rs.uniform(-1., 1., nx)
    s0, b0 = rs.uniform(-1., 1., ns1), rs.randint(0, 2, nb1).astype(float)
    s1 = s0 if same_s else rs.uniform(-1., 1., ns2)
    b1 = b0 if same_b else rs.randint(0, 2, nb2).astype(float)
    no1, no2 = ch.choose("no1", 3), ch.choose("no2", 3)
    P1 = Piece(run, rs, "p1", nx, ns1, nb1, x0, s0, b0, no1, moves)
    NS, NB = ns1, nb1
    stack = True
    if two:
        P2 = Piece(run, rs, "p2", nx, ns2, nb2, x0, s1, b1, no2, moves)
        NS += 0 if same_s else ns2
        NB += 0 if same_b else nb2
        stack = ch.flip("stack_output", 0.7)
    trans = ch.flip("transform", 0.35)
    if trans and any(k.startswith("input") for P in
                     ([P1, P2] if two else [P1]) for k in P.bounds):
        trans = False
    nin = nx
    if trans:
        nin = 1 + ch.choose("nin", 3)
        T, u0 = rs.normal(size=(nx, nin)), rs.uniform(-1., 1., nin)
        off = x0 - T @ u0
        Tt, ot = torch.tensor(T, dtype=D), torch.tensor(off, dtype=D)
    else:
        u0 = x0
    if NB > 6:
        run.nontrivial = False
        return

    def declared(P):
        """the counts the class itself can see"""
        pres = [k.split("_")[-1] for k in P.it
                if not k.startswith("Aout")]
        return ("slack" in pres or not P.ns) and ("binary" in pres or
                                                  not P.nb) and (
            "input" in pres)

    if not declared(P1) or (two and not declared(P2)):
        run.nontrivial = False
        return

    def make(t, watch):
        c1 = P1.make(t)
        ret = c1
        if two:
            c2 = P2.make(t)
            k1, k2 = copied(c1), copied(c2)
            ret = gtm.concatenate_mixed_integer_constraints(
                c1, c2, same_s, same_b, stack)
            if watch:
                run.check(same_struct(c1, k1) is None and
                          same_struct(c2, k2) is None, "concatenate:mutates",
                          "concatenation changed its arguments")
        if trans:
            keep = ret
            before = copied(ret)
            ret = ret.clone()
            if watch:
                run.check(same_struct(ret, keep) is None, "clone",
                          lambda: "clone differs in " +
                          str(same_struct(ret, keep)))
            ret.transform_input(Tt, ot)
            if watch:
                run.check(same_struct(keep, before) is None, "clone:alias",
                          "changing a clone changed the original in " +
                          str(same_struct(keep, before)))
        return ret

    def numbers(t):
        rows, outs = widen(P1.num(t), nx, ns1, nb1, 0, 0, 0, nx, NS, NB)
        if two:
            r2, o2 = widen(P2.num(t), nx, ns2, nb2, 0,
                           0 if same_s else ns1, 0 if same_b else nb1, nx,
                           NS, NB)
            rows = rows + r2
            outs = outs + o2 if stack else []
        if trans:
            def tr(a):
                return np.concatenate((a[:nx] @ T, a[nx:])), a[:nx] @ off
            rows = [(tr(a)[0], s, b - tr(a)[1]) for a, s, b in rows]
            outs = [(tr(a)[0], c + tr(a)[1]) for a, c in outs]
        return rows, outs

    rows0, outs0 = numbers(0.)
    no = len(outs0)
    run.mark("pieces", nx, ns1, nb1, ns2 if two else None,
             nb2 if two else None, same_s, same_b, stack, trans, no,
             sorted(P1.it), sorted(P1.bounds))
    lo, up = u0 - rs.uniform(0.3, 2., nin), u0 + rs.uniform(0.3, 2., nin)
    cu, co = rs.normal(size=nin), rs.normal(size=no)
    maximise = ch.flip("maximise", 0.5)
    as_out = no > 0 and not (not any(k.startswith("Aout") for k in P1.it)
                             and not two)

    def build(t, watch=False):
        ret = make(t, watch)
        run.check(ret.num_ineq() == sum(
            len(P.it["rhs_in"].b) for P in ([P1, P2] if two else [P1])),
            "pieces:num_ineq")
        run.check(ret.num_slack() == NS and ret.num_binary() == NB and
                  ret.num_input() == nin, "pieces:counts",
                  lambda: f"{ret.num_input()} {ret.num_slack()} "
                  f"{ret.num_binary()} instead of {nin} {NS} {NB}")
        mip = gtm.GurobiTorchMILP(D)
        mip.gurobi_model.setParam(GRB.Param.OutputFlag, False)
        x = mip.addVars(nin, lb=torch.tensor(lo, dtype=D),
                        ub=torch.tensor(up, dtype=D),
                        vtype=GRB.CONTINUOUS, name="x")
        out = None
        if as_out:
            run.check(ret.num_out() == no, "pieces:num_out")
            out = mip.addVars(no, lb=-gtm.gurobipy.GRB.INFINITY,
                              vtype=GRB.CONTINUOUS, name="y")
        binary = "b"
        given = NB > 0 and not any(k.startswith("binary") for P in (
            [P1, P2] if two else [P1]) for k in P.bounds) and \
            given_binaries
        if given:
            binary = mip.addVars(NB, lb=0., ub=1., vtype=GRB.BINARY,
                                 name="g")
        vt = gtm.BINARYRELAX if relaxed and not given else GRB.BINARY
        s, b = mip.add_mixed_integer_linear_constraints(
            ret, x, out, "s", binary, "in", "eq", "out", vt)
        run.check(len(s) == NS and len(b) == NB, "pieces:variables",
                  lambda: f"{len(s)} slacks and {len(b)} binaries instead of "
                  f"{NS} and {NB}")
        mip.setObjective([torch.tensor(cu, dtype=D)] +
                         ([torch.tensor(co, dtype=D)] if as_out else []) +
                         ([torch.tensor(cs, dtype=D)] if NS else []),
                         [x] + ([out] if as_out else []) +
                         ([s] if NS else []), 0.,
                         GRB.MAXIMIZE if maximise else GRB.MINIMIZE)
        mip.remove_binary_relaxation()
        return mip

    def raw(t):
        rows, outs = numbers(t)
        R = Raw(nin + NS, NB)
        n = nin + NS
        R.lo[:nin], R.up[:nin] = lo, up
        for a, s, b in rows:
            if not np.any(a[:n]) and np.sum(a[n:] != 0) == 1 and \
                    np.sum(np.abs(a[n:])) == 1. and s in "<>":
                pass
            R.rows.append((a[:n], a[n:], s, b))
        R.c[:nin] = cu
        R.c[nin:] = cs
        if as_out:
            for w, (a, k) in zip(co, outs):
                R.c += w * a[:n]
                R.e += w * a[n:]
                R.k += w * k
        R.maximise = maximise
        return R

    given_binaries = ch.flip("given", 0.2)
    relaxed = ch.flip("relaxed", 0.3)
    cs = rs.normal(size=NS) * (rs.uniform() < 0.7)
    t = torch.tensor(0., dtype=D, requires_grad=True)
    mip = build(t, True)
    best = raw(0.).outer()
    if best == "?":
        run.nontrivial = False
        return
    policy(run, False)
    m = mip.gurobi_model
    m.optimize()
    run.event("status", m.status, None if best is None else
              round(best[0], 6))
    if best is None:
        run.check(m.status == GRB.INFEASIBLE, "pieces:infeasible",
                  lambda: f"status {m.status} of an infeasible program")
        return
    run.check(m.status == GRB.OPTIMAL and close(m.ObjVal, best[0]),
              "pieces:optimum",
              lambda: f"status {m.status}, "
              f"{m.ObjVal if m.solCount else None} instead of {best[0]}")
    obj = recompute(mip, 0, 0.)
    run.check(obj is not None, "pieces:gave-up")
    run.check(close(float(obj), best[0], 5e-6), "pieces:value",
              lambda: f"recomputed {float(obj)}, optimum {best[0]}")
    z = np.array([round(v.x) for v in mip.zeta], dtype=float)

    def val(tt):
        st, v, _ = raw(tt).inner(z)
        return v if st == 0 else None

    fd = slope(val, 0., 1e-5)
    if fd is None:
        return
    g = autograd(obj, t)
    run.note("op:gradient")
    if abs(g - fd) <= 5e-3 * (1 + abs(fd)):
        return
    for t1 in (2e-3, -3e-3):
        tt = torch.tensor(t1, dtype=D, requires_grad=True)
        m1 = build(tt)
        for v, zz in zip(m1.zeta, z):
            v.lb = v.ub = zz
        m1.gurobi_model.optimize()
        fd1 = slope(val, t1, 1e-5)
        ob1 = recompute(m1, 0, 0.) if m1.gurobi_model.solCount else None
        if ob1 is None or fd1 is None or \
                abs(autograd(ob1, tt) - fd1) <= 5e-3 * (1 + abs(fd1)):
            return
    run.check(False, "pieces:gradient",
              f"gradient {g}, derivative of the optimum {fd}")


# -- network verification programs ------------------------------------------
def network(run):
    from gurobipy import GRB, hooks
    import neural_network_lyapunov.lyapunov as ly
    from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as M
    ch = run.ch
    run.scenario = "network"
    rs = ch.rngstate("network.rng")
    p = B.plant(run, B.AUTO + B.FEEDBACK, max_width=3, method=M.IA)
    run.note("plant:" + p.kind)
    c = B.candidate(run, p, max_width=3)
    system = B.lyap_system(p, c) if False else \
        ly.LyapunovDiscreteTimeHybridSystem(p.system, c.phi)
    system.network_bound_propagate_method = M.IA
    eps = float([0.01, 0.1, 0.5][ch.choose("eps", 3)])
    deriv = ch.flip("derivative", 0.6)
    mods = [c.phi] + [m for m in p.nets if isinstance(m, torch.nn.Module)]
    params, dirs = [], []
    for m in mods:
        for q in m.parameters():
            params.append(q)
            dirs.append(torch.tensor(
                rs.normal(size=tuple(q.shape)) *
                (rs.uniform(size=tuple(q.shape)) < 0.5), dtype=q.dtype))
    for q in params:
        q.requires_grad_(True)
    base = [q.detach().clone() for q in params]

    def put(t):
        with torch.no_grad():
            for q, b, d in zip(params, base, dirs):
                q.copy_(b + t * d)

    kind = [ly.ConvergenceEps.ExpLower, ly.ConvergenceEps.ExpUpper,
            ly.ConvergenceEps.Asymp][ch.choose("eps.kind", 3)]

    def build():
        if deriv:
            ret = system.lyapunov_derivative_as_milp(
                p.x_eq_t, float(c.lam), eps, kind, R=c.R_t)
            milp = ret.milp if hasattr(ret, "milp") else ret[0]
        else:
            ret = system.lyapunov_positivity_as_milp(
                p.x_eq_t, float(c.lam), eps, R=c.R_t)
            milp = ret.milp if hasattr(ret, "milp") else ret[0]
        milp.gurobi_model.setParam(GRB.Param.OutputFlag, False)
        return milp

    milp = build()
    m = milp.gurobi_model
    if len(milp.zeta) > 26:
        run.nontrivial = False
        return
    hooks.chooser = ch
    hooks.note_counts = run.counts
    hooks.policy = dict(tie_break=0.5)
    npool = [1, 4][ch.choose("npool", 2)]
    if npool > 1:
        m.setParam(GRB.Param.PoolSearchMode, 2)
        m.setParam(GRB.Param.PoolSolutions, npool)
    m.optimize()
    run.mark("network", p.kind, deriv, str(kind), m.status, npool,
             len(milp.zeta))
    if m.status != GRB.OPTIMAL:
        run.nontrivial = False
        return

    def solved(t, z=None):
        if t is not None:
            put(t)
        hooks.policy = {}
        mm = build()
        if z is not None:
            for v, zz in zip(mm.zeta, z):
                v.lb = v.ub = zz
        mm.gurobi_model.optimize()
        if mm.gurobi_model.status != GRB.OPTIMAL:
            return None, mm
        return mm.gurobi_model.ObjVal, mm

    found = []
    for k in range(min(m.solCount, 2)):
        obj = recompute(milp, k, 0.)
        m.setParam(GRB.Param.SolutionNumber, k)
        pv = m.PoolObjVal
        if k > 0:
            pol = hooks.policy
            w = solved(None, [round(v.xn) for v in milp.zeta])[0]
            hooks.policy = pol
            if w is None or not close(w, pv):
                # an incumbent that is not the best for its binaries
                run.check(obj is None or abs(float(obj) - pv) <= 1.001e-3,
                          "network:value",
                          lambda: f"recomputed {float(obj)}, solver {pv}")
                continue
        run.check(obj is not None, "network:gave-up",
                  lambda: f"no objective for solution {k}, value {pv}")
        run.check(abs(float(obj) - pv) <= 1e-5 * (1 + abs(pv)),
                  "network:value",
                  lambda: f"recomputed {float(obj)}, solver {pv}")
        z = [round(v.xn) for v in milp.zeta]
        g = sum(float((a * d).sum()) for a, d in zip(torch.autograd.grad(
            obj, params, allow_unused=True, retain_graph=True), dirs)
            if a is not None) if obj.requires_grad else 0.
        found.append((k, z, g))
    for k, z, g in found:
        fd = slope(lambda t: solved(t, z)[0], 0., 1e-5)
        put(0.)
        if fd is None:
            continue
        run.note("op:gradient")
        run.mark("grad")
        if abs(g - fd) <= 1e-2 * (1 + abs(fd)):
            continue
        bad = True
        for t1 in (2e-3, -3e-3):
            fd1 = slope(lambda t: solved(t, z)[0], t1, 1e-5)
            v, mm = solved(t1, z)
            ob = recompute(mm, 0, 0.) if v is not None else None
            if fd1 is None or ob is None:
                bad = False
                break
            g1 = sum(float((a * d).sum()) for a, d in zip(
                torch.autograd.grad(ob, params, allow_unused=True), dirs)
                if a is not None)
            if abs(g1 - fd1) <= 1e-2 * (1 + abs(fd1)):
                bad = False
                break
        put(0.)
        run.check(not bad, "network:gradient",
                  lambda: f"solution {k}: gradient {g}, derivative {fd}")


def scenario(run):
    ch = run.ch
    k = ch.choose("family", 10)
    if k < 4:
        program(run, False)
    elif k < 6:
        program(run, True)
    elif k < 9:
        pieces(run)
    else:
        network(run)
