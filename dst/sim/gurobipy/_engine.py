"""Solving engine: HiGHS plus the simulated solver's freedoms and faults."""
import faulthandler
import math
import os
import pickle
import signal

import highspy
import numpy as np

from . import hooks
from ._const import GRB

_INF = highspy.kHighsInf
_MS = highspy.HighsModelStatus


class Result:
    def __init__(self):
        self.status = GRB.LOADED
        self.pool = []  # list of (x, obj); [0] is the incumbent
        self.bound = None
        self.runtime = 0.
        self.nodes = 1
        self.dual = None
        self.reduced_cost = None
        self.fault = None


class _Dual:
    def __init__(self, h):
        sol = h.getSolution()
        self.row = np.array(sol.row_dual)
        self.col = np.array(sol.col_dual)


def _run(h):
    """HiGHS crashes on rare programs; a run that dies here says nothing
    about the code under test."""
    if hooks.in_solver is not None:
        hooks.in_solver[0] = 1
    h.run()
    if hooks.in_solver is not None:
        hooks.in_solver[0] = 0


class Problem:
    """A snapshot of the model in matrix form (always minimisation inside)."""
    def __init__(self, model):
        vs = model._vars
        n = len(vs)
        self.n = n
        self.lb = np.array([_inf(v._lb) for v in vs], dtype=float)
        self.ub = np.array([_inf(v._ub) for v in vs], dtype=float)
        self.isint = np.array(
            [v._vtype in (GRB.BINARY, GRB.INTEGER) for v in vs], dtype=bool)
        self.sign = 1. if model._sense == GRB.MINIMIZE else -1.
        self.c = np.zeros(n)
        for v, k in model._obj._terms.items():
            self.c[v._col] += k
        self.const = model._obj._const
        self.Q = None
        if hasattr(model._obj, "_quad") and model._obj._quad:
            Q = np.zeros((n, n))
            for (a, b), k in model._obj._quad.items():
                Q[a._col, b._col] += k / 2.
                Q[b._col, a._col] += k / 2.
            self.Q = Q
        rows, self.rlo, self.rup = [], [], []
        start, idx, val = [0], [], []
        for con in model._constrs:
            for v, k in con._terms.items():
                if k != 0.:
                    idx.append(v._col)
                    val.append(k)
            start.append(len(idx))
            r = con._rhs
            self.rlo.append(r if con._sense in "=>" else -_INF)
            self.rup.append(r if con._sense in "=<" else _INF)
        self.start = np.array(start, dtype=np.int32)
        self.idx = np.array(idx, dtype=np.int32)
        self.val = np.array(val, dtype=float)
        self.rlo = np.array(self.rlo, dtype=float)
        self.rup = np.array(self.rup, dtype=float)
        self.m = len(self.rlo)
        self.starts = np.array([v._start for v in vs], dtype=float)

    def objective(self, x):
        o = float(self.c @ x) + self.const
        if self.Q is not None:
            o += float(x @ self.Q @ x)
        return o

    def solve(self, c=None, fix=None, extra=None, integer=True, Q="own",
              lb=None, ub=None):
        """Minimise c (default: sign*objective).  fix: dict col->value.
        extra: list of (coef vector, lo, up).  Returns (status, x, bound)."""
        a = (c, fix, extra, integer, Q, lb, ub)
        out = self._solve(*a)
        if not hooks.double_check or (self.Q is not None and Q == "own"):
            return out
        # HiGHS is wrong once in some thousand programs: ask it again, keep
        # its first answer unless another one beats it
        keep = getattr(self, "last", None)
        for alt in (1, 2):
            o = self._apart(a, alt)
            if o is None or o[0] != "optimal" or not self._fits(o[1], a):
                continue
            if out[0] == "optimal" and self._fits(out[1], a) and \
                    o[2] >= out[2] - 1e-8 * (1. + abs(out[2])):
                continue
            if out[0] == "unbounded":
                continue
            hooks.note("solver:second-answer-better")
            out, keep = o, getattr(self, "last", None)
        self.last = keep
        return out

    def _apart(self, a, alt):
        """Another answer; None when HiGHS crashes (which it can do on integer
        programs without presolve, hence in a forked process)."""
        if alt != 1 or not a[3] or not self.isint.any():
            return self._solve(*a, alt=alt)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                faulthandler.disable()
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(60)
                out = self._solve(*a, alt=alt)
                with os.fdopen(w, "wb") as f:
                    pickle.dump((out, getattr(self, "last", None)), f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            out, self.last = pickle.loads(data)
            return out
        except (EOFError, pickle.UnpicklingError):
            hooks.note("solver:second-answer-crashed")
            return None

    def _fits(self, x, a, eps=1e-6):
        """Is x feasible (up to the solver's own tolerance)?"""
        c, fix, extra, integer, Q, lb, ub = a
        lb = (self.lb if lb is None else lb).copy()
        ub = (self.ub if ub is None else ub).copy()
        for j, v in (fix or {}).items():
            lb[j] = ub[j] = v
        s = 1. + np.abs(x)
        if np.any(x < lb - eps * s) or np.any(x > ub + eps * s):
            return False
        if integer and np.any(np.abs(x - np.round(x))[self.isint] > eps):
            return False
        rows = [(self.idx[i:j], self.val[i:j], lo, up) for i, j, lo, up in zip(
            self.start[:-1], self.start[1:], self.rlo, self.rup)]
        rows += [(np.arange(self.n), np.asarray(k), lo, up)
                 for k, lo, up in (extra or ())]
        for ix, vl, lo, up in rows:
            t = vl * x[ix]
            v, s = t.sum(), 1. + np.abs(t).sum()
            if v < lo - eps * s or v > up + eps * s:
                return False
        return True

    def _solve(self, c, fix, extra, integer, Q, lb, ub, alt=0):
        own = c is None
        if own:
            c = self.sign * self.c
        h = highspy.Highs()
        h.setOptionValue("output_flag", False)
        h.setOptionValue("threads", 1)
        h.setOptionValue("mip_rel_gap", 0.)
        h.setOptionValue("mip_abs_gap", 1e-10)
        h.setOptionValue("mip_feasibility_tolerance", 1e-9)
        h.setOptionValue("primal_feasibility_tolerance", 1e-9)
        h.setOptionValue("dual_feasibility_tolerance", 1e-9)
        if alt == 1:
            h.setOptionValue("presolve", "off")
        elif alt == 2:
            h.setOptionValue("random_seed", 3)
        lp = highspy.HighsLp()
        lp.num_col_ = self.n
        lb = (self.lb if lb is None else lb).copy()
        ub = (self.ub if ub is None else ub).copy()
        if fix:
            for j, v in fix.items():
                lb[j] = ub[j] = v
        rlo, rup, start, idx, val = (self.rlo, self.rup, self.start, self.idx,
                                     self.val)
        if extra:
            rlo, rup = list(rlo), list(rup)
            start, idx, val = list(start), list(idx), list(val)
            for coef, lo, up in extra:
                nz = np.nonzero(coef)[0]
                idx.extend(int(j) for j in nz)
                val.extend(float(coef[j]) for j in nz)
                start.append(len(idx))
                rlo.append(lo)
                rup.append(up)
        lp.num_row_ = len(rlo)
        lp.col_cost_ = np.array(c, dtype=float)
        lp.col_lower_ = lb
        lp.col_upper_ = ub
        lp.row_lower_ = np.array(rlo, dtype=float)
        lp.row_upper_ = np.array(rup, dtype=float)
        lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
        lp.a_matrix_.start_ = np.array(start, dtype=np.int32)
        lp.a_matrix_.index_ = np.array(idx, dtype=np.int32)
        lp.a_matrix_.value_ = np.array(val, dtype=float)
        mip = integer and bool(self.isint.any()) and not (
            fix and all(j in fix for j in np.nonzero(self.isint)[0]))
        if mip:
            lp.integrality_ = [
                highspy.HighsVarType.kInteger
                if t else highspy.HighsVarType.kContinuous for t in self.isint
            ]
        if np.any(lb > ub):
            return "infeasible", None, None
        quad = self.Q is not None and Q == "own"
        if quad:
            if mip:
                return self._enumerate_miqp(fix, extra)
            # fixed columns (integers, usually) leave the quadratic form
            F = np.nonzero(lb == ub)[0]
            P = self.sign * 2. * self.Q
            c2 = np.array(c, dtype=float)
            if len(F):
                z = np.where(lb == ub, lb, 0.)
                c2 = np.where(lb == ub, c2, c2 + P @ z)
                P = P.copy()
                P[F, :] = 0.
                P[:, F] = 0.
            if np.min(np.linalg.eigvalsh(P)) < -1e-9 * (
                    1. + np.max(np.abs(P))):
                return "error:nonconvex program", None, None
            lp.col_cost_ = c2
            hm = highspy.HighsModel()
            hm.lp_ = lp
            st, ix, vl = [0], [], []
            for j in range(self.n):
                for i in range(j, self.n):
                    if P[i, j] != 0.:
                        ix.append(i)
                        vl.append(P[i, j])
                st.append(len(ix))
            hm.hessian_.dim_ = self.n
            hm.hessian_.format_ = highspy.HessianFormat.kTriangular
            hm.hessian_.start_ = np.array(st, dtype=np.int32)
            hm.hessian_.index_ = np.array(ix, dtype=np.int32)
            hm.hessian_.value_ = np.array(vl, dtype=float)
            h.passModel(hm)
        else:
            h.passModel(lp)
        _run(h)
        st = h.getModelStatus()
        if st in (_MS.kUnboundedOrInfeasible, ):
            h.setOptionValue("presolve", "off")
            _run(h)
            st = h.getModelStatus()
        if st == _MS.kModelEmpty:
            x = np.clip(np.zeros(self.n), lb, ub)
            return "optimal", x, float(c @ x)
        if st == _MS.kOptimal:
            x = np.array(h.getSolution().col_value, dtype=float)
            info = h.getInfo()
            self.last = _Dual(h)
            if quad:
                # its answers to singular quadratic programs are not reliable
                def q(v):
                    return float(0.5 * v @ P @ v + c2 @ v)
                y = _interior_qp(P, c2, lp, lb, ub)
                if y is None:
                    return "error:quadratic program", None, None
                if q(y) < q(x) - 1e-8 * (1. + abs(q(x))):
                    x = y
                return "optimal", x, q(x)
            return "optimal", x, info.objective_function_value
        if quad and st not in (_MS.kUnbounded, _MS.kUnboundedOrInfeasible):
            s2, _, _ = self.solve(np.zeros(self.n), fix, extra, integer,
                                  Q=None)
            if s2 == "infeasible":
                return "infeasible", None, None
            x = _interior_qp(P, c2, lp, lb, ub)
            if x is None:
                return "error:" + str(st), None, None
            return "optimal", x, float(0.5 * x @ P @ x + c2 @ x)
        if st == _MS.kInfeasible:
            if not np.any(c):
                return "infeasible", None, None
            # HiGHS now and then calls an unbounded program infeasible
            s2, _, _ = self.solve(np.zeros(self.n), fix, extra, integer,
                                  Q=None)
            if s2 == "infeasible":
                return "infeasible", None, None
            h.setOptionValue("presolve", "off")
            h.clearSolver()
            _run(h)
            st = h.getModelStatus()
            if st == _MS.kOptimal:
                x = np.array(h.getSolution().col_value, dtype=float)
                self.last = _Dual(h)
                return ("optimal", x,
                        h.getInfo().objective_function_value)
            if st == _MS.kInfeasible:
                if self._ray(c, fix, extra, integer):
                    return "unbounded", None, None
                return "error:inconsistent", None, None
        if st in (_MS.kUnbounded, _MS.kUnboundedOrInfeasible):
            if st == _MS.kUnboundedOrInfeasible:
                s2, _, _ = self.solve(np.zeros(self.n), fix, extra, integer,
                                      Q=None)
                if s2 == "infeasible":
                    return "infeasible", None, None
            return "unbounded", None, None
        return "error:" + str(st), None, None

    def _ray(self, c, fix, extra, integer):
        """A program which only the objective makes fail: is it unbounded?"""
        lim = 1e6 * np.sign(c @ c + 1.)
        s2, y, _ = self.solve(np.zeros(self.n), fix,
                              list(extra or ()) + [(c, -_INF, -lim)], integer,
                              Q=None)
        return s2 == "optimal"

    def _enumerate_miqp(self, fix, extra):
        import itertools
        ints = [int(j) for j in np.nonzero(self.isint)[0]]
        fix = dict(fix or {})
        free = [j for j in ints if j not in fix]
        if len(free) > 14:
            return "error:too many integers for a simulated MIQP", None, None
        best = None
        for vals in itertools.product((0., 1.), repeat=len(free)):
            f = dict(fix)
            ok = True
            for j, v in zip(free, vals):
                if v < self.lb[j] - 1e-9 or v > self.ub[j] + 1e-9:
                    ok = False
                    break
                f[j] = v
            if not ok:
                continue
            s, x, o = self.solve(None, f, extra)
            if s == "unbounded" or s.startswith("error"):
                return s, None, None
            if s == "optimal":
                o = self.sign * self.objective(x)
                if best is None or o < best[1] - 1e-12:
                    best = (x, o)
        if best is None:
            return "infeasible", None, None
        return "optimal", best[0], best[1]

    def polish(self, x, c=None, Q="own"):
        """Re-solve the LP with the integers of x fixed: a clean vertex."""
        ints = np.nonzero(self.isint)[0]
        if len(ints) == 0:
            return x
        fix = {int(j): float(round(x[j])) for j in ints}
        s, y, _ = self.solve(c=c, fix=fix, Q=Q)
        if s != "optimal":
            return x
        for j, v in fix.items():
            y[j] = v
        return y


def _interior_qp(P, c, lp, lb, ub):
    """Where HiGHS gives up on a quadratic program: interior point, then one
    Newton step on the rows it found active."""
    import clarabel
    from scipy import sparse
    n = len(c)
    A = np.zeros((lp.num_row_, n))
    st, ix, vl = lp.a_matrix_.start_, lp.a_matrix_.index_, lp.a_matrix_.value_
    for i in range(lp.num_row_):
        for k in range(st[i], st[i + 1]):
            A[i, ix[k]] += vl[k]
    E, e, G, g = [], [], [], []
    rows = [(A[i], lp.row_lower_[i], lp.row_upper_[i])
            for i in range(lp.num_row_)]
    rows += [(np.eye(n)[j], lb[j], ub[j]) for j in range(n)]
    for a, lo, up in rows:
        if lo == up:
            E.append(a)
            e.append(lo)
            continue
        if up < _INF:
            G.append(a)
            g.append(up)
        if lo > -_INF:
            G.append(-a)
            g.append(-lo)
    cfg = clarabel.DefaultSettings()
    cfg.verbose = False
    cfg.tol_gap_abs = cfg.tol_gap_rel = cfg.tol_feas = 1e-11
    cones = []
    if E:
        cones.append(clarabel.ZeroConeT(len(E)))
    if G:
        cones.append(clarabel.NonnegativeConeT(len(G)))
    M = np.array(E + G).reshape(len(E) + len(G), n)
    sol = clarabel.DefaultSolver(sparse.csc_matrix(np.triu(P)), c,
                                 sparse.csc_matrix(M), np.array(e + g), cones,
                                 cfg).solve()
    if str(sol.status) not in ("Solved", "AlmostSolved"):
        return None
    x = np.array(sol.x)
    act = [i for i in range(len(G))
           if sol.z[len(E) + i] > g[i] - G[i] @ x]
    W = np.array(E + [G[i] for i in act]).reshape(len(E) + len(act), n)
    w = np.array(e + [g[i] for i in act])
    K = np.block([[P, W.T], [W, np.zeros((len(w), len(w)))]])
    y = np.linalg.lstsq(K, np.concatenate((-c, w)), rcond=None)[0][:n]
    ok = np.linalg.norm(y - x) < 1e-4 * (1. + np.linalg.norm(x)) and all(
        G[i] @ y <= g[i] + 1e-8 * (1. + abs(g[i])) for i in range(len(G))) \
        and all(abs(E[i] @ y - e[i]) <= 1e-8 * (1. + abs(e[i]))
                for i in range(len(E)))
    return y if ok else x


def _inf(v):
    if v >= 1e20:
        return _INF
    if v <= -1e20:
        return -_INF
    return v


class SimSolverError(Exception):
    """The simulator itself failed (never the library's fault)."""


def _better(p, a, b):
    """objective a strictly better than b in the problem's sense."""
    return p.sign * a < p.sign * b - 1e-12


def _tie_break(p, x, rng):
    """Another optimal vertex: tiny random tilt of the objective."""
    scale = max(1., float(np.max(np.abs(p.c))) if p.n else 1.)
    c = p.sign * p.c + 1e-7 * scale * rng.uniform(-1., 1., p.n)
    # unbounded columns get no tilt: a free ray must stay flat
    lo, up = p.lb, p.ub
    free = ~(np.isfinite(lo) & np.isfinite(up))
    c = np.where(free, p.sign * p.c, c)
    s, y, _ = p.solve(c=c)
    if s != "optimal":
        return x
    y = p.polish(y, c=c, Q=None)
    o0, o1 = p.objective(x), p.objective(y)
    if abs(o0 - o1) > 1e-7 * max(1., abs(o0)):
        return x
    return y


def _feasible_point(p, rng, ch, opt_obj):
    """A feasible, usually suboptimal, solution (an incumbent)."""
    kind = ch.choose("incumbent_kind", 3)
    if kind == 0:
        # best solution whose objective is capped at some level at or below
        # zero-ish / a random level: the "just not violating" incumbent
        cap = [0., 1e-7, opt_obj / 2.,
               opt_obj - abs(opt_obj) * 0.1][ch.choose("incumbent_cap", 4)]
        if _better(p, cap, opt_obj):
            cap = opt_obj
        lo, up = (-_INF, cap - p.const) if p.sign < 0 else (cap - p.const,
                                                            _INF)
        if p.Q is not None:
            return None
        s, y, _ = p.solve(extra=[(p.c, lo, up)])
        if s == "optimal":
            ints = np.nonzero(p.isint)[0]
            fix = {int(j): float(round(y[j])) for j in ints}
            if fix:
                s, z, _ = p.solve(fix=fix, extra=[(p.c, lo, up)])
                if s == "optimal":
                    for j, v in fix.items():
                        z[j] = v
                    y = z
    elif kind == 1:
        c = np.where(p.isint, rng.uniform(-1., 1., p.n), 0.)
        s, y, _ = p.solve(c=c, Q=None)
        if s == "optimal":
            y = p.polish(y)
    else:
        fin = np.isfinite(p.lb) & np.isfinite(p.ub)
        c = np.where(fin, rng.uniform(-1., 1., p.n), 0.)
        s, y, _ = p.solve(c=c, Q=None)
        if s == "optimal":
            y = p.polish(y, c=c, Q=None)
    return y if s == "optimal" else None


def _start_point(p):
    """Complete a (partial) MIP start."""
    have = [
        int(j) for j in np.nonzero(p.starts < 1e100)[0]
        if np.isfinite(p.starts[j])
    ]
    if not have:
        return None
    fix = {}
    for j in have:
        v = p.starts[j]
        if p.isint[j]:
            v = float(round(v))
        if v < p.lb[j] - 1e-9 or v > p.ub[j] + 1e-9:
            return None
        fix[j] = v
    s, y, _ = p.solve(fix=fix)
    if s != "optimal":
        return None
    return p.polish(y)


def _noise(p, x, rng, amp):
    y = x.copy()
    d = amp * rng.uniform(-1., 1., p.n) * np.maximum(1., np.minimum(
        1e2, np.abs(x)))
    d[p.lb == p.ub] = 0.
    y = y + d
    return y


def _early_stop_status(model):
    """Which early stops the model's own limits make possible."""
    out = []
    P = model._params
    if P["TimeLimit"] < 1e99:
        out.append(GRB.TIME_LIMIT)
    if P["NodeLimit"] < 1e99:
        out.append(GRB.NODE_LIMIT)
    if P["WorkLimit"] < 1e99:
        out.append(GRB.WORK_LIMIT)
    return out


FAULTS = ("error", "inf_or_unbd", "limit", "interrupt", "suboptimal",
          "suboptimal_lp")


def solve(model, callback):
    import gurobipy
    hooks.solve_count += 1
    ch = hooks.chooser
    pol = hooks.policy if ch is not None else {}
    if pol.get("at") is not None and hooks.solve_count != pol["at"]:
        # faults are confined to one solve
        pol = {k: v for k, v in pol.items() if k not in FAULTS}
    p = Problem(model)
    if hasattr(ch, "begin_solve"):
        ch.begin_solve(p)
    res = Result()
    model.__dict__["_result"] = res
    P = model._params
    ismip = bool(p.isint.any())
    rng = None
    if ch is not None:
        rng = np.random.RandomState(ch.choose("solver_rng", 1 << 20))
    rec = {"mip": ismip, "n": p.n, "m": p.m, "status": None, "fault": None}
    if hooks.history is not None:
        hooks.history.append(rec)

    def fault(name):
        res.fault = name
        rec["fault"] = name
        hooks.note("fault:" + name)

    if ch is not None and pol.get("error") and ch.flip(
            "solver_error", pol["error"]):
        code, msg = [(10001, "Out of memory"),
                     (10009, "License expired"),
                     (10011, "Numerical trouble encountered")
                     ][ch.choose("solver_error_kind", 3)]
        fault("GurobiError")
        res.status = GRB.LOADED
        model.__dict__["_status"] = GRB.LOADED
        raise gurobipy.GurobiError(code, msg)

    status, x, _ = p.solve()
    if status.startswith("error"):
        raise SimSolverError(status)
    if status in ("infeasible", "unbounded"):
        exact = GRB.INFEASIBLE if status == "infeasible" else GRB.UNBOUNDED
        res.status = exact
        if ch is not None and P["DualReductions"] != 0 and pol.get(
                "inf_or_unbd") and ch.flip("inf_or_unbd", pol["inf_or_unbd"]):
            res.status = GRB.INF_OR_UNBD
            fault("INF_OR_UNBD")
        elif ch is not None and status == "infeasible":
            stops = _early_stop_status(model) if ismip else []
            if stops and pol.get("limit") and ch.flip("limit_infeasible",
                                                      pol["limit"]):
                res.status = stops[ch.choose("limit_kind", len(stops))]
                fault("limit-before-infeasibility-proof")
        res.bound = -p.sign * 1e100
        rec["status"] = res.status
        if hooks.on_solve is not None:
            hooks.on_solve(model, res, p, None)
        return
    x = p.polish(x)
    if ch is not None and p.Q is None and pol.get("tie_break") and ch.flip(
            "tie_break", pol["tie_break"]):
        y = _tie_break(p, x, rng)
        if not np.allclose(y, x, atol=1e-6):
            hooks.note("freedom:other-optimal-vertex")
        x = y
    opt = p.objective(x)
    if not ismip:
        h = getattr(p, "last", None)
        if h is not None:
            res.dual = p.sign * h.row
            res.reduced_cost = p.sign * h.col
    incumbents = []  # improving sequence, last is best
    stop = None
    lead = 0
    if ismip:
        sp = _start_point(p) if ch is not None or callback is not None \
            else None
        if sp is not None:
            incumbents.append(sp)
        n_extra = 0
        if ch is not None:
            if callback is not None and pol.get("callback_incumbents", True):
                n_extra = ch.choose("n_incumbents", 3)
            stops = _early_stop_status(model)
            if stops and pol.get("limit") and ch.flip("limit", pol["limit"]):
                stop = stops[ch.choose("limit_kind", len(stops))]
                n_extra = ch.choose("limit_incumbents", 3)
                if n_extra == 0 and ch.flip("limit_has_none", 0.5):
                    incumbents = []
                else:
                    n_extra = max(1, n_extra)
                fault("limit:" + str(stop))
            elif pol.get("interrupt") and ch.flip("interrupt",
                                                  pol["interrupt"]):
                stop = GRB.INTERRUPTED
                n_extra = 1 + ch.choose("limit_incumbents", 2)
                fault("interrupt")
            elif pol.get("suboptimal") and ch.flip("suboptimal",
                                                   pol["suboptimal"]):
                stop = [GRB.SUBOPTIMAL,
                        GRB.NUMERIC][ch.choose("subopt_kind", 2)]
                n_extra = 1
                fault("suboptimal:" + str(stop))
            if P["SolutionLimit"] < 2000000000 and n_extra == 0 and \
                    pol.get("solution_limit", True):
                n_extra = ch.choose("sol_limit_incumbents", 2)
        for _ in range(n_extra):
            y = _feasible_point(p, rng, ch, opt)
            if y is not None:
                incumbents.append(y)
        objs = [p.objective(y) for y in incumbents]
        order = sorted(range(len(objs)), key=lambda k: -p.sign * objs[k])
        incumbents = [incumbents[k] for k in order]
        # drop anything not strictly worse than the optimum
        incumbents = [
            y for y in incumbents if _better(p, opt, p.objective(y))
        ]
        if sp is not None:
            # a MIP start becomes the first incumbent, before any node is
            # explored; nothing worse is reported afterwards
            if not _better(p, opt, p.objective(sp)):
                if stop is None:
                    x = sp
                    incumbents = []
                else:
                    incumbents = [sp]
            else:
                incumbents = [sp] + [
                    y for y in incumbents
                    if y is not sp and _better(p, p.objective(y),
                                               p.objective(sp))
                ]
            lead = 1
    else:
        if ch is not None and pol.get("suboptimal_lp") and ch.flip(
                "suboptimal_lp", pol["suboptimal_lp"]):
            res.status = GRB.NUMERIC
            if ch.flip("lp_has_point", 0.5):
                # a feasible point that is not optimal
                y = _feasible_point(p, rng, ch, opt)
                if y is not None and _better(p, opt, p.objective(y)):
                    res.status = GRB.SUBOPTIMAL
                    res.pool = [(y, p.objective(y))]
                    res.bound = p.sign * -1e100
                    fault("LP SUBOPTIMAL")
            if res.status == GRB.NUMERIC:
                fault("LP NUMERIC")
            rec["status"] = res.status
            if hooks.on_solve is not None:
                hooks.on_solve(model, res, p, opt)
            return
    seq = list(incumbents)
    if stop is None:
        seq.append(x)
    # -- walk the branch and bound, calling back --------------------------
    nodes = 0
    have = []

    def bound_now(final):
        if final:
            return opt
        s, y, o = p.solve(integer=False)
        rel = p.sign * o + p.const if s == "optimal" and p.Q is None else \
            -p.sign * 1e100
        t = ch.real("bound") if ch is not None else 0.5
        if math.isinf(rel) or abs(rel) > 1e50:
            return rel
        return opt + t * (rel - opt)

    bnd = None
    terminated = None

    def call(where, data):
        model.__dict__["_cb"] = (where, data)
        callback(model, where)
        return model._terminate

    CB = GRB.Callback
    if callback is not None:
        bnd0 = bound_now(False) if ismip else opt
        if call(CB.POLLING, {}) or call(CB.PRESOLVE, {
                CB.PRE_COLDEL: 0, CB.PRE_ROWDEL: 0, CB.RUNTIME: 0.}):
            terminated = GRB.INTERRUPTED
        if terminated is None and ismip:
            for k in range(len(seq) + 1):
                best = p.objective(have[-1]) if have else -p.sign * -1e100
                if not have:
                    best = p.sign * 1e100
                stat = GRB.OPTIMAL
                if ch is not None and pol.get("node_status") and ch.flip(
                        "node_status", pol["node_status"]):
                    stat = GRB.CUTOFF
                common = {
                    CB.RUNTIME: 0.01 * nodes,
                    CB.MIPNODE_STATUS: stat,
                    CB.MIPNODE_OBJBST: best,
                    CB.MIPNODE_OBJBND: bnd0,
                    CB.MIPNODE_NODCNT: float(nodes),
                    CB.MIPNODE_SOLCNT: len(have),
                }
                nodes += 1
                if k >= lead and call(CB.MIPNODE, common):
                    terminated = GRB.INTERRUPTED
                    break
                if k >= lead and call(
                        CB.MIP, {
                            CB.RUNTIME: 0.01 * nodes,
                            CB.MIP_OBJBST: best,
                            CB.MIP_OBJBND: bnd0,
                            CB.MIP_NODCNT: float(nodes),
                            CB.MIP_SOLCNT: len(have),
                            CB.MIP_NODLFT: 1.,
                            CB.MIP_ITRCNT: float(nodes),
                            CB.MIP_CUTCNT: 0
                        }):
                    terminated = GRB.INTERRUPTED
                    break
                if k == len(seq):
                    break
                nxt = seq[k]
                if call(
                        CB.MIPSOL, {
                            "_sol": nxt,
                            CB.RUNTIME: 0.01 * nodes,
                            CB.MIPSOL_OBJ: p.objective(nxt),
                            CB.MIPSOL_OBJBST: best,
                            CB.MIPSOL_OBJBND: bnd0,
                            CB.MIPSOL_NODCNT: float(nodes),
                            CB.MIPSOL_SOLCNT: len(have) + 1
                        }):
                    have.append(nxt)
                    terminated = GRB.INTERRUPTED
                    break
                have.append(nxt)
                # a real solver may finish right after finding the optimum
                # without another node callback
                if k == len(seq) - 1 and stop is None and ch is not None \
                        and ch.flip("no_final_node", 0.5):
                    break
                if k == len(seq) - 1 and ch is None:
                    pass
        model.__dict__["_cb"] = None
    elif ismip:
        lim = int(P["SolutionLimit"])
        have = seq[:lim] if lim < len(seq) else list(seq)
    else:
        have = list(seq)
    if callback is not None and not ismip:
        have = list(seq)
    if ismip and terminated is None and P["SolutionLimit"] < len(seq):
        have = have[:int(P["SolutionLimit"])]
    complete = bool(have) and have[-1] is x and terminated is None
    if terminated is not None:
        res.status = terminated
        hooks.note("event:terminated-by-callback")
        bnd = bound_now(False) if ismip else opt
    elif complete:
        res.status = GRB.OPTIMAL
        bnd = opt
    elif stop is not None:
        res.status = stop
        bnd = bound_now(False)
    elif ismip and P["SolutionLimit"] <= len(have):
        res.status = GRB.SOLUTION_LIMIT
        hooks.note("event:solution-limit")
        bnd = bound_now(False)
    else:
        res.status = GRB.OPTIMAL
        bnd = opt
        if not have:
            have = [x]
    # objective cutoffs the model asked for
    best_stop = P["BestObjStop"]
    if res.status == GRB.OPTIMAL and ismip and best_stop < 1e99 and \
            not _better(p, best_stop, opt) and opt != best_stop:
        res.status = GRB.USER_OBJ_LIMIT
    res.bound = bnd
    # -- solution pool ------------------------------------------------------
    pool = list(reversed(have))
    cap = int(P["PoolSolutions"])
    if ismip and res.status == GRB.OPTIMAL and P["PoolSearchMode"] == 2 and \
            cap > 1:
        pool = _n_best(p, x, cap)
    elif ismip and ch is not None and res.status == GRB.OPTIMAL and \
            cap > 1 and pol.get("pool", True):
        for _ in range(ch.choose("pool_extra", 3)):
            y = _feasible_point(p, rng, ch, opt)
            if y is not None and _better(p, opt, p.objective(y)):
                pool.append(y)
        head, tail = pool[:1], pool[1:]
        tail.sort(key=lambda y: p.sign * p.objective(y))
        pool = head + tail
    pool = pool[:max(1, cap)]
    if not ismip:
        pool = pool[:1]
    out = []
    amp = 0.
    if ch is not None and pol.get("noise") and ch.flip("noise", pol["noise"]):
        amp = [1e-9, 1e-8, 1e-7][ch.choose("noise_amp", 3)]
        hooks.note("fault:solver-tolerance-noise")
    for y in pool:
        o = p.objective(y)
        if amp:
            y = _noise(p, y, rng, amp)
        out.append((y, o))
    res.pool = out
    res.nodes = max(1, nodes)
    res.runtime = 0.01 * res.nodes
    rec["status"] = res.status
    rec["pool"] = len(out)
    if hooks.on_solve is not None:
        hooks.on_solve(model, res, p, opt)


def _n_best(p, x, cap):
    """The cap best solutions that differ in the integer variables."""
    ints = [
        int(j) for j in np.nonzero(p.isint)[0] if p.lb[j] < p.ub[j] - 1e-9
    ]
    pool = [x]
    cuts = []
    while len(pool) < cap and ints:
        last = pool[-1]
        coef = np.zeros(p.n)
        ones = 0
        for j in ints:
            if last[j] > 0.5:
                coef[j] = -1.
                ones += 1
            else:
                coef[j] = 1.
        cuts.append((coef, 1. - ones, _INF))
        s, y, _ = p.solve(extra=cuts)
        if s != "optimal":
            break
        fix = {
            int(j): float(round(y[j]))
            for j in np.nonzero(p.isint)[0]
        }
        s, z, _ = p.solve(fix=fix)
        if s == "optimal":
            for j, v in fix.items():
                z[j] = v
            y = z
        pool.append(y)
    return pool
