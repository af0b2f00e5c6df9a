"""Simulated ``gurobipy``: the MIP solver behind the library, under a scheduler.

The library talks to the commercial Gurobi solver through this module's API.
The real solver is closed, licensed and not installable offline; it is also the
library's main source of nondeterminism (which optimal vertex, which solution
pool, when the callback fires, when a limit hits).  This package implements the
part of the API a client can use, on top of the HiGHS LP/MIP/QP solver, and
asks ``hooks.chooser`` for every decision the real solver is free to make.
Without a chooser it is a plain, deterministic, well-behaved solver.

Every behaviour produced here is one the Gurobi reference manual allows.
"""
import math

import numpy as np

from . import hooks  # noqa: F401
from . import _engine as _eng
from ._const import GRB, _PARAM_DEFAULTS, _PARAM_CANON  # noqa: F401


class GurobiError(Exception):
    def __init__(self, errno=None, message=None):
        if message is None:
            errno, message = None, errno
        self.errno = errno
        self.message = message
        super().__init__(message)


def _scalar(v):
    """float of a python/numpy/torch scalar."""
    if isinstance(v, (int, float)):
        return float(v)
    if hasattr(v, "detach"):
        v = v.detach()
    if hasattr(v, "item"):
        return float(v.item())
    if isinstance(v, np.ndarray) and v.size == 1:
        return float(v.reshape(()))
    return float(v)


def _array(v):
    if hasattr(v, "detach"):
        v = v.detach().cpu().numpy()
    if hasattr(v, "toarray"):
        v = v.toarray()
    if isinstance(v, (list, tuple)):
        return np.array([_scalar(c) for c in v], dtype=float)
    return np.asarray(v, dtype=float)


def _is_num(v):
    if isinstance(v, (Var, LinExpr, QuadExpr, MVar, TempConstr)):
        return False
    if isinstance(v, (int, float, np.generic)):
        return True
    if hasattr(v, "item") and hasattr(v, "shape"):
        return int(np.prod(v.shape)) == 1
    return False


class tupledict(dict):
    def values_list(self):
        return list(self.values())

    def select(self, *pattern):
        if not pattern:
            return list(self.values())
        out = []
        for k, v in self.items():
            kk = k if isinstance(k, tuple) else (k, )
            if all(p == "*" or p == q for p, q in zip(pattern, kk)):
                out.append(v)
        return out

    def sum(self, *pattern):
        return quicksum(self.select(*pattern))

    def prod(self, coeff):
        return quicksum(coeff[k] * v for k, v in self.items() if k in coeff)


class tuplelist(list):
    pass


def quicksum(it):
    e = LinExpr()
    for t in it:
        e = e + t
    return e


class TempConstr:
    """lhs (sense) 0 with lhs an expression."""
    def __init__(self, expr, sense, same=None):
        self._expr = expr
        self._sense = sense
        self._same = same

    def __bool__(self):
        if self._same is not None:
            return self._same
        raise GurobiError("Constraint has no bool value")


def _as_expr(o):
    if isinstance(o, (LinExpr, QuadExpr)):
        return o
    if isinstance(o, Var):
        return LinExpr(1., o)
    if _is_num(o):
        return LinExpr(_scalar(o))
    raise GurobiError(f"Unsupported type {type(o)} for LinExpr argument")


class _ExprOps:
    def __add__(self, o):
        if isinstance(o, (MVar, )):
            return NotImplemented
        a, b = _as_expr(self), _as_expr(o)
        if isinstance(a, QuadExpr) or isinstance(b, QuadExpr):
            r = QuadExpr()
            r._acc(a, 1.)
            r._acc(b, 1.)
            return r
        r = LinExpr()
        r._acc(a, 1.)
        r._acc(b, 1.)
        return r

    __radd__ = __add__

    def __neg__(self):
        return self * -1.

    def __sub__(self, o):
        return self + (_as_expr(o) * -1.)

    def __rsub__(self, o):
        return (self * -1.) + o

    def __mul__(self, o):
        if _is_num(o):
            a = _as_expr(self)
            r = QuadExpr() if isinstance(a, QuadExpr) else LinExpr()
            r._acc(a, _scalar(o))
            return r
        a, b = _as_expr(self), _as_expr(o)
        if isinstance(a, QuadExpr) or isinstance(b, QuadExpr):
            raise GurobiError("Invalid argument to multiplication")
        r = QuadExpr()
        r._lin._const = a._const * b._const
        for v, c in a._terms.items():
            r._lin._terms[v] = r._lin._terms.get(v, 0.) + c * b._const
        for v, c in b._terms.items():
            r._lin._terms[v] = r._lin._terms.get(v, 0.) + c * a._const
        for v, c in a._terms.items():
            for w, d in b._terms.items():
                k = (v, w) if v._id <= w._id else (w, v)
                r._quad[k] = r._quad.get(k, 0.) + c * d
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1. / _scalar(o))

    def __pow__(self, k):
        if k == 2:
            return self * self
        raise GurobiError("only squares are supported")

    def __le__(self, o):
        return TempConstr(_as_expr(self) - o, GRB.LESS_EQUAL)

    def __ge__(self, o):
        return TempConstr(_as_expr(self) - o, GRB.GREATER_EQUAL)

    def __eq__(self, o):
        if isinstance(self, Var) and isinstance(o, Var):
            return TempConstr(_as_expr(self) - o, GRB.EQUAL, self is o)
        if not isinstance(o, (Var, LinExpr, QuadExpr)) and not _is_num(o):
            return NotImplemented
        return TempConstr(_as_expr(self) - o, GRB.EQUAL)

    __hash__ = object.__hash__


def _attr_key(name):
    return name.lower()


class Var(_ExprOps):
    _counter = 0

    def __init__(self, model, lb, ub, obj, vtype, name):
        Var._counter += 1
        d = self.__dict__
        d["_id"] = Var._counter
        d["_model"] = model
        d["_col"] = -1
        d["_lb"], d["_ub"] = lb, ub
        d["_vtype"] = vtype
        d["_name"] = name
        d["_start"] = GRB.UNDEFINED
        d["_obj"] = obj
        d["_pending"] = {}

    def __hash__(self):
        return self._id

    def __getattr__(self, name):
        k = name.lower()
        if name.startswith("__"):
            raise AttributeError(name)
        if k == "index":
            return self._col
        if k in ("lb", "ub", "vtype", "obj", "varname", "start"):
            if k == "start":
                return self._start
            if self._col < 0:
                raise AttributeError("Unable to retrieve attribute "
                                     f"'{name}': variable not in model")
            return self.__dict__["_" + ("name" if k == "varname" else k)]
        if k in ("x", "xn"):
            res = self._model._result
            if res is None or not res.pool:
                raise AttributeError(f"Unable to retrieve attribute '{name}'")
            if k == "x":
                return float(res.pool[0][0][self._col])
            n = self._model._params["SolutionNumber"]
            if n >= len(res.pool):
                raise AttributeError(f"Unable to retrieve attribute '{name}'")
            return float(res.pool[n][0][self._col])
        if k in ("rc", "vbasis"):
            res = self._model._result
            if res is None or res.reduced_cost is None:
                raise AttributeError(f"Unable to retrieve attribute '{name}'")
            return float(res.reduced_cost[self._col])
        raise AttributeError(f"'gurobipy.Var' object has no attribute '{name}'")

    def __setattr__(self, name, value):
        k = name.lower()
        if k in ("lb", "ub", "obj"):
            self._pending["_" + k] = _bound(_scalar(value))
        elif k == "vtype":
            self._pending["_vtype"] = value
        elif k == "varname":
            self._pending["_name"] = str(value)
        elif k == "start":
            self.__dict__["_start"] = _scalar(value)
            return
        elif k in ("branchpriority", "varhintval", "varhintpri", "tag"):
            return
        else:
            raise AttributeError(
                f"'gurobipy.Var' object has no attribute '{name}'")
        self._model._dirty_vars.append(self)

    def getAttr(self, name):
        return getattr(self, name)

    def setAttr(self, name, value):
        setattr(self, name, value)

    def sameAs(self, o):
        return self is o

    def __repr__(self):
        return f"<gurobi.Var {self._name}>"


def _bound(v):
    if math.isnan(v):
        raise GurobiError(10003, "NaN bound")
    # gurobipy treats everything beyond 1e20 as infinite and reports inf back
    if v >= 1e20:
        return math.inf
    if v <= -1e20:
        return -math.inf
    return v


class LinExpr(_ExprOps):
    def __init__(self, arg1=0., arg2=None):
        self._terms = {}
        self._const = 0.
        if arg2 is None:
            if isinstance(arg1, LinExpr):
                self._terms = dict(arg1._terms)
                self._const = arg1._const
            elif isinstance(arg1, Var):
                self._terms[arg1] = 1.
            elif _is_num(arg1):
                self._const = _scalar(arg1)
            elif isinstance(arg1, (list, tuple)):
                for c, v in arg1:
                    self._add(v, _scalar(c))
            else:
                raise GurobiError("Unsupported LinExpr argument")
        else:
            if isinstance(arg2, Var):
                self._add(arg2, _scalar(arg1))
            else:
                vs = list(arg2.values()) if isinstance(
                    arg2, dict) else list(arg2)
                cs = _array(arg1).reshape((-1, )) if not isinstance(
                    arg1, (int, float)) else np.array([float(arg1)])
                if len(cs) != len(vs):
                    raise GurobiError("LinExpr: coefficient and variable "
                                      "lists have different lengths")
                for c, v in zip(cs, vs):
                    self._add(v, float(c))

    def _add(self, v, c):
        if math.isnan(c):
            raise GurobiError(10003, "Element coefficient is Nan")
        if not isinstance(v, Var):
            raise GurobiError("Unsupported type in LinExpr")
        self._terms[v] = self._terms.get(v, 0.) + c

    def _acc(self, e, k):
        if isinstance(e, QuadExpr):
            raise GurobiError("quadratic term in a linear expression")
        for v, c in e._terms.items():
            self._terms[v] = self._terms.get(v, 0.) + k * c
        self._const += k * e._const

    def add(self, e, mult=1.):
        self._acc(_as_expr(e), mult)

    def addTerms(self, c, v):
        if isinstance(v, Var):
            self._add(v, _scalar(c))
        else:
            for ci, vi in zip(c, v):
                self._add(vi, _scalar(ci))

    def addConstant(self, c):
        self._const += _scalar(c)

    def __iadd__(self, o):
        o = _as_expr(o)
        if isinstance(o, QuadExpr):
            return _ExprOps.__add__(self, o)
        self._acc(o, 1.)
        return self

    def __isub__(self, o):
        o = _as_expr(o)
        if isinstance(o, QuadExpr):
            return _ExprOps.__sub__(self, o)
        self._acc(o, -1.)
        return self

    def copy(self):
        return LinExpr(self)

    def clear(self):
        self._terms, self._const = {}, 0.

    def size(self):
        return len(self._terms)

    def getVar(self, i):
        return list(self._terms)[i]

    def getCoeff(self, i):
        return list(self._terms.values())[i]

    def getConstant(self):
        return self._const

    def getValue(self):
        return self._const + sum(c * v.x for v, c in self._terms.items())


class QuadExpr(_ExprOps):
    def __init__(self, e=None):
        self._lin = LinExpr()
        self._quad = {}
        if e is not None:
            self._acc(_as_expr(e), 1.)

    @property
    def _terms(self):
        return self._lin._terms

    @property
    def _const(self):
        return self._lin._const

    def _acc(self, e, k):
        if isinstance(e, QuadExpr):
            for q, c in e._quad.items():
                self._quad[q] = self._quad.get(q, 0.) + k * c
            e = e._lin
        self._lin._acc(e, k)

    def add(self, e, mult=1.):
        self._acc(_as_expr(e), _scalar(mult))

    def __iadd__(self, o):
        self._acc(_as_expr(o), 1.)
        return self

    def copy(self):
        return QuadExpr(self)

    def getLinExpr(self):
        return self._lin

    def getValue(self):
        return self._lin.getValue() + sum(
            c * a.x * b.x for (a, b), c in self._quad.items())


class Constr:
    def __init__(self, model, expr, sense, rhs, name):
        self._model = model
        self._cols = None
        self._terms = {v: c for v, c in expr._terms.items()}
        self._sense = sense
        self._rhs = rhs - expr._const
        self._name = name
        self._row = -1
        self._removed = False

    def __getattr__(self, name):
        k = name.lower()
        if name.startswith("__"):
            raise AttributeError(name)
        if k == "rhs":
            return self.__dict__["_rhs"]
        if k == "sense":
            return self.__dict__["_sense"]
        if k == "constrname":
            return self.__dict__["_name"]
        if k == "index":
            return self.__dict__["_row"]
        if k in ("pi", "slack"):
            res = self._model._result
            if res is None or not res.pool:
                raise AttributeError(name)
            if k == "slack":
                return self._rhs - sum(c * v.x
                                       for v, c in self._terms.items())
            if res.dual is None:
                raise AttributeError(name)
            return float(res.dual[self._row])
        raise AttributeError(name)

    def __setattr__(self, name, value):
        if name.startswith("_"):
            self.__dict__[name] = value
        elif name.lower() == "rhs":
            self.__dict__["_rhs"] = _scalar(value)
        else:
            raise AttributeError(name)

    def getAttr(self, name):
        return getattr(self, name)


class MConstr(list):
    """matrix constraint handle (also accepted by Model.remove)."""
    def tolist(self):
        return list(self)


class MVar:
    def __init__(self, arr):
        self._arr = np.asarray(arr, dtype=object)

    @property
    def shape(self):
        return self._arr.shape

    @property
    def size(self):
        return self._arr.size

    def tolist(self):
        return self._arr.tolist()

    def __len__(self):
        return len(self._arr)

    def __getitem__(self, i):
        r = self._arr[i]
        return MVar(r) if isinstance(r, np.ndarray) else r

    def __iter__(self):
        return iter(self._arr.tolist())

    @property
    def x(self):
        return np.array([v.x for v in self._arr.ravel()
                         ]).reshape(self._arr.shape)

    X = x


def _var_list(x):
    if isinstance(x, MVar):
        return list(x._arr.ravel())
    if isinstance(x, dict):
        return list(x.values())
    if isinstance(x, Var):
        return [x]
    return list(x)


class Env:
    def __init__(self, *a, **k):
        pass

    def setParam(self, *a):
        pass

    def start(self):
        pass

    def dispose(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def setParam(name, value):
    pass


class Model:
    def __init__(self, name="", env=None):
        d = self.__dict__
        d["_name"] = name
        d["_vars"] = []
        d["_constrs"] = []
        d["_new_vars"] = []
        d["_new_constrs"] = []
        d["_del_constrs"] = []
        d["_dirty_vars"] = []
        d["_obj"] = LinExpr()
        d["_sense"] = GRB.MINIMIZE
        d["_new_obj"] = None
        d["_params"] = dict(_PARAM_DEFAULTS)
        d["_result"] = None
        d["_status"] = GRB.LOADED
        d["_cb"] = None
        d["_terminate"] = False
        d["_in_opt"] = False
        d["Params"] = _Params(self)
        d["params"] = d["Params"]
        hooks.note("model")

    # -- building ----------------------------------------------------------
    def addVar(self,
               lb=0.,
               ub=GRB.INFINITY,
               obj=0.,
               vtype=GRB.CONTINUOUS,
               name="",
               column=None):
        if vtype not in "BCISN":
            raise GurobiError(10003, "Unknown variable type")
        lb, ub = _bound(_scalar(lb)), _bound(_scalar(ub))
        if vtype == GRB.BINARY:
            lb, ub = max(lb, 0.), min(ub, 1.)
        v = Var(self, lb, ub, _scalar(obj), vtype, name)
        self._new_vars.append(v)
        return v

    def addVars(self,
                *indices,
                lb=0.,
                ub=GRB.INFINITY,
                obj=0.,
                vtype=GRB.CONTINUOUS,
                name=""):
        if len(indices) == 1 and not isinstance(indices[0], (int, np.integer)):
            keys = list(indices[0])
        elif len(indices) == 1:
            keys = list(range(int(indices[0])))
        else:
            import itertools
            keys = list(
                itertools.product(*[
                    range(int(i)) if isinstance(i, (int, np.integer)) else i
                    for i in indices
                ]))

        def pick(a, i, key):
            if isinstance(a, str):
                return a
            if isinstance(a, dict):
                return a[key]
            if isinstance(a, (list, tuple)):
                return a[i]
            if hasattr(a, "shape") and len(a.shape) > 0:
                return a.reshape((-1, ))[i]
            return a

        out = tupledict()
        for i, key in enumerate(keys):
            n = name if isinstance(name, str) else name[i]
            out[key] = self.addVar(pick(lb, i, key), pick(ub, i, key),
                                   pick(obj, i, key), pick(vtype, i, key),
                                   f"{n}[{key}]" if n else n)
        return out

    def addMVar(self,
                shape,
                lb=0.,
                ub=GRB.INFINITY,
                obj=0.,
                vtype=GRB.CONTINUOUS,
                name=""):
        if isinstance(shape, (int, np.integer)):
            shape = (int(shape), )
        n = int(np.prod(shape))
        vs = self.addVars(n, lb=lb, ub=ub, obj=obj, vtype=vtype, name=name)
        arr = np.empty((n, ), dtype=object)
        for i in range(n):
            arr[i] = vs[i]
        return MVar(arr.reshape(shape))

    def _push_constr(self, expr, sense, rhs, name):
        if isinstance(expr, QuadExpr):
            if expr._quad:
                raise GurobiError("quadratic constraints are not simulated")
            expr = expr._lin
        if math.isnan(rhs) or any(math.isnan(c) for c in expr._terms.values()):
            raise GurobiError(10003, "NaN in a constraint")
        for v in expr._terms:
            if v._model is not self:
                raise GurobiError(10005, "Variable not in model")
        c = Constr(self, expr, {"<=": "<", ">=": ">",
                                "==": "="}.get(sense, sense), rhs, name)
        self._new_constrs.append(c)
        return c

    def addLConstr(self, lhs, sense=None, rhs=None, name=""):
        if isinstance(lhs, TempConstr):
            return self._push_constr(lhs._expr, lhs._sense, 0.,
                                     name or (sense if isinstance(
                                         sense, str) and rhs is None else ""))
        lhs = _as_expr(lhs)
        if rhs is None:
            raise GurobiError("addLConstr: missing right-hand side")
        if not _is_num(rhs):
            e = lhs - _as_expr(rhs)
            return self._push_constr(e, sense, 0., name)
        return self._push_constr(lhs, sense, _scalar(rhs), name)

    def addConstr(self, lhs, sense=None, rhs=None, name=""):
        if isinstance(sense, str) and rhs is None and name == "":
            name, sense = sense, None
        return self.addLConstr(lhs, sense, rhs, name)

    def addConstrs(self, gen, name=""):
        out = tupledict()
        for i, c in enumerate(gen):
            out[i] = self.addConstr(c)
        return out

    def addMConstr(self, A, x, sense, b, name=""):
        vs = self._live_vars() if x is None else _var_list(x)
        A = _array(A)
        if A.ndim != 2 or A.shape[1] != len(vs):
            raise GurobiError("addMConstr: shape mismatch")
        b = _array(b).reshape((-1, ))
        if b.shape[0] == 1 and A.shape[0] > 1:
            b = np.repeat(b, A.shape[0])
        if b.shape[0] != A.shape[0]:
            raise GurobiError("addMConstr: shape mismatch")
        out = MConstr()
        for i in range(A.shape[0]):
            e = LinExpr()
            for j in np.nonzero(A[i])[0]:
                e._add(vs[j], float(A[i, j]))
            s = sense if isinstance(sense, str) else sense[i]
            out.append(self._push_constr(e, s, float(b[i]), f"{name}[{i}]"))
        return out

    def _live_vars(self):
        return self._vars + self._new_vars

    def setObjective(self, expr, sense=None):
        self.__dict__["_new_obj"] = (_as_expr(expr).copy(), sense)

    def setMObjective(self,
                      Q,
                      c,
                      constant,
                      xQ_L=None,
                      xQ_R=None,
                      xc=None,
                      sense=None):
        e = LinExpr(_scalar(constant))
        if c is not None:
            vs = self._live_vars() if xc is None else _var_list(xc)
            e = e + LinExpr(_array(c).tolist(), vs)
        if Q is not None:
            Q = _array(Q)
            left = self._live_vars() if xQ_L is None else _var_list(xQ_L)
            right = self._live_vars() if xQ_R is None else _var_list(xQ_R)
            q = QuadExpr(e)
            for i in range(Q.shape[0]):
                for j in range(Q.shape[1]):
                    if Q[i, j] != 0:
                        q.add(left[i] * right[j], float(Q[i, j]))
            e = q
        self.setObjective(e, sense)

    def getObjective(self, index=None):
        return self._obj.copy()

    def remove(self, items):
        if isinstance(items, dict):
            items = list(items.values())
        if not isinstance(items, (list, tuple)):
            items = [items]
        for c in items:
            if isinstance(c, (list, tuple)):
                self.remove(c)
            elif isinstance(c, Constr):
                self._del_constrs.append(c)
            elif isinstance(c, Var):
                raise GurobiError("removing variables is not simulated")
            else:
                raise GurobiError("Item to be removed not in model")

    def chgCoeff(self, constr, var, value):
        constr._terms[var] = _scalar(value)

    def update(self):
        for v in self._new_vars:
            v.__dict__["_col"] = len(self._vars)
            self._vars.append(v)
            if v._obj:
                self._set_obj_coeff(v, v._obj)
        self._new_vars.clear()
        for v in self._dirty_vars:
            if "_obj" in v._pending:
                self._set_obj_coeff(v, v._pending["_obj"])
            v.__dict__.update(v._pending)
            v._pending.clear()
            if v._vtype == GRB.BINARY:
                v.__dict__["_lb"] = max(v._lb, 0.)
                v.__dict__["_ub"] = min(v._ub, 1.)
        self._dirty_vars.clear()
        self._constrs.extend(self._new_constrs)
        self._new_constrs.clear()
        if self._del_constrs:
            dead = {id(c) for c in self._del_constrs}
            self.__dict__["_constrs"] = [
                c for c in self._constrs if id(c) not in dead
            ]
            self._del_constrs.clear()
        for i, c in enumerate(self._constrs):
            c.__dict__["_row"] = i
        if self._new_obj is not None:
            e, s = self._new_obj
            self.__dict__["_obj"] = e
            if s is not None:
                self.__dict__["_sense"] = s
            self.__dict__["_new_obj"] = None

    def _set_obj_coeff(self, v, c):
        lin = self._obj._lin if isinstance(self._obj, QuadExpr) else self._obj
        lin._terms[v] = c

    def getVars(self):
        return list(self._vars)

    def getConstrs(self):
        return list(self._constrs)

    def getVarByName(self, name):
        for v in self._vars:
            if v._name == name:
                return v
        return None

    def getConstrByName(self, name):
        for c in self._constrs:
            if c._name == name:
                return c
        return None

    def getRow(self, c):
        e = LinExpr()
        for v, k in c._terms.items():
            e._add(v, k)
        return e

    def getCoeff(self, c, v):
        return c._terms.get(v, 0.)

    def copy(self):
        self.update()
        m = Model(self._name)
        vm = {}
        for v in self._vars:
            vm[v] = m.addVar(v._lb, v._ub, v._obj, v._vtype, v._name)
            vm[v].__dict__["_start"] = v._start
        for c in self._constrs:
            e = LinExpr()
            for v, k in c._terms.items():
                e._add(vm[v], k)
            m._push_constr(e, c._sense, c._rhs, c._name)
        e = QuadExpr() if isinstance(self._obj, QuadExpr) else LinExpr()
        for v, k in self._obj._terms.items():
            e._terms[vm[v]] = k
        if isinstance(e, QuadExpr):
            e._lin._const = self._obj._const
            for (a, b), k in self._obj._quad.items():
                e._quad[(vm[a], vm[b])] = k
        else:
            e._const = self._obj._const
        m.setObjective(e, self._sense)
        m._params.update(self._params)
        m.update()
        return m

    def relax(self):
        m = self.copy()
        for v in m._vars:
            v.vtype = GRB.CONTINUOUS
        m.update()
        return m

    # -- params ------------------------------------------------------------
    def setParam(self, name, value):
        key = _PARAM_CANON.get(str(name).lower())
        if key is None:
            raise GurobiError(10007, f"Unknown parameter '{name}'")
        if value == "default":
            value = _PARAM_DEFAULTS[key]
        value = _scalar(value)
        d = _PARAM_DEFAULTS[key]
        if isinstance(d, int):
            value = int(value)
        if key == "SolutionNumber" and value < 0:
            raise GurobiError(10008, "SolutionNumber out of range")
        self._params[key] = value

    def getParamInfo(self, name):
        key = _PARAM_CANON.get(str(name).lower())
        if key is None:
            raise GurobiError(10007, f"Unknown parameter '{name}'")
        d = _PARAM_DEFAULTS[key]
        return (key, type(d), self._params[key], 0, GRB.INFINITY, d)

    def resetParams(self):
        self._params.update(_PARAM_DEFAULTS)

    def reset(self, clearall=0):
        self.__dict__["_result"] = None
        self.__dict__["_status"] = GRB.LOADED

    def dispose(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def write(self, *a):
        raise GurobiError("Model.write is not simulated")

    # -- solving -----------------------------------------------------------
    def optimize(self, callback=None):
        self.update()
        self.__dict__["_terminate"] = False
        self.__dict__["_result"] = None
        self.__dict__["_in_opt"] = True
        try:
            _eng.solve(self, callback)
        finally:
            self.__dict__["_in_opt"] = False
            self.__dict__["_cb"] = None
        self.__dict__["_status"] = self._result.status
        self._params["SolutionNumber"] = min(
            self._params["SolutionNumber"], max(0,
                                                len(self._result.pool) - 1)
        ) if hooks.reset_solution_number else self._params["SolutionNumber"]

    def computeIIS(self):
        raise GurobiError("computeIIS is not simulated")

    def terminate(self):
        self.__dict__["_terminate"] = True

    def cbGet(self, what):
        if self._cb is None:
            raise GurobiError(10011, "cbGet outside a callback")
        where, data = self._cb
        if what not in data:
            raise GurobiError(10010, f"cbGet({what}) not available at {where}")
        return data[what]

    def cbGetSolution(self, vars):
        where, data = self._cb
        x = data.get("_sol")
        if x is None:
            raise GurobiError(10011, "no solution at this callback")
        if isinstance(vars, Var):
            return float(x[vars._col])
        return [float(x[v._col]) for v in _var_list(vars)]

    cbGetNodeRel = cbGetSolution

    # -- attributes ----------------------------------------------------------
    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_"):
            raise AttributeError(name)
        return self._get(name)

    def getAttr(self, name, objs=None):
        if objs is not None:
            if isinstance(objs, dict):
                return tupledict((k, getattr(v, name))
                                 for k, v in objs.items())
            return [getattr(o, name) for o in _var_list(objs)]
        try:
            return self._get(name)
        except AttributeError as e:
            raise GurobiError(10005, str(e))

    def setAttr(self, name, value):
        setattr(self, name, value)

    def __setattr__(self, name, value):
        k = name.lower()
        if k == "modelsense":
            self.__dict__["_sense"] = int(value)
        elif k == "objcon":
            self._obj.addConstant(_scalar(value) - self._obj._const)
        elif name.startswith("_"):
            self.__dict__[name] = value
        elif k in ("modelname", "numstart", "startnumber"):
            pass
        else:
            raise AttributeError(
                f"'gurobipy.Model' object has no attribute '{name}'")

    def _get(self, name):
        k = str(name).lower()
        res = self._result
        if k == "status":
            return self._status
        if k == "numvars":
            return len(self._vars)
        if k == "numconstrs":
            return len(self._constrs)
        if k == "numbinvars":
            return sum(
                1 for v in self._vars if v._vtype == GRB.BINARY or (
                    v._vtype == GRB.INTEGER and v._lb >= 0 and v._ub <= 1))
        if k == "numintvars":
            return sum(1 for v in self._vars
                       if v._vtype in (GRB.BINARY, GRB.INTEGER))
        if k == "numnzs":
            return sum(len(c._terms) for c in self._constrs)
        if k == "modelsense":
            return self._sense
        if k == "ismip":
            return int(any(v._vtype != GRB.CONTINUOUS for v in self._vars))
        if k == "isqp":
            return int(isinstance(self._obj, QuadExpr))
        if k == "modelname":
            return self._name
        if res is None:
            if k == "solcount":
                return 0
            raise AttributeError(f"Unable to retrieve attribute '{name}'")
        if k == "solcount":
            return len(res.pool)
        if k == "objval":
            if not res.pool:
                raise AttributeError(f"Unable to retrieve attribute '{name}'")
            return float(res.pool[0][1])
        if k in ("objbound", "objboundc", "poolobjbound"):
            if res.bound is None:
                raise AttributeError(f"Unable to retrieve attribute '{name}'")
            return float(res.bound)
        if k == "poolobjval":
            n = self._params["SolutionNumber"]
            if n >= len(res.pool):
                raise AttributeError(f"Unable to retrieve attribute '{name}'")
            return float(res.pool[n][1])
        if k == "mipgap":
            if not self._get("ismip"):
                raise AttributeError(f"Unable to retrieve attribute '{name}'")
            if not res.pool:
                return GRB.INFINITY
            v, b = res.pool[0][1], res.bound
            if v == b:
                return 0.
            return abs(b - v) / abs(v) if v != 0 else GRB.INFINITY
        if k == "runtime":
            return float(res.runtime)
        if k == "work":
            return float(res.runtime)
        if k == "nodecount":
            return float(res.nodes)
        if k in ("itercount", "baritercount"):
            return 0.
        raise AttributeError(
            f"'gurobipy.Model' object has no attribute '{name}'")


class _Params:
    def __init__(self, model):
        self.__dict__["_m"] = model

    def __getattr__(self, name):
        key = _PARAM_CANON.get(name.lower())
        if key is None:
            raise AttributeError(name)
        return self._m._params[key]

    def __setattr__(self, name, value):
        self._m.setParam(name, value)


gurobi = None


class gurobipy_version:
    pass
