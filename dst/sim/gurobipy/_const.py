"""GRB constants (values from the Gurobi reference manual)."""


class _NS:
    pass


_PARAM_DEFAULTS = {
    "OutputFlag": 1, "LogToConsole": 1, "DualReductions": 1,
    "SolutionLimit": 2000000000, "SolutionNumber": 0, "PoolSearchMode": 0,
    "PoolSolutions": 10, "PoolGap": 1e100, "PoolGapAbs": 1e100,
    "TimeLimit": 1e100, "NodeLimit": 1e100, "WorkLimit": 1e100,
    "IterationLimit": 1e100, "BestObjStop": 1e100, "BestBdStop": 1e100,
    "MIPGap": 1e-4, "MIPGapAbs": 1e-10, "Threads": 0, "Presolve": -1,
    "MIPFocus": 0, "Seed": 0, "Method": -1, "Heuristics": 0.05, "Cuts": -1,
    "FeasibilityTol": 1e-6, "IntFeasTol": 1e-5, "OptimalityTol": 1e-6,
    "NumericFocus": 0, "NonConvex": -1, "InfUnbdInfo": 0, "Cutoff": 1e100,
    "ImproveStartTime": 1e100, "VarBranch": -1, "Symmetry": -1, "Aggregate": 1,
    "BarConvTol": 1e-8, "Crossover": -1, "ConcurrentMIP": 1, "RINS": -1,
    "MIRCuts": -1, "CliqueCuts": -1, "BranchDir": 0, "DisplayInterval": 5,
    "LazyConstraints": 0, "PreCrush": 0, "ScaleFlag": -1, "Quad": -1,
    "StartNodeLimit": -1, "StartNumber": 0, "SoftMemLimit": 1e100,
    "PreSparsify": -1, "PrePasses": -1, "NoRelHeurTime": 0.0,
    "QCPDual": 0, "LogFile": "", "BarQCPConvTol": 1e-6, "BarIterLimit": 1000,
    "IntegralityFocus": 0, "ObjScale": 0.0, "MarkowitzTol": 0.0078125,
}
_PARAM_CANON = {k.lower(): k for k in _PARAM_DEFAULTS}


class GRB:
    INFINITY = 1e100
    UNDEFINED = 1e101
    MAXINT = 2000000000
    MINIMIZE = 1
    MAXIMIZE = -1
    BINARY = "B"
    CONTINUOUS = "C"
    INTEGER = "I"
    SEMICONT = "S"
    SEMIINT = "N"
    LESS_EQUAL = "<"
    GREATER_EQUAL = ">"
    EQUAL = "="
    LOADED = 1
    OPTIMAL = 2
    INFEASIBLE = 3
    INF_OR_UNBD = 4
    UNBOUNDED = 5
    CUTOFF = 6
    ITERATION_LIMIT = 7
    NODE_LIMIT = 8
    TIME_LIMIT = 9
    SOLUTION_LIMIT = 10
    INTERRUPTED = 11
    NUMERIC = 12
    SUBOPTIMAL = 13
    INPROGRESS = 14
    USER_OBJ_LIMIT = 15
    WORK_LIMIT = 16
    MEM_LIMIT = 17

    class Status(_NS):
        pass

    class Param(_NS):
        pass

    class Attr(_NS):
        pass

    class Callback(_NS):
        POLLING = 0
        PRESOLVE = 1
        SIMPLEX = 2
        MIP = 3
        MIPSOL = 4
        MIPNODE = 5
        MESSAGE = 6
        BARRIER = 7
        RUNTIME = 6001
        MSG_STRING = 6002
        WORK = 6004
        MIP_OBJBST = 3000
        MIP_OBJBND = 3001
        MIP_NODCNT = 3002
        MIP_SOLCNT = 3003
        MIP_CUTCNT = 3004
        MIP_NODLFT = 3005
        MIP_ITRCNT = 3006
        MIP_OBJBNDC = 3007
        MIPSOL_SOL = 4001
        MIPSOL_OBJ = 4002
        MIPSOL_OBJBST = 4003
        MIPSOL_OBJBND = 4004
        MIPSOL_NODCNT = 4005
        MIPSOL_SOLCNT = 4006
        MIPNODE_STATUS = 5001
        MIPNODE_REL = 5002
        MIPNODE_OBJBST = 5003
        MIPNODE_OBJBND = 5004
        MIPNODE_NODCNT = 5005
        MIPNODE_SOLCNT = 5006
        SPX_ITRCNT = 2000
        SPX_OBJVAL = 2001
        PRE_COLDEL = 1000
        PRE_ROWDEL = 1001

    class Error(_NS):
        OUT_OF_MEMORY = 10001
        NULL_ARGUMENT = 10002
        INVALID_ARGUMENT = 10003
        UNKNOWN_ATTRIBUTE = 10004
        DATA_NOT_AVAILABLE = 10005
        NO_LICENSE = 10009
        NUMERIC = 10011
        OPTIMIZATION_IN_PROGRESS = 10017


for _n in ("LOADED OPTIMAL INFEASIBLE INF_OR_UNBD UNBOUNDED CUTOFF "
           "ITERATION_LIMIT NODE_LIMIT TIME_LIMIT SOLUTION_LIMIT INTERRUPTED "
           "NUMERIC SUBOPTIMAL INPROGRESS USER_OBJ_LIMIT WORK_LIMIT "
           "MEM_LIMIT").split():
    setattr(GRB.Status, _n, getattr(GRB, _n))
for _n in _PARAM_DEFAULTS:
    setattr(GRB.Param, _n, _n)
for _n in ("LB UB Obj VType VarName X Xn RC Start RHS Sense ConstrName Pi "
           "Slack ModelSense ModelName Status ObjVal ObjBound ObjBoundC "
           "PoolObjVal PoolObjBound SolCount MIPGap NodeCount IterCount "
           "Runtime NumVars NumConstrs NumBinVars NumIntVars NumNZs IsMIP "
           "IsQP ObjCon Work BarIterCount").split():
    setattr(GRB.Attr, _n, _n)
    if not hasattr(GRB, "attr"):
        GRB.attr = GRB.Attr
GRB.param = GRB.Param
GRB.status = GRB.Status
GRB.callback = GRB.Callback
