"""setup_cmd: imports the simulator and the code under test; nothing to build.

Exits non-zero when the interpreter or a library the simulator needs is absent.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run as cli  # noqa


def main():
    cli.reexec(os.path.abspath(__file__))
    sys.path.insert(0, cli.VERIF)
    import gurobipy
    assert "sim" in gurobipy.__file__, gurobipy.__file__
    m = gurobipy.Model()
    x = m.addVar(lb=0., ub=1., vtype=gurobipy.GRB.BINARY)
    y = m.addVar(lb=-1., ub=1.)
    m.addConstr(y <= x)
    m.setObjective(y - 0.5 * x, gurobipy.GRB.MAXIMIZE)
    m.optimize()
    assert m.status == gurobipy.GRB.Status.OPTIMAL
    assert abs(m.ObjVal - 0.5) < 1e-9
    print("simulator ready")
    return 0


if __name__ == "__main__":
    sys.exit(main())
