"""Where the simulator plugs into the solver.

``chooser`` is ``None`` (a well-behaved deterministic solver) or an object with
  flip(label, p) -> bool,  choose(label, n) -> int,  real(label) -> [0,1)
and a ``policy`` mapping that says which solver freedoms/faults are enabled.
"""
chooser = None
policy = {}
# history of solves and faults of the current run (list of dicts), or None
history = None
reset_solution_number = False
solve_count = 0
note_counts = None
# ask HiGHS more than once (runs that look like violations are repeated so)
double_check = False
# a byte shared with the parent process: HiGHS is at work
in_solver = None
# called with (model, result) after each solve; for monitors
on_solve = None


def note(kind):
    if note_counts is not None:
        note_counts[kind] = note_counts.get(kind, 0) + 1


def reset():
    global chooser, policy, history, solve_count, note_counts, on_solve
    chooser = None
    policy = {}
    history = None
    solve_count = 0
    note_counts = None
    on_solve = None
