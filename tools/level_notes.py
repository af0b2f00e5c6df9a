NOTE["C13"] = (
    "Seeded exploration of step histories against a loss service that may "
    "answer anything or fail at any call, with checkpoint/crash/restore "
    "between steps; every closure call is compared with a reference model of "
    "the documented rule. Not exhaustive; trusts the model and torch's "
    "autograd.")
NOTE["C14"] = (
    "Seeded exploration of interleavings of several generators and foreign "
    "physics connections; every sample is compared with an independent "
    "simulation in its own connection. Trusts that pybullet is deterministic; "
    "contact worlds use a tolerance measured in the run.")
NOTE["C02"] = (
    "Seeded exploration of systems, candidates, bound-propagation methods, "
    "warm starts and optimal vertices; each optimum is compared with an "
    "independent cell-by-cell search (an exact lower bound, and the reported "
    "maximiser is re-evaluated directly, an exact upper bound). Trusts HiGHS "
    "behind the simulated solver up to 1e-6.")
NOTE["C01"] = (
    "Seeded exploration of whole training sessions against a solver that may "
    "stop early, be terminated by callback, or answer any optimum; every "
    "success (and every returned objective) is confronted with an independent "
    "search for a violating state. A false success is found only if that "
    "search finds a violating state (small dimensions, so it nearly always "
    "does).")
NOTE["C05"] = (
    "Seeded exploration of verifier calls and training histories; the pools "
    "are followed by a reference model that reads the simulated solver's own "
    "solution pool, and every counterexample and successor is re-evaluated "
    "directly.")
NOTE["C06"] = (
    "Seeded exploration of verify-and-descend histories and sample sessions "
    "(batch orders, divergent learning rates, all R parametrisations); the "
    "iterates are recorded at every optimizer step and the losses recomputed "
    "independently. Descents whose parameters overflow are not judged.")
NOTE["C03"] = (
    "Seeded exploration of barrier candidates, regions (boxes, half-spaces, "
    "slices, boundaries, unions) and verify-and-step rounds with a solver "
    "that fills its pool freely or stops early; each reported value is "
    "compared with an independent cell-by-cell search and direct evaluation.")
NOTE["C10"] = (
    "Seeded exploration of programs built through the public API as functions "
    "of one parameter, of optimal vertices, pools, early stops and round-off; "
    "value and gradient are compared with an independent enumeration of the "
    "binaries and its finite differences. Trusts HiGHS and Clarabel up to "
    "1e-6; gradients are judged only where the derivative exists.")
NOTE["C09"] = (
    "Seeded exploration of systems, candidates, larger boxes and solver "
    "behaviours (early stops on either program); the level is compared with "
    "an independent search over every exit face and every face of the box.")
NOTE["C04"] = (
    "Seeded exploration of networks, closed loops, gradient products, affine "
    "maps over polytopes and control-affine models, with solvers that stop "
    "early at any one or many of the auxiliary solves; every bound is "
    "compared with sampled values and with the exact extremes of the affine "
    "cells hit. A bound that excludes a value no sample or cell reaches would "
    "be missed.")
NOTE["C11"] = (
    "Seeded exploration of neurons, networks and whole derivative programs, "
    "strengthened at whatever relaxation vertices the simulated solver "
    "reports and with binaries tied by auxiliary solves that may stop early; "
    "optimum and sampled states are compared with the unstrengthened program "
    "and with an independent search. Tied programs are compared by their "
    "optimum only.")
NOTE["C07"] = (
    "Seeded exploration of histories of saves (single models, training "
    "sessions that save, learner checkpoints) on a simulated disk with a "
    "crash, power loss, I/O error, full disk or short write at any operation; "
    "the surviving checkpoint is loaded and compared. Renames are taken as "
    "atomic and ordered; a trainer's three files are judged one by one.")
NOTE["C08"] = (
    "Seeded exploration of dynamics-learning sessions (plain and image "
    "states) with a keyboard interrupt at any executed line; optimizer steps, "
    "batches, logged scalars and checkpoints are followed from outside and "
    "every logged loss is recomputed. Interrupts land between two lines of "
    "Python, not inside a line.")
NOTE["C12"] = (
    "Seeded exploration of sessions of every training loop, run twice or more "
    "from one tape of choices with and without observers, under jumping "
    "clocks, after unrelated sessions and interleaved with another one; "
    "parameters after every step, verdicts and pools must agree bit for bit. "
    "Interleaved sessions own their random state.")
NOTE["C15"] = (
    "Seeded exploration of histories of losses, adversarial searches, epochs, "
    "rollouts and parameter changes (plain and image states) against a solver "
    "that answers any optimum, stops early or is terminated by callback; worst "
    "violations are searched for independently. Gradients are judged by "
    "differences only where the program is not degenerate.")
NOTE["C16"] = (
    "Seeded exploration of label generations on piecewise-affine systems that "
    "change between calls, with costs and pruners that fail or hand out shared "
    "tensors and integrators that give up; discrete trajectories are compared "
    "exactly, continuous ones with a tighter independent integration, except "
    "those that graze the domain's edge.")
NOTE["C17"] = (
    "Seeded exploration of supervised sessions (batch orders, sizes, failing "
    "models, data sets and label functions); what every step saw is recorded "
    "from outside, gradients and reported losses are recomputed. Printed "
    "losses are compared to printing precision.")

NOTE["C20"] = (
    "Seeded exploration of whole training sessions; at every step the loss, "
    "its parts and gradient and the optimizer's update are recomputed from "
    "the documented formulas for the live parameters. Gradients of "
    "verification optima are compared with finite differences, or at "
    "degenerate vertices with a recomputation, and not judged for "
    "strengthened programs.")

NOTE["C21"] = (
    "Seeded exploration, one encoding at a time: programs driven in random "
    "directions under a simulated solver (any optimal vertex, early stops with "
    "incumbents) and with inputs fixed at corners, kinks and interior points; "
    "every solution is compared with the function and every sampled point of "
    "the graph must be admitted. Sampled points, up to the solver's "
    "feasibility tolerance.")
NOTE["C22"] = (
    "Seeded exploration of robots, gaits and stepping stones, with the "
    "integrator behind a seam (steps, method, failure in the middle); every "
    "event, state and gradient is compared with a second model in Cartesian "
    "coordinates and its differences. Grazing contacts and springs that let "
    "the leg collapse are not judged.")

NOTE["C23"] = (
    "Seeded exploration of simulations (integrator and random numbers behind "
    "seams: give-ups, extreme values), samplings and histories of parameter "
    "updates, each compared with an independent computation. That every face "
    "of a box is sampled is checked on sets large enough that a chance miss "
    "has probability below 1e-7.")

NOTE["C24"] = (
    "Seeded exploration of planner histories with the trajectory optimiser "
    "and the disk behind seams; every node, path, cost, table entry and "
    "training row is recomputed. Optimality of a path is not judged: the "
    "optimiser is local.")
