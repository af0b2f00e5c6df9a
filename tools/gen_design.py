"""Writes DESIGN.md from properties.jsonl, known_findings.json, seeded/ and the
texts here and in design_tail.md (its head, above the marker, is kept)."""
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed=json.load(open(R+'/known_findings.json'))["fixed"]
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
head=open(R+'/DESIGN.md').read().split("## Layout")[0] if "<!-- sections -->" not in open(R+'/DESIGN.md').read() else open(R+'/DESIGN.md').read().split("<!-- sections -->")[0]
D={}
D["C01"]=dict(
 gen="Whole sessions of `Trainer.train` and `train_adversarial` (1-5 iterations): closed loops of every kind (feedback with ReLU dynamics, hybrid linear systems, continuous and discrete), random candidates (a share of them genuinely valid, so that success is reached), every convergence condition, weight pattern and bound-propagation method. The solver may stop early at any program with or without an incumbent, be ended by the termination callback, report SUBOPTIMAL, or answer any optimum.",
 oracle="After every claimed success the live parameters are frozen and an independent search looks for a state of the box that violates positivity or decrease: all affine cells of the composed functions are enumerated and a linear program is solved per cell (scipy/HiGHS), plus direct samples. A claimed value is compared with the cell optimum as well.",
 reach="A test trains once with one solver answer; the false claims found here need one particular program of one iteration to stop early.",
 cost="450 runs, 60-80 s quick")
D["C02"]=dict(
 gen="One closed loop, candidate, R and condition per run; program built by the public API under each bound-propagation method (whose auxiliary solves are environment calls too) and solved with any optimal vertex and warm start. Discrete hybrid, feedback, continuous hybrid and control-affine systems.",
 oracle="Two-sided: the optimum must be at least the independent cell-by-cell maximum, and the condition evaluated directly (numpy semantics, successors for all modes a state lies in) at the reported maximiser must reproduce it.",
 reach="An error in one row of an encoding changes the optimum only for particular networks and boxes.",
 cost="400 runs, about 60 s")
D["C03"]=dict(
 gen="Barrier candidates with safe/unsafe regions given as boxes, half-spaces, slices, box boundaries and unions, verified and stepped for one to three rounds; pools, early stops, ties.",
 oracle="Cell-by-cell search of each region for the largest violation; every pool state re-evaluated; no-violation answers must be proofs.",
 reach="Rounds matter: bounds computed in one round must not be used in the next.",
 cost="450 runs, about 70 s")
D["C04"]=dict(
 gen="Networks (ReLU, leaky, any slope, degenerate boxes), closed loops, gradient-vector products, affine maps over polytopes, control-affine models; all four propagation methods with auxiliary solves that stop early.",
 oracle="Dense samples of the box and the exact extremes of the affine cells they hit; no reached value may lie outside a returned bound.",
 reach="A bound that is wrong only when one of hundreds of auxiliary solves is cut short is invisible to any test with a healthy solver.",
 cost="1500 runs, about 45 s")
D["C05"]=dict(
 gen="Single verifier calls and whole histories; solver pools of any size and quality.",
 oracle="A small reference model of the pools (append, cluster, cut to the maximum, keep order) that reads the simulated solver's own solution pool; every counterexample and successor re-evaluated directly.",
 reach="Needs several rounds with overflowing pools and suboptimal members.",
 cost="500 runs, about 80 s")
D["C06"]=dict(
 gen="Verify-and-descend histories and `train_lyapunov_on_samples` with divergent learning rates, every R parametrisation, every optimizer and batch order.",
 oracle="torch's global optimizer hook records each iterate; the whole-pool losses are recomputed independently, and the parameters left behind must be those of the best visited evaluation point.",
 reach="The final state depends on the whole history of iterates, and on R being restored together with the networks.",
 cost="700 runs, about 60 s")
D["C07"]=dict(
 gen="Histories of saves (single models, trainer with periodic saves, learner checkpoints) on a simulated disk. At any operation: process crash, power loss (unsynced data lost), ENOSPC, EIO, short write, failing rename.",
 oracle="After the fault the file under its original name is loaded by the library's own loader and must equal the previous or the new checkpoint, never something else; without a fault it must equal the new one.",
 reach="Crash points cannot be sampled by tests at all.",
 cost="900 runs, about 70 s")
D["C08"]=dict(
 gen="Dynamics-learning sessions with KeyboardInterrupt at any executed line of /repo (also inside save or optimizer step).",
 oracle="Optimizer steps, batches and scalars are followed from outside; every logged value is recomputed; the checkpoint left must load and equal the live model at that instant.",
 reach="An interrupt at one of thousands of lines.",
 cost="700 runs, about 50 s")
D["C09"]=dict(
 gen="Closed loop, candidate, larger box and upper bound; early stops on either program.",
 oracle="Independent search over every exit face and every face of the box for a state below the reported level which leaves.",
 reach="Exits through two faces at once, and solves that stop before proof.",
 cost="450 runs, about 50 s")
D["C10"]=dict(
 gen="Programs generated through the public API as functions of one parameter t (every coefficient base + t*direction): MILP, MIQP, concatenated pieces, real verification programs; any vertex, pool rank, early stop, noise.",
 oracle="Enumeration of the binaries with an independent LP/QP for each, and its finite differences (gradient judged only where the derivative exists and the vertex is not degenerate).",
 reach="A wrong sign in one multiplier block matters only when that kind of row is active.",
 cost="1500 runs, about 60 s")
D["C11"]=dict(
 gen="Neurons, networks and derivative programs strengthened at whatever relaxation vertices the solver reports, binaries tied by auxiliary solves that may stop early.",
 oracle="Optimum and sampled states against the unstrengthened program and the independent search; every cut evaluated at all vertices of the neuron's box.",
 reach="Cuts depend on the relaxation vertex, ties on an auxiliary proof.",
 cost="700 runs, about 60 s")
D["C12"]=dict(
 gen="One session taken twice or more from a single tape of choices: plain; with observers (printing, wandb and tensorboard stubs, model saving, solver output, jumping clock); after unrelated sessions; interleaved with another session in one process. The solver's answer depends on the program's content only (KeyedSolver).",
 oracle="Bit-for-bit equality of parameters after every step, verdicts, pools.",
 reach="Compares whole executions; a test sees one.",
 cost="280 runs, about 70 s")
D["C13"]=dict(
 gen="LineSearchGD / LineSearchAdam driven step by step by a loss service (smooth, noisy, flat, inf, NaN, failing at any call); parameter groups, checkpoint / crash / restore between steps.",
 oracle="Reference implementation of the documented rule, compared call by call and bit by bit.",
 reach="Failing closures and restores between steps.",
 cost="2600 runs, about 40 s")
D["C14"]=dict(
 gen="Seeded schedules of operations over 1-3 generators and foreign physics connections in one process (real pybullet).",
 oracle="Each sample is re-simulated in a connection of its own.",
 reach="Cross-talk needs two live connections in a particular order.",
 cost="900 runs, about 30 s")
D["C15"]=dict(
 gen="Histories of losses, adversarial searches, epochs, rollouts and parameter changes (plain and latent states).",
 oracle="Cell-by-cell search for the worst violation, formulas recomputed in numpy, differences of re-solved programs for gradients.",
 reach="Early stops and callbacks decide which value is presented as the worst.",
 cost="200 runs, about 35 s")
D["C16"]=dict(
 gen="Label generations on piecewise-affine systems that change between calls; costs and pruners that fail, hand out views or caches; integrators that give up.",
 oracle="An independent simulation (exact for discrete time, tighter tolerance for continuous).",
 reach="Aliasing and give-ups need a caller or an integrator that misbehaves at one call.",
 cost="2500 runs, about 40 s")
D["C17"]=dict(
 gen="Histories of supervised sessions: `train_model`, `train_approximator`, value approximator, affine model fits, on-samples descent, projected gradient.",
 oracle="Model and label functions record what each step saw; losses, gradients, updates recomputed.",
 reach="Order of batches, short last batches, failures half way.",
 cost="2500 runs, about 60 s")
D["C20"]=dict(
 gen="Whole training sessions; every step under every reduction, weight, margin, optimizer, R parametrisation.",
 oracle="The documented sum of hinge losses, verification optima and boundary gap, recomputed in an independent implementation for the live parameters; gradient compared by autograd of that second implementation and finite differences; optimizer update replayed in a shadow optimizer.",
 reach="What a step used is invisible in any returned value.",
 cost="1500 runs, about 60 s")
D["C21"]=dict(
 gen="One encoding at a time (13 families, see `dst/props/c21.py`), built through the public API with random parameters and a box in every position relative to the kinks; random linear objectives under any optimal vertex, early stop, interrupt; inputs fixed at corners, kinks, interior points; binaries BINARY, CONTINUOUS or BINARYRELAX.",
 oracle="The documented function itself: every solution must lie on the graph (value, binaries), every graph point must be admitted, relaxations must contain it. Enumerations of patterns and one-sided gradients against a product enumeration and gradients at nearby points; linear programs against a second solver.",
 reach="A test fixes a few inputs in one box; a missing row shows in one direction for one box.",
 cost="2500 runs, about 60 s")
D["C22"]=dict(
 gen="A robot (mass, leg, spring, gravity), a gait of one to four leg angles (forwards, backwards, vertical), an apex or rising initial state, one to four stepping stones. The scheduler decides the integrator's steps, method and whether it gives up in the middle of a phase.",
 oracle="A second model: a point mass with a massless springy leg in Cartesian coordinates, integrated to 1e-11, which says where each event happens; ballistic formulas in flight; energy; finite differences of the second model for every gradient, time and constraint of the linearised model.",
 reach="A test hops two steps of one robot; a fall, a descending lift-off, a missed stone or a failed integration needs a particular gait or fault, and then the next phase is what goes wrong.",
 cost="2500 runs, about 25 s")
D["C23"]=dict(
 gen="Plants under random saturated network controllers over several horizons, with an integrator that gives up and plants that raise; sampling under a `torch.rand` allowed its extreme values (0 and the largest number below 1); sequences of setting, reading, training and zeroing a network's parameters while the caller keeps every vector.",
 oracle="What the plant received is recorded and compared with the saturated controller; trajectories against tight integration; samples against the box; a reference copy of the parameter vector and of the function it defines; projections against an active-set enumeration; derivatives of closed-form functions.",
 reach="`torch.rand` returning exactly 0 happens once in 16 million draws, an aliased vector shows only after a later training step.",
 cost="2500 runs, about 20 s")
D["C24"]=dict(
 gen="Histories of an RRT* tree under a simulated pydrake (`dst/sim/pydrake`): each path program is solved by SLSQP, towards a poor local optimum, not at all, or raises; samples from seeded generators; saves on the simulated disk. Transition tables and training sets from drawn solver outcomes, value iteration on random graphs with dead ends.",
 oracle="The car's equations, arcs and costs written out again; the tree's invariants recomputed from parents and stored paths; cheapest neighbour and possible rewirings recomputed from the recorded path answers; shortest paths by an independent iteration.",
 reach="The repository's planner tests cannot run here (no pydrake); rewiring happens only when a sample lands between two nodes.",
 cost="1000 runs, about 60 s")
NAMES={p["id"]:p["title"] for p in props}
o=head.rstrip()+"\n\n<!-- sections -->\n\n"
o+="""## Method, common to all checks

* **Run**: build a random instance through the public API, let the scheduler
  drive it (operations, solver answers, faults, interrupts), check invariants at
  each observation point and the recorded history at the end.
* **Determinism**: `dst/core.py` forks one child per run, with its own PRNG,
  `PYTHONHASHSEED=0`, one torch and BLAS thread and default random states; runs
  share nothing, so the number of workers and their order do not matter.
  `tools/determinism.py` executes a sample of seeds of every property twice,
  with different numbers of workers and hash seeds, and compares digests of the
  choice log, events and outcome of every run.
* **Failure**: a run that violates is executed again from its recorded choices
  with every linear program given to HiGHS three times (HiGHS is wrong once in
  some thousand programs; a violation that disappears was the solver's and is
  counted, not reported).  The choice list is delta-debugged (0 = benign) and
  written to `replays/<property>_<index>.json`; `--replay` re-executes it in a
  fresh process.  An exception inside /repo frames is a violation unless a
  fault was injected that permits it; an exception in the harness is exit 2.
* **Real / stub**: real code = everything in /repo plus torch, numpy, scipy,
  cvxpy, pybullet, pickle.  Stubs = the solver service (HiGHS behind the
  gurobipy API), disk layer, clock, loggers.  Gurobi itself is not available, so
  the properties are about *any* solver that honours the API contract: OPTIMAL
  means optimal within tolerance, other statuses promise nothing more than a
  feasible incumbent and a valid bound.
* A HiGHS crash ends the child only; the run is discarded and counted.
* **Evidence**: `evidence/<id>.json` reports runs, seeds per hour, fault counts
  by kind, distinct cases (by the rule stated in each module), discarded runs,
  real and stubbed components.  Simulated time is meaningful only for C12 (the
  simulated clock) and C14 (physics time); elsewhere the measure is steps.

## Per property

"""
for p in props:
    i=p["id"]
    o+=f"### {i} {p['title']}\n\n"
    if i in D:
        d=D[i]
        o+=f"* generated: {d['gen']}\n* oracle: {d['oracle']}\n* beyond tests: {d['reach']}\n* cost: {d['cost']}; thorough runs until its budget or run count (see module) is used.\n\n"
    else:
        o+="Not applicable: pure functions of their inputs; no schedule, clock, I/O, solver answer or fault can change what they return, so there is nothing for a simulator to decide.\n\n"
o+="""## Genuine defects found and repaired

Each is one `fix:` commit in /repo, listed as `fixed:` in known_findings.json
(which suppresses nothing).

| property | commit | defect |
|---|---|---|
"""
for f in fixed:
    a=f.split(" ",3); o+=f"| {a[1].split('=')[1]} | {a[2]} | {a[3]} |\n"
tail=open(R+'/tools/design_tail.md').read()
import glob
tab="| planted bug | caught by | what it breaks |\n|---|---|---|\n"
for f in sorted(glob.glob(R+'/seeded/*/meta.json')):
    m=json.load(open(f)); tab+=f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) |\n"
o+=tail.replace("PLANTED_TABLE",tab)
open(R+'/DESIGN.md','w').write(o)
