"""Writes /verif/properties.jsonl (kept as code so wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["neural_network_lyapunov/" + f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=obs or [], hook_needed=hook)))

p("C01", "Training reports convergence only with a proof",
  "When Lyapunov training (the plain loop or the counterexample-guided loop) reports that it converged, the function held by the trainer at that moment really satisfies the positivity and derivative conditions, up to the configured tolerances, on the whole verified region (the derivative condition wherever the successor stays in the region, which is what the derivative program ranges over). "
  "This holds whatever the MIP solver answered along the way: a time/node/solution limit, an interruption, a suboptimal or non-unique optimum, an early-termination callback, a reused warm start. "
  "If the final verification did not prove both conditions, training must not report success, and the objective values it returns are the ones of the last verification.",
  ["fault_sequences", "histories", "inputs", "configurations"],
  "every initial network, sample set, solver option setting and every sequence of admissible solver answers (optimal / limit / interrupted / suboptimal / any optimal solution / any pool order) over the training iterations",
  "The tests run one seed with one well-behaved licensed Gurobi (and need Gurobi, absent from the stable set); no test makes the solver stop early or return a non-proof, which is exactly when a false success can be reported.",
  ["train_lyapunov_barrier.py", "utils.py", "lyapunov.py"],
  [("convergence test on the two MIP objectives", "Trainer.train / Trainer.train_adversarial"),
   ("objective extraction after optimize()", "Trainer.solve_positivity_mip / solve_lyap_derivative_mip"),
   ("early termination callback", "utils.get_gurobi_terminate_if_callback")],
  [("positivity_mip_obj, derivative_mip_obj", "claimed worst violation of each condition", "LyapLoss")],
  ["return value of train()/train_adversarial()", "the networks held by the trainer at return"])

p("C02", "Lyapunov verification MIPs are exact",
  "For every supported piecewise-affine closed-loop system and Lyapunov candidate, the optimum of the positivity program is exactly max over the region of eps2*|R(x-x*)|_1 - V(x), the optimum of the derivative program is exactly the worst violation of the chosen decrease condition over the states of the region whose successor stays in the region, and the boundary-gap program is exactly max V - min V on the region's boundary; the returned maximiser lies in the region and attains the reported value when V and the dynamics are evaluated directly. "
  "No state of the region is missed and no spurious state is admitted, whichever bound-propagation method, warm start or admissible optimal solution the solver picks.",
  ["inputs", "configurations", "fault_sequences"],
  "all networks (depths, leaky slopes, biases, dead/always-active units), systems (autonomous, controlled, residual, second-order, hybrid, with input saturation, continuous or discrete time), regions, equilibria, R, lambda, eps and convergence types, and every admissible solver answer",
  "The tests compare a few hand-picked networks at a few samples and cannot run without Gurobi; an encoding that cuts off one linear region, or is loose for one activation pattern, passes sampled checks.",
  ["lyapunov.py", "continuous_time_lyapunov.py", "relu_to_optimization.py", "relu_system.py", "feedback_system.py", "hybrid_linear_system.py", "control_affine_system.py", "gurobi_torch_mip.py", "utils.py", "mip_utils.py"],
  [("ReLU big-M encoding", "relu_to_optimization.ReLUFreePattern.output_constraint"),
   ("1-norm / saturation / product encodings", "utils.absolute_value_as_mixed_integer_constraint, utils.saturation_as_mixed_integer_constraint, replace_relu_with_mixed_integer_constraint"),
   ("positivity and derivative programs", "LyapunovHybridLinearSystem.lyapunov_positivity_as_milp / lyapunov_derivative_as_milp")],
  obs=["optimal objective and maximiser of each program vs. direct evaluation"])

p("C03", "Barrier verification programs are exact and honest",
  "For every discrete-time barrier candidate, the value programs return exactly the extreme of h over each safe/unsafe region, and the derivative program returns exactly the worst violation of the barrier decrease condition over the domain, with states that lie in the region and attain the reported values. "
  "When the solver stops early, the reported values never claim less violation than really exists.",
  ["inputs", "configurations", "fault_sequences"],
  "all barrier networks, closed-loop systems, regions (boxes and unions cut by planes), offsets c, eps, pool sizes and solver answers including limits and no violating state at all",
  "Tests use one or two fixed networks and an always-optimal solver; none covers an empty adversarial set or an early stop.",
  ["barrier.py", "train_lyapunov_barrier.py", "relu_to_optimization.py", "gurobi_torch_mip.py"],
  [("barrier programs", "Barrier.value_as_milp, DiscreteTimeBarrier.derivative_as_milp"),
   ("result extraction", "Trainer.solve_barrier_value_mip / solve_barrier_derivative_mip / compute_barrier_loss")],
  obs=["mip objectives, adversarial states", "BarrierLoss fields"])

p("C04", "Propagated neuron and output bounds always contain the reachable values",
  "Whatever bound-propagation method is selected (interval arithmetic, LP, MIP, or the combination), the bounds computed for every hidden unit before and after activation, for the network output, for the controller and for the next state contain every value actually reachable from the input box, with lower <= upper. "
  "If the solver used to tighten a bound stops early or fails, the result is either still a valid bound or an error, never a bound that excludes a reachable value; the LP and MIP methods never give looser bounds than interval arithmetic when the solver behaves (the combined method stays within its documented one percent).",
  ["inputs", "configurations", "fault_sequences"],
  "all networks, input boxes (including degenerate ones), propagation methods, and any solver status on any of the many small tightening programs",
  "Tests check a fixed network against a grid with an ideal solver; a wrong bound shows only for particular weights and signs, and an early solver stop never occurs.",
  ["relu_to_optimization.py", "mip_utils.py", "relu_system.py", "feedback_system.py", "gurobi_torch_mip.py", "utils.py"],
  [("interval arithmetic", "mip_utils.propagate_bounds / ReLUFreePattern._compute_layer_bound"),
   ("LP/MIP tightening", "ReLUFreePattern._compute_network_output_bounds_by_lp / _by_mip, gurobi_torch_mip compute bounds")],
  obs=["pre/post activation bounds of every neuron", "u and x_next bounds"])

p("C05", "Counterexample sets are genuine, bounded and consistent",
  "Every counterexample handed from the verifier to training lies in the verified region, is really the state the solver reported for that pool position, (when only violating states are requested) has a positive violation by direct evaluation, and is paired with its own successor state; at most the requested number is returned, most violating first. "
  "The training pools only ever grow by these states, keep the most recent ones up to the configured size in order, and clustering keeps the most adversarial state and drops only states within the radius of their neighbour. "
  "Early termination, when asked for, stops the solver as soon as it explores a node with a solution above the requested threshold in hand, and never without one.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of verifier answers (pools of any size including empty, ties, suboptimal members) and every pool-size / cluster / perturbation configuration over many training iterations",
  "Tests look at a single verifier call; ordering, truncation and pairing over a history with varying pool sizes is never exercised.",
  ["train_lyapunov_barrier.py", "lyapunov.py", "hybrid_linear_system.py"],
  [("pool extraction", "Trainer.solve_positivity_mip / solve_lyap_derivative_mip"),
   ("pool bookkeeping", "Trainer.total_loss, Trainer.train_adversarial, _cluster_adversarial_states")],
  [("positivity/derivative_state_samples(_next)", "training pools", "Trainer.total_loss / train_adversarial")],
  ["returned adversarial tensors", "training pools at each iteration"])

p("C06", "Training on samples ends with the best parameters it visited",
  "When the trainer descends on a fixed set of samples, the parameters it leaves in place (Lyapunov network, controller network and R together) are those with the lowest loss recorded at the points it evaluates (the start point where that is evaluated, and the epoch ends), and they are the live parameters: later optimisation and verification use exactly them. "
  "No parameter group is left behind at a worse iterate, and a training session that never improves leaves the start parameters unchanged.",
  ["histories", "inputs", "schedules"],
  "every initial model, sample set, batch order, learning rate (including divergent ones), optimizer and R parametrisation over several rounds of verify-and-descend",
  "Tests only check that one call runs or reduces the loss; they never compare the final parameters with the recorded history or continue training afterwards.",
  ["train_lyapunov_barrier.py", "r_options.py"],
  [("snapshot/restore", "Trainer._get_current_training_params / _set_training_params / _batch_descent_on_samples"),
   ("best-network bookkeeping", "Trainer.train_lyapunov_on_samples")],
  [("best_training_params", "snapshot of the best iterate", "Trainer._batch_descent_on_samples")],
  ["loss recomputed from the live parameters", "R() before and after"])

p("C07", "A crash while saving never destroys the previous checkpoint",
  "Whenever the process crashes, the disk fills up or a write fails or is torn while a model, trainer network or learner checkpoint is being written, a loadable checkpoint remains under the original name: the complete new one or the complete previous one. "
  "After a save that returned, loading gives back exactly the saved parameters, bounds and settings.",
  ["crash_points", "fault_sequences", "inputs"],
  "every write, truncation, rename and close operation of every save as a crash or error point, over sequences of several saves of different models",
  "Tests save and load once on a healthy disk.",
  ["utils.py", "train_lyapunov_barrier.py", "dynamics_learning.py"],
  [("checkpoint writers", "utils.save_second_order_forward_model / save_controller_model / save_lyapunov_model, Trainer._save_network, DynamicsLearning.save")],
  obs=["files in the save directory after the fault", "result of loading them"])

p("C08", "An interrupted learning session still ends with a consistent saved learner",
  "When a dynamics-learning session is interrupted by the user at any instant of any epoch, it stops, runs the final save, and returns normally; the saved learner can be loaded, and its parameters, step counter and loss logs agree with each other and with the steps that completed. "
  "Without interruption the session performs exactly the requested epochs, sees every training sample exactly once per epoch, saves at the requested cadence, and logs validation losses as averages over the validation samples at the current step.",
  ["crash_points", "schedules", "configurations"],
  "every operation boundary as the interruption point, every epoch count, batch size, save rate, validation setting and data order, with logging back-ends that may fail to be present",
  "No test interrupts training, and none inspects logs against the history of steps.",
  ["dynamics_learning.py", "training_log.py"],
  [("training loop and interrupt handler", "DynamicsLearning.train"), ("logs", "TrainingLog")],
  [("n_iter / train_loss / validation_loss", "step counter and loss arrays", "TrainingLog")],
  ["saved pickle", "log arrays"])

p("C09", "The reported region of attraction is never too large",
  "The level rho returned for the region of attraction never exceeds the given upper bound, and every state of the verified box with V(x) < rho lies strictly inside the box and (as long as the successor stays in the larger box given by the caller) has its successor strictly inside the box too, whichever face or corner it would leave through; with an ideal solver rho is the largest such level. "
  "If the solver cannot prove a minimum (limit, interruption, numerical failure), rho must not be based on ignoring the states it did not search.",
  ["inputs", "fault_sequences"],
  "all Lyapunov networks, dynamics, boxes, larger boxes, equilibria, R, upper bounds and any solver status on either program",
  "Tests compare rho with the same program solved again, for three systems with an always-optimal solver.",
  ["utils.py", "lyapunov.py", "train_lyapunov_barrier.py"],
  [("per-face minimisation", "LyapunovHybridLinearSystem.compute_region_of_attraction")],
  obs=["returned rho"])

p("C10", "The differentiable optimum equals the solver's optimum, with the right gradient",
  "For a solved MIP whose data are differentiable tensors, the recomputed objective equals the solver's objective (for any optimal solution and any pool position it is evaluated at the reported binaries), and its gradient with respect to the data equals the derivative of the optimal value wherever that derivative exists. "
  "The recomputation uses the constraints and variable bounds of the program as it was solved, including bounds tightened or variables fixed afterwards and objectives that were replaced.",
  ["inputs", "configurations", "fault_sequences"],
  "all programs built through the API (equalities, inequalities, bounds, fixed binaries, replaced objectives, max/min sense), any data perturbation direction, any admissible optimal solution",
  "Tests check a few hand-made programs at one point with Gurobi's tie-breaking.",
  ["gurobi_torch_mip.py"],
  [("active-set recomputation", "GurobiTorchMIP.get_active_constraints, compute_objective_from_mip_data(_and_solution)")],
  obs=["value and gradient of the recomputed objective vs perturbed re-solves"])

p("C11", "Strengthening cuts and binary fixing never change the answer",
  "Adding strengthening cuts at any points, or fixing ReLU binaries by auxiliary solves, never removes a feasible state from the verification program and never changes its optimum; every cut is valid for every input in the box and is exact at the point it was generated from. "
  "This holds also when the auxiliary solves stop on their time limit or otherwise end early.",
  ["inputs", "fault_sequences", "configurations"],
  "all networks, strengthening points (random or chosen), numbers of cuts, and any solver status in the auxiliary programs",
  "Tests compare optimum values for one network; an invalid cut removes a corner that only some weight signs expose, and a time-limited auxiliary solve never happens.",
  ["relu_to_optimization.py", "lyapunov.py", "gurobi_torch_mip.py", "train_lyapunov_barrier.py"],
  [("cuts", "ReLUFreePattern.strengthen_mip_at_neuron and callers"),
   ("binary fixing", "LyapunovHybridLinearSystem.strengthen_lyapunov_derivative_milp_binary")],
  obs=["optimum with and without strengthening", "feasibility of direct evaluations"])

p("C12", "Observation options do not influence training, and seeds reproduce it",
  "Turning on printing, experiment logging, network saving or timing never changes any parameter, sample or verdict produced by training; nor does a different wall clock. "
  "Two training sessions started from the same seeds, data and solver answers produce bit-identical parameters, pools and verdicts, and sessions of independent trainers in one process do not influence each other.",
  ["configurations", "schedules", "histories"],
  "all combinations of observer options, clocks (skewed, jumping), interleavings of independent trainers, and random seeds",
  "Tests never compare two runs of the same training.",
  ["train_lyapunov_barrier.py", "dynamics_learning.py", "training_log.py", "lyapunov.py", "train_utils.py"],
  [("logging branches", "Trainer.train / train_adversarial / print, DynamicsLearning.train, train_utils.train_approximator")],
  obs=["parameters, pools and verdicts of paired runs"])

p("C13", "Line-search optimizers follow their documented acceptance rule",
  "Each step of the line-search optimizers moves the parameters along one fixed search direction by the largest step in the documented shrinking sequence that meets the documented acceptance rule (or the smallest allowed step when none does), calls the closure a bounded number of times, leaves the parameters at the accepted point, and returns the loss of the last closure call, evaluated there. "
  "The Adam variant's direction and internal moments are exactly Adam's for the gradients seen at the start of each step, whatever losses, infinities or NaNs the closure returns in between; a failing closure leaves an explainable point on the search line.",
  ["histories", "fault_sequences", "inputs"],
  "all parameter shapes, hyper-parameters (weight decay, amsgrad, momentum, nesterov, dampening), loss landscapes, and closure answers including noisy, flat, infinite and NaN ones, over many consecutive steps",
  "The two tests run one quadratic with a smooth loss; the acceptance rule, the bound on evaluations and the moments after rejected steps are never compared with a reference.",
  ["line_search_adam.py", "line_search_gd.py"],
  [("backtracking loop", "LineSearchAdam.step / LineSearchGD.step")],
  [("exp_avg, exp_avg_sq, step, momentum_buffer", "optimizer state", "optimizer.state")],
  ["closure call history (parameters and losses)", "state after the step"])

p("C14", "Simulated robot data sets describe the simulated physics",
  "Every sample produced by the physics-based generators is a true transition: the recorded next state is what the simulator reaches from the recorded state under the recorded control after exactly dt (in simulation), rollouts chain (each recorded state is the previous successor), states and images have the documented layout and lie in the requested ranges, and each image pair shows the two states it is stored beside. "
  "Results do not depend on earlier calls, on other generators or physics connections alive in the process, or on the order in which they are used.",
  ["schedules", "histories", "inputs", "configurations"],
  "all interleavings of several generators and foreign physics connections, call histories, controls, ranges, joint counts, time steps and image options",
  "The tests create one generator with one joint and check array shapes.",
  ["pybullet_data_generation.py", "worlds.py"],
  [("state reset / step / readback", "PybulletSampleGenerator.generate_sample / generate_rollout / generate_dataset")],
  [("physics client", "connection owned by a generator", "PybulletSampleGenerator")],
  ["returned arrays vs an independent simulation of the same physics"])

p("C15", "Dynamics-learning losses mean what they say under any solver behaviour",
  "In dynamics learning with a Lyapunov prior, the adversarial states and losses used at every step are the true worst violations of the stated conditions for the current networks (never a smaller value presented as the worst when the solver stopped early), the warm start never changes them, and the total loss is the documented weighted sum. "
  "A step with no violation must complete normally.",
  ["fault_sequences", "histories", "inputs"],
  "all networks, latent or plain state spaces, option weights, solver answers (optimal with any tie-break, limits, no violating state) over several steps",
  "The tests call the loss once with an ideal solver and only check types.",
  ["dynamics_learning.py", "lyapunov.py"],
  [("adversarial search", "DynamicsLearning.adversarial_samples / lyapunov_loss / total_loss")],
  obs=["losses and adversarial samples vs direct evaluation"])

p("C16", "Cost-to-go labels equal the cost of the simulated trajectory",
  "Each cost-to-go label attached to a state is the accumulated instantaneous cost of the system's own trajectory from exactly that state to the horizon or goal, labels along one trajectory satisfy the one-step recursion, and every label belongs to its own state. "
  "Trajectories that leave the modelled domain are skipped without aborting the data set or producing labels, and a user pruner is applied to exactly the returned states.",
  ["inputs", "histories", "fault_sequences"],
  "all piecewise-affine systems, start states (inside, on the edge, leaving the domain mid-way), horizons, goals, cost functions (including ones that fail) and pruners",
  "Tests evaluate two systems along one trajectory; none leaves the domain.",
  ["hybrid_linear_system.py", "train_value.py", "train_lyapunov_barrier.py"],
  [("label generation", "compute_discrete_time_system_cost_to_go / compute_continuous_time_system_cost_to_go / generate_cost_to_go_samples")],
  obs=["list of (state, label) pairs"])

p("C17", "Supervised training loops visit the data as documented and report true losses",
  "In the supervised loops each epoch uses every training sample exactly once in some order, the reported losses are the losses of the model on the stated data, a session stops at the requested number of epochs or first time its criterion is met, and reports success only if the criterion holds for the model it leaves in place. "
  "Conflicting-gradient projection returns a finite combination that to first order never increases either loss (in the modes that emphasise one loss: that loss).",
  ["schedules", "inputs", "configurations"],
  "all data sets, batch sizes (including ones that do not divide the data), shuffles, epochs, tolerances and gradient pairs including zero and opposite ones",
  "Tests check that one fit gets close to its target.",
  ["train_utils.py", "train_lyapunov_barrier.py", "utils.py"],
  [("supervised loops", "train_utils.train_approximator, TrainValueApproximator.train_with_cost_to_go, utils.compare_network / project_gradient")],
  obs=["samples seen by the model per epoch", "returned verdicts and losses"])

p("C18", "Rotation, integration and encoder helpers are mathematically exact",
  "Rotation conversions produce orthonormal matrices that agree with their gradients and between numeric back-ends, the integrator is fourth-order accurate, and encoders/decoders preserve documented shapes.",
  ["inputs"], "all angles, states and images",
  "Sampled tests only, but these are single-call pure functions.",
  ["geometry_transform.py", "integrator.py", "encoders.py"],
  [("pure functions", "rpy2rotmat, rk4_constant_control, encoders")])

p("C19", "Example robot models follow the physics they describe",
  "The dynamics of the shipped example robots (pendulum, cars, quadrotors, rocket) are the physics they describe and are consistent with their linearisations.",
  ["inputs"], "all states and controls of the example models",
  "Sampled tests only, but these are pure functions of one input.",
  ["examples"],
  [("pure dynamics functions", "examples/*")])

p("C20", "Every training step descends the documented loss",
  "The loss a Lyapunov training step descends is the documented weighted sum of hinge sample losses over the most recent pool states (mean, maximum or 4-norm), the recomputed optima of the verification programs and the boundary gap, for the parameters as they are at that step; its gradient is the gradient of that sum wherever it exists. "
  "Each iteration takes exactly one step of the configured optimizer (kind, rate, momentum, state kept across iterations) along exactly that gradient, unless it reports success; each batch epoch of the counterexample-guided loop uses a pool state at most once and leaves none out when positivity and derivative batches pair up, and every epoch ends with an evaluation of the whole pools.",
  ["inputs", "schedules", "histories", "configurations"],
  "all systems, candidates, weights, margins, reductions, convergence conditions, pools, batch orders, optimizers and solver answers (tie-breaking, early stops)",
  "Tests compare one loss on a handful of samples with a second implementation and never look at what a step used: accumulated gradients, a batch used twice, the wrong end of the pool or a re-created optimizer leave every such value unchanged.",
  ["train_lyapunov_barrier.py", "lyapunov.py", "continuous_time_lyapunov.py", "gurobi_torch_mip.py"],
  [("losses", "lyapunov_positivity_loss_at_samples, lyapunov_derivative_loss_at_samples(_and_next_states), Trainer.total_loss / lyapunov_sample_loss"),
   ("descent loops", "Trainer.train, train_adversarial, train_lyapunov_on_samples")],
  obs=["optimizer steps (torch step hooks): gradients used, parameters after", "returned losses, their parts and gradients"])

p("C21", "Every mixed-integer encoding describes exactly the graph of its function",
  "Each encoding the library offers (ReLU and leaky ReLU units, networks and their gradients, absolute value, 1-norm, maximum, saturation, binary-continuous products, leaky ReLU gradient times a vector, saturated control, hybrid, control-affine, learned forward dynamics and closed loops (those of the example robots included), candidate functions and box boundaries) admits an input exactly when it lies in the stated domain, and then exactly the function's value, with binaries that name the piece it lies on; the relaxations the library offers contain every such point. "
  "Enumerations of one-sided gradients, activation patterns and affine pieces contain each possibility and nothing else, the linear programs and grids behind them return exact optima, ranges and covers, and the parametrisations of the matrix R reproduce the matrix they are given and keep their bound on its singular values at every step.",
  ["inputs", "solver answers", "configurations"],
  "all parameters, input boxes and their position relative to every kink, degenerate intervals, slopes, numbers of units, binary types and optimal vertices or early incumbents the solver returns",
  "A test builds one encoding and solves it at a few inputs; a row that cuts off one corner, an off-by-one binary or a one-sided gradient left out at a tie shows only for particular boxes, directions and vertices.",
  ["utils.py", "relu_to_optimization.py", "control_affine_system.py", "hybrid_linear_system.py", "relu_system.py", "feedback_system.py", "r_options.py", "lyapunov.py", "simple_pwl_lyapunov.py"],
  [("encodings", "utils.*_as_mixed_integer_constraint, replace_*, ReLUFreePattern.output_constraint / output_gradient*, mixed_integer_constraints, add_dynamics*"),
   ("enumerations", "utils.l1_gradient, l_infinity_gradient, minkowski_sum, relu_to_optimization patterns and gradients"),
   ("programs", "compute_bounds/range, linear_program_cost, is_polyhedron_bounded, partition_state_input_space, SimplePWLLyapunov")],
  obs=["variables at every solution", "program statuses and optima with inputs fixed", "returned gradients, patterns and grids"])

p("C22", "A simulated hopper obeys its model at every event",
  "For every robot, terrain and gait, a simulated run of the spring-loaded inverted pendulum alternates ballistic flight and spring stance; each flight ends exactly when the foot reaches the ground from above, each stance when the leg regains its rest length or the mass falls to the ground, the state is continuous across each event, energy is conserved, time moves forward, and the run goes on only if the event happened and a next apex exists. "
  "The apex-to-apex map, its gradients and times, and the linearised stepping-stone model with its constraints agree with that motion and answer None exactly when it cannot be completed, also when the integrator gives up.",
  ["inputs", "event sequences", "integrator behaviour"],
  "all masses, legs, springs, gravities, initial flight states, sequences of leg angles, stepping stones, and the steps, methods or failures of the integrator",
  "A test hops one robot two steps; falls, descending lift-offs, missed stones and an integrator that gives up in the middle each need a particular gait or fault.",
  ["spring_loaded_inverted_pendulum.py", "slip_hybrid_linear_system.py"],
  [("simulation", "SLIP.simulate"), ("maps", "SLIP.apex_map, apex_to_apex_gradient and the gradients it chains"),
   ("terrain", "SLIP.time_to_touchdown, can_touch_stepping_stone, SlipHybridLinearSystem.apex_map_linear_approximation")],
  obs=["phases returned by simulate", "returned maps, times, gradients, linear models"])

p("C23", "Simulations, sample sets and parameter vectors are what they claim",
  "A simulated closed loop applies to the plant, at every instant the integrator asks, exactly the saturated controller output (and the fixed-step integrator exactly the control held over its interval), visits exactly the requested steps or times, follows the plant's motion, does not report success when the integrator gave up, and leaves its arguments alone. "
  "Sample sets lie in the box, boundary samples on its boundary with every face reachable, grids contain every grid point once, for every random number the generator may return; projections give the nearest point; rotation matrices, their gradients and numerical derivatives are those of their function. "
  "A network's flat parameter vector, gradient and structure read back exactly what was written or trained last, and later updates of either side never change the other.",
  ["inputs", "random numbers", "integrator behaviour", "histories"],
  "all plants, controllers, limits, horizons, boxes, random number streams including their extreme values, integrators that give up, and sequences of reading, writing and training a network's parameters",
  "A test simulates one plant or draws ten samples; a generator's extreme value, an integrator that stops early or a parameter vector that is trained behind the caller's back needs a particular stream, fault or order of operations.",
  ["utils.py", "integrator.py", "geometry_transform.py"],
  [("simulation", "utils.simulate_plant_with_controller, step_system, integrator.rk4_constant_control"),
   ("sampling", "utils.uniform_sample_in_box, uniform_sample_on_box_boundary, get_meshgrid_samples, project_to_polyhedron"),
   ("parameters", "utils.setup_relu, update_relu_params, extract_relu_parameters(_grad), extract_relu_structure, network_zero_grad")],
  obs=["controls the plant received", "returned trajectories, samples, vectors", "live parameters after each operation"])

p("C24", "The planners' trees, tables and training sets describe drivable routes",
  "After every operation on the RRT* tree (extending, connecting, rewiring, growing, saving and loading), whichever states are sampled and whichever path optimisations fail or stop at a poor optimum: parents and children mirror each other, every node leads to the goal, the cost to the root is the sum of the costs on the way, and the stored path leads from the node to its parent with the car's dynamics, within the control limits, at the stored cost; a new node joins through its cheapest neighbour, every neighbour it improves is rewired, no cost ever rises, and a failure leaves a consistent tree. A saved tree loads back exactly and survives a crash during the next save. "
  "Transition tables hold exactly the answers of the solver, value iteration ends within its tolerance of the optimal cost with a greedy policy, and every row of a trajectory-optimisation training set pairs a state with its own control and cost-to-go.",
  ["inputs", "random numbers", "solver answers", "crash_points", "histories"],
  "all goals, control limits, sequences of samples and operations, outcomes of the path optimiser, disk faults, cost tables and discounts",
  "The planner's own tests need an optimiser that is not installed here and grow ten nodes once; rewirings, failures of the optimiser in the middle and crashes need particular histories.",
  ["examples/car/rrt_star.py", "examples/car/unicycle_traj_opt.py", "examples/car/value_iteration.py"],
  [("tree", "RrtStar.connect_state_extend, update_parent, grow_tree, save_tree, load_tree"),
   ("tables", "value_iteration, calculate_r_complete, calculate_r_duplicate"),
   ("training set", "construct_training_set")],
  obs=["all arrays of the tree after every operation", "files after a fault", "returned tables and sets"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
