#!/usr/bin/env python3
# Generates /verif/properties.jsonl (single place where the property texts live).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook="none: public API and interposed system/allocator calls"):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

L = "core/include/humoto/logger.h"
prop("C01", "Logged entries come out exactly once, whole and in order, for any schedule",
 "When the threaded logger is used from any number of threads, every entry that was logged reaches the output exactly once, whole (never interleaved with another entry), in an order consistent with real time: if one logging call returned before another began, its entry comes first. Each entry carries the name and value its argument had at the moment of the call, even if the caller changes the argument immediately afterwards.",
 ["schedules","histories"], "all interleavings of any number of producer threads with the background writer, at every preemption point, and all sequences of logging calls",
 "A test sees only the handful of interleavings the OS scheduler happens to produce; the hand-over window between the queue and the writer is a few instructions wide.",
 [L], [("producer side: queueing of messages under the mutex", L), ("consumer side: batch drain loop of the writer thread", L)],
 ["bytes that arrive at the output stream, against the call/return history of the logging calls"])
prop("C02", "The threaded logger writes the same text as direct logging",
 "For any sequence of logged values (scalars, strings, vectors, matrices, classes that log themselves, nested entry names) the threaded logger produces byte for byte the text that unthreaded logging of the same calls produces. The text is the documented evaluable form: numbers keep 15 significant digits, names are joined with dots and one-based indices, so reading it back restores the logged values. With direct logging to a file the text of an entry is in the file when the call returns.",
 ["inputs","histories","schedules"], "all sequences of logging calls over the supported value types and shapes, every interleaving with the writer thread",
 "The type/shape/name combinations are unbounded and the build under test is compiled in one of the two modes only, so no test compares the two.",
 [L], [("overloads that format values", L), ("message copies queued for the writer thread", L)],
 ["bytes on the output stream of both builds and an independent reference formatter"])
prop("C03", "Logger start, stop and re-start always terminate and never lose entries",
 "Destroying or re-initialising a logger terminates within a bounded number of steps whatever the writer thread is doing, and everything logged before that point is on the output when it returns; entries logged before the first initialisation go to the first output. While logging is running every entry reaches the output within a bounded number of writer wake-ups, and a producer is never blocked by a slow output. A logger can be re-initialised any number of times between files and streams, and each output gets exactly the entries logged while it was current.",
 ["schedules","histories"], "all sequences of initialise / log / re-initialise / destroy and all interleavings of those with the writer thread, including stalled outputs",
 "Termination and drain are liveness claims over schedules: a lost wake-up or an early exit shows only when the stop request lands in a particular window.",
 [L], [("stop request and join", L), ("writer loop exit condition", L), ("initialisation of the output", L)],
 ["return of the life-cycle calls in simulated steps/time; bytes on each output"])
prop("C04", "Logger survives failing allocations and failing outputs",
 "If memory runs out inside a logging call, that call throws or succeeds but the logger keeps working: no later call blocks, the failed entry is absent or whole, and all other entries are still delivered. If the output fails or fills up at any point, the output holds an exact prefix of the text, no logging or life-cycle call blocks or crashes, and shutdown still terminates.",
 ["fault_sequences","schedules"], "an allocation failure at every allocation inside a logging call, an output failure at every byte, combined with all interleavings",
 "Allocation failures and full disks cannot be provoked at a chosen instruction by a unit test.",
 [L], [("exception paths while the queue is locked", L), ("writer thread's stream error handling", L)],
 ["exceptions of logging calls; progress of other threads; bytes on the output"])

CFG = ["core/include/config.h","core/include/config/define_accessors.h","bridges/config_msgpack/interface/config_msgpack/reader.h","bridges/config_msgpack/interface/config_msgpack/writer.h"]
prop("C05", "Configuration survives a restart: what was written is read back identically",
 "Writing any configurable object (rigid body and point mass states, foot, walking, model predictive control and robot parameters, model states, solutions, solver parameters, tasks, task hierarchies) to a configuration file, at root or nested under a node, and reading it in a new process restores every stored value exactly, including vectors, matrices of any shape, nested objects, enumerations and strings. Derived quantities and behaviour of the restored object are the same as those of the original.",
 ["inputs","histories","crash_points"], "all values of all configurable classes, several objects per file in any order, restart after the write completed",
 "Values and shapes are unbounded; the existing tests round-trip nothing non-square or non-default.",
 CFG+["core/include/rigid_body/*.h","core/include/walking/*.h","modules/*/include/*/*.h"], [("field lists that drive reading and writing","core/include/config/define_accessors.h and DEFINE_CONFIG blocks"),("scalar/vector/matrix/compound encoding","bridges/config_msgpack/interface/config_msgpack/")],
 ["members, log output and behaviour of the restored objects against the originals"])
prop("C06", "A failed configuration write is never reported as success",
 "If storage fails while a configuration is being written (disk full, I/O error, short write, file cannot be opened), the write raises an error; when writing returns normally and the writer is gone, the file on disk is complete and reads back as written. A file left incomplete by a crash at any point of writing is rejected by strict reading.",
 ["fault_sequences","crash_points"], "a storage fault at every byte position and every system call of a configuration write",
 "Requires a disk that fails at a chosen byte; tests run on a healthy one.",
 CFG, [("flush of the packed buffer to the file","bridges/config_msgpack/interface/config_msgpack/writer.h")],
 ["exception or normal return of the write calls against the file content"])
prop("C07", "A damaged configuration file is rejected, never a crash, hang or garbage",
 "Reading a configuration from a file that is missing, unreadable, empty, truncated at any byte or corrupted terminates with either an error or a well-formed object; it never crashes, hangs, or touches memory out of bounds. In strict mode a missing or incomplete file and an entry of the wrong type or size are always reported as an error.",
 ["inputs","fault_sequences","crash_points"], "all truncations, bit and byte corruptions, structural mutations and read errors of configuration files of all configurable classes",
 "The space of damaged files is unbounded and tests read only well-formed files.",
 CFG, [("node descent and typed extraction","bridges/config_msgpack/interface/config_msgpack/reader.h"),("error policy","core/include/config.h")],
 ["exception/normal return, memory checker, content of the object"])
prop("C08", "Reloading configuration depends only on the file and the defaults",
 "Reading configuration into an object gives the same result whatever the object held before: entries present in the file take the file's values. In strict mode an entry missing from the file is an error; in relaxed mode missing entries get the class defaults, never values of an earlier load, and a failed load does not disturb later loads with the same reader.",
 ["histories","inputs"], "all sequences of partial, complete, missing and failing loads into one object in strict and relaxed mode",
 "Stale-state bugs need a history of at least two particular loads.",
 CFG, [("strict/relaxed policy and defaults","core/include/config.h"),("defaults per class","DEFINE_CONFIG classes")],
 ["members of the object after each load"])
F = "core/include/walking/stance_finite_state_machine.h"
prop("C09", "Stance sequence is independent of time slicing and previews come true",
 "Advancing the stance machine by a total time in any number of pieces gives the same stance, remaining time and termination state as advancing it at once. The previewed stances over any horizon are exactly the stances the machine later passes through (a horizon that reaches beyond the end of the walk contains only the stances before it), support durations are those of the parameters, left and right single supports alternate, and the sequence ends in the terminating stance after the requested number of steps.",
 ["histories","inputs","schedules"], "all stance parameters and all ways of slicing time, including calls that stop exactly at or across stance boundaries",
 "Off-by-one errors at stance boundaries show only for particular combinations of durations and slices.",
 [F], [("time shift",F),("preview",F)],
 ["current stance, remaining times and previews at every simulated tick, against a reference timeline"])
H = ["core/include/humoto/hierarchy.h","core/include/humoto/hierarchy_level.h","core/include/humoto/qp_problem.h","core/include/humoto/task.h","core/include/humoto/task_generic.h","core/include/humoto/constraints*.h"]
prop("C10", "The assembled problem is the hierarchy's current tasks, whatever happened before",
 "At every iteration the optimisation problem handed to the solver is exactly the one defined by the current tasks: levels in order, every task's objective, equalities, inequalities and bounds present once with its gain, variables mapped to their declared places. The result is independent of earlier iterations, of tasks that changed shape or type, and of tasks or levels that were pushed or reset before.",
 ["histories","inputs"], "all sequences of iterations over hierarchies of all task kinds with changing sizes, types and values",
 "Stale rows, caches and sizes appear only after particular histories of changes.",
 H, [("hierarchy bookkeeping and level assembly",H[0]),("objective / constraint conversion to a QP",H[2])],
 ["matrices, vectors and bounds of the assembled QP against a reference assembly"])
prop("C11", "Solvers return the optimum or report failure",
 "For any feasible two-level problem every available solver front end returns a point that satisfies the constraints and minimises the objective, whether or not a solution or active-set guess is given and however wrong the guess is; solving a sequence of problems with one solver object gives the same results as fresh solvers. A back end that fails is always reported through the return status, and as an exception when the parameters ask for it; a failed problem never looks solved, and the numbers and descriptions it reports are those of what the back end returned.",
 ["inputs","histories","fault_sequences"], "all problems, guesses and sequences of solves, with back-end failures injected at any solve",
 "Stale internal state and mis-mapped statuses need particular histories and failing back ends.",
 ["core/include/humoto/solver.h","core/include/kktsolver.h","bridges/qpOASES/interface/*.h","bridges/qpmad/interface/*.h","bridges/QuadProgpp/interface/*.h"],
 [("generic solve driver","core/include/humoto/solver.h"),("back-end front ends","bridges/*/interface")],
 ["returned point, status and exceptions against an independent QP reference"])
prop("C12", "Active-set information always reaches the constraint it belongs to",
 "The active set reported by a solver is distributed so that each task's part describes that task's own constraints, in order, for every mixture of equality, inequality and bound tasks and levels; collecting the tasks' guesses yields an active set in which each entry stands at the row of the constraint it belongs to. Shifting by one interval moves each entry to the next interval's constraint, and constraint violations reported for a solution are consistent with evaluating the constraints.",
 ["histories","inputs"], "all hierarchies, active sets and sequences of iterations with hot starting on or off",
 "Offsets go wrong only for particular mixtures of constraint kinds over several iterations.",
 ["core/include/humoto/active_set.h","core/include/humoto/hierarchy.h","core/include/humoto/task.h","core/include/humoto/violations.h"],
 [("distribution and collection","core/include/humoto/hierarchy.h"),("per-task offsets","core/include/humoto/task.h")],
 ["per-task active sets and guesses; violations, against a reference"])
W = ["modules/wpg04/include/wpg04/*.h","core/include/walking/*.h"]
prop("C13", "Walking: the predicted motion is the motion of the controlled model",
 "At every iteration of the walking controller, for any solution returned by the solver, the predicted centre of mass states and centre of pressure positions over the horizon are exactly those of the linear inverted pendulum with piecewise constant jerk/velocity controls from the current state, and the next model state, including states sampled inside the interval, is the first prediction. The guess offered to the solver is the previous solution moved on by one interval. Previewed footstep positions used in the prediction are the ones the controller later realises for the current support.",
 ["histories","inputs"], "all parameters, states, stance phases and control sequences of the closed loop",
 "The condensed matrices depend on stance phase and history; errors at phase changes need particular closed-loop states.",
 W, [("condensing and prediction","modules/wpg04/include/wpg04/mpc_wpg.h"),("next state","modules/wpg04/include/wpg04/model.h")],
 ["predicted and realised states against an independent integration of the plant"])
prop("C14", "Walking: balance and reach limits hold at every step until the walk ends",
 "In the closed loop the centre of pressure stays within the support area of the stance in every interval of the horizon, every step lands within the reachable region of the supporting foot, feet alternate, a foot never moves while it supports, and the walk ends in a double support after the commanded number of steps. This holds for all admissible parameters, starting feet and disturbances for which the solver finds a solution. A state built from the robot's parameters is a double support at rest with the feet at their default distance.",
 ["histories","inputs","fault_sequences"], "all walking parameters, velocity commands and disturbances, over whole walks",
 "Whole walks under disturbances are beyond unit tests and phase errors show only in particular steps.",
 W, [("bounds on footsteps and CoP","modules/wpg04/include/wpg04/task_*.h"),("stance handling","modules/wpg04/include/wpg04/model.h")],
 ["states produced by the closed loop against geometric definitions"])
prop("C15", "Controllers resume identically after a crash and restart; instances independent",
 "If a controller process stops between iterations and a new one is started from the persisted parameters, model state and elapsed time, the continued motion is the same as without the interruption. Controllers that run interleaved in one process never influence each other.",
 ["crash_points","histories","schedules"], "a crash at every iteration, any number of crashes, any interleaving of several controllers",
 "State hidden outside the persisted objects is visible only after a restart at particular phases.",
 W+["modules/pepper_mpc/include/pepper_mpc/*.h"]+CFG[:2], [("model state update and persistence","modules/*/include/*/model*.h")],
 ["trajectories with and without crashes/interleaving"])
prop("C16", "Wheeled robot: the predicted motion is the motion of the controlled model",
 "At every iteration of the wheeled robot controller, for any solution, the predicted base and body states and centre of pressure positions over the horizon are exactly those of the base/body model with piecewise constant controls, and the state extracted for any interval of the horizon or for a time inside the first interval is the state of that trajectory. The guess offered to the solver is the previous solution moved on by one interval. Robot parameters such as heights and masses are unchanged by the iteration, and states built from given heights, masses and positions have them.",
 ["histories","inputs"], "all parameters, states, control sequences, horizon positions and sub-sampling times",
 "Only one interval and sampling is exercised by ordinary use.",
 ["modules/pepper_mpc/include/pepper_mpc/*.h"], [("condensing, prediction and state extraction","modules/pepper_mpc/include/pepper_mpc/mpc_mg.h"),("next state","modules/pepper_mpc/include/pepper_mpc/model.h")],
 ["predicted and realised states against an independent integration"])
prop("C17", "Wheeled robot: limits hold and motion commands play out on schedule",
 "In the closed loop the base velocity and acceleration, the body position relative to the base and the centre of pressure stay within the robot's limits at the end of every interval of the horizon. A schedule of motion commands is consumed in order, each for its duration, however the time shifts are sliced, and the controller reports that it has stopped exactly when the schedule no longer covers the horizon.",
 ["histories","inputs","fault_sequences"], "all robot/motion parameters, schedules, time slicings and disturbances",
 "Needs long closed-loop histories across command boundaries.",
 ["modules/pepper_mpc/include/pepper_mpc/*.h"], [("schedule consumption","modules/pepper_mpc/include/pepper_mpc/mpc_mg.h"),("bounds","modules/pepper_mpc/include/pepper_mpc/task_*.h")],
 ["states and commands of the closed loop against limits and a reference schedule"])
prop("C18", "A failed control iteration can be retried with no after-effects",
 "If any step of a control iteration fails (memory exhausted at any allocation, solver failure, a task that throws), the failure is raised as an error, and repeating the iteration without the fault gives the same solution and next state as if the fault had never happened.",
 ["fault_sequences","crash_points","histories"], "an allocation, solver or task failure at every point of an iteration, at any iteration, repeatedly",
 "Failures at chosen points inside an iteration cannot be produced by tests.",
 H+W+["modules/pepper_mpc/include/pepper_mpc/*.h"], [("exception safety of problem forming and caches","core/include/humoto/")],
 ["solutions and next states with and without faults"])
prop("C19", "The timer measures elapsed time exactly on any clock history",
 "A timer reports exactly the time that passed between its start and stop on the system clock, including intervals that cross second boundaries and repeated use; the value it prints is the value it reports. Conversions between seconds and milliseconds keep the duration (to the nearest millisecond).",
 ["schedules","histories"], "all start/stop instants and delays of the system clock",
 "The wall clock cannot be positioned by a test.",
 ["core/include/humoto/time.h"], [("tic/toc arithmetic","core/include/humoto/time.h")],
 ["reported duration against the simulated clock"])
prop("C20", "A rotating body keeps its orientation in every representation",
 "A rotation matrix converted to Euler angles (roll-pitch-yaw or yaw-pitch-roll) and back is the same rotation; the angles mean a fixed sequence of elementary rotations. Angular velocities and rates of Euler angles convert into each other consistently with how the orientation changes. Integrating a constant angular velocity gives the exactly rotated orientation, always a rotation matrix, however the time is sliced and whatever representation the orientation was handed over in; the simple integrator is its first order approximation. The rotation error between two orientations is the rotation vector between them, so that turning along it reaches the reference. Unsupported types of Euler angles are refused. The state of a body put together from positions and angles, in degrees or radians, has them in its coordinates and only there.",
 ["histories","inputs","schedules"], "all orientations, angular velocities, time slicings, hand-overs between representations and disturbances",
 "Continuous inputs, and errors which accumulate only over histories of motion.",
 ["core/include/rigid_body/rotary_state.h","core/include/eigentools/cross_product.h"], [("conversion, rates, integration, errors","core/include/rigid_body/rotary_state.h")], ["orientation of a simulated body in each representation"])
prop("C21", "Block matrices equal dense matrices through any history of operations",
 "Through any history of resizing, changing sizes of blocks, writing, copying, viewing and multiplying, a block matrix (dense, diagonal or lower triangular in blocks; constant or dynamic sizes of blocks) has the sizes and elements of the corresponding dense matrix; its products from either side, block Kronecker products with an identity, selected rows, and the squares, concatenations and removals of rows and columns used with it equal the dense results, whatever the output held before. Requests which are inconsistent in size are refused with an exception and the matrix can be used again.",
 ["histories","inputs","fault_sequences"], "all kinds of block matrices, sizes, contents and sequences of operations, including refused ones",
 "Unbounded combinations of shape, sparsity and previous contents.",
 ["core/include/eigentools/eigentools.h","core/include/eigentools/blockmatrix.h","core/include/eigentools/blockmatrix_base.h","core/include/eigentools/blockmatrix_kronecker.h"], [("block operators","core/include/eigentools/")], ["elements and sizes against dense reference matrices"])
prop("C22", "A swinging foot moves without jumps and lands as planned, even if re-planned",
 "The motion of a foot during a step starts at the given position and velocity, passes the step height in the middle of the step with zero vertical velocity and ends at the landing position with the final velocity. At every instant, however the time is sampled, the reported velocity and acceleration are the rates of change of the reported position (with respect to the same time for all coordinates), and a motion between two rests never overshoots. If the step is planned again from the current state while the foot is in the air, any number of times, position and velocity continue without a jump. A coordinate sampled at many instants has the values of its cubic polynomial at each of them; instants outside of the motion are refused.",
 ["histories","inputs","schedules"], "all steps, sampling instants and sequences of re-planning with new landing positions and remaining times",
 "Jumps appear only when a trajectory is planned again from a moving foot; tests do not exercise trajectories at all.",
 ["core/include/walking/foot_trajectory.h","core/include/rigid_body/cubic_polynomial.h"], [("interpolation of a step","core/include/walking/foot_trajectory.h"),("polynomial coefficients","core/include/rigid_body/cubic_polynomial.h")],
 ["position, velocity and acceleration of the foot over simulated time"])
prop("C23", "YAML configuration: exact round trip, failed writes and bad files are reported",
 "Writing any configurable object to a YAML file and reading the file restores every stored value (finite numbers to 15 significant digits, strings of printable characters). A write that fails is reported. In strict mode missing, incomplete and mistyped entries and entries of a wrong size are rejected with an exception, otherwise absent entries leave the values as they are. Rejection leaves both the reader and the object usable, and the result of a load does not depend on what was loaded before.",
 ["inputs","histories","fault_sequences"], "all values of all configurable classes, sequences of loads and writes, disk errors and edited files",
 "Round trips of all classes, failing disks and loads after rejected loads are not sampled by the tests; YAML is the format in which users write configurations.",
 ["bridges/config_yaml/interface/config_yaml/reader.h","bridges/config_yaml/interface/config_yaml/writer.h","core/include/config/*"], [("YAML reader/writer","bridges/config_yaml/interface/")], ["values of the restored object, exceptions"])
prop("C24", "Inverse kinematics: exact kinematics, faithful tasks, commands within limits",
 "For any robot description and any posture, positions, orientations, centres of mass, masses and Jacobians reported by a kinematic model agree with the description, also after the model was loaded again or loading failed; unknown links and unreadable descriptions are reported. The inverse kinematics tasks state exactly the deviation of the current posture from the current references, for whatever model, configuration and references are current, so every iteration of the controller finds the motion which best meets the hierarchy, keeps fixed joints fixed and bounded joints within their limits, and leaves errors of only the second order; the planar, tibia- and torso-rooted models agree with each other. A command is issued exactly if the joint positions, joint velocities and wheel velocities are within the limits of the robot, and describes the planned motion; corrected states, states written and read after a crash and lost commands continue the motion consistently. Logs of tasks, models and commands show these values.",
 ["histories","inputs","fault_sequences"], "all robots, postures, references, hierarchies and sequences of control periods with lost commands, corrections, crashes, failing reads and allocations",
 "The tests need RBDL and compare a few quantities in two postures; errors of tasks depend on posture, references, history and model.",
 ["modules/pepper_ik/include/pepper_ik/*","bridges/rbdl/interface/rbdl/*"], [("kinematic model","bridges/rbdl/interface/rbdl/model.h"),("tasks","modules/pepper_ik/include/pepper_ik/"),("limits and commands","modules/pepper_ik/include/pepper_ik/model.h"),("controller","modules/pepper_ik/include/pepper_ik/whole_body_controller.h")], ["quantities of the model, matrices of the tasks, next states, commands and exceptions"])
prop("C25", "Controllers realise the motion that best meets their declared objectives",
 "At every iteration of the walking and of the wheeled robot controller the predicted motion is feasible for the declared limits and no other feasible motion has a lower value of the declared objective: the sum of the squared deviations of the named quantities (jerk, velocity, position, centre of pressure, footsteps, ...) from their references over the horizon, each weighted by its gain. This holds whatever the phase of the walk or of the motion schedule, the horizon, the sampling and the current state are. An iteration fails only if no motion meets the limits.",
 ["histories","inputs"], "all parameters, gains, references, states and phases of the closed loop",
 "The condensed objective depends on phase, horizon and state; the tests check a few quantities of a few integrators.",
 W+["modules/pepper_mpc/include/pepper_mpc/*.h"], [("objective and condensation of the walking controller","modules/wpg04/include/wpg04/"),("objective and condensation of the wheeled robot controller","modules/pepper_mpc/include/pepper_mpc/")],
 ["predicted motion of the controllers against an independent model of plant, limits and objective"])
prop("C26", "Models and condensed predictions equal step-by-step motion of the plant",
 "The models of one or several integrator chains controlled by jerk, acceleration, velocity or position, and of the inverted pendulum controlled by the velocity of its centre of pressure, move their state exactly as the continuous plant does over a period, at any time inside the period, and however the time is sliced; the jerk and output they report are those of that motion. The condensed prediction of a linear system over any horizon (time variant or invariant, with or without outputs and feedthrough, grouped in blocks) equals stepping the system one interval at a time.",
 ["histories","inputs","schedules"], "all periods, sampling instants, controls, numbers of integrators, pendulum heights, system shapes, horizons and pushes of the plant",
 "Tests compare a few fixed numbers; errors show for particular shapes, horizons and sampling instants.",
 ["core/include/rigid_body/triple_integrator.h","core/include/walking/point_mass_model_6z.h","core/include/humoto/control_problem.h"], [("models","core/include/rigid_body/triple_integrator.h"),("pendulum","core/include/walking/"),("condensing","core/include/humoto/control_problem.h")],
 ["state, jerk and output of the model and of the condensed prediction against a simulated plant"])
prop("C27", "Logs of controllers, hierarchies, solvers and solutions are complete and true",
 "What a state, task, constraint, hierarchy, quadratic program, solver, solution, active set, set of violations, model, state machine or preview horizon of the walking or wheeled robot controller logs are exactly its current values: every number and matrix to 15 significant digits, every task with its name, gain, matrices, bounds and location, nothing that depends on uninitialised memory (also before the first iteration). The entries stand under the names which the caller gives, a name is never used twice in the log of an iteration or of a run, and the text is well formed. Logging changes nothing: a controller which is logged at any moment moves exactly as one which is not. If memory runs out or the output fails in the middle, what was written is a beginning of that log and the next log is complete again.",
 ["histories","inputs","fault_sequences"], "all states the controllers, hierarchies and solvers reach, names, moments of logging, failing allocations and outputs at any byte",
 "Tests log a few fixed runs and compare some of the numbers; a wrong, stale, missing or overwritten entry shows only in states with particular phases, sizes, names and kinds of tasks.",
 ["core/include/humoto/hierarchy.h","core/include/humoto/task.h","core/include/humoto/constraints_*.h","core/include/humoto/qp_problem.h","core/include/humoto/solution.h","core/include/humoto/active_set.h","core/include/humoto/violations.h","core/include/rigid_body/*_state.h","core/include/walking/stance_finite_state_machine.h","modules/wpg04/include/wpg04/*.h","modules/pepper_mpc/include/pepper_mpc/*.h","bridges/*/interface/*/solver.h"], [("logs of hierarchies and quadratic programs","core/include/humoto/"),("logs of states","core/include/rigid_body/"),("logs of the controllers","modules/")],
 ["text on the output against the accessors of the objects; motion of a twin which is not logged"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
