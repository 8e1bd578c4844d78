# Binaries of the simulations and the properties they decide.
WRAP = ["-Wl,--wrap=malloc,--wrap=realloc,--wrap=calloc"]
SIM = [("sim/sim.cpp", []), ("sim/faults.cpp", [])]
SCHED = SIM + [("sim/sched.cpp", [])]
INSTR = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
BOOST = ["-lboost_thread", "-lboost_chrono", "-lboost_system"]
BINARIES = {
    "logger": dict(srcs=SCHED + [("harness/logger.cpp", []), ("harness/logger_thr.cpp", INSTR), ("harness/logger_plain.cpp", ["@nothr"])],
                   ldflags=WRAP + BOOST),
    "config_asan": dict(srcs=[(f, ["-fsanitize=address"]) for f, _ in SIM] + [("harness/config.cpp", ["-fsanitize=address"])], ldflags=["-fsanitize=address"] + WRAP + BOOST),
    "walkcore": dict(srcs=SCHED + [("harness/walkcore.cpp", [])], ldflags=WRAP + BOOST),
    "foot": dict(srcs=SIM + [("harness/foot.cpp", [])], ldflags=WRAP + BOOST),
    "plant": dict(srcs=SIM + [("harness/plant.cpp", [])], ldflags=WRAP + BOOST),
    "tumble": dict(srcs=SIM + [("harness/tumble.cpp", [])], ldflags=WRAP + BOOST),
    "matrices": dict(srcs=SIM + [("harness/matrices.cpp", ["-std=c++17", "-O0"])], ldflags=WRAP + BOOST),
    "hierarchy": dict(srcs=SIM + [("harness/hierarchy.cpp", [])], ldflags=WRAP + BOOST),
    "control": dict(srcs=SIM + [("harness/wpg.cpp", ["@nothr"]), ("harness/pepper.cpp", ["@nothr"]), ("harness/control.cpp", ["@nothr"]), ("harness/retry.cpp", ["@nothr"]), ("harness/logs.cpp", ["@nothr"])], ldflags=WRAP + BOOST),
    "config_yaml": dict(srcs=[(f, ["-fsanitize=address"]) for f, _ in SIM] + [("harness/config_yaml.cpp", ["-fsanitize=address"])], ldflags=["-fsanitize=address"] + WRAP + BOOST),
    "ik": dict(srcs=SIM + [("harness/ik.cpp", ["@nothr"])], ldflags=WRAP + BOOST),
    "config": dict(srcs=SIM + [("harness/config.cpp", [])], ldflags=WRAP + BOOST),
}
ASSUME = ["one simulated run is a pure function of its seed: same-seed runs are compared on every 64th seed",
          "clang 18 Debug-like build (assertions on), x86-64, sequentially consistent interleavings"]
LOGREAL = ["humoto logger (threaded and unthreaded builds)", "boost::thread", "libstdc++ streams"]
LOGSTUB = ["pthread mutex/condition/thread/sleep/clock functions (simulated scheduler)", "output device (simulated stream buffer, interposed write/open)"]
LOGNOTE = ("Seeded random search over schedules (preemption at every basic block, load, store, lock and sleep of the logger), values and faults; "
           "not exhaustive. Assumes sequentially consistent memory: the unsynchronised stop flag is judged by its behaviour, not as a data race.")
CFGREAL = ["humoto configuration layer", "msgpack reader/writer bridge", "msgpack-c", "all configurable classes of core, wpg04, pepper_mpc, obstacle avoidance, solver front ends", "libstdc++ file streams"]
CFGSTUB = ["disk (interposed open/read/write with faults)", "qpOASES, qpmad and QuadProg++ libraries (option structures only)"]
CFGNOTE = "Seeded random search over contents, fault positions, damages and load histories; not exhaustive."
HIEREAL = ["humoto hierarchy, levels, tasks and constraints of all kinds", "generic tasks", "quadratic program assembly"]
HIERNOTE = "Seeded random search over hierarchies (up to 4 levels, 3 tasks per level, 12 variables), their histories and injected failures; not exhaustive."
CTLREAL = ["wpg04 controller, model, preview horizon and tasks", "stance state machine", "hierarchy, quadratic program assembly", "qpoases, qpmad and quadprogpp front ends", "condensing"]
PEPREAL = ["pepper_mpc controller, model, preview horizon and tasks", "hierarchy, quadratic program assembly", "qpoases, qpmad and quadprogpp front ends", "condensing"]
CTLSTUB = ["the robot (follows the next model state, with injected disturbances)", "qpOASES, qpmad and QuadProg++ libraries (not installed): a dense dual active set solver behind their interfaces", "time (advanced by the simulation)"]
CTLNOTE = "Seeded random search over parameters (horizons up to 5 intervals quick, 16 thorough), disturbances, failures and histories; not exhaustive."
PROPS = {
    "C01": dict(bin="logger", quick_s=25, thorough_s=600, states="(code location of the switch, roles of the threads, reason)", real=LOGREAL, stub=LOGSTUB, note=LOGNOTE),
    "C02": dict(bin="logger", quick_s=20, thorough_s=300, states="(value kind, name depth, shape)", real=LOGREAL, stub=LOGSTUB, note=LOGNOTE),
    "C03": dict(bin="logger", quick_s=25, thorough_s=600, states="(code location of the switch, roles of the threads, reason)", real=LOGREAL, stub=LOGSTUB, note=LOGNOTE),
    "C04": dict(bin="logger", quick_s=25, thorough_s=600, states="(code location of the switch, roles of the threads, reason)", real=LOGREAL, stub=LOGSTUB, note=LOGNOTE),
    "C05": dict(bin="config", quick_s=25, thorough_s=600, states="distinct configuration contents", real=CFGREAL, stub=CFGSTUB, note=CFGNOTE),
    "C06": dict(bin="config", quick_s=20, thorough_s=400, states="distinct configuration contents", real=CFGREAL, stub=CFGSTUB, note=CFGNOTE),
    "C07": dict(bin="config_asan", quick_s=30, thorough_s=600, states="distinct configuration contents", real=CFGREAL, stub=CFGSTUB, note=CFGNOTE),
    "C08": dict(bin="config", quick_s=30, thorough_s=600, states="distinct configuration contents", real=CFGREAL, stub=CFGSTUB, note=CFGNOTE),
    "C23": dict(bin="config_yaml", quick_s=30, thorough_s=600, states="distinct configuration contents", real=[x for x in CFGREAL if "msgpack" not in x] + ["YAML reader/writer bridge"], stub=CFGSTUB + ["yaml-cpp library (not installed): a parser and an emitter of a subset of YAML behind its interface"], note=CFGNOTE),
    "C09": dict(bin="walkcore", quick_s=20, thorough_s=300, states="(stance, subtype, time in stance, duration)", real=["humoto::walking::StanceFiniteStateMachine"], stub=["time (advanced by the simulation)"], note="Seeded random search over parameters, slicings and preview horizons up to 12 steps; not exhaustive."),
    "C10": dict(bin="hierarchy", quick_s=25, thorough_s=600, states="(kinds and sizes of the tasks of a level, variables)", real=HIEREAL, stub=[], note=HIERNOTE),
    "C11": dict(bin="hierarchy", quick_s=30, thorough_s=600, states="(front end, call, variables, constraints, levels)", real=["humoto::Solver and all mixins", "qpoases, qpmad and quadprogpp front ends", "kktsolver", "hierarchy and quadratic program assembly"], stub=["qpOASES, qpmad and QuadProg++ libraries (not installed): a dense dual active set solver behind their interfaces"], note=HIERNOTE),
    "C12": dict(bin="hierarchy", quick_s=30, thorough_s=600, states="(kinds, guess policies and modification flags of the tasks of a level)", real=["humoto::Solver and all mixins", "qpoases front end", "active sets and violations", "hierarchy and quadratic program assembly"], stub=["qpOASES library (not installed): a dense dual active set solver behind its interface"], note=HIERNOTE),
    "C13": dict(bin="control", quick_s=30, thorough_s=600, states="(stance, next stance, time in stance, horizon, sampling)", real=CTLREAL, stub=CTLSTUB, note=CTLNOTE),
    "C14": dict(bin="control", quick_s=30, thorough_s=600, states="(stance, next stance, time in stance, horizon, sampling)", real=CTLREAL, stub=CTLSTUB, note=CTLNOTE),
    "C15": dict(bin="control", quick_s=30, thorough_s=600, states="interleavings of the steps of the controllers; (step of the crash, iteration)", real=CTLREAL + ["msgpack reader/writer bridge", "pepper_mpc controller"], stub=CTLSTUB, note=CTLNOTE),
    "C16": dict(bin="control", quick_s=25, thorough_s=600, states="(time in the schedule, horizon, sampling, commands)", real=PEPREAL, stub=CTLSTUB, note=CTLNOTE),
    "C17": dict(bin="control", quick_s=25, thorough_s=600, states="(time in the schedule, horizon, sampling, commands)", real=PEPREAL, stub=CTLSTUB, note=CTLNOTE),
    "C18": dict(bin="control", quick_s=30, thorough_s=600, states="(kind of the failure, position of the failure or solver call)", real=CTLREAL + ["pepper_mpc controller", "kktsolver", "generic tasks of all kinds"], stub=CTLSTUB, note=CTLNOTE),
    "C22": dict(bin="foot", quick_s=15, thorough_s=300, states="(phase of the step, times it was planned again, step)", real=["humoto::walking::Simple3DFootTrajectory", "humoto::rigidbody::CubicPolynomial1D"], stub=["time (advanced by the simulation)", "the walking controller (decides when and where the foot lands)"], note="Seeded random search over steps, sampling instants and re-planning in mid-air; not exhaustive."),
    "C24": dict(bin="ik", quick_s=30, thorough_s=600, states="(model, tasks of the levels) or (model, hierarchy, front end, iterations, command issued) or (size of the tree, representation of its root)", real=["pepper_ik: models, tasks, configurable hierarchies, whole body controller, commands", "RBDL bridge", "YAML reader/writer bridge", "hierarchies, front ends of solvers, kktsolver", "URDF files of the repository"], stub=["RBDL library (not installed): kinematics of trees and a reader of URDF files behind its interface; it reproduces the values recorded with the real library in modules/pepper_ik/tests/regression_test_000.ref", "yaml-cpp library (not installed)", "qpOASES, qpmad and QuadProg++ libraries (not installed)", "robot (moves as commanded, with disturbances and lost commands)"], note="Seeded random search over robots, postures, references, hierarchies, histories and faults; the oracle derives poses, Jacobians, limits and least squares problems from the URDF files without code of the repository."),
    "C25": dict(bin="control", quick_s=25, thorough_s=600, states="(stance or time in the schedule, horizon, sampling)", real=CTLREAL + ["pepper_mpc controller"], stub=CTLSTUB, note=CTLNOTE),
    "C27": dict(bin="control", quick_s=30, thorough_s=600, states="(number of entries, solver or kind of names)", real=CTLREAL + ["pepper_mpc controller", "kktsolver", "logger (unthreaded)", "all log() functions of the core, wpg04, pepper_mpc and the front ends of the solvers"], stub=CTLSTUB + ["output device (stores, and fails after any byte)"], note=CTLNOTE),
    "C20": dict(bin="tumble", quick_s=15, thorough_s=300, states="(motion, slices)", real=["rotary_state.h: conversions of Euler angles and matrices, integration of angular velocities, rotation errors", "humoto::rigidbody::RotaryState", "etools::CrossProductMatrix, etools::transform"], stub=["the body (matrix exponential of its angular velocity)", "time (advanced by the simulation)"], note="Seeded random search over motions, time slicings, hand-overs between representations and disturbances; not exhaustive."),
    "C21": dict(bin="matrices", quick_s=15, thorough_s=300, states="(class of the matrix, operation, number of blocks; operation, sizes)", real=["block matrices, their interfaces, maps, block Kronecker products", "selections, squares, concatenation and removal in eigentools.h", "Eigen"], stub=["the program which uses the matrices (seeded histories of operations, including requests which must be refused)"], note="Seeded random search over histories of operations on 9 combinations of block sizes and 3 kinds of sparsity, up to 5 x 4 blocks; not exhaustive."),
    "C26": dict(bin="plant", quick_s=15, thorough_s=300, states="(model, controls, step; shape, condensing, length of the horizon)", real=["humoto::rigidbody::TripleIntegrator", "humoto::walking::PointMassModel6z", "condensing of humoto::MPC", "block matrices"], stub=["the plant (closed form motion under constant jerk, or with a linearly moving centre of pressure; random linear systems)", "time (advanced by the simulation)"], note="Seeded random search over systems up to 6 states, horizons up to 8 steps (14 thorough), time slicings and disturbances; not exhaustive."),
    "C19": dict(bin="walkcore", quick_s=10, thorough_s=120, states="(second boundary crossed, whole seconds)", real=["humoto::Timer"], stub=["system clock"], note="Seeded random search over clock histories; not exhaustive."),
}

NOT_APPLICABLE = {
}
for _i in range(5, 20):
    if "C%02d" % _i not in PROPS: NOT_APPLICABLE["C%02d" % _i] = "check under construction"
