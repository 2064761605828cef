"""Writes properties.jsonl and MANIFEST.json (run in /verif)."""
import json

E2 = "sopht/numeric/eulerian_grid_ops/"
IBO = "sopht/numeric/immersed_boundary_ops/"
IO = "sopht/utils/IO.py"
TESTS_IO = "tests/test_utils/test_IO.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "A checkpoint restores every registered array and the time exactly",
     "After a save returns, loading that checkpoint - by the same object later or by a new process that registered the same "
     "grids and fields - puts into every registered Eulerian field, Lagrangian grid and Lagrangian field exactly the values it had "
     "when saved (converted to the loading array's precision) and returns the saved time. This holds for any number of grids and "
     "fields, equal field names on different grids, any memory layout and any file name, and whatever other objects save or load. "
     "Saving changes no registered array and no other file; loading changes no file.",
     ["histories", "configurations", "inputs", "fault_sequences"],
     "All histories of registering, changing, saving, loading and dying of several objects and processes over several files, with "
     "short writes, interrupted calls and short reads on the disk below.",
     "The tests save and load one object with one or two freshly filled contiguous arrays in one process and to one name; they never "
     "combine grids, repeat or reorder saves, use other layouts or names, or restart.",
     [IO, "sopht/utils/__init__.py"],
     [("groups per grid and field kind in the file", IO + ": IO._save, IO.load"),
      ("registration of arrays by reference", IO + ": add_as_eulerian_fields_for_io, add_as_lagrangian_fields_for_io")],
     [("registered arrays", "what a checkpoint must hold", IO + ": IO.__init__")],
     ["arrays after load", "return value of load", "files on the disk"])

prop("C02", "A failed or killed save never leaves a silently wrong checkpoint",
     "Whatever happens inside a save - the process is killed at any point, the disk fills up or returns errors, a signal or an "
     "allocation failure raises - a later load of that file either fails or restores exactly the complete content of one save made "
     "to that name. A save that returns normally has written its complete checkpoint and its companion files; otherwise the error "
     "reaches the caller. The registered arrays and all other files stay as they were, and saving to another name works again "
     "afterwards.",
     ["crash_points", "fault_sequences", "configurations"],
     "Every file operation and every source line of a save as the place of a death, error or exception, over all configurations, "
     "with or without an earlier checkpoint of that name.",
     "No test makes a save fail: crash points and disk errors are not reachable from unit tests.",
     [IO],
     [("the data file is written and closed before it can be opened for reading", IO + ": IO.save, IO._save"),
      ("missing objects are errors at load time", IO + ": IO.load")],
     observe=["load in a fresh process", "exception of save", "files on the disk"])

prop("C03", "Loading refuses what it cannot restore and never writes to the disk",
     "Loading from a file that is missing, empty, truncated or no checkpoint, that lacks a registered grid or field, or that holds "
     "another dimension, grid geometry, size or field kind, raises an error instead of returning. It "
     "never changes a file. After a refused load the object still saves and loads correctly.",
     ["histories", "configurations", "fault_sequences"],
     "All histories of good and bad load attempts by long-lived and fresh objects against intact, truncated, foreign and "
     "mismatching files, with read errors and short reads.",
     "The tests try a handful of mismatches, each with a fresh object, and never a damaged file, a read error or a later use of the object.",
     [IO], [("comparison of stored and registered parameters", IO + ": IO.load")],
     observe=["exception of load", "later saves and loads", "files on the disk"])

prop("C04", "XDMF companion files describe exactly the data of their checkpoint",
     "After every save, a viewer that opens the companion files next to the checkpoint finds every saved field and grid once, with "
     "the right name, kind, number type and (for arrays of the object's real type) precision, shape, spacing, origin, connectivity and time, and each reference resolves "
     "(from the companion file's own directory) to the data just saved. Grids and fields that were not saved are not described.",
     ["histories", "configurations", "fault_sequences"],
     "All histories of registering and saving to any names and directories, restarts included, with short and interrupted writes.",
     "The tests only check that saving runs; nothing parses the companion files or resolves their references.",
     [IO],
     [("templates filled from the registered fields", IO + ": generate_xdmf_eulerian, generate_xdmf_lagrangian"),
      ("file name derivation", IO + ": _xdmf_file_name")],
     observe=["companion files resolved against the checkpoint"])

prop("C05", "A killed simulation resumed from its newest checkpoint ends the same",
     "A flow simulation with moving bodies that is killed or interrupted anywhere, and continued by new processes from the newest "
     "checkpoint that loads, passes through exactly the states of the undisturbed run and ends in the same state and time: the "
     "vorticity and velocity fields, the body positions and velocities and the feedback history are all the state there is. "
     "No scratch memory, solver, kernel or object needs to survive. With another number of threads this holds to rounding.",
     ["crash_points", "schedules", "histories", "fault_sequences"],
     "Every line of a time step and every file operation of a save as a crash point, repeated crashes, every thread schedule, any "
     "content of uninitialised memory, over configurations of grids, bodies and operators.",
     "No test runs more than one operator, restarts anything or combines checkpoints with a computation.",
     [IO, IBO + "VirtualBoundaryForcing.py", E2 + "poisson_solver_2d/UnboundedPoissonSolverPYFFTW2D.py",
      E2 + "poisson_solver_3d/UnboundedPoissonSolverPYFFTW3D.py", E2 + "stencil_ops_2d", E2 + "stencil_ops_3d"],
     [("scratch buffers are rewritten before they are read", E2 + "stencil_ops_*/advection_timestep_*.py, diffusion_timestep_*.py"),
      ("the history integral is an ordinary field", IBO + "VirtualBoundaryForcing.py")],
     [("position mismatch field", "integral of the velocity mismatch", IBO + "VirtualBoundaryForcing.py")],
     ["all fields after every step", "bodies' clocks"])

for id, dim, dirs in (("C06", "2D", "stencil_ops_2d"), ("C07", "3D", "stencil_ops_3d")):
    prop(id, f"Every {dim} grid kernel equals its documented operator on any schedule",
         f"Every generated {dim} grid kernel - fluxes, time steps, curls, {'divergence, stretching, ' if dim == '3D' else ''}penalisation, forcing updates, characteristic "
         "functions and elementwise operations, for scalar and vector fields - writes exactly its documented finite-difference or "
         "pointwise operator, to rounding, for every grid size, precision, memory layout, coefficient, thread count and fixed or flexible size. Ghost "
         "layers are reset or kept as requested, inputs are not modified, nothing outside the output arrays is written. The result is "
         "the same for every order and interleaving of the threads and does not depend on what the output or scratch arrays held.",
         ["schedules", "inputs", "configurations"],
         "All kernels and options, grid sizes down to the smallest, field contents, strides, thread counts (also fewer threads than asked "
         "for) and interleavings of the thread team.",
         "The tests compare each kernel on one or two square or cubic power-of-two grids with zeroed or ordinary outputs, under whatever schedule "
         "the machine happens to choose.",
         [E2 + dirs, "sopht/utils/pyst_kernel_config.py"],
         [("generated loop nests writing each point once", E2 + dirs),
          ("kernel configuration", "sopht/utils/pyst_kernel_config.py"),
          ("ghost-zone slices", E2 + dirs)],
         observe=["all argument arrays and the memory around them"])

prop("C08", "Interrupted time steps and shared scratch memory never corrupt a field",
     "Over any sequence of advection, diffusion and stretching steps on one field that share scratch arrays, every component after "
     "every step is exactly the forward-Euler (or Runge-Kutta) update of its value before, whatever the scratch held. If a step is interrupted by a signal or a "
     "failed allocation, the exception reaches the caller, the velocity is untouched, and each field component is "
     "either as before the step, or advanced; later steps are unaffected.",
     ["histories", "schedules", "crash_points"],
     "All histories of steps with shared or private scratch, interrupted at any line, under every interleaving of the thread team.",
     "The tests call each step once on fresh buffers and never interrupt it.",
     [E2 + "stencil_ops_2d/advection_timestep_2d.py", E2 + "stencil_ops_2d/diffusion_timestep_2d.py",
      E2 + "stencil_ops_3d/advection_timestep_3d.py", E2 + "stencil_ops_3d/diffusion_timestep_3d.py",
      E2 + "stencil_ops_3d/vorticity_stretching_timestep_3d.py"],
     [("flux buffers reset before accumulation", E2 + "stencil_ops_*/advection_timestep_*.py"),
      ("flux computed before the field is updated", E2 + "stencil_ops_*/*_timestep_*.py")],
     [("flux buffer", "scratch shared by all steps", "arguments of the step kernels")],
     ["field components after each step"])

prop("C09", "Unbounded Poisson solves equal the free-space sum on any history",
     "Every solve by the unbounded 2D and 3D Poisson solvers returns, to rounding, the sum of the current right-hand side times the regularised free-space "
     "Green's function, for any grid size and domain length, scalar or vector, also when the solution array is the right-hand "
     "side. It depends on nothing solved, interrupted or left in memory before and on no thread count or schedule, and leaves the "
     "right-hand side unchanged. Forward and backward transforms round-trip for every grid size and keep their input.",
     ["histories", "inputs", "schedules", "crash_points"],
     "All histories of scalar, vector, in-place and interrupted solves of several solvers, on any grids and right-hand sides.",
     "The tests solve once on one square power-of-two grid and compare with a loose norm against one analytic field or a copy of the code.",
     [E2 + "poisson_solver_2d/UnboundedPoissonSolverPYFFTW2D.py", E2 + "poisson_solver_3d/UnboundedPoissonSolverPYFFTW3D.py",
      E2 + "poisson_solver_2d/FFTPyFFTW2D.py", E2 + "poisson_solver_3d/FFTPyFFTW3D.py",
      E2 + "poisson_solver_2d/scipy_fft_2d.py", E2 + "poisson_solver_3d/scipy_fft_3d.py"],
     [("zeroing of the doubled domain before each solve", E2 + "poisson_solver_*/UnboundedPoissonSolver*.py: solve"),
      ("Green's function with even reflection", E2 + "poisson_solver_*/UnboundedPoissonSolver*.py: construct_fourier_greens_function_field")],
     [("doubled domain buffer", "padded right-hand side and solution", E2 + "poisson_solver_*/UnboundedPoissonSolver*.py")],
     ["solution and right-hand side arrays"])

prop("C10", "Fast diagonalisation solves give the zero-mean Neumann solution",
     "Every solve by the fast-diagonalisation solvers returns the zero-mean solution of the discrete Poisson problem with "
     "homogeneous Neumann boundaries for the current right-hand side (its mean ignored), in the solver's precision, for any grid size "
     "and spacing, scalar or vector, also in place where supported. It depends on nothing solved or interrupted before, and leaves "
     "the right-hand side unchanged.",
     ["histories", "inputs", "crash_points"],
     "All histories of scalar, vector, in-place and interrupted solves of several solvers on any grids.",
     "The tests solve once per solver on one smooth field and square grid.",
     [E2 + "poisson_solver_2d/FastDiagPoissonSolver2D.py", E2 + "poisson_solver_3d/FastDiagPoissonSolver3D.py"],
     [("eigenmodes of the one-dimensional operators", "FastDiagPoissonSolver*.py: construct_poisson_matrix, apply_boundary_conds_to_poisson_matrix"),
      ("the zero mode is removed", "FastDiagPoissonSolver*.py: solve")],
     observe=["solution and right-hand side arrays"])

prop("C11", "Virtual-boundary feedback is an exact history integral for every body",
     "For every body, in any interleaving of force evaluations, time steps and motions of several bodies on one grid, the node force "
     "is the stiffness times the time integral so far plus the damping coefficient times the current velocity mismatch between flow "
     "and body, and the grid receives exactly the spreading of that force: added to what is there, or replacing it if resetting is on. Evaluations do not "
     "advance the integral, time steps do so exactly once by the last mismatch, and the clock by the step. "
     "Interrupted calls may be repeated, and a body rebuilt with the saved integral continues identically.",
     ["histories", "schedules", "crash_points"],
     "All histories of evaluations, steps, motions, interruptions and restarts of one to three bodies, under every interleaving of the thread team.",
     "The tests check each sub-step once with preset fields; none runs several bodies or several steps.",
     [IBO + "VirtualBoundaryForcing.py"],
     [("explicit Euler update of the integral", IBO + "VirtualBoundaryForcing.py: time_step, update_lag_grid_position_mismatch_field_via_euler_forward"),
      ("optional reset before spreading", IBO + "VirtualBoundaryForcing.py: compute_interaction_force_on_eul_and_lag_grid_with_eul_grid_forcing_reset")],
     [("position mismatch", "history integral", IBO + "VirtualBoundaryForcing.py"), ("time", "clock of the body", IBO + "VirtualBoundaryForcing.py")],
     ["node force, grid force, history integral, clock"])

prop("C12", "Interpolation and spreading are one conservative, adjoint delta sum",
     "For every placement of nodes, node values are the delta-weighted sums of the grid field and grid values are increased by the "
     "delta-weighted sums of the node field, with the documented kernel, spacing and grid offset. Weights sum to one, constants are interpolated exactly, totals "
     "are conserved by spreading and both directions are adjoint. The result does not depend on node order, "
     "earlier placements, buffer contents or other communicators, and inputs are not modified.",
     ["histories", "inputs", "configurations", "crash_points"],
     "All histories of placements, interpolations and spreadings, on any grid, with nodes on, between, near or on top of each other, any node count, both kernels.",
     "The tests place nodes at a few regular positions on one grid and call each function once.",
     [IBO + "EulerianLagrangianGridCommunicator2D.py", IBO + "EulerianLagrangianGridCommunicator3D.py"],
     [("nearest cell and support", IBO + "EulerianLagrangianGridCommunicator*.py"),
      ("one weight array for both directions", IBO + "EulerianLagrangianGridCommunicator*.py")],
     [("interpolation weights", "delta function on the local support", "caller's buffers")],
     ["node and grid fields, nearest cells, weights"])

prop("C13", "Brinkmann boundary feedback follows its implicit penalisation law",
     "Every evaluation of the Lagrangian Brinkmann feedback gives at every node the velocity that the implicit penalisation step with the given "
     "coefficient and time step produces, hands the difference to the grid as spread flux (added, or replacing what was "
     "there if resetting is on), and reports the matching force. It depends on no earlier evaluation, body, interruption or "
     "thread schedule, and modifies no input.",
     ["histories", "schedules", "inputs", "crash_points"],
     "All histories of evaluations of one to three moving bodies with varying time steps, interrupted and repeated, under every interleaving of the thread team.",
     "The tests check single sub-steps with preset fields and a fixed time step.",
     [IBO + "experimental/BrinkmannBoundaryForcing.py"],
     [("implicit velocity update and flux", IBO + "experimental/BrinkmannBoundaryForcing.py")],
     observe=["node fields and grid flux"])

prop("C14", "Independently constructed objects never influence each other",
     "Solvers, forcings, communicators, kernels and checkpoint writers constructed independently - also with equal parameters - give, when used by "
     "several threads of the caller in any interleaving, the same results and files as when each is used alone in its "
     "own process. An exception in one thread does not affect the others.",
     ["schedules", "configurations", "fault_sequences"],
     "All interleavings (at source lines) of the work of two to four objects of equal, similar or different parameters.",
     "The tests use one object at a time in one thread.",
     ["sopht"],
     [("all working memory is per instance or passed in", "constructors of all classes and kernel generators")],
     observe=["all result arrays and files"])

prop("C15", "Filters and boundary penalisation depend on their current input only",
     "Every call of a Laplacian filter (any order and type) or boundary penalisation (any width) applies exactly its documented operator to the "
     "current field, whatever earlier calls, other operators sharing the same buffers, or interrupted calls left behind, under every "
     "interleaving of the threads. Points outside a penalisation zone are unchanged, coordinate arrays are never modified, and an "
     "exception inside a call reaches the caller.",
     ["histories", "schedules", "configurations", "crash_points"],
     "All histories of calls of one to three operators that share buffers, interrupted at any line, on any grid and width.",
     "The tests call each operator once with one order or width on fresh buffers.",
     [E2 + "stencil_ops_2d/penalise_field_boundary_2d.py", E2 + "stencil_ops_3d/penalise_field_boundary_3d.py",
      E2 + "stencil_ops_3d/laplacian_filter_3d.py"],
     [("copying into the work buffers at the start of a call", E2 + "stencil_ops_3d/laplacian_filter_3d.py"),
      ("sponge factors fixed at generation", E2 + "stencil_ops_*/penalise_field_boundary_*.py")],
     [("filter buffers", "scratch shared by calls", E2 + "stencil_ops_3d/laplacian_filter_3d.py")],
     ["fields after each call"])

prop("C16", "Discretisation errors vanish at the documented order",
     "The discrete operators converge to their continuous counterparts at the order their names state (third order for the ENO "
     "fluxes, second order for central differences and solvers) as the grid is refined.",
     ["inputs"], "All smooth fields and sequences of refined grids.",
     "The tests compare one or two resolutions for single fields.",
     [E2 + "stencil_ops_2d", E2 + "stencil_ops_3d"], [("stencil coefficients", E2 + "stencil_ops_*")])

prop("C17", "Operators use no more threads than they were constructed with",
     "Every solver, forcing and grid kernel constructed with a number of threads - or with threading off, the default - asks the "
     "OpenMP runtime and the FFT planner for at most that many threads (one, when off) in its construction and in every call, "
     "whatever other operators with other numbers were constructed or used before, and after interrupted calls.",
     ["histories", "configurations", "schedules"],
     "All orders of constructing and using several operators with different numbers of threads, with interruptions.",
     "No test looks at the number of threads: results are the same.",
     ["sopht/utils/pyst_kernel_config.py", E2, IBO],
     [("num_threads handed down to every inner kernel and plan", "all generators and constructors"),
      ("cpu_openmp of the kernel configuration", "sopht/utils/pyst_kernel_config.py: get_pyst_kernel_config")],
     observe=["team sizes asked of the OpenMP runtime", "threads of FFT plans"])

prop("C18", "Refused registrations leave a checkpoint writer exactly as it was",
     "Registering what does not fit - an array of a wrong shape or dimension, an Eulerian field before its grid, an invalid grid, "
     "alone or in one call with fitting arrays - raises, and the object keeps exactly what it had: later saves, companion files, "
     "loads and automatic grid names are as if the refused call had never been made. A registration that was interrupted may be "
     "repeated.",
     ["histories", "configurations", "fault_sequences"],
     "All histories of accepted, refused and interrupted registrations with saves and loads in between.",
     "The tests check that some misfits raise, but never use the object afterwards.",
     [IO, TESTS_IO],
     [("types of all fields are known before any is added", IO + ": add_as_eulerian_fields_for_io, add_as_lagrangian_fields_for_io"),
      ("automatic names count accepted grids only", IO + ": add_as_lagrangian_fields_for_io")],
     [("registered arrays and names", "what saves and loads handle", IO + ": IO.__init__")],
     ["files of later saves", "arrays after later loads"])

prop("C19", "Calls leave nothing behind in the process or on the disk",
     "However many calls are made of whatever object - successful, refused or interrupted ones - no file stays open, no file other than "
     "checkpoints and their companions is left on the disk, the number of threads and the memory in live arrays stop growing after the first "
     "calls, and process-wide settings (random state, floating-point error handling, environment, working directory, signal handlers, "
     "number of OpenMP threads) are unchanged.",
     ["histories", "fault_sequences", "configurations"],
     "All long histories of saves, loads, solves, forcings and kernel calls, with refusals and interruptions among them.",
     "The tests make one or two calls and look at results only.",
     ["sopht"],
     [("files are opened in with-statements", IO + ": IO._save, IO.load"),
      ("work arrays are allocated at construction", "constructors of all classes and kernel generators")],
     observe=["open file descriptors", "files on the disk", "live arrays and threads", "process-wide settings"])

with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

NOTE = {
    "C01": "Seeded histories of objects, files and processes on a simulated disk, judged against an in-memory reference model. Trusts h5py and libhdf5, which run for real. Power loss is not simulated.",
    "C02": "Deaths, errors and exceptions placed at seeded operations and lines of real saves; a fresh process must refuse or restore one complete save. Power loss and media corruption are not simulated.",
    "C03": "Seeded histories of good and bad loads on a simulated disk. Corruption of bytes inside an otherwise intact file is out of scope.",
    "C04": "After every save of a seeded history, a viewer model resolves the companion files against the disk.",
    "C05": "Whole simulations killed and resumed under a seeded scheduler, compared bit for bit with the undisturbed run. The time loop is ours; FFTW planning is made clock-free.",
    "C06": "Every generator and option set under seeded schedules of a simulated OpenMP team, with race and bounds detection, against double-precision references. Sequentially consistent memory.",
    "C07": "Every generator and option set under seeded schedules of a simulated OpenMP team, with race and bounds detection, against double-precision references. Sequentially consistent memory.",
    "C08": "Seeded histories of steps with interruptions at source lines and simulated teams, against double-precision references.",
    "C09": "Seeded histories against the direct Green's function sum, FFTW and kernels on the simulated team runtime. FFTW itself is not instrumented for races.",
    "C10": "Seeded histories against an independent cosine-mode solution and the residual of the discrete operator.",
    "C11": "Seeded histories of several bodies against a double-precision model of the feedback law. numba is absent here: its functions run as Python.",
    "C12": "Seeded histories against direct sums over the whole grid. numba is absent here: its functions run as Python.",
    "C13": "Seeded histories against a double-precision model of the penalisation law. numba is absent here: its functions run as Python.",
    "C14": "Real caller threads switched by a seeded scheduler at source lines, compared with each object alone in a pristine process. Native code is not preempted by caller threads.",
    "C17": "The simulated OpenMP runtime and the FFT planner report the largest team asked for over seeded histories. Threads inside BLAS, scipy and numba are not visible.",
    "C18": "Seeded histories of accepted, refused and interrupted registrations, compared with an object that saw the accepted ones only and with a model by value.",
    "C19": "Seeded long histories with refused and interrupted calls; resources are read from the operating system and the garbage collector. Memory is counted in live arrays.",
    "C15": "Seeded histories of operators sharing buffers against double-precision references, on the simulated team runtime.",
}
TECH = "deterministic simulation with fault injection: seeded search over "
WHAT = {
    "C01": "histories, process deaths and disk behaviour against a reference model",
    "C02": "crash points, disk errors and exceptions inside saves",
    "C03": "histories of refused loads with damaged files and read errors",
    "C04": "save histories on a simulated disk, checked by a viewer model",
    "C05": "kill-and-restart histories and thread schedules of whole simulations",
    "C06": "thread schedules of a simulated OpenMP runtime", "C07": "thread schedules of a simulated OpenMP runtime",
    "C08": "step histories, interruption points and thread schedules",
    "C09": "solve histories, interruption points and thread schedules",
    "C10": "solve histories and interruption points",
    "C11": "multi-body histories, restarts, interruptions and thread schedules",
    "C12": "placement histories and interruption points",
    "C13": "evaluation histories, interruptions and thread schedules",
    "C14": "interleavings of caller threads and injected exceptions",
    "C17": "construction and call histories on a simulated OpenMP runtime",
    "C18": "registration histories and interruption points",
    "C19": "long call histories with refused and interrupted calls",
    "C15": "call histories, interruption points and thread schedules",
}
man = {"version": 1, "setup_cmd": "sh setup.sh",
       "checks": [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": TECH + WHAT[i], "level": "exploration", "level_note": NOTE[i]}
                  for i in sorted(NOTE)],
       "not_applicable": [{"property": "C16", "reason": "A statement about limits of pure functions: no schedule, time, I/O, fault or history enters it, so simulation has nothing to decide. C06-C10 check each operator against its exact discrete definition instead."}],
       "notes": "No hooks in /repo: all seams are outside it (LD_PRELOAD of libc file calls and of the OpenMP runtime, array memory, trace-based exceptions and thread switching)."}
json.dump(man, open("MANIFEST.json", "w"), indent=1)
