#!/usr/bin/env python3
"""Single source of truth: writes ../properties.jsonl and ../MANIFEST.json.   python3 tools/registry.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "src/vmecpp/cpp/vmecpp/"
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None,
         technique=None, level="model_checking", note=None, claimed=True):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, hook=hook, technique=technique,
                  level=level, note=note, claimed=claimed))

CTL_STATE = [("geometry", "Fourier coefficients the forward model is evaluated at", V+"vmec/vmec/vmec.h"),
             ("checkpointed geometry", "the last accepted geometry, target of every rollback", V+"vmec/vmec/vmec.h"),
             ("iteration counters, time step, rollback counter, residual minima", "flow control", V+"common/flow_control/flow_control.h")]

prop("C01", "A solve reports success only for a converged equilibrium",
 "A solve that reports convergence has all three invariant force residuals of the last executed grid stage finite and at or below the tolerance requested for that stage, and the geometry it returns is the one those residuals were evaluated at. A solve that did not converge ends in an error, unless the caller asked for unconverged output; then an output is returned whose recorded residuals and tolerance expose the missing convergence. This holds alike for the built-in solver and the Python-driven iteration.",
 ["inputs", "configurations", "histories"],
 "for every input, grid sequence, iteration style, tolerance, budget and sequence of forward-model outcomes",
 "The repository's runnable tests never start the solver; its own solver tests run a handful of well-behaved equilibria to convergence and none of them scripts adversarial residual sequences (one residual above tolerance, NaN residuals, budget exhausted exactly at the last step).",
 [V+"vmec/vmec/vmec.cc", "src/vmecpp/_iteration.py", "src/vmecpp/__init__.py", V+"vmec/output_quantities/output_quantities.cc"],
 [("absolute stopping criterion in the step function", V+"vmec/vmec/vmec.cc"), ("final status test before output is computed", V+"vmec/vmec/vmec.cc"), ("convergence test of the Python loop", "src/vmecpp/_iteration.py")],
 CTL_STATE, ["status and output returned by a run", "residual history and recorded tolerance of the output"],
 technique="TLA+ solver-control spec (TLC): spec behaviours replayed into the C++ and Python loops with a scripted forward model; recorded real runs validated as traces")

prop("C02", "Grid refinement runs each stage with its own tolerance and budget",
 "The radial grids are solved in the order given and every executed stage uses exactly its own tolerance and never advances its iteration count past its own budget. Entries with fewer than three surfaces or coarser than a grid already solved are never solved: the built-in solver refuses such a sequence before any work, the Python driver skips them together with their tolerance and budget. A refined stage starts from the previous stage's geometry interpolated to the new grid, which is also its first rollback target. A stage that merely exhausts its budget hands over to the next stage, whereas a hard failure stops the sequence.",
 ["inputs", "configurations", "histories"],
 "for every sequence of (grid, tolerance, budget) entries, including repeated, decreasing and too coarse grids, and every outcome of every stage",
 "Only a few monotone two- or three-stage sequences are ever run, and nothing checks which tolerance or budget a stage actually used.",
 [V+"vmec/vmec/vmec.cc", "src/vmecpp/_iteration.py", V+"vmec/pybind11/pybind_vmec.cc"],
 [("multigrid loop", V+"vmec/vmec/vmec.cc"), ("radial initialisation and interpolation", V+"vmec/vmec/vmec.cc"), ("Python multigrid driver", "src/vmecpp/_iteration.py")],
 CTL_STATE, ["(grid, tolerance, budget) in force at every force evaluation", "geometry at the first evaluation of each stage"],
 technique="TLA+ solver-control spec (TLC) with stage sequences enumerated by TLC and replayed into the C++ and Python multigrid drivers")

prop("C03", "A rejected step returns exactly to the last checkpoint",
 "Whenever the solver rejects progress (overlapping flux surfaces, residual growth beyond the control's leash, or too slow progress), the next evaluated geometry is bit-for-bit the last checkpoint, the accumulated velocity is zero, and the time step is reduced by the factor of that rejection class. A checkpoint is taken only when the active control's improvement rule is met, and otherwise each evaluation is followed by exactly one damped step with the current time step and the damping averaged over the last ten residual ratios.",
 ["histories", "configurations", "schedules"],
 "for every history of residuals and Jacobian failures, every control style, and every number of threads",
 "Existing solver tests compare end results of converging runs; rollback, velocity reset and checkpoint rules are hit by accident at best and never compared with what they should be.",
 [V+"vmec/vmec/vmec.cc", "src/vmecpp/_iteration.py"],
 [("restart routine", V+"vmec/vmec/vmec.cc"), ("time step control", V+"vmec/vmec/vmec.cc"), ("Garabedian step and damping", V+"vmec/vmec/vmec.cc")],
 CTL_STATE, ["sequence of geometries and counters at which the forward model is evaluated"],
 technique="TLA+ solver-control spec (TLC): TLC behaviours replayed into the real C++ loop with a scripted forward model, comparing the geometry at each evaluation")

prop("C04", "Every solve gives up after bounded effort with a definite verdict",
 "A grid stage never exceeds its iteration budget, re-guesses the magnetic axis at most once per stage, resets the time step to 98% and 96% of the user's value after 25 and 50 counted rollbacks, and stops with a failure verdict after 75. A non-finite residual or an overlapping initial geometry is never iterated on: it leads to the single axis re-guess or to a failure.",
 ["histories", "inputs"],
 "for every history of residuals, Jacobian failures and non-finite values",
 "Give-up paths need dozens of consecutive failures that no shipped equilibrium produces.",
 [V+"vmec/vmec/vmec.cc", "src/vmecpp/_iteration.py"],
 [("rollback escalation", V+"vmec/vmec/vmec.cc"), ("axis re-guess", V+"vmec/vmec/vmec.cc"), ("escalation of the Python loop", "src/vmecpp/_iteration.py")],
 CTL_STATE, ["status of the run", "number of evaluations", "number of axis re-guesses"],
 technique="TLA+ solver-control spec (TLC): escalation invariants checked exhaustively with small constants; full-length failure histories replayed into both loops")

prop("C05", "The Python-driven iteration follows the built-in solver step for step",
 "For the two control styles the built-in solver offers, driving the iteration from Python evaluates the same sequence of geometries with the same counters, takes the same checkpoint, rollback, time-step and give-up decisions and reports the same verdict as the built-in solver. Its reported per-iteration snapshots and totals (rollbacks, axis re-guesses, time step, residual minima, iteration count) describe exactly the decisions taken.",
 ["inputs", "histories", "configurations"],
 "for every sequence of forward-model outcomes, every style, and single- as well as multi-stage solves",
 "Repository tests compare the two loops on a few converging cases; the repository's runnable test set compares nothing.",
 ["src/vmecpp/_iteration.py", V+"vmec/vmec/vmec.cc", V+"vmec/pybind11/pybind_vmec.cc"],
 [("Python port of the loop", "src/vmecpp/_iteration.py"), ("step-wise model object", V+"vmec/pybind11/pybind_vmec.cc")],
 CTL_STATE, ["calls made on the model object", "iteration result and callback snapshots", "residual history of both loops"],
 technique="one TLA+ solver-control spec bound to both loops: TLC behaviours replayed into the Python loop (scripted model) and the C++ loop; real runs of both validated step by step")

prop("C06", "Results do not depend on thread count or thread interleaving",
 "For a given input every number of worker threads and every interleaving of them produces the same verdict, the same iteration history and the same output up to floating-point rounding. No run deadlocks or loses an update.",
 ["schedules", "configurations"],
 "for every thread count from one up to more threads than flux surfaces and every interleaving of the workers between synchronisation points",
 "Tests observe the interleavings the machine happens to produce; a missing synchronisation shows up only under rare schedules.",
 [V+"vmec/vmec/vmec.cc", V+"vmec/ideal_mhd_model/ideal_mhd_model.cc", V+"vmec/handover_storage/handover_storage.h", V+"vmec/radial_partitioning/radial_partitioning.cc", V+"vmec/radial_profiles/radial_profiles.cc"],
 [("barriers / single / critical regions of the persistent parallel region", V+"vmec/vmec/vmec.cc"), ("hand-over storage between radial neighbours", V+"vmec/handover_storage/handover_storage.h")],
 [("sync phases", "position of each worker between two barriers", V+"vmec/vmec/vmec.cc")], ["residual history and output per schedule"],
 technique="TLA+ model of barrier-phase execution; worker orders enumerated by TLC and forced on the real OpenMP run by a controlled scheduler; traces validated by TLC")

prop("C07", "Work partitioning covers every surface and grid point exactly once",
 "For every number of surfaces, threads and boundary kind, each radial location is advanced by exactly one worker, each worker's extended ranges add exactly the neighbouring locations it needs, and the plasma boundary is advanced only in free-boundary runs and then by exactly one worker. The angular grid of the vacuum solve is split into contiguous, disjoint, complete ranges.",
 ["configurations"],
 "for every (number of surfaces, number of threads, fixed/free boundary) and every (grid size, number of threads)",
 "Tests check a few hand-written partitions.",
 [V+"vmec/radial_partitioning/radial_partitioning.cc", V+"free_boundary/tangential_partitioning/tangential_partitioning.cc", V+"common/util/util.cc", V+"vmec/vmec/vmec.cc"],
 [("radial partitioning", V+"vmec/radial_partitioning/radial_partitioning.cc"), ("tangential partitioning", V+"free_boundary/tangential_partitioning/tangential_partitioning.cc"), ("thread-count adjustment", V+"common/util/util.cc")],
 [], ["index ranges of each worker"],
 technique="TLA+ partition spec; TLC enumerates all configurations up to a bound and checks the ranges recorded from the real code")

prop("C08", "Vacuum field activates once, in order, and only when the plasma is ready",
 "In a free-boundary solve the vacuum contribution goes through off, initialising, initialised and active in that order: it stays off until the geometry forces fall below the activation threshold after the first iteration, then turns on, is never turned off again within the solve, and activation returns to the last checkpointed geometry at rest and restarts the damping. The vacuum solve is redone in full when it is turned on and again within the current skip interval (nvacskip, lengthened only as the forces fall); a hot-started or refined solve takes the vacuum field into account from its first evaluation on, and fixed-boundary solves never touch it.",
 ["histories", "configurations"],
 "for every free-boundary input, grid sequence, start kind and thread count",
 "Free-boundary tests need large binary field files that are not available to the runnable tests, and compare converged results only.",
 [V+"vmec/ideal_mhd_model/ideal_mhd_model.cc", V+"vmec/vmec/vmec.cc"],
 [("vacuum state transitions in the forward model", V+"vmec/ideal_mhd_model/ideal_mhd_model.cc"), ("activation and continuation in the solver loop", V+"vmec/vmec/vmec.cc")],
 [("vacuum pressure state", "off/initialising/initialised/active", V+"vmec/vmec/vmec.h")], ["vacuum state, residuals and counters at every iteration"],
 technique="TLA+ vacuum-activation spec (TLC exhaustive) and trace validation of recorded free-boundary runs")

prop("C09", "An interrupt stops the solve promptly and leaves nothing half-done",
 "When the interrupt request is raised, the solve ends at the first iteration report after it with a cancellation error (a keyboard interrupt in Python), runs no further force evaluation, produces no output, and is honoured whatever the stage, thread count or iteration at which it arrives. A solve that is not interrupted is unaffected by being polled, and the request is polled at the first iteration and at every reporting interval.",
 ["fault_sequences", "histories", "configurations"],
 "for every poll at which the interrupt can be raised, every stage, thread count and start kind",
 "No runnable test interrupts a run.",
 [V+"vmec/vmec/vmec.cc", V+"vmec/pybind11/pybind_vmec.cc", "src/vmecpp/__init__.py"],
 [("interrupt poll in the iteration loop", V+"vmec/vmec/vmec.cc"), ("translation to a Python exception", V+"vmec/pybind11/pybind_vmec.cc")],
 [], ["status of the run", "poll and evaluation events"],
 technique="TLA+ interrupt model on the solver-control spec; every interrupt point enumerated and injected into the real solver, traces validated by TLC")

prop("C10", "Hot restart accepts only matching states and resumes at the given solution",
 "Restarting from a previous solution is accepted only if symmetry class, poloidal and toroidal resolution and the first grid match those of the stored solution and all its coefficient tables are there, and is otherwise refused with an error before any work is done. An accepted restart starts from the stored geometry (with the new boundary in fixed-boundary runs), so restarting a converged, unchanged problem finishes almost at once at the same solution (with a free boundary after at most the 50 iterations during which the balance at the edge counts); later stages ignore the restart state.",
 ["inputs", "histories"],
 "for every pair of stored solution and new input",
 "Tests restart a couple of cases; they do not try the mismatch combinations or look at the geometry the restart begins with.",
 [V+"vmec/vmec/vmec.cc", V+"vmec/fourier_geometry/fourier_geometry.cc", "src/vmecpp/__init__.py"],
 [("initial state check", V+"vmec/vmec/vmec.cc"), ("initialisation from a state", V+"vmec/fourier_geometry/fourier_geometry.cc")],
 [], ["status of the run", "number of iterations", "geometry at the first evaluation"],
 technique="TLA+ spec of restarts (admission, start geometry, later stages); TLC enumerates every mismatch combination and generates stored geometries, replayed into the real solver through all four entries; observed geometries and outcomes validated by TLC")

prop("C11", "The step-wise model object behaves like a well-defined state machine",
 "Setting a state and reading it back is the identity, a state of the wrong length is refused without changing anything, restoring a checkpoint yields exactly the checkpointed geometry with zero velocity, refining is allowed only to a strictly finer grid, and a Hessian-vector product leaves geometry unchanged. With the gauge fixed, evaluating the same state twice gives the same forces and residuals, whatever was evaluated in between.",
 ["histories", "inputs"],
 "for every sequence of operations on the model object",
 "Tests exercise single operations, not sequences of them.",
 [V+"vmec/pybind11/pybind_vmec.cc", "src/vmecpp/_iteration.py", V+"vmec/ideal_mhd_model/ideal_mhd_model.cc"],
 [("step-wise model object", V+"vmec/pybind11/pybind_vmec.cc")],
 [("geometry, velocity, checkpoint, grid", "state of the model object", V+"vmec/pybind11/pybind_vmec.cc")], ["state vector, forces, residuals after each operation"],
 technique="TLA+ state-machine spec of the model object; operation sequences generated by TLC replayed into the real object, observed trace validated by TLC")

prop("C12", "An input keeps its meaning across every representation",
 "Converting an input between its Python object, its JSON text, the solver's own structure and the binary file it is archived in preserves every field exactly, in every order of conversions, with sparse and dense coefficient lists interchangeable. A coefficient that does not fit the declared resolution is reported, never silently dropped or moved.",
 ["inputs", "histories"],
 "for every input (symmetric or not, fixed or free boundary, any resolution) and every chain of conversions",
 "Round trips are tested for shipped symmetric inputs only.",
 ["src/vmecpp/__init__.py", V+"common/vmec_indata/vmec_indata.cc", V+"common/vmec_indata/boundary_from_json.cc", "src/vmecpp/_pydantic_numpy.py"],
 [("conversion to and from the solver structure", "src/vmecpp/__init__.py"), ("JSON reader / writer", V+"common/vmec_indata/vmec_indata.cc"), ("HDF5 reader / writer", V+"common/vmec_indata/vmec_indata.cc")],
 [], ["field values after each conversion"],
 technique="TLA+ representation-graph spec; TLC-generated conversion walks executed on the real converters, field digests validated by TLC")

prop("C13", "Invalid inputs are refused with an error, never crash or run silently",
 "An inconsistent or malformed input (bad counts, missing or wrongly sized arrays, unknown options, unreadable or malformed files, impossible thread counts) is refused with a reportable error before any solving starts. The process never aborts, and a valid input is never refused.",
 ["inputs", "fault_sequences"],
 "for every combination of defects in the input",
 "Tests check individual validation messages for a few fields.",
 [V+"common/vmec_indata/vmec_indata.cc", V+"vmec/vmec/vmec.cc", V+"common/sizes/sizes.cc", V+"common/flow_control/flow_control.cc", "src/vmecpp/__init__.py"],
 [("consistency check", V+"common/vmec_indata/vmec_indata.cc"), ("status propagation to Python", V+"vmec/pybind11/pybind_vmec.cc")],
 [], ["outcome class of a run or load: ok / error / crash"],
 technique="TLA+ validation spec (which defect combinations are invalid); TLC enumerates defect combinations, replayed into the real entry points in subprocesses")

prop("C14", "Changing the Fourier resolution keeps every shared coefficient in place",
 "Raising the poloidal or toroidal resolution of an input or of a stored solution keeps every existing coefficient under its mode numbers and fills the new ones with zero; lowering it drops exactly the modes that no longer fit. Raising and then lowering is the identity, and remapping a stored solution at unchanged resolution and grid reproduces it exactly.",
 ["inputs", "histories"],
 "for every pair of resolutions, symmetry class and sequence of changes",
 "Tests try a few fixed pairs.",
 ["src/vmecpp/__init__.py", "src/vmecpp/_continuation.py", V+"common/vmec_indata/vmec_indata.cc"],
 [("resolution setter", V+"common/vmec_indata/vmec_indata.cc"), ("coefficient resizing", "src/vmecpp/__init__.py"), ("solution interpolation", "src/vmecpp/_continuation.py")],
 [], ["coefficient tables by mode number"],
 technique="TLA+ mode-table spec; TLC-generated resolution histories replayed into the real code, mode tables validated by TLC")

prop("C15", "A resolution continuation runs its whole schedule and ends at the request",
 "A run with an intermediate resolution schedule performs one solve per scheduled step in order, each with the scheduled resolution and grid settings and each after the first started from the previous step's solution, and its last solve is the requested input unchanged. A schedule with fewer tolerances, budgets or resolutions than grids (or more resolutions than grids) is refused before any solve, and a failing step ends the run with that failure.",
 ["histories", "inputs", "fault_sequences"],
 "for every schedule, every place a step can fail, fixed and free boundary",
 "Tests run one or two schedules to success.",
 ["src/vmecpp/_continuation.py", "src/vmecpp/__init__.py"],
 [("continuation driver", "src/vmecpp/_continuation.py"), ("entry point", "src/vmecpp/__init__.py")],
 [], ["sequence of solves with their inputs and start states"],
 technique="TLA+ continuation spec; schedules and failure points enumerated by TLC, replayed with a scripted solver, call traces validated by TLC")

prop("C16", "Conversion to and from the classic input format preserves the problem",
 "Writing an input in the classic namelist format and reading that text back yields the same problem: every scalar, profile, axis and boundary coefficient at its mode numbers. Temporary files made for a conversion are removed and the working directory restored on success and on every failure.",
 ["inputs", "fault_sequences"],
 "for every input and every point at which the conversion can fail",
 "Tests convert one shipped file; cleanup after failures is not tested.",
 ["src/vmecpp/_util.py", "src/vmecpp/__init__.py"],
 [("namelist writer", "src/vmecpp/_util.py"), ("temporary-file handling", "src/vmecpp/_util.py")],
 [], ["parsed namelist", "directory contents and working directory after each call"],
 technique="TLA+ conversion/cleanup spec; inputs and fault points enumerated by TLC, executed on the real converters, traces validated by TLC")

prop("C17", "Saved outputs load back to the same output",
 "Saving an output to the standard result file or the full output archive and loading it back yields the same quantities with the same shapes, types and values, including optional and non-symmetric ones, and saving the loaded output again changes nothing. A file that lacks required content or is not a result file is refused with an error.",
 ["inputs", "histories"],
 "for every kind of output (symmetric or not, fixed or free boundary, converged or not) and every chain of saves and loads",
 "Tests round-trip one or two symmetric outputs.",
 ["src/vmecpp/__init__.py", V+"vmec/output_quantities/output_quantities.cc", "src/vmecpp/cpp/util/hdf5_io"],
 [("result file writer and reader", "src/vmecpp/__init__.py"), ("archive writer and reader", V+"vmec/output_quantities/output_quantities.cc")],
 [], ["field digests before and after"],
 technique="TLA+ representation-graph spec; save/load walks generated by TLC executed on real outputs, digests validated by TLC")

prop("C18", "Saving an output never leaves a damaged or partial file",
 "If saving an output to the standard result file fails at any point (unsupported content, interrupt, full disk, destination that cannot be replaced), the destination keeps its previous content (or stays absent) and no temporary file remains; if it succeeds the destination holds exactly the new output, also when several saves to it overlap. A reader that opens the destination at any moment, even after the saving process was killed, sees either a complete old or a complete new file.",
 ["crash_points", "fault_sequences"],
 "for every write operation at which the save can fail or the process be killed, with and without a previous file",
 "Tests only save successfully.",
 ["src/vmecpp/__init__.py"],
 [("write to a temporary name, then replace", "src/vmecpp/__init__.py")],
 [("destination file", "absent / old / new / partial", "src/vmecpp/__init__.py")], ["directory contents after each injected fault"],
 level="model_checking",
 technique="TLA+ save-protocol spec (TLC exhaustive over crash points); every fault point injected into the real save, directory states validated by TLC")

prop("C19", "The optimisation wrapper re-solves exactly when its problem changed",
 "After any sequence of parameter, boundary and resolution changes, runs and failures, reading a result reflects the current parameters, boundary and resolution: a solve happens if and only if one of them was set since the last successful one, and it is given exactly their current values. A failed solve is reported as an objective failure and is retried on the next request rather than serving stale results, and an object loaded from a result file serves that file's results and refuses to be re-run.",
 ["histories"],
 "for every sequence of changes, reads, successful and failing solves",
 "Tests follow two or three straight-line histories.",
 ["src/vmecpp/simsopt_compat.py"],
 [("run-needed flag and run method", "src/vmecpp/simsopt_compat.py")],
 [("run-needed flag, cached output, current parameters", "cache state", "src/vmecpp/simsopt_compat.py")], ["solver invocations and returned values per operation"],
 technique="TLA+ cache spec (TLC exhaustive); operation histories generated by TLC replayed into the real wrapper with a scripted solver, traces validated by TLC")

prop("C20", "A coils file is read as exactly the circuits and windings it lists",
 "Every filament in a well-formed coils file ends up in the circuit it names with its points, winding count and current, in file order, and nothing else does; coils naming the same circuit share one circuit, however they are interleaved, and neither spelling of numbers nor white space matters. Setting the circuit currents, moving winding counts into the currents and shifting the coils radially afterwards keep that assignment: every coil keeps its place, its points and (for the normalisation) its ampere-turns. A malformed file (bad numbers, a wrong number of columns, differing winding counts in a filament, mirrored coils, a filament section that is missing, not ended, or ends inside a filament, an unreadable path) is refused with an error, as is a list of currents of the wrong length.",
 ["inputs", "histories"],
 "for every sequence of lines",
 "Tests read two shipped files.",
 [V+"common/magnetic_configuration_lib/magnetic_configuration_lib.cc", V+"common/composed_types_lib/composed_types_lib.cc"],
 [("coils file parser", V+"common/magnetic_configuration_lib/magnetic_configuration_lib.cc")],
 [("parser state", "header seen, filament under construction, circuits so far", V+"common/magnetic_configuration_lib/magnetic_configuration_lib.cc")], ["parsed configuration", "status"],
 technique="TLA+ line-grammar automaton; line sequences generated by TLC, fed to the real parser, results validated by TLC")

prop("C21", "External field tables are faithful and linear in the coil currents",
 "A computed table holds, per circuit and grid point, the Biot-Savart field (and vector potential) of that circuit with its windings (normalised by the circuit current when asked), independent of whether it was computed directly or by mirroring the symmetric half. The field used by a free-boundary solve is the sum over circuits of current times tabulated response, interpolated linearly between grid points, the same whether the table is passed in memory, read from an mgrid file (single or double precision) or written and read back, and whatever was loaded before. Tables that do not match the currents, the grid, the field periods or toroidal planes of the solve, or the file format are refused with an error.",
 ["inputs", "configurations", "histories"],
 "for every set of currents, grid parameters, coil set and table transport",
 "Tests compare one shipped coil set with a reference file that is not available here.",
 [V+"common/makegrid_lib/makegrid_lib.cc", V+"free_boundary/mgrid_provider/mgrid_provider.cc", "src/vmecpp/_free_boundary.py"],
 [("response table computation", V+"common/makegrid_lib/makegrid_lib.cc"), ("table loading and superposition", V+"free_boundary/mgrid_provider/mgrid_provider.cc")],
 [], ["field values at grid points", "status of loads"],
 technique="TLA+ field-table spec (superposition over circuits, transports, mirror); TLC-generated load/interpolate histories and table layouts executed on the real code and compared with the model's exact integer values")

prop("C22", "A fixed boundary stays fixed and prescribed profiles are honoured",
 "In a fixed-boundary solve the outermost surface equals the prescribed boundary (in the solver's orientation) at every iteration and in the output, and the prescribed pressure, iota or current profile and enclosed flux appear in the output as given. Reversing the poloidal orientation of a prescribed stellarator-symmetric boundary, and with it the sign of a prescribed rotational transform, does not change the solution.",
 ["inputs", "histories"],
 "for every input, every iteration, every stage and every thread count",
 "Tests compare a few converged outputs with references; no test watches the boundary during the iteration.",
 [V+"vmec/vmec/vmec.cc", V+"vmec/boundaries/boundaries.cc", V+"vmec/radial_profiles/radial_profiles.cc", V+"vmec/output_quantities/output_quantities.cc"],
 [("boundary setup and orientation flip", V+"vmec/boundaries/boundaries.cc"), ("step restricted to interior surfaces", V+"vmec/vmec/vmec.cc"), ("profile evaluation", V+"vmec/radial_profiles/radial_profiles.cc")],
 [], ["boundary coefficients at each iteration and in the output", "profiles in the output"],
 technique="TLA+ specs of the boundary frame and of the profile parameterizations; TLC generates boundaries and profiles with exact answers, replayed into real solves watched at every iteration; observations validated by TLC")

prop("C23", "A problem has one solution, however it is described",
 "Two inputs that describe the same problem, with a fixed or a free boundary, have the same solution. Changing the unit of length or of field strength, the direction of flux and current, the origin or direction of the toroidal angle, the number of field periods (with the modes counted anew), adding toroidal modes to an axisymmetric problem, viewing it in a mirror, no longer assuming a symmetry it has (lasym), or writing the same profile in another parameterization or with another pres_scale gives the same iteration history up to rounding, and every output quantity, scalar, profile or Fourier coefficient, changes exactly by its physical dimension and sign. (With a free boundary the external field is described anew as well; there the vacuum field is discretised per field period, and the number of periods and of toroidal modes is part of the problem.)",
 ["inputs", "configurations"],
 "for every problem and every sequence of such re-descriptions",
 "Tests compare single runs with references in one fixed description.",
 [V+"vmec/output_quantities/output_quantities.cc", V+"vmec/ideal_mhd_model/ideal_mhd_model.cc", V+"vmec/boundaries/guess_magnetic_axis.cc", V+"vmec/fourier_geometry/fourier_geometry.cc", V+"vmec/radial_profiles/radial_profiles.cc", V+"free_boundary/nestor/nestor.cc", V+"free_boundary/laplace_solver/laplace_solver.cc"],
 [("vacuum field outside a free boundary", V+"free_boundary/nestor/nestor.cc"), ("forward model, symmetric and asymmetric", V+"vmec/ideal_mhd_model/ideal_mhd_model.cc"), ("derived output quantities", V+"vmec/output_quantities/output_quantities.cc"), ("replacement of a bad initial axis", V+"vmec/boundaries/guess_magnetic_axis.cc")],
 [], ["iteration history and outputs of both solves"],
 technique="TLA+ spec of the re-descriptions as a group acting on boundaries, axis, profiles and on dimensions and signs of the outputs (TLC checks that every path gives the same surface); generated pairs of descriptions solved for real and compared through the spec's map")

prop("C24", "A run depends on nothing but its arguments and changes none of them",
 "What a run returns is determined by what its input, its restart solution and its external field (table or file) held when it was called: not by earlier solves, failures, interrupts, step-wise models or dropped results in the same process, not by solves running beside it in other Python threads, and not by edits the caller makes afterwards. A run leaves its arguments and every earlier output as they were, an output keeps recording the input it was computed from, and repeating a run repeats its result.",
 ["histories", "schedules"],
 "for every sequence of operations in one process and every overlap of runs",
 "Each test runs one solve in a fresh object and looks at that one result.",
 ["src/vmecpp/__init__.py", "src/vmecpp/_continuation.py", V+"vmec/pybind11/pybind_vmec.cc", V+"vmec/vmec/vmec.cc", V+"vmec/ideal_mhd_model/ideal_mhd_model.cc", V+"free_boundary/mgrid_provider/mgrid_provider.cc"],
 [("hand-over of arguments and outputs", "src/vmecpp/__init__.py"), ("solver entry, released while other threads go on", V+"vmec/pybind11/pybind_vmec.cc"), ("solver object per run", V+"vmec/vmec/vmec.cc")],
 [], ["outputs, recorded inputs and all live objects after every operation"],
 technique="TLA+ spec of a process history (inputs, edits, overlapping runs, restarts, failures; sound and unsound memories and sharing told apart by TLC); generated histories replayed in one process, every result compared with a fresh process and every live object with the spec after each operation")

prop("C25", "The command line ends with status 0 exactly when the result is in its place",
 "`vmecpp INPUT` (python -m vmecpp) ends with status 0 exactly when the problem in INPUT was solved and wout_NAME.nc in the working directory, NAME taken from NAME.json or input.NAME of the path given, holds the result of that problem; `vmecpp convert input.NAME` when NAME.json beside it holds the same problem; the C++ program vmec_standalone when NAME.out.h5 beside NAME.json holds the result. In every other case (bad arguments, an unreadable, refused or unconverged problem, a full disk, a place that is taken, Ctrl-C) the status is not 0 and no file is new, changed or gone: no earlier result, no input, no file of another configuration. Nothing is solved whose result cannot be named, -t bounds the number of threads, and -q keeps the log off standard output.",
 ["inputs", "histories", "faults"],
 "for every sequence of commands in any folders, every path and name, every failure and moment of interruption",
 "The tests call the library; no test runs the command line to a failure or looks at the folder afterwards.",
 ["src/vmecpp/__main__.py", "src/vmecpp/_util.py", "src/vmecpp/__init__.py", V+"vmec/vmec_standalone/vmec_standalone.cc"],
 [("command line", "src/vmecpp/__main__.py"), ("names of configurations", "src/vmecpp/_util.py"), ("C++ program", V+"vmec/vmec_standalone/vmec_standalone.cc")],
 [], ["status, standard output, number of threads and all files of the folders after every command"],
 technique="TLA+ spec of command sequences over folders of inputs and results (sound and unsound naming, order and status told apart by TLC); generated sequences replayed with real processes in scratch folders, status and every file compared after each command")

def manifest():
    checks, na = [], []
    done = json.load(open(os.path.join(ROOT, "tools", "claimed.json"))) if os.path.exists(os.path.join(ROOT, "tools", "claimed.json")) else {}
    for p in P:
        c = done.get(p["id"])
        if c is None:
            na.append({"property": p["id"], "reason": p.get("na_reason") or "check still under construction; not claimed yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick",
            "thorough_cmd": f"bash run.sh {p['id']} thorough",
            "technique": p["technique"], "level": p["level"], "level_note": c["note"]})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

def properties():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                    "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}
            f.write(json.dumps(d) + "\n")

if __name__ == "__main__":
    properties(); manifest()
