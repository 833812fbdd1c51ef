"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, pathlib

P = "surface_potential_analysis/"
props = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [P + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": n, "where": P + w} for n, w in mechanism],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


prop("C01", "Pickle result cache survives crashes and I/O errors",
     "A result cache kept on disk in pickle form never yields anything but a complete value that the cached function produced for those arguments: whatever crash, power loss, full disk or I/O error interrupts a store, the entry afterwards is either the complete previous value, the complete new value, or absent. Once the faults stop, the next call succeeds without manual clean-up, and a call that meets an I/O error reports that error and leaves no partial files beside the entry (unless it was killed). A failed or killed store never destroys an entry that was already there.",
     ["crash_points", "fault_sequences", "schedules", "histories"],
     "every point at which a store or load can be interrupted (kill, power loss losing any unsynced data, EIO, ENOSPC, keyboard interrupt, short writes), any sequence of stores and loads, and any interleaving of several processes and threads sharing an entry",
     "No test touches the cache at all; a sampled test could only see the fault-free path, never a kill between two writes or a reader racing a writer.",
     ["util/decorators.py"],
     [("store to a private file then atomically replace the entry", "util/decorators.py:_write_atomic"), ("load that treats only a missing file as a miss", "util/decorators.py:CachedFunction")],
     ["return value / exception of the cached function", "directory contents after the call"],
     [("cache entry", "file at the configured path", "util/decorators.py")])

prop("C02", "Array-file result cache survives crashes and I/O errors",
     "A result cache kept on disk as an array file never yields anything but a complete array that the cached function produced for those arguments, whatever crash, power loss, full disk or I/O error interrupts a store; afterwards the entry is complete or absent and, once faults stop, the next call succeeds without manual clean-up. After a store has completed, later calls (also from new processes) are answered from the entry without calling the function again, whatever the file name's suffix. A call that meets an I/O error reports that error and leaves no partial files (unless it was killed).",
     ["crash_points", "fault_sequences", "schedules", "histories"],
     "every interruption point of a store or load, any entry name (with or without suffix), array shapes and types, and any interleaving of several processes and threads sharing an entry",
     "No test touches the cache; crash points and racing processes are outside what a unit test samples.",
     ["util/decorators.py"],
     [("store to a private file then atomically replace the entry", "util/decorators.py:_write_atomic"), ("read-through load", "util/decorators.py:npy_cached")],
     ["return value / exception of the cached function", "directory contents", "number of calls of the cached function"])

prop("C03", "Caching modes behave like a simple read/write-through register",
     "Over any history of calls, restarts and concurrent callers, each caching mode behaves as named: the load-or-call modes call the function exactly once if and only if no entry exists, the call modes always call it exactly once, only the cached modes write the entry, the uncached modes never write, and a configured path of none means no file is read or written. The entry location is computed from exactly the arguments of the call, so different arguments never see each other's values; reads return the value of the latest completed (or a concurrent) store and values handed out are independent of later mutation by callers. An exception raised by the function propagates unchanged and stores nothing.",
     ["histories", "schedules", "programs"],
     "every sequence of modes, arguments, path configurations, caller mutations, function failures and process restarts, and every interleaving of concurrent callers",
     "No test covers the modes; the property quantifies over histories and schedules.",
     ["util/decorators.py"],
     [("mode dispatch", "util/decorators.py:CachedFunction.__call__"), ("path computed from call arguments", "util/decorators.py:CachedFunction._get_cache_path"), ("array cache", "util/decorators.py:npy_cached")],
     ["return values", "calls of the wrapped function", "files read and written"])

prop("C04", "Potential data files load completely or fail loudly",
     "Loading a potential, uneven potential, grid potential or point potential from a file either returns exactly the data the file held at one instant, on the axes the file describes, or raises: truncated files, read errors, short reads, interrupted system calls and concurrent replacement of the file by another process never produce a partial or mixed potential. Loading never modifies the file, and every file opened is closed again whether or not loading succeeds.",
     ["fault_sequences", "schedules", "inputs"],
     "every truncation point and read fault, every interleaving with a process that atomically replaces the file, and every well-formed file content",
     "The loaders have no tests, and faults while reading or a file replaced between two reads need an injected file system.",
     ["potential/potential.py", "potential/point_potential.py"],
     [("single read of the file", "potential/potential.py:load_potential"), ("json loaders", "potential/potential.py:load_potential_grid_json"), ("point potential loader", "potential/point_potential.py:load_point_potential_json")],
     ["returned potential", "exception", "open file count", "file contents"])

prop("C05", "Localization uses exactly the answer the external solver gave",
     "When localization is delegated to the external Wannier solver, the returned operator is exactly the unitary the solver produced in this call for these bands, with each k point, band and projection in its right place, and localized wavepackets follow from it. A solver that fails, is missing, or leaves its result absent, stale, truncated or of the wrong size leads to the documented request to run it by hand or to an error, never to an operator that is silently incomplete or comes from elsewhere. Band-by-band localization assembles the individual answers on the diagonal in band order and never mixes bands.",
     ["fault_sequences", "histories", "inputs"],
     "every outcome of each solver run (success, missing binary, non-zero exit, crash after partial output, truncated or stale result, manual completion), every numbers of k points, bands and projections",
     "The external program is not installed and nothing tests this path; failures of a second program cannot be sampled by a unit test.",
     ["wavepacket/localization/_wannier90.py", "wavepacket/localization_operator.py"],
     [("run solver, fall back to manual request", "wavepacket/localization/_wannier90.py:get_localization_operator_wannier90"), ("parse and validate result file", "wavepacket/localization/_wannier90.py:_get_localization_operator_from_u_mat_file"), ("band by band assembly", "wavepacket/localization/_wannier90.py:get_localization_operator_wannier90_individual_bands")],
     ["returned operator", "exceptions", "requests to the operator"])

prop("C06", "The external Wannier solver is handed a faithful, complete problem",
     "Before each of its two runs the external solver finds complete files describing exactly the caller's problem: the cell, the k-point mesh with its fractions, band count and options, then the overlap of every pair of bands for every neighbour pair the solver itself asked for, in the order and indexing it asked, and the projection coefficients when projections were given. The overlaps equal the inner products of the periodic Bloch states, shifted by the reciprocal-lattice offset requested. An interrupted or failed write of any of these files is reported and the solver is never run on a partial problem.",
     ["inputs", "fault_sequences", "histories"],
     "every set of bands and mesh, every list of neighbour pairs and offsets the solver may request, and every write failure or crash while the files are produced",
     "Nothing tests this exchange; the neighbour list comes from the other party at run time.",
     ["wavepacket/localization/_wannier90.py", "wavepacket/localization/_projection.py", "wavepacket/wavepacket.py"],
     [("setup file", "wavepacket/localization/_wannier90.py:_build_win_file"), ("overlap file", "wavepacket/localization/_wannier90.py:_build_mmn_file"), ("projection file", "wavepacket/localization/_wannier90.py:_build_amn_file")],
     ["files visible to the external program at the moment it is started", "its working directory and command"])

prop("C07", "Localization runs are isolated and clean up their scratch files",
     "Each delegated localization works in a scratch directory of its own that exists until the call ends and is removed on every way out that is not a kill: success, solver failure, parse failure, write error, or interruption. Concurrent localizations in the same or different processes never see or alter each other's files and each gets its own answer. No file outside the scratch directory is created, changed or removed, and the working directory and environment of the process are unchanged.",
     ["schedules", "fault_sequences", "crash_points"],
     "every interleaving of concurrent localizations, every exit path, every I/O failure",
     "Needs concurrent runs of an external program and injected failures; no test reaches it.",
     ["wavepacket/localization/_wannier90.py"],
     [("temporary directory context", "wavepacket/localization/_wannier90.py:get_localization_operator_wannier90")],
     ["file system before and after", "files seen by each solver run", "returned operators"])

prop("C08", "Stochastic trajectories survive any parallel worker schedule",
     "A stochastic Schrödinger run returns exactly the requested number of trajectories, each a complete, correctly ordered time series of one stochastic realisation starting at the given initial state, whatever the order in which the parallel workers finish; no trajectory is lost, repeated, truncated or mixed with another. Distinct trajectories use independent noise and successive runs are independent. If a worker fails, the failure is reported instead of a result with missing or stale trajectories.",
     ["schedules", "fault_sequences", "inputs"],
     "every completion order, delay and failure of the workers, every number of trajectories, times, state dimension, hamiltonian and set of collapse operators including none",
     "The stochastic solvers are only exercised by tests that fail or are skipped here; worker completion order is not under a test's control.",
     ["dynamics/stochastic_schrodinger/solve.py"],
     [("parallel map of trajectories", "dynamics/stochastic_schrodinger/solve.py:solve_stochastic_schrodinger_equation"), ("stacking into trajectory, time, state order", "dynamics/stochastic_schrodinger/solve.py:solve_stochastic_schrodinger_equation")],
     ["returned state list", "exceptions", "random streams used by workers"])

prop("C09", "Sampled noise has the covariance its operators define",
     "Noise sampled from a set of noise operators or from a (truncated) kernel, or sampled for a plot, is zero-mean circular complex Gaussian whose covariance is that of the operators (each with variance hbar times its eigenvalue), with one independent draw per operator and per sample; the split form lists the same noise per operator and sums to the unsplit form. Each call draws fresh randomness: successive or concurrent calls are independent of each other, and no call reseeds or disturbs the process-wide random state.",
     ["histories", "schedules", "inputs"],
     "every random stream, every history and interleaving of sampling calls, every operator set, truncation and number of samples",
     "Randomness is unseeded in the code, so a test can neither fix it nor average over enough streams.",
     ["kernel/sample.py", "kernel/build.py", "kernel/solve/_eigenvalue.py"],
     [("gaussian factors per sample and operator", "kernel/sample.py:sample_noise_from_diagonal_operators_split"), ("sum over operators", "kernel/sample.py:diagonal_operator_list_from_diagonal_split"), ("kernel sampling", "kernel/sample.py:sample_noise_from_diagonal_kernel")],
     ["sampled operator lists", "random generators created", "global random state"])

prop("C10", "Operations never modify their inputs and do not depend on history",
     "Calculations, conversions and plots leave every array, basis, operator, state, wavepacket, potential, kernel and option they are given exactly as it was (the axes handed to a plot are its output, and drawn on), so values can be shared freely between callers. The result of a call depends only on its arguments: it is the same however many other calls ran before it, in whatever order, and whatever other callers are doing concurrently in other threads.",
     ["schedules", "histories", "programs"],
     "every sequence of operations of the library on shared values and every thread interleaving of concurrent callers",
     "Existing tests call each function once on private data; aliasing, hidden state and races only show over histories and interleavings.",
     ["basis/util.py", "basis/conversion.py", "operator/operations.py", "state_vector/conversion.py", "wavepacket/get_eigenstate.py", "wavepacket/wavepacket.py", "kernel/kernel.py", "potential/potential.py", "dynamics/incoherent_propagation/tunnelling_matrix.py", "stacked_basis/util.py", "util/interpolation.py"],
     [("functional style: results are new values", "operator/operations.py"), ("cached properties computed from immutable bases", "basis/util.py"), ("no module level mutable state", "wavepacket/get_eigenstate.py")],
     ["inputs before and after", "results compared with an isolated reference run"])

prop("C11", "Failed or interrupted operations leave no trace",
     "If an operation fails or is interrupted at any point (out of memory, a numerical routine that does not converge, a failing callback, a keyboard interrupt), it raises, and its inputs and all process-wide state (warning filters, floating-point error handling, random state, plotting defaults, working directory, environment, open files) are exactly as before the call; the axes a plot draws on, and random numbers a sampling call has drawn, are its output. Repeating the call afterwards gives the same result as if the failure had never happened. Successful calls leave the same process-wide state unchanged too.",
     ["fault_sequences", "crash_points", "histories"],
     "every operation and every point inside it at which an exception can strike",
     "Tests never make an operation fail part way through.",
     ["basis/util.py", "wavepacket/wavepacket.py", "wavepacket/get_eigenstate.py", "operator/operations.py", "util/plot.py", "state_vector/eigenstate_calculation.py", "kernel/solve/_fft.py"],
     [("no partial in-place updates of shared values", "operator/operations.py"), ("no process-wide settings changed", "wavepacket/wavepacket.py")],
     ["inputs, process-wide settings, and the result of the retried call"])

prop("C12", "The timing wrapper is transparent and reports elapsed time",
     "Wrapping a function for timing changes neither its result, its exceptions, its metadata nor the number of times it is called or the arguments it receives, under any behaviour of the clock and any nesting or concurrency. Each call prints exactly one line, also when the call fails, naming the function and the time that passed on the clock between its start and end.",
     ["schedules", "fault_sequences", "inputs"],
     "every clock reading sequence (jumps forward and back, standstill, skew), every outcome of the function, every interleaving of concurrent and recursive calls",
     "No test covers it, and a real clock cannot be made to jump.",
     ["util/decorators.py"],
     [("clock read before and in a finally block after", "util/decorators.py:timed")],
     ["printed lines", "results and exceptions"])

prop("C13", "Wavepackets hold each sample's own bands, whatever the Hamiltonian source",
     "Generating a wavepacket asks the supplied Hamiltonian source for every Bloch sample of the requested mesh, at exactly that sample's fraction of the reciprocal cell, and stores for each sample the lowest bands of the Hamiltonian returned for it, orthonormal and in ascending order of energy, also when the source reuses its buffers between calls, is slow, or serves several concurrent generations. If the source or the diagonalisation fails for any sample, the failure is reported and no wavepacket is returned. The samples cover the requested mesh exactly, in mesh order.",
     ["schedules", "fault_sequences", "programs"],
     "every behaviour of the source (fresh arrays, reused buffers, failures at any sample), every interleaving of concurrent generations, every mesh and number of bands",
     "Existing wavepacket tests cannot even be collected here, and none uses a source that fails or reuses memory.",
     ["wavepacket/wavepacket.py", "wavepacket/get_eigenstate.py", "state_vector/eigenstate_calculation.py", "stacked_basis/build.py"],
     [("one diagonalisation per sample", "wavepacket/wavepacket.py:generate_wavepacket"), ("sample fractions", "wavepacket/wavepacket.py:get_wavepacket_sample_fractions")],
     ["calls made to the source", "returned energies and states", "exceptions"])

prop("C14", "Animations show frame i at time i and nothing else",
     "At every tick of the display timer an animation of data shows exactly the artists of one frame, and frame i shows the data at position i of the animated axis, identical to the corresponding still plot (up to the range of the axes and of the colour scale, which all frames may share; the colour bar is valid for every frame); one cycle shows every position exactly once and in order. A build that fails part way leaves the caller's existing figure content in place and usable.",
     ["schedules", "fault_sequences", "inputs"],
     "every sequence of timer ticks including dropped and repeated ones, every data set and animated axis",
     "No test builds an animation, and frame contents depend on the timer.",
     ["util/plot.py", "state_vector/plot.py", "wavepacket/plot.py", "potential/plot.py", "operator/plot.py"],
     [("one artist list per frame", "util/plot.py:build_animation")],
     ["visible artists and their data after each simulated tick"])

prop("C15", "The native stochastic solver is handed the caller's exact problem",
     "The native stochastic solver (in its dense and its banded form) is called once per run with the caller's initial state, Hamiltonian, collapse operators, time grid, trajectory count, realisation count and method, in units that describe the same dynamics; the banded form reconstructs the dense operators to within the requested threshold, for any number of collapse operators including none and operators given in another basis. What it returns is handed back with trajectory, time and state axes in order, and its failures are reported unchanged with nothing left modified.",
     ["inputs", "fault_sequences", "histories"],
     "every problem (basis, operators, times), solver response and solver failure",
     "The native solver is not installed here, so nothing can run these paths in the tests.",
     ["dynamics/stochastic_schrodinger/solve.py"],
     [("dense hand-off", "dynamics/stochastic_schrodinger/solve.py:solve_stochastic_schrodinger_equation_rust"), ("banded hand-off and rescaling", "dynamics/stochastic_schrodinger/solve.py:solve_stochastic_schrodinger_equation_rust_banded")],
     ["arguments received by the solver", "returned state list", "exceptions"])

prop("C16", "Values keep their meaning when stored, copied, or sent to another process",
     "Every basis, potential, operator, state, wavepacket, kernel or other value made of data can be stored with pickle or handed to another process (whole, or piece by piece, with any protocol), copied and deep-copied, at any time, also after it was used. Wherever it ends up - another process with another hash seed, address layout and history, or the same one after a crash - it means the same: every calculation gives the result it gives in the process where the value was made, and its result can be sent on in turn. No value depends on object identity, on the identity of the process that made it, or on hash order.",
     ["histories", "programs", "crash_points"],
     "every value, every route (store, copy, send, crash and read again) and every operation applied at its end",
     "Tests run in one process with one hash seed and never store or copy what they made; cached results, parallel solvers and interrupted jobs all do.",
     ["basis/basis.py", "basis/stacked_basis.py", "basis/evenly_spaced_basis.py", "basis/time_basis_like.py", "wavepacket/localization_operator.py", "stacked_basis/util.py", "util/decorators.py", "dynamics/stochastic_schrodinger/solve.py"],
     [("bases hold plain data", "basis/basis.py"), ("stacked bases", "basis/stacked_basis.py"), ("lazily computed attributes", "stacked_basis/util.py")],
     ["result of the operation wherever it runs, compared with where the values were made", "errors while values are stored, read or copied"])

prop("C17", "Importing works in any order, at any time, and changes nothing else",
     "Every module of the package can be imported first, in any order and by several threads, with the optional native packages (sse_solver_py, hamiltonian_generator) present, missing or broken: either the import succeeds, or it fails naming the native package which the module cannot do without. An import which fails because memory ran out, a file could not be read or the user interrupted it reports that, leaves no half-made module behind and succeeds when it is repeated. However it came about, the package then holds the same classes and functions, each of them once, and computes the same. Importing changes no setting of the process, prints nothing, starts nothing, writes nothing, and warns of nothing but a missing native package; functions which need a missing package say so when they are called, and a native package installed later can be imported later.",
     ["histories", "schedules", "fault_sequences", "crash_points"],
     "every module, every order and interleaving of imports, every point at which one can fail, every set of native packages",
     "The tests import the same modules in one order, in one thread, once, without the native packages and without a failure.",
     ["basis/util.py", "basis/stacked_basis.py", "kernel/solve/__init__.py", "wavepacket/localization/__init__.py", "dynamics/stochastic_schrodinger/solve.py", "hamiltonian_builder/sho_subtracted_basis.py", "util/squared_scale.py"],
     [("optional native solver", "dynamics/stochastic_schrodinger/solve.py"), ("packages which re-export their modules", "kernel/solve/__init__.py"), ("packages which re-export their modules", "wavepacket/localization/__init__.py"), ("modules which import each other for types only", "state_vector/state_vector_list.py")],
     ["errors of imports", "contents of the modules", "settings of the process", "output, warnings and effects", "results of operations"])

prop("C18", "Operations leave nothing behind that grows with the number of calls",
     "A process can make any calls of public operations any number of times: once the caller has dropped the arguments and results (and closed the figures) of a call, whether it succeeded, failed or was interrupted, and in whatever thread it was made, nothing of it stays behind for good. Memory in use, open files, threads, figures and registered handlers are bounded however many calls are made with ever new values; what is kept to make later calls faster is bounded too.",
     ["histories", "schedules", "fault_sequences"],
     "every operation, every history of repeated calls, failures and threads",
     "Tests make each call once in a process which ends; tables which only grow, and entries left by failed calls, show in long-running jobs.",
     ["wavepacket/wavepacket.py", "util/plot.py", "util/decorators.py", "basis/util.py", "stacked_basis/util.py", "kernel/build.py", "wavepacket/get_eigenstate.py", "dynamics/stochastic_schrodinger/solve.py"],
     [("no tables at module level", "basis/util.py"), ("lazily computed attributes live as long as their object", "wavepacket/get_eigenstate.py"), ("worker pools are shut down", "dynamics/stochastic_schrodinger/solve.py")],
     ["memory blocks in use after each round of calls", "open files, threads and figures"])

# ---- pure mathematics: stated because users rely on it, not decidable by this technique ----
W = "Only a handful of basis and interpolation cases are tested; the property is over all inputs."


def pure(id, title, statement, text, files, mech):
    prop(id, title, statement, ["inputs"], text, W, files, mech, ["returned values"])


pure("C30", "Basis conversions are exact, invertible and composable",
     "Converting a vector, operator or matrix between two descriptions of the same space and back returns the original, conversion through an intermediate basis agrees with direct conversion, and conversions between orthonormal bases preserve inner products.",
     "all bases (position, momentum, truncated, evenly spaced, explicit, stacked) and vectors", ["basis/conversion.py", "basis/basis.py", "basis/evenly_spaced_basis.py", "basis/explicit_basis.py", "basis/stacked_basis.py"],
     [("fundamental-space transforms", "basis/basis_like.py")])
pure("C31", "Built Hamiltonians are hermitian and have the right spectrum",
     "Kinetic plus potential Hamiltonians are hermitian for real potentials, reproduce free-particle and harmonic-oscillator spectra in the appropriate limits, and are periodic in the Bloch wavevector up to a unitary.",
     "all potentials, masses, bases and Bloch fractions", ["hamiltonian_builder/momentum_basis.py", "operator/build.py"], [("kinetic and potential builders", "operator/build.py")])
pure("C32", "Eigenstates solve their operator",
     "Returned eigenstates are orthonormal, ordered, satisfy the eigenvalue equation in their own basis, and recombine to the operator.",
     "all hermitian operators and band selections", ["state_vector/eigenstate_calculation.py"], [("scipy eigh", "state_vector/eigenstate_calculation.py")])
pure("C33", "Deterministic time evolution is unitary and composes",
     "Closed-system evolution preserves norm and energy, starts at the initial state, is independent of how a time interval is subdivided, and different deterministic solvers agree.",
     "all hamiltonians, states and time grids", ["dynamics/schrodinger/solve.py"], [("diagonal evolution", "dynamics/schrodinger/solve.py")])
pure("C34", "Incoherent hopping conserves probability",
     "Rate matrices built from hopping rates have columns summing to zero and non-negative off-diagonal entries, evolution keeps probabilities non-negative with unit sum, and long-time evolution approaches the equilibrium state.",
     "all rate functions, lattice shapes and initial states", ["dynamics/incoherent_propagation/tunnelling_matrix.py", "dynamics/incoherent_propagation/eigenstates.py"], [("rate matrix", "dynamics/incoherent_propagation/tunnelling_matrix.py:get_tunnelling_m_matrix")])
pure("C35", "Noise kernels and noise operators are equivalent descriptions",
     "Decomposing a kernel into noise operators and rebuilding it returns the kernel, for every decomposition method within its domain, and truncation keeps the requested operators.",
     "all kernels and methods", ["kernel/kernel.py", "kernel/solve/_eigenvalue.py", "kernel/solve/_fft.py", "kernel/solve/_taylor.py", "kernel/build.py"], [("eigen decomposition", "kernel/solve/_eigenvalue.py")])
pure("C36", "Interpolation reproduces band-limited functions",
     "Fourier interpolation of periodic data reproduces the samples at the sample points and any band-limited function everywhere, on finer grids, at arbitrary points and through uneven axes.",
     "all data and grid sizes", ["util/interpolation.py", "potential/conversion.py", "overlap/interpolation.py"], [("fourier padding", "util/interpolation.py")])
pure("C37", "Brillouin-zone folding is idempotent and reaches the first zone",
     "Folding a k point or index into the first zone moves it by a reciprocal lattice vector to the nearest representative, and folding again changes nothing.",
     "all lattices and points", ["stacked_basis/brillouin_zone.py", "stacked_basis/util.py"], [("folding", "stacked_basis/brillouin_zone.py")])
pure("C38", "Wavepacket views agree with each other",
     "A wavepacket's eigenstates, Bloch states, furled and unfurled forms, energies and converted forms describe the same states: normalisation, orthogonality of samples and round trips are preserved.",
     "all wavepackets", ["wavepacket/wavepacket.py", "wavepacket/conversion.py", "wavepacket/get_eigenstate.py", "wavepacket/eigenstate_conversion.py"], [("explicit and evenly spaced bases", "wavepacket/get_eigenstate.py")])
pure("C39", "Localization operators are unitary and act consistently",
     "Projection, tight-binding and phase localization produce unitary operators per k point; localizing wavepackets with an operator preserves the span and orthonormality of the bands.",
     "all wavepackets and projections", ["wavepacket/localization/_projection.py", "wavepacket/localization/_tight_binding.py", "wavepacket/localization/_operator.py", "wavepacket/localization_operator.py"], [("polar decomposition", "wavepacket/localization/_projection.py")])
pure("C40", "Overlaps and friction integrals are consistent",
     "Overlap transforms between position and momentum representations are mutually inverse, interpolated overlaps agree with exact ones on grid points, and derived rates are symmetric and non-negative where detailed balance requires it.",
     "all wavepackets, overlaps and temperatures", ["overlap/calculation.py", "overlap/conversion.py", "overlap/interpolation.py", "dynamics/hermitian_gamma_integral.py"], [("overlap transform", "overlap/conversion.py")])
pure("C41", "Scattering functions have their exact limits and symmetries",
     "The intermediate scattering function starts at one, is bounded by one in magnitude, decays to its equilibrium limit, and fits recover the parameters of data generated by their model.",
     "all rate matrices, momenta and fit models", ["dynamics/isf.py", "dynamics/incoherent_propagation/isf.py"], [("isf from eigenstates", "dynamics/incoherent_propagation/isf.py")])
pure("C42", "Operator algebra obeys its laws",
     "Sums, scalings, products, commutators, adjoints and applications of operators and operator lists agree with dense linear algebra irrespective of the basis each operand is stored in.",
     "all operators and bases", ["operator/operations.py", "operator/operator.py", "operator/operator_list.py"], [("basis aware operations", "operator/operations.py")])
pure("C43", "Physical lattice geometry is consistent",
     "Cell volumes, reciprocal vectors, rotations, coordinate projections, index conversions and nearest-image displacements are mutually consistent and invariant under relabelling of axes.",
     "all lattices", ["stacked_basis/util.py", "basis/util.py", "stacked_basis/build.py"], [("index conversions", "basis/util.py")])
pure("C44", "Still plots show the data they are given",
     "A still plot draws exactly the requested slice, scale and measure of its data at the right coordinates.",
     "all data, slices, scales and measures", ["util/plot.py", "state_vector/plot.py", "operator/plot.py", "kernel/plot.py", "potential/plot.py", "wavepacket/plot.py"], [("plot helpers", "util/plot.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in props))
import subprocess, os
print(len(props))
for p in props:
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
    assert len(p["title"]) <= 80, p["title"]
