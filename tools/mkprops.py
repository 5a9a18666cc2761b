"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": hook}})

H = "HamiltonianPy/"
prop("C01", "Lattice queries answer the geometric truth in every query history",
 "Every query of a lattice (neighbour distances, bonds and what they say of their length and direction, decomposition, index and membership lookup, coordinates) returns the answer that exhaustive enumeration of the infinite lattice gives. The answer depends only on the lattice and the arguments: not on which queries were made before, on other callers querying the same lattice at the same time, or on earlier queries that were interrupted or failed. A point that does not belong to the lattice is refused with an exception (or reported as not in the cluster), never silently given an index or decomposition.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "all sequences of queries, from any number of callers, interleaved anywhere, with Ctrl-C or a failing allocation at any point, on standard clusters and user-made (also oblique or ribbon-like) lattices",
 "The tests query a fresh 2x2 square cluster in ascending order from one caller; lattices keep caches (known distances, a translation database) whose content depends on the history, which the tests never vary.",
 [H+"lattice/lattice.py", H+"lattice/_lattice_database.py", H+"bond.py"],
 [("neighbor_distance / _guess_scope / _sites_factory", "lattice/lattice.py"), ("decompose and its translation database", "lattice/lattice.py"), ("bonds", "lattice/lattice.py")],
 [("_all_distances", "cache of neighbour distances", "lattice/lattice.py"), ("_dRsDataBase", "lazily built search tree of translations", "lattice/lattice.py")],
 ["return values of neighbor_distance, bonds, decompose, getIndex, getSite, in_cluster, points, vectors, bs"])

prop("C02", "A term's coefficient behaves as one atomic register",
 "A matrix requested from an operator term with a new coefficient carries exactly that coefficient, and the term carries it afterwards; a matrix requested without one carries the coefficient the term has. When several callers read, assign and request at the same time, all coefficients and matrices they see are explained by some one-at-a-time order of their calls. A term made from another one (by a multiplication, conjugation or copy) has a coefficient of its own. A request that fails leaves the term's coefficient as it was.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of callers that share fermion or spin interaction terms, with failing requests (unknown site, basis left, invalid coefficient), Ctrl-C and allocation failure at any point",
 "The tests build each matrix once, from one caller, and never let a request with a coefficient fail or overlap another one.",
 [H+"quantumoperator/particlesystem.py", H+"quantumoperator/spinsystem.py", H+"quantumoperator/matrixrepr.py"],
 [("ParticleTerm.matrix_repr", "quantumoperator/particlesystem.py"), ("SpinInteraction.matrix_repr", "quantumoperator/spinsystem.py")],
 [("_coeff", "coefficient of a term, replaced by matrix_repr(coeff=...)", "particlesystem.py, spinsystem.py")],
 ["matrix_repr results", "coeff", "str()", "dagger()", "Schwinger()", "scalar multiples"])

prop("C03", "Operator matrices and bases do not depend on what was built before",
 "The matrix representation of any fermion or spin operator or term, the list of basis vectors of a Hilbert space, and the index assigned by an index table equal their textbook definition. This holds whatever was built earlier in the process, whatever other callers build concurrently, and after any earlier request was interrupted, ran out of memory or was rejected; a rejected request (unknown state, basis that the operator leaves, invalid specifier, duplicate entry) raises and yields no object.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "all sequences and interleavings of matrix, basis and table constructions, over bases with different particle-number sectors, orders and specifiers, with faults at any point",
 "Each test builds one representation from a fresh state; none builds many different ones in one process, concurrently, or after an aborted construction, which is where memoisation, shared buffers or mutable defaults would show.",
 [H+"quantumoperator/matrixrepr.py", H+"quantumoperator/particlesystem.py", H+"quantumoperator/spinsystem.py", H+"hilbertspace.py", H+"indextable.py", H+"quantumoperator/factory.py"],
 [("matrix_function and its kernels", "quantumoperator/matrixrepr.py"), ("HilbertSpace.base_vectors / base_vectors", "hilbertspace.py"), ("SpinOperator/SpinInteraction.matrix_function", "quantumoperator/spinsystem.py"), ("IndexTable", "indextable.py")],
 [], ["matrix_repr results", "base_vectors results", "IndexTable lookups"])

prop("C04", "Krylov projections are right whatever the operator and clock do",
 "The projected matrix and the projected kets of a Krylov (Lanczos) representation satisfy the defining relations of the Krylov space of the given operator and starting ket: each Krylov vector is built from powers of the operator, they are orthonormal, and the projected matrix and kets are the compressions onto them. If an operator application or an allocation fails or the caller interrupts, the call raises; repeating it gives the same result as if nothing had failed, and neither the operator nor the input kets are ever modified. The result does not depend on the clock or on concurrent projections.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "all operators given as matrices or as user objects whose application may fail at any iteration, all clock behaviours (steps back, stalls, jumps), any interleaving of projections that share operators and kets",
 "The tests project one fixed chain with a healthy operator from one caller and a normal clock.",
 [H+"lanczos.py"],
 [("KrylovRepresentation / MultiKrylov / KrylovMatrix loops", "lanczos.py")],
 [("_VIEW_AS_ZERO", "threshold below which a Krylov vector is treated as zero", "lanczos.py")],
 ["returned projected matrix and kets", "input arrays", "log output"])

prop("C05", "Green's function solvers are raise-or-right under faults and sharing",
 "Every solver of (retarded) Green's functions, exact or Lanczos based, single or multiple, returns the values that the resolvent definition gives for the frequencies, states and Hamiltonian it was handed, to within the accuracy of its method. If anything it uses fails or the caller interrupts, it raises instead of returning partly filled results. Its inputs (Hamiltonian, kets, frequencies, projected data) are unchanged afterwards and solvers sharing them can run concurrently or repeatedly with identical results.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "all interleavings of solver calls that share Hamiltonians, kets and frequency grids, with operator failures, Ctrl-C and failed allocations at any point",
 "There is no unit test of this package at all; results are written into uninitialised buffers entry by entry, so a failure or a shared buffer would surface as silent garbage.",
 [H+"GreenFunction/_GFSolver.py"],
 [("Exact*/Lanczos* solvers", "GreenFunction/_GFSolver.py"), ("KrylovRepresentation", "lanczos.py")],
 [], ["returned arrays and dictionaries", "input arrays"])

prop("C06", "Spin averages stay right for every ket in any order of use",
 "The expectation values and total-spin quantities obtained for a ket equal the direct definition <ket|O|ket> for that ket, for every ket given to a prepared evaluator, in any order and from any number of callers. An evaluation that was interrupted, ran out of memory or was given a ket that does not fit the basis raises and does not change what later evaluations return. The operators and kets handed in are not modified.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "all histories of evaluations through one prepared evaluator (which holds cached matrices), concurrent callers, faults at any point",
 "There is no unit test of this module; the evaluator keeps matrices across calls, so wrong results appear only on later or concurrent uses.",
 [H+"averages.py", H+"tools/TotalSpin.py"],
 [("QuantumAverages", "averages.py"), ("TotalSpinMatrices / TotalSpinAverages", "averages.py")],
 [("matrices held by the returned evaluator", "cached operator matrices", "averages.py")],
 ["returned averages"])

prop("C07", "Objects own their data: callers' later writes never reach them",
 "Whatever a caller does in place to arrays, lists or other mutable objects it passed in, or that the library handed out as a value, no library object, shipped lattice constant used by a later construction, or later result changes because of it. Two results obtained separately never share memory in a way that writing to one alters the other.",
 ["histories", "schedules", "programs"],
 "all histories in which a caller (or another thread, at any point) scribbles over arguments and returned values between and during calls",
 "Tests compare fresh return values and never write to them or to the arguments afterwards; an added cache or a dropped copy is invisible to them.",
 [H+"lattice/lattice.py", H+"bond.py", H+"hilbertspace.py", H+"quantumoperator/quantumstate.py", H+"quantumoperator/particlesystem.py", H+"quantumoperator/spinsystem.py", H+"indextable.py", H+"rotation3d.py", H+"line2d.py", H+"averages.py"],
 [("defensive copies in constructors and properties", "lattice.py, bond.py, quantumstate.py, line2d.py"), ("fresh construction of results", "hilbertspace.py, particlesystem.py, spinsystem.py")],
 [], ["every value-returning method"])

prop("C08", "Identity of states, operators and bonds survives time and transport",
 "Equality, ordering, hash consistency and the relations built on them (opposite bonds, conjugate operators, same site or state) of site, state, operator and bond objects, and every lookup through a table or set that holds them, are fixed when the object is created: later changes of the process-wide precision, other objects created since, and copying or pickling do not alter them. An object sent to another interpreter process (any hash seed, delivered late, twice or out of order, or after that process restarted) equals, orders and looks up there exactly as an object built there from the same arguments, and the tables, bases and matrices built there are the same.",
 ["histories", "schedules", "configurations", "fault_sequences"],
 "all histories of creation, precision changes, copying and transport between interpreter processes with different hash seeds, under duplicated, reordered and delayed messages and peer crashes",
 "The tests compare objects within one process that runs with a fixed hash seed, at one precision.",
 [H+"quantumoperator/quantumstate.py", H+"quantumoperator/particlesystem.py", H+"quantumoperator/spinsystem.py", H+"bond.py", H+"indextable.py"],
 [("_tuple_form fixed in __init__", "quantumstate.py, particlesystem.py, spinsystem.py, bond.py"), ("hash computed from _tuple_form", "same files"), ("ordered dictionaries", "indextable.py")],
 [("_ZOOM", "process-wide precision", "quantumstate.py, bond.py"), ("_tuple_form", "frozen identity", "quantumstate.py and others")],
 ["==, <, hash, IndexTable lookups, matrices"])

prop("C09", "A run-time environment always restores the process and keeps logs",
 "After a run-time environment is left, normally, by an exception, or because entering or leaving it failed (for example the disk is full), standard output and the thread-count setting are what they were before it was entered, and an exception raised inside reaches the caller unchanged. Everything printed inside while output was redirected is in that environment's log file, in order, as soon as the line is complete (so a killed process loses no printed line), followed by how the session ended, unless writing it failed, in which case the failure is reported; the log is closed when the environment is left. Opening an environment, also one that is nested in another or entered again, never destroys or truncates the log of another one, also when the clock stands still or is set back.",
 ["fault_sequences", "histories", "crash_points", "configurations"],
 "all sequences and nestings of environments, all disk failures (open, write, flush, close), all clock behaviours, exceptions from the body",
 "The environment has no unit test; its guarantees concern disk errors, clock steps and nesting that cannot be produced by calling it normally.",
 [H+"tools/runtimeenv.py"],
 [("RunTimeEnv.__enter__/__exit__", "tools/runtimeenv.py")],
 [("sys.stdout", "redirected process-wide", "tools/runtimeenv.py"), ("MKL thread count", "changed process-wide", "tools/runtimeenv.py")],
 ["sys.stdout, mkl.get_max_threads, log files"])

prop("C10", "Coloured printing never leaks colour or scrambles other output",
 "Text printed through the colour helpers appears on the terminal, complete and in the requested colour, contiguously between its colour control sequence and the reset sequence, whatever other callers print at the same time. When a write fails (a write that fails writes nothing) or the caller is interrupted, the terminal is never left in a coloured state, and later output is unaffected. A colour that does not exist is refused with an exception before anything is written.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of printing callers at every write boundary, terminal writes that fail or are interrupted",
 "The colour helpers have no unit test; whether two callers' output interleaves inside a coloured region depends on the schedule.",
 [H+"tools/colorprint.py"],
 [("coloring and the print wrappers", "tools/colorprint.py")],
 [], ["bytes written to the terminal"])

prop("C11", "Saving a figure writes a complete file or raises, and leaks nothing",
 "Asking a lattice to save its picture writes a complete, readable image file named after the lattice and scope in the current directory and reports where; if the disk fails, the call raises and the report is not printed. In both cases no figure stays registered afterwards, figures the caller had open stay open and current, and the lattice still answers every query as before. The other drawing helpers (views of lines and of operators) likewise never close, or draw on, a figure of the caller.",
 ["fault_sequences", "histories"],
 "all disk failures while saving (open refused, short write, disk full, error on close), repeated saves, failures while drawing, with other figures open",
 "Drawing and saving are not tested at all; the guarantee concerns disk errors and what remains open after them.",
 [H+"lattice/lattice.py"],
 [("Lattice.show(savefig=True)", "lattice/lattice.py")],
 [("pyplot figure registry", "figures kept open process-wide", "matplotlib")],
 ["image file on disk", "matplotlib.pyplot.get_fignums()", "standard output"])

prop("C12", "Process-wide settings act only where documented and restore exactly",
 "Each process-wide setting (precision of states and operators, of bonds, of lattices; zero thresholds of the Lanczos and rotation tools) affects only its own part of the library and only objects created or calls made after it. A rejected or failed attempt to change a setting changes nothing, and setting the documented default again brings back exactly the default behaviour, whatever was done in between.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "all sequences of setting changes (valid, invalid, interrupted) mixed with constructions and queries, from any number of callers",
 "The tests set each value once, read a private variable and reset it; they never observe behaviour under the setting or isolation between modules.",
 [H+"quantumoperator/quantumstate.py", H+"bond.py", H+"lattice/lattice.py", H+"lanczos.py", H+"rotation3d.py"],
 [("set_float_point_precision (three modules)", "quantumstate.py, bond.py, lattice/lattice.py"), ("set_threshold (two modules)", "lanczos.py, rotation3d.py")],
 [("_ZOOM, _VIEW_AS_ZERO", "module-level settings", "the five modules")],
 ["equality of objects created under a precision", "duplicate detection", "length of Krylov spaces", "acceptance of rotation input"])

prop("C13", "A divided or resumed calculation gives the results of the model",
 "A model put together from a lattice's bonds, operator terms, an index table and bases, and solved with this library (Hamiltonian matrices in any particle-number sector, excited states, averages, Krylov projections, Green's functions), has the matrix elements, expectation values and Green's functions of that model. This stays so when the work is divided among threads or worker processes, when tasks are lost and done again, done twice, or done by a worker that crashed and restarted, when a stage was interrupted and repeated, and when the calculation is resumed from pickled intermediate results after a crash.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "all models on small lattices (hopping with flux, interaction, pairing, field, spin exchange), all orders in which stages are asked for, stored, lost, repeated and divided",
 "Unit tests exercise one module at a time in one process; no test builds a model, ships or stores a part of it, or goes on from stored results.",
 [H+"lattice/lattice.py", H+"quantumoperator/factory.py", H+"quantumoperator/particlesystem.py", H+"quantumoperator/spinsystem.py", H+"indextable.py", H+"hilbertspace.py", H+"averages.py", H+"lanczos.py", H+"GreenFunction/_GFSolver.py"],
 [("lattice -> bonds -> terms -> matrices -> projections -> Green's functions", "the modules above, as in GreenFunction/demo")],
 [("pickled lattices, bonds, tables, spaces, terms, matrices, projections", "what survives a crash or travels to a worker", "the objects' own attributes")],
 ["matrices, averages and Green's functions of a small model against exact enumeration"])

# -- pure functions of their input: not simulation targets -------------------
prop("N01", "Fermion terms obey the canonical anticommutation relations",
 "For every index table and Hilbert space, the matrices of creation and annihilation operators satisfy {c_i, c_j^+} = delta_ij and {c_i, c_j} = 0, and the matrix of a product of operators is the product of their matrices.",
 ["inputs"], "all states, tables and bases",
 "Tests sample a handful of small systems.",
 [H+"quantumoperator/matrixrepr.py", H+"quantumoperator/particlesystem.py"], [("matrix_function", "quantumoperator/matrixrepr.py")])
prop("N02", "Normal ordering preserves the operator up to the reported sign",
 "Reordering a product of creation and annihilation operators into normal form yields an operator equal to the original times (-1)^swaps, or is refused when a swap would produce an identity.",
 ["inputs"], "all products of operators", "Tests use a few fixed products.",
 [H+"quantumoperator/particlesystem.py"], [("ParticleTerm.normalize", "quantumoperator/particlesystem.py")])
prop("N03", "Spin operators and their Schwinger fermions are the same operator",
 "The Schwinger fermion representation of any spin operator or interaction, restricted to single occupancy, has the matrix of the spin operator.",
 ["inputs"], "all spin terms", "Tests use a few fixed terms.",
 [H+"quantumoperator/spinsystem.py"], [("Schwinger", "quantumoperator/spinsystem.py")])
prop("N04", "Specialised kernels agree with the general kernel",
 "For every hopping, number and Coulomb term the specialised kernel gives the matrix of the general kernel.",
 ["inputs"], "all terms and bases", "Tests compare on a few bases.",
 [H+"quantumoperator/matrixrepr.py"], [("_core_hopping, _core_particle_number, _core_coulomb", "quantumoperator/matrixrepr.py")])
prop("N05", "Rotation functions return proper rotations and invert each other",
 "Every rotation built from axis-angle or Euler angles is orthogonal with determinant one, and the angle extraction functions invert the construction.",
 ["inputs"], "all axes and angles", "Tests use sampled angles.",
 [H+"rotation3d.py"], [("rotation construction", "rotation3d.py")])
prop("N06", "Planar geometry predicates are consistent with exact geometry",
 "Line intersection, point-on-line, inside-polygon, area and perimeter agree with exact geometry for all non-degenerate inputs.",
 ["inputs"], "all lines, points and polygons", "Tests use a few fixed figures; the polygon module is not even importable inside the package.",
 [H+"line2d.py", H+"polygon.py"], [("Line2D", "line2d.py"), ("Polygon", "polygon.py")])
prop("N07", "K-paths pass the anchors and the lattice constants are reciprocal",
 "A k-path contains its anchors at the returned indices with uniform spacing per segment, and shipped reciprocal vectors are dual to the shipped translation vectors.",
 ["inputs"], "all anchor lists; all shipped constants", "Tests use one anchor list.",
 [H+"lattice/lattice.py", H+"lattice/_lattice_database.py"], [("KPath", "lattice/lattice.py")])
prop("N08", "Hermitian conjugation is an involution and transposes matrices",
 "dagger() applied twice gives the original term and the matrix of a conjugated term is the conjugate transpose.",
 ["inputs"], "all terms", "Tests use a few terms.",
 [H+"quantumoperator/particlesystem.py", H+"quantumoperator/spinsystem.py"], [("dagger", "particlesystem.py, spinsystem.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
