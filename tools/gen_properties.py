#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": observe, "hook_needed": None}})

B = "pairinteraction/"; G = "pairinteraction_gui/"

prop("C01", "The shared in-memory cache is an insert-once map, also under concurrency",
 "Looking up a key in the shared in-memory cache returns exactly the value that was first stored for it since the last clear, or nothing if none was; a second store of the same key fails loudly and leaves the first value in place. "
 "This holds for every sequence of stores, lookups and clears, for keys whose hashes collide, and when several threads store and look up at the same time.",
 ["histories", "schedules", "inputs"], "all operation sequences over small and colliding key sets, all thread interleavings of concurrent stores/lookups",
 "The two cache tests store a fixed key set once and read it back; duplicates, clears, colliding hashes and store/lookup races are never mixed.",
 [B+"Cache.hpp"], [("mutex-protected hash map, refusal of duplicates", B+"Cache.hpp:save/restore/clear")],
 ["return value of restore, exceptions of save"], [("cache", "key to value map", B+"Cache.hpp")])

prop("C02", "The configuration store keeps, merges, compares and saves settings faithfully",
 "A configuration behaves as a string-keyed map with typed access: a value written under a key is read back unchanged as the same type (numbers to full precision), missing keys are reported, and merging one configuration into another makes every merged key take the merged-in value and keeps all others. "
 "Saving to a file and loading it again reproduces an equal configuration for any keys and values, and two configurations compare equal exactly when they hold the same settings.",
 ["inputs", "histories"], "all keys and values (strings, integers, floating-point numbers, booleans), all sequences of set/get/merge/save/load",
 "The single test stores three fixed values and reloads one file; it never sees keys with separators, values with more than six significant digits, empty or non-ASCII strings, or merges.",
 [B+"ConfParser.hpp", B+"ConfParser.cpp"], [("string map with stream conversion", B+"ConfParser.hpp"), ("JSON property tree", B+"ConfParser.cpp")],
 ["operator[], operator==, operator+=, saveToJSON/loadFromJSON"])

prop("C03", "Database queries deliver exactly the stored rows and values",
 "Running a query delivers every result row exactly once and in order, for any number of rows including none and one, with each column converted back to the value that was bound when it was stored. "
 "After the last row the statement reports completion, reading further or executing invalid SQL is reported as an error and never returns stale data, and a statement can be reset, rebound and run again any number of times.",
 ["inputs", "histories"], "all tables, result sizes, bound values of each supported type and all sequences of prepare/bind/step/reset/exec/iterate",
 "The tests iterate over a table with exactly two rows and bind three fixed values; other row counts, re-use, text with embedded quotes, extreme integers and error paths are not reached.",
 [B+"SQLite.hpp"], [("statement stepping and range iteration", B+"SQLite.hpp:statement"), ("busy retry", B+"SQLite.hpp:handle")],
 ["statement::step/get/bind/iterator, handle"])

prop("C04", "Level energies and quantum defects follow the Rydberg-Ritz database entries",
 "For every species and quantum number set in the quantum defect database, the effective principal quantum number and level energy are those given by the Rydberg-Ritz expansion with the tabulated coefficients (including the reduced-mass corrected Rydberg constant), and the reported model-potential parameters are the tabulated ones. "
 "Orbital or total angular momenta beyond the tabulated ones use the largest tabulated entries, and species absent from the database are rejected with an error rather than given a value.",
 ["inputs"], "all species in the shipped database and in arbitrary user databases, all n, l, j",
 "The tests look at one rubidium level and a handful of error cases; the other species, the high-l fallback and multi-coefficient expansions are not compared with anything.",
 [B+"QuantumDefect.cpp", B+"QuantumDefect.hpp", B+"databases/quantum_defects.sql"],
 [("SQL lookup with clamping of l and j", B+"QuantumDefect.cpp:setup"), ("Rydberg-Ritz series", B+"QuantumDefect.cpp:calcNstar")],
 ["QuantumDefect members, energy_level, nstar"])

prop("C05", "Species data depend only on the database, not on history, copies or threads",
 "The values reported for a level depend only on the species, the quantum numbers and the contents of the selected database, whatever other levels or databases were queried before, including after switching databases back and forth or replacing a database file. "
 "A missing or unusable database is reported as an error, copies of a level description keep their values after the original is gone, and concurrent queries from several threads return the same values as sequential ones.",
 ["histories", "schedules", "configurations"], "all sequences of queries over several database files, all copy/destroy orders, all thread interleavings",
 "The tests query one custom database once, in one thread, and never copy a level description or switch databases back.",
 [B+"QuantumDefect.cpp", B+"QuantumDefect.hpp", B+"Cache.hpp"],
 [("thread-local database handle", B+"QuantumDefect.cpp"), ("global value cache keyed by quantum numbers, cleared on database change", B+"QuantumDefect.cpp"), ("public references into the cached entry", B+"QuantumDefect.hpp")],
 ["QuantumDefect members"], [("qd_cache", "process-wide cache of computed levels", B+"QuantumDefect.cpp")])

prop("C06", "Radial wavefunctions are normalised and both methods give consistent integrals",
 "For every level with tabulated data, the computed radial wavefunction is a normalised, finite, decaying function on a strictly increasing grid, its radial integrals are symmetric under exchange of the two levels, and the numerical and the analytic method give consistent integrals wherever both are valid. "
 "For hydrogen-like levels the expectation values of powers of the radius and the model potential agree with their closed forms.",
 ["inputs"], "all species, principal and angular quantum numbers, both methods, all multipole powers",
 "The tests integrate two n=79 rubidium levels with a loose tolerance; low n, high l, other species, hydrogen and cross-level integrals are not covered.",
 [B+"Wavefunction.cpp", B+"Wavefunction.hpp"], [("Numerov integration and normalisation", B+"Wavefunction.cpp:Numerov"), ("Whittaker functions", B+"Wavefunction.cpp:Whittaker"), ("index alignment and trapezoid integration", B+"Wavefunction.hpp:IntegrateRadialElement")],
 ["Numerov/Whittaker integrate, IntegrateRadialElement, V, g, generate_g"])

prop("C07", "Wigner rotation matrices form the correct unitary representation of rotations",
 "For every angular momentum and every set of rotation angles, the rotation matrix elements equal the closed-form Wigner functions; they are unitary, compose like the rotations they describe, and reduce to the identity, parity signs and Legendre polynomials at the known special angles. "
 "Repeated or interleaved evaluation for different angles never changes a value.",
 ["inputs", "histories"], "all integer and half-integer angular momenta up to 12, all magnetic quantum numbers, all real angles, all evaluation orders",
 "No test evaluates a rotation matrix element.",
 [B+"WignerD.cpp", B+"WignerD.hpp"], [("exponential of the angular momentum matrix, cached per (j, angle)", B+"WignerD.cpp")],
 ["WignerD::operator()"])

prop("C08", "The electromagnetic Green tensor matches the dipole-interaction formulas",
 "For every atom separation in free space the tensor equals the static multipole interaction: dipole-dipole terms are the symmetric traceless dipole formula and the dipole-quadrupole terms are its spatial derivatives. "
 "In front of a perfectly conducting plate the tensor is the free-space one plus the image contribution, depends smoothly on geometry, vanishes into the free-space result far from the plate, and is always recalculated when positions or the plate change.",
 ["inputs", "histories"], "all separations, plate orientations and distances, all orders of reading components and changing geometry",
 "No unit test evaluates the tensor.",
 [B+"GreenTensor.cpp", B+"GreenTensor.hpp"], [("vacuum and plate tensors", B+"GreenTensor.cpp"), ("lazy calculation flags", B+"GreenTensor.cpp:getDDTensor")],
 ["GreenTensor::getDDTensor/getDQTensor/getQDTensor"])

prop("C09", "Atomic state descriptions are totally ordered values with consistent equality",
 "Equality, ordering, hashing and the textual form of one- and two-atom states are mutually consistent for every combination of quantum numbers, species and artificial labels: equal states have equal hashes and texts, ordering is a strict total order, and states that differ in any quantum number, species or label differ (the legacy states of a basis are compared within one species). "
 "Reported properties (species and its spin, quantum numbers of each atom, labels, total energy, effective quantum numbers, exchange and reflection images) are those of the constituents, and reflecting or exchanging twice gives back the original.",
 ["inputs"], "all pairs and triples of one- and two-atom states, including artificial and spin-1 species",
 "No unit test constructs a state; the integration test cannot be built without a missing library and uses one state.",
 [B+"State.cpp", B+"State.hpp", B+"StateOld.cpp", B+"StateOld.hpp"], [("comparison operators and hash", B+"State.cpp"), ("legacy states with index", B+"StateOld.cpp")],
 ["StateOne/StateTwo/StateOneOld/StateTwoOld public interface"])

prop("C10", "Basis enumeration lists exactly the allowed states, with stable indices",
 "For every choice of reference state and maximal quantum number differences, the enumerated one-atom basis contains exactly the physically valid states within the limits, each once, with indices that are a permutation of 0 to dimension-1; the pair basis is the full product of the two one-atom bases, with the index of a pair determined by the indices of its constituents. "
 "Removing unnecessary states keeps exactly the requested ones, renumbers them consecutively, and the saved basis file lists the same states and indices.",
 ["inputs", "configurations"], "all reference quantum numbers, all limits (including unlimited), all subsets to keep",
 "No unit test enumerates a basis.",
 [B+"Basisnames.cpp", B+"Basisnames.hpp", B+"StateOld.cpp"], [("nested range enumeration", B+"Basisnames.cpp:build"), ("removal and renumbering", B+"Basisnames.hpp:removeUnnecessaryStates")],
 ["BasisnamesOne/BasisnamesTwo iteration, save"])

prop("C11", "Hamiltonian matrix operations match dense linear algebra",
 "For every real or complex Hamiltonian with basis, the sum, difference, scaling, change of basis, cutoffs, block extraction, energy restriction and state restriction give the same result as the corresponding dense matrix computation. "
 "Diagonalisation yields real ascending-consistent eigenvalues with orthonormal eigenvectors that reconstruct the operator, and combining two one-atom Hamiltonians gives the pair Hamiltonian whose energies are the pairwise sums, with the symmetry-adapted combinations together spanning exactly the unsymmetrised pair space.",
 ["inputs", "configurations"], "all Hermitian sparse matrices and bases up to moderate size, all cutoffs, all pairs of one-atom Hamiltonians and symmetry choices",
 "No unit test touches the matrix container.",
 [B+"Hamiltonianmatrix.cpp", B+"Hamiltonianmatrix.hpp"], [("sparse algebra on entries and basis", B+"Hamiltonianmatrix.cpp"), ("energy-cut tensor product with symmetry", B+"Hamiltonianmatrix.cpp:combine")],
 ["Hamiltonianmatrix public interface"])

prop("C12", "Stored matrices round-trip, and damaged files are detected, not used",
 "Writing a matrix with its basis to disk and reading it back gives exactly the same entries for every size and sparsity pattern, in the backend as well as in the graphical front end that reads the same files. "
 "A missing, truncated or structurally damaged file (wrong sizes, types or indices) is reported as unusable, and no byte content makes a reader crash, read outside the data or return an inconsistent matrix. A failed read leaves the object usable, and a file that cannot be written is reported.",
 ["inputs", "fault_sequences", "crash_points"], "all sparsity patterns (including empty, single-entry and empty leading columns), all truncation points and byte corruptions",
 "No unit test writes or reads a matrix file; no fault is ever injected.",
 [B+"Hamiltonianmatrix.cpp", B+"Hamiltonianmatrix.hpp", B+"utils.hpp", G+"loader.py"], [("binary layout with compressed columns", B+"Hamiltonianmatrix.cpp:serialize/deserialize"), ("structural validation and error return", B+"Hamiltonianmatrix.cpp:load/doDeserialization"), ("front-end reader", G+"loader.py")],
 ["Hamiltonianmatrix::save/load/serialize/deserialize, BinaryLoader/Eigensystem"])

prop("C13", "Archived matrices, states and systems are restored exactly",
 "Serialising a dense or sparse matrix, a state, or a one- or two-atom system and loading it again yields an object equal to the original in every observable way, for text, XML and binary archives. "
 "A restored system continues to behave like the original one: the same states, basis, Hamiltonian and overlaps, also after further changes of fields, distance, angle or interaction settings.",
 ["inputs", "histories", "configurations"], "all matrices and shapes, all system settings (fields, ions, diamagnetism, Green tensor, symmetries, restrictions), all operations after loading",
 "No test archives a system; the Eigen serialisation is only used to read one reference file.",
 [B+"serialization_eigen.hpp", B+"Serializable.hpp", B+"SystemBase.hpp", B+"SystemOne.hpp", B+"SystemTwo.hpp", B+"State.hpp"], [("serialize member templates", B+"SystemOne.hpp, SystemTwo.hpp, SystemBase.hpp"), ("Eigen save/load", B+"serialization_eigen.hpp")],
 ["cereal archives, then every getter"])

prop("C14", "Single-atom matrix elements obey the Wigner-Eckart theorem and selection rules",
 "Every electric multipole, diamagnetic and magnetic-moment matrix element equals the product of radial integral and angular momentum coupling coefficients of an independent evaluation, is exactly zero outside the selection rules, and is Hermitian under exchange of the two states. "
 "Matrix elements between reflected states and different magnetic quantum numbers are related by the rotational symmetry of the operator.",
 ["inputs"], "all pairs of states of all species (spin one half, 0 and 1), all components and multipole orders 1 to 3, both radial methods",
 "Not compiled in the test build; the integration test compares one rubidium basis with stored numbers.",
 [B+"MatrixElementCache.cpp", B+"MatrixElementCache.hpp", B+"MatrixElements.cpp"], [("reduced elements times 3j and 6j symbols", B+"MatrixElementCache.cpp:update"), ("batch evaluation", B+"MatrixElements.cpp")],
 ["MatrixElementCache::getElectricDipole/getElectricMultipole/getDiamagnetism/getMagneticDipole/getRadial, MatrixElements"])

prop("C15", "Matrix-element caching is invisible: memory, disk, order and failures",
 "The value of a matrix element is the same whether it is computed on first use, precalculated in a batch, taken from memory, or read back from a cache directory written by an earlier run, in any order of requests. "
 "Changing the method, the species database or adding tabulated dipole moments takes effect for all later requests, a failing request leaves the cache usable with all other values intact, and several users may share one cache directory.",
 ["histories", "fault_sequences", "configurations"], "all request sequences with reopening, setting changes and failing requests in between; shared cache directories",
 "Not compiled in the test build; the existing integration test starts from an empty cache once.",
 [B+"MatrixElementCache.cpp", B+"MatrixElementCache.hpp"], [("missing-key lists and SQL tables", B+"MatrixElementCache.cpp:update"), ("precalculation", B+"MatrixElementCache.cpp:precalculate")],
 ["MatrixElementCache getters"], [("cache_radial, cache_angular, cache_reduced", "memoised factors", B+"MatrixElementCache.hpp"), ("cache database", "values persisted across runs", B+"MatrixElementCache.cpp")])

prop("C16", "One-atom Hamiltonians in external fields match an independent construction",
 "For every species, basis restriction and electric and magnetic field the one-atom Hamiltonian equals field-free energies plus the Stark, Zeeman and diamagnetic terms built independently from single matrix elements, and is Hermitian. "
 "Its spectrum does not depend on the common orientation of the fields, on real or complex arithmetic where both apply, or on the order in which fields are set, and the multipole field of a nearby ion equals the corresponding expansion of its Coulomb potential.",
 ["inputs", "configurations", "histories"], "all field vectors, orientations, species, restrictions, ion charges, distances and multipole orders",
 "Not compiled in the test build; the integration test uses one field configuration along z.",
 [B+"SystemOne.cpp", B+"SystemOne.hpp", B+"SystemBase.cpp", B+"WignerD.cpp"], [("spherical field components times cached operators", B+"SystemOne.cpp"), ("operator construction", B+"SystemOne.cpp:initializeInteraction")],
 ["SystemOne getters"])

prop("C17", "Basis transformations of a system preserve its physics",
 "Diagonalising, canonicalising, unitarising, constraining and rotating a system change only the basis as documented: eigenvalues, expectation values and total overlaps are preserved, basis vectors stay orthonormal, and thresholds drop only contributions below the stated size. "
 "Overlap, state, block and connection queries are consistent with the matrices the system reports, and transforming forward and back restores the Hamiltonian.",
 ["histories", "inputs"], "all sequences of transformations on generated one- and two-atom systems",
 "Not compiled in the test build; the integration test only diagonalises once and compares a count.",
 [B+"SystemBase.cpp", B+"SystemBase.hpp"], [("basis and Hamiltonian transformations", B+"SystemBase.cpp"), ("rotation operator", B+"SystemBase.cpp, SystemOne.cpp, SystemTwo.cpp")],
 ["SystemBase public interface"])

prop("C18", "Symmetry-restricted bases partition the full problem without loss or overlap",
 "For every symmetry the system supports, the spectra of all symmetry sectors together are exactly the spectrum of the unrestricted system, and each sector's basis vectors have the requested symmetry (pair sectors of a reflection are formed from one-atom systems whose basis vectors are reflection symmetric themselves, and are not combined with conserved momenta). "
 "Restricting energies, quantum numbers or adding explicit states keeps exactly the states within the restriction, and combining conflicting restrictions is refused.",
 ["configurations", "inputs"], "all combinations of inversion, permutation, reflection, rotation symmetry and restrictions for generated one- and two-atom systems",
 "Not compiled in the test build.",
 [B+"SystemTwo.cpp", B+"SystemOne.cpp", B+"SystemBase.cpp", B+"Symmetry.hpp"], [("symmetrised basis construction", B+"SystemTwo.cpp:initializeBasis, addBasisvectors"), ("reflection symmetry", B+"SystemOne.cpp")],
 ["SystemOne/SystemTwo getStates, getBasisvectors, getHamiltonian"])

prop("C19", "Pair Hamiltonians agree across all formulations and with a direct reference",
 "The interaction part of a two-atom Hamiltonian equals the multipole expansion computed independently from single-atom matrix elements, for every distance, angle and order, and scales with the matching inverse powers of the distance. "
 "The angle-dependent dipole formulation, the Green-tensor formulation and the explicit rotation of the pair give the same Hamiltonian or spectrum wherever more than one applies, and exchanging the two atoms does not change the spectrum.",
 ["inputs", "configurations"], "all distances, angles, multipole orders, species pairs, formulations",
 "Not compiled in the test build; the integration test has one distance at angle zero.",
 [B+"SystemTwo.cpp", B+"SystemTwo.hpp", B+"GreenTensor.cpp"], [("multipole, angular dipole and Green tensor terms", B+"SystemTwo.cpp:initializeInteraction, addInteraction")],
 ["SystemTwo getters"])

prop("C20", "A system's result depends only on its settings, not on how they were reached",
 "After any sequence of setting changes, builds, diagonalisations and queries, a system whose final settings equal those of a freshly created one reports the same states, basis dimension, Hamiltonian and spectrum. "
 "Adding systems that were set up for disjoint parts of the basis, before their Hamiltonians are built, equals building the union (uncoupled parts may also be added afterwards), and a rejected change leaves the previous settings and results in force.",
 ["histories", "configurations"], "all sequences of setters (fields, distance, angle, order, symmetries, Green tensor, surface, ion), builds, diagonalisations and queries before the final settings",
 "Not compiled in the test build; no test changes a setting after a build.",
 [B+"SystemBase.cpp", B+"SystemOne.cpp", B+"SystemTwo.cpp"], [("parameter-change hooks and cached interaction terms", B+"SystemBase.cpp:onParameterChange/onSymmetryChange"), ("build state machine", B+"SystemBase.cpp:buildHamiltonian")],
 ["SystemOne/SystemTwo getters"])

prop("C21", "Perturbative C3 and C6 coefficients match explicit sums and diagonalisation",
 "The perturbative C3 and C6 coefficients and energies equal explicit first- and second-order sums over intermediate pair states with independently computed matrix elements, for every angle and species, and the matrix form agrees with the scalar form on its diagonal. "
 "At large distance the level shift of the diagonalised pair Hamiltonian approaches the predicted C6/R^6 law, and the coefficient matrices are Hermitian and rotate consistently with the angle.",
 ["inputs"], "all pair states, species, angles and intermediate-state ranges",
 "Not compiled in the test build.",
 [B+"PerturbativeInteraction.cpp", B+"PerturbativeInteraction.hpp"], [("intermediate-state loops", B+"PerturbativeInteraction.cpp")],
 ["PerturbativeInteraction::getC6/getC3/getEnergy"])

prop("C22", "The calculation pipeline gives the same results with cold, warm or shared caches",
 "Running a one- or two-atom calculation from a configuration produces, for every step of the scan, the energies and eigenvectors that the direct construction of the same system gives, in step order and with the announced number of steps. "
 "The results are the same whether the cache directory is empty, warm, or was used for any other configurations before, including ones differing only in late digits of a parameter or in the set of keys given, and do not depend on the number of threads.",
 ["configurations", "histories", "schedules"], "all supported configurations and all sequences of configurations sharing a cache directory, all thread counts",
 "Not compiled in the test build; the tests never run the pipeline.",
 [B+"Interface.cpp", B+"HamiltonianOne.cpp", B+"HamiltonianTwo.cpp", B+"MatrixElements.cpp", B+"Basisnames.cpp", B+"ConfParser.hpp"], [("per-step cache keyed by configuration", B+"HamiltonianOne.cpp, HamiltonianTwo.cpp"), ("matrix element cache", B+"MatrixElements.cpp"), ("parallel step loop", B+"HamiltonianOne.cpp, HamiltonianTwo.cpp")],
 ["compute<double>/compute<complex>, result files, stdout protocol"])

prop("C23", "Interrupted or damaged pipeline caches are recomputed, never believed",
 "If a run is interrupted at any point or a cached result file is missing, truncated or structurally damaged, a later run with the same configuration completes and delivers the same results as a run with an empty cache. "
 "Cached matrices belonging to a different configuration are never returned for the requested one.",
 ["crash_points", "fault_sequences"], "all subsets of cached artefacts removed, truncated or corrupted between runs, all kill points",
 "No test runs the pipeline or damages a file.",
 [B+"HamiltonianOne.cpp", B+"HamiltonianTwo.cpp", B+"Hamiltonianmatrix.cpp", B+"ConfParser.cpp"], [("load-or-recompute with stored configuration comparison", B+"HamiltonianOne.cpp, HamiltonianTwo.cpp"), ("validation of matrix files", B+"Hamiltonianmatrix.cpp")],
 ["compute after fault injection"])

prop("C24", "Front-end calculation settings resolve deterministically and hash faithfully",
 "A user dictionary resolves to the same effective calculation parameters whatever equivalent spelling, nesting or key order is used and in whatever order the parameters are queried; more specific keys win over general ones and defaults apply only when nothing was given. "
 "Two settings have the same identifier exactly when their effective parameters agree, copies are independent of their originals, and only settings that were actually changed are reported as changed.",
 ["inputs", "histories"], "all user dictionaries over the documented keys, all query orders, all copy and modify sequences",
 "The Python front end has no tests in the build.",
 [G+"pipy/config.py", G+"pipy/misc.py"], [("property resolution order", G+"pipy/config.py"), ("flattened dictionary with tracking", G+"pipy/misc.py")],
 ["Config getters, toOutDict, toHash, CustomDict"])

prop("C25", "Front-end numerical helpers agree with direct computation",
 "The front end's sparse-matrix helpers (appending rows and columns, keeping maxima, normalisation, byte scaling) and its rotation-matrix evaluation give the same result as a direct dense computation for every input shape and sparsity, without modifying their inputs beyond what is documented. "
 "The rotation matrix store returns the same values whether they are computed or read back from disk, in any order of requests and also after an interrupted or damaged store.",
 ["inputs", "histories", "fault_sequences"], "all small sparse matrices, angles and angular momenta, all request sequences with saving and reloading",
 "The Python front end has no tests in the build.",
 [G+"utils.py"], [("CSR index manipulation", G+"utils.py"), ("pickle cache of rotation matrices", G+"utils.py:Wignerd")],
 ["utils functions"])

prop("C26", "Backend progress messages are interpreted completely and safely by the front end",
 "Every sequence of protocol lines the backend can emit results in exactly the announced quantities: basis, type, totals, per-step results in order, and the end of the calculation, with no message lost or attributed to another part. "
 "An error reported by the backend and any ordinary text output is passed on to the user and never stops the reader.",
 ["histories", "inputs"], "all interleavings of protocol lines, free text and errors",
 "The Python front end has no tests in the build.",
 [G+"worker.py"], [("line parser and queues", G+"worker.py:AllQueues")],
 ["AllQueues.processOneLine"])

prop("C27", "Hashing, random and conversion helpers match their definitions",
 "The checksum used to protect stored data equals the published 64-bit FNV definition for every byte sequence and changes with any single-byte change, and hash combination is deterministic and order-sensitive. "
 "Random integers stay in the requested closed range and reach all its values, and complex/real conversion and conjugation helpers return exactly the mathematical result for real and complex inputs.",
 ["inputs"], "all byte sequences, ranges, real and complex numbers",
 "The helper tests check a few fixed values.",
 [B+"utils.hpp"], [("FNV-1a loop", B+"utils.hpp:FNV64"), ("range and conversion helpers", B+"utils.hpp")],
 ["utils functions"])

prop("C28", "Front-end calculations deliver every step of every block once, as requested",
 "A calculation which the front end runs through the Python interface derives its settings from the parameters of the window without loss or mix-up (species, quantum numbers and restrictions per atom, energy windows around the unperturbed state, order, symmetries, conserved momenta, fields and distances interpolated between their end points in user units). "
 "It covers every state of every requested symmetry block exactly once, reports every step of every block exactly once with energies, basis and parameters that belong to it, whatever the number of processes and the order in which they finish; stored results are reused only for the same parameters, "
 "and an interruption or abort at any point neither fails nor leaves results behind that a later calculation believes.",
 ["inputs", "histories", "schedules", "crash_points"], "all parameters the window can pass on, any sequence of calculations sharing a cache, interruption at any file operation or message, any number of processes",
 "The front end's tests compare two fixed calculations with stored references.",
 ["pairinteraction_gui/pipy_thread.py", "pairinteraction_gui/pipy/atom.py", "pairinteraction_gui/pipy/config.py"],
 [("steps, blocks and messages", "pairinteraction_gui/pipy_thread.py"), ("settings from parameters", "pairinteraction_gui/pipy_thread.py:params_to_settings"), ("stored results", "pairinteraction_gui/pipy_thread.py:one_run"), ("energies, basis and symmetries", "pairinteraction_gui/pipy/atom.py"), ("settings and their defaults", "pairinteraction_gui/pipy/config.py")],
 ["Python interface of the front end"])
prop("C29", "What the window shows is what is saved, restored and calculated",
 "For every history of user actions the main window's settings stay meaningful: an action changes nothing but what depends on it, fields hold values of their kind also after incomplete input, pair limits stay within those of the single atoms, quantum numbers fit the spin of the species, a wildcard stays a wildcard, "
 "and automatically chosen symmetries are exactly those which hold for the fields, angle, order and states. Saving and opening a configuration (in user or atomic units), restarting and resetting restore every setting exactly, whatever was shown before. "
 "A calculation is started if and only if the quantum numbers in use describe existing states (and the chosen method supports them), it gets exactly the parameters shown, with fields turned into the frame of the interatomic axis, and it is aborted on request; clearing the cache removes all cached results and nothing else.",
 ["inputs", "histories"], "all histories of user actions on the settings, all values the fields accept, saved configurations of any state",
 "No test operates the window's settings beyond loading two example files.",
 ["pairinteraction_gui/app.py", "pairinteraction_gui/guiadditions.py", "pairinteraction_gui/unitmanagement.py", "pairinteraction_gui/plotter.ui"],
 [("reactions to user actions", "pairinteraction_gui/app.py:MainWindow"), ("parameters of a calculation", "pairinteraction_gui/app.py:startCalc"), ("automatic symmetries", "pairinteraction_gui/app.py:autosetSymmetrization"), ("saved configurations", "pairinteraction_gui/app.py:loadSettingsSystem"), ("values of the widgets and validators", "pairinteraction_gui/guiadditions.py"), ("conversion of units", "pairinteraction_gui/unitmanagement.py")],
 ["settings of the main window"])

prop("C30", "Energies and eigenvectors are attributed to the states they belong to",
 "After a calculation with one or two atoms through the front end's Python interface, the energies, eigenvectors, overlaps, basis states and lists of states of the atom object belong together, sorted or not and with or without stored overlaps. The energy looked up for a state is that of the eigenstate with the largest overlap with it, "
 "whichever way the state is written, and the energy window of a pair is centred on the energies of its states in the fields. States that are not there are not found, and results of earlier settings are never returned: changing a setting discards them, while copying, deleting or pickling an atom changes no later result.",
 ["inputs", "histories"], "all settings and eigenvectors (also strongly mixed or degenerate ones, and bases with fewer vectors than states), all sequences of calculating, sorting, looking up, changing, copying, deleting and pickling",
 "No test uses the atom objects; the one calculation the tests run through them compares two stored files.",
 ["pairinteraction_gui/pipy/atom.py", "pairinteraction_gui/pipy/config.py"],
 [("calculation, sorting and overlaps", "pairinteraction_gui/pipy/atom.py:calcEnergies"), ("energies of states", "pairinteraction_gui/pipy/atom.py:getEnergiesStates"), ("indices of states", "pairinteraction_gui/pipy/atom.py:findQunumberIndex"), ("window of pair energies", "pairinteraction_gui/pipy/config.py:getEnergiesPair")],
 ["Atom.calcEnergies, getEnergiesStates, findQunumberIndex, updateFromParams, copy, delete"])

prop("C31", "Matrices, vectors and arrays cross between C++ and Python unchanged",
 "Every matrix, sparse matrix, vector or array handed from C++ to Python has exactly the values, shape and type of the C++ object: copies stay independent of it and outlive it, views share its memory, views of constant objects cannot be written to, and the memory of released results is given back. "
 "Every array or sparse matrix passed to C++ is either taken with exactly its values and shape, or refused with an error; arrays of the right type, storage order and dimensions are taken.",
 ["inputs", "histories"], "all shapes, values and element types, memory layouts, byte orders and index types of arrays, all sequences of converting, changing and releasing",
 "The conversion layer is only compiled with the Python bindings, which the test build does not contain.",
 [B+"NumpyUtils.hpp", B+"Traits.hpp", B+"Interface.i"],
 [("results as arrays", B+"NumpyUtils.hpp:convert"), ("arguments from arrays", B+"NumpyUtils.hpp:as"), ("constness", B+"Traits.hpp")],
 ["numpy::convert, numpy::as"])

prop("C32", "The program obeys its options and the front end understands what it prints",
 "The program carries out exactly the calculation of the last given configuration file and type, and writes results only below the last given output directory, whatever the order and form of its options, the names of files and directories (blanks, any characters, names that look like options, absolute or relative) and the working directory; "
 "anything else on the command line is refused with a message on the error stream, a status other than success and no results, and help is a success. What it prints lets the front end see every section, every basis, every step of every block and the end of the calculation exactly once, with existing files whose energies, vectors, list of states and stored parameters belong together, "
 "and energies that depend neither on names of files, number of threads nor earlier runs.",
 ["inputs", "schedules"], "all command lines, all calculations the front end starts, all names of files and directories, any number of threads",
 "The tests call the calculation in the library with one configuration; no test starts the program or connects it with the front end.",
 [B+"main.cpp", B+"Interface.cpp", "pairinteraction_gui/worker.py", "pairinteraction_gui/loader.py"],
 [("options", B+"main.cpp"), ("sections and the end", B+"Interface.cpp:compute"), ("messages of the results", B+"HamiltonianOne.cpp"), ("messages of the blocks", B+"HamiltonianTwo.cpp"), ("reader of the messages", "pairinteraction_gui/worker.py:AllQueues"), ("reader of the results", "pairinteraction_gui/loader.py:Eigensystem")],
 ["command-line program, AllQueues, Eigensystem"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
