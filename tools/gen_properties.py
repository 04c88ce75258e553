#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files,
         "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
         "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
         "observe_at": list(observe), "hook_needed": hook}
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Concurrent integral evaluations return exactly the serial result",
  "After initialisation any number of threads may evaluate integrals at the same time (local, semilocal, spin-orbit, outercore, full operator, overlap, kinetic, momentum, nuclear attraction with every nuclear model, and the scalar nuclear-model functions), sharing the same shells, potentials and operator objects, at the same or different centres. However the threads are interleaved, each call returns exactly the numbers it returns when it is the only call ever made in the process, and no call fails or crashes.",
  ["schedules", "inputs"],
  "every interleaving of 2..n threads' calls at the granularity of single memory accesses, every mix of evaluation functions and shared objects",
  "The test driver is run with one OpenMP thread (the suite is known to be racy); even with many threads it would sample a handful of uncontrolled schedules of one call mix.",
  ["libgrpp/type1_integrals.c", "libgrpp/type1_mcmurchie_davidson.c", "libgrpp/type2_integrals.c", "libgrpp/spin_orbit_integrals.c", "libgrpp/outercore_integrals.c", "libgrpp/full_grpp_integrals.c", "libgrpp/overlap.c", "libgrpp/kinetic.c", "libgrpp/momentum.c", "libgrpp/nuclear_attraction.c", "libgrpp/nuclear_models.c", "libgrpp/radial_type1_integral.c", "libgrpp/radial_type2_integral.c", "libgrpp/angular_integrals.c", "libgrpp/screening.c", "libgrpp/spherical_harmonics.c", "libgrpp/specfunc_scaled_mod_sph_bessel.c", "libgrpp/specfunc_boys.c", "libgrpp/specfunc_gfun.c", "libgrpp/specfunc_fermi_sk.c", "README.md"],
  [("all work arrays are automatic or allocated per call; tables are read-only after init", "libgrpp/*_integrals.c"), ("README: thread safety", "README.md")],
  [("precomputed tables", "Bessel and spherical-harmonic tables written at initialisation, read by every call", "libgrpp/specfunc_scaled_mod_sph_bessel.c, libgrpp/spherical_harmonics.c"), ("shells, potentials, operator", "caller objects shared by reference between threads", "libgrpp/libgrpp.h")],
  ["output matrices at return of each call"])

p("C02", "Concurrent gradient evaluations return exactly the serial result",
  "After initialisation any number of threads may evaluate analytic gradients (local, semilocal, spin-orbit, outercore, full operator, overlap) at the same time as each other and as plain integral evaluations, sharing shells, potentials, operators and differentiation points. However the threads are interleaved, each call returns exactly the numbers it returns when it is the only call ever made in the process, and no call fails or crashes.",
  ["schedules", "inputs"],
  "every interleaving of 2..n threads' gradient (and mixed) calls at the granularity of single memory accesses",
  "Gradients are tested by one serial driver run per molecule; the driver's gradient loop never shares a shell between two running threads in a controlled schedule.",
  ["libgrpp/grpp_integrals_gradient.c", "libgrpp/overlap_gradient.c", "libgrpp/diff_gaussian.c", "libgrpp/shell.c"],
  [("shifted shells are private copies made per call", "libgrpp/diff_gaussian.c"), ("gradient accumulation only into the caller's arrays", "libgrpp/grpp_integrals_gradient.c")],
  [("shell cartesian list", "quantum numbers of a shared shell, read by all calls using it", "libgrpp/shell.c")],
  ["gradient arrays at return of each call"])

p("C03", "Evaluation never alters a caller's input objects, not even transiently",
  "While an integral, gradient, potential-value or nuclear-model call runs, the shells, potentials, operator objects, outercore shells, centre coordinates and parameter arrays passed to it keep their contents: at no instant can another thread that looks at them see a value different from the one the caller put there. After any history of evaluations they are bitwise what they were.",
  ["schedules", "histories", "inputs"],
  "every instant (memory-access boundary) inside every call, every evaluation function, every history of calls",
  "Tests only look at output matrices of finished calls; a temporary change that is undone before return, or a changed field that the driver never re-reads, is invisible to them.",
  ["libgrpp/outercore_integrals.c", "libgrpp/overlap_gradient.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/type2_integrals.c", "libgrpp/type1_integrals.c", "libgrpp/spin_orbit_integrals.c", "libgrpp/full_grpp_integrals.c", "libgrpp/potential.c"],
  [("evaluators work on private copies", "libgrpp/type1_integrals.c (libgrpp_shrink_potential), libgrpp/diff_gaussian.c")],
  [("caller objects", "everything reachable from the arguments except the output arrays", "libgrpp/libgrpp.h")],
  ["every store performed by the library during a call"])

p("C04", "Concurrent initialisation is safe and complete for every thread",
  "Any number of threads may call the initialisation routine at the same time, repeatedly, and while other threads already evaluate. As soon as a thread's own initialisation call has returned, or the library has told it that it is initialised, everything it evaluates is exactly what it would get in a process initialised once by a single thread, and the initialised state is reported truthfully.",
  ["schedules", "histories"],
  "every interleaving of initialisation calls, is-initialised queries and evaluations by 2..n threads, starting from an uninitialised process",
  "The drivers initialise once, from the main thread, before any parallel region.",
  ["libgrpp/init_finalize.c", "libgrpp/spherical_harmonics.c", "libgrpp/specfunc_scaled_mod_sph_bessel.c"],
  [("initialisation runs under a critical section, flag set last", "libgrpp/init_finalize.c:libgrpp_init")],
  [("initialised flag", "tables are complete", "libgrpp/init_finalize.c"), ("tables", "Bessel and spherical-harmonic coefficient tables", "libgrpp/specfunc_scaled_mod_sph_bessel.c, libgrpp/spherical_harmonics.c")],
  ["results of the first evaluation after init returns"])

p("C05", "Init/finalize cycles never change results, on whatever thread they run",
  "Initialisation and finalisation may be repeated in any number, order and from any thread; after every history that ends initialised, all results are exactly those of a freshly started and initialised process, on every thread. The is-initialised query always reports the effect of the calls completed so far, and repeating a call that has no effect (init twice, finalize twice) is harmless, however often. Settings chosen before, between or after these calls stay in force.",
  ["histories", "schedules"],
  "every sequence of init/finalize/query/evaluate calls, distributed in any way over threads, including storms of concurrent init and finalize calls between quiescent points",
  "Tests contain exactly one init and one finalize per process, on the main thread.",
  ["libgrpp/init_finalize.c", "libgrpp/spherical_harmonics.c", "libgrpp/specfunc_scaled_mod_sph_bessel.c"],
  [("tables are rebuilt to identical values or kept", "libgrpp/init_finalize.c, libgrpp/spherical_harmonics.c")],
  [("initialised flag and tables", "process-wide state left behind by finalize", "libgrpp/init_finalize.c")],
  ["is-initialised return value; result of evaluations after each cycle"])

p("C06", "A result depends only on its arguments, not on history or stale memory",
  "The numbers a call returns are a function of its arguments and the settings in force only: they are exactly the same whichever calls were made earlier and in whatever order, on whichever thread they run, whether objects were created, copied or recreated at recycled addresses, and whatever recycled heap blocks, stack space and the caller's output arrays contained before.",
  ["histories", "fault_sequences", "inputs"],
  "every history of earlier calls (repetitions, near-identical arguments, objects freed and recreated at the same address) and every content of uninitialised memory",
  "Each test is one fixed call sequence in one process with mostly zero pages; a stale cache, a missed reset or an uninitialised read shows only after a particular history or with particular garbage.",
  ["libgrpp/radial_type2_integral.c", "libgrpp/radial_type1_integral.c", "libgrpp/type2_integrals.c", "libgrpp/spin_orbit_integrals.c", "libgrpp/outercore_integrals.c", "libgrpp/screening.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/type1_mcmurchie_davidson.c", "libgrpp/overlap_gradient.c", "libgrpp/utils.c"],
  [("outputs are zeroed before accumulation; no state is kept between calls", "libgrpp/*_integrals.c (memset of outputs)")],
  [("hidden process state", "anything surviving a call besides tables and settings", "libgrpp/*.c")],
  ["outputs of every call of a history"])

p("C07", "Calls write their whole output and nothing outside it",
  "Each evaluation fills every element of exactly the output arrays it was given and modifies no other memory of the caller, so threads may at the same time fill neighbouring blocks of one big matrix without disturbing each other. No call reads or writes a freed block or runs over the end of one of its own work arrays.",
  ["schedules", "inputs", "histories"],
  "every shell/potential size combination within the supported range, every neighbouring-output layout, every interleaving of the writers",
  "Tests give each call a generously sized private buffer and only read the expected elements.",
  ["libgrpp/type1_integrals.c", "libgrpp/type2_integrals.c", "libgrpp/spin_orbit_integrals.c", "libgrpp/outercore_integrals.c", "libgrpp/full_grpp_integrals.c", "libgrpp/overlap.c", "libgrpp/kinetic.c", "libgrpp/momentum.c", "libgrpp/nuclear_attraction.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/overlap_gradient.c"],
  [("row-major cart_size(A) x cart_size(B) blocks", "libgrpp/*_integrals.c")],
  [("output arrays", "caller's matrices and gradient component arrays", "libgrpp/libgrpp.h")],
  ["guard zones around outputs during and after each call"])

p("C08", "Memory is conserved over every history; nothing is freed twice",
  "Repeating any history of object creation, evaluation, copying, shrinking, operator assembly and deletion any number of times does not make the process hold more and more memory: every block the library obtains is released exactly once by the end of the call or by the documented delete routine, in every branch of the evaluators and also across initialise/finalise cycles. No history of valid calls releases a block twice or uses a released block.",
  ["histories", "schedules"],
  "every history of create/evaluate/delete/init/finalize calls repeated k times, and every evaluator branch (one-centre, screened-out, grid-refinement, all nuclear models)",
  "No test measures memory; processes are short-lived.",
  ["libgrpp/grpp.c", "libgrpp/potential.c", "libgrpp/shell.c", "libgrpp/radial_type1_integral.c", "libgrpp/radial_type2_integral.c", "libgrpp/outercore_integrals.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/diff_gaussian.c", "libgrpp/spherical_harmonics.c", "libgrpp/fortran.c"],
  [("paired allocate/free in every evaluator; deep ownership of operator parts", "libgrpp/grpp.c:libgrpp_delete_grpp")],
  [("live heap blocks", "bytes and blocks held by the library", "allocator boundary")],
  ["allocator events over repeated rounds of one history"])

p("C09", "Settings affect only what they should: a shell keeps its own ordering",
  "A shell keeps the order of Cartesian components that was in force when it was created: changing the order later, even by another thread in the middle of a call, changes neither the integrals nor the gradients computed with existing shells, nor copies made of them. Tolerance changes take effect on later calls only through the values finally set, and restoring the defaults restores all results exactly. A setting stays in force until another settings call changes it: initialising, finalising, evaluating or creating objects does not reset it.",
  ["histories", "schedules", "configurations"],
  "every history of ordering/tolerance/default changes interleaved with creation, copying and evaluation, by the same or other threads",
  "The drivers set the order at most once, before creating any shell.",
  ["libgrpp/parameters.c", "libgrpp/shell.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/overlap_gradient.c", "libgrpp/diff_gaussian.c", "libgrpp/utils.c"],
  [("component list stored in the shell", "libgrpp/shell.c:libgrpp_new_shell"), ("index lookup of shifted components", "libgrpp/grpp_integrals_gradient.c, libgrpp/overlap_gradient.c")],
  [("global settings", "tolerances and cartesian generator", "libgrpp/parameters.c")],
  ["gradients and integrals of shells created before and after each change"])

p("C10", "A failed memory allocation never yields a wrong result",
  "If the system refuses memory at any single allocation, or at all allocations from some point on, during any library call, the call either ends the process or returns exactly the result it returns without the failure. It never returns to the caller with different numbers, with altered input objects, or with an object that later misbehaves silently.",
  ["fault_sequences", "inputs"],
  "every allocation index of every call x {one failure, all later allocations fail}, every library entry point",
  "Tests never make an allocation fail.",
  ["libgrpp/shell.c", "libgrpp/potential.c", "libgrpp/grpp.c", "libgrpp/radial_type1_integral.c", "libgrpp/radial_type2_integral.c", "libgrpp/outercore_integrals.c", "libgrpp/type2_integrals.c", "libgrpp/spin_orbit_integrals.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/spherical_harmonics.c"],
  [("unchecked allocations are dereferenced at once (process ends)", "libgrpp/*.c")],
  [("allocator", "malloc/calloc/realloc result", "allocator boundary")],
  ["process exit status and outputs after an injected failure"])

p("C11", "Every call completes: no deadlock or livelock under any fair schedule",
  "Whatever mix of initialisation, finalisation, settings, object and evaluation calls threads make, and whichever of them are delayed for any finite time at any point inside any call, every call returns after a bounded number of its own steps once the delays end. No combination of calls makes threads wait for each other forever.",
  ["schedules", "fault_sequences"],
  "every fair schedule with finite stalls of any thread at any point of any call",
  "Serial tests cannot deadlock.",
  ["libgrpp/init_finalize.c", "libgrpp/radial_type2_integral.c", "libgrpp/radial_type1_integral.c", "libgrpp/screening.c", "libgrpp/*.c"],
  [("critical sections are short and not nested; adaptive loops have a grid limit", "libgrpp/init_finalize.c, libgrpp/radial_type2_integral.c")],
  [("locks", "unnamed OpenMP critical section", "libgrpp/init_finalize.c")],
  ["completion of every call within a step bound"])

p("C12", "An operator object always equals the sum of the terms currently in it",
  "Whatever history of assembly built an operator (terms added in any order, at any time between evaluations, the local term replaced any number of times, other operators built or deleted in between), evaluating it gives the sum of the contributions of exactly the terms it currently holds, for integrals and gradients, and deleting it affects no other operator. Threads may build, use and delete their own operators at the same time.",
  ["histories", "schedules"],
  "every history of new/set-local/add/evaluate/delete on several operator objects, interleaved over threads",
  "Tests build each operator once by one fixed sequence and evaluate it afterwards.",
  ["libgrpp/grpp.c", "libgrpp/full_grpp_integrals.c", "libgrpp/grpp_integrals_gradient.c"],
  [("operator holds lists of owned terms", "libgrpp/grpp.c"), ("full integrals accumulate term by term", "libgrpp/full_grpp_integrals.c")],
  [("operator object", "local, averaged, spin-orbit, outercore lists and counters", "libgrpp/grpp.c")],
  ["full-operator integrals and gradients after each assembly step"])

p("C13", "Fortran entry points match the C ones under concurrency and any history",
  "Every Fortran-callable entry point may be called by many threads at once and in any order; each call returns exactly what the corresponding C call returns in a fresh process for the same arguments, keeps nothing between calls, and leaves its argument arrays unchanged except the outputs.",
  ["schedules", "histories", "inputs"],
  "every interleaving and history of Fortran-interface calls, alone and mixed with C calls",
  "The Fortran driver is serial and calls each wrapper in one fixed pattern.",
  ["libgrpp/fortran.c"],
  [("wrappers build temporary shells and potentials per call and delete them", "libgrpp/fortran.c")],
  [("argument arrays", "coordinates, exponents, coefficients, powers", "libgrpp/fortran.c")],
  ["outputs of each wrapper call"])

p("C14", "The parallel driver computes the same matrices for any team and schedule",
  "The C driver's parallel evaluation of a molecule's integrals and gradients produces the same matrices whatever the number of threads, the assignment of shell pairs to threads and the interleaving of their work: the same numbers a one-thread run produces.",
  ["schedules", "configurations"],
  "every team size, every dynamic assignment of shell pairs, every interleaving, on generated small molecules",
  "The suite pins OMP_NUM_THREADS=1 because the multi-threaded result is known to vary.",
  ["test_libgrpp_c/eval_integrals.c", "test_libgrpp_c/eval_integrals_grad.c", "libgrpp/outercore_integrals.c", "libgrpp/overlap_gradient.c"],
  [("each shell pair writes its own block of the matrix", "test_libgrpp_c/eval_integrals.c")],
  [("full matrices", "shared output of the team", "test_libgrpp_c/eval_integrals.c")],
  ["matrices after the parallel region"])

p("C15", "A thread stalled inside any call never holds up other threads' evaluations",
  "Once the library is initialised, however long one thread is delayed inside any library call (an evaluation, object handling, a repeated initialisation, a query) - even if it never runs again - every evaluation and object call of every other thread still completes within a bounded number of its own steps, with exactly the result it has otherwise. No evaluation ever waits for another thread.",
  ["schedules", "fault_sequences"],
  "every point inside every call at which one thread may be delayed forever, every mix of calls made meanwhile by other threads",
  "Tests run one thread; a lock, spin-wait or busy flag in an evaluator never blocks anyone there.",
  ["libgrpp/init_finalize.c", "libgrpp/type1_integrals.c", "libgrpp/type2_integrals.c", "libgrpp/spin_orbit_integrals.c", "libgrpp/outercore_integrals.c", "libgrpp/full_grpp_integrals.c", "libgrpp/grpp_integrals_gradient.c", "libgrpp/nuclear_attraction.c", "libgrpp/radial_type1_integral.c", "libgrpp/radial_type2_integral.c"],
  [("evaluators take no lock and share no writable state", "libgrpp/*_integrals.c"), ("the only critical section is in initialisation and finalisation", "libgrpp/init_finalize.c")],
  [("locks", "the unnamed OpenMP critical section", "libgrpp/init_finalize.c")],
  ["return of the other threads' calls while one thread is frozen"])

p("C16", "Calls neither disturb nor depend on the caller's process environment",
  "No library call changes what belongs to its caller or to the whole process: rounding mode and other floating-point controls (floating-point exception flags already raised stay raised), the OpenMP defaults and settings, the C random number sequence, locale, signal handlers, environment variables, working directory, files and the standard streams. And no result depends on what earlier code left behind: a stale errno, raised floating-point exception flags, environment variables, the clock, the position of the C random sequence, or the number and numbering of the OpenMP threads the caller runs in.",
  ["schedules", "histories"],
  "every call kind, entered with every leftover errno and exception-flag state, arbitrary environment variables and clock values, from plain threads and from members of OpenMP teams of any size",
  "Tests start each call in a clean process with errno 0, no flags raised and the default environment, and look only at the numbers.",
  ["libgrpp/init_finalize.c", "libgrpp/type1_integrals.c", "libgrpp/radial_type1_integral.c", "libgrpp/radial_type2_integral.c", "libgrpp/nuclear_attraction.c", "libgrpp/nuclear_models.c", "libgrpp/specfunc_*.c", "libgrpp/spherical_harmonics.c", "libgrpp/parameters.c"],
  [("plain C numerics without mode switches", "libgrpp/*.c"), ("no OpenMP construct except the initialisation lock", "libgrpp/init_finalize.c")],
  [("errno, MXCSR, x87 control word", "of the calling thread", "libgrpp/*.c"), ("environment, streams, random state", "of the process", "libgrpp/*.c")],
  ["results under different ambient states", "ambient state after each call"])

p("C17", "Shells and potentials are independent of what they were made from",
  "A shell or potential holds its own data from creation to deletion: creating one copies the caller's arrays, a deep copy or a shrunk copy shares nothing with its source, changing, shrinking, normalising or deleting one object never changes the value, the integrals or the validity of any other object, and different threads may create, change, use and delete their own objects - copies of one common source included - at the same time.",
  ["histories", "schedules"],
  "every history of creations, deep copies, shrinks, normalisations, deletions and evaluations over several objects, and every interleaving of threads working on their own copies",
  "Tests make each object once, use it and delete it in one thread; shared sub-arrays, reference counts and free lists never show there.",
  ["libgrpp/shell.c", "libgrpp/potential.c", "libgrpp/type1_integrals.c", "libgrpp/radial_type2_integral.c"],
  [("libgrpp_shell_deep_copy", "libgrpp/shell.c"), ("libgrpp_shell_shrink, libgrpp_shell_mult_normcoef", "libgrpp/shell.c"), ("libgrpp_new_potential, libgrpp_shrink_potential, libgrpp_delete_potential", "libgrpp/potential.c")],
  [("shells", "cart_list, coeffs, alpha of each", "libgrpp/shell.c"), ("potentials", "powers, coeffs, alpha of each", "libgrpp/potential.c")],
  ["integrals and potential values of every live object", "memory accesses"])

# ---- properties this technique does not apply to
num = ["libgrpp/*.c"]
p("C20", "Hermiticity: real operators symmetric, spin-orbit and momentum antisymmetric",
  "Exchanging bra and ket transposes the matrices of local, semilocal, outercore, overlap, kinetic and Coulomb operators and transposes and negates those of the spin-orbit and momentum operators.",
  ["inputs"], "every pair of shells, centre and potential", "A handful of molecules is compared to stored numbers only.",
  ["libgrpp/type1_integrals.c", "libgrpp/type2_integrals.c", "libgrpp/spin_orbit_integrals.c", "libgrpp/outercore_integrals.c", "libgrpp/overlap.c", "libgrpp/kinetic.c", "libgrpp/momentum.c"], [("formulas", "libgrpp/*_integrals.c")])
p("C21", "Translation and rotation covariance of all integrals",
  "Translating all centres leaves every integral unchanged; rotating all centres transforms the integrals by the representation matrices of the shells.",
  ["inputs"], "every geometry and rigid motion", "Tests use fixed geometries.",
  ["libgrpp/angular_integrals.c", "libgrpp/spherical_harmonics.c", "libgrpp/type2_integrals.c"], [("formulas", "libgrpp/angular_integrals.c")])
p("C22", "Gradients are the derivatives of the integrals and sum to zero",
  "Each analytic gradient equals the derivative of the corresponding integral with respect to the given centre, and the gradients with respect to all centres involved sum to zero.",
  ["inputs"], "every geometry, shell pair and operator", "Tests compare against stored numbers for a few molecules.",
  ["libgrpp/grpp_integrals_gradient.c", "libgrpp/overlap_gradient.c"], [("translational invariance relation", "libgrpp/grpp_integrals_gradient.c")])
p("C23", "Integrals agree with the defining integral to the promised accuracy",
  "Analytic and numerical evaluation agree with the defining three-dimensional integrals to the set tolerance for every supported angular momentum up to the documented maximum.",
  ["inputs"], "every supported input, up to basis and potential angular momentum 10", "Tests reach low angular momenta and a few exponents.",
  ["libgrpp/radial_type1_integral.c", "libgrpp/radial_type2_integral.c", "libgrpp/type1_mcmurchie_davidson.c", "libgrpp/libgrpp.h"], [("adaptive log quadrature, recurrences", "libgrpp/radial_type2_integral.c")])
p("C24", "Nuclear models converge to the point charge; all entry points agree",
  "For vanishing nuclear radius each finite-nucleus model gives the point-charge integrals, and the generic and the per-model entry points give the same numbers for the same model parameters.",
  ["inputs"], "every model and parameter set", "Tests never call the finite-nucleus entry points.",
  ["libgrpp/nuclear_attraction.c", "libgrpp/nuclear_models.c"], [("model dispatch", "libgrpp/nuclear_attraction.c")])
p("C25", "Integrals are linear in contraction coefficients and in the potential",
  "Splitting a contraction or a potential into parts and adding the parts' integrals gives the integral of the whole.",
  ["inputs"], "every splitting", "Tests use fixed contractions.", ["libgrpp/type1_integrals.c", "libgrpp/overlap.c"], [("loops over primitives", "libgrpp/overlap.c")])
p("C26", "The matrix comparison tool accepts a file only if it matches the reference",
  "The comparison tool succeeds only when both files hold the same set of elements within the tolerance, and fails for missing, non-numeric or differing ones.",
  ["inputs"], "every pair of files", "Nothing tests the comparer.", ["test/compare_matrices.c"], [("element-wise comparison", "test/compare_matrices.c")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
