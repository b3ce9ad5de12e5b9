#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
SOL = ["src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c"]
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

NOVAL = "The existing tests never look at a solver output value (they check helper functions on one fixed vector, argument validation messages and result shapes)"

prop("C01", "OPTIMAL is a certificate: KKT conditions hold for the user's original data",
 "Whenever a solve reports OPTIMAL, the returned x, y, z, s satisfy, for the problem data the caller passed in, ||Px+c+A'y+G'z||, ||Ax-b|| and ||Gx+s-h|| each below reltol/sqrt(3) and s'z/m below abstol (up to rounding in evaluating them), with every component of s and z strictly positive and everything finite. This holds for every tolerance, iteration limit, sigma, sigma_d, ordering and input format.",
 ["inputs", "configurations"], "every well-formed QP (n,m>=1, p>=0, symmetric PSD P) with every setting and interface variant",
 NOVAL + "; whether the certificate is honest depends on the data, the sparsity pattern, the ordering and the settings.",
 SOL, [("stopping test", "src/qpSWIFT.c QP_SOLVE"), ("residual evaluation", "src/Auxilary.c computeresiduals")],
 [("QP.x/y/z/s", "current primal-dual iterate", "include/Auxilary.h")], ["return value of QP_SOLVE", "QP.x,y,z,s"])

prop("C02", "The optimum returned is the true minimiser of the stated QP",
 "For every feasible, bounded convex QP on which a solve reports OPTIMAL, the objective value and, for strictly convex problems, x itself agree with the independently known minimiser of 0.5x'Px+c'x subject to Ax=b, Gx<=h, within the error bound implied by the requested tolerances. The signs of the multipliers follow the convention Px+c+A'y+G'z=0, z>=0.",
 ["inputs"], "every feasible bounded convex QP with an independently known or enumerable solution",
 NOVAL + "; the answer is only wrong for particular active sets, sparsity patterns and scalings.",
 SOL, [("KKT assembly", "src/Auxilary.c formkktmatrix_full"), ("sparse LDL' solve", "src/ldl.c"), ("iteration", "src/qpSWIFT.c QP_SOLVE")],
 observe=["QP.x,y,z,s", "QP.stats.fval"])

prop("C03", "Termination is exact: first tolerable iterate, MAXIT only at the limit",
 "A solve returns OPTIMAL at exactly the first iterate (counting the starting point) whose residual norms and gap meet the requested tolerances, and returns MAXIT exactly when the number of performed iterations has reached the limit without such an iterate among those tested. IterationCount equals the number of steps taken, never exceeds the limit, the return value equals the stored flag, and no other exit status occurs on well-formed input.",
 ["inputs", "configurations"], "every QP, every combination of iteration limit and tolerances including ones exactly bracketing an iterate's residuals",
 NOVAL + "; the boundary between stopping and continuing depends on residual values no fixed test samples.",
 ["src/qpSWIFT.c"], [("stopping test and iteration counter", "src/qpSWIFT.c QP_SOLVE")],
 [("stats.IterationCount", "steps performed", "include/Auxilary.h"), ("stats.Flag", "exit status", "include/Auxilary.h")],
 ["return value of QP_SOLVE", "stats.IterationCount", "stats.Flag"])

prop("C04", "No false optimum for infeasible, unbounded or non-finite problems",
 "A solve of a problem that has no optimum (primal infeasible or unbounded below by a margin that both the tolerances and rounding can resolve, or carrying NaN/infinite data that makes it meaningless) never reports OPTIMAL. It still terminates within the iteration limit, without crashing, and cleans up normally.",
 ["inputs", "configurations"], "every QP that is infeasible by a certified margin, unbounded with a certified recession ray, or has non-finite coefficients",
 "The existing tests contain no infeasible, unbounded or non-finite problem at all.",
 SOL, [("stopping test", "src/qpSWIFT.c QP_SOLVE"), ("dynamic regularisation of tiny pivots", "src/ldl.c LDL_numeric")],
 observe=["return value of QP_SOLVE"])

prop("C05", "Well-posed QPs are solved to OPTIMAL well within the default iteration limit",
 "Every well-scaled convex QP that has a strictly feasible point and a bounded solution set is solved to OPTIMAL with default settings, and needs a number of iterations comparable to a textbook predictor-corrector method (a small multiple at most, far below the limit of 100); isolated losses to rounding, which vanish when the data are rescaled by a factor near one, stay rare. This includes LPs and rank-deficient P, box constraints, MPC-like banded problems, problems with many more constraints than variables, and requests for moderately tighter tolerances.",
 ["inputs", "configurations"], "every generated family of strictly feasible bounded QPs up to several hundred variables and constraints, default options and reltol/abstol down to 1e-8",
 "Progress is a property over all inputs; the tests solve two or three fixed QPs and do not check the exit flag or iteration count.",
 SOL, [("predictor-corrector direction and centering", "src/qpSWIFT.c QP_SOLVE"), ("step lengths", "src/Auxilary.c findsteplength")],
 observe=["return value of QP_SOLVE", "stats.IterationCount"])

prop("C06", "Every iterate stays strictly interior, finite, with step sizes in (0,1]",
 "On every feasible well-scaled problem, at the starting point and after every iteration all slacks s and multipliers z are strictly positive and every variable is finite, the reported primal and dual step sizes lie in (0,1], and a step never moves closer to the boundary than the fraction 0.99 allows. A solve stopped after k iterations holds exactly the k-th iterate of the full run.",
 ["inputs", "histories"], "every iteration limit k of every solve trajectory",
 "The tests never inspect an iterate; the property quantifies over every step of every trajectory.",
 ["src/qpSWIFT.c", "src/Auxilary.c"], [("ratio test", "src/Auxilary.c findsteplength"), ("0.99 step scaling and cap at 1", "src/qpSWIFT.c QP_SOLVE"), ("starting point shift", "src/Auxilary.c kkt_initialize")],
 [("QP.s, QP.z", "strictly positive slack and multiplier", "include/Auxilary.h"), ("stats.alpha_p/alpha_d", "last step sizes", "include/Auxilary.h")],
 ["QP.x,y,z,s after solves with maxit=k"])

prop("C07", "Each iteration is the documented Mehrotra predictor-corrector step",
 "Starting from the current iterate, one iteration moves along the predictor-corrector direction of the documented method (affine Newton step, centering sigma=max(sigma_d,min(1,rho)^3), second-order correction, and a pure centering step when sigma has fallen to sigma_d), with separate primal and dual steps of 0.99 times the distance to the boundary capped at 1. So, on well-conditioned problems, each next iterate equals to rounding the one computed by an independent dense reference from the same iterate, wherever rounding does not decide which constraint blocks the step.",
 ["inputs", "configurations", "histories"], "every step of trajectories on well-conditioned QPs with and without equalities, for every sigma, sigma_d and ordering",
 "A wrong direction still often converges, so neither shape checks nor even checking the final answer can settle it; the tests check neither.",
 SOL, [("predictor, rho and sigma update, corrector, update", "src/qpSWIFT.c QP_SOLVE"), ("direction recovery", "src/Auxilary.c kktsolve_1, kktsolve_2"), ("right-hand sides", "src/Auxilary.c form_ds, updatekktmatrix_b")],
 observe=["QP.x,y,z,s after solves with maxit=k and maxit=k+1", "stats.alpha_p, alpha_d"])

prop("C08", "Setup computes the documented starting point",
 "After setup and before any solve, x and y solve the equality-constrained least-squares problem min 0.5x'Px+c'x+0.5||s||^2 subject to Ax=b, Gx+s=h, and s and z are h-Gx and its negative, each shifted uniformly by 1 plus its violation exactly when it is not already strictly positive. The start is thus strictly interior for every input whose magnitudes leave a shift of one representable.",
 ["inputs", "configurations"], "every QP whose initial KKT system is well conditioned, all input formats and orderings",
 NOVAL + "; the shift logic has input-dependent branches (already positive, zero minimum, negative).",
 ["src/Auxilary.c", "src/ldl.c"], [("initialisation", "src/Auxilary.c kkt_initialize, ldlinitialsolve")],
 observe=["QP.x,y,z,s after QP_SETUP / QP_SETUP_dense"])

prop("C09", "Reported objective and residual statistics describe the returned point",
 "After an OPTIMAL exit the reported objective value equals 0.5x'Px+c'x and the reported residual norms and gap equal ||Px+c+A'y+G'z||, ||Ax-b||, ||Gx+s-h|| and s'z/m of the returned variables, to rounding; after a MAXIT exit they equal those of the last iterate that was evaluated, one step before the returned one. Statistics that do not apply or were never evaluated hold a defined value, not leftover memory.",
 ["inputs", "configurations"], "every solve, with and without equalities, including iteration limits from zero upward",
 "No existing test reads a statistic's value.",
 ["src/qpSWIFT.c", "src/Auxilary.c"], [("objective", "src/Auxilary.c obj_value"), ("residual norms", "src/Auxilary.c computeresiduals")],
 [("stats.fval, n_rx, n_ry, n_rz, n_mu", "reported statistics", "include/Auxilary.h")], ["QP.stats"])

prop("C10", "All input formats of the same QP give the same result",
 "Passing the same problem in sparse column form (sorted or unsorted, with explicit zeros, or with an entry split into duplicates), dense row-major form or dense column-major form gives the same exit flag (where rounding cannot tip it) and the same solution up to rounding. Sorted sparse, row-major and column-major forms of the same matrices give identical iteration counts and trajectories.",
 ["inputs", "configurations"], "every QP and every equivalent encoding of its matrices",
 "Tests feed one format per problem and never compare results across formats.",
 ["src/qpSWIFT.c", "src/Auxilary.c"], [("dense conversion", "src/Auxilary.c densetosparse, densetosparse_ROWMAJOR"), ("transpose", "src/Auxilary.c SparseMatrixTranspose")],
 observe=["QP_SETUP vs QP_SETUP_dense results"])

prop("C11", "Ordering and labelling do not change the answer",
 "For every valid caller-supplied elimination ordering, the solver uses exactly that ordering. For a positive definite P and an ordering that eliminates the variables before the equalities it also returns the same exit flag and solution (up to rounding) as with its own ordering; other orderings can meet zero pivots, which the solver only regularises. Relabelling variables or reordering constraint rows of the problem correspondingly relabels the solution and multipliers.",
 ["inputs", "configurations"], "every permutation of the n+m+p unknowns and every relabelling of variables, equalities and inequalities",
 "The tests never supply a permutation; n! orderings cannot be sampled by fixed tests.",
 SOL, [("permuted factorisation and solves", "src/ldl.c LDL_symbolic, LDL_numeric, LDL_perm, LDL_permt"), ("use of the caller's permutation", "src/qpSWIFT.c QP_SETUP, QP_SETUP_dense")],
 observe=["QP.x,y,z,s", "stats.AMD_RESULT", "QP.kkt.P"])

prop("C12", "Equality constraints are honoured when given and absent when not",
 "A problem whose equality block is absent (p=0, or any of its arrays NULL) behaves identically to the inequality-only problem in every such encoding, through setup, solve and cleanup. When present, every equality row is enforced, and an equality-free problem gives the same answer as one whose equalities are implied by construction.",
 ["inputs", "configurations"], "every encoding of an absent equality block crossed with sparse/dense setup, and every problem with redundant or non-binding equalities",
 "The tests exercise only one encoding of absence and do not compare results.",
 ["src/qpSWIFT.c", "src/Auxilary.c"], [("presence test on A and b", "src/qpSWIFT.c QP_SETUP, QP_SETUP_dense"), ("both branches of KKT assembly", "src/Auxilary.c formkktmatrix_full")],
 [("QP.p, QP.A", "equality block present iff p>0", "include/Auxilary.h")], ["QP.x,z,s", "QP.p"])

prop("C13", "Caller's arrays are only read, only within bounds, and never freed",
 "Setup, solve and cleanup never write to, free, or read outside the matrices, vectors and permutation the caller passes in; after cleanup all of them hold their original contents and remain the caller's to reuse or free. Matrices passed to dense setup may be released right after setup returns.",
 ["inputs", "histories"], "every array argument of every setup variant over whole setup-solve-cleanup lifecycles",
 "A write that restores or rarely happens, or an off-by-one read, is invisible to shape checks; tests never protect or compare their inputs.",
 ["src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c", "src/amd_order.c"], [("borrowed pointers", "src/qpSWIFT.c QP_SETUP, QP_CLEANUP"), ("permutation ownership marker", "src/qpSWIFT.c QP_CLEANUP")],
 observe=["memory protection of caller buffers", "contents of caller buffers"])

prop("C14", "No memory error or undefined behaviour on any well-formed input",
 "For every well-formed problem (any n,m>=1, p>=0, including empty rows and columns, empty matrices, dense rows, duplicates, unsorted columns, zero P, and infeasible or unbounded data) setup, solve and cleanup run without out-of-bounds access, use after free, signed overflow, misaligned or invalid access or any other undefined behaviour. The same holds for the solver's public ordering, factorisation and validation routines.",
 ["inputs", "configurations"], "every well-formed problem shape, sparsity pattern and setting",
 "The tests run uninstrumented on a few dense shapes; memory errors on other shapes usually go unnoticed there.",
 ["src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c", "src/amd_2.c", "src/amd_1.c", "src/amd_aat.c", "src/amd_preprocess.c"],
 [("size computation of the KKT matrix", "src/qpSWIFT.c QP_SETUP"), ("workspace sizing and garbage collection", "src/amd_1.c, src/amd_2.c"), ("factor storage sizing", "src/Auxilary.c ldlinitialsolve")],
 observe=["AddressSanitizer and UndefinedBehaviorSanitizer reports"])

prop("C15", "Results never depend on uninitialised memory",
 "No decision, returned value, statistic or printed line depends on memory that was never written: solving the same problem on differently pre-filled heaps gives bit-identical variables, statistics, exit flag and verbose trace. No uninitialised value is used in a branch, passed to a function or printed.",
 ["inputs", "configurations"], "every problem, option and heap content",
 "On a fresh process the heap is mostly zero, so uninitialised reads look deterministic to the tests.",
 ["src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c", "src/amd_2.c"], [("field initialisation in setup", "src/qpSWIFT.c QP_SETUP"), ("workspace initialisation", "src/ldl.c LDL_numeric, src/amd_2.c")],
 observe=["MemorySanitizer reports", "results under poisoned allocators"])

prop("C16", "Memory is conserved: cleanup releases everything, solving allocates nothing",
 "Over any setup-solve-cleanup lifecycle, every block the library allocates is released exactly once and nothing it did not allocate is released, for every setup variant, exit status and option, including cleanup without a solve. All allocation happens in setup: a solve allocates and frees no memory.",
 ["inputs", "histories", "configurations"], "every lifecycle of setup, optional solve, cleanup, in both sparse and dense variants with and without equalities and permutation",
 "The tests run without leak detection and never count allocations.",
 ["src/qpSWIFT.c", "src/Auxilary.c", "src/amd_order.c"], [("allocation in setup", "src/qpSWIFT.c QP_SETUP, QP_SETUP_dense; src/Auxilary.c ldlinitialsolve, kkt_initialize"), ("release", "src/qpSWIFT.c QP_CLEANUP, QP_CLEANUP_dense")],
 observe=["allocator event log"])

prop("C17", "Instances are isolated and deterministic under any interleaving of calls",
 "The result of solving a problem depends only on its data and options: creating, solving and destroying any number of other instances before, between or after its own setup, solve and cleanup calls changes nothing, bit for bit. Repeating the same problem always gives identical variables, flag and iteration count.",
 ["histories", "inputs"], "every sequential interleaving of setup, option changes, solves and cleanups of several live instances",
 "Each test runs one instance at a time and never compares repeated runs.",
 ["src/qpSWIFT.c", "src/Auxilary.c", "src/amd_global.c", "src/timer.c"], [("all state held in the QP structure", "include/Auxilary.h")],
 observe=["QP.x,y,z,s, stats of every instance"])

prop("C18", "Independent instances can be used concurrently",
 "Threads that each set up, solve and clean up their own instances, even when sharing the same read-only problem arrays, never race on shared state and obtain results bit-identical to the sequential ones. This holds for the ordering and factorisation routines as well.",
 ["schedules", "inputs"], "every schedule of threads working on distinct instances",
 "The tests are single-threaded.",
 ["src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c", "src/timer.c", "src/amd_global.c", "src/amd_2.c"], [("no mutable globals", "src/*.c")],
 observe=["ThreadSanitizer reports", "per-thread results vs sequential results"])

prop("C19", "Fill-reducing ordering is a valid, good permutation with honest statistics",
 "For every valid sparse pattern and control setting the ordering routine returns a permutation of 0..n-1 with status OK (or OK_BUT_JUMBLED exactly when columns are unsorted or have duplicates), leaves its inputs untouched, and reports statistics that are exact where defined exactly and true upper bounds on the factor's nonzeros and operation counts otherwise. The fill it produces is comparable to an exact minimum-degree ordering, and rows well above the dense threshold are placed last.",
 ["inputs", "configurations"], "every sparse pattern (symmetric or not, jumbled, with dense rows, empty rows, disconnected) and every control setting",
 "The tests never call the ordering directly and a bad or invalid ordering on some pattern would not be seen.",
 ["src/amd_order.c", "src/amd_1.c", "src/amd_2.c", "src/amd_aat.c", "src/amd_preprocess.c", "src/amd_postorder.c", "src/amd_post_tree.c", "src/amd_valid.c", "include/amd.h"],
 [("quotient-graph minimum degree", "src/amd_2.c"), ("pattern of A+A'", "src/amd_aat.c, src/amd_1.c"), ("postordering", "src/amd_postorder.c, src/amd_post_tree.c")],
 observe=["P and Info returned by amd_l_order"])

prop("C20", "Ordering failures are reported and survived",
 "The ordering routine rejects every malformed input with INVALID and every allocation failure or size beyond what memory can address with OUT_OF_MEMORY, without crashing, leaking or touching memory outside its arguments. If ordering fails during setup for any reason, setup completes with a fallback ordering, the failure is visible in the statistics, and the solve still returns the correct answer.",
 ["fault_sequences", "inputs"], "every allocation point of the ordering failing, alone or in combination, and every malformed pattern",
 "The tests never inject an allocation failure and never pass a malformed matrix.",
 ["src/amd_order.c", "src/amd_1.c", "src/amd_valid.c", "src/qpSWIFT.c"], [("allocation checks", "src/amd_order.c"), ("input validation", "src/amd_valid.c"), ("fallback permutation", "src/qpSWIFT.c QP_SETUP, QP_SETUP_dense")],
 [("stats.AMD_RESULT", "status of the ordering", "include/Auxilary.h")], ["status of amd_l_order", "stats.AMD_RESULT", "QP.x"])

prop("C21", "Sparse LDL' factorisation and solves are exact to rounding",
 "For every symmetric matrix whose pivots in the given order are not tiny, the computed unit lower-triangular L and diagonal D reproduce the permuted matrix to rounding, L has exactly the predicted nonzero counts with ascending indices, and the forward, diagonal and backward solves give the solution of the original system to its conditioning. The validators accept exactly the valid permutations and matrices; pivots of magnitude at most 1e-14 are replaced by 1e-7 with their sign, so the factorisation always completes.",
 ["inputs"], "every sparse symmetric matrix (unsorted, duplicate entries, any permutation or none)",
 "The tests never call the factorisation directly and never check a solution against a reference.",
 ["src/ldl.c", "include/ldl.h"], [("symbolic analysis", "src/ldl.c LDL_symbolic"), ("numeric factorisation with dynamic regularisation", "src/ldl.c LDL_numeric"), ("triangular solves", "src/ldl.c LDL_lsolve, LDL_dsolve, LDL_ltsolve")],
 observe=["L, D, Parent, Lp returned by the LDL routines"])

prop("C22", "Options have the documented defaults and each takes effect",
 "A fresh instance has the documented default settings (100 iterations, tolerances 1e-6, sigma 100, verbose 0), and any option changed between setup and solve governs that solve: the iteration limit, the residual tolerance, the gap tolerance and the verbosity act independently, tightening a tolerance never ends the solve earlier, and none of them changes the sequence of iterates visited. The sigma setting selects the first step: the predictor-corrector step, whatever its value, when it exceeds the sigma_d given at setup, otherwise the centering step towards sigma_d times the gap.",
 ["configurations", "inputs"], "every combination of option values on every instance",
 "Tests set at most one or two options and only check that the call returns.",
 ["src/qpSWIFT.c", "include/GlobalOptions.h"], [("defaults", "src/qpSWIFT.c QP_SETUP, QP_SETUP_dense"), ("use of options", "src/qpSWIFT.c QP_SOLVE")],
 [("QP.options", "settings in force", "include/Auxilary.h")], ["QP.options", "return value", "QP.x"])

prop("C23", "Verbose output is silent at 0, truthful above 0, and without side effects",
 "With verbose 0 the library prints nothing at all; with verbose above 0 it prints one line per evaluated iterate whose iteration number, cost, residuals and gap equal that iterate's true values, one line per step with the step sizes taken, and a closing message that matches the exit flag and iteration count. Verbosity never changes any result.",
 ["configurations", "inputs"], "every verbosity level on every problem and exit status",
 "The tests never capture or read the output.",
 ["src/qpSWIFT.c"], [("prints", "src/qpSWIFT.c QP_SOLVE, QP_SETUP")],
 observe=["standard output of the process"])

prop("C24", "Reported times are true elapsed times",
 "Setup, solve, KKT and factorisation times are the elapsed monotonic time in seconds of the corresponding phase: finite, never negative, the setup and solve times spanning the whole call, with factorisation time at most KKT time at most solve time. This holds wherever the clock stands, including across second boundaries and for long phases.",
 ["inputs", "schedules"], "every clock reading and clock advance between any two readings",
 "Tests do not check any time, and a wrong carry across a second boundary appears only by chance.",
 ["src/timer.c", "src/qpSWIFT.c", "src/Auxilary.c"], [("tic and toc with borrow", "src/timer.c"), ("accumulation", "src/qpSWIFT.c QP_SOLVE, src/Auxilary.c kktsolve_1")],
 [("stats.tsetup, tsolve, kkt_time, ldl_numeric", "times in seconds", "include/Auxilary.h")], ["QP.stats times", "clock_gettime call log"])

prop("C25", "Python: every call either solves or raises a clean exception",
 "For any arguments whatsoever, the Python entry point either returns a result or raises an ordinary Python exception; it never crashes the interpreter, hangs, or returns with an exception pending. Arrays of wrong type, dimensionality or inconsistent shape, empty problems, and out-of-range or ill-typed options are rejected with TypeError before any solving, except that an invalid OUTPUT only warns and falls back.",
 ["inputs"], "every combination of argument objects, array dtypes, shapes, dimensionalities and option dictionaries",
 "syntax.py asserts a few dozen fixed messages; crashes sit in unlisted combinations such as zero-dimensional or empty arrays, huge integers and warnings turned into errors.",
 ["python/pyqpSWIFT.c"], [("argument and option validation", "python/pyqpSWIFT.c method_qpSWIFT")],
 observe=["exception or result of qpSWIFT.run", "interpreter exit status"])

prop("C26", "Python: results equal the C solver's for every array layout and dtype",
 "The Python entry point returns the same solution, multipliers, slacks, objective, flag and iteration count as the C library on the same values and options, for any float dtype, byte order, strides, alignment or memory order, through positional or keyword arguments, and never modifies its input arrays. The result dictionary has exactly the documented keys for each OUTPUT level with freshly owned float64 arrays of the right length.",
 ["inputs", "configurations"], "every memory layout and dtype of every array argument and every option combination",
 "Tests pass contiguous float64 arrays and never look at the numbers.",
 ["python/pyqpSWIFT.c", "src/qpSWIFT.c"], [("conversion to contiguous double", "python/pyqpSWIFT.c getptr"), ("result construction", "python/pyqpSWIFT.c method_qpSWIFT")],
 observe=["dictionary returned by qpSWIFT.run", "QP results of the C library on the same data"])

prop("C27", "Python: no reference or memory leak on any path",
 "Calling the Python entry point any number of times, on success and on every error path, leaves the reference counts of all argument objects, option keys and values unchanged, and leaves no live object or native block behind once the result is dropped. Returned arrays stay valid after everything else has been released.",
 ["histories", "inputs"], "every call outcome repeated any number of times",
 "Tests never measure reference counts or memory.",
 ["python/pyqpSWIFT.c"], [("reference handling", "python/pyqpSWIFT.c method_qpSWIFT")],
 observe=["sys.getrefcount of arguments", "allocated blocks", "resident native allocations"])

prop("C28", "Python: concurrent calls are independent, even while inputs change",
 "While the solver runs without the interpreter lock, other threads may run further solves or overwrite the input arrays without affecting the result, which equals the one for the argument values at the call, once the arguments have been copied. Other Python threads make progress during a solve.",
 ["schedules"], "every schedule of Python threads calling the solver and mutating arrays they passed",
 "The tests are single-threaded.",
 ["python/pyqpSWIFT.c"], [("copying of inputs and release of the interpreter lock", "python/pyqpSWIFT.c method_qpSWIFT")],
 observe=["results per thread", "progress of a concurrent thread during a solve"])

prop("C29", "Sparse kernels agree with dense linear algebra for every shape",
 "The matrix conversion, transpose, multiplication, KKT assembly and vector routines exported by the library compute exactly what their dense counterparts do for every shape and sparsity pattern, including empty rows, columns and matrices: converted matrices hold exactly the nonzeros with ascending rows, transposes are exact, and the assembled KKT matrix equals [P A' G'; A 0 0; G 0 -I] with one explicit diagonal per inequality.",
 ["inputs"], "every shape, sparsity pattern and value, including NaN, signed zero and denormals",
 "The unit tests run each kernel on a single fixed vector or matrix.",
 ["src/Auxilary.c"], [("conversions", "src/Auxilary.c densetosparse, densetosparse_ROWMAJOR"), ("transpose and products", "src/Auxilary.c SparseMatrixTranspose, SparseMatrixMultiply, SparseMatrixTransMultiply"), ("assembly", "src/Auxilary.c formkktmatrix_full")],
 observe=["outputs of the exported kernels", "QP.kkt.kktmatrix, QP.Gt, QP.At after setup"])

prop("C30", "MATLAB gateway validates its inputs and returns the C solver's results",
 "The MATLAB entry point accepts the four documented call forms, rejects malformed arguments and options with an error before solving, and otherwise returns exactly the values the C library computes for the same data and options, in the documented fields. It releases everything it allocates and never modifies its inputs, and a caller-supplied 1-based permutation is checked and used for the factorisation.",
 ["inputs", "configurations"], "every argument count, sparse/dense operand, option structure and number of outputs",
 "The MATLAB tests need MATLAB and are not run at all here; they also check messages only.",
 ["matlab/qpSWIFT_mex.c", "src/qpSWIFT.c"], [("argument parsing and validation", "matlab/qpSWIFT_mex.c mexFunction")],
 observe=["mexFunction outputs under a mock MATLAB runtime"])

prop("C31", "Simulink blocks compute the C solver's results at every step",
 "Each Simulink block outputs, at every simulation step, the exit flag, iteration count, times and leading three components of the solution that the C library computes from the signals at its input ports in column-major order, with and without equality ports. It asks the engine for the signal storage it relies on, never writes to its inputs and keeps no memory or state between steps.",
 ["inputs", "histories"], "every sequence of consistently sized input signals with at least three variables",
 "The Simulink blocks have no test in this repository and need MATLAB to run.",
 ["simulink/qpSWIFT_sfunc.c", "simulink/qpSWIFT_sfunc_e.c"], [("block outputs", "simulink/qpSWIFT_sfunc.c mdlOutputs, simulink/qpSWIFT_sfunc_e.c mdlOutputs")],
 observe=["mdlOutputs results under a mock Simulink runtime"])

prop("C32", "Degenerate but solvable problems are solved",
 "Problems with an optimum that contain redundant rows, all-zero inequality rows with non-negative right-hand side, duplicated or consistent linearly dependent equalities, all-zero columns in G, P or A, explicit zero entries, implied equalities written as a strictly relaxed pair of inequalities, a single variable, or a single constraint are solved to OPTIMAL with the answer of the equivalent clean problem. With dependent equalities, whose KKT matrix is singular, rare losses to rounding are tolerated.",
 ["inputs"], "every degenerate variant derived from a clean solvable problem",
 "The tests contain only generic full problems.",
 SOL + ["src/amd_2.c"], [("KKT assembly with explicit diagonal", "src/Auxilary.c formkktmatrix_full, updatekktmatrix"), ("dynamic regularisation", "src/ldl.c LDL_numeric")],
 observe=["return value of QP_SOLVE", "QP.x"])

prop("C33", "Solving an instance again is truthful: each call reports on its own outcome",
 "Calling QP_SOLVE several times on one instance, with tolerances and iteration limit changed in between, is safe and truthful: the flag of each call describes the point that call leaves and the options then in force (OPTIMAL only with a valid certificate and matching statistics, MAXIT exactly when that call used up its own iterations without one). A point that already meets the tolerances is returned unchanged as OPTIMAL, a repeated solve normally reaches what a fresh instance reaches, and the reported solve, KKT and factorisation times are those of that call. A run cut into several calls by the iteration limit goes through the same iterates, and ends with the same outcome, as one uncut run. No call allocates memory.",
 ["histories", "configurations"], "every sequence of solves and option changes on one instance",
 "The tests never solve an instance twice; what goes wrong depends on how an earlier call ended.",
 ["src/qpSWIFT.c", "src/Auxilary.c"], [("flag and iteration limit", "src/qpSWIFT.c QP_SOLVE"), ("accumulated times", "src/Auxilary.c kktsolve_1, kktsolve_2")],
 [("QP.stats.Flag", "outcome of the last call", "include/Auxilary.h")], ["return value of each QP_SOLVE", "QP.x,y,z,s and stats after each call"])

prop("C34", "Sparsity is exploited: memory and work follow the nonzeros, at any size",
 "For large sparse problems, with tens or hundreds of thousands of unknowns, the memory an instance holds, the work of setup and the work of every iteration are at most moderate constant multiples of the nonzeros of the data (plus the entries read, for dense input), the nonzeros of the LDL' factor and its factorisation operations. By default the factor of a matrix with an obvious low-fill order (diagonal, banded, one dense row, grid) has few times its entries. Nothing grows with the square or product of dimensions, and neither the number of allocated blocks nor the depth of the stack depends on the problem size.",
 ["inputs"], "every sparse problem of any size whose ordering has a sparse factor",
 "The tests solve problems of a few variables; quadratic memory or work only shows, and only hurts, at a size no test reaches.",
 SOL + ["src/amd_1.c", "src/amd_2.c", "src/amd_aat.c"], [("sparse up-looking factorisation through the elimination tree", "src/ldl.c LDL_symbolic, LDL_numeric"), ("linear-time transposition and KKT assembly", "src/Auxilary.c SparseMatrixTranspose, formkktmatrix_full, updatekktmatrix"), ("ordering in near-linear space and time", "src/amd_2.c")],
 observe=["bytes requested from the allocator", "basic blocks executed in setup, solve and cleanup"])

prop("C35", "Ordering reports are truthful and use the configured printer and allocator",
 "The ordering's report routines print exactly the settings and statistics they are given, with the derived totals (entries of L including the diagonal, floating-point operation counts) computed from them, nothing for statistics that are unknown, and the status in words. All of the ordering's output goes through the configurable print function and none appears when there is none, the ordering itself prints nothing. All its memory comes from and returns to the configurable allocator, in the amount the statistics report.",
 ["inputs", "configurations"], "every pattern, control setting, outcome, printer and allocator",
 "No test calls the report routines or replaces the allocator.",
 ["src/amd_info.c", "src/amd_control.c", "src/amd_global.c", "src/amd_order.c"], [("report of settings and statistics", "src/amd_control.c amd_l_control, src/amd_info.c amd_l_info"), ("pluggable memory manager and printer", "src/amd_global.c")],
 observe=["text passed to the configured printer", "calls of the configured allocator and of the C library's"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
assert all(len(p["title"]) <= 80 for p in P), [p["id"] for p in P if len(p["title"]) > 80]
print(len(P), "properties")
