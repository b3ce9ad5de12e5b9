#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tmpl.md, the notes below, the last evidence files and the planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
# id: (what is observed and against which oracle, workload and bounds, why beyond the tests)
N = {
"C01": ("x, y, z, s after every OPTIMAL exit. Oracle: the three residual norms and the gap recomputed in long double from the caller's own data, compared with the requested tolerances outside a computed rounding band; all variables finite, s and z positive.",
 "All families incl. wild, infeasible and unbounded ones; reltol, abstol from 1e-10 to 10 independently, so each of the four conditions is the binding one thousands of times (counters binding_*); n up to a few hundred.",
 "Tests look at the solution of a few well-behaved problems; a certificate computed for the wrong matrix, norm or constraint block passes them whenever the other conditions bind."),
"C02": ("Objective and x against minimisers known without any solver: planted KKT points, exhaustive active-set enumeration (n<=5, m<=7), a long-double reference solve. The allowed distance follows from monotonicity of the KKT operator and the requested tolerances only. Multipliers are compared where LICQ makes them unique.",
 "Strictly convex and degenerate problems, all formats, tolerances 1e-9 to 1e-4.",
 "A wrong sign of a multiplier or a slightly wrong stationarity condition still converges to something plausible."),
"C03": ("The whole iterate sequence is recorded by truncated runs (maxit=k, unattainable tolerances); for twelve tolerance settings per problem, placed just above or below a chosen residual of a chosen iterate, the monitor predicts flag and iteration count and compares with a real run. Limits up to 1,025 are exhausted with tolerances nothing can meet, including starting points whose residuals are exactly zero.",
 "Bracketing of rx, rz, gap and ry separately, maxit on, before and after the stopping iterate; also wild, infeasible and NaN problems.",
 "A < turned <=, a stale residual, or a limit off by one needs a tolerance placed between two consecutive iterates."),
"C04": ("The exit flag on problems with an exact dyadic certificate of having no optimum, the margin of which exceeds what the tolerance could forgive.",
 "Farkas certificates over inequalities and equalities, inconsistent equalities, sheared recession directions, NaN and infinite data at any position; plain and under ASan+UBSan.",
 "The tests contain solvable problems only."),
"C05": ("Flag and iteration count with default and moderately tighter options, against an independent textbook implementation in long double: never more than 2x+5 iterations, in total at most 1.25x.",
 "13 strictly feasible families, up to several hundred variables. A loss must persist under rescaled copies of the data; isolated ones are bounded in aggregate (0.5 %).",
 "A damaged centering or correction term still converges on small examples, only more slowly."),
"C06": ("Every iterate (by truncated runs): positivity, finiteness, step sizes in (0,1], ratio of each new to each old slack and multiplier at least 0.01.",
 "All feasible families and formats; the truncated run must hold the full run's iterate bit for bit.",
 "Boundary violations in the middle of a run are repaired by later iterations and leave no trace at the end."),
"C07": ("Each consecutive pair of iterates and both step sizes against a dense reference that performs the documented step from the same iterate, in exact-order long double, regularised long double and double; the spread of the three gives the tolerance, and steps they disagree on are not judged. Runs with a target near 1 still move in well-conditioned steps after dozens of iterations; there a few consecutive iterates between the 15th and the 215th are compared.",
 "Centering steps, sigma floor (sigma_d drawn from (0,.5), (.5,1), (1,2.5) and below zero), rho above one, boundary-limited and unblocked steps are each counted; n+m+p up to 120.",
 "A wrong step direction usually still converges."),
"C08": ("s and z against h-Gx of the reported x with the documented shift; x and y against a dense least-squares solve with its own error estimate.",
 "Wild, infeasible, rescaled problems; right-hand sides moved so that every sign pattern occurs.",
 "The start is invisible in the final answer."),
"C09": ("fval, n_rx, n_ry, n_rz, n_mu against recomputation at the point they belong to, to a computed rounding bound; values after maxit=0; identical under two heap fills.",
 "OPTIMAL, MAXIT at every limit, never-evaluated runs.",
 "Tests do not read the statistics."),
"C10": ("Seven encodings of one problem. Sorted sparse, row- and column-major must agree bit for bit; the rest must be certified solutions at a bounded distance.",
 "All families, with and without caller ordering, truncated and full runs.",
 "Each test uses one encoding."),
"C11": ("kkt->P after setup equals the supplied ordering; column counts of L equal those of an independent elimination in that order; answers compared where the theory (quasi-definiteness) says they must agree; relabelled problems give relabelled answers.",
 "Random, identity, reversed, block-shuffled orderings; N up to 150.",
 "Tests never supply an ordering."),
"C12": ("Bit identity over the seven encodings of absent equalities and over withheld arrays; row-by-row residuals when present; implied equalities; rows without entries (satisfied: same answer; unsatisfiable: never OPTIMAL).",
 "All formats and families.",
 "Tests use one encoding of absence and do not compare."),
"C13": ("Every caller array lives in its own read-only mapping with an inaccessible page next to its first or last byte; absent blocks are wholly inaccessible; dense matrices are unmapped after setup. Contents compared afterwards, results compared with ordinary arrays. Second stage: heap arrays under ASan.",
 "All formats, with and without permutation, cleanup without solve.",
 "A write that restores the old value, or a read one past the end, changes no result."),
"C14": ("ASan+UBSan reports (clang -O1 and gcc -O0), exactly sized heap buffers around every argument.",
 "Lifecycles on degraded problems (empty rows, columns and matrices, overflowing data, odd options) and the public AMD/LDL routines on symmetric, unsymmetric, jumbled, dense-row and malformed input.",
 "The tests run uninstrumented."),
"C15": ("Variables, statistics, flags and the verbose text under three heap fills (M_PERTURB and pre-poisoned free lists) must be identical; MSan with explicit shadow checks of all published values.",
 "All families, options, maxit=0, sigma=0.",
 "A fresh process's heap is mostly zero."),
"C16": ("An allocation log (linker-interposed malloc family): every block released exactly once, none foreign, none alive after cleanup, no event during a solve. Second stage: LeakSanitizer.",
 "Every variant, exit flag, encoding, cleanup without solve.",
 "Leaks change no result."),
"C17": ("Each instance's life (setup, options, solve, look, cleanup) is run alone in a forked pristine process; then 2 to 5 lives are interleaved at random with extra lives in between, and every observation must be byte-identical.",
 "Half of the groups contain twins: same data, other c, other values on the same pattern, same sizes with another pattern, other options or ordering.",
 "Tests run one instance at a time."),
"C18": ("TSan's happens-before verdict, and bit-identical results of threads on shared read-only data against sequential ones; solver lives and AMD/LDL kernels.",
 "2 to 8 threads, random delays, shared and private data.",
 "Tests are single-threaded."),
"C19": ("Permutation validity, status, input immutability, each Info entry against an exact value (N, NZ, NZDIAG, symmetry, NDENSE, NZ of A+A') or a true bound from an independent elimination; fill against exact minimum degree (at most 1.6x per case, 1.05x in aggregate); dense rows last; operation counts in Info exact where no approximation enters.",
 "14 pattern classes, jumbled and duplicated columns, all controls, n to 150, some to 2000; plain and ASan.",
 "The ordering is never called by the tests, and any permutation gives right answers."),
"C20": ("Through the library's own allocator hooks every allocation point of the ordering fails alone, together with all later ones, and (up to 8 points) in every subset; malformed inputs of every kind; the same faults inside setup, whose fallback must be visible, a permutation, and lead to the right answer. Sizes whose arrays cannot be addressed (Ap[n] up to 2^61 and beyond) must be refused as out of memory, not wrap.",
 "Level: fault enumeration per pattern. Plain and ASan+LSan.",
 "Tests inject nothing."),
"C21": ("Symbolic counts and elimination tree against set-based elimination; entrywise backward error of LDL' in long double with a computed bound; residuals of each solve; regularisation at |d|<=1e-14; validators on valid and minimally damaged input; the row/column variants as well.",
 "Definite, indefinite, quasi-definite, singular, tiny-pivot and integer matrices, scales 1e-9 to 1e9, duplicates, unsorted, upper-only.",
 "The KKT matrices of the tests never meet a tiny pivot."),
"C22": ("Defaults before, between and after other instances' changes; the stopping point of every changed option predicted from a recorded trajectory; monotonicity in the tolerances; the iterates themselves unchanged; a limit of k ends at k under tolerances of zero, k = 0 included; sigma above sigma_d gives a first iterate independent of its value, sigma at or below it a first step that satisfies the linearised complementarity equation of the centering step (checked from iterates 0 and 1 and the reported step sizes).",
 "Each option alone and in combination, with and without equalities.",
 "Tests change options but do not predict their effect."),
"C23": ("What reaches descriptor 1 is captured and parsed: nothing at verbose 0; number of iterate and step lines, each printed number against the true value to its printed precision; closing line against the flag; results with and without verbosity identical. A fifth of the measured calls continue an instance solved before; their lines carry on its iteration count.",
 "OPTIMAL, MAXIT, NaN data, maxit 0.",
 "Tests do not read the output."),
"C24": ("The clock is interposed: intervals from zero to weeks, across second boundaries, equal readings. tic/toc and all reported times recomputed from the log of readings.",
 "Seven clock behaviours; other clocks jump at random, so reading them shows.",
 "Real runs take microseconds and hardly ever cross a second."),
"C25": ("An independent predicate decides for each argument list whether a result or TypeError (or a documented warning) must follow; SystemError, crash or hang is a violation; a plain call afterwards must still work.",
 "17 kinds of hostile arrays (shapes with the right number of elements, object, structured, uncopyable, 32-dimensional ...), hostile option values and keys, warnings as errors, positional, keyword, surplus and swapped arguments; plain and ASan+UBSan.",
 "Tests try a handful of wrong types."),
"C26": ("Result dictionary against the C library called directly on the same values: bit-exact in the plain build; keys per OUTPUT level, ownership, dtype, lengths; inputs unchanged; captured verbose text. Sizes up to 700 variables and 900 constraints, past every small-integer boundary.",
 "Nine dtypes x twelve layouts (F order, strided, reversed, misaligned, broadcast, ...), call forms, options.",
 "Tests pass C-ordered float64."),
"C27": ("sys.getrefcount of every object reachable from the arguments before and after; allocated blocks and RSS over repetition; results used after all else was released; LSan and ASan.",
 "Success and each error path, repeated.",
 "Leaks change no result."),
"C28": ("Results of concurrent solves against sequential ones; while a mutator thread overwrites the inputs after a solve began, the result must belong to the values at the call; a progress thread's longest pause.",
 "2 to 6 threads, hundreds of mutation attempts; judged by majority because the copy itself is not atomic.",
 "Tests are single-threaded."),
"C29": ("Each exported kernel against dense arithmetic: exact where exact (conversions, transposes, KKT assembly and its updates), rounding bound otherwise (products, norms), step-length ratio tests. A second stage runs the dense conversions and vector kernels on more than 2^31 elements (reserved zero pages, a few megabytes touched), where 32-bit offsets fail.",
 "All shapes to 0 rows or columns, stored zeros, signed zeros; plain and ASan.",
 "Kernels are only run through the solver, on full matrices."),
"C30": ("The real gateway source against a stand-in runtime that tracks ownership of every array: result values and field names against the C library, errors for every malformed argument or option, nothing left allocated, inputs unchanged, the permutation actually used (observed at QP_SOLVE by interposition).",
 "Four call forms, 0 to 3 outputs, hostile options; plain and ASan+UBSan.",
 "MATLAB is not available to the tests."),
"C31": ("The real S-functions driven by a small simulation engine: outputs at each step against the C library for the signal values, signal memory read-only and possibly scattered (an engine may deliver it so unless the block requires contiguity), allocation balance per step.",
 "Both blocks interleaved, several steps with changing data, infeasible steps.",
 "Simulink is not available to the tests."),
"C32": ("Degenerate variants derived from a solved clean problem must be solved, certified, and at a bounded distance from the clean answer.",
 "Nine kinds of degeneracy, alone and combined, in random positions; zero columns; single variable; single constraint.",
 "The tests contain generic problems only."),
"C33": ("After every one of 2 to 5 calls of QP_SOLVE on one instance: the certificate of an OPTIMAL recomputed for the options of that call, the statistics against the point, MAXIT only after the call's own limit, an already tolerable point unchanged, times ordered and of this call; no allocator event in any of them (C16's log).",
 "Solvable, wild and certified insolvable problems; tolerances loosened, tightened, placed around the present residuals or out of reach, limits from 0 to 120. Plain and ASan+UBSan.",
 "The tests solve each instance once; two of the defects found (a stale OPTIMAL, factorisation time above solve time) need a second call."),
"C34": ("Bytes requested from the allocator (interposed) and basic blocks executed by the library (compiler-inserted callbacks, -fsanitize-coverage=trace-pc) in setup, solve and cleanup, divided by the nonzeros of the data, the factor's nonzeros and its operation count from an independent symbolic elimination of the ordering used. Every run takes place on a pre-filled 2 MB stack above inaccessible pages, of which it may use 200 KB (6 KB today). The bounds lie 4 to 6 times above the largest ratio the present code shows; quadratic behaviour exceeds them by factors of 10 to 1000.",
 "Eleven sparse families (separable, chain, randomly labelled bands and dense blocks, dynamics, grid, arrow, portfolio with one dense row, tall, wide, pinned, random) from 10^3 to 1.3*10^5 unknowns, sparse and (up to 4*10^6 entries) dense input.",
 "No test has a problem on which linear and quadratic differ."),
"C35": ("Orderings run with an allocator of the monitor's own (guard bytes, ledger) while the C library's is interposed at link time: no call may bypass the configured one, no block may be left or freed elsewhere, the peak must be what the statistics report. Then the reports: every number printed against the settings, the statistics and the totals derived from them; the status in words; nothing without a printer, nothing on stdout with another one; settings and statistics unchanged.",
 "Patterns of C19, malformed input, allocation failure, invented statistics with unknown (negative) entries, absent settings and statistics.",
 "No test touches these routines; the solver itself never prints the statistics."),
}
FALSE = open(V + "/tools/design.false.md").read()
MISSED = open(V + "/tools/design.missed.md").read()
def table():
    o = ["| id | property | level | quick cases | quick s |", "|---|---|---|---|---|"]
    rr = json.load(open(V + "/tools/run_results.json"))   # {id: [cases, seconds]} of a run on the unchanged tree
    for p in P:
        e = json.load(open(f"{V}/evidence/{p['id']}.json")) if os.path.exists(f"{V}/evidence/{p['id']}.json") else {}
        o.append("| %s | %s | %s | %s | %s |" % (p["id"], p["title"], "fault_enumeration" if p["id"] == "C20" else "exploration", rr.get(p["id"], [""])[0], round(rr.get(p["id"], [0, 0])[1])))
    return "\n".join(o)
def notes():
    return "\n\n".join("**%s %s.** *Observed and judged:* %s *Workload and bounds:* %s *Beyond the tests:* %s" % (p["id"], p["title"], *N[p["id"]]) for p in P)
def seeds():
    res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
    o = ["| seed | property | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); o.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], res.get(i, "")))
    return "\n".join(o)
t = open(V + "/tools/design.tmpl.md").read()
for k, v in dict(TABLE=table, NOTES=notes, SEEDS=seeds).items(): t = t.replace("%%" + k + "%%", v())
t = t.replace("%%FALSE%%", FALSE.strip()).replace("%%MISSED%%", MISSED.strip())
open(V + "/DESIGN.md", "w").write(t)
