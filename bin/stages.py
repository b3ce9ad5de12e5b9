"""What each check runs: instrumentation flavours and, per property, the monitored stages."""
_SRC = ["-std=gnu11", "-fno-omit-frame-pointer", "-g", "-w"]
_CXX = ["-std=c++17", "-fno-omit-frame-pointer", "-g", "-w"]
FLAVOURS = {
    "plain": dict(cc="gcc", cxx="g++", cflags=["-O2", "-DNDEBUG"] + _SRC, cxxflags=["-O2"] + _CXX, ldflags=[]),
    "clang": dict(cc="clang", cxx="clang++", cflags=["-O2", "-DNDEBUG"] + _SRC, cxxflags=["-O2"] + _CXX, ldflags=[]),
    "asan": dict(cc="clang", cxx="clang++", cflags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + _SRC,
                 cxxflags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + _CXX, ldflags=[]),
    "gccasan": dict(cc="gcc", cxx="g++", cflags=["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + _SRC,
                    cxxflags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + _CXX, ldflags=[]),
    "msan": dict(cc="clang", cxx="clang++", cflags=["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins=2"] + _SRC,
                 cxxflags=["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins=2"] + _CXX, ldflags=[]),
    "tsan": dict(cc="clang", cxx="clang++", cflags=["-O1", "-fsanitize=thread"] + _SRC, cxxflags=["-O1", "-fsanitize=thread"] + _CXX, ldflags=[]),
    "wrapmem": dict(cc="gcc", cxx="g++", cflags=["-O2", "-DNDEBUG", "-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-free"] + _SRC, cxxflags=["-O2"] + _CXX,
                    ldflags=["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "memalign", "strdup"))]),
    "count": dict(cc="gcc", cxx="g++", cflags=["-O1", "-DNDEBUG", "-fsanitize-coverage=trace-pc", "-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-free"] + _SRC, cxxflags=["-O2"] + _CXX,
                  ldflags=["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free"))]),
    "wraptime": dict(cc="gcc", cxx="g++", cflags=["-O2", "-DNDEBUG"] + _SRC, cxxflags=["-O2"] + _CXX,
                     ldflags=["-Wl,--wrap=clock_gettime,--wrap=gettimeofday,--wrap=time,--wrap=clock", "-Wl," + ",".join("--wrap=" + f for f in "LDL_numeric LDL_lsolve LDL_ltsolve LDL_dsolve LDL_perm LDL_permt computeresiduals SparseMatrixTranspose densetosparse densetosparse_ROWMAJOR amd_l_order findsteplength".split())]),
}


def S(name, driver, flavour, quick, thorough, **k):
    return dict(name=name, driver=driver, flavour=flavour, quick=quick, thorough=thorough, **k)


def L(mode, quick=320, thorough=12000, flavour="plain"):
    """a stage of large sparse problems (up to 10^5 unknowns) with the oracle of one property"""
    return S("large" if flavour == "plain" else "large-" + flavour, "scale", flavour, quick, thorough, args=["--mode", mode], chunks=2, gates=[("size_2", 2 if flavour != "plain" else 10)])


DR = "distinct problem hashes (data, shape and encoding) for which the monitor actually evaluated its oracle"
PROPS = {
    "C01": dict(level="exploration", rule=DR + " after an OPTIMAL exit", stages=[
        S("certificate", "c01", "plain", 40000, 1500000, gates=[("binding_rx", 100), ("binding_ry", 3), ("binding_rz", 10), ("binding_mu", 100), ("optimal_with_equalities", 1000), ("bracketed_runs", 5000), ("optimal_many_inequalities", 100), ("optimal_many_equalities", 20)]), L("cert")]),
    "C02": dict(level="exploration", rule=DR, stages=[S("minimiser", "c02", "plain", 30000, 900000, gates=[("enumerated", 1000), ("planted", 1000), ("multipliers_compared", 1000)]), L("known")]),
    "C03": dict(level="exploration", rule=DR, stages=[S("termination", "c03", "plain", 16000, 500000, gates=[("predictions", 10000), ("bracketing_mode_3", 500), ("late_stops", 500), ("huge_limits", 1000), ("limits_in_the_thousands", 20)]), L("stop")]),
    "C04": dict(level="exploration", rule=DR, stages=[
        S("falseopt", "c04", "plain", 30000, 1000000, gates=[("primal-infeasible", 500), ("unbounded", 500), ("nan-data", 500), ("inconsistent-equalities", 500)]),
        S("falseopt-asan", "c04", "asan", 1600, 40000)]),
    "C05": dict(level="exploration", rule=DR, stages=[S("solved", "c05", "plain", 20000, 400000, gates=[("compared_with_reference", 1000), ("large", 50)]), L("solved")]),
    "C06": dict(level="exploration", rule=DR, stages=[S("interior", "c06", "plain", 20000, 600000, gates=[("iterates", 10000), ("primal_boundary_limited", 1000)]), L("interior")]),
    "C07": dict(level="exploration", rule=DR, stages=[S("step", "c07", "plain", 40000, 800000, gates=[("late_tight_predictor", 200), ("huge_tight", 50), ("tight_after_40_iterations", 200), ("steps_compared", 10000), ("centering_steps", 1000), ("compared_tightly", 5000)])]),
    "C08": dict(level="exploration", rule=DR, stages=[S("start", "c08", "plain", 40000, 1500000, gates=[("start_compared", 5000), ("z_unshifted", 500), ("s_unshifted", 500)]), L("start")]),
    "C09": dict(level="exploration", rule=DR, stages=[S("stats", "c09", "plain", 30000, 900000, gates=[("after_optimal", 2000), ("after_maxit", 1000), ("never_evaluated", 100)]), L("stats")]),
    "C10": dict(level="exploration", rule=DR, stages=[S("formats", "c10", "plain", 20000, 500000, gates=[("solutions_compared", 5000)]), L("formats")]),
    "C11": dict(level="exploration", rule=DR, stages=[S("ordering", "c11", "plain", 12000, 300000, gates=[("orderings_answer_compared", 3000), ("factor_structures_checked", 3000)]), L("perm")]),
    "C12": dict(level="exploration", rule=DR, stages=[S("equalities", "c12", "plain", 50000, 800000, gates=[("absent_encodings", 5000), ("implied_equalities", 1000), ("rows_checked", 5000)])]),
    "C13": dict(level="exploration", rule=DR, stages=[
        S("readonly", "c13", "plain", 12000, 300000, gates=[("arrays_compared", 10000), ("with_permutation", 1000), ("dense_matrices_released_after_setup", 1000), ("cleanup_without_solve", 500)]),
        S("bounds-asan", "c14", "asan", 1200, 40000), L("readonly")]),
    "C14": dict(level="exploration", rule=DR, stages=[
        S("lifecycle-asan", "c14", "asan", 10000, 300000, gates=[("flag_0", 1000), ("flag_2", 500)]),
        S("kernels-asan", "c14k", "asan", 10000, 300000, gates=[("factorised", 1000), ("amd_jumbled", 500)]),
        S("lifecycle-gcc", "c14", "gccasan", 2400, 60000), S("kernels-gcc", "c14k", "gccasan", 2400, 60000), L("mem", 64, 2500, "asan")]),
    "C15": dict(level="exploration", rule=DR, stages=[
        S("heaps", "c15", "plain", 12000, 300000, gates=[("heap_variants_compared", 10000), ("verbose_traces", 2000), ("verbose_bytes", 100000)]),
        S("msan", "c15", "msan", 5000, 150000, gates=[("published_values_checked", 5000), ("verbose_traces", 500)]), L("mem", 32, 1200, "msan")]),
    "C16": dict(level="exploration", rule=DR, stages=[
        S("alloclog", "c16", "wrapmem", 20000, 500000, gates=[("allocations", 200000), ("frees", 200000), ("cleanup_without_solve", 1000), ("dense_variant", 1000), ("solved_flag_2", 300)]),
        S("leaks-asan", "c14", "asan", 1200, 30000), L("mem", 48, 1200, "asan")]),
    "C17": dict(level="exploration", rule=DR, stages=[S("interleave", "c17", "plain", 6000, 150000, gates=[("lifecycles_compared", 5000)]), L("same")]),
    "C18": dict(level="exploration", rule=DR, stages=[
        S("tsan", "c18", "tsan", 1500, 40000, par=4, gates=[("lifecycles_compared", 2000), ("kernels_compared", 1000)]),
        S("native", "c18", "plain", 8000, 200000, par=4, gates=[("lifecycles_compared", 5000)])]),
    "C19": dict(level="exploration", rule="distinct patterns (with control settings) ordered and judged", stages=[
        S("ordering", "c19", "plain", 16000, 500000, gates=[("fill_compared", 5000), ("dense_rows_present", 300), ("jumbled", 1000), ("exact_statistics", 30000), ("large", 20)]),
        S("ordering-asan", "c19", "asan", 1600, 40000), L("order")]),
    "C20": dict(level="fault_enumeration", rule="distinct patterns and problems for which every allocation point of the ordering was made to fail", stages=[
        S("faults", "c20", "plain", 12000, 300000, gates=[("faults_injected", 50000), ("malformed_inputs", 30000), ("setup_faults", 5000), ("fallback_answers_compared", 1000)]),
        S("faults-asan", "c20", "asan", 3000, 60000)]),
    "C21": dict(level="exploration", rule="distinct matrices (values, pattern, ordering) factorised and judged", stages=[
        S("factor", "c21", "plain", 40000, 1000000, gates=[("factors_checked", 20000), ("pivots_checked", 100000), ("pivots_regularised", 5000), ("solves_checked", 10000), ("bad_permutations", 10000), ("bad_matrices", 10000)]),
        S("factor-asan", "c21", "asan", 4000, 80000), L("factor")]),
    "C22": dict(level="exploration", rule=DR, stages=[S("options", "c22", "plain", 12000, 300000, gates=[("default_settings_read", 20000), ("option_effects_predicted", 20000), ("iterates_compared", 20000), ("limits", 3000)])]),
    "C23": dict(level="exploration", rule=DR, stages=[S("verbose", "c23", "plain", 16000, 400000, gates=[("silent_runs", 5000), ("traces", 5000), ("printed_values_compared", 50000), ("printed_steps_compared", 10000), ("closing_optimal", 1000), ("closing_limit", 1000)])]),
    "C24": dict(level="exploration", rule="distinct combinations of problem and clock behaviour", stages=[S("clock", "c24", "wraptime", 40000, 800000, gates=[("intervals_measured", 50000), ("borrow_needed", 5000), ("longer_than_an_hour", 500), ("lifecycles", 10000), ("work_clock_lifecycles", 3000), ("second_solves_timed", 1000)])]),
    "C29": dict(level="exploration", rule="distinct operands (shape, pattern, values) whose kernel results were judged", stages=[
        S("kernels", "c29", "plain", 1000000, 4000000, gates=[("conversions", 10000), ("products", 20000), ("transposes", 5000), ("assemblies", 5000), ("setups", 5000), ("ratio_tests", 5000)]),
        S("kernels-asan", "c29", "asan", 60000, 1000000), L("kernels"), S("huge", "c29h", "plain", 4, 24, par=4)]),
    "C32": dict(level="exploration", rule=DR + " (degenerate variants solved and compared)", stages=[
        S("degenerate", "c32", "plain", 400000, 800000, gates=[("objectives_compared", 10000), ("zero_columns", 300), ("single_variable", 1000), ("single_constraint", 1000)])]),
    "C26": dict(level="exploration", rule="distinct argument values, dtypes and options whose result was compared", stages=[
        S("results", "c26", "plain", 16000, 400000, python=True, gates=[("arrays_compared", 10000), ("verbose_calls", 500), ("settings_read_back", 2000), ("adv_info", 2000)]),
        S("results-asan", "c26", "asan", 2400, 60000, python=True, env={"QPM_EXACT": "0"})]),
    "C25": dict(level="exploration", rule="distinct descriptions of argument lists (types, dtypes, shapes, options, call form) submitted", stages=[
        S("hostile", "c25", "plain", 60000, 2000000, python=True, gates=[("rejections", 10000), ("results", 2000), ("output_fallbacks", 100), ("warning_became_error", 30), ("uncopyable", 10), ("hostile_zero_dim", 300), ("hostile_empty", 300)]),
        S("hostile-asan", "c25", "asan", 8000, 300000, python=True)]),
    "C27": dict(level="exploration", rule="distinct combinations of call path, call form, shapes and options repeated and measured", stages=[
        S("references", "c27", "plain", 8000, 300000, python=True, gates=[("refcounts_compared", 50000), ("growth_measured", 1000), ("results_outliving", 1000), ("outcome_TypeError", 1000), ("outcome_UserWarning", 20), ("outcome_dict", 1000)]),
        S("references-asan", "c27", "asan", 1600, 60000, python=True, env={"QPM_EXACT": "0"})]),
    "C28": dict(level="exploration", rule="distinct problems solved while other threads solved or overwrote the inputs", stages=[
        S("threads", "c28", "plain", 1600, 100000, python=True, gates=[("results_compared", 5000), ("concurrent_solves", 3000), ("solves_with_progress", 10)]),
        S("threads-asan", "c28", "asan", 160, 16000, python=True)]),
    "C30": dict(level="exploration", rule="distinct calls (problem, call form, options, malformations) of the gateway judged", stages=[
        S("gateway", "c30", "plain", 60000, 2000000, special="mex", gates=[("results", 10000), ("errors", 5000), ("permutations_used", 1000), ("adv_info", 3000), ("verbose_calls", 500), ("arrays_compared", 20000)]),
        S("gateway-asan", "c30", "asan", 8000, 200000, special="mex")]),
    "C31": dict(level="exploration", rule="distinct (problem, step) pairs of simulated block steps judged", stages=[
        S("blocks", "c31", "plain", 40000, 1500000, special="simulink", gates=[("steps", 20000), ("equality_steps", 5000), ("interleaved_steps", 3000), ("flag_0", 5000)]),
        S("blocks-asan", "c31", "asan", 6000, 150000, special="simulink")]),
    "C34": dict(level="exploration", rule="distinct large problems whose setup and solve were metered", stages=[
        S("metered", "c34", "count", 640, 12000, gates=[("dense", 30), ("sparse", 200), ("nearly_linear_large_problems", 50), ("setup_blocks", 1e6), ("solve_blocks", 1e6)])]),
    "C35": dict(level="exploration", rule="distinct patterns and settings ordered under the configured allocator and reported through the configured printer", stages=[
        S("reports", "c35", "wrapmem", 60000, 2000000, gates=[("info_reports", 20000), ("numbers_compared", 200000), ("control_reports", 20000), ("status_0", 5000), ("status_-1", 500), ("status_-2", 500), ("status_1", 500), ("custom_allocations", 50000)])]),
    "C33": dict(level="exploration", rule=DR + " (histories of solves on one instance)", stages=[
        S("again", "c33", "plain", 60000, 2000000, gates=[("optimal_again", 20000), ("optimum_then_limit", 2000), ("limit_then_optimum", 2000), ("already_optimal", 5000), ("optimum_refined", 5000)]),
        S("again-asan", "c33", "asan", 6000, 100000)]),
}
