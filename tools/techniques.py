TECH = {
 "C19": "runtime monitor: ordering results judged against exact symbolic factorisation and an independent minimum-degree ordering; ASan/UBSan",
 "C20": "fault injection at every allocation point with status, leak and bounds oracles; malformed inputs in exactly sized blocks under ASan",
 "C21": "runtime monitor: factors and solves checked against long-double reconstruction and an independent symbolic analysis; ASan/UBSan",
 "C22": "runtime monitor: effect of each option predicted from a recorded reference trajectory",
 "C23": "runtime monitor: captured standard output parsed and compared with recomputed per-iterate values",
 "C24": "runtime monitor under a simulated clock (link-time interposition): every reported time recomputed from the log of clock readings",
 "C25": "runtime monitor: hostile argument lists in supervised processes, outcome classified; ASan/UBSan build of the extension",
 "C26": "runtime monitor: results compared with the C library on the values numpy holds; ASan/UBSan build of the extension",
 "C27": "runtime monitor: reference counts, object counts and native block counts before and after repeated calls; ASan",
 "C28": "stress monitor: concurrent Python threads solving and overwriting inputs, results compared with sequential ones, progress gaps measured",
 "C29": "runtime monitor: exported kernels compared with dense linear algebra on exact and rounded operands; ASan/UBSan",
 "C30": "runtime monitor: the gateway under a stand-in MATLAB runtime that logs allocations and API misuse, results compared with the C library; ASan/UBSan",
 "C31": "runtime monitor: the blocks under a stand-in simulation engine, every step compared with the C library; ASan/UBSan",
 "C32": "metamorphic runtime monitor: degenerate variants compared with the clean problem's independently known optimum",
 "C33": "runtime monitor: histories of repeated solves with changed options, each call judged by recomputed residuals and times; allocation log; ASan/UBSan",
 "C34": "resource monitor: allocator log and compiler-inserted basic-block counters over large sparse problems, against bounds from an independent symbolic elimination",
 "C35": "runtime monitor: instrumented allocator and printer plugged into the ordering, linker-interposed C allocator; printed numbers recomputed from the statistics",
}
