#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered stages (run: python3 tools/mkmanifest.py)."""
import json, os, subprocess, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(here, "bin"))
from stages import PROPS
TECH = {
 "C01": "runtime monitor: independent long-double KKT evaluation of every OPTIMAL exit against the caller's own data",
 "C02": "runtime monitor: exact active-set enumeration / planted-solution / duality-gap oracle on every OPTIMAL exit",
 "C03": "runtime monitor: exit flag and iteration predicted from recorded truncated runs",
 "C04": "runtime monitor with exact infeasibility certificates, plain and ASan/UBSan builds",
 "C05": "runtime monitor: strictly feasible workloads against an independent long-double interior-point reference",
 "C06": "runtime monitor over recorded iterate traces: interior and step-length trace specification",
 "C07": "runtime monitor: each recorded transition checked against independently recomputed predictor-corrector steps",
 "C08": "runtime monitor: recorded start state against an independent solve of the start system",
 "C09": "runtime monitor: published statistics recomputed from the iterate they claim to describe",
 "C10": "metamorphic runtime monitor: same problem through every input format, bit-level trace comparison",
 "C11": "metamorphic runtime monitor: orderings and relabellings, with structural checks of the factorisation used",
 "C12": "metamorphic runtime monitor: encodings of absent equalities, implied equalities, multipliers",
 "C13": "runtime monitor: inputs in read-only guard-page mappings with byte comparison; released after the documented point; ASan",
 "C14": "ASan+UBSan+LSan (clang and gcc) under hostile and random lifecycles and kernel calls",
 "C15": "MemorySanitizer plus differential runs on poisoned heaps",
 "C16": "allocator event log (link-time interposition) with offline conservation checker; LeakSanitizer",
 "C17": "runtime monitor: interleaved instance histories compared bit for bit with isolated runs",
 "C18": "ThreadSanitizer plus per-thread results compared bit for bit with sequential runs, injected delays",
}
try:
    from techniques import TECH as T2
    TECH.update(T2)
except ImportError:
    pass
NOTE = {}
checks = []
for pid in sorted(PROPS):
    p = PROPS[pid]
    checks.append(dict(property=pid, quick_cmd="bin/check %s quick" % pid, thorough_cmd="bin/check %s thorough" % pid,
        evidence_file="evidence/%s.json" % pid, technique=TECH[pid], level=p["level"],
        level_note=p.get("note", "Executions of the real code on generated workloads are judged by an oracle; what was observed (counts, distinct problems, inconclusive cases) is in the evidence file. Nothing beyond the executed cases is claimed.")))
have = set(PROPS)
na = [dict(property=json.loads(l)["id"], reason="no check yet") for l in open(os.path.join(here, "properties.jsonl")) if json.loads(l)["id"] not in have]
m = dict(version=1, setup_cmd="bin/setup",
    hooks=dict(guard="QPSWIFT_MONITOR (reserved, unused: no hook in /repo is needed, state is observed through the public structures and link-time interposition)", enable="nothing to enable", source_commits=[]),
    checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
