#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime monitoring of ASan/UBSan-built two-party sessions against an independent circuit simulator",
 "C02": "runtime monitoring: mask-split oracle on both parties' outputs and on recorded transcripts",
 "C03": "runtime monitoring of low-memory sessions against an independent circuit simulator",
 "C04": "runtime monitoring of executed-cycle counts and outputs of both parties, with a deadlock monitor",
 "C05": "runtime monitoring: all output modes of all three engines decoded and compared with one simulated history",
 "C06": "runtime monitoring: exhaustive gate x operand-kind x relation garble/eval oracle under sanitizers",
 "C07": "offline trace checker over recorded transcripts against a formal GF(2) cost model",
 "C08": "offline trace checker over recorded transcripts (pairwise label differences, permute-bit statistics)",
 "C09": "offline checker over recorded randomness of many sessions (freshness, predictability, clock and PRNG interposition)",
 "C10": "runtime monitoring of base oblivious transfers with a per-position oracle",
 "C11": "runtime monitoring of extended oblivious transfers with a per-position oracle",
 "C12": "offline checker over recorded OT transcripts: distinguishing statistics on the sender's view",
 "C13": "offline checker over recorded OT transcripts: unmasking attempts with everything the receiver holds",
 "C14": "fault injection (cuts, corrupted and scripted peers) under ASan/UBSan with crash, hang and wrong-success monitors",
 "C15": "schedule and segmentation injection in a relay, results compared with the simulator",
 "C16": "runtime monitoring of conversions and transfers against integer arithmetic, under sanitizers",
 "C17": "runtime monitoring: generated netlists translated and co-simulated against an independent netlist interpreter",
 "C18": "trace checker over emitted circuit files and maps of generated netlists, repeated runs compared",
 "C19": "grammar-based and mutational hostile netlists under ASan/UBSan with reject/accept oracle",
 "C20": "runtime monitoring: generated Bristol circuits translated and co-simulated",
 "C21": "runtime monitoring of the plaintext evaluator and its recorded wire history against an independent simulator",
 "C22": "round-trip monitor and hostile-file injection under ASan/UBSan",
 "C23": "runtime monitoring of the cipher under sanitizers against an independent AES",
 "C24": "runtime monitoring of formatting helpers against integer arithmetic over boundary and random values",
 "C25": "end-to-end runs of the shipped programs over loopback TCP with an output and exit-status oracle",
 "C26": "runtime monitoring of the bundled programs, native under sanitizers and on an instruction interpreter with memory-fault monitors, against reference implementations",
 "C27": "memcheck, AddressSanitizer and UndefinedBehaviorSanitizer over valid sessions and tools, with varied heap fill",
 "C28": "runtime monitoring of the Verilog sources executed by an event-driven simulator, compared with independent reference models and instruction-set interpreters",
 "C31": "runtime monitoring of the translator on every library cell and on generated netlists, emitted circuits compared with the libraries' own functions and executed simulation models",
 "C32": "runtime monitoring of the tools under AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer and with varied heap fill on generated and damaged ELF files, against an independent image model",
 "C29": "runtime monitoring of the transport over socketpairs and loopback TCP with stream oracles and signal/segment injection",
 "C30": "runtime monitoring with an allocation meter (allocator hooks): live bytes over repeated sessions, peaks over cycle counts",
}
CLAIMED = open(os.path.join(V, "tools", "claimed")).read().split()
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd="python3 checks/run_check.py %s --tier quick" % i,
                           thorough_cmd="python3 checks/run_check.py %s --tier thorough" % i,
                           technique=T[i], level="exploration",
                           level_note="oracle observes every execution it is given; reach comes from generated workloads (see DESIGN.md)"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
