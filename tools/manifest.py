#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAIN = "calls of the real library recorded and judged by TLC against the contract of SortyBase (TraceCalls)"
SCHED = ("behaviours of the real code, recorded under a controlled scheduler (every element access and synchronisation "
         "operation is a scheduling point), judged step by step by TLC against the goroutine machine (TraceGor)")
T = {
    "C01": ("TLA+ contract + algorithm models, TLC; trace validation of real calls and schedules", PLAIN + "; " + SCHED),
    "C02": ("TLA+ contract + NaN prepass model, TLC; trace validation of real calls and schedules", PLAIN + "; " + SCHED),
    "C03": ("TLA+ contract + algorithm models, TLC; trace validation of real calls and schedules", PLAIN + "; " + SCHED),
    "C04": ("TLA+ contract + algorithm models, TLC; trace validation of real calls and schedules", PLAIN + "; " + SCHED),
    "C05": ("TLA+ contract + lesswap partition model, TLC; trace validation of real calls and schedules", PLAIN + "; " + SCHED),
    "C06": ("TLA+ model of lesswap partitioning and vector-clock machine, TLC; trace validation under controlled schedules", SCHED),
    "C07": ("TLA+ fork/join protocol model, TLC; trace validation under controlled schedules", SCHED),
    "C08": ("TLA+ fork/join protocol model, TLC; trace validation under controlled schedules", SCHED),
    "C09": ("TLA+ fork/join protocol model with liveness, TLC; trace validation under controlled schedules", SCHED + "; " + PLAIN),
    "C10": ("TLA+ vector-clock machine and partition models, TLC; trace validation under controlled schedules", SCHED + "; " + PLAIN),
    "C11": ("TLA+ goroutine machine, TLC; trace validation of simultaneous calls", SCHED + "; " + PLAIN),
    "C12": ("TLA+ fork/join protocol model with changing quota, TLC; trace validation under controlled schedules", SCHED + "; " + PLAIN),
    "C13": ("TLA+ contract + scan model, TLC; trace validation of real calls and of simultaneous calls under controlled schedules", PLAIN + "; " + SCHED),
    "C14": ("TLA+ contract + search model, TLC; trace validation of real calls", PLAIN),
    "C15": ("TLA+ description of accepted types, TLC; trace validation of real calls", PLAIN),
    "C16": ("TLA+ recursion model, TLC; trace validation of nesting depth and allocation on adversarial inputs", SCHED + "; " + PLAIN),
    "C17": ("TLA+ garbage collector model, TLC; trace validation of real calls under continuous collection", PLAIN + "; " + SCHED),
    "C18": ("TLA+ fork/join protocol model, TLC; trace validation of who works on what, under controlled schedules", SCHED),
    "C19": ("TLA+ model of what the thresholds must satisfy, TLC; trace validation of processes started with generated values", PLAIN),
    "C20": ("TLA+ cost recurrence and partition model, TLC; trace validation of access counts", SCHED),
    "C21": ("TLA+ fork/join protocol model with changing quota, TLC; trace validation under controlled schedules", SCHED),
}
checks = []
for p, (t, n) in T.items():
    checks.append(dict(property=p, quick_cmd="python3 tools/check.py %s quick" % p, thorough_cmd="python3 tools/check.py %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=t, level="model_checking",
                       level_note="Models are checked exhaustively by TLC within small constants; the code is bound to the specification by " + n +
                       ". What inputs and schedules are not generated is not covered; trusted: TLC, the Go tool chain, the instrumenter's faithfulness, the encoding of inputs by ranks."))
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks, not_applicable=[],
         notes="Instrumentation is added to a scratch copy of the sources at check time; /repo has no hooks. Specification language: TLA+ (TLC).")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
