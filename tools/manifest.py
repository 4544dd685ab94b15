#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
"P01": "runtime monitor: executor with token ledger and reference model over generated command lines",
"P02": "runtime monitor: executor compared with constructed ground truth and reference model",
"P03": "runtime monitor: metamorphic pairs of spellings, observation logs compared",
"P04": "runtime monitor: executor compared with constructed ground truth and reference model",
"P05": "runtime monitor: executor compared with reference model on lists followed by near-options",
"P06": "runtime monitor: spoiled and random lines, error compared with reference model",
"P07": "runtime monitor: precedence trace and child processes, output and exit status compared",
"P08": "runtime monitor: recording validators, call trace compared with the specified one",
"P09": "runtime monitor: built-in validators over near-miss values and files, own oracle",
"P10": "runtime monitor: destinations of every type compared with own conversion; AddressSanitizer",
"P11": "runtime monitor: numeric views compared with an own reading of the text",
"P12": "runtime monitor: histories of parses against a new parser, observation logs compared",
"P13": "runtime monitor: name registry compared with a reference map after every call",
"P14": "runtime monitor: permuted declarations, observation logs compared",
"P15": "runtime monitor: usage text compared with a reference layout",
"P16": "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, valgrind memcheck and library assertions over wild histories",
"P17": "runtime monitor: ledger of validator constructions and destructions; AddressSanitizer",
"P18": "ThreadSanitizer and log comparison over threads with injected jitter",
"P19": "runtime monitor: observation logs of the same histories compared over a matrix of builds",
"P20": "runtime monitor: cleared parser against a new one, observation logs compared",
"P21": "runtime monitor: cross-check of all views of every argument after every call",
"P22": "runtime monitor with allocation fault injection, every allocation of a parse failed in turn; AddressSanitizer",
"P23": "runtime monitor: inputs scrambled and freed after every call, guard bytes; AddressSanitizer",
"P24": "runtime monitor: the same list written in many ways, observation logs compared",
"P25": "runtime monitor: every exception caught by class, copied and read again after everything else is gone; AddressSanitizer",
"P26": "runtime monitor: histories with and without readings compared",
"P27": "runtime monitor: user code that throws, executor compared with reference model and with a new parser; AddressSanitizer",
"P29": "runtime monitor with allocation fault injection, every allocation of a definition call failed in turn; AddressSanitizer",
"P30": "runtime monitor: allocations, memory and processor time of a parse and of a parse sixteen times as long",
"P31": "runtime monitor: histories in ordinary and changed surroundings compared (interposed environment, terminal, time and user queries), process state compared before and after",
"P32": "runtime monitor: copies of arguments and elements read after everything else is gone; AddressSanitizer",
"P33": "runtime monitor: definitions reached by way of others compared with the same declared at once, observation logs compared; AddressSanitizer",
"P34": "runtime monitor: validators and conversions that read the parser during the parse, compared with reference model and with the same parse without readings",
"P35": "runtime monitor: memory held by the library after 6, 13 and 28 rounds of the same calls, from replaced allocation functions; AddressSanitizer",
"P36": "runtime monitor: definitions and lines with and without an argument that is not used, observation logs compared; AddressSanitizer",
"P28": "runtime monitor: histories interleaved at every call and callback by a random schedule, each compared with itself alone",
}
NOTE = {
"P16": "held on the executions run: wild histories under ASan, UBSan, LSan, valgrind and libstdc++ assertions, both forms of the library; numbers outside the range of a numeric destination are a known finding and not generated",
"P18": "held on the interleavings observed (counted in the evidence); accesses that happened are judged by ThreadSanitizer's happens-before analysis; assumes pthreads",
"P19": "identical logs over the builds of the matrix for the histories run; only libstdc++ is available here",
"P29": "every single allocation of each chosen call failed in turn (complete for each case), plus all-from-here failures; the histories are sampled",
"P30": "growth by a factor of 16 only, with thresholds (24 times the allocations, 40 times the memory, 70 times the time, best of several measurements) that separate linear from quadratic",
"P28": "held on the schedules run (distinct ones counted in the evidence); one thread, switches at every call, reading, validator call and conversion",
"P22": "every single allocation of each generated parse failed in turn (complete for each case), plus all-from-here failures; the cases themselves are sampled",
}
DEF = "held on the executions run (counted in the evidence), both forms of the library; trusts the reference model and generators in /verif/harness, which were written from the documentation"
checks = []
for pid in sorted(T):
    checks.append({"property": pid, "quick_cmd": "python3 run.py check " + pid, "thorough_cmd": "python3 run.py check %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": T[pid], "level": "fault_enumeration" if pid in ("P22", "P29") else "exploration",
                   "level_note": NOTE.get(pid, DEF)})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks were needed in /repo: everything is observed through the public interface, sanitizers, replaced operator new in the test binary and callbacks."}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
