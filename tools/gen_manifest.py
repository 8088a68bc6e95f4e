#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist in checks/."""
import json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SAN = "AddressSanitizer/UBSan"
T = {
 "C01": ("runtime oracle: every output sample compared with an independent numpy surface sum", ""),
 "C02": ("runtime oracle: every output sample compared with an independent numpy surface sum with focusing laws", ""),
 "C03": ("runtime oracle: every output sample compared with an independent numpy element superposition", ""),
 "C04": ("runtime oracle: every output sample compared with an independent numpy ring superposition", ""),
 "C05": ("runtime oracle: every output sample compared with a numpy attenuation-filter model, plus sum and limit invariants", ""),
 "C06": ("runtime monitor of error, stdout and status against the window predicate of the reference model", ""),
 "C07": ("offline bitwise comparison of recorded outputs across thread counts, batches and permutations under injected thread-start delays", ""),
 "C08": ("ThreadSanitizer on the real modules plus an interposed monitor for overlapping FFTW planner calls", ""),
 "C09": (SAN + " on the real modules plus output comparison under different heap fill patterns", ""),
 "C10": ("runtime monitor: corrupted calls under " + SAN + ", error observed and next call compared", ""),
 "C11": ("runtime monitor: SIGINT injected at varying moments, error, next result and signal disposition observed", ""),
 "C12": ("offline bitwise comparison of random call histories with fresh-session runs; input bytes compared before/after", ""),
 "C13": ("runtime resource monitor: live heap, plans, threads and descriptors over repeated calls", ""),
 "C14": ("runtime oracle: convolution results compared with direct numpy convolution", ""),
 "C15": ("runtime oracle: target matrix before/after compared with numpy block algebra", ""),
 "C16": ("runtime oracle: every pixel compared with an independent numpy delay-and-sum with an index-tie envelope", ""),
 "C17": ("runtime oracle: every sample compared with independently evaluated closed forms", ""),
 "C18": ("runtime oracle: windows and helpers compared with numpy definitions", ""),
 "C19": ("metamorphic runtime oracle over pairs of related calls", ""),
 "C20": ("differential runtime oracle: Python against Octave, bit for bit", ""),
 "C21": ("runtime oracle: results of the OpenCL device path (run on pocl) compared with the CPU path's numpy references, with injected device failures", "The kernels run on pocl's CPU device, which an interposed library reports as a GPU."),
}
NOTE = ("Exploration: judges every call the seeded workload executes on the real, freshly built modules; says nothing about inputs, schedules or histories not executed. "
        "Trusts numpy, the compilers and sanitizer runtimes, and the reference model in vf/oracle.py. ")
checks = []
for k in sorted(T):
    if os.path.exists("checks/%s.py" % k.lower()):
        checks.append(dict(property=k, quick_cmd="python3 run.py " + k, thorough_cmd="VERIF_TIER=thorough python3 run.py " + k,
                           evidence_file="evidence/%s.json" % k, technique=T[k][0], level="exploration", level_note=(NOTE + T[k][1]).strip()))
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
claimed = {c["property"] for c in checks}
na = [dict(property=p, reason="check not built yet") for p in props if p not in claimed]
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: the checks observe the public Python and Octave interfaces of modules built out of tree from /repo's working tree.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
