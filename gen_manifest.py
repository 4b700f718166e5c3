#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
COMMON = ("Seeded search, not proof: the property held on every simulated execution of this run. Real library code from /repo's working tree, recompiled with memory-access instrumentation; "
          "schedule, heap and failures decided by the simulator from the seed. Trusts the runtime (sim/rt.cpp)%s and sequentially consistent interleaving at the granularity of instrumented accesses.")
MODEL = ", the reference model (sim/model.cpp)"
N = {
    "C01": ("result of every call of every caller against the reference model, under random preemption", MODEL),
    "C02": ("gradient of every leaf after concurrent differentiation against the reference model, under random preemption", MODEL),
    "C03": ("vector-clock happens-before race detection over every access inside the library, under random preemption", ""),
    "C04": ("allocation failures injected at chosen places of chosen calls, and invalid requests; all tensors audited against the model after every failure, then the call is repeated", MODEL),
    "C05": ("allocation failures injected, history repeated three times, simulated heap's bytes in use compared between repetitions", ""),
    "C06": ("allocation failures injected into backward place by place; audit, recovery and exact gradients against the model", MODEL),
    "C07": ("the same program under four simulated allocators (contents, placement, reuse); complete observation logs compared", ""),
    "C08": ("every access and free checked against the simulated heap's live blocks, with guard gaps, reuse policies and failures", ""),
    "C09": ("in-place additions through views and copies handed between threads; every live tensor audited against the model after each call", MODEL),
    "C10": ("overlapping graphs over common leaves by several callers taking turns; every gradient against the model", MODEL),
    "C11": ("handles dropped and reassigned in random order with freed memory reused at once; gradients against the model, bytes in use against what handles reach", MODEL),
    "C12": ("concurrent, refused and failing draws; linearizability search over one-at-a-time orders from the same seed", ""),
    "C13": ("graph families at sizes n and 4n, alone and preempted; simulated steps must grow linearly; every caller must finish", ""),
    "C14": ("graphs of 5000 to 30000 operations on 256 KiB simulated stacks, every drop style, with failing allocations; gradients against closed forms", ""),
}
NA = {
    "C15": "a pure function of one slice string and one shape: no schedule, clock, I/O, allocation or multi-party behaviour for it to depend on, so no simulated nondeterminism could decide it (valid slices are still compared with the model wherever the other checks use them)",
    "C16": "a pure function of two values and their types, with nothing a schedule or an injected fault could change; deciding it means covering the input space, which simulation does not do",
    "C17": "a statistical statement about the values of std::normal_distribution, independent of any schedule or fault (reproducibility and single hand-out of draws are C12)",
    "C18": "a pure function of a compile-time initialiser expression; nothing nondeterministic is involved and each initialiser would have to be compiled",
}
m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo are needed: the sources are compiled unchanged with -fsanitize=thread instrumentation callbacks, allocation and locking entry points supplied by the simulator. All /repo commits are fix: commits."}
for k, (what, t) in N.items():
    m["checks"].append({"property": k, "quick_cmd": "python3 check.py %s" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k, "evidence_file": "evidence/%s.json" % k,
                        "technique": "deterministic simulation with fault injection: " + what, "level": "exploration", "level_note": COMMON % t})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
