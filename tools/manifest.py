#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = {
 "C01": "property-based testing: generated values of 123 types, round trip",
 "C02": "property-based testing: generated placements, invariant over every word",
 "C03": "property-based testing: differential against an independent reference encoder",
 "C04": "property-based testing: generated words, differential against a reference decoder",
 "C05": "property-based testing: generated bounds, reference arithmetic",
 "C06": "stateful property-based testing against a reference model",
 "C07": "property-based testing: algebraic laws and reference arithmetic",
 "C08": "generated programs (random type definitions compiled with the derive), reference encoder",
 "C09": "generated programs (random struct definitions compiled with the derive), reference offsets",
 "C10": "stateful property-based testing against a reference model",
 "C11": "stateful property-based testing against a reference model",
 "C12": "stateful property-based testing, invariant over the history",
 "C13": "stateful property-based testing against a reference model",
 "C14": "stateful property-based testing against a reference model",
 "C15": "stateful property-based testing against a reference model",
 "C16": "stateful property-based testing against a reference model",
 "C17": "generated programs and generated schedules (shuttle), invariant over the history",
 "C18": "generated programs and generated schedules (shuttle), invariant over the history",
 "C19": "generated programs and generated schedules (shuttle), invariant over the history",
 "C20": "stateful property-based testing against a reference model",
 "C21": "stateful property-based testing with a recording runtime, differential between runtimes",
 "C22": "stateful property-based testing with the allocator dropped at a generated point",
 "C23": "stateful property-based testing with counted resources",
 "C24": "stateful property-based testing on a simulated GPU with injected faults and delays, reference model",
 "C25": "property-based testing and generated programs on the GPU configuration, reference encoder and decoder",
 "C26": "stateful property-based testing with repeated cycles and a counting heap, invariant over the history",
 "C27": "stateful property-based testing with injected panics of user code, reference model",
 "C28": "property-based testing of other feature configurations, reference encoder and reference model",
}
N = {
 "C17": "Schedules are sampled (random and PCT), on a copy of craballoc that is generated from /repo's working tree at check time with std::sync replaced by shuttle's; interleavings of sequentially consistent memory only.",
 "C18": "As C17.", "C19": "As C17.",
 "C24": "There is no GPU adapter here. craballoc is compiled against a stand-in for wgpu 24 that has the validation of wgpu-core for buffers, copies, the queue and mapping; what drivers do is not covered.",
 "C25": "There is no SPIR-V compiler here. The sources are compiled for the CPU with the configuration of the GPU (target_arch spirv, no_std), on a stand-in for spirv-std whose unchecked accesses report those out of bounds; what the GPU's compiler makes of the code is not covered.",
 "C08": "Type definitions and values are sampled; each generated crate is compiled with the derive of /repo's working tree.",
}
NA = {}
CRATE = lambda i: "slab" if i <= 7 else "derive" if i <= 9 else "conc" if 17 <= i <= 19 else {24: "wgpu", 25: "gpu", 28: "plain"}.get(i, "alloc")
checks, na = [], []
for x in props:
    i = x["id"]
    crate = CRATE(int(i[1:]))
    if i in NA or not os.path.isdir(os.path.join(root, "harness", crate)):
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} --tier quick",
        "thorough_cmd": f"./run.sh {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": T[i],
        "level": "exploration",
        "level_note": N.get(i, "Cases are sampled, a fixed number per tier as a pure function of VERIF_SEED; the oracle is a reference model in the harness that shares no code with the repository. Absence of violations is not established."),
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks: everything is observed through the public API. known_findings.txt lists the defects found."},
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
