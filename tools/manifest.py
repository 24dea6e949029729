#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
RULE = "every function of the crate reachable from the public API, monomorphised, in the three feature configurations on x86_64; trusts rustc's MIR and the driver that reads it"
CLAIMED = {
    "C09": ("typestate / who-may-call rule over type-resolved reader calls (MIR)", RULE),
    "C16": ("whole-program call graph SCCs and ownership-graph SCCs (MIR)", RULE),
    "C17": ("who-may-call and static-effect rules (MIR)", RULE + "; decides that no source of nondeterminism or shared state is reachable"),
    "C18": ("effect and typestate rules on spawned tasks and channels (MIR)", RULE + "; the compiler's Send/borrow checks are trusted for data-race freedom"),
    "C19": ("unsafe/arch effect analysis of the platform_independent build (HIR+MIR) and cfg-aware source scan", RULE + "; other architectures are covered by the source scan only"),
    "C26": ("auto-trait type-level witnesses with compile-fail twins", "decided by the type checker for every reader type"),
}
try:
    from engine_props import CLAIMED as EC
    CLAIMED.update(EC)
except ImportError:
    pass
NA = {
    "C31": "numerical accuracy of decoded samples is a property of run-time values; no sound static argument in reach bounds it",
    "C32": "closeness of two numerical kernels is a property of run-time values; no sound static argument in reach bounds it",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, note = CLAIMED[i][:2]
        lvl = CLAIMED[i][2] if len(CLAIMED[i]) > 2 else "other"
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": t, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
