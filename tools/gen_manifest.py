#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from the check modules and the property list."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    "C30": "quantifies over error propagation of arbitrary user problems: the global error constant is a runtime quantity (Lipschitz constants, stability) that no static argument over this source bounds; the static parts it rests on are C01, C02, C10",
    "C31": "decided by the automatic differentiation rules of the array library underneath, whose source is not in this repository; the static parts (what is blocked or passed to the adjoint) are C21",
    "C32": "bit-for-bit agreement of batched, compiled and eager runs depends on the array library's batching and compilation of arbitrary user functions, outside the analysed source; the part decidable from this source (no information flows between the elements of a batch) is C25",
    "C33": "memory and work bounds are realised inside the loop primitive of a dependency and by runtime step counts",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(HERE, "checks", pid.lower() + ".py")
    if pid in NA: na.append(dict(property=pid, reason=NA[pid])); continue
    if not os.path.exists(f): na.append(dict(property=pid, reason="check not built yet")); continue
    m = importlib.import_module("checks." + pid.lower())
    checks.append(dict(property=pid, quick_cmd=f"python3-vt /verif/check.py {pid}", thorough_cmd=f"python3-vt /verif/check.py {pid} --tier thorough",
                       technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.EXPLANATION, evidence_file=f"evidence/{pid}.json"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
