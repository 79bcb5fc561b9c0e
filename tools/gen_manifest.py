#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import checks
TECH = {"exploration": "explicit enumeration of every input within the bounds, executed on the real code and compared with a reference model (bounded exhaustive model checking)",
        "model_checking": "stateless explicit-state exploration (DFS over choice points) of the real code in lock step with a reference model",
        "fault_enumeration": "stateless exploration of the real code with every fault point (allocation, I/O, callback) enumerated within a deviation bound"}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks are needed in /repo: the allocator, configuration, callbacks and files are controlled through MPack's own configuration seams (MPACK_HAS_CONFIG, MPACK_MALLOC...) and a link-time wrap of fopen. /repo carries only fix: commits."}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": checks.NOT_APPLICABLE.get(p["id"], "no check is built for this property yet")}); continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH[c["level"]], "level": c["level"],
        "level_note": "Exhaustive within: %s. Assumes: %s." % (c["bounds"]["quick"], "; ".join(c["assumptions"] + checks.COMMON_ASSUMPTIONS))})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
