#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        cf = c.get("configs", ["asan"])
        note = ("Random search over generated cases against an independent oracle: absence of violations is shown only for the cases explored. " + c["rule"] +
                " Library configurations run: " + ", ".join(cf) + ". Trusted: " + ("the oracle in harness/" + c["src"] + ", the compilers, AddressSanitizer." if c["src"] else c["assumptions"]))
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "property-based testing: random operation sequences against a reference model, shrinking; coverage-guided fuzzing of the same harness in the thorough tier"),
                       "level": c.get("level", "exploration"), "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check is registered for it yet.")})
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
