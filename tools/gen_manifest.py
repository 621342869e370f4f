#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/registry.py (claimed) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from registry import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 harness/run.py {i} quick", thorough_cmd=f"python3 harness/run.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=c["technique"], level="exploration", level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 -m py_compile harness/run.py harness/registry.py && mkdir -p build evidence replay",
         checks=checks, not_applicable=na,
         notes="No hooks: harnesses include /repo's headers (and app sources) unchanged. known findings: known_findings.jsonl")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
