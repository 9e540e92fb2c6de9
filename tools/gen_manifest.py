#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and engine/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/engine")
sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        m = props.META[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": m["technique"], "level": m["level"], "level_note": m["note"]})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check yet")})
out = {"version": 1, "setup_cmd": "bash tools/setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks read the MIR of the unmodified sources", "source_commits": []},
       "checks": checks, "not_applicable": na, "notes": "Static analysis only; see DESIGN.md. Checks copy /repo's working tree to a scratch directory, let rustc type-check it and analyse its MIR."}
json.dump(out, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
