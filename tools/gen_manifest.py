#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/meta.py."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(HERE, "sim"))
import meta
claimed = [l.strip() for l in sys.argv[1].split(",")] if len(sys.argv) > 1 else sorted(meta.PROPS)
m = {"version": 1, "setup_cmd": "python3 sim/build.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "technique": meta.PROPS[p]["technique"], "level": meta.PROPS[p]["level"], "level_note": meta.PROPS[p]["note"]} for p in claimed],
     "not_applicable": [{"property": p, "reason": r} for p, r in meta.NOT_APPLICABLE.items()] +
                       [{"property": p, "reason": "check not built yet"} for p in sorted(meta.PROPS) if p not in claimed],
     "notes": "No hooks in /repo: every seam is an existing interface or a link-time replacement (see DESIGN.md). Genuine defects repaired and recorded: known-findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
