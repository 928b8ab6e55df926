#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os
from checks import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))
NA = []
m = {"version": 1, "setup_cmd": "python3 -c 'import checks' && g++ --version >/dev/null",
     "checks": [{"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "python3 run.py %s --thorough" % p,
                 "technique": c["technique"], "level": "exploration", "level_note": c["note"]} for p, c in CHECKS.items()],
     "not_applicable": NA,
     "notes": "No hooks are needed in /repo: every property is observed through its interface; run.py compiles the library from the working tree into a temporary directory."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
