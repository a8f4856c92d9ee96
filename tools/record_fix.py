#!/usr/bin/env python3
"""record_fix.py PID 'what failed': record the last /repo commit as a fix."""
import json, subprocess, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
h = subprocess.run("git -C /repo log -1 --format=%h", shell=True, capture_output=True, text=True).stdout.strip()
k["findings"].append({"property": sys.argv[1], "key": h, "status": "fixed", "commit": h, "what": sys.argv[2],
                      "line": f"fixed: property={sys.argv[1]} {h} {sys.argv[2]}"})
json.dump(k, open(p, "w"), indent=1)
