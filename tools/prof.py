#!/usr/bin/env python3
"""Development aid: run one unit with a per-shard time budget and list the cost of its scenarios."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
pid, unit, budget = sys.argv[1:4]
tier = sys.argv[4] if len(sys.argv) > 4 else "quick"
only = ["--only", sys.argv[5]] if len(sys.argv) > 5 else []
import check
check.build([unit])
env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0")
r = subprocess.run([f"{H}/build/bin/{unit}", "--property", pid, "--tier", tier, "--part", "/tmp/prof.json",
                "--replay-dir", "/tmp", "--budget", budget, "--jobs", "8"] + only, env=env, stdout=subprocess.PIPE,
               stderr=subprocess.STDOUT, text=True, errors="replace")
print(r.stdout[-3000:], r.returncode)
d = json.load(open("/tmp/prof.json"))
for s in d["scenarios"]:
    print("%-40s %s" % (s.get("name"), {k: v for k, v in s.items() if k != "name"}))
