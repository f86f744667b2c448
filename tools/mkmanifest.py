#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the harnesses present and the notes below."""
import glob, json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
BFS = "explicit-state model checking: exhaustive bounded breadth-first search of the real component in lockstep with a reference model"
ENUM = "bounded-exhaustive enumeration of the input/configuration space on the real code against a reference oracle"
SCHED = "stateless model checking of the real code under a controlled scheduler (delay-bounded exhaustive interleaving exploration)"
FAULT = "exhaustive fault and crash-point enumeration on the real code"
EMU = "exhaustive enumeration of histories of the real code, executed on a terminal emulator"
T = json.load(open(os.path.join(V, "tools", "checks.json")))
checks, na = [], []
names = {"BFS": BFS, "ENUM": ENUM, "SCHED": SCHED, "FAULT": FAULT, "EMU": EMU}
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if glob.glob(os.path.join(V, "harness", "*", pid, "*.go")) and pid in T:
        t = T[pid]
        checks.append({"property": pid, "quick_cmd": "./run.py %s quick" % pid, "thorough_cmd": "./run.py %s thorough" % pid,
                       "technique": "; ".join(names.get(x, x) for x in t["technique"]), "level": t["level"], "level_note": t["note"]})
    else:
        na.append({"property": pid, "reason": T.get(pid, {}).get("na", "its check is not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks are needed in /repo: harnesses and instrumented copies are laid over the tree with go build -overlay", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Run from /verif. Harness sources: harness/<module>/<id>, shared runtime: lib/. Known and fixed defects: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
