#!/usr/bin/env python3
"""Regenerates DESIGN.md."""
import json, os, re, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rd = lambda p: open(os.path.join(V, p)).read()
T = json.loads(rd("tools/checks.json"))
notes = {}
for part in re.split(r"(?m)^## ", rd("tools/design_notes.md"))[1:]:
    k, _, body = part.partition("\n")
    notes[k.strip()] = body.strip()
out = [rd("tools/design_head.md"), "\n## The properties\n"]
names = {"BFS": "BFS (lockstep explicit-state search)", "ENUM": "ENUM (bounded-exhaustive enumeration)", "SCHED": "SCHED (interleavings of the instrumented code)", "FAULT": "FAULT (exhaustive faults)", "EMU": "EMU (terminal emulator)"}
man = {c["property"] for c in json.loads(rd("MANIFEST.json"))["checks"]}
for l in sorted(rd("properties.jsonl").splitlines(), key=lambda l: json.loads(l)["id"]):
    p = json.loads(l); i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    if i not in man:
        out.append("*Planned*: %s. Not built yet.\n" % p["quantifier"]["text"]); continue
    out.append("* **Engine:** " + ", ".join(names[t] for t in T[i]["technique"]))
    out.append("* **Explored:** " + p["quantifier"]["text"] + ".")
    try:
        e = json.loads(rd("evidence/%s.json" % i)); c = e["coverage"]
        out.append("* **In this check:** " + (c.get("rule") or "; ".join(c.get("rules", [])) or "see Explored") + ".")
        out.append("* **Size (%s run):** %s states, %s transitions, %s executions, %.0f s, %s." % (e["tier"], "{:,}".format(c["states"]), "{:,}".format(c["transitions"]), "{:,}".format(c["traces_validated_against_impl"]), e["wall_s"], "complete within the bounds" if c["exhaustive"] else "not complete"))
        ps = c.get("parts") or []
        if 0 < len(ps) <= 14:
            out.append("* **Parts:** " + "; ".join(ps) + ".")
        elif ps:
            out.append("* **Parts:** " + "; ".join(ps[:10]) + "; and %d more of the same kind." % (len(ps) - 10))
        for a in e.get("assumptions", []): out.append("* **Assumed:** " + a + ".")
    except FileNotFoundError: pass
    out.append("* **Bounds:** " + T[i]["note"] + ".")
    out.append("* **Why the tests cannot:** " + p["why_tests_cant"] + ".")
    if i in notes: out.append("* **Notes:** " + notes[i].replace("\n", " "))
    out.append("")
out.append(rd("tools/design_tail.md") if os.path.exists(os.path.join(V, "tools/design_tail.md")) else "")
out.append("\n## Planted bugs\n\nEach lies in seeded/<id> with a demonstration; \"caught\" is the result of the quick check of its property.\n\n| bug | property | needs | caught |\n|---|---|---|---|")
res = {}
rf = os.path.join(V, "tools/seed_results.tsv")
if os.path.exists(rf):
    for l in open(rf):
        a, b = l.rstrip("\n").split("\t"); res[a] = b
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(d + "/meta.json")); n = os.path.basename(d)
    out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), res.get(n, "?")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print("DESIGN.md", len(out))
