#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of KNOWN_FINDINGS.txt from the fix commits of /repo."""
import os, re, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MAP = [("list", "C32"), ("viewport", "C33"), ("table", "C34"), ("select", "C35"), ("form", "C36"), ("modal", "C37"), ("confirm", "C37"),
       ("progress", "C38"), ("spinner", "C38"), ("text input", "C30"), ("text area", "C31"),
       ("quit request", "C01"), ("batch or sequence", "C04"), ("input goroutine", "C06"), ("Suspend, Resume", "C05"), ("cancelable", "C06"),
       ("alt-screen frame", "C03"), ("suspends after the program has ended", "C02"), ("reader is always shut down", "C02"),
       ("external process", "C05"), ("failed Resume", "C05"), ("child that cannot", "C05")]
MAP += [tuple(l.rstrip("\n").split("\t")) for l in open(os.path.join(V, "tools", "fixmap.tsv"))] if os.path.exists(os.path.join(V, "tools", "fixmap.tsv")) else []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    ids = [(s.index(k), -len(k), i) for k, i in MAP if k in s]
    explicit = [i for k, i in MAP if k == h]
    assert ids or explicit, l
    out.append("fixed: property=%s %s repaired so that: %s" % ((explicit or [min(ids)[2]])[0], h, s))
p = os.path.join(V, "KNOWN_FINDINGS.txt")
keep = [l for l in open(p).read().splitlines() if not l.startswith("fixed:")]
open(p, "w").write("\n".join(keep + out) + "\n")
print(len(out), "fixed")
