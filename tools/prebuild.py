#!/usr/bin/env python3
import glob, os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import run
env = run.goenv()
for d in sorted(glob.glob(os.path.join(run.VERIF, "harness", "*", "[A-Z]*"))):
    work = tempfile.mkdtemp(prefix="vphx-")
    try:
        ok = run.build(os.path.basename(d), work, env)
        print(os.path.basename(d), "ok" if ok else "NOT BUILT", flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
