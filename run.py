#!/usr/bin/env python3
"""Builds one harness against the current tree of /repo and runs it.

usage: run.py ID [quick|thorough]

The harness sources live in harness/<module>/<ID>/ and lib/; they are laid over
/repo with 'go build -overlay', so nothing is written in /repo. Harnesses with a
file 'instrument.json' are built from a copy of the listed packages in which
goroutines, channels, locks, timers and contexts are routed through the
controlled scheduler (tools/instr).
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def goenv():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("GO") and k not in ("GOCACHE",):
            del e[k]
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env"], capture_output=True, text=True, env=e).stdout
        for l in out.splitlines():
            if "=" in l:
                k, v = l.split("=", 1)
                if k.startswith("GO") or k in ("PATH", "CGO_ENABLED"):
                    e[k] = v
    except OSError:
        pass
    e.setdefault("GOTOOLCHAIN", "local")
    e["GOFLAGS"] = ""
    e["GOWORK"] = "off"
    e["GOPROXY"] = "off"
    e["CGO_ENABLED"] = "1"
    e.setdefault("HOME", "/root")
    if "GOCACHE" not in e:
        e["GOCACHE"] = "/root/.cache/go-build"
    return e


def find(pid):
    m = glob.glob(os.path.join(VERIF, "harness", "*", pid))
    if len(m) != 1:
        sys.exit("no harness for " + pid)
    return m[0], os.path.basename(os.path.dirname(m[0]))


def build(pid, work, env, race=False):
    src, module = find(pid)
    moddir = REPO if module == "root" else os.path.join(REPO, module)
    rep = {}
    for lib in ("vk", "vsched", "tk"):
        for f in glob.glob(os.path.join(VERIF, "lib", lib, "*.go")):
            rep[os.path.join(moddir, "zzverif", lib, os.path.basename(f))] = f
    for f in glob.glob(os.path.join(src, "*.go")):
        rep[os.path.join(moddir, "zzverif", pid, os.path.basename(f))] = f
    for d, _, fs in os.walk(os.path.join(src, "_at")):  # files for other packages of the module
        for f in fs:
            rep[os.path.join(moddir, os.path.relpath(d, os.path.join(src, "_at")), f)] = os.path.join(d, f)
    for lib in glob.glob(os.path.join(VERIF, "harness", module, "_*")):
        for f in glob.glob(os.path.join(lib, "*.go")):
            rep[os.path.join(moddir, "zzverif", os.path.basename(lib)[1:], os.path.basename(f))] = f
    ins = os.path.join(src, "instrument.json")
    if os.path.exists(ins):
        tool = os.path.join(work, "instr")
        r = subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(VERIF, "tools", "instr"), env=env)
        if r.returncode:
            return None
        base = os.path.join(work, "base.json")
        json.dump({"Replace": rep}, open(base, "w"))
        outdir = os.path.join(work, "instrumented")
        os.makedirs(outdir)
        r = subprocess.run([tool, "-config", ins, "-repo", REPO, "-module", moddir, "-overlay", base, "-out", outdir], env=env)
        if r.returncode:
            return None
        rep.update(json.load(open(os.path.join(outdir, "overlay.json")))["Replace"])
    ov = os.path.join(work, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    out = os.path.join(work, pid)
    cmd = ["go", "build", "-buildvcs=false", "-mod=readonly", "-overlay", ov, "-o", out, "./zzverif/" + pid]
    if race:
        cmd.insert(2, "-race")
        env = dict(env, CGO_ENABLED="1")
    r = subprocess.run(cmd, cwd=moddir, env=env)
    if r.returncode:
        return None
    return out


def crash(pid, err):
    """The check died. When the Go runtime ended it inside the code under test
    (stack overflow, concurrent map writes, a panic of one of its goroutines),
    that is a violation; everything else is no answer."""
    start = re.search(r"^(fatal error: (stack overflow|concurrent map).*|panic: .*)$", err, re.M)
    if not start:
        return 2
    for path in re.findall(r"^\t(/\S+\.go):\d+", err[start.start():], re.M):
        if not path.startswith(REPO + "/"):
            continue  # the runtime, or the standard library
        if "/zzverif/" in path:
            return 2
        replay = os.path.join(VERIF, "evidence", "replay", pid + "-crash.txt")
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        open(replay, "w").write(err[start.start():])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        print("  [crash] %s at %s" % (start.group(1), path))
        return 1
    return 2


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    env = goenv()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="vphx-")
    try:
        exe = build(pid, work, env)
        if exe is None:
            print("check %s could not be built against this tree" % pid)
            return 2
        renv = dict(os.environ)
        renv.update(VERIF_TIER=tier, VERIF_DIR=VERIF, VERIF_REPO=REPO, VERIF_WORK=work)
        renv.setdefault("VERIF_SEED", "1")
        log = os.path.join(work, "stderr")
        with open(log, "wb") as f:
            r = subprocess.run([exe] + sys.argv[3:], cwd=work, env=renv, stderr=f)
        err = open(log, errors="replace").read()
        sys.stderr.write(err)
        if r.returncode in (0, 1):
            return r.returncode
        return crash(pid, err)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
