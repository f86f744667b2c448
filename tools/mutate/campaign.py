#!/usr/bin/env python3
"""Mutation campaign: which small changes that the existing tests do not notice
escape the checks?  usage: campaign.py OUT.jsonl every offset CHECKS files...

Works on copies only. Not used by any check."""
import concurrent.futures as cf, json, os, queue, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".."))
import run
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".."))
REPO = "/repo"
env = run.goenv()


def sh(cmd, cwd, timeout, e=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return 124, "timeout"


def main():
    out, every, offset, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
    files = sys.argv[5:]
    par = int(os.environ.get("CHECKPAR", "3"))
    tool = tempfile.mkdtemp(prefix="mut-")
    subprocess.run(["go", "build", "-o", tool + "/mutate", "."], cwd=V + "/tools/mutate", env=env, check=True)
    ms = []
    for l in subprocess.run([tool + "/mutate"] + [os.path.join(REPO, f) for f in files], capture_output=True, text=True).stdout.splitlines():
        ms.append(json.loads(l))
    ms = [m for i, m in enumerate(ms) if i % every == offset]
    print(len(ms), "mutants", flush=True)
    base = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    pool = queue.Queue()
    for i in range(par):
        r, v = "%s/repo%d" % (tool, i), "%s/verif%d" % (tool, i)
        shutil.copytree(REPO, r, symlinks=True)
        shutil.copytree(V, v, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded"))
        pool.put((r, v))

    def tests(m):
        src = open(m["file"], "rb").read()
        new = src[:m["off"]] + m["to"].encode() + src[m["end"]:]
        d = tempfile.mkdtemp(prefix="mt-", dir=tool)
        try:
            f = d + "/x.go"
            open(f, "wb").write(new)
            ov = d + "/o.json"
            json.dump({"Replace": {m["file"]: f}}, open(ov, "w"))
            rel = os.path.relpath(m["file"], REPO)
            mod = os.path.join(REPO, rel.split("/")[0])
            pkg = os.path.dirname(m["file"])
            rc, o = sh(["go", "build", "-overlay", ov, "./" + os.path.relpath(pkg, mod)], mod, 120)
            if rc: return m, "nobuild"
            e = dict(env, GOMAXPROCS="3")
            for p in ("./" + os.path.relpath(pkg, mod), "./..."):
                rc, o = sh(["go", "test", "-vet=off", "-timeout", "100s", "-overlay", ov, p], mod, 160, e)
                if rc: return m, "tests"
            return m, "survived"
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def judge(m):
        r, v = pool.get()
        rel = os.path.relpath(m["file"], REPO)
        f = os.path.join(r, rel)
        src = open(f, "rb").read()
        try:
            open(f, "wb").write(src[:m["off"]] + m["to"].encode() + src[m["end"]:])
            e = dict(env, VERIF_REPO=r, VERIF_FAILFAST="1", VERIF_TIER="quick")
            e["GOMAXPROCS"] = "4"
            for c in checks:
                rc, o = sh(["python3", v + "/run.py", c, "quick"], v, 400, e)
                if rc == 1 and "VIOLATION property=" in o:
                    return m, "caught:" + c, o[-300:]
                if rc not in (0, 1):
                    return m, "rc%d:%s" % (rc, c), o[-600:]
            return m, "ESCAPED", ""
        finally:
            open(f, "wb").write(src)
            pool.put((r, v))

    o = open(out, "a")
    stats = {}
    try:
        with cf.ThreadPoolExecutor(6) as ex, cf.ThreadPoolExecutor(par) as ex2:
            js = []
            for fu in cf.as_completed([ex.submit(tests, m) for m in ms]):
                m, s = fu.result()
                stats[s] = stats.get(s, 0) + 1
                if s == "survived":
                    js.append(ex2.submit(judge, m))
            print(stats, flush=True)
            for fu in cf.as_completed(js):
                m, s, d = fu.result()
                k = s.split(":")[0]
                stats[k] = stats.get(k, 0) + 1
                m["result"], m["detail"] = s, d
                m["file"] = os.path.relpath(m["file"], REPO)
                o.write(json.dumps(m) + "\n"); o.flush()
    finally:
        shutil.rmtree(tool, ignore_errors=True)
    print(stats)


main()
