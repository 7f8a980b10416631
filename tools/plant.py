#!/usr/bin/env python3
"""plant.py ID...: confirm planted bugs of seeded/<ID> in scratch copies of /repo under /tmp/plant
(builds, passes the stable tests, demo 0 without and non-zero with the patch).
plant.py --check ID...: run the check of its property on the patched scratch copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEEDED", os.path.join(V, "seeded"))
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def copy(i, patched):
    d = "/tmp/plant/%s_%s" % (i, "bug" if patched else "ok")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    if patched:
        subprocess.run(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=d, check=True)
    return d


def script(d, name):
    t = open("/opt/vp/" + name).read().replace("/opt/vp/build.sh", d + "/.build.sh").replace("/repo", d)
    open(os.path.join(d, "." + name), "w").write(t)


def demo(i, d):
    return subprocess.run(["bash", os.path.join(S, i, "demo.sh")], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, text=True)


def confirm(i):
    res = {}
    for patched in (False, True):
        d = copy(i, patched)
        script(d, "build.sh")
        script(d, "test.sh")
        b = subprocess.run(["bash", ".build.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode:
            return "%s: build failed\n%s" % (i, b.stdout[-2000:])
        r = demo(i, d)
        if (r.returncode == 0) == patched:
            return "%s: demo exits %d %s the patch\n%s" % (i, r.returncode, "with" if patched else "without", r.stdout[-1500:])
        res[patched] = r.stdout[-300:]
        if patched and "--notest" not in sys.argv:
            subprocess.run(["bash", ".test.sh", d + "/o.json"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            p = set(json.load(open(d + "/o.json"))["passed"])
            bad = [t for t in BASE if t not in p]
            if bad:
                return "%s: %d stable tests fail: %s" % (i, len(bad), bad[:5])
        shutil.rmtree(d)
    return "%s: confirmed; with the patch: %s" % (i, res[True].strip()[-200:])


def check(i):
    pid = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    pids = os.environ.get("PIDS", pid).split(",")
    d = copy(i, True)
    out = []
    for pid in pids:
        e = dict(os.environ, VT_REPO=d, VT_OUT="/tmp/plant/%s_out" % i, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        r = subprocess.run(["python3", os.path.join(V, "tools/check.py"), pid, "quick"], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        caught = r.returncode == 1 and "VIOLATION property=%s " % pid in r.stdout
        out.append("%s %s: %s %s" % (i, pid, "CAUGHT" if caught else "MISSED rc=%d" % r.returncode, r.stdout[:300].replace("\n", " | ")))
    shutil.rmtree(d)
    shutil.rmtree("/tmp/plant/%s_out" % i, ignore_errors=True)
    return "\n".join(out)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(S))
    for i in ids:
        print((check if "--check" in sys.argv else confirm)(i), flush=True)
