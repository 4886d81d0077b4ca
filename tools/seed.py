#!/usr/bin/env python3
"""seed.py ID..: confirms planted bugs (builds, passes the stable tests, demo 0 without and nonzero with) and runs the check.
   --new ID PROP: creates seeded/ID from the present changes of /repo and undoes them.   --all-checks: runs every check."""
import os, sys, subprocess, json, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = V + "/tools/demokit"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def clean():
    return sh("git -C /repo status --porcelain").stdout.strip() == ""


def demo(i):
    import tempfile
    d = tempfile.mkdtemp(prefix="seed-")
    shutil.copytree(V + "/seeded/" + i, d + "/x")
    for f in ("patch.diff", "meta.json"):
        os.path.exists(d + "/x/" + f) and os.unlink(d + "/x/" + f)
    r = sh("bash %s/x/demo.sh" % d, cwd="/repo", timeout=300)
    shutil.rmtree(d)
    return r


def new(i, prop):
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
    if diff:
        open(d + "/patch.diff", "wb").write(diff)
        sh("git -C /repo checkout -- .")
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# run in the folder of the sources\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    for f in ("kit.py", "srv.c"):
        shutil.copy(KIT + "/" + f, d + "/" + f)
    print("made", d)


def one(i, checks, full):
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    for f in ("kit.py", "srv.c"):
        if os.path.exists(d + "/" + f):
            shutil.copy(KIT + "/" + f, d + "/" + f)
    assert clean(), "repo not clean"
    out = [i, meta["property"]]
    if full:
        sh("bash /opt/vp/build.sh")
        r = demo(i)
        out.append("demo0=%d" % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:])
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout)
            return
        if full:
            r = sh("bash /opt/vp/build.sh")
            out.append("build=%d" % r.returncode)
            sh("bash /opt/vp/test.sh /tmp/seed-t.json")
            t = json.load(open("/tmp/seed-t.json"))
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            passed = set(t.get("passed", [])) if isinstance(t.get("passed"), list) else {k for k, v in t.items() if v == "passed"}
            out.append("tests=%s" % ("ok" if st <= passed else "LOST %s" % sorted(st - passed)[:3]))
            r = demo(i)
            out.append("demo1=%d" % r.returncode)
            if r.returncode == 0:
                print(r.stdout[-800:])
        for c in (checks or [meta["property"]]):
            t0 = time.time()
            r = sh("VERIF_SEED=1 VERIF_TIER=quick python3 %s/check.py %s" % (V, c))
            ok = r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout
            out.append("%s=%s(%ds)" % (c, "CAUGHT" if ok else "rc%d" % r.returncode, time.time() - t0))
            if not ok and r.returncode == 2:
                print(r.stdout[-2500:])
            if "-v" in sys.argv:
                print(r.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
        if full:
            sh("bash /opt/vp/build.sh")
    print(*out, flush=True)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    if "--new" in sys.argv:
        new(a[0], a[1] if len(a) > 1 else None)
    else:
        ids = a or sorted(os.listdir(V + "/seeded"))
        full = "--fast" not in sys.argv
        chk = [c[2:] for c in sys.argv if c.startswith("-c")]
        for i in ids:
            one(i, chk, full)
