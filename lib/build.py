"""Builds the harness binaries from /repo's current working tree into a scratch directory."""
import os, subprocess, sys, glob, concurrent.futures as cf

REPO = os.environ.get("WAYUU_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(HERE, "harness")
LIBS = ["-lssl", "-lcrypto", "-lpthread", "-lm"]
BASE = ["-g", "-std=gnu99", "-DWAYUU_DIST", "-w", "-U_FORTIFY_SOURCE", "-fno-builtin", "-I" + REPO]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout))
    return p.stdout


def sources():
    return sorted(f for f in glob.glob(REPO + "/*.c"))


def build(out, kind):
    """kind: free (ASan, free running), sched (instrumented, baton), lib (ASan, library calls), hard (as distributions build: optimised, libc's own bound checks)"""
    d = os.path.join(out, kind)
    os.makedirs(d, exist_ok=True)
    wrap = os.path.join(H, {"lib": "wrap_lib.txt", "hard": "wrap_lib.txt"}.get(kind, "wrap.txt"))
    asan = ["-fsanitize=address", "-fno-omit-frame-pointer"] if kind in ("free", "lib") else []
    inst = ["-fsanitize=thread"] if kind == "sched" else []
    opt = ["-O2", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=3", "-fbuiltin"] if kind == "hard" else ["-O1"]
    drv = {"free": "vh.c", "sched": "vh.c", "lib": "vlib.c", "hard": "vlib.c"}[kind]

    def one(src):
        base = os.path.basename(src)[:-2]
        if base == "main" and kind in ("lib", "hard"):
            return None
        o = os.path.join(d, base + ".o")
        run(["gcc"] + BASE + opt + asan + inst + (["-Dmain=wayuu_main"] if base == "main" else []) + ["-c", src, "-o", o])
        run(["objcopy", "--redefine-syms=" + wrap, o])
        return o

    def driver():
        o = os.path.join(d, "drv.o")
        fl = ["-DVH_SCHED"] if kind == "sched" else []
        run(["gcc", "-g", "-O1", "-std=gnu99", "-w", "-U_FORTIFY_SOURCE", "-fno-builtin", "-I" + REPO] + fl + asan + ["-c", os.path.join(H, drv), "-o", o])
        return o

    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(one, s) for s in sources()] + [ex.submit(driver)]
        objs = [f.result() for f in fs]
    exe = os.path.join(d, "vh")
    run(["gcc", "-g", "-o", exe] + [o for o in objs if o] + asan + LIBS)
    return exe


if __name__ == "__main__":
    for k in sys.argv[2:]:
        print(build(sys.argv[1], k))
