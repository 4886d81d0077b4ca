"""Runs TLC."""
import os, subprocess, tempfile, re, json, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def tlc(module, cfg, scratch, env=None, workers=1, timeout=600, heap="2g", args=(), jvm=()):
    """-> (rc, output). The caller decides what the output means."""
    md = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + md] + gc + list(jvm) + ["-cp", CP, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=md, env=e, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        raise TlcError("TLC timed out on %s %s" % (module, cfg))
    finally:
        shutil.rmtree(md, ignore_errors=True)


def prints(out):
    """values printed with PrintT("@@" \\o ToJson(..))"""
    res = []
    for l in out.splitlines():
        if l.startswith('"@@'):
            res.append(json.loads(json.loads(l)[2:]))
    return res


def overrides(scratch):
    """compiles spec/java into scratch; operators of Bytes.tla are then evaluated by these methods"""
    global CP
    out = os.path.join(scratch, "java")
    os.makedirs(out, exist_ok=True)
    p = subprocess.run(["javac", "-nowarn", "-cp", CP, "-d", out, os.path.join(SPEC, "java", "Bytes.java")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise TlcError(p.stdout)
    CP = out + ":" + CP
