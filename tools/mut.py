#!/usr/bin/env python3
"""mut.py FILE [name..]: quick sensitivity runs. FILE holds mutants, separated by lines of '=====':
     name property[,property..] file
     <<< text to replace
     >>> replacement
   Every mutant is applied to a copy of /repo and the checks of its properties run against the copy."""
import sys, os, subprocess, shutil, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse(p):
    for part in re.split(r"^=====.*\n", open(p).read(), flags=re.M):
        if not part.strip():
            continue
        head, rest = part.lstrip("\n").split("\n", 1)
        name, props, file = head.split()
        eds = re.findall(r"^<<<\n(.*?)^>>>\n(.*?)(?=^<<<|\Z)", rest, flags=re.M | re.S)
        yield name, props.split(","), file, eds


def main():
    only = sys.argv[2:]
    for name, props, file, eds in parse(sys.argv[1]):
        if only and name not in only:
            continue
        d = "/tmp/mut-" + name
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
        try:
            p = d + "/" + file
            s = open(p).read()
            ok = True
            for a, b in eds:
                if s.count(a.rstrip("\n")) != 1:
                    print(name, "DOES NOT APPLY", s.count(a.rstrip("\n")), repr(a))
                    ok = False
                s = s.replace(a.rstrip("\n"), b.rstrip("\n"))
            if not ok:
                continue
            open(p, "w").write(s)
            for c in props:
                r = subprocess.run([sys.executable, HERE + "/check.py", c], env=dict(os.environ, WAYUU_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                last = [l for l in r.stdout.splitlines() if l.startswith("  %s:" % c)][:1]
                print("%-20s %s rc=%d %s" % (name, c, r.returncode, (last or [r.stdout.splitlines()[-1] if r.stdout else ""])[0][:150]), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
