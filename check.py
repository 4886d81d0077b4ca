#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed n]: decides one property on /repo's current tree.
   check.py --replay FILE: repeats what a violation was reported for."""
import os, sys, json, time, tempfile, shutil, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import core, build, plan


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="checks that the tools are there")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    base = tempfile.mkdtemp(prefix="wayuu-verif-")
    try:
        if a.setup:
            return setup(base)
        if a.replay:
            return replay(a, base)
        return plan.check(a.prop, a.tier, a.seed, base, a.v)
    except (core.Broken, build.BuildError) as e:
        print("ERROR: " + str(e))
        return 2
    finally:
        shutil.rmtree(base, ignore_errors=True)


def setup(base):
    """everything is built by each check; here only: do the compilers and TLC work"""
    import tlc
    tlc.overrides(base)
    rc, out = tlc.tlc("MC_Bytes", "MC_Bytes.cfg", base, workers=4)
    print("\n".join(out.splitlines()[-6:]))
    build.build(base + "/bin", "free")
    return rc


def replay(a, base):
    r = json.load(open(a.replay))
    return plan.replay(r, base)


if __name__ == "__main__":
    sys.exit(main())
