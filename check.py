#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE]"""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ucv import core, props, run

def main():
    a = sys.argv[1:]
    if "--replay" in a:
        rep = json.load(open(a[a.index("--replay") + 1]))
        ck = core.Check(rep["property"], "quick", int(os.environ.get("VERIF_SEED", "1")))
        props.replay(ck, rep)
        for what, p in ck.violations: print("VIOLATION property=%s replay=%s\n  %s" % (ck.pid, p, what))
        if not ck.violations: print("held on the replay")
        return 1 if ck.violations else 0
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    ck = core.Check(pid, tier, int(os.environ.get("VERIF_SEED", "1")))
    try: props.CHECKS[pid](ck)
    except run.ToolError as e:
        if not ck.violations:
            print("the check could not be carried out: %s" % e); return 2
        print("after the violations below, the check could not go on: %s" % e)
    return ck.finish()

if __name__ == "__main__":
    try: sys.exit(main())
    except Exception:
        traceback.print_exc(); sys.exit(2)
