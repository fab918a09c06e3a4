#!/usr/bin/env python3
"""python3 check.py <ID> [--tier quick|thorough]   decides one property.
   python3 check.py --replay <file>               re-runs a recorded violation.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import os, sys, json, random, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib, props


def main():
    a = sys.argv[1:]
    if "--tier" in a:
        vlib.TIER = a[a.index("--tier") + 1]
    if a[0] == "--replay":
        return props.replay(a[1])
    pid = a[0]
    try:
        run = vlib.Run(pid)
        props.CHECKS[pid](run, random.Random("%s-%d" % (pid, vlib.SEED)), 1 if vlib.TIER != "thorough" else 8)
        return run.finish(assumptions=props.ASSUME)
    except vlib.ToolError as e:
        print("ERROR of the check:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
