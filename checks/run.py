#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough]: decide one property on /repo's source"""
import sys, os, importlib, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from report import Report
from ir import AnalysisError


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module(pid.lower())
    R = Report(pid, tier)
    try:
        mod.run(R)
        rc = R.finish(getattr(mod, "MIN_DECIDED", 1))
    except AnalysisError as e:
        # violations already established are still violations
        if any(o[1] is False for o in R.obs):
            print("analysis incomplete: %s" % e)
            rc = R.finish(0)
        else:
            print("ANALYSIS ERROR in %s: %s" % (pid, e))
            rc = 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
