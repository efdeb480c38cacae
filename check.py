#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property from /repo's current source."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)

from vf.project import AnalysisBroken   # noqa: E402
from vf.report import Report            # noqa: E402


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":         # the same order of exploration on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    rep = Report(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    mod = importlib.import_module("vf.checks." + prop.lower())
    try:
        mod.run(rep)
    except AnalysisBroken as ex:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, ex))
        return 3
    return rep.finish(getattr(mod, "LEVEL", "other"), mod.EXPLANATION)


if __name__ == "__main__":
    sys.exit(main())
