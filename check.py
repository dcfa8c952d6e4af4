#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree.
exit 0 held, 1 violated (VIOLATION line), 2 the analysis itself could not be carried out."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.extract import AnalysisError
from sa.report import Report, finish, stopped
from sa.prog import program

RULES = importlib.import_module("sa.rules").RULES


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    ent = RULES[pid]
    rep = Report(pid)
    try:
        mod = importlib.import_module("sa.rules." + ent["module"])
        try:
            getattr(mod, ent.get("run", "run"))(program(), rep, tier)
        except AnalysisError as e:
            e = stopped(rep, e)
            if e:
                rep.errors.append(e)
        return finish(rep, ent["level"], ent["technique"], tier)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 2


if __name__ == "__main__":
    sys.exit(main())
