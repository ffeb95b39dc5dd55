#!/usr/bin/env python3
"""usage: run.py PROPERTY  -- decides one property on /repo's current source"""
import importlib
import sys
import os
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import mz  # noqa: E402
from common import Report, finish, Broken  # noqa: E402

MODULES = ["rules_ast", "rules_kind", "rules_access", "rules_enum", "rules_scanner", "rules_parser", "rules_driver", "rules_grammar", "rules_state", "rules_report", "rules_cover", "rules_scalar", "rules_calls", "rules_query", "rules_group", "rules_statement", "rules_define", "rules_name"]


def registry():
    r = {}
    for m in MODULES:
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
            r.update(importlib.import_module(m).CHECKS)
    return r


def main():
    reg = registry()
    ids = sys.argv[1:]
    if ids == ["warm"]:  # extraction only; its results are cached by content
        try:
            mz.load()
        except Broken as e:
            print("ANALYSIS-BROKEN %s" % e)
        return 0
    if ids == ["all"]:
        ids = sorted(reg)
    rc = 0
    for i in ids:
        t0 = time.time()
        if i not in reg:
            print("unknown property " + i)
            return 2
        try:
            db = mz.load()
            rep = Report(i)
            reg[i](db, rep)
            c = finish(rep, db, t0)
        except Broken as e:
            print("ANALYSIS-BROKEN %s" % e)
            c = 2
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-BROKEN internal error in the check of %s" % i)
            c = 3
        rc = max(rc, c)
    return rc


if __name__ == "__main__":
    sys.exit(main())
