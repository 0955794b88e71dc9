#!/usr/bin/env python3
"""python3 check.py <property id> [--tier quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import report
from sa.checks import CHECKS


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if not a or a[0] not in CHECKS:
        print("usage: check.py %s [--tier quick|thorough]" % "|".join(sorted(CHECKS)))
        return 2
    r = report.Report(a[0], tier)
    return report.finish(r, CHECKS[a[0]])


if __name__ == "__main__":
    sys.exit(main())
