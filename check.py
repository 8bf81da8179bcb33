#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source."""
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from engine import report
from engine.vm import AnalysisBroken


def main():
    pid = sys.argv[1]
    t0 = time.time()
    import registry
    mod, level = registry.CHECKS[pid]
    m = importlib.import_module('checks.' + mod)
    try:
        r = m.run(pid, report.REPO, report.TIER)
    except AnalysisBroken as e:
        print('NO ANSWER property=%s %s' % (pid, e))
        return 3
    return report.finish(pid, level, r['violations'], r['coverage'], r.get('assumptions', []), r.get('undecided', []), t0)


if __name__ == '__main__':
    sys.exit(main())
