#!/usr/bin/env python3
"""run.py <property> : decide one property on /repo's current tree"""
import importlib
import os
import sys
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    try:
        m = importlib.import_module(pid)
        m.main()
    except SystemExit:
        raise
    except Exception as e:
        # no answer: nothing was shown to be violated, and the evidence says that nothing was decided
        traceback.print_exc()
        import report
        report.finish(pid, [], {'obligations': 1, 'discharged': 0, 'checker_cmd': 'python3 /verif/run.py ' + pid, 'trusted_base': []},
                      undecided=['%s: %s' % (type(e).__name__, str(e)[-1500:])])


main()
