#!/usr/bin/env python3
"""python3 check.py <property>: decide one property on /repo's working tree.

exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check itself could not run.
VERIF_SEED selects the generated part of the workload, VERIF_TIER=thorough deepens it."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from vflib import HarnessError
import props


def setup():
    """nothing is kept between runs: only see that the tools are there"""
    import shutil
    missing = [t for t in ("g++", "clang++", "valgrind") if not shutil.which(t)]
    if missing: print("missing: " + " ".join(missing))
    return 1 if missing else 0


def main():
    if sys.argv[1:] == ["--setup"]: return setup()
    if len(sys.argv) != 2 or sys.argv[1] not in props.CHECKS:
        print("usage: check.py <%s>" % "|".join(sorted(props.CHECKS)))
        return 2
    try:
        return props.CHECKS[sys.argv[1]]()
    except HarnessError as e:
        print("HARNESS-ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
