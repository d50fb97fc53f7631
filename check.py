#!/usr/bin/env python3
"""Property-based checks for pylogit.

  check.py <PID> [quick|thorough]     decide one property, write evidence/<PID>.json
  check.py --replay <file.json>       re-run one saved failing case (exit 1 if it still fails)

Exit 0: held on everything explored.  Exit 1: "VIOLATION property=<id> replay=<path>".
Exit 2: the check itself could not run (harness error); never a verdict.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vp import driver  # noqa: E402

if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:], HERE))
