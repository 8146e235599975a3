#!/usr/bin/env python3
"""Entry point of every check:  run.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--jobs N]
                                 run.py --replay FILE
                                 run.py --selftest        (determinism of the simulator itself)

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: the harness failed.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

boot.reexec()

import harness  # noqa: E402

if __name__ == "__main__":
    sys.exit(harness.main(sys.argv[1:]))
