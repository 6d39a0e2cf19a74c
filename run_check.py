#!/usr/bin/env python3
"""Run the check of one property:  run_check.py ID [--tier quick|thorough]

Exit 0: every obligation was discharged and the concrete cross-check found
nothing.  Exit 1: a VIOLATION line was printed.
"""
import sys

sys.path.insert(0, __file__.rsplit('/', 1)[0] if '/' in __file__ else '.')
from pv import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
