#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo's current working tree: extracts the functions,
joins them with their contracts, has Verus discharge every obligation, and
searches for a concrete failing input on the real code (see DESIGN.md).
exit 0: holds; exit 1 and a VIOLATION line: broken."""
import json, os, sys, time, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'vf'))
import driver

if __name__ == '__main__':
    sys.exit(driver.main(sys.argv[1:]))
