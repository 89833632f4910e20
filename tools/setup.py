#!/usr/bin/env python3
"""setup_cmd: compiles every harness once, so that checks find warm objects."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from registry import CHECKS
for p in CHECKS:
    t = time.time()
    try:
        _, f, n = check.build_check(p)
        print("%s: %d of %d objects compiled, %.1f s" % (p, f, n, time.time() - t), flush=True)
    except SystemExit as e:
        print("%s: %s" % (p, e))
