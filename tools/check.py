#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--space S --replay FILE]
Builds the property's harness with /repo's current working tree and runs it."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from registry import CHECKS

ASAN = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=77:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=8:symbolize=1"


def build_check(pid):
    c = CHECKS[pid]
    h = [B.VERIF + "/" + s for s in c["src"]]
    return B.build(pid, h, c["groups"], c.get("variant", "asan"), c.get("libs", ()),
                   extra=["-std=gnu++17"] + list(c.get("extra", ())))


def main():
    a = sys.argv[1:]
    pid = a[0]
    t0 = time.time()
    try:
        exe, fresh, total = build_check(pid)
    except SystemExit as e:
        print(e, file=sys.stderr)
        sys.exit(2)
    print("%s: built %s of %s objects in %.1f s" % (pid, fresh, total, time.time() - t0), flush=True)
    env = dict(os.environ)
    env["VERIF_DIR"] = B.VERIF
    env.setdefault("ASAN_OPTIONS", ASAN)
    env.setdefault("LC_ALL", "C")
    os.execve(exe, [exe] + a[1:], env)


if __name__ == "__main__":
    main()
