#!/usr/bin/env python3
"""kf.py <property> <commit-subject-fragment> <what failed>: record a repaired defect."""
import subprocess, sys
p, k, w = sys.argv[1:4]
log = subprocess.run("git -C /repo log --oneline --reverse".split(), capture_output=True, text=True).stdout.splitlines()
h = [l.split()[0] for l in log if k in l]
assert len(h) == 1, h
f = "/verif/known_findings.txt"
s = open(f).read().rstrip("\n")
open(f, "w").write(s + f"\nfixed: property={p} {h[0]} {w}\n")
