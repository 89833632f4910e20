#!/usr/bin/env python3
"""newseed.py <id> <property> <needs> <what>  : takes the diff of /repo's working tree as a planted bug and
reads demo.cpp from stdin, then restores /repo. Groups of libraries to link: env LIBS (default conduit)."""
import json, os, subprocess, sys
id, prop, needs, what = sys.argv[1:5]
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
assert diff
open(d + "/patch.diff", "wb").write(diff)
open(d + "/demo.cpp", "w").write(sys.stdin.read())
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
libs = os.environ.get("LIBS", "conduit").split()
mpi = any("mpi" in l for l in libs)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds demo.cpp against the libraries of /repo's build and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
R=$(pwd); B=$R/_build; S=$R/src
t=$(mktemp -d) || exit 99; trap 'rm -rf "$t"' EXIT
inc=""
for d in conduit conduit/c relay relay/c blueprint blueprint/c; do inc="$inc -I$S/libs/$d -I$B/libs/$d"; done
/usr/bin/%s -std=c++14 -O0 -w $inc "$here/demo.cpp" -o "$t/demo" -L$B/lib %s -Wl,-rpath,$B/lib || exit 98
cd "$t" && %stimeout 120 ./demo
''' % ("mpicxx" if mpi else "g++", " ".join("-l" + l for l in libs), ("OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 mpirun --oversubscribe -np %s " % os.environ.get("NP", "2")) if mpi else ""))
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
print("seeded", id)
