#!/usr/bin/env python3
"""Helper to write a planted bug: mkbug.bug(id, property, [(file, old, new)...], needs, breaks, demo_files)."""
import json, os, subprocess
W = "/tmp/sb/repo"; OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
def bug(id, prop, edits, needs, breaks, files, regen=True):
    if not os.path.isdir(W): subprocess.check_call(["git", "clone", "-q", "/repo", W])
    subprocess.check_call("git -C %s fetch -q origin && git -C %s reset -q --hard origin/HEAD && git -C %s clean -qfd" % (W, W, W), shell=True)
    for f, old, new in edits:
        p = os.path.join(W, f); s = open(p).read(); assert s.count(old) == 1, (id, f, s.count(old), old); open(p, "w").write(s.replace(old, new))
    d = os.path.join(OUT, id); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", W, "diff"]))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for n, t in files.items(): open(os.path.join(d, n), "w").write(t); os.chmod(os.path.join(d, n), 0o755)
CPP = '''#!/bin/bash
# Builds demo.cpp against /repo and runs it in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"; d=$(mktemp -d); trap 'rm -rf "$d"' EXIT; cd "$d"
g++ -std=c++17 -O2 -w -DVDF_MODE=0 -DFAST_MACHINE=1 -DCHIAVDF_VERSION='"dev"' %s -I/repo/src "$here/demo.cpp" -x c /repo/src/refcode/lzcnt.c -x none -o demo -lgmpxx -lgmp -lpthread || exit 2
timeout 250 ./demo
'''
ASM = '''#!/bin/bash
# Builds demo.cpp with the assembly kernels against /repo and runs it in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"; d=$(mktemp -d); trap 'rm -rf "$d"' EXIT; cd "$d"; set -e
F="-std=c++17 -w -no-pie -DVDF_MODE=0 -DFAST_MACHINE=1 -DCHIAVDF_VERSION=\\"dev\\" -I/repo/src"
g++ $F -O1 /repo/src/compile_asm.cpp -o compile_asm -lgmpxx -lgmp -lpthread
for v in "" avx2 avx512; do ./compile_asm $v >/dev/null; done
for i in asm avx2_asm avx512_asm; do gcc -c ${i}_compiled.s -o ${i}_compiled.o; done
gcc -O2 -c /repo/src/refcode/lzcnt.c -o lzcnt.o
g++ $F -O2 %s "$here/demo.cpp" *_compiled.o lzcnt.o -o demo -lgmpxx -lgmp -lpthread
set +e
timeout 200 ./demo
'''
PY = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/_build/pkg timeout 280 /opt/vp/venv/bin/python "$here/demo.py"
'''
HDR = '''#include <cfenv>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <stdexcept>
#include <string>
#include <vector>
'''
