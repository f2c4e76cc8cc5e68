#!/usr/bin/env python3
"""coverage.py [properties]: runs the quick checks with TLC's -coverage and lists the
actions of the specification that no behaviour took (by hand; slow)."""
import glob
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1:] or ["C%02d" % i for i in range(1, 16)]
taken = {}
for p in props:
    with tempfile.TemporaryDirectory() as d:
        code = subprocess.run([sys.executable, os.path.join(HERE, "bin", "check.py"), p], env=dict(os.environ, XDR_COVERAGE=d),
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        print(p, "exit", code, flush=True)
        for f in glob.glob(os.path.join(d, "*.txt")):
            module = os.path.basename(f).split("-")[0]
            for m in re.finditer(r"^<(\w+) line (\d+), col \d+ to line \d+, col \d+ of module (\w+)(?: \([^)]*\))?>: (\d+):(\d+)", open(f).read(), re.M):
                k = (module, m.group(3), m.group(1), int(m.group(2)))
                taken[k] = taken.get(k, 0) + int(m.group(5))
for k in sorted(taken):
    print("%-18s %-14s %-24s line %-4d %d%s" % (k + (taken[k], "" if taken[k] else "   NEVER TAKEN")))
