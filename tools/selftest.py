#!/usr/bin/env python3
"""setup_cmd: every specification parses; the tools the checks need are there."""
import glob
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vlib  # noqa: E402

bad = 0
for f in sorted(glob.glob(V + "/spec/*.tla")):
    p = subprocess.run(["java", "-cp", vlib.JARS, "tla2sany.SANY", os.path.basename(f)], cwd=V + "/spec",
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = p.stdout.decode()
    if p.returncode != 0 or "*** Errors" in o or "Fatal" in o:
        print(f, o)
        bad = 1
os.makedirs(V + "/evidence/replays", exist_ok=True)
os.makedirs(V + "/build", exist_ok=True)
print("setup:", "failed" if bad else "ok")
sys.exit(bad)
