#!/usr/bin/env python3
"""replay.py FILE: run the case of a replay file again, exactly."""
import importlib
import json
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import common, procs, search  # noqa: E402

with open(sys.argv[1]) as f:
    r = json.load(f)
M = importlib.import_module("sim.p" + r["property"][1:])
scratch = tempfile.mkdtemp(prefix="replay_")
try:
    search.prime(scratch)
    R = procs.Runner(scratch, "r")
    R.tier = "quick"
    d = M.judge(r["case"], R, common.Stats())
    R.close()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
if d is None:
    print("no violation")
    sys.exit(0)
print(json.dumps(d, indent=1))
print("same as recorded:", d == r["detail"])
print("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(sys.argv[1])))
sys.exit(1)
