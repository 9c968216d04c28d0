"""runs replay/<pid>.py: concrete inputs against the real code, in a scratch directory"""
import json
import os
import sys
import tempfile
import time
import env

pid, tier, seed, budget, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
import importlib
from replay import lib

scratch = tempfile.TemporaryDirectory(prefix="vreplay")
os.chdir(scratch.name)
m = importlib.import_module("replay." + pid.lower())
R = lib.Recorder(pid, tier, seed, time.time() + budget)
try:
    m.run(R)
finally:
    os.chdir("/")
    scratch.cleanup()
json.dump({"found": R.found, "stats": R.stats()}, open(out, "w"), indent=1, default=str)
