"""Runs all operations, each in a process forked from this one: ops_process.py SCRATCH OUT.json"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import mc  # noqa
import c09  # noqa
import ops  # noqa

scratch, out = sys.argv[1:]
found = {}
for name in ops.OPS:
    def fn():
        mc._scratch = scratch
        os.makedirs(scratch, exist_ok=True)
        return ops.execute(name)["result"]
    found[name] = c09.in_child(fn)
with open(out, "w") as f:
    json.dump(found, f)
