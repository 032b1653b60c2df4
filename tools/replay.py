#!/usr/bin/env python3
"""replay.py out/Cxx/violation.json: executes the violating sessions again on /repo's working tree and validates them.
Exit 1 if one of them still violates the property."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
v = json.load(open(sys.argv[1]))
out = os.path.join(check.VERIF, "out", "replay")
os.makedirs(out, exist_ok=True)
cls, driver = check.build()
_, trace, _ = check.drive(driver, [x["program"] for x in v["violations"]], out)
bad, _ = check.validate(cls, out, trace, v["property"])
ls = open(trace).read().splitlines()
for sid, pos, what in bad:
    print(f"session {sid} event {pos}: {what}\n  {v['violations'][sid - 1]['program']}\n  {json.dumps(json.loads(ls[sid - 1])['ev'][pos - 1])}")
sys.exit(1 if bad else 0)
