#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Every recorded call of the generated sessions (seeded, plus the behaviours that TLC enumerates) was accepted by the TLA+ "
        "specification in exact rational arithmetic; inputs not generated are not decided. Trusts the driver's recording, TLC and the "
        "Java arithmetic, and a rounding tolerance of 1e-9 relative to the largest coordinate.")
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[dict(
    property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']} --tier quick", thorough_cmd=f"python3 tools/check.py {p['id']} --tier thorough",
    evidence_file=f"evidence/{p['id']}.json", technique="TLA+ specification model-checked with TLC; TLC validates recorded executions of the real code against it",
    level="model_checking", level_note=NOTE) for p in props], not_applicable=[],
    notes="No hooks in /repo: the public API exposes the abstract state. known-findings.txt lists the repaired defects.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
