#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import props  # noqa: E402
from harness import index  # noqa: E402

CMD = "PYTHONHASHSEED=0 TZ=UTC PYTHONDONTWRITEBYTECODE=1 python3-vt engine/run.py %s"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(p) + "\n")
checks = []
for p in props.PROPS:
    i = p["id"]
    if i in props.NOT_APPLICABLE:
        continue
    checks.append({
        "property": i, "quick_cmd": CMD % i, "thorough_cmd": CMD % i + " --thorough",
        "technique": "symbolic execution of the real Python code with z3 (path enumeration, assertions decided for all "
                     "values within the bounds, counterexamples replayed natively)",
        "level": "model_checking",
        "level_note": "Bounded exhaustive: every path of the real functions within the bounds is explored and every "
                      "assertion decided by z3. Bounds: " + index.BOUNDS[i] + ". Trusts the engine's model of Python "
                      "(sampled against native runs on every execution) and hash/signature injectivity.",
    })
m = {"version": 1, "setup_cmd": "PYTHONDONTWRITEBYTECODE=1 python3-vt engine/selftest.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in props.NOT_APPLICABLE.items()],
     "notes": "engine/ = symbolic execution engine; harness/ = the properties; see DESIGN.md. /repo carries no hooks."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
