#!/usr/bin/env python3
"""Replays harness runs with concrete inputs on the real code of /repo (no instrumentation, no solver).

  replay.py FILE.json          exit 1 if the recorded violation reproduces, 0 if not
  replay.py --batch            one JSON request per input line, one JSON answer per output line
"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO]
for p in ("/opt/venv/lib/python3.12/site-packages",):
    if p not in sys.path and os.path.isdir(p):
        sys.path.append(p)

from engine import natctx, api  # noqa: E402

natctx.patch_environment()


def run(module, prop, cid, inputs):
    importlib.import_module(module)
    c = api.find(prop, cid)
    ctx = natctx.NatCtx(inputs)
    out = {"status": "ok"}
    try:
        c.fn(ctx, **c.params)
    except api.Stop:
        out["status"] = "stopped"
    except Exception as e:
        import traceback
        out["status"] = "exception"
        out["exception"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        tb = traceback.extract_tb(e.__traceback__)
        out["where"] = ["%s:%d" % (os.path.relpath(f.filename, REPO), f.lineno) for f in tb if "/tfchain/" in f.filename][-3:]
        ctx.failures.append("unexpected exception: %s" % type(e).__name__)
    out["failures"] = ctx.failures
    out["observed"] = ctx.observed
    out["checks"] = ctx.checks
    return out


def main():
    if sys.argv[1:] == ["--batch"]:
        real = os.dup(1)
        os.dup2(2, 1)
        sys.stdout = sys.stderr
        with os.fdopen(real, "w") as w:
            for line in sys.stdin:
                q = json.loads(line)
                try:
                    r = run(q["module"], q["property"], q["case"], q["inputs"])
                except BaseException as e:
                    r = {"status": "error", "error": repr(e)[:500], "failures": [], "observed": [], "checks": 0}
                w.write(json.dumps(r) + "\n")
                w.flush()
        return 0
    q = json.load(open(sys.argv[1]))
    r = run(q["module"], q["property"], q["case"], q["inputs"])
    print(json.dumps({"property": q["property"], "case": q["case"], "expected": q["label"], "result": r}, indent=1))
    return 1 if r["failures"] else 0


if __name__ == "__main__":
    sys.exit(main())
