"""Runs the repository's own test functions through the instrumented loader (concrete values): validates the
translator.  Prints one line per failing test; exit status 0 when none fails."""
import glob
import importlib
import inspect
import os
import sys
import traceback

sys.dont_write_bytecode = True
os.environ.setdefault("TZ", "UTC")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path[:0] = [HERE, REPO + "/tests"]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.setrecursionlimit(6000)
from engine import loader, stubs  # noqa: E402

stubs.install()
loader.install({"tfchain": REPO, "tests": REPO, "stubs": REPO + "/tests"})
ok = bad = 0
for f in sorted(p for p in glob.glob(REPO + "/tests/**/test_*.py", recursive=True) if "test_explorer_client" not in p):
    name = os.path.relpath(f, REPO)[:-3].replace("/", ".")
    try:
        m = importlib.import_module(name)
    except Exception as e:
        print("IMPORT", name, repr(e))
        if "-v" in sys.argv:
            traceback.print_exc()
        bad += 1
        continue
    for n, fn in sorted(vars(m).items()):
        if n.startswith("test") and inspect.isfunction(fn) and fn.__module__ == name and not inspect.signature(fn).parameters:
            try:
                fn()
                ok += 1
            except Exception as e:
                bad += 1
                print("FAIL", name, n, repr(e)[:200])
                if "-v" in sys.argv:
                    traceback.print_exc()
import json  # noqa: E402
import subprocess  # noqa: E402

# Python idioms on symbolic values: every one has to be modelled exactly
p = subprocess.run([sys.executable, os.path.join(HERE, "engine", "run.py"), "IDIOMS"], stdout=subprocess.PIPE, text=True)
ev = os.path.join(HERE, "evidence", "IDIOMS.json")
c = json.load(open(ev))["coverage"]
os.remove(ev)
print(p.stdout.strip().splitlines()[-1])
if p.returncode or c["inconclusive_cases"] or c["irreproducible_candidates"] or c["encoding_mismatches"]:
    bad += 1
    print("FAIL idioms", c["inconclusive_cases"], c["irreproducible_candidates"], c["encoding_mismatches"])
print("engine self-test: %d repository tests pass under the instrumented loader, %d fail" % (ok, bad))
sys.exit(1 if bad else 0)
