"""Create or verify planted bugs.  plant.py FILE.py  reads PLANTS = [dict(id, property, file, old, new, demo, needs, breaks)]
and, for each: patches a scratch copy of /repo, runs the tests, the demo and the property's check there, and writes
/verif/seeded/<id>. plant.py --check [ids]  re-runs the check of kept bugs."""
import atexit, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = tempfile.mkdtemp(prefix="plant.") + "/repo"
shutil.copytree("/repo", R, symlinks=True)
atexit.register(shutil.rmtree, os.path.dirname(R), True)
ENV = dict(os.environ, VP_REPO=R, PYTHONHASHSEED="0", TZ="UTC", PYTHONDONTWRITEBYTECODE="1")


def sh(cmd, cwd=R, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


def clean():
    assert sh("git status --porcelain")[1].strip() == "", "dirty /repo"


def undo():
    sh("git checkout -- .")


def tests():
    x = os.path.dirname(R)
    sh("PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -p pytest_timeout --timeout=300 "
       "--continue-on-collection-errors --ignore=tests/test_explorer_client.py -o junit_family=xunit2 --junitxml=%s/junit.xml" % x)
    sh("/usr/bin/python3 /opt/vp/results.py %s/t.json junit:%s/junit.xml" % (x, x))
    got = json.load(open(x + "/t.json"))
    miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(got["passed"])
    return not miss or sorted(miss)


def check(prop):
    rc, out = sh("timeout 900 python3-vt engine/run.py %s" % prop, V)
    hit = [l for l in out.splitlines() if "VIOLATION property=%s " % prop in l]
    return rc == 1 and bool(hit), rc, [h[-110:] for h in hit[:2]]


def demo(d):
    return sh("bash %s/demo.sh" % d, R, 300)


def main():
    if sys.argv[1] == "--check":
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        for i in ids:
            d = V + "/seeded/" + i
            m = json.load(open(d + "/meta.json"))
            clean()
            rc, out = sh("git apply %s/patch.diff" % d)
            if rc:
                print(i, "DOES NOT APPLY", out[:200])
                continue
            try:
                print(i, m["property"], "caught" if check(m["property"])[0] else "MISSED", flush=True)
            finally:
                undo()
        return
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for p in ns["PLANTS"]:
        if only and p["id"] not in only:
            continue
        clean()
        d = V + "/seeded/" + p["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(p["demo"].lstrip("\n"))
        if "demolib" in p["demo"]:
            shutil.copy(V + "/tools/demolib.py", d + "/demolib.py")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TZ=UTC\n'
                                        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc0, o0 = demo(d)
        try:
            edits = p["edits"] if "edits" in p else [(p["file"], p["old"], p["new"])]
            for f, old, new in edits:
                s = open(R + "/" + f).read()
                assert s.count(old) == 1, (p["id"], f, s.count(old), old)
                open(R + "/" + f, "w").write(s.replace(old, new))
            diff = sh("git diff")[1]
            open(d + "/patch.diff", "w").write(diff)
            rc1, o1 = demo(d)
            t = tests()
            c = check(p["property"])
        finally:
            undo()
        good = rc0 == 0 and rc1 != 0 and t is True
        print(p["id"], p["property"], "OK" if good else "BAD demo0=%s demo1=%s tests=%s\n%s\n%s" % (rc0, rc1, str(t)[:600], o0[-400:], o1[-400:]),
              "caught" if c[0] else "MISSED rc=%s" % c[1], *c[2], flush=True)


main()
