"""Mutation sampling: which small changes of /repo that the tests accept do the checks miss?
mutate.py OUT.jsonl SEED COUNT [file-substring]   (works on scratch copies of /repo and /verif; nothing is kept there)"""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4] if len(sys.argv) > 4 else ""
JOBS, CAP = os.environ.get("MUT_JOBS", "4"), int(os.environ.get("MUT_CAP", "9"))
rnd = random.Random(seed)
BASE = tempfile.mkdtemp(prefix="mutate.")
R, W = BASE + "/repo", BASE + "/verif"
shutil.copytree("/repo", R, symlinks=True, ignore=shutil.ignore_patterns(".git"))
shutil.copytree(V, W, ignore=shutil.ignore_patterns(".git", "seeded", "out"))
ENV = dict(os.environ, VP_REPO=R, PYTHONHASHSEED="0", TZ="UTC", PYTHONDONTWRITEBYTECODE="1")
COVER, COST = {}, {}
for f in glob.glob(V + "/evidence/*.json"):
    d = json.load(open(f))
    COST[d["property"]] = d["wall_s"] if d["tier"] == "quick" else 40
    fs = d["coverage"]["functions_encoded"]
    for x in fs:
        COVER.setdefault(x.replace(".<locals>", ""), []).append((len(fs), d["property"]))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, t=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def tests():
    sh("PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 /opt/venv/bin/python -m pytest tests -q -x -p no:cacheprovider -p pytest_timeout --timeout=60 "
       "--continue-on-collection-errors --ignore=tests/test_explorer_client.py -o junit_family=xunit2 --junitxml=%s/junit.xml" % BASE, R)
    sh("/usr/bin/python3 /opt/vp/results.py %s/t.json junit:%s/junit.xml" % (BASE, BASE), R)
    return not STABLE - set(json.load(open(BASE + "/t.json"))["passed"])


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}


def mutants(src):
    """[(function, node, replacement text, kind)]"""
    tree = ast.parse(src)
    res = []

    def seg(n):
        return ast.get_source_segment(src, n)

    def walk(n, fn, inraise):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + n.name
        if isinstance(n, ast.Raise):
            if fn:
                res.append((fn, n, "pass", "no-raise"))
            return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                res.append((fn, n, seg(n.left) + " " + CMP[type(n.ops[0])] + " " + seg(n.comparators[0]), "cmp"))
            if isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                res.append((fn, n, "(" + op.join("(" + seg(v) + ")" for v in n.values) + ")", "bool"))
                k = rnd.randrange(len(n.values))
                res.append((fn, n, "(" + (" and " if op == " or " else " or ").join("(" + seg(v) + ")" for i, v in enumerate(n.values) if i != k) + ")", "drop-operand"))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                res.append((fn, n, "(" + seg(n.operand) + ")", "not"))
            if isinstance(n, ast.Constant) and type(n.value) is int:
                res.append((fn, n, str(n.value + 1), "const+1"))
                if n.value:
                    res.append((fn, n, str(n.value - 1), "const-1"))
            if isinstance(n, ast.Constant) and type(n.value) is bool:
                res.append((fn, n, str(not n.value), "flip"))
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.right, ast.Constant):
                res.append((fn, n, seg(n.left) + (" - " if isinstance(n.op, ast.Add) else " + ") + seg(n.right), "arith"))
            if isinstance(n, ast.If):
                res.append((fn, n.test, "True", "if-true"))
                res.append((fn, n.test, "False", "if-false"))
            if isinstance(n, (ast.Continue, ast.Break)):
                res.append((fn, n, "pass", "no-jump"))
            if isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                res.append((fn, n, "pass", "no-stmt"))
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant)):
                res.append((fn, n, "return None", "return-none"))
            if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not (isinstance(n.func, ast.Name) and n.func.id == "isinstance"):
                a, b = n.args[:2]
                res.append((fn, (a, b), None, "swap-args"))
        for c in ast.iter_child_nodes(n):
            walk(c, fn, inraise)
    walk(tree, "", False)
    return res


def pos(src, lines, line, col):
    return sum(len(x) for x in lines[:line - 1]) + len(lines[line - 1].encode()[:col].decode())


def apply(src, node, text):
    lines = src.splitlines(True)
    if isinstance(node, tuple):
        a, b = node
        pa, qa = pos(src, lines, a.lineno, a.col_offset), pos(src, lines, a.end_lineno, a.end_col_offset)
        pb, qb = pos(src, lines, b.lineno, b.col_offset), pos(src, lines, b.end_lineno, b.end_col_offset)
        return src[:pa] + src[pb:qb] + src[qa:pb] + src[pa:qa] + src[qb:]
    p, q = pos(src, lines, node.lineno, node.col_offset), pos(src, lines, node.end_lineno, node.end_col_offset)
    return src[:p] + text + src[q:]


pool = []
for f in sorted(glob.glob(R + "/tfchain/**/*.py", recursive=True)):
    rel = os.path.relpath(f, R)
    if only and only not in rel:
        continue
    src = open(f).read()
    for m in mutants(src):
        pool.append((rel, src) + m)
rnd.shuffle(pool)
print(len(pool), "mutants", flush=True)
done = 0
log = open(out, "a")
for rel, src, fn, node, text, kind in pool:
    if done >= count:
        break
    new = apply(src, node, text)
    if new == src:
        continue
    try:
        compile(new, rel, "exec")
    except SyntaxError:
        continue
    line = (node[0] if isinstance(node, tuple) else node).lineno
    key = rel + ":" + fn
    props = sorted({p for k, v in COVER.items() if k == key or k.startswith(key + ".") for p in v})
    rec = {"file": rel, "fn": fn, "line": line, "kind": kind, "old": src.splitlines()[line - 1].strip(),
           "new": new.splitlines()[line - 1].strip()}
    open(os.path.join(R, rel), "w").write(new)
    try:
        if not tests():
            rec["status"] = "tests"
        elif not props:
            rec["status"] = "uncovered"
        else:
            rec["status"] = "survived"
            rec["tried"] = []
            props = [p for _, p in props][:CAP]
            t0 = time.time()
            for p in sorted(props, key=lambda p: COST[p] > 30):
                rc, o = sh("timeout 400 python3-vt engine/run.py %s --first --jobs %s" % (p, JOBS), W)
                rec["tried"].append((p, rc))
                if rc == 1 and "VIOLATION property=%s " % p in o:
                    rec["status"] = "caught"
                    rec["by"] = p
                    break
                if rc not in (0, 1) or (rc == 1):
                    rec["odd"] = o[-300:]
            rec["s"] = round(time.time() - t0)
    finally:
        open(os.path.join(R, rel), "w").write(src)
    if rec["status"] != "tests":
        done += 1
    log.write(json.dumps(rec) + "\n")
    log.flush()
shutil.rmtree(BASE, True)
