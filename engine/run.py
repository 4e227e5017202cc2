#!/usr/bin/env python3
"""run.py PROPERTY [--thorough] [--budget S] [--case SUBSTR]: decides one property by symbolic execution."""
import argparse
import collections
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

sys.dont_write_bytecode = True
os.environ.setdefault("TZ", "UTC")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"
NATIVE_PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.path[:0] = [HERE]
if os.path.isdir(VENV_SITE):
    sys.path.append(VENV_SITE)
sys.setrecursionlimit(6000)

import z3  # noqa: E402
from engine import api, core, loader, runtime, stubs  # noqa: E402
from engine.core import E  # noqa: E402
from engine.symctx import SymCtx, norm  # noqa: E402

PATH_LIMIT_S = 120


def _alarm(*_):
    raise core.TimeUp()


def run_path(c, prefix, want_witness, limit):
    """One path of one case; returns a dict of its outcome."""
    E.begin(prefix)
    ctx = SymCtx()
    res = {"cand": [], "fallback": [], "witness": None, "status": "ok", "detail": "", "reached": []}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(1.0, limit))
    tracer = None
    try:
        try:
            c.fn(ctx, **c.params)
            E.ensure_model()
        except core.PathEnd:
            pass
        except core.PathAbort:
            res["status"] = "aborted"
        except core.Unsupported as e:
            res["status"] = "unsupported"
            res["detail"] = str(e) or "?"
        except z3.Z3Exception as e:
            res["status"] = "unsupported"
            res["detail"] = "z3: " + str(e)[:80]
        except RecursionError:
            res["status"] = "unsupported"
            res["detail"] = "recursion"
        except Exception as e:
            res["status"] = "exception"
            tb = traceback.extract_tb(e.__traceback__)
            where = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb][-4:]
            res["detail"] = "%s: %s @ %s" % (type(e).__name__, safe(e), " < ".join(reversed(where)))
            E.candidates.append(core.Candidate("unexpected exception: %s" % type(e).__name__, E.witness([]),
                                               res["detail"]))
        if res["status"] in ("ok",) and E.is_pinned:
            res["status"] = "pinned"
        if res["status"] in ("unsupported", "pinned"):
            try:
                res["fallback"].append(E.witness([]))
            except core.PathAbort:
                pass
        elif res["status"] == "ok" and want_witness and not E.candidates:
            obs = list(E.observed)
            try:
                w = E.witness([], lambda m: [(l, norm(v, m)) for l, v in obs])
                res["witness"] = w
            except core.Unsupported:
                pass
    except core.TimeUp:
        res["status"] = "timeout"
    except core.PathAbort:
        res["status"] = "aborted"
    except core.Unsupported as e:
        res["status"] = "unsupported"
        res["detail"] = str(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        E.end()
    res["cand"] = [(x.label, x.inputs, x.detail) for x in E.candidates]
    res["pending"] = E.pending
    res["reached"] = list(ctx.reached)
    res["checks"] = E.path_checks
    res["decisions"] = len(E.decisions)
    return res


def safe(e):
    try:
        return str(e)[:200]
    except BaseException:
        return "<symbolic message>"


COVER = set()


def _trace(frame, event, arg):
    if event == "call":
        co = frame.f_code
        if co.co_filename.startswith(REPO):
            COVER.add((co.co_filename, co.co_qualname))
    return None


CASES = {}


def work(task):
    """Explore from the given prefixes for a time slice."""
    cid, prefixes, slice_s, deadline, first = task
    c = CASES[cid]
    E.stats = core.Stats()
    E.notes = {}
    out = {"case": cid, "cands": [], "fallbacks": [], "witnesses": [], "status": collections.Counter(),
           "details": collections.Counter(), "reached": set(), "checks": 0, "decisions": 0}
    stack = list(prefixes)
    t0 = time.time()
    n = 0
    sys.setprofile(_trace if first else None)
    try:
        while stack and time.time() - t0 < slice_s and time.time() < deadline:
            p = stack.pop()
            r = run_path(c, p, n < 2 or random.random() < 0.1, min(PATH_LIMIT_S, deadline - time.time()))
            n += 1
            stack.extend(r["pending"])
            out["status"][r["status"]] += 1
            if r["detail"]:
                out["details"][r["detail"]] += 1
            out["cands"] += r["cand"]
            out["fallbacks"] += r["fallback"][:1] if len(out["fallbacks"]) < 20 else []
            if r["witness"] and len(out["witnesses"]) < 4:
                out["witnesses"].append(r["witness"])
            out["reached"] |= set(r["reached"])
            out["checks"] += r["checks"]
            out["decisions"] += r["decisions"]
            if r["cand"] and len(out["cands"]) > 40:
                break
    finally:
        sys.setprofile(None)
    out["pending"] = stack
    out["seconds"] = time.time() - t0
    out["stats"] = E.stats.dict()
    out["notes"] = dict(E.notes)
    out["cover"] = list(COVER)
    out["rss"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    return out


class Native:
    """The real code, in a separate plain Python process."""

    def __init__(self):
        self.p = None

    def ask(self, module, prop, cid, inputs):
        if self.p is None or self.p.poll() is not None:
            env = dict(os.environ, PYTHONHASHSEED="0", TZ="UTC", PYTHONDONTWRITEBYTECODE="1")
            self.p = subprocess.Popen([NATIVE_PY, os.path.join(HERE, "engine", "replay.py"), "--batch"],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                      text=True, env=env, cwd=HERE)
        try:
            self.p.stdin.write(json.dumps({"module": module, "property": prop, "case": cid, "inputs": inputs}) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            self.p = None
            return {"status": "error", "failures": [], "observed": [], "checks": 0, "error": "replay process died"}
        return json.loads(line)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()


def jsonable(x):
    return json.loads(json.dumps(x))


def load_known(prop):
    out = []
    path = os.path.join(HERE, "known_findings.json")
    if os.path.exists(path):
        for f in json.load(open(path)):
            if f["property"] == prop and f.get("status", "open") == "open":
                out.append(f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--first", action="store_true", help="stop exploring at the first counterexample (mutation sampling)")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    random.seed(seed)
    budget = a.budget or (800 if a.thorough else 240)
    stubs.install()
    loader.install({"tfchain": REPO, "harness": HERE})
    index = importlib.import_module("harness.index")
    importlib.import_module(index.MODULES[a.property])
    for c in api.CASES:
        if c.prop == a.property and (a.thorough or c.tier == "quick") and (not a.case or a.case in c.id):
            CASES[c.id] = c
    if not CASES:
        print("no cases for", a.property)
        return 2
    deadline = t0 + budget
    queue = collections.deque((cid, [[]], 1.5, deadline, True) for cid in CASES)
    res = {cid: {"status": collections.Counter(), "details": collections.Counter(), "cands": [], "fallbacks": [],
                 "witnesses": [], "reached": set(), "checks": 0, "decisions": 0, "left": 0, "inflight": 0, "seconds": 0.0}
           for cid in CASES}
    stats = core.Stats()
    notes = collections.Counter()
    cover = set()
    rss = 0
    mp.set_start_method("fork", force=True)
    inflight = 0
    stop = False
    with mp.Pool(a.jobs) as pool:
        done = []
        pend = []
        while queue or pend:
            while queue and len(pend) < a.jobs + 2:
                t = queue.popleft()
                res[t[0]]["inflight"] += 1
                pend.append((t, pool.apply_async(work, (t,))))
            time.sleep(0.005)
            nxt = []
            for t, h in pend:
                if not h.ready():
                    nxt.append((t, h))
                    continue
                o = h.get()
                r = res[o["case"]]
                r["inflight"] -= 1
                r["status"] += o["status"]
                r["seconds"] += o["seconds"]
                r["details"] += o["details"]
                r["cands"] += o["cands"]
                r["fallbacks"] += o["fallbacks"]
                r["witnesses"] += o["witnesses"]
                r["reached"] |= o["reached"]
                r["checks"] += o["checks"]
                r["decisions"] += o["decisions"]
                rss = max(rss, o["rss"])
                stats.add(o["stats"])
                notes.update(o["notes"])
                cover |= set(map(tuple, o["cover"]))
                left = o["pending"]
                if a.first and o["cands"]:
                    queue.clear()
                    deadline = 0
                if left:
                    if time.time() >= deadline or len(r["cands"]) > 60:
                        r["left"] += len(left)
                    else:
                        k = min(len(left), max(1, a.jobs))
                        for i in range(k):
                            queue.append((o["case"], left[i::k], 3.0, deadline, False))
            pend = nxt
            if time.time() > deadline + 30:
                for t, h in pend:
                    res[t[0]]["left"] += len(t[1])
                for t in queue:
                    res[t[0]]["left"] += len(t[1])
                pool.terminate()
                break
    explore_s = time.time() - t0

    # ---- everything the solver produced goes through the real code ------------------------------------------
    nat = Native()
    violations, irreproducible, validated, mismatched = [], [], 0, []
    concrete_runs = 0
    for cid, r in res.items():
        c = CASES[cid]
        seen = collections.Counter()
        for label, inputs, detail in r["cands"]:
            if seen[label] >= 4 or any(v[0] == cid and v[1] == label for v in violations):
                continue
            seen[label] += 1
            o = nat.ask(c.module, a.property, cid, jsonable(inputs))
            concrete_runs += 1
            if o["failures"]:
                violations.append((cid, o["failures"][0], inputs, o))
                if o["failures"][0] != label and label in o["failures"]:
                    violations[-1] = (cid, label, inputs, o)
            else:
                irreproducible.append((cid, label, detail, o.get("status"), jsonable(inputs)))
        for inputs in r["fallbacks"][:40]:
            o = nat.ask(c.module, a.property, cid, jsonable(inputs))
            concrete_runs += 1
            if o["failures"] and not any(v[0] == cid and v[1] == o["failures"][0] for v in violations):
                violations.append((cid, o["failures"][0], inputs, o))
        for inputs, exact, observed in r["witnesses"][:6 if not a.thorough else 20]:
            if not exact:
                continue
            o = nat.ask(c.module, a.property, cid, jsonable(inputs))
            concrete_runs += 1
            if o["failures"]:
                if not any(v[0] == cid and v[1] == o["failures"][0] for v in violations):
                    violations.append((cid, o["failures"][0], inputs, o))
                    mismatched.append((cid, "check failed natively only", jsonable(inputs), o))
                continue
            if o["status"] == "stopped" and o["checks"] == 0:
                mismatched.append((cid, "native run stopped", jsonable(inputs), o))
            elif jsonable(o["observed"]) != jsonable([list(x) for x in observed]):
                mismatched.append((cid, "observations differ", jsonable(inputs),
                                   {"native": o["observed"], "symbolic": jsonable(observed)}))
            else:
                validated += 1
    nat.close()

    known = load_known(a.property)
    lines, rc = [], 0
    outdir = os.path.join(HERE, "out")
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        if f.startswith(a.property + "-"):
            os.remove(os.path.join(outdir, f))
    reported = []
    for k, (cid, label, inputs, o) in enumerate(violations):
        path = os.path.join(outdir, "%s-%d.json" % (a.property, k))
        with open(path, "w") as f:
            json.dump({"property": a.property, "module": CASES[cid].module, "case": cid, "label": label,
                       "inputs": jsonable(inputs), "native": o,
                       "replay_cmd": "%s %s/engine/replay.py %s" % (NATIVE_PY, HERE, path)}, f, indent=1)
        kn = [f for f in known if f["case"] == cid and f["label"] == label]
        if kn:
            lines.append("KNOWN-FINDING: property=%s %s" % (a.property, kn[0]["what"]))
            continue
        rc = 1
        reported.append({"case": cid, "label": label, "replay": path})
        lines.append("VIOLATION property=%s replay=%s  [%s: %s]" % (a.property, path, cid, label))

    # ---- vacuity and completeness ---------------------------------------------------------------------------
    per_case = {}
    undecided = []
    for cid, r in res.items():
        st = dict(r["status"])
        exhaustive = r["left"] == 0 and not any(st.get(k) for k in ("unsupported", "pinned", "timeout")) \
            and not any(x[0] == cid for x in irreproducible)
        per_case[cid] = {"paths": sum(r["status"].values()), "status": st, "assertions": r["checks"],
                         "unexplored_prefixes": r["left"], "exhaustive_within_bounds": exhaustive,
                         "cpu_seconds": round(r["seconds"], 2), "asserted": sorted(r["reached"])[:60]}
        if r["details"]:
            per_case[cid]["details"] = dict(r["details"].most_common(5))
        if not r["checks"]:
            undecided.append(cid)
    complete = sum(1 for v in per_case.values() if v["exhaustive_within_bounds"])
    inconclusive = [k for k, v in per_case.items() if not v["exhaustive_within_bounds"]]
    if rc == 0 and len(undecided) == len(CASES):
        rc = 2
        lines.append("ERROR property=%s: no path reached an assertion" % a.property)
    stats.concrete_runs = concrete_runs
    funcs = sorted("%s:%s" % (os.path.relpath(f, REPO), q) for f, q in cover
                   if "<" not in q.split(".")[-1] or "lambda" in q)
    spec = getattr(index, "BOUNDS", {}).get(a.property, "")
    bounds = spec if isinstance(spec, str) else "; ".join(spec)
    samples = []
    for cid, r in res.items():
        for w in r["witnesses"][:2]:
            if len(samples) < 12:
                samples.append({"case": cid, "path_inputs": jsonable(w[0]), "observed": jsonable(w[2])})
        for f in r["fallbacks"][:1]:
            if len(samples) < 12:
                samples.append({"case": cid, "concrete_fallback_inputs": jsonable(f)})
    if not samples:
        samples = [{"case": cid, "path_inputs": {}} for cid in list(res)[:3]]
    evidence = {
        "property": a.property, "tier": "thorough" if a.thorough else "quick", "seed": seed, "level": "model_checking",
        "coverage": {
            "states": stats.paths, "transitions": stats.branches,
            "traces_validated_against_impl": validated, "samples": samples,
            "explanation": "states = execution paths of the real code explored symbolically; transitions = symbolic "
                           "branch decisions taken on them; each assertion is decided by the solver for all values of "
                           "its path; traces_validated = solver models replayed on the uninstrumented code with equal "
                           "observations",
            "branches_with_both_sides_feasible": stats.forks,
            "assertions": stats.checks, "assertions_proved_by_query": stats.proved,
            "assertions_folded_to_true": stats.trivial,
            "solver_queries": stats.queries, "queries_sat": stats.sat, "queries_unsat": stats.unsat,
            "queries_unknown": stats.unknown, "solver_seconds": round(stats.solver_s, 2),
            "native_runs": concrete_runs, "cases": len(CASES), "cases_exhaustive_within_bounds": complete,
            "exhaustive": complete == len(CASES),
            "functions_encoded": funcs, "bounds": bounds, "per_case": per_case,
            "inconclusive_cases": inconclusive, "cases_without_assertion": undecided,
            "irreproducible_candidates": [list(map(str, x[:4])) for x in irreproducible[:10]],
            "encoding_mismatches": [[x[0], x[1]] for x in mismatched[:10]],
            "engine_notes": dict(notes.most_common(20)), "reported": reported,
            "explore_seconds": round(explore_s, 1), "max_rss_mb": rss // 1024,
            "solver": "z3 " + z3.get_version_string(),
        },
        "assumptions": list(getattr(index, "ASSUMPTIONS", [])) + list(getattr(index, "EXTRA_ASSUMPTIONS", {}).get(a.property, [])),
        "wall_s": round(time.time() - t0, 1), "violations": len(reported),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for cid in inconclusive:
        v = per_case[cid]
        lines.append("inconclusive: %s %s left=%d %s" % (cid, v["status"], v["unexplored_prefixes"],
                                                        v.get("details", "")))
    for x in irreproducible[:6]:
        lines.append("irreproducible: %s %s | %s | native %s" % x[:4])
        if a.v:
            lines.append("   " + json.dumps(x[4])[:600])
    for x in mismatched[:6]:
        lines.append("mismatch: %s %s" % x[:2])
        if a.v:
            lines.append("   " + json.dumps(x[2])[:400] + "\n   " + json.dumps(x[3])[:1200])
    lines.append("%s: %d cases (%d exhaustive), %d paths, %d assertions (%d proved by solver), %d queries, solver %.1fs, "
                 "validated %d, wall %.1fs -> exit %d" % (
                     a.property, len(CASES), complete, stats.paths, stats.checks, stats.proved, stats.queries,
                     stats.solver_s, validated, time.time() - t0, rc))
    print("\n".join(lines))
    if a.v:
        for cid, v in per_case.items():
            print("  ", cid, v["paths"], v["status"], v["assertions"], v["cpu_seconds"])
        print("  notes", dict(notes))
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
