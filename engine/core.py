"""Path-exploring symbolic execution core.

The code under test runs natively in CPython on proxy values (values.py); every truth test of a symbolic
condition lands in Engine.branch(), which asks z3 which outcomes are feasible under the path condition and
explores all of them by re-execution.  Every assertion lands in Engine.check(), which asks z3 for a
counterexample over *all* values of the path.
"""
import time
import z3


class Steer(BaseException):
    """Control-flow exceptions of the engine; never caught by the code under test (not Exception)."""


class PathAbort(Steer):
    """The path condition became false (an assumption failed)."""


class PathEnd(Steer):
    """The harness ended this path on purpose."""


class Unsupported(Steer):
    """The engine cannot represent what the code does here."""


class TimeUp(Steer):
    pass


class Candidate:
    def __init__(self, label, inputs, detail=""):
        self.label, self.inputs, self.detail = label, inputs, detail


class Stats:
    FIELDS = ("paths", "ok", "aborted", "pinned", "unsupported", "branches", "forks", "queries", "sat", "unsat",
              "unknown", "checks", "proved", "trivial", "solver_s", "concrete_runs")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + (o[f] if isinstance(o, dict) else getattr(o, f)))

    def dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    QUERY_TIMEOUT_MS = 30000

    def __init__(self):
        self.active = False
        self.stats = Stats()
        self.notes = {}
        self.env = {}
        self.digests = {}
        self.calls = set()

    # ---- path life cycle -------------------------------------------------------------------
    def begin(self, prefix):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", self.QUERY_TIMEOUT_MS)
        self.solver.set("random_seed", 1)
        self.prefix = prefix
        self.decisions = []
        self.pending = []
        self.model = None
        self.fresh_n = 0
        self.memo = {}
        self.keep = []
        self.cache = {}
        self.inputs = []          # (name, kind, value)
        self.input_names = set()
        self.observed = []
        self.candidates = []
        self.hash_order = []      # [(function, input bytes, output bytes)] in order of first use
        self.digests = {}         # first byte of a symbolic digest -> values.Digest
        self.hash_keys = {}
        self.hashes = {}          # uninterpreted hash functions: name -> [(input bytes, output bytes)]
        self.is_pinned = False
        self.path_checks = 0
        self.active = True
        self.env = {}
        self.stats.paths += 1

    def end(self):
        self.active = False

    # ---- solving ---------------------------------------------------------------------------
    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathAbort()
            else:
                self.note("solver returned unknown on a path condition")
                raise Unsupported("unknown path condition")
        return self.model

    def holds_in_model(self, e):
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def add(self, e):
        """Add a constraint to the path condition (keeps the model when it still satisfies it)."""
        if e is True or z3.is_true(e):
            return
        if e is False or z3.is_false(e):
            raise PathAbort()
        self.solver.add(e)
        if self.model is not None and self.holds_in_model(e) is not True:
            self.model = None

    def assume(self, e):
        self.add(e)
        if len(self.decisions) >= len(self.prefix):
            self.ensure_model()

    def branch(self, e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        hit = self.cache.get(key)
        if hit is not None:
            return hit
        neg = z3.Not(e)
        n = len(self.decisions)
        if n < len(self.prefix):
            v, forced = self.prefix[n]
            self.decisions.append((v, forced))
            if not forced:
                self.solver.add(e if v else neg)
                self.model = None
            self._remember(e, neg, v)
            return v
        self.stats.branches += 1
        self.ensure_model()
        v = self.holds_in_model(e)
        if v is None:
            raise Unsupported("model does not decide a branch condition")
        other = neg if v else e
        r = self._check(other)
        forced = False
        if r == z3.sat:
            self.stats.forks += 1
            self.pending.append(self.decisions + [(not v, False)])
        elif r == z3.unsat:
            forced = True
        else:
            self.note("solver unknown: one side of a branch was not explored")
        self.decisions.append((v, forced))
        if not forced:
            self.solver.add(e if v else neg)
        self._remember(e, neg, v)
        return v

    def _remember(self, e, neg, v):
        self.keep.append(e)
        self.cache[e.get_id()] = v

    def is_feasible(self, e):
        r = self._check(e)
        return r != z3.unsat

    def must(self, e):
        """True iff e holds on every value of this path (solver-proved)."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.model is not None and self.holds_in_model(e) is not True:
            return False
        return self._check(z3.Not(e)) == z3.unsat

    def check(self, cond, label, detail=""):
        """The property: cond must hold for every value on this path."""
        self.path_checks += 1
        if cond is True:
            self.stats.checks += 1
            self.stats.trivial += 1
            return
        if cond is False:
            self.stats.checks += 1
            self.candidates.append(Candidate(label, self.witness([]), detail))
            raise PathEnd()
        self.stats.checks += 1
        neg = z3.Not(cond)
        r = self._check(neg)
        if r == z3.unsat:
            self.stats.proved += 1
            return
        if r == z3.sat:
            self.candidates.append(Candidate(label, self.witness([neg]), detail))
            self.add(cond)
            r = self._check()
            if r != z3.sat:
                raise PathEnd()
            self.model = self.solver.model()
            return
        self.note("solver unknown on assertion: %s" % label)
        raise Unsupported("unknown assertion " + label)

    # ---- values ----------------------------------------------------------------------------
    def fresh_int(self, name, lo=None, hi=None):
        self.fresh_n += 1
        v = z3.Int("%s!%d" % (name, self.fresh_n))
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return v

    def fresh_bool(self, name):
        self.fresh_n += 1
        return z3.Bool("%s!%d" % (name, self.fresh_n))

    def pick(self, e):
        """One feasible value of e; recorded, so that re-execution picks the same one."""
        n = len(self.decisions)
        if n < len(self.prefix):
            v = self.prefix[n][0][1]
        else:
            self.ensure_model()
            v = self.model.eval(e, model_completion=True).as_long()
        self.decisions.append((("pick", v), True))
        return v

    def pin(self, e):
        """Concretise e to one feasible value (an under-approximation: the path is marked)."""
        self.is_pinned = True
        v = self.pick(e)
        self.add(e == v)
        return v

    def enumerate(self, e, limit=300):
        """Concretise e by forking over all of its feasible values."""
        for _ in range(limit):
            v = self.pick(e)
            if self.branch(e == v):
                return v
        raise Unsupported("too many values to enumerate")

    def witness(self, extra, observed=None):
        """Input values of a model of the path condition plus `extra`, made consistent with the real hash
        functions when possible: hash inputs are fixed one by one and their outputs replaced by real digests."""
        s = self.solver
        best = None
        for attempt in range(4):
            s.push()
            try:
                for x in extra:
                    s.add(x)
                if attempt:
                    s.set("random_seed", attempt + 7)
                if self._check() != z3.sat:
                    break
                m = s.model()
                if best is None:
                    best = (self.input_values(m), False, m)
                ok = True
                for fn, ins, out in self.hash_order:
                    iv = [i if isinstance(i, int) else m.eval(i, model_completion=True).as_long() for i in ins]
                    dig = fn.real(bytes(iv))
                    cons = [i == v for i, v in zip(ins, iv) if not isinstance(i, int)]
                    cons += [o == d for o, d in zip(out, dig) if not isinstance(o, int)]
                    if not cons:
                        continue
                    d = None if isinstance(out[0], int) else self.digests.get(out[0].get_id())
                    if d is not None:
                        cons.append(d.num == int.from_bytes(dig, "big"))
                    if all(z3.is_true(m.eval(c, model_completion=True)) for c in cons):
                        s.add(*cons)
                        continue
                    s.add(*cons)
                    if self._check() != z3.sat:
                        ok = False
                        break
                    m = s.model()
                if ok:
                    best = (self.input_values(m), True, m)
                    break
            finally:
                s.pop()
            # perturb: ask for a different assignment of the hash inputs
            blk = []
            for fn, ins, out in self.hash_order[:3]:
                blk += [i != best[2].eval(i, model_completion=True) for i in ins if not isinstance(i, int)][:8]
            if not blk:
                break
            extra = list(extra) + [z3.Or(blk)]
        if best is None:
            raise PathAbort()
        if observed is not None:
            return best[0], best[1], observed(best[2])
        return best[0]

    def note(self, msg):
        self.notes[msg] = self.notes.get(msg, 0) + 1

    def input_values(self, model):
        out = {}
        for name, kind, val in self.inputs:
            out[name] = ev(model, val)
        return out


def ev(model, val):
    """Evaluate an input description under a model to a JSON value."""
    if isinstance(val, z3.ExprRef):
        v = model.eval(val, model_completion=True)
        if z3.is_bool(v):
            return z3.is_true(v)
        return v.as_long()
    if isinstance(val, (list, tuple)):
        return [ev(model, x) for x in val]
    return val


E = Engine()
