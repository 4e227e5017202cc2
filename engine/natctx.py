"""Native (replay) context: the harness runs on the real, unmodified code with concrete inputs."""
import datetime as _dt
import random as _random
import sys
import time as _time

from . import api

_REAL_DT = _dt.datetime
_REAL_TIME = _time.time
CLOCK = [None]
RANDOM = [None]
DRAWS = []


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _REAL_DT)


class FakeDatetime(_REAL_DT, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        if CLOCK[0] is None:
            return _REAL_DT.now(tz)
        return _REAL_DT.fromtimestamp(CLOCK[0], tz)

    @classmethod
    def utcnow(cls):
        if CLOCK[0] is None:
            return _REAL_DT.utcnow()
        return _REAL_DT.utcfromtimestamp(CLOCK[0])


def _fake_time():
    return _REAL_TIME() if CLOCK[0] is None else float(CLOCK[0])


def patch_environment():
    """Before the code under test is imported: the clock and the random module ask the context."""
    _dt.datetime = FakeDatetime
    _time.time = _fake_time
    r_shuffle, r_randint = _random.shuffle, _random.randint

    def nxt(lo, hi, fallback):
        q = RANDOM[0]
        if q is None:
            return fallback()
        v = q.pop(0) if q else lo
        v = min(max(v, lo), hi)
        DRAWS.append((hi - lo + 1, v))
        return v

    def shuffle(xs):
        if RANDOM[0] is None:
            return r_shuffle(xs)
        for i in reversed(range(1, len(xs))):
            j = nxt(0, i, None)
            xs[i], xs[j] = xs[j], xs[i]

    def randint(a, b):
        return nxt(a, b, lambda: r_randint(a, b))

    def sample(xs, k):
        ys = list(xs)
        shuffle(ys)
        return ys[:k]
    if not getattr(_random, "_vp", False):
        r_sample = _random.sample
        _random._vp = True
        _random.shuffle, _random.randint = shuffle, randint
        _random.sample = lambda xs, k, **kw: sample(xs, k) if RANDOM[0] is not None else r_sample(xs, k, **kw)
        _random.randrange = (lambda f: lambda *a: (randint(0, a[0] - 1) if len(a) == 1 else randint(a[0], a[1] - 1))
                             if RANDOM[0] is not None else f(*a))(_random.randrange)
        _random.choice = (lambda f: lambda xs: xs[randint(0, len(xs) - 1)] if RANDOM[0] is not None else f(xs))(_random.choice)


class NatCtx:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.failures = []
        self.observed = []
        self.checks = 0
        self.reached = set()
        CLOCK[0] = None
        rnd = [v for k, v in sorted(((k, v) for k, v in inputs.items() if k.startswith("rnd#")),
                                    key=lambda p: int(p[0][4:]))]
        RANDOM[0] = rnd
        del DRAWS[:]

    # inputs
    def int(self, name, lo, hi):
        return self.inputs.get(name, lo)

    def bool(self, name):
        return self.inputs.get(name, False)

    def bytes(self, name, n):
        return bytes(self.inputs.get(name, [0] * n))

    def str(self, name, n, chars=None):
        d = ord(chars[0]) if chars else 97
        return "".join(map(chr, self.inputs.get(name, [d] * n)))

    def choice(self, name, options):
        return list(options)[self.inputs.get(name, 0)]

    def blob(self, name, lo, hi):
        return bytes(self.inputs.get(name, lo))

    def blobstr(self, name, lo, hi):
        n, b = self.inputs.get(name, [lo, lo])
        out = []
        extra = b - n
        q, r = divmod(extra, n) if n else (0, 0)
        pal = ["a", "\u00e9", "\u20ac", "\U0001f600"]
        if n:
            s = pal[min(q + 1, 3)] * r + pal[q] * (n - r)
            return s
        return ""

    def split_blob(self, data, body):
        k = max(0, len(data) - len(body))
        return data[:k], data[k:]

    # environment
    def exact_dates(self):
        pass

    def draws(self):
        return list(DRAWS)

    def now(self, v):
        CLOCK[0] = v

    # logic
    def assume(self, c):
        if not c:
            raise api.Stop()

    def check(self, c, label, detail=""):
        self.checks += 1
        if not c:
            self.failures.append(label)

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def eq(self, a, b):
        return bool(a == b)

    def all(self, xs):
        return all(bool(x) for x in xs)

    def any(self, xs):
        return any(bool(x) for x in xs)

    def no(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def reach(self, label):
        self.reached.add(label)

    def observe(self, label, v):
        self.observed.append((label, norm(v)))

    def end(self):
        raise api.Stop()

    def attempt(self, f, *a):
        """(True, value) or (False, exception)."""
        try:
            return True, f(*a)
        except Exception as e:
            return False, e


def norm(v):
    import decimal
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, (bytes, bytearray)):
        return {"hex": bytes(v).hex()}
    if isinstance(v, decimal.Decimal):
        return {"dec": str(v.normalize() + 0)}
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return {"type": type(v).__name__}
