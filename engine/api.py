"""What a harness imports (no solver here: the same harness is replayed natively)."""

CASES = []


class Case:
    def __init__(self, prop, name, fn, params, tier, limits):
        self.prop, self.fn, self.params, self.tier, self.limits = prop, fn, params, tier, limits
        self.name = name
        self.module = fn.__module__
        self.doc = (fn.__doc__ or "").strip()

    @property
    def id(self):
        if not self.params:
            return self.name
        return self.name + "[" + ",".join("%s=%s" % (k, v) for k, v in sorted(self.params.items())) + "]"


def case(prop, params=None, thorough=None, tier="quick", **limits):
    """Register fn(ctx, **params) as a symbolic test of property `prop`.

    params: parameter sets explored by the quick (and thorough) tier; thorough: further ones of the thorough tier."""
    def deco(fn):
        for p in (params if params is not None else [{}]):
            CASES.append(Case(prop, fn.__name__, fn, dict(p), tier, limits))
        for p in (thorough or []):
            CASES.append(Case(prop, fn.__name__, fn, dict(p), "thorough", limits))
        return fn
    return deco


def find(prop, cid):
    for c in CASES:
        if c.prop == prop and c.id == cid:
            return c
    raise KeyError((prop, cid))


class Stop(BaseException):
    """Ends a native run (failed assumption)."""
