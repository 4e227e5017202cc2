"""Symbolic context: inputs are solver variables."""
import z3

from .core import E, PathEnd, Unsupported
from . import values as V
from . import runtime as R
from .values import SymBool, SymInt, SymBytes, SymStr, Opaque, OpaqueS, mkint, mkstr, mkbool, vand, vor, vnot


class SymCtx:
    symbolic = True

    def __init__(self):
        self.reached = set()

    def _reg(self, name, kind, val):
        if name in E.input_names:
            raise Unsupported("duplicate input " + name)
        E.input_names.add(name)
        E.inputs.append((name, kind, val))

    # inputs
    def int(self, name, lo, hi):
        v = z3.Int("in_" + name)
        E.add(v >= lo)
        E.add(v <= hi)
        self._reg(name, "int", v)
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool("in_" + name)
        self._reg(name, "bool", v)
        return SymBool(v)

    def bytes(self, name, n):
        vs = [z3.Int("in_%s_%d" % (name, i)) for i in range(n)]
        for v in vs:
            E.add(z3.And(v >= 0, v <= 255))
        self._reg(name, "bytes", vs)
        return SymBytes(vs) if n else b""

    def str(self, name, n, chars=None):
        vs = [z3.Int("in_%s_%d" % (name, i)) for i in range(n)]
        for v in vs:
            if chars is None:
                E.add(z3.And(v >= 0, v <= 127))
            else:
                r = V.rng(v, [ord(c) for c in chars])
                E.add(V.be(r))
        self._reg(name, "str", vs)
        return mkstr(vs)

    def choice(self, name, options):
        options = list(options)
        v = z3.Int("in_" + name)
        E.add(z3.And(v >= 0, v < len(options)))
        self._reg(name, "int", v)
        if len(options) == 1:
            E.add(v == 0)
            return options[0]
        return options[E.enumerate(v)]

    def blob(self, name, lo, hi):
        v = z3.Int("in_" + name)
        E.add(z3.And(v >= lo, v <= hi))
        self._reg(name, "int", v)
        return SymBytes((Opaque(name, SymInt(v)),))

    def blobstr(self, name, lo, hi):
        n, b = z3.Int("in_%s_n" % name), z3.Int("in_%s_b" % name)
        E.add(z3.And(n >= lo, n <= hi, b >= n, b <= 4 * n))
        self._reg(name, "pair", [n, b])
        return SymStr((OpaqueS(name, SymInt(n), SymInt(b)),))

    def split_blob(self, data, body):
        """(header, rest) of data whose tail is the opaque run `body`."""
        its = V.tobytes_items(data)
        k = next((i for i, x in enumerate(its) if isinstance(x, Opaque)), len(its))
        return SymBytes(its[:k]), SymBytes(its[k:])

    # environment
    def now(self, v):
        E.env["now"] = v

    def exact_dates(self):
        """Texts of symbolic times are exact on this path (they are unknown texts otherwise)."""
        E.env["dates"] = True

    def draws(self):
        """What was taken from the random source so far: (number of possible values, value) for each draw."""
        from . import runtime as R
        return [(n, R.mkint(v)) for n, v in E.env.get("draws", [])]

    # logic
    def assume(self, c):
        if isinstance(c, SymBool):
            E.assume(c.e)
        elif isinstance(c, SymInt):
            E.assume(c.e != 0)
        elif not c:
            E.assume(False)

    def check(self, c, label, detail=""):
        self.reached.add(label)
        if isinstance(c, SymBool):
            E.check(c.e, label, detail)
        elif isinstance(c, SymInt):
            E.check(c.e != 0, label, detail)
        else:
            E.check(bool(c), label, detail)

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def eq(self, a, b):
        return R.veq(a, b)

    def all(self, xs):
        return vand(list(xs))

    def any(self, xs):
        return vor(list(xs))

    def no(self, x):
        return vnot(x)

    def implies(self, a, b):
        return vor([vnot(a), b])

    def iff(self, a, b):
        return mkbool(V.be(a) == V.be(b)) if (isinstance(a, SymBool) or isinstance(b, SymBool)) else bool(a) == bool(b)

    def ite(self, c, a, b):
        if isinstance(c, SymBool):
            return mkint(z3.If(c.e, V.ie(a) if not isinstance(a, int) else z3.IntVal(a),
                               V.ie(b) if not isinstance(b, int) else z3.IntVal(b)))
        return a if c else b

    def reach(self, label):
        self.reached.add(label)

    def observe(self, label, v):
        E.observed.append((label, v))

    def end(self):
        raise PathEnd()

    def attempt(self, f, *a):
        try:
            return True, R.call(f, *a)
        except Exception as e:
            return False, e

    attempt.__vp_safe__ = True


def norm(v, m):
    """natctx.norm of v under the model m."""
    def i(e):
        if isinstance(e, int):
            return int(e)
        return m.eval(e, model_completion=True).as_long()

    def chars(items):
        out = ""
        for c in items:
            if isinstance(c, int):
                out += chr(c)
            elif isinstance(c, V.HexC):
                d = "%02x" % i(c.b)
                out += d.upper()[c.lo] if c.upper else d[c.lo]
            elif isinstance(c, V.B64C):
                import base64
                out += base64.b64encode(bytes(i(b) for b in c.group.bytes)).decode()[c.i]
            elif isinstance(c, V.NumA):
                s = str(i(c.n)).zfill(c.mind)
                out += (s[:-c.frac] + "." + s[-c.frac:]) if c.frac else s
            elif isinstance(c, V.OpaqueS):
                raise Unsupported("opaque observation")
            else:
                out += chr(i(c))
        return out
    if v is None or isinstance(v, (bool, str, int)):
        return v
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymInt):
        return i(v.e)
    if isinstance(v, (bytes, bytearray)):
        return {"hex": bytes(v).hex()}
    if isinstance(v, SymBytes):
        if v.opaque():
            return {"opaque": 1}
        return {"hex": bytes(i(V.code_of(b)) if not isinstance(b, (V.B64C,)) else ord(chars((b,))) for b in v.items).hex()}
    if isinstance(v, SymStr):
        return chars(v.items)
    if isinstance(v, V.SymDecimal):
        return norm(V.mkdec_exact(i(v.coef.e) if isinstance(v.coef, SymInt) else v.coef, v.exp), m)
    if isinstance(v, R.JsonDoc):
        return norm(v.obj, m)
    if isinstance(v, dict):
        return {norm(k, m) if not isinstance(k, str) else k: norm(x, m) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x, m) for x in v]
    from .natctx import norm as nn
    return nn(v)
