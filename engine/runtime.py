"""Builtins, helpers and standard-library stand-ins that instrumented code sees."""
import builtins as _b
import base64 as _base64
import copy as _copy
import datetime as _datetime
import decimal as _decimal
import enum as _enum
import functools as _functools
import hashlib as _hashlib
import json as _json
import operator as _operator
import random as _random
import re as _plain_re
import string as _string
import time as _time
import types as _types
import z3

from .core import E, Steer, Unsupported
from . import values as V
from .values import (Sym, SymBool, SymInt, SymBytes, SymStr, SymDecimal, NumA, HexC, B64C, B64Group, mkstr, mkint,
                     mkbool, mkdec_exact, ie, byte_split, tobytes_items, str_items, vnot, vand, vor)
from .regex import Pattern

_Dec = _decimal.Decimal
_real_isinstance = _b.isinstance
_real_type = _b.type


class JsonDoc(Sym):
    """JSON text of a structure holding symbolic values (serialised lazily)."""
    __slots__ = ("obj", "raw")

    def __init__(self, obj, raw=False):
        self.obj, self.raw = obj, raw

    def encode(self, encoding="utf-8", errors="strict"):
        return JsonDoc(self.obj, True)

    def decode(self, encoding="utf-8", errors="strict"):
        return JsonDoc(self.obj)

    def __hash__(self):
        return V.HASHC

    def __eq__(self, o):
        if isinstance(o, JsonDoc) and o.raw == self.raw:
            return veq(self.obj, o.obj)
        return False

    def __bool__(self):
        return True


def kind(x):
    """The Python type an object stands for."""
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, JsonDoc):
        return bytes if x.raw else str
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymBytes):
        return bytearray if x.mutable else bytes
    if isinstance(x, SymDecimal):
        return _Dec
    if isinstance(x, Sym) and x.KIND is not None:
        return x.KIND
    if isinstance(x, _SetOps):
        return x._base
    return _real_type(x)


# ------------------------------------------------------------------------------------- type stand-ins
class TypeProxy:
    """Stands for a builtin type inside instrumented code."""
    __vp_safe__ = True

    def __init__(self, real, call, extra=None):
        self.__dict__["_real"] = real
        self.__dict__["_call"] = call
        self.__dict__["_extra"] = extra or {}
        self.__dict__["__name__"] = real.__name__
        self.__dict__["__qualname__"] = real.__qualname__
        self.__dict__["__module__"] = real.__module__

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __getattr__(self, n):
        if n in self._extra:
            return self._extra[n]
        return unbound(self._real, n)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __instancecheck__(self, x):
        return issubclass(kind(x), self._real)

    def __subclasscheck__(self, c):
        return issubclass(unproxy(c), self._real)

    def __eq__(self, o):
        return unproxy(o) is self._real

    def __ne__(self, o):
        return unproxy(o) is not self._real

    def __hash__(self):
        return hash(self._real)

    def __repr__(self):
        return repr(self._real)

    def __or__(self, o):
        return self._real | unproxy(o)

    def __ror__(self, o):
        return unproxy(o) | self._real


def unproxy(t):
    if isinstance(t, TypeProxy):
        return t._real
    if isinstance(t, tuple):
        return tuple(unproxy(x) for x in t)
    return t


def unbound(real, n):
    """str.lower, bytes.hex, ... usable on symbolic receivers."""
    f = getattr(real, n)
    if not callable(f):
        return f

    def g(*a, **k):
        if a and isinstance(a[0], Sym):
            return mcall(a[0], n, *a[1:], **k)
        return call(f, *a, **k)
    g.__vp_safe__ = True
    g.__name__ = n
    return g


PROXIES = {}


def proxy_type(t):
    return PROXIES.get(t, t)


# --------------------------------------------------------------------------------------- conversions
def lower(x, pin=True):
    """A native equivalent of x: exact when concrete, otherwise one pinned value."""
    if isinstance(x, SymInt):
        return E.pin(x.e) if pin else E.enumerate(x.e)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymBytes):
        its = x.plain()
        b = _b.bytes(i if isinstance(i, int) else E.pin(i) for i in its)
        return _b.bytearray(b) if x.mutable else b
    if isinstance(x, SymStr):
        return "".join(chr(i if isinstance(i, int) else E.pin(V.code_of(i))) for i in x.expand())
    if isinstance(x, SymDecimal):
        c = E.pin(x.coef.e)
        return mkdec_exact(c, x.exp)
    if isinstance(x, JsonDoc):
        return _json.dumps(lower(x.obj))
    if isinstance(x, TypeProxy):
        return x._real
    if _real_type(x) is list:
        return [lower(y) for y in x]
    if _real_type(x) is tuple:
        return tuple(lower(y) for y in x)
    if _real_type(x) is dict:
        return {lower(k): lower(v) for k, v in x.items()}
    return x


def has_sym(x, depth=3):
    if isinstance(x, (Sym, TypeProxy)):
        return True
    if depth and _real_type(x) in (list, tuple, set, frozenset, VSet, VFrozenSet):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and _real_type(x) is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def is_sym_deep(x, depth=4):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(is_sym_deep(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(is_sym_deep(k, depth - 1) or is_sym_deep(v, depth - 1) for k, v in x.items())
    return False


def user_method(x, n):
    """A dunder defined by a non-builtin class of x."""
    for c in _real_type(x).__mro__:
        if n in c.__dict__:
            if c in (object, int, str, float, bytes, bytearray, bool, list, dict, tuple, set, frozenset, BaseException,
                     Exception, _SetOps, VSet, VFrozenSet):
                return None
            f = c.__dict__[n]
            if isinstance(f, (_types.FunctionType,)):
                return f
            return None
    return None


def v_int(*a, **k):
    if not a:
        return 0
    x = a[0]
    if len(a) > 1 or "base" in k:
        base = a[1] if len(a) > 1 else k["base"]
        if isinstance(x, SymStr):
            return V.parse_int(x, base if isinstance(base, int) else E.enumerate(base.e))
        return _b.int(lower(x), lower(base))
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, SymStr):
        return V.parse_int(x)
    if isinstance(x, SymDecimal):
        return x.__int__()
    if isinstance(x, SymBytes):
        return v_int(x.decode())
    f = user_method(x, "__int__") or user_method(x, "__index__") or user_method(x, "__trunc__")
    if f:
        return v_int(f(x))
    return _b.int(x)


def v_bool(x=False):
    f = user_method(x, "__bool__")
    if f:
        return _b.bool(f(x))
    return _b.bool(x)


def v_str(*a, **k):
    if not a:
        return ""
    x = a[0]
    if len(a) > 1 or k:
        if isinstance(x, SymBytes):
            return x.decode(*a[1:], **k)
        return _b.str(x, *a[1:], **k)
    if isinstance(x, (SymStr, JsonDoc)):
        return x
    if isinstance(x, SymInt):
        return int_str(x)
    if isinstance(x, SymBool):
        return "True" if bool(x) else "False"
    if isinstance(x, SymDecimal):
        return x.vstr()
    if isinstance(x, SymBytes):
        if x.concrete():
            return _b.str(x.native())
        n = E.fresh_int("reprlen", 0, 1 << 40)  # b'..' with escapes: exact only where nobody looks inside
        return SymStr(str_items("bytearray(b'" if x.mutable else "b'") + (V.OpaqueS("repr%d" % n.get_id(), mkint(n), mkint(n)),)
                      + str_items("')" if x.mutable else "'"))
    f = user_method(x, "__str__")
    if f:
        return f(x)
    f = user_method(x, "__repr__")
    if f and _real_type(x).__str__ is object.__str__:
        return f(x)
    if isinstance(x, BaseException):
        if len(x.args) == 1:
            return v_str(x.args[0])
        if len(x.args) == 0:
            return ""
        return v_repr(x.args)
    if _real_type(x) in (list, tuple, dict, set, VSet) and has_sym(x):
        return v_repr(x)
    return _b.str(x)


def int_str(x):
    if bool(x >= 0):
        return SymStr((NumA(x.e),))
    return "-" + SymStr((NumA(-x.e),))


def v_repr(x):
    if isinstance(x, SymStr):
        return "'" + x + "'"
    if isinstance(x, Sym):
        return v_str(x)
    f = user_method(x, "__repr__")
    if f:
        return f(x)
    if _real_type(x) in (list, tuple) and has_sym(x):
        return "[" + v_join(", ", [v_repr(y) for y in x]) + "]"
    if _real_type(x) is dict and has_sym(x):
        return "{" + v_join(", ", [v_repr(k) + ": " + v_repr(y) for k, y in x.items()]) + "}"
    try:
        return _b.repr(x)
    except Unsupported:
        return "<symbolic>"


def v_join(sep, xs):
    return SymStr(str_items(sep)).join(xs) if not isinstance(sep, SymStr) else sep.join(xs)


def v_bytes(*a, **k):
    return _mkbytes(False, a, k)


def v_bytearray(*a, **k):
    return _mkbytes(True, a, k)


def _mkbytes(mut, a, k):
    if not a:
        return SymBytes((), True) if mut else b""
    x = a[0]
    if isinstance(x, (str, SymStr)):
        if len(a) < 2 and "encoding" not in k:
            raise TypeError("string argument without an encoding")
        r = mcall(x, "encode", *(a[1:2] or (k["encoding"],)))
        items = tobytes_items(r)
    elif isinstance(x, int) and not isinstance(x, bool):
        items = tuple(_b.bytes(x))
    elif isinstance(x, SymInt):
        items = (0,) * E.enumerate(x.e)
    elif tobytes_items(x) is not None:
        items = tobytes_items(x)
    else:
        f = user_method(x, "__bytes__")
        if f and not mut:
            return f(x)
        items = V.bytes_items(x)
    r = SymBytes(items, mut)
    if not mut and r.concrete():
        return _b.bytes(r.items)
    return r


def v_fromhex(mut):
    def fromhex(s):
        if isinstance(s, str):
            b = _b.bytes.fromhex(s)
            return SymBytes(tuple(b), True) if mut else b
        r = V.fromhex(s, mut)
        if not mut and r.concrete():
            return _b.bytes(r.items)
        return r
    fromhex.__vp_safe__ = True
    return fromhex


def v_from_bytes(b, byteorder="big", *, signed=False):
    items = tobytes_items(b)
    if items is None:
        items = tuple(V.byte_item(x) for x in b)
    if signed:
        raise Unsupported("signed from_bytes")
    if byteorder == "little":
        items = tuple(reversed(items))
    return V.byte_join(items)


v_from_bytes.__vp_safe__ = True


def v_len(x):
    if isinstance(x, SymBytes) or isinstance(x, SymStr):
        return x.vlen()
    f = user_method(x, "__len__")
    if f:
        return f(x)
    return _b.len(x)


def v_isinstance(x, t):
    t = unproxy(t)
    if isinstance(x, Sym):
        k = kind(x)
        if isinstance(t, tuple):
            return any(v_isinstance(x, y) for y in t)
        return issubclass(k, t)
    if isinstance(x, TypeProxy):
        return _real_isinstance(x._real, t)
    return _real_isinstance(x, t)


def v_issubclass(c, t):
    return _b.issubclass(unproxy(c), unproxy(t))


def v_type(*a, **k):
    if len(a) == 1 and not k:
        return proxy_type(kind(a[0]))
    return _real_type(a[0], unproxy(a[1]), *a[2:], **k)


class HashInt(int):
    """The hash of a value: one constant for tables, but two hashes are equal only if the hashed values are."""

    def __new__(cls, key):
        self = int.__new__(cls, V.HASHC)
        self.key = key
        return self

    def __eq__(self, other):
        return self.key == other.key if _real_isinstance(other, HashInt) else int.__eq__(self, other)

    def __ne__(self, other):
        return not (self == other)

    def __hash__(self):
        return V.HASHC


def v_hash(x):
    # every hash is one constant: keys are then told apart by __eq__ alone, which is what equality of
    # symbolic keys needs; hash values compared by the code are taken to be free of collisions
    if isinstance(x, (Sym, str, int, bytes, tuple)):
        return x if _real_isinstance(x, HashInt) else HashInt(x)
    f = user_method(x, "__hash__")
    if f:
        return f(x)
    return _b.hash(x)


def v_range(*a):
    if not any(isinstance(x, Sym) for x in a):
        return _b.range(*a)
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    if isinstance(step, Sym):
        raise Unsupported("symbolic range step")
    if isinstance(start, Sym):
        start = E.enumerate(ie(start))

    def gen():
        i = start
        n = 0
        while (i < stop) if step > 0 else (i > stop):
            yield i
            i += step
            n += 1
            if n > 5000:
                raise Unsupported("unbounded symbolic range")
    return gen()


def v_ord(c):
    if isinstance(c, SymStr):
        it = c.expand()
        if len(it) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(it))
        return mkint(V.code_of(it[0]))
    if isinstance(c, SymBytes):
        return mkint(c.items[0])
    return _b.ord(c)


def v_chr(x):
    if isinstance(x, SymInt):
        return mkstr((x.e,))
    return _b.chr(x)


def v_hex(x):
    if isinstance(x, SymInt):
        return "-0x" + hex_text(-x) if bool(x < 0) else "0x" + hex_text(x)
    return _b.hex(x)


def v_divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return (a // b, a % b)
    return _b.divmod(a, b)


def v_pow(a, b, *m):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if m:
            raise Unsupported("modular pow")
        return a ** b
    return _b.pow(a, b, *m)


def v_round(x, n=None):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymFloat):
        return x.i if n is None else x
    if isinstance(x, SymDecimal):
        if n is None:
            return x.quantize(_Dec(1)).__int__()
        return x.quantize(_Dec((0, (1,), -n)))
    return _b.round(x) if n is None else _b.round(x, n)


def v_format(x, spec=""):
    return fmt_value(x, spec)


def v_float(x=0.0):
    if isinstance(x, SymStr):
        it = x.items
        # exact for short decimal integers; anything else is outside the engine
        v = V.parse_decimal(x)
        if isinstance(v, SymDecimal) and v.exp == 0:
            return SymFloat(v.coef)
        if isinstance(v, SymDecimal):
            return _b.float(lower(v))
        return _b.float(v)
    if isinstance(x, SymInt):
        return SymFloat(x)
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymDecimal):
        return _b.float(lower(x))
    return _b.float(x)


class SymFloat(Sym):
    """A float known to be an exactly representable integer (|value| < 2**53)."""
    __slots__ = ("i",)
    KIND = float

    def __init__(self, i):
        if isinstance(i, SymInt):
            if not E.must(z3.And(i.e < 2 ** 53, i.e > -2 ** 53)):
                raise Unsupported("large float")
        self.i = i

    def __int__(self):
        return self.i

    __trunc__ = __floor__ = __ceil__ = __int__

    def is_integer(self):
        return True

    def __neg__(self):
        return SymFloat(-self.i)

    def __abs__(self):
        return SymFloat(abs(self.i))

    def __bool__(self):
        return bool(self.i != 0)

    def __mul__(self, o):
        return SymFloat(self.i * (o.i if isinstance(o, SymFloat) else exact_int(o)))

    __rmul__ = __mul__

    def __add__(self, o):
        return SymFloat(self.i + (o.i if isinstance(o, SymFloat) else exact_int(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return SymFloat(self.i - (o.i if isinstance(o, SymFloat) else exact_int(o)))

    def __eq__(self, o):
        return self.i == (o.i if isinstance(o, SymFloat) else o)

    def __lt__(self, o):
        return self.i < (o.i if isinstance(o, SymFloat) else o)

    def __le__(self, o):
        return self.i <= (o.i if isinstance(o, SymFloat) else o)

    def __gt__(self, o):
        return self.i > (o.i if isinstance(o, SymFloat) else o)

    def __ge__(self, o):
        return self.i >= (o.i if isinstance(o, SymFloat) else o)

    __hash__ = None


def exact_int(o):
    if isinstance(o, (int, SymInt)):
        return o
    if isinstance(o, float) and o == _b.int(o):
        return _b.int(o)
    raise Unsupported("float arithmetic")


def v_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


class _SetOps:
    """Set operators that compare members by value, symbolic ones too."""
    __slots__ = ()

    def _plain(self, o):
        return not (has_sym_key(self) or has_sym_key(o))

    def __le__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self._base.__le__(self, o) if self._plain(o) else all(contains(o, x) for x in self)

    def __ge__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self._base.__ge__(self, o) if self._plain(o) else all(contains(self, x) for x in o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self._base.__eq__(self, o) if self._plain(o) else len(self) == len(o) and all(contains(o, x) for x in self)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return NotImplemented if not isinstance(o, (set, frozenset)) else len(self) < len(o) and self <= o

    def __gt__(self, o):
        return NotImplemented if not isinstance(o, (set, frozenset)) else len(self) > len(o) and self >= o

    def _alg(self, name, a, b):
        if not isinstance(b, (set, frozenset)) or not isinstance(a, (set, frozenset)):
            return NotImplemented
        return self._mk(set_algebra(a, name, (b,)))

    def __or__(self, o):
        return self._alg("union", self, o)

    def __ror__(self, o):
        return self._alg("union", o, self)

    def __and__(self, o):
        return self._alg("intersection", self, o)

    def __rand__(self, o):
        return self._alg("intersection", o, self)

    def __sub__(self, o):
        return self._alg("difference", self, o)

    def __rsub__(self, o):
        return self._alg("difference", o, self)

    def __xor__(self, o):
        return self._alg("symmetric_difference", self, o)

    def __rxor__(self, o):
        return self._alg("symmetric_difference", o, self)

    def copy(self):
        return self._mk(self)


class VSet(_SetOps, set):
    _base = set
    __hash__ = None

    @staticmethod
    def _mk(xs):
        return VSet(xs)

    def __ior__(self, o):
        set_algebra(self, "update", (o,))
        return self

    def __iand__(self, o):
        set_algebra(self, "intersection_update", (o,))
        return self

    def __isub__(self, o):
        set_algebra(self, "difference_update", (o,))
        return self


class VFrozenSet(_SetOps, frozenset):
    _base = frozenset
    __hash__ = frozenset.__hash__

    @staticmethod
    def _mk(xs):
        return VFrozenSet(xs)


def v_set(xs=()):
    r = VSet()
    for x in xs:
        if is_symkey(x) or has_sym_key(r):
            if contains(r, x):
                continue
        set.add(r, x)
    return r


def v_frozenset(xs=()):
    return VFrozenSet(v_set(xs))


def mkdict(pairs):
    """A dict display or comprehension; key None of a (None, mapping, True) entry is **mapping."""
    r = {}
    for p in pairs:
        if len(p) == 3:
            for q in p[1].keys():
                setitem(r, q, getitem(p[1], q))
        else:
            setitem(r, p[0], p[1])
    return r


def v_dict(*a, **k):
    r = {}
    if a:
        src = a[0]
        pairs = [(q, src[q]) for q in src.keys()] if hasattr(src, "keys") else src
        for q, v in pairs:
            setitem(r, q, v)
    r.update(k)
    return r


def v_print(*a, **k):
    return None


def v_abs(x):
    return x.__abs__() if isinstance(x, Sym) else _b.abs(x)


def v_min(*a, **k):
    return _b.min(*a, **k)


def v_callable(x):
    return _b.callable(x)


def v_hasattr(x, n):
    if isinstance(x, Sym):
        # what the represented type has
        return _b.hasattr(kind(x), n)
    return _b.hasattr(x, lower(n))


def v_getattr(x, n, *d):
    n = lower(n)
    if isinstance(x, Sym) and not _b.hasattr(x, n):
        if d and not _b.hasattr(kind(x), n):
            return d[0]
        if not _b.hasattr(kind(x), n):
            raise AttributeError(n)
        raise Unsupported("attribute %s of a symbolic %s" % (n, kind(x).__name__))
    return _b.getattr(x, n, *d)


# ------------------------------------------------------------------------------------ containers / in
def has_sym_key(d):
    return any(is_symkey(k) for k in d)


def is_symkey(k):
    return isinstance(k, Sym) or (_real_type(k) is tuple and any(is_symkey(x) for x in k))


def find_key(d, k):
    """The key of d that equals k, or a miss marker (forks)."""
    kk = kind(k)
    for q in list(d):
        if q is k:
            return q
        qk = kind(q)
        if qk is not kk and not (qk in (int, bool) and kk in (int, bool)):
            if not (isinstance(q, Sym) or isinstance(k, Sym)) or True:
                continue
        r = (q == k)
        if r is NotImplemented:
            continue
        if r:
            return q
    return _MISS


_MISS = object()


def _slow(d, k):
    return is_symkey(k) or (_real_type(k) in (str, int, bytes, tuple) and has_sym_key(d))


def contains(c, x):
    if isinstance(c, (dict, set, frozenset, _KEYS)):
        if _slow(c, x):
            return find_key(c, x) is not _MISS
        return x in c
    if isinstance(c, Sym):
        if isinstance(c, SymStr) and str_items(x) is None:
            raise TypeError("'in <string>' requires string as left operand, not " + kind(x).__name__)
        return c.__contains__(x)
    if isinstance(c, str) and isinstance(x, Sym):
        if not isinstance(x, SymStr):
            raise TypeError("'in <string>' requires string as left operand, not " + kind(x).__name__)
        return SymStr(str_items(c)).__contains__(x)
    if isinstance(c, (bytes, bytearray)) and isinstance(x, Sym):
        return SymBytes(tobytes_items(c)).__contains__(x)
    if isinstance(c, _b.range) and isinstance(x, SymInt):
        if c.step != 1:
            return any(x == i for i in c)
        return bool(vand([x >= c.start, x < c.stop]))
    if isinstance(c, TypeProxy):
        return x in c._real
    return x in c


_KEYS = _real_type({}.keys())


def v_in(x, c):
    r = contains(c, x)
    return r if isinstance(r, SymBool) else bool(r)


def v_notin(x, c):
    return not v_in(x, c)


def getitem(o, k):
    if isinstance(o, dict) and _real_type(o).__getitem__ is dict.__getitem__ and _slow(o, k):
        q = find_key(o, k)
        if q is _MISS:
            m = getattr(_real_type(o), "__missing__", None)
            if m:
                return m(o, k)
            raise KeyError(k)
        return o[q]
    if isinstance(o, (list, tuple)) and isinstance(k, (SymInt, SymBool)):
        e = ie(k)
        if isinstance(o, (list, tuple)):
            n = len(o)
            if not bool(vand([mkbool(e >= -n), mkbool(e < n)])):
                raise IndexError("list index out of range")
        return o[E.enumerate(e)]
    if isinstance(o, (str, bytes, list, tuple)) and isinstance(k, slice) and has_sym((k.start, k.stop, k.step)):
        return o[V._cslice(k)]
    if isinstance(o, (str, bytes)) and isinstance(k, Sym):
        return o[E.enumerate(ie(k))]
    if isinstance(o, TypeProxy):
        return o._real[k]
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict) and _real_type(o).__setitem__ is dict.__setitem__ and _slow(o, k):
        q = find_key(o, k)
        o[k if q is _MISS else q] = v
        return
    if isinstance(o, list) and isinstance(k, SymInt):
        k = E.enumerate(k.e)
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and _slow(o, k):
        q = find_key(o, k)
        if q is _MISS:
            raise KeyError(k)
        del o[q]
        return
    del o[k]


def augitem(o, k, op, v):
    setitem(o, k, op(getitem(o, k), v))


def dict_method(d, n, a, k):
    key = a[0]
    if n == "get":
        q = find_key(d, key)
        return d[q] if q is not _MISS else (a[1] if len(a) > 1 else k.get("default"))
    if n == "pop":
        q = find_key(d, key)
        if q is _MISS:
            if len(a) > 1:
                return a[1]
            raise KeyError(key)
        return d.pop(q)
    if n == "setdefault":
        q = find_key(d, key)
        if q is _MISS:
            d[key] = a[1] if len(a) > 1 else None
            return d[key]
        return d[q]
    raise Unsupported("dict." + n)


def set_method(s, n, a):
    x = a[0]
    if n == "add":
        if find_key(s, x) is _MISS:
            s.add(x)
        return None
    if n in ("discard", "remove"):
        q = find_key(s, x)
        if q is _MISS:
            if n == "remove":
                raise KeyError(x)
        else:
            s.remove(q)
        return None
    raise Unsupported("set." + n)


def set_algebra(s, name, a):
    others = [list(x) for x in a]
    if name == "issubset":
        return all(contains(others[0], x) for x in s)
    if name == "issuperset":
        return all(contains(s, x) for x in others[0])
    if name == "isdisjoint":
        return not any(contains(s, x) for x in others[0])
    inplace = name == "update" or name.endswith("_update")
    op = name.replace("_update", "").replace("update", "union")
    if op == "union":
        r = v_set([x for o in [list(s)] + others for x in o])
    elif op == "difference":
        r = v_set([x for x in s if not any(contains(o, x) for o in others)])
    elif op == "intersection":
        r = v_set([x for x in s if all(contains(o, x) for o in others)])
    else:
        r = v_set([x for x in s if not contains(others[0], x)] + [x for x in others[0] if not contains(s, x)])
    if inplace:
        s.clear()
        for x in r:
            _b.set.add(s, x)
        return None
    return r


# --------------------------------------------------------------------------------------- calls
_STR_FORK = {"format": None}


def mcall(obj, name, /, *a, **k):
    """obj.name(*a, **k)"""
    t = _real_type(obj)
    if t is str:
        if name == "format":
            return v_strformat(obj, a, k)
        if name == "join":
            xs = list(a[0])
            if any(isinstance(x, Sym) for x in xs):
                return SymStr(str_items(obj)).join(xs)
            return obj.join(xs)
        if any(isinstance(x, Sym) for x in a):
            return getattr(SymStr(str_items(obj)), name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    if t is bytes:
        if name == "join":
            xs = list(a[0])
            return SymBytes(tobytes_items(obj)).join(xs) if any(isinstance(x, Sym) for x in xs) else obj.join(xs)
        if any(isinstance(x, Sym) for x in a):
            return getattr(SymBytes(tobytes_items(obj)), name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    if t is dict and name in ("get", "pop", "setdefault") and a and _slow(obj, a[0]):
        return dict_method(obj, name, a, k)
    if t is dict and name == "update" and a and (has_sym_key(obj) or has_sym_key(a[0])):
        src = a[0]
        for q in (src.keys() if hasattr(src, "keys") else []):
            setitem(obj, q, src[q])
        for q, v in k.items():
            setitem(obj, q, v)
        return None
    if t in (set, VSet) and name in ("add", "discard", "remove") and _slow(obj, a[0]):
        return set_method(obj, name, a)
    if t in (set, frozenset, VSet, VFrozenSet) and name == "issuperset" and isinstance(a[0], SymStr):
        codes = sorted(ord(q) for q in obj if isinstance(q, str) and len(q) == 1)
        return a[0]._all(lambda c: V.ch_in(c, codes)) if len(a[0].expand()) else True
    if t in (set, VSet, frozenset, VFrozenSet) and name in ("update", "union", "difference", "intersection", "issubset", "issuperset",
                             "symmetric_difference", "difference_update", "intersection_update", "isdisjoint") and a and (
            has_sym_key(obj) or any(has_sym_key(x) for x in a if hasattr(x, "__iter__"))):
        return set_algebra(obj, name, a)
    if t in (int, bool) and any(isinstance(x, Sym) for x in a):
        if name == "to_bytes":
            a = tuple(E.enumerate(ie(x)) if isinstance(x, SymInt) else x for x in a)
            return getattr(obj, name)(*a, **k)
        return getattr(obj, name)(*[lower(x) for x in a], **k)
    if t in (list, dict, set, tuple, VSet, VFrozenSet):
        if t is tuple or t is list:
            if name in ("index", "pop", "insert") and a and isinstance(a[0], SymInt) and name != "index":
                a = (E.enumerate(a[0].e),) + a[1:]
        return getattr(obj, name)(*a, **k)
    if isinstance(obj, Sym):
        f = getattr(obj, name, None)
        if f is None:
            if not hasattr(kind(obj), name):
                raise AttributeError("'%s' object has no attribute '%s'" % (kind(obj).__name__, name))
            raise Unsupported("method %s.%s" % (kind(obj).__name__, name))
        return f(*a, **k)
    if t is _Dec and any(isinstance(x, Sym) for x in a):
        sgn, ds, ex = obj.as_tuple()
        return getattr(SymDecimal(obj_int(obj)[0], obj_int(obj)[1]), name)(*a, **k)
    return call(getattr(obj, name), *a, **k)


def obj_int(d):
    return SymDecimal.parts(d)


SAFE_NATIVE = {
    _b.sorted, _b.min, _b.max, _b.sum, _b.any, _b.all, _b.zip, _b.enumerate, _b.map, _b.filter, _b.reversed, _b.iter,
    _b.next, _b.list, _b.tuple, _b.set, _b.frozenset, _b.dict, _b.getattr, _b.setattr, _b.hasattr, _b.callable,
    _b.super, _b.isinstance, _b.id, _b.property, _b.staticmethod, _b.classmethod, _b.object, _b.slice, _b.vars,
    _functools.reduce, _functools.partial, _copy.copy, _copy.deepcopy, _b.issubclass, _b.print, object.__new__,
    object.__init__, object.__setattr__,
}
try:
    import itertools as _it
    import collections as _co
    import operator as _op
    SAFE_NATIVE |= {getattr(_it, n) for n in dir(_it) if not n.startswith("_")}
    SAFE_NATIVE |= {getattr(_op, n) for n in dir(_op) if not n.startswith("_") and callable(getattr(_op, n))
                    and n not in ("contains", "getitem", "index", "setitem", "delitem")}
    SAFE_NATIVE |= {_co.OrderedDict, _co.defaultdict, _co.deque, _co.namedtuple}
except TypeError:
    pass

import urllib.request as _ur
import dataclasses as _dcl
SAFE_NATIVE |= {_dcl.replace, _dcl.asdict, _dcl.astuple, _dcl.field}
SAFE_NATIVE.add(_ur.Request)  # keeps the data as it is

_INSTR_MODULES = set()


def is_safe(f):
    """f may receive symbolic proxies."""
    try:
        if f in SAFE_NATIVE:
            return True
    except TypeError:
        pass
    if _real_isinstance(f, TypeProxy) or getattr(f, "__vp_safe__", False) is True:
        return True
    if _real_isinstance(f, _types.FunctionType):
        return "__vp__" in f.__globals__ or f.__module__ in _INSTR_MODULES or f.__module__.startswith("engine")
    if _real_isinstance(f, _types.MethodType):
        return is_safe(f.__func__) or isinstance(f.__self__, Sym) or (_real_isinstance(f.__self__, tuple) and hasattr(f.__self__, "_fields"))
    if _real_isinstance(f, _real_type):
        if issubclass(f, BaseException):
            return True
        init = f.__init__
        if _real_isinstance(init, _types.FunctionType):
            return is_safe(init)
        if f.__module__ in _INSTR_MODULES or f.__module__.startswith("engine"):
            return True
        return False
    if _real_isinstance(f, (_types.BuiltinMethodType, _types.MethodWrapperType)):
        s = getattr(f, "__self__", None)
        if _real_type(s) in (list, dict, set, VSet, tuple, _co.deque, _co.OrderedDict, _co.defaultdict):
            return True
        if _real_isinstance(s, Sym):
            return True
        if getattr(f, "__name__", "") in ("__init__", "__new__", "__setattr__", "__init_subclass__"):
            return True
        return False
    if _real_isinstance(f, _functools.partial):
        return True
    c = getattr(_real_type(f), "__call__", None)
    if _real_isinstance(c, _types.FunctionType):
        return is_safe(c)
    return False


def call(f, /, *a, **k):
    if not a and not k:
        return f()
    symbolic = False
    for x in a:
        if has_sym(x):
            symbolic = True
            break
    if not symbolic:
        for x in k.values():
            if has_sym(x):
                symbolic = True
                break
    if not symbolic:
        return f(*a, **k)
    if _real_isinstance(f, _enum.EnumMeta) and len(a) == 1 and isinstance(a[0], Sym):
        for m in f:
            if m.value == a[0]:
                return m
        raise ValueError("not a valid %s" % f.__name__)
    if is_safe(f):
        return f(*a, **k)
    if E.active:
        E.note("concretised arguments of %s" % getattr(f, "__qualname__", repr(f)))
    return f(*[lower(x) for x in a], **{n: lower(x) for n, x in k.items()})


# ----------------------------------------------------------------------------------- string formatting
def v_strformat(tmpl, a, k):
    if not any(need_own(x) for x in a) and not any(need_own(x) for x in k.values()):
        return tmpl.format(*a, **k)
    out = ""
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(tmpl):
        out = out + lit
        if field is None:
            continue
        name, rest = _split_field(field)
        if name == "":
            v = a[auto]
            auto += 1
        elif name.isdigit():
            v = a[int(name)]
        else:
            v = k[name]
        for is_attr, key in rest:
            v = getattr(v, key) if is_attr else getitem(v, key)
        if conv == "r":
            v = v_repr(v)
        elif conv == "s":
            v = v_str(v)
        if spec and "{" in spec:
            spec = v_strformat(spec, a[auto:], k)
        out = out + fmt_value(v, spec or "")
    return out


def _split_field(field):
    first, rest = _string._string.formatter_field_name_split(field)
    return _b.str(first) if not isinstance(first, int) else _b.str(first), list(rest)


def need_own(x):
    if isinstance(x, (Sym, TypeProxy)):
        return True
    if _real_type(x) in (str, int, float, bool, bytes, _real_type(None), _Dec):
        return False
    if _real_type(x) in (list, tuple, dict, set, VSet):
        return has_sym(x)
    return True


def hex_text(v, mind=1, upper=False):
    """The text of an int in base 16, with at least mind digits."""
    if bool(v < 0):
        raise Unsupported("hex format of a negative number")
    n = mind
    while not bool(v < 16 ** n):
        n += 1
        if n > 130:
            raise Unsupported("hex format of a huge number")
    if not isinstance(v, SymInt):
        return _b.format(v, "0%d%s" % (n, "X" if upper else "x"))
    items = []
    for b in byte_split(v.e, (n + 1) // 2):
        if isinstance(b, int):
            items += [ord(c) for c in ("%02X" if upper else "%02x") % b]
        else:
            items += [HexC(b, 0, upper), HexC(b, 1, upper)]
    return mkstr(tuple(items[-n:]))


def v_bits(v):
    n = v.bit_length()
    return E.enumerate(n.e) if isinstance(n, SymInt) else n


def pad(t, width, align, fill):
    """t padded to width characters."""
    if isinstance(t, SymStr):
        t = mkstr(t.expand())
    n = width - len(t)
    if n <= 0:
        return t
    left = n if align in ">=" else 0 if align == "<" else n // 2
    return fill * left + t + fill * (n - left)


def fmt_value(v, spec):
    if isinstance(v, SymBytes):
        v = v.native() if v.concrete() else v
    if not spec:
        return v_str(v)
    if isinstance(v, SymDecimal):
        if spec.startswith(".") and spec.endswith("f") and spec[1:-1].isdigit():
            return v.fixed(int(spec[1:-1]))
        if spec == "f":
            return v.fixed(max(0, -v.exp))
        raise Unsupported("decimal format " + spec)
    if isinstance(v, SymInt):
        if spec == "d":
            return int_str(v)
        if spec[-1] in "xX" and (spec == spec[-1] or (spec[0] == "0" and spec[1:-1].isdigit())):
            return hex_text(v, int(spec[1:-1] or 1), spec[-1] == "X")
        if spec[0] == "0" and spec[-1] == "d" and spec[1:-1].isdigit():
            return SymStr((NumA(v.e, int(spec[1:-1])),)) if bool(v >= 0) else Unsupported("format")
        if spec == ",":
            raise Unsupported("format ,")
        m = _plain_re.fullmatch(r"(?:(.)?([<>=^]))?(0?)(\d+)([dxX]?)", spec)
        if m:
            t = fmt_value(v, m.group(5) or "d")
            fill = m.group(1) or ("0" if m.group(3) else " ")
            return pad(t, int(m.group(4)), m.group(2) or ">", fill)
        m = _plain_re.fullmatch(r"0?(\d*)b", spec)
        if m:
            n = v_bits(v)
            n = max(n, int(m.group(1) or 1))
            return v_join("", [v_str((v >> (n - 1 - i)) % 2) for i in range(n)])
        raise Unsupported("int format " + spec)
    if isinstance(v, SymStr):
        m = _plain_re.fullmatch(r"(?:(.)?([<>^]))?(\d*)s?", spec)
        if m:
            return pad(v, int(m.group(3) or 0), m.group(2) or "<", m.group(1) or " ")
        raise Unsupported("str format " + spec)
    if isinstance(v, Sym):
        raise Unsupported("format spec")
    f = user_method(v, "__format__")
    if f:
        return f(v, spec)
    return _b.format(v, spec)


def fstr(*parts):
    out = ""
    for p in parts:
        if _real_type(p) is str:
            out = out + p
        else:
            v, conv, spec = p
            if conv == 114:
                v = v_repr(v)
            elif conv == 115:
                v = v_str(v)
            elif conv == 97:
                v = _b.ascii(lower(v))
            out = out + (fmt_value(v, spec) if (need_own(v) or spec) else _b.format(v, ""))
    return out


def mod(a, b):
    if isinstance(a, str) and (need_own(b) if not isinstance(b, tuple) else any(need_own(x) for x in b)):
        return percent(a, b if isinstance(b, tuple) else (b,))
    return a % b


def percent(t, args):
    import re as _re
    out = ""
    pos = 0
    i = 0
    for m in _re.finditer(r"%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([sdrifxX%])", t):
        out = out + t[pos:m.start()]
        pos = m.end()
        c = m.group(5)
        if c == "%":
            out = out + "%"
            continue
        if m.group(1):
            v = getitem(args[0], m.group(1))
        else:
            v = args[i]
            i += 1
        if c == "s" and not m.group(3):
            out = out + v_str(v)
        elif c == "r":
            out = out + v_repr(v)
        elif c in "di" and not m.group(3):
            out = out + v_str(v_int(v))
        elif c in "xX" and m.group(2) in ("", "0") and (m.group(2) or not m.group(3)) and isinstance(v, SymInt):
            out = out + hex_text(v, int(m.group(3) or 1), c == "X")
        elif isinstance(v, Sym) and c in "dixX" and m.group(2) in ("", "0", "-"):
            w = fmt_value(v_int(v), (m.group(2) if m.group(2) == "0" else "") + m.group(3) + c.replace("i", "d")) if m.group(2) != "-" else \
                fmt_value(v_int(v), "<" + m.group(3) + c.replace("i", "d"))
            out = out + w
        elif isinstance(v, Sym) and c == "s" and m.group(2) in ("", "-"):
            out = out + pad(v_str(v), int(m.group(3)), "<" if m.group(2) else ">", " ")
        elif isinstance(v, Sym):
            raise Unsupported("% format")
        else:
            out = out + (m.group(0) % v)
    return out + t[pos:]


def veq(a, b):
    """Structural equality as one condition (no fork) of native containers of symbolic leaves."""
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = (a == b)
        return False if r is NotImplemented else r
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return vand([veq(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return vand([veq(x, y) for x, y in zip(a, b)])
    return a == b


# ------------------------------------------------------------------------------------------- hashlib
class HashFn:
    """A cryptographic hash as an injective function (collision resistance is assumed).

    Concrete inputs get their real digest; symbolic inputs an uninterpreted one that agrees with every other
    digest of the same function on this path exactly when the inputs agree."""
    __vp_safe__ = True

    def __init__(self, name, size, real):
        self.name, self.size, self.real = name, size, real

    def __call__(self, items):
        items = tuple(items)
        if any(isinstance(i, V.Opaque) for i in items):
            raise Unsupported("hash of an opaque byte run")
        if not E.active:
            return tuple(self.real(_b.bytes(items)))
        table = E.hashes.setdefault((self.name, self.size), [])
        key = tuple(i if isinstance(i, int) else ("e", i.get_id()) for i in items)
        hit = E.hash_keys.get((self.name, self.size, key))
        if hit is not None:
            return hit
        conc = all(isinstance(i, int) for i in items)
        d = None
        if conc:
            out = tuple(self.real(_b.bytes(items)))
        else:
            out = tuple(E.fresh_int("h", 0, 255) for _ in range(self.size))
            d = V.Digest(self.name, out, E.fresh_int("H", 0, 256 ** self.size - 1))
            if out:
                E.digests[out[0].get_id()] = d
        for ins, o, d2 in table:
            if d is None and d2 is None:
                continue
            ei = V.be(V.items_eq(ins, items))
            if d is not None and d2 is not None:
                E.add(ei == (d.num == d2.num))
                if not z3.is_false(ei):
                    E.add(z3.Implies(d.num == d2.num, z3.And([x == y for x, y in zip(out, d2.out)])))
            elif d is not None:
                V.digest_is(d, o, ei)
            else:
                V.digest_is(d2, out, ei)
        table.append((items, out, d))
        E.hash_keys[(self.name, self.size, key)] = out
        E.hash_order.append((self, items, out))
        return out


class HashObj:
    __vp_safe__ = True

    def __init__(self, fn, data=b""):
        self.fn = fn
        self.items = ()
        self.name = fn.name
        self.digest_size = fn.size
        self.update(data)

    def update(self, data):
        it = tobytes_items(data)
        if it is None:
            if isinstance(data, (str, SymStr)):
                raise TypeError("Strings must be encoded before hashing")
            raise TypeError("object supporting the buffer API required")
        self.items = self.items + it

    def digest(self):
        r = SymBytes(self.fn(self.items))
        return r.native() if r.concrete() else r

    def hexdigest(self):
        return mcall(self.digest(), "hex")

    def copy(self):
        h = HashObj(self.fn)
        h.items = self.items
        return h


class HashlibStub:
    __vp_safe__ = True

    def blake2b(self, data=b"", *, digest_size=64, key=b"", **kw):
        if isinstance(digest_size, SymInt):
            digest_size = E.enumerate(digest_size.e)
        if kw:
            raise Unsupported("blake2b parameters")
        key_items = tobytes_items(key)
        if key_items:
            raise Unsupported("keyed blake2b")
        return HashObj(HashFn("blake2b", digest_size,
                              lambda b: _hashlib.blake2b(b, digest_size=digest_size).digest()), data)

    def _std(name):
        def f(self, data=b"", **kw):
            sz = getattr(_hashlib, name)().digest_size
            return HashObj(HashFn(name, sz, lambda b: getattr(_hashlib, name)(b).digest()), data)
        f.__vp_safe__ = True
        return f
    sha256 = _std("sha256")
    sha512 = _std("sha512")
    sha1 = _std("sha1")
    sha384 = _std("sha384")
    md5 = _std("md5")
    sha3_256 = _std("sha3_256")
    blake2s = _std("blake2s")

    def new(self, name, data=b"", **kw):
        return getattr(self, name)(data, **kw)

    def __getattr__(self, n):
        return getattr(_hashlib, n)


# --------------------------------------------------------------------------------------------- base64
class Base64Stub:
    __vp_safe__ = True

    def b64encode(self, b, altchars=None):
        it = tobytes_items(b)
        if it is None:
            raise TypeError("a bytes-like object is required, not '%s'" % kind(b).__name__)
        if any(isinstance(x, V.Opaque) for x in it):
            raise Unsupported("base64 of an opaque run")
        if all(isinstance(x, int) for x in it):
            return _base64.b64encode(_b.bytes(it))
        out = []
        for i in range(0, len(it), 3):
            chunk = it[i:i + 3]
            if all(isinstance(x, int) for x in chunk):
                out += list(_base64.b64encode(_b.bytes(chunk)))
                continue
            key = ("b64",) + tuple(x if isinstance(x, int) else ("e", x.get_id()) for x in chunk)
            g = E.memo.get(key)
            if g is None:
                g = E.memo[key] = B64Group(chunk)
            out += [B64C(g, j) for j in range(len(chunk) + 1)] + [61] * (3 - len(chunk))
        return SymBytesB64(out)

    def b64decode(self, s, altchars=None, validate=False):
        if isinstance(s, SymBytes):
            s = mkstr(s.items)
        if not isinstance(s, SymStr):
            r = _base64.b64decode(s.native() if isinstance(s, SymBytes) else s, altchars, validate)
            return r
        it = SymStr(s.items).expand()
        sx, groups, pad = [], [], 0
        for c in it:
            if isinstance(c, B64C):
                sx.append(c)
                continue
            if bool(V.ch_in(c, (61,))):
                pad += 1
                continue
            if pad:
                raise Unsupported("base64 data after padding")
            v = b64_val(c)
            if v is None:
                continue          # non-alphabet characters are discarded
            sx.append(v)
        n = len(sx)
        if n % 4 == 1:
            import binascii
            raise binascii.Error("Invalid base64-encoded string")
        if (n + pad) % 4 and n % 4 + pad < 4:
            import binascii
            raise binascii.Error("Incorrect padding")
        out = []
        for i in range(0, n, 4):
            q = sx[i:i + 4]
            if isinstance(q[0], B64C) and all(isinstance(x, B64C) and x.group is q[0].group and x.i == j
                                              for j, x in enumerate(q)) and len(q) == len(q[0].group.bytes) + 1:
                out += list(q[0].group.bytes)
                continue
            vals = [x.sext() if isinstance(x, B64C) else x for x in q]
            while len(vals) < 4:
                vals.append(0)
            val = vals[0] * 262144 + vals[1] * 4096 + vals[2] * 64 + vals[3]
            if isinstance(val, int):
                bs = list(val.to_bytes(3, "big"))
            else:
                bs = list(V.byte_split(val, 3))
            out += bs[:len(q) - 1]
        r = SymBytes(out)
        return r.native() if r.concrete() else r

    standard_b64encode = b64encode
    standard_b64decode = b64decode

    def __getattr__(self, n):
        return getattr(_base64, n)


def b64_val(c):
    A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    if isinstance(c, int):
        return A.index(chr(c)) if chr(c) in A else None
    e = V.code_of(c)
    if not bool(V.rng(e, [ord(x) for x in A])):
        return None
    return z3.If(z3.And(e >= 65, e <= 90), e - 65, z3.If(z3.And(e >= 97, e <= 122), e - 71,
                 z3.If(z3.And(e >= 48, e <= 57), e + 4, z3.If(e == 43, z3.IntVal(62), z3.IntVal(63)))))


class SymBytesB64(SymBytes):
    """ASCII bytes that are base64 characters (kept as provenance items)."""
    __slots__ = ()

    def decode(self, *a, **k):
        return mkstr(self.items)

    def concrete(self):
        return False


# ---------------------------------------------------------------------------------------- other stubs
class DecimalStub:
    __vp_safe__ = True

    def __init__(self):
        self.Decimal = PROXIES[_Dec]

    def __getattr__(self, n):
        return getattr(_decimal, n)


def v_decimal(*a, **k):
    if not a:
        return _Dec()
    x = a[0]
    if isinstance(x, SymDecimal):
        return x
    if isinstance(x, SymInt):
        return SymDecimal(x, 0)
    if isinstance(x, SymBool):
        return SymDecimal(x._i(), 0)
    if isinstance(x, SymStr):
        return V.parse_decimal(x)
    if isinstance(x, (tuple, list)) and has_sym(x):
        s, ds, e = x
        if isinstance(ds, V.LazyDigits):
            c = abs(ds.t.d.coef)
            return mkdec_exact(-c if bool(s == 1) else c, e if isinstance(e, int) else E.enumerate(e.e))
        raise Unsupported("Decimal from digits")
    if isinstance(x, tuple) and len(x) == 3 and isinstance(x[1], V.LazyDigits):
        c = abs(x[1].t.d.coef)
        return mkdec_exact(-c if x[0] == 1 else c, x[2])
    return _Dec(*a, **k)


class ReStub:
    __vp_safe__ = True

    def __init__(self):
        import re
        self.r = re
        self.cachep = {}

    def compile(self, p, flags=0):
        if isinstance(p, Pattern):
            return p
        if not isinstance(p, str):
            return self.r.compile(p, flags)
        key = (p, int(flags))
        if key not in self.cachep:
            self.cachep[key] = Pattern(p, flags)
        return self.cachep[key]

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def sub(self, p, r, s, count=0, flags=0):
        if not isinstance(s, SymStr):
            return self.r.sub(p.real if isinstance(p, Pattern) else p, r, s, count, flags)
        # one-character patterns only: every character is replaced on its own
        src = p.real.pattern if isinstance(p, Pattern) else p
        parsed = list(self.r._parser.parse(src, flags))
        if len(parsed) == 1 and str(parsed[0][0]) == "MAX_REPEAT" and not r and parsed[0][1][0] == 1:
            parsed = list(parsed[0][1][2])
        if count or not isinstance(r, str) or "\\" in r or len(parsed) != 1 or str(parsed[0][0]) not in ("LITERAL", "IN", "NOT_LITERAL"):
            raise Unsupported("re.sub")
        pat = self.compile(p, flags)
        out = ""
        for c in s:
            out = out + (r if pat.match(c) else c)
        return out

    def __getattr__(self, n):
        f = getattr(self.r, n)
        if n == "sub":
            return self.sub
        if not callable(f) or isinstance(f, (_real_type, _enum.EnumMeta)):
            return f

        def g(*a, **k):
            a = tuple(x.real if isinstance(x, Pattern) else x for x in a)
            return f(*a, **k)
        return g


def rnd_input(lo, hi):
    """The next value of the random source: an input of the run."""
    v = E.fresh_int("rnd", lo, hi)
    k = sum(1 for n, _, _ in E.inputs if n.startswith("rnd#"))
    E.inputs.append(("rnd#%d" % k, "int", v))
    E.env.setdefault("draws", []).append((hi - lo + 1, v))
    return v


class RandomStub:
    """Randomness is an environment input: the harness supplies the stream."""
    __vp_safe__ = True

    def _src(self):
        return E.env.get("random")

    def randint(self, a, b):
        s = self._src()
        if s is None:
            if E.active:
                return mkint(rnd_input(lower_b(a), lower_b(b)))
            return _random.randint(a, b)
        return s("randint", a, b)

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        return self.randint(a, b - 1)

    def choice(self, xs):
        return xs[self.randint(0, len(xs) - 1)]

    def random(self):
        raise Unsupported("random.random")

    def randbytes(self, n):
        if not E.active or self._src() is not None:
            return _random.randbytes(n)
        return SECRETS.token_bytes(n)

    def getrandbits(self, n):
        if not E.active or self._src() is not None:
            return _random.getrandbits(n)
        return mkint(rnd_input(0, (1 << n) - 1))

    def choices(self, xs, weights=None, *, cum_weights=None, k=1):
        if not E.active or self._src() is not None or weights or cum_weights:
            return _random.choices(xs, weights, cum_weights=cum_weights, k=k)
        return [self.choice(xs) for _ in range(k)]

    def shuffle(self, xs):
        s = self._src()
        if s is None:
            if not E.active:
                return _random.shuffle(xs)
            n = len(xs)
            for i in reversed(range(1, n)):
                r = rnd_input(0, i)
                if n > 5 and 2 < i < n - 1:  # of a long list only these orders: any element last, any order of the first three
                    E.assume(r == i)
                j = E.enumerate(r)
                xs[i], xs[j] = xs[j], xs[i]
            return None
        return s("shuffle", xs)

    def sample(self, xs, k):
        ys = list(xs)
        self.shuffle(ys)
        return ys[:k]

    def SystemRandom(self, *a):
        return self

    def seed(self, *a):
        return None

    def __getattr__(self, n):
        return getattr(_random, n)


def lower_b(x):
    return x if isinstance(x, int) else x.e


class SecretsStub:
    __vp_safe__ = True

    def token_bytes(self, n=32):
        if not E.active:
            return _random.randbytes(n)
        return SymBytes([rnd_input(0, 255) for _ in range(n)])

    def token_hex(self, n=32):
        return self.token_bytes(n).hex()

    def randbelow(self, n):
        if not E.active:
            return _random.randrange(n)
        return mkint(rnd_input(0, n - 1))

    def randbits(self, n):
        return self.randbelow(1 << n)

    def choice(self, xs):
        return xs[self.randbelow(len(xs))]

    def __getattr__(self, n):
        import secrets
        return getattr(secrets, n)


class OsStub:
    __vp_safe__ = True

    def urandom(self, n):
        return SECRETS.token_bytes(n)

    def __getattr__(self, n):
        import os
        return getattr(os, n)


class SymStamp(Sym):
    """datetime.timestamp() of the symbolic now."""
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __int__(self):
        return self.i

    __trunc__ = __floor__ = __int__


class SymNow(Sym):
    """A (naive, local or aware) datetime standing for a symbolic number of seconds since the epoch."""
    __vp_safe__ = True
    __slots__ = ("i",)
    KIND = _datetime.datetime

    def __init__(self, i):
        self.i = i

    def timestamp(self):
        return SymFloat(self.i) if isinstance(self.i, Sym) else float(self.i)

    def __add__(self, d):
        if isinstance(d, (_datetime.timedelta, VTimedeltaSecs)):
            return SymNow(self.i + secs_of(d))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, d):
        if isinstance(d, (_datetime.timedelta, VTimedeltaSecs)):
            return SymNow(self.i - secs_of(d))
        if isinstance(d, SymNow):
            return VTimedeltaSecs(self.i - d.i)
        if isinstance(d, _datetime.datetime):
            return VTimedeltaSecs(self.i - int(d.timestamp()))
        return NotImplemented

    def __getattr__(self, n):
        raise Unsupported("datetime." + n)


def secs_of(d):
    if isinstance(d, VTimedeltaSecs):
        return d.s
    t = d.total_seconds()
    if t != int(t):
        raise Unsupported("fractional timedelta")
    return int(t)


def _cmp_secs(get):
    def mk(op):
        def f(self, o):
            v = get(o)
            if v is None:
                return NotImplemented
            return op(get(self), v)
        return f
    return mk


def _now_secs(x):
    if isinstance(x, SymNow):
        return x.i
    if isinstance(x, _datetime.datetime):
        return int(x.timestamp())
    return None


def _td_secs(x):
    if isinstance(x, VTimedeltaSecs):
        return x.s
    if isinstance(x, _datetime.timedelta):
        return secs_of(x)
    return None


class NowMeta(_real_type(_datetime.datetime)):
    pass


class VDatetime(_datetime.datetime):
    """datetime.datetime whose now() is the harness's clock."""

    @classmethod
    def now(cls, tz=None):
        n = E.env.get("now")
        if n is not None:
            n = n() if callable(n) else n
            if isinstance(n, Sym):
                return SymNow(n)
            return _datetime.datetime.fromtimestamp(n, tz)
        return _datetime.datetime.now(tz)

    @classmethod
    def utcnow(cls):
        return cls.now(_datetime.timezone.utc)

    @classmethod
    def fromtimestamp(cls, ts, tz=None):
        if isinstance(ts, (SymInt, SymFloat)) and tz is None:
            return SymNow(ts if isinstance(ts, SymInt) else ts.i)
        return _datetime.datetime.fromtimestamp(lower(ts) if not isinstance(ts, SymFloat) else E.pin(ts.i.e), tz)


class VTimedeltaSecs(Sym):
    """timedelta of exactly-integer symbolic components."""
    __vp_safe__ = True
    __slots__ = ("s",)
    KIND = _datetime.timedelta

    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return SymFloat(self.s) if isinstance(self.s, Sym) else float(self.s)


    def __add__(self, o):
        if isinstance(o, SymNow):
            return SymNow(o.i + self.s)
        v = _td_secs(o)
        return NotImplemented if v is None else VTimedeltaSecs(self.s + v)

    __radd__ = __add__

    def __sub__(self, o):
        v = _td_secs(o)
        return NotImplemented if v is None else VTimedeltaSecs(self.s - v)

    @property
    def days(self):
        return self.s // 86400

    @property
    def seconds(self):
        return self.s % 86400

    microseconds = 0

    def __bool__(self):
        return bool(self.s != 0)


for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(SymNow, "__%s__" % _n, _cmp_secs(_now_secs)(getattr(_operator, _n)))
    setattr(VTimedeltaSecs, "__%s__" % _n, _cmp_secs(_td_secs)(getattr(_operator, _n)))


def v_timedelta(*a, **k):
    if not is_sym_deep(a) and not is_sym_deep(k):
        return _datetime.timedelta(*a, **k)
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    vals = dict(zip(names, a))
    vals.update(k)
    mul = {"days": 86400, "seconds": 1, "minutes": 60, "hours": 3600, "weeks": 604800}
    t = 0
    for n, v in vals.items():
        if n not in mul:
            raise Unsupported("timedelta " + n)
        v = v.i if isinstance(v, SymFloat) else exact_int(v)
        t = t + v * mul[n]
    if isinstance(t, SymInt):
        E.note("timedelta range is assumed")
    return VTimedeltaSecs(t)


class DatetimeStub:
    __vp_safe__ = True

    def __init__(self):
        self.datetime = PROXIES[_datetime.datetime]
        self.timedelta = PROXIES[_datetime.timedelta]

    def __getattr__(self, n):
        return getattr(_datetime, n)


class TimeStub:
    __vp_safe__ = True

    def time(self):
        n = E.env.get("now")
        if n is None:
            return _time.time()
        n = n() if callable(n) else n
        return SymFloat(n) if isinstance(n, Sym) else float(n)

    def localtime(self, t=None):
        if isinstance(t, Sym):
            return SymTimeTuple(t)
        return _time.localtime() if t is None else _time.localtime(t)

    def gmtime(self, t=None):
        return self.localtime(t) if isinstance(t, Sym) else _time.gmtime() if t is None else _time.gmtime(t)

    def strftime(self, fmt, t=None):
        if not isinstance(t, SymTimeTuple):
            return _time.strftime(fmt) if t is None else _time.strftime(fmt, t)
        if t.fields or E.env.get("dates"):
            return time_text(fmt, t)
        n = len(_time.strftime(fmt, _time.gmtime(1600000000)))
        E.note("dates of symbolic times are unknown texts")
        return mkstr([E.fresh_int("date", 32, 126) for _ in range(n)])

    def strptime(self, text, fmt="%a %b %d %H:%M:%S %Y"):
        if not isinstance(text, SymStr):
            return _time.strptime(text, fmt)
        return read_time(text, fmt)

    def mktime(self, t):
        if not isinstance(t, SymTimeTuple):
            return _time.mktime(t)
        y, m, d, hh, mm, ss = t.parts()
        return SymFloat((days_of(y, m, d) * 24 + hh) * 3600 + mm * 60 + ss)

    def __getattr__(self, n):
        return getattr(_time, n)


class SymTimeTuple:
    """The calendar form (UTC) of a symbolic moment, or of a date read from a symbolic text."""
    __vp_safe__ = True

    def __init__(self, epoch=None, fields=None):
        self.epoch, self.fields = epoch, fields

    def parts(self):
        if self.fields is None:
            t = self.epoch
            t = t.i if isinstance(t, SymFloat) else t
            if isinstance(t, SymDecimal):
                t = t.__int__()
            self.fields = civil(t)
        return self.fields

    def __getattr__(self, n):
        names = ["tm_year", "tm_mon", "tm_mday", "tm_hour", "tm_min", "tm_sec"]
        if n in names:
            return self.parts()[names.index(n)]
        raise Unsupported("calendar field " + n)

    def __getitem__(self, k):
        if k in range(6):
            return self.parts()[k]
        raise Unsupported("calendar field")


_BEFORE = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
_LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def _ie(v):
    return z3.IntVal(v) if isinstance(v, int) else V.ie(v)


def _tab(m, xs):
    r = z3.IntVal(xs[-1])
    for k in range(len(xs) - 2, -1, -1):
        r = z3.If(_ie(m) == k + 1, z3.IntVal(xs[k]), r)
    return r


def _leap(y):
    y = _ie(y)
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def days_of(y, m, d):
    """Days from 1970-01-01 to a date of the proleptic Gregorian calendar."""
    p = _ie(y) - 1
    return mkint(p * 365 + p / 4 - p / 100 + p / 400 + _tab(m, _BEFORE)
                 + z3.If(z3.And(_ie(m) > 2, _leap(y)), 1, 0) + _ie(d) - 719163)


def month_days(y, m):
    return mkint(_tab(m, _LEN) + z3.If(z3.And(_ie(m) == 2, _leap(y)), 1, 0))


def civil(t):
    if not (t >= 0) or not (t < 253402300800):
        raise Unsupported("calendar form of a time before 1970 or after 9999")
    year = _time.gmtime(E.pick(_ie(t))).tm_year  # most often the only one
    lo, hi = (_datetime.date(k, 1, 1).toordinal() - 719163 if k < 10000 else 2932897 for k in (year, year + 1))
    if E.must(z3.And(_ie(t) >= lo * 86400, _ie(t) < hi * 86400)):
        y = year
    else:
        y = mkint(E.fresh_int("year", 1970, 9999))
    m, d = (mkint(E.fresh_int(n, 1, hi)) for n, hi in (("month", 12), ("day", 31)))
    days = t // 86400
    E.add(_ie(days_of(y, m, d)) == _ie(days))
    E.add(_ie(d) <= _ie(month_days(y, m)))
    s = t % 86400
    return [y, m, d, s // 3600, (s // 60) % 60, s % 60]


def time_text(fmt, t):
    out, i = [], 0
    pos = {"Y": (0, "04d"), "m": (1, "02d"), "d": (2, "02d"), "H": (3, "02d"), "M": (4, "02d"), "S": (5, "02d")}
    while i < len(fmt):
        if fmt[i] != "%":
            out.append(fmt[i])
            i += 1
            continue
        c = fmt[i + 1]
        i += 2
        if c in pos:
            out.append(fmt_value(t.parts()[pos[c][0]], pos[c][1]))
        elif c == "%":
            out.append("%")
        elif c in "FT":
            out.append(time_text("%Y-%m-%d" if c == "F" else "%H:%M:%S", t))
        else:
            raise Unsupported("date format %" + c)
    return v_join("", out)


def read_time(text, fmt):
    """time.strptime of a symbolic text: the library's own expression for the format, its rules for the fields."""
    import _strptime
    _time.strptime("2000", "%Y")
    m = Pattern(_strptime._TimeRE_cache.pattern(fmt), _plain_re.IGNORECASE).match(text)
    if not m:
        raise ValueError("time data does not match format %r" % fmt)
    if m.end() != v_len(text):
        raise ValueError("unconverted data remains")
    g = {k: v for k, v in m.groupdict().items()}
    if any(k not in "yYmdHIpMS" for k in g):
        raise Unsupported("date format " + fmt)
    num = {k: v_int(v_strip(v)) for k, v in g.items() if k != "p"}
    y = num.get("Y", 1900)
    if "y" in num:
        y = num["y"] + 2000 if num["y"] <= 68 else num["y"] + 1900
    hh = num.get("H", 0)
    if "I" in num:
        hh = num["I"]
        p = g.get("p", "").lower()
        if p in ("", "am"):
            hh = 0 if hh == 12 else hh
        elif hh != 12:
            hh = hh + 12
    mo, d = num.get("m", 1), num.get("d", 1)
    if y < 1 or d > month_days(y, mo):
        raise ValueError("day is out of range for month")
    return SymTimeTuple(fields=[y, mo, d, hh, num.get("M", 0), num.get("S", 0)])


def v_strip(s):
    return s.strip()


class JsonStub:
    __vp_safe__ = True

    def dumps(self, obj, *a, **k):
        if is_sym_deep(obj, 12):
            return JsonDoc(jcopy(obj))
        k.pop("cls", None)
        return _json.dumps(unb(obj), *a, **k)

    def loads(self, s, *a, **k):
        if isinstance(s, JsonDoc):
            return jcopy(s.obj)
        if isinstance(s, SymStr):
            raise Unsupported("JSON text")
        if isinstance(s, SymBytes):
            s = s.native()
        return _json.loads(s, *a, **k)

    def __getattr__(self, n):
        return getattr(_json, n)


def unb(o):
    if isinstance(o, dict):
        return {k: unb(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [unb(v) for v in o]
    return o


def jcopy(o):
    if isinstance(o, dict):
        return {k: jcopy(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jcopy(v) for v in o]
    if isinstance(o, (Sym, str, int, float, bool)) or o is None:
        return o
    raise TypeError("Object of type %s is not JSON serializable" % _real_type(o).__name__)


class MathStub:
    __vp_safe__ = True

    def floor(self, x):
        return x.__floor__() if isinstance(x, Sym) else self.m().floor(x)

    def ceil(self, x):
        return x.__ceil__() if isinstance(x, Sym) else self.m().ceil(x)

    def m(self):
        import math
        return math

    def __getattr__(self, n):
        return getattr(self.m(), n)


class StructStub:
    """struct.pack and unpack of fixed-width integers and byte strings."""
    __vp_safe__ = True
    SIZE = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}

    def _parse(self, fmt):
        order = "little"
        if fmt[:1] in "<>!=":
            order = "big" if fmt[0] in ">!" else "little"
            fmt = fmt[1:]
        elif fmt[:1] == "@" or not all(c in "bBx0123456789s?" for c in fmt):
            raise Unsupported("native struct layout")
        return order, [(int(n or 1), c, bool(n)) for n, c in _plain_re.findall(r"(\d*)([a-zA-Z?])", fmt)]

    def pack(self, fmt, *a):
        if not any(isinstance(x, Sym) for x in a):
            return self._m().pack(fmt, *a)
        order, parts = self._parse(fmt)
        out, a = [], list(a)
        for n, c, _ in parts:
            if c == "s":
                x = tobytes_items(a.pop(0))[:n]
                out += list(x) + [0] * (n - len(x))
                continue
            if c == "x":
                out += [0] * n
                continue
            for _ in range(n):
                x = a.pop(0)
                if c == "?":
                    out.append(1 if x else 0)
                    continue
                if c not in self.SIZE:
                    raise Unsupported("struct format " + c)
                if not isinstance(x, (int, SymInt, SymBool)):
                    raise self.error("required argument is not an integer")
                w = 8 * self.SIZE[c]
                lo, hi = (0, 2 ** w - 1) if c.isupper() else (-2 ** (w - 1), 2 ** (w - 1) - 1)
                if not (x >= lo and x <= hi):
                    raise self.error("argument out of range")
                if lo and x < 0:
                    x = x + 2 ** w
                out += list(tobytes_items(x.to_bytes(w // 8, order)))
        return SymBytes(tuple(out))

    def unpack(self, fmt, data):
        its = tobytes_items(data)
        if not isinstance(data, Sym):
            return self._m().unpack(fmt, data)
        order, parts = self._parse(fmt)
        res, p = [], 0
        for n, c, rep in parts:
            if c == "s":
                res.append(SymBytes(its[p:p + n]))
                p += n
                continue
            for _ in range(n):
                w = 1 if c in "x?" else self.SIZE[c]
                if c != "x":
                    x = v_from_bytes(SymBytes(its[p:p + w]), order)
                    if c == "?":
                        x = x != 0
                    elif c.islower() and x >= 2 ** (8 * w - 1):
                        x = x - 2 ** (8 * w)
                    res.append(x)
                p += w
        if p != len(its):
            raise self.error("unpack requires a buffer of %d bytes" % p)
        return tuple(res)

    def unpack_from(self, fmt, data, offset=0):
        n = self._m().calcsize(fmt)
        return self.unpack(fmt, data[offset:offset + n])

    def Struct(self, fmt):
        return _Struct(self, fmt)

    def _m(self):
        import struct
        return struct

    def __getattr__(self, n):
        return getattr(self._m(), n)


class _Struct:
    __vp_safe__ = True

    def __init__(self, stub, fmt):
        self.pack = lambda *a: stub.pack(fmt, *a)
        self.unpack = lambda d: stub.unpack(fmt, d)
        self.unpack_from = lambda d, offset=0: stub.unpack_from(fmt, d, offset)
        self.size = stub._m().calcsize(fmt)
        self.format = fmt
        self.pack.__vp_safe__ = self.unpack.__vp_safe__ = self.unpack_from.__vp_safe__ = True


class BinasciiStub:
    __vp_safe__ = True

    def hexlify(self, data, *a):
        if a or not isinstance(data, Sym):
            return self._m().hexlify(lower(data), *a)
        return mcall(data.hex(), "encode", "ascii")

    b2a_hex = hexlify

    def unhexlify(self, s):
        if isinstance(s, SymBytes):
            s = s.decode("ascii")
        if not isinstance(s, SymStr):
            return self._m().unhexlify(s)
        for c in s:
            if contains(" \t\n\r\f\v", c):
                raise self._m().Error("Non-hexadecimal digit found")
        if len(s) % 2:
            raise self._m().Error("Odd-length string")
        try:
            return v_fromhex(False)(s)
        except ValueError:
            raise self._m().Error("Non-hexadecimal digit found")

    a2b_hex = unhexlify

    def _m(self):
        import binascii
        return binascii

    def __getattr__(self, n):
        return getattr(self._m(), n)


class HmacStub:
    __vp_safe__ = True

    def compare_digest(self, a, b):
        return a == b

    def __getattr__(self, n):
        import hmac
        return getattr(hmac, n)


class CollectionsStub:
    __vp_safe__ = True

    def Counter(self, xs=(), **k):
        r = _co.Counter()
        for x in xs:
            setitem(r, x, getitem(r, x) + 1)
        r.update(k)
        return r

    def __getattr__(self, n):
        f = getattr(_co, n)
        if n == "namedtuple":
            def mk(*a, **k):
                t = f(*a, **k)
                t.__vp_safe__ = True
                return t
            return mk
        return f


class FunctoolsStub:
    __vp_safe__ = True

    def lru_cache(self, maxsize=128, typed=False):
        def deco(f):
            memo = []

            @_functools.wraps(f)
            def g(*a, **k):
                for b, r in memo:
                    if b == (a, k):
                        return r
                r = f(*a, **k)
                memo.append(((a, k), r))
                return r
            g.__vp_safe__ = True
            g.cache_clear = memo.clear
            return g
        if callable(maxsize):
            return deco(maxsize)
        deco.__vp_safe__ = True
        return deco

    def cache(self, f):
        return self.lru_cache(f)

    def __getattr__(self, n):
        return getattr(_functools, n)


def boolret(f):
    """__bool__ has to give a real bool."""
    @_functools.wraps(f)
    def g(self):
        return _b.bool(f(self))
    return g


def v_memoryview(x):
    return x if isinstance(x, Sym) else _b.memoryview(x)


def d_fromkeys(xs, v=None):
    r = {}
    for x in xs:
        if not contains(r, x):
            setitem(r, x, v)
    return r


def s_maketrans(*a):
    return _b.str.maketrans(*[lower(x) for x in a])


def _ext(**k):
    for f in k.values():
        try:
            f.__vp_safe__ = True
        except AttributeError:
            pass
    return k


def build():
    P = PROXIES
    P[int] = TypeProxy(int, v_int, _ext(from_bytes=v_from_bytes))
    P[str] = TypeProxy(str, v_str, _ext(maketrans=s_maketrans))
    P[bytes] = TypeProxy(bytes, v_bytes, _ext(fromhex=v_fromhex(False)))
    P[bytearray] = TypeProxy(bytearray, v_bytearray, _ext(fromhex=v_fromhex(True)))
    P[bool] = TypeProxy(bool, v_bool)
    P[float] = TypeProxy(float, v_float)
    P[_Dec] = TypeProxy(_Dec, v_decimal)
    P[set] = TypeProxy(set, v_set)
    P[frozenset] = TypeProxy(frozenset, v_frozenset)
    P[dict] = TypeProxy(dict, v_dict, _ext(fromkeys=d_fromkeys))
    P[_datetime.datetime] = TypeProxy(_datetime.datetime, VDatetime,
                                      {n: getattr(VDatetime, n) for n in ("now", "utcnow", "fromtimestamp")})
    P[_datetime.timedelta] = TypeProxy(_datetime.timedelta, v_timedelta)


build()
SECRETS = SecretsStub()
STUBS = {
    "hashlib": HashlibStub(), "base64": Base64Stub(), "decimal": DecimalStub(), "re": ReStub(),
    "random": RandomStub(), "secrets": SECRETS, "os": OsStub(), "datetime": DatetimeStub(), "time": TimeStub(),
    "json": JsonStub(), "math": MathStub(), "struct": StructStub(), "binascii": BinasciiStub(), "hmac": HmacStub(),
    "collections": CollectionsStub(), "functools": FunctoolsStub(),
}
EXTRA_STUBS = {}

BUILTINS = dict(vars(_b))
BUILTINS.update({
    "int": PROXIES[int], "str": PROXIES[str], "bytes": PROXIES[bytes], "bytearray": PROXIES[bytearray],
    "bool": PROXIES[bool], "float": PROXIES[float], "set": PROXIES[set], "frozenset": PROXIES[frozenset], "dict": PROXIES[dict],
    "len": v_len, "isinstance": v_isinstance, "issubclass": v_issubclass, "type": v_type, "hash": v_hash,
    "range": v_range, "ord": v_ord, "chr": v_chr, "hex": v_hex, "divmod": v_divmod, "pow": v_pow, "round": v_round,
    "repr": v_repr, "format": v_format, "sum": v_sum, "print": v_print, "abs": v_abs, "hasattr": v_hasattr,
    "getattr": v_getattr, "memoryview": v_memoryview,
})
for _f in (v_len, v_isinstance, v_issubclass, v_type, v_hash, v_range, v_ord, v_chr, v_hex, v_divmod, v_pow, v_round,
           v_repr, v_format, v_sum, v_print, v_abs, v_hasattr, v_getattr, v_timedelta, v_memoryview):
    _f.__vp_safe__ = True


class VP:
    """Namespace the rewritten code calls into."""
    boolret = staticmethod(boolret)
    mkset = staticmethod(v_set)
    mkdict = staticmethod(mkdict)
    call = staticmethod(call)
    mcall = staticmethod(mcall)
    v_in = staticmethod(v_in)
    v_notin = staticmethod(v_notin)
    getitem = staticmethod(getitem)
    setitem = staticmethod(setitem)
    delitem = staticmethod(delitem)
    augitem = staticmethod(augitem)
    fstr = staticmethod(fstr)
    mod = staticmethod(mod)
