"""Symbolic proxies for int, bool, bytes/bytearray, str and Decimal.

Python integers are mathematical integers, so z3's Int sort is exact.  A byte is an Int in 0..255, a string is
a rope of characters (code points), a decimal is an integer coefficient with a concrete exponent.  Values that
are only re-encodings of one another (hex digits of a byte, decimal rendering of an integer, base64 of bytes)
keep that provenance, so that decode(encode(x)) folds back to x without the solver.
"""
import decimal as _dec
import z3
from .core import E, Unsupported

_Dec = _dec.Decimal
INT = z3.IntVal


class Sym:
    """Base of all symbolic proxies."""
    __slots__ = ()
    KIND = None


HASHC = 0x5EED


# ------------------------------------------------------------------------------------------------- bool
class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def _i(self):
        return SymInt(z3.If(self.e, INT(1), INT(0)))

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.e))
        return self._i() == o

    def __ne__(self, o):
        return vnot(self == o)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self.e, be(o)))
        return self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self.e, be(o)))
        return self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.e, be(o)))
        return self._i() ^ o

    __rxor__ = __xor__

    def __str__(self):
        return "True" if bool(self) else "False"

    def __repr__(self):
        return "<SymBool>"

    def __int__(self):
        return self._i()

    def __index__(self):
        return 1 if bool(self) else 0

    def bit_length(self):
        return self._i()

    def to_bytes(self, *a, **k):
        return self._i().to_bytes(*a, **k)


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "floordiv", "rfloordiv", "mod", "rmod", "lshift",
           "rlshift", "rshift", "rrshift", "lt", "le", "gt", "ge", "neg", "pow", "divmod"):
    def _mk(n):
        def f(self, *a):
            return getattr(self._i(), n)(*a)
        return f
    setattr(SymBool, "__%s__" % _n, _mk("__%s__" % _n))


def be(x):
    """z3 Bool of a bool-like."""
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def vnot(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def vand(xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    return mkbool(z3.And(out) if len(out) > 1 else out[0])


def vor(xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif x:
            return True
    if not out:
        return False
    return mkbool(z3.Or(out) if len(out) > 1 else out[0])


# -------------------------------------------------------------------------------------------------- int
def ie(x):
    """z3 Int expression (or native int) of an int-like, None if it is not one."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, int):
        return int(x)
    if isinstance(x, SymBool):
        return x._i().e
    return None


def mkint(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _cmp(op):
    def f(self, o):
        b = ie(o)
        if b is None:
            if isinstance(o, float):
                if o == int(o):
                    b = int(o)
                else:
                    raise Unsupported("comparison of a symbolic int with a float")
            else:
                return NotImplemented
        a = self.e
        if not isinstance(b, int) and a.eq(b):
            return op in ("eq", "le", "ge")
        r = {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b,
             "gt": lambda: a > b, "ge": lambda: a >= b}[op]()
        return mkbool(r)
    return f


class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return HASHC

    def __repr__(self):
        return "<SymInt %s>" % str(self.e)[:60]

    __eq__ = _cmp("eq")
    __ne__ = _cmp("ne")
    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")

    def __bool__(self):
        return E.branch(self.e != 0)

    def __int__(self):
        return self

    def __index__(self):
        return E.enumerate(self.e)

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=0):
        return self

    def __pos__(self):
        return self

    def __neg__(self):
        return mkint(-self.e)

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __invert__(self):
        return mkint(-self.e - 1)

    def __add__(self, o):
        b = ie(o)
        if b is None:
            return NotImplemented
        if isinstance(b, int) and b == 0:
            return self
        return mkint(self.e + b)

    __radd__ = __add__

    def __sub__(self, o):
        b = ie(o)
        if b is None:
            return NotImplemented
        if isinstance(b, int) and b == 0:
            return self
        if not isinstance(b, int) and b.eq(self.e):
            return 0
        return mkint(self.e - b)

    def __rsub__(self, o):
        b = ie(o)
        if b is None:
            return NotImplemented
        return mkint(b - self.e)

    def __mul__(self, o):
        b = ie(o)
        if b is None:
            if isinstance(o, (str, bytes, list, tuple, SymStr, SymBytes)):
                return o * E.enumerate(self.e)
            return NotImplemented
        if isinstance(b, int):
            if b == 0:
                return 0
            if b == 1:
                return self
        return mkint(self.e * b)

    __rmul__ = __mul__

    def _divisor(self, o):
        b = ie(o)
        if b is None:
            return None
        if not isinstance(b, int):
            b = E.enumerate(b)
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return b

    def __floordiv__(self, o):
        b = self._divisor(o)
        if b is None:
            return NotImplemented
        if b == 1:
            return self
        if b < 0:
            return mkint((-self.e) / INT(-b))
        return mkint(self.e / INT(b))

    def __mod__(self, o):
        b = self._divisor(o)
        if b is None:
            return NotImplemented
        if b < 0:
            return self - (self // b) * b
        return mkint(self.e % INT(b))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rfloordiv__(self, o):
        return o // E.enumerate(self.e)

    def __rmod__(self, o):
        return o % E.enumerate(self.e)

    def __rdivmod__(self, o):
        return divmod(o, E.enumerate(self.e))

    def __truediv__(self, o):
        raise Unsupported("true division of a symbolic int")

    __rtruediv__ = __truediv__

    def __pow__(self, o, m=None):
        if m is not None:
            raise Unsupported("modular power")
        n = o if isinstance(o, int) else E.enumerate(ie(o))
        if n < 0:
            raise Unsupported("negative power")
        r = 1
        for _ in range(n):
            r = self * r
        return r

    def __rpow__(self, o):
        return o ** E.enumerate(self.e)

    def __lshift__(self, o):
        n = o if isinstance(o, int) else E.enumerate(ie(o))
        if n < 0:
            raise ValueError("negative shift count")
        bs = known_bytes(self) if n % 8 == 0 else None
        return self * (1 << n) if bs is None else made_of(self * (1 << n), bs + (0,) * (n // 8))

    def __rlshift__(self, o):
        return o << E.enumerate(self.e)

    def __rshift__(self, o):
        n = o if isinstance(o, int) else E.enumerate(ie(o))
        if n < 0:
            raise ValueError("negative shift count")
        return self // (1 << n)

    def __rrshift__(self, o):
        return o >> E.enumerate(self.e)

    def _and_const(self, c):
        if c < 0:
            # x & c == x - (x & ~c)
            return self - self._and_const(~c)
        out = 0
        lo = 0
        while c >> lo:
            if not (c >> lo) & 1:
                lo += 1
                continue
            n = 0
            while (c >> (lo + n)) & 1:
                n += 1
            out = out + (((self >> lo) % (1 << n)) << lo)
            lo += n
        return out

    def _overlay(self, o):
        """self | o where every byte of one of them is zero, else None."""
        a, b = known_bytes(self), known_bytes(o)
        if a is None and b is None:
            return None
        if a is None or b is None:
            e = (self if a is None else o).e
            for n in (1, 2, 4, 8):
                if E.must(z3.And(e >= 0, e < 256 ** n)):
                    if a is None:
                        a = byte_split(e, n)
                    else:
                        b = byte_split(e, n)
                    break
            else:
                return None
        n = max(len(a), len(b))
        a, b = (0,) * (n - len(a)) + tuple(a), (0,) * (n - len(b)) + tuple(b)
        out = []
        for x, y in zip(a, b):
            if isinstance(x, int) and x == 0:
                out.append(y)
            elif isinstance(y, int) and y == 0:
                out.append(x)
            else:
                return None
        return made_of(self + o, out)

    def _bits2(self, o, f):
        """Bitwise operation of two symbolic ints (non-negative, at most 64 bits)."""
        a, b = self, o
        if f is not z3.And and E.must(z3.And(a.e >= 0, b.e >= 0)):
            for n in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32):  # bits that do not meet
                for x, y in ((a, b), (b, a)):
                    if E.must(z3.And(y.e < (1 << n), x.e % (1 << n) == 0)):
                        return x + y
        if not E.must(z3.And(a.e >= 0, b.e >= 0, a.e < 2 ** 64, b.e < 2 ** 64)):
            raise Unsupported("bitwise operation on unbounded symbolic ints")
        out = 0
        width = 64
        for w in (8, 16, 32):
            if E.must(z3.And(a.e < 2 ** w, b.e < 2 ** w)):
                width = w
                break
        for i in range(width):
            x = ((a >> i) % 2)
            y = ((b >> i) % 2)
            out = out + mkint(z3.If(f(ie(x) == 1, ie(y) == 1), INT(1 << i), INT(0)))
        return out

    def __and__(self, o):
        b = ie(o)
        if b is None:
            return NotImplemented
        if isinstance(b, int):
            return self._and_const(b)
        return self._bits2(mkint(b), z3.And)

    __rand__ = __and__

    def __or__(self, o):
        b = ie(o)
        if b is None:
            return NotImplemented
        if isinstance(b, int) and b == 0:
            return self
        r = self._overlay(mkint(b)) if not isinstance(b, int) or b > 0 else None
        if r is not None:
            return r
        if isinstance(b, int):
            return self + b - self._and_const(b)
        return self._bits2(mkint(b), z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        b = ie(o)
        if b is None:
            return NotImplemented
        if isinstance(b, int):
            return self + b - 2 * self._and_const(b)
        return self._bits2(mkint(b), z3.Xor)

    __rxor__ = __xor__

    def bit_length(self):
        """Fork on the byte class, exact bit length inside it."""
        x = abs(self)
        if not isinstance(x, SymInt):
            return x.bit_length()
        if not (x > 0):
            return 0
        k = 1
        while not (x < (1 << (8 * k))):
            k += 1
            if k > 64:
                raise Unsupported("bit_length of an unbounded int")
        base = 8 * (k - 1)
        key = ("bl", x.e.get_id())
        if key not in E.memo:
            e = INT(base + 1)
            for i in range(1, 8):
                e = e + z3.If(x.e >= (1 << (base + i)), INT(1), INT(0))
            v = E.fresh_int("bl", base + 1, base + 8)
            E.add(v == e)
            E.memo[key] = (x.e, v)
        return SymInt(E.memo[key][1])

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if not isinstance(length, int):
            length = E.enumerate(ie(length))
        if not isinstance(byteorder, str):
            raise Unsupported("symbolic byte order")
        if signed:
            raise Unsupported("signed to_bytes")
        if length < 0:
            raise ValueError("length argument must be non-negative")
        if self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if not (self < (1 << (8 * length))):
            raise OverflowError("int too big to convert")
        items = byte_split(self.e, length)
        if byteorder == "little":
            items = tuple(reversed(items))
        return SymBytes(items)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    def is_integer(self):
        return True


def known_bytes(x):
    """The big-endian byte items x (a non-negative int) was made of, None if not known."""
    if isinstance(x, int):
        return tuple(x.to_bytes((x.bit_length() + 7) // 8, "big")) if x >= 0 else None
    hit = E.memo.get(("bytes", x.e.get_id()))
    return hit[1] if hit else None


def made_of(x, items):
    """Note that x is the big-endian number of the byte items."""
    if isinstance(x, SymInt):
        E.memo[("bytes", x.e.get_id())] = (x.e, tuple(items))
    return x


def byte_split(e, n):
    """The n big-endian bytes of e (already known to be in 0..256^n-1)."""
    if n == 0:
        return ()
    hit = E.memo.get(("bytes", e.get_id()))
    if hit:
        items = hit[1]
        while len(items) > n and isinstance(items[0], int) and items[0] == 0:
            items = items[1:]
        if len(items) <= n:
            return (0,) * (n - len(items)) + items
    if n == 1:
        return (e,)
    key = ("split", e.get_id(), n)
    if key not in E.memo:
        bs = tuple(E.fresh_int("by", 0, 255) for _ in range(n))
        s = bs[-1]
        for i, b in enumerate(reversed(bs[:-1]), 1):
            s = s + (256 ** i) * b
        E.add(e == s)
        E.memo[key] = (e, bs)
        E.memo[("join",) + tuple(b.get_id() for b in bs)] = (e, bs)
    return E.memo[key][1]


def byte_join(items):
    """The integer of big-endian byte items."""
    items = list(items)
    while items and isinstance(items[0], int) and items[0] == 0:
        items.pop(0)
    if all(isinstance(b, int) for b in items):
        v = 0
        for b in items:
            v = v * 256 + b
        return v
    if len(items) == 1:
        return mkint(items[0])
    if all(not isinstance(b, int) for b in items):
        hit = E.memo.get(("join",) + tuple(b.get_id() for b in items))
        if hit:
            return mkint(hit[0])
    s = 0
    for i, b in enumerate(reversed(items)):
        if isinstance(b, int):
            s = s + b * 256 ** i
        else:
            s = b * (256 ** i) + s
    return made_of(mkint(s), items)


# ------------------------------------------------------------------------------------------------ bytes
class Opaque:
    """A run of bytes whose length is symbolic and whose content is never looked at."""
    __slots__ = ("name", "n")

    def __init__(self, name, n):
        self.name, self.n = name, n


def item_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        return b == a
    if isinstance(b, int):
        return a == b
    if a.eq(b):
        return True
    return a == b


class Digest:
    """One symbolic hash output: its bytes and (abstractly) its big-endian value."""
    __slots__ = ("fn", "out", "num")

    def __init__(self, fn, out, num):
        self.fn, self.out, self.num = fn, out, num


def digest_at(xs, i):
    """The digest whose bytes are exactly xs[i:i+size], if any."""
    x = xs[i]
    if not isinstance(x, z3.ExprRef):
        return None
    d = E.digests.get(x.get_id())
    if d is None or i + len(d.out) > len(xs):
        return None
    for k, o in enumerate(d.out):
        y = xs[i + k]
        if not isinstance(y, z3.ExprRef) or not y.eq(o):
            return None
    return d


def digest_is(d, out, e):
    """State that the symbolic digest has these concrete bytes exactly when e holds.

    That equal bytes mean an equal number is added where the bytes are compared (digest_eq)."""
    E.add(e == (d.num == int.from_bytes(bytes(out), "big")))
    if not z3.is_false(e):
        E.add(z3.Implies(e, z3.And([x == y for x, y in zip(d.out, out)])))


def digest_eq(d, ys):
    """The symbolic digest has these concrete bytes.

    Nothing is known whose digest is one byte over and over: such constants are identifiers made up by a harness."""
    if len(ys) >= 16 and len(set(ys)) == 1:
        return False
    n = int.from_bytes(bytes(ys), "big")
    key = ("digest_eq", d.num.get_id(), n)
    if key not in E.memo:
        r = d.num == n
        E.memo[key] = (r,)
        E.add(r == z3.And([x == y for x, y in zip(d.out, ys)]))
    return E.memo[key][0]


def items_eq(xs, ys):
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        if isinstance(x, int) and isinstance(y, int) and x != y:
            return False
    out = []
    i, n = 0, len(xs)
    while i < n:
        a, b = xs[i], ys[i]
        if E.digests and isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            da = digest_at(xs, i)
            db = digest_at(ys, i) if da is not None else None
            if db is not None and len(da.out) == len(db.out):
                i += len(da.out)
                if da is not db:
                    out.append(da.num == db.num)
                continue
        elif E.digests and (isinstance(a, int) or isinstance(b, int)):
            sx, cx = (ys, xs) if isinstance(a, int) else (xs, ys)
            da = digest_at(sx, i)
            if da is not None and all(isinstance(y, int) for y in cx[i:i + len(da.out)]):
                r = digest_eq(da, cx[i:i + len(da.out)])
                if r is False:
                    return False
                out.append(r)
                i += len(da.out)
                continue
        i += 1
        r = item_eq(a, b)
        if r is False:
            return False
        if r is not True:
            out.append(r)
    if not out:
        return True
    return mkbool(z3.And(out) if len(out) > 1 else out[0])


def group_digests(xs, ys):
    """Lists of comparable integers for xs and ys, whole digests at the same offsets taken as one number."""
    kx, ky, i = [], [], 0
    n = min(len(xs), len(ys))
    while i < n:
        if E.digests:
            da = digest_at(xs, i)
            db = digest_at(ys, i) if da is not None else None
            if db is not None and len(da.out) == len(db.out):
                kx.append(mkint(da.num))
                ky.append(mkint(db.num))
                i += len(da.out)
                continue
        kx.append(mkint(xs[i]))
        ky.append(mkint(ys[i]))
        i += 1
    return kx + [mkint(x) for x in xs[n:]], ky + [mkint(y) for y in ys[n:]]


def tobytes_items(x):
    """Items of a bytes-like, or None."""
    if isinstance(x, SymBytes):
        return x.items
    if isinstance(x, (bytes, bytearray)):
        return tuple(x)
    if isinstance(x, memoryview):
        return tuple(x.tobytes())
    return None


class SymBytes(Sym):
    __slots__ = ("items", "mutable")

    def __init__(self, items, mutable=False):
        self.items = tuple(items)
        self.mutable = mutable

    # -- helpers
    def _new(self, items):
        return SymBytes(items, self.mutable)

    def concrete(self):
        return all(isinstance(b, int) for b in self.items)

    def native(self):
        """The native bytes/bytearray (only when concrete)."""
        b = bytes(self.items)
        return bytearray(b) if self.mutable else b

    def opaque(self):
        return any(isinstance(b, Opaque) for b in self.items)

    def plain(self):
        if self.opaque():
            raise Unsupported("content of an opaque byte run")
        return self.items

    def __repr__(self):
        if self.concrete():
            return repr(self.native())
        return "<SymBytes %s>" % len(self.items)

    def vlen(self):
        n = 0
        for b in self.items:
            n = n + (b.n if isinstance(b, Opaque) else 1)
        return n

    def __len__(self):
        n = self.vlen()
        if isinstance(n, SymInt):
            return E.enumerate(n.e)
        return n

    def __bool__(self):
        return bool(self.vlen() > 0)

    def __hash__(self):
        if self.mutable:
            raise TypeError("unhashable type: 'bytearray'")
        return HASHC

    def __iter__(self):
        i = 0
        while i < len(self.items):
            b = self.items[i]
            if isinstance(b, Opaque):
                raise Unsupported("iteration over an opaque byte run")
            yield mkint(b)
            i += 1

    def __getitem__(self, k):
        if isinstance(k, slice):
            self.plain()
            return self._new(self.items[_cslice(k)])
        if not isinstance(k, int):
            if isinstance(k, (SymInt, SymBool)):
                k = E.enumerate(ie(k))
            else:
                raise TypeError("byte indices must be integers or slices, not %s" % type(k).__name__)
        return mkint(self.plain()[k])

    def _mut(self):
        if not self.mutable:
            raise TypeError("'bytes' object does not support item assignment")

    def __setitem__(self, k, v):
        self._mut()
        l = list(self.plain())
        if isinstance(k, slice):
            l[_cslice(k)] = list(bytes_items(v))
        else:
            if not isinstance(k, int):
                k = E.enumerate(ie(k))
            l[k] = byte_item(v)
        self.items = tuple(l)

    def __delitem__(self, k):
        self._mut()
        l = list(self.plain())
        if isinstance(k, slice):
            del l[_cslice(k)]
        else:
            del l[k]
        self.items = tuple(l)

    def __add__(self, o):
        it = tobytes_items(o)
        if it is None:
            return NotImplemented
        return self._new(self.items + it)

    def __radd__(self, o):
        it = tobytes_items(o)
        if it is None:
            return NotImplemented
        return SymBytes(it + self.items, isinstance(o, bytearray))

    def __iadd__(self, o):
        it = tobytes_items(o)
        if not self.mutable:
            if it is None:
                return NotImplemented
            return SymBytes(self.items + it)
        if it is None:
            raise TypeError("can't concat %s to bytearray" % type(o).__name__)
        self.items = self.items + it
        return self

    def __mul__(self, n):
        if not isinstance(n, int):
            n = E.enumerate(ie(n))
        return self._new(self.items * n)

    __rmul__ = __mul__

    def __imul__(self, n):
        r = self * n
        if self.mutable:
            self.items = r.items
            return self
        return r

    def __eq__(self, o):
        it = tobytes_items(o)
        if it is None:
            return NotImplemented
        if self.opaque() or any(isinstance(b, Opaque) for b in it):
            if len(it) == len(self.items) and all(a is b or (not isinstance(a, Opaque) and not isinstance(b, Opaque))
                                                  for a, b in zip(it, self.items)):
                pairs = [(a, b) for a, b in zip(self.items, it) if not isinstance(a, Opaque)]
                return items_eq([p[0] for p in pairs], [p[1] for p in pairs])
            raise Unsupported("comparison of opaque byte runs")
        return items_eq(self.items, it)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return vnot(r)

    def _lt(self, o, strict):
        b = tobytes_items(o)
        kx, ky = group_digests(self.plain(), tuple(b))
        return lex_lt(kx, ky, strict)

    def __lt__(self, o):
        if tobytes_items(o) is None:
            return NotImplemented
        return self._lt(o, True)

    def __le__(self, o):
        if tobytes_items(o) is None:
            return NotImplemented
        return self._lt(o, False)

    def __gt__(self, o):
        if tobytes_items(o) is None:
            return NotImplemented
        return not self._lt(o, False)

    def __ge__(self, o):
        if tobytes_items(o) is None:
            return NotImplemented
        return not self._lt(o, True)

    def __contains__(self, x):
        if isinstance(x, (int, SymInt)):
            return bool(vor([mkbool_(item_eq(b, ie(x))) for b in self.plain()]))
        it = tobytes_items(x)
        n = len(it)
        return bool(vor([items_eq(self.items[i:i + n], it) for i in range(len(self.items) - n + 1)]))

    # -- methods
    def hex(self, sep=None):
        out = []
        for i, b in enumerate(self.plain()):
            if sep is not None and i:
                out += list(map(ord, sep))
            if isinstance(b, int):
                out += [ord(c) for c in "%02x" % b]
            else:
                out += [HexC(b, 0), HexC(b, 1)]
        return mkstr(out)

    def decode(self, encoding="utf-8", errors="strict"):
        if self.concrete():
            return bytes(self.items).decode(encoding, errors)
        out = []
        for b in self.plain():
            if isinstance(b, int):
                if b >= 128:
                    raise Unsupported("decode of mixed non-ASCII bytes")
            else:
                if not E.branch(b < 128):
                    raise Unsupported("decode of symbolic non-ASCII bytes")
            out.append(b)
        return mkstr(out)

    def append(self, x):
        self._mut()
        self.items = self.items + (byte_item(x),)

    def extend(self, xs):
        self._mut()
        self.items = self.items + tuple(bytes_items(xs))

    def clear(self):
        self._mut()
        self.items = ()

    def insert(self, i, x):
        self._mut()
        l = list(self.items)
        l.insert(i, byte_item(x))
        self.items = tuple(l)

    def pop(self, i=-1):
        self._mut()
        l = list(self.items)
        x = l.pop(i)
        self.items = tuple(l)
        return mkint(x)

    def reverse(self):
        self._mut()
        self.items = tuple(reversed(self.plain()))

    def copy(self):
        return SymBytes(self.items, self.mutable)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with bounds")
        it = tobytes_items(p)
        return items_eq(self.items[:len(it)], it)

    def endswith(self, p):
        it = tobytes_items(p)
        if len(it) == 0:
            return True
        return items_eq(self.items[-len(it):], it)

    def join(self, xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out += list(self.items)
            it = tobytes_items(x)
            if it is None:
                raise TypeError("sequence item %d: expected a bytes-like object" % i)
            out += list(it)
        return self._new(out)

    def strip(self, *a):
        return self.lstrip(*a).rstrip(*a)

    def lstrip(self, chars=b" \t\n\r\x0b\f"):
        it = list(self.plain())
        cs = tobytes_items(chars)
        while it and bool(vor([mkbool_(item_eq(it[0], c)) for c in cs])):
            it.pop(0)
        return self._new(it)

    def rstrip(self, chars=b" \t\n\r\x0b\f"):
        it = list(self.plain())
        cs = tobytes_items(chars)
        while it and bool(vor([mkbool_(item_eq(it[-1], c)) for c in cs])):
            it.pop()
        return self._new(it)

    def ljust(self, n, fill=b" "):
        return self._new(self.items + tobytes_items(fill) * max(0, n - len(self)))

    def rjust(self, n, fill=b" "):
        return self._new(tobytes_items(fill) * max(0, n - len(self)) + self.items)

    def tobytes(self):
        return SymBytes(self.items)

    def count(self, x):
        raise Unsupported("bytes.count")

    def find(self, x, *a):
        it = tobytes_items(x)
        if a:
            raise Unsupported("bytes.find with bounds")
        for i in range(len(self.items) - len(it) + 1):
            if items_eq(self.items[i:i + len(it)], it):
                return i
        return -1


def mkbool_(r):
    return r if isinstance(r, (bool, SymBool)) else mkbool(r)


def byte_item(x):
    if isinstance(x, int):
        if not 0 <= x <= 255:
            raise ValueError("byte must be in range(0, 256)")
        return int(x)
    e = ie(x)
    if e is None:
        raise TypeError("an integer is required")
    if not (mkint(e) >= 0) or not (mkint(e) <= 255):
        raise ValueError("byte must be in range(0, 256)")
    return e


def bytes_items(xs):
    it = tobytes_items(xs)
    if it is not None:
        return it
    if isinstance(xs, (str, SymStr)):
        raise TypeError("expected iterable of integers; got: 'str'")
    return tuple(byte_item(x) for x in xs)


def _cslice(k):
    def c(x):
        if x is None or isinstance(x, int):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return E.enumerate(ie(x))
        return x
    return slice(c(k.start), c(k.stop), c(k.step))


def lex_lt(a, b, strict):
    """Lexicographic comparison, forking only on the overall outcome."""
    n = min(len(a), len(b))
    res = (len(a) < len(b)) if strict else (len(a) <= len(b))
    for i in reversed(range(n)):
        x, y = a[i], b[i]
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            if x == y:
                continue
            res = x < y
            continue
        lt, eq = x < y, x == y
        res = vor([lt, vand([eq, res])])
    return bool(res)


# -------------------------------------------------------------------------------------------------- str
class HexC:
    """One hex digit of a byte (provenance kept)."""
    __slots__ = ("b", "lo", "upper")

    def __init__(self, b, lo, upper=False):
        self.b, self.lo, self.upper = b, lo, upper

    def nib(self):
        return nibbles(self.b)[self.lo]

    def code(self):
        n = self.nib()
        return z3.If(n < 10, n + 48, n + (55 if self.upper else 87))


class B64C:
    """One base64 character (index in a 4-group) of 1..3 bytes."""
    __slots__ = ("group", "i")

    def __init__(self, group, i):
        self.group, self.i = group, i

    def sext(self):
        return b64_sextets(self.group)[self.i]

    def code(self):
        v = self.sext()
        return z3.If(v < 26, v + 65, z3.If(v < 52, v + 71, z3.If(v < 62, v - 4, z3.If(v == 62, INT(43), INT(47)))))


class NumA:
    """Decimal rendering of a non-negative symbolic integer: zero-padded to mind digits, frac of them after a dot."""
    __slots__ = ("n", "mind", "frac")

    def __init__(self, n, mind=1, frac=0):
        self.n, self.mind, self.frac = n, max(mind, frac + 1), frac


class OpaqueS:
    """A run of characters of symbolic length whose content is never looked at."""
    __slots__ = ("name", "n", "nbytes")

    def __init__(self, name, n, nbytes):
        self.name, self.n, self.nbytes = name, n, nbytes


def nibbles(b):
    key = ("nib", b.get_id())
    if key not in E.memo:
        hi, lo = E.fresh_int("hi", 0, 15), E.fresh_int("lo", 0, 15)
        E.add(b == 16 * hi + lo)
        E.memo[key] = (b, hi, lo)
        E.memo[("unnib", hi.get_id(), lo.get_id())] = b
    return E.memo[key][1:]


class B64Group:
    __slots__ = ("bytes", "sx")

    def __init__(self, bs):
        self.bytes, self.sx = tuple(bs), None


def b64_sextets(g):
    if g.sx is None:
        n = len(g.bytes)
        nch = n + 1
        sx = [E.fresh_int("sx", 0, 63) for _ in range(nch)]
        bs = list(g.bytes) + [0] * (3 - n)
        val = bs[0] * 65536 + bs[1] * 256 + bs[2]
        s = 0
        for i, x in enumerate(sx):
            s = s + x * (64 ** (3 - i))
        E.add(val == s)
        g.sx = sx
    return g.sx


def code_of(c):
    """Code point (int or z3 expr) of a single-character item."""
    if isinstance(c, (HexC, B64C)):
        return c.code()
    return c


def char_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, HexC) and isinstance(b, HexC):
        if a.upper == b.upper:
            if a.lo == b.lo and a.b.eq(b.b):
                return True
            return mkbool(a.nib() == b.nib())
    if isinstance(a, B64C) and isinstance(b, B64C):
        if a.i == b.i and a.group is b.group:
            return True
        return mkbool(a.sext() == b.sext())
    if isinstance(b, HexC) and isinstance(a, int):
        a, b = b, a
    if isinstance(a, HexC) and isinstance(b, int):
        ch = chr(b)
        if ch in "0123456789":
            return mkbool(a.nib() == b - 48)
        if ch in ("ABCDEF" if a.upper else "abcdef"):
            return mkbool(a.nib() == int(ch, 16))
        return False
    x, y = code_of(a), code_of(b)
    if not isinstance(x, int) and not isinstance(y, int) and x.eq(y):
        return True
    return mkbool(x == y)


_WS = tuple(sorted({9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0}))


def ch_in(c, codes):
    """SymBool/bool: character c is one of the code points."""
    if isinstance(c, int):
        return c in codes
    if isinstance(c, HexC):
        return vor([char_eq(c, k) for k in codes])
    e = code_of(c)
    return rng(e, codes)


def rng(e, codes):
    codes = sorted(set(codes))
    out = []
    i = 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        out.append(e == codes[i] if i == j else z3.And(e >= codes[i], e <= codes[j]))
        i = j + 1
    if not out:
        return False
    return mkbool(z3.Or(out) if len(out) > 1 else out[0])


def mkstr(items):
    items = tuple(items)
    if all(isinstance(c, int) for c in items):
        return "".join(map(chr, items))
    return SymStr(items)


def str_items(x):
    if isinstance(x, SymStr):
        return x.items
    if isinstance(x, str):
        return tuple(map(ord, x))
    return None


def needstr(x, what="str"):
    it = str_items(x)
    if it is None:
        raise TypeError("must be str, not %s" % type(x).__name__)
    return it


class SymStr(Sym):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "<SymStr %s>" % "".join(chr(c) if isinstance(c, int) else "?" for c in self.items)

    def __str__(self):
        raise Unsupported("native str() of a symbolic string")

    def __format__(self, spec):
        raise Unsupported("native format() of a symbolic string")

    def __hash__(self):
        return HASHC

    def native(self):
        return "".join(map(chr, self.items))

    def concrete(self):
        return all(isinstance(c, int) for c in self.items)

    # -- structure
    def expand(self):
        """Items with every variable-length atom expanded to single characters (forks on digit counts)."""
        if not any(isinstance(c, (NumA, OpaqueS)) for c in self.items):
            return self.items
        out = []
        for c in self.items:
            if isinstance(c, OpaqueS):
                raise Unsupported("content of an opaque string")
            if isinstance(c, NumA):
                out += num_digits(c)
            else:
                out.append(c)
        self.items = tuple(out)
        return self.items

    def vlen(self):
        if any(isinstance(c, OpaqueS) for c in self.items):
            n = 0
            for c in self.items:
                n = n + (c.n if isinstance(c, OpaqueS) else 1)
            return n
        return len(self.expand())

    def __len__(self):
        n = self.vlen()
        if isinstance(n, SymInt):
            return E.enumerate(n.e)
        return n

    def __bool__(self):
        if any(isinstance(c, NumA) for c in self.items):
            return True
        return bool(self.vlen() > 0)

    def __iter__(self):
        for c in self.expand():
            yield mkstr((c,))

    def __getitem__(self, k):
        it = self.expand()
        if isinstance(k, slice):
            return mkstr(it[_cslice(k)])
        if not isinstance(k, int):
            if isinstance(k, (SymInt, SymBool)):
                k = E.enumerate(ie(k))
            else:
                raise TypeError("string indices must be integers")
        return mkstr((it[k],))

    def __add__(self, o):
        it = str_items(o)
        if it is None:
            return NotImplemented
        return mkstr(self.items + it)

    def __radd__(self, o):
        it = str_items(o)
        if it is None:
            return NotImplemented
        return mkstr(it + self.items)

    def __mul__(self, n):
        if not isinstance(n, int):
            n = E.enumerate(ie(n))
        return mkstr(self.items * n)

    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported("% formatting with a symbolic template")

    def __eq__(self, o):
        b = str_items(o)
        if b is None:
            return NotImplemented
        return str_eq(self.items, b)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return vnot(r)

    def _cmp(self, o, strict):
        b = str_items(o)
        x = list(self.expand())
        y = list(SymStr(b).expand())
        # equal concrete characters in front decide nothing; the first two different ones decide everything
        i, n = 0, min(len(x), len(y))
        while i < n:
            p, q = x[i], y[i]
            if not (isinstance(p, int) and isinstance(q, int)):
                break
            if p != q:
                return p < q
            i += 1
        x, y = x[i:], y[i:]
        # pairs of hex digits of the same bytes compare like the bytes themselves
        return lex_lt(*_lexkeys(x, y), strict)

    def __lt__(self, o):
        if str_items(o) is None:
            return NotImplemented
        return self._cmp(o, True)

    def __le__(self, o):
        if str_items(o) is None:
            return NotImplemented
        return self._cmp(o, False)

    def __gt__(self, o):
        if str_items(o) is None:
            return NotImplemented
        return not self._cmp(o, False)

    def __ge__(self, o):
        if str_items(o) is None:
            return NotImplemented
        return not self._cmp(o, True)

    def __contains__(self, x):
        a, b = self.expand(), SymStr(needstr(x)).expand()
        n = len(b)
        return bool(vor([str_eq(a[i:i + n], b) for i in range(len(a) - n + 1)]))

    # -- methods
    def encode(self, encoding="utf-8", errors="strict"):
        if not isinstance(encoding, str) or encoding.lower().replace("_", "-") not in ("utf-8", "utf8", "ascii", "latin-1"):
            raise Unsupported("encoding")
        if len(self.items) == 1 and isinstance(self.items[0], OpaqueS):
            o = self.items[0]
            key = ("opq", o.name)
            if key not in E.memo:
                E.memo[key] = Opaque(o.name, o.nbytes)
            return SymBytes((E.memo[key],))
        out = []
        for c in self.expand():
            if isinstance(c, int):
                out += list(chr(c).encode(encoding))
                continue
            if isinstance(c, (HexC, B64C)):
                out.append(c.code())
                continue
            out += utf8(c, encoding)
        return SymBytes(out)

    def lower(self):
        return mkstr([_case(c, False) for c in self._caseable()])

    def upper(self):
        return mkstr([_case(c, True) for c in self._caseable()])

    casefold = lower

    def _caseable(self):
        return self.items if all(not isinstance(c, OpaqueS) for c in self.items) else self.expand()

    def _strip(self, chars, left, right):
        if any(isinstance(c, OpaqueS) for c in self.items):
            raise Unsupported("strip of an opaque string")
        codes = _WS if chars is None else tuple(needstr(chars))
        if any(not isinstance(c, int) for c in codes):
            raise Unsupported("strip with symbolic characters")
        it = list(self.items)

        def digits_stripped():
            return any(48 <= c <= 57 or c == 46 for c in codes)
        while left and it:
            if isinstance(it[0], NumA):
                if not digits_stripped():
                    break
                it = list(SymStr(it).expand())
            if not ch_in(it[0], codes):
                break
            it.pop(0)
        while right and it:
            if isinstance(it[-1], NumA):
                if not digits_stripped():
                    break
                it = list(SymStr(it).expand())
            if not ch_in(it[-1], codes):
                break
            it.pop()
        return mkstr(it)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        b = needstr(p)
        a = self.items
        if start != 0 or end is not None or any(isinstance(c, NumA) for c in a[:len(b)]):
            a = self.expand()[start:end]
        if len(a) < len(b):
            return False
        return bool(str_eq(a[:len(b)], b))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        b = needstr(p)
        if not b:
            return True
        a = self.items
        if start != 0 or end is not None or any(isinstance(c, NumA) for c in a[-len(b):]):
            a = self.expand()[start:end]
        if len(a) < len(b):
            return False
        return bool(str_eq(a[-len(b):], b))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if len(p) and self.endswith(p) else self

    def find(self, sub, start=0, end=None):
        a = self.expand()
        b = SymStr(needstr(sub)).expand()
        stop = len(a) if end is None else min(end, len(a))
        for i in range(start, stop - len(b) + 1):
            if str_eq(a[i:i + len(b)], b):
                return i
        return -1

    def rfind(self, sub):
        a = self.expand()
        b = SymStr(needstr(sub)).expand()
        for i in reversed(range(0, len(a) - len(b) + 1)):
            if str_eq(a[i:i + len(b)], b):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub):
        return len(self.split(sub)) - 1

    def split(self, sep=None, maxsplit=-1):
        it = self.items
        if sep is None:
            return self._split_ws(maxsplit)
        b = needstr(sep)
        if not b:
            raise ValueError("empty separator")
        if any(isinstance(c, NumA) for c in it) and any(48 <= c <= 57 or c == 46 for c in b if isinstance(c, int)):
            it = self.expand()
        out, cur, i, n = [], [], 0, 0
        while i < len(it):
            seg = it[i:i + len(b)]
            if (maxsplit < 0 or n < maxsplit) and len(seg) == len(b) and \
                    not any(isinstance(c, (NumA, OpaqueS)) for c in seg) and str_eq(seg, b):
                out.append(mkstr(cur))
                cur = []
                i += len(b)
                n += 1
                continue
            cur.append(it[i])
            i += 1
        out.append(mkstr(cur))
        return out

    def _split_ws(self, maxsplit):
        it = self.items
        out, cur, n = [], [], 0
        for idx, c in enumerate(it):
            ws = False if isinstance(c, NumA) else bool(ch_in(c, _WS))
            if ws:
                if cur:
                    out.append(mkstr(cur))
                    cur = []
                    n += 1
                    if maxsplit >= 0 and n >= maxsplit:
                        rest = mkstr(it[idx + 1:])
                        rest = rest.lstrip()
                        if len(rest):
                            out.append(rest)
                        return out
            else:
                cur.append(c)
        if cur:
            out.append(mkstr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        parts = self.split(sep)
        if len(parts) <= maxsplit + 1:
            return parts
        k = len(parts) - maxsplit
        head = parts[0]
        for p in parts[1:k]:
            head = head + sep + p
        return [head] + parts[k:]

    def partition(self, sep):
        p = self.split(sep, 1)
        if len(p) == 1:
            return (self, "", "")
        return (p[0], sep, p[1])

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        if len(p) == 1:
            return ("", "", self)
        return (p[0], sep, p[1])

    def replace(self, old, new, count=-1):
        o, nw = needstr(old), needstr(new)
        if len(self.items) == 1 and isinstance(self.items[0], NumA) and o == (46,) and count < 0 and nw == ():
            a = self.items[0]
            return SymStr((NumA(a.n, a.mind, 0),))
        parts = self.split(old, count)
        out = list(str_items(parts[0]))
        for p in parts[1:]:
            out += list(nw) + list(str_items(p))
        return mkstr(out)

    def join(self, xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out += list(self.items)
            it = str_items(x)
            if it is None:
                raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
            out += list(it)
        return mkstr(out)

    def _all(self, pred):
        it = self.items
        if any(isinstance(c, OpaqueS) for c in it):
            raise Unsupported("opaque string")
        if len(it) == 0:
            return False
        return bool(vand([pred(c) for c in it]))

    def isdigit(self):
        return self._all(lambda c: c.frac == 0 if isinstance(c, NumA) else ch_in(c, range(48, 58)))

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(lambda c: False if isinstance(c, NumA) else
                         ch_in(c, list(range(65, 91)) + list(range(97, 123))))

    def isalnum(self):
        return self._all(lambda c: c.frac == 0 if isinstance(c, NumA) else
                         ch_in(c, list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123))))

    def _cased(self, mine, other):
        cs = [c for c in self.expand()]
        if not cs:
            return False
        if any(not isinstance(c, (int, z3.ExprRef)) for c in cs):
            raise Unsupported("case of generated text")
        return vand([vnot(mkbool(be(vor([ch_in(c, other) for c in cs])))), vor([ch_in(c, mine) for c in cs])])

    def isupper(self):
        return self._cased(range(65, 91), range(97, 123))

    def islower(self):
        return self._cased(range(97, 123), range(65, 91))

    def isspace(self):
        return self._all(lambda c: False if isinstance(c, NumA) else ch_in(c, _WS))

    def isascii(self):
        return bool(vand([True if isinstance(c, (NumA, HexC, B64C)) else (c < 128 if isinstance(c, int) else mkbool(c < 128))
                          for c in self.items]))

    def isidentifier(self):
        raise Unsupported("isidentifier")

    istitle = isprintable = isidentifier

    def zfill(self, n):
        if len(self.items) == 1 and isinstance(self.items[0], NumA) and self.items[0].frac == 0:
            a = self.items[0]
            return SymStr((NumA(a.n, max(a.mind, n), 0),))
        it = self.expand()
        return mkstr((48,) * max(0, n - len(it)) + it)

    def ljust(self, n, fill=" "):
        it = self.expand()
        return mkstr(it + (ord(fill),) * max(0, n - len(it)))

    def rjust(self, n, fill=" "):
        it = self.expand()
        return mkstr((ord(fill),) * max(0, n - len(it)) + it)

    def splitlines(self, keepends=False):
        raise Unsupported("splitlines")

    def title(self):
        raise Unsupported("title")

    capitalize = swapcase = expandtabs = center = title

    def translate(self, table):
        out = ""
        for c in self:
            for k, v in table.items():
                if c == chr(k):
                    c = "" if v is None else chr(v) if isinstance(v, int) else v
                    break
            out = out + c
        return out

    def format(self, *a, **k):
        raise Unsupported("symbolic format template")


def _lexkeys(x, y):
    """Comparable keys for lexicographic comparison of characters."""
    n = min(len(x), len(y))
    # both are hex pairs at the same offsets: compare the bytes instead (the digit order is the nibble order)
    kx, ky = [], []
    i = 0
    while i < len(x) or i < len(y):
        bx, by = [], []
        while i + 1 < n and hexpair(x, i) is not None and hexpair(y, i) is not None and x[i].upper == y[i].upper:
            bx.append(x[i].b)
            by.append(y[i].b)
            i += 2
        if bx:
            gx, gy = group_digests(bx, by)
            kx += gx
            ky += gy
            continue
        if i < len(x):
            kx.append(mkint(code_of(x[i])))
        if i < len(y):
            ky.append(mkint(code_of(y[i])))
        i += 1
    return kx, ky


def hexpair(x, i):
    """The byte whose two hex digits are x[i:i+2], if any."""
    if i + 1 >= len(x):
        return None
    a, b = x[i], x[i + 1]
    if isinstance(a, HexC) and isinstance(b, HexC) and a.lo == 0 and b.lo == 1 and a.upper == b.upper and a.b.eq(b.b):
        return a.b
    return None


def str_eq(a, b):
    """Equality of two item sequences."""
    if any(isinstance(c, OpaqueS) for c in a) or any(isinstance(c, OpaqueS) for c in b):
        if len(a) == len(b) and all(x is y for x, y in zip(a, b)):
            return True
        raise Unsupported("comparison of opaque strings")
    na = [i for i, c in enumerate(a) if isinstance(c, NumA)]
    nb = [i for i, c in enumerate(b) if isinstance(c, NumA)]
    if na or nb:
        # aligned atoms of the same shape whose neighbours are not digits compare as integers
        if len(a) == len(b) and na == nb and all(a[i].mind == b[i].mind and a[i].frac == b[i].frac for i in na) and \
                len(a) == 1:
            return vand([mkint(a[i].n) == mkint(b[i].n) for i in na])
        if len(a) == 1 and na and not nb:
            r = num_eq_text(a[0], b)
            if r is not None:
                return r
        if len(b) == 1 and nb and not na:
            r = num_eq_text(b[0], a)
            if r is not None:
                return r
        if len(a) == len(b) and na == nb and all(
                a[i].mind == b[i].mind and a[i].frac == b[i].frac and
                (a[i].n is b[i].n or (not isinstance(a[i].n, int) and a[i].n.eq(b[i].n))) for i in na):
            xs = [c for c in a if not isinstance(c, NumA)]
            ys = [c for c in b if not isinstance(c, NumA)]
            return str_eq(tuple(xs), tuple(ys))
        a = SymStr(a).expand()
        b = SymStr(b).expand()
    if len(a) != len(b):
        return False
    out = []
    i = 0
    while i < len(a):
        x, y = a[i], b[i]
        bx, by = [], []
        while i < len(a) and hexpair(a, i) is not None and hexpair(b, i) is not None and a[i].upper == b[i].upper:
            bx.append(a[i].b)
            by.append(b[i].b)
            i += 2
        if bx:
            r = items_eq(bx, by)
        else:
            r = char_eq(x, y)
            i += 1
        if r is False:
            return False
        if r is not True:
            out.append(r)
    return vand(out)


def num_eq_text(a, items):
    """NumA == constant text."""
    if any(not isinstance(c, int) for c in items):
        return None
    t = "".join(map(chr, items))
    if a.frac:
        if "." not in t:
            return False
        i, _, f = t.partition(".")
        if len(f) != a.frac or not i.isdigit() or not f.isdigit() or not t.isascii():
            return False
        d = i + f
    else:
        d = t
        if not d.isdigit() or not d.isascii():
            return False
    if len(d) < a.mind or (len(d) > a.mind and d[0] == "0"):
        return False
    return mkint(a.n) == int(d)


def num_digits(a):
    n = a.n
    if isinstance(n, int):
        s = str(n).zfill(a.mind)
        out = [ord(c) for c in s]
    else:
        k = a.mind
        while not E.branch(n < 10 ** k):
            k += 1
            if k > 80:
                raise Unsupported("number too long")
        key = ("dig", n.get_id(), k)
        if key not in E.memo:
            ds = [E.fresh_int("dg", 0, 9) for _ in range(k)]
            s = 0
            for i, d in enumerate(reversed(ds)):
                s = s + d * (10 ** i)
            E.add(n == s)
            E.memo[key] = (n, ds)
            E.memo[("undig",) + tuple(d.get_id() for d in ds)] = (n, ds)
        out = [DigC(d) for d in E.memo[key][1]]
    if a.frac:
        out = out[:-a.frac] + [46] + out[-a.frac:]
    return out


def DigC(d):
    key = ("digc", d.get_id())
    if key not in E.memo:
        c = E.fresh_int("dc", 48, 57)
        E.add(c == d + 48)
        E.memo[key] = (d, c)
        E.memo[("undigc", c.get_id())] = d
    return E.memo[key][1]


def _case(c, up):
    if isinstance(c, int):
        s = chr(c).upper() if up else chr(c).lower()
        if len(s) != 1:
            raise Unsupported("case mapping changes the length")
        return ord(s)
    if isinstance(c, NumA):
        return c
    if isinstance(c, HexC):
        return HexC(c.b, c.lo, up)
    e = code_of(c)
    if not E.branch(e < 128):
        raise Unsupported("case mapping of a symbolic non-ASCII character")
    if up:
        return z3.If(z3.And(e >= 97, e <= 122), e - 32, e)
    return z3.If(z3.And(e >= 65, e <= 90), e + 32, e)


def utf8(c, encoding):
    if E.branch(c < 128):
        return [c]
    if encoding == "ascii":
        raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
    if E.branch(c < 0x800):
        return [192 + c / INT(64), 128 + c % INT(64)]
    if E.branch(z3.And(c >= 0xD800, c <= 0xDFFF)):
        raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
    if E.branch(c < 0x10000):
        return [224 + c / INT(4096), 128 + (c / INT(64)) % INT(64), 128 + c % INT(64)]
    return [240 + c / INT(262144), 128 + (c / INT(4096)) % INT(64), 128 + (c / INT(64)) % INT(64), 128 + c % INT(64)]


def nib_of(c):
    """Nibble value of a hex digit character, None if it is not one (forks)."""
    if isinstance(c, int):
        ch = chr(c)
        if ch in "0123456789abcdefABCDEF":
            return int(ch, 16)
        return None
    if isinstance(c, HexC):
        return c.nib()
    d = E.memo.get(("undigc", c.get_id())) if not isinstance(c, B64C) else None
    if d is not None:
        return d
    e = code_of(c)
    if not bool(rng(e, [ord(x) for x in "0123456789abcdefABCDEF"])):
        return None
    return z3.If(e <= 57, e - 48, z3.If(e >= 97, e - 87, e - 55))


def fromhex(s, mutable):
    it = str_items(s)
    if it is None:
        raise TypeError("fromhex() argument must be str, not %s" % type(s).__name__)
    it = SymStr(it).expand()
    out = []
    i = 0
    while i < len(it):
        c = it[i]
        if not isinstance(c, HexC) and bool(ch_in(c, (32, 9, 10, 11, 12, 13))):
            i += 1
            continue
        if i + 1 < len(it) and isinstance(c, HexC) and isinstance(it[i + 1], HexC) and c.lo == 0 and \
                it[i + 1].lo == 1 and c.b.eq(it[i + 1].b):
            out.append(c.b)
            i += 2
            continue
        h = nib_of(c)
        if h is None:
            raise ValueError("non-hexadecimal number found in fromhex() arg at position %d" % i)
        if i + 1 >= len(it):
            raise ValueError("non-hexadecimal number found in fromhex() arg at position %d" % (i + 1))
        l = nib_of(it[i + 1])
        if l is None:
            raise ValueError("non-hexadecimal number found in fromhex() arg at position %d" % (i + 1))
        if isinstance(h, int) and isinstance(l, int):
            out.append(16 * h + l)
        else:
            b = None
            if not isinstance(h, int) and not isinstance(l, int):
                b = E.memo.get(("unnib", h.get_id(), l.get_id()))
            if b is None:
                key = ("mkbyte", h if isinstance(h, int) else h.get_id(), l if isinstance(l, int) else l.get_id())
                if key not in E.memo:
                    v = E.fresh_int("hb", 0, 255)
                    E.add(v == h * 16 + l)
                    E.memo[key] = (h, l, v)
                b = E.memo[key][2]
            out.append(b)
        i += 2
    return SymBytes(out, mutable)


def digits_value(cs):
    """The integer of decimal digit character items (all known to be digits)."""
    vals = []
    for c in cs:
        if isinstance(c, int):
            vals.append(c - 48)
        elif isinstance(c, HexC):
            vals.append(c.nib())
        else:
            d = E.memo.get(("undigc", c.get_id())) if not isinstance(c, B64C) else None
            vals.append(d if d is not None else code_of(c) - 48)
    if all(not isinstance(v, int) for v in vals):
        hit = E.memo.get(("undig",) + tuple(v.get_id() for v in vals))
        if hit:
            return mkint(hit[0])
    s = 0
    for i, v in enumerate(reversed(vals)):
        s = s + v * (10 ** i)
    return mkint(s)


_DIG = tuple(range(48, 58))


def parse_int(s, base=10):
    """int(str[, base]) for a symbolic string."""
    if base == 16:
        return parse_int16(s)
    if base not in (10,):
        raise Unsupported("int() base")
    s = s.strip() if isinstance(s, SymStr) else s.strip()
    it = str_items(s)
    bad = ValueError("invalid literal for int() with base 10")
    if len(it) == 1 and isinstance(it[0], NumA):
        if it[0].frac == 0:
            return mkint(it[0].n)
        raise bad
    it = list(SymStr(it).expand())
    sign = 1
    if it and bool(ch_in(it[0], (43, 45))):
        if bool(char_eq(it[0], 45)):
            sign = -1
        it.pop(0)
    if not it:
        raise bad
    ds = []
    prev_us = True
    for c in it:
        if bool(ch_in(c, _DIG)):
            ds.append(c)
            prev_us = False
            continue
        if bool(ch_in(c, (95,))) and not prev_us:
            prev_us = True
            continue
        if not isinstance(c, int) and not bool(mkbool(code_of(c) < 128)):
            raise Unsupported("non-ASCII digit")
        raise bad
    if prev_us:
        raise bad
    v = digits_value(ds)
    return v if sign == 1 else -v


def parse_int16(s):
    s = s.strip()
    it = list(SymStr(str_items(s)).expand())
    bad = ValueError("invalid literal for int() with base 16")
    sign = 1
    if it and bool(ch_in(it[0], (43, 45))):
        if bool(char_eq(it[0], 45)):
            sign = -1
        it.pop(0)
    prev_us = True
    if len(it) >= 2 and bool(char_eq(it[0], 48)) and bool(ch_in(it[1], (88, 120))):
        it = it[2:]
        prev_us = False
        if it and bool(ch_in(it[0], (95,))):
            it.pop(0)
            prev_us = True
    if not it:
        raise bad
    v = 0
    n = 0
    nibs = []
    for c in it:
        h = nib_of(c)
        if h is not None:
            v = v * 16 + (h if isinstance(h, int) else mkint(h))
            nibs.append((c, h))
            prev_us = False
            n += 1
            continue
        if bool(ch_in(c, (95,))) and not prev_us:
            prev_us = True
            continue
        raise bad
    if prev_us or n == 0:
        raise bad
    if sign == 1 and isinstance(v, SymInt):
        if n % 2:
            nibs.insert(0, (48, 0))
        bs = []
        for i in range(0, len(nibs), 2):
            b = hexpair([nibs[i][0], nibs[i + 1][0]], 0)
            if b is None:
                b = 16 * nibs[i][1] + nibs[i + 1][1]
                b = b if isinstance(b, int) or not z3.is_int_value(z3.simplify(b)) else z3.simplify(b).as_long()
            bs.append(b)
        made_of(v, bs)
    return v if sign == 1 else -v


# ---------------------------------------------------------------------------------------------- decimal
PREC = 28


class SymDecimal(Sym):
    """coef * 10**exp, coef symbolic, exp concrete.  Negative zero is not represented."""
    __slots__ = ("coef", "exp")

    def __init__(self, coef, exp):
        self.coef, self.exp = coef, exp

    def __hash__(self):
        return HASHC

    def __repr__(self):
        return "<SymDecimal e%d>" % self.exp

    def __format__(self, spec):
        raise Unsupported("native format of a symbolic decimal")

    def __bool__(self):
        return bool(mkint_(self.coef) != 0)

    @staticmethod
    def parts(o):
        if isinstance(o, SymDecimal):
            return o.coef, o.exp
        if isinstance(o, (int, SymInt, SymBool)):
            return (o if not isinstance(o, SymBool) else o._i()), 0
        if isinstance(o, _Dec):
            if not o.is_finite():
                return None
            s, ds, e = o.as_tuple()
            c = int("".join(map(str, ds)) or "0")
            return (-c if s else c), e
        return None

    def _align(self, o):
        p = SymDecimal.parts(o)
        if p is None:
            return None
        c2, e2 = p
        e = min(self.exp, e2)
        return self.coef * 10 ** (self.exp - e), c2 * 10 ** (e2 - e), e

    def _cmp(self, o, f):
        if isinstance(o, float):
            o = _Dec(o)
        al = self._align(o)
        if al is None:
            return NotImplemented
        return f(al[0], al[1])

    def __eq__(self, o):
        if isinstance(o, _Dec) and not o.is_finite():
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else vnot(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __add__(self, o):
        al = self._align(o)
        if al is None:
            return NotImplemented
        return mkdec(al[0] + al[1], al[2])

    __radd__ = __add__

    def __sub__(self, o):
        al = self._align(o)
        if al is None:
            return NotImplemented
        return mkdec(al[0] - al[1], al[2])

    def __rsub__(self, o):
        al = self._align(o)
        if al is None:
            return NotImplemented
        return mkdec(al[1] - al[0], al[2])

    def __mul__(self, o):
        p = SymDecimal.parts(o)
        if p is None:
            return NotImplemented
        return mkdec(self.coef * p[0], self.exp + p[1])

    __rmul__ = __mul__

    def __neg__(self):
        return mkdec(-self.coef, self.exp)

    def __pos__(self):
        return mkdec(self.coef, self.exp)

    def __abs__(self):
        return mkdec(abs(self.coef), self.exp)

    def copy_abs(self):
        return SymDecimal(abs(self.coef), self.exp)

    def _divide(self, o):
        p = SymDecimal.parts(o)
        if p is None:
            return None
        c, e = p
        if not isinstance(c, int):
            raise Unsupported("division by a symbolic decimal")
        return c, e

    def __floordiv__(self, o):
        p = self._divide(o)
        if p is None:
            return NotImplemented
        al = self._align(o)
        a, b = al[0], al[1]
        if b == 0:
            raise _dec.DivisionByZero()
        if not (a >= 0) or b < 0:
            raise Unsupported("negative decimal floor division")
        return mkdec(a // b, 0)

    def __mod__(self, o):
        p = self._divide(o)
        if p is None:
            return NotImplemented
        al = self._align(o)
        a, b = al[0], al[1]
        if not (a >= 0) or b <= 0:
            raise Unsupported("negative decimal remainder")
        return mkdec(a % b, al[2])

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        p = self._divide(o)
        if p is None:
            return NotImplemented
        c, e = p
        # exact only for powers of ten
        k = abs(c)
        z = 0
        while k and k % 10 == 0:
            k //= 10
            z += 1
        if k != 1:
            raise Unsupported("inexact decimal division")
        return mkdec(self.coef if c > 0 else -self.coef, self.exp - e - z)

    def __rtruediv__(self, o):
        raise Unsupported("division by a symbolic decimal")

    def __int__(self):
        if self.exp >= 0:
            return self.coef * 10 ** self.exp
        d = 10 ** (-self.exp)
        if mkint_(self.coef) >= 0:
            return self.coef // d
        return -((-self.coef) // d)

    __trunc__ = __int__

    def __floor__(self):
        if self.exp >= 0:
            return self.coef * 10 ** self.exp
        return self.coef // (10 ** (-self.exp))

    def __ceil__(self):
        return -((-self.coef) // (10 ** (-self.exp))) if self.exp < 0 else self.coef * 10 ** self.exp

    def as_tuple(self):
        return DecTuple(self)

    def is_signed(self):
        return bool(mkint_(self.coef) < 0)

    def is_finite(self):
        return True

    def is_nan(self):
        return False

    is_infinite = is_qnan = is_snan = is_nan

    def is_zero(self):
        return bool(mkint_(self.coef) == 0)

    def scaleb(self, n, context=None):
        if not isinstance(n, int):
            n = int(n)
        return mkdec(self.coef, self.exp + n)

    def normalize(self, context=None):
        c, e = self.coef, self.exp
        if mkint_(c) == 0:
            return _Dec(0)
        k = 0
        while mkint_(c) % 10 == 0:
            c = c // 10
            e += 1
            k += 1
            if k > 60:
                raise Unsupported("normalize")
        return mkdec(c, e)

    def to_integral_exact(self, *a, **k):
        return self.quantize(_Dec(1), *a)

    to_integral_value = to_integral = to_integral_exact

    def quantize(self, o, rounding=None, context=None):
        e = SymDecimal.parts(o)[1]
        if e <= self.exp:
            return mkdec(self.coef * 10 ** (self.exp - e), e)
        d = 10 ** (e - self.exp)
        if not (mkint_(self.coef) % d == 0):
            if rounding in (_dec.ROUND_DOWN, _dec.ROUND_FLOOR) and bool(mkint_(self.coef) >= 0):
                return mkdec(self.coef // d, e)
            if rounding in (None, _dec.ROUND_HALF_EVEN) and bool(mkint_(self.coef) >= 0):
                return mkdec(half_even(self.coef, d), e)
            raise Unsupported("quantize with rounding")
        return mkdec(self.coef // d, e)

    def adjusted(self):
        raise Unsupported("adjusted")

    def compare(self, o):
        al = self._align(o)
        if al[0] < al[1]:
            return _Dec(-1)
        return _Dec(0) if al[0] == al[1] else _Dec(1)

    def max(self, o):
        return self if self >= o else o

    def min(self, o):
        return self if self <= o else o

    def fixed(self, n):
        """'{:.nf}'"""
        c, e = self.coef, self.exp
        neg = False
        if not (mkint_(c) >= 0):
            neg, c = True, -c
        if -e > n:
            d = 10 ** (-e - n)
            c = half_even(c, d)
        else:
            c = c * 10 ** (n + e)
        s = num_str(c, n)
        return ("-" + s) if neg else s

    def vstr(self):
        c, e = self.coef, self.exp
        neg = False
        if not (mkint_(c) >= 0):
            neg, c = True, -c
        if e == 0:
            s = num_str(c, 0)
        elif e < 0:
            # scientific notation when the adjusted exponent is below -6
            if -e > 6 and not (mkint_(c) >= 10 ** (-e - 6)):
                s = sci(c, e)
            else:
                s = num_str(c, -e)
        else:
            s = sci(c, e)
        return ("-" + s) if neg else s


def sci(c, e):
    """Text of a decimal in scientific notation (forks over the number of digits)."""
    n = 1
    while not (mkint_(c) < 10 ** n):
        n += 1
        if n > 140:
            raise Unsupported("decimal too long")
    return num_str(c, n - 1) + "E%+d" % (n - 1 + e)


def half_even(c, d):
    q, r = c // d, c % d
    up = vor([mkbool_(r * 2 > d), vand([mkbool_(r * 2 == d), mkbool_(q % 2 == 1)])])
    if isinstance(up, SymBool):
        return q + up._i()
    return q + (1 if up else 0)


def num_str(c, frac):
    if isinstance(c, int):
        s = str(c).zfill(frac + 1)
        return s[:-frac] + "." + s[-frac:] if frac else s
    return SymStr((NumA(c.e, frac + 1, frac),))


def mkint_(x):
    return x


class DecTuple:
    """as_tuple() of a symbolic decimal: sign and exponent; digits on demand."""

    def __init__(self, d):
        self.d = d

    @property
    def sign(self):
        return 1 if bool(self.d.coef < 0) else 0

    @property
    def exponent(self):
        return self.d.exp

    @property
    def digits(self):
        c = abs(self.d.coef)
        if isinstance(c, int):
            return tuple(map(int, str(c)))
        return tuple(parse_int(mkstr((x,))) for x in num_digits(NumA(c.e)))

    def __iter__(self):
        yield self.sign
        yield LazyDigits(self)
        yield self.exponent

    def __getitem__(self, i):
        return (lambda: self.sign, lambda: self.digits, lambda: self.exponent)[i]()

    def __len__(self):
        return 3


class LazyDigits:
    def __init__(self, t):
        self.t = t

    def __iter__(self):
        return iter(self.t.digits)

    def __len__(self):
        return len(self.t.digits)

    def __getitem__(self, i):
        return self.t.digits[i]


def mkdec(coef, exp):
    """Result of a decimal operation: exact as long as it has at most 28 digits (the default context)."""
    if isinstance(coef, int):
        s = 1 if coef < 0 else 0
        return +_Dec((s, tuple(map(int, str(abs(coef)))), exp))
    lim = 10 ** PREC
    if not E.branch(z3.And(coef.e < lim, coef.e > -lim)):
        # rounded to 28 significant digits, half even
        if not bool(coef >= 0):
            raise Unsupported("rounding of a negative decimal")
        k = 1
        while not bool(coef < 10 ** (PREC + k)):
            k += 1
            if k > 140:
                raise Unsupported("decimal too long")
        c = half_even(coef, 10 ** k)
        if isinstance(c, SymInt) and not bool(c < lim):
            raise Unsupported("decimal rounding carry")
        return mkdec(c, exp + k)
    return SymDecimal(coef, exp)


def parse_decimal(s):
    """Decimal(str) for a symbolic string."""
    s = s.strip()
    it = str_items(s)
    bad = _dec.InvalidOperation([_dec.ConversionSyntax])
    if len(it) == 1 and isinstance(it[0], NumA):
        return mkdec_exact(mkint(it[0].n), -it[0].frac)
    it = [c for c in SymStr(it).expand()]
    cs = []
    for c in it:
        if bool(ch_in(c, (95,))):
            continue
        cs.append(c)
    sign = 1
    if cs and bool(ch_in(cs[0], (43, 45))):
        if bool(char_eq(cs[0], 45)):
            sign = -1
        cs.pop(0)
    ip, fp, seen_dot, exp = [], [], False, 0
    i = 0
    while i < len(cs):
        c = cs[i]
        if bool(ch_in(c, _DIG)):
            (fp if seen_dot else ip).append(c)
        elif not seen_dot and bool(ch_in(c, (46,))):
            seen_dot = True
        elif (ip or fp) and bool(ch_in(c, (69, 101))):
            rest = cs[i + 1:]
            es = 1
            if rest and bool(ch_in(rest[0], (43, 45))):
                if bool(char_eq(rest[0], 45)):
                    es = -1
                rest = rest[1:]
            if not rest or not all(bool(ch_in(x, _DIG)) for x in rest):
                raise bad
            ev = digits_value(rest)
            if isinstance(ev, SymInt):
                if len(rest) > 2:
                    raise Unsupported("long exponent")
                ev = E.enumerate(ev.e)
            exp = es * ev
            break
        else:
            if not isinstance(c, int) and not bool(mkbool(code_of(c) < 128)):
                raise Unsupported("non-ASCII decimal")
            # Inf / NaN spellings
            return _nonfinite(cs, sign, bad)
        i += 1
    if not ip and not fp:
        raise bad
    v = digits_value(ip + fp)
    if sign == -1 and not bool(v != 0):
        return _Dec((1, (0,), exp - len(fp)))
    return mkdec_exact(v if sign == 1 else -v, exp - len(fp))


def _nonfinite(cs, sign, bad):
    for w, d in (("inf", "Infinity"), ("infinity", "Infinity"), ("nan", "NaN"), ("snan", "sNaN")):
        if len(cs) == len(w) and all(bool(ch_in(c, (ord(x), ord(x.upper())))) for c, x in zip(cs, w)):
            return _Dec(("-" if sign < 0 else "") + d)
    for w, d in (("nan", "NaN"), ("snan", "sNaN")):
        if len(cs) > len(w) and all(bool(ch_in(c, (ord(x), ord(x.upper())))) for c, x in zip(cs, w)) and \
                all(bool(ch_in(c, _DIG)) for c in cs[len(w):]):
            return _Dec(("-" if sign < 0 else "") + d)
    raise bad


def mkdec_exact(coef, exp):
    """Decimal construction (no rounding)."""
    if isinstance(coef, int):
        s = 1 if coef < 0 else 0
        return _Dec((s, tuple(map(int, str(abs(coef)))), exp))
    return SymDecimal(coef, exp)


def _with_decimals(name):
    f = getattr(SymInt, name)
    g = getattr(SymDecimal, name, None)
    if g is None:
        return

    def op(self, o):
        if isinstance(o, _Dec):
            return g(SymDecimal(self, 0), o)
        return f(self, o)
    setattr(SymInt, name, op)


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "mod", "eq", "ne", "lt", "le", "gt", "ge"):
    _with_decimals("__%s__" % _n)
