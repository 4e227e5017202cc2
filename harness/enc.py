"""C01, C02: the Rivine and Sia binary encoders."""
from engine.api import case
from tfchain.encoders import encoder_rivine_get, encoder_sia_get, rivine_encode, sia_encode
from tfchain.encoders.exceptions import IntegerOutOfRange, SliceLengthOutOfRange

BIG = 2 ** 72


def le(v, n):
    """Reference little-endian encoding."""
    out = []
    for _ in range(n):
        out.append(v % 256)
        v = v // 256
    return bytes(out)


def start(ctx, enc):
    p = ctx.bytes("pre", 2)
    enc.add_array(p)
    return p


FIXED = [("rivine", "add_int8", 1), ("rivine", "add_int16", 2), ("rivine", "add_int24", 3), ("rivine", "add_int32", 4),
         ("rivine", "add_int64", 8), ("rivine", "add", 8), ("sia", "add_int", 8), ("sia", "add", 8),
         ("rivine", "add_all", 8), ("sia", "add_all", 8)]


@case("C01", params=[dict(enc=e, fn=f, n=n) for e, f, n in FIXED])
def fixed_width(ctx, enc, fn, n):
    e = encoder_rivine_get() if enc == "rivine" else encoder_sia_get()
    p = start(ctx, e)
    v = ctx.int("v", -BIG, BIG)
    ok, r = ctx.attempt(getattr(e, fn), v)
    fits = ctx.all([v >= 0, v < 256 ** n])
    if ok:
        ctx.check(fits, "an integer outside the width is rejected")
        ctx.check(ctx.eq(e.data, p + le(v, n)), "fixed-width little-endian bytes are appended")
        ctx.check(len(e.data) == 2 + n, "exactly n bytes are appended")
    else:
        ctx.check(ctx.no(fits), "an integer inside the width is accepted")
        ctx.check(isinstance(r, IntegerOutOfRange), "IntegerOutOfRange is raised")
        ctx.check(ctx.eq(e.data, p), "a rejected integer leaves the data unchanged")
    ctx.observe("ok", ok)
    ctx.observe("data", e.data)


@case("C01", params=[dict(enc=e) for e in ("rivine", "sia")])
def single_byte(ctx, enc):
    e = encoder_rivine_get() if enc == "rivine" else encoder_sia_get()
    p = start(ctx, e)
    v = ctx.int("v", -BIG, BIG)
    ok, r = ctx.attempt(e.add_byte, v)
    fits = ctx.all([v >= 0, v < 256])
    ctx.check(ctx.iff(ok, fits), "add_byte accepts exactly 0..255")
    if ok:
        ctx.check(ctx.eq(e.data, p + bytes([v])), "add_byte appends that byte")
    else:
        ctx.check(ctx.eq(e.data, p), "a rejected byte leaves the data unchanged")
    ctx.observe("data", e.data)


class Number:
    """Something that is not an int, but can be turned into one (like an enumeration value)."""

    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


@case("C01", params=[dict(enc=e, fn=f, n=n) for e, f, n in FIXED if e == "rivine"] + [dict(enc="rivine", fn="add_byte", n=1),
                                                                                     dict(enc="sia", fn="add_byte", n=1)])
def int_like(ctx, enc, fn, n):
    """An object with an integer value is encoded like that integer."""
    e = encoder_rivine_get() if enc == "rivine" else encoder_sia_get()
    p = start(ctx, e)
    v = ctx.int("v", -BIG, BIG)
    ok, r = ctx.attempt(getattr(e, fn), Number(v))
    fits = ctx.all([v >= 0, v < 256 ** n])
    ctx.check(ctx.iff(ok, fits), "exactly the integers of the width are accepted")
    if ok:
        ctx.check(ctx.eq(e.data, p + le(v, n)), "fixed-width little-endian bytes are appended")
    else:
        ctx.check(isinstance(r, ValueError if enc == "sia" else IntegerOutOfRange), "the range error is raised")
        ctx.check(ctx.eq(e.data, p), "a rejected integer leaves the data unchanged")


@case("C01", params=[dict(enc=e, fn=f) for e, f, _ in FIXED if f not in ("add", "add_all")] + [dict(enc="rivine", fn="add_byte"),
                                                                                             dict(enc="sia", fn="add_byte")])
def not_a_number(ctx, enc, fn):
    """What is no integer is not encoded as one."""
    e = encoder_rivine_get() if enc == "rivine" else encoder_sia_get()
    p = start(ctx, e)
    bad = ctx.choice("bad", [None, "12", b"12", [1, 2], (), {}] + ([1.5, Number(1)] if enc == "sia" and fn == "add_int" else []))
    ok, r = ctx.attempt(getattr(e, fn), bad)
    ctx.check(not ok and isinstance(r, (TypeError, ValueError)), "only integers are encoded")
    ctx.check(ctx.eq(e.data, p), "a rejected value leaves the data unchanged")


@case("C01", params=[dict(enc=e, n=n) for e in ("rivine", "sia") for n in (0, 1, 2)])
def byte_from_text(ctx, enc, n):
    e = encoder_rivine_get() if enc == "rivine" else encoder_sia_get()
    p = start(ctx, e)
    v = ctx.str("v", n)
    ok, r = ctx.attempt(e.add_byte, v)
    ctx.check(ok == (n == 1), "add_byte takes exactly one byte")
    ctx.check(ctx.eq(e.data, p + v.encode("utf-8") if n == 1 else p), "add_byte appends the byte it was given")
    ok, r = ctx.attempt(e.add_byte, ctx.choice("wide", ["\xe9", "\u20ac", "\U0001f600"]))
    ctx.check(not ok and isinstance(r, ValueError), "a character of several bytes is no byte")


@case("C01", params=[dict(enc=e, n=n) for e in ("rivine", "sia") for n in (0, 1, 2)])
def byte_from_bytes(ctx, enc, n):
    e = encoder_rivine_get() if enc == "rivine" else encoder_sia_get()
    p = start(ctx, e)
    v = ctx.bytes("v", n)
    ok, r = ctx.attempt(e.add_byte, v)
    ctx.check(ok == (n == 1), "add_byte takes exactly one byte")
    ctx.check(ctx.eq(e.data, p + v if n == 1 else p), "add_byte appends the byte it was given")


@case("C01", params=[dict(enc=e) for e in ("rivine", "sia")])
def booleans(ctx, enc):
    e = encoder_rivine_get() if enc == "rivine" else encoder_sia_get()
    p = start(ctx, e)
    b = ctx.bool("b")
    e.add(b)
    ctx.check(ctx.eq(e.data, p + bytes([1 if b else 0])), "a bool is one byte, 0 or 1")
    ctx.observe("data", e.data)


@case("C01", params=[dict(enc=e) for e in ("rivine", "sia")])
def sequence_is_concatenation(ctx, enc):
    """Encoding several values is the concatenation of their encodings; reset starts over."""
    a, b, c = ctx.int("a", 0, 2 ** 64 - 1), ctx.bytes("b", 2), ctx.bool("c")
    new = encoder_rivine_get if enc == "rivine" else encoder_sia_get
    parts = []
    for x in (a, b, c):
        e = new()
        e.add(x)
        parts.append(bytes(e.data))
    whole = (rivine_encode if enc == "rivine" else sia_encode)(a, b, c)
    ctx.check(ctx.eq(whole, parts[0] + parts[1] + parts[2]), "values are encoded one after another")
    e = new()
    e.add(a)
    e.reset()
    e.add(b)
    ctx.check(ctx.eq(e.data, parts[1]), "reset drops what was encoded before")
    d = e.data
    e.reset()
    e.add(c)
    ctx.check(ctx.eq(d, parts[1]), "what was encoded before reset keeps its value")
    ctx.check(ctx.eq(e.data, parts[2]), "reset drops what was encoded before")
    for ks in ((), (0,), (2, 0), (1, 1, 2, 0)):
        e = new()
        e.add_all(*[(a, b, c)[i] for i in ks])
        ctx.check(ctx.eq(e.data, b"".join([parts[i] for i in ks])), "values are encoded one after another")


# ------------------------------------------------------------------------------------------------- C02
def rivine_prefix(n):
    """Reference length prefix: bytes of the rivbin slice header."""
    if n < 2 ** 7:
        return le(n * 2, 1)
    if n < 2 ** 14:
        return le(n * 4 + 1, 2)
    if n < 2 ** 21:
        return le(n * 8 + 3, 3)
    return le(n * 8 + 7, 4)


LIM = 2 ** 29


@case("C02", params=[dict(enc=e, fn=f) for e in ("rivine", "sia") for f in ("add_slice", "add")])
def byte_slice(ctx, enc, fn):
    e = encoder_rivine_get() if enc == "rivine" else encoder_sia_get()
    blob = ctx.blob("blob", 0, LIM + 16)
    n = len(blob)
    ok, r = ctx.attempt(getattr(e, fn), blob)
    if enc == "rivine":
        ctx.check(ctx.iff(ok, n < LIM), "slices of 2^29 bytes or more are rejected, shorter ones are not")
        if not ok:
            ctx.check(isinstance(r, SliceLengthOutOfRange), "SliceLengthOutOfRange is raised")
            ctx.check(len(e.data) == 0, "nothing is written for a rejected slice")
            return
    else:
        ctx.check(ok, "every slice is accepted")
    h, body = ctx.split_blob(e.data, blob)
    ctx.check(ctx.eq(h, rivine_prefix(n) if enc == "rivine" else le(n, 8)), "the length prefix is the slice length")
    ctx.check(ctx.eq(body, blob), "the slice body follows its prefix unchanged")
    ctx.observe("header", h)


@case("C02", params=[dict(enc=e, fn=f) for e in ("rivine", "sia") for f in ("add_slice", "add")])
def text_slice(ctx, enc, fn):
    """A str is framed by its UTF-8 byte length, whatever its character count."""
    e = encoder_rivine_get() if enc == "rivine" else encoder_sia_get()
    s = ctx.blobstr("s", 0, LIM // 4)
    raw = s.encode("utf-8")
    ctx.assume(len(raw) < LIM)
    getattr(e, fn)(s)
    h, body = ctx.split_blob(e.data, raw)
    n = len(raw)
    ctx.check(ctx.eq(h, rivine_prefix(n) if enc == "rivine" else le(n, 8)), "a text is framed by its UTF-8 byte length")
    ctx.check(ctx.eq(body, raw), "the UTF-8 bytes follow the prefix")


@case("C02", params=[dict(enc=e) for e in ("rivine", "sia")])
def text_array(ctx, enc):
    e = encoder_rivine_get() if enc == "rivine" else encoder_sia_get()
    s = ctx.blobstr("s", 0, LIM // 4)
    e.add_array(s)
    ctx.check(ctx.eq(e.data, s.encode("utf-8")), "the array of a text is its UTF-8 bytes, without a prefix")


@case("C02", params=[dict(enc=e, n=n) for e in ("rivine", "sia") for n in (0, 1, 2, 3)])
def short_text(ctx, enc, n):
    """Texts of any characters."""
    new = encoder_rivine_get if enc == "rivine" else encoder_sia_get
    s = ctx.str("s", n) + ctx.choice("wide", ["", "\xe9", "\u20ac\xff", "\U0001f600a", "e\u0301"])
    raw = s.encode("utf-8")
    frame = rivine_prefix(len(raw)) if enc == "rivine" else le(len(raw), 8)
    for fn, ref in (("add_array", raw), ("add_slice", frame + raw), ("add", frame + raw), ("add_all", frame + raw)):
        e = new()
        getattr(e, fn)(s)
        ctx.check(ctx.eq(e.data, ref), "a text is its UTF-8 bytes, framed by their count in a slice")
    e = new()
    e.add_slice([s, s])
    ctx.check(ctx.eq(e.data, (rivine_prefix(2) if enc == "rivine" else le(2, 8)) + (frame + raw) * 2), "texts in a list are framed")


@case("C02", params=[dict(enc=e) for e in ("rivine", "sia")])
def array_has_no_prefix(ctx, enc):
    e = encoder_rivine_get() if enc == "rivine" else encoder_sia_get()
    blob = ctx.blob("blob", 0, LIM)
    e.add_array(blob)
    ctx.check(ctx.eq(e.data, blob), "an array is its bytes, without a prefix")


@case("C02", params=[dict(enc=e, n=n, kind=k) for e in ("rivine", "sia") for n in (0, 1, 2, 3)
                     for k in ("int", "bytes", "nested", "bool")])
def list_slice(ctx, enc, n, kind):
    """A list is framed by its element count, each element encoded by its own rules; an array has no frame."""
    new = encoder_rivine_get if enc == "rivine" else encoder_sia_get
    els, ref = [], b""

    def frame(k):
        return rivine_prefix(k) if enc == "rivine" else le(k, 8)
    for i in range(n):
        if kind == "int":
            v = ctx.int("v%d" % i, 0, 2 ** 64 - 1)
            ref = ref + le(v, 8)
        elif kind == "bool":
            v = ctx.bool("v%d" % i)
            ref = ref + bytes([1 if v else 0])
        elif kind == "bytes":
            v = ctx.bytes("v%d" % i, i)
            ref = ref + frame(i) + v
        else:
            x = ctx.bytes("v%d" % i, 1)
            v = [x] * i
            ref = ref + frame(i) + (frame(1) + x) * i
        els.append(v)
    e = new()
    e.add_slice(els)
    ctx.check(ctx.eq(e.data, frame(n) + ref), "a list slice is its count followed by its encoded elements")
    e = new()
    e.add(els)
    ctx.check(ctx.eq(e.data, frame(n) + ref), "add() encodes a list as a slice")
    e = new()
    e.add_array(els)
    ctx.check(ctx.eq(e.data, ref), "a list array is its encoded elements")
    for f, h in (("add_slice", frame(n)), ("add", frame(n)), ("add_array", b"")):
        e = new()
        getattr(e, f)(tuple(els))
        ctx.check(ctx.eq(e.data, h + ref), "a tuple is encoded like a list")
    ctx.observe("data", e.data)


@case("C02", params=[dict(enc=e, n=n) for e in ("rivine", "sia") for n in (0, 1, 3)])
def slices_are_self_delimiting(ctx, enc, n):
    """Two different pairs of slices never share an encoding (the frames make concatenation injective)."""
    f = rivine_encode if enc == "rivine" else sia_encode
    a, b = ctx.bytes("a", n), ctx.bytes("b", 3 - n)
    m = ctx.choice("m", [0, 1, 2, 3])
    c, d = ctx.bytes("c", m), ctx.bytes("d", 3 - m)
    ctx.check(ctx.iff(ctx.eq(f(a, b), f(c, d)), ctx.all([m == n, ctx.eq(a, c) if m == n else False,
                                                        ctx.eq(b, d) if m == n else False])),
              "equal encodings mean equal slices")
