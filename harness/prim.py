"""C04..C07: currency, block stakes, binary data."""
from decimal import Decimal
from engine.api import case
import tfchain.errors as errors
from tfchain.encoders import encoder_rivine_get, encoder_sia_get, rivine_encode, sia_encode
from tfchain.types.PrimitiveTypes import BinaryData, Blockstake, Currency, Hash

UNIT = 10 ** 9
DIG = "0123456789"


def from_units(a):
    return Currency.from_json(str(a))


def digits_int(ds):
    v = 0
    for d in ds:
        v = v * 10 + (ord(d) - 48)
    return v


# ------------------------------------------------------------------------------------------------- C04
@case("C04")
def json_round_trip(ctx):
    a = ctx.int("a", 0, 10 ** 21)
    c = from_units(a)
    ctx.check(int(c) == a, "int() is the amount in the smallest unit")
    j = c.json()
    ctx.check(ctx.eq(j, str(a)), "json() is the decimal amount in the smallest unit")
    ctx.check(int(Currency.from_json(j)) == a, "from_json(json()) keeps the amount")
    ctx.check(Currency.from_json(j) == c, "from_json(json()) compares equal")
    ctx.observe("json", j)


@case("C04")
def int_is_whole_tokens(ctx):
    n = ctx.int("n", 0, 10 ** 12)
    c = Currency(value=n)
    ctx.check(int(c) == n * UNIT, "an int is a number of whole tokens")
    ctx.check(ctx.eq(c.json(), str(n * UNIT)), "json of whole tokens")


@case("C04", params=[dict(i=i, f=f) for i in (1, 2, 6) for f in range(0, 12)])
def parse_text(ctx, i, f):
    """Canonical decimal texts: i integer digits and f fraction digits."""
    ip, fp = ctx.str("i", i, DIG), ctx.str("f", f, DIG)
    suffix = ctx.choice("suffix", ["", " TFT", "TFT", " tft", "  Tft "])
    sign = ctx.choice("sign", ["", "+", "-"])
    text = sign + ip + ("." + fp if f else "") + suffix
    ok, c = ctx.attempt(Currency, text)
    want = digits_int(ip) * UNIT + (digits_int(fp[:9]) * 10 ** (9 - min(f, 9)) if f else 0)
    if f > 9:
        ctx.check(not ok, "more than nine decimals are rejected")
        ctx.check(isinstance(c, errors.CurrencyPrecisionOverflow), "CurrencyPrecisionOverflow is raised")
    elif sign == "-":
        ctx.check(not ok, "negative amounts are rejected")
        ctx.check(isinstance(c, errors.CurrencyNegativeValue), "CurrencyNegativeValue is raised")
    else:
        ctx.check(ok, "a decimal text is accepted")
        ctx.check(int(c) == want, "the text's amount is kept exactly")
        ctx.observe("amount", int(c))


@case("C04", params=[dict(k=k) for k in (0, 1, 3, 6, 9)], thorough=[dict(k=k) for k in (2, 4, 5, 7, 8)])
def text_round_trip(ctx, k):
    """Currency(str(c)) == c; the text has no trailing zeros (amounts with at most k decimals, up to 10^6 tokens)."""
    a = ctx.int("a", 0, 10 ** (6 + k)) * 10 ** (9 - k)
    c = from_units(a)
    s = str(c)
    ctx.check(int(Currency(s)) == a, "Currency(str(c)) keeps the amount")
    ctx.check(len(s) > 0, "the text is not empty")
    if "." in s:
        ctx.check(s[-1] != "0", "no trailing zeros after the point")
        ctx.check(s[-1] != ".", "no trailing point")
    w = c.str(with_unit=True)
    ctx.check(ctx.eq(w, s + " TFT"), "with_unit appends the unit")
    ctx.check(int(Currency(w)) == a, "the text with unit parses back")
    ctx.observe("text", s)


@case("C04", params=[dict(n=n) for n in range(1, 5)], thorough=[dict(n=5)])
def arbitrary_text(ctx, n):
    """Whatever the text, an accepted one is a non-negative amount of at most nine decimals."""
    s = ctx.str("s", n, " +-.0159eEnNaAiIfF_tT")
    ok, c = ctx.attempt(Currency, s)
    if not ok:
        ctx.reach("rejected")
        return
    ok, v = ctx.attempt(int, c)
    ctx.check(ok, "an accepted amount has an integer number of smallest units")
    ctx.check(v >= 0, "an accepted amount is not negative")
    ok, c2 = ctx.attempt(Currency.from_json, c.json())
    ctx.check(ok and int(c2) == v, "an accepted amount survives JSON")


def ref_amount(s):
    """The documented texts: blanks around, a sign, digits with one point, then optionally TFT; None for anything else."""
    def strip(s, left=True):
        while len(s) and s[-1] in " \n":
            s = s[:-1]
        while left and len(s) and s[0] in " \n":
            s = s[1:]
        return s
    s = strip(s)
    if len(s) > 3 and s[-3] in "tT" and s[-2] in "fF" and s[-1] in "tT":
        s = strip(s[:-3], False)
    neg = False
    if len(s) and s[0] in "+-":
        neg = s[0] == "-"
        s = s[1:]
    v, point, n = 0, None, 0
    for c in s:
        if c == "." and point is None:
            point = 0
        elif c in DIG:
            v = v * 10 + (ord(c) - 48)
            n += 1
            if point is not None:
                point += 1
        else:
            return None
    if not n:
        return None
    return neg, v, point or 0


@case("C04", params=[dict(n=n, head=h, tail=t) for n in (1, 2, 3) for h in ("", "1", "0.0", "-") for t in ("", "0", "tft", " Tft", "TFTTFT")]
      + [dict(n=1, head="1.23456789", tail=t) for t in ("", "1", "0", "12 TFT", ".")],
      thorough=[dict(n=4, head="", tail=t) for t in ("", "TFT")])
def which_texts_are_amounts(ctx, n, head, tail):
    s = head + ctx.str("s", n, " +-.,07TfF'x$") + tail
    ok, c = ctx.attempt(Currency, s)
    ref = ref_amount(s)
    if ref is None:
        ctx.check(not ok, "only a decimal number, optionally in TFT, is an amount")
        return
    neg, v, f = ref
    ctx.check(ok == (not neg and f <= 9), "non-negative amounts of at most nine decimals are accepted")
    if ok:
        ctx.check(int(c) == v * 10 ** (9 - f), "the text's amount is kept exactly")


@case("C04", params=[dict(n=n, head=h, tail=t) for n in (1, 2) for h in ("", "1") for t in ("", "0", " TFT")], thorough=[dict(n=3, head="", tail="")])
def which_json_texts_are_amounts(ctx, n, head, tail):
    """In JSON an amount is a whole number of smallest units, without a unit."""
    s = head + ctx.str("s", n, " +-.,07TfF'x$") + tail
    ok, c = ctx.attempt(Currency.from_json, s)
    ref = ref_amount(s) if tail != " TFT" else None
    if ref is None:
        ctx.check(not ok, "only a decimal number is a JSON amount")
        return
    neg, v, f = ref
    ctx.check(ok == (not neg and f == 0), "only whole non-negative numbers of smallest units are JSON amounts")
    if ok:
        ctx.check(int(c) == v, "the JSON amount is kept exactly")


@case("C04", params=[dict(kind=k) for k in ("int", "Decimal", "text")])
def negative_rejected(ctx, kind):
    a = ctx.int("a", 1, 10 ** 12)
    v = {"int": lambda: -a, "Decimal": lambda: -Decimal(a), "text": lambda: "-" + str(a)}[kind]()
    ok, c = ctx.attempt(Currency, v)
    ctx.check(not ok, "a negative amount is rejected")
    ctx.check(isinstance(c, errors.CurrencyNegativeValue), "CurrencyNegativeValue is raised")


@case("C04")
def setter_rejects_atomically(ctx):
    """A rejected assignment leaves the previous amount."""
    a = ctx.int("a", 0, 10 ** 18)
    bad = ctx.choice("bad", ["-1", "0.0000000001", "x", "", b"1", 1.5, None])
    c = from_units(a)

    def assign():
        c.value = bad
    ok, e = ctx.attempt(assign)
    if bad is None:
        ctx.check(ok and int(c) == 0, "None resets to zero")
    else:
        ctx.check(not ok, "an invalid amount is rejected")
        ctx.check(int(c) == a, "the amount is unchanged after a rejected assignment")


@case("C04")
def copy_keeps_amount(ctx):
    a = ctx.int("a", 0, 10 ** 21)
    ctx.check(int(Currency(from_units(a))) == a, "Currency(Currency) keeps the amount")
    ctx.check(int(Currency()) == 0, "the default amount is zero")
    ctx.check(Currency().json() == "0", "the default amount is 0 in JSON")
    ctx.check(str(Currency()) == "0", "the default amount is 0 as text")


# ------------------------------------------------------------------------------------------------- C05
def amount(ctx, name, kind, hi=10 ** 18):
    """(operand, amount in smallest units)"""
    if kind == "json":
        a = ctx.int(name, 0, hi)
        return from_units(a), a
    if kind == "whole":
        a = ctx.int(name, 0, hi // UNIT)
        return Currency(value=a), a * UNIT
    if kind == "milli":
        a = ctx.int(name, 0, hi // 10 ** 6)
        return Currency(value=Decimal(a) * Decimal("0.001")), a * 10 ** 6
    if kind == "int":
        a = ctx.int(name, 0, hi // UNIT)
        return a, a * UNIT
    if kind == "str":
        a = ctx.int(name, 0, hi // UNIT)
        return str(a), a * UNIT
    raise ValueError(kind)


CK = ["json", "whole", "milli"]
PAIRS = [(a, b) for a in CK for b in CK + ["int", "str"]]


@case("C05", params=[dict(k=a, l=b) for a, b in PAIRS])
def add_sub(ctx, k, l):
    x, a = amount(ctx, "x", k)
    y, b = amount(ctx, "y", l)
    ctx.check(int(x + y) == a + b, "addition is exact")
    ctx.check(int(x) == a, "addition leaves the left operand alone")
    if not isinstance(y, (int, str)):
        ctx.check(int(y) == b, "addition leaves the right operand alone")
    ok, d = ctx.attempt(lambda: x - y)
    if ok:
        ctx.check(a >= b, "a negative difference is rejected")
        ctx.check(int(d) == a - b, "subtraction is exact")
    else:
        ctx.check(a < b, "a non-negative difference is accepted")
        ctx.check(isinstance(d, errors.CurrencyNegativeValue), "CurrencyNegativeValue is raised")
    ctx.check(int(x) == a, "subtraction leaves the operand alone")


@case("C05", params=[dict(k=k, l=l) for k in CK for l in ("int", "str")])
def reflected(ctx, k, l):
    """int/str on the left behaves like a Currency on the left."""
    x, a = amount(ctx, "x", k)
    y, b = amount(ctx, "y", l)
    ctx.check(int(y + x) == a + b, "reflected addition is exact")
    ok, d = ctx.attempt(lambda: y - x)
    if ok:
        ctx.check(b >= a, "a negative reflected difference is rejected")
        ctx.check(int(d) == b - a, "reflected subtraction is right minus left operand order")
    else:
        ctx.check(b < a, "a non-negative reflected difference is accepted")
        ctx.check(isinstance(d, errors.CurrencyNegativeValue), "CurrencyNegativeValue is raised")


@case("C05", params=[dict(k=a, l=b) for a, b in PAIRS])
def in_place(ctx, k, l):
    x, a = amount(ctx, "x", k)
    y, b = amount(ctx, "y", l)
    z = x
    z += y
    ctx.check(int(z) == a + b, "in-place addition is exact")
    if not isinstance(y, (int, str)):
        ctx.check(int(y) == b, "in-place addition leaves the other operand alone")


@case("C05", params=[dict(k=a, l=b) for a, b in PAIRS])
def in_place_minus(ctx, k, l):
    x, a = amount(ctx, "x", k)
    y, b = amount(ctx, "y", l)

    def sub():
        w = x
        w -= y
        return w
    ok, d = ctx.attempt(sub)
    ctx.check(ctx.iff(ok, a >= b), "in-place subtraction is rejected exactly when negative")
    if ok:
        ctx.check(int(d) == a - b, "in-place subtraction is exact")
    else:
        ctx.check(int(x) == a, "a rejected in-place subtraction leaves the amount")
        ctx.check(isinstance(d, errors.CurrencyNegativeValue), "CurrencyNegativeValue is raised")
    if not isinstance(y, (int, str)):
        ctx.check(int(y) == b, "in-place subtraction leaves the other operand alone")


@case("C05", params=[dict(k=k, f=f) for k in CK for f in ("0.5", "0.001", "2", "1.25", "0")])
def multiply_by_fractions(ctx, k, f):
    """Fractions of an amount are exact, or rejected when they are finer than the smallest unit."""
    x, a = amount(ctx, "x", k, 10 ** 15)
    how = ctx.choice("how", ["Currency", "str", "in place", "reflected"])
    y = Currency(value=f)
    n = int(y)

    def mul():
        if how == "reflected":
            return f * x
        if how == "in place":
            z = x
            z *= y
            return z
        return x * (y if how == "Currency" else f)
    ok, z = ctx.attempt(mul)
    if ok:
        ctx.check(int(z) * UNIT == a * n, "the product is exact")
    else:
        ctx.check(isinstance(z, errors.CurrencyPrecisionOverflow), "CurrencyPrecisionOverflow is raised")
        ctx.check(len(f) > 1, "whole multiples are never rejected")


@case("C05", params=[dict(k=k, f=f) for k in CK for f in (0.1, 0.5, 2.5, 1e-7, 0.30000001, 123456.789)])
def floats(ctx, k, f):
    """A float stands for the decimal number it is printed as."""
    x, a = amount(ctx, "x", k)
    b = int(Decimal(str(f)) * UNIT)
    ctx.check(int(x + f) == a + b and int(f + x) == a + b, "addition is exact")
    ctx.check(ctx.iff(x < f, a < b), "< compares amounts")
    ctx.check(ctx.iff(x == f, a == b), "== compares amounts")
    ok, d = ctx.attempt(lambda: x - f)
    ctx.check(ctx.iff(ok, a >= b), "a negative difference is rejected")
    if ok:
        ctx.check(int(d) == a - b, "subtraction is exact")


@case("C05", params=[dict(k=k) for k in CK])
def not_amounts(ctx, k):
    """Operands that are no amounts are refused and leave the amount alone."""
    x, a = amount(ctx, "x", k)
    bad = ctx.choice("bad", [None, b"1", [1], "x", "-1", -1, Blockstake(value=1)])
    op = ctx.choice("op", ["+", "-", "*", "+=", "-=", "*=", "<", "=="])

    def f():
        z = x
        if op == "+":
            return x + bad
        if op == "-":
            return x - bad
        if op == "*":
            return x * bad
        if op == "<":
            return x < bad
        if op == "==":
            return x == bad
        if op == "+=":
            z += bad
        elif op == "-=":
            z -= bad
        else:
            z *= bad
        return z
    ok, r = ctx.attempt(f)
    ctx.check(not ok, "what is no amount cannot be combined with one")
    ctx.check(int(x) == a, "a refused operation leaves the amount")


@case("C05", params=[dict(k=a, l=b) for a, b in PAIRS])
def compare(ctx, k, l):
    x, a = amount(ctx, "x", k)
    y, b = amount(ctx, "y", l)
    ctx.check(ctx.iff(x == y, a == b), "== compares amounts")
    ctx.check(ctx.iff(x != y, a != b), "!= compares amounts")
    ctx.check(ctx.iff(x < y, a < b), "< compares amounts")
    ctx.check(ctx.iff(x <= y, a <= b), "<= compares amounts")
    ctx.check(ctx.iff(x > y, a > b), "> compares amounts")
    ctx.check(ctx.iff(x >= y, a >= b), ">= compares amounts")


@case("C05", params=[dict(k=a, l=b, w=w) for a, b in PAIRS for w in ("result", "operand")])
def results_are_separate(ctx, k, l, w):
    """Changing the result of an operation in place leaves the operands alone, and the other way around."""
    x, a = amount(ctx, "x", k)
    y, b = amount(ctx, "y", l)
    ctx.assume(a >= b)
    op = ctx.choice("op", ["+", "r+", "-", "*", "copy", "of", "max"])
    if op == "r+":
        z, c = y + x, a + b
    elif op == "+":
        z, c = x + y, a + b
    elif op == "-":
        z, c = x - y, a - b
    elif op == "*":
        m = ctx.choice("m", [1, 0, 2])
        z, c = x * m, a * m
    elif op == "copy":
        z, c = Currency(value=x), a
    elif op == "of":
        z, c = Currency.from_json(x.json()), a
    else:
        z, c = sum([x], Currency()), a
    if w == "result":
        z += 3
        ctx.check(int(z) == c + 3 * UNIT, "an in-place change is exact")
        ctx.check(int(x) == a, "changing a result leaves the operand alone")
        if not isinstance(y, (int, str)):
            ctx.check(int(y) == b, "changing a result leaves the operand alone")
    else:
        x += 3
        ctx.check(int(z) == c, "changing an operand leaves the result alone")
        if not isinstance(y, (int, str)):
            y += 5
            ctx.check(int(z) == c, "changing an operand leaves the result alone")


@case("C05", params=[dict(k=k, m=m) for k in CK for m in (0, 1, 2, 7, 10, 600, 1000, 1001, 65537, 999999999)])
def multiply(ctx, k, m):
    x, a = amount(ctx, "x", k)
    ctx.check(int(x * m) == a * m, "multiplication by an int is exact")
    ctx.check(int(m * x) == a * m, "reflected multiplication is exact")
    ctx.check(int(x * Currency(value=m)) == a * m, "multiplication by a Currency of whole tokens is exact")
    ctx.check(int(x) == a, "multiplication leaves the operand alone")
    z = Currency(value=x)
    z *= m
    ctx.check(int(z) == a * m, "in-place multiplication is exact")


@case("C05", params=[dict(k=k) for k in CK])
def multiply_any(ctx, k):
    """Any amount times any whole number."""
    x, a = amount(ctx, "x", k, 10 ** 15)
    m = ctx.int("m", 0, 10 ** 12)
    z = Currency(value=x)
    z *= m
    ctx.check(int(z) == a * m, "in-place multiplication is exact")
    ctx.check(int(x * m) == a * m, "multiplication by an int is exact")
    ctx.check(int(m * x) == a * m, "reflected multiplication is exact")


@case("C05", params=[dict(n=n) for n in (0, 1, 2, 3, 4)])
def sum_of_list(ctx, n):
    xs, tot = [], 0
    for i in range(n):
        x, a = amount(ctx, "x%d" % i, CK[i % 3], 10 ** 17)
        xs.append(x)
        tot = tot + a
    ctx.check(int(sum(xs, Currency())) == tot, "sum() adds every amount once")


# ------------------------------------------------------------------------------------------------- C06
def minimal_big_endian(ctx, bs, a):
    """bs is the shortest big-endian byte string of a."""
    v = 0
    for i in range(len(bs)):
        v = v * 256 + bs[i]
    return ctx.all([v == a] + ([bs[0] != 0] if len(bs) else []))


def le8(n):
    return bytes([n % 256]) + b"\x00" * 7


def values(ctx, what):
    if what == "currency":
        a = ctx.int("a", 0, 2 ** 80)
        return from_units(a), a
    if what == "tokens":
        a = ctx.int("a", 0, 2 ** 60)
        return Currency(value=a), a * UNIT
    a = ctx.int("a", 0, 2 ** 72)
    return Blockstake(value=a), a


@case("C06", params=[dict(what=w, enc=e, how=h) for w in ("currency", "tokens", "blockstake") for e in ("rivine", "sia")
                     for h in ("method", "add", "list")])
def encoding(ctx, what, enc, how):
    v, a = values(ctx, what)
    e = encoder_rivine_get() if enc == "rivine" else encoder_sia_get()
    p = ctx.bytes("pre", 2)
    e.add_array(p)
    if how == "method":
        if enc == "rivine":
            v.rivine_binary_encode(e)
        else:
            v.sia_binary_encode(e)
    elif how == "add":
        e.add(v)
    else:
        e.add_array([v])
    d = bytes(e.data)
    h = 1 if enc == "rivine" else 8
    n = len(d) - 2 - h
    ctx.check(ctx.eq(d[:2], p), "what was encoded before is untouched")
    ctx.check(n >= 0, "the byte count comes first")
    ctx.check(ctx.eq(d[2:2 + h], bytes([n * 2]) if enc == "rivine" else le8(n)), "the byte count comes first")
    ctx.check(minimal_big_endian(ctx, d[2 + h:], a), "an amount is its minimal big-endian bytes behind their count")
    ctx.observe("data", e.data)


@case("C06", params=[dict(what=w, enc=e) for w in ("currency", "blockstake") for e in ("rivine", "sia")])
def encoding_commits_to_amount(ctx, what, enc):
    f = rivine_encode if enc == "rivine" else sia_encode
    a, b = ctx.int("a", 0, 2 ** 40), ctx.int("b", 0, 2 ** 40)
    mk = from_units if what == "currency" else (lambda x: Blockstake(value=x))
    ctx.check(ctx.iff(ctx.eq(f(mk(a)), f(mk(b))), a == b), "equal encodings mean equal amounts")


@case("C06")
def blockstake_values(ctx):
    a = ctx.int("a", -10 ** 12, 2 ** 72)
    how = ctx.choice("how", ["int", "str", "json", "text"])
    f = {"int": lambda: Blockstake(value=a), "str": lambda: Blockstake(value=str(a)),
         "json": lambda: Blockstake.from_json(str(a)), "text": lambda: Blockstake(value=" " + str(a))}[how]
    ok, v = ctx.attempt(f)
    ctx.check(ctx.iff(ok, a >= 0), "block stakes are exactly the non-negative integers")
    if ok:
        ctx.check(int(v) == a, "the block stake keeps its value")
        ctx.check(ctx.eq(v.json(), str(a)), "json is the decimal value")
        ctx.check(int(Blockstake.from_json(v.json())) == a, "from_json(json()) keeps the value")


# ------------------------------------------------------------------------------------------------- C07
ENCODINGS = [None, "hex", "hexprefix", "base64"]
LENGTHS = [0, 1, 2, 3, 4]


@case("C07", params=[dict(n=n, enc=s, size=z) for n in LENGTHS + [20, 32, 33, 40, 64] for s in ENCODINGS for z in ("none", "fixed", "zero")],
      thorough=[dict(n=n, enc=s, size=z) for n in (5, 6, 7, 8, 39, 66, 80, 128) for s in ENCODINGS for z in ("none", "fixed", "zero")])
def binary_text_round_trip(ctx, n, enc, size):
    raw = ctx.bytes("raw", n)
    fs = {"none": None, "fixed": n, "zero": 0}[size]
    d = BinaryData(value=raw, fixed_size=fs, strencoding=enc)
    ctx.check(ctx.eq(bytes(d.value), raw), "the bytes are kept")
    ctx.check(len(d) == n, "len() is the number of bytes")
    t = str(d)
    ctx.check(ctx.eq(d.json(), t), "json() is the text")
    d2 = BinaryData.from_json(t, fixed_size=fs, strencoding=enc)
    ctx.check(ctx.eq(bytes(d2.value), raw), "from_json(json()) keeps the bytes")
    d3 = BinaryData(value=t, fixed_size=fs, strencoding=enc)
    ctx.check(ctx.eq(bytes(d3.value), raw), "parsing the text keeps the bytes")
    ctx.check(d2 == d, "a round trip compares equal")
    ctx.check(ctx.no(d2 != d), "a round trip does not compare unequal")
    if enc in (None, "hex"):
        ctx.check(ctx.eq(t, raw.hex()), "text is lower-case hex")
        ctx.check(ctx.eq(bytes(BinaryData(value=t.upper(), fixed_size=fs, strencoding=enc).value), raw),
                  "upper-case hex parses the same")
    if enc == "hexprefix":
        ctx.check(ctx.eq(t, "0x" + raw.hex()), "text is 0x-prefixed lower-case hex")
        ctx.check(ctx.eq(bytes(BinaryData(value=raw.hex(), fixed_size=fs, strencoding=enc).value), raw),
                  "the 0x prefix is optional when parsing")
        ctx.check(ctx.eq(bytes(BinaryData(value="0X" + raw.hex(), fixed_size=fs, strencoding=enc).value), raw),
                  "an 0X prefix is accepted")
    ctx.observe("text", t)


@case("C07", params=[dict(n=n, m=m) for n in (1, 2, 3) for m in (0, 1, 2, 3, 4)])
def fixed_size_is_enforced(ctx, n, m):
    """Data of a fixed size n holds n bytes or nothing."""
    raw = ctx.bytes("raw", m)
    how = ctx.choice("how", ["bytes", "text", "array", "data"])
    v = {"bytes": lambda: raw, "text": lambda: raw.hex(), "array": lambda: bytearray(raw),
         "data": lambda: BinaryData(value=raw)}[how]()
    ok, d = ctx.attempt(lambda: BinaryData(value=v, fixed_size=n))
    ctx.check(ok == (m in (0, n)), "only the fixed size (or nothing) is accepted")
    base = BinaryData(value=b"\x07" * n, fixed_size=n)

    def assign():
        base.value = v
    ok, e = ctx.attempt(assign)
    ctx.check(ok == (m in (0, n)), "assignment enforces the fixed size")
    ctx.check(ctx.eq(bytes(base.value), raw if ok else b"\x07" * n), "a rejected assignment leaves the value")


@case("C07", params=[dict(n=n, enc=s) for n in (0, 1, 2, 3) for s in ENCODINGS])
def equality_is_equality_of_bytes(ctx, n, enc):
    a, b = ctx.bytes("a", n), ctx.bytes("b", n)
    x, y = BinaryData(value=a, strencoding=enc), BinaryData(value=b, strencoding=enc)
    ctx.check(ctx.iff(x == y, ctx.eq(a, b)), "== is equality of bytes")
    ctx.check(ctx.iff(x != y, ctx.no(ctx.eq(a, b))), "!= is its negation")
    ctx.check(ctx.iff(x == b, ctx.eq(a, b)), "comparison with raw bytes")
    ctx.check(ctx.iff(x == str(y), ctx.eq(a, b)), "comparison with text")
    if x == y:
        ctx.check(hash(x) == hash(y), "equal data hashes equally")


@case("C07", params=[dict(n=n, enc=s, fixed=f) for n in (20, 31, 32, 33, 64, 65) for s in ("hex", "hexprefix") for f in (False, True)])
def equality_of_long_data(ctx, n, enc, fixed):
    """The same for longer data, and for data of which one is the start of the other."""
    a, b = ctx.bytes("a", n), ctx.bytes("b", n)
    kw = dict(strencoding=enc, fixed_size=n if fixed else None)
    x, y = BinaryData(value=a, **kw), BinaryData(value=b, **kw)
    ctx.check(ctx.iff(x == y, ctx.eq(a, b)), "== is equality of bytes")
    ctx.check(ctx.iff(x != y, ctx.no(ctx.eq(a, b))), "!= is its negation")
    ctx.check(ctx.iff(x == b, ctx.eq(a, b)), "comparison with raw bytes")
    ctx.check(ctx.iff(x != b.hex(), ctx.no(ctx.eq(a, b))), "comparison with text")
    if not fixed:
        for c in (a[:-1], a + b"\0", b""):
            ctx.check(ctx.all([ctx.no(x == c), x != c]), "data of another length is other data")


@case("C07")
def what_can_be_compared(ctx):
    """Data of different sizes or text forms is never compared, whatever the bytes."""
    raw = ctx.bytes("raw", 3)
    z, w = ctx.choice("size", [None, 3]), ctx.choice("size2", [None, 3])
    e, f = ctx.choice("enc", ENCODINGS), ctx.choice("enc2", ENCODINGS)
    x, y = BinaryData(value=raw, fixed_size=z, strencoding=e), BinaryData(value=raw, fixed_size=w, strencoding=f)
    ok, r = ctx.attempt(lambda: x == y)
    ok2, r2 = ctx.attempt(lambda: x != y)
    ctx.check(ok == (z == w and e == f) and ok2 == ok, "only data of one kind compares")
    ctx.check(ok or isinstance(r, TypeError), "TypeError is raised")
    if ok:
        ctx.check(r and not r2, "data of one kind with equal bytes is equal")
    ok, r = ctx.attempt(lambda: x == 3)
    ctx.check(not ok and isinstance(r, TypeError), "numbers are not binary data")


@case("C07")
def construction(ctx):
    raw = ctx.bytes("raw", 4)
    bad = ctx.choice("bad", [dict(fixed_size=-1), dict(fixed_size=-32), dict(fixed_size="4"), dict(strencoding="base32"), dict(strencoding=4),
                             dict(strencoding="")])
    ok, e = ctx.attempt(lambda: BinaryData(value=raw, **bad))
    ctx.check(not ok and isinstance(e, TypeError), "sizes are non-negative, text forms are known")
    ok, e = ctx.attempt(lambda: BinaryData(value=ctx.choice("v", [1, 1.5, [1], (1,), {}])))
    ctx.check(not ok and isinstance(e, TypeError), "only bytes and texts are binary data")
    for s in ("HEX", " hex "):
        ctx.check(str(BinaryData(value=raw, strencoding=s)) == raw.hex(), "the name of a text form is not case sensitive")
    zero = BinaryData(value=raw, fixed_size=0)
    ok, e = ctx.attempt(lambda: setattr(zero, "value", raw + b"1"))
    ctx.check(not ok and isinstance(e, ValueError), "size zero fixes the size of the first value")
    ctx.check(ctx.eq(bytes(zero.value), raw), "a rejected assignment leaves the value")


@case("C07", params=[dict(n=n, fixed=f, enc=e) for n in (0, 1, 3, 32) for f in (False, True) for e in ("rivine", "sia")])
def binary_encoding(ctx, n, fixed, enc):
    raw = ctx.bytes("raw", n)
    d = BinaryData(value=raw, fixed_size=n if fixed and n else None)
    out = (rivine_encode if enc == "rivine" else sia_encode)(d)
    ref = raw if (fixed and n) else ((bytes([n * 2]) if enc == "rivine" else le8(n)) + raw)
    ctx.check(ctx.eq(out, ref), "fixed-size data is an array, other data a slice")


@case("C07", params=[dict(n=n) for n in (0, 31, 32, 33)])
def hash_values(ctx, n):
    raw = ctx.bytes("raw", n)
    ok, h = ctx.attempt(lambda: Hash(value=raw))
    ctx.check(ok == (n in (0, 32)), "a hash is 32 bytes or nil")
    ok2, h2 = ctx.attempt(lambda: Hash.from_json(raw.hex()))
    ctx.check(ok2 == (n in (0, 32)), "a hash text is 64 hex digits or nil")
    if n == 32:
        ctx.check(ctx.eq(str(h), raw.hex()), "text of a hash is its hex")
        ctx.check(h == h2, "a hash survives its text form")
        ctx.check(ctx.eq(rivine_encode(h), raw), "a hash encodes as its 32 bytes (rivine)")
        ctx.check(ctx.eq(sia_encode(h), raw), "a hash encodes as its 32 bytes (sia)")
    if n == 0:
        ctx.check(str(h) == "0" * 64, "the nil hash is 64 zeros")


@case("C07")
def nil_hash_encoding(ctx):
    """The nil hash and its text form are one and the same value."""
    nil = Hash()
    z = Hash.from_json(str(nil))
    ctx.check(nil == z, "the nil hash survives its text form")
    ctx.check(ctx.eq(rivine_encode(nil), b"\x00" * 32), "the nil hash encodes as 32 zero bytes (rivine)")
    ctx.check(ctx.eq(sia_encode(nil), b"\x00" * 32), "the nil hash encodes as 32 zero bytes (sia)")


@case("C07", params=[dict(n=n, enc=s) for n in (1, 2, 3, 4) for s in ("hex", "hexprefix")])
def text_rejection(ctx, n, enc):
    """Whatever the text, accepted means: it is hex digits (and optional prefix / spacing between bytes)."""
    s = ctx.str("s", n, "09aAfFgGxX -\n_")
    ok, d = ctx.attempt(lambda: BinaryData(value=s, strencoding=enc))
    if not ok:
        ctx.check(isinstance(d, ValueError), "ValueError for text that is not hex")
        return
    body = s
    if enc == "hexprefix" and n >= 2 and (s[:2] == "0x" or s[:2] == "0X"):
        body = s[2:]
    clean = [c for c in body if c not in " \n"]
    ctx.check(ctx.all([c in "09aAfF" for c in clean]), "only hex digits are accepted")
    ctx.check(len(d) * 2 == len(clean), "every byte comes from two hex digits")
