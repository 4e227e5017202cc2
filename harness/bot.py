"""C24, C25: 3Bot names and network addresses."""
import ipaddress
from engine.api import case
from tfchain.encoders import rivine_encode, sia_encode
from tfchain.types.ThreeBot import BotName, NetworkAddress
from harness.types import rlen

DIG = "0123456789"


# ------------------------------------------------------------------------------------------------- C25
@case("C25", params=[dict(d=d) for d in ((1, 1, 1, 1), (3, 2, 1, 3), (2, 3, 3, 1))])
def ipv4(ctx, d):
    parts = [ctx.str("p%d" % i, n, DIG) for i, n in enumerate(d)]
    text = ".".join(parts)
    vals = []
    good = []
    for p in parts:
        v = 0
        for c in p:
            v = v * 10 + ord(c) - 48
        vals.append(v)
        good.append(ctx.all([v <= 255] + ([ctx.no(ctx.eq(p[0], "0"))] if len(p) > 1 else [])))
    ok, a = ctx.attempt(NetworkAddress, text)
    ctx.check(ctx.iff(ok, ctx.all(good)), "an IPv4 address has four numbers up to 255 without leading zeros")
    if ok:
        raw = bytes(vals)
        for f in (rivine_encode, sia_encode):
            ctx.check(ctx.eq(f(a), b"\x11" + raw), "an IPv4 address is its four bytes behind type and length")
        ctx.check(ctx.eq(a.json(), text), "an IPv4 address prints as it was given")
        ctx.check(ctx.eq(rivine_encode(NetworkAddress.from_json(a.json())), b"\x11" + raw), "an IPv4 address survives JSON")


@case("C25", params=[dict(part=p, n=n) for p in (0, 3) for n in (1, 2, 3)])
def ipv4_octet_characters(ctx, part, n):
    """One octet of arbitrary characters."""
    p = ctx.str("p", n)
    ctx.assume(ctx.all([ord(c) != 58 for c in p]))  # with a colon it may be an IPv6 address
    parts = ["10", "20", "30", "40"]
    parts[part] = p
    ok, a = ctx.attempt(NetworkAddress, ".".join(parts))
    digits = ctx.all([ctx.all([ord(c) >= 48, ord(c) <= 57]) for c in p])
    v = 0
    for c in p:
        v = v * 10 + ord(c) - 48
    good = ctx.all([digits, v <= 255] + ([ctx.no(ctx.eq(p[0], "0"))] if n > 1 else []))
    if ok and part == 3:  # a hostname: three labels do not fit before a top level domain
        ctx.check(good, "nothing else is a network address")
    else:
        ctx.check(ctx.iff(ok, good), "nothing else is a network address")


def hexval(ctx, s):
    v = 0
    for c in s:
        o = ord(c)
        v = v * 16 + ctx.ite(o <= 57, o - 48, o - 87)
    return v


@case("C25", params=[dict(k=k) for k in range(8)])
def ipv6_full(ctx, k):
    """Eight groups, one of them symbolic."""
    g = ctx.str("g", 4, DIG + "abcdef")
    ctx.assume(ctx.no(ctx.eq(g[0], "0")))
    groups = ["1db8"] * 8
    groups[k] = g
    a = NetworkAddress(":".join(groups))
    raw = b""
    for i in range(8):
        raw = raw + (hexval(ctx, g).to_bytes(2, "big") if i == k else b"\x1d\xb8")
    for f in (rivine_encode, sia_encode):
        ctx.check(ctx.eq(f(a), b"\x42" + raw), "an IPv6 address is its 16 bytes behind type and length")
    ctx.check(ctx.eq(a.json(), ":".join(groups)), "a canonical IPv6 address prints as it was given")
    ctx.check(ctx.eq(rivine_encode(NetworkAddress.from_json(a.json())), b"\x42" + raw), "an IPv6 address survives JSON")


@case("C25", params=[dict(k=k) for k in range(0, 6)])
def ipv6_compressed(ctx, k):
    """k groups before and one after '::'."""
    g = ctx.str("g", 2, DIG + "abcdef")
    text = ":".join(["abc"] * k) + "::" + g
    a = NetworkAddress(text)
    raw = b"\x0a\xbc" * k + b"\x00" * (14 - 2 * k) + hexval(ctx, g).to_bytes(2, "big")
    ctx.check(ctx.eq(rivine_encode(a), b"\x42" + raw), "'::' stands for zero groups")
    ctx.check(ctx.eq(rivine_encode(NetworkAddress.from_json(a.json())), b"\x42" + raw), "an IPv6 address survives JSON")


@case("C25")
def ipv4_mapped(ctx):
    g, h = ctx.str("g", 4, DIG + "abcdef"), ctx.str("h", 4, DIG + "abcdef")
    raw = hexval(ctx, g).to_bytes(2, "big") + hexval(ctx, h).to_bytes(2, "big")
    a = NetworkAddress("::ffff:" + g + ":" + h)
    ctx.check(ctx.eq(rivine_encode(a), b"\x11" + raw), "an IPv4 address mapped into IPv6 is an IPv4 address")


@case("C25")
def from_int(ctx):
    n = ctx.int("n", -5, 2 ** 130)
    ok, a = ctx.attempt(NetworkAddress, n)
    ctx.check(ctx.iff(ok, ctx.all([n >= 0, n < 2 ** 128])), "a number is an address up to 128 bits")
    if ok:
        if n < 2 ** 32:
            ctx.check(ctx.eq(rivine_encode(a), b"\x11" + n.to_bytes(4, "big")), "up to 32 bits an IPv4 address")
        else:
            raw = n.to_bytes(16, "big")
            mapped = ctx.eq(raw[:12], b"\0" * 10 + b"\xff\xff")
            ctx.check(ctx.iff(mapped, ctx.eq(rivine_encode(a), b"\x11" + raw[12:])), "else an IPv6 (or mapped) address")


def alpha(ctx, c):
    o = ord(c)
    return ctx.any([ctx.all([o >= 65, o <= 90]), ctx.all([o >= 97, o <= 122])])


def digit(ctx, c):
    return ctx.all([ord(c) >= 48, ord(c) <= 57])


def alnum(ctx, c):
    return ctx.any([alpha(ctx, c), digit(ctx, c)])


def isc(ctx, c, chars):
    return ctx.any([ord(c) == ord(x) for x in chars])


def host_label(ctx, s):
    if len(s) == 0 or len(s) > 63:
        return False
    if len(s) == 1:
        return alpha(ctx, s)
    if len(s) == 2:
        return ctx.all([alnum(ctx, s[0]), alnum(ctx, s[1]), ctx.any([alpha(ctx, s[0]), alpha(ctx, s[1])])])
    return ctx.all([alnum(ctx, s[0]), alnum(ctx, s[-1])] + [ctx.any([alnum(ctx, c), isc(ctx, c, "-_")]) for c in s[1:-1]])


def hostname_ref(ctx, s):
    """label '.' tld of 2..6 letters, or label '.' name of 2..30 '.' country of 2..3 letters; at most 63 characters."""
    n = len(s)
    if n > 63:
        return False
    alts = []
    for i in range(1, n - 2):
        dot, lab = ord(s[i]) == 46, host_label(ctx, s[:i])
        rest = s[i + 1:]
        if 2 <= len(rest) <= 6:
            alts.append(ctx.all([dot, lab] + [alpha(ctx, c) for c in rest]))
        for k in (2, 3):
            j = len(rest) - k - 1
            if 2 <= j <= 30:
                alts.append(ctx.all([dot, lab, ord(rest[j]) == 46] + [ctx.any([alnum(ctx, c), ord(c) == 45]) for c in rest[:j]]
                                    + [alpha(ctx, c) for c in rest[j + 1:]]))
    return ctx.any(alts) if alts else False


@case("C25", params=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)], thorough=[dict(n=n) for n in (7, 8, 9)])
def hostname_grammar(ctx, n):
    s = ctx.str("s", n, "aZ5.-_ \n@" if n < 7 else "aZ.-_ \n@")  # seven characters may be an IPv4 address
    ok, a = ctx.attempt(NetworkAddress, s)
    ctx.check(ctx.iff(ok, hostname_ref(ctx, s)), "a hostname is a label and a domain")
    if ok:
        ctx.check(ctx.eq(a.json(), s), "a hostname prints as it was given")
        for f in (rivine_encode, sia_encode):
            ctx.check(ctx.eq(f(a), bytes([4 * n]) + s.encode("utf-8")), "a hostname is its characters behind type and length")
        ctx.check(ctx.eq(rivine_encode(NetworkAddress.from_json(a.json())), rivine_encode(a)), "a hostname survives JSON")


@case("C25", params=[dict(pre=a, post=b, n=n) for a, b in (("sub", ""), ("", ".org"), ("ab", ".co.uk"), ("x-", "y.be"))
                     for n in (1, 2, 3)])
def hostname_parts(ctx, pre, post, n):
    c = ctx.str("c", n)
    ctx.assume(ctx.all([ord(x) != 58 for x in c]))  # with a colon it may be an IPv6 address
    s = pre + c + post if pre != "sub" else "sub.example." + c
    ok, a = ctx.attempt(NetworkAddress, s)
    ctx.check(ctx.iff(ok, hostname_ref(ctx, s)), "a hostname is a label and a domain")


@case("C25", params=[dict(n=n, tail=t) for n in (55, 57, 58, 59, 60, 61, 62) for t in (".org", ".ab.be")])
def hostname_length(ctx, n, tail):
    c = ctx.str("c", 2, "ab-.")
    s = "a" * (n - 2) + c + tail
    ok, a = ctx.attempt(NetworkAddress, s)
    ctx.check(ctx.iff(ok, hostname_ref(ctx, s)), "a hostname has at most 63 characters")
    if ok:
        ctx.check(ctx.eq(rivine_encode(a), bytes([4 * len(s)]) + s.encode("utf-8")),
                  "a hostname is its characters behind type and length")


@case("C25", params=[dict(n=n) for n in (1, 2, 3, 5, 6, 7, 8)])
def hostname_top_level(ctx, n):
    """The last letters of a top level domain of n characters, and of a country of a longer domain."""
    c = ctx.str("c", 1, "aZ5-_.")
    for pre in ("example.", "a-b.co-9."):
        s = pre + "x" * (n - 1) + c
        ok, a = ctx.attempt(NetworkAddress, s)
        ctx.check(ctx.iff(ok, hostname_ref(ctx, s)), "a top level domain has two to six letters")


@case("C25", params=[dict(n=n) for n in (29, 30, 31)])
def hostname_middle(ctx, n):
    c = ctx.str("c", 1, "aZ5-_.")
    s = "ab." + c + "x" * (n - 1) + ".be"
    ok, a = ctx.attempt(NetworkAddress, s)
    ctx.check(ctx.iff(ok, hostname_ref(ctx, s)), "a domain below a country has at most 30 characters")


@case("C25", params=[dict(t=t) for t in ("abc.example.org", "10.20.30.40", "1:2:3:4:5:6:7:8", "")])
def surrounding_characters(ctx, t):
    """Nothing is stripped from or added to the text of an address."""
    c = ctx.str("c", 1, " \t\n\r\x00./[]%0")
    for s in (c + t, t + c):
        for make in (NetworkAddress, NetworkAddress.from_json):
            ok, a = ctx.attempt(make, s)
            if ":" in t:  # a leading zero of a group, and a last group with a zero more, are the same notation
                if ctx.eq(c, "0"):
                    ctx.check(ok, "a group has up to four digits")
                    continue
            if t == "10.20.30.40" and s[0] == "1":
                if ctx.eq(c, "0"):
                    ctx.check(ctx.no(ok), "an octet is at most 255")
                    continue
            if "org" in t and s[0] != "a":
                if ctx.eq(c, "0"):
                    ctx.check(ok, "a label may start with a digit")
                    continue
            ctx.check(ctx.no(ok), "an address is refused with any character too much")


@case("C25")
def declared_type(ctx):
    """A declared type has to be the type of the address."""
    types = {"host": NetworkAddress.Type.HOSTNAME, "v4": NetworkAddress.Type.IPV4, "v6": NetworkAddress.Type.IPV6}
    texts = {"host": "abc.org", "v4": "1.2.3.4", "v6": "1::2", "mapped": "::ffff:1.2.3.4", "nil": None}
    real = {"host": "host", "v4": "v4", "v6": "v6", "mapped": "v4", "nil": "host"}
    k = ctx.choice("k", list(texts))
    t = ctx.choice("t", list(types) + ["int", "text"])
    if t in types:
        ok, a = ctx.attempt(lambda: NetworkAddress(texts[k], network_type=types[t]))
        ctx.check(ctx.iff(ok, real[k] == t), "the declared type is checked")
        if ok:
            ctx.check(ctx.eq(rivine_encode(a), rivine_encode(NetworkAddress(texts[k]))), "the declared type changes nothing")
    else:
        ok, a = ctx.attempt(lambda: NetworkAddress(texts[k], network_type={"int": 1, "text": "IPV4"}[t]))
        ctx.check(ctx.all([ctx.no(ok), isinstance(a, TypeError)]), "a type is a type")


@case("C25")
def other_values(ctx):
    """Raw bytes, numbers in JSON and other objects are no addresses."""
    raw = ctx.bytes("raw", 4)
    for v in (raw, raw + raw + raw + raw, bytearray(b"abc.org"), 1.5, [1, 2, 3, 4]):
        ok, a = ctx.attempt(NetworkAddress, v)
        ctx.check(ctx.all([ctx.no(ok), isinstance(a, TypeError)]), "an address is a text, a number or an address")
    n = ctx.int("n", 0, 2 ** 33)
    ok, a = ctx.attempt(NetworkAddress.from_json, n)
    ctx.check(ctx.all([ctx.no(ok), isinstance(a, TypeError)]), "an address is a text in JSON")


@case("C25")
def reassigned(ctx):
    """A value assigned later replaces the first, and a refused one leaves it."""
    texts = ["abc.org", "1.2.3.4", "1::2", None]
    k, m = ctx.choice("k", [0, 1, 2, 3]), ctx.choice("m", [0, 1, 2, 3])
    copy = ctx.bool("copy")
    a = NetworkAddress(texts[k])
    b = NetworkAddress(texts[m])
    was = rivine_encode(b)
    a.value = b if copy else texts[m]
    ctx.check(ctx.eq(rivine_encode(a), was), "the last value counts")
    ctx.check(ctx.eq(a.json(), b.json()), "the last value counts")
    ok, _ = ctx.attempt(setattr, a, "value", "no address")
    ctx.check(ctx.all([ctx.no(ok), ctx.eq(rivine_encode(a), was)]), "a refused value leaves the address")
    if copy:
        a.value = "other.example.org"
        ctx.check(ctx.eq(rivine_encode(b), was), "a copy is independent")


@case("C25")
def copies_and_nil(ctx):
    k = ctx.choice("k", ["host", "v4", "v6"])
    c = ctx.str("c", 2, "abc")
    a = NetworkAddress({"host": "example." + c, "v4": "1.2.3.4", "v6": "::1:" + c}[k])
    b = NetworkAddress(a)
    ctx.check(ctx.eq(rivine_encode(b), rivine_encode(a)), "a copy is the same address")
    ctx.check(ctx.eq(b.json(), a.json()), "a copy is the same address")
    for nil in (NetworkAddress(), NetworkAddress.from_json(""), NetworkAddress.from_json(None)):
        ctx.check(ctx.eq(rivine_encode(nil), b"\x00"), "no address is one zero byte")
        ctx.check(nil.json() == "", "no address is an empty text")


# ------------------------------------------------------------------------------------------------- C24
def bot_label(ctx, s, top):
    if not 5 <= len(s) <= top:
        return False
    return ctx.all([alpha(ctx, s[0]), alnum(ctx, s[-1])] + [ctx.any([alnum(ctx, c), ord(c) == 45]) for c in s[1:-1]])


def bot_ref(ctx, s):
    """Labels of 5 or more letters, digits and dashes (letter first, no dash last), joined by dots; at most 63 characters."""
    n = len(s)
    if n > 63:
        return False
    good = [None] * (n + 1)  # good[i]: s[:i] is a name

    for i in range(n + 1):
        alts = [bot_label(ctx, s[:i], 63)]
        for j in range(5, i - 5):
            alts.append(ctx.all([good[j], ord(s[j]) == 46, bot_label(ctx, s[j + 1:i], 57)]))
        good[i] = ctx.any(alts)
    return good[n]


@case("C24", params=[dict(n=n) for n in (1, 3, 4, 5, 6, 7)], thorough=[dict(n=n) for n in (2, 8)])
def name_grammar(ctx, n):
    s = ctx.str("s", n)
    ok, b = ctx.attempt(BotName, s)
    ctx.check(ctx.iff(ok, bot_ref(ctx, s)), "a bot name is made of labels of five or more characters")
    if ok:
        ctx.check(ctx.eq(b.json(), s), "a bot name keeps its text")
        ctx.check(ctx.eq(rivine_encode(b), rlen(n) + s.encode("utf-8")), "a bot name is encoded as a slice")
        ctx.check(ctx.eq(sia_encode(b), n.to_bytes(8, "little") + s.encode("utf-8")), "a bot name is encoded as a slice")
        c = BotName(b)
        ctx.check(ctx.eq(c.json(), s), "a copy is the same name")
        ctx.check(ctx.eq(BotName.from_json(b.json()).json(), s), "a bot name survives JSON")
    else:
        ctx.check(isinstance(b, ValueError), "an invalid name is a ValueError")


@case("C24", params=[dict(n=n) for n in (11, 12)], thorough=[dict(n=n) for n in (13, 17)])
def name_labels(ctx, n):
    s = ctx.str("s", n, "aZ5.-")
    ok, b = ctx.attempt(BotName, s)
    ctx.check(ctx.iff(ok, bot_ref(ctx, s)), "labels are joined by dots")


@case("C24", params=[dict(pre=p, n=n) for p in ("abc", "abcde.", "abcde.abcd", "abcde.abcde") for n in (1, 2)])
def name_end(ctx, pre, n):
    c = ctx.str("c", n)
    s = pre + c
    ok, b = ctx.attempt(BotName, s)
    ctx.check(ctx.iff(ok, bot_ref(ctx, s)), "labels are joined by dots")


@case("C24", params=[dict(n=n, v=v) for n in (62, 63, 64) for v in (0, 1)],
      thorough=[dict(n=n, v=v) for n in (58, 60, 61) for v in (0, 1, 2)] + [dict(n=n, v=2) for n in (62, 63, 64)])
def name_length(ctx, n, v):
    c = ctx.str("c", 2, "ab-.")
    for s in ("a" * (n - 2) + c, "abcde." + "b" * (n - 8) + c, "abcde" + "c" * (n - 13) + ".abcd" + c + "z")[v:v + 1]:
        ok, b = ctx.attempt(BotName, s)
        ctx.check(ctx.iff(ok, bot_ref(ctx, s)), "a bot name has at most 63 characters")


@case("C24", params=[dict(n=n, k=k) for n in (62, 63, 64, 65, 66, 80, 99, 120, 127, 128) for k in (5, 9, 20)])
def name_length_of_labels(ctx, n, k):
    """Names of many labels, with symbolic last characters."""
    c = ctx.str("c", 2, "ab9-.")
    s = (("abcdefghijklmnopqrstuvwxyz"[:k] + ".") * 30)[:n - 2] + c
    ok, b = ctx.attempt(BotName, s)
    ctx.check(ctx.iff(ok, bot_ref(ctx, s)), "a bot name has at most 63 characters")


@case("C24")
def nil_name(ctx):
    for b in (BotName(), BotName.from_json(""), BotName.from_json(None), BotName(BotName())):
        ctx.check(b.json() == "", "no name is an empty text")
        ctx.check(ctx.eq(rivine_encode(b), b"\x00"), "no name is an empty slice")


@case("C24", params=[dict(n=n) for n in (5, 11)])
def surrounding_characters_of_names(ctx, n):
    """Nothing is stripped from or added to the text of a name."""
    t = "abcde" if n == 5 else "abcde.fghij"
    c = ctx.str("c", 1, " \t\n\r\x00./-_")
    for s in (c + t, t + c):
        for make in (BotName, BotName.from_json):
            ok, a = ctx.attempt(make, s)
            ctx.check(ctx.all([ctx.no(ok), isinstance(a, ValueError)]), "a name is refused with any character too much")


@case("C24")
def other_names(ctx):
    raw = ctx.bytes("raw", 6)
    for v in (raw, bytearray(raw), 5, ["abcde"]):
        ok, a = ctx.attempt(BotName, v)
        ctx.check(ctx.all([ctx.no(ok), isinstance(a, TypeError)]), "a name is a text or a name")
    ok, a = ctx.attempt(BotName.from_json, ctx.int("n", 0, 99999))
    ctx.check(ctx.all([ctx.no(ok), isinstance(a, TypeError)]), "a name is a text in JSON")


@case("C24")
def reassigned_names(ctx):
    c = ctx.str("c", 5, "abcdeZ-9")
    a, b = BotName("first"), BotName("other")
    copy = ctx.bool("copy")
    ok, n = ctx.attempt(BotName, c)
    if not ok:
        ok2, _ = ctx.attempt(setattr, a, "value", c)
        ctx.check(ctx.all([ctx.no(ok2), ctx.eq(a.json(), "first")]), "a refused value leaves the name")
        return
    a.value = n if copy else c
    ctx.check(ctx.eq(a.json(), c), "the last value counts")
    a.value = b
    ctx.check(ctx.all([ctx.eq(a.json(), "other"), ctx.eq(n.json(), c)]), "the last value counts")
    a.value = None
    ctx.check(ctx.all([ctx.eq(a.json(), ""), ctx.eq(b.json(), "other")]), "the last value counts")
