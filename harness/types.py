"""C08..C17: addresses, keys, conditions, fulfillments."""
import hashlib
import itertools
from engine.api import case
from tfchain.encoders import rivine_encode, sia_encode
from tfchain.types import ConditionTypes, FulfillmentTypes
from tfchain.types.ConditionTypes import (AtomicSwapSecret, AtomicSwapSecretHash, ConditionAtomicSwap, ConditionLockTime,
                                          ConditionMultiSignature, ConditionNil, ConditionUnlockHash, OutputLock,
                                          UnlockHash, UnlockHashType)
from tfchain.types.CryptoTypes import PublicKey, PublicKeySpecifier
from tfchain.types.ERC20 import ERC20Address, ERC20Hash
from tfchain.types.PrimitiveTypes import Hash

HEX = "0123456789abcdef"
TYPES = {1: UnlockHashType.PUBLIC_KEY, 2: UnlockHashType.ATOMIC_SWAP, 3: UnlockHashType.MULTI_SIG, 0: UnlockHashType.NIL}


def b2(data):
    return hashlib.blake2b(bytes(data), digest_size=32).digest()


def le8(n):
    return n.to_bytes(8, "little")


def rlen(n):
    """rivbin length prefix (n < 2^14)."""
    return bytes([n * 2]) if n < 128 else (n * 4 + 1).to_bytes(2, "little")


def address(t, raw):
    """Reference text of an address."""
    cs = b2(bytes([t]) + raw)[:6].hex() if t else "0" * 12
    return "%02x" % t + raw.hex() + cs


def unlockhash(ctx, name, t=1):
    raw = ctx.bytes(name, 32)
    return UnlockHash(type=TYPES[t], hash=raw), raw


def pubkey(ctx, name):
    raw = ctx.bytes(name, 32)
    return PublicKey(specifier=PublicKeySpecifier.ED25519, hash=raw), raw


# ------------------------------------------------------------------------------------------------- C08
@case("C08", params=[dict(t=t) for t in (1, 2, 3)])
def text_round_trip(ctx, t):
    u, raw = unlockhash(ctx, "h", t)
    s = str(u)
    ctx.check(len(s) == 78, "an address has 78 characters")
    ctx.check(ctx.eq(s, address(t, raw)), "an address is type, hash and the checksum of both in hex")
    ctx.check(ctx.eq(u.json(), s), "JSON form is the text")
    v = UnlockHash.from_json(s)
    ctx.check(v == u, "parsing the text gives an equal address")
    ctx.check(ctx.eq(str(v), s), "parsing and printing keeps the text")
    ctx.check(v.type == TYPES[t], "the type survives")
    ctx.check(ctx.eq(bytes(v.hash.value), raw), "the hash survives")
    ctx.check(u == s, "an address equals its text")
    for f in (rivine_encode, sia_encode):
        ctx.check(ctx.eq(f(u), bytes([t]) + raw), "binary form is the type byte and the hash")
        ctx.check(ctx.eq(f(v), bytes([t]) + raw), "binary form survives the text")
    ctx.observe("address", s)


@case("C08")
def nil_address(ctx):
    s = str(UnlockHash())
    ctx.check(s == "0" * 78, "the nil address is all zeros")
    u = UnlockHash.from_json(s)
    ctx.check(u == UnlockHash(), "the nil address survives its text")
    ctx.check(ctx.eq(rivine_encode(u), rivine_encode(UnlockHash())), "the nil address has one binary form")
    ctx.check(ctx.eq(sia_encode(u), sia_encode(UnlockHash())), "the nil address has one binary form")
    ctx.check(len(rivine_encode(UnlockHash())) == 33, "the nil address has 33 bytes")


@case("C08", params=[dict(t=t) for t in (1, 2, 3)])
def checksum_is_enforced(ctx, t):
    raw = ctx.bytes("h", 32)
    cs = ctx.str("cs", 12, HEX)
    ok, u = ctx.attempt(UnlockHash.from_json, "%02x" % t + raw.hex() + cs)
    ctx.check(ctx.iff(ok, ctx.eq(cs, b2(bytes([t]) + raw)[:6].hex())), "accepted exactly when the checksum matches")
    if not ok:
        ctx.check(isinstance(u, ValueError), "a wrong checksum is a ValueError")


@case("C08", params=[dict(k=k, t=t) for k in range(0, 12, 3) for t in (1, 3)], thorough=[dict(k=k, t=2) for k in range(12)])
def one_wrong_checksum_character(ctx, k, t):
    u, raw = unlockhash(ctx, "h", t)
    s = str(u)
    i = 66 + k
    c = ctx.str("c", 1, "0123456789abcdefABCDEF gz")
    ctx.assume(ctx.no(ctx.eq(c, s[i])))
    ok, _ = ctx.attempt(UnlockHash.from_json, s[:i] + c + s[i + 1:])
    ctx.check(not ok, "a wrong checksum character is rejected")


@case("C08")
def nil_is_only_zeros(ctx):
    raw = ctx.bytes("h", 32)
    cs = ctx.str("cs", 12, "0123f")
    ok, u = ctx.attempt(UnlockHash.from_json, "00" + raw.hex() + cs)
    zero = ctx.all([ctx.eq(raw, b"\x00" * 32), ctx.eq(cs, "0" * 12)])
    ctx.check(ctx.iff(ok, zero), "a nil address is accepted only in its all-zero form")


@case("C08")
def type_is_canonical(ctx):
    """Whatever the two type characters: an accepted address prints as the text it was parsed from."""
    ty = ctx.str("ty", 2, "0123 +-_aAx")
    raw = b"\x11" * 32
    n = ctx.choice("n", [0, 1, 2, 3, 4, 10, 12, 13, 16, 20, 30])
    cs = b2(bytes([n]) + raw)[:6].hex()
    text = ty + raw.hex() + cs
    ok, u = ctx.attempt(UnlockHash.from_json, text)
    if ok:
        ctx.check(ctx.eq(str(u), text), "an accepted address prints as the text it was parsed from")
    ctx.check(ctx.implies(ctx.any([ctx.eq(text, address(i, raw)) for i in (1, 2, 3)]), ok), "valid addresses are accepted")


@case("C08", params=[dict(n=n) for n in (0, 1, 66, 76, 77, 79, 80)])
def length_is_enforced(ctx, n):
    s = ctx.str("s", n, HEX)
    ok, u = ctx.attempt(UnlockHash.from_json, s)
    ctx.check(not ok, "only 78 characters make an address")


@case("C08", params=[dict(p=p) for p in (2, 33, 65)])
def hash_is_hex(ctx, p):
    """A non-hex character in the hash part is rejected."""
    c = ctx.str("c", 1)
    base = address(1, b"\x5a" * 32)
    text = base[:p] + c + base[p + 1:]
    ok, u = ctx.attempt(UnlockHash.from_json, text)
    if ok:
        ctx.check(ctx.eq(str(u), text.lower()), "an accepted address prints as the text it was parsed from")


@case("C08", params=[dict(t=t, v=v) for t, v in itertools.product((1, 2, 3), repeat=2) if t <= v])
def equality(ctx, t, v):
    a, ra = unlockhash(ctx, "a", t)
    b, rb = unlockhash(ctx, "b", v)
    same = ctx.all([t == v, ctx.eq(ra, rb)])
    ctx.check(ctx.iff(a == b, same), "addresses are equal exactly when type and hash are")
    ctx.check(ctx.iff(a != b, ctx.no(same)), "!= is the negation")
    ctx.check(ctx.iff(ctx.eq(str(a), str(b)), same), "equal texts mean equal addresses")
    if a == b:
        ctx.check(hash(a) == hash(b), "equal addresses hash equally")


@case("C08", params=[dict(t=t, v=v) for t, v in ((0, 0), (0, 1), (1, 0), (0, 3))])
def equality_of_untyped(ctx, t, v):
    """The same rule for addresses of the nil type, whatever their hash."""
    ra, rb = ctx.bytes("a", 32), ctx.bytes("b", 32)
    h = Hash(value=ra)
    a, b = UnlockHash(type=TYPES[t], hash=h), UnlockHash(type=TYPES[v], hash=rb)
    same = ctx.all([t == v, ctx.eq(ra, rb)])
    ctx.check(ctx.iff(a == b, same), "addresses are equal exactly when type and hash are")
    ctx.check(ctx.iff(a != b, ctx.no(same)), "!= is the negation")
    h.value = rb
    ctx.check(ctx.eq(bytes(a.hash.value), ra), "an address keeps its hash")


@case("C08", params=[dict(t=t, n=n) for t in (0, 1, 2, 3) for n in (0, 1, 31, 32, 33, 39, 64)])
def hash_size_is_enforced(ctx, t, n):
    raw = ctx.bytes("raw", n)
    how = ctx.choice("how", ["bytes", "text", "hash", "set"])
    if how == "hash" and n not in (0, 32):
        return

    def f():
        if how == "set":
            u = UnlockHash(type=TYPES[t])
            u.hash = raw
            return u
        return UnlockHash(type=TYPES[t], hash={"bytes": lambda: raw, "text": lambda: raw.hex(), "hash": lambda: Hash(value=raw)}[how]())
    ok, u = ctx.attempt(f)
    ctx.check(ok == (n in (0, 32)), "the hash of an address has 32 bytes")
    if ok:
        ctx.check(ctx.eq(bytes(u.hash.value), raw if n else b"\x00" * 32), "the hash is kept")
        ctx.check(u.type == TYPES[t] and int(u.type) == t, "the type is kept")


@case("C08", params=[dict(t=t) for t in (0, 1, 2, 3)])
def compared_with_texts(ctx, t):
    """An address equals the text of an equal address, and no other."""
    a, ra = unlockhash(ctx, "a", t) if t else (UnlockHash(), b"\x00" * 32)
    v = ctx.choice("v", [1, 2, 3])
    rb = ctx.bytes("b", 32)
    text = address(v, rb)
    ctx.check(ctx.iff(a == text, ctx.all([t == v, ctx.eq(ra, rb)])), "an address equals exactly the text of an equal address")
    ctx.check(ctx.iff(a != text, ctx.no(ctx.all([t == v, ctx.eq(ra, rb)]))), "!= is the negation")


# ------------------------------------------------------------------------------------------------- C09
@case("C09")
def nil_key(ctx):
    """A key that is not set: no algorithm, zero bytes."""
    for k in (PublicKey(), PublicKey.from_json(""), PublicKey.from_json(None), PublicKey.from_json(str(PublicKey()))):
        ctx.check(str(k) == ":" + "0" * 64, "the nil key's text is an empty algorithm and zeros")
        ctx.check(rivine_encode(k) == b"\x00" * 33, "rivbin form of the nil key")
        ctx.check(sia_encode(k) == b"\x00" * 16 + le8(32) + b"\x00" * 32, "siabin form of the nil key")
        ctx.check(k.specifier == PublicKeySpecifier.NIL and int(k.specifier) == 0, "the nil key has no algorithm")


@case("C09", params=[dict(f=f) for f in (None, "NIL", "ED25519")])
def key_parts(ctx, f):
    raw = ctx.bytes("k", 32)
    how = ctx.choice("how", ["bytes", "text", "hash"])
    h = {"bytes": lambda: raw, "text": lambda: raw.hex(), "hash": lambda: Hash(value=raw)}[how]()
    k = PublicKey(specifier=f and getattr(PublicKeySpecifier, f), hash=h)
    n, name = (1, b"ed25519") if f == "ED25519" else (0, b"")
    ctx.check(ctx.eq(str(k), name.decode() + ":" + raw.hex()), "a key's text is its algorithm and hex bytes")
    ctx.check(ctx.eq(rivine_encode(k), bytes([n]) + raw), "rivbin form: algorithm byte and key")
    ref = name + b"\x00" * (16 - len(name)) + le8(32) + raw
    ctx.check(ctx.eq(sia_encode(k), ref), "siabin form: padded algorithm name and key slice")
    p = PublicKey.from_json(str(k))
    ctx.check(ctx.eq(rivine_encode(p), bytes([n]) + raw), "the text survives")
    ctx.check(ctx.eq(bytes(p.unlockhash.hash.value), b2(le8(len(ref)) + ref)), "a key's address is the hash of its siabin slice")
    bad = ctx.choice("bad", ["ed25519", 1, b"ed25519"])
    ok, e = ctx.attempt(lambda: PublicKey(specifier=bad, hash=h))
    ctx.check(not ok and isinstance(e, TypeError), "an algorithm is a specifier")


@case("C09", params=[dict(tail=t) for t in (":", ":a", "0", " ", ":" + "ab" * 32, "\n:ab")] + [dict(tail=":", n=2)])
def key_text_has_two_parts(ctx, tail, n=0):
    raw = ctx.bytes("k", 32)
    ok, k = ctx.attempt(PublicKey.from_json, "ed25519:" + raw.hex() + tail + ctx.str("s", n))
    ctx.check(not ok or tail == " ", "a key text is an algorithm and 32 bytes")
    ok, k = ctx.attempt(PublicKey.from_json, ":" * (n + 1) + "ed25519:" + raw.hex())
    ctx.check(not ok, "a key text is an algorithm and 32 bytes")


@case("C09")
def key_round_trip(ctx):
    k, raw = pubkey(ctx, "k")
    s = str(k)
    ctx.check(ctx.eq(s, "ed25519:" + raw.hex()), "a key's text is its algorithm and hex bytes")
    ctx.check(ctx.eq(k.json(), s), "the JSON form is the text")
    p = PublicKey.from_json(s)
    ctx.check(ctx.eq(p.json(), s), "the text survives")
    ctx.check(ctx.eq(bytes(p.hash.value), raw), "the bytes survive")
    ctx.check(p.specifier == PublicKeySpecifier.ED25519, "the algorithm survives")
    ctx.check(ctx.eq(rivine_encode(k), b"\x01" + raw), "rivbin form: algorithm byte and key")
    ref = b"ed25519" + b"\x00" * 9 + le8(32) + raw
    ctx.check(ctx.eq(sia_encode(k), ref), "siabin form: padded algorithm name and key slice")
    ctx.check(ctx.eq(rivine_encode(p), b"\x01" + raw), "rivbin form survives the text")
    ctx.check(ctx.eq(sia_encode(p), ref), "siabin form survives the text")
    u = k.unlockhash
    ctx.check(u.type == UnlockHashType.PUBLIC_KEY, "a key's address is of the public key type")
    ctx.check(ctx.eq(bytes(u.hash.value), b2(le8(len(ref)) + ref)), "a key's address is the hash of its siabin slice")
    ctx.check(ctx.eq(str(p.unlockhash), str(u)), "the address survives the text")
    ctx.observe("address", str(u))


@case("C09")
def address_commits_to_key(ctx):
    a, ra = pubkey(ctx, "a")
    b, rb = pubkey(ctx, "b")
    ctx.check(ctx.iff(a.unlockhash == b.unlockhash, ctx.eq(ra, rb)), "one address per key")
    ctx.check(ctx.iff(ctx.eq(a.json(), b.json()), ctx.eq(ra, rb)), "one text per key")


@case("C09", params=[dict(n=n) for n in (0, 1, 31, 33, 64)])
def key_size_is_enforced(ctx, n):
    raw = ctx.bytes("raw", n)
    ok, _ = ctx.attempt(lambda: PublicKey(specifier=PublicKeySpecifier.ED25519, hash=raw))
    ctx.check(ok == (n == 0), "a key has 32 bytes")
    ok, _ = ctx.attempt(PublicKey.from_json, "ed25519:" + raw.hex())
    ctx.check(ok == (n == 0), "a key text has 32 bytes")


@case("C09", params=[dict(n=n) for n in (1, 2, 7)])
def unknown_algorithm_is_rejected(ctx, n):
    spec = ctx.str("spec", n, "ed25519EDx ")
    ok, k = ctx.attempt(PublicKey.from_json, spec + ":" + "ab" * 32)
    ctx.check(ctx.iff(ok, ctx.eq(spec, "ed25519")), "only ed25519 keys are accepted")
    ok, k = ctx.attempt(PublicKey.from_json, spec + "ab" * 32)
    ctx.check(not ok, "a key text needs its separator")


# ------------------------------------------------------------------------------------------------- C10
@case("C10", params=[dict(t=t) for t in (1, 2, 3)])
def erc20_address_of_wallet_address(ctx, t):
    u, raw = unlockhash(ctx, "h", t)
    a = ERC20Address.from_unlockhash(u)
    ctx.check(ctx.eq(bytes(a.value), b2(bytes([t]) + raw)[12:]), "the ERC20 form is the last 20 bytes of the address hash")
    s = str(a)
    ctx.check(ctx.eq(s, "0x" + bytes(a.value).hex()), "its text is 0x-prefixed hex")
    ctx.check(ctx.eq(bytes(ERC20Address.from_json(s).value), bytes(a.value)), "its text survives")
    ctx.check(ERC20Address.is_valid_value(s), "its text is valid")
    ctx.check(ERC20Address.is_valid_value(bytes(a.value)), "its bytes are valid")
    ctx.check(ERC20Address.is_valid_value(a), "the address itself is valid")


@case("C10", params=[dict(cls=c) for c in ("address", "hash")])
def erc20_round_trip(ctx, cls):
    C, n = {"address": (ERC20Address, 20), "hash": (ERC20Hash, 32)}[cls]
    raw = ctx.bytes("raw", n)
    a = C(value=raw)
    s = a.json()
    ctx.check(ctx.eq(s, "0x" + raw.hex()), "JSON form is 0x-prefixed hex")
    for t in (s, raw.hex(), "0X" + raw.hex(), s.upper().replace("0X", "0x")):
        ctx.check(ctx.eq(bytes(C.from_json(t).value), raw), "every hex notation of it parses")
    ctx.check(ctx.eq(rivine_encode(a), raw), "rivbin form is the raw bytes")
    ctx.check(ctx.eq(sia_encode(a), raw), "siabin form is the raw bytes")


@case("C10", params=[dict(cls=c, n=n) for c in ("address", "hash") for n in (0, 1, 12, 19, 20, 21, 31, 32, 33, 40, 64)])
def erc20_sizes(ctx, cls, n):
    C, size = {"address": (ERC20Address, 20), "hash": (ERC20Hash, 32)}[cls]
    raw = ctx.bytes("raw", n)
    how = ctx.choice("how", ["bytes", "text", "0x", "json", "json0x", "array", "set"])

    def f():
        if how == "set":
            a = C()
            a.value = raw
            return a
        if how.startswith("json"):
            return C.from_json(how[4:] + raw.hex())
        return C(value={"bytes": raw, "text": raw.hex(), "0x": "0x" + raw.hex(), "array": bytearray(raw)}[how])
    ok, a = ctx.attempt(f)
    ctx.check(ok == (n in (0, size)), "an address has 20 bytes, a hash 32, or none")
    if ok:
        ctx.check(ctx.eq(bytes(a.value), raw), "the bytes are kept")


@case("C10")
def erc20_address_of_nil(ctx):
    a = ERC20Address.from_unlockhash(UnlockHash())
    ctx.check(bytes(a.value) == b2(b"\x00" * 33)[12:], "the ERC20 form of the nil address is defined like every other")


@case("C10", params=[dict(n=n, prefix=p, at=a) for n in (1, 2) for p in ("", "0x", "0X") for a in ("head", "tail")])
def erc20_surplus(ctx, n, prefix, at):
    """More than 40 hex digits (and one prefix) are not an address."""
    c = ctx.str("c", n)
    base = "a1" * 20
    text = prefix + (c + base if at == "head" else base + c)
    v = ERC20Address.is_valid_value(text)
    ctx.check(ctx.iff(v, ctx.any([ctx.eq(c, x) for x in ("0x", "0X")]) if at == "head" and not prefix else False),
              "valid exactly when 40 hex digits, optionally prefixed")


@case("C10", params=[dict(cls=c) for c in ("address", "hash")])
def erc20_nothing(ctx, cls):
    C = {"address": ERC20Address, "hash": ERC20Hash}[cls]
    for x in (None, ""):
        ctx.check(len(C.from_json(x)) == 0 and C.from_json(x) == C(), "no text is no value")
    ok, e = ctx.attempt(C.from_json, ctx.choice("bad", [1, 0, b"", True, [], {}]))
    ctx.check(not ok and isinstance(e, TypeError), "only texts are read")


@case("C10", params=[dict(pos=p, prefix=x) for p in (0, 1, 20, 38, 39) for x in ("", "0x", "0X")])
def erc20_validity(ctx, pos, prefix):
    """A text is valid exactly when it is 40 hex digits with an optional 0x."""
    c = ctx.str("c", 2)
    base = "a1" * 20
    text = prefix + base[:pos] + c + base[pos + 2:] if pos < 39 else prefix + base[:39] + c[:1]
    cs = c if pos < 39 else c[:1]
    n = len(text) - len(prefix)
    good = ctx.all([n == 40] + [ctx.any([ctx.eq(x, h) for h in "0123456789abcdefABCDEF"]) for x in cs])
    v = ERC20Address.is_valid_value(text)
    if not prefix and pos == 0:
        good = ctx.all([good, ctx.no(ctx.eq(c, "0x")), ctx.no(ctx.eq(c, "0X"))])
    ctx.check(ctx.iff(v, good), "valid exactly when 40 hex digits, optionally prefixed")
    if v:
        ok, a = ctx.attempt(ERC20Address.from_json, text)
        ctx.check(ok, "a valid text parses")
        ctx.check(len(a.value) == 20, "a valid text has 20 bytes")


@case("C10", params=[dict(n=n) for n in (0, 1, 19, 21, 32)])
def erc20_length(ctx, n):
    raw = ctx.bytes("raw", n)
    ctx.check(not ERC20Address.is_valid_value(raw), "only 20 bytes are valid")
    ctx.check(not ERC20Address.is_valid_value(raw.hex()), "only 40 hex digits are valid")
    ctx.check(not ERC20Address.is_valid_value("0x" + raw.hex()), "only 40 hex digits are valid")
    ok, _ = ctx.attempt(ERC20Address, raw)
    ctx.check(ok == (n == 0), "only 20 bytes make an address")


# ------------------------------------------------------------------------------------------------- C11
def node(a, b):
    return b2(b"\x01" + a + b)


def merkle(leaves):
    """Reference: the largest power-of-two subtree first."""
    if len(leaves) == 1:
        return b2(b"\x00" + leaves[0])
    k = 1
    while k * 2 < len(leaves):
        k *= 2
    return node(merkle(leaves[:k]), merkle(leaves[k:]))


@case("C11", params=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=4)])
def owner_order_does_not_matter(ctx, n):
    """A multisig address does not depend on the order of its owners."""
    us = [unlockhash(ctx, "u%d" % i)[0] for i in range(n)]
    m = ctx.int("m", 1, n)
    perm = ctx.choice("perm", list(itertools.permutations(range(n)))[1:] or [(0,)])
    a = ConditionMultiSignature(unlockhashes=us, min_nr_sig=m).unlockhash
    b = ConditionMultiSignature(unlockhashes=[us[i] for i in perm], min_nr_sig=m).unlockhash
    ctx.check(ctx.eq(bytes(a.hash.value), bytes(b.hash.value)), "the order of the owners does not matter")
    ctx.check(a.type == UnlockHashType.MULTI_SIG, "the address is of the multisig type")


@case("C11", params=[dict(n=n) for n in (2, 3)])
def owners_stay_in_order(ctx, n):
    """Looking at the address leaves the owners as they were given."""
    us = [unlockhash(ctx, "u%d" % i) for i in range(n)]
    c = ConditionMultiSignature(unlockhashes=[u for u, _ in us], min_nr_sig=1)
    before, data = c.json(), rivine_encode(c)
    at = str(c.unlockhash)
    ctx.check(ctx.eq(c.json(), before), "computing the address keeps the owner order")
    ctx.check(ctx.eq(rivine_encode(c), data), "computing the address keeps the owner order")
    ctx.check(ctx.eq(c.json()["data"]["unlockhashes"], [address(1, r) for _, r in us]), "the owners are in the given order")
    ctx.check(ctx.eq(str(c.unlockhash), at), "the address stays")


@case("C11", params=[dict(n=n, m=m) for n in (1, 2, 3) for m in (1, 2, 3) if m <= n], thorough=[dict(n=4, m=2)])
def reference_address(ctx, n, m):
    """Owners in ascending order between the owner count and the signature count, as a Merkle tree."""
    us = [unlockhash(ctx, "u%d" % i) for i in range(n)]
    for (a, _), (b, _) in zip(us, us[1:]):
        ctx.assume(str(a) <= str(b))
    root = merkle([le8(n)] + [b"\x01" + r for _, r in us] + [le8(m)])
    c = ConditionMultiSignature(unlockhashes=[u for u, _ in us], min_nr_sig=m)
    ctx.check(ctx.eq(bytes(c.unlockhash.hash.value), root), "the address is the Merkle root of count, owners, threshold")
    before = [str(u) for u in c.unlockhashes]
    ctx.check(ctx.all([ctx.eq(x, str(u)) for x, (u, _) in zip(before, us)]), "computing the address keeps the owner order")


@case("C11", params=[dict(n=n, k=k) for n in (4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33) for k in (0, n // 2, n - 1)] +
      [dict(n=n, k=n // 3) for n in (64, 65, 128)], thorough=[dict(n=n, k=9) for n in (63, 100, 127, 129, 200, 255, 256, 257)])
def many_owners(ctx, n, k):
    """Many owners of which one is symbolic, the k-th in order."""
    raws = sorted(b2(b"owner%d" % i) for i in range(n))
    raws[k] = raws[k][:30] + ctx.bytes("end", 2)
    us = [UnlockHash(type=TYPES[1], hash=r) for r in raws]
    m = ctx.int("m", 1, 2 ** 40)
    how = ctx.choice("how", ["sorted", "reversed", "rotated"])
    given = {"sorted": us, "reversed": us[::-1], "rotated": us[n // 2:] + us[:n // 2]}[how]
    root = merkle([le8(n)] + [b"\x01" + r for r in raws] + [le8(m)])
    c = ConditionMultiSignature(unlockhashes=given, min_nr_sig=m)
    ctx.check(ctx.eq(bytes(c.unlockhash.hash.value), root), "the address is the Merkle root of count, ordered owners, threshold")


@case("C11", params=[dict(t=t) for t in itertools.combinations_with_replacement((0, 1, 2, 3), 2)]
      + [dict(t=t) for t in ((1, 1, 3), (1, 2, 3), (0, 1, 3))], thorough=[dict(t=t) for t in ((1, 3, 3), (0, 1, 2, 3), (1, 1, 1, 3))])
def owners_of_every_type(ctx, t):
    """Owners of different types are ordered by their address texts: first the type, then the hash."""
    us = []
    for i, k in enumerate(t):
        us.append((k, ctx.bytes("h%d" % i, 32) if k else b"\x00" * 32))
    for (k, a), (l, b) in zip(us, us[1:]):
        if k == l and k:
            ctx.assume(a.hex() < b.hex())
    us = [u for j, u in enumerate(us) if u not in us[:j]] if t.count(0) > 1 else us
    n = len(us)
    m = ctx.int("m", 1, n)
    root = merkle([le8(n)] + [bytes([k]) + r for k, r in us] + [le8(m)])
    order = ctx.choice("order", list(itertools.permutations(range(n))))
    c = ConditionMultiSignature(unlockhashes=[UnlockHash(type=TYPES[us[i][0]], hash=us[i][1]) for i in order], min_nr_sig=m)
    ctx.check(ctx.eq(bytes(c.unlockhash.hash.value), root), "the address is the Merkle root of count, ordered owners, threshold")


@case("C11", params=[dict(n=1, k=1), dict(n=2, k=2), dict(n=1, k=2)], thorough=[dict(n=2, k=3), dict(n=3, k=3)])
def address_commits_to_owners(ctx, n, k):
    """Equal addresses mean the same owners and the same number of signatures."""
    us = [unlockhash(ctx, "u%d" % i) for i in range(n)]
    vs = [unlockhash(ctx, "v%d" % i) for i in range(k)]
    for l in (us, vs):
        for (a, _), (b, _) in zip(l, l[1:]):
            ctx.assume(str(a) <= str(b))
    m, l = ctx.int("m", 1, 3), ctx.int("l", 1, 3)
    a = ConditionMultiSignature(unlockhashes=[u for u, _ in us], min_nr_sig=m).unlockhash
    b = ConditionMultiSignature(unlockhashes=[v for v, _ in vs], min_nr_sig=l).unlockhash
    same = ctx.all([n == k, m == l] + [ctx.eq(x, y) for (_, x), (_, y) in zip(us, vs)])
    ctx.check(ctx.iff(ctx.eq(bytes(a.hash.value), bytes(b.hash.value)), same), "one address per owners and threshold")


# ------------------------------------------------------------------------------------------------- C12
def swap(ctx, p):
    s, rs = unlockhash(ctx, p + "s")
    r, rr = unlockhash(ctx, p + "r")
    h = ctx.bytes(p + "h", 32)
    t = ctx.int(p + "t", 500000000, 2 ** 40)
    return ConditionAtomicSwap(sender=s, receiver=r, hashed_secret=h, lock_time=t), (rs, rr, h, t)


@case("C12")
def swap_reference_address(ctx):
    c, (s, r, h, t) = swap(ctx, "a")
    data = b"\x01" + s + b"\x01" + r + h + le8(t)
    u = c.unlockhash
    ctx.check(ctx.eq(bytes(u.hash.value), b2(le8(len(data)) + data)), "a contract address hashes sender, receiver, secret hash and time")
    ctx.check(u.type == UnlockHashType.ATOMIC_SWAP, "the address is of the atomic swap type")
    ctx.check(ctx.eq(rivine_encode(c), b"\x02" + rlen(len(data)) + data), "rivbin form")
    ctx.check(ctx.eq(sia_encode(c), b"\x02" + le8(len(data)) + data), "siabin form")


@case("C12", params=[dict(s=a, r=b) for a in ("none", "nil", "key") for b in ("none", "nil", "key")])
def swap_without_parties(ctx, s, r):
    """A party that is left out is the nil address, in its own place."""
    h = ctx.bytes("h", 32)
    t = ctx.int("t", 500000000, 2 ** 40)
    us, raws = [], []
    for n, k in (("s", s), ("r", r)):
        u, raw = unlockhash(ctx, n)
        us.append({"none": None, "nil": UnlockHash(), "key": u}[k])
        raws.append(b"\x01" + raw if k == "key" else b"\x00" * 33)
    c = ConditionAtomicSwap(sender=us[0], receiver=us[1], hashed_secret=h, lock_time=t)
    data = raws[0] + raws[1] + h + le8(t)
    ctx.check(ctx.eq(bytes(c.unlockhash.hash.value), b2(le8(len(data)) + data)), "a contract address hashes sender, receiver, secret hash and time")
    ctx.check(ctx.eq(rivine_encode(c), b"\x02" + rlen(len(data)) + data), "rivbin form")
    ctx.check(ctx.eq(sia_encode(c), b"\x02" + le8(len(data)) + data), "siabin form")
    back = ConditionTypes.from_json(c.json())
    ctx.check(back.unlockhash == c.unlockhash and back.sender == c.sender and back.receiver == c.receiver, "the parties survive JSON")


@case("C12", params=[dict(f=f) for f in range(4)])
def swap_address_commits(ctx, f):
    """Contracts that agree in all terms but one have the same address exactly when they agree in that one."""
    a, ta = swap(ctx, "a")
    b, tb = swap(ctx, "b")
    for i in range(4):
        if i != f:
            ctx.assume(ctx.eq(ta[i], tb[i]))
    ctx.check(ctx.iff(a.unlockhash == b.unlockhash, ctx.eq(ta[f], tb[f])), "the contract address commits to every term")


@case("C12", params=[dict(n=n) for n in (32, 0, 31, 33)])
def secret_hash(ctx, n):
    raw = ctx.bytes("secret", n)
    ok, s = ctx.attempt(AtomicSwapSecret, raw)
    ctx.check(ok == (n in (0, 32)), "a secret has 32 bytes")
    if n == 32:
        h = AtomicSwapSecretHash.from_secret(s)
        ctx.check(ctx.eq(bytes(h.value), hashlib.sha256(raw).digest()), "the secret hash is SHA-256 of the secret")
        ctx.check(ctx.eq(AtomicSwapSecret.from_json(s.json()).json(), raw.hex()), "the secret survives JSON")


@case("C12")
def swap_parties_and_time(ctx):
    """Only wallet addresses (or none) take part; the refund time is a timestamp."""
    t = ctx.choice("type", [0, 1, 2, 3])
    u = UnlockHash(type=TYPES[t], hash=b"\x00" * 32 if t == 0 else b"\x09" * 32)
    v = ctx.int("v", 0, 2 ** 40)
    ok, c = ctx.attempt(lambda: ConditionAtomicSwap(sender=u))
    ctx.check(ok == (t in (0, 1)), "a sender is a wallet address or none")
    ok, c = ctx.attempt(lambda: ConditionAtomicSwap(receiver=u))
    ctx.check(ok == (t in (0, 1)), "a receiver is a wallet address or none")
    ok, c = ctx.attempt(lambda: ConditionAtomicSwap(lock_time=v))
    ctx.check(ctx.iff(ok, v >= 500000000), "the refund time is a timestamp, never a block height")
    if ok:
        ctx.check(c.lock_time == v, "the refund time is kept")


# ------------------------------------------------------------------------------------------------- changed objects (C08, C09, C11, C12)
def look(*xs):
    """Looks at everything there is to see of addresses and conditions."""
    for x in xs:
        rivine_encode(x), sia_encode(x), x.json(), str(x)
        if hasattr(x, "unlockhash"):
            look(x.unlockhash)


@case("C08", params=[dict(t=t, v=v) for t, v in ((1, 1), (1, 2), (3, 1), (0, 3))])
def changed_address(ctx, t, v):
    """An address that was looked at and is then given another type or hash is the other address."""
    u, _ = unlockhash(ctx, "a", t) if t else (UnlockHash(), None)
    look(u), hash(u)
    raw = ctx.bytes("b", 32)
    if ctx.choice("how", ["set", "inside"]) == "set":
        u.hash = raw
    else:
        u.hash.value = raw
        raw = bytes(u.hash.value)
    u.type = TYPES[v]
    ctx.check(ctx.eq(str(u), address(v, raw)) and ctx.eq(u.json(), address(v, raw)), "the text is that of the current type and hash")
    for f in (rivine_encode, sia_encode):
        ctx.check(ctx.eq(f(u), bytes([v]) + raw), "the binary form is that of the current type and hash")
    w = UnlockHash(type=TYPES[v], hash=raw)
    ctx.check(u == w and hash(u) == hash(w), "the address equals one of the current type and hash")


@case("C09")
def changed_key(ctx):
    """A key that was looked at and is then given another algorithm or other bytes is the other key."""
    k = PublicKey(specifier=ctx.choice("s", [PublicKeySpecifier.NIL, PublicKeySpecifier.ED25519]), hash=b"\x07" * 32)
    look(k)
    raw = ctx.bytes("k", 32)
    k.specifier = PublicKeySpecifier.ED25519
    if ctx.choice("how", ["set", "inside"]) == "set":
        k.hash = raw
    else:
        k.hash.value = raw
        raw = bytes(k.hash.value)
    ref = b"ed25519" + b"\x00" * 9 + le8(32) + raw
    ctx.check(ctx.eq(str(k), "ed25519:" + raw.hex()), "a key's text is its algorithm and hex bytes")
    ctx.check(ctx.eq(rivine_encode(k), b"\x01" + raw), "rivbin form: algorithm byte and key")
    ctx.check(ctx.eq(sia_encode(k), ref), "siabin form: padded algorithm name and key slice")
    ctx.check(ctx.eq(str(k.unlockhash), address(1, b2(le8(len(ref)) + ref))), "a key's address is the hash of its siabin slice")


@case("C11", params=[dict(n=n, how=h) for n in (1, 2, 3) for h in ("threshold", "add", "remove", "replace", "inside", "data")])
def changed_owners(ctx, n, how):
    """A condition whose address was looked at and that is then changed has the address of the changed condition."""
    raws = [bytes([0x10 * i + 1]) * 32 for i in range(n)]
    m, new = 1, ctx.bytes("new", 32)
    c = ConditionMultiSignature(unlockhashes=[UnlockHash(type=TYPES[1], hash=r) for r in raws], min_nr_sig=m)
    look(c)
    if how == "threshold":
        m = ctx.int("m", 0, 2 ** 40)
        c.required_signatures = m
    elif how == "add":
        raws = raws + [new]
        u = UnlockHash(type=TYPES[1], hash=new)
        c.add_unlockhash(str(u) if ctx.choice("text", [True, False]) else u)
    elif how == "remove":
        del c.unlockhashes[n // 2]
    elif how == "replace":
        c.unlockhashes[n - 1] = UnlockHash(type=TYPES[1], hash=new)
    elif how == "inside":
        c.unlockhashes[0].hash = new
    else:
        m, raws = 2, [new, raws[0]]
        c.from_json_data_object({"minimumsignaturecount": 2, "unlockhashes": [address(1, r) for r in raws]})
    us = [UnlockHash(type=TYPES[1], hash=r) for r in raws] if how in ("threshold", "add", "data") else [UnlockHash.from_json(str(u)) for u in c.unlockhashes]
    d = ConditionMultiSignature(unlockhashes=us, min_nr_sig=m)
    ctx.check(ctx.eq(str(c.unlockhash), str(d.unlockhash)), "the address is that of the current owners and threshold")
    ctx.check(ctx.eq(c.json(), d.json()), "the address is that of the current owners and threshold")


@case("C12", params=[dict(f=f) for f in ("sender", "receiver", "hashed_secret", "lock_time", "inside", "data")])
def changed_swap(ctx, f):
    """A contract whose address was looked at and of which a term is then changed has the address of the changed contract."""
    c, _ = swap(ctx, "a")
    d, (s, r, h, t) = swap(ctx, "b")
    look(c)
    if f == "inside":
        c.receiver.hash = r
        terms = [("sender", 0), ("hashed_secret", 0), ("lock_time", 0)]
    elif f == "data":
        c.from_json_data_object(d.json_data_object())
        terms = []
    else:
        setattr(c, f, getattr(d, f))
        look(c)
        terms = [(g, 0) for g in ("sender", "receiver", "hashed_secret", "lock_time") if g != f]
    for g, _ in terms:
        setattr(c, g, getattr(d, g))
        now = ConditionAtomicSwap(sender=c.sender, receiver=c.receiver, hashed_secret=c.hashed_secret, lock_time=c.lock_time)
        ctx.check(ctx.eq(str(c.unlockhash), str(now.unlockhash)), "the contract address is that of the current terms")
    data = b"\x01" + s + b"\x01" + (bytes(c.receiver.hash.value) if f == "inside" else r) + h + le8(t)
    ctx.check(ctx.eq(bytes(c.unlockhash.hash.value), b2(le8(len(data)) + data)), "the contract address is that of the current terms")
