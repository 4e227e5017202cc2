"""C13..C17: locks, recipients, conditions, fulfillments."""
import hashlib
from datetime import datetime, timedelta, timezone
from engine.api import case
from tfchain.encoders import rivine_encode, sia_encode
from tfchain.types import ConditionTypes, FulfillmentTypes
from tfchain.types.ConditionTypes import (AtomicSwapSecret, ConditionAtomicSwap, ConditionLockTime, ConditionMultiSignature,
                                          ConditionNil, ConditionUnlockHash, OutputLock, UnlockHash, UnlockHashType)
from tfchain.types.FulfillmentTypes import (FulfillmentAtomicSwap, FulfillmentMultiSignature, FulfillmentSingleSignature,
                                            ED25519Signature)
from tfchain.types.CryptoTypes import PublicKey, PublicKeySpecifier
from tfchain.internal.jsutils import duration
from harness.types import TYPES, address, b2, le8, pubkey, rlen, unlockhash

MIN_TS = 500 * 1000 * 1000


# ------------------------------------------------------------------------------------------------- C13
@case("C13")
def lock_boundary(ctx):
    v, h, t = ctx.int("v", 0, 2 ** 62), ctx.int("h", 0, 2 ** 40), ctx.int("t", 0, 2 ** 62)
    for l in (OutputLock(value=v), OutputLock(value=OutputLock(value=v)), ConditionTypes.output_lock_new(v),
              ConditionLockTime(lock=v, condition=ConditionNil()).lock):
        ctx.check(ctx.iff(l.is_timestamp, v >= MIN_TS), "values from 500000000 on are timestamps, smaller ones heights")
        ctx.check(l.value == v, "the value is kept")
        ctx.check(int(l) == v, "the value is kept")
        locked = l.locked_check(height=h, time=t)
        ctx.check(ctx.iff(locked, ctx.any([ctx.all([v >= MIN_TS, t < v]), ctx.all([v < MIN_TS, h < v])])),
                  "locked exactly while height or time is below the value")


@case("C13")
def no_lock(ctx):
    h, t = ctx.int("h", 0, 2 ** 40), ctx.int("t", 0, 2 ** 62)
    k = ctx.choice("kind", ["none", "nil", "unlockhash", "multisig", "lock"])
    l = {"none": lambda: OutputLock(), "nil": lambda: ConditionNil().lock,
         "unlockhash": lambda: ConditionUnlockHash().lock, "multisig": lambda: ConditionMultiSignature().lock,
         "lock": lambda: ConditionLockTime().lock}[k]()
    ctx.check(ctx.no(l.locked_check(height=h, time=t)), "without a lock nothing is ever locked")
    ctx.check(l.value == 0, "without a lock the value is zero")


@case("C13")
def negative_rejected(ctx):
    v = ctx.int("v", -2 ** 40, 2 ** 40)
    ok, l = ctx.attempt(lambda: OutputLock(value=v))
    ctx.check(ctx.iff(ok, v >= 0), "a lock value is never negative")
    ok, l = ctx.attempt(lambda: ConditionLockTime(lock=v))
    ctx.check(ctx.iff(ok, v >= 0), "a lock value is never negative")


@case("C13")
def relative_lock(ctx):
    """A timedelta lock counts from the current time."""
    now, d = ctx.int("now", MIN_TS, 2 ** 33), ctx.int("d", 0, 10 ** 9)
    ctx.now(now)
    l = OutputLock(value=timedelta(seconds=d))
    ctx.check(l.value == now + d, "a time span lock ends that long after now")
    l = OutputLock(value=timedelta(seconds=d), current_timestamp=now + 5)
    ctx.check(l.value == now + 5 + d, "a given current time is used")
    ctx.check(OutputLock(value=datetime.fromtimestamp(now + d)).value == now + d, "a datetime lock ends at that moment")


@case("C13")
def relative_to_any_time(ctx):
    """Time spans count from the given time, the beginning of time included."""
    now, d, other = ctx.int("at", 0, 2 ** 40), ctx.int("d", 0, 10 ** 9), ctx.int("now", MIN_TS, 2 ** 33)
    ctx.now(other)
    ctx.check(OutputLock(value=timedelta(seconds=d), current_timestamp=now).value == now + d, "a given current time is used")
    t = "%d" % d
    for x in ("+" + t, "+" + t + "s", "  +" + t, "\t+" + t):
        ctx.check(OutputLock(value=x, current_timestamp=now).value == now + d, "a given current time is used")
        ctx.check(OutputLock(value=x).value == other + d, "a time span lock ends that long after now")


@case("C13")
def datetime_locks(ctx):
    """A datetime lock ends at that moment, wherever it is told."""
    now = ctx.int("now", MIN_TS, 2 ** 33)
    ctx.now(now)
    hours = ctx.choice("zone", [None, 0, 2, -5, 5.5])
    tz = None if hours is None else timezone(timedelta(hours=hours))
    for a, want in (((2019, 5, 6, 7, 8, 9), 1557126489), ((2033, 12, 31, 23, 59, 59), 2019686399), ((2000, 2, 29), 951782400)):
        l = OutputLock(value=datetime(*a, tzinfo=tz))
        ctx.check(l.value == want - int((hours or 0) * 3600), "a datetime lock ends at that moment")
        ctx.check(OutputLock(value=datetime(*a, tzinfo=tz), current_timestamp=now + 1).value == l.value, "whatever the time is now")


@case("C13")
def text_locks(ctx):
    """A textual date lock ends at that moment."""
    now = ctx.int("now", MIN_TS, 2 ** 33)
    ctx.now(now)
    for t, want in (("2019/05/06 07:08:09", 1557126489), ("2033/12/31 23:59", 2019686340), (" 2000/02/29", 951782400),
                    ("29/02/2000", 951782400), ("2019/05/06 07pm:08", 1557169680), ("19/5/6", 1557100800), ("0", 0)):
        ctx.check(OutputLock(value=t).value == want, "a textual date lock ends at that moment")
        ctx.check(OutputLock(value=t, current_timestamp=now + 1).value == want, "whatever the time is now")


# ------------------------------------------------------------------------------------------------- C14
UNITS = {"d": 86400, "h": 3600, "m": 60, "s": 1}
COMBOS = ["", "d", "h", "m", "s", "dh", "dm", "hs", "ms", "dhms", "hms"]


def number(ctx, name, digits):
    s = ctx.str(name, digits, "0123456789")
    v = 0
    for c in s:
        v = v * 10 + (ord(c) - 48)
    return s, v


@case("C14", params=[dict(u=u, n=n) for u in COMBOS for n in (1, 2)] + [dict(u=u, n=n) for u in ("", "d", "h", "m", "s") for n in (3, 4, 5, 6)] +
      [dict(u=u, n=3) for u in ("dh", "dm", "ds", "hm", "hs", "ms", "dhm", "dhs", "dms", "hms", "dhms")], thorough=[dict(u=u, n=4) for u in COMBOS])
def duration_text(ctx, u, n):
    """'+3d4h' etc.: that long after now."""
    now = ctx.int("now", MIN_TS, 2 ** 33)
    ctx.now(now)
    text, want = "", 0
    for x in u or [""]:
        s, v = number(ctx, "n" + x, n)
        text = text + s + x
        want = want + v * (UNITS[x] if x else 1)
    ctx.check(duration.fromString(text) == want, "a duration text is the sum of its parts in seconds")
    ctx.check(OutputLock(value="+" + text).value == now + want, "a '+' lock ends that long after now")
    ctx.check(OutputLock(value=" +" + text, current_timestamp=now + 7).value == now + 7 + want, "a given current time is used")
    ctx.observe("seconds", duration.fromString(text))


@case("C14", params=[dict(hi=h) for h in (59, 3599, 86399, 86400 * 20)])
def duration_print_round_trip(ctx, hi):
    v = ctx.int("v", 0, hi)
    t = duration.toString(v)
    ctx.check(duration.fromString(t) == v, "printing and parsing a duration keeps it")
    want = ""
    for u, size, most in (("d", 86400, 2 ** 40), ("h", 3600, 24), ("m", 60, 60), ("s", 1, 60)):
        n = v // size % most
        if n > 0:
            want = want + str(n) + u
    ctx.check(ctx.eq(t, want), "a duration is printed as its days, hours, minutes and seconds")


@case("C14", params=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=4)])
def duration_grammar(ctx, n):
    """Only number-unit parts from days down to seconds are durations."""
    t = ctx.str("t", n, "19dhms -x")
    ok, v = ctx.attempt(duration.fromString, t)
    # reference parser
    good, want, i, last = True, 0, 0, -1
    s = t.strip()
    if len(s) and all(c in "0123456789" for c in s):
        want = 0
        for c in s:
            want = want * 10 + ord(c) - 48
    else:
        while i < len(s) and good:
            j = i
            num = 0
            while j < len(s) and s[j] in "0123456789":
                num = num * 10 + ord(s[j]) - 48
                j += 1
            if j == i or j == len(s) or not (s[j] in "dhms"):
                good = False
                break
            k = "dhms".index(s[j])
            if k <= last:
                good = False
                break
            last = k
            want += num * UNITS[s[j]]
            i = j + 1
    ctx.check(ok == good, "a text is a duration exactly when its parts go from days down to seconds")
    if ok and good:
        ctx.check(v == want, "a duration text is the sum of its parts in seconds")


# ------------------------------------------------------------------------------------------------- C15
def same(ctx, a, b):
    return ctx.all([ctx.eq(a.json(), b.json()), ctx.eq(rivine_encode(a), rivine_encode(b)),
                    ctx.eq(sia_encode(a), sia_encode(b))])


KINDS = ["none", "text", "address", "bytes", "bytearray", "list1", "list2", "tuple", "tuple_rev", "texts", "condition"]


def recipient(ctx, kind):
    """(recipient argument, condition it stands for)"""
    if kind == "none":
        return None, ConditionNil()
    u, raw = unlockhash(ctx, "u")
    v, raw2 = unlockhash(ctx, "v")
    if kind == "text":
        return str(u), ConditionUnlockHash(unlockhash=u)
    if kind == "address":
        return u, ConditionUnlockHash(unlockhash=u)
    if kind in ("bytes", "bytearray"):
        b = bytes.fromhex(str(u))
        return (b if kind == "bytes" else bytearray(b)), ConditionUnlockHash(unlockhash=u)
    if kind == "list1":
        return [u], ConditionMultiSignature(unlockhashes=[u], min_nr_sig=1)
    if kind == "list2":
        return [u, v], ConditionMultiSignature(unlockhashes=[u, v], min_nr_sig=2)
    if kind == "texts":
        return [str(u), str(v)], ConditionMultiSignature(unlockhashes=[u, v], min_nr_sig=2)
    m = ctx.int("m", 1, 2)
    c = ConditionMultiSignature(unlockhashes=[u, v], min_nr_sig=m)
    if kind == "tuple":
        return (m, [u, v]), c
    if kind == "tuple_rev":
        return ([u, str(v)], m), c
    return c, c


@case("C15", params=[dict(kind=k, lock=l) for k in KINDS for l in ("none", "height", "time")])
def recipient_condition(ctx, kind, lock):
    r, want = recipient(ctx, kind)
    if lock == "none":
        c = ConditionTypes.from_recipient(r)
        ctx.check(same(ctx, c, want), "a recipient stands for the condition it names")
        ctx.check(c.lock.value == 0, "no lock is added")
        ctx.check(ctx.eq(str(c.unlockhash), str(want.unlockhash)), "the coins go to the recipient's address")
        return
    v = ctx.int("lock", 0, MIN_TS - 1) if lock == "height" else ctx.int("lock", MIN_TS, 2 ** 40)
    c = ConditionTypes.from_recipient(r, lock=v)
    ctx.check(isinstance(c, ConditionLockTime), "a lock makes a time-locked condition")
    ctx.check(c.lock.value == v, "the lock value is kept")
    ctx.check(same(ctx, c.unwrap(), want), "the locked condition is the recipient's")
    ctx.check(ctx.eq(str(c.unlockhash), str(want.unlockhash)), "the coins go to the recipient's address")


@case("C15", params=[dict(n=n, lock=l) for n in (3, 4, 5, 8, 9, 17, 65) for l in (False, True)], thorough=[dict(n=n, lock=False) for n in (16, 33, 64, 128, 129)])
def many_recipients(ctx, n, lock):
    """A list of owners stands for all of them, in whatever form each is given."""
    us = [unlockhash(ctx, "u%d" % i)[0] if i in (0, n - 1) else concrete_owner(i)[0] for i in range(n)]
    m = ctx.int("m", 1, n)
    form = ctx.choice("form", ["list", "texts", "tuple", "tuple_rev"])
    given = [str(u) if form == "texts" or form == "tuple_rev" and i % 2 else u for i, u in enumerate(us)]
    r = {"list": given, "texts": given, "tuple": (m, given), "tuple_rev": (given, m)}[form]
    want = ConditionMultiSignature(unlockhashes=us, min_nr_sig=n if form in ("list", "texts") else m)
    v = ctx.int("lock", 1, 2 ** 40) if lock else None
    c = ConditionTypes.from_recipient(r, lock=v)
    ctx.check(c.lock.value == (v or 0), "the lock value is kept")
    c = c.unwrap() if lock else c
    ctx.check(ctx.eq([str(u) for u in c.unlockhashes], [str(u) for u in us]), "every listed owner is an owner")
    ctx.check(c.required_signatures == want.required_signatures, "as many have to sign as is asked for")
    ctx.check(ctx.eq(c.json(), want.json()), "a recipient stands for the condition it names")


@case("C15")
def recipients_are_copied(ctx):
    """A later change of the caller's list of owners does not change where the coins go."""
    us = [unlockhash(ctx, "u%d" % i)[0] for i in range(3)]
    mine = us[:2]
    form = ctx.choice("form", ["list", "tuple", "new", "class"])
    c = {"list": lambda: ConditionTypes.from_recipient(mine), "tuple": lambda: ConditionTypes.from_recipient((2, mine)),
         "new": lambda: ConditionTypes.multi_signature_new(min_nr_sig=2, unlockhashes=mine),
         "class": lambda: ConditionMultiSignature(unlockhashes=mine, min_nr_sig=2)}[form]()
    before, at = c.json(), str(c.unlockhash)
    mine.append(us[2])
    ctx.check(ctx.all([ctx.eq(c.json(), before), ctx.eq(str(c.unlockhash), at)]), "the caller's list is not the condition's")
    c.add_unlockhash(us[2])
    ctx.check(ctx.eq([str(u) for u in mine], [str(u) for u in us]), "the condition's owners are not the caller's list")
    d = ConditionTypes.from_recipient([None, us[0]])
    ctx.check(ctx.eq(d.json()["data"]["unlockhashes"], ["0" * 78, str(us[0])]), "every listed owner is an owner")


@case("C15")
def invalid_recipients(ctx):
    r = ctx.choice("r", [5, 1.5, {}, (1, [], []), (), "", "x", "0" * 77, b"", [5], (5, 5)])
    ok, c = ctx.attempt(ConditionTypes.from_recipient, r)
    ctx.check(not ok, "anything else is rejected")


# ------------------------------------------------------------------------------------------------- C16
CONDS = ["nil", "unlockhash", "unlockhash_nil", "atomicswap", "atomicswap_nil", "multisig0", "multisig1", "multisig2",
         "multisig3", "lock_nil", "lock_unlockhash", "lock_multisig2"]


def concrete_owner(i):
    raw = b2(b"owner%d" % i)
    return UnlockHash(type=UnlockHashType.PUBLIC_KEY, hash=raw), raw


def condition(ctx, kind, p=""):
    """(condition, reference siabin data, reference rivbin data, type byte, reference JSON)"""
    if kind == "nil":
        return ConditionNil(), b"", b"", 0, {"type": 0}
    if kind in ("unlockhash", "wallet"):
        t = ctx.choice(p + "t", [1, 2, 3]) if kind == "unlockhash" else 1
        u, raw = unlockhash(ctx, p + "u", t)
        d = bytes([t]) + raw
        return ConditionUnlockHash(unlockhash=u), d, d, 1, {"type": 1, "data": {"unlockhash": address(t, raw)}}
    if kind == "unlockhash_nil":
        return ConditionUnlockHash(), b"\x00" * 33, b"\x00" * 33, 1, {"type": 1, "data": {"unlockhash": "0" * 78}}
    if kind.startswith("atomicswap"):
        if kind == "atomicswap_nil":
            s, rs, ds = None, None, b"\x00" * 33
        else:
            s, rs = unlockhash(ctx, p + "s")
            ds = b"\x01" + rs
        r, rr = unlockhash(ctx, p + "r")
        h = ctx.bytes(p + "h", 32)
        t = ctx.int(p + "t", MIN_TS, 2 ** 60)
        c = ConditionAtomicSwap(sender=s, receiver=r, hashed_secret=h, lock_time=t)
        d = ds + b"\x01" + rr + h + le8(t)
        return c, d, d, 2, {"type": 2, "data": {"sender": address(1, rs) if rs is not None else "0" * 78,
                                                "receiver": address(1, rr), "hashedsecret": h.hex(), "timelock": t}}
    if kind.startswith("multisig"):
        n = int(kind[8:])
        us = [unlockhash(ctx, p + "u%d" % i) if n < 5 or i in (0, n // 2, n - 1) else concrete_owner(i) for i in range(n)]
        m = ctx.int(p + "m", 0, 2 ** 60)
        c = ConditionMultiSignature(unlockhashes=[u for u, _ in us], min_nr_sig=m)
        body = b""
        for _, raw in us:
            body = body + b"\x01" + raw
        return (c, le8(m) + le8(n) + body, le8(m) + rlen(n) + body, 4,
                {"type": 4, "data": {"minimumsignaturecount": m, "unlockhashes": [address(1, raw) for _, raw in us]}})
    inner, si, ri, t, j = condition(ctx, kind[5:], p + "i")
    v = ctx.int(p + "lock", 0, 2 ** 60)
    return (ConditionLockTime(condition=inner, lock=v), le8(v) + bytes([t]) + si, le8(v) + bytes([t]) + ri, 3,
            {"type": 3, "data": {"locktime": v, "condition": j}})


@case("C16", params=[dict(n=n, lock=l) for n in (5, 6, 8, 9, 16, 17, 63, 64, 65, 127, 128, 129) for l in (False, True)])
def many_owners(ctx, n, lock):
    c, s, r, t, j = condition(ctx, ("lock_" if lock else "") + "multisig%d" % n)
    ctx.check(ctx.eq(c.json(), j), "the JSON form of the condition")
    ctx.check(ctx.eq(sia_encode(c), bytes([t]) + le8(len(s)) + s), "siabin form: type byte and data slice")
    ctx.check(ctx.eq(rivine_encode(c), bytes([t]) + rlen(len(r)) + r), "rivbin form: type byte and data slice")
    d = ConditionTypes.from_json(c.json())
    ctx.check(ctx.eq(d.json(), c.json()), "JSON survives JSON")
    ctx.check(ctx.eq(sia_encode(d), sia_encode(c)), "siabin form survives JSON")
    ctx.check(ctx.eq(rivine_encode(d), rivine_encode(c)), "rivbin form survives JSON")
    ctx.check(d.lock.value == c.lock.value, "the lock survives JSON")


@case("C16", params=[dict(kind=k) for k in CONDS])
def condition_round_trip(ctx, kind):
    c, s, r, t, j = condition(ctx, kind)
    ctx.check(ctx.eq(c.json(), j), "the JSON form of the condition")
    ctx.check(ctx.eq(sia_encode(c), bytes([t]) + le8(len(s)) + s), "siabin form: type byte and data slice")
    ctx.check(ctx.eq(rivine_encode(c), bytes([t]) + rlen(len(r)) + r), "rivbin form: type byte and data slice")
    for d in (ConditionTypes.from_json(c.json()), type(c).from_json(c.json())):
        ctx.check(type(d) is type(c), "the kind survives JSON")
        ctx.check(ctx.eq(d.json(), c.json()), "JSON survives JSON")
        ctx.check(ctx.eq(sia_encode(d), sia_encode(c)), "siabin form survives JSON")
        ctx.check(ctx.eq(rivine_encode(d), rivine_encode(c)), "rivbin form survives JSON")
        ctx.check(ctx.eq(str(d.unlockhash), str(c.unlockhash)), "the address survives JSON")
        ctx.check(d.lock.value == c.lock.value, "the lock survives JSON")
    ctx.observe("json", c.json())


@case("C16")
def condition_type_is_checked(ctx):
    t = ctx.int("t", -1, 12)
    data = ctx.choice("data", [None, {}, {"unlockhash": "0" * 78}, {"locktime": 5, "condition": {}},
                               {"minimumsignaturecount": 1, "unlockhashes": []}])
    o = {"type": t}
    if data is not None:
        o["data"] = data
    ok, c = ctx.attempt(ConditionTypes.from_json, o)
    if ok:
        ctx.check(c.type == t, "a condition is read as its stated type")
        ctx.check(ctx.any([t == 0, t == 1, t == 3, t == 4]), "unknown condition types are rejected")


@case("C16", params=[dict(kind=k) for k in ("nil", "unlockhash", "atomicswap", "multisig1", "lock_nil")])
def condition_class_reads_its_type(ctx, kind):
    """A condition class reads only objects of its own type."""
    c, _, _, _, j = condition(ctx, kind)
    t = ctx.int("type", -1, 12)
    ok, d = ctx.attempt(type(c).from_json, {"type": t, "data": j.get("data", {})})
    ctx.check(ctx.iff(ok, t == c.type), "a condition class reads its own type only")


@case("C16", params=[dict(inner=k) for k in ("nil", "unlockhash", "atomicswap", "multisig1", "lock_nil")])
def inner_condition_of_lock(ctx, inner):
    _, _, _, t, j = condition(ctx, inner)
    ok, c = ctx.attempt(ConditionTypes.from_json, {"type": 3, "data": {"locktime": 7, "condition": j}})
    ctx.check(ok == (inner in ("nil", "unlockhash", "multisig1")), "a lock wraps no swap and no other lock")


@case("C16", params=[dict(kind=k) for k in ("unlockhash", "atomicswap", "multisig1", "lock_nil")])
def missing_parts_rejected(ctx, kind):
    """Every part of a condition's data is needed."""
    _, _, _, t, j = condition(ctx, kind)
    part = ctx.choice("part", sorted(j["data"]) + ["all", "data", "none"])
    d = dict(j["data"])
    d.pop(part, None)
    o = {"type": t, "data": {} if part == "all" else d}
    if part == "data":
        del o["data"]
    ok, c = ctx.attempt(ConditionTypes.from_json, o)
    ctx.check(ok == (part == "none"), "a condition with a missing part is rejected")


@case("C16")
def nil_has_no_data(ctx):
    o = ctx.choice("o", [{}, {"type": 0}, {"data": None}, {"type": 0, "data": {}}, {"type": 0, "data": {"x": 1}},
                         {"data": {"unlockhash": "0" * 78}}, {"type": 0, "data": [1]}, {"type": 0, "data": "x"}])
    ok, c = ctx.attempt(ConditionTypes.from_json, o)
    ctx.check(ok == (not o.get("data")), "a nil condition has no data")
    if ok:
        ctx.check(isinstance(c, ConditionNil) and c.json() == {"type": 0}, "an object without type is a nil condition")


@case("C16")
def swap_times_from_json(ctx):
    """The refund time of a swap is a timestamp."""
    _, _, _, t, j = condition(ctx, "atomicswap")
    v = ctx.int("timelock", -5, 2 ** 40)
    ok, c = ctx.attempt(ConditionTypes.from_json, {"type": 2, "data": dict(j["data"], timelock=v)})
    ctx.check(ctx.iff(ok, v >= MIN_TS), "a swap read from JSON has a timestamp as refund time")
    if ok:
        ctx.check(c.lock_time == v, "the refund time is kept")
    ok, c = ctx.attempt(ConditionTypes.from_json, {"type": 3, "data": {"locktime": v, "condition": {"type": 0}}})
    ctx.check(ctx.iff(ok, v >= 0), "a lock read from JSON is not negative")


# ------------------------------------------------------------------------------------------------- C17
FULS = ["single", "multi0", "multi1", "multi2", "multi3", "swap", "swap_secret"]


def concrete_key(i):
    raw = b2(b"key%d" % i)
    return PublicKey(specifier=PublicKeySpecifier.ED25519, hash=raw), raw


def fulfillment(ctx, kind, p=""):
    """(fulfillment, siabin data, rivbin data, type byte, JSON)"""
    def kp(i, fixed=False):
        k, rk = pubkey(ctx, p + "k%s" % i) if not fixed else concrete_key(i)
        sg = ctx.bytes(p + "s%s" % i, 64) if not fixed else b2(b"1") + b2(b"s%d" % i)
        sia = b"ed25519" + b"\x00" * 9 + le8(32) + rk + le8(64) + sg
        riv = b"\x01" + rk + rlen(64) + sg
        return k, sg, sia, riv, {"publickey": "ed25519:" + rk.hex(), "signature": sg.hex()}, rk
    if kind == "single":
        k, sg, sia, riv, j, _ = kp("")
        return FulfillmentTypes.single_signature_new(pub_key=k, signature=sg), sia, riv, 1, {"type": 1, "data": j}
    if kind.startswith("multi"):
        n = int(kind[5:])
        ps = [kp(i, n > 4 and i not in (0, n // 2, n - 1)) for i in range(n)]
        for i in range(n):
            for l in range(i):
                ctx.assume(ctx.no(ctx.eq(ps[i][5], ps[l][5])))
        f = FulfillmentTypes.multi_signature_new(pairs=[(x[0], ED25519Signature(value=x[1])) for x in ps])
        sia, riv = le8(n), rlen(n)
        for x in ps:
            sia, riv = sia + x[2], riv + x[3]
        return f, sia, riv, 3, {"type": 3, "data": {"pairs": [x[4] for x in ps]}}
    k, sg, sia, riv, j, _ = kp("")
    if kind == "swap":
        return (FulfillmentTypes.atomic_swap_new(pub_key=k, signature=sg), sia, riv, 2, {"type": 2, "data": j})
    sec = ctx.bytes(p + "secret", 32)
    j["secret"] = sec.hex()
    return (FulfillmentTypes.atomic_swap_new(pub_key=k, signature=sg, secret=sec), sia + sec, riv + sec, 2,
            {"type": 2, "data": j})


@case("C17", params=[dict(kind=k) for k in FULS + ["multi%d" % n for n in (4, 5, 6, 8, 9, 16, 17, 33)]])
def fulfillment_round_trip(ctx, kind):
    f, s, r, t, j = fulfillment(ctx, kind)
    ctx.check(ctx.eq(f.json(), j), "the JSON form of the fulfillment")
    ctx.check(ctx.eq(sia_encode(f), bytes([t]) + le8(len(s)) + s), "siabin form: type byte and data slice")
    ctx.check(ctx.eq(rivine_encode(f), bytes([t]) + rlen(len(r)) + r), "rivbin form: type byte and data slice")
    for d in (FulfillmentTypes.from_json(f.json()), type(f).from_json(f.json())):
        ctx.check(type(d) is type(f), "the kind survives JSON")
        ctx.check(ctx.eq(d.json(), f.json()), "JSON survives JSON")
        ctx.check(ctx.eq(sia_encode(d), sia_encode(f)), "siabin form survives JSON")
        ctx.check(ctx.eq(rivine_encode(d), rivine_encode(f)), "rivbin form survives JSON")
    ctx.observe("json", f.json())


@case("C17", params=[dict(kind=k) for k in ("single", "swap", "multi")])
def unsigned_stays_unsigned(ctx, kind):
    """A fulfillment without signature is not fulfilled, also after JSON; with a signature it is, also after JSON."""
    u, _ = unlockhash(ctx, "u")
    cond = {"single": ConditionUnlockHash(unlockhash=u), "swap": ConditionAtomicSwap(sender=u),
            "multi": ConditionMultiSignature(unlockhashes=[u], min_nr_sig=1)}[kind]
    f = FulfillmentTypes.from_condition(cond)
    ctx.check(ctx.no(f.is_fulfilled(cond)), "a fresh fulfillment is not fulfilled")
    g = FulfillmentTypes.from_json(f.json())
    ctx.check(ctx.no(g.is_fulfilled(cond)), "an unsigned fulfillment stays unsigned through JSON")
    k, _ = pubkey(ctx, "k")
    f.signature_add(k, ED25519Signature(value=ctx.bytes("sig", 64)))
    ctx.check(f.is_fulfilled(cond), "a signed fulfillment is fulfilled")
    g = FulfillmentTypes.from_json(f.json())
    ctx.check(g.is_fulfilled(cond), "a signed fulfillment stays signed through JSON")


@case("C17", params=[dict(n=n, k=k) for n in (1, 2, 3) for k in range(0, n + 1)])
def multisig_needs_enough_signatures(ctx, n, k):
    us = [unlockhash(ctx, "u%d" % i)[0] for i in range(n)]
    m = ctx.int("m", 0, n + 1)
    c = ConditionMultiSignature(unlockhashes=us, min_nr_sig=m)
    lc = ConditionLockTime(condition=c, lock=ctx.int("lock", 0, 2 ** 40))
    f = FulfillmentMultiSignature()
    keys = []
    for i in range(k):
        p, raw = pubkey(ctx, "k%d" % i)
        for o in keys:
            ctx.assume(ctx.no(ctx.eq(o, raw)))
        keys.append(raw)
        f.signature_add(p, ED25519Signature(value=b"\x01" * 64))
    ctx.check(ctx.iff(f.is_fulfilled(c), k >= m), "fulfilled exactly with the required number of signatures")
    ctx.check(ctx.iff(f.is_fulfilled(lc), k >= m), "a lock does not change that")
    if k:
        p, raw = pubkey(ctx, "again")
        ctx.assume(ctx.eq(raw, keys[0]))
        ok, _ = ctx.attempt(f.signature_add, p, ED25519Signature(value=b"\x02" * 64))
        ctx.check(not ok, "a key signs once")
        ctx.check(len(f.pairs) == k, "a rejected signature changes nothing")


@case("C17", params=[dict(n=n, k=k) for n in (2, 3) for k in range(0, n + 1)])
def fulfilled_asked_again(ctx, n, k):
    """Whether a fulfillment suffices depends on its signatures and the condition now, not on what was asked before."""
    us = [concrete_owner(i)[0] for i in range(n)]
    m, m2 = ctx.int("m", 0, n + 1), ctx.int("m2", 0, n + 1)
    c, d = (ConditionMultiSignature(unlockhashes=us, min_nr_sig=x) for x in (m, m2))
    f = FulfillmentMultiSignature()
    for i in range(k):
        ctx.check(ctx.iff(f.is_fulfilled(c), i >= m), "asked after each signature")
        f.signature_add(concrete_key(i)[0], ED25519Signature(value=b"\x01" * 64))
    ctx.check(ctx.iff(f.is_fulfilled(c), k >= m), "of the first condition")
    ctx.check(ctx.iff(f.is_fulfilled(d), k >= m2), "of another condition")
    pairs = list(f.pairs)
    f.pairs = pairs[:1]
    ctx.check(ctx.iff(f.is_fulfilled(c), len(pairs[:1]) >= m), "with all but one signature taken away")
    f.pairs = []
    ctx.check(ctx.iff(f.is_fulfilled(c), m <= 0), "with all signatures taken away")
    f.pairs = pairs
    ctx.check(ctx.iff(f.is_fulfilled(d), k >= m2), "with the signatures put back")


@case("C17", params=[dict(n=n) for n in (5, 8, 9, 16, 17, 33, 65, 129)])
def many_signatures_needed(ctx, n):
    """Also of many owners the required number has to sign, each once."""
    m = ctx.int("m", 0, n + 1)
    c = ConditionMultiSignature(unlockhashes=[concrete_owner(i)[0] for i in range(n)], min_nr_sig=m)
    f = FulfillmentMultiSignature()
    ks = [concrete_key(i)[0] for i in range(n)]
    k = ctx.choice("signed", sorted({0, 1, n // 2, n - 1, n}))
    for p in ks[:k]:
        f.signature_add(p, ED25519Signature(value=b"\x01" * 64))
    ctx.check(ctx.iff(f.is_fulfilled(c), k >= m), "fulfilled exactly with the required number of signatures")
    for i in sorted({0, k // 2, k - 1} & set(range(k))):
        ok, _ = ctx.attempt(f.signature_add, ks[i], ED25519Signature(value=b"\x02" * 64))
        ctx.check(not ok, "a key signs once")
    ctx.check([p["publickey"] for p in f.json()["data"]["pairs"]] == [p.json() for p in ks[:k]], "a rejected signature changes nothing")


@case("C17", params=[dict(kind=k) for k in ("single", "multi1", "swap", "swap_secret")])
def fulfillment_parts_needed(ctx, kind):
    """Every part of a fulfillment's data is needed, but for the secret of a swap."""
    f, _, _, t, j = fulfillment(ctx, kind)
    inner = j["data"]["pairs"][0] if kind == "multi1" else j["data"]
    part = ctx.choice("part", sorted(inner) + ["pairs", "all", "data", "none"])
    inner = {k: v for k, v in inner.items() if k != part}
    d = inner
    if kind == "multi1":
        d = {} if part == "pairs" else {"pairs": [inner]}
    o = {"type": t, "data": {} if part == "all" else d}
    if part == "data":
        del o["data"]
    ok, g = ctx.attempt(FulfillmentTypes.from_json, o)
    ctx.check(ok == (part in ("none", "secret") or part == "pairs" and kind != "multi1"), "a fulfillment with a missing part is rejected")


@case("C17")
def pairs_are_set(ctx):
    """Assigning the pairs of a multisig fulfillment replaces them; no key is in it twice."""
    f = fulfillment(ctx, "multi2")[0]
    g = FulfillmentMultiSignature()
    mine = list(f.pairs)
    g.pairs = mine
    ctx.check(ctx.eq(g.json(), f.json()), "the pairs are the assigned ones")
    mine.append(f.pairs[0])
    ctx.check(len(g.pairs) == 2, "the caller's list is not the fulfillment's")
    ok, _ = ctx.attempt(lambda: setattr(FulfillmentMultiSignature(), "pairs", mine))
    ctx.check(not ok, "a key signs once")
    ok, _ = ctx.attempt(lambda: FulfillmentMultiSignature(pairs=[(p.public_key, p.signature) for p in mine]))
    ctx.check(not ok, "a key signs once")
    g.pairs = f.pairs[1:]
    ctx.check(ctx.eq(g.json()["data"]["pairs"], f.json()["data"]["pairs"][1:]), "the pairs are the assigned ones")
    g.pairs = None
    ctx.check(g.pairs == [], "no pairs are left")
    ctx.check(len(f.pairs) == 2, "other fulfillments keep theirs")


@case("C17")
def fulfillment_type_is_checked(ctx):
    t = ctx.int("t", -1, 12)
    data = {"publickey": "ed25519:" + "ab" * 32, "signature": "cd" * 64, "pairs": []}
    ok, f = ctx.attempt(FulfillmentTypes.from_json, {"type": t, "data": data})
    ctx.check(ctx.iff(ok, ctx.any([t == 1, t == 2, t == 3])), "exactly the known fulfillment types are read")
    if ok:
        ctx.check(f.type == t, "a fulfillment is read as its stated type")


@case("C17", params=[dict(kind=k) for k in ("single", "multi1", "swap_secret")])
def fulfillment_class_reads_its_type(ctx, kind):
    """A fulfillment class reads only objects of its own type."""
    f, _, _, _, j = fulfillment(ctx, kind)
    t = ctx.int("type", -1, 12)
    ok, g = ctx.attempt(type(f).from_json, {"type": t, "data": j["data"]})
    ctx.check(ctx.iff(ok, t == f.type), "a fulfillment class reads its own type only")


@case("C17", params=[dict(kind=k) for k in CONDS])
def fulfillment_fits_condition(ctx, kind):
    c = condition(ctx, kind)[0]
    f = FulfillmentTypes.from_condition(c)
    base = kind[5:] if kind.startswith("lock_") else kind
    want = (FulfillmentAtomicSwap if base.startswith("atomicswap") else
            FulfillmentMultiSignature if base.startswith("multisig") else FulfillmentSingleSignature)
    ctx.check(type(f) is want, "a condition gets the fulfillment of its kind")


# ------------------------------------------------------------------------------------------------- changed conditions and fulfillments (C16, C17)
ATTRS = {"wallet": ["unlockhash"], "unlockhash_nil": ["unlockhash"], "atomicswap": ["sender", "receiver", "hashed_secret", "lock_time"],
         "atomicswap_nil": ["sender", "receiver", "hashed_secret", "lock_time"]}


def shown(x):
    return [bytes(rivine_encode(x)), bytes(sia_encode(x)), x.json()] + ([str(x.unlockhash), x.lock.value] if hasattr(x, "lock") else [])


@case("C16", params=[dict(a=a, b=b) for a, b in (("wallet", "unlockhash"), ("unlockhash_nil", "wallet"), ("atomicswap", "atomicswap"), ("atomicswap_nil", "atomicswap"),
                                                 ("multisig1", "multisig2"), ("lock_nil", "lock_unlockhash"), ("lock_unlockhash", "lock_multisig1"))])
def changed_condition(ctx, a, b):
    """A condition that was looked at and is then given the parts of another is that other one."""
    c = condition(ctx, a, "a")[0]
    d, s, r, t, j = condition(ctx, b, "b")
    shown(c)
    if a.startswith("lock"):
        c.lock = d.lock.value
        shown(c)
        c.condition = d.condition
    elif a.startswith("multisig"):
        c.from_json_data_object(d.json_data_object())
    else:
        for f in ATTRS[a]:
            setattr(c, f, getattr(d, f))
            shown(c)
    ctx.check(ctx.eq(c.json(), j), "the JSON form of the condition")
    ctx.check(ctx.eq(sia_encode(c), bytes([t]) + le8(len(s)) + s), "siabin form: type byte and data slice")
    ctx.check(ctx.eq(rivine_encode(c), bytes([t]) + rlen(len(r)) + r), "rivbin form: type byte and data slice")
    ctx.check(ctx.eq(shown(c), shown(d)), "the address and lock of the condition are those of its current parts")


@case("C17", params=[dict(a=a, b=b) for a, b in (("single", "single"), ("swap", "swap_secret"), ("swap_secret", "swap_secret"), ("multi1", "multi2"), ("multi2", "multi1"))])
def changed_fulfillment(ctx, a, b):
    """A fulfillment that was looked at and is then given the parts of another is that other one."""
    c = fulfillment(ctx, a, "a")[0]
    d, s, r, t, j = fulfillment(ctx, b, "b")
    shown(c)
    if a.startswith("multi"):
        c.pairs = d.pairs
    else:
        for f in ("public_key", "signature") + (("secret",) if "swap" in a else ()):
            setattr(c, f, getattr(d, f))
            shown(c)
    ctx.check(ctx.eq(c.json(), j), "the JSON form of the fulfillment")
    ctx.check(ctx.eq(sia_encode(c), bytes([t]) + le8(len(s)) + s), "siabin form: type byte and data slice")
    ctx.check(ctx.eq(rivine_encode(c), bytes([t]) + rlen(len(r)) + r), "rivbin form: type byte and data slice")
