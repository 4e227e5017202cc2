"""C26, C27: signature requests, and when a transaction counts as fulfilled."""
from engine.api import case
from tfchain.encoders import rivine_encode, sia_encode
from tfchain.errors import DoubleSignError
from tfchain.types import FulfillmentTypes
from tfchain.types.ConditionTypes import (AtomicSwapSecret, ConditionAtomicSwap, ConditionLockTime, ConditionMultiSignature,
                                          ConditionNil, ConditionUnlockHash, UnlockHash)
from tfchain.types.FulfillmentTypes import ED25519Signature
from tfchain.types.IO import BlockstakeInput, BlockstakeOutput, CoinInput, CoinOutput
from tfchain.types.CryptoTypes import PublicKey, PublicKeySpecifier
from tfchain.types.PrimitiveTypes import Currency, Hash
from harness.types import TYPES, b2, le8, pubkey
from harness.txb import Narrow, build

SPENDING = [1, 144, 145, 146, 208, 210]
KINDS = ["single", "multi1", "multi2", "multi3", "swap", "swap_secret", "nil"]


def keys(ctx, n, p="k"):
    """n different keys."""
    out = []
    for i in range(n):
        k, raw = pubkey(ctx, "%s%d" % (p, i))
        for _, o in out:
            ctx.assume(ctx.no(ctx.eq(raw, o)))
        out.append((k, raw))
    return [k for k, _ in out]


def owned(ctx, kind, ks, p=""):
    """(condition, the keys that may sign, whether the hash names the key, secret) of a condition owned by ks"""
    inner = kind[5:] if kind.startswith("lock_") else kind
    if inner == "nil":
        c, who, named, sec = ConditionNil(), [None], False, None
    elif inner == "single":
        c, who, named, sec = ConditionUnlockHash(unlockhash=ks[0].unlockhash), ks[:1], False, None
    elif inner.startswith("multi"):
        n = int(inner[5:])
        c = ConditionMultiSignature(unlockhashes=[k.unlockhash for k in ks[:n]], min_nr_sig=ctx.int(p + "m", 1, n))
        who, named, sec = ks[:n], True, None
    else:
        sec = AtomicSwapSecret(value=ctx.bytes(p + "secret", 32)) if inner == "swap_secret" else None
        c = ConditionAtomicSwap(sender=ks[0].unlockhash, receiver=ks[1].unlockhash, hashed_secret=ctx.bytes(p + "h", 32),
                                lock_time=1600000000)
        who, named = ks[:2], True
    if inner is not kind:
        c = ConditionLockTime(condition=c, lock=ctx.int(p + "lock", 0, 2 ** 60))
    return c, who, named, sec


def expected(ctx, b, enc, i, who, named, sec, signer=None):
    """[(address text or None, reference hash when signed with the key of that address)]"""
    out = []
    for k in who:
        x = le8(i)
        if named:
            x = x + enc(k)
        if sec is not None:
            x = x + enc(sec)
        out.append((k, b2(b.sig(x))))
    return out


def check_requests(ctx, requests, want, what="", anyone=None):
    """Exactly the wanted requests, in any order."""
    ctx.check(len(requests) == len(want), "every signature still needed is requested once")
    for k, h in want:
        hit = []
        for r in requests:
            addr = str(k.unlockhash) if k is not None else "0" * 78
            ok, got = ctx.attempt(r.input_hash_new, k if k is not None else anyone)
            hit.append(ctx.all([ok, ctx.eq(r.wallet_address, addr), ctx.eq(bytes(got.value), h)]) if ok else False)
        ctx.check(ctx.any(hit), "the owner is asked to sign the hash of this input")
    for r in requests:
        ctx.check(not r.fulfilled, "a fresh request is not fulfilled")


def spend(ctx, v, kind, p=""):
    """A transaction whose coin inputs get fresh fulfillments for parent outputs of the given kind (input 0) and 'single'."""
    b = build(ctx, v, ni=2)
    enc = sia_encode if v == 1 else rivine_encode
    ks = keys(ctx, 4)
    plan = []
    for i, ci in enumerate(b.txn.coin_inputs):
        c, who, named, sec = owned(ctx, kind if i == 0 else "single", ks if i == 0 else ks[3:], "p%d" % i)
        ci.parent_output = CoinOutput(value=Currency.from_json("7"), condition=c, id=ci.parentid)
        ci.fulfillment = FulfillmentTypes.from_condition(c)
        if sec is not None:
            ci.fulfillment.secret = sec
        plan.append(expected(ctx, b, enc, i, who, named, sec))
    return b, ks, plan


# ------------------------------------------------------------------------------------------------- C26
@case("C26", params=[dict(v=v, kind=k) for v in SPENDING for k in KINDS + ["lock_single", "lock_multi2"]
                     if v == 1 or k in ("single", "multi2", "swap_secret", "lock_single")])
def coin_inputs(ctx, v, kind):
    b, ks, plan = spend(ctx, v, kind)
    check_requests(ctx, b.txn.signature_requests_new(), plan[0] + plan[1], anyone=ks[0])


@case("C26")
def unknown_parents(ctx):
    """Inputs whose parent output is not known can not be signed."""
    b, ks, plan = spend(ctx, 1, "multi2")
    which = ctx.choice("which", [0, 1, 2])
    for i in (0, 1):
        if which in (i, 2):
            b.txn.coin_inputs[i].parent_output = None
    want = [] if which == 2 else plan[1 - which]
    check_requests(ctx, b.txn.signature_requests_new(), want)


@case("C26", params=[dict(kind=k) for k in ("single", "multi2", "swap")])
def blockstake_inputs(ctx, kind):
    """Block stake inputs are requested too, each with its own index."""
    b = build(ctx, 1, ni=1, nbi=2, nbo=1)
    ks = keys(ctx, 4)
    want = []
    c, who, named, sec = owned(ctx, "single", ks[3:], "c")
    ci = b.txn.coin_inputs[0]
    ci.parent_output, ci.fulfillment = CoinOutput(value=Currency.from_json("7"), condition=c), FulfillmentTypes.from_condition(c)
    want += expected(ctx, b, sia_encode, 0, who, named, sec)
    for i, bi in enumerate(b.txn.blockstake_inputs):
        c, who, named, sec = owned(ctx, kind if i == 1 else "single", ks if i == 1 else ks[2:], "b%d" % i)
        bi.parent_output = BlockstakeOutput(value=3, condition=c)
        bi.fulfillment = FulfillmentTypes.from_condition(c)
        want += expected(ctx, b, sia_encode, i, who, named, sec)
    check_requests(ctx, b.txn.signature_requests_new(), want)


@case("C26")
def unknown_blockstake_parent(ctx):
    b = build(ctx, 1, ni=0, nbi=1, nbo=1)
    how = ctx.choice("how", ["new", "none", "json"])
    bi = b.txn.blockstake_inputs[0]
    if how == "none":
        bi.parent_output = None
    elif how == "json":
        bi = BlockstakeInput.from_json(bi.json())
    bi.fulfillment = FulfillmentTypes.single_signature_new()
    ctx.check(len(bi.signature_requests_new(lambda *a: Hash())) == 0, "an input with unknown parent can not be signed")
    ctx.check(len(b.txn.signature_requests_new()) == 0, "an input with unknown parent can not be signed")
    ci = CoinInput(parentid=Hash(value=b"\x01" * 32), parent_output=None)
    ctx.check(len(ci.signature_requests_new(lambda *a: Hash())) == 0, "an input with unknown parent can not be signed")


@case("C26", params=[dict(v=v, kind=k) for v in (128, 129) for k in ("single", "multi2", "lock_multi2", "nil")])
def mint_requests(ctx, v, kind):
    """The mint condition is signed without an input index."""
    b = build(ctx, v)
    ks = keys(ctx, 3)
    c, who, named, sec = owned(ctx, kind, ks)
    b.txn.mint_fulfillment = FulfillmentTypes.from_condition(c)
    ctx.check(len(b.txn.signature_requests_new()) == 0, "nothing is requested while the mint condition is unknown")
    b.txn.parent_mint_condition = c
    want = [(k, b2(b.sig(sia_encode(k) if named else b""))) for k in who]
    check_requests(ctx, b.txn.signature_requests_new(), want, anyone=ks[0])


def special(ctx, v):
    """(built transaction without coin inputs, [(key, reference hash)], parts setting the keys, fields holding the signatures)"""
    b = build(ctx, v, ni=0, signed=False)
    s, r = keys(ctx, 2, "own")
    if v == 144 or v == 210:
        s = b.txn.public_key
        return b, [(s, b2(b.sig(b"sender" if v == 144 else b"registration")))], [], ["signature"]
    if v == 145:
        return b, [(s, b2(b.sig(b"sender")))], [("parent_public_key", s)], ["signature"]
    return (b, [(s, b2(b.sig(b"sender"))), (r, b2(b.sig(b"receiver")))],
            [("sender_parent_public_key", s), ("receiver_parent_public_key", r)], ["sender_signature", "receiver_signature"])


@case("C26", params=[dict(v=v) for v in (144, 145, 146, 210)])
def bot_and_erc20_requests(ctx, v):
    """The keys of the bots and of the registered ERC20 address sign too, under their own label."""
    b, want, sets, fields = special(ctx, v)
    n = ctx.choice("known", list(range(len(sets) + 1)))
    for k, x in sets[:n]:
        setattr(b.txn, k, x)
    check_requests(ctx, b.txn.signature_requests_new(), want[:n] if sets else want)


@case("C26", params=[dict(v=v) for v in (144, 145, 146, 210)])
def bot_and_erc20_signing(ctx, v):
    """A signature ends up with the key it is from, and is not requested again."""
    b, want, sets, fields = special(ctx, v)
    for k, x in sets:
        setattr(b.txn, k, x)
    j = ctx.choice("who", list(range(len(want))))
    sg = ctx.bytes("sg", 64)
    k, h = want[j]
    req = b.txn.signature_requests_new()
    mine = [r for r in req if r.wallet_address == str(k.unlockhash)]
    ctx.check(len(mine) == 1, "one request per key")
    other, raw = pubkey(ctx, "other")
    ctx.assume(ctx.no(ctx.eq(str(other.unlockhash), str(k.unlockhash))))
    ok, e = ctx.attempt(lambda: mine[0].signature_fulfill(public_key=other, signature=ED25519Signature(value=sg)))
    ctx.check(not ok and isinstance(e, ValueError), "a request takes no signature from another key")
    ctx.check(not mine[0].fulfilled, "a request takes no signature from another key")
    if v == 146:
        ctx.assume(ctx.all([ctx.no(ctx.eq(str(other.unlockhash), str(x.unlockhash))) for x, _ in want]))
    ok, e = ctx.attempt(lambda: b.txn.signature_add(other, ED25519Signature(value=sg)))
    ctx.check(not ok and isinstance(e, ValueError), "a transaction takes no signature from another key")
    ctx.check(all(getattr(b.txn, f) is None or len(getattr(b.txn, f).value) == 0 for f in fields), "nothing is signed yet")
    mine[0].signature_fulfill(public_key=k, signature=ED25519Signature(value=sg))
    ctx.check(mine[0].fulfilled, "the request is fulfilled")
    ctx.check(ctx.eq(bytes(getattr(b.txn, fields[j]).value), sg), "the signature is stored where it belongs")
    for i, f in enumerate(fields):
        if i != j:
            ctx.check(getattr(b.txn, f) is None or len(getattr(b.txn, f).value) == 0, "no other signature is set")
    ok, e = ctx.attempt(lambda: mine[0].signature_fulfill(public_key=k, signature=ED25519Signature(value=sg)))
    ctx.check(not ok and isinstance(e, DoubleSignError), "a request is fulfilled once")
    check_requests(ctx, b.txn.signature_requests_new(), [w for i, w in enumerate(want) if i != j])


@case("C26", params=[dict(kind=k) for k in ("single", "multi2", "multi3", "swap", "swap_secret", "nil", "lock_multi2", "lock_single")])
def input_signing(ctx, kind):
    """A signature is stored with its key; the key is not asked again; other keys are refused."""
    b, ks, plan = spend(ctx, 1, kind)
    who = [k for k, _ in plan[0]]
    j = ctx.choice("who", list(range(len(who))))
    k = who[j] if who[j] is not None else ks[1]
    f = b.txn.coin_inputs[0].fulfillment
    before = f.json()
    req = b.txn.coin_inputs[0].signature_requests_new(b.txn.signature_hash_get)
    r = [x for x in req if who[j] is None or x.wallet_address == str(k.unlockhash)][0]
    sg = ctx.bytes("sg", 64)
    if who[j] is not None:
        other, raw = pubkey(ctx, "other")
        ctx.assume(ctx.no(ctx.eq(str(other.unlockhash), str(k.unlockhash))))
        ok, e = ctx.attempt(lambda: r.signature_fulfill(public_key=other, signature=ED25519Signature(value=sg)))
        ctx.check(not ok and isinstance(e, ValueError), "a request takes no signature from another key")
        ctx.check(ctx.eq(f.json(), before), "a refused signature changes nothing")
    ok, e = ctx.attempt(lambda: r.signature_fulfill(public_key=str(k), signature=ED25519Signature(value=sg)))
    ctx.check(not ok, "a key is given as a PublicKey")
    r.signature_fulfill(public_key=k, signature=ED25519Signature(value=sg))
    ctx.check(r.fulfilled, "the request is fulfilled")
    after = f.json()["data"]
    pair = {"publickey": k.json(), "signature": sg.hex()}
    if "multi" in kind:
        ctx.check(ctx.eq(after, {"pairs": [pair]}), "the signature is stored with its key")
    else:
        ctx.check(ctx.all([ctx.eq(after["publickey"], pair["publickey"]), ctx.eq(after["signature"], pair["signature"])]),
                  "the signature is stored with its key")
    ok, e = ctx.attempt(lambda: r.signature_fulfill(public_key=k, signature=ED25519Signature(value=b"\x01" * 64)))
    ctx.check(not ok and isinstance(e, DoubleSignError), "a request is fulfilled once")
    ctx.check(ctx.eq(f.json()["data"], after), "a second signature changes nothing")
    again = b.txn.coin_inputs[0].signature_requests_new(b.txn.signature_hash_get)
    for x in again:
        ctx.check(ctx.no(ctx.eq(x.wallet_address, str(k.unlockhash))), "who has signed is not asked again")
    if "multi" in kind:
        ctx.check(len(again) == len(who) - 1, "the others are still asked")
    elif "swap" not in kind:
        ctx.check(len(again) == 0, "one signature is enough")


@case("C26", params=[dict(kind=k) for k in ("single", "multi2", "swap", "lock_single")])
def refused_signature_leaves_open(ctx, kind):
    """A signature that is none leaves the request open for the right one."""
    b, ks, plan = spend(ctx, 1, kind)
    k = plan[0][0][0]
    ci = b.txn.coin_inputs[0]
    before = ci.fulfillment.json()
    r = [x for x in ci.signature_requests_new(b.txn.signature_hash_get) if x.wallet_address == str(k.unlockhash)][0]
    bad = ctx.choice("bad", [5, "xyz", "ab" * 63, b"\x01" * 65, 1.5])
    ok, e = ctx.attempt(lambda: r.signature_fulfill(public_key=k, signature=bad))
    ctx.check(not ok and not r.fulfilled, "what is not a signature is refused")
    if kind != "multi2":
        ctx.check(ctx.eq(ci.fulfillment.json()["data"]["signature"], before["data"]["signature"]), "a refused signature is not stored")
    else:
        ctx.check(ctx.eq(ci.fulfillment.json(), before), "a refused signature changes nothing")
    sg = ctx.bytes("sg", 64)
    r.signature_fulfill(public_key=k, signature=ED25519Signature(value=sg))
    ctx.check(r.fulfilled, "the right one is still accepted")
    d = ci.fulfillment.json()["data"]
    d = d["pairs"][0] if kind == "multi2" else d
    ctx.check(ctx.all([ctx.eq(d["publickey"], k.json()), ctx.eq(d["signature"], sg.hex())]), "the signature is stored with its key")


@case("C26")
def hashes_to_sign(ctx):
    """The hash to sign is the one of the transaction, in whatever form it comes."""
    raw = ctx.bytes("raw", 32)
    form = ctx.choice("form", ["hash", "bytes", "bytearray", "text", "int", "none"])
    got = {"hash": lambda: Hash(value=raw), "bytes": lambda: raw, "bytearray": lambda: bytearray(raw), "text": lambda: raw.hex(),
           "int": lambda: 5, "none": lambda: None}[form]()
    ks = keys(ctx, 2)
    c, who, named, sec = owned(ctx, ctx.choice("kind", ["single", "multi2", "swap"]), ks)
    for r in FulfillmentTypes.from_condition(c).signature_requests_new(lambda *a: got, c):
        ok, h = ctx.attempt(r.input_hash_new, ks[0])
        ctx.check(ok == (form not in ("int", "none")), "a hash is needed")
        if ok:
            ctx.check(isinstance(h, Hash) and ctx.eq(bytes(h.value), raw), "the hash is the one of the transaction")


@case("C26", params=[dict(t=t) for t in (0, 2, 3)])
def same_hash_other_type(ctx, t):
    """An address of another type is another owner, even with the hash of a key."""
    ks = keys(ctx, 1)
    u = UnlockHash(type=TYPES[t], hash=ks[0].unlockhash.hash)
    c = ConditionUnlockHash(unlockhash=u)
    f = FulfillmentTypes.from_condition(c)
    f.signature_add(ks[0], ED25519Signature(value=ctx.bytes("sg", 64)))
    rs = f.signature_requests_new(lambda *a: Hash(), c)
    ctx.check([r.wallet_address for r in rs] == ([] if t == 0 else [str(u)]), "the owner is still to sign")
    c = ConditionMultiSignature(unlockhashes=[u], min_nr_sig=1)
    f = FulfillmentTypes.from_condition(c)
    f.signature_add(ks[0], ED25519Signature(value=b"\x01" * 64))
    rs = f.signature_requests_new(lambda *a: Hash(), c)
    ctx.check([r.wallet_address for r in rs] == [str(u)], "the owner is still to sign")


@case("C26", params=[dict(kind=k) for k in ("single", "swap", "lock_single")])
def named_but_unsigned(ctx, kind):
    """A fulfillment that names its key without a signature is still to be signed, also after JSON."""
    b, ks, plan = spend(ctx, 1, kind)
    ci = b.txn.coin_inputs[0]
    ci.fulfillment.public_key = ks[0]
    if ctx.choice("json", [False, True]):
        ci.fulfillment = FulfillmentTypes.from_json(ci.fulfillment.json())
    check_requests(ctx, ci.signature_requests_new(lambda *x: b.txn.signature_hash_get(0, *x)), plan[0])


@case("C26", params=[dict(kind=k, via=v) for k in ("single", "multi2", "multi3", "swap", "swap_secret", "lock_single", "lock_multi2") for v in ("set", "json")])
def signed_by_others(ctx, kind, via):
    """A signature from a key that does not own the output leaves every owner to sign."""
    b, ks, plan = spend(ctx, 1, kind)
    ci = b.txn.coin_inputs[0]
    other, raw = pubkey(ctx, "other")
    for k, _ in plan[0]:
        ctx.assume(ctx.no(ctx.eq(str(other.unlockhash), str(k.unlockhash))))
    ci.fulfillment.signature_add(other, ED25519Signature(value=ctx.bytes("sg", 64)))
    if via == "json":
        ci.fulfillment = FulfillmentTypes.from_json(ci.fulfillment.json())
    check_requests(ctx, ci.signature_requests_new(lambda *x: b.txn.signature_hash_get(0, *x)), plan[0])


# ------------------------------------------------------------------------------------------------- C27
def sign_input(ctx, ci, k):
    ci.fulfillment.signature_add(k, ED25519Signature(value=b"\x07" * 64))


@case("C27", params=[dict(v=v, kind=k) for v in SPENDING for k in ("single", "multi2", "multi3", "swap", "lock_multi2", "nil")
                     if v == 1 or k in ("single", "multi2")])
def inputs_decide(ctx, v, kind):
    """Fulfilled exactly when every input with its known parent has enough signatures."""
    b, ks, plan = spend(ctx, v, kind)
    if v == 145:
        b.txn.parent_public_key = ks[0]
    n0 = ctx.choice("n0", list(range(len(plan[0]) + 1)))
    for k, _ in plan[0][:n0]:
        sign_input(ctx, b.txn.coin_inputs[0], k if k is not None else ks[1])
    n1 = ctx.choice("n1", [0, 1])
    if n1:
        sign_input(ctx, b.txn.coin_inputs[1], ks[3])
    gone = ctx.choice("gone", [None, 0, 1])
    need = b.txn.coin_inputs[0].parent_output.condition.unwrap().required_signatures if "multi" in kind else 1
    if gone is not None:
        b.txn.coin_inputs[gone].parent_output = None
    want = ctx.all([n0 >= need, n1 == 1, gone is None])
    ctx.check(ctx.iff(b.txn.is_fulfilled(), want), "fulfilled exactly when every input is")


@case("C27", params=[dict(ni=0, nbi=1), dict(ni=1, nbi=1), dict(ni=0, nbi=2)])
def blockstake_inputs_decide(ctx, ni, nbi):
    """An unsigned block stake input leaves the transaction unfulfilled."""
    b = build(ctx, 1, ni=ni, nbi=nbi, nbo=1)
    ks = keys(ctx, 3)
    all_signed = True
    for i, x in enumerate(b.txn.coin_inputs + b.txn.blockstake_inputs):
        c = ConditionUnlockHash(unlockhash=ks[i].unlockhash)
        if i < ni:
            x.parent_output = CoinOutput(value=Currency.from_json("7"), condition=c)
        else:
            x.parent_output = BlockstakeOutput(value=3, condition=c)
        x.fulfillment = FulfillmentTypes.from_condition(c)
        s = ctx.choice("s%d" % i, [True, False])
        if s:
            sign_input(ctx, x, ks[i])
        all_signed = all_signed and s
    ctx.check(b.txn.is_fulfilled() == all_signed, "fulfilled exactly when every input is, block stake inputs too")


@case("C27", params=[dict(v=v) for v in (144, 145, 146, 210)])
def extra_signatures_decide(ctx, v):
    """Bot and ERC20 transactions also need the signatures of the keys they are about."""
    b, want, sets, fields = special(ctx, v)
    for k, x in sets:
        setattr(b.txn, k, x)
    done = True
    for f in fields:
        s = ctx.choice("s" + f, [True, False])
        if s:
            setattr(b.txn, f, ED25519Signature(value=ctx.bytes("sg" + f, 64)))
        done = done and s
    ctx.check(b.txn.is_fulfilled() == done, "fulfilled exactly when all its keys have signed")
    ctx.check(len(b.txn.signature_requests_new()) == sum(1 for f in fields if getattr(b.txn, f) is None or
                                                         len(getattr(b.txn, f).value) == 0), "what misses is requested")
    again = type(b.txn).from_json(b.txn.json())
    ctx.check(again.is_fulfilled() == done, "also after JSON")


@case("C27", params=[dict(v=v, kind=k) for v in (128, 129) for k in ("single", "multi2", "multi3", "lock_multi2")])
def mint_signatures_decide(ctx, v, kind):
    b = build(ctx, v)
    ks = keys(ctx, 3)
    c, who, named, sec = owned(ctx, kind, ks)
    b.txn.mint_fulfillment = FulfillmentTypes.from_condition(c)
    known = ctx.choice("known", [True, False])
    if known:
        b.txn.parent_mint_condition = c
    n = ctx.choice("n", list(range(len(who) + 1)))
    for k in who[:n]:
        b.txn.mint_fulfillment.signature_add(k, ED25519Signature(value=b"\x07" * 64))
    need = c.unwrap().required_signatures if "multi" in kind else 1
    ctx.check(ctx.iff(b.txn.is_fulfilled(), ctx.all([known, n >= need])), "fulfilled exactly when the minters have signed")


# ------------------------------------------------------------------------------------- many inputs and owners (C26, C27)
def plain_key(i):
    raw = b2(b"owner" + le8(i))
    return PublicKey(specifier=PublicKeySpecifier.ED25519, hash=raw)


SIZES = [3, 5, 8, 9, 16, 17, 33]
MORE = [12, 24, 32, 64, 65, 100, 128, 129, 255, 256]


def owner_of(i, kind):
    """The i-th parent condition: (condition, keys)"""
    ks = [plain_key(3 * i + j) for j in range(3)]
    if kind == "same":
        return ConditionUnlockHash(unlockhash=plain_key(1).unlockhash), [plain_key(1)], False
    if kind == "mixed" and i % 3 == 1:
        return ConditionMultiSignature(unlockhashes=[k.unlockhash for k in ks], min_nr_sig=2), ks, True
    c = ConditionUnlockHash(unlockhash=ks[0].unlockhash)
    return ConditionLockTime(condition=c, lock=1000 + i) if kind == "mixed" and i % 3 == 2 else c, ks[:1], False


def spend_many(ctx, v, ni, kind):
    b = build(Narrow(ctx, True), v, ni=ni)
    enc = sia_encode if v == 1 else rivine_encode
    plan = []
    for i, ci in enumerate(b.txn.coin_inputs):
        c, who, named = owner_of(i, kind)
        ci.parent_output = CoinOutput(value=Currency.from_json("7"), condition=c, id=ci.parentid)
        ci.fulfillment = FulfillmentTypes.from_condition(c)
        plan.append((who, named, enc))
    return b, plan


def by_address(requests):
    out = {}
    for r in requests:
        out.setdefault(r.wallet_address, []).append(r)
    return out


@case("C26", params=[dict(v=v, ni=n, kind=k) for v in (1, 208) for n in SIZES for k in (("mixed", "same") if v == 1 else ("mixed",))],
      thorough=[dict(v=1, ni=n, kind=k) for n in MORE for k in ("mixed", "same")])
def many_inputs(ctx, v, ni, kind):
    """Each of many inputs is requested of its own owners, with its own index."""
    b, plan = spend_many(ctx, v, ni, kind)
    done, gone = ctx.choice("which", [(None, None), (0, ni - 1), (ni // 2, 0), (ni - 1, ni // 2), (ni - 2, None)])
    if done is not None:
        for k in plan[done][0]:
            b.txn.coin_inputs[done].fulfillment.signature_add(k, ED25519Signature(value=b"\x07" * 64))
    if gone is not None:
        b.txn.coin_inputs[gone].parent_output = None
    got = b.txn.signature_requests_new()
    have = by_address(got)
    n = 0
    for i in range(ni):
        if i in (done, gone):
            continue
        who, named, enc = plan[i]
        for k in who:
            rs = have.get(str(k.unlockhash), [])
            n += 1
            if kind == "same":  # one request for each input, in the order of the inputs
                j = i - sum(1 for x in {done, gone} if x is not None and x < i)
                rs = rs[j:j + 1]
            ctx.check(len(rs) == 1, "every signature still needed is requested once")
            if i not in (0, 1, ni // 2, ni - 2, ni - 1):
                continue
            h = rs[0].input_hash_new(k)
            ctx.check(ctx.eq(bytes(h.value), b2(b.sig(le8(i) + (enc(k) if named else b"")))), "the owner is asked to sign the hash of this input")
    ctx.check(len(got) == n, "every signature still needed is requested once")


@case("C26", params=[dict(n=n) for n in SIZES], thorough=[dict(n=n) for n in MORE])
def many_signers(ctx, n):
    """Of many owners exactly those are asked who did not sign yet."""
    b = build(Narrow(ctx, True), 1, ni=1)
    ks = [plain_key(i) for i in range(n)]
    c = ConditionMultiSignature(unlockhashes=[k.unlockhash for k in ks], min_nr_sig=ctx.int("m", 1, n))
    ci = b.txn.coin_inputs[0]
    ci.parent_output = CoinOutput(value=Currency.from_json("7"), condition=c, id=ci.parentid)
    ci.fulfillment = FulfillmentTypes.from_condition(c)
    how = ctx.choice("signed", ["none", "first", "last", "odd", "but one", "all"])
    signed = {"none": [], "first": [0], "last": [n - 1], "odd": list(range(1, n, 2)), "but one": [i for i in range(n) if i != n // 2],
              "all": list(range(n))}[how]
    sg = ctx.bytes("sg", 64)
    for i in reversed(signed):
        ci.fulfillment.signature_add(ks[i], ED25519Signature(value=sg))
    if ctx.choice("json", [False, True]):
        ci.fulfillment = FulfillmentTypes.from_json(ci.fulfillment.json())
    pairs = ci.fulfillment.json()["data"]["pairs"]
    ctx.check(ctx.eq(pairs, [{"publickey": ks[i].json(), "signature": sg.hex()} for i in reversed(signed)]), "each signature is stored with its key")
    got = b.txn.signature_requests_new()
    have = by_address(got)
    want = [k for i, k in enumerate(ks) if i not in signed]
    ctx.check(sorted(have) == sorted(str(k.unlockhash) for k in want) and len(got) == len(want), "every signature still needed is requested once")
    for k in want[:2] + want[-2:]:
        h = have[str(k.unlockhash)][0].input_hash_new(k)
        ctx.check(ctx.eq(bytes(h.value), b2(b.sig(le8(0) + sia_encode(k)))), "the owner is asked to sign the hash of this input")


@case("C27", params=[dict(v=v, ni=n, kind=k) for v in (1, 208) for n in SIZES for k in (("mixed", "same") if v == 1 else ("mixed",))],
      thorough=[dict(v=1, ni=n, kind=k) for n in MORE for k in ("mixed", "same")])
def many_inputs_decide(ctx, v, ni, kind):
    """One unsigned or unknown input of many leaves the transaction unfulfilled."""
    b, plan = spend_many(ctx, v, ni, kind)
    bad = ctx.choice("bad", [None, 0, 1, ni // 2, ni - 2, ni - 1])
    how = ctx.choice("how", ["unsigned", "short", "gone"]) if bad is not None else None
    for i, ci in enumerate(b.txn.coin_inputs):
        who = plan[i][0]
        need = 2 if len(who) == 3 else 1
        for k in who[:need if i != bad or how == "gone" else need - 1 if how == "short" else 0]:
            ci.fulfillment.signature_add(k, ED25519Signature(value=b"\x07" * 64))
    if how == "gone":
        b.txn.coin_inputs[bad].parent_output = None
    ctx.check(b.txn.is_fulfilled() == (bad is None), "fulfilled exactly when every input is")


@case("C27", params=[dict(n=n, where=w) for n in SIZES for w in ("input", "mint")], thorough=[dict(n=n, where=w) for n in MORE for w in ("input", "mint")])
def many_signers_decide(ctx, n, where):
    """Of many owners as many have to sign as the condition says."""
    b = build(ctx, 1, ni=1) if where == "input" else build(ctx, 128)
    ks = [plain_key(i) for i in range(n)]
    m = ctx.int("m", 1, n)
    c = ConditionMultiSignature(unlockhashes=[k.unlockhash for k in ks], min_nr_sig=m)
    f = FulfillmentTypes.from_condition(c)
    if where == "input":
        b.txn.coin_inputs[0].parent_output = CoinOutput(value=Currency.from_json("7"), condition=c, id=b.txn.coin_inputs[0].parentid)
        b.txn.coin_inputs[0].fulfillment = f
    else:
        b.txn.mint_fulfillment = f
        b.txn.parent_mint_condition = c
    signed = ctx.choice("signed", sorted({0, 1, 2, n // 2, n - 1, n}))
    for k in ks[:signed]:
        f.signature_add(k, ED25519Signature(value=b"\x07" * 64))
    ctx.check(ctx.iff(b.txn.is_fulfilled(), signed >= m), "fulfilled exactly when enough owners have signed")
