"""C48: a transaction reports exactly the parts put into it."""
from engine.api import case
from tfchain.types.ConditionTypes import ConditionNil, ConditionUnlockHash
from tfchain.types.CryptoTypes import PublicKey
from tfchain.types.ERC20 import ERC20Address, ERC20Hash
from tfchain.types.FulfillmentTypes import (ED25519Signature, FulfillmentAtomicSwap, FulfillmentMultiSignature,
                                            FulfillmentSingleSignature)
from tfchain.types.IO import BlockstakeInput, BlockstakeOutput, CoinInput, CoinOutput
from tfchain.types.PrimitiveTypes import BinaryData, Blockstake, Currency, Hash
from tfchain.types.transactions import Transactions
from harness.txb import VERSIONS, units
from harness.types import pubkey, unlockhash
from harness.types2 import condition, fulfillment

NEW = {1: Transactions.new, 128: Transactions.mint_definition_new, 129: Transactions.mint_coin_creation_new,
       144: Transactions.threebot_registration_new, 145: Transactions.threebot_record_update_new,
       146: Transactions.threebot_name_transfer_new, 208: Transactions.erc20_convert_new,
       209: Transactions.erc20_coin_creation_new, 210: Transactions.erc20_address_registration_new}
WITH_INPUTS = [1, 144, 145, 146, 208, 210]
WITH_REFUND = [144, 145, 146, 208, 210]
ONE_FEE = [144, 145, 146, 208, 209, 210]
WITH_DATA = [1, 128, 129]


def same_output(ctx, o, v, c, oid):
    ctx.check(ctx.eq(o.value.json() if not isinstance(o, BlockstakeOutput) else int(o.value), v), "an output keeps its value")
    ctx.check(ctx.eq(o.condition.json(), c.json()), "an output keeps its condition")
    ctx.check(ctx.eq(str(o.id), str(oid)), "an output keeps its id")


@case("C48", params=[dict(v=v) for v in VERSIONS])
def nothing_put_in(ctx, v):
    """A new transaction has no parts, and reports neutral values for the single ones."""
    t = NEW[v]()
    ctx.check(int(t.version) == v, "the version")
    ctx.check(t.coin_inputs == [] and t.blockstake_inputs == [] and t.blockstake_outputs == [], "no inputs and no block stakes")
    ctx.check(v == 209 or t.coin_outputs == [], "no outputs")
    ctx.check(t.miner_fees == [], "no fees")
    ctx.check(len(t.data) == 0 if v not in WITH_DATA else ctx.eq(bytes(t.data.value), b""), "no data")
    ctx.check(t.height < 0 and t.unconfirmed is False, "not part of a block, not known to be unconfirmed")
    if v in ONE_FEE:
        ctx.check(ctx.eq(t.transaction_fee.json(), "0"), "no transaction fee")
    if v in WITH_REFUND:
        ctx.check(ctx.eq(t.refund_coin_output.value.json(), "0"), "no refund")
    for n in ("public_key", "parent_public_key", "sender_parent_public_key", "receiver_parent_public_key"):
        if hasattr(t, n):
            ctx.check(isinstance(getattr(t, n), PublicKey) and ctx.eq(bytes(getattr(t, n).hash.value), bytes(32)), "an unset key is a nil key")
    for n in ("signature", "sender_signature", "receiver_signature"):
        if hasattr(t, n):
            ctx.check(isinstance(getattr(t, n), ED25519Signature) and ctx.eq(getattr(t, n).json(), ""), "an unset signature is empty")
    for n in ("names", "addresses", "names_to_add", "names_to_remove", "addresses_to_add", "addresses_to_remove"):
        if hasattr(t, n):
            ctx.check(getattr(t, n) == [], "no names and addresses")
    if v in (128, 129):
        ctx.check(isinstance(t.mint_fulfillment, FulfillmentSingleSignature) and not t.mint_fulfillment_defined(), "no mint fulfillment")
        ctx.check(isinstance(t.parent_mint_condition, ConditionNil), "no parent mint condition")
    if v == 128:
        ctx.check(isinstance(t.mint_condition, ConditionNil), "no mint condition")
    if v in (208, 209):
        ctx.check(ctx.eq(t.value.json(), "0") and isinstance(t.address, ERC20Address if v == 208 else object), "no value and address")
    if v == 209:
        ctx.check(isinstance(t.blockid, ERC20Hash) and isinstance(t.transactionid, ERC20Hash), "no ids")


@case("C48", params=[dict(v=v, n=n) for v in WITH_INPUTS for n in (1, 2)])
def coin_inputs(ctx, v, n):
    t, u = NEW[v](), NEW[v]()
    ins = []
    for i in range(n):
        raw = ctx.bytes("id%d" % i, 32)
        f = fulfillment(ctx, "single" if i else "multi1", "f%d" % i)[0]
        amount = units(ctx, "v%d" % i)
        po = CoinOutput(value=amount[0], condition=condition(ctx, "wallet", "c%d" % i)[0])
        po.id = raw
        known = ctx.choice("known%d" % i, [True, False])
        ins.append((raw, f, amount[4], po, known))
        t.coin_input_add(Hash(value=raw), f, parent_output=po if known else None)
    u.coin_input_add(Hash(value=bytes(32)), fulfillment(ctx, "single", "old")[0])
    u.coin_inputs = t.coin_inputs
    for x in (t, u):
        ctx.check(len(x.coin_inputs) == n, "every input once")
        for ci, (raw, f, amount, po, known) in zip(x.coin_inputs, ins):
            ctx.check(ctx.eq(str(ci.parentid), raw.hex()), "an input keeps its parent")
            ctx.check(ctx.eq(ci.fulfillment.json(), f.json()), "an input keeps its fulfillment")
            ctx.check(ctx.eq(ci.parent_output.value.json(), amount if known else "0"), "an input keeps the output it spends")
            if known:
                ctx.check(ctx.eq(ci.parent_output.condition.json(), po.condition.json()), "an input keeps the condition it spends")
    u.coin_inputs = ctx.choice("nothing", [None, [], ()])
    ctx.check(u.coin_inputs == [] and len(t.coin_inputs) == n, "assigning nothing clears the inputs of that transaction only")
    t.coin_inputs = t.coin_inputs
    ctx.check(len(t.coin_inputs) == n, "assigning its own inputs changes nothing")


@case("C48", params=[dict(v=v, n=n) for v in (1, 129) for n in (1, 2)])
def coin_outputs(ctx, v, n):
    t, u = NEW[v](), NEW[v]()
    outs = []
    for i in range(n):
        amount = units(ctx, "v%d" % i)
        c = condition(ctx, "wallet" if i else "multisig1", "c%d" % i)[0]
        oid = Hash(value=ctx.bytes("id%d" % i, 32)) if ctx.choice("hasid%d" % i, [True, False]) else None
        outs.append((amount[4], c, oid if oid is not None else CoinOutput().id))
        t.coin_output_add(amount[0], c, id=oid)
    u.coin_output_add(Currency(value=7), ConditionNil())
    u.coin_outputs = t.coin_outputs
    for x in (t, u):
        ctx.check(len(x.coin_outputs) == n, "every output once")
        for co, o in zip(x.coin_outputs, outs):
            same_output(ctx, co, *o)
    u.coin_outputs = ctx.choice("nothing", [None, [], ()])
    ctx.check(u.coin_outputs == [] and len(t.coin_outputs) == n, "assigning nothing clears the outputs of that transaction only")


MANY = (9, 17, 34, 65, 100, 130)


@case("C48", params=[dict(v=v, n=n) for v in WITH_INPUTS + [128, 129] for n in MANY if n in (17, 130) or v in (1, 129)],
      thorough=[dict(v=v, n=n) for v in WITH_INPUTS + [128, 129] for n in (33, 99, 127, 128, 129, 256, 257, 300, 513)])
def many_parts(ctx, v, n):
    """Also of many parts each is reported once, in its place."""
    t, u, w = NEW[v](), NEW[v](), NEW[v]()
    free = (0, n // 2, n - 1)
    raws = [ctx.bytes("id%d" % i, 32) if i in free else (i * 2654435761 + 7).to_bytes(32, "big") for i in range(n)]
    vals = [ctx.int("v%d" % i, 2 ** 24, 2 ** 25 - 1) if i in free else 1000 + i * 3 for i in range(n)]
    cond = condition(ctx, "wallet", "c")[0]
    fs = [fulfillment(ctx, "single", "f%d" % i)[0] if i in free else FulfillmentSingleSignature() for i in range(n)]
    if v in WITH_INPUTS:
        for r, x, f in zip(raws, vals, fs):
            po = CoinOutput(value=Currency.from_json(str(x)), condition=cond)
            t.coin_input_add(Hash(value=r), f, parent_output=po)
        u.coin_inputs = t.coin_inputs
        w.coin_inputs = tuple(t.coin_inputs)
        for y in (t, u, w):
            ctx.check(ctx.eq([str(ci.parentid) for ci in y.coin_inputs], [r.hex() for r in raws]), "every input once, in order")
            ctx.check(ctx.eq([ci.parent_output.value.json() for ci in y.coin_inputs], [str(x) for x in vals]), "every input with its output")
            ctx.check(all(ci.fulfillment is f or ctx.eq(ci.fulfillment.json(), f.json()) for ci, f in zip(y.coin_inputs, fs)),
                      "every input with its fulfillment")
    if v == 1:
        for r, x, f in zip(raws, vals, fs):
            t.blockstake_input_add(Hash(value=r), f)
            t.blockstake_output_add(Blockstake(value=x), cond, id=Hash(value=r))
        u.blockstake_inputs, u.blockstake_outputs = t.blockstake_inputs, t.blockstake_outputs
        for y in (t, u):
            ctx.check(ctx.eq([str(b.parentid) for b in y.blockstake_inputs], [r.hex() for r in raws]), "every block stake input once")
            ctx.check(ctx.eq([str(o.id) for o in y.blockstake_outputs], [r.hex() for r in raws]), "every block stake output once")
            ctx.check(ctx.all([int(o.value) == x for o, x in zip(y.blockstake_outputs, vals)]), "with its stake")
    if v in (1, 129):
        for r, x in zip(raws, vals):
            t.coin_output_add(Currency.from_json(str(x)), cond, id=Hash(value=r))
        u.coin_outputs = t.coin_outputs
        for y in (t, u):
            ctx.check(ctx.eq([str(o.id) for o in y.coin_outputs], [r.hex() for r in raws]), "every output once, in order")
            ctx.check(ctx.eq([o.value.json() for o in y.coin_outputs], [str(x) for x in vals]), "every output with its value")
    if v in (1, 128, 129):
        for x in vals:
            t.miner_fee_add(Currency.from_json(str(x)))
        ctx.check(ctx.eq([x.json() for x in t.miner_fees], [str(x) for x in vals]), "every fee, in order")


@case("C48", params=[dict(kind=k) for k in ("nil", "wallet", "multisig1", "multisig2", "atomicswap", "lock_wallet", "lock_multisig2", "lock_nil")])
def spending_outputs(ctx, kind):
    """An input made from an output spends that output, with the fulfillment its condition needs."""
    c = condition(ctx, kind, "c")[0]
    amount = units(ctx, "v")
    raw = ctx.bytes("id", 32)
    base = kind[5:] if kind.startswith("lock_") else kind
    want = FulfillmentMultiSignature if base.startswith("multi") else FulfillmentAtomicSwap if base == "atomicswap" else FulfillmentSingleSignature
    for i, o in ((CoinInput.from_coin_output, CoinOutput(value=amount[0], condition=c, id=Hash(value=raw))),
                 (BlockstakeInput.from_blockstake_output, BlockstakeOutput(value=5, condition=c, id=Hash(value=raw)))):
        x = i(o)
        ctx.check(ctx.eq(str(x.parentid), raw.hex()), "an input names the output it spends")
        ctx.check(type(x.fulfillment) is want, "with the fulfillment its condition needs")
        ctx.check(ctx.all([ctx.eq(x.parent_output.value.json(), o.value.json()), ctx.eq(x.parent_output.condition.json(), c.json()),
                           ctx.eq(str(x.parent_output.id), raw.hex())]), "and knows that output")
        if "multi" not in kind:
            ctx.check(not x.is_fulfilled(), "still to be signed")
    for f in (CoinInput.from_coin_output, BlockstakeInput.from_blockstake_output):
        ok, e = ctx.attempt(f, c)
        ctx.check(not ok and isinstance(e, TypeError), "only outputs can be spent")


@case("C48")
def parts_from_json_complete(ctx):
    """Inputs and outputs read from JSON need all their parts."""
    f = fulfillment(ctx, "single", "f")[0]
    c = condition(ctx, "wallet", "c")[0]
    full = {"in": {"parentid": ctx.bytes("p", 32).hex(), "fulfillment": f.json()}, "out": {"value": "5", "condition": c.json()}}
    for cls, k in ((CoinInput, "in"), (BlockstakeInput, "in"), (CoinOutput, "out"), (BlockstakeOutput, "out")):
        x = cls.from_json(full[k])
        ctx.check(ctx.eq(x.json(), full[k]), "what was read is written again")
        for part in full[k]:
            ok, e = ctx.attempt(cls.from_json, {a: b for a, b in full[k].items() if a != part})
            ctx.check(not ok, "a part without which it means nothing is needed")


@case("C48")
def blockstakes(ctx):
    t, u = Transactions.new(), Transactions.new()
    raw, oid = ctx.bytes("in", 32), ctx.bytes("out", 32)
    f = fulfillment(ctx, "single", "f")[0]
    amount = ctx.int("v", 1, 2 ** 40)
    c = condition(ctx, "wallet", "c")[0]
    po = BlockstakeOutput(value=Blockstake(value=amount), condition=c)
    t.blockstake_input_add(Hash(value=raw), f, parent_output=po)
    t.blockstake_output_add(Blockstake(value=amount), c, id=Hash(value=oid))
    u.blockstake_inputs, u.blockstake_outputs = t.blockstake_inputs, t.blockstake_outputs
    for x in (t, u):
        ctx.check(len(x.blockstake_inputs) == 1 and len(x.blockstake_outputs) == 1, "every block stake input and output once")
        b = x.blockstake_inputs[0]
        ctx.check(isinstance(b, BlockstakeInput) and ctx.eq(str(b.parentid), raw.hex()), "an input keeps its parent")
        ctx.check(ctx.eq(b.fulfillment.json(), f.json()), "an input keeps its fulfillment")
        ctx.check(int(b.parent_output.value) == amount, "an input keeps the output it spends")
        same_output(ctx, x.blockstake_outputs[0], amount, c, oid.hex())
    u.blockstake_inputs = ctx.choice("nothing", [None, []])
    u.blockstake_outputs = None
    ctx.check(u.blockstake_inputs == [] and u.blockstake_outputs == [], "assigning nothing clears them")
    ctx.check(len(t.blockstake_inputs) == 1 and len(t.blockstake_outputs) == 1, "of that transaction only")


@case("C48", params=[dict(v=v) for v in WITH_REFUND])
def refund(ctx, v):
    """The one output of the transaction is its refund."""
    t = NEW[v]()
    amount = units(ctx, "v")
    c = condition(ctx, "wallet", "c")[0]
    raw = ctx.bytes("id", 32)
    how = ctx.choice("how", ["set", "output", "list", "copied"])
    if how == "set":
        t.refund_coin_output_set(amount[0], c, id=Hash(value=raw))
    else:
        o = CoinOutput(value=amount[0], condition=c)
        o.id = raw
        if how == "copied":
            u = NEW[v]()
            u.coin_outputs = o
            t.coin_outputs = u.coin_outputs
        else:
            t.coin_outputs = o if how == "output" else [o]
    ctx.check(len(t.coin_outputs) == 1, "the refund is the output")
    for o in (t.coin_outputs[0], t.refund_coin_output):
        same_output(ctx, o, amount[4], c, raw.hex())
    bad = ctx.choice("bad", ["two", "int", "items", "empty", "none"])
    other = CoinOutput(value=Currency(value=3), condition=ConditionNil())
    ok, e = ctx.attempt(setattr, t, "coin_outputs", {"two": [other, other], "int": 5, "items": ["x"], "empty": [], "none": None}[bad])
    if bad in ("empty", "none"):
        ctx.check(ok and t.coin_outputs == [] and ctx.eq(t.refund_coin_output.value.json(), "0"), "assigning nothing clears the refund")
        return
    ctx.check(not ok and isinstance(e, ValueError if bad == "two" else TypeError), "only one output is accepted")
    ctx.check(len(t.coin_outputs) == 1, "a refused assignment changes nothing")
    same_output(ctx, t.coin_outputs[0], amount[4], c, raw.hex())
    t.coin_outputs = other
    same_output(ctx, t.coin_outputs[0], "3000000000", ConditionNil(), CoinOutput().id)


@case("C48", params=[dict(v=v) for v in VERSIONS])
def fees(ctx, v):
    t = NEW[v]()
    a, b = units(ctx, "a"), units(ctx, "b", 3)
    if v in ONE_FEE:
        t.transaction_fee = a[0]
        ctx.check(ctx.eq([x.json() for x in t.miner_fees], [a[4]]), "the transaction fee is the miner fee")
        ctx.check(ctx.eq(t.transaction_fee.json(), a[4]), "the fee is the one set")
        t.transaction_fee = b[0]
        ctx.check(ctx.eq([x.json() for x in t.miner_fees], [b[4]]), "a later fee replaces it")
        t.transaction_fee = None
        ctx.check(t.miner_fees == [] and ctx.eq(t.transaction_fee.json(), "0"), "no fee")
        t.transaction_fee = 0
        ctx.check(ctx.eq([x.json() for x in t.miner_fees], ["0"]), "a fee of nothing is a fee")
    else:
        t.miner_fee_add(a[0])
        ctx.check(ctx.eq([x.json() for x in t.miner_fees], [a[4]]), "the fee added")
        t.miner_fee_add(b[0])
        ctx.check(ctx.eq([x.json() for x in t.miner_fees], [a[4], b[4]]), "every fee added, in order")
        ctx.check(NEW[v]().miner_fees == [], "of that transaction only")


@case("C48", params=[dict(v=v, n=n) for v in WITH_DATA for n in (0, 1, 3, 83, 84)])
def data(ctx, v, n):
    t = NEW[v]()
    t.data = "earlier"
    raw = ctx.bytes("data", n)
    kind = ctx.choice("kind", ["bytes", "BinaryData", "text"])
    if kind == "text":
        text = ctx.str("text", n)
        wide = ctx.choice("wide", ["", "\xe9", "\u20ac", "\U0001f600"])
        text = (wide + text)[:n]
        value, want = text, text.encode("utf-8")
    else:
        value, want = (raw if kind == "bytes" else BinaryData(value=raw)), raw
    ok, e = ctx.attempt(setattr, t, "data", value)
    fits = len(want) <= 83
    ctx.check(ctx.iff(ok, fits), "up to 83 bytes are accepted")
    ctx.check(ctx.eq(bytes(t.data.value), want if ok else b"earlier"), "the data is what was put in, a refused one changes nothing")
    t.data = None
    ctx.check(ctx.eq(bytes(t.data.value), b""), "assigning nothing clears the data")


@case("C48", params=[dict(v=v, name=n) for v, n in ((128, "mint_condition"), (128, "parent_mint_condition"), (128, "mint_fulfillment"),
                                                     (129, "parent_mint_condition"), (129, "mint_fulfillment"))])
def minting(ctx, v, name):
    t = NEW[v]()
    kind = ctx.choice("kind", [0, 1, 2])
    if name == "mint_fulfillment":
        x = fulfillment(ctx, ["single", "multi2", "swap"][kind], "x")[0]
        nil = FulfillmentSingleSignature
    else:
        x = condition(ctx, ["wallet", "multisig2", "lock_multisig2"][kind], "x")[0]
        nil = ConditionNil
    setattr(t, name, x)
    ctx.check(ctx.eq(getattr(t, name).json(), x.json()), "what was put in")
    for other in ("mint_condition", "parent_mint_condition", "mint_fulfillment"):
        if other != name and hasattr(t, other):
            ctx.check(isinstance(getattr(t, other), FulfillmentSingleSignature if other == "mint_fulfillment" else ConditionNil),
                      "the others are untouched")
    bad = ctx.choice("bad", ["text", 4, b"x"])
    wrong = FulfillmentSingleSignature() if name != "mint_fulfillment" else ConditionNil()
    for y in (bad, wrong):
        ok, e = ctx.attempt(setattr, t, name, y)
        ctx.check(not ok and isinstance(e, TypeError), "nothing of another type")
    ctx.check(ctx.eq(getattr(t, name).json(), x.json()), "a refused assignment changes nothing")
    if name == "mint_fulfillment":
        ctx.check(t.mint_fulfillment_defined(), "the mint fulfillment is defined")
    setattr(t, name, None)
    ctx.check(isinstance(getattr(t, name), nil), "assigning nothing clears it")


@case("C48")
def erc20_created_coins(ctx):
    """The output of an ERC20 coin creation is its value at its address."""
    t = Transactions.erc20_coin_creation_new()
    amount, fee = units(ctx, "v"), units(ctx, "fee", 3)
    uh, text = unlockhash(ctx, "a")[:2]
    t.address, t.value, t.transaction_fee = uh, amount[0], fee[0]
    b, x = ctx.bytes("block", 32), ctx.bytes("txn", 32)
    t.blockid, t.transactionid = ERC20Hash(value=b), ERC20Hash(value=x)
    for _ in range(2):
        ctx.check(len(t.coin_outputs) == 1, "one output")
        o = t.coin_outputs[0]
        ctx.check(ctx.eq(o.value.json(), amount[4]), "of the value")
        ctx.check(isinstance(o.condition, ConditionUnlockHash) and ctx.eq(str(o.condition.unlockhash), str(uh)), "to the address")
    ctx.check(ctx.eq(str(t.blockid), "0x" + b.hex()) and ctx.eq(str(t.transactionid), "0x" + x.hex()), "the ids are kept apart")
    ctx.check(t.coin_inputs == [] and t.blockstake_outputs == [], "nothing is spent")
    t.blockid = None
    ctx.check(ctx.eq(str(t.transactionid), "0x" + x.hex()) and not ctx.eq(str(t.blockid), "0x" + b.hex()) if b != bytes(32) else True,
              "assigning nothing clears it")


@case("C48", params=[dict(v=v) for v in VERSIONS])
def identity(ctx, v):
    """The id, the height and the unconfirmed mark."""
    t = NEW[v]()
    raw = ctx.bytes("id", 32)
    t.id = ctx.choice("kind", [raw, Hash(value=raw), raw.hex()])
    ctx.check(ctx.eq(t.id, raw.hex()), "the id is the one set")
    h = ctx.int("height", -5, 2 ** 40)
    before = t.height
    ok, e = ctx.attempt(setattr, t, "height", h)
    ctx.check(ctx.iff(ok, h >= 0), "a height is not negative")
    ctx.check(t.height == (h if ok else before), "the height is the one set, a refused one changes nothing")
    again = ctx.int("again", 0, 2 ** 40)
    t.height = again
    ctx.check(t.height == again, "a later height replaces it")
    bad = ctx.choice("bad", ["1", True, None, 1.5])
    ok, e = ctx.attempt(setattr, t, "height", bad)
    ctx.check(not ok and isinstance(e, TypeError), "a height is a number")
    t.unconfirmed = True
    ctx.check(t.unconfirmed is True, "unconfirmed when marked")
    t.unconfirmed = False
    ctx.check(t.unconfirmed is False, "and not when unmarked")


@case("C48", params=[dict(v=v, w=w) for v, w in ((1, 1), (1, 128), (144, 144), (209, 209), (210, 145))])
def same_transaction(ctx, v, w):
    """Transactions are the same exactly when their ids are."""
    a, b = NEW[v](), NEW[w]()
    x, y = ctx.bytes("x", 32), ctx.bytes("y", 32)
    a.id, b.id = x, y
    a.height = 4
    if v in WITH_INPUTS:
        a.coin_input_add(bytes(32), FulfillmentSingleSignature())
    ctx.check(ctx.iff(a == b, ctx.eq(x, y)), "transactions are equal exactly when their ids are")
    ctx.check(ctx.iff(a != b, not ctx.eq(x, y)), "and unequal otherwise")
    b.id = x
    ctx.check(a == b, "equal ids")
    for o in (None, 5, "text", x.hex()):
        ok, e = ctx.attempt(lambda: a == o)
        ctx.check(not ok and isinstance(e, TypeError), "only transactions are compared")


SINGLE = [(144, "public_key"), (145, "parent_public_key"), (146, "sender_parent_public_key"), (146, "receiver_parent_public_key"), (210, "public_key")]
SIGS = [(144, "signature"), (145, "signature"), (146, "sender_signature"), (146, "receiver_signature"), (210, "signature")]


@case("C48", params=[dict(v=v, name=n) for v, n in SINGLE])
def keys(ctx, v, name):
    t = NEW[v]()
    pk, raw = pubkey(ctx, "k")
    setattr(t, name, pk)
    ctx.check(ctx.eq(bytes(getattr(t, name).hash.value), raw), "the key put in")
    for w, n in SINGLE:
        if w == v and n != name:
            ctx.check(ctx.eq(bytes(getattr(t, n).hash.value), bytes(32)), "the other one is untouched")
    for bad in ("ed25519:" + "ab" * 32, b"\1" * 32, 5):
        ok, e = ctx.attempt(setattr, t, name, bad)
        ctx.check(not ok and isinstance(e, TypeError), "only a public key")
    ctx.check(ctx.eq(bytes(getattr(t, name).hash.value), raw), "a refused assignment changes nothing")
    setattr(t, name, None)
    ctx.check(ctx.eq(bytes(getattr(t, name).hash.value), bytes(32)), "assigning nothing clears it")


@case("C48", params=[dict(v=v, name=n) for v, n in SIGS])
def signatures(ctx, v, name):
    t = NEW[v]()
    raw = ctx.bytes("sig", 64)
    kind = ctx.choice("kind", ["bytes", "text", "signature", "copied"])
    x = {"bytes": lambda: raw, "text": lambda: raw.hex(), "signature": lambda: ED25519Signature(value=raw),
         "copied": lambda: ED25519Signature(value=raw, as_array=True)}[kind]()
    setattr(t, name, x)
    ctx.check(ctx.eq(bytes(getattr(t, name).value), raw), "the signature put in")
    for w, n in SIGS:
        if w == v and n != name:
            ctx.check(ctx.eq(getattr(t, n).json(), ""), "the other one is untouched")
    setattr(t, name, None)
    ctx.check(ctx.eq(getattr(t, name).json(), ""), "assigning nothing clears it")
