"""C18..C23: transactions."""
from engine.api import case
from tfchain.encoders import rivine_encode, sia_encode
from tfchain.types.ConditionTypes import ConditionNil
from tfchain.types.IO import BlockstakeOutput
from tfchain.types.PrimitiveTypes import Blockstake, Currency
from tfchain.types.CryptoTypes import Hash, PublicKey, PublicKeySpecifier
from tfchain.types.transactions import Transactions
from harness.types import b2, le8, pubkey
from harness.txb import VERSIONS, build

CFG = {
    1: [dict(ni=0, no=0, nf=0, data=0), dict(cond="unlockhash"), dict(ni=2, no=2, nbi=1, nbo=1, nf=2, data=3), dict(ful="multi2", cond="lock_multisig2"),
        dict(ful="swap_secret", cond="atomicswap"), dict(cond="nil", data=0)],
    128: [dict(), dict(nf=0, data=0, cond="multisig2", ful="multi2")],
    129: [dict(), dict(no=2, nf=0, data=0, cond="lock_unlockhash"), dict(no=0, nf=2)],
    144: [dict(), dict(signed=False), dict(ref=False, names=(), addrs=(2,)), dict(ni=2, names=(0, 1, 2), addrs=()), dict(ful="multi1", cond="multisig2")],
    145: [dict(), dict(signed=False, names=(0,)), dict(ref=False, names=(), addrs=()), dict(ni=2, names=(), rnames=(1,), addrs=(), raddrs=(0, 2)),
          dict(names=(0, 2), rnames=(1,), addrs=(1,), raddrs=(0, 2)), dict(names=(1,), rnames=(1,), addrs=(2,), raddrs=(2,), ni=0)],
    146: [dict(), dict(signed=False), dict(ref=False, names=(0, 1, 2), ni=2), dict(names=(), ni=0)],
    208: [dict(), dict(ref=False, ni=2), dict(ni=0, cond="lock_nil")],
    209: [dict()],
    210: [dict(), dict(signed=False), dict(ref=False, ni=2), dict(ful="swap", cond="multisig1")],
}
for _v in (1, 129, 144, 146, 208, 209, 210):
    for _a in (0, 8):  # amounts of nothing and of billions
        CFG[_v].append(dict(amt=_a, **(dict(nbo=1, no=2) if _v == 1 else {})))
FEW = {v: len(CFG[v]) for v in CFG}
CFG[1] += [dict(ni=3, no=4, nbi=3, nbo=3, nf=3, data=1), dict(ni=5, no=17, nf=5, nbi=4, nbo=5, ful="multi3", cond="multisig3"),
           dict(ni=64, no=63, nbo=64, nbi=65, nf=17, data=83), dict(ni=128, no=129, nbi=1, nbo=0, nf=64, cond="multisig4")]
CFG[128] += [dict(nf=3, ful="multi3", cond="multisig3", data=83), dict(nf=65, ful="multi5", cond="multisig5")]
CFG[129] += [dict(no=3, nf=3, data=83), dict(no=65, nf=4, cond="multisig4"), dict(no=128)]
CFG[144] += [dict(ni=3, names=(2, 1, 0), addrs=(5, 4, 3)), dict(ni=5, names=(4, 3, 2, 1, 0), addrs=tuple(range(10))),
             dict(ni=64, names=(0, 1, 2, 3), addrs=(6, 0, 1, 2)), dict(ni=128, names=(4,), addrs=tuple(range(9)))]
CFG[145] += [dict(ni=3, names=(0, 1, 2, 3, 4), rnames=(5, 6, 7, 8, 9), addrs=(0, 1, 2, 3, 4), raddrs=(5, 6, 7, 8, 9)),
             dict(ni=5, names=(), rnames=(0, 2, 4), addrs=tuple(range(10)), raddrs=tuple(range(9, -1, -1))),
             dict(ni=64, names=(3,), rnames=(), addrs=(), raddrs=tuple(range(8))), dict(ni=128, rnames=(9,), addrs=(), raddrs=())]
CFG[146] += [dict(ni=3, names=(0, 1, 2, 3)), dict(ni=64, names=(4, 3, 2, 1, 0)), dict(ni=128, ref=False, names=(4, 0))]
CFG[208] += [dict(ni=3), dict(ni=5, ful="multi3", cond="multisig3"), dict(ni=64), dict(ni=128, ref=False)]
CFG[210] += [dict(ni=3), dict(ni=5, ful="multi3", cond="multisig3"), dict(ni=64), dict(ni=129, ref=False)]
ALL = [dict(v=v, c=i) for v in VERSIONS for i in range(len(CFG[v]))]


def some(n):
    return range(n) if n < 5 else (0, n // 2, n - 1)


@case("C18", params=ALL)
def json_round_trip(ctx, v, c):
    b = build(ctx, v, **CFG[v][c])
    ctx.check(ctx.eq(b.txn.json(), b.json), "the JSON form of the transaction")
    t = Transactions.from_json(b.txn.json())
    ctx.check(t._extra_is_fulfilled() == b.txn._extra_is_fulfilled(), "unsigned stays unsigned and signed stays signed")
    ctx.check(type(t) is type(b.txn), "the version survives JSON")
    ctx.check(ctx.eq(t.json(), b.json), "JSON survives JSON")
    ctx.check(ctx.eq(t.binary_encode(), b.txn.binary_encode()), "the binary form survives JSON")
    ctx.check(ctx.eq(t.signature_hash_get(3), b.txn.signature_hash_get(3)), "the signature hash survives JSON")
    for i in some(b.outs):
        ctx.check(ctx.eq(str(t.coin_outputid_new(i)), str(b.txn.coin_outputid_new(i))), "output ids survive JSON")
    ctx.observe("json", t.json())


@case("C18", params=[dict(v=v, c=c) for v, c in ((1, 2), (128, 0), (129, 1), (144, 3), (145, 4), (146, 2), (208, 1), (210, 2))])
def absent_lists(ctx, v, c):
    """A list that is missing, null or empty is the same, and concerns no other part."""
    b = build(ctx, v, **CFG[v][c])
    o = b.txn.json()
    places = [(k,) for k, x in o["data"].items() if isinstance(x, list)] + \
             [(k, m) for k in ("addresses", "names") for m in ("add", "remove") if isinstance(o["data"].get(k), dict) and m in o["data"][k]]
    for place in places:
        got = []
        for form in ("missing", None, []):
            j = dict(o, data=dict(o["data"]))
            at = j["data"]
            for k in place[:-1]:
                at[k] = dict(at[k])
                at = at[k]
            at[place[-1]] = form
            if form == "missing":
                del at[place[-1]]
            got.append((j, Transactions.from_json(j)))
        want = got[0][0]["data"]
        for j, t in got:
            ctx.check(ctx.eq(t.binary_encode(), got[0][1].binary_encode()), "a missing, null or empty list is the same")
            new = t.json()["data"]
            for k in want:
                if len(place) == 1 or k != place[0]:
                    ctx.check(ctx.eq(new[k], want[k]), "an absent list concerns no other part")
                else:
                    for m in want[k]:
                        ctx.check(ctx.eq(new[k][m], want[k][m]), "an absent list concerns no other part")
            ctx.check(place[-1] not in new or not new[place[-1]] or len(place) == 2, "an absent list is empty")


@case("C19", params=ALL)
def binary_layout(ctx, v, c):
    b = build(ctx, v, **CFG[v][c])
    ctx.check(ctx.eq(b.txn.binary_encode(), b.bin), "the binary form is the version's layout")
    for i in some(b.outs):
        ctx.check(ctx.eq(str(b.txn.coin_outputid_new(i)), b2(b"coin output\0\0\0\0\0" + b.idin + le8(i)).hex()),
                  "a coin output id is the hash of specifier, transaction and index")
    for i in some(b.bouts):
        ctx.check(ctx.eq(str(b.txn.blockstake_outputid_new(i)), b2(b"blstake output\0\0" + b.idin + le8(i)).hex()),
                  "a block stake output id is the hash of specifier, transaction and index")
    for i in (-1, b.outs):
        ok, _ = ctx.attempt(b.txn.coin_outputid_new, i)
        ctx.check(not ok, "there is no id for an output that does not exist")
    for i in (-1, b.bouts):
        ok, _ = ctx.attempt(b.txn.blockstake_outputid_new, i)
        ctx.check(not ok, "there is no id for an output that does not exist")


@case("C19")
def many_outputs(ctx):
    """Output ids of outputs beyond those one byte can number."""
    t = Transactions.new()
    for k in range(300):
        t.coin_output_add(Currency(value=1), ConditionNil())
    t.blockstake_outputs = [BlockstakeOutput(value=Blockstake(value=1), condition=ConditionNil()) for _ in range(3)]
    raw = bytes(t.binary_encode())
    i = ctx.choice("i", [0, 127, 128, 255, 256, 257, 299])
    ctx.check(ctx.eq(str(t.coin_outputid_new(i)), b2(b"coin output\0\0\0\0\0" + raw + le8(i)).hex()),
              "a coin output id is the hash of specifier, transaction and index")
    ok, e = ctx.attempt(t.coin_outputid_new, 300)
    ctx.check(not ok, "there is no id for an output that does not exist")


@case("C20", params=ALL)
def signature_hash(ctx, v, c):
    b = build(ctx, v, **CFG[v][c])
    enc = sia_encode if v in (1, 128, 129, 209) else rivine_encode
    i = ctx.int("index", 0, 2 ** 32)
    pk, raw = pubkey(ctx, "extra")
    ctx.check(ctx.eq(bytes(b.txn.signature_hash_get(i)), b2(b.sig(le8(i)))), "the hash covers the fields and the input index")
    ctx.check(ctx.eq(bytes(b.txn.signature_hash_get(i, pk)), b2(b.sig(le8(i) + enc(pk)))), "the hash covers the signing key")
    ctx.check(ctx.eq(bytes(b.txn.signature_hash_get()), b2(b.sig(b""))), "the hash covers the fields")


# ------------------------------------------------------------------------------------------------- C21
from tfchain.errors import UnknownTransansactionVersion  # noqa: E402
from harness.txb import b64, cat, cin, cout, units  # noqa: E402
from harness.types import address, unlockhash  # noqa: E402

KNOWN = [0] + VERSIONS
EMPTY = {145: {"id": 1}, 210: {"pubkey": "ed25519:" + "ab" * 32, "signature": ""},
         128: {"mintcondition": {}, "mintfulfillment": {"type": 1, "data": {"publickey": "ed25519:" + "ab" * 32, "signature": ""}}},
         129: {"mintfulfillment": {"type": 1, "data": {"publickey": "ed25519:" + "ab" * 32, "signature": ""}}}}


@case("C21", params=[dict(form=f) for f in ("dict", "text", "bytes", "bytearray")])
def version_dispatch(ctx, form):
    v = ctx.int("v", -2, 300)
    for known in KNOWN:
        if v == known:
            o = {"version": known, "data": EMPTY.get(known, {})}
            import json
            text = json.dumps(o)
            t = Transactions.from_json({"dict": o, "text": text, "bytes": text.encode(), "bytearray": bytearray(text.encode())}[form])
            ctx.check(t.version == (known or 1), "a transaction is read as its version")
            ctx.reach("known")
            return
    ok, e = ctx.attempt(Transactions.from_json, {"version": v, "data": {}})
    ctx.check(not ok, "unknown versions are rejected")
    ctx.check(isinstance(e, UnknownTransansactionVersion), "unknown versions raise UnknownTransansactionVersion")


@case("C21")
def no_transaction(ctx):
    """Versions that are no numbers, and JSON that is no object."""
    n = ctx.int("n", 0, 255)
    text = ctx.str("text", 3)
    for v in (None, "", text, [], {}, str(n), [n]):
        ok, e = ctx.attempt(Transactions.from_json, {"version": v, "data": {}})
        ctx.check(not ok and isinstance(e, UnknownTransansactionVersion), "a version is a number")
    for o in (None, n, [], [{"version": 1, "data": {}}], "[]", "5", "null"):
        ok, e = ctx.attempt(Transactions.from_json, o)
        ctx.check(not ok and isinstance(e, TypeError), "a transaction is an object")


@case("C21", params=[dict(v=v) for v in KNOWN])
def identifier(ctx, v):
    """The identifier given along is the transaction's, in either form."""
    raw = ctx.bytes("id", 32)
    o = {"version": v, "data": EMPTY.get(v, {})}
    for i in (raw.hex(), raw, Hash(value=raw)):
        ctx.check(ctx.eq(str(Transactions.from_json(o, id=i).id), raw.hex()), "a transaction has the id it was given")
    ctx.check(ctx.eq(Transactions.from_json(o).id, Transactions.from_json(o, id=None).id), "without an id there is none")
    ok, _ = ctx.attempt(lambda: Transactions.from_json(o, id=raw[1:]))
    ctx.check(not ok, "an id has 32 bytes")


@case("C21", params=[dict(v=v) for v in VERSIONS])
def wrong_version_is_rejected(ctx, v):
    w = ctx.int("w", -300, 300)
    cls = type(build(ctx, v, **CFG[v][0]).txn)
    ok, t = ctx.attempt(cls.from_json, {"version": w, "data": EMPTY.get(v, {})})
    ctx.check(ctx.iff(ok, w == v), "a transaction class reads only its own version")
    ok, t = ctx.attempt(cls.from_json, {"data": EMPTY.get(v, {})})
    ctx.check(not ok, "a transaction class does not read a transaction without a version")
    ok, e = ctx.attempt(Transactions.from_json, {"data": EMPTY.get(v, {})})
    ctx.check(not ok and isinstance(e, UnknownTransansactionVersion), "a transaction without a version is unknown")
    if v == 1:
        for o in ({"version": w, "data": {}}, {"data": {}}, {"version": 0}):
            ok, t = ctx.attempt(cls.legacy_from_json, o)
            ctx.check(ctx.iff(ok, ctx.all(["data" in o, "version" in o, o.get("version") == 0])), "a legacy transaction is one of version 0 with data")


def legacy(ctx, ni, no, nbi, nbo, nf, data, absent="missing"):
    def inp(p):
        i = cin(ctx, p)
        return i, {"parentid": i[4]["parentid"], "unlocker": {
            "type": 1, "condition": {"publickey": i[4]["fulfillment"]["data"]["publickey"]},
            "fulfillment": {"signature": i[4]["fulfillment"]["data"]["signature"]}}}

    def out(p, n):
        v = units(ctx, p + "v", n)
        u, raw = unlockhash(ctx, p + "u")
        return v, raw, {"value": v[4], "unlockhash": address(1, raw)}
    ins, bins = [inp("i%d" % k) for k in range(ni)], [inp("bi%d" % k) for k in range(nbi)]
    outs, bouts = [out("o%d" % k, 3) for k in range(no)], [out("bo%d" % k, 2) for k in range(nbo)]
    fees = [units(ctx, "f%d" % k, 2) for k in range(nf)]
    d = ctx.bytes("data", data)
    o = {"coininputs": [x[1] for x in ins], "coinoutputs": [x[2] for x in outs], "minerfees": [f[4] for f in fees],
         "blockstakeinputs": [x[1] for x in bins], "blockstakeoutputs": [x[2] for x in bouts], "arbitrarydata": b64(ctx, d) if data else ""}
    for k in [k for k in o if not o[k]]:
        if absent == "missing":
            del o[k]
        elif absent == "null":
            o[k] = None
    tail = le8(nf) + cat(f[2] for f in fees) + le8(data) + d

    def ib(x):  # parent, 1, key slice, signature slice
        f = x[0][1]
        k = sia_encode(f.public_key)
        return x[0][5] + b"\x01" + le8(len(k)) + k + le8(64) + bytes(f.signature.value)

    def ob(x):
        return x[0][2] + b"\x01" + x[1]

    def isig(x):
        return x[0][5] + b"\x01" + b2(le8(56) + sia_encode(x[0][1].public_key))
    body = (le8(ni) + cat(ib(x) for x in ins) + le8(no) + cat(ob(x) for x in outs) + le8(nbi) + cat(ib(x) for x in bins) + le8(nbo)
            + cat(ob(x) for x in bouts) + tail)

    def sig(extra):
        return (extra + cat(isig(x) for x in ins) + le8(no) + cat(ob(x) for x in outs) + cat(isig(x) for x in bins) + le8(nbo)
                + cat(ob(x) for x in bouts) + tail)
    v1 = {}
    for k, v in (("coininputs", [x[0][4] for x in ins]), ("blockstakeinputs", [x[0][4] for x in bins]),
                 ("coinoutputs", [{"value": x[2]["value"], "condition": {"type": 1, "data": {"unlockhash": x[2]["unlockhash"]}}}
                                  for x in outs]),
                 ("blockstakeoutputs", [{"value": x[2]["value"], "condition": {"type": 1, "data": {"unlockhash": x[2]["unlockhash"]}}}
                                        for x in bouts]),
                 ("minerfees", o.get("minerfees")), ("arbitrarydata", o.get("arbitrarydata"))):
        if v:
            v1[k] = v
    return {"version": 0, "data": o}, b"\x00" + body, sig, v1


LEGACY = [dict(ni=1, no=1, nbi=0, nbo=0, nf=1, data=2), dict(ni=2, no=1, nbi=0, nbo=0, nf=0, data=0),
          dict(ni=1, no=2, nbi=1, nbo=1, nf=1, data=3), dict(ni=0, no=0, nbi=0, nbo=0, nf=0, data=0), dict(ni=0, no=0, nbi=2, nbo=2, nf=0, data=0)]

for _p in ("ni", "no", "nbi", "nbo", "nf", "data"):  # one part alone, the others absent
    for _a in ("missing", "null", "empty"):
        LEGACY.append(dict(dict(ni=0, no=0, nbi=0, nbo=0, nf=0, data=0), absent=_a, **{}) | {_p: 2})


@case("C19", params=LEGACY)
@case("C21", params=LEGACY)
def legacy_layout(ctx, ni, no, nbi, nbo, nf, data, absent="missing"):
    j, want, sig, v1 = legacy(ctx, ni, no, nbi, nbo, nf, data, absent)
    t = Transactions.from_json(j)
    ctx.check(ctx.eq(t.binary_encode(), want), "a legacy transaction keeps its own binary form")
    for k in range(no):
        ctx.check(ctx.eq(str(t.coin_outputid_new(k)), b2(b"coin output\0\0\0\0" + want + le8(k)).hex()), "legacy coin output ids")
    for k in range(nbo):
        ctx.check(ctx.eq(str(t.blockstake_outputid_new(k)), b2(b"blstake output\0" + want + le8(k)).hex()),
                  "legacy block stake output ids")
    for f, n in ((t.coin_outputid_new, no), (t.blockstake_outputid_new, nbo)):
        for k in (-1, n):
            ok, _ = ctx.attempt(f, k)
            ctx.check(not ok, "there is no id for an output that does not exist")
    ctx.check(ctx.eq(t.json(), {"version": 1, "data": v1} if v1 else {"version": 1}), "a legacy transaction is written as version 1")


@case("C20", params=LEGACY)
@case("C21", params=LEGACY)
def legacy_signature_hash(ctx, ni, no, nbi, nbo, nf, data, absent="missing"):
    j, want, sig, v1 = legacy(ctx, ni, no, nbi, nbo, nf, data, absent)
    t = Transactions.from_json(j)
    i = ctx.int("index", 0, 2 ** 32)
    pk, raw = pubkey(ctx, "extra")
    ctx.check(ctx.eq(bytes(t.signature_hash_get(i)), b2(sig(le8(i)))), "a legacy transaction keeps its own signature hash")
    ctx.check(ctx.eq(bytes(t.signature_hash_get(i, pk)), b2(sig(le8(i) + sia_encode(pk)))), "the hash covers the signing key")


# ------------------------------------------------------------------------------------------------- C22
@case("C22", params=[dict(v=v, k=k) for v in (1, 128, 129) for k in ("bytes", "str")])
def data_limit(ctx, v, k):
    """Arbitrary data of every length: at most 83 bytes, kept exactly."""
    t = {1: Transactions.new, 128: Transactions.mint_definition_new, 129: Transactions.mint_coin_creation_new}[v]()
    t.data = b"old"
    if k == "bytes":
        d = ctx.blob("d", 0, 400)
        n = len(d)
    else:
        d = ctx.blobstr("d", 0, 200)
        n = len(d.encode("utf-8"))
    def assign():
        t.data = d
    ok, e = ctx.attempt(assign)
    ctx.check(ctx.iff(ok, n <= 83), "at most 83 bytes of data are accepted")
    if ok:
        ctx.check(len(t.data.value) == n, "the data is kept")
        if k == "bytes":
            ctx.check(ctx.eq(t.data.value, d), "the data is kept")
        else:
            ctx.check(ctx.eq(t.data.value, d.encode("utf-8")), "the data is kept")
    else:
        ctx.check(isinstance(e, ValueError), "too much data is a ValueError")
        ctx.check(ctx.eq(t.data.value, b"old"), "rejected data changes nothing")


@case("C22", params=[dict(v=v, n=n) for v in (1, 128, 129) for n in (0, 1, 2, 3, 83)])
def data_in_json(ctx, v, n):
    t = {1: Transactions.new, 128: Transactions.mint_definition_new, 129: Transactions.mint_coin_creation_new}[v]()
    if v != 1:
        t.mint_fulfillment = cin(ctx, "f")[1]
    d = ctx.bytes("d", n)
    t.data = d
    j = t.json()
    got = j.get("data", {}).get("arbitrarydata", "")
    ctx.check(ctx.eq(got, b64(ctx, d) if n else ""), "the data is base64 in JSON")
    ctx.check(ctx.eq(Transactions.from_json(j).data.value, d), "the data survives JSON")
    t.data = None
    ctx.check(len(t.data.value) == 0, "the data can be removed")


# ------------------------------------------------------------------------------------------------- C23
from tfchain.types.PrimitiveTypes import Currency  # noqa: E402
from tfchain.types.transactions.ThreeBot import BotMonthsAndFlagsData, BotTransactionBaseClass  # noqa: E402

TFT = 10 ** 9
BOTNAMES = ["aaaaa", "bbbbb", "ccccc", "ddddd", "eeeee", "fffff"]
BOTADDRS = ["example%d.org" % i for i in range(11)]


def monthly(ctx, n):
    """Monthly fees in smallest units: 10 TFT a month, 30% off from 12 and 50% off from 24 months."""
    return ctx.ite(n < 12, n * 10 * TFT, ctx.ite(n < 24, n * 7 * TFT, n * 5 * TFT))


@case("C23")
def monthly_fees(ctx):
    n = ctx.int("n", 0, 100)
    f = BotTransactionBaseClass.compute_monthly_bot_fees(n)
    ctx.check(int(f) == monthly(ctx, n), "monthly fees with their discounts")
    ctx.check(int(BotTransactionBaseClass.compute_monthly_bot_fees(1)) == 10 * TFT, "computing fees leaves the constants alone")


@case("C23")
def registration_fees(ctx):
    t = Transactions.threebot_registration_new()
    n = ctx.int("n", 1, 24)
    t.number_of_months = n
    k = ctx.choice("names", [0, 1, 2, 5])
    t.names = BOTNAMES[:k]
    t.addresses = BOTADDRS[:ctx.choice("addrs", [0, 1, 10])]
    for _ in range(2):
        ctx.check(int(t.required_bot_fees) == 90 * TFT + monthly(ctx, n) + 50 * TFT * max(k - 1, 0),
                  "registration, months and each name after the first are paid")


@case("C23")
def update_fees(ctx):
    t = Transactions.threebot_record_update_new()
    n = ctx.int("n", 0, 24)
    t.number_of_months = n
    k = ctx.choice("names", [0, 1, 5])
    t.names_to_add = BOTNAMES[:k]
    t.names_to_remove = BOTNAMES[:ctx.choice("rnames", [0, 1])]
    a, r = ctx.choice("addrs", [0, 1, 2]), ctx.choice("raddrs", [0, 1])
    t.addresses_to_add, t.addresses_to_remove = BOTADDRS[:a], BOTADDRS[:r]
    for _ in range(2):
        ctx.check(int(t.required_bot_fees) == monthly(ctx, n) + 50 * TFT * k + (20 * TFT if a or r else 0),
                  "months, each added name and an address change are paid")


@case("C23")
def transfer_fees(ctx):
    t = Transactions.threebot_name_transfer_new()
    k = ctx.choice("names", [0, 1, 2, 5])
    t.names = ["wrong.names"]
    t.names = BOTNAMES[:k]
    for _ in range(2):
        ctx.check(int(t.required_bot_fees) == 50 * TFT * k, "each transferred name is paid")
    ctx.check([str(x) for x in t.names] == BOTNAMES[:k], "exactly the given names are transferred")


@case("C23")
def months_range(ctx):
    n = ctx.int("n", -40, 300)
    for t, lo in ((Transactions.threebot_registration_new(), 1), (Transactions.threebot_record_update_new(), 0)):
        def assign():
            t.number_of_months = n
        ok, e = ctx.attempt(assign)
        ctx.check(ctx.iff(ok, ctx.all([n >= lo, n <= 24])), "a number of months up to 24 is accepted")
        ctx.check(t.number_of_months == (n if ok else 0), "a rejected number of months changes nothing")
    ok, e = ctx.attempt(BotMonthsAndFlagsData, n, True, False, True)
    ctx.check(ctx.iff(ok, ctx.all([n >= 0, n <= 24])), "a flags byte holds up to 24 months")


@case("C23")
def months_and_flags_byte(ctx):
    n = ctx.int("n", 0, 24)
    a, b, c = ctx.choice("a", [True, False]), ctx.choice("b", [True, False]), ctx.choice("c", [True, False])
    d = BotMonthsAndFlagsData(n, a, b, c)
    for f in (rivine_encode, sia_encode):
        ctx.check(ctx.eq(f(d), bytes([n + 32 * a + 64 * b + 128 * c])), "months in the low five bits, flags above")


@case("C23")
def bot_ids(ctx):
    n = ctx.int("n", -5, 2 ** 33)
    u, x = Transactions.threebot_record_update_new(), Transactions.threebot_name_transfer_new()
    for t, a in ((u, "botid"), (x, "sender_botid"), (x, "receiver_botid")):
        ok, e = ctx.attempt(setattr, t, a, n)
        ctx.check(ctx.iff(ok, n >= 1), "a bot id is at least 1")
        ctx.check(getattr(t, a) == (n if ok else 0), "a bot id is kept, a rejected one changes nothing")


@case("C23", params=[dict(k=k) for k in ("reg_names", "reg_addrs", "add_names", "rem_names", "add_addrs", "rem_addrs", "tr_names")])
def limits(ctx, k):
    t = {"reg": Transactions.threebot_registration_new, "add": Transactions.threebot_record_update_new,
         "rem": Transactions.threebot_record_update_new, "tr": Transactions.threebot_name_transfer_new}[k.split("_")[0]]()
    add, get = {"reg_names": (t.name_add, lambda: t.names) if k == "reg_names" else None,
                "tr_names": (t.name_add, lambda: t.names) if k == "tr_names" else None,
                "reg_addrs": (t.address_add, lambda: t.addresses) if k == "reg_addrs" else None,
                "add_names": (t.name_add, lambda: t.names_to_add) if k == "add_names" else None,
                "rem_names": (t.name_remove, lambda: t.names_to_remove) if k == "rem_names" else None,
                "add_addrs": (t.address_add, lambda: t.addresses_to_add) if k == "add_addrs" else None,
                "rem_addrs": (t.address_remove, lambda: t.addresses_to_remove) if k == "rem_addrs" else None}[k]
    pool, top = (BOTNAMES, 5) if k.endswith("names") else (BOTADDRS, 10)
    n = ctx.choice("n", list(range(top + 2)))
    for i in range(n):
        ok, _ = ctx.attempt(add, pool[i])
        ctx.check(ok == (i < top), "at most 5 names and 10 addresses")
    ctx.check([str(x) for x in get()] == pool[:min(n, top)], "exactly the accepted ones are kept in order")


@case("C23")
def erc20_registration_fee(ctx):
    t = Transactions.erc20_address_registration_new()
    ctx.check(int(t.registration_fee) == 10 * TFT, "an ERC20 address registration costs 10 TFT")
    n = ctx.int("n", 0, 30)
    ok, _ = ctx.attempt(setattr, t, "registration_fee", n)
    ctx.check(ctx.iff(ok, n == 10), "the registration fee is fixed")
    ctx.check(int(t.registration_fee) == 10 * TFT, "the registration fee is fixed")


# ------------------------------------------------------------------------------------------------- changed transactions (C19, C20)
from harness.txb import Fixed  # noqa: E402
from tfchain.types.ConditionTypes import ConditionMultiSignature, ConditionUnlockHash, UnlockHash, UnlockHashType  # noqa: E402
from tfchain.types.FulfillmentTypes import FulfillmentSingleSignature  # noqa: E402
from tfchain.types.IO import CoinInput, CoinOutput  # noqa: E402


def changes(ctx, t):
    """The ways to change this transaction: name -> function."""
    raw = b"\xee\xee\x01" + ctx.bytes("new", 29)  # none of the fixed values
    n = ctx.int("amount", 2 ** 40, 2 ** 40 + 255)
    uh = UnlockHash(type=UnlockHashType.PUBLIC_KEY, hash=raw)
    key = PublicKey(specifier=PublicKeySpecifier.ED25519, hash=b"\xee\xee\x02" + ctx.bytes("key", 29))
    sig = b"\xee\xee\x03" + ctx.bytes("signature", 61)
    r = {}

    def fields(*names):
        for name in names:
            if isinstance(getattr(type(t), name, None), property) and getattr(type(t), name).fset is not None:
                yield name
    for f in fields("coin_inputs", "blockstake_inputs"):
        def there(f=f):
            getattr(t, f)[-1].parentid = raw

        def signed(f=f):
            getattr(t, f)[0].fulfillment = FulfillmentSingleSignature(pub_key=key, signature=sig)

        def fewer(f=f):
            setattr(t, f, getattr(t, f)[:-1])

        def more(f=f):
            setattr(t, f, getattr(t, f) + [type(getattr(t, f)[0])(parentid=raw, fulfillment=FulfillmentSingleSignature())])
        if getattr(t, f):
            r.update({f + " parent": there, f + " signed": signed, f + " fewer": fewer, f + " more": more})
    for f in fields("coin_outputs", "blockstake_outputs"):
        def worth(f=f):
            getattr(t, f)[0].value = Currency.from_json(str(n)) if f[0] == "c" else Blockstake(value=n)

        def owned(f=f):
            getattr(t, f)[-1].condition = ConditionUnlockHash(unlockhash=uh)

        def inside(f=f):
            c = getattr(t, f)[0].condition
            if isinstance(c, ConditionUnlockHash):
                c.unlockhash = uh
            elif isinstance(c, ConditionMultiSignature):
                c.required_signatures = 77
            else:
                ctx.reach("other condition")

        def fewer(f=f):
            setattr(t, f, getattr(t, f)[:-1])

        def more(f=f):
            o = type(getattr(t, f)[0])(value=Currency.from_json(str(n)) if f[0] == "c" else Blockstake(value=n), condition=ConditionUnlockHash(unlockhash=uh))
            setattr(t, f, getattr(t, f) + [o])
        if getattr(t, f):
            r.update({f + " value": worth, f + " condition": owned, f + " owner": inside, f + " fewer": fewer})
            if t.version in (1, 129):
                r[f + " more"] = more
    if hasattr(t, "miner_fee_add"):
        r["fee"] = lambda: t.miner_fee_add(Currency.from_json(str(n)))
    for f in fields("transaction_fee"):
        r[f] = lambda f=f: setattr(t, f, Currency.from_json(str(n)))
    for f in fields("data"):
        r[f] = lambda: setattr(t, "data", raw)
    if t.version in (144, 145):
        r["months"] = lambda: setattr(t, "number_of_months", 23 if t.number_of_months != 23 else 22)
    for f in fields("botid", "sender_botid", "receiver_botid"):
        r[f] = lambda f=f: setattr(t, f, 4711)
    for f in fields("names", "names_to_add", "names_to_remove"):
        r[f] = lambda f=f: setattr(t, f, ["changedname"] + [str(x.value) for x in getattr(t, f)])
    for f in fields("addresses", "addresses_to_add", "addresses_to_remove"):
        r[f] = lambda f=f: setattr(t, f, ["changed.example.org"])
    for f in fields("public_key"):
        r[f] = lambda: setattr(t, "public_key", key)
    for f in fields("signature", "sender_signature", "receiver_signature"):
        r[f] = lambda f=f: setattr(t, f, sig)
    for f in fields("mint_condition"):
        r[f] = lambda: setattr(t, "mint_condition", ConditionUnlockHash(unlockhash=uh))
    for f in fields("mint_fulfillment"):
        r[f] = lambda: setattr(t, "mint_fulfillment", FulfillmentSingleSignature(pub_key=key, signature=sig))
    if t.version in (208, 209):
        r["value"] = lambda: setattr(t, "value", Currency.from_json(str(n)))
        r["address"] = lambda: setattr(t, "address", raw[:20] if t.version == 208 else uh)
    for f in fields("blockid", "transactionid"):
        r[f] = lambda f=f: setattr(t, f, raw)
    return r


CHANGED = [(1, 2), (1, 4), (128, 1), (129, 1), (144, 0), (145, 4), (146, 0), (208, 1), (209, 0), (210, 2)]


def change(ctx, v, c, ask):
    """A changed transaction, which was asked about before, and a new one like it."""
    t = build(Fixed(ctx), v, **CFG[v][c]).txn
    before = t.json()
    ask(t)
    r = changes(ctx, t)
    name = ctx.choice("change", sorted(r))
    r[name]()
    ctx.check(name.endswith("owner") or not ctx.eq(t.json(), before), "a change of the transaction is in its JSON form", name)
    new = Transactions.from_json(t.json())
    ctx.check(type(new) is type(t), "the version survives JSON")
    return t, new


@case("C19", params=[dict(v=v, c=c) for v, c in CHANGED])
def changed_binary(ctx, v, c):
    """A transaction that is changed after its binary form and ids were asked for has those of the changed one."""
    def ids(x):
        return [bytes(x.binary_encode())] + [str(x.coin_outputid_new(i)) for i in range(len(x.coin_outputs))] + \
               [str(x.blockstake_outputid_new(i)) for i in range(len(x.blockstake_outputs))]
    t, new = change(ctx, v, c, ids)
    ctx.check(ctx.eq(ids(t), ids(new)), "the binary form and ids are those of the current parts")


@case("C20", params=[dict(v=v, c=c) for v, c in CHANGED])
def changed_signature_hash(ctx, v, c):
    """A transaction that is changed after its signature hash was asked for has that of the changed one."""
    pk = pubkey(Fixed(ctx), "extra")[0]

    def hashes(x):
        return [bytes(x.signature_hash_get(*a)) for a in ((), (0,), (1,), (0, pk))]
    t, new = change(ctx, v, c, hashes)
    ctx.check(ctx.eq(hashes(t), hashes(new)), "the hash is that of the current parts")
