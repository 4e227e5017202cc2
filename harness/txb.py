"""Builds transactions of every version through the public API, next to reference JSON, layouts and signature hash inputs."""
import base64
from tfchain.encoders import rivine_encode, sia_encode
from tfchain.types import ConditionTypes
from tfchain.types.ConditionTypes import ConditionUnlockHash
from tfchain.types.CryptoTypes import PublicKey
from tfchain.types.FulfillmentTypes import ED25519Signature, FulfillmentSingleSignature
from tfchain.types.IO import CoinInput, CoinOutput
from tfchain.types.PrimitiveTypes import BinaryData, Blockstake, Currency, Hash
from tfchain.types.ERC20 import ERC20Address, ERC20Hash
from tfchain.types.transactions import Transactions
from harness.types import TYPES, address, b2, le8, pubkey, rlen, unlockhash
from harness.types2 import condition, fulfillment

VERSIONS = [1, 128, 129, 144, 145, 146, 208, 209, 210]
SPEC = {128: b"minter defin tx\0", 129: b"coin mint tx\0\0\0\0", 144: b"bot register tx\0", 145: b"bot recupdate tx",
        146: b"bot nametrans tx", 208: b"erc20 convert tx", 209: b"erc20 coingen tx", 210: b"erc20 addrreg tx"}
NAMES = ["aaaaa", "threefold.token", "Trading-1.botzone", "a-much-longer.name-of-a-bot.with-four.labels-in-it", "x" * 63,
         "other", "thebot.sixth", "seventh-bot", "eighth", "ninthbot"]
ADDRS = [("example.org", b"\x2cexample.org"), ("91.198.174.192", b"\x11\x5b\xc6\xae\xc0"),
         ("2001:db8:85a3::8a2e:370:7334", b"\x42" + bytes.fromhex("20010db885a3000000008a2e03707334")),
         ("0.0.0.0", b"\x11" + bytes(4)), ("::1", b"\x42" + bytes(15) + b"\x01"), ("an.example.com", b"\x38an.example.com"),
         ("h" * 59 + ".org", b"\xfc" + b"h" * 59 + b".org"), ("255.255.255.255", b"\x11" + b"\xff" * 4),
         ("mail.example.org", b"\x40mail.example.org"), ("fe80::1:2", b"\x42\xfe\x80" + bytes(11) + b"\x01\x00\x02"),
         ("host9.example.com", b"\x44host9.example.com"), ("10.0.0.1", b"\x11\n\0\0\x01")]


class B:
    """A built transaction and what it should look like."""

    def __init__(self, version):
        self.version, self.txn, self.json, self.bin, self.idin = version, None, None, b"", b""
        self.sig = None  # extra encodings -> signature hash input
        self.outs = 0
        self.bouts = 0


class Fixed:
    """Stands in for the context of the middle elements of long lists: every value is one fixed value."""

    def __init__(self, ctx):
        self.ctx = ctx

    def int(self, name, lo, hi):
        return lo + int.from_bytes(b2(name.encode()), "big") % (hi - lo + 1)

    def bytes(self, name, n):
        return (b2(name.encode()) * (n // 32 + 1))[:n]

    def __getattr__(self, name):
        return getattr(self.ctx, name)


class Narrow(Fixed):
    """Stands in for the context of the outer elements of long lists: amounts of one number of digits and of bits left over."""

    def __init__(self, ctx, top):
        Fixed.__init__(self, ctx)
        self.top = top

    def int(self, name, lo, hi):
        if lo < 256:
            return self.ctx.int(name, lo, hi)
        if self.top:
            return self.ctx.int(name, max(hi // 2 + 1, 10 ** (len(str(hi)) - 1)), hi)
        return self.ctx.int(name, max(lo, 10 ** (len(str(hi // 2)) - 1)), hi // 2)

    def bytes(self, name, n):
        return self.ctx.bytes(name, n)


def at(ctx, k, n):
    return ctx if n < 3 else Narrow(ctx, k == 0) if k in (0, n - 1) else Fixed(ctx)


AMT = [None]  # the significant bytes of all amounts, if not the usual ones


def units(ctx, name, nbytes=4):
    """An amount of nbytes significant bytes: (Currency, int, siabin, rivbin, JSON)"""
    if AMT[0] is not None:
        nbytes = AMT[0]
    v = ctx.int(name, 256 ** (nbytes - 1), 256 ** nbytes - 1) if nbytes else 0
    be = v.to_bytes(nbytes, "big")
    return Currency.from_json(str(v)), v, le8(nbytes) + be, rlen(nbytes) + be, str(v)


def cin(ctx, p, ful="single"):
    """(parentid, fulfillment, siabin, rivbin, JSON, raw parentid)"""
    raw = ctx.bytes(p + "id", 32)
    f, s, r, t, j = fulfillment(ctx, ful, p)
    return (Hash(value=raw), f, raw + bytes([t]) + le8(len(s)) + s, raw + bytes([t]) + rlen(len(r)) + r,
            {"parentid": raw.hex(), "fulfillment": j}, raw)


def cout(ctx, p, cond="wallet", stake=False, nbytes=4):
    """(value, condition, siabin, rivbin, JSON)"""
    v, n, vs, vr, vj = units(ctx, p + "v", nbytes)
    if stake:
        v = Blockstake(value=n)
    c, s, r, t, j = condition(ctx, cond, p)
    return (v, c, vs + bytes([t]) + le8(len(s)) + s, vr + bytes([t]) + rlen(len(r)) + r, {"value": vj, "condition": j})


def cat(xs):
    out = b""
    for x in xs:
        out = out + x
    return out


def b64(ctx, raw):
    return base64.b64encode(bytes(raw)).decode("utf-8")


def inputs_json(ins):
    return [x[4] for x in ins]


def refund(ctx, on, cond="wallet"):
    return cout(ctx, "ref", cond) if on else None


def flag(r):
    return b"\x00" if r is None else b"\x01" + r[3]


def add_common(t, ins, r, fee):
    for x in ins:
        t.coin_input_add(x[0], x[1])
    if r is not None:
        t.refund_coin_output_set(r[0], r[1])
    if fee is not None:
        t.transaction_fee = fee[0]


def build(ctx, version, amt=None, **kw):
    """A transaction of that version; amt: the significant bytes of all its amounts."""
    AMT[0] = amt
    try:
        return build_parts(ctx, version, **kw)
    finally:
        AMT[0] = None


def build_parts(ctx, version, ni=1, no=1, nbi=0, nbo=0, nf=1, data=2, ful="single", cond="wallet", ref=True, signed=True,
          names=(1,), addrs=(0, 1), rnames=(), raddrs=(), months=None):
    b = B(version)
    if version == 1:
        t = Transactions.new()
        ins = [cin(at(ctx, k, ni), "i%d" % k, ful if k == 0 else "single") for k in range(ni)]
        outs = [cout(at(ctx, k, no), "o%d" % k, cond if k == 0 else "wallet") for k in range(no)]
        bins = [cin(at(ctx, k, nbi), "bi%d" % k) for k in range(nbi)]
        bouts = [cout(at(ctx, k, nbo), "bo%d" % k, stake=True, nbytes=2) for k in range(nbo)]
        fees = [units(at(ctx, k, nf), "f%d" % k, 3) for k in range(nf)]
        d = ctx.bytes("data", data)
        for x in ins:
            t.coin_input_add(x[0], x[1])
        for x in outs:
            t.coin_output_add(x[0], x[1])
        for x in bins:
            t.blockstake_input_add(x[0], x[1])
        for x in bouts:
            t.blockstake_output_add(x[0], x[1])
        for f in fees:
            t.miner_fee_add(f[0])
        if data:
            t.data = d
        tail = le8(nf) + cat(f[2] for f in fees) + le8(data) + d
        body = (le8(ni) + cat(x[2] for x in ins) + le8(no) + cat(x[2] for x in outs) + le8(nbi) + cat(x[2] for x in bins)
                + le8(nbo) + cat(x[2] for x in bouts) + tail)
        b.bin = b"\x01" + le8(len(body)) + body
        b.idin = b.bin
        b.sig = lambda extra: (b"\x01" + extra + le8(ni) + cat(x[5] for x in ins) + le8(no) + cat(x[2] for x in outs) + le8(nbi)
                               + cat(x[5] for x in bins) + le8(nbo) + cat(x[2] for x in bouts) + tail)
        j = {}
        for k, v in (("coininputs", inputs_json(ins)), ("coinoutputs", [x[4] for x in outs]),
                     ("blockstakeinputs", inputs_json(bins)), ("blockstakeoutputs", [x[4] for x in bouts]),
                     ("minerfees", [f[4] for f in fees]), ("arbitrarydata", b64(ctx, d) if data else None)):
            if v:
                j[k] = v
        b.json = {"version": 1}
        if j:
            b.json["data"] = j
        b.outs, b.bouts = no, nbo
        b.txn = t
        return b
    if version in (128, 129):
        t = Transactions.mint_definition_new() if version == 128 else Transactions.mint_coin_creation_new()
        nonce = bytes(t._nonce.value)
        f, fs, fr, ft, fj = fulfillment(ctx, ful, "mf")
        t.mint_fulfillment = f
        fees = [units(at(ctx, k, nf), "f%d" % k, 3) for k in range(nf)]
        d = ctx.bytes("data", data)
        for x in fees:
            t.miner_fee_add(x[0])
        if data:
            t.data = d
        tail = le8(nf) + cat(x[2] for x in fees) + le8(data) + d
        if version == 128:
            c, cs, cr, ct, cj = condition(ctx, cond, "mc")
            t.mint_condition = c
            mid = bytes([ct]) + le8(len(cs)) + cs
            extra_json = {"mintcondition": cj}
        else:
            outs = [cout(at(ctx, k, no), "o%d" % k, cond if k == 0 else "wallet") for k in range(no)]
            for x in outs:
                t.coin_output_add(x[0], x[1])
            mid = le8(no) + cat(x[2] for x in outs)
            extra_json = {"coinoutputs": [x[4] for x in outs]}
            b.outs = no
        body = nonce + bytes([ft]) + le8(len(fs)) + fs + mid + tail
        b.bin = bytes([version]) + body
        b.idin = SPEC[version] + body
        b.sig = lambda extra: bytes([version]) + SPEC[version] + nonce + extra + mid + tail
        b.json = {"version": version, "data": {"nonce": b64(ctx, nonce), "mintfulfillment": fj,
                                               "minerfees": [x[4] for x in fees], "arbitrarydata": b64(ctx, d) if data else ""}}
        b.json["data"].update(extra_json)
        b.txn = t
        return b
    if version == 209:
        t = Transactions.erc20_coin_creation_new()
        u, raw = unlockhash(ctx, "addr")
        v = units(ctx, "value", 4)
        fee = units(ctx, "fee", 3)
        bid, tid = ctx.bytes("bid", 32), ctx.bytes("tid", 32)
        t.address, t.value, t.transaction_fee, t.blockid, t.transactionid = u, v[0], fee[0], bid, tid
        body = b"\x01" + raw + v[3] + fee[3] + bid + tid
        b.bin, b.idin = b"\xd1" + body, SPEC[209] + body
        b.sig = lambda extra: b"\xd1" + SPEC[209] + extra + b"\x01" + raw + v[2] + fee[2] + bid + tid
        b.json = {"version": 209, "data": {"address": address(1, raw), "value": v[4], "txfee": fee[4],
                                           "blockid": "0x" + bid.hex(), "txid": "0x" + tid.hex()}}
        b.txn, b.outs = t, 1
        return b
    # rivbin transactions with coin inputs, transaction fee and an optional refund
    ins = [cin(at(ctx, k, ni), "i%d" % k, ful if k == 0 else "single") for k in range(ni)]
    r = refund(ctx, ref, cond)
    fee = units(ctx, "fee", 3)
    parents = le8(ni) + cat(x[5] for x in ins)
    inputs = rlen(ni) + cat(x[3] for x in ins)
    b.outs = 1 if ref else 0
    data_json = {"txfee": fee[4], "coininputs": inputs_json(ins)}
    if r is not None:
        data_json["refundcoinoutput"] = r[4]
    b.json = {"version": version, "data": data_json}
    head = bytes([version]) + SPEC[version]

    def sigval(name):
        return ctx.bytes(name, 64) if signed else b""

    def pick(ks):
        return [NAMES[k] for k in ks], cat(rlen(len(NAMES[k])) + NAMES[k].encode() for k in ks)

    def pick_addr(ks):
        return [ADDRS[k][0] for k in ks], cat(ADDRS[k][1] for k in ks)
    if version == 208:
        t = Transactions.erc20_convert_new()
        a = ctx.bytes("addr", 20)
        v = units(ctx, "value", 4)
        t.address, t.value = a, v[0]
        add_common(t, ins, r, fee)
        body = a + v[3] + fee[3] + inputs + flag(r)
        b.sig = lambda extra: head + a + v[3] + extra + parents + fee[3] + flag(r)
        data_json.update({"address": "0x" + a.hex(), "value": v[4]})
    elif version == 210:
        t = Transactions.erc20_address_registration_new()
        pk, raw = pubkey(ctx, "pk")
        t.public_key = pk
        sg = sigval("sig")
        if signed:
            t.signature = sg
        add_common(t, ins, r, fee)
        reg = rivine_encode(Currency(value=10))
        body = b"\x01" + raw + rlen(len(sg)) + sg + reg + fee[3] + inputs + flag(r)
        b.sig = lambda extra: head + b"\x01" + raw + extra + parents + reg + fee[3] + flag(r)
        ua = pk.unlockhash
        data_json.update({"pubkey": "ed25519:" + raw.hex(), "tftaddress": str(ua),
                          "erc20address": str(ERC20Address.from_unlockhash(ua)), "signature": sg.hex(), "regfee": "10000000000"})
    elif version == 144:
        t = Transactions.threebot_registration_new()
        pk, raw = pubkey(ctx, "pk")
        t.public_key = pk
        sg = sigval("sig")
        if signed:
            t.signature = sg
        m = ctx.int("months", 1, 24) if months is None else months
        t.number_of_months = m
        ns, nb = pick(names)
        as_, ab = pick_addr(addrs)
        t.names, t.addresses = ns, as_
        add_common(t, ins, r, fee)
        fl = m + 32 * (len(as_) > 0) + 64 * (len(ns) > 0) + 128 * (r is not None)
        body = bytes([fl, len(as_) + 16 * len(ns)]) + ab + nb + fee[3] + inputs + (r[3] if r else b"") + b"\x01" + raw + sg
        b.sig = lambda extra: (head + extra + rlen(len(as_)) + ab + rlen(len(ns)) + nb + bytes([m]) + parents + fee[3] + flag(r)
                               + b"\x01" + raw)
        data_json.update({"nrofmonths": m, "identification": {"publickey": "ed25519:" + raw.hex(), "signature": sg.hex()}})
        if ns:
            data_json["names"] = ns
        if as_:
            data_json["addresses"] = as_
    elif version == 145:
        t = Transactions.threebot_record_update_new()
        bid = ctx.int("botid", 1, 2 ** 32 - 1)
        t.botid = bid
        sg = sigval("sig")
        if signed:
            t.signature = sg
        m = ctx.int("months", 0, 24) if months is None else months
        t.number_of_months = m
        ns, nb = pick(names)
        rs, rb = pick(rnames)
        as_, ab = pick_addr(addrs)
        ra, rab = pick_addr(raddrs)
        t.names_to_add, t.names_to_remove, t.addresses_to_add, t.addresses_to_remove = ns, rs, as_, ra
        add_common(t, ins, r, fee)
        fl = m + 32 * (len(as_) + len(ra) > 0) + 64 * (len(ns) + len(rs) > 0) + 128 * (r is not None)
        id4 = bid.to_bytes(4, "little")
        body = (id4 + bytes([fl]) + ((bytes([len(as_) + 16 * len(ra)]) + ab + rab) if as_ or ra else b"")
                + ((bytes([len(ns) + 16 * len(rs)]) + nb + rb) if ns or rs else b"") + fee[3] + inputs + (r[3] if r else b"")
                + rlen(len(sg)) + sg)
        b.sig = lambda extra: (head + id4 + extra + rlen(len(as_)) + ab + rlen(len(ra)) + rab + rlen(len(ns)) + nb + rlen(len(rs))
                               + rb + bytes([m]) + parents + fee[3] + flag(r))
        data_json.update({"id": bid, "nrofmonths": m, "signature": sg.hex()})
        for k, x, y in (("addresses", as_, ra), ("names", ns, rs)):
            if x or y:
                data_json[k] = {}
                if x:
                    data_json[k]["add"] = x
                if y:
                    data_json[k]["remove"] = y
    elif version == 146:
        t = Transactions.threebot_name_transfer_new()
        s, q = ctx.int("sender", 1, 2 ** 32 - 1), ctx.int("receiver", 1, 2 ** 32 - 1)
        t.sender_botid, t.receiver_botid = s, q
        ss, qs = sigval("ssig"), sigval("rsig")
        if signed:
            t.sender_signature, t.receiver_signature = ss, qs
        ns, nb = pick(names)
        t.names = ns
        add_common(t, ins, r, fee)
        ids = s.to_bytes(4, "little"), q.to_bytes(4, "little")
        body = (ids[0] + rlen(len(ss)) + ss + ids[1] + rlen(len(qs)) + qs + bytes([len(ns) + 16 * (r is not None)]) + nb + fee[3]
                + inputs + (r[3] if r else b""))
        b.sig = lambda extra: head + ids[0] + ids[1] + extra + rlen(len(ns)) + nb + parents + fee[3] + flag(r)
        data_json.update({"sender": {"id": s, "signature": ss.hex()}, "receiver": {"id": q, "signature": qs.hex()}, "names": ns})
    else:
        raise ValueError(version)
    b.txn = t
    b.bin, b.idin = bytes([version]) + body, SPEC[version] + body
    return b
