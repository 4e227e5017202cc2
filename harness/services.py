"""C45, C46, C47: minting, 3Bot and ERC20 transactions made by a wallet."""
import base64
from engine.api import case
from tfchain import errors
from tfchain.types.CryptoTypes import UnlockHash
from tfchain.types.ERC20 import ERC20Address
from tfchain.types.PrimitiveTypes import BinaryData
from harness.bal import cur, total, units
from harness.chain import *  # noqa: F401,F403
from harness.txn import BOTADDRS, BOTNAMES, TFT, monthly
from harness.wal import (COND, FEE, MADDR, OWNERS, RECIPIENTS, check_inputs, check_posted, check_unfunded, refund_of, scene, source)

MINT = {"p0": ([K[0]], 1), "p1": ([K[1]], 1), "o0": ([O[0]], 1), "mo": ([O[0], O[1]], 1)}
MINT.update(OWNERS)


def mint_page(ctx, chain, who):
    """The current mint condition is that of the given owners."""
    cond = {"p0": COND["p0"], "p1": COND["p1"], "o0": c_addr(O[0].addr), "mo": c_multi([O[0].addr, O[1].addr], 1)}.get(who.rstrip("!")) or COND.get(who.rstrip("!"))
    if who.endswith("!"):
        cond = c_lock(ctx.int("mintlock", 1, 2 ** 40), cond)
    chain.pages["/explorer/mintcondition"] = {"mintcondition": cond}


def check_minted(ctx, r, who):
    """Signed by exactly the owners of the mint condition in this wallet; returns whether that suffices."""
    ks, n = MINT[who.rstrip("!")]
    t, d = r.transaction, r.transaction.json()["data"]
    f = d["mintfulfillment"]
    mine = [k for k in ks if k in K]
    if len(ks) == 1:
        ctx.check(f["type"] == 1, "the mint fulfillment is that of the current mint condition")
        if mine:
            ctx.check(f["data"]["publickey"] == mine[0].text, "a mint transaction is signed by the minter")
            ctx.check(ctx.eq(f["data"]["signature"], mine[0].sign(t.signature_hash_get()).hex()), "a mint transaction has valid signatures")
        else:
            ctx.check(f["data"]["signature"] == "", "nobody signs for others")
    else:
        ctx.check(f["type"] == 3, "the mint fulfillment is that of the current mint condition")
        pairs = f["data"]["pairs"]
        ctx.check(sorted(p["publickey"] for p in pairs) == sorted(k.text for k in mine), "a mint transaction is signed by the minters of this wallet")
        for p in pairs:
            k = [k for k in mine if k.text == p["publickey"]][0]
            ctx.check(ctx.eq(p["signature"], k.sign(t.signature_hash_get(k.pub)).hex()), "a mint transaction has valid signatures")
    return len(mine) >= n


def check_mint(ctx, chain, r, who, version, fields, fee, data):
    j = r.transaction.json()
    d = j["data"]
    ctx.check(j["version"] == version, "a transaction of the right kind is made")
    ctx.check(sorted(set(d) - {"arbitrarydata"}) == sorted(fields + ["nonce", "mintfulfillment", "minerfees"]), "nothing else is in the transaction")
    ctx.check([cur(units(x)) for x in d["minerfees"]] == [fee], "the minimum miner fee is paid")
    raw = data.encode() if isinstance(data, str) else data
    ctx.check((d.get("arbitrarydata") or None) == (base64.b64encode(raw).decode() if raw else None), "the data is attached")
    ctx.check(isinstance(d["nonce"], str) and len(d["nonce"]) == 12, "there is a nonce of eight bytes")
    check_posted(ctx, chain, r, check_minted(ctx, r, who))
    return d


# ------------------------------------------------------------------------------------------------- C45
WHO = ["p0", "p1!", "o0", "m0", "m1", "m2", "m3", "m4", "mo", "m0!"]


@case("C45", params=[dict(who=w) for w in WHO] + [dict(who="p0", net="devnet"), dict(who="m2", net="testnet")])
def definition(ctx, who, net=None):
    """A new mint condition is signed with the keys of the current one."""
    chain = Chain(network=net)
    w = wallet(chain)
    mint_page(ctx, chain, who)
    to = ctx.choice("to", ["addr", "own", "list", "tuple", "none"])
    data = ctx.choice("data", [None, b"minter", "text"])
    arg, cond = RECIPIENTS[to]
    ok, r = ctx.attempt(lambda: w.minter.definition_set(arg, data))
    ctx.check(ok == (to != "none"), "minters are addresses or multisig wallets")
    if not ok:
        return ctx.check(chain.posted == [], "a refused definition is not submitted")
    d = check_mint(ctx, chain, r, who, 128, ["mintcondition"], FEE[net], data)
    ctx.check(ctx.eq(d["mintcondition"], cond), "the new mint condition is the given one")


@case("C45", params=[dict(who=w) for w in WHO] + [dict(who="p0", net="devnet", sym=True), dict(who="m1", sym=True)])
def creation(ctx, who, net=None, sym=False):
    """New coins are signed with the keys of the mint condition."""
    chain = Chain(network=net)
    w = wallet(chain)
    mint_page(ctx, chain, who)
    arg, cond = RECIPIENTS[ctx.choice("to", sorted(RECIPIENTS))]
    lock = None
    if ctx.choice("locked", [0, 1]):
        lock = ctx.int("lock", 1, 2 ** 40)
        cond = c_lock(lock, cond)
    data = ctx.choice("data", [None, b"coins"])
    amount = ctx.int("amount", -2 ** 40, 2 ** 60) if sym else ctx.int("amount", 2 ** 40, 2 ** 40 + 2 ** 32)
    ok, r = ctx.attempt(lambda: w.minter.coins_new(arg, units(amount), lock=lock, data=data))
    ctx.check(ctx.iff(ok, amount > 0), "positive amounts can be created")
    if not ok:
        return ctx.check(chain.posted == [], "a refused creation is not submitted")
    d = check_mint(ctx, chain, r, who, 129, ["coinoutputs"], FEE[net], data)
    ctx.check(len(d["coinoutputs"]) == 1, "one output is created")
    ctx.check(cur(units(d["coinoutputs"][0]["value"])) == amount, "exactly the amount is created")
    ctx.check(ctx.eq(d["coinoutputs"][0]["condition"], cond), "the coins go to the recipient")


# ------------------------------------------------------------------------------------------------- payments
PAY = [
    dict(spec=("p0",)), dict(spec=("p0", "p1?"), net="devnet", refund="other"), dict(spec=("p0", "p1"), src=("p1",), form="one"), dict(spec=("m0",), src=("m0",)),
    dict(spec=("m1",), src=("m1",), form="one"), dict(spec=("p0", "p1"), refund="list"), dict(spec=("p0", "p1"), src=("p0", "p1"), net="testnet"), dict(spec=()),
    dict(spec=("m3",), src=("m3",)), dict(spec=("p0", "m0", "m2"), src=("p0", "m0", "m2")), dict(spec=("p0", "p1", "p1?") * 10, each=8 * 10 ** 9),
    dict(spec=("m1",) * 24, src=("m1",), each=10 ** 10, refund="other"),
]


class Payment:
    """A wallet with funds, the sources and refund of a transaction, and the checks of its payment."""

    def __init__(self, ctx, c, lo, hi, keys=2):
        p = dict(dict(src=None, form="str", net=None, refund=None), **PAY[c])
        if "each" in p:
            lo, hi = p["each"], p["each"] + 10 ** 8
        self.chain, self.w, self.rows = scene(ctx, p["spec"], p["net"], lo, hi, keys)
        self.fee = FEE[p["net"]]
        src, self.kinds = source(p["src"], p["form"])
        ref, self.refcond = refund_of(p["src"], p["refund"])
        self.kw = dict(source=src, refund=ref)

    def check(self, ctx, ok, r, cost, version, fields, done):
        """A transaction that pays cost; done: whether its own signatures are there."""
        need = cost + self.fee
        if not ok:
            check_unfunded(ctx, self.chain, r, self.rows, self.kinds, need)
            return None
        j = r.transaction.json()
        d = j["data"]
        ctx.check(j["version"] == version, "a transaction of the right kind is made")
        ctx.check(set(fields + ["coininputs", "txfee"]) == set(d) - {"refundcoinoutput"}, "nothing else is in the transaction")
        got, signed = check_inputs(ctx, d["coininputs"], r.transaction, self.rows, self.kinds, need)
        rest = got - need
        if rest > 0:
            ctx.check("refundcoinoutput" in d, "the change is returned")
            ctx.check(cur(units(d["refundcoinoutput"]["value"])) == rest, "the change is what remains after the fees")
            ctx.check(ctx.eq(d["refundcoinoutput"]["condition"], self.refcond), "the change goes where it should")
        else:
            ctx.check(rest == 0, "the sources pay for everything")
            ctx.check("refundcoinoutput" not in d, "there is no change if nothing remains")
        ctx.check(cur(units(d["txfee"])) == self.fee, "the minimum miner fee is paid")
        check_posted(ctx, self.chain, r, signed and done)
        return d


def labelled(t, key, label):
    return key.sign(t.signature_hash_get(BinaryData(value=label, fixed_size=0))).hex()


def bot_page(chain, id, key, expiration):
    chain.pages["/explorer/3bot/%d" % id] = {"record": {"id": id, "names": None, "addresses": None, "publickey": key.text, "expiration": expiration}}


def set_time(chain, time):
    chain.pages["/explorer/hashes/" + BLOCK]["block"]["rawblock"]["timestamp"] = time


KEYOF = {"k0": K[0], "k1": K[1], "o0": O[0], "o1": O[1]}
BIG = (2 ** 36, 2 ** 40 - 1)


# ------------------------------------------------------------------------------------------------- C46
@case("C46", params=[dict(c=i) for i in range(len(PAY))])
def registration(ctx, c):
    """A new 3Bot is registered with the given names, addresses and months for its fees, signed with its key."""
    n = 4 if c == 1 else 2
    p = Payment(ctx, c, *BIG, keys=n)
    months = ctx.int("months", 1, 24) if c == 0 else (1, 3, 12, 24)[c % 4]
    names, addrs = ctx.choice("names", [(1, 0), (0, 1), (3, 2)] if c < 2 else [(2, 1)])
    idx = ctx.choice("index", [None] + list(range(n))[-2:] if c < 3 else [None])
    ok, r = ctx.attempt(lambda: p.w.threebot.record_new(months=months, names=BOTNAMES[:names] or None, addresses=BOTADDRS[:addrs] or None,
                                                        key_index=idx, **p.kw))
    key = K[n if idx is None else idx]
    cost = 90 * TFT + monthly(ctx, months) + 50 * TFT * max(names - 1, 0)
    d = p.check(ctx, ok, r, cost, 144, ["nrofmonths", "identification"] + ["names"] * (names > 0) + ["addresses"] * (addrs > 0), True)
    if d is None:
        return
    ctx.check(d["nrofmonths"] == months, "the months are the given ones")
    ctx.check(d.get("names", []) == BOTNAMES[:names] and d.get("addresses", []) == BOTADDRS[:addrs], "names and addresses are the given ones")
    ctx.check(d["identification"]["publickey"] == key.text, "the key is a new one or that of the index")
    ctx.check(ctx.eq(d["identification"]["signature"], labelled(r.transaction, key, b"sender")), "the bot signs its registration")
    ctx.check(key.addr in p.w.addresses, "the wallet has the key of its bot")


@case("C46", params=[dict(c=i, who=w) for i in range(len(PAY)) for w in ("k1", "o0") if w == "k1" or i in (0, 1)])
def update(ctx, c, who):
    """A 3Bot that is or becomes active is updated as given, signed with its key if that is in the wallet."""
    p = Payment(ctx, c, *BIG)
    time, exp = ctx.int("time", 1, 2 ** 40), ctx.int("expiration", 0, 2 ** 40)
    set_time(p.chain, time)
    bot_page(p.chain, 7, KEYOF[who], exp)
    months = ctx.choice("months", [0, 1, 24]) if c else ctx.int("months", 0, 24)
    kw, fields, want, cost = {}, [], {}, monthly(ctx, months)
    what = ctx.choice("what", ["nothing", "names", "unnames", "addresses", "unaddresses", "all", "most"] if c < 2 else ["all"])
    if what in ("names", "all"):
        kw["names_to_add"] = want["names", "add"] = BOTNAMES[:2]
        cost = cost + 100 * TFT
    if what in ("unnames", "all"):
        kw["names_to_remove"] = want["names", "remove"] = BOTNAMES[3:4]
    if what in ("addresses", "all"):
        kw["addresses_to_add"] = want["addresses", "add"] = BOTADDRS[:1]
        cost = cost + 20 * TFT
    if what in ("unaddresses", "all"):
        kw["addresses_to_remove"] = want["addresses", "remove"] = BOTADDRS[2:4]
    if what == "unaddresses":
        cost = cost + 20 * TFT
    if what == "most":
        names, addrs = BOTNAMES[:5], ["10.1.2.%d" % i for i in range(10)]
        kw.update(names_to_add=names, addresses_to_add=addrs)
        want["names", "add"], want["addresses", "add"] = names, addrs
        cost = cost + 5 * 50 * TFT + 20 * TFT
    ok, r = ctx.attempt(lambda: p.w.threebot.record_update(7, months=months, **kw, **p.kw))
    if not ok and what == "nothing" and months < 1:
        return ctx.check(isinstance(r, ValueError) and p.chain.posted == [], "an update has to change something")
    ctx.check(ctx.any([what != "nothing", months > 0]), "an update has to change something")
    active = ctx.any([exp > time, months > 0])
    if not ok and not active:
        return ctx.check(isinstance(r, errors.ThreeBotInactive) and str(r.identifier) == "7" and ctx.eq(r.expiration, exp) and p.chain.posted == [], "inactive bots are updated only by paying months")
    ctx.check(active, "inactive bots are updated only by paying months")
    d = p.check(ctx, ok, r, cost, 145, ["id", "nrofmonths", "signature"] + sorted({k for k, _ in want}), who[0] == "k")
    if d is None:
        return
    ctx.check(d["id"] == 7, "the given bot is updated")
    ctx.check(d["nrofmonths"] == months, "the months are the given ones")
    for k in ("names", "addresses"):
        ctx.check({s: v for s, v in d.get(k, {}).items()} == {s: v for (kk, s), v in want.items() if kk == k}, "exactly the given changes are made")
    if who[0] == "k":
        ctx.check(ctx.eq(d["signature"], labelled(r.transaction, KEYOF[who], b"sender")), "the bot signs its update")
    else:
        ctx.check(d["signature"] == "", "nobody signs for others")


TRANSFER = [("k0", "k1"), ("k1", "o0"), ("o0", "k0"), ("o0", "o1")]


@case("C46", params=[dict(c=i, s="k0", r="k1") for i in range(len(PAY))] + [dict(c=0, s=s, r=r) for s, r in TRANSFER[1:]])
def transfer(ctx, c, s, r):
    """Names are transferred between active bots, signed with the keys of both that are in the wallet."""
    p = Payment(ctx, c, *BIG)
    time, e1, e2 = ctx.int("time", 1, 2 ** 40), ctx.int("expires", 0, 2 ** 40), ctx.int("expires2", 0, 2 ** 40)
    set_time(p.chain, time)
    bot_page(p.chain, 3, KEYOF[s], e1)
    bot_page(p.chain, 4, KEYOF[r], e2)
    k = ctx.choice("names", [0, 1, 2, 5] if c == 0 else [1])
    ok, x = ctx.attempt(lambda: p.w.threebot.name_transfer(3, 4, BOTNAMES[:k], **p.kw))
    if not ok and k == 0:
        return ctx.check(isinstance(x, ValueError) and p.chain.posted == [], "at least one name is transferred")
    ctx.check(k > 0, "at least one name is transferred")
    active = ctx.all([e1 > time, e2 > time])
    if not ok and not active:
        ctx.check(isinstance(x, errors.ThreeBotInactive) and p.chain.posted == [], "both bots have to be active")
        return ctx.check(ctx.any([ctx.all([str(x.identifier) == str(i), ctx.eq(x.expiration, e), e <= time]) for i, e in ((3, e1), (4, e2))]), "the inactive bot is named")
    ctx.check(active, "both bots have to be active")
    d = p.check(ctx, ok, x, 50 * TFT * k, 146, ["sender", "receiver", "names"], s[0] == r[0] == "k")
    if d is None:
        return
    ctx.check(d["names"] == BOTNAMES[:k], "exactly the given names are transferred")
    for field, id, who in (("sender", 3, s), ("receiver", 4, r)):
        ctx.check(d[field]["id"] == id, "the names go from the sender to the receiver")
        want = labelled(x.transaction, KEYOF[who], field.encode()) if who[0] == "k" else ""
        ctx.check(ctx.eq(d[field]["signature"], want), "both bots sign, as far as their keys are in the wallet")


@case("C46")
def refused_bots(ctx):
    p = Payment(ctx, 0, *BIG)
    n = ctx.int("n", -40, 300)
    how = ctx.choice("how", ["months", "index", "nothing", "unknown", "update-months", "sender", "receiver"])
    bot_page(p.chain, 3, K[0], 2 ** 40)
    if how in ("months", "update-months"):
        ctx.assume(ctx.any([n < 1 if how == "months" else n < 0, n > 24]))
    elif how == "index":
        ctx.assume(ctx.any([n < 0, n > 1]))
    t = p.w.threebot
    ok, e = ctx.attempt({"months": lambda: t.record_new(months=n, names=BOTNAMES[:1]), "index": lambda: t.record_new(names=BOTNAMES[:1], key_index=n),
                         "nothing": lambda: t.record_new(), "unknown": lambda: t.record_update(9, months=1),
                         "update-months": lambda: t.record_update(3, months=n, names_to_add=BOTNAMES[:1]), "sender": lambda: t.name_transfer(9, 3, BOTNAMES[:1]),
                         "receiver": lambda: t.name_transfer(3, 9, BOTNAMES[:1])}[how])
    ctx.check(not ok and p.chain.posted == [], "bad requests are refused")
    if how in ("unknown", "sender", "receiver"):
        ctx.check(isinstance(e, errors.ThreeBotNotFound) and str(e.identifier) == "9", "unknown bots are reported")


# ------------------------------------------------------------------------------------------------- C47
@case("C47", params=[dict(c=i) for i in range(len(PAY))])
def withdraw(ctx, c):
    """Coins are sent to an ERC20 address."""
    p = Payment(ctx, c, *((0, 2 ** 40) if c == 0 else BIG))
    eth = "0x" + ctx.bytes("eth", 20).hex()
    amount = ctx.int("amount", *((-5, 2 ** 40) if c == 0 else (2 ** 36, 2 ** 38 - 1) if "each" not in PAY[c] else (2 ** 37, 2 ** 37 + 2 ** 20)))
    how = ctx.choice("how", ["text", "object", "send"])
    f = {"text": lambda: p.w.erc20.coins_send(eth, units(amount), **p.kw), "object": lambda: p.w.erc20.coins_send(ERC20Address(value=eth), units(amount), **p.kw),
         "send": lambda: p.w.coins_send(eth, units(amount), **p.kw)}[how]
    ok, r = ctx.attempt(f)
    if not ok and amount <= 0:
        return ctx.check(isinstance(r, (ValueError, errors.CurrencyNegativeValue)) and p.chain.posted == [], "only positive amounts are sent")
    ctx.check(amount > 0, "only positive amounts are sent")
    d = p.check(ctx, ok, r, amount, 208, ["address", "value"], True)
    if d is None:
        return
    ctx.check(ctx.eq(d["address"], eth), "the coins go to the given address")
    ctx.check(cur(units(d["value"])) == amount, "exactly the amount is sent")


WHICH = {"new": lambda: (None, K[4]), "first": lambda: (0, K[0]), "second": lambda: (1, K[1]), "third": lambda: (2, K[2]), "last": lambda: (3, K[3]), "text": lambda: (K[1].addr, K[1]),
         "uh": lambda: (UnlockHash.from_json(K[0].addr), K[0])}


@case("C47", params=[dict(c=i) for i in range(len(PAY))])
def register(ctx, c):
    """An address of the wallet is registered for its fee, signed with its key."""
    p = Payment(ctx, c, *((0, 2 ** 35) if c == 0 else (2 ** 32, 2 ** 35 - 1)), keys=4)
    arg, key = WHICH[ctx.choice("which", sorted(WHICH) if c == 0 else ["new", "third"] if c == 1 else ["new"])]()
    ok, r = ctx.attempt(lambda: p.w.erc20.address_register(arg, **p.kw))
    d = p.check(ctx, ok, r, 10 * TFT, 210, ["pubkey", "tftaddress", "erc20address", "signature", "regfee"], True)
    if d is None:
        return
    ctx.check(d["pubkey"] == key.text and d["tftaddress"] == key.addr, "the given address is registered")
    ctx.check(d["erc20address"] == str(ERC20Address.from_unlockhash(UnlockHash.from_json(key.addr))), "its ERC20 address is that of the address")
    ctx.check(cur(units(d["regfee"])) == 10 * TFT, "the registration fee is paid")
    ctx.check(ctx.eq(d["signature"], labelled(r.transaction, key, b"registration")), "the owner of the address signs the registration")


@case("C47")
def foreign_addresses(ctx):
    p = Payment(ctx, 0, 2 ** 36, 2 ** 37)
    n = ctx.int("n", -10, 10)
    ctx.assume(ctx.any([n < 0, n > 1]))
    arg = ctx.choice("arg", [O[0].addr, UnlockHash.from_json(O[0].addr), MADDR["m0"], K[2].addr, n, True, 1.5])
    f = ctx.choice("what", ["register", "get"])
    ok, e = ctx.attempt(lambda: (p.w.erc20.address_register if f == "register" else p.w.erc20.address_get)(arg))
    ctx.check(not ok and p.chain.posted == [], "only addresses of the wallet are registered and looked up")
    if isinstance(arg, (str, UnlockHash)):
        ctx.check(isinstance(e, errors.ERC20RegistrationForbidden if f == "register" else errors.AddressNotInWallet), "other addresses are refused")
        ctx.check(str(e.address) == str(arg), "the refused address is named")
    else:
        ctx.check(isinstance(e, ValueError), "other values are refused")


@case("C47")
def registered(ctx):
    """The registrations of the wallet's addresses are looked up by address or index, or all together."""
    chain, infos = Chain(), {}
    for i in range(2):
        how = ctx.choice("page%d" % i, ["registered", "used", "unused"])
        if how == "registered":
            infos[i] = {"tftaddress": K[i].addr, "erc20address": "0x" + ctx.bytes("eth%d" % i, 20).hex(), "confirmations": ctx.int("n%d" % i, 0, 2 ** 40)}
            chain.page(K[i].addr, hashpage([], erc20info=infos[i]))
        elif how == "used":
            chain.page(K[i].addr, hashpage([]))
    w = wallet(chain)

    def same(x, i):
        ctx.check(str(x.address_tft) == K[i].addr, "the registration is that of the address")
        ctx.check(ctx.eq(str(x.address_erc20), infos[i]["erc20address"]), "the registration is as reported")
        ctx.check(x.confirmations == infos[i]["confirmations"], "the registration is as reported")
    got = w.erc20.addresses_get()
    ctx.check(len(got) == len(infos), "all registrations are listed")
    for x, i in zip(got, sorted(infos)):
        same(x, i)
    arg, i = ctx.choice("arg", [(None, 0), (0, 0), (1, 1), (K[1].addr, 1), (UnlockHash.from_json(K[0].addr), 0)])
    ok, x = ctx.attempt(lambda: w.erc20.address_get(arg))
    ctx.check(ok == (i in infos), "registered addresses are found")
    if ok:
        same(x, i)
    else:
        ctx.check(isinstance(x, errors.ExplorerNoContent), "an address that is not registered is reported as such")


# ------------------------------------------------------------------------------------------------- asked again (C45, C46)
@case("C45", params=[dict(a=a, b=b, how=h) for a, b in (("p0", "m2"), ("o0", "p1"), ("m0", "p0")) for h in ("definition", "coins")])
def minters_change(ctx, a, b, how):
    """A mint transaction is signed for the mint condition of now, also after one for another was made."""
    chain = Chain()
    w = wallet(chain)
    lock = ctx.int("lock", 1, 2 ** 40)

    def mint():
        return w.minter.definition_set(O[1].addr) if how == "definition" else w.minter.coins_new(O[1].addr, 10, lock=lock)
    for who in (a, b):
        mint_page(ctx, chain, who)
        chain.posted = []
        ok, r = ctx.attempt(mint)
        ctx.check(ok, "a mint transaction is made")
        check_posted(ctx, chain, r, check_minted(ctx, r, who))


@case("C46", params=[dict(a=a, b=b) for a, b in (("k0", "k1"), ("o0", "k1"), ("k1", "o0"), ("k0", "k0"))])
def update_again(ctx, a, b):
    """A second update goes by the record of then: its key and its expiration."""
    p = Payment(ctx, 0, *BIG)
    time = ctx.int("time", 10 ** 9, 2 ** 40)
    set_time(p.chain, time)
    bot_page(p.chain, 7, KEYOF[a], 2 ** 41)
    cost = 50 * TFT
    ok, r = ctx.attempt(lambda: p.w.threebot.record_update(7, names_to_add=BOTNAMES[:1], **p.kw))
    if not ok:
        return check_unfunded(ctx, p.chain, r, p.rows, p.kinds, cost + p.fee)
    exp = ctx.int("expiration", 0, 2 ** 40)
    bot_page(p.chain, 7, KEYOF[b], exp)
    p.chain.posted = []
    ok, r = ctx.attempt(lambda: p.w.threebot.record_update(7, names_to_add=BOTNAMES[:1], **p.kw))
    if not ok and isinstance(r, errors.ThreeBotInactive):
        return ctx.check(ctx.all([exp <= time, p.chain.posted == []]), "inactive bots are updated only by paying months")
    ctx.check(exp > time, "inactive bots are updated only by paying months")
    d = p.check(ctx, ok, r, cost, 145, ["id", "nrofmonths", "signature", "names"], b[0] == "k")
    if d is None:
        return
    if b[0] == "k":
        ctx.check(ctx.eq(d["signature"], labelled(r.transaction, KEYOF[b], b"sender")), "the bot signs its update")
    else:
        ctx.check(d["signature"] == "", "nobody signs for others")


@case("C45", params=[dict(n=n, how=h) for n in (0, 1, 83, 84, 200) for h in ("definition", "coins")])
def minting_data(ctx, n, how):
    """Up to 83 bytes of data are attached in full, with more nothing is made."""
    chain = Chain()
    w = wallet(chain)
    mint_page(ctx, chain, "p0")
    data = ctx.bytes("data", n)
    ok, r = ctx.attempt(lambda: w.minter.definition_set(O[1].addr, data=data) if how == "definition" else w.minter.coins_new(O[1].addr, 10, data=data))
    ctx.check(ok == (n <= 83), "at most 83 bytes of data are attached")
    if not ok:
        return ctx.check(isinstance(r, ValueError) and chain.posted == [], "nothing is submitted with too much data")
    ctx.check(ctx.eq(base64.b64decode(chain.posted[0][1]["data"].get("arbitrarydata") or ""), data), "the data is attached in full")


@case("C47")
def registered_later(ctx):
    """Registrations are those the explorer knows when they are asked for."""
    chain = Chain()
    w = wallet(chain)
    first = ctx.choice("first", ["used", "unused", "registered"])
    info = {"tftaddress": K[1].addr, "erc20address": "0x" + "12" * 20, "confirmations": 3}
    if first != "unused":
        chain.page(K[1].addr, hashpage([], **({"erc20info": info} if first == "registered" else {})))
    ctx.check(len(w.erc20.addresses_get()) == (1 if first == "registered" else 0), "all registrations are listed")
    ok, x = ctx.attempt(lambda: w.erc20.address_get(1))
    ctx.check(ok == (first == "registered"), "registered addresses are found")
    n = ctx.int("n", 4, 2 ** 40)
    chain.page(K[1].addr, hashpage([], erc20info=dict(info, confirmations=n)))
    got = w.erc20.addresses_get()
    ctx.check(len(got) == 1 and str(got[0].address_tft) == K[1].addr and got[0].confirmations == n, "the registration is as reported")
    x = w.erc20.address_get(1)
    ctx.check(str(x.address_tft) == K[1].addr and x.confirmations == n, "the registration is as reported")


@case("C45", params=[dict(n=n, how=h) for n in (9, 17, 34) for h in ("definition", "coins")],
      thorough=[dict(n=n, how=h) for n in (65, 100, 129) for h in ("definition", "coins")])
def many_minters(ctx, n, how):
    """Also of many minters every one in this wallet signs, and no one else."""
    chain = Chain()
    w = wallet(chain)
    ks = [Key(i, b"minters!" * 4) for i in range(n - 2)]
    at = ctx.choice("at", [0, n // 2, n - 1])
    ks.insert(ctx.choice("other", [0, 1, n - 2]), K[1])
    ks.insert(at, K[0])
    need = ctx.choice("need", [1, 2, 3, n])
    MINT["many"] = ks, need
    chain.pages["/explorer/mintcondition"] = {"mintcondition": c_multi([k.addr for k in ks], need)}
    lock = ctx.int("lock", 1, 2 ** 40)
    ok, r = ctx.attempt(lambda: w.minter.definition_set(O[1].addr) if how == "definition" else w.minter.coins_new(O[1].addr, 10, lock=lock))
    ctx.check(ok, "a mint transaction is made")
    check_posted(ctx, chain, r, check_minted(ctx, r, "many"))
