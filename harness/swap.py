"""C36, C37: atomic swaps: claiming, verifying, creating."""
import base64
import hashlib
from datetime import datetime, timezone
from engine.api import case
from tfchain import errors
from harness.bal import cur, units
from harness.wal import (FEE, NARROW, check_amounts, check_inputs, check_posted, check_unfunded, have, refund_of, scene, source)
from harness.chain import *  # noqa: F401,F403

from tfchain.internal.jsutils import duration
from tfchain.types.AtomicSwap import AtomicSwapContract
from tfchain.types.ConditionTypes import ConditionAtomicSwap
from tfchain.types.IO import CoinOutput
from tfchain.types.PrimitiveTypes import Currency, Hash

OUT = "0d" * 32
WHO = {"k0": K[0], "k1": K[1], "o0": O[0], "o1": O[1]}


def sha(b):
    return hashlib.sha256(bytes(b)).digest()


def swap_page(ctx, sender, receiver, value, hashed, lock, spent=None, kind="swap", unconfirmed=False):
    cond = c_swap(WHO[sender].addr, WHO[receiver].addr, hashed, lock)
    if kind == "plain":
        cond = c_addr(K[0].addr)
    elif kind == "locked":
        cond = c_lock(5, cond)
    o = output(value, cond)
    txns = [tx("0c" * 32, [output(5, c_addr(O[3].addr)), o], ["0e" * 32, OUT], height=0 if unconfirmed else 20, unconfirmed=unconfirmed)]
    if spent is not None:
        s = tx("0f" * 32, [output(1, c_addr(O[2].addr))], ["1e" * 32],
               [(OUT, o, {"type": 2, "data": {"publickey": O[0].text, "signature": "00" * 64, "secret": "00" * 32}})],
               height=21, unconfirmed=spent == "unconfirmed")
        txns.append(s)
    return {"hashtype": "coinoutputid", "block": None, "transaction": None, "transactions": txns, "multisigaddresses": None}


def contract_scene(ctx, sender, receiver, spent=None, net=None, kind="swap", lo=1, hi=2 ** 40):
    time, lock = ctx.int("time", 1, 2 ** 40), ctx.int("refund", 5 * 10 ** 8, 2 ** 40)
    value = ctx.int("value", lo, hi)
    secret = ctx.bytes("secret", 32)
    c = Chain(time=time, network=net)
    c.page(OUT, swap_page(ctx, sender, receiver, value, sha(secret).hex(), lock, spent, kind))
    return c, wallet(c), time, lock, value, secret


def check_spent(ctx, x):
    ctx.check(isinstance(x, errors.AtomicSwapContractSpent), "a spent contract is reported as spent")
    ctx.check(str(x.transaction.id) == "0f" * 32, "the transaction that spent it is named")
    ctx.check(str(x.contract.outputid) == OUT, "the contract is named")


def check_claim(ctx, c, ok, r, allowed, key, value, fee, secret, data):
    ctx.check(ctx.iff(ok, ctx.all([allowed, value >= fee])), "a contract is claimed exactly when it may be")
    if not ok:
        ctx.check(c.posted == [], "nothing is submitted when a contract may not be claimed")
        return
    ctx.check(len(c.posted) == 1, "a claim is submitted once")
    ctx.check(ctx.eq(c.posted[0][1], r.json()), "the submitted transaction is returned")
    ctx.check(str(r.id) == TXID, "the transaction has the id the network gave it")
    d = c.posted[0][1]["data"]
    ctx.check(sorted(set(d) - {"arbitrarydata"}) == ["coininputs", "coinoutputs", "minerfees"], "nothing else is in the transaction")
    ctx.check([i["parentid"] for i in d["coininputs"]] == [OUT], "the contract is the only input")
    ctx.check([cur(units(f)) for f in d["minerfees"]] == [fee], "the minimum miner fee is paid")
    ctx.check(len(d["coinoutputs"]) == 1, "there is one output")
    ctx.check(d["coinoutputs"][0]["condition"] == c_addr(key.addr), "the coins go to the claiming address")
    ctx.check(cur(units(d["coinoutputs"][0]["value"])) == value - fee, "everything but the fee is claimed")
    f = d["coininputs"][0]["fulfillment"]
    ctx.check(f["type"] == 2 and f["data"]["publickey"] == key.text, "the claim is signed by the claiming address")
    extra = (key.pub,) if secret is None else (key.pub, AtomicSwapSecret(value=secret))
    ctx.check(ctx.eq(f["data"].get("secret") or "00" * 32, "00" * 32 if secret is None else secret.hex()), "the secret is revealed only to redeem")
    ctx.check(ctx.eq(f["data"]["signature"], key.sign(r.signature_hash_get(0, *extra)).hex()), "the claim has a valid signature")
    ctx.check(d.get("arbitrarydata") == (base64.b64encode(data).decode() if data else None), "the data is attached")


from tfchain.types.ConditionTypes import AtomicSwapSecret  # noqa: E402

PARTIES = [("k0", "o0"), ("o0", "k0"), ("k1", "o1"), ("o0", "k1"), ("k0", "k1"), ("o0", "o1")]


@case("C36", params=[dict(s=s, r=r) for s, r in PARTIES] + [dict(s="o0", r="k0", net="devnet"), dict(s="o0", r="k0", spent="confirmed"),
                                                            dict(s="o0", r="k1", spent="unconfirmed")])
def redeem(ctx, s, r, net=None, spent=None):
    """Redeeming needs the secret, the receiver's key and an unspent contract."""
    c, w, time, lock, value, secret = contract_scene(ctx, s, r, spent, net)
    given = ctx.bytes("given", 32)
    data = ctx.choice("data", [None, b"claimed"])
    ok, x = ctx.attempt(lambda: w.atomicswap.redeem(OUT, given, data))
    right = ctx.eq(given, secret)
    mine = r[0] == "k"
    if not ok and spent:
        check_spent(ctx, x)
    elif not ok and not right:
        ctx.check(isinstance(x, errors.AtomicSwapInvalidSecret) and str(x.contract.outputid) == OUT, "a wrong secret is reported")
    elif not ok and not mine:
        ctx.check(isinstance(x, errors.AtomicSwapForbidden) and str(x.contract.outputid) == OUT, "redeeming for others is forbidden")
    check_claim(ctx, c, ok, x, ctx.all([right, mine, spent is None]), WHO[r], value, FEE[net], given, data)


@case("C36", params=[dict(s=s, r=r) for s, r in PARTIES] + [dict(s="k0", r="o0", net="devnet"), dict(s="k0", r="o0", spent="confirmed"),
                                                            dict(s="k1", r="o0", spent="unconfirmed")])
def refund(ctx, s, r, net=None, spent=None):
    """Refunding needs the sender's key, an unspent contract and the refund time to have come."""
    c, w, time, lock, value, secret = contract_scene(ctx, s, r, spent, net)
    data = ctx.choice("data", [None, b"back"])
    ok, x = ctx.attempt(lambda: w.atomicswap.refund(OUT, data))
    mine = s[0] == "k"
    due = time >= lock
    if not ok and spent:
        check_spent(ctx, x)
    elif not ok and not ctx.all([due, mine]):
        ctx.check(isinstance(x, errors.AtomicSwapForbidden) and str(x.contract.outputid) == OUT, "refunding early or for others is forbidden")
    check_claim(ctx, c, ok, x, ctx.all([due, mine, spent is None]), WHO[s], value, FEE[net], None, data)


@case("C36", params=[dict(kind=k) for k in ("plain", "locked", "missing")])
def not_a_contract(ctx, kind):
    c, w, time, lock, value, secret = contract_scene(ctx, "k0", "k0", kind=kind)
    if kind == "missing":
        del c.pages["/explorer/hashes/" + OUT]
    how = ctx.choice("how", ["redeem", "refund", "verify"])
    ok, x = ctx.attempt({"redeem": lambda: w.atomicswap.redeem(OUT, secret), "refund": lambda: w.atomicswap.refund(OUT),
                         "verify": lambda: w.atomicswap.verify(OUT)}[how])
    ctx.check(not ok and c.posted == [], "only atomic swap contracts can be claimed")
    if kind == "missing":
        ctx.check(isinstance(x, errors.AtomicSwapContractNotFound) and x.outputid == OUT, "an unknown contract is reported as not found")


# ------------------------------------------------------------------------------------------------- verify
class plain_messages:
    """Amounts and durations in error messages are written as plain numbers (their usual form forks on every digit)."""

    def __enter__(self):
        self.old = Currency.str, type(duration).toString
        Currency.str = lambda c, with_unit=False, precision=None: str(cur(c)) + (" units" if with_unit else "")
        type(duration).toString = lambda d, v: str(v) + "s"

    def __exit__(self, *x):
        Currency.str, type(duration).toString = self.old


@case("C36", params=[dict(given=g, spent=sp) for g in (False, True) for sp in (None, "confirmed", "unconfirmed") if not (g and sp)])
def verify(ctx, given, spent):
    """Verifying succeeds exactly when everything asked for holds, and then returns the contract as it is on the chain."""
    s, r = ctx.choice("parties", PARTIES)
    c, w, time, lock, value, secret = contract_scene(ctx, s, r, spent)
    kw, want = {}, []
    what = ctx.choice("what", ["nothing", "amount", "hash", "time", "time+", "sender", "receiver", "both", "id", "all"])
    if what in ("amount", "all"):
        a = ctx.int("a", 0, 2 ** 40)
        kw["amount"] = units(a)
        want.append(a == value)
    if what in ("hash", "all"):
        h = ctx.bytes("hash", 32)
        kw["secret_hash"] = h
        want.append(ctx.eq(h, sha(secret)))
    if what in ("time", "all"):
        m = ctx.int("m", -5, 2 ** 41)
        kw["min_refund_time"] = m
        want.append(ctx.ite(m <= time, lock <= time, lock >= m))
    if what == "time+":
        kw["min_refund_time"], m = ctx.choice("span", [("+1h", 3600), ("+2d", 172800), ("+1s", 1)])
        want.append(lock >= time + m)
    if what in ("sender", "both"):
        kw["sender"] = True
        want.append(s[0] == "k")
    if what in ("receiver", "both", "all"):
        kw["receiver"] = True
        want.append(r[0] == "k")
    if spent:
        want.append(False)
    outputid = OUT
    if given:
        ok, contract = ctx.attempt(lambda: w.atomicswap.verify(OUT))
        kw["contract"] = contract
    if what == "id":
        outputid = "1d" * 32
        want.append(False)
    with plain_messages():
        ok, x = ctx.attempt(lambda: w.atomicswap.verify(outputid, **kw))
    ctx.check(ctx.iff(ok, ctx.all(want)), "a contract is verified exactly when it is as expected", what)
    ctx.check(c.posted == [], "verifying submits nothing")
    if not ok:
        if spent and what != "id":
            ctx.check(isinstance(x, errors.AtomicSwapContractSpent), "a spent contract is reported as spent")
        elif what != "id":
            ctx.check(isinstance(x, errors.AtomicSwapContractInvalid), "a contract that is not as expected is reported as invalid")
        return
    check_contract(ctx, x, OUT, WHO[s].addr, WHO[r].addr, value, sha(secret), lock)


def check_contract(ctx, x, id, sender, receiver, value, hashed, lock):
    ctx.check(str(x.outputid) == id, "the contract names its output")
    ctx.check(str(x.sender) == sender, "the contract names its sender")
    ctx.check(str(x.receiver) == receiver, "the contract names its receiver")
    ctx.check(cur(x.amount) == value, "the contract has its amount")
    ctx.check(ctx.eq(bytes(x.secret_hash.value), hashed), "the contract has its secret hash")
    ctx.check(x.refund_timestamp == lock, "the contract has its refund time")
    ctx.check(x.unspent is True, "the contract is unspent")


@case("C36")
def contracts_compared(ctx):
    """Contracts are equal exactly when all their terms, their output and their status are."""
    def terms(p):
        return dict(id=ctx.bytes(p + "id", 32), amount=ctx.int(p + "v", 0, 2 ** 20), hashed=ctx.bytes(p + "h", 32),
                    lock=ctx.int(p + "t", 5 * 10 ** 8, 2 ** 40), unspent=True, sender=K[0].addr, receiver=O[0].addr)

    def make(x, now):
        cond = ConditionAtomicSwap(sender=x["sender"], receiver=x["receiver"], hashed_secret=x["hashed"], lock_time=x["lock"])
        return AtomicSwapContract(CoinOutput(value=units(x["amount"]), condition=cond, id=Hash(value=x["id"])), unspent=x["unspent"],
                                  current_timestamp=now)
    a, b = terms("a"), terms("b")
    what = ctx.choice("what", ["id", "amount", "hashed", "lock", "unspent", "sender", "receiver", "none"])
    b = dict(a, **{what: {"unspent": False, "sender": K[1].addr, "receiver": O[1].addr}.get(what, b.get(what))})
    x, y = make(a, 10), make(b, 20)
    want = {"none": lambda: True, "unspent": lambda: False, "sender": lambda: False, "receiver": lambda: False}.get(
        what, lambda: ctx.eq(a[what], b[what]))()
    ctx.check(ctx.iff(x == y, want), "contracts are equal exactly when their terms are")
    ctx.check(ctx.iff(x != y, ctx.no(want)), "!= is the negation")
    o = y.coin_output
    ctx.check(ctx.eq(str(o.id), b["id"].hex()) and cur(o.value) == b["amount"] and ctx.eq(o.condition.json(), y.condition.json()),
              "a contract's output is the one on the chain")


@case("C36")
def secrets_verified(ctx):
    """A secret is verified exactly when its hash is that of the contract."""
    hashed, secret = ctx.bytes("h", 32), ctx.bytes("s", 32)
    cond = ConditionAtomicSwap(sender=K[0].addr, receiver=O[0].addr, hashed_secret=hashed, lock_time=10 ** 9)
    c = AtomicSwapContract(CoinOutput(value=units(5), condition=cond, id=Hash(value=OUT)))
    form = ctx.choice("form", ["bytes", "text", "secret"])
    x = {"bytes": secret, "text": secret.hex(), "secret": AtomicSwapSecret(value=secret)}[form]
    ctx.check(ctx.iff(c.verify_secret(x), ctx.eq(hashed, sha(secret))), "a secret is right exactly when its hash is")


@case("C36")
def status_told(ctx):
    """The description tells whether the refund is available yet."""
    lock = ctx.choice("lock", [5 * 10 ** 8, 1600000000, 4 * 10 ** 9])
    span, text = ctx.choice("span", [(0, ""), (60, "1m"), (3540, "59m"), (3600, "1h"), (82800, "23h"), (86400, "1d"), (360060, "4d4h1m"), (10 ** 9 - 40, "11574d1h46m")])
    if lock < span + 10 ** 6:
        return
    left = ctx.int("left", span + 1, span + 59) if span else ctx.int("left", -200000, 50)
    given = ctx.choice("given", ["yes", "no", "zero", "negative"])
    now = lock - left
    ctx.now(now if given != "yes" else now + 90000)
    cond = ConditionAtomicSwap(sender=K[0].addr, receiver=O[0].addr, hashed_secret="ab" * 32, lock_time=lock)
    c = AtomicSwapContract(CoinOutput(value=units(5), condition=cond, id=Hash(value=OUT)),
                           current_timestamp={"yes": now, "no": None, "zero": 0, "negative": -5}[given])
    t = repr(c)
    when = datetime.fromtimestamp(lock, timezone.utc).strftime("%Y/%m/%d %H:%M:%S")
    if left <= 0:
        ctx.check("Refund is available since " + when in t, "the refund is available from its time on")
    else:
        ctx.check(ctx.eq("Refund available at " + when + " (in: %s%ds)." % (text, left - span) in t, True), "the refund is available later")
    for x in (OUT, K[0].addr, O[0].addr, "ab" * 32, "0.000000005 TFT"):
        ctx.check(x in t, "the contract is described by its output, amount, parties and secret hash")


# ------------------------------------------------------------------------------------------------- C37
CREATE = [
    dict(spec=("p0",)), dict(spec=("p0",), net="devnet", refund="other"), dict(spec=("p0", "p1"), src=("p1",), form="one"),
    dict(spec=("p0", "p1"), src=("p0", "p1"), refund="p1", data=b"swap"), dict(spec=("p0", "p1?"), net="testnet"), dict(spec=("p0", "p0-")),
    dict(spec=("p0!",)), dict(spec=("p0",), refund="list"), dict(spec=("p0", "p0?")), dict(spec=("m0",), src=("m0",)),
    dict(spec=("m1",), src=("m1",), form="one"), dict(spec=(),), dict(spec=("p1",), src=("other",)),
    dict(spec=("m3",), src=("m3",)), dict(spec=("p0", "m0", "m2"), src=("p0", "m0", "m2")), dict(spec=("p1", "p0") * 8, each=2 ** 29),
    dict(spec=("m2", "m3") * 5, src=("m2", "m3"), each=2 ** 29, refund="other", data=b"d" * 83),
]
TIMES = [(None, None), ("+1h", 3600), ("+7d12h", 648000), ("abs", None), ("+30s", 30)]


@case("C37", params=[dict(c=i, how=h) for i in range(len(CREATE)) for h in ("initiate", "participate")])
def create(ctx, c, how):
    """A contract is funded, signed and submitted like any other payment; its terms are the requested ones."""
    p = dict(dict(src=None, form="str", net=None, refund=None, data=None), **CREATE[c])
    alo, ahi, lo, hi = (-3, 2 ** 33, 0, 2 ** 33) if c == 0 else NARROW
    if "each" in p:
        alo, ahi, lo, hi = 2 ** 32, 2 ** 32 + 2 ** 20, p["each"], p["each"] + 10 ** 6
    chain, w, rows = scene(ctx, p["spec"], p["net"], lo, hi)
    time = ctx.int("now", 5 * 10 ** 8, 2 ** 40)
    chain.pages["/explorer/hashes/" + BLOCK]["block"]["rawblock"]["timestamp"] = time
    for r in rows:
        if r.locked is not False:
            l = r.out["condition"]["data"]["locktime"]
            h = chain.pages["/explorer/hashes/" + BLOCK]["block"]["height"]
            r.locked = ctx.any([ctx.all([l >= 500 * 10 ** 6, time < l]), ctx.all([l < 500 * 10 ** 6, h < l])])
    fee = FEE[p["net"]]
    amount = ctx.int("amount", alo, ahi)
    src, kinds = source(p["src"], p["form"])
    ref, refcond = refund_of(p["src"], p["refund"])
    submit = ctx.choice("submit", [True, False]) if c in (3, 10) else True
    rt, span = ctx.choice("refund_time", TIMES) if c in (0, 1) else TIMES[c % 5]
    kw = dict(source=src, refund=ref, data=p["data"], submit=submit)
    if rt == "abs":
        kw["refund_time"] = due = ctx.int("due", 5 * 10 ** 8, 2 ** 40)
    else:
        if rt is not None:
            kw["refund_time"] = rt
        due = time + (span or (172800 if how == "initiate" else 86400))
    other = O[1].addr
    if how == "initiate":
        ok, r = ctx.attempt(lambda: w.atomicswap.initiate(other, units(amount), **kw))
    else:
        hashed = ctx.bytes("hashed", 32)
        given = (hashed, hashed.hex())[c % 2]
        ok, r = ctx.attempt(lambda: w.atomicswap.participate(other, units(amount), given, **kw))
    need = amount + fee
    if not ok:
        ctx.check(chain.posted == [], "nothing is submitted when no contract is made")
        ctx.check(ctx.any([amount <= fee, have(ctx, rows, kinds) < need]), "contracts are made whenever they can be claimed and funded")
        if amount > fee:
            ctx.check(isinstance(r, errors.InsufficientFunds), "too little is reported as InsufficientFunds")
        elif amount > 0:
            ctx.check(isinstance(r, errors.AtomicSwapInsufficientAmountError), "amounts not worth the fee are refused")
            ctx.check(cur(r.amount) == amount and cur(r.minimum_miner_fee) == fee, "the amount and the fee are reported")
        return
    ctx.check(amount > fee, "amounts not worth the fee are refused")
    if how == "initiate":
        ctx.check(len(r.secret.value) == 32, "a new secret has 32 bytes")
        hashed = sha(r.secret.value)
    sender = K[0].addr if refcond["type"] != 1 else refcond["data"]["unlockhash"]
    d = r.transaction.json()["data"]
    ctx.check(sorted(set(d) - {"arbitrarydata"}) == ["coininputs", "coinoutputs", "minerfees"], "nothing else is in the transaction")
    got, done = check_inputs(ctx, d["coininputs"], r.transaction, rows, kinds, need)
    check_amounts(ctx, d["coinoutputs"], [(amount, c_swap(sender, other, bytes(hashed).hex(), due))], refcond, got - need)
    ctx.check([int(x) for x in d["minerfees"]] == [fee], "the minimum miner fee is paid")
    ctx.check(d.get("arbitrarydata") == (base64.b64encode(p["data"]).decode() if p["data"] else None), "the data is attached")
    check_posted(ctx, chain, r, done and submit)
    check_contract(ctx, r.contract, str(r.transaction.coin_outputid_new(0)), sender, other, amount, bytes(hashed), due)


# ------------------------------------------------------------------------------------------------- sizes of data (C36, C37)
SIZES = (0, 1, 83, 84, 200)


def check_data(ctx, chain, ok, r, data):
    n = len(data)
    ctx.check(ok == (n <= 83), "at most 83 bytes of data are attached")
    if not ok:
        return ctx.check(isinstance(r, ValueError) and chain.posted == [], "nothing is submitted with too much data")
    got = chain.posted[0][1]["data"].get("arbitrarydata")
    ctx.check(len(chain.posted) == 1 and ctx.eq(base64.b64decode(got or ""), data), "the data is attached in full")


@case("C36", params=[dict(n=n, how=h) for n in SIZES for h in ("redeem", "refund")])
def claim_data(ctx, n, how):
    """Up to 83 bytes of data are attached in full, with more nothing is claimed."""
    me = {"redeem": ("o0", "k1"), "refund": ("k1", "o0")}[how]
    c = Chain(time=10 ** 9)
    secret, data = b"\x21" * 32, ctx.bytes("data", n)
    c.page(OUT, swap_page(ctx, *me, 10 ** 10, sha(secret).hex(), 6 * 10 ** 8))
    w = wallet(c)
    ok, r = ctx.attempt(lambda: w.atomicswap.redeem(OUT, secret, data) if how == "redeem" else w.atomicswap.refund(OUT, data))
    check_data(ctx, c, ok, r, data)


@case("C37", params=[dict(n=n, how=h) for n in SIZES for h in ("initiate", "participate")])
def contract_data(ctx, n, how):
    """Up to 83 bytes of data are attached in full, with more no contract is made."""
    chain, w, rows = scene(ctx, ("p0",), lo=2 ** 32)
    data = ctx.bytes("data", n)
    args = (O[1].addr, units(2 ** 31)) + (("ab" * 32,) if how == "participate" else ())
    ok, r = ctx.attempt(lambda: getattr(w.atomicswap, how)(*args, data=data))
    check_data(ctx, chain, ok, r, data)


@case("C36", params=[dict(how=h, then=t) for h in ("redeem", "refund", "verify") for t in ("spent", "time", "other")])
def claimed_later(ctx, how, then):
    """Whether a contract may be claimed is decided by what the chain says then, not by what it said before."""
    me = {"redeem": ("o0", "k1")}.get(how, ("k1", "o0"))
    lock = ctx.int("lock", 10 ** 9 + 1, 2 ** 40)
    v = ctx.int("v", 10 ** 9, 2 ** 40)
    c = Chain(time=10 ** 9)
    secret = b"\x21" * 32
    c.page(OUT, swap_page(ctx, *me, v, sha(secret).hex(), lock))
    w = wallet(c)
    x = w.atomicswap.verify(OUT)
    check_contract(ctx, x, OUT, WHO[me[0]].addr, WHO[me[1]].addr, v, sha(secret), lock)
    if how == "refund":
        ok, r = ctx.attempt(lambda: w.atomicswap.refund(OUT))
        ctx.check(not ok and c.posted == [], "a contract is claimed exactly when it may be")
    time = 10 ** 9
    if then == "spent":
        c.page(OUT, swap_page(ctx, *me, v, sha(secret).hex(), lock, spent="confirmed"))
    elif then == "time":
        time = ctx.int("time", 10 ** 9, 2 ** 40)
        c.pages["/explorer/hashes/" + BLOCK]["block"]["rawblock"]["timestamp"] = time
    else:
        v = ctx.int("v2", 10 ** 9, 2 ** 40)
        c.page(OUT, swap_page(ctx, *me, v, sha(secret).hex(), lock))
    ok, r = ctx.attempt({"redeem": lambda: w.atomicswap.redeem(OUT, secret), "refund": lambda: w.atomicswap.refund(OUT), "verify": lambda: w.atomicswap.verify(OUT)}[how])
    ctx.check(ctx.iff(ok, ctx.all([then != "spent", ctx.any([how != "refund", time >= lock])])), "a contract is claimed exactly when it may be")
    if not ok:
        if then == "spent":
            check_spent(ctx, r)
        return ctx.check(c.posted == [], "nothing is submitted when a contract may not be claimed")
    if how == "verify":
        return check_contract(ctx, r, OUT, WHO[me[0]].addr, WHO[me[1]].addr, v, sha(secret), lock)
    ctx.check(len(c.posted) == 1 and cur(units(c.posted[0][1]["data"]["coinoutputs"][0]["value"])) == v - FEE[None], "everything but the fee is claimed")
