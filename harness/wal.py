"""C35...: what the wallet builds, signs and submits."""
import base64
from engine.api import case
from tfchain import errors
from harness.bal import cur, total, units
from harness.chain import *  # noqa: F401,F403

FEE = {None: 10 ** 8, "testnet": 10 ** 8, "devnet": 10 ** 9}
OWNERS = {"m0": ([K[0], O[0]], 2), "m1": ([K[1], O[1]], 1), "m2": ([K[0], K[1]], 2), "m3": ([O[1], K[1], K[0]], 2), "m4": ([O[0], K[0], O[1]], 2)}
MADDR = {k: multisig(ks, n) for k, (ks, n) in OWNERS.items()}
COND = {"p0": c_addr(K[0].addr), "p1": c_addr(K[1].addr)}
COND.update({k: c_multi([x.addr for x in ks], n) for k, (ks, n) in OWNERS.items()})
SRCADDR = dict(MADDR, p0=K[0].addr, p1=K[1].addr, other=O[3].addr)
MINE = {k.addr: k for k in K[:2]}


class Row:
    def __init__(self, id, kind, value, locked, confirmed, out):
        self.id, self.kind, self.value, self.locked, self.confirmed, self.out = id, kind, value, locked, confirmed, out


def txid(k, base=0x40):
    return "%02x" % (base + k) * 32 if k < 32 else b2(b"transaction %d %d" % (k, base)).hex()


def scene(ctx, spec, net=None, lo=0, hi=2 ** 40 - 1, keys=2):
    """A wallet whose addresses own an output per entry of spec: kind, '?' unconfirmed, '!' locked, '-' spent."""
    if any("!" in s for s in spec):
        height, time = ctx.int("height", 1, 2 ** 30), ctx.int("time", 1, 2 ** 40)
    else:
        height, time = 100, 1600000000
    chain = Chain(height=height, time=time, network=net)
    rows, pages = [], {}
    for k, s in enumerate(spec):
        kind = s.rstrip("?!-")
        v = ctx.int("v%d" % k, lo, hi) if len(spec) < 8 else lo + 7919 * k % (hi - lo + 1)
        c, locked = COND[kind], False
        if "!" in s:
            l = ctx.int("l%d" % k, 1, 2 ** 40)
            c = c_lock(l, c)
            locked = ctx.any([ctx.all([l >= 500 * 10 ** 6, time < l]), ctx.all([l < 500 * 10 ** 6, height < l])])
        o = output(v, c)
        txns = pages.setdefault(kind, [])
        txns.append(tx(txid(k), [o], [oid(k)], unconfirmed="?" in s, height=5 + k))
        if "-" in s:
            txns.append(tx(txid(k, 0x60), [output(1, c_addr(O[2].addr))], [txid(k, 0x80)],
                           [(oid(k), o, f_single(K[0]))], height=50 + k))
        else:
            rows.append(Row(oid(k), kind, v, locked, "?" not in s, o))
    for i, key in enumerate(K[:keys]):
        ms = [MADDR[m] for m in sorted(pages) if m[0] == "m" and key in OWNERS[m][0]]
        if "p%d" % i in pages or ms:
            chain.page(key.addr, hashpage(pages.get("p%d" % i, []), ms))
    for m in pages:
        if m[0] == "m":
            chain.page(MADDR[m], hashpage(pages[m]))
    return chain, wallet(chain, keys), rows


def cjson(ctx, c):
    return ctx.now(c)


def check_inputs(ctx, j, txn, rows, kinds, need, sighash=None):
    """Inputs spend distinct available outputs of the given kinds, signed by the right keys; returns (their sum, fulfilled)"""
    avail = {r.id: r for r in rows}
    used = [ci["parentid"] for ci in j]
    ctx.check(1 <= len(used) <= 99, "between 1 and 99 inputs are spent")
    ctx.check(len(set(used)) == len(used), "no output is spent twice")
    ctx.check(all(u in avail and avail[u].kind in kinds for u in used), "only outputs of the given sources are spent")
    ctx.check(ctx.no(ctx.any([avail[u].locked for u in used])), "only unlocked outputs are spent")
    fulfilled = True
    for i, ci in enumerate(j):
        kind, f = avail[used[i]].kind, ci["fulfillment"]
        if kind[0] == "p":
            key = K[int(kind[1:])]
            ctx.check(f["type"] == 1 and f["data"]["publickey"] == key.text, "an input is signed by the owner of the output it spends")
            ctx.check(ctx.eq(f["data"]["signature"], key.sign(txn.signature_hash_get(i)).hex()), "an input has the valid signature of its owner")
        else:
            ks, n = OWNERS[kind]
            mine = [k for k in ks if k.addr in MINE]
            pairs = f["data"]["pairs"]
            ctx.check(f["type"] == 3 and sorted(p["publickey"] for p in pairs) == sorted(k.text for k in mine),
                      "a multisig input is signed by the owners in this wallet")
            for p in pairs:
                key = [k for k in mine if k.text == p["publickey"]][0]
                ctx.check(ctx.eq(p["signature"], key.sign(txn.signature_hash_get(i, key.pub)).hex()), "a multisig input has valid signatures")
            fulfilled = fulfilled and len(mine) >= n
    return total(ctx, [avail[u].value for u in used]), fulfilled


def check_posted(ctx, chain, r, want):
    """Submitted exactly when fulfilled: once, as returned."""
    ctx.check(r.submitted == want, "a transaction is submitted exactly when it is fully signed")
    ctx.check(len(chain.posted) == (1 if want else 0), "a transaction is submitted once, or not at all")
    if want:
        ctx.check(chain.posted[0][0] == "/transactionpool/transactions", "it is submitted to the transaction pool")
        ctx.check(ctx.eq(chain.posted[0][1], r.transaction.json()), "what is submitted is the transaction that is returned")
        ctx.check(str(r.transaction.id) == TXID, "the transaction has the id the network gave it")
    else:
        ctx.check(str(r.transaction.id) != TXID, "a transaction that is not submitted does not get the id of one")


def have(ctx, rows, kinds):
    return total(ctx, [ctx.ite(r.locked, 0, r.value) for r in rows if r.kind in kinds])


def check_amounts(ctx, got, want, refund, rest):
    """Outputs are the wanted ones and one with the rest for the refund condition unless there is none."""
    some = bool(rest > 0)
    ctx.check(len(got) == len(want) + some, "the outputs are the requested ones and the change, if any")
    for o, (v, c) in zip(got, want + [(rest, refund)]):
        ctx.check(ctx.eq(o["condition"], c), "coins go where they should")
        ctx.check(cur(units(o["value"])) == v, "every output has its exact amount, the change what remains")


def check_unfunded(ctx, chain, e, rows, kinds, need):
    ctx.check(isinstance(e, errors.InsufficientFunds), "too little is reported as InsufficientFunds")
    ctx.check(have(ctx, rows, kinds) < need, "sending fails only if the sources have too little")
    ctx.check(chain.posted == [], "nothing is submitted when funds are missing")


# ------------------------------------------------------------------------------------------------- C35
P = ("p0", "p1")
RECIPIENTS = {
    "addr": (O[2].addr, c_addr(O[2].addr)), "own": (K[1].addr, c_addr(K[1].addr)), "none": (None, {"type": 0}),
    "list": ([O[2].addr, O[3].addr], c_multi([O[2].addr, O[3].addr], 2)),
    "tuple": (([K[0].addr, O[3].addr, O[2].addr], 2), c_multi([K[0].addr, O[3].addr, O[2].addr], 2)),
}
REFUNDS = {None: None, "p1": (K[1].addr, c_addr(K[1].addr)), "other": (O[0].addr, c_addr(O[0].addr)), "m0": (MADDR["m0"], c_addr(MADDR["m0"])),
           "list": ([K[0].addr, O[0].addr], c_multi([K[0].addr, O[0].addr], 2))}


def source(src, form="str"):
    if src is None:
        return None, P
    t = [SRCADDR[s] for s in src]
    return (t[0] if form == "one" else t), src


def refund_of(src, refund):
    """(argument, expected condition)"""
    if refund is not None:
        return REFUNDS[refund]
    if src is None or len(src) != 1:
        return None, c_addr(K[0].addr)
    return None, COND.get(src[0])


SEND = [
    # spec, source, form, net, refund, recipient, lock, data
    dict(spec=("p0",)), dict(spec=("p0",), net="devnet", recipient="own"), dict(spec=("p0", "p1"), recipient="list"),
    dict(spec=("p0", "p1?"), recipient="tuple", net="testnet"), dict(spec=("p0!", "p1"), recipient="none"), dict(spec=("p0", "p0-")),
    dict(spec=("p0?", "p0?"), lock=True), dict(spec=("p0", "p1"), src=("p1",), form="one", data=b"hello"),
    dict(spec=("p1",), src=("p1",), refund="other", lock=True, data="text"), dict(spec=("p0", "p1", "m0"), src=("p0", "p1"), refund="p1"),
    dict(spec=("p0",), src=("other",)), dict(spec=(),), dict(spec=("m0",), src=("m0",)), dict(spec=("m1",), src=("m1",), form="one", lock=True),
    dict(spec=("m2", "m2?"), src=("m2",), form="one"), dict(spec=("p1", "m2"), src=("p1", "m2"), refund="list"),
    dict(spec=("p0", "m0"), src=("p0", "m0"), data=b"\xff" * 83), dict(spec=("p0", "m3"), src=("m3",), refund="m0"),
    dict(spec=("p0", "m0")), dict(spec=("m1", "m0!"), src=("m0", "m1")),
]
MANY = [
    # spec, source, how many of the outputs are needed for the amount
    dict(spec=("p0",) * 8, part=6), dict(spec=("p1", "p0") * 8, part=15), dict(spec=("p0", "p1", "m2") * 6, src=("p0", "p1", "m2"), part=17),
    dict(spec=("m1",) * 20, src=("m1",), part=18), dict(spec=("m3",) * 10, src=("m3",), part=8, data=b"many"), dict(spec=("p0", "p1?") * 17, part=33, lock=True),
    dict(spec=("p0", "p1?") * 35, part=68, lock=True), dict(spec=("p1", "p0") * 49, part=97),
]


WIDE, NARROW = (1, 2 ** 41, 0, 2 ** 40), (2 ** 32, 2 ** 33 - 1, 2 ** 32, 2 ** 33 - 1)


@case("C35", params=[dict(c=i) for i in range(len(SEND))], thorough=[dict(c=i, wide=True) for i in range(1, len(SEND))])
def send(ctx, c, wide=False):
    p = dict(dict(src=None, form="str", net=None, refund=None, recipient="addr", lock=False, data=None), **SEND[c])
    alo, ahi, lo, hi = WIDE if wide or not c else NARROW
    chain, w, rows = scene(ctx, p["spec"], p["net"], lo, hi)
    fee = FEE[p["net"]]
    amount = ctx.int("amount", alo, ahi)
    to, cond = RECIPIENTS[p["recipient"]]
    lock = None
    if p["lock"]:
        lock = ctx.int("lock", 1, 2 ** 40)
        cond = c_lock(lock, cond)
    src, kinds = source(p["src"], p["form"])
    ref, refcond = refund_of(p["src"], p["refund"])
    ok, r = ctx.attempt(lambda: w.coins_send(to, units(amount), source=src, refund=ref, lock=lock, data=p["data"]))
    need = amount + fee
    if not ok:
        return check_unfunded(ctx, chain, r, rows, kinds, need)
    j = r.transaction.json()
    ctx.check(j["version"] == 1, "a regular transaction is made")
    d = j["data"]
    ctx.check(sorted(set(d) - {"arbitrarydata"}) == ["coininputs", "coinoutputs", "minerfees"], "nothing else is in the transaction")
    got, done = check_inputs(ctx, d["coininputs"], r.transaction, rows, kinds, need)
    check_amounts(ctx, d["coinoutputs"], [(amount, cond)], refcond, got - need)
    ctx.check([int(x) for x in d["minerfees"]] == [fee], "the minimum miner fee is paid")
    raw = p["data"].encode() if isinstance(p["data"], str) else p["data"]
    ctx.check(d.get("arbitrarydata") == (base64.b64encode(raw).decode() if raw else None), "the data is attached")
    check_posted(ctx, chain, r, done)


@case("C35", params=[dict(c=i) for i in range(len(MANY) - 2)], thorough=[dict(c=i) for i in range(len(MANY) - 2, len(MANY))])
def send_many(ctx, c):
    """Payments that need many outputs."""
    p = dict(dict(src=None, lock=False, data=None), **MANY[c])
    lo = 2 ** 32
    hi = lo + 2 ** 20
    chain, w, rows = scene(ctx, p["spec"], None, lo, hi)
    fee = FEE[None]
    amount = ctx.int("amount", p["part"] * hi + 2 ** 29, p["part"] * hi + 2 ** 29 + 2 ** 16)
    to, cond = RECIPIENTS["addr"]
    lock = ctx.int("lock", 1, 2 ** 40) if p["lock"] else None
    if p["lock"]:
        cond = c_lock(lock, cond)
    src, kinds = source(p["src"])
    ref, refcond = refund_of(p["src"], None)
    ok, r = ctx.attempt(lambda: w.coins_send(to, units(amount), source=src, refund=ref, lock=lock, data=p["data"]))
    need = amount + fee
    if not ok:
        return check_unfunded(ctx, chain, r, rows, kinds, need)
    d = r.transaction.json()["data"]
    ctx.check(sorted(set(d) - {"arbitrarydata"}) == ["coininputs", "coinoutputs", "minerfees"], "nothing else is in the transaction")
    ctx.check(p["part"] < len(d["coininputs"]) <= len(p["spec"]), "many outputs are spent")
    got, done = check_inputs(ctx, d["coininputs"], r.transaction, rows, kinds, need)
    check_amounts(ctx, d["coinoutputs"], [(amount, cond)], refcond, got - need)
    ctx.check([int(x) for x in d["minerfees"]] == [fee], "the minimum miner fee is paid")
    ctx.check(d.get("arbitrarydata") == (base64.b64encode(p["data"]).decode() if p["data"] else None), "the data is attached")
    check_posted(ctx, chain, r, done)


@case("C35")
def nothing_to_send(ctx):
    """Amounts that are not positive and locks or data for ERC20 recipients are refused, and nothing is submitted."""
    chain, w, rows = scene(ctx, ("p0",), lo=2 ** 32)
    how = ctx.choice("how", ["zero", "negative", "zero-builder", "erc20-lock", "erc20-data"])
    eth = "0x" + "ab" * 20
    f = {"zero": lambda: w.coins_send(O[0].addr, 0), "negative": lambda: w.coins_send(O[0].addr, ctx.int("n", -2 ** 40, 0)),
         "zero-builder": lambda: w.coin_transaction_builder_new().output_add(O[0].addr, ctx.int("n", -2 ** 40, 0)),
         "erc20-lock": lambda: w.coins_send(eth, 1, lock=ctx.int("l", 1, 2 ** 40)),
         "erc20-data": lambda: w.coins_send(eth, 1, data=b"abc")}[how]
    ok, e = ctx.attempt(f)
    ctx.check(not ok and isinstance(e, (ValueError, errors.CurrencyNegativeValue)), "a send that makes no sense is refused")
    ctx.check(chain.posted == [], "a send that makes no sense is refused")


BUILD = [
    dict(spec=("p0",), outs=("addr",)), dict(spec=("p0",), outs=("own", "list"), data=b"x"), dict(spec=("p1",), outs=("none", "tuple!"), refund="other"),
    dict(spec=("p0",), outs=("addr", "addr", "own!"), net="devnet"), dict(spec=("p0", "p1"), outs=("addr!", "addr"), src=("p1",), form="one"),
    dict(spec=("m0",), outs=("addr",), src=("m0",)), dict(spec=("m1", "m2"), outs=("addr", "own"), src=("m1", "m2")), dict(spec=("p0",), outs=()),
    dict(spec=("p0",), outs=("addr", "own!", "list", "tuple", "none") * 2), dict(spec=("p0", "p1"), outs=("addr", "own", "tuple!") * 10, data=b"x" * 83),
    dict(spec=("p1",), outs=("addr",) * 130), dict(spec=("m2",), src=("m2",), outs=("list", "addr") * 9),
]


@case("C35", params=[dict(c=i) for i in range(len(BUILD))])
def build(ctx, c):
    """The builder sends any number of outputs at once, in order."""
    p = dict(dict(src=None, form="str", net=None, refund=None, data=None), **BUILD[c])
    alo, ahi, lo, hi = (2 ** 30, 2 ** 32 - 1, 2 ** 32, 2 ** 33 - 1)
    chain, w, rows = scene(ctx, p["spec"], p["net"], lo, hi)
    fee = FEE[p["net"]]
    b = w.coin_transaction_builder_new()
    want = []
    for k, o in enumerate(p["outs"]):
        to, cond = RECIPIENTS[o.rstrip("!")]
        few = len(p["outs"]) < 5 or k == len(p["outs"]) - 1
        lock, a = None, ctx.int("a%d" % k, alo, ahi) if few else 2 ** 20 + 6007 * k
        if "!" in o:
            lock = ctx.int("lock%d" % k, 1, 2 ** 40) if few else 10 ** 6 + k
            cond = c_lock(lock, cond)
        ctx.check(b.output_add(to, units(a), lock) is b, "outputs can be chained")
        want.append((a, cond))
    need = total(ctx, [a for a, _ in want]) + fee
    src, kinds = source(p["src"], p["form"])
    ref, refcond = refund_of(p["src"], p["refund"])
    ok, r = ctx.attempt(lambda: b.send(source=src, refund=ref, data=p["data"]))
    if not ok:
        return check_unfunded(ctx, chain, r, rows, kinds, need)
    d = r.transaction.json()["data"]
    ctx.check(sorted(set(d) - {"arbitrarydata"}) == ["coininputs", "coinoutputs", "minerfees"], "nothing else is in the transaction")
    got, done = check_inputs(ctx, d["coininputs"], r.transaction, rows, kinds, need)
    check_amounts(ctx, d["coinoutputs"], want, refcond, got - need)
    ctx.check([int(x) for x in d["minerfees"]] == [fee], "the minimum miner fee is paid")
    ctx.check(d.get("arbitrarydata") == (base64.b64encode(p["data"]).decode() if p["data"] else None), "the data is attached")
    check_posted(ctx, chain, r, done)
    n = len(chain.posted)
    ok, e = ctx.attempt(lambda: b.output_add(O[0].addr, 1))
    ctx.check(not ok, "a builder that has sent takes no more outputs")
    ok, e = ctx.attempt(lambda: b.send())
    ctx.check(not ok and len(chain.posted) == n, "a builder sends once")


@case("C35", params=[dict(n=n, how=h) for n in (0, 1, 82, 83, 84, 85, 166, 300) for h in ("send", "build")])
def amount_of_data(ctx, n, how):
    """Up to 83 bytes of data are attached in full; with more, nothing is sent."""
    chain, w, rows = scene(ctx, ("p0",), lo=2 ** 32)
    data = ctx.bytes("data", n)
    if ctx.choice("text", [False, True]):
        for x in data:
            ctx.assume(x < 128)
        data = data.decode()
    if how == "send":
        ok, r = ctx.attempt(lambda: w.coins_send(O[0].addr, units(2 ** 31), data=data))
    else:
        b = w.coin_transaction_builder_new().output_add(O[0].addr, units(2 ** 31))
        ok, r = ctx.attempt(lambda: b.send(data=data))
    ctx.check(ok == (n <= 83), "at most 83 bytes of data are sent")
    if not ok:
        ctx.check(isinstance(r, ValueError) and chain.posted == [], "nothing is sent with too much data")
        return
    raw = data.encode() if isinstance(data, str) else data
    d = r.transaction.json()["data"]
    ctx.check(ctx.eq(bytes(r.transaction.data.value), raw), "the data is attached in full")
    ctx.check(len(chain.posted) == 1 and ctx.eq(chain.posted[0][1]["data"].get("arbitrarydata"), d.get("arbitrarydata")), "the data is attached in full")


@case("C35", params=[dict(what=x) for x in ("spent", "more", "fewer")])
def send_again(ctx, what):
    """A second send spends what the explorer then says is available."""
    chain, w, rows = scene(ctx, ("p0", "p1"), lo=2 ** 32)
    ok, r = ctx.attempt(lambda: w.coins_send(O[0].addr, units(2 ** 31)))
    ctx.check(ok and len(chain.posted) == 1, "coins are sent")
    v = ctx.int("v9", 2 ** 32, 2 ** 40 - 1)
    o = output(v, COND["p1"])
    if what == "more":
        txns = [tx(txid(1), [rows[1].out], [rows[1].id]), tx(txid(9), [o], [oid(9)], height=60)]
        rows.append(Row(oid(9), "p1", v, False, True, o))
        chain.page(K[1].addr, hashpage(txns))
    else:
        chain.page(K[0].addr, hashpage([tx(txid(0), [rows[0].out], [rows[0].id]),
                                        tx(txid(8), [output(1, c_addr(O[0].addr))], [txid(0, 0x80)], [(rows[0].id, rows[0].out, f_single(K[0]))], height=50)]))
        del rows[0]
        if what == "fewer":
            del chain.pages["/explorer/hashes/" + K[1].addr]
            del rows[:]
    chain.posted = []
    ok, r = ctx.attempt(lambda: w.coins_send(O[0].addr, units(2 ** 31)))
    need = 2 ** 31 + FEE[None]
    if not ok:
        return check_unfunded(ctx, chain, r, rows, ("p0", "p1"), need)
    d = r.transaction.json()["data"]
    got, done = check_inputs(ctx, d["coininputs"], r.transaction, rows, ("p0", "p1"), need)
    check_posted(ctx, chain, r, done)
