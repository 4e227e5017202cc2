"""C38, C39, C42, C44: the wallet's keys, co-signing, balances and transactions as reported by the explorer."""
import base64
from engine.api import case
from tfchain import errors
from tfchain.types.CryptoTypes import Hash, UnlockHash
from harness.bal import cur, person, total, units
from harness.chain import *  # noqa: F401,F403
from harness.txb import Fixed
from harness.wal import MADDR, OWNERS, COND, scene, txid

KS = [Key(i) for i in range(16)]


def used_page(k):
    return hashpage([tx("%02x" % (0x40 + k) * 32, [output(1, c_addr(KS[k].addr))], ["%02x" % (k + 1) * 32])])


def scan(start, step, used):
    """(used keys found, unused keys before the last used one, next index) when keys are looked for in steps"""
    found, gaps = [], []
    while True:
        hits = [i for i in range(start, start + step) if used(i)]
        if not hits:
            break
        for i in range(start, hits[-1] + 1):
            (found if i in hits else gaps).append(i)
        more = hits[-1] == start + step - 1
        start = hits[-1] + 1
        if not more:
            break
    return found, gaps, start


# ------------------------------------------------------------------------------------------------- C38
@case("C38", params=[dict(n=1, step=1), dict(n=1, step=2), dict(n=1, step=3), dict(n=2, step=3), dict(n=3, step=2), dict(n=1, step=None),
                     dict(n=0, step=4), dict(n=2, step=4, far=8)],
      thorough=[dict(n=1, step=5, far=10), dict(n=2, step=3, far=10), dict(n=4, step=2, far=11)])
def scanning(ctx, n, step, far=6):
    """Used keys are found again from the seed; unused keys before them are handed out first; no key is lost or repeated."""
    flags = {}

    def used(i):
        if i >= max(1, n) + far:
            return False
        if i not in flags:
            flags[i] = bool(ctx.choice("used%d" % i, [0, 1]))
        return flags[i]
    s = 3 if step is None else step
    first = max(1, n)
    found, gaps, nxt = scan(first, s, used)
    c = Chain()
    for i in flags:
        if flags[i]:
            c.page(KS[i].addr, used_page(i))
    kw = {} if step is None else {"key_scan_count": step}
    w = TFChainWallet(seed=SEED, key_count=n, client=c, **kw)
    ctx.check(w.address == KS[0].addr, "the primary address is that of the first key")
    ctx.check(w.key_count == nxt, "scanning goes on as long as it finds used keys")
    got = w.addresses
    ctx.check(got[:first] == [k.addr for k in KS[:first]], "the first keys of the seed are the first addresses")
    ctx.check(sorted(got) == sorted(KS[i].addr for i in list(range(first)) + found), "every used key is found again")
    ctx.check(w.key_count == nxt, "scanning again changes nothing")
    for i in gaps + [nxt, nxt + 1]:
        a = w.address_new()
        ctx.check(a == KS[i].addr, "unused keys are handed out before new ones, in order")
        ctx.check(str(w.key_pair_get(a).public_key) == KS[i].text, "a new address has its key")
    ctx.check(len(set(w.addresses)) == len(w.addresses) == first + len(found) + len(gaps) + 2, "every address is listed once")


@case("C38")
def later_activity(ctx):
    """Keys that get used later are found by the next look at the addresses."""
    c = Chain()
    w = TFChainWallet(seed=SEED, key_count=1, key_scan_count=3, client=c)
    ctx.check(w.addresses == [KS[0].addr], "unused keys are no addresses")
    i = ctx.choice("which", [1, 2, 3])
    c.page(KS[i].addr, used_page(i))
    how = ctx.choice("how", ["addresses", "balance", "transactions"])
    if how == "balance":
        ctx.check(cur(w.balance.available) == 1, "coins on keys used meanwhile are found")
    elif how == "transactions":
        ctx.check(len(w.transactions) == 1, "transactions on keys used meanwhile are found")
    ctx.check(sorted(w.addresses) == sorted([KS[0].addr, KS[i].addr]), "keys used meanwhile are found")


@case("C38", params=[dict(step=0), dict(step=1)])
def derivation(ctx, step):
    """The i-th key is that of the hash of the seed and i, for every seed."""
    seed = ctx.bytes("seed", 32)
    w = TFChainWallet(seed=seed, key_count=2, key_scan_count=step, client=Chain())
    ks = [Key(i, seed) for i in range(4)]
    got = w.addresses
    ctx.check(len(got) == 2, "as many addresses as asked for")
    for a, k in zip(got, ks):
        ctx.check(ctx.eq(a, k.addr), "keys are derived from the seed and their index")
    ctx.check(ctx.eq(w.address_new(), ks[2].addr), "keys are derived from the seed and their index")
    ctx.check(ctx.eq(str(w.public_key_new()), ks[3].text), "keys are derived from the seed and their index")
    p = w.key_pair_get(w.addresses[1])
    h = ctx.bytes("hash", 32)
    ctx.check(ctx.eq(p.sign(h), ks[1].sign(h)), "an address signs with its own key")
    ctx.check(ctx.eq(bytes(w.seed), seed), "the seed is kept")


@case("C38", params=[dict(size=z) for z in (16, 24, 32)])
def phrase(ctx, size):
    """The phrase of a seed gives the same wallet; a phrase that is none gives no wallet."""
    seed = ctx.choice("seed", [bytes(size), b"\xff" * size, bytes(range(3, 3 + size)), b2(b"phrase")[:size], b"\0" * (size - 1) + b"\1"])
    c = Chain()
    i = ctx.choice("used", [None, 1, 2])
    if i is not None:
        a = Key(i, seed).addr
        c.page(a, hashpage([tx("41" * 32, [output(1, c_addr(a))], ["42" * 32])]))
    w = TFChainWallet(seed=seed, client=c)
    words = w.mnemonic.split()
    ctx.check(len(words) == {16: 12, 24: 18, 32: 24}[size], "the phrase is as long as the seed needs")
    again = TFChainWallet(seed=" ".join(words), client=c)
    ctx.check(bytes(again.seed) == seed == bytes(w.seed), "the phrase stands for the seed")
    ctx.check(again.mnemonic == w.mnemonic, "the phrase is that of the seed")
    ctx.check(again.addresses == w.addresses == [Key(k, seed).addr for k in (0, i) if k is not None], "the wallet of the phrase has the same keys")
    for bad in (words[:-1], words + [words[0]], ["nosuchword"] + words[1:], []):
        ok, _ = ctx.attempt(lambda: TFChainWallet(seed=" ".join(bad), client=c))
        ctx.check(not ok, "a text that is no phrase gives no wallet")


@case("C38", params=[dict(n=n) for n in (16, 100, 129, 258)], thorough=[dict(n=n) for n in (513, 1025)])
def many_keys(ctx, n):
    """The keys of a wallet with many of them."""
    w = TFChainWallet(seed=SEED, key_count=n, key_scan_count=0, client=Chain())
    got = w.addresses
    ctx.check(len(got) == w.key_count == n, "as many addresses as asked for")
    i = ctx.choice("i", [1, n // 2, n - 2, n - 1])
    k = Key(i)
    ctx.check(got[i] == k.addr, "keys are derived from the seed and their index")
    ctx.check(len(set(got)) == n, "every address is listed once")
    msg = ctx.bytes("msg", 32)
    ctx.check(ctx.eq(w.key_pair_get(k.addr).sign(Hash(value=msg)), k.sign(msg)), "each address is signed for with its own key")
    ctx.check(w.address_new() == Key(n).addr and str(w.public_key_new()) == Key(n + 1).text, "keys are derived from the seed and their index")


@case("C38", params=[dict(n=n) for n in (1, 2)])
def no_scanning(ctx, n):
    """A scan count of zero turns scanning off."""
    c = Chain()
    for i in (n, n + 1):
        if ctx.choice("used%d" % i, [True, False]):
            c.page(KS[i].addr, used_page(i))
    w = TFChainWallet(seed=SEED, key_count=n, key_scan_count=0, client=c)
    ctx.check(w.addresses == [k.addr for k in KS[:n]] and w.key_count == n, "no key is looked for")
    ctx.check(w.address_new() == KS[n].addr, "the next key is the first new one")


@case("C38")
def foreign_keys(ctx):
    w = wallet(Chain())
    for a in (O[0].addr, UnlockHash.from_json(O[0].addr), KS[2].addr):
        ok, e = ctx.attempt(w.key_pair_get, a)
        ctx.check(not ok and isinstance(e, KeyError), "a wallet has no keys of others")
    for a in (KS[1].addr, UnlockHash.from_json(KS[1].addr)):
        ctx.check(str(w.key_pair_get(a).public_key) == KS[1].text, "a wallet finds its keys")
    ctx.check(str(w.key_pair_get(NIL).public_key) == KS[0].text, "what anyone may sign is signed with the primary key")


@case("C38", params=[dict(t=t, form=f) for t in ("01", "02", "03") for f in ("text", "object")] + [dict(t=None, form="text")])
def no_key_for(ctx, t, form):
    """Whatever address is asked for, its own key is given or none."""
    w = wallet(Chain())
    if t is None:
        a = ctx.str("a", 78, "0123456789abcdef")
        ctx.assume(ctx.no(ctx.eq(a[:2], "00")))
    else:
        a = address(int(t), ctx.bytes("a", 32))
    ok, x = ctx.attempt(w.key_pair_get, a if form == "text" else UnlockHash.from_json(a))
    own = [ctx.eq(a, k.addr) for k in KS[:2]]
    ctx.check(ctx.iff(ok, ctx.any(own)), "a wallet has the keys of its addresses only")
    if ok:
        for k, e in zip(KS, own):
            ctx.check(ctx.iff(e, str(x.public_key) == k.text), "an address has its own key")
    else:
        ctx.check(isinstance(x, KeyError), "a wallet has no keys of others")


# ------------------------------------------------------------------------------------------------- C39
# owner addresses and needed signatures per multisig kind: see harness.wal.OWNERS (K: this wallet, O: others)
SIGN = [
    # inputs: (kind of the parent, who has signed already, known to the wallet)
    [("m0", (), True)], [("m0", ("O0",), True)], [("m0", ("K0",), True)], [("m2", (), True)], [("m2", ("K1",), True)], [("m3", ("O1",), True)],
    [("m1", ("O1",), True)], [("p0", (), True)], [("p0", (), True), ("m0", ("O0",), True)], [("m0", ("O0",), True), ("m0", (), True)],
    [("p1", (), True), ("p0", (), False)], [("m0", ("O0",), False)], [("p0", ("K0",), True), ("p1", (), True)],
    [("m3", (), True)], [("m1", (), True), ("m3", (), True)], [("m0", (), True), ("p1", (), True)], [("m3", (), True), ("m0", ("O0",), True), ("p0", (), True)],
    [("m0?", ("O0",), True)], [("m2?", (), True)], [("p1?", (), True), ("m3?", ("O1",), True)], [("p0?", (), True), ("p0", (), True)],
    [("m0", ("O0",), True), ("p0", (), True), ("m3", ("O1",), True), ("p1", (), True)] * 2,
    [("p0", (), True)] * 8 + [("m0", (), True)], [("m0", ("O0",), True)] * 9, [("p1", (), True)] * 10 + [("p0", (), False)],
    [("m2", ("K1",), True), ("m3", ("K0",), True), ("p0", ("K0",), True)] * 6,
    [("m4", ("K0", "O0"), True)], [("m4", ("K0", "O1"), True), ("m4", ("O0", "O1"), True)], [("m4", ("K0",), True), ("p0", (), True)],
    [("m4", ("K0", "O1"), True), ("p0", ("K0",), True)], [("p1?", (), True)] * 9 + [("m2?", (), True)] * 2,
    [("m0", ("O0",), True)] * 17, [("p1", (), True)] * 24 + [("p0", (), False)],
]
BYNAME = {"K0": K[0], "K1": K[1], "O0": O[0], "O1": O[1]}


def f_multi(pairs):
    return {"type": 3, "data": {"pairs": [{"publickey": k.text, "signature": s} for k, s in pairs]}}


@case("C39", params=[dict(c=i) for i in range(len(SIGN) - 2)], thorough=[dict(c=i) for i in range(len(SIGN) - 2, len(SIGN))])
def co_sign(ctx, c):
    """Signing adds exactly the signatures that miss and that this wallet can give; what is complete then is submitted."""
    spec = SIGN[c]
    chain, w, rows = scene(ctx, [k + ("" if known else "-") for k, _, known in spec], lo=2 ** 32, hi=2 ** 33 - 1)
    spec = [(kind.rstrip("?"), signed, known) for kind, signed, known in spec]  # '?': the output is unconfirmed
    inputs, sigs = [], {}
    long = len(spec) > 4
    on = lambda n: Fixed(ctx) if long and n not in (0, len(spec) - 1) else ctx  # noqa: E731
    for n, (kind, signed, known) in enumerate(spec):
        pairs = []
        for s in signed:
            sigs[n, s] = on(n).bytes("sig%d%s" % (n, s), 64).hex()
            pairs.append((BYNAME[s], sigs[n, s]))
        if kind[0] == "m":
            f = f_multi(pairs)
        elif pairs:
            f = f_single(*pairs[0])
        else:
            f = {"type": 1, "data": {"publickey": ctx.choice("empty%d" % n, ["", ":" + "0" * 64, BYNAME["K" + kind[1:]].text][n % 3:][:1] if long else
                                                             ["", ":" + "0" * 64, BYNAME["K" + kind[1:]].text]), "signature": ""}}
        inputs.append({"parentid": oid(n), "fulfillment": f})
    a, b = ctx.int("a", 2 ** 15 if long else 1, 2 ** 16 - 1), 5 if long else ctx.int("b", 1, 2 ** 16 - 1)
    j = {"version": 1, "data": {"coininputs": inputs, "coinoutputs": [output(a, c_addr(O[2].addr)), output(b, COND["p1"])],
                                "minerfees": [str(10 ** 8)], "arbitrarydata": "aGVsbG8="}}
    submit = ctx.choice("submit", [True, False])
    form = ctx.choice("form", ["dict", "object", "text"]) if c < 3 else "object"
    arg = {"dict": lambda: j, "text": lambda: json.dumps(j), "object": lambda: transactions_from_json(j)}[form]()
    r = w.transaction_sign(arg, submit=submit)
    t = r.transaction
    d = t.json()["data"]
    ctx.check(sorted(d) == sorted(j["data"]), "signing changes only the signatures")
    for k in ("coinoutputs", "minerfees", "arbitrarydata"):
        ctx.check(ctx.eq(d[k], j["data"][k]), "signing changes only the signatures", k)
    ctx.check([x["parentid"] for x in d["coininputs"]] == [oid(n) for n in range(len(spec))], "signing changes only the signatures")
    added, complete = 0, True
    for n, (kind, signed, known) in enumerate(spec):
        f = d["coininputs"][n]["fulfillment"]
        if kind[0] == "m":
            ks, need = OWNERS[kind]
            mine = [k for k in ks if k in K[:2] and k not in [BYNAME[s] for s in signed]] if known else []
            got = {p["publickey"]: p["signature"] for p in f["data"]["pairs"]}
            ctx.check(sorted(got) == sorted([BYNAME[s].text for s in signed] + [k.text for k in mine]) and len(got) == len(f["data"]["pairs"]),
                      "exactly the missing signatures of this wallet are added")
            for k in mine:
                ctx.check(ctx.eq(got[k.text], k.sign(t.signature_hash_get(n, k.pub)).hex()), "added signatures are valid")
            for s in signed:
                ctx.check(ctx.eq(got[BYNAME[s].text], sigs[n, s]), "signatures of others are kept")
            added += len(mine)
            complete = complete and known and len(got) >= need
        elif signed or not known:
            ctx.check(ctx.eq(f, inputs[n]["fulfillment"]) if signed else f["data"]["signature"] == "", "other inputs are left alone")
            complete = complete and known
        else:
            k = BYNAME["K" + kind[1:]]
            ctx.check(f["data"]["publickey"] == k.text, "an input is signed by the owner of the output it spends")
            ctx.check(ctx.eq(f["data"]["signature"], k.sign(t.signature_hash_get(n)).hex()), "added signatures are valid")
            added += 1
    ctx.check(r.signed == (added > 0), "it is told whether anything was signed")
    # a transaction that was complete already, so that this wallet adds nothing, may be submitted or not
    want = complete and submit and added > 0
    ctx.check(not want or r.submitted, "a complete transaction is submitted if asked for")
    ctx.check(len(chain.posted) == (1 if r.submitted else 0), "a transaction is submitted once, or not at all")
    ctx.check(not r.submitted or complete and submit, "incomplete transactions are not submitted")
    if r.submitted:
        ctx.check(ctx.eq(chain.posted[0][1], t.json()), "what is submitted is the signed transaction")
        ctx.check(str(t.id) == TXID, "the transaction has the id the network gave it")


MINTSIGN = [("p0", ()), ("p1", ()), ("m0", ()), ("m0", ("O0",)), ("m0", ("K0",)), ("m0", ("O0", "K0")), ("m2", ()), ("m2", ("K0",)), ("m2", ("K1",)),
            ("m3", ("O1",)), ("m3", ("K1",)), ("m3", ()), ("m1", ("O1",)), ("o", ()), ("m0!", ("O0",)), ("m4", ("K0", "O0")), ("m4", ("O0", "O1")), ("m4", ("K0",)), ("m4", ("O1",))]


@case("C39", params=[dict(v=v, c=c, form=f) for v in (128, 129) for c in range(len(MINTSIGN)) for f in (("dict", "text", "object", "new") if c < 4 else ("dict",))
                     if f != "new" or not MINTSIGN[c][1]])
def co_sign_mint(ctx, v, c, form):
    """The current minters' signatures are added to those of others to a mint transaction."""
    kind, signed = MINTSIGN[c]
    chain = Chain()
    w = wallet(chain)
    cond = COND.get(kind.rstrip("!")) or c_addr(O[0].addr)
    if kind.endswith("!"):
        cond = c_lock(ctx.int("mintlock", 1, 2 ** 40), cond)
    chain.pages["/explorer/mintcondition"] = {"mintcondition": cond}
    ks, need = OWNERS.get(kind.rstrip("!")) or ([{"p0": K[0], "p1": K[1], "o": O[0]}[kind]], 1)
    sigs = {s: ctx.bytes("sig" + s, 64).hex() for s in signed}
    f = f_multi([(BYNAME[s], sigs[s]) for s in signed]) if kind[0] == "m" else {"type": 1, "data": {"publickey": "", "signature": ""}}
    a = ctx.int("a", 1, 2 ** 16 - 1)
    data = base64.b64encode(ctx.bytes("data", 40)).decode()
    d = {"nonce": "AQIDBAUGBwg=", "mintfulfillment": f, "minerfees": [str(10 ** 8)], "arbitrarydata": data}
    d.update({"mintcondition": c_lock(77, COND["m1"])} if v == 128 else {"coinoutputs": [output(a, c_addr(K[1].addr)), output(5, COND["m3"])]})
    j = {"version": v, "data": d}
    submit = ctx.choice("submit", [True, False])
    if form == "new":
        arg = transactions_from_json(dict(j, data=dict(d, mintfulfillment=f_single(K[0]))))
        arg._mint_fulfillment = None
    else:
        arg = {"dict": lambda: j, "text": lambda: json.dumps(j), "object": lambda: transactions_from_json(j)}[form]()
    r = w.transaction_sign(arg, submit=submit)
    t = r.transaction
    g = t.json()["data"]
    ctx.check(sorted(g) == sorted(d), "signing changes only the signatures")
    for k in d:
        if k != "mintfulfillment":
            ctx.check(ctx.eq(g[k], d[k]), "signing changes only the signatures", k)
    mine = [k for k in ks if k in K[:2] and k not in [BYNAME[s] for s in signed]]
    x = g["mintfulfillment"]["data"]
    if kind[0] == "m":
        got = {p["publickey"]: p["signature"] for p in x["pairs"]}
        ctx.check(sorted(got) == sorted([BYNAME[s].text for s in signed] + [k.text for k in mine]) and len(got) == len(x["pairs"]),
                  "exactly the missing signatures of this wallet are added")
        for k in mine:
            ctx.check(ctx.eq(got[k.text], k.sign(t.signature_hash_get(k.pub)).hex()), "added signatures are valid")
        for s in signed:
            ctx.check(ctx.eq(got[BYNAME[s].text], sigs[s]), "signatures of others are kept")
        complete = len(got) >= need
    else:
        complete = bool(mine)
        ctx.check(x["publickey"] == mine[0].text if mine else x["signature"] == "", "a mint transaction is signed by the minter")
        if mine:
            ctx.check(ctx.eq(x["signature"], mine[0].sign(t.signature_hash_get()).hex()), "added signatures are valid")
    ctx.check(r.signed == bool(mine), "it is told whether anything was signed")
    ctx.check(not (complete and submit and mine) or r.submitted, "a complete transaction is submitted if asked for")
    ctx.check(not r.submitted or complete and submit, "incomplete transactions are not submitted")
    ctx.check(len(chain.posted) == (1 if r.submitted else 0), "a transaction is submitted once, or not at all")
    if r.submitted:
        ctx.check(ctx.eq(chain.posted[0][1], t.json()), "what is submitted is the signed transaction")
        ctx.check(str(t.id) == TXID, "the transaction has the id the network gave it")


def transactions_from_json(j):
    from tfchain.types import transactions
    return transactions.from_json(j)


# ------------------------------------------------------------------------------------------------- C42
TARGET = {"p0": (K[0].addr, c_addr(K[0].addr)), "free": (NIL, {"type": 0}), "m0": (MADDR["m0"], COND["m0"]), "m3": (MADDR["m3"], COND["m3"])}


def minter_tx(id, cond, unconfirmed):
    d = {"nonce": "AQIDBAUGBwg=", "mintfulfillment": f_single(O[3]), "mintcondition": cond, "minerfees": [str(10 ** 9)]}
    t = tx(id, unconfirmed=unconfirmed)
    t["rawtransaction"] = {"version": 128, "data": d}
    return t


def locked_now(ctx, l, height, time):
    return ctx.any([ctx.all([l >= 500 * 10 ** 6, time < l]), ctx.all([l < 500 * 10 ** 6, height < l])])


class Seen:
    """The outputs of one address, by the most final state they are known in: 1 unconfirmed, 2 confirmed, 3 unconfirmed spent, 4 spent."""

    def __init__(self):
        self.best = {}

    def see(self, i, rank):
        self.best[i] = max(self.best.get(i, 0), rank)

    def check(self, ctx, b, vals, locked):
        for rank, name in ((2, "available"), (1, "unconfirmed")):
            ks = [i for i in self.best if self.best[i] == rank]
            ctx.check(cur(getattr(b, name)) == total(ctx, [ctx.ite(locked[i], 0, vals[i]) for i in ks]), "unlocked coins are reported", name)
            lname = "locked" if rank == 2 else "unconfirmed_locked"
            ctx.check(cur(getattr(b, lname)) == total(ctx, [ctx.ite(locked[i], vals[i], 0) for i in ks]), "locked coins are reported", lname)
        for rank, name in ((4, "outputs_spent"), (3, "outputs_unconfirmed_spent"), (1, "outputs_unconfirmed")):
            got = getattr(b, name)
            ctx.check(sorted(str(x) for x in got) == sorted(oid(i) for i in self.best if self.best[i] == rank), "spent and unconfirmed outputs are told apart",
                      name)


@case("C42", params=[dict(kind=k, n=1) for k in TARGET] + [dict(kind=k, n=2) for k in ("p0", "m0")]
      + [dict(kind=k, n=1, minter=True) for k in ("m0", "m3")],
      thorough=[dict(kind=k, n=2, locks=True) for k in TARGET])
def reported(ctx, kind, n, locks=False, minter=False):
    """The balance of an address is made of exactly its outputs in the transactions the explorer lists."""
    addr, cond = TARGET[kind]
    height, time = ctx.int("height", 1, 2 ** 30), ctx.int("time", 1, 2 ** 40)
    c = Chain(height=height, time=time)
    vals, outs, locked, mine = [], [], [], []
    for i in range(2):
        vals.append(ctx.int("v%d" % i, 0, 2 ** 60))
        how = ctx.choice("cond%d" % i, ["mine"] if minter else ["mine", "locked", "other"] if n == 1 or locks else ["mine"] if i == 0 else ["mine", "other"])
        cd, lk = cond if how != "other" else c_addr(O[0].addr), False
        if how == "locked":
            l = ctx.int("l%d" % i, 1, 2 ** 40)
            cd, lk = c_lock(l, cd), locked_now(ctx, l, height, time)
        mine.append(how != "other")
        locked.append(lk)
        outs.append(output(vals[i], cd))
    seen, txns = Seen(), []
    for k in range(n):
        make, spend = ctx.choice("make%d" % k, [(), (0,), (1,), (0, 1)] if n == 1 else [(), (0,), (1,)]), ctx.choice("spend%d" % k, [(), (0,), (1,)])
        un = ctx.choice("un%d" % k, [False, True])
        for i in make:
            if mine[i]:
                seen.see(i, 1 if un else 2)
        for i in spend:
            if mine[i]:
                seen.see(i, 3 if un else 4)
        txns.append(tx("%02x" % (0x40 + k) * 32, [output(3, c_addr(O[1].addr))] + [outs[i] for i in make],
                       ["%02x" % (0x50 + k) * 32] + [oid(i) for i in make], [(oid(i), outs[i], f_single(K[0])) for i in spend], height=5 + k, unconfirmed=un))
    if minter:
        m = ctx.choice("minter", ["same", "locked", "other", "person", "nobody"])
        if m:
            mc = {"same": COND[kind], "locked": c_lock(5, COND[kind]), "other": COND["m1"], "person": c_addr(K[0].addr), "nobody": {"type": 0}}[m]
            txns.insert(ctx.choice("at", [0, 1]), minter_tx("77" * 32, mc, ctx.choice("mun", [False, True])))
    c.page(addr, hashpage(txns, block=None))
    r = c.unlockhash_get(addr if kind != "free" else None)
    given = ctx.choice("info", [False, True]) if n == 1 else False
    b = r.balance(c.blockchain_info_get()) if given else r.balance()
    seen.check(ctx, b, vals, locked)
    ctx.check(b.chain_height == height, "the chain height is that of the last block")
    ctx.check(b.chain_time == time, "the chain time is that of the last block")
    ctx.check(str(b.chain_blockid) == BLOCK, "the last block is known")
    if kind[0] == "m" and seen.best:
        ks, need = OWNERS[kind]
        ctx.check(sorted(str(o) for o in b.owners) == sorted(k.addr for k in ks), "a multisig balance has the owners of its condition")
        ctx.check(b.signature_count == need, "a multisig balance has the signature count of its condition")
        ctx.check(b.address == addr, "a multisig balance has its address")


@case("C42", params=[dict(kind=k, n=n, each=e) for k in ("p0", "free", "m0", "m3") for n, e in ((9, 1), (20, 3), (65, 1), (2, 60)) if k in ("p0", "m0") or n == 20],
      thorough=[dict(kind=k, n=n, each=e) for k in ("p0", "m0") for n, e in ((260, 1), (100, 5), (2, 400))])
def many_reported(ctx, kind, n, each):
    """The balance of an address with many transactions is made of exactly its outputs."""
    addr, cond = TARGET[kind]
    height, time = ctx.int("height", 1, 2 ** 30), ctx.int("time", 1, 2 ** 40)
    c = Chain(height=height, time=time)
    m = n * each
    spec = (0, m // 2, m - 1)
    lock = ctx.int("lock", 1, 2 ** 40)
    vals = [ctx.int("v%d" % i, 0, 2 ** 60) if i in spec else 10 ** (i % 12) + i for i in range(m)]
    special, rot = ctx.choice("locked", spec), ctx.choice("rot", [0, 1, 2])
    locked = [locked_now(ctx, lock, height, time) if i == special else False for i in range(m)]
    outs = [output(vals[i], c_lock(lock, cond) if i == special else cond) for i in range(m)]
    seen, txns = Seen(), []
    for k in range(n):
        un = (k + rot) % 4 == 3
        make = list(range(k * each, k * each + each))
        spend = [i for i in make if (i + rot) % 3 == 1]
        for i in make:
            seen.see(i, 1 if un else 2)
        txns.append(tx(txid(k, 0x40), [output(3, c_addr(O[1].addr))] + [outs[i] for i in make], [b2(b"else %d" % k).hex()] + [oid(i) for i in make], height=5 + k, unconfirmed=un))
        if spend:
            us = (k + rot) % 5 > 2
            for i in spend:
                seen.see(i, 3 if us else 4)
            txns.append(tx(b2(b"spending %d" % k).hex(), [output(3, c_addr(O[1].addr))], [b2(b"rest %d" % k).hex()], [(oid(i), outs[i], f_single(K[0])) for i in spend],
                           height=6 + k, unconfirmed=us))
    if rot == 1:
        txns.reverse()
    c.page(addr, hashpage(txns, block=None))
    seen.check(ctx, c.unlockhash_get(addr if kind != "free" else None).balance(), vals, locked)


@case("C42", params=[dict(n=n, keys=k) for n, k in ((9, 2), (20, 1), (3, 9), (1, 20), (70, 2))], thorough=[dict(n=n, keys=k) for n, k in ((260, 2), (3, 65))])
def many_wallets(ctx, n, keys):
    """The balance of a wallet of many addresses, linked to many multisig wallets, misses none of them."""
    chain = Chain()
    w = wallet(chain, keys)
    link, pv, mv = {}, [], []
    for i in range(keys):
        pv.append(ctx.int("p%d" % i, 0, 2 ** 60) if i in (0, keys - 1) else 1000 + i)
    for k in range(n):
        mv.append(ctx.int("m%d" % k, 0, 2 ** 60) if k in (0, n - 1) else 1000 + k)
    how = ctx.choice("links", ["first", "last", "spread", "all"])
    many = [person(k) for k in range(n)]
    cond = [c_multi([K[0].addr, x], 1 + k % 2) for k, x in enumerate(many)]
    from tfchain.types import ConditionTypes
    maddr = [str(ConditionTypes.from_json(x).unlockhash) for x in cond]
    for i in range(keys):
        ms = maddr if how == "all" or how == ("first" if i == 0 else "last" if i == keys - 1 else "") else [a for k, a in enumerate(maddr) if how == "spread" and k % keys == i]
        chain.page(Key(i).addr, hashpage([tx(txid(i, 0x40), [output(pv[i], c_addr(Key(i).addr))], [b2(b"personal %d" % i).hex()])], ms))
    for k in range(n):
        chain.page(maddr[k], hashpage([tx(b2(b"shared %d" % k).hex(), [output(mv[k], cond[k])], [oid(k)])]))
    b = w.balance
    ctx.check(cur(b.available) == total(ctx, pv), "the coins of all addresses are reported")
    ctx.check(sorted(b.addresses) == sorted(Key(i).addr for i in range(keys)), "all addresses are reported")
    seen = keys > 1 or how != "last"
    ctx.check(sorted(b.addresses_multisig) == (sorted(maddr) if seen else []), "the multisig wallets linked to an address are reported")
    for k in range(n if seen else 0):
        ctx.check(cur(b.wallets[maddr[k]].available) == mv[k], "the coins of all multisig wallets are reported")
        ctx.check(b.wallets[maddr[k]].signature_count == 1 + k % 2, "multisig wallets have their signature count")


BALANCES = [("p0", "p1"), ("p0", "p0?", "p1-"), ("p0!", "p1"), ("p1!", "p1?"), ("m0", "p0"), ("m0", "m1"), ("m2", "m2?", "p0"), ("m0!", "m3"),
            ("m1-", "p0"), ("p0", "m2!"), ()]


@case("C42", params=[dict(c=i) for i in range(len(BALANCES))])
def overall(ctx, c):
    """The balance of a wallet is made of the outputs of all its addresses, and of the multisig wallets the explorer links to them."""
    chain, w, rows = scene(ctx, BALANCES[c], lo=0, hi=2 ** 60)
    b = w.balance
    spent = [s for s in BALANCES[c] if "-" in s]

    def check(x, kinds):
        mine = [r for r in rows if r.kind in kinds]
        for name, conf, lk in (("available", True, False), ("locked", True, True), ("unconfirmed", False, False), ("unconfirmed_locked", False, True)):
            got = cur(getattr(x, name))
            ctx.check(got == total(ctx, [ctx.ite(r.locked if lk else ctx.no(r.locked), r.value, 0) for r in mine if r.confirmed == conf]),
                      "the coins of all addresses are reported", name)
        ctx.check(len(x.outputs_spent) == len([s for s in spent if s.rstrip("?!-") in kinds]), "spent outputs are known")
    check(b, ("p0", "p1"))
    ms = sorted({s.rstrip("?!-") for s in BALANCES[c] if s[0] == "m"})
    ctx.check(sorted(b.addresses_multisig) == sorted(MADDR[m] for m in ms), "the multisig wallets linked to an address are reported")
    for m in ms:
        check(b.wallets[MADDR[m]], (m,))
        ctx.check(b.wallets[MADDR[m]].signature_count == OWNERS[m][1], "multisig wallets have their signature count")
    ctx.check(sorted(w.addresses_multisig) == sorted(MADDR[m] for m in ms), "the multisig wallets linked to an address are reported")
    info = chain.blockchain_info_get()
    ctx.check(b.chain_height == info.height, "the chain context is that of the last block")
    ctx.check(b.chain_time == info.timestamp, "the chain context is that of the last block")
    ctx.check(str(b.chain_blockid) == BLOCK, "the chain context is that of the last block")


@case("C42")
def silent(ctx):
    """Addresses and multisig wallets the explorer knows nothing of leave out nothing of the others."""
    chain = Chain()
    links = ctx.choice("links", [("m0", "m2"), ("m2", "m0"), ("m0",), ()]), ctx.choice("links1", [("m2", "m1"), ("m1", "m2"), ()])
    vals = {}
    for i, name in enumerate(("p0", "p1", "m0", "m1", "m2")):
        if name[0] == "p" or any(name in ls for ls in links):
            if ctx.choice("known " + name, [True, False]):
                vals[name] = ctx.int("v" + name, 0, 2 ** 60)
        txns = [tx("%02x" % (0x40 + i) * 32, [output(vals[name], COND[name])], [oid(i)])] if name in vals else []
        if name[0] == "p":
            if txns or links[int(name[1])]:
                chain.page(K[int(name[1])].addr, hashpage(txns, [MADDR[m] for m in links[int(name[1])]]))
        elif txns:
            chain.page(MADDR[name], hashpage(txns))
    w = wallet(chain)
    b = w.balance
    ctx.check(cur(b.available) == total(ctx, [vals[k] for k in vals if k[0] == "p"]), "the coins of all addresses are reported")
    for m in ("m0", "m1", "m2"):
        if m in vals:
            ctx.check(MADDR[m] in b.wallets, "the multisig wallets linked to an address are reported")
            ctx.check(cur(b.wallets[MADDR[m]].available) == vals[m], "the coins of all addresses are reported")


# ------------------------------------------------------------------------------------------------- C44
def symheights(ctx, n):
    """Heights of n transactions: a symbolic non-negative height, or None when unconfirmed."""
    return [ctx.int("h%d" % k, 0, 2 ** 40) if ctx.choice("conf%d" % k, [True, False]) else None for k in range(n)]


def listed(k, h):
    return tx(txid(k), [output(1 + k, c_addr(K[0].addr))], [oid(k)], height=0 if h is None else h, unconfirmed=h is None)


def check_order(ctx, got, hs, wanted):
    """got: transactions; hs: heights by number; wanted: their numbers. Unconfirmed ones first, then the newest."""
    ctx.check(len(got) == len(wanted), "every transaction is listed once")
    names = {txid(k): k for k in wanted}
    ctx.check({t.id for t in got} == set(names), "exactly the transactions of the addresses are listed")
    last = None
    for t in got:
        h = hs[names[t.id]]
        ctx.check(t.unconfirmed == (h is None), "unconfirmed transactions are marked")
        ctx.check(t.height == (-1 if h is None else h), "transactions have their height")
        if h is None:
            ctx.check(last is None, "unconfirmed transactions come first")
        else:
            if last is not None:
                ctx.check(h <= last, "newer transactions come before older ones")
            last = h


@case("C44", params=[dict(n=n) for n in (0, 1, 2, 3)], thorough=[dict(n=4)])
def of_address(ctx, n):
    hs = symheights(ctx, n)
    c = Chain()
    c.page(K[0].addr, hashpage([listed(k, hs[k]) for k in range(n)], [MADDR["m0"]]))
    r = c.unlockhash_get(K[0].addr)
    check_order(ctx, r.transactions, hs, range(n))
    ctx.check(str(r.unlockhash) == K[0].addr, "the looked up address is reported")
    ctx.check([str(a) for a in r.multisig_addresses] == [MADDR["m0"]], "the linked multisig addresses are reported")


@case("C44", params=[dict(n=n) for n in (10, 21, 64, 101, 130)], thorough=[dict(n=n) for n in (257, 513)])
def many_transactions(ctx, n):
    """Many transactions, two at unknown heights, of an address or of a wallet of several."""
    hs = [(k * 7919) % (n + 3) for k in range(n)]
    hs[n // 3], hs[n // 2], hs[n - 1] = None, ctx.int("h", 0, 2 ** 40 if n < 30 else 3), None
    c = Chain()
    how = ctx.choice("how", ["address", "wallet"])
    if how == "address":
        c.page(K[0].addr, hashpage([listed(k, hs[k]) for k in range(n)]))
        got = c.unlockhash_get(K[0].addr).transactions
    else:
        for i in range(3):
            c.page(Key(i).addr, hashpage([listed(k, hs[k]) for k in range(n) if k % 3 == i or k % 5 == i]))
        got = wallet(c, 4).transactions
    check_order(ctx, got, hs, range(n))


PAGES = [[(0,), (1,)], [(0, 1), (1,)], [(0, 1), ()], [(0,), None], [None, (0, 1)], [None, None], [(0, 1, 2), None], [(2, 0), (0, 1)]]


@case("C44", params=[dict(c=i) for i in range(len(PAGES))])
def of_wallet(ctx, c):
    """A wallet lists the transactions of all of its addresses, also when some have none yet."""
    n = 1 + max([k for p in PAGES[c] for k in p or ()] or [-1])
    hs = symheights(ctx, n)
    chain = Chain()
    for key, p in zip(K, PAGES[c]):
        if p is not None:
            chain.page(key.addr, hashpage([listed(k, hs[k]) for k in p]))
    check_order(ctx, wallet(chain).transactions, hs, range(n))


# ------------------------------------------------------------------------------------------------- asked again (C42, C44)
CHANGES = ["more", "spent", "confirmed", "other address", "shared", "unlocked", "gone"]


@case("C42", params=[dict(what=x) for x in CHANGES])
def balance_again(ctx, what):
    """A balance is what the explorer says when it is asked for, whatever it said before."""
    from harness.bal import total
    chain = Chain(height=10, time=10 ** 9)
    w = wallet(chain)
    lock = 20
    v = [ctx.int("v%d" % i, 1, 2 ** 60) for i in range(3)]
    first = tx(txid(0), [output(v[0], c_lock(lock, COND["p0"]) if what == "unlocked" else COND["p0"])], [oid(0)], unconfirmed=what == "confirmed")
    chain.page(K[0].addr, hashpage([first]))
    b = w.balance
    r = chain.unlockhash_get(K[0].addr).balance()
    for x in (b, r):
        ctx.check(cur(x.available) == (0 if what in ("confirmed", "unlocked") else v[0]), "the coins of all addresses are reported")
        ctx.check(cur(x.unconfirmed) == (v[0] if what == "confirmed" else 0), "the coins of all addresses are reported")
    own, shared = [v[0]], []
    if what == "more":
        chain.page(K[0].addr, hashpage([tx(txid(1), [output(v[1], COND["p0"])], [oid(1)], height=9), first]))
        own = v[:2]
    elif what == "spent":
        chain.page(K[0].addr, hashpage([first, tx(txid(1), [output(v[1], COND["p0"])], [oid(1)], [(oid(0), output(v[0], COND["p0"]), f_single(K[0]))], height=9)]))
        own = v[1:2]
    elif what == "confirmed":
        chain.page(K[0].addr, hashpage([tx(txid(0), [output(v[0], COND["p0"])], [oid(0)])]))
    elif what == "other address":
        chain.page(K[1].addr, hashpage([tx(txid(1), [output(v[1], COND["p1"])], [oid(1)])]))
        own = v[:2]
    elif what == "shared":
        chain.page(K[0].addr, hashpage([first], [MADDR["m0"]]))
        chain.page(MADDR["m0"], hashpage([tx(txid(1), [output(v[1], COND["m0"])], [oid(1)])]))
        shared = v[1:2]
    elif what == "gone":
        del chain.pages["/explorer/hashes/" + K[0].addr]
        own = []
    else:
        chain.pages["/explorer"]["height"] = chain.pages["/explorer/hashes/" + BLOCK]["block"]["height"] = lock
    b = w.balance
    ctx.check(cur(b.available) == total(ctx, own) and cur(b.unconfirmed) == 0 and cur(b.locked) == 0, "asked again, the coins of all addresses are reported")
    ctx.check(sorted(b.addresses_multisig) == [MADDR["m0"]] * len(shared), "the multisig wallets linked to an address are reported")
    for x in shared:
        ctx.check(cur(b.wallets[MADDR["m0"]].available) == x, "asked again, the coins of all addresses are reported")
    if what in ("more", "spent", "confirmed", "unlocked"):
        ctx.check(cur(chain.unlockhash_get(K[0].addr).balance().available) == total(ctx, own), "asked again, the coins of the address are reported")


@case("C44", params=[dict(first=a, then=b) for a, b in (((0,), (0, 1)), ((0, 1), (1, 2)), ((), (0,)), (None, (0, 1)), ((0, 1), ()))])
def transactions_again(ctx, first, then):
    """Transactions are those the explorer lists when they are asked for."""
    chain = Chain()
    w = wallet(chain)
    hs = symheights(ctx, 3)
    if first is not None:
        chain.page(K[1].addr, hashpage([listed(k, hs[k]) for k in first]))
    check_order(ctx, w.transactions, hs, first or ())
    chain.page(K[1].addr, hashpage([listed(k, hs[k]) for k in then]))
    check_order(ctx, w.transactions, hs, then)
    check_order(ctx, chain.unlockhash_get(K[1].addr).transactions, hs, then)
