"""C28..C34: balances, funding, draining."""
from engine.api import case
from tfchain.TFChainWallet import MultiSigWalletBalance, WalletBalance, WalletsBalance
from tfchain.types import ConditionTypes
from tfchain.types.ConditionTypes import UnlockHash, UnlockHashType
from tfchain.types.IO import CoinOutput
from tfchain.types.PrimitiveTypes import Currency
from harness.types import address


ADDR = [str(UnlockHash(type=UnlockHashType.PUBLIC_KEY, hash="%02x" % i * 32)) for i in range(1, 6)]


def out(value, cond, id):
    return CoinOutput(value=units(value), condition=cond, id=id)


def units(v):
    return Currency.from_json(str(v))


def total(ctx, xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def cur(c):
    return int(Currency(value=c))


def ids(ctx, n, symbolic=True):
    if not symbolic:
        return [bytes([i + 1]) * 32 for i in range(n)]
    r = [ctx.bytes("id%d" % i, 32) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.no(ctx.eq(r[i], r[j])))
    return r


# ------------------------------------------------------------------------------------------------- C28
def buckets(b):
    return {"available": [co.id for co in b.outputs_available], "spent": list(b.outputs_spent),
            "unconfirmed": list(b.outputs_unconfirmed), "unconfirmed_spent": list(b.outputs_unconfirmed_spent)}


@case("C28", params=[dict(cls=c, n=n) for c in ("wallet", "wallets") for n in (1, 2, 3)], thorough=[dict(cls="wallets", n=4)])
def bookkeeping(ctx, cls, n):
    b = {"wallet": WalletBalance, "wallets": WalletsBalance}[cls]()
    vals = [ctx.int("v%d" % i, 0, 2 ** 64) for i in range(2)]
    idb = ids(ctx, 2)
    best = [0, 0]
    for k in range(n):
        w = ctx.choice("which%d" % k, [0, 1])
        confirmed, spent = ctx.bool("confirmed%d" % k), ctx.bool("spent%d" % k)
        c, s = bool(confirmed), bool(spent)
        o = out(vals[w], ConditionTypes.unlockhash_new(ADDR[w]), idb[w])
        if k == 0 and c and ctx.choice("defaults", [True, False]):
            b.output_add(o, spent=True) if s else b.output_add(o)
        else:
            b.output_add(o, confirmed=confirmed, spent=spent)
        best[w] = max(best[w], 4 if c and s else 3 if s else 2 if c else 1)
    for name, rank in (("available", 2), ("spent", 4), ("unconfirmed", 1), ("unconfirmed_spent", 3)):
        got = buckets(b)[name]
        want = [idb[w] for w in range(2) if best[w] == rank]
        ctx.check(len(got) == len(want), "an output counts once, by the most final thing known about it", name)
        for i in want:
            ctx.check(ctx.any([ctx.eq(bytes(g.value), i) for g in got]), "an output counts once, by the most final thing known about it", name)
    ctx.check(cur(b.available) == total(ctx, [vals[w] for w in range(2) if best[w] == 2]), "available coins are those of confirmed unspent outputs")
    ctx.check(cur(b.unconfirmed) == total(ctx, [vals[w] for w in range(2) if best[w] == 1]), "unconfirmed coins are those of unconfirmed unspent outputs")
    ctx.check(b.active == any(r in (1, 2) for r in best), "a balance with unspent outputs is active")
    ctx.check(sorted(b.addresses) == [ADDR[w] for w in range(2) if best[w]], "the addresses of all outputs are known")


# ------------------------------------------------------------------------------------------------- C29
MS = lambda n=2: ConditionTypes.multi_signature_new(min_nr_sig=n, unlockhashes=[ADDR[0], ADDR[1]])  # noqa: E731
BASE = {"unlockhash": lambda: ConditionTypes.unlockhash_new(ADDR[0]), "nil": lambda: ConditionTypes.nil_new(), "multisig": MS}


@case("C29", params=[dict(cls=c, n=n) for c in ("wallet", "wallets", "multisig") for n in (1, 2)],
      thorough=[dict(cls="wallets", n=3)])
def totals(ctx, cls, n):
    b = {"wallet": WalletBalance, "wallets": WalletsBalance,
         "multisig": lambda: MultiSigWalletBalance(owners=[UnlockHash.from_json(a) for a in ADDR[:2]], signature_count=2)}[cls]()
    h, t = ctx.int("height", 0, 2 ** 40), ctx.int("time", 0, 2 ** 40)
    b.chain_height = h
    b.chain_time = t
    known = ctx.all([h > 0, t > 0])
    rows = []
    for k in range(n):
        base = BASE["multisig" if cls == "multisig" else ctx.choice("base%d" % k, ["unlockhash", "nil"])]()
        v = ctx.int("v%d" % k, 0, 2 ** 64)
        locked = False
        if ctx.choice("lock%d" % k, [0, 1]):
            l = ctx.int("l%d" % k, 1, 2 ** 40)
            base = ConditionTypes.locktime_new(lock=l, condition=base)
            locked = ctx.all([known, ctx.any([ctx.all([l >= 500 * 10 ** 6, t < l]), ctx.all([l < 500 * 10 ** 6, h < l])])])
        state = ctx.choice("state%d" % k, ["confirmed", "unconfirmed", "spent"])
        idk = bytes([k + 1]) * 32
        b.output_add(out(v, base, idk), confirmed=(state != "unconfirmed"), spent=(state == "spent"))
        rows.append((idk, v, locked, state))

    def want(state, lk):
        return total(ctx, [ctx.ite(l if lk else ctx.no(l), v, 0) for _, v, l, s in rows if s == state])
    for name, state, lk in (("available", "confirmed", False), ("locked", "confirmed", True),
                            ("unconfirmed", "unconfirmed", False), ("unconfirmed_locked", "unconfirmed", True)):
        got = getattr(b, name)
        ctx.check(isinstance(got, Currency), "totals are amounts", name)
        ctx.check(cur(got) == want(state, lk), "locked and unlocked coins are told apart by chain height and time", name)
    for name, state in (("outputs_available", "confirmed"), ("outputs_unconfirmed_available", "unconfirmed")):
        got = [bytes(co.id.value) for co in getattr(b, name)]
        for idk, v, l, s in rows:
            ctx.check(ctx.iff(idk in got, ctx.no(l) if s == state else False), "only unlocked outputs are available", name)


# ------------------------------------------------------------------------------------------------- C30
def add_events(ctx, b, tag, n, idb, vals, conds, best):
    for k in range(n):
        w = ctx.choice("%swhich%d" % (tag, k), range(len(idb)))
        st = ctx.choice("%sstate%d" % (tag, k), [1, 2, 3, 4])
        b.output_add(out(vals[w], conds[w](), idb[w]), confirmed=st in (2, 4), spent=st >= 3)
        best[w] = max(best[w], st)


def personal(i):
    return lambda: ConditionTypes.unlockhash_new(ADDR[i])


def check_buckets(ctx, b, idb, best, label):
    for name, rank in (("available", 2), ("spent", 4), ("unconfirmed", 1), ("unconfirmed_spent", 3)):
        got = sorted(bytes(g.value) for g in buckets(b)[name])
        ctx.check(got == sorted(idb[w] for w in range(len(idb)) if best[w] == rank), label, name)


CLS = {"wallet": WalletBalance, "wallets": WalletsBalance}


@case("C30", params=[dict(ca=a, cb=b, na=1, nb=1) for a in CLS for b in CLS] + [dict(ca="wallet", cb="wallets", na=2, nb=1),
                                                                               dict(ca="wallets", cb="wallet", na=1, nb=2)],
      thorough=[dict(ca=a, cb=b, na=2, nb=2) for a in CLS for b in CLS])
def merging(ctx, ca, cb, na, nb):
    """Merging two balances is the same as adding all their outputs to one."""
    a, b = CLS[ca](), CLS[cb]()
    idb = ids(ctx, 2, symbolic=False)
    vals = [ctx.int("v%d" % i, 0, 2 ** 64) for i in range(2)]
    conds = [personal(0), personal(1)]
    best, other = [0, 0], [0, 0]
    add_events(ctx, a, "a", na, idb, vals, conds, best)
    add_events(ctx, b, "b", nb, idb, vals, conds, other)
    best = [max(x, y) for x, y in zip(best, other)]
    before = buckets(b)
    addresses = sorted(b.addresses)
    r = a.balance_add(b)
    check_buckets(ctx, r, idb, best, "merging balances counts every output once, by the most final thing known about it")
    ctx.check(cur(r.available) == total(ctx, [v for v, k in zip(vals, best) if k == 2]), "merging adds up the coins")
    ctx.check(cur(r.unconfirmed) == total(ctx, [v for v, k in zip(vals, best) if k == 1]), "merging adds up the coins")
    ctx.check(sorted(r.addresses) == [ADDR[w] for w in range(2) if best[w]], "merging balances joins their addresses")
    ctx.check(buckets(b) == before, "the merged-in balance is not changed")
    check_buckets(ctx, b, idb, other, "the merged-in balance is not changed")
    ctx.check(sorted(b.addresses) == addresses, "the merged-in balance is not changed")
    ctx.check(r.balance_add(None) is r, "merging nothing changes nothing")


def spread(b):
    """The outputs of a balance and of its multisig wallets."""
    r = [("", buckets(b))]
    for a in sorted(getattr(b, "wallets", {})):
        r.append((a, buckets(b.wallets[a])))
    return r


@case("C30", params=[dict(first=f, second=s) for f in ("multisig", "wallets") for s in ("multisig", "wallets", "none")])
def later_merges(ctx, first, second):
    """Merging more into the result, or adding outputs to it, does not change what was merged before."""
    idb = ids(ctx, 4, symbolic=False)
    vals = [ctx.int("v%d" % i, 0, 2 ** 64) for i in range(4)]
    merged, best, pbest = [], [0, 0, 0, 0], [0, 0, 0, 0]
    r = WalletsBalance()
    for i, kind in enumerate((first, second)):
        if kind == "none":
            continue
        b = msb() if kind == "multisig" else WalletsBalance()
        st = [0, 0, 0, 0]
        add_events(ctx, b, "m%d" % i, 1, idb[:2], vals, [MS, MS], st)
        best = [max(x, y) for x, y in zip(best, st)]
        if kind == "wallets" and ctx.choice("personal%d" % i, [True, False]):
            b.output_add(out(vals[2], personal(0)(), idb[2]))
            pbest[2] = 2
        merged.append((b, spread(b), cur(b.available), sorted(b.addresses)))
        r = r.balance_add(b)
    st = ctx.choice("state", [1, 2, 3, 4])
    r.output_add(out(vals[3], MS(), idb[3]), confirmed=st in (2, 4), spent=st >= 3)
    best[3] = st
    check_buckets(ctx, r, idb, pbest, "personal outputs stay in the personal balance")
    check_buckets(ctx, r.wallets[str(MS().unlockhash)], idb, best, "merging counts every output once, by the most final thing known about it")
    ctx.check(cur(r.wallets[str(MS().unlockhash)].available) == total(ctx, [v for v, k in zip(vals, best) if k == 2]), "merging adds up the coins")
    for b, was, coins, addresses in merged:
        ctx.check(spread(b) == was and sorted(b.addresses) == addresses, "the merged-in balance is not changed")
        ctx.check(cur(b.available) == coins, "the merged-in balance is not changed")


@case("C30", params=[dict(ca=a, cb=b) for a in CLS for b in CLS])
def contexts(ctx, ca, cb):
    a, b = CLS[ca](), CLS[cb]()
    ha, ta = ctx.int("ha", 0, 2 ** 30), ctx.int("ta", 0, 2 ** 40)
    hb, tb = ctx.int("hb", 0, 2 ** 30), ctx.int("tb", 0, 2 ** 40)
    ctx.assume(ctx.any([ctx.all([ha > hb, ta > tb]), ctx.all([ha < hb, ta < tb]), ctx.all([ha == hb, ta == tb])]))
    idA, idB = b"\xaa" * 32, b"\xbb" * 32
    a.chain_height, a.chain_time, a.chain_blockid = ha, ta, idA
    b.chain_height, b.chain_time, b.chain_blockid = hb, tb, idB
    r = a.balance_add(b)
    ctx.check(ctx.eq(r.chain_height, ctx.ite(ha >= hb, ha, hb)), "the later of the two chain contexts is kept")
    ctx.check(ctx.eq(r.chain_time, ctx.ite(ha >= hb, ta, tb)), "the later of the two chain contexts is kept")
    if ctx.any([ha > 0, ta > 0]) and ctx.any([hb > 0, tb > 0]):
        ctx.check(bytes(r.chain_blockid.value) == (idA if ha >= hb else idB), "the later of the two chain contexts is kept")
    ctx.check(ctx.all([b.chain_height == hb, b.chain_time == tb, bytes(b.chain_blockid.value) == idB]), "the merged-in balance is not changed")


@case("C30")
def inconsistent_contexts(ctx):
    a, b = WalletsBalance(), WalletBalance()
    ha, ta = ctx.int("ha", 0, 2 ** 30), ctx.int("ta", 0, 2 ** 40)
    hb, tb = ctx.int("hb", 0, 2 ** 30), ctx.int("tb", 0, 2 ** 40)
    a.chain_height, a.chain_time = ha, ta
    b.chain_height, b.chain_time = hb, tb
    ok, _ = ctx.attempt(a.balance_add, b)
    ctx.check(ctx.iff(ok, ctx.any([ctx.all([ha == 0, ta == 0]), ctx.all([ha >= hb, ta >= tb]), ctx.all([ha < hb, ta < tb])])),
              "balances whose chain heights and times contradict are not merged")


# ------------------------------------------------------------------------------------------------- C31
def msb():
    return MultiSigWalletBalance(owners=[UnlockHash.from_json(a) for a in ADDR[:2]], signature_count=2)


@case("C31", params=[dict(kind=k, n=n) for k in ("plain", "locked") for n in (1, 2)])
def multisig_outputs(ctx, kind, n):
    """Multisig outputs go to the multisig wallet of their address, others to the personal balance."""
    b = WalletsBalance()
    idb = ids(ctx, 3, symbolic=False)
    vals = [ctx.int("v%d" % i, 0, 2 ** 64) for i in range(3)]
    lock = ctx.int("lock", 1, 2 ** 40)
    cs = [MS, lambda: ConditionTypes.multi_signature_new(min_nr_sig=1, unlockhashes=[ADDR[0], ADDR[1], ADDR[2]]), personal(0)]
    conds = cs if kind == "plain" else [lambda c=c: ConditionTypes.locktime_new(lock=lock, condition=c()) for c in cs]
    best = [0, 0, 0]
    add_events(ctx, b, "e", n, idb, vals, conds, best)
    check_buckets(ctx, b, idb[2:], best[2:], "personal outputs are in the personal balance")
    ctx.check(b.addresses == ([ADDR[0]] if best[2] else []), "the addresses of the personal outputs are known")
    seen = [i for i in (0, 1) if best[i]]
    ctx.check(sorted(b.addresses_multisig) == sorted(str(cs[i]().unlockhash) for i in seen), "every multisig address has a wallet")
    for i in seen:
        w = b.wallets[str(cs[i]().unlockhash)]
        ctx.check(w.address == str(cs[i]().unlockhash), "a multisig wallet has the address of its outputs")
        ctx.check(w.signature_count == (2, 1)[i], "a multisig wallet has the signature count of its outputs")
        ctx.check(w.owners == ADDR[:2 + i], "a multisig wallet has the owners of its outputs")
        check_buckets(ctx, w, [idb[i]], [best[i]], "multisig outputs are in the wallet of their address")


@case("C31", params=[dict(form=f) for f in ("multisig", "wallets", "wallet+multisig", "multisig+multisig", "multisig+wallet", "multisig+wallets")])
def multisig_merging(ctx, form):
    idb = ids(ctx, 2, symbolic=False)
    vals = [ctx.int("v%d" % i, 0, 2 ** 64) for i in range(2)]
    conds = [MS, MS]
    best, pbest = [0, 0], [0]
    h, t = ctx.int("h", 0, 2 ** 30), ctx.int("t", 0, 2 ** 40)
    x, y = msb(), msb()
    add_events(ctx, x, "x", 1, idb, vals, conds, best)
    add_events(ctx, y, "y", 1, idb, vals, conds, best)
    p = WalletBalance() if "wallet+" in form or form.endswith("wallet") else WalletsBalance()
    pv = ctx.int("pv", 0, 2 ** 64)
    add_events(ctx, p, "p", 1, [b"\x77" * 32], [pv], [personal(0)], pbest)
    for o in (x, y, p):
        o.chain_height, o.chain_time = h, t
    if form == "multisig":
        r = p.balance_add(x).balance_add(y)
    elif form == "wallets":
        q = WalletsBalance().balance_add(y)
        q.chain_height, q.chain_time = h, t
        r = p.balance_add(x).balance_add(q)
    elif form == "wallet+multisig":
        r = p.balance_add(x).balance_add(y)
    elif form == "multisig+multisig":
        r = x.balance_add(y)
        ctx.check(r.address == str(MS().unlockhash), "merging balances of one multisig wallet keeps the wallet")
        check_buckets(ctx, r, idb, best, "merging multisig balances counts every output once")
        return
    else:
        r = x.balance_add(p).balance_add(y)
    check_buckets(ctx, r, [b"\x77" * 32], pbest, "personal outputs stay in the personal balance")
    ctx.check(r.addresses_multisig == [str(MS().unlockhash)], "one multisig wallet per address")
    check_buckets(ctx, r.wallets[str(MS().unlockhash)], idb, best, "merging multisig balances counts every output once")


@case("C31")
def other_multisig_wallet(ctx):
    x = msb()
    y = MultiSigWalletBalance(owners=[UnlockHash.from_json(a) for a in ADDR[:2]], signature_count=1)
    ok, _ = ctx.attempt(x.balance_add, y)
    ctx.check(not ok, "balances of different multisig wallets are not merged into one")
    r = WalletsBalance().balance_add(x).balance_add(y)
    ctx.check(sorted(r.addresses_multisig) == sorted([x.address, y.address]), "one multisig wallet per address")


@case("C31")
def signature_count_limits(ctx):
    n, m = ctx.choice("owners", range(4)), ctx.int("m", -3, 6)
    ok, _ = ctx.attempt(MultiSigWalletBalance, [UnlockHash.from_json(a) for a in ADDR[:n]], m)
    ctx.check(ctx.iff(ok, ctx.all([m >= 1, m <= n])), "a multisig wallet needs between one and all of its owners to sign")


# ------------------------------------------------------------------------------------------------- C32, C33
from tfchain.errors import InsufficientFunds  # noqa: E402

MS1 = lambda: ConditionTypes.multi_signature_new(min_nr_sig=1, unlockhashes=[ADDR[0], ADDR[2]])  # noqa: E731
KINDS = {"p0": personal(0), "p1": personal(1), "nil": ConditionTypes.nil_new, "m0": MS, "m1": MS1}
SRC = {None: None, "p0": ADDR[0], "p1": ADDR[1], "m0": str(MS().unlockhash), "m1": str(MS1().unlockhash),
       "other": ADDR[4]}


def uh(x):
    return UnlockHash.from_json(x)


def sources(src, form):
    """(source argument, kinds it allows)"""
    if src is None:
        return None, ("p0", "p1", "nil")
    t = [SRC[s] for s in src]
    if form == "uh":
        t = [uh(x) for x in t]
    elif form == "one":
        t = t[0]
    elif form == "one-uh":
        t = uh(t[0])
    return t, src


def check_funding(ctx, b, rows, amount, src, form, limit=99):
    """rows: (id, kind, value, locked, confirmed)"""
    arg, kinds = sources(src, form)
    ok, r = ctx.attempt(b.fund, units(amount), arg)
    eligible = [(i, k, v, ctx.no(l), c) for i, k, v, l, c in rows if k in kinds]
    have = total(ctx, [ctx.ite(e, v, 0) for _, _, v, e, _ in eligible])
    if limit is not None:
        ctx.check(ctx.iff(ok, have >= amount) if len(eligible) else not ok, "funding fails exactly when the sources have too little")
    if not ok:
        ctx.check(isinstance(r, InsufficientFunds), "too little is reported as InsufficientFunds")
        return None
    inputs, remainder, refund = r
    used = [bytes(ci.parentid.value) for ci in inputs]
    ctx.check(len(set(used)) == len(used), "no output is used twice")
    ctx.check(len(used) <= 99, "a transaction has at most 99 inputs")
    byid = {i: (k, v, e, c) for i, k, v, e, c in eligible}
    ctx.check(all(u in byid for u in used), "only outputs of the given sources are used")
    ctx.check(ctx.all([byid[u][2] for u in used]), "only unlocked outputs are used")
    ctx.check(cur(remainder) + amount == total(ctx, [byid[u][1] for u in used]), "the inputs are worth the amount and the remainder")
    conds = {bytes(co.id.value): co.condition for co in everything(b)}
    for ci in (inputs if limit else inputs[:2]):
        ctx.check(ci.parent_output.id == ci.parentid, "every input knows the output it spends")
        k = byid[bytes(ci.parentid.value)][0]
        ctx.check(ctx.eq(ci.parent_output.condition.json(), conds[bytes(ci.parentid.value)].json()),
                  "every input knows the output it spends")
        ctx.check(ci.fulfillment.json()["type"] == (3 if k[0] == "m" else 1), "every input can be signed")
    pconf = total(ctx, [ctx.ite(e, v, 0) for _, k, v, e, c in eligible if c and k[0] != "m"])
    if any(not byid[u][3] for u in used) and all(k[0] != "m" for k in kinds):
        ctx.check(pconf < amount, "unconfirmed outputs are used only when the confirmed ones do not suffice")
    if any(byid[u][0][0] == "m" for u in used):
        ctx.check(total(ctx, [ctx.ite(e, v, 0) for _, k, v, e, c in eligible if k[0] != "m"]) < amount,
                  "multisig outputs are used only when the personal ones do not suffice")
    if src is None or len(src) != 1:
        ctx.check(refund is None, "no refund is suggested unless there is one source")
    else:
        ctx.check(ctx.eq(refund.json(), KINDS[src[0]]().json()), "the remainder goes back to the only source")
    return used


def everything(b):
    r = list(b.outputs_available) + list(b.outputs_unconfirmed_available)
    for w in getattr(b, "wallets", {}).values():
        r += list(w.outputs_available) + list(w.outputs_unconfirmed_available)
    return r


def fill(ctx, b, spec):
    """spec: 'kind' or 'kind?' (unconfirmed), 'kind!' (locked) ..."""
    rows = []
    for k, s in enumerate(spec):
        kind = s.rstrip("?!-")
        v = ctx.int("v%d" % k, 0, 2 ** 50)
        c = KINDS[kind]()
        locked = False
        if "!" in s:
            l = ctx.int("l%d" % k, 1, 2 ** 40)
            c = ConditionTypes.locktime_new(lock=l, condition=c)
            locked = ctx.any([ctx.all([l >= 500 * 10 ** 6, b.chain_time < l]), ctx.all([l < 500 * 10 ** 6, b.chain_height < l])])
        i = bytes([k + 1]) * 32
        b.output_add(out(v, c, i), confirmed="?" not in s, spent="-" in s)
        if "-" not in s:
            rows.append((i, kind, v, locked, "?" not in s))
    for w in b.wallets.values():
        w.chain_height, w.chain_time = b.chain_height, b.chain_time
    return rows


FUND = [
    (("p0",), None, ""), (("p0", "p1"), None, ""), (("p0", "nil?"), None, ""), (("p0?", "p1"), None, ""), (("p0?", "p0?"), None, ""),
    (("p0!", "p1?"), None, ""), (("p0", "p1-"), None, ""), (("p0", "m0"), None, ""), (("m0",), None, ""), ((), None, ""), (("p0-",), None, ""),
    (("p0", "p1", "p0?"), None, ""), (("p0", "p1"), ("p0",), "one"), (("p0", "p1?"), ("p1",), "one-uh"), (("p0", "p1"), ("p0",), "uh"),
    (("p0", "p1"), ("p1",), "str"), (("p0", "p1", "nil"), ("p0", "p1"), "str"), (("p0", "p1"), ("p1", "p0"), "uh"),
    (("p0",), ("other",), "one"), (("p0",), (), "str"), (("p0!",), ("p0",), "one"),
]


def context(ctx, b):
    h, t = ctx.int("height", 1, 2 ** 40), ctx.int("time", 1, 2 ** 40)
    b.chain_height, b.chain_time = h, t


@case("C32", params=[dict(c=i) for i in range(len(FUND))], thorough=[dict(c=i) for i in range(len(FUND), len(FUND) + 3)])
def fund_personal(ctx, c):
    spec, src, form = (FUND + [(("p0", "p1", "p0", "p1?"), None, ""), (("p0", "p0?", "p0?", "p1!"), ("p0",), "one"),
                               (("p0", "p1?", "p0!", "p1"), ("p0", "p1"), "uh")])[c]
    b = WalletsBalance()
    context(ctx, b)
    rows = fill(ctx, b, spec)
    amount = ctx.int("amount", 1, 2 ** 52)
    check_funding(ctx, b, rows, amount, src, form)


@case("C32", params=[dict(n=99, m=0, u=0), dict(n=100, m=0, u=0), dict(n=60, m=40, u=0), dict(n=60, m=40, u=1), dict(n=1, m=120, u=1)],
      thorough=[dict(n=n, m=m, u=u) for n, m in ((101, 0), (98, 1), (99, 1), (150, 51), (99, 99)) for u in (0, 1)])
def fund_limit(ctx, n, m, u):
    """n outputs of one value and m of another (unconfirmed when u); at most 99 can be used."""
    b = WalletsBalance()
    context(ctx, b)
    x, y = ctx.int("x", 1, 2 ** 50), ctx.int("y", 1, 2 ** 50)
    rows = []
    for k in range(n + m):
        v = x if k < n else y
        i = bytes([k + 1]) * 32
        conf = k < n or not u
        b.output_add(out(v, personal(0)(), i), confirmed=conf)
        rows.append((i, "p0", v, False, conf))
    amount = ctx.int("amount", 1, 2 ** 60)
    used = check_funding(ctx, b, rows, amount, None, "", limit=None)
    # the 99 most valuable outputs
    best = ctx.ite(x >= y, x * min(n, 99) + y * min(m, 99 - min(n, 99)), y * min(m, 99) + x * min(n, 99 - min(m, 99)))
    ctx.check(ctx.iff(used is not None, best >= amount), "funding fails exactly when the 99 most valuable outputs have too little")


@case("C32")
def fund_bad_source(ctx):
    b = WalletsBalance()
    b.output_add(out(5, personal(0)(), b"\1" * 32))
    t = ctx.choice("type", [UnlockHashType.NIL, UnlockHashType.ATOMIC_SWAP])
    bad = UnlockHash(type=t, hash=(b"\0" if t == UnlockHashType.NIL else b"\7") * 32)
    for s in (bad, str(bad), [bad], [str(bad), ADDR[0]], 5, [5], b"\1", (ADDR[0],)):
        ok, e = ctx.attempt(b.fund, units(1), s)
        ctx.check(not ok and isinstance(e, TypeError), "only personal and multisig addresses can be sources")


FUNDMS = [
    (("m0",), ("m0",), "one"), (("m0", "m0?"), ("m0",), "one-uh"), (("m0", "m1"), ("m0",), "uh"), (("m0", "m1"), ("m0",), "str"), (("m0", "m1"), ("m0", "m1"), "str"),
    (("p0", "m0"), ("p0", "m0"), "uh"), (("p0", "m0"), ("m0", "p0"), "str"), (("p0?", "m0"), ("p0", "m0"), "uh"), (("m0!", "m0"), ("m0",), "one"),
    (("m0-", "m1"), ("m0", "m1"), "uh"), (("m0", "m1?"), ("m1",), "one"), (("p0", "p1", "m0"), ("p0", "m0"), "uh"), (("m0?", "m0"), ("m0",), "one"),
    (("p0", "m0", "m0"), ("p0", "m0"), "uh"), (("m0?", "m1", "p0"), ("p0", "m0", "m1"), "uh"),
]


@case("C33", params=[dict(c=i) for i in range(len(FUNDMS))], thorough=[dict(c=i) for i in range(len(FUNDMS), len(FUNDMS) + 2)])
def fund_multisig(ctx, c):
    spec, src, form = (FUNDMS + [(("p0", "p1", "m0", "m1"), ("p0", "m0", "m1"), "uh"), (("m0", "m0!", "m1?", "p0?"), ("p0", "m0", "m1"), "uh")])[c]
    b = WalletsBalance()
    context(ctx, b)
    rows = fill(ctx, b, spec)
    amount = ctx.int("amount", 1, 2 ** 52)
    check_funding(ctx, b, rows, amount, src, form)


@case("C33", params=[dict(n=100)], thorough=[dict(n=99), dict(n=130)])
def fund_multisig_limit(ctx, n):
    b = WalletsBalance()
    context(ctx, b)
    x = ctx.int("x", 1, 2 ** 50)
    rows = []
    for k in range(n):
        i = bytes([k + 1]) * 32
        b.output_add(out(x, MS(), i))
        rows.append((i, "m0", x, False, True))
    for w in b.wallets.values():
        w.chain_height, w.chain_time = b.chain_height, b.chain_time
    amount = ctx.int("amount", 1, 2 ** 60)
    used = check_funding(ctx, b, rows, amount, ("m0",), "one", limit=None)
    ctx.check(ctx.iff(used is not None, x * min(n, 99) >= amount), "funding fails exactly when 99 outputs have too little")


def _far(kind, i):
    """The i-th of many personal addresses or multisig wallets."""
    a = str(UnlockHash(type=UnlockHashType.PUBLIC_KEY, hash="%064x" % (0x1000 + i * 7919)))
    if kind == "p":
        return ConditionTypes.unlockhash_new(a)
    return ConditionTypes.multi_signature_new(min_nr_sig=1 + i % 2, unlockhashes=[ADDR[0], a])


def many_sources(ctx, kind, n, form):
    """One output on each of n addresses (and one personal one), all but one of which are sources; one value symbolic."""
    b = WalletsBalance()
    context(ctx, b)
    gone, free = n // 3, ctx.choice("free", sorted({0, n - 1}))
    rows, src = [], []
    for i in range(n):
        name = "%s%d" % (kind, 100 + i)
        if name not in KINDS:
            KINDS[name] = lambda i=i: _far(kind, i)
            SRC[name] = str(_far(kind, i).unlockhash)
        v = ctx.int("x", 10 ** 6, 2 ** 40) if i == free else 1000 + 7 * i
        oid_ = (i + 1).to_bytes(32, "big")
        b.output_add(out(v, _far(kind, i), oid_), confirmed=i % 5 != 4)
        rows.append((oid_, name, v, False, i % 5 != 4))
        if i != gone:
            src.append(name)
    if kind == "m":
        b.output_add(out(500, personal(0)(), b"\xee" * 32))
        rows.append((b"\xee" * 32, "p0", 500, False, True))
        src.insert(n // 2, "p0")
    for w in b.wallets.values():
        w.chain_height, w.chain_time = b.chain_height, b.chain_time
    everywhere = sum(v for _, k, v, _, _ in rows if k in src)
    low = ctx.choice("low", [True, False])
    amount = ctx.int("amount", 1, 2 ** 41)
    # little, and nearly or more than all there is
    ctx.assume(amount <= 1600 if low else amount >= everywhere - 1003)
    check_funding(ctx, b, rows, amount, tuple(src), form)


@case("C32", params=[dict(n=n, form=f) for n, f in ((9, "uh"), (17, "str"), (34, "uh"), (66, "str"))], thorough=[dict(n=98, form="uh"), dict(n=100, form="str")])
def fund_many_addresses(ctx, n, form):
    """Every source counts, and nothing but the sources, also when there are many."""
    many_sources(ctx, "p", n, form)


@case("C33", params=[dict(n=n, form=f) for n, f in ((9, "uh"), (17, "str"), (34, "uh"), (66, "str"))], thorough=[dict(n=97, form="uh"), dict(n=99, form="str")])
def fund_many_wallets(ctx, n, form):
    """Every multisig source counts, and nothing but the sources, also when there are many."""
    many_sources(ctx, "m", n, form)


# ------------------------------------------------------------------------------------------------- C34
@case("C34", params=[dict(spec=s, unconfirmed=u) for s in ((), ("p0",), ("p0", "p1?"), ("p0!", "p0"), ("p0?!", "p1"), ("p0-", "p1"), ("p0", "p1", "nil?"))
                     for u in (False, True)])
def drain(ctx, spec, unconfirmed):
    b = WalletsBalance()
    context(ctx, b)
    rows = fill(ctx, b, spec)
    check_drain(ctx, b, rows, unconfirmed)


@case("C34", params=[dict(n=n, m=m) for n, m in ((99, 0), (100, 0), (99, 1), (98, 3), (199, 0), (10, 188))])
def drain_many(ctx, n, m):
    b = WalletsBalance()
    context(ctx, b)
    x, y = ctx.int("x", 1, 2 ** 50), ctx.int("y", 1, 2 ** 50)
    rows = []
    for k in range(n + m):
        i = bytes([k + 1]) * 32
        b.output_add(out(x if k < n else y, personal(k % 2)(), i), confirmed=k < n)
        rows.append((i, "p%d" % (k % 2), x if k < n else y, False, k < n))
    check_drain(ctx, b, rows, True)


@case("C34")
def drain_multisig(ctx):
    b = WalletsBalance()
    context(ctx, b)
    rows = fill(ctx, b, ("m0", "m0!", "m0?"))
    check_drain(ctx, b.wallets[SRC["m0"]], rows, True)


@case("C34")
def drain_fee(ctx):
    b = WalletsBalance()
    b.output_add(out(5, personal(0)(), b"\1" * 32))
    ok, _ = ctx.attempt(b.drain, ADDR[3], units(0))
    ctx.check(not ok, "draining needs a miner fee")
    ok, _ = ctx.attempt(b.drain, ADDR[3], ctx.choice("fee", [1, "1", None]))
    ctx.check(not ok, "draining needs a miner fee")


def check_drain(ctx, b, rows, unconfirmed):
    fee = ctx.int("fee", 1, 2 ** 40)
    lock = ctx.choice("lock", [None, 77])
    recipient = ctx.choice("recipient", [ADDR[3], (ADDR[:3], 2)])
    data = ctx.choice("data", [None, b"abc"])
    eligible = [(i, v, ctx.no(l)) for i, _, v, l, c in rows if c or unconfirmed]
    unlocked = [(i, v) for i, v, e in eligible if e]
    ok, txns = ctx.attempt(b.drain, recipient, units(fee), unconfirmed, data, lock)
    if not ok:  # a batch that is not worth its fee
        ctx.check(ctx.any([total(ctx, [v for _, v in unlocked]) < fee, len(unlocked) > 99]),
                  "draining works whenever the outputs are worth the fees")
        return
    used = []
    byid = dict(unlocked)
    for t in txns:
        mine = [bytes(ci.parentid.value) for ci in t.coin_inputs]
        ctx.check(1 <= len(mine) <= 99, "a transaction has at most 99 inputs")
        used += mine
        for ci in t.coin_inputs:
            ctx.check(ci.parent_output.id == ci.parentid, "every input knows the output it spends")
        ctx.check(len(t.coin_outputs) == 1, "a draining transaction has one output")
        ctx.check(all(i in byid for i in mine), "only unlocked outputs are drained, unconfirmed ones only on request")
        ctx.check(cur(t.coin_outputs[0].value) + fee == total(ctx, [byid[i] for i in mine if i in byid]), "all coins but the fee are sent")
        ctx.check(ctx.eq(t.coin_outputs[0].condition.json(), ConditionTypes.from_recipient(recipient, lock=lock).json()), "the coins go to the recipient")
        ctx.check([cur(f) == fee for f in t.miner_fees] and len(t.miner_fees) == 1 and cur(t.miner_fees[0]) == fee, "one miner fee per transaction")
        ctx.check(bytes(t.data.value) == (data or b""), "the data is attached")
    ctx.check(sorted(used) == sorted(byid), "every available output is drained exactly once")
    ctx.check(len(txns) == (len(unlocked) + 98) // 99, "as few transactions as possible")


# ------------------------------------------------------------------------------------- many outputs (C28 to C31)
COUNTS = [8, 9, 17, 33, 70, 130]


def idm(i):
    return (i + 1).to_bytes(2, "big") * 16


def few(ctx, n, hi=2 ** 64):
    """n values, of which the outer and the middle ones are arbitrary."""
    return [ctx.int("v%d" % i, 0, hi) if i in (0, n // 2, n - 1) else 10 ** (i % 12) + i for i in range(n)]


def owned_by(i):
    return ConditionTypes.unlockhash_new(ADDR[i % 5]) if i % 7 else ConditionTypes.nil_new()


@case("C28", params=[dict(cls=c, n=n) for c in ("wallet", "wallets") for n in COUNTS], thorough=[dict(cls="wallets", n=n) for n in (257, 600)])
def many_outputs(ctx, cls, n):
    """A balance of many outputs counts each of them."""
    b = {"wallet": WalletBalance, "wallets": WalletsBalance}[cls]()
    vals = few(ctx, n)
    rot, twice = ctx.choice("rot", [0, 1, 2, 3]), ctx.choice("twice", [0, 1, 3])
    best = [0] * n
    for rnd in range(2 if twice else 1):
        for i in range(n) if rnd == 0 else range(n - 1, -1, -twice):
            st = (i + i // 4 + rot + rnd * (1 + i // 3)) % 4 + 1
            b.output_add(out(vals[i], owned_by(i), idm(i)), confirmed=st in (2, 4), spent=st >= 3)
            best[i] = max(best[i], st)
    ctx.check(all(best), "every output is added")
    for name, rank in (("available", 2), ("spent", 4), ("unconfirmed", 1), ("unconfirmed_spent", 3)):
        got = [bytes(g.value) for g in buckets(b)[name]]
        ctx.check(sorted(got) == sorted(idm(i) for i in range(n) if best[i] == rank), "an output counts once, by the most final thing known about it", name)
    ctx.check(cur(b.available) == total(ctx, [vals[w] for w in range(n) if best[w] == 2]), "available coins are those of confirmed unspent outputs")
    ctx.check(cur(b.unconfirmed) == total(ctx, [vals[w] for w in range(n) if best[w] == 1]), "unconfirmed coins are those of unconfirmed unspent outputs")
    ctx.check(sorted(b.addresses) == sorted({str(owned_by(i).unlockhash) for i in range(n)}), "the addresses of all outputs are known")


@case("C29", params=[dict(cls=c, n=n) for c in ("wallet", "wallets") for n in COUNTS if c == "wallets" or n < 40], thorough=[dict(cls="wallets", n=n) for n in (257, 600)])
def many_locked(ctx, cls, n):
    """Of many outputs, some locked, exactly the unlocked ones are available."""
    b = {"wallet": WalletBalance, "wallets": WalletsBalance}[cls]()
    h, t = ctx.int("height", 1, 2 ** 40), ctx.int("time", 1, 2 ** 40)
    b.chain_height, b.chain_time = h, t
    vals = few(ctx, n)
    at = ctx.choice("at", [0, n // 2, n - 1])
    l = ctx.int("lock", 1, 2 ** 40)
    by = ctx.choice("others", ["height", "time"])
    confirmed = ctx.choice("confirmed", [True, False])
    if by == "height":
        ctx.assume(ctx.all([h >= 1000, h < 2000]))
    else:
        ctx.assume(ctx.all([t >= 10 ** 9, t < 2 * 10 ** 9]))
    low, high = (1000, 2000) if by == "height" else (10 ** 9, 2 * 10 ** 9)
    free, held = [], []
    for i in range(n):
        c = owned_by(i)
        if i == at:
            c = ConditionTypes.locktime_new(lock=l, condition=c)
            locked = ctx.any([ctx.all([l >= 500 * 10 ** 6, t < l]), ctx.all([l < 500 * 10 ** 6, h < l])])
        elif i % 3:
            locked = i % 3 == 1
            c = ConditionTypes.locktime_new(lock=high + i if locked else low - i, condition=c)
        else:
            locked = False
        b.output_add(out(vals[i], c, idm(i)), confirmed=confirmed)
        free.append(ctx.ite(ctx.no(locked), vals[i], 0))
        held.append(ctx.ite(locked, vals[i], 0))
        if i == at:
            mine = locked
    names = ("available", "locked") if confirmed else ("unconfirmed", "unconfirmed_locked")
    ctx.check(cur(getattr(b, names[0])) == total(ctx, free), "locked and unlocked coins are told apart by chain height and time")
    ctx.check(cur(getattr(b, names[1])) == total(ctx, held), "locked and unlocked coins are told apart by chain height and time")
    got = [bytes(co.id.value) for co in getattr(b, "outputs_available" if confirmed else "outputs_unconfirmed_available")]
    ctx.check(ctx.iff(idm(at) in got, ctx.no(mine)), "only unlocked outputs are available")
    ctx.check(sorted(x for x in got if x != idm(at)) == sorted(idm(i) for i in range(n) if i != at and i % 3 != 1), "only unlocked outputs are available")


@case("C30", params=[dict(ca=a, cb=b, n=n) for a in CLS for b in CLS for n in (9, 40, 130)], thorough=[dict(ca="wallets", cb="wallets", n=600)])
def merging_many(ctx, ca, cb, n):
    """Merging balances of many outputs counts each of them once."""
    a, b = CLS[ca](), CLS[cb]()
    vals = few(ctx, n)
    rot, part = ctx.choice("rot", [0, 1, 2, 3]), ctx.choice("part", ["halves", "odd", "all"])
    best, other = [0] * n, [0] * n
    for i in range(n):
        st = (i + i // 4 + rot) % 4 + 1
        so = (i + i // 5 + 2 * rot) % 4 + 1
        if part == "all" or (i < n // 2 if part == "halves" else i % 2):
            a.output_add(out(vals[i], owned_by(i), idm(i)), confirmed=st in (2, 4), spent=st >= 3)
            best[i] = st
        if part == "all" or not (i < n // 2 if part == "halves" else i % 2) or i == 1:
            b.output_add(out(vals[i], owned_by(i), idm(i)), confirmed=so in (2, 4), spent=so >= 3)
            other[i] = so
    before = buckets(b)
    r = a.balance_add(b)
    best = [max(x, y) for x, y in zip(best, other)]
    for name, rank in (("available", 2), ("spent", 4), ("unconfirmed", 1), ("unconfirmed_spent", 3)):
        got = sorted(bytes(g.value) for g in buckets(r)[name])
        ctx.check(got == sorted(idm(w) for w in range(n) if best[w] == rank), "merging balances counts every output once, by the most final thing known about it", name)
    ctx.check(cur(r.available) == total(ctx, [v for v, k in zip(vals, best) if k == 2]), "merging adds up the coins")
    ctx.check(cur(r.unconfirmed) == total(ctx, [v for v, k in zip(vals, best) if k == 1]), "merging adds up the coins")
    ctx.check(sorted(r.addresses) == sorted({str(owned_by(i).unlockhash) for i in range(n)}), "merging balances joins their addresses")
    ctx.check(buckets(b) == before, "the merged-in balance is not changed")


def shared(i, owners):
    """The condition of the i-th multisig wallet."""
    return ConditionTypes.multi_signature_new(min_nr_sig=1 + i % owners, unlockhashes=[person(i + j) for j in range(owners)])


def person(i):
    return str(UnlockHash(type=UnlockHashType.PUBLIC_KEY, hash=idm(i + 500)))


@case("C31", params=[dict(wallets=w, owners=o, each=e) for w, o, e in ((2, 5, 3), (9, 3, 2), (20, 2, 1), (40, 2, 1), (1, 17, 9), (1, 2, 70), (2, 64, 2))],
      thorough=[dict(wallets=w, owners=o, each=e) for w, o, e in ((130, 2, 2), (1, 130, 3), (3, 5, 300))])
def many_multisig(ctx, wallets, owners, each):
    """The outputs of many multisig wallets go each to their own."""
    vals = few(ctx, wallets * each)
    split = ctx.choice("merged", [True, False])
    rot = ctx.choice("rot", [0, 1, 2, 3])
    b, q = WalletsBalance(), WalletsBalance()
    best = []
    for k in range(wallets * each):
        st = (k + k // 4 + rot) % 4 + 1
        (q if split and k % 3 == 1 else b).output_add(out(vals[k], shared(k % wallets, owners), idm(k)), confirmed=st in (2, 4), spent=st >= 3)
        best.append(st)
    b.output_add(out(5, personal(0)(), b"\x77" * 32))
    if split:
        b = b.balance_add(q)
    ctx.check(sorted(b.addresses_multisig) == sorted(str(shared(i, owners).unlockhash) for i in range(wallets)), "every multisig address has a wallet")
    ctx.check(cur(b.available) == 5 and b.addresses == [ADDR[0]], "personal outputs are in the personal balance")
    for i in range(wallets):
        c = shared(i, owners)
        w = b.wallets[str(c.unlockhash)]
        mine = [k for k in range(wallets * each) if k % wallets == i]
        ctx.check(w.address == str(c.unlockhash), "a multisig wallet has the address of its outputs")
        ctx.check(w.signature_count == 1 + i % owners, "a multisig wallet has the signature count of its outputs")
        ctx.check(sorted(w.owners) == sorted(person(i + j) for j in range(owners)), "a multisig wallet has the owners of its outputs")
        for name, rank in (("available", 2), ("spent", 4), ("unconfirmed", 1), ("unconfirmed_spent", 3)):
            ctx.check(sorted(bytes(g.value) for g in buckets(w)[name]) == sorted(idm(k) for k in mine if best[k] == rank), "multisig outputs are in the wallet of their address", name)
        ctx.check(cur(w.available) == total(ctx, [vals[k] for k in mine if best[k] == 2]), "multisig coins are those of its confirmed unspent outputs")


# ------------------------------------------------------------------------------------------------- asked again (C28, C29, C30)
@case("C28", params=[dict(cls=c, often=o) for c in CLS for o in (False, True)])
def asked_between(ctx, cls, often):
    """What is known of the outputs is the same whether or not a balance is looked at in between."""
    b = CLS[cls]()
    idb = ids(ctx, 2, symbolic=False)
    vals = [ctx.int("v%d" % i, 1, 2 ** 64) for i in range(2)]
    best = [0, 0]
    for k in range(3):
        add_events(ctx, b, "e%d" % k, 1, idb, vals, [personal(0), personal(1)], best)
        if often or k != 1:
            check_buckets(ctx, b, idb, best, "an output counts once, by the most final thing known about it")
            ctx.check(cur(b.available) == total(ctx, [vals[w] for w in range(2) if best[w] == 2]), "available coins are those of confirmed unspent outputs")
            ctx.check(cur(b.unconfirmed) == total(ctx, [vals[w] for w in range(2) if best[w] == 1]), "unconfirmed coins are those of unconfirmed unspent outputs")
            ctx.check(b.active == any(r in (1, 2) for r in best), "a balance with unspent outputs is active")
            ctx.check(sorted(b.addresses) == [ADDR[w] for w in range(2) if best[w]], "the addresses of all outputs are known")


@case("C29", params=[dict(cls=c) for c in CLS])
def totals_again(ctx, cls):
    """Totals follow the chain context and the outputs, also when they were asked for before."""
    b = CLS[cls]()
    l = [ctx.int("l%d" % i, 1, 2 ** 40) for i in range(2)]
    vals = [ctx.int("v%d" % i, 1, 2 ** 64) for i in range(3)]
    for i in range(2):
        b.output_add(out(vals[i], ConditionTypes.locktime_new(lock=l[i], condition=ConditionTypes.unlockhash_new(ADDR[0])), bytes([i + 1]) * 32), confirmed=i == 0)
    mode = ctx.choice("mode", ["height", "time", "output"])
    h, t = 1000, 10 ** 9
    b.chain_height, b.chain_time = h, t
    for again in range(2):
        locked = [ctx.any([ctx.all([x >= 500 * 10 ** 6, t < x]), ctx.all([x < 500 * 10 ** 6, h < x])]) for x in l]
        more = [vals[2]] if again and mode == "output" else []
        for name, i, lk in (("available", 0, False), ("locked", 0, True), ("unconfirmed", 1, False), ("unconfirmed_locked", 1, True)):
            want = ctx.ite(locked[i] if lk else ctx.no(locked[i]), vals[i], 0)
            ctx.check(cur(getattr(b, name)) == total(ctx, [want] + (more if name == "available" else [])), "locked and unlocked coins are told apart by chain height and time", name)
        n = len(b.outputs_available)
        ctx.check(ctx.eq(n, ctx.ite(locked[0], 0, 1) + len(more)), "only unlocked outputs are available")
        if mode == "height":
            h = ctx.int("h", 1, 2 ** 40) if not again else h
            b.chain_height = h
        elif mode == "time":
            t = ctx.int("t", 1, 2 ** 40) if not again else t
            b.chain_time = t
        elif not again:
            b.output_add(out(vals[2], ConditionTypes.unlockhash_new(ADDR[1]), b"\x09" * 32))


@case("C30", params=[dict(ca=a, cb=b) for a in CLS for b in CLS])
def contexts_stay_apart(ctx, ca, cb):
    """Changing the context of a merged balance leaves that of what was merged in, and the other way around."""
    a, b = CLS[ca](), CLS[cb]()
    old, new = "bb" * 32, "cc" * 32
    b.chain_height, b.chain_time, b.chain_blockid = 9, 900, old
    r = a.balance_add(b)
    first, second = (r, b) if ctx.choice("order", [0, 1]) else (b, r)
    if first is second:
        return
    first.chain_height, first.chain_time = ctx.int("h", 10, 2 ** 30), ctx.int("t", 901, 2 ** 40)
    first.chain_blockid = new
    ctx.check(str(second.chain_blockid) == old and second.chain_height == 9 and second.chain_time == 900, "the merged-in balance is not changed")
    ctx.check(str(first.chain_blockid) == new, "the chain context is the given one")


@case("C34", params=[dict(n=n) for n in (0, 1, 83, 84, 200)])
def drain_data(ctx, n):
    """Up to 83 bytes of data are attached in full, more are refused."""
    b = WalletsBalance()
    b.output_add(out(5 * 10 ** 9, personal(0)(), b"\1" * 32))
    data = ctx.bytes("data", n)
    ok, txns = ctx.attempt(lambda: b.drain(ADDR[3], units(10 ** 9), data=data))
    ctx.check(ok == (n <= 83), "at most 83 bytes of data are attached")
    if ok:
        ctx.check(ctx.eq(bytes(txns[0].data.value), data), "the data is attached")
