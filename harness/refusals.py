"""C52: the error of a refused operation tells what it is about."""
from decimal import Decimal
from engine.api import case
from tfchain import errors
from tfchain.types.ConditionTypes import UnlockHash
from tfchain.types.PrimitiveTypes import Currency, Hash
from harness.bal import cur, units
from harness.chain import *  # noqa: F401,F403
from harness.lookup import BASES, One, network
from harness.services import BIG, KEYOF, TFT, Payment, bot_page, set_time
from harness.swap import OUT, contract_scene, plain_messages, sha
from harness.txn import BOTNAMES
from harness.wal import FEE, MADDR
from tfchain.TFChainClient import TFChainClient
from tfchain.TFChainExplorerClient import TFChainExplorerClient


def refused(ctx, kind, f, *args):
    ok, e = ctx.attempt(f, *args)
    ctx.check(not ok and isinstance(e, kind), "the operation is refused for what is wrong with it")
    return e


# ------------------------------------------------------------------------------------------------- amounts
@case("C52", params=[dict(how=h) for h in ("minus", "taken", "made")])
def negative_amount(ctx, how):
    """An amount below zero is named."""
    a, b = ctx.int("a", 0, 2 ** 60), ctx.int("b", 1, 2 ** 61)
    ctx.assume(a < b)
    x, y = units(a), units(b)

    def take():
        z = units(a)
        z -= y
    e = refused(ctx, errors.CurrencyNegativeValue, {"minus": lambda: x - y, "taken": take,
                                                    "made": lambda: Currency(value=Decimal(-b))}[how])
    want = -b * 10 ** 9 if how == "made" else a - b
    ctx.check(Decimal(e.value) * 10 ** 9 == want, "the negative amount is named")
    ctx.check(cur(x) == a and cur(y) == b, "the amounts stay what they are")


@case("C52", params=[dict(n=n) for n in (10, 11, 15)])
def precise_amount(ctx, n):
    """An amount of too many decimals is named, and how many it has."""
    t = "3." + "0" * (n - 3) + ctx.str("digits", 3, "0123456789")
    ctx.assume(t[-1] != "0")
    e = refused(ctx, errors.CurrencyPrecisionOverflow, lambda: Currency(value=t))
    ctx.check(e.precision == n, "the number of decimals is named")
    ctx.check(e.value == Decimal(t), "the amount is named")


# ------------------------------------------------------------------------------------------------- contracts
@case("C52", params=[dict(how=h, net=n) for h in ("initiate", "participate") for n in (None, "devnet")])
def small_contract(ctx, how, net):
    """An amount that is not above the fee is named, with the fee."""
    c = Chain(time=10 ** 9, network=net)
    funds_ = hashpage([tx("41" * 32, [output(2 ** 50, c_addr(K[0].addr))], ["42" * 32])])
    c.page(K[0].addr, funds_)
    w = wallet(c)
    a = ctx.int("amount", 1, FEE[net])
    h = ctx.bytes("hash", 32)
    with plain_messages():
        e = refused(ctx, errors.AtomicSwapInsufficientAmountError,
                    lambda: w.atomicswap.initiate(O[0].addr, units(a), refund_time="+2d") if how == "initiate" else w.atomicswap.participate(O[0].addr, units(a), h, refund_time="+2d"))
    ctx.check(cur(e.amount) == a, "the amount is named")
    ctx.check(cur(e.minimum_miner_fee) == FEE[net], "the fee is named")
    ctx.check(c.posted == [], "nothing is submitted")


def about(ctx, x, s, r, value, secret, lock):
    """The contract an error is about."""
    ctx.check(str(x.outputid) == OUT, "the contract is named by its id")
    ctx.check(str(x.sender) == s.addr and str(x.receiver) == r.addr, "with its parties")
    ctx.check(cur(x.amount) == value, "with its amount")
    ctx.check(ctx.eq(bytes(x.secret_hash.value), sha(secret)), "with the hash of its secret")
    ctx.check(x.refund_timestamp == lock, "with its refund time")


REFUSED = {
    "secret": (errors.AtomicSwapInvalidSecret, "o0", "k0"), "receiver": (errors.AtomicSwapForbidden, "k0", "o0"),
    "early": (errors.AtomicSwapForbidden, "k0", "o0"), "sender": (errors.AtomicSwapForbidden, "o0", "k1"),
    "amount": (errors.AtomicSwapContractInvalid, "o0", "k0"), "hash": (errors.AtomicSwapContractInvalid, "o1", "k0"),
    "as-sender": (errors.AtomicSwapContractInvalid, "o0", "k0"), "as-receiver": (errors.AtomicSwapContractInvalid, "k1", "o0"),
    "due": (errors.AtomicSwapContractInvalid, "o0", "k0"), "other": (errors.AtomicSwapContractInvalid, "o0", "k0"),
}


@case("C52", params=[dict(why=w) for w in sorted(REFUSED)])
def contract_refused(ctx, why):
    """The contract that cannot be claimed or is not as expected is named."""
    kind, s, r = REFUSED[why]
    c, w, time, lock, value, secret = contract_scene(ctx, s, r)
    given = ctx.bytes("given", 32)
    a = w.atomicswap
    if why in ("secret", "hash"):
        ctx.assume(ctx.no(ctx.eq(given if why == "secret" else given, secret if why == "secret" else sha(secret))))
    if why == "early":
        ctx.assume(time < lock)
    if why == "sender":
        ctx.assume(time >= lock)
    other = ctx.int("other", 0, 2 ** 41)
    if why == "amount":
        ctx.assume(other != value)
    if why == "due":
        ctx.assume(ctx.all([other > time, lock < other]))
    known = a.verify(OUT) if why == "other" else None
    with plain_messages():
        e = refused(ctx, kind, {
            "secret": lambda: a.redeem(OUT, given), "receiver": lambda: a.redeem(OUT, secret), "early": lambda: a.refund(OUT), "sender": lambda: a.refund(OUT),
            "amount": lambda: a.verify(OUT, amount=units(other)), "hash": lambda: a.verify(OUT, secret_hash=given),
            "as-sender": lambda: a.verify(OUT, sender=True), "as-receiver": lambda: a.verify(OUT, receiver=True),
            "due": lambda: a.verify(OUT, min_refund_time=other), "other": lambda: a.verify("1d" * 32, contract=known)}[why])
    about(ctx, e.contract, KEYOF[s], KEYOF[r], value, secret, lock)
    ctx.check(c.posted == [], "nothing is submitted")


@case("C52", params=[dict(how=h, state=s) for h in ("redeem", "refund", "verify") for s in ("confirmed", "unconfirmed", "missing")])
def contract_gone(ctx, how, state):
    """A contract that is spent is named with the transaction that spent it, and one that does not exist by its id."""
    c, w, time, lock, value, secret = contract_scene(ctx, "k0", "k1", None if state == "missing" else state)
    if state == "missing":
        del c.pages["/explorer/hashes/" + OUT]
    id = ctx.choice("form", [OUT, Hash.from_json(OUT)])
    a = w.atomicswap
    e = refused(ctx, errors.AtomicSwapContractNotFound if state == "missing" else errors.AtomicSwapContractSpent,
                {"redeem": lambda: a.redeem(id, secret), "refund": lambda: a.refund(id), "verify": lambda: a.verify(id)}[how])
    if state == "missing":
        ctx.check(str(e.outputid) == OUT, "the id is named")
    else:
        about(ctx, e.contract, K[0], K[1], value, secret, lock)
        ctx.check(str(e.transaction.id) == "0f" * 32, "the spending transaction is named")
    ctx.check(c.posted == [], "nothing is submitted")


# ------------------------------------------------------------------------------------------------- bots and addresses
@case("C52", params=[dict(how=h) for h in ("update", "sender", "receiver", "both")])
def inactive_bot(ctx, how):
    """The inactive bot is named, and since when it is."""
    p = Payment(ctx, 0, *BIG)
    i, j = 7, 8
    time, exp, more = ctx.int("time", 10 ** 9, 2 ** 40), ctx.int("expiration", 0, 2 ** 40), ctx.int("more", 1, 2 ** 40)
    set_time(p.chain, time)
    ctx.assume(exp <= time)
    bot_page(p.chain, i, K[0], exp if how != "receiver" else time + more)
    bot_page(p.chain, j, K[1], exp if how == "receiver" else time - more if how == "both" else time + more)
    if how == "both":
        ctx.assume(more <= time)
    t = p.w.threebot
    e = refused(ctx, errors.ThreeBotInactive, lambda: t.record_update(i, names_to_add=BOTNAMES[:1]) if how == "update" else t.name_transfer(i, j, BOTNAMES[:1]))
    pairs = [(i, exp)] if how in ("update", "sender") else [(j, exp)] if how == "receiver" else [(i, exp), (j, time - more)]
    ctx.check(ctx.any([ctx.all([str(e.identifier) == str(k), e.expiration == x]) for k, x in pairs]), "the inactive bot is named, with its expiration")
    ctx.check(p.chain.posted == [], "nothing is submitted")


@case("C52", params=[dict(how=h) for h in ("lookup", "update", "sender", "receiver")])
def unknown_bot(ctx, how):
    """The unknown bot is named as it was asked for."""
    c = Chain(time=10 ** 9)
    w = wallet(c)
    bot_page(c, 3, K[0], 2 ** 40)
    if how == "lookup":
        raw = ctx.bytes("key", 32)
        id = ctx.choice("form", ["number", "name", "key"])
        id = ctx.int("id", 4, 999) if id == "number" else "chatbot.example" if id == "name" else "ed25519:" + raw.hex()
    else:
        id = ctx.int("id", 4, 999)
    t = w.threebot
    e = refused(ctx, errors.ThreeBotNotFound, {"lookup": lambda: c.threebot.record_get(id), "update": lambda: t.record_update(id, months=1),
                                               "sender": lambda: t.name_transfer(id, 3, BOTNAMES[:1]), "receiver": lambda: t.name_transfer(3, id, BOTNAMES[:1])}[how])
    ctx.check(ctx.eq(str(e.identifier), str(id)), "the unknown bot is named")
    ctx.check(c.posted == [], "nothing is submitted")


@case("C52", params=[dict(how=h, form=f) for h in ("register", "get") for f in ("text", "object")])
def foreign_address(ctx, how, form):
    """The address that is not the wallet's is named."""
    c = Chain()
    w = wallet(c)
    a = ctx.choice("kind", ["any", "multisig", "next"])
    a = address(1, ctx.bytes("hash", 32)) if a == "any" else MADDR["m0"] if a == "multisig" else K[2].addr
    ctx.assume(ctx.no(ctx.any([ctx.eq(a, K[0].addr), ctx.eq(a, K[1].addr)])))
    arg = UnlockHash.from_json(a) if form == "object" else a
    e = refused(ctx, errors.ERC20RegistrationForbidden if how == "register" else errors.AddressNotInWallet,
                w.erc20.address_register if how == "register" else w.erc20.address_get, arg)
    ctx.check(ctx.eq(str(e.address), a), "the foreign address is named")
    ctx.check(c.posted == [], "nothing is submitted")


# ------------------------------------------------------------------------------------------------- explorers
@case("C52", params=[dict(method=m, how=h) for m in ("get", "post") for h in ("refused", "strange", "down", "none")])
def explorer_errors(ctx, method, how):
    """What was asked of which explorers is named, and the data that could not be posted."""
    endpoint = "/explorer/" + ctx.choice("what", ["hashes/" + "0a" * 32, "3bot/7"])
    client = TFChainClient(explorer_client=TFChainExplorerClient(addresses=BASES[:2]), network_type="testnet")
    code = ctx.int("code", 300, 599)
    data = b'{"n":%d}' % ctx.choice("n", [1, 200])
    x = {"refused": ("refused", (code, b"error")), "strange": ("ok", (201, b"{}\n")), "down": ("down", TimeoutError("timed out")),
         "none": ("ok", (204, b""))}[how]
    with network({b: x for b in BASES[:2]}):
        ok, e = ctx.attempt(lambda: client.explorer_get(endpoint) if method == "get" else client.explorer_post(endpoint, data))
    if how == "down":
        ctx.check(not ok and isinstance(e, errors.ExplorerNotAvailable) and e.addresses == BASES[:2], "the explorers are named")
    elif method == "post":
        ctx.check(not ok and isinstance(e, errors.ExplorerServerPostError), "a refusal is told apart")
        ctx.check(e.data == data, "the data is named")
    elif how == "none":
        ctx.check(not ok and isinstance(e, errors.ExplorerNoContent), "no content is told apart")
    else:
        ctx.check(not ok and isinstance(e, errors.ExplorerServerError), "a refusal is told apart")
    ctx.check(isinstance(e, errors.ExplorerError) and e.endpoint == endpoint, "the endpoint is named")


@case("C52", params=[dict(what=w) for w in ("transaction", "address", "output", "block", "bot", "mint", "erc20")])
def invalid_answers(ctx, what):
    """An answer that cannot be one is named, with the endpoint it came from."""
    n = ctx.int("n", 0, 2 ** 40)
    page = ctx.choice("page", [{"n": n}, {"hashtype": "nonsense", "n": n}]) if what not in ("block", "bot", "mint") else {"n": n}
    c, h, a = One(page), "0a" * 32, O[0].addr
    e = refused(ctx, errors.ExplorerInvalidResponse, {
        "transaction": lambda: c.transaction_get(h), "address": lambda: c.unlockhash_get(a), "output": lambda: c.coin_output_get(h), "block": lambda: c.block_get(7),
        "bot": lambda: c.threebot.record_get(7), "mint": lambda: c.minter.condition_get(), "erc20": lambda: c.erc20.address_get(a)}[what])
    ctx.check(e.endpoint == c.asked[-1], "the endpoint is named")
    ctx.check(ctx.eq(e.response, page), "the answer is named")
