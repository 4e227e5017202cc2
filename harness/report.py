"""C51: what is shown and raised states the true amounts and causes."""
import re

from engine.api import case
from tfchain import errors
from tfchain.TFChainWallet import MultiSigWalletBalance, WalletBalance, WalletsBalance
from tfchain.types import ConditionTypes
from tfchain.types.PrimitiveTypes import Currency
from harness.bal import ADDR, MS, out, personal
from tfchain.types.ConditionTypes import OutputLock, UnlockHash

VALUES = [1, 10 ** 9, 1500000000, 25 * 10 ** 9 + 7]
AMOUNT = re.compile(r"-?\d+(?:\.\d+)? TFT")


def tft(v):
    """An amount as it is written."""
    t = "%d.%09d" % (v // 10 ** 9, v % 10 ** 9)
    return t.rstrip("0").rstrip(".") + " TFT"


def lines(rows, known, height, time):
    """The amounts that are to be shown for rows of (value, state, lock)."""
    a = {k: 0 for k in ("confirmed", "locked", "unconfirmed", "unconfirmed locked", "spent", "unconfirmed spent")}
    for v, state, lock in rows:
        lk = known and lock is not None and bool(height < lock if lock < 5 * 10 ** 8 else time < lock)
        a[{"confirmed": "locked", "unconfirmed": "unconfirmed locked"}.get(state, state) if lk else state] += v
    r = [tft(a["confirmed"]), tft(a["locked"])]
    if a["unconfirmed"] or a["unconfirmed locked"]:
        r += [tft(a["unconfirmed"]), tft(a["unconfirmed locked"])]
    if a["unconfirmed spent"]:
        r.append("-" + tft(a["unconfirmed spent"]))
    return r


STATES = {"confirmed": (True, False), "unconfirmed": (False, False), "spent": (True, True), "unconfirmed spent": (False, True)}
CLS = {"wallet": WalletBalance, "wallets": WalletsBalance,
       "multisig": lambda: MultiSigWalletBalance(owners=[UnlockHash.from_json(a) for a in ADDR[:2]], signature_count=2)}


def context(ctx, b):
    h, t = ctx.choice("context", [(100, 1600000000), (0, 1600000000), (100, 0), (0, 0), (1, 1)])
    b.chain_height = h
    b.chain_time = t
    return h, t, h > 0 and t > 0


def place(ctx, b, k, conds, lock, value=None):
    v = value or VALUES[k]
    state = ctx.choice("state%d" % k, sorted(STATES))
    c = conds()
    if lock and ctx.choice("lock%d" % k, [0, 1]):
        c = ConditionTypes.locktime_new(lock=lock, condition=c)
    else:
        lock = None
    confirmed, spent = STATES[state]
    b.output_add(out(v, c, bytes([k + 1]) * 32), confirmed=confirmed, spent=spent)
    return v, state, lock


@case("C51", params=[dict(cls=c, n=n) for c in sorted(CLS) for n in (0, 1, 2)], thorough=[dict(cls="wallet", n=3)])
def balance(ctx, cls, n):
    """A balance is shown with the sums of its available, locked, unconfirmed and spent outputs."""
    b = CLS[cls]()
    h, t, known = context(ctx, b)
    lock = ctx.int("lock", 1, 2 ** 40)
    rows = [place(ctx, b, k, MS if cls == "multisig" else personal(0), lock, ctx.choice("value", VALUES) if n == 1 else None) for k in range(n)]
    text = repr(b)
    ctx.check(AMOUNT.findall(text) == lines(rows, known, h, t), "a balance is shown with its true amounts")
    if known:
        ctx.check(text.startswith("wallet balance on height %d at " % h), "the height is shown if it is known")
    else:
        ctx.check("unknown time" in text and " on height " not in text, "an unknown time is shown as such")
    if cls == "multisig":
        ctx.check(str(MS().unlockhash) in text and all(a in text for a in ADDR[:2]) and "2-of-2" in text, "a multisig wallet is shown with its owners")


@case("C51")
def chain_context(ctx):
    """The height and the time of the balance are shown as they are."""
    b = WalletBalance()
    ctx.exact_dates()
    h, t = ctx.int("height", 1, 999), ctx.int("time", 1582848000, 1582848000 + 3 * 86400)
    b.chain_height = h
    b.chain_time = t
    first = repr(b).split("\n")[0]
    ctx.check(ctx.eq(first, "wallet balance on height " + str(h) + " at " + str(OutputLock(value=t))), "the height and the time are shown")


@case("C51", params=[dict(n=n) for n in (1, 2)])
def multisig(ctx, n):
    """The multisig wallets of a balance are shown one by one if they have unspent outputs."""
    b = WalletsBalance()
    h, t, known = context(ctx, b)
    conds = [personal(0), MS, lambda: ConditionTypes.multi_signature_new(min_nr_sig=1, unlockhashes=ADDR[1:4])]
    rows = [[], [], []]
    for k in range(n):
        w = ctx.choice("which%d" % k, [0, 1, 2])
        rows[w].append(place(ctx, b, k, conds[w], None))
        for x in b.wallets.values():
            x.chain_height = h
            x.chain_time = t
    want = [lines(rows[0], known, h, t)]
    text = repr(b)
    for w in (1, 2):
        a = str(conds[w]().unlockhash)
        active = any(s in ("confirmed", "unconfirmed") for _, s, _ in rows[w])
        ctx.check((a in text) == active, "a multisig wallet is shown if it has unspent outputs")
        if active:
            part = text[text.index(a):].split("\n\n")[0]
            ctx.check(AMOUNT.findall(part) == lines(rows[w], known, h, t), "a multisig wallet is shown with its true amounts")
    ctx.check(AMOUNT.findall(text.split("\n\n")[0]) == want[0], "the personal coins are shown apart")


@case("C51", params=[dict(k=k) for k in (10, 13)])
def precision(ctx, k):
    """The error for an amount with too many digits tells how many there are."""
    d = ctx.str("digits", k)
    for i in range(k):
        ctx.assume(ctx.all([ord(d[i]) >= 48, ord(d[i]) <= 57]))
    ok, e = ctx.attempt(lambda: Currency(value="1." + d))
    ctx.check(not ok and isinstance(e, errors.CurrencyPrecisionOverflow), "too many digits are refused")
    ctx.check(e.precision == k, "the number of digits is told")
    ctx.check(str(e.value) == "1." + d, "the refused amount is told")
