"""C40, C41, C43: talking to explorers; looking up blocks, transactions, outputs, addresses and records."""
import json
import urllib.error
import urllib.request
from engine.api import case
from tfchain import errors
from tfchain.TFChainExplorerClient import TFChainExplorerClient
from harness.bal import cur, units
from harness.chain import *  # noqa: F401,F403
from harness.wal import MADDR, OWNERS, COND
from harness.txb import Fixed
from tfchain.types.ConditionTypes import UnlockHash, UnlockHashType


# ------------------------------------------------------------------------------------------------- C40
class Answer:
    def __init__(self, code, line):
        self.code = self.status = code
        self.line = line

    def getcode(self):
        return self.code

    def readline(self, *a):
        return self.line

    def read(self, *a):
        return self.line

    def close(self):
        pass


class Refusal(urllib.error.HTTPError):
    def __init__(self, url, code, body):
        Exception.__init__(self)
        self.url = self.filename = url
        self.code, self.body, self.msg, self.hdrs, self.fp = code, body, "refused", None, None

    def read(self, *a):
        return self.body

    def __str__(self):
        return "HTTP Error"


class network:
    """Replaces urlopen: explorers answer as told, requests are recorded."""

    def __init__(self, answers):
        self.answers, self.requests = answers, []

    def urlopen(self, request, *a, **k):
        self.requests.append(request)
        for base in self.answers:
            if request.full_url.startswith(base + "/"):
                how, x = self.answers[base]
                if how == "down":
                    raise x
                if how == "refused":
                    raise Refusal(request.full_url, *x)
                return Answer(*x)
        raise AssertionError("request to an unknown address " + request.full_url)

    def __enter__(self):
        self.old = urllib.request.urlopen
        urllib.request.urlopen = self.urlopen
        return self

    def __exit__(self, *x):
        urllib.request.urlopen = self.old


BASES = ["https://one.example", "http://localhost:23110", "https://three.example:8443"]
DOWN = {"refused": lambda: urllib.error.URLError(ConnectionRefusedError(111, "refused")), "timeout": lambda: TimeoutError("timed out"),
        "reset": lambda: ConnectionResetError(104, "reset"), "dns": lambda: urllib.error.URLError("unknown host")}
BODY = [b"unrecognized hash used as input to /explorer/hash", b'{"message":"3Bot not found"}', b"Not Found", b"error", b""]


def explorers(ctx, n, post=False):
    """n explorers, each down, refusing with some status, or answering."""
    r = {}
    for k in range(n):
        how = ctx.choice("how%d" % k, ["down", "refused", "ok"])
        if how == "down":
            x = DOWN[ctx.choice("down%d" % k, sorted(DOWN)) if n == 1 else sorted(DOWN)[k]]()
        elif how == "refused":
            code = ctx.int("code%d" % k, 300, 599)
            x = (code, ctx.choice("body%d" % k, BODY) if n < 3 else BODY[0])
        else:
            x = (ctx.choice("status%d" % k, [200, 201, 204]) if n < 3 else 200, b'{"n":%d}\n' % k)
        r[BASES[k]] = (how, x)
    return r


def check_asked(ctx, net, n, endpoint, method):
    asked = [q.full_url for q in net.requests]
    ctx.check(len(set(asked)) == len(asked), "every explorer is asked at most once")
    for q in net.requests:
        ctx.check(any(q.full_url == b + endpoint for b in BASES[:n]), "the endpoint is asked for")
        ctx.check(q.get_method() == method, "the right method is used")
        ctx.check(q.get_header("User-agent") == "Rivine-Agent", "daemons are told that it is a client of theirs")
    states = [net.answers[q.full_url[:-len(endpoint)]] for q in net.requests]
    ctx.check(all(s[0] == "down" for s in states[:-1]), "another explorer is asked only when one cannot be reached")
    return states


@case("C40", params=[dict(n=n) for n in (1, 2, 3)])
def get(ctx, n):
    endpoint = "/explorer/hashes/" + "0a" * 32
    client = TFChainClient(explorer_client=TFChainExplorerClient(addresses=BASES[:n]), network_type="testnet")
    with network(explorers(ctx, n)) as net:
        ok, r = ctx.attempt(lambda: client.explorer_get(endpoint))
    states = check_asked(ctx, net, n, endpoint, "GET")
    ctx.check(len(states) >= 1, "explorers are asked")
    if states[-1][0] == "down":
        ctx.check(len(states) == n, "all explorers are tried")
        ctx.check(not ok and isinstance(r, errors.ExplorerNotAvailable), "it is reported when no explorer can be reached")
        ctx.check(r.endpoint == endpoint and r.addresses == BASES[:n], "it is reported when no explorer can be reached")
        return
    how, x = states[-1]
    if how == "ok":
        ctx.check(ok == (x[0] == 200), "an answer is returned if it is one")
        if ok:
            ctx.check(r == x[1], "the answer is returned as it is")
        else:
            ctx.check(isinstance(r, errors.ExplorerNoContent if x[0] == 204 else errors.ExplorerServerError), "no content is told apart from errors")
        return
    code, body = x
    none = ctx.all([code == 400, b"unrecognized hash" in body or b"not found" in body])
    ctx.check(not ok, "a refusal is an error")
    ctx.check(ctx.iff(isinstance(r, errors.ExplorerNoContent), none), "unknown hashes are told apart from errors")
    ctx.check(isinstance(r, (errors.ExplorerNoContent, errors.ExplorerServerError)), "a refusal is reported as an error of the explorer")
    ctx.check(r.endpoint == endpoint, "the endpoint is reported")


@case("C40", params=[dict(n=n) for n in (1, 2, 3)])
def post(ctx, n):
    endpoint = "/transactionpool/transactions"
    client = TFChainClient(explorer_client=TFChainExplorerClient(addresses=BASES[:n]), network_type="testnet")
    v = ctx.int("v", 0, 2 ** 40)
    data = {"version": 1, "data": {"coininputs": [], "minerfees": [v], "arbitrarydata": "aGVsbG8="}}
    form = ctx.choice("form", ["dict", "text", "bytes"])
    sent = {"dict": lambda: data, "text": lambda: json.dumps(data), "bytes": lambda: json.dumps(data).encode("utf-8")}[form]()
    with network(explorers(ctx, n, True)) as net:
        ok, r = ctx.attempt(lambda: client.explorer_post(endpoint, sent))
    states = check_asked(ctx, net, n, endpoint, "POST")
    ctx.check(len(states) >= 1, "explorers are asked")
    for q in net.requests:
        ctx.check(q.get_header("Content-type") == "application/json", "data is sent as JSON")
        ctx.check(isinstance(q.data, bytes), "data is sent as JSON")
        ctx.check(ctx.eq(json.loads(q.data), data), "exactly the given data is sent")
    if states[-1][0] == "down":
        ctx.check(len(states) == n, "all explorers are tried")
        ctx.check(not ok and isinstance(r, errors.ExplorerNotAvailable), "it is reported when no explorer can be reached")
        ctx.check(r.endpoint == endpoint and r.addresses == BASES[:n], "it is reported when no explorer can be reached")
        return
    how, x = states[-1]
    ctx.check(ok == (how == "ok" and x[0] == 200), "an answer is returned if it is one")
    if ok:
        ctx.check(r == x[1], "the answer is returned as it is")
    else:
        ctx.check(isinstance(r, errors.ExplorerServerPostError) and r.endpoint == endpoint, "a refusal is reported as an error of the explorer")


@case("C40")
def configuration(ctx):
    """The network decides on the explorers and the miner fee; it is taken from the explorer if it is not given."""
    name, n, fee = ctx.choice("network", [("standard", 4, 10 ** 8), ("testnet", 2, 10 ** 8), ("devnet", 1, 10 ** 9)])
    name = ctx.choice("spelling", [name, name.upper()])
    c = TFChainClient(network_type=name)
    ctx.check(len(c.explorer_addresses) == n, "a network has its own explorers")
    ctx.check(all((".testnet." in a) == (n == 2) and ("localhost" in a) == (n == 1) for a in c.explorer_addresses), "a network has its own explorers")
    ctx.check(cur(c.minimum_miner_fee) == fee, "a network has its own minimum fee")
    with network({BASES[0]: ("ok", (200, json.dumps({"chaininfo": {"NetworkName": name}}).encode() + b"\n"))}) as net:
        d = TFChainClient(explorer_client=TFChainExplorerClient(addresses=BASES[:1]))
    ctx.check([q.full_url for q in net.requests] == [BASES[0] + "/explorer/constants"], "the network is asked for")
    ctx.check(d.network == c.network, "the network is that of the explorer")
    ctx.check(cur(d.minimum_miner_fee) == fee, "a network has its own minimum fee")
    ctx.check(d.explorer_addresses == BASES[:1], "the given explorers are used")


# ------------------------------------------------------------------------------------------------- C41
class One(Chain):
    """Answers every request with one page."""

    def __init__(self, page):
        super().__init__()
        self.answer = page

    def explorer_get(self, endpoint):
        self.asked.append(endpoint)
        return json.dumps(self.answer)


def sbytes(ctx, name):
    return ctx.bytes(name, 32)


def forms(ctx, raw, pick=None):
    """An identifier in one of the forms that are accepted."""
    from tfchain.types.PrimitiveTypes import Hash
    how = pick or ctx.choice("form", ["bytes", "hash", "hex", "bytearray"])
    return {"bytes": lambda: raw, "hash": lambda: Hash(value=raw), "hex": lambda: raw.hex(), "bytearray": lambda: bytearray(raw)}[how]()


def etx(ctx, tag, nin=1, nout=1, bin=0, bout=0, unconfirmed=False, height=None):
    """An explorer transaction with symbolic ids and values."""
    def on(s):  # of long lists only the outer elements are symbolic
        i = int(s.lstrip("abcdefghijklmnopqrstuvwxyz") or 0)
        n = max(nin, nout, bin, bout)
        return Fixed(ctx) if n > 3 and i not in (0, n - 1) else ctx
    h = lambda s: on(s).bytes(tag + s, 32).hex()  # noqa: E731
    v = lambda s: str(on(s).int(tag + s, 2 ** 20, 2 ** 22 - 1))  # noqa: E731
    d = {"minerfees": ["1000000000"]}
    if nin:
        d["coininputs"] = [{"parentid": h("ip%d" % i), "fulfillment": f_single(K[0])} for i in range(nin)]
    if nout:
        d["coinoutputs"] = [output(v("ov%d" % i), c_addr(O[i % 4].addr)) for i in range(nout)]
    if bin:
        d["blockstakeinputs"] = [{"parentid": h("bp%d" % i), "fulfillment": f_single(K[1])} for i in range(bin)]
    if bout:
        d["blockstakeoutputs"] = [output(v("bv%d" % i), c_addr(O[i % 4].addr)) for i in range(bout)]
    t = {"id": h("id"), "height": 0 if unconfirmed else ctx.int(tag + "height", 0, 2 ** 40) if height is None else height,
         "rawtransaction": {"version": 1, "data": d},
         "coininputoutputs": [output(v("iv%d" % i), c_addr(K[i % 6].addr)) for i in range(nin)] or None,
         "coinoutputids": [h("o%d" % i) for i in range(nout)] or None,
         "blockstakeinputoutputs": [output(v("biv%d" % i), c_addr(K[i % 6].addr)) for i in range(bin)] or None,
         "blockstakeoutputids": [h("bo%d" % i) for i in range(bout)] or None}
    if unconfirmed:
        t["unconfirmed"] = True
    return t


def same_output(ctx, o, id, e, coins=True):
    ctx.check(ctx.eq(str(o.id), id), "an output has its id")
    got = cur(o.value) if coins else int(o.value)
    ctx.check(got == (cur(units(e["value"])) if coins else int(e["value"])), "an output has its value")
    ctx.check(ctx.eq(o.condition.json(), e["condition"]), "an output has its condition")


def same_tx(ctx, t, e):
    ctx.check(ctx.eq(t.id, e["id"]), "a transaction has its id")
    un = e.get("unconfirmed", False)
    ctx.check(t.unconfirmed == un, "unconfirmed transactions are told apart")
    ctx.check(t.height == (-1 if un else e["height"]), "a confirmed transaction has its height")
    ctx.check(ctx.eq(t.json(), e["rawtransaction"]), "a transaction has its contents")
    for mine, coins, ins, outs, parents, oids in (
            ((t.coin_inputs, t.coin_outputs), True, "coininputs", "coinoutputs", "coininputoutputs", "coinoutputids"),
            ((t.blockstake_inputs, t.blockstake_outputs), False, "blockstakeinputs", "blockstakeoutputs", "blockstakeinputoutputs", "blockstakeoutputids")):
        d = e["rawtransaction"]["data"]
        ctx.check(len(mine[0]) == len(d.get(ins) or []) and len(mine[1]) == len(d.get(outs) or []), "a transaction has all its inputs and outputs")
        for i, x in enumerate(mine[0]):
            ctx.check(ctx.eq(str(x.parentid), d[ins][i]["parentid"]), "an input names the output it spends")
            same_output(ctx, x.parent_output, d[ins][i]["parentid"], e[parents][i], coins)
        for i, x in enumerate(mine[1]):
            same_output(ctx, x, e[oids][i], d[outs][i], coins)


SHAPES = [dict(nin=0, nout=0), dict(nin=1, nout=1), dict(nin=2, nout=2), dict(nin=1, nout=1, bin=1, bout=2), dict(nin=0, nout=1, bin=2, bout=1),
          dict(nin=1, nout=2, unconfirmed=True), dict(nin=0, nout=2, bin=1, bout=1, unconfirmed=True)]


def refused(ctx, f, label):
    ok, e = ctx.attempt(f)
    ctx.check(not ok and isinstance(e, errors.ExplorerInvalidResponse), label)


def drop(d, *path):
    """A copy of d without the entry the path leads to."""
    if len(path) == 1:
        if isinstance(d, list):
            return [x for i, x in enumerate(d) if i != path[0]]
        return {k: x for k, x in d.items() if k != path[0]}
    return put(d, path[0], drop(d[path[0]], *path[1:]))


def put(d, k, v):
    if isinstance(d, list):
        return [v if i == k else x for i, x in enumerate(d)]
    return dict(d, **{k: v})


def broken_txs(e):
    """Every way in which an explorer transaction can miss something."""
    r = [drop(e, "id"), drop(e, "rawtransaction"), dict(e, coinoutputids=(e["coinoutputids"] or []) + ["00" * 32]),
         dict(e, coininputoutputs=(e["coininputoutputs"] or []) + [output(1, c_addr(K[0].addr))]),
         dict(e, blockstakeoutputids=(e["blockstakeoutputids"] or []) + ["00" * 32]),
         dict(e, blockstakeinputoutputs=(e["blockstakeinputoutputs"] or []) + [output(1, c_addr(K[0].addr))])]
    for k in ("coinoutputids", "coininputoutputs", "blockstakeoutputids", "blockstakeinputoutputs"):
        if e[k]:
            r += [drop(e, k), dict(e, **{k: None}), dict(e, **{k: e[k][:-1]})]
    if "unconfirmed" not in e:
        r.append(drop(e, "height"))
    return r


@case("C41", params=[dict(c=i) for i in range(len(SHAPES))])
def transaction(ctx, c):
    """A looked up transaction is the one asked for, with its outputs' ids and the outputs its inputs spend."""
    e = etx(ctx, "t", **SHAPES[c])
    page = {"hashtype": "transactionid", "block": None, "transaction": e, "transactions": None}
    raw = ctx.bytes("asked", 32)
    client = One(page)
    same = ctx.eq(raw.hex(), e["id"])
    ok, t = ctx.attempt(lambda: client.transaction_get(forms(ctx, raw)))
    ctx.check(ctx.eq(client.asked, ["/explorer/hashes/" + raw.hex()]), "the id is asked for")
    ctx.check(ctx.iff(ok, same), "another transaction is not taken for the one asked for")
    if ok:
        same_tx(ctx, t, e)
    else:
        ctx.check(isinstance(t, errors.ExplorerInvalidResponse), "another transaction is not taken for the one asked for")


@case("C41", params=[dict(c=i) for i in (1, 2, 3, 5)])
def broken_transaction(ctx, c):
    e = etx(ctx, "t", **SHAPES[c])
    page = {"hashtype": "transactionid", "transaction": e}
    bad = [dict(page, transaction=x) for x in broken_txs(e)] + [drop(page, "hashtype"), drop(page, "transaction"), dict(page, hashtype="blockid"),
                                                               dict(page, hashtype="unlockhash")]
    k = ctx.choice("which", range(len(bad)))
    refused(ctx, lambda: One(bad[k]).transaction_get(e["id"]), "an incomplete answer is refused")


def eblock(ctx, txns, payouts):
    on = lambda i: Fixed(ctx) if payouts > 3 and i not in (0, payouts - 1) else ctx  # noqa: E731
    return {"blockid": ctx.bytes("blockid", 32).hex(), "height": ctx.int("height", 0, 2 ** 40), "transactions": txns,
            "minerpayoutids": [on(i).bytes("p%d" % i, 32).hex() for i in range(payouts)] or None,
            "rawblock": {"parentid": ctx.bytes("parent", 32).hex(), "timestamp": ctx.int("time", 0, 2 ** 40),
                         "minerpayouts": [{"value": str(on(i).int("pv%d" % i, 2 ** 20, 2 ** 22 - 1)), "unlockhash": O[i % 4].addr} for i in range(payouts)] or None}}


@case("C41", params=[dict(n=n, p=p, by=by) for n, p in ((0, 0), (1, 1), (2, 2)) for by in ("id", "height", "info")])
def block(ctx, n, p, by):
    """A looked up block is the one asked for, with all its transactions and miner payouts."""
    txns = [etx(ctx, "t%d" % k, **SHAPES[(1, 3)[k]]) for k in range(n)]
    e = eblock(ctx, txns, p)
    page = {"hashtype": "blockid", "block": e}
    if by == "height":
        client = One(page)
        ok, b = ctx.attempt(lambda: client.block_get(e["height"]))
        ctx.check(ok, "blocks are found by height")
        ctx.check(ctx.eq(client.asked, ["/explorer/blocks/" + str(e["height"])]), "the height is asked for")
    elif by == "info":
        client = Chain()
        client.pages = {"/explorer": {"blockid": "cd" * 32, "height": 1, "difficulty": "1"}}
        e["blockid"] = "cd" * 32
        client.page("cd" * 32, page)
        info = client.blockchain_info_get()
        ctx.check(info.height == e["height"] and info.timestamp == e["rawblock"]["timestamp"], "the state of the chain is that of its last block")
        ctx.check(info.blockid == e["blockid"], "the state of the chain is that of its last block")
        b = info.last_block
    else:
        client, raw = One(page), ctx.bytes("asked", 32)
        ok, b = ctx.attempt(lambda: client.block_get(forms(ctx, raw)))
        ctx.check(ctx.eq(client.asked, ["/explorer/hashes/" + raw.hex()]), "the id is asked for")
        ctx.check(ctx.iff(ok, ctx.eq(raw.hex(), e["blockid"])), "another block is not taken for the one asked for")
        if not ok:
            return ctx.check(isinstance(b, errors.ExplorerInvalidResponse), "another block is not taken for the one asked for")
    ctx.check(ctx.eq(b.id, e["blockid"]), "a block has its id")
    ctx.check(ctx.eq(b.parentid, e["rawblock"]["parentid"]), "a block has its parent")
    ctx.check(b.height == e["height"], "a block has its height")
    ctx.check(b.timestamp == e["rawblock"]["timestamp"], "a block has its time")
    ctx.check(len(b.transactions) == n and len(b.miner_payouts) == p, "a block has all its transactions and payouts")
    for t, x in zip(b.transactions, txns):
        same_tx(ctx, t, x)
    for i, m in enumerate(b.miner_payouts):
        ctx.check(ctx.eq(m.id, e["minerpayoutids"][i]), "a payout has its id")
        ctx.check(cur(m.value) == cur(units(e["rawblock"]["minerpayouts"][i]["value"])), "a payout has its value")
        ctx.check(m.unlockhash == O[i % 4].addr, "a payout has its recipient")


MANY = [dict(nin=9, nout=1), dict(nin=1, nout=9), dict(nin=17, nout=17), dict(nin=0, nout=40), dict(nin=64, nout=2), dict(nin=100, nout=1), dict(nin=1, nout=130),
        dict(nin=1, nout=1, bin=17, bout=1), dict(nin=0, nout=0, bin=1, bout=33), dict(nin=20, nout=20, unconfirmed=True)]


@case("C41", params=[dict(c=i) for i in range(len(MANY))])
def many_parts(ctx, c):
    """A transaction of many inputs and outputs has each with its own id, value and condition."""
    e = etx(ctx, "t", **MANY[c])
    t = One({"hashtype": "transactionid", "block": None, "transaction": e, "transactions": None}).transaction_get(e["id"])
    same_tx(ctx, t, e)
    n = max(len(e["coinoutputids"] or []), len(e["blockstakeoutputids"] or []))
    kind = "coin" if len(e["coinoutputids"] or []) == n else "blockstake"
    at = ctx.choice("at", sorted({0, n // 2, n - 2, n - 1} & set(range(n))))
    oids = e[kind + "outputids"]
    for i, x in enumerate(oids):
        ctx.assume(i == at or ctx.no(ctx.eq(x, oids[at])))
    client = One({"hashtype": kind + "outputid", "transactions": [e]})
    o, made, spent = client.coin_output_get(oids[at]) if kind == "coin" else client.blockstake_output_get(oids[at])
    same_output(ctx, o, oids[at], e["rawtransaction"]["data"][kind + "outputs"][at], kind == "coin")
    ctx.check(spent is None, "an output is spent if there is a transaction that spends it")


@case("C41", params=[dict(n=n, p=p) for n, p in ((9, 1), (1, 9), (33, 17), (65, 3), (2, 130))])
def many_in_block(ctx, n, p):
    """A block has each of its many transactions and payouts."""
    txns = [etx(ctx if k in (0, n - 1) else Fixed(ctx), "t%d" % k, **SHAPES[(1, 3, 2, 0)[k % 4]]) for k in range(n)]
    e = eblock(ctx, txns, p)
    b = One({"hashtype": "blockid", "block": e}).block_get(e["height"])
    ctx.check(len(b.transactions) == n and len(b.miner_payouts) == p, "a block has all its transactions and payouts")
    for t, x in zip(b.transactions, txns):
        same_tx(ctx, t, x)
    for i, m in enumerate(b.miner_payouts):
        ctx.check(ctx.eq(m.id, e["minerpayoutids"][i]), "a payout has its id")
        ctx.check(cur(m.value) == cur(units(e["rawblock"]["minerpayouts"][i]["value"])), "a payout has its value")
        ctx.check(m.unlockhash == O[i % 4].addr, "a payout has its recipient")
    ctx.check(ctx.all([b.height == e["height"], b.timestamp == e["rawblock"]["timestamp"], ctx.eq(b.id, e["blockid"])]), "a block has its id")


@case("C41", params=[dict(by=by) for by in ("id", "height")])
def broken_block(ctx, by):
    e = eblock(ctx, [etx(ctx, "t", nin=1, nout=1)], 2)
    page = {"hashtype": "blockid", "block": e}
    inner = [drop(e, k) for k in ("transactions", "rawblock", "height", "blockid")]
    inner += [drop(e, "rawblock", k) for k in ("parentid", "timestamp", "minerpayouts")]
    inner += [drop(e, "rawblock", "minerpayouts", 0), drop(e, "minerpayoutids"), drop(e, "minerpayoutids", 1), dict(e, minerpayoutids=None)]
    inner += [drop(e, "rawblock", "minerpayouts", 1, k) for k in ("value", "unlockhash")]
    inner += [dict(e, transactions=[x]) for x in broken_txs(e["transactions"][0])]
    bad = [dict(page, block=x) for x in inner] + [drop(page, "block")]
    if by == "id":
        bad += [drop(page, "hashtype"), dict(page, hashtype="transactionid")]
    k = ctx.choice("which", range(len(bad)))
    refused(ctx, lambda: One(bad[k]).block_get(e["blockid"] if by == "id" else e["height"]), "an incomplete answer is refused")


@case("C41", params=[dict(kind=k, n=n) for k in ("coin", "blockstake") for n in (1, 2)])
def output_lookup(ctx, kind, n):
    """A looked up output comes with the transactions that made and that spent it."""
    coins = kind == "coin"
    un, un2 = ctx.choice("unconfirmed", [False, True]), ctx.choice("unconfirmed2", [False, True]) if n == 2 else False
    made = etx(ctx, "m", 0, 2 if coins else 1, 1 if not coins else 0, 2 if not coins else 0, unconfirmed=un)
    at = ctx.choice("at", [0, 1])
    id = made["coinoutputids" if coins else "blockstakeoutputids"][at]
    other = made["coinoutputids" if coins else "blockstakeoutputids"][1 - at]
    ctx.assume(ctx.no(ctx.eq(id, other)))
    txns = [made]
    if n == 2:
        spent = etx(ctx, "s", 1 if coins else 0, 1, 0 if coins else 1, 1, unconfirmed=un2)
        d = spent["rawtransaction"]["data"]
        d["coininputs" if coins else "blockstakeinputs"][0]["parentid"] = id
        for o in spent["coinoutputids"] + spent["blockstakeoutputids"]:
            ctx.assume(ctx.no(ctx.eq(o, id)))
        txns = [made, spent] if ctx.choice("first", [0, 1]) else [spent, made]
    page = {"hashtype": kind + "outputid", "transactions": txns}
    client = One(page)
    o, c, s = client.coin_output_get(id) if coins else client.blockstake_output_get(id)
    ctx.check(ctx.eq(client.asked, ["/explorer/hashes/" + id]), "the id is asked for")
    same_output(ctx, o, id, made["rawtransaction"]["data"]["coinoutputs" if coins else "blockstakeoutputs"][at], coins)
    same_tx(ctx, c, made)
    ctx.check((s is None) == (n == 1), "an output is spent if there is a transaction that spends it")
    if n == 2:
        same_tx(ctx, s, spent)


@case("C41", params=[dict(kind=k) for k in ("coin", "blockstake")])
def broken_output(ctx, kind):
    coins = kind == "coin"
    made = etx(ctx, "m", 1, 1, 1, 1)
    id = made["coinoutputids" if coins else "blockstakeoutputids"][0]
    x, y = ctx.bytes("x", 32).hex(), ctx.bytes("y", 32).hex()
    ctx.assume(ctx.all([ctx.no(ctx.eq(x, id)), ctx.no(ctx.eq(y, id))]))
    without = dict(made, coinoutputids=[x], blockstakeoutputids=[y])
    page = {"hashtype": kind + "outputid", "transactions": [made]}
    other = ("blockstake" if coins else "coin") + "outputid"
    bad = [drop(page, "hashtype"), drop(page, "transactions"), dict(page, hashtype=other), dict(page, hashtype="transactionid"),
           dict(page, transactions=[]), dict(page, transactions=[made] * 3), dict(page, transactions=[without]),
           dict(page, transactions=[without, without])]
    bad += [dict(page, transactions=[b]) for b in broken_txs(made)]
    bad += [dict(page, transactions=[b, made]) for b in broken_txs(without)]
    k = ctx.choice("which", range(len(bad)))
    c = One(bad[k])
    refused(ctx, lambda: c.coin_output_get(id) if coins else c.blockstake_output_get(id), "an incomplete or wrong answer is refused")


@case("C41")
def submission(ctx):
    e = etx(ctx, "t", **SHAPES[1])["rawtransaction"]
    from tfchain.types import transactions
    arg = ctx.choice("arg", [0, 1])
    c, id = Chain(), ctx.bytes("id", 32).hex()
    reply = ctx.choice("reply", ["ok", "missing", "error"])
    page = {"ok": {"transactionid": id}, "missing": {}, "error": {"message": "double spent"}}[reply]

    def answer(endpoint, data):
        c.posted.append((endpoint, data))
        return json.dumps(page)
    c.explorer_post = answer
    ok, r = ctx.attempt(lambda: c.transaction_put(e if arg else transactions.from_json(e)))
    ctx.check(len(c.posted) == 1 and c.posted[0][0] == "/transactionpool/transactions", "a transaction is submitted once")
    ctx.check(ctx.eq(c.posted[0][1], e), "the given transaction is submitted")
    ctx.check(ok == (reply == "ok"), "the id is that of the answer")
    if ok:
        ctx.check(ctx.eq(r, id), "the id is that of the answer")
    else:
        ctx.check(isinstance(r, errors.ExplorerInvalidResponse), "an answer without id is refused")


# ------------------------------------------------------------------------------------------------- C43
def record(ctx, names=1, addrs=1):
    from harness.types import address  # noqa: F401
    key = ctx.bytes("key", 32)
    return {"id": ctx.int("id", 0, 2 ** 32 - 1), "names": ["chatbot%s.example" % "abcdefgh"[i] for i in range(names)] or None,
            "addresses": ["127.0.0.%d" % (i + 1) for i in range(addrs)] or None, "publickey": "ed25519:" + key.hex(),
            "expiration": ctx.int("expiration", 0, 2 ** 40)}


def same_record(ctx, r, e):
    ctx.check(r.identifier == e["id"], "a record has its identifier")
    ctx.check([str(n) for n in r.names] == (e.get("names") or []), "a record has its names")
    ctx.check([str(a) for a in r.addresses] == (e.get("addresses") or []), "a record has its addresses")
    ctx.check(ctx.eq(str(r.public_key), e["publickey"]), "a record has its public key")
    ctx.check(r.expiration == e["expiration"], "a record has its expiration")


@case("C43", params=[dict(names=n, addrs=a) for n, a in ((0, 0), (1, 0), (0, 2), (2, 1), (5, 10), (3, 8))])
def bot(ctx, names, addrs):
    """A 3Bot record is looked up by id, name or key, and is as the explorer reports it."""
    from tfchain.types.ThreeBot import BotName
    e = record(ctx, names, addrs)
    if not names and ctx.choice("without", [0, 1]):
        e = drop(drop(e, "names"), "addresses")
    raw = ctx.bytes("asked", 32)
    n = ctx.int("n", 10 ** 5, 10 ** 6 - 1)
    how = ctx.choice("how", ["id", "name", "botname", "key", "keytext"])
    arg, path = {"id": lambda: (n, "3bot/" + str(n)), "name": lambda: ("chatbot.example", "whois/3bot/chatbot.example"),
                 "botname": lambda: (BotName("chatbot.example"), "whois/3bot/chatbot.example"),
                 "key": lambda: (PublicKey(specifier=PublicKeySpecifier.ED25519, hash=raw), "3bot/ed25519:" + raw.hex()),
                 "keytext": lambda: ("ed25519:" + raw.hex(), "3bot/ed25519:" + raw.hex())}[how]()
    c = One({"record": e})
    r = c.threebot.record_get(arg)
    ctx.check(ctx.eq(c.asked, ["/explorer/" + path]), "a bot is looked up by what is given")
    same_record(ctx, r, e)


@case("C43", params=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)])
def any_identifier(ctx, n):
    """A text is an identifier exactly when it is a bot name (or a public key)."""
    from harness.bot import bot_ref
    t = ctx.str("t", n, "aZ059-.:")
    if n == 1:
        ctx.assume(ctx.no(ctx.eq(t, ":")))  # the nil key
    c = Chain()
    ok, x = ctx.attempt(c.threebot.record_get, t)
    name = bot_ref(ctx, t)
    ctx.check(not ok, "the chain knows no bot")
    ctx.check(ctx.iff(isinstance(x, errors.ThreeBotNotFound), name), "a text is looked up when it is a bot name")
    ctx.check(ctx.iff(len(c.asked) == 0, ctx.no(name)), "nothing is looked up for what is no identifier")
    if c.asked:
        ctx.check(ctx.eq(c.asked[0], "/explorer/whois/3bot/" + t), "a bot is looked up by what is given")


@case("C43")
def no_bot(ctx):
    e = record(ctx)
    bad = [{}] + [{"record": drop(e, k)} for k in ("id", "publickey", "expiration")]
    k = ctx.choice("which", range(len(bad)))
    refused(ctx, lambda: One(bad[k]).threebot.record_get(1), "an incomplete record is refused")
    c = Chain()
    ok, x = ctx.attempt(lambda: c.threebot.record_get(ctx.choice("ident", [1, "chatbot.example", "ed25519:" + "ab" * 32])))
    ctx.check(not ok and isinstance(x, errors.ThreeBotNotFound), "an unknown bot is reported as not found")
    n = len(c.asked)
    ok, x = ctx.attempt(lambda: c.threebot.record_get(ctx.choice("bad", ["foo", "ed25519:ab", "Bad..Name", None, 1.5, b"chatbot"])))
    ctx.check(not ok and isinstance(x, (ValueError, TypeError)) and len(c.asked) == n, "nothing is looked up for what is no identifier")


@case("C43")
def mint_condition(ctx):
    """The mint condition is that of the last block or of the given height."""
    w = ctx.choice("cond", ["addr", "multi", "lock"])
    a = ctx.bytes("a", 32)
    from harness.types import address
    cond = {"addr": lambda: c_addr(address(1, a)), "multi": lambda: c_multi([K[0].addr, O[0].addr], 1),
            "lock": lambda: c_lock(ctx.int("l", 1, 2 ** 40), c_addr(K[0].addr))}[w]()
    c = One({"mintcondition": cond})
    h = ctx.int("h", 0, 10 ** 3)
    arg, path = {"last": lambda: (None, ""), "int": lambda: (h, "/" + str(h)), "text": lambda: (str(h), "/" + str(h))}[ctx.choice("at", ["last", "int", "text"])]()
    ctx.check(ctx.eq(c.minter.condition_get(arg).json(), cond), "the condition is as reported")
    ctx.check(ctx.eq(c.asked, ["/explorer/mintcondition" + path]), "the condition at the given height is asked for")
    refused(ctx, lambda: One({"condition": cond}).minter.condition_get(arg), "an answer without condition is refused")
    ok, e = ctx.attempt(lambda: c.minter.condition_get(ctx.choice("bad", [1.5, b"1", [1]])))
    ctx.check(not ok and isinstance(e, TypeError), "other heights are refused")


@case("C43")
def withdrawal(ctx):
    """The ERC20 registration of an address is as the explorer reports it."""
    from tfchain.types.CryptoTypes import UnlockHash
    info = {"tftaddress": K[0].addr, "erc20address": "0x" + ctx.bytes("eth", 20).hex(), "confirmations": ctx.int("n", 0, 2 ** 40)}
    page = hashpage([], erc20info=info)
    arg = ctx.choice("arg", [K[0].addr, UnlockHash.from_json(K[0].addr)])

    def same(r):
        ctx.check(str(r.address_tft) == K[0].addr, "the TFT address is reported")
        ctx.check(ctx.eq(str(r.address_erc20), info["erc20address"]), "the ERC20 address is reported")
        ctx.check(r.confirmations == info["confirmations"], "the confirmations are reported")
    c = One(page)
    same(c.erc20.address_get(arg))
    ctx.check(c.asked == ["/explorer/hashes/" + K[0].addr], "the address is asked for")
    same(c.unlockhash_get(arg).erc20_info)
    ok, e = ctx.attempt(lambda: One(drop(page, "erc20info")).erc20.address_get(arg))
    ctx.check(not ok and isinstance(e, errors.ExplorerNoContent), "an address that is not registered is reported as such")
    ctx.check(One(drop(page, "erc20info")).unlockhash_get(arg).erc20_info is None, "an address that is not registered is reported as such")
    bad = [drop(page, "hashtype"), dict(page, hashtype="transactionid")] + [put(page, "erc20info", drop(info, k)) for k in info]
    k = ctx.choice("which", range(len(bad)))
    refused(ctx, lambda: One(bad[k]).erc20.address_get(arg), "an incomplete answer is refused")
    refused(ctx, lambda: One(bad[k]).unlockhash_get(arg), "an incomplete answer is refused")
    c = One(page)
    ok, e = ctx.attempt(lambda: c.erc20.address_get(ctx.choice("no", [NIL, MADDR["m0"], None, 1])))
    ctx.check(not ok and isinstance(e, TypeError) and c.asked == [], "only personal addresses can be registered")


@case("C43", params=[dict(n=n, m=m) for n, m in ((1, 9), (9, 1), (33, 17), (65, 40), (2, 130))])
def address_of_many(ctx, n, m):
    """An address with many transactions and multisig wallets is looked up with all of them."""
    txns = [etx(ctx if k in (0, n - 1) else Fixed(ctx), "t%d" % k, height=n - k, **SHAPES[(1, 3, 2, 0)[k % 4]]) for k in range(n)]
    ms = [str(UnlockHash(type=UnlockHashType.MULTI_SIG, hash=(ctx if i in (0, m - 1) else Fixed(ctx)).bytes("m%d" % i, 32))) for i in range(m)]
    r = One(hashpage(txns, ms)).unlockhash_get(K[0].addr)
    ctx.check(len(r.multisig_addresses) == m, "the linked multisig addresses are reported")
    for a, b in zip(r.multisig_addresses, ms):
        ctx.check(ctx.eq(str(a), b), "the linked multisig addresses are reported")
    ctx.check(len(r.transactions) == n, "the transactions are reported")
    for t, x in zip(r.transactions, txns):
        same_tx(ctx, t, x)


@case("C43", params=[dict(target=t) for t in ("none", "addr", "uh", "list", "tuple")])
def address_lookup(ctx, target):
    """An address, or that of the multisig wallet of the given owners, is looked up with its transactions and multisig wallets."""
    from tfchain.types.CryptoTypes import UnlockHash
    arg, addr = {"none": (None, NIL), "addr": (K[0].addr, K[0].addr), "uh": (UnlockHash.from_json(K[1].addr), K[1].addr),
                 "list": ([k.addr for k in OWNERS["m0"][0]], MADDR["m0"]), "tuple": (([k.addr for k in OWNERS["m3"][0]], 2), MADDR["m3"])}[target]
    e = etx(ctx, "t", **SHAPES[ctx.choice("shape", [1, 3, 5])])
    ms = ctx.choice("multisigs", [[], [MADDR["m1"]], [MADDR["m1"], MADDR["m2"]]])
    page = hashpage([e], ms)
    c = One(page)
    r = c.unlockhash_get(arg)
    ctx.check(c.asked == ["/explorer/hashes/" + addr], "the address is asked for")
    ctx.check(str(r.unlockhash) == addr, "the looked up address is reported")
    ctx.check([str(a) for a in r.multisig_addresses] == ms, "the linked multisig addresses are reported")
    ctx.check(len(r.transactions) == 1, "the transactions are reported")
    same_tx(ctx, r.transactions[0], e)
    bad = [drop(page, "hashtype"), drop(page, "transactions"), dict(page, hashtype="coinoutputid"), dict(page, multisigaddresses=[K[0].addr]),
           dict(page, multisigaddresses=[MADDR["m1"], NIL])] + [dict(page, transactions=[b]) for b in broken_txs(e)]
    k = ctx.choice("which", range(len(bad)))
    refused(ctx, lambda: One(bad[k]).unlockhash_get(arg), "an incomplete answer is refused")


# ------------------------------------------------------------------------------------------------- asked again (C40, C41, C43)
@case("C40", params=[dict(n=n, method=m) for n in (1, 2) for m in ("get", "post")])
def asked_twice(ctx, n, method):
    """Explorers that could not be reached are asked again the next time, and those that could may be gone then."""
    client = TFChainClient(explorer_client=TFChainExplorerClient(addresses=BASES[:n]), network_type="testnet")
    for again in range(2):
        up = [ctx.choice("up%d%d" % (again, k), [True, False]) for k in range(n)]
        with network({BASES[k]: ("ok", (200, b'{"n":%d%d}\n' % (again, k))) if up[k] else ("down", DOWN["timeout"]()) for k in range(n)}) as net:
            ok, r = ctx.attempt(lambda: client.explorer_get("/explorer") if method == "get" else client.explorer_post("/explorer", {}))
        ctx.check(ok == any(up), "an explorer that can be reached is found")
        asked = [q.full_url for q in net.requests]
        ctx.check(len(asked) == len(set(asked)) and 1 <= len(asked) <= n and all(a in [b + "/explorer" for b in BASES[:n]] for a in asked), "every explorer is asked at most once")
        if ok:
            ctx.check(r in [b'{"n":%d%d}\n' % (again, k) for k in range(n) if up[k]], "the answer is that of an explorer that can be reached")
        else:
            ctx.check(isinstance(r, errors.ExplorerNotAvailable), "it is reported when no explorer can be reached")


@case("C40", params=[dict(n=n, method=m) for n in (4, 5, 7, 12) for m in ("get", "post")])
def many_explorers(ctx, n, method):
    """Also of many explorers the one that can be reached is found, and none is missed when none can be."""
    bases = ["https://explorer%d.example" % k for k in range(n)]
    client = TFChainClient(explorer_client=TFChainExplorerClient(addresses=list(bases)), network_type="testnet")
    up = ctx.choice("up", [None] + sorted({0, n // 2, n - 1}))
    downs = sorted(DOWN)
    with network({b: ("ok", (200, b"{}\n")) if k == up else ("down", DOWN[downs[k % len(downs)]]()) for k, b in enumerate(bases)}) as net:
        ok, r = ctx.attempt(lambda: client.explorer_get("/explorer") if method == "get" else client.explorer_post("/explorer", {}))
    asked = [q.full_url for q in net.requests]
    ctx.check(len(asked) == len(set(asked)), "every explorer is asked at most once")
    ctx.check(ok == (up is not None), "an explorer that can be reached is found")
    if not ok:
        ctx.check(sorted(asked) == sorted(b + "/explorer" for b in bases), "all explorers are tried")
        ctx.check(isinstance(r, errors.ExplorerNotAvailable) and r.addresses == bases, "it is reported when no explorer can be reached")


@case("C41", params=[dict(kind=k) for k in ("transaction", "coin", "blockstake", "height", "id", "info")])
def looked_up_again(ctx, kind):
    """What is looked up again is as the explorer then reports it."""
    fx = Fixed(ctx)
    one = One({})
    if kind == "transaction":
        e = etx(ctx, "t", unconfirmed=True)
        f = dict({k: v for k, v in e.items() if k != "unconfirmed"}, height=ctx.int("now", 0, 2 ** 40))
        pages = [(x, {"hashtype": "transactionid", "transaction": x}) for x in (e, f)]
        for x, page in pages:
            one.answer = page
            same_tx(ctx, one.transaction_get(e["id"]), x)
    elif kind in ("coin", "blockstake"):
        coins = kind == "coin"
        made = etx(fx, "m", 0, 1 if coins else 0, 1 if not coins else 0, 1 if not coins else 0)
        id = made["coinoutputids" if coins else "blockstakeoutputids"][0]
        spent = etx(ctx, "s", 1 if coins else 0, 0, 0 if coins else 1, 0)
        spent["rawtransaction"]["data"]["coininputs" if coins else "blockstakeinputs"][0]["parentid"] = id
        for txns in ([made], [made, spent], [made]):
            one.answer = {"hashtype": kind + "outputid", "transactions": txns}
            o, c, s = one.coin_output_get(id) if coins else one.blockstake_output_get(id)
            ctx.check((s is None) == (len(txns) == 1), "an output is spent if there is a transaction that spends it")
            same_tx(ctx, c, made)
            if s is not None:
                same_tx(ctx, s, spent)
    else:
        c = Chain(height=5, time=10 ** 9)
        for again in range(2):
            h, t = ctx.int("h%d" % again, 0, 2 ** 40), ctx.int("t%d" % again, 1, 2 ** 40)
            id = ("cd" if again and kind != "id" else "ce") * 32
            e = dict(c.pages["/explorer/hashes/" + BLOCK]["block"], blockid=id, height=h)
            e["rawblock"] = dict(e["rawblock"], timestamp=t)
            c.pages["/explorer"] = {"blockid": id, "height": h}
            for at in ("hashes/" + id, "blocks/7"):
                c.pages["/explorer/" + at] = {"hashtype": "blockid", "block": e}
            b = c.blockchain_info_get() if kind == "info" else c.block_get(7 if kind == "height" else id)
            ctx.check(b.height == h and b.timestamp == t, "a block is as it is reported when it is looked up")
            ctx.check(str(b.blockid if kind == "info" else b.id) == id, "a block is as it is reported when it is looked up")


@case("C43", params=[dict(kind=k) for k in ("bot", "minter", "erc20", "address")])
def reported_again(ctx, kind):
    """What is looked up again is as the explorer then reports it."""
    one = One({})
    h = ctx.choice("height", [None, 12]) if kind == "minter" else None
    for again in range(2):
        raw = ctx.bytes("raw%d" % again, 20)
        if kind == "bot":
            e = {"id": 7, "names": ["chatbot%s.example" % "ab"[again]], "addresses": None, "publickey": "ed25519:" + (raw + bytes(12)).hex(), "expiration": ctx.int("x%d" % again, 0, 2 ** 40)}
            one.answer = {"record": e}
            same_record(ctx, one.threebot.record_get(7), e)
        elif kind == "minter":
            from harness.types import address
            one.answer = {"mintcondition": c_addr(address(1, raw + bytes(12)))}
            ctx.check(ctx.eq(one.minter.condition_get(h).json(), one.answer["mintcondition"]), "the condition is as reported")
        elif kind == "erc20":
            n = ctx.int("n%d" % again, 0, 2 ** 40)
            one.answer = hashpage([], erc20info={"tftaddress": K[0].addr, "erc20address": "0x" + raw.hex(), "confirmations": n})
            r = one.erc20.address_get(K[0].addr)
            ctx.check(ctx.eq(str(r.address_erc20), "0x" + raw.hex()) and r.confirmations == n, "the ERC20 registration is as reported")
        else:
            es = [etx(Fixed(ctx), "t%d" % k, **SHAPES[1]) for k in range(again + 1)]
            one.answer = hashpage(es, [MADDR["m%d" % k] for k in range(again, 2)])
            r = one.unlockhash_get(K[0].addr)
            ctx.check(len(r.transactions) == again + 1, "the transactions are reported")
            for t, e in zip(sorted(r.transactions, key=lambda t: str(t.id)), sorted(es, key=lambda e: e["id"])):
                same_tx(ctx, t, e)
            ctx.check([str(a) for a in r.multisig_addresses] == [MADDR["m%d" % k] for k in range(again, 2)], "the linked multisig addresses are reported")
