"""A stand-in for the explorer: pages are JSON texts with symbolic contents, posted transactions are recorded."""
import hashlib
import json
from ed25519 import SigningKey
from tfchain import errors
from tfchain.TFChainClient import TFChainClient
from tfchain.TFChainWallet import TFChainWallet
from tfchain.types.CryptoTypes import PublicKey, PublicKeySpecifier
from tfchain.types.FulfillmentTypes import ED25519Signature
from harness.types import address, b2, le8

SEED = bytes(range(1, 33))
NIL = "00" * 39
TXID = "ab" * 32
BLOCK = "be" * 32


class Key:
    """The i-th key of a seed, derived here from its definition."""

    def __init__(self, i, seed=SEED):
        self.sk = SigningKey(b2(seed + le8(i)))
        self.raw = self.sk.get_verifying_key().to_bytes()
        self.pub = PublicKey(specifier=PublicKeySpecifier.ED25519, hash=self.raw)
        self.text = "ed25519:" + self.raw.hex()
        self.addr = address(1, b2(le8(56) + b"ed25519" + b"\0" * 9 + le8(32) + self.raw))

    def sign(self, h):
        return self.sk.sign(bytes(h))


K = [Key(i) for i in range(6)]              # the wallet's keys
O = [Key(i, b"other" * 6) for i in range(4)]  # keys of others


def multisig(keys, n):
    """The address of an n-of-keys wallet."""
    from tfchain.types import ConditionTypes
    return str(ConditionTypes.multi_signature_new(min_nr_sig=n, unlockhashes=[k.addr for k in keys]).unlockhash)


# ------------------------------------------------------------------------------------- JSON forms of conditions and outputs
def c_addr(a):
    return {"type": 1, "data": {"unlockhash": a}} if a != NIL else {"type": 0}


def c_multi(addrs, n):
    return {"type": 4, "data": {"unlockhashes": list(addrs), "minimumsignaturecount": n}}


def c_lock(lock, cond):
    return {"type": 3, "data": {"locktime": lock, "condition": cond}}


def c_swap(sender, receiver, hashed, timelock):
    return {"type": 2, "data": {"sender": sender, "receiver": receiver, "hashedsecret": hashed, "timelock": timelock}}


def output(value, cond):
    return {"value": str(value), "condition": cond}


def tx(id, outs=(), ids=(), spends=(), height=7, unconfirmed=False, fee=10 ** 9, version=1):
    """An explorer transaction: outs [(output)], ids of those outputs, spends [(parent id, parent output, fulfillment)]."""
    data = {"coininputs": [{"parentid": i, "fulfillment": f} for i, _, f in spends], "coinoutputs": list(outs),
            "minerfees": [str(fee)]}
    t = {"id": id, "height": height, "rawtransaction": {"version": version, "data": data},
         "coininputoutputs": [o for _, o, _ in spends] or None, "coinoutputids": list(ids) or None,
         "blockstakeinputoutputs": None, "blockstakeoutputids": None}
    if unconfirmed:
        t["unconfirmed"] = True
        t["height"] = 0
    return t


def f_single(k, sig="00" * 64):
    return {"type": 1, "data": {"publickey": k.text, "signature": sig}}


def hashpage(txns, multisigs=(), **more):
    return dict({"hashtype": "unlockhash", "block": None, "blocks": None, "transaction": None, "transactions": list(txns),
                 "multisigaddresses": list(multisigs) or None}, **more)


class Chain(TFChainClient):
    """A client whose explorer is a dictionary of pages."""

    def __init__(self, pages=None, height=100, time=1600000000, network=None):
        super().__init__(network_type=network)
        self.pages = dict(pages or {})
        self.pages["/explorer"] = {"blockid": BLOCK, "height": height}
        self.pages["/explorer/hashes/" + BLOCK] = {"hashtype": "blockid", "block": {
            "blockid": BLOCK, "height": height, "transactions": [], "minerpayoutids": None,
            "rawblock": {"parentid": "aa" * 32, "timestamp": time, "minerpayouts": None}}}
        self.posted = []
        self.asked = []

    def page(self, hash, page):
        self.pages["/explorer/hashes/" + hash] = page

    def explorer_get(self, endpoint):
        self.asked.append(endpoint)
        if endpoint not in self.pages:
            raise errors.ExplorerNoContent("no content", endpoint)
        return json.dumps(self.pages[endpoint])

    def explorer_post(self, endpoint, data):
        self.posted.append((endpoint, data))
        return json.dumps({"transactionid": TXID})


def wallet(chain, keys=2):
    return TFChainWallet(seed=SEED, key_count=keys, key_scan_count=0, client=chain)


def oid(k):
    return "%02x" % (k + 1) * 32 if k < 255 else b2(b"output %d" % k).hex()
