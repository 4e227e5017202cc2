"""C50: values that are meant to be unpredictable carry all the randomness their size allows."""
from math import log2

from engine.api import case
from tfchain.types.transactions import Transactions as tftransactions
from tfchain.types.ConditionTypes import AtomicSwapSecret, AtomicSwapSecretHash
from tfchain.types.transactions.Minting import TransactionV128, TransactionV129


def secret():
    return AtomicSwapSecret.random().value


def nonce(make):
    def f():
        return make().json()['data']['nonce']
    return f


def raw(make):
    def f():
        return make().binary_encode()
    return f


MAKERS = {
    "secret": (secret, 32),
    "secret-json": (lambda: AtomicSwapSecret.random().json(), 32),
    "definition-nonce": (nonce(TransactionV128), 8),
    "creation-nonce": (nonce(TransactionV129), 8),
    "new-definition-nonce": (nonce(lambda: tftransactions.mint_definition_new()), 8),
    "new-creation-nonce": (nonce(lambda: tftransactions.mint_coin_creation_new()), 8),
    "definition-bytes": (raw(TransactionV128), 8),
    "creation-bytes": (raw(TransactionV129), 8),
}


@case("C50", params=[dict(what=w) for w in sorted(MAKERS)])
def fresh(ctx, what):
    """Each one is drawn anew, from a source with as many values as it has, and two are the same only if the draws were."""
    make, size = MAKERS[what]
    n0 = len(ctx.draws())
    a = make()
    n1 = len(ctx.draws())
    b = make()
    d = ctx.draws()
    da, db = d[n0:n1], d[n1:]
    for x in (da, db):
        ctx.check(sum(log2(k) for k, _ in x) >= 8 * size, "every byte of the value is random")
    ctx.check(len(da) == len(db), "each value draws as much")
    same = ctx.all([ctx.eq(x, y) for (_, x), (_, y) in zip(da, db)])
    ctx.check(ctx.implies(ctx.eq(a, b), same), "two values are the same only if the same was drawn")
    ctx.reach("drawn")


@case("C50")
def hash_of_secret(ctx):
    """The public hash of a fresh secret is the SHA-256 of that secret, and the secret itself is kept as drawn."""
    s = AtomicSwapSecret.random()
    d = ctx.draws()
    ctx.check(len(s.value) == 32, "a secret has 32 bytes")
    t = AtomicSwapSecret(value=str(s))
    ctx.check(ctx.eq(t.value, s.value), "the text of a secret gives the secret")
    ctx.check(ctx.eq(AtomicSwapSecretHash.from_secret(t).value, AtomicSwapSecretHash.from_secret(s).value), "one hash per secret")
    ctx.reach("secret")


@case("C50", params=[dict(version=v, nonce=n) for v in (128, 129) for n in ("given", "empty", "missing")])
def reading(ctx, version, nonce):
    """Reading a transaction replaces nothing in it by something random."""
    t = (tftransactions.mint_definition_new if version == 128 else tftransactions.mint_coin_creation_new)()
    j = t.json()
    if nonce == "empty":
        j["data"]["nonce"] = ""
    elif nonce == "missing":
        del j["data"]["nonce"]
    a, x = ctx.attempt(lambda: tftransactions.from_json(j))
    b, y = ctx.attempt(lambda: tftransactions.from_json(j))
    ctx.check(a == b, "the same text is read the same way")
    if a:
        ctx.check(ctx.eq(x.binary_encode(), y.binary_encode()), "the same text is the same transaction")
        if nonce == "given":
            ctx.check(ctx.eq(x.json()["data"]["nonce"], j["data"]["nonce"]), "a given nonce is kept")
    else:
        ctx.check(nonce != "given", "a complete transaction can be read")
