"""C03: Merkle roots."""
import hashlib
from engine.api import case
from tfchain.crypto import MerkleTree


def h(data):
    return hashlib.blake2b(data, digest_size=32)


def hraw(data):
    return hashlib.blake2b(data, digest_size=32).digest()


def ref_root(leaves, h=hraw):
    """Root of a list of leaves: split at the largest power of two below the count."""
    n = len(leaves)
    if n == 0:
        return h(b"")
    if n == 1:
        return h(b"\x00" + leaves[0])
    k = 1
    while k * 2 < n:
        k *= 2
    return h(b"\x01" + ref_root(leaves[:k], h) + ref_root(leaves[k:], h))


def root(leaves, f=h):
    t = MerkleTree(hash_func=f)
    for x in leaves:
        t.push(x)
    return t.root()


def leaves_of(ctx, n, name="leaf"):
    return [ctx.bytes("%s%d" % (name, i), (i * 2 + 1) % 4) for i in range(n)]


@case("C03", params=[dict(n=n) for n in range(0, 10)], thorough=[dict(n=n) for n in range(10, 18)])
def root_is_reference(ctx, n):
    ls = leaves_of(ctx, n)
    r = root(ls)
    ctx.check(ctx.eq(bytes(r), ref_root(ls)), "the root is the reference Merkle root")
    ctx.check(ctx.eq(bytes(root(ls, hraw)), ref_root(ls)), "a hash function returning raw digests gives the same root")
    ctx.observe("len", len(r))


@case("C03", params=[dict(n=n) for n in list(range(0, 81)) + [95, 96, 97, 127, 128, 129]],
      thorough=[dict(n=n) for n in range(81, 260)] + [dict(n=n) for n in (384, 511, 512, 513, 768, 1025)])
def larger_root(ctx, n):
    """The same with a hash function that keeps all of its input: the root then spells out the whole tree."""
    ls = leaves_of(ctx, n)
    keep = bytes
    t = MerkleTree(hash_func=keep)
    for x in ls:
        t.push(x)
    ctx.check(ctx.eq(bytes(t.root()), ref_root(ls, keep)), "the root is the reference Merkle root")


@case("C03", params=[dict(n=n, size=z) for n in (0, 1, 3, 4) for z in (20, 64)])
def digests_of_any_size(ctx, n, size):
    ls = leaves_of(ctx, n)
    r = root(ls, lambda d: hashlib.blake2b(d, digest_size=size))
    ref = ref_root(ls, lambda d: hashlib.blake2b(d, digest_size=size).digest())
    ctx.check(len(r) == size and ctx.eq(bytes(r), ref), "the root is the reference Merkle root, in full")


@case("C03", params=[dict(n=n) for n in range(1, 9)])
def root_is_stable(ctx, n):
    """root() does not disturb the tree: it can be asked again and more leaves can follow."""
    ls = leaves_of(ctx, n)
    t = MerkleTree(hash_func=h)
    for i in range(n):
        t.push(ls[i])
        t.root()
    ctx.check(ctx.eq(bytes(t.root()), ref_root(ls)), "intermediate roots do not change the final one")
    t.push(b"x")
    ctx.check(ctx.eq(bytes(t.root()), ref_root(ls + [b"x"])), "leaves pushed after root() are covered")


@case("C03", params=[dict(n=n) for n in range(1, 9)])
def root_commits_to_leaves(ctx, n):
    """Two leaf lists of the same length have equal roots iff they are equal, leaf by leaf and in order."""
    a = [ctx.bytes("a%d" % i, 2) for i in range(n)]
    b = [ctx.bytes("b%d" % i, 2) for i in range(n)]
    ctx.check(ctx.iff(ctx.eq(bytes(root(a)), bytes(root(b))), ctx.eq(a, b)), "equal roots mean equal leaves")


@case("C03", params=[dict(n=n, m=m) for n, m in ((1, 2), (2, 3), (3, 4), (4, 5), (2, 4))])
def root_commits_to_count(ctx, n, m):
    a = [ctx.bytes("a%d" % i, 2) for i in range(n)]
    b = [ctx.bytes("b%d" % i, 2) for i in range(m)]
    ctx.check(ctx.no(ctx.eq(bytes(root(a)), bytes(root(b)))), "lists of different length have different roots")


@case("C03", params=[dict(n=n) for n in (0, 1, 2, 3, 4, 7, 8, 15, 16)])
def root_asked_between(ctx, n):
    """A root that was asked for stays out of the roots of more leaves."""
    ls = leaves_of(ctx, n + 3)
    t = MerkleTree(hash_func=bytes)
    for x in ls[:n]:
        t.push(x)
    for k in range(n, n + 4):
        ctx.check(ctx.eq(bytes(t.root()), ref_root(ls[:k], bytes)), "the root is that of the leaves so far")
        ctx.check(ctx.eq(bytes(t.root()), ref_root(ls[:k], bytes)), "asked again, the root is the same")
        if k < n + 3:
            t.push(ls[k])
