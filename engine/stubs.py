"""Stand-ins for third-party modules: ed25519 (signatures as an injective function of the message per key)."""
import z3

from .core import E, Unsupported
from . import runtime as R
from .values import Sym, SymBytes, tobytes_items


class SigningKey:
    __vp_safe__ = True

    def __init__(self, seed, prefix="", encoding=None):
        import ed25519
        its = tobytes_items(seed)
        if its is None:
            raise TypeError("seed")
        self._its = None
        if any(not isinstance(i, int) for i in its):
            if len(its) != 32:
                raise Unsupported("key seed of %d bytes" % len(its))
            self._its = list(its)  # a symbolic seed: its key is an injective function of it
            return
        self._k = ed25519.SigningKey(bytes(its))
        self._seed = bytes(its)

    def get_verifying_key(self):
        if self._its is not None:
            return VerifyingKey(SymBytes(R.HashFn("ed25519 key", 32, self._pub)(self._its)))
        return VerifyingKey(self._k.get_verifying_key().to_bytes())

    @staticmethod
    def _pub(seed):
        import ed25519
        return ed25519.SigningKey(seed).get_verifying_key().to_bytes()

    @staticmethod
    def _sign(b):
        import ed25519
        return ed25519.SigningKey(b[:32]).sign(b[32:])

    def to_bytes(self, prefix=""):
        return self._k.to_bytes()

    def to_seed(self):
        return self._k.to_seed()

    def sign(self, msg, prefix="", encoding=None):
        its = tobytes_items(msg)
        if its is None:
            raise TypeError("message")
        if self._its is not None:
            r = SymBytes(R.HashFn("ed25519 sign", 64, self._sign)(self._its + list(its)))
            return r.native() if r.concrete() else r
        k = self._k
        r = SymBytes(R.HashFn("sign:" + self._seed.hex(), 64, lambda b: k.sign(b))(its))
        return r.native() if r.concrete() else r


class VerifyingKey:
    __vp_safe__ = True

    def __init__(self, b, prefix="", encoding=None):
        b = SymBytes(tobytes_items(b))
        self._b = b.native() if b.concrete() else b

    def to_bytes(self, prefix=""):
        return self._b

    def to_ascii(self, prefix="", encoding=None):
        import ed25519
        return ed25519.VerifyingKey(self._b).to_ascii(prefix, encoding)

    def verify(self, *a, **k):
        raise Unsupported("signature verification")


class Ed25519Stub:
    __vp_safe__ = True
    SigningKey = SigningKey
    VerifyingKey = VerifyingKey

    def __getattr__(self, n):
        import ed25519
        return getattr(ed25519, n)


def stdlib(name):
    """A pure-Python standard library module, instrumented like the code under test."""
    import importlib
    import importlib.util
    from .loader import Loader
    path = importlib.import_module(name).__file__
    spec = importlib.util.spec_from_file_location(name, path, loader=Loader(path))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def install():
    R.EXTRA_STUBS["ed25519"] = Ed25519Stub()
    R.EXTRA_STUBS["ipaddress"] = stdlib("ipaddress")
    for n in ("heapq", "bisect"):
        R.EXTRA_STUBS[n] = stdlib(n)
