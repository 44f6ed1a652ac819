"""A stand-in for the parts of iconservice the contracts use: a store that can be rolled back, addresses, hashes, and
signatures that only their owner can make."""
import hashlib
from abc import ABC, abstractmethod
from functools import wraps
from json import dumps as json_dumps, loads as json_loads


class IconScoreException(BaseException):
    def __init__(self, message="", code=0):
        super().__init__(message)
        self.message = message
        self.code = int(code)


class Address:
    def __init__(self, contract, body):
        self.is_contract, self.body = contract, bytes(body)

    @staticmethod
    def from_string(s):
        if not isinstance(s, str) or len(s) != 42 or s[:2] not in ("hx", "cx"):
            raise IconScoreException("invalid address")
        return Address(s[:2] == "cx", bytes.fromhex(s[2:]))

    @staticmethod
    def from_bytes(b):
        if not isinstance(b, bytes) or len(b) != 21 or b[0] > 1:
            raise IconScoreException("invalid address")
        return Address(b[0] == 1, b[1:])

    def to_bytes(self):
        return bytes([self.is_contract]) + self.body

    def __str__(self):
        return ("cx" if self.is_contract else "hx") + self.body.hex()

    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, Address) and self.to_bytes() == o.to_bytes()

    def __hash__(self):
        return hash(self.to_bytes())


def sha3_256(b):
    return hashlib.sha3_256(b).digest()


SIGNED = {}  # signature -> what it signs, public key


def sign(secret, h):
    a = sha3_256(secret + h)
    sig = a + sha3_256(a) + b"\x01"
    SIGNED[sig] = (h, public(secret))
    return sig


def public(secret):
    return b"\x04" + sha3_256(b"x" + secret) + sha3_256(b"y" + secret)


def recover_key(h, sig, compressed=False):
    if not isinstance(sig, bytes) or len(sig) != 65 or not isinstance(h, bytes) or len(h) != 32:
        return None
    got = SIGNED.get(sig)
    if got and got[0] == h:
        return got[1]
    return b"\x04" + sha3_256(sig + h) + sha3_256(h + sig)  # of nobody


def create_address_with_key(key):
    if key is None:
        return None
    return Address(False, sha3_256(key[1:])[-20:])


class IconScoreDatabase:
    def __init__(self):
        self.store = {}


def _check(t, v):
    if not isinstance(v, t):
        raise IconScoreException("%r is not %s" % (v, t))


def _k(k):
    return k.to_bytes() if isinstance(k, Address) else str(k)


class DictDB:
    def __init__(self, key, db, value_type, depth=1):
        self._p, self._s, self._t, self._db, self._depth = ("dict", key), db.store, value_type, db, depth

    def __getitem__(self, k):
        if self._depth > 1:
            return DictDB(self._p + (_k(k),), self._db, self._t, self._depth - 1)
        v = self._s.get(self._p + (_k(k),))
        if v is None:
            return {int: 0, str: "", bool: False}.get(self._t)
        return v

    def __setitem__(self, k, v):
        _check(self._t, v)
        self._s[self._p + (_k(k),)] = v

    def remove(self, k):
        self._s.pop(self._p + (_k(k),), None)

    __delitem__ = remove

    def __contains__(self, k):
        return self._p + (_k(k),) in self._s


class VarDB:
    def __init__(self, key, db, value_type):
        self._p, self._s, self._t = ("var", key), db.store, value_type

    def get(self):
        v = self._s.get(self._p)
        return {int: 0, str: "", bool: False}.get(self._t) if v is None else v

    def set(self, v):
        _check(self._t, v)
        self._s[self._p] = v

    def remove(self):
        self._s.pop(self._p, None)


class ArrayDB:
    def __init__(self, key, db, value_type):
        self._p, self._s, self._t = ("array", key), db.store, value_type

    def __len__(self):
        return self._s.get(self._p, 0)

    def put(self, v):
        _check(self._t, v)
        n = len(self)
        self._s[self._p + (n,)] = v
        self._s[self._p] = n + 1

    def pop(self):
        n = len(self)
        if n == 0:
            return None
        self._s[self._p] = n - 1
        return self._s.pop(self._p + (n - 1,))

    def _at(self, i):
        n = len(self)
        if not -n <= i < n:
            raise IconScoreException("out of range")
        return self._p + (i % n,)

    def __getitem__(self, i):
        return self._s[self._at(i)]

    def __setitem__(self, i, v):
        _check(self._t, v)
        self._s[self._at(i)] = v

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, v):
        return any(x == v for x in self)


class Msg:
    def __init__(self, sender, value=0):
        self.sender, self.value = sender, value


class Tx:
    def __init__(self, origin):
        self.origin = origin


class IconScoreBase:
    def __init__(self, db):
        self.db = db

    def on_install(self, **kw):
        pass

    def on_update(self, **kw):
        pass


def external(f=None, readonly=False):
    if f is None:
        return lambda g: external(g, readonly)
    f.external = "view" if readonly else "call"
    return f


def payable(f):
    return f


def eventlog(f=None, indexed=0):
    if f is None:
        return lambda g: eventlog(g, indexed)

    @wraps(f)
    def emit(self, *a):
        self.emit(f.__name__, a)
    return emit


def interface(f):
    return f


class InterfaceScore:
    pass


class Logger:
    @staticmethod
    def _no(*a, **k):
        pass
    debug = info = warning = error = exception = _no


def revert(message="", code=0):
    raise IconScoreException(message, code)
