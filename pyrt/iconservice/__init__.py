"""A small stand-in of the iconservice package, for the Python contracts of /repo/pyscore.

Only what those contracts use: addresses, databases over one key-value store per contract, calls between contracts
with roll back, events, SHA3-256 and key recovery on secp256k1."""
from abc import ABC, ABCMeta, abstractmethod
import functools
import hashlib

__all__ = ["ABC", "ABCMeta", "abstractmethod", "Address", "AddressPrefix", "IconScoreBase", "IconScoreDatabase", "IconScoreException", "InterfaceScore", "interface",
           "external", "payable", "eventlog", "VarDB", "DictDB", "ArrayDB", "Logger", "sha3_256", "recover_key", "create_address_with_key", "revert"]


class IconScoreException(Exception):
    def __init__(self, message="", code=0):
        super().__init__(message)
        self.message, self.code = str(message), int(code)


def revert(message="", code=0):
    raise IconScoreException(message, code)


class AddressPrefix:
    EOA, CONTRACT = 0, 1


class Address:
    def __init__(self, prefix, body):
        if len(body) != 20:
            raise ValueError("bad address body")
        self.prefix, self.body = prefix, bytes(body)

    @property
    def is_contract(self):
        return self.prefix == 1

    @staticmethod
    def from_string(s):
        if not isinstance(s, str) or len(s) != 42 or s[:2] not in ("hx", "cx") or s != s.lower():
            raise ValueError("bad address %r" % (s,))
        return Address(0 if s[:2] == "hx" else 1, bytes.fromhex(s[2:]))

    @staticmethod
    def from_bytes(b):
        if not isinstance(b, bytes):
            return None
        if len(b) == 20:
            return Address(0, b)
        if len(b) == 21 and b[0] in (0, 1):
            return Address(b[0], b[1:])
        return None

    @staticmethod
    def from_data(prefix, data):
        return Address(prefix, hashlib.sha3_256(data).digest()[-20:])

    def to_bytes(self):
        return bytes([self.prefix]) + self.body

    def __eq__(self, o):
        return isinstance(o, Address) and o.prefix == self.prefix and o.body == self.body

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.prefix, self.body))

    def __str__(self):
        return ("hx", "cx")[self.prefix] + self.body.hex()

    __repr__ = __str__


class Logger:
    @staticmethod
    def debug(*a):
        pass
    info = warning = error = debug


# ---- secp256k1

P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8, 1)


def _dbl(p):
    x, y, z = p
    if not y or not z:
        return (0, 1, 0)
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return (x2, (m * (s - x2) - 8 * y**4) % P, 2 * y * z % P)


def _add(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    z1, z2 = p[2] * p[2] % P, q[2] * q[2] % P
    u1, u2 = p[0] * z2 % P, q[0] * z1 % P
    s1, s2 = p[1] * z2 * q[2] % P, q[1] * z1 * p[2] % P
    if u1 == u2:
        return _dbl(p) if s1 == s2 else (0, 1, 0)
    h, r = (u2 - u1) % P, (s2 - s1) % P
    h2 = h * h % P
    h3 = h2 * h % P
    v = u1 * h2 % P
    x = (r * r - h3 - 2 * v) % P
    return (x, (r * (v - x) - s1 * h3) % P, h * p[2] * q[2] % P)


def _mul2(a, p, b, q):
    pq = _add(p, q)
    out = (0, 1, 0)
    for i in range(255, -1, -1):
        out = _dbl(out)
        k = (a >> i & 1) | (b >> i & 1) << 1
        if k:
            out = _add(out, (None, p, q, pq)[k])
    return out


@functools.lru_cache(maxsize=100000)
def _recover(h, sig):
    if len(sig) != 65 or len(h) != 32:
        return None
    r, s, v = int.from_bytes(sig[:32], "big"), int.from_bytes(sig[32:64], "big"), sig[64]
    if not 0 < r < N or not 0 < s < N or v > 3:
        return None
    x = r + N * (v >> 1)
    if x >= P:
        return None
    y = pow(x * x * x + 7, (P + 1) // 4, P)
    if (y * y - x**3 - 7) % P:
        return None
    if y & 1 != v & 1:
        y = P - y
    ri = pow(r, -1, N)
    e = int.from_bytes(h, "big")
    k = _mul2(-e * ri % N, G, s * ri % N, (x, y, 1))
    if not k[2]:
        return None
    zi = pow(k[2], -1, P)
    return b"\x04" + (k[0] * zi * zi % P).to_bytes(32, "big") + (k[1] * zi**3 % P).to_bytes(32, "big")


def recover_key(msg_hash, signature, compressed=True):
    k = _recover(bytes(msg_hash), bytes(signature)) if isinstance(msg_hash, bytes) and isinstance(signature, bytes) else None
    if k is None or not compressed:
        return k
    return bytes([2 + (k[64] & 1)]) + k[1:33]


def create_address_with_key(key):
    if not isinstance(key, bytes):
        return None
    if len(key) == 33:
        x = int.from_bytes(key[1:], "big")
        y = pow(x**3 + 7, (P + 1) // 4, P)
        if y & 1 != key[0] & 1:
            y = P - y
        key = b"\x04" + key[1:] + y.to_bytes(32, "big")
    if len(key) != 65:
        return None
    return Address(0, hashlib.sha3_256(key[1:]).digest()[-20:])


def sha3_256(b):
    if not isinstance(b, bytes):
        raise IconScoreException("sha3_256 of %s" % type(b))
    return hashlib.sha3_256(b).digest()


# ---- databases

class IconScoreDatabase:
    """The store of one contract."""

    def __init__(self, kv):
        self.kv = kv


def _to(v, t):
    if v is None:
        return {int: 0, str: "", bool: False}.get(t)
    return v


def _check(v, t):
    if t is Address and isinstance(v, Address) or isinstance(v, t):
        return int(v) if t is int else v
    raise IconScoreException("%r is no %s" % (v, t))


class VarDB:
    def __init__(self, key, db, value_type):
        self.k, self.kv, self.t = ("v", key), db.kv, value_type

    def get(self):
        return _to(self.kv.get(self.k), self.t)

    def set(self, v):
        self.kv[self.k] = _check(v, self.t)

    def remove(self):
        self.kv.pop(self.k, None)


class DictDB:
    def __init__(self, key, db, value_type, depth=1):
        self.p, self.db, self.kv, self.t, self.depth = ("d", key), db, db.kv, value_type, depth

    def _k(self, k):
        return self.p + (k if isinstance(k, (str, int, bytes)) else str(k),)

    def __getitem__(self, k):
        if self.depth > 1:
            return DictDB(self._k(k), self.db, self.t, self.depth - 1)
        return _to(self.kv.get(self._k(k)), self.t)

    def __setitem__(self, k, v):
        self.kv[self._k(k)] = _check(v, self.t)

    def __delitem__(self, k):
        self.remove(k)

    def __contains__(self, k):
        return self._k(k) in self.kv

    def remove(self, k):
        self.kv.pop(self._k(k), None)


class ArrayDB:
    def __init__(self, key, db, value_type):
        self.p, self.kv, self.t = ("a", key), db.kv, value_type

    def __len__(self):
        return self.kv.get(self.p + ("size",), 0)

    def _i(self, i):
        n = len(self)
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IconScoreException("array index out of range")
        return self.p + (i,)

    def __getitem__(self, i):
        return self.kv[self._i(i)]

    def __setitem__(self, i, v):
        self.kv[self._i(i)] = _check(v, self.t)

    def get(self, i):
        return self[i]

    def put(self, v):
        n = len(self)
        self.kv[self.p + (n,)] = _check(v, self.t)
        self.kv[self.p + ("size",)] = n + 1

    def pop(self):
        n = len(self)
        if not n:
            return None
        v = self.kv.pop(self.p + (n - 1,))
        self.kv[self.p + ("size",)] = n - 1
        return v

    def __iter__(self):
        i = 0
        while i < len(self):
            yield self[i]
            i += 1

    def __contains__(self, v):
        return any(x == v for x in self)


# ---- contracts

def external(f=None, readonly=False):
    if f is None:
        return lambda g: external(g, readonly)
    f.verif_external, f.verif_readonly = True, readonly
    return f


def payable(f):
    f.verif_payable = True
    return f


def interface(f):
    f.verif_interface = True
    return f


def eventlog(f=None, indexed=0):
    if f is None:
        return lambda g: eventlog(g, indexed)

    @functools.wraps(f)
    def emit(self, *a):
        self.verif_world.event(self.address, f.__name__, list(a))
    return emit


class InterfaceScore(ABC):
    pass


class _Frame:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class IconScoreBase(ABC):
    def __init__(self, db):
        f = self.verif_world.frames[-1]
        self.msg = _Frame(sender=f.sender, value=f.value)
        self.tx = _Frame(origin=self.verif_world.frames[0].sender)
        self.address = f.address
        self.owner = self.verif_world.owners[str(f.address)]
        self.block_height = self.verif_world.height
        self.block = _Frame(height=self.verif_world.height, timestamp=self.verif_world.height * 1000000)

    def on_install(self, *a, **k):
        pass

    def on_update(self, *a, **k):
        pass

    def now(self):
        return self.block.timestamp

    def create_interface_score(self, addr, cls):
        me = self

        class Proxy:
            def __getattr__(self, name):
                if not getattr(getattr(cls, name, None), "verif_interface", False):
                    raise AttributeError(name)
                return lambda *a: me.verif_world.call(me.address, addr, 0, name, list(a))
        return Proxy()
