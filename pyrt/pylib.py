"""Entry points of pyscore/lib for gocheck (op "lib" of server.py)."""
import iconservice as ics
from iconservice import Address
from pyscore.lib import BTPAddress
from pyscore.lib.icon import rlp, base64, db as dbs
from pyscore.lib.icon.mta import MerkleTreeAccumulator
from pyscore.lib.icon.mpt import MerklePatriciaTree

TYPES = {"int": int, "str": str, "bytes": bytes, "bool": bool, "list": list}


def typ(x):
    """a type as a list: ["int"], ["of", t], ["rec", t, ...]"""
    if x[0] == "of":
        return {list: typ(x[1])}
    if x[0] == "rec":
        return [typ(e) for e in x[1:]]
    return TYPES[x[0]]


def addr(s):
    a = BTPAddress.from_string(s)
    return [a.protocol, a.net, a.nid, a.chain, a.contract, str(a), a.is_valid(), a == BTPAddress.from_string(str(a)), BTPAddress.from_bytes(bytes(a)) == a]


def mta(state, ops):
    """state: bytes or None; ops: lists"""
    m = MerkleTreeAccumulator(state) if state is not None else MerkleTreeAccumulator()
    out = []
    for op in ops:
        k = op[0]
        if k == "offset":
            m.offset = op[1]
        elif k == "cache":
            m.set_cache_size(op[1])
        elif k == "newer":
            m.set_allow_newer_witness(op[1])
        elif k == "add":
            m.add(op[1])
        elif k == "reload":
            m = MerkleTreeAccumulator(m.to_bytes())
        elif k == "verify":
            try:
                m.verify(list(op[1]), op[2], op[3], op[4])
                out.append("ok")
            except BaseException as e:
                out.append(type(e).__name__)
        elif k == "status":
            out.append([m.height, m.offset])
    return [m.to_bytes(), out]


class Strs(dbs.StringDictDB):
    def str_to_object(self, s):
        return s


class Rec(dbs.PropertiesDB):
    def __init__(self, prefix, db):
        self.n = 7
        self.s = "default"
        self.b = False
        self.y = b""
        self.a = Address(1, b"\x05" * 20)
        self.l = None
        super().__init__(prefix, db)
        self.sub = super()._address_dict_db("sub")
        self.arr = super()._array_db("arr", str)


class Recs(dbs.IterableDictDB):
    def __init__(self, key, db):
        super().__init__(key, db, Rec)

    def raw_to_object(self, raw):
        return self.new(raw)

    def object_to_raw(self, o):
        return o

    def new(self, k):
        return Rec(self._sub_prefix(str(k)), self.base_db)

    def remove(self, key):
        v = self[key]
        if v is not None:
            v.remove_all()
            super().remove(key)


KV = {}


def val(v):
    return str(v) if isinstance(v, BTPAddress) else v


def container(reset, txs):
    """transactions of operations; each transaction has new objects over the same store, as contracts do"""
    if reset:
        KV.clear()
    out = []
    for tx in txs:
        d = ics.IconScoreDatabase(KV)
        m, r = Strs("m", d), Recs("r", d)
        top = Rec("top", d)
        for op in tx:
            k = op[0]
            if k == "put":
                m[op[1]] = op[2]
            elif k == "del":
                m.remove(op[1])
            elif k == "get":
                out.append(m[op[1]])
            elif k == "has":
                out.append(op[1] in m)
            elif k == "keys":
                out.append(sorted(m.keys()))
            elif k == "rput":
                r[op[1]] = r.new(op[1])
            elif k == "rdel":
                r.remove(op[1])
            elif k == "rkeys":
                out.append(sorted(r.keys()))
            elif k == "rset":
                setattr(r[op[1]], op[2], op[3])
            elif k == "rget":
                out.append(val(getattr(r[op[1]], op[2])))
            elif k == "sset":
                r[op[1]].sub[op[2]] = op[3]
            elif k == "sdel":
                r[op[1]].sub.remove(op[2])
            elif k == "skeys":
                out.append(sorted(r[op[1]].sub.keys()))
            elif k == "sget":
                out.append(r[op[1]].sub[op[2]])
            elif k == "aput":
                r[op[1]].arr.put(op[2])
            elif k == "adel":
                out.append(dbs.remove_from_array_db(r[op[1]].arr, op[2]) >= 0)
            elif k == "aall":
                out.append(sorted(r[op[1]].arr))
            elif k == "tset":
                setattr(top, op[1], op[2])
            elif k == "tget":
                out.append(val(getattr(top, op[1])))
            else:
                raise Exception(k)
    return out


FUNCS = {
    "rlp.encode": rlp.rlp_encode,
    "rlp.decode": lambda b, t: rlp.rlp_decode(b, typ(t)),
    "base64.encode": base64.urlsafe_b64encode,
    "base64.decode": base64.urlsafe_b64decode,
    "address": addr,
    "mta": mta,
    "mpt": lambda root, key, proofs: MerklePatriciaTree.prove(root, key, list(proofs)),
    "container": container,
}


def run(name, args):
    return FUNCS[name](*args)
