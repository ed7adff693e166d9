"""Runs the Python contracts of pyscore for gocheck: one JSON request a line, as verif.Server does for the Java ones."""
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
sys.setrecursionlimit(5000)

import iconservice as ics
from iconservice import Address, IconScoreException
import hashlib

OUT = sys.stdout
sys.stdout = sys.stderr


def enc(x):
    if x is None or isinstance(x, bool):
        return x
    if isinstance(x, int):
        return "i%d" % x
    if isinstance(x, str):
        return "s" + x
    if isinstance(x, Address):
        return "a" + str(x)
    if isinstance(x, (bytes, bytearray)):
        return "b" + x.hex()
    if isinstance(x, (list, tuple)):
        return [enc(e) for e in x]
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    return "s" + str(x)


def dec(x):
    if isinstance(x, str):
        c, r = x[0], x[1:]
        return int(r) if c == "i" else r if c == "s" else Address.from_string(r) if c == "a" else bytes.fromhex(r)
    if isinstance(x, list):
        return [dec(e) for e in x]
    if isinstance(x, dict):
        return {k: dec(v) for k, v in x.items()}
    return x


class MockFailure(Exception):
    pass


class World:
    def __init__(self):
        self.reset()

    def reset(self):
        self.store, self.classes, self.owners, self.mocks = {}, {}, {}, set()
        self.frames, self.events, self.height = [], [], 1

    def event(self, addr, name, args):
        self.events.append((addr, name, args))

    def snap(self):
        return {a: dict(kv) for a, kv in self.store.items()}, len(self.events)

    def back(self, s):
        for a in self.store:
            old = s[0].get(a, {})
            self.store[a].clear()
            self.store[a].update(old)
        del self.events[s[1]:]

    def call(self, frm, to, value, method, args):
        if str(to) in self.mocks:
            send({"cb": {"to": str(to), "from": str(frm), "value": str(value), "method": method, "args": [enc(a) for a in args]}})
            while True:
                m = recv()
                if "op" in m:
                    handle(m)
                    continue
                if "revert" in m:
                    raise IconScoreException(m.get("msg"), m["revert"])
                if "fail" in m:
                    raise MockFailure(m["fail"])
                return dec(m["ret"])
        cls = self.classes.get(str(to))
        if cls is None:
            raise IconScoreException("no contract at %s" % to)
        f = getattr(cls, method, None)
        if method != "on_install" and not getattr(f, "verif_external", False):
            raise IconScoreException("no method %s" % method)
        s = self.snap()
        self.frames.append(ics._Frame(sender=frm, address=to, value=value))
        try:
            o = cls(ics.IconScoreDatabase(self.store.setdefault(str(to), {})))
            return getattr(o, method)(*args)
        except BaseException:
            self.back(s)
            raise
        finally:
            self.frames.pop()


W = World()
ics.IconScoreBase.verif_world = W


def send(m):
    OUT.write(json.dumps(m) + "\n")
    OUT.flush()


def recv():
    l = sys.stdin.readline()
    if not l:
        os._exit(0)
    return json.loads(l)


def lib(name, args):
    """pure functions of pyscore/lib"""
    mod, fn = name.rsplit(".", 1)
    m = importlib.import_module("pyscore.lib." + mod)
    o = m
    for p in fn.split(":"):
        o = getattr(o, p)
    return o(*args)


def run(m):
    op = m["op"]
    if op == "reset":
        W.reset()
    elif op == "mock":
        W.mocks.add(m["to"])
    elif op == "block":
        W.height = int(m["height"])
    elif op == "hash":
        return hashlib.sha3_256(dec(m["args"])[0]).digest()
    elif op == "recover":
        return ics.recover_key(*dec(m["args"]), False)
    elif op == "deploy":
        mod, cls = m["class"].rsplit(".", 1)
        W.classes[m["to"]] = getattr(importlib.import_module(mod), cls)
        W.owners[m["to"]] = Address.from_string(m["from"])
        W.call(Address.from_string(m["from"]), Address.from_string(m["to"]), 0, "on_install", dec(m["args"]))
    elif op == "call":
        if not W.frames:
            W.events.clear()
        return W.call(Address.from_string(m["from"]), Address.from_string(m["to"]), int(m["value"]), m["method"], dec(m["args"]))
    elif op == "query":
        s = W.snap()
        try:
            return W.call(Address.from_string(m["from"]), Address.from_string(m["to"]), 0, m["method"], dec(m["args"]))
        finally:
            W.back(s)
    elif op == "lib":
        import pylib
        return pylib.run(m["method"], dec(m["args"]))
    else:
        raise Exception("op " + op)


def handle(m):
    try:
        r = run(m)
        send({"ok": True, "ret": enc(r), "events": [{"addr": str(a), "name": n, "args": [enc(x) for x in l]} for a, n, l in W.events] if m["op"] == "call" else []})
    except (KeyboardInterrupt, SystemExit):
        raise
    except IconScoreException as e:
        send({"ok": False, "kind": "revert", "code": int(e.code), "msg": str(e)})
    except BaseException as e:
        send({"ok": False, "kind": "fail", "code": -1, "msg": "%s: %s at %s" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1])})


while True:
    handle(recv())
