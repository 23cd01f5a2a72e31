"""
P14  sequence ids and guids, over the contract of the affine permutation

seq      read(new(v)) = v, size, injectivity
guid     read(new()) = the clock's stamp, the token drawn, the node id and
         the tick; from any tick
unique   two guids made at ticks i < j < i + 256 of one generator at one
         instant differ whatever the tokens are
order    raw guids and their read-back containers compare by time
permutation.*  P13's proofs of the permutation's contract for these sizes
"""
import sys

import z3

from checks import p13
from vf import core, models, perm
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
LOOPS = p13.LOOPS
ASSUMPTIONS = p13.ASSUMPTIONS
EPOCH = 1672531200 * 10 ** 9


def mod(name):
    return sys.modules["aiootp.randoms.ids." + name]


def seq(pkg, size, a):
    S = mod("sequence_id").SequenceID

    def fn(c):
        perm.install(c)
        s = S(key=c.bytes("key", S.key_size(size)), config_id=size)
        D = 256 ** size
        new = s.anew if a else s.new
        read = s.aread if a else s.read
        v = c.int("v", 0, 256 ** size - 1, bits=8 * size)
        w = c.int("w", 0, 256 ** size - 1, bits=8 * size)
        x = attempt(new, v)
        if not x.ok:
            c.fail("returns", info=repr(x.exc))
            return
        c.prove(L(x.value) == size, "size")
        r = attempt(read, x.value)
        if not r.ok:
            c.fail("reads", info=repr(r.exc))
            return
        c.prove(r.value == v, "reads back")
        # ids of distinct numbers read back differently, so they differ
        y = attempt(new, w).get()
        c.prove(attempt(read, y).get() == w, "reads back (another number)")
        c.prove(attempt(read, x.value).get() == v, "reads back again")
        c.prove(not c.events, "permutation called inside its domain",
                info=repr(c.events))
        c.cover("done")
    return fn


def instant(c, name):
    """an instant whose nanoseconds since the epoch fit eight bytes"""
    t = c.int(name, 0, 256 ** 8 - 1)
    c.state["time_ns"] = lambda: core.mkint(t.e + EPOCH)
    return t


def set_tick(c, raw, t):
    need = raw.tick       # noqa  (the generator's state)
    object.__setattr__(raw, "tick", t)


def guid(pkg, size, a, raw):
    G = mod("guid").GUID
    R = mod("raw_guid").RawGUID

    def fn(c):
        perm.install(c)
        node = c.bytes("node", 1)
        if raw:
            g = R(node, config_id=size)
            inner = g
        else:
            g = G(key=c.bytes("key", G.key_size(size)), node_id=node,
                  config_id=size)
            inner = g._raw_guid
        k = c.int("tick", 0, 255)
        set_tick(c, inner, k)
        t = instant(c, "now")
        c.state["drawn"] = []
        x = attempt(g.anew if a else g.new)
        if not x.ok:
            c.fail("returns", info=repr(x.exc))
            return
        c.prove(L(x.value) == size, "size")
        drawn = list(c.state["drawn"])
        c.prove(len(drawn) == 1, "one random token")
        r = attempt(g.aread if a else g.read, x.value)
        if not r.ok:
            c.fail("reads", info=repr(r.exc))
            return
        r = r.value
        c.prove(L(r.timestamp) == 8, "timestamp size")
        c.prove(core.int_from_bytes(r.timestamp) == t, "reads the timestamp")
        if len(drawn) == 1:
            c.prove(r.token == drawn[0], "reads the token")
        c.prove(L(r.token) == size - 10, "token size")
        c.prove(r.node_id == node, "reads the node id")
        c.prove(core.int_from_bytes(r.ticker) == (k + 1) % 256,
                "reads the next tick")
        c.prove(inner.tick == (k + 1) % 256, "the tick advanced")
        c.prove(not c.events, "permutation called inside its domain",
                info=repr(c.events))
        c.cover("done")
    return fn


def unique(pkg, size, a, raw):
    G = mod("guid").GUID
    R = mod("raw_guid").RawGUID

    def fn(c):
        perm.install(c)
        node = c.bytes("node", 1)
        if raw:
            g = R(node, config_id=size)
            inner = g
        else:
            g = G(key=c.bytes("key", G.key_size(size)), node_id=node,
                  config_id=size)
            inner = g._raw_guid
        k = c.int("tick", 0, 255)
        d = c.int("apart", 1, 255)
        instant(c, "now")
        ids = []
        for s in (k, (k + d) % 256):
            set_tick(c, inner, s)
            ids.append(attempt(g.anew if a else g.new).get())
        # they read back differently, so they differ
        x, y = (attempt(g.aread if a else g.read, i).get() for i in ids)
        c.prove(core.bnot(x.ticker == y.ticker), "differ")
    return fn


def order(pkg, size):
    R = mod("raw_guid").RawGUID

    def fn(c):
        ids, ts = [], []
        for n in "ab":
            g = R(c.bytes("node" + n, 1), config_id=size)
            set_tick(c, g, c.int("tick" + n, 0, 255))
            ts.append(instant(c, "now" + n))
            ids.append(attempt(g.new).get())
        c.assume(num(ts[0]) < num(ts[1]))
        c.prove(ids[0] < ids[1], "the bytes sort by time")
        x, y = (attempt(g.read, i).get() for i in ids)
        c.prove(x < y, "the read ids sort by time")
        c.prove(y > x, "the read ids sort by time (reversed)")
        c.prove(core.bnot(y < x), "asymmetric")
        c.prove(core.bnot(x == y), "ids of two instants differ")
        z = attempt(g.read, ids[0]).get()
        c.prove(x == z, "equal to itself")
    return fn


def wrong(pkg, size, a, raw):
    G = mod("guid").GUID
    R = mod("raw_guid").RawGUID

    def fn(c):
        perm.install(c)
        g = R(config_id=size) if raw else G(
            key=c.bytes("key", G.key_size(size)), config_id=size)
        x = c.bytes("id", hi=1 << 20)
        r = attempt(g.aread if a else g.read, x)
        if r.ok:
            c.prove(L(x) == size, "read => right size")
            c.cover("read")
        else:
            c.prove(isinstance(r.exc, ValueError), "value error",
                    info=repr(r.exc))
            c.prove(core.bnot(L(x) == size), "refused => wrong size")
            c.cover("refused")
        n = c.bytes("node", hi=1 << 20)
        r = attempt(lambda: R(n, config_id=size) if raw else G(
            key=bytes(G.key_size(size)), node_id=n, config_id=size))
        if r.ok:
            c.prove(L(n) == 1, "node id of the configured size")
        else:
            c.prove(isinstance(r.exc, ValueError), "value error (node id)",
                    info=repr(r.exc))
            c.prove(core.bnot(L(n) == 1), "refused => wrong node id size")
    return fn


def proofs(pkg):
    F = ["randoms/ids/sequence_id.py"]
    H = ["randoms/ids/guid.py", "randoms/ids/raw_guid.py",
         "randoms/ids/raw_guid_config.py"]
    for a in (0, 1):
        for size in range(1, 33):
            yield Proof(f"seq[{size},{a}]", seq(pkg, size, a), functions=F,
                        min_obligations=4)
        for size in range(12, 33):
            for raw in (0, 1):
                yield Proof(f"guid[{size},{raw},{a}]",
                            guid(pkg, size, a, raw), functions=H,
                            min_obligations=8)
                yield Proof(f"unique[{size},{raw},{a}]",
                            unique(pkg, size, a, raw), functions=H,
                            min_obligations=1)
                yield Proof(f"wrong[{size},{raw},{a}]",
                            wrong(pkg, size, a, raw), functions=H,
                            min_obligations=4)
    for size in range(12, 33):
        yield Proof(f"order[{size}]", order(pkg, size), functions=H,
                    min_obligations=6)
    for p in p13.proofs(pkg):
        size = int(p.name.split("[")[1].split("]")[0].split(",")[0])
        if size < 33 and not p.name.startswith("Affine") \
                and ".step" not in p.name:
            p.name = "permutation." + p.name
            yield p
