"""bounded stand-in for P14: real ids under a set system time"""
import random

from checks import c13

EPOCH = 1672531200 * 10 ** 9


def cases(env):
    for proof, name, m in env.models():
        if "now" in m or "nowa" in m:
            for size in (12, 16, 24, 32):
                for n in ("now", "nowa", "nowb"):
                    if n in m:
                        yield "guid", dict(size=size, kind=1, node=m.get(
                            "node", b"\0"), now=int(m[n]), skip=int(
                                m.get("tick", 0)))
        if "v" in m:
            for size in range(1, 33):
                yield "seq", dict(size=size, kind=1, v=int(m["v"]))
    for size in range(1, 33):
        for kind in ("zero", "ones", 1, 2):
            yield "seq", dict(size=size, kind=kind)
    for size in range(12, 33):
        for kind in ("zero", 1):
            for node in (b"\0", b"\1", b"\xff"):
                yield "guid", dict(size=size, kind=kind, node=node,
                                   now=0 if size % 2 else 2 ** 63 + size)
        yield "order", dict(size=size)
        yield "wrong", dict(size=size)
    for size in (12, 13, 16, 32):
        yield "run", dict(size=size)
    for size in range(1, 33):
        yield "keys", dict(size=size)
    yield "default", {}
    for case, inp in c13.cases(env):
        if inp["n"] != "AffineXORChain":
            yield "permutation." + case, inp


def key(T, size, kind):
    n = T.key_size(size)
    return {"zero": bytes(n), "ones": b"\xff" * n}.get(
        kind, random.Random(f"{kind}{size}").randbytes(n))


def check(env, case, i):
    try:
        return inner(env, case, i)
    finally:
        env.clock.fixed = None


def inner(env, case, i):
    if case.startswith("permutation."):
        return c13.check(env, case.split(".")[1], i)
    from aiootp.randoms.ids.guid import GUID
    from aiootp.randoms.ids.raw_guid import RawGUID
    from aiootp.randoms.ids.sequence_id import SequenceID
    size = i.get("size")
    r = random.Random(size)
    if case == "seq":
        s = SequenceID(key=key(SequenceID, size, i["kind"]), config_id=size)
        D = 256 ** size
        vs = {0, 1, 255, D - 1, D - 2, D // 2, i.get("v", 0) % D,
              *(v for v in (254, 256, 257, 65535, 65536, 2 ** 64) if v < D),
              *(r.randrange(D) for _ in range(8))}
        if size == 1 or (size == 2 and i["kind"] == 1):
            vs = set(range(D))
        ids = {}
        for v in sorted(vs):
            x = s.new(v)
            assert type(x) is bytes and len(x) == size, f"size of {x!r}"
            assert s.read(x) == v, f"{v} reads back as {s.read(x)}"
            if size != 2 or v % 97 == 0:
                assert env.run(s.anew(v)) == x, "async new differs"
                assert env.run(s.aread(x)) == v, "async read differs"
            assert ids.setdefault(x, v) == v, f"{v} and {ids[x]} share an id"
        # the same object keeps answering
        for x, v in list(ids.items())[:50]:
            assert s.new(v) == x and s.read(x) == v, "ids change over time"
    elif case == "guid":
        raw = RawGUID(i["node"], config_id=size)
        g = GUID(key=key(GUID, size, i["kind"]), node_id=i["node"],
                 config_id=size)
        for x in (g, raw):
            seen = set()
            last = None
            for n in range(i.get("skip", 0) + 300):
                a = n % 3 == 0
                env.clock.fixed = EPOCH + i["now"] + n // 256
                one = env.call(x, "new", is_async=a)
                assert len(one) == size, f"size {len(one)}"
                f = env.call(x, "read", one, is_async=n % 2)
                assert int.from_bytes(f.timestamp, "big") == (
                    i["now"] + n // 256) and len(f.timestamp) == 8, (
                        "timestamp differs")
                assert f.node_id == i["node"], f"node id {f.node_id}"
                assert len(f.token) == size - 10 and len(f.ticker) == 1
                assert one not in seen, "repeated"
                seen.add(one)
                t = f.ticker[0]
                assert last is None or t == (last + 1) % 256, (
                    f"tick {last} then {t}")
                last = t
                if x is raw:
                    assert f.timestamp + f.token + f.node_id + f.ticker \
                        == one, "fields differ from the raw id"
    elif case == "run":
        # the token generator repeats itself: the tick must still separate
        from aiootp.randoms.ids import raw_guid
        env.clock.fixed = EPOCH + 5
        g = RawGUID(b"\0", config_id=size)
        cfg = g.config
        old = cfg.prf
        object.__setattr__(cfg, "prf", lambda n: b"\7" * n)
        try:
            for x in (g, GUID(config_id=size)):
                ids = []
                for n in range(256 * 3 + 5):
                    ids.append(env.call(x, "new", is_async=n % 2))
                    assert x.read(ids[-1]).token == b"\7" * (size - 10), (
                        "token differs")
                env.clock.fixed = EPOCH + 6

                async def together(n, x=x):
                    import asyncio
                    return await asyncio.gather(*(
                        x.anew() for _ in range(n)))
                for n in (2, 3, 200, 256):
                    assert len(set(env.run(together(n)))) == n, (
                        f"{n} ids made concurrently are not distinct")
                env.clock.fixed = EPOCH + 5
                for n in range(0, len(ids) - 256):
                    assert len(set(ids[n:n + 256])) == 256, (
                        f"ids repeat within 256 calls at {n}")
        finally:
            object.__setattr__(cfg, "prf", old)
    elif case == "order":
        out = []
        gs = [RawGUID(bytes([n]), config_id=size) for n in (0, 9, 255)]
        for n, t in enumerate((0, 1, 255, 256, 2 ** 32 - 1, 2 ** 32,
                               2 ** 53 + 1, 2 ** 63, 2 ** 63 + 1,
                               2 ** 64 - 1)):
            env.clock.fixed = EPOCH + t
            for k in range(3):
                g = gs[r.randrange(3)]
                for _ in range(r.randrange(4)):
                    g.new()
                out.append((t, g.new()))
        for t, x in out:
            for u, y in out:
                if t < u:
                    assert x < y, f"raw ids of {t} and {u} are out of order"
                    a, b = g.read(x), g.read(y)
                    assert a < b and b > a and not b < a and a != b, (
                        f"read ids of {t} and {u} are out of order")
        for _, x in out:
            a, b = g.read(x), g.read(x)
            for k in range(len(x)):
                c = g.read(x[:k] + bytes([x[k] ^ 1]) + x[k + 1:])
                assert c != a and (c < a or a < c), "different ids are equal"
            assert a == b and not a < b and not a > b, "equal ids differ"
        assert hash(g.read(x)) == hash(g.read(x))
    elif case == "wrong":
        for x in (RawGUID(config_id=size), GUID(config_id=size)):
            for n in {0, 1, size - 1, size + 1, 2 * size, 16, 12} - {size}:
                for a in (0, 1):
                    try:
                        env.call(x, "read", bytes(n), is_async=a)
                    except ValueError:
                        continue
                    return f"{type(x).__name__} read {n} bytes"
        for n in (0, 2, 8):
            for T in (RawGUID, GUID):
                try:
                    T(node_id=bytes(n), config_id=size)
                except ValueError:
                    continue
                return f"node id of {n} bytes accepted"
    elif case == "keys":
        # generators of several keys read each other's ids in any order
        T = [SequenceID] + ([GUID] if size >= 12 else [])
        for cls in T:
            gs = [cls(key=key(cls, size, k), config_id=size)
                  for k in ("zero", 1, 2, 3)]
            for n in range(12):
                g = gs[n % 4]
                env.clock.fixed = EPOCH + 77 + n
                args = (n * 37 % 256,) if cls is SequenceID else ()
                x = env.call(g, "new", *args, is_async=n // 4 % 2)
                for h in (*gs[n % 3:], g, *gs, g):
                    got = env.call(h, "read", x, is_async=n // 2 % 2)
                    if cls is SequenceID:
                        y = env.call(h, "new", got, is_async=n % 2)
                        assert y == x, "an id read by another key"
                        assert h is not g or got == args[0], (
                            f"{args[0]} reads back as {got}")
                    elif h is g:
                        assert got.timestamp == (77 + n).to_bytes(8, "big"), (
                            "timestamp differs after other reads")
                        assert got.node_id == b"\0", "node differs"
    elif case == "default":
        for T in (GUID,):
            a, b = T(), T()
            x = a.new()
            assert len(x) == 16
            y, z = a.read(x), b.read(x)
            assert y == z and y.node_id == b"\0"
