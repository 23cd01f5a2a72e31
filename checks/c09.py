"""bounded stand-in for P09: real packing, oracle written independently"""


def oracle(items, bs, pad, w):
    def rec(x):
        return len(x).to_bytes(w, "big") + x
    out = bytes([w]) + (len(items) + 2).to_bytes(w, "big")
    for x in [bs.to_bytes(w, "big"), pad, *items]:
        out += rec(x)
    while len(out) % bs:
        out += pad
    return out


def parse(data):
    """items or None, following the documented format"""
    if not data:
        return None
    w = data[0]
    p = 1

    def take(n):
        nonlocal p
        x = data[p:p + n]
        p += len(x)
        return x if len(x) == n else None
    n = take(w)
    if n is None:
        return None
    items = []
    for _ in range(int.from_bytes(n, "big")):
        s = take(w)
        if s is None:
            return None
        x = take(int.from_bytes(s, "big"))
        if x is None:
            return None
        items.append(x)
        if len(items) > len(data) + 2:
            return None
    if len(items) < 2 or w == 0:
        return None
    bs, pad = int.from_bytes(items[0], "big"), items[1]
    if not bs or len(data) % bs or len(pad) != 1 or set(data[p:]) - set(pad):
        return None
    return items[2:]


def cases(env):
    for proof, name, m in env.models():
        if "data" in m:
            for w, n in ((1, 2), (1, 3), (4, 2), (8, 3)):
                for a in (0, 1):
                    yield "raw", dict(a=a, data=bytes([w]) + n.to_bytes(
                        w, "big") + m["data"])
        items = [m[k] for k in sorted(m) if k.startswith("item")]
        if items and all(len(x) < 10 ** 6 for x in items):
            for w in (1, 4, 8):
                yield "pack", dict(items=items, bs=int(m.get(
                    "blocksize", 1)) % 256 or 1, pad=m.get("pad", b"\x00"),
                    w=w, a=0)
        if "x" in m and len(m["x"]) < 10 ** 6:
            for bs in (1, 2, 32, 72, 136, 168, 256):
                yield "ljust", dict(x=m["x"], bs=bs, pad=b"p")
    r = env.rng
    sizes = (0, 1, 2, 3, 7, 8, 15, 31, 32, 100, 127, 128, 254, 255)
    for n in range(0, 12):
        for w in (1, 2, 3, 4, 8, 16, 255):
            for bs in (1, 2, 7, 32, 72, 136, 168, 255):
                yield "pack", dict(
                    items=[env.blob(r.choice(sizes), k) for k in range(n)],
                    bs=bs, pad=r.choice((b"\x00", b"\xff", b"\x01")), w=w,
                    a=n % 2)
    for n in (100, 250, 253, 254, 300, 3000, 5000, 20000, 70000):
        for a in (0, 1):
            yield "pack", dict(
                items=[bytes([k % 251]) * (k % 3) for k in range(n)],
                bs=136, pad=b"\x00", w=1 if n <= 253 else 4, a=a)
    for size in (255, 256, 257, 65535, 65536, 70000):
        for w in (1, 2, 4, 8):
            if size < 1 << 8 * w:
                yield "pack", dict(items=[env.blob(size, 1), b""], bs=168,
                                   pad=b"\x00", w=w, a=1)
    for x in range(0, 400, 7):
        yield "ljust", dict(x=env.blob(x, 1), bs=x % 37 + 1, pad=b"p")
    # malformed data
    good = oracle([b"a", b"", b"bc"], 16, b"\x00", 1)
    for k in range(len(good)):
        for v in (0, 1, 2, 3, 127, 255, good[k] ^ 1):
            yield "raw", dict(a=k % 2, data=good[:k] + bytes([v]) + good[
                k + 1:])
        yield "raw", dict(a=k % 2, data=good[:k])
    for w in (2, 8):
        good = oracle([b"a", b"", b"bc"], 8, b"\xff", w)
        for k in range(len(good)):
            yield "raw", dict(a=k % 2, data=good[:k])
            yield "raw", dict(a=k % 2, data=good[:k] + bytes([good[k] ^ 1]) +
                              good[k + 1:])
    for bs in (300, 8192, 70000, 200001):
        good = oracle([b"ab"], bs, b"\x00", 4)
        for k in (-1, -2, -100, len(good) // 2, 30):
            for v in (1, 255):
                bad = bytearray(good)
                bad[k] ^= v
                yield "raw", dict(a=k % 2, data=bytes(bad))
        for cut in (1, bs // 2, 9 * bs // 10):
            yield "raw", dict(a=cut % 2, data=good[:-cut])
    for extra in (b"\x00", b"\x00" * 16, b"\x01" * 16, b"\x00" * 15):
        yield "raw", dict(a=0, data=oracle([b"a"], 16, b"\x00", 1) + extra)
    for k in range(300 if env.tier == "quick" else 20000):
        n = r.randrange(0, 12)
        yield "raw", dict(a=k % 2, data=bytes(r.choice((0, 1, 1, 1, 2, 3, 4,
                                                        255))
                                              for _ in range(n)))
    yield "pairs", dict(seed=1)


def check(env, case, i):
    g = env.aiootp.generics.canon
    err = env.aiootp._exceptions.CanonicalEncodingError
    if case == "pack":
        kw = dict(blocksize=i["bs"], pad=i["pad"], int_bytes=i["w"])
        want = oracle(i["items"], i["bs"], i["pad"], i["w"])
        for a in (0, 1):
            x = env.call(g, "canonical_pack", *i["items"], is_async=a, **kw)
            if x != want:
                return "packing is not the documented encoding"
            if list(env.call(g, "canonical_unpack", x, is_async=1 - a)) != (
                i["items"]
            ):
                return "unpacking returns other items"
    elif case == "ljust":
        for a in (0, 1):
            y = env.call(g, "fullblock_ljust", i["x"], i["bs"], pad=i["pad"],
                         is_async=a)
            want = i["x"]
            while len(want) % i["bs"]:
                want += i["pad"]
            if y != want:
                return "fullblock_ljust differs"
    elif case == "raw":
        want = parse(i["data"])
        for a in (0, 1):
            try:
                got = list(env.call(g, "canonical_unpack", i["data"],
                                    is_async=a))
            except err:
                got = None
            except Exception as e:
                return f"undocumented error {e!r}"
            if got is not None and want is None:
                return "malformed data accepted"
            if got is None and want is not None:
                return "well-formed data refused"
            if got != want:
                return "items differ"
    else:
        # all sequences of up to 3 short items: no two pack alike
        import itertools
        alphabet = [b"", b"\x00", b"\x01", b"\x00\x00", b"\x00\x01",
                    b"\x01\x00"]
        seen = {}
        for n in range(4):
            for items in itertools.product(alphabet, repeat=n):
                for bs in (1, 2, 16):
                    for pad in (b"\x00", b"\x01"):
                        for w in (1, 2):
                            x = g.canonical_pack(*items, blocksize=bs,
                                                 pad=pad, int_bytes=w)
                            k = (items, bs, pad, w)
                            if seen.setdefault(x, k) != k:
                                return f"{k} and {seen[x]} pack alike"
