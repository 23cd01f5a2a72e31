"""bounded stand-in for P01"""
import json


def sizes(env, C):
    B = C._config.BLOCKSIZE
    H = C._config.INNER_HEADER_BYTES
    out = {0, 1, 2}
    for k in (1, 2, 3, 5):
        for d in (-2, -1, 0, 1):
            out.add(max(0, k * B - H + d))
            out.add(max(0, k * B + d))
    out |= {9 * B, 17 * B + 3, 40 * B - H}
    return sorted(out)


def cases(env):
    a = env.aiootp
    for proof, name, m in env.models():
        n = len(m["data"]) if "data" in m else 40
        for C in ("Chunky2048", "Slick256"):
            for ea in (0, 1):
                for da in (0, 1):
                    yield "bytes", dict(
                        C=C, n=n, key=max(64, len(m.get("key", b""))),
                        aad=len(m.get("aad", b"")) % 100000, ea=ea, da=da)
    for C in ("Chunky2048", "Slick256"):
        for i, n in enumerate(sizes(env, getattr(a, C))):
            yield "bytes", dict(C=C, n=n, key=64 + i % 3 * 40,
                                aad=(0, 1, 17, 300)[i % 4],
                                ea=i % 2, da=(i // 2) % 2)
        for i in range(12):
            yield "bytes", dict(C=C, n=i * 7, key=(64, 136, 137, 168, 169,
                                                   336)[i % 6],
                                aad=(0, 150, 167, 168, 169, 400)[i % 6],
                                ea=(i // 2) % 2, da=i % 2)
        for i, v in enumerate([None, 0, "", "x", [], {"a": [1, 2.5, None]},
                               {"k": "é中" * 50}, True, "\ud800",
                               "\U0001f600\x00\u2028", -0.0, 1e300,
                               10 ** 40, {"": {"": []}}, " \n\t\\\"/",
                               list(range(300))]):
            yield "json", dict(C=C, v=v, ea=i % 2, da=(i // 2) % 2)
        for n in (0, 1, 2, 3, 4, 5, 31, 255, 1000):
            yield "token", dict(C=C, n=n, ea=n % 2, da=(n // 2) % 2)
        for ea in (0, 1):
            for kind in ("bytes", "token"):
                yield "content", dict(C=C, kind=kind, ea=ea, da=1 - ea)
    n = 0
    while True:
        C = ("Chunky2048", "Slick256")[n % 2]
        r = env.rng
        yield "bytes", dict(C=C, n=r.randrange(0, 3000), key=64 + r.randrange(
            400), aad=r.randrange(0, 500), ea=r.randrange(2),
            da=r.randrange(2), tag=n)
        n += 1
        if n > (120 if env.tier == "quick" else 2000):
            return


def contents():
    """byte strings that text handling would alter"""
    for b in (b"\0", b"\n", b"\r\n", b" ", b"\t", b"=", b"-", b"_", b"+",
              b"\xff", b"\x80", b"%", b"\\", b'"', b"\x1a", b"\x0b\x0c",
              b"\x1c", b"\x85"):
        for k in (1, 2, 3, 19, 20, 256):
            yield b * k
        yield from (b + b"x", b"x" + b, b + b"x" + b, b + b"y" * 40 + b)
    yield from ("\u00e9".encode(), b"null", b"0", b"[]", b"True", b"Ab" * 9,
                b"aGVsbG8=", bytes(range(256)), bytes(range(255, -1, -1)))


def check(env, case, i):
    if case == "content":
        C = getattr(env.aiootp, i["C"])
        key = env.blob(64, 1)
        e, d = C(key), C(key)
        pre = (("bytes_encrypt", "bytes_decrypt") if i["kind"] == "bytes"
               else ("make_token", "read_token"))
        for n, data in enumerate([*contents()] * 2):
            aad = data if n % 2 else b""
            ct = env.call(e, pre[0], data, aad=aad, is_async=i["ea"])
            if i["kind"] == "token" and n % 3 == 1:
                ct = ct.decode()
            pt = env.call(d, pre[1], ct, aad=aad, is_async=i["da"])
            if pt != data or type(pt) is not bytes:
                return f"{data[:30]!r} ({len(data)}) came back as {pt[:30]!r}"
        return
    C = getattr(env.aiootp, i["C"])
    key = env.blob(i.get("key", 64), 1)
    tag = i.get("tag", 0)
    e, d = C(key), C(key)
    kw = dict(aad=env.blob(i.get("aad", 3), 2))
    pre = {"bytes": ("bytes_encrypt", "bytes_decrypt"),
           "json": ("json_encrypt", "json_decrypt"),
           "token": ("make_token", "read_token")}[case]
    data = i["v"] if case == "json" else env.blob(i["n"], tag)
    kws = dict(kw)
    if case == "bytes" and tag % 2:
        kws["salt"] = env.blob(C._config.SALT_BYTES, 9)
    if i["ea"]:
        ct = env.run(getattr(e, "a" + pre[0])(data, **kws))
    else:
        ct = getattr(e, pre[0])(data, **kws)
    if i["da"]:
        pt = env.run(getattr(d, "a" + pre[1])(ct, **kw))
    else:
        pt = getattr(d, pre[1])(ct, **kw)
    if pt != data or type(pt) is not type(data):
        return f"{pre[1]}({pre[0]}(x)) != x: got {str(pt)[:80]}"
    if case == "token" and i["n"] % 2:
        pt = d.read_token(ct.decode(), **kw)
        if pt != data:
            return "read_token of a str token differs"
