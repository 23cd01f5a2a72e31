"""bounded stand-in for P05: chunkings and interleavings of real streams"""
import asyncio

CS = ("Chunky2048", "Slick256")


def cuts(r, total, big):
    out = []
    while total > 0:
        n = r.choice((0, 1, 2, 11, 12, 13, 19, 20, 21, 31, 32, 33, 255, 256,
                      257, r.randrange(1, big + 1)))
        n = min(n, total)
        out.append(n)
        total -= n
    if r.random() < 0.3:
        out.append(0)
    return out


def cases(env):
    for proof, name, m in env.models():
        for C in CS:
            n = len(m.get("data", b"")) + len(m.get("st.last", b""))
            B = 256 if C[0] == "C" else 32
            for a in (0, 1):
                if n < 10 ** 6:
                    yield "stream", dict(C=C, chunks=[n], plan=[1], ea=a,
                                         da=a, read=1, seed=1)
                yield "stream", dict(
                    C=C, chunks=[B - (20 if B > 32 else 12), B, B + 1],
                    plan=[1, 2], ea=a, da=a, read=1, seed=1)
    for C in CS:
        B, H = (256, 20) if C[0] == "C" else (32, 12)
        for n in (0, 1, B - H - 1, B - H, B - H + 1, 2 * B - H - 1,
                  2 * B - H, 2 * B - H + 1, 3 * B, 9 * B + 5):
            for a in (0, 1):
                yield "stream", dict(C=C, chunks=[n], plan=[1], ea=a, da=a,
                                     read=1, seed=n)
                yield "stream", dict(C=C, chunks=[n], plan=[99], ea=a,
                                     da=1 - a, read=0, seed=n)
                yield "stream", dict(C=C, chunks=[n], plan=[], ea=a,
                                     da=1 - a, read=0, seed=n)
                yield "stream", dict(C=C, chunks=[1] * min(n, 300),
                                     plan=[1, 2], ea=a, da=a, read=2, seed=n)
        for n in (B - H, B - H - 1, 2 * B - H, B):
            # full block pieces one after another, read between
            for k in (1, 2, 3, 7, 40):
                yield "stream", dict(C=C, chunks=[n] + [B] * k, plan=[1],
                                     ea=k % 2, da=0, read=1, seed=k)
        yield "stream", dict(C=C, chunks=[40 * B, 0, 5 * B + 1, 0],
                             plan=[7, 1], ea=0, da=1, read=2, seed=3)
        for n, fill in enumerate((0, 10, 32, 255)):
            yield "stream", dict(C=C, chunks=[3, B, 2 * B - H - 3, 7], ea=n % 2,
                                 da=n // 2, read=1, seed=n, plan=[1, 2],
                                 fill=fill)
        for a in (0, 1):
            yield "together", dict(C=C, n=9, seed=a, a=a)
            yield "together", dict(C=C, n=30, seed=a, a=a)
        yield "stream", dict(C=C, chunks=[], plan=[1], ea=0, da=1, read=2,
                             seed=3)
        yield "stream", dict(C=C, chunks=[65536, 65536 + 1], plan=[1, 300],
                             ea=0, da=1, read=1, seed=3)
        for a in (0, 1):
            yield "stream", dict(C=C, chunks=[5000 * B, 3], plan=[], ea=a,
                                 da=a, read=0, seed=3)
        yield "stream", dict(C=C, chunks=[2 * B] * 1200, plan=[1100], ea=0,
                             da=1, read=2, seed=3)
    r = env.rng
    for k in range(300 if env.tier == "quick" else 4000):
        C = CS[k % 2]
        B = 256 if C[0] == "C" else 32
        yield "stream", dict(
            C=C, chunks=cuts(r, r.randrange(0, 20 * B), 3 * B),
            plan=[r.randrange(1, 6) for _ in range(r.randrange(0, 5))],
            ea=r.randrange(2), da=r.randrange(2), read=r.randrange(3),
            seed=r.randrange(10 ** 6))


def together(env, C, i, r):
    """pieces buffered by concurrent tasks are taken one after another"""
    cipher = C(env.blob(64, 1))
    pieces = [r.randbytes(r.choice([1, 5, 31, 32, 33, 256, 600]))
              for _ in range(i["n"])]

    async def go():
        enc = await cipher.astream_encrypt(aad=b"x")
        tasks = [asyncio.ensure_future(enc.abuffer(p)) for p in pieces]
        packets = []
        if i["a"]:
            await asyncio.sleep(0)
            packets += [x async for x in enc]
        await asyncio.gather(*tasks)
        packets += [x async for x in enc]
        packets += [x async for x in enc.afinalize()]
        dec = await cipher.astream_decrypt(salt=enc.salt, iv=enc.iv, aad=b"x")
        groups, data = [], [b"".join(p) for p in packets]
        while data:
            k = r.randrange(1, 5)
            groups.append(b"".join(data[:k]))
            del data[:k]
        await asyncio.gather(*[dec.abuffer(g) for g in groups])
        out = [x async for x in dec]
        out += [x async for x in dec.afinalize()]
        await dec.shmac.atest_shmac(enc.shmac.result)
        return b"".join(out)
    if env.run(go()) != b"".join(pieces):
        return "concurrently buffered pieces were mixed up"


def check(env, case, i):
    import random
    C = getattr(env.aiootp, i["C"])
    cfg = C._config
    r = random.Random(i["seed"])
    if case == "together":
        return together(env, C, i, r)
    kw = dict(salt=env.blob(cfg.SALT_BYTES, 3), aad=env.blob(9, 4))
    cipher = C(env.blob(64, 1))
    total = sum(i["chunks"])
    msg = bytes([i["fill"]]) * total if "fill" in i else env.blob(total, 8)
    ea, da = i["ea"], i["da"]
    enc = env.call(cipher, "stream_encrypt", is_async=ea, **kw)
    packets = []

    def read(limit=None):
        k, it = 0, env.iterate(enc, ea)
        while limit is None or k < limit:
            try:
                packets.append(env.step(it, ea))
            except (StopIteration, StopAsyncIteration):
                return
            k += 1
    pos = 0
    for n in i["chunks"]:
        back = env.call(enc, "buffer", msg[pos:pos + n], is_async=ea)
        if back is not enc:
            return "buffer does not return the stream"
        pos += n
        # read=0: only at the end; 1: all after each piece; 2: some
        if i["read"] == 1:
            read()
        elif i["read"] == 2 and r.random() < .6:
            read(r.randrange(0, 4))
    tail, err = env.collect(env.call(enc, "finalize") if not ea else
                            enc.afinalize(), ea)
    if err:
        return f"finalize of encryption failed: {err!r}"
    packets += tail
    for p in packets:
        if len(p[0]) != cfg.BLOCK_ID_BYTES or len(p[1]) != cfg.BLOCKSIZE:
            return "packet of a wrong size"
    want = -(-(cfg.INNER_HEADER_BYTES + total + 1) // cfg.BLOCKSIZE)
    if len(packets) != want:
        return f"{total} bytes gave {len(packets)} packets instead of {want}"
    data = [b"".join(p) for p in packets]
    dec = env.call(cipher, "stream_decrypt", is_async=da, iv=enc.iv, **kw)
    out = []

    def dread(limit=None):
        k, it = 0, env.iterate(dec, da)
        while limit is None or k < limit:
            try:
                out.append(env.step(it, da))
            except (StopIteration, StopAsyncIteration):
                return
            k += 1
    groups, j = [], 0
    plan = i["plan"] or [len(data)]
    while j < len(data):
        g = plan[len(groups) % len(plan)]
        groups.append(b"".join(data[j:j + g]))
        j += g
    for g in groups:
        if env.call(dec, "buffer", g, is_async=da) is not dec:
            return "buffer does not return the stream"
        if i["read"] == 1:
            dread()
        elif i["read"] == 2 and r.random() < .6:
            dread(r.randrange(0, 4))
        got = b"".join(out)
        if not msg.startswith(got):
            return "released bytes are not a prefix of the message"
    tail, err = env.collect(dec.afinalize() if da else dec.finalize(), da)
    if err:
        return f"finalize of decryption failed: {err!r}"
    out += tail
    if b"".join(out) != msg:
        return "the released bytes differ from the message"
    try:
        env.call(dec.shmac, "test_shmac", enc.shmac.result, is_async=da)
    except Exception as e:
        return f"genuine stream fails its tag test: {e!r}"
    if bytes(dec.shmac.result) != bytes(enc.shmac.result):
        return "tags differ"
