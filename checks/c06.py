"""bounded stand-in for P06: damaged packets in real streams"""

CS = ("Chunky2048", "Slick256")
HOW = ("flip", "swap", "repeat", "skip", "foreign", "zero", "idonly",
       "blockonly", "truncate", "extend", "old")


def cases(env):
    for C in CS:
        for a in (0, 1):
            for how in HOW:
                for at in (0, 1, 2, 5):
                    yield "damage", dict(C=C, a=a, how=how, at=at, group=1,
                                         tries=1 + at, seed=at)
                    yield "damage", dict(C=C, a=a, how=how, at=at, group=3,
                                         tries=1, seed=at)
            for what in ("key", "salt", "aad", "iv", "none"):
                yield "session", dict(C=C, a=a, what=what)
            for what in ("drop1", "drop2", "flip", "prefix", "empty",
                         "other"):
                yield "tag", dict(C=C, a=a, what=what)
            yield "ids", dict(C=C, a=a)
    r = env.rng
    for k in range(150 if env.tier == "quick" else 2000):
        yield "damage", dict(C=CS[k % 2], a=r.randrange(2),
                             how=r.choice(HOW), at=r.randrange(0, 9),
                             group=r.randrange(1, 5), tries=r.randrange(1, 4),
                             seed=r.randrange(10 ** 6))


def make(env, C, n, tag, **over):
    cfg = C._config
    kw = dict(salt=env.blob(cfg.SALT_BYTES, 3), aad=env.blob(9, 4))
    kw.update(over)
    cipher = C(env.blob(64, 1))
    enc = cipher.stream_encrypt(**kw)
    msg = env.blob(n, tag)
    packets = [b"".join(p) for p in enc.buffer(msg)]
    packets += [b"".join(p) for p in enc.finalize()]
    return cipher, enc, kw, msg, packets


def drain(env, dec, a, out):
    items, err = env.collect(dec, a)
    out += items
    return err


def damage(r, cfg, packets, at, how, foreign):
    """a wrong packet in place of packets[at], or None"""
    p = packets[at]
    I = cfg.BLOCK_ID_BYTES
    if how == "flip":
        k = r.randrange(len(p) * 8)
        b = bytearray(p)
        b[k // 8] ^= 1 << k % 8
        return bytes(b)
    if how == "swap":
        return packets[at + 1] if at + 1 < len(packets) else None
    if how == "skip":
        return packets[at + 2] if at + 2 < len(packets) else None
    if how in ("repeat", "old"):
        k = at - 1 if how == "repeat" else 0
        return packets[k] if 0 <= k < at else None
    if how == "foreign":
        return foreign[at]
    if how == "zero":
        return bytes(len(p))
    if how == "idonly":
        return p[:I - 1] + bytes([p[I - 1] ^ 128]) + p[I:]
    if how == "blockonly":
        return p[:-1] + bytes([p[-1] ^ 1])
    if how == "truncate":
        return p[:r.choice((1, I, len(p) - 1))]
    return p + p[:r.choice((1, I, len(p) - 1))]


def check(env, case, i):
    import random
    C = getattr(env.aiootp, i["C"])
    cfg = C._config
    a = i["a"]
    B, I = cfg.BLOCKSIZE, cfg.BLOCK_ID_BYTES
    if case == "damage":
        r = random.Random(i["seed"])
        cipher, enc, kw, msg, packets = make(env, C, 9 * B + 3, 8)
        foreign = make(env, C, 9 * B + 3, 8)[-1]
        dec = env.call(cipher, "stream_decrypt", is_async=a, iv=enc.iv, **kw)
        out = []
        at, group = i["at"], i["group"]
        pos = 0
        while pos < len(packets):
            end = min(len(packets), pos + group)
            if pos <= at < end:
                for _ in range(i["tries"]):
                    bad = damage(r, cfg, packets, at, i["how"], foreign)
                    if bad is None:
                        return
                    whole = len(bad) == cfg.PACKETSIZE
                    feed = b"".join(packets[pos:at]) + bad + b"".join(
                        packets[at + 1:end])
                    try:
                        env.call(dec, "buffer", feed, is_async=a)
                    except dec.InvalidBlockID if whole else Exception:
                        pass
                    else:
                        return f"{i['how']} at packet {at} accepted"
                    if whole:
                        pos = at
                    k = len(b"".join(out))
                    if pos or out:
                        e = drain(env, dec, a, out)
                        if e:
                            return f"reading after refusal failed: {e!r}"
                    got = b"".join(out)
                    if not msg.startswith(got):
                        return "wrong plaintext was released"
                    if len(got) > max(0, pos * B - cfg.INNER_HEADER_BYTES):
                        return "plaintext of a refused packet was released"
                end = min(len(packets), pos + group)
            try:
                env.call(dec, "buffer", b"".join(packets[pos:end]),
                         is_async=a)
            except Exception as e:
                return f"genuine continuation refused: {e!r}"
            e = drain(env, dec, a, out)
            if e:
                return f"reading failed: {e!r}"
            pos = end
        tail, err = env.collect(dec.afinalize() if a else dec.finalize(), a)
        if err:
            return f"finalize failed: {err!r}"
        if b"".join(out + tail) != msg:
            return "message differs after refused packets"
        if dec.shmac.result != enc.shmac.result:
            return "tag differs after refused packets"
    elif case == "session":
        cipher, enc, kw, msg, packets = make(env, C, 2 * B, 8)
        what = i["what"]
        iv = enc.iv
        if what == "key":
            cipher = C(env.blob(64, 77))
        elif what == "iv":
            iv = bytes([iv[0] ^ 1]) + iv[1:]
        elif what != "none":
            v = kw[what]
            kw = dict(kw, **{what: v[:-1] + bytes([v[-1] ^ 1])})
        dec = env.call(cipher, "stream_decrypt", is_async=a, iv=iv, **kw)
        try:
            env.call(dec, "buffer", packets[0], is_async=a)
        except dec.InvalidBlockID:
            if what == "none":
                return "genuine packet refused"
        else:
            if what != "none":
                return f"packet accepted with a different {what}"
    elif case == "tag":
        cipher, enc, kw, msg, packets = make(env, C, 5 * B, 8)
        tag = enc.shmac.result
        what = i["what"]
        n = {"drop1": 1, "drop2": 2}.get(what, 0)
        dec = env.call(cipher, "stream_decrypt", is_async=a, iv=enc.iv, **kw)
        env.call(dec, "buffer", b"".join(packets[:len(packets) - n]),
                 is_async=a)
        try:
            env.collect(dec.afinalize() if a else dec.finalize(), a)
        except Exception:
            pass
        if what == "flip":
            tag = tag[:-1] + bytes([tag[-1] ^ 1])
        elif what == "prefix":
            tag = tag[:-1]
        elif what == "empty":
            tag = b""
        elif what == "other":
            tag = make(env, C, 5 * B, 8)[1].shmac.result
        try:
            env.call(dec.shmac, "test_shmac", tag, is_async=a)
        except dec.shmac.InvalidSHMAC:
            pass
        else:
            return f"altered stream ({what}) passes the tag test"
    elif case == "ids":
        cipher, enc, kw, msg, packets = make(env, C, 5 * B, 8)
        dec = env.call(cipher, "stream_decrypt", is_async=a, iv=enc.iv, **kw)
        sh = dec.shmac
        for k, p in enumerate(packets[:3]):
            blk = p[I:]
            seen = {}
            for size in range(cfg.MIN_BLOCK_ID_BYTES,
                              cfg.MAX_BLOCK_ID_BYTES + 1):
                for aad in (b"", b"\x00", b"a", b"a" * 300) + (
                    (b"a" * 5000, b"a" * 4999 + b"b", b"a" * 70000,
                     b"a" * 69999 + b"b", bytes(70000), b"Ab  c\n",
                     *env.alike(b"Ab  c\n"))
                    if size == cfg.MIN_BLOCK_ID_BYTES and not k else ()
                ):
                    x = env.call(sh, "next_block_id", blk, is_async=a,
                                 size=size, aad=aad)
                    if len(x) != size:
                        return "id of a wrong size"
                    head = x[:cfg.MIN_BLOCK_ID_BYTES]
                    if head in seen:
                        return (f"ids for size/aad {size}/{aad[:9]} and "
                                f"{seen[head]} share their start")
                    seen[head] = (size, aad[:9])
                    for bid, b2, d2, ok in (
                        (x, blk, aad, True), (x[:-1], blk, aad, False),
                        (x, blk[:-1], aad, False), (x, blk, aad + b"a", 0),
                        (x, blk + b"\x00", aad, False),
                        (x[:-1] + bytes([x[-1] ^ 1]), blk, aad, False),
                        (x, blk[1:], aad + blk[:1], False),
                    ):
                        try:
                            env.call(sh, "test_next_block_id", bid, b2,
                                     aad=d2, is_async=a)
                        except Exception as e:
                            if ok:
                                return f"exact id refused: {e!r}"
                        else:
                            if not ok:
                                return "inexact id accepted"
            env.call(dec, "buffer", p, is_async=a)
