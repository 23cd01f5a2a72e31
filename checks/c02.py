"""bounded stand-in for P02: every byte of short ciphertexts, and reshapes"""
import base64


def cases(env):
    for proof, name, m in env.models():
        for C in ("Chunky2048", "Slick256"):
            for n in (0, 40, 600):
                for a in (0, 1):
                    yield "flips", dict(C=C, n=n, a=a, stride=1)
            yield "params", dict(C=C, n=33, a=0, aad=len(m.get(
                "1.aad", m.get("aad", b""))) % 5000)
    for C in ("Chunky2048", "Slick256"):
        for a in (0, 1):
            yield "flips", dict(C=C, n=3, a=a, stride=1)
            yield "flips", dict(C=C, n=300 if C[0] == "S" else 1100, a=a,
                                stride=3)
            yield "flips", dict(C=C, n=100 if C[0] == "S" else 700, a=a,
                                stride=3)
            yield "tags", dict(C=C, n=5, a=a)
            yield "shape", dict(C=C, n=2000, a=a)
            yield "shape", dict(C=C, n=500, a=a, reuse=0)
            yield "params", dict(C=C, n=33, a=a, aad=5, reuse=0)
            yield "token", dict(C=C, n=20, a=a)
            yield "alike", dict(C=C, n=20, a=a)
            for aad, key in ((70_000, 70), (9, 70_000), (1_200_000, 70),
                             (9, 1_200_000)):
                yield "long", dict(C=C, n=20, a=a, aad=aad, key=key)
            yield "json", dict(C=C, n=20, a=a)
            for aad in (0, 1, 8, 64, 167, 168, 169, 300, 5000):
                yield "params", dict(C=C, n=33, a=a, aad=aad)
    yield "related-long-keys", dict(C="Slick256", n=6, a=0)
    yield "related-long-keys[Chunky2048]", dict(C="Chunky2048", n=6, a=0)
    r = env.rng
    for k in range(40 if env.tier == "quick" else 600):
        yield "flips", dict(C=("Chunky2048", "Slick256")[k % 2],
                            n=r.randrange(0, 3000), a=r.randrange(2),
                            stride=r.randrange(40, 90), off=r.randrange(40),
                            bit=r.randrange(8))


def setup(env, i, data=None):
    C = getattr(env.aiootp, i["C"])
    key = env.blob(i.get("key", 70), 1)
    aad = env.blob(i.get("aad", 9), 2)
    data = env.blob(i["n"], 3) if data is None else data
    ct = C(key).bytes_encrypt(data, aad=aad)
    return C, key, aad, data, ct


def dec(env, C, key, ct, aad, a, name="bytes_decrypt"):
    # one long-lived cipher object per key on every other case
    live = env.__dict__.setdefault("ciphers", {})
    c = live.get((C, key)) if env.reuse else None
    if c is None:
        c = live[C, key] = C(key)
    if a:
        return env.run(getattr(c, "a" + name)(ct, aad=aad))
    return getattr(c, name)(ct, aad=aad)


def refused(env, C, key, ct, aad, a, what, name="bytes_decrypt"):
    try:
        r = dec(env, C, key, ct, aad, a, name)
    except Exception:
        return None
    return f"{what} accepted by {'a' * a}{name}: {str(r)[:60]}"


def related(env, i):
    """
    a longer key that spells out the encoding of the shorter key and the
    start of the associated data that was used with it
    """
    C = getattr(env.aiootp, i["C"])
    from aiootp.generics.canon import encode_key, canonical_pack
    k = next(iter(C._config.KDF_CONFIGS.values())) if hasattr(
        C._config.KDF_CONFIGS, "values") else None
    B, pad = (k.blocksize, k.pad) if k is not None else (168, b"\xac")
    salt, iv = b"S" * C._config.SALT_BYTES, b"I" * C._config.IV_BYTES
    k1, aad2 = env.blob(64, 1), b"other context"
    tail = len(iv).to_bytes(4, "big") + iv

    def pack(aad):
        return canonical_pack(salt, aad, iv, int_bytes=4)
    e1 = encode_key(k1, B, pad=pad)
    for n in range(1, 3000):
        k2 = e1 + pack(bytes(n))[:-len(tail) - n]
        aad1 = (encode_key(k2, B, pad=pad)[len(k2):]
                + pack(aad2)[:-len(tail)])
        if len(aad1) == n:
            break
    else:
        return
    data = env.blob(i["n"], 3)
    ct = C(k1).bytes_encrypt(data, salt=salt, aad=aad1)
    return refused(env, C, k2, ct, aad2, i["a"],
                   f"different key ({len(k2)} bytes) and associated data")


def check(env, case, i):
    if case.startswith("related-long-keys"):
        env.reuse = 0
        return related(env, i)
    env.ciphers = {}
    env.reuse = i.get("reuse", 1)
    C, key, aad, data, ct = setup(env, i)
    a = i["a"]
    cfg = C._config
    if dec(env, C, key, ct, aad, a) != data:
        return "genuine ciphertext not decrypted"
    if case == "flips":
        for p in range(i.get("off", 0), len(ct), i["stride"]):
            for mask in ((1, 128) if "bit" not in i else (1 << i["bit"],)):
                bad = ct[:p] + bytes([ct[p] ^ mask]) + ct[p + 1:]
                m = refused(env, C, key, bad, aad, a,
                            f"byte {p} of {len(ct)} changed by {mask:#x}")
                if m:
                    return m
    elif case == "shape":
        B, H = cfg.BLOCKSIZE, cfg.HEADER_BYTES
        blocks = [ct[H + k:H + k + B] for k in range(0, len(ct) - H, B)]
        h = ct[:H]
        n = len(blocks)
        todo = []
        for k in range(0, n, max(1, n // 12)):
            todo.append((f"block {k} removed",
                         blocks[:k] + blocks[k + 1:]))
            todo.append((f"block {k} repeated",
                         blocks[:k + 1] + blocks[k:]))
            if k + 1 < n:
                x = list(blocks)
                x[k], x[k + 1] = x[k + 1], x[k]
                todo.append((f"blocks {k},{k + 1} swapped", x))
        todo.append(("zero block appended", blocks + [bytes(B)]))
        todo.append(("block prepended", [bytes(B)] + blocks))
        for what, bl in todo:
            m = refused(env, C, key, h + b"".join(bl), aad, a, what)
            if m:
                return m
        for cut in (1, 2, B - 1, B, B + 1, len(ct) - H, len(ct) - H - 1,
                    len(ct) - 1, len(ct)):
            m = refused(env, C, key, ct[:-cut], aad, a,
                        f"{cut} bytes cut off the end")
            m = m or refused(env, C, key, ct[cut:], aad, a,
                             f"{cut} bytes cut off the start")
            if m:
                return m
        for add in (1, B - 1, B):
            m = refused(env, C, key, ct + bytes(add), aad, a,
                        f"{add} bytes appended")
            if m:
                return m
        S, A = cfg.SHMAC_BYTES, cfg.SALT_BYTES
        I = cfg.IV_BYTES
        x = ct[:S] + ct[S + A:S + A + I] + ct[S:S + A] + ct[S + A + I:]
        m = refused(env, C, key, x, aad, a, "salt and IV swapped")
        o = C(key).bytes_encrypt(data, aad=aad)
        m = m or refused(env, C, key, o[:S] + ct[S:], aad, a,
                         "tag of another ciphertext")
        m = m or refused(env, C, key, ct[:H] + o[H:], aad, a,
                         "body of another ciphertext")
        m = m or refused(env, C, key, bytes(S) + ct[S:], aad, a, "zero tag")
        if m:
            return m
    elif case == "tags":
        S = cfg.SHMAC_BYTES
        for k in range(150):
            ct = C(key).bytes_encrypt(data, aad=aad)
            for p in (0, 1, S // 2, S - 1):
                for b in (ct[p] ^ 32, ct[p] ^ 1, ct[p] ^ 128, 0, 10, 32):
                    if b != ct[p]:
                        m = refused(env, C, key,
                                    ct[:p] + bytes([b]) + ct[p + 1:], aad, a,
                                    f"byte {p} of the tag {ct[p]} -> {b}")
                        if m:
                            return m
    elif case == "long":
        for x, what in ((key, "key"), (aad, "associated data")):
            n = len(x)
            for p in {n - 1, n // 2, n // 3, 4096, 65535, 65536}:
                if p >= n:
                    continue
                y = x[:p] + bytes([x[p] ^ 1]) + x[p + 1:]
                m = refused(env, C, y if what == "key" else key, ct,
                            aad if what == "key" else y, a,
                            f"byte {p} of {n} of the {what} changed")
                if m:
                    return m
    elif case == "alike":
        for x in (b"Ab  c\n", b" ", b"\0", b"aB="):
            k = x * 66
            for name in ("bytes", "token"):
                make, read = (("bytes_encrypt", "bytes_decrypt")
                              if name == "bytes" else
                              ("make_token", "read_token"))
                c = env.call(C(k), make, data, aad=x, is_async=a)
                if dec(env, C, k, c, x, a, read) != data:
                    return "not decrypted"
                for y in env.alike(x):
                    m = refused(env, C, k, c, y, a,
                                f"{y!r} instead of {x!r}", read)
                    if m:
                        return m
                for y in env.alike(k):
                    if len(y) < 64:
                        continue
                    m = refused(env, C, y, c, x, a,
                                f"{y!r:.90} instead of {k!r:.90}", read)
                    if m:
                        return m
    elif case == "params":
        n = len(aad)
        alts = [aad + b"\x00", b"\x00" + aad, aad + b"x"]
        if n:
            alts += [aad[:-1], aad[1:], b"",
                     bytes([aad[0] ^ 1]) + aad[1:],
                     aad[:-1] + bytes([aad[-1] ^ 128]),
                     aad[:n // 2] + bytes([aad[n // 2] ^ 4])
                     + aad[n // 2 + 1:]]
        for x in alts:
            if x != aad:
                m = refused(env, C, key, ct, x, a,
                            f"associated data {x[:8].hex()}..({len(x)})"
                            f" for {aad[:8].hex()}..({n})")
                if m:
                    return m
        for k in range(0, len(key), 3):
            x = key[:k] + bytes([key[k] ^ 1]) + key[k + 1:]
            m = refused(env, C, x, ct, aad, a, f"key byte {k} changed")
            if m:
                return m
        pad = cfg.KDF_CONFIGS[0].pad if False else b"\x00"
        for x in (key + b"\x00", b"\x00" + key, key[:-1], key[1:],
                  key + key):
            m = refused(env, C, x, ct, aad, a, "longer/shorter key")
            if m:
                return m
        for cfgk in cfg.KDF_CONFIGS.values() if hasattr(
            cfg.KDF_CONFIGS, "values"
        ) else []:
            m = refused(env, C, key + cfgk.pad, ct, aad, a,
                        "key extended by the pad byte")
            m = m or refused(env, C, key, ct, aad + cfgk.pad, a,
                             "aad extended by the pad byte")
            if m:
                return m
        other = (env.aiootp.Slick256 if i["C"][0] == "C"
                 else env.aiootp.Chunky2048)
        m = refused(env, other, key, ct, aad, a, "other cipher")
        if m:
            return m
    elif case == "token":
        tok = C(key).make_token(data, aad=aad)
        if dec(env, C, key, tok, aad, a, "read_token") != data:
            return "genuine token not read"
        raw = base64.urlsafe_b64decode(tok + b"==")
        for p in range(0, len(raw), 5):
            bad = raw[:p] + bytes([raw[p] ^ 2]) + raw[p + 1:]
            m = refused(env, C, key, base64.urlsafe_b64encode(bad).replace(
                b"=", b""), aad, a, f"token byte {p}", "read_token")
            if m:
                return m
        m = refused(env, C, key, tok, aad + b"\x00", a, "token aad",
                    "read_token")
        m = m or refused(env, C, key, tok[:-8], aad, a, "cut token",
                         "read_token")
        m = m or refused(env, C, key[::-1], tok, aad, a, "token key",
                         "read_token")
        if m:
            return m
    elif case == "json":
        ct = C(key).json_encrypt({"n": 1}, aad=aad)
        if dec(env, C, key, ct, aad, a, "json_decrypt") != {"n": 1}:
            return "genuine json not decrypted"
        for p in range(0, len(ct), 3):
            bad = ct[:p] + bytes([ct[p] ^ 64]) + ct[p + 1:]
            m = refused(env, C, key, bad, aad, a, f"json byte {p}",
                        "json_decrypt")
            if m:
                return m
        m = refused(env, C, key, ct, aad[:-1], a, "json aad",
                    "json_decrypt")
        if m:
            return m
