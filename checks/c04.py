"""bounded stand-in for P04"""


def cases(env):
    CS = ("Chunky2048", "Slick256")
    for proof, name, m in env.models():
        for C in CS:
            if "data" in m:
                yield "length", dict(C=C, lo=len(m["data"]), hi=len(
                    m["data"]) + 1, a=0)
            for k in ("ct.len", "data.len"):
                n = m.get(k, 1 << 60)
                if n < 3 * 10 ** 8:
                    B = getattr(env.aiootp, C)._config.BLOCKSIZE
                    n -= n % B
                    H = getattr(env.aiootp, C)._config.HEADER_BYTES
                    yield "split", dict(C=C, lo=n + B + H, hi=n + B + H + 1,
                                        a=0)
            if "ct" in m:
                yield "split", dict(C=C, lo=len(m["ct"]), hi=len(
                    m["ct"]) + 1, a=0)
    for C in CS:
        B = 256 if C[0] == "C" else 32
        for a in (0, 1):
            for lo in range(0, 3 * B, B // 2):
                yield "length", dict(C=C, lo=lo, hi=lo + B // 2 + 1, a=a)
            for lo in range(0, 5 * B + 64, B):
                yield "split", dict(C=C, lo=lo, hi=lo + B, a=a)
        for k in (7, 16, 31, 64, 257):
            yield "length", dict(C=C, lo=k * B - 24, hi=k * B + 3, a=k % 2)
            yield "split", dict(C=C, lo=k * B + 40, hi=k * B + 60, a=k % 2)
        yield "fields", dict(C=C, a=0)
        yield "fields", dict(C=C, a=1)
    r = env.rng
    for k in range(30 if env.tier == "quick" else 400):
        n = r.randrange(0, 40000)
        yield "length", dict(C=CS[k % 2], lo=n, hi=n + 2, a=r.randrange(2))


def check(env, case, i):
    C = getattr(env.aiootp, i["C"])
    cfg = C._config
    c = C(env.blob(64, 1))
    a = i["a"]
    S, A, I, B = cfg.SHMAC_BYTES, cfg.SALT_BYTES, cfg.IV_BYTES, cfg.BLOCKSIZE
    H = S + A + I
    inner = cfg.TIMESTAMP_BYTES + cfg.SIV_KEY_BYTES
    bad = C._Ciphertext.InvalidCiphertextSize
    if case == "length":
        for n in range(i["lo"], i["hi"]):
            for fill in (b"\x00", b"\xff"):
                want = H + B * -(-(inner + n + 1) // B)
                ct = env.call(c, "bytes_encrypt", fill * n, is_async=a)
                if len(ct) != want:
                    return (f"{n} byte message gives {len(ct)} bytes, "
                            f"smallest fit is {want}")
    elif case == "split":
        for n in range(i["lo"], i["hi"]):
            data = env.blob(n, 5)
            good = n > H and (n - H) % B == 0
            try:
                f = C._Ciphertext(data, config=cfg)
            except bad:
                if good:
                    return f"possible length {n} refused"
            else:
                if not good:
                    return f"impossible length {n} accepted"
                if (f.shmac, f.salt, f.iv, f.ciphertext) != (
                    data[:S], data[S:S + A], data[S + A:H], data[H:]
                ):
                    return f"fields of {n} bytes differ"
            try:
                r = env.call(c, "bytes_decrypt", data, is_async=a)
                return f"{n} random bytes decrypted to {r!r}"
            except bad:
                if good:
                    return f"possible length {n} refused as impossible"
            except Exception as e:
                if not good:
                    return f"impossible length {n}: {e!r}"
    else:
        for n in (0, 5, 100, 300):
            salt = env.blob(A, n)
            ct = env.call(c, "bytes_encrypt", bytes(n), salt=salt,
                          aad=b"x", is_async=a)
            if ct[S:S + A] != salt:
                return "salt field is not the salt given"
            f = C._Ciphertext(ct, config=cfg)
            if (f.shmac, f.salt, f.iv, f.ciphertext) != (
                ct[:S], salt, ct[S + A:H], ct[H:]
            ):
                return "fields differ"
            d = c.stream_decrypt(salt=f.salt, iv=f.iv, aad=b"x")
            out = b""
            for k in range(0, len(f.ciphertext), B):
                blk = f.ciphertext[k:k + B]
                d.buffer(d.shmac.next_block_id(blk) + blk)
            out = b"".join(d.finalize())
            d.shmac.test_shmac(f.shmac)
            if out != bytes(n):
                return "fields do not decrypt as a stream"
