"""bounded stand-in for P08: every small size, types, entry points"""

CS = ("Chunky2048", "Slick256")
ENTRIES = ("encrypt", "json", "stream", "decrypt stream", "bundle")


class Sub(bytes):
    pass


def others(n):
    return [None, "", "x" * n, 0, 1, n, True, 1.5, [], [1] * n, (), {},
            {1: 2}, bytearray(n), memoryview(b"x" * n), object(),
            Sub(b"x" * n), type, {1}, range(n)]


def cases(env):
    for proof, name, m in env.models():
        for C in CS:
            for e in ENTRIES:
                yield "entry", dict(C=C, a=0, entry=e, arg="salt", n=len(
                    m.get("salt", b"")))
                yield "entry", dict(C=C, a=0, entry=e, arg="iv", n=len(
                    m.get("iv", b"")))
            if "key" in m:
                yield "key", dict(C=C, n=len(m["key"]))
    for C in CS:
        for n in list(range(0, 140)) + [255, 256, 257, 1024, 10 ** 5]:
            yield "key", dict(C=C, n=n)
        for a in (0, 1):
            for e in ENTRIES:
                for n in list(range(0, 40)) + [64, 255, 256, 264, 65544]:
                    for arg in ("salt", "iv"):
                        yield "entry", dict(C=C, a=a, entry=e, arg=arg, n=n)
                for n in (0, 1, 7, 8, 300, 70000):
                    yield "entry", dict(C=C, a=a, entry=e, arg="aad", n=n)
                for arg in ("salt", "iv", "aad"):
                    yield "types", dict(C=C, a=a, entry=e, arg=arg)
            yield "ids", dict(C=C, a=a)
        yield "key types", dict(C=C)


def use(env, C, a, entry, kw):
    c = C(env.blob(64, 1))
    kw = dict(kw)
    if entry in ("encrypt", "json", "stream"):
        kw.pop("iv")
    if entry == "encrypt":
        return env.call(c, "bytes_encrypt", b"m", is_async=a, **kw)
    if entry == "json":
        return env.call(c, "json_encrypt", 1, is_async=a, **kw)
    if entry == "stream":
        return env.call(c, "stream_encrypt", is_async=a, **kw)
    if entry == "decrypt stream":
        return env.call(c, "stream_decrypt", is_async=a, **kw)
    return c._KeyAADBundle(c._kdfs, **kw)


def check(env, case, i):
    C = getattr(env.aiootp, i["C"])
    cfg = C._config
    if case == "key":
        n = i["n"]
        for fill in (b"\x00", b"\xff", b"k"):
            try:
                C(fill * n)
                ok = True
            except Exception:
                ok = False
            if ok != (n >= 64):
                return f"key of {n} bytes: accepted={ok}"
        return
    if case == "key types":
        for x in others(64) + others(100):
            try:
                C(x)
            except Exception:
                continue
            return f"key of type {type(x).__name__} accepted"
        return
    a = i["a"]
    good = dict(salt=env.blob(cfg.SALT_BYTES, 2), aad=b"aad",
                iv=env.blob(cfg.IV_BYTES, 3))
    if case == "entry":
        n, arg = i["n"], i["arg"]
        if arg == "iv" and i["entry"] in ("encrypt", "json", "stream"):
            return
        size = {"salt": cfg.SALT_BYTES, "iv": cfg.IV_BYTES}.get(arg)
        if arg == "salt" and n == 0:
            return
        try:
            use(env, C, a, i["entry"], dict(good, **{arg: env.blob(n, 5)}))
            ok = True
        except Exception as e:
            ok = False
        if ok != (size is None or n == size):
            return f"{arg} of {n} bytes: accepted={ok}"
    elif case == "types":
        arg = i["arg"]
        if arg == "iv" and i["entry"] in ("encrypt", "json", "stream"):
            return
        for x in others(cfg.SALT_BYTES) + others(cfg.IV_BYTES) + others(3):
            if arg == "salt" and not x or arg == "iv" and x is None:
                continue
            try:
                use(env, C, a, i["entry"], dict(good, **{arg: x}))
            except Exception:
                continue
            return f"{arg} of type {type(x).__name__} accepted"
    elif case == "ids":
        c = C(env.blob(64, 1))
        s = env.call(c, "stream_decrypt", is_async=a, **good)
        sh = s.shmac
        lo, hi = cfg.MIN_BLOCK_ID_BYTES, cfg.MAX_BLOCK_ID_BYTES
        if not 16 <= lo <= cfg.BLOCK_ID_BYTES <= hi:
            return "configured bounds are not ordered"
        for n in [*range(1, 70), 255, 256, 280, 300, *range(-70, 0)]:
            try:
                x = env.call(sh, "next_block_id", b"b", size=n, is_async=a)
                ok = True
                if len(x) != n:
                    return f"id of {len(x)} bytes for size {n}"
            except Exception:
                ok = False
            if ok != (lo <= n <= hi):
                return f"id of {n} bytes: made={ok}"
            full = env.call(sh, "next_block_id", b"b", size=hi, is_async=a)
            if n < 0:
                continue
            for cand in (full[:n], bytes(n), full + full):
                if cand == full or ok and cand == x:
                    continue
                try:
                    env.call(sh, "test_next_block_id", cand, b"b",
                             is_async=a)
                except Exception:
                    continue
                return f"wrong id of {len(cand)} bytes accepted"
        x = env.call(sh, "next_block_id", b"b", is_async=a)
        for y in others(24) + [bytearray(x), Sub(x), memoryview(x), x.hex()]:
            try:
                env.call(sh, "test_next_block_id", y, b"b", is_async=a)
            except Exception:
                continue
            return f"id of type {type(y).__name__} accepted"
        t = sh.finalize()
        for y in others(24) + [bytearray(t), Sub(t), memoryview(t), t.hex(),
                               t[:-1], t + b"\x00", b""]:
            try:
                env.call(sh, "test_shmac", y, is_async=a)
            except Exception:
                continue
            return f"tag of type {type(y).__name__} accepted"
