"""
bounded stand-in for P23: real hashing with small settings
"""
import random

BASE = dict(passphrase=b"correct horse", salt=b"saltsalt", aad=b"data", mb=1,
            cpu=1, cores=1, tag_size=16)
CHANGES = [
    dict(passphrase=b"correct horsf"), dict(passphrase=b"correct horse\0"),
    dict(passphrase=b"correct horses", salt=b"altsalt"),
    dict(passphrase=b"\0correct horse"), dict(passphrase=b"Correct horse"),
    dict(salt=b"saltsalu"), dict(salt=b"saltsalt\0"), dict(salt=b"salt"),
    dict(salt=b"saltsaltdata", aad=b""), dict(salt=b"saltsaltd",
                                              aad=b"ata"),
    dict(aad=b""), dict(aad=b"dat"), dict(aad=b"data\0"), dict(aad=b"datb"),
    dict(mb=2), dict(cpu=2), dict(cpu=3), dict(cpu=4), dict(cores=2),
    dict(cores=3), dict(mb=2, cores=2), dict(mb=3, cores=2),
    dict(mb=4, cores=2), dict(tag_size=17), dict(tag_size=32),
    dict(tag_size=200), dict(aad=b"x" * 2000), dict(aad=b"y" + b"x" * 1999),
    dict(aad=b"x" * 1999 + b"y"), dict(passphrase=b"p" * 2000),
    dict(passphrase=b"p" * 1999 + b"q"), dict(passphrase=b"q" + b"p" * 1999),
    dict(passphrase=b"correct horse "), dict(aad=b" data"), dict(aad=b"data "),
    dict(passphrase=b"correct horse\n"), dict(passphrase=b"correcthorse"),
    dict(passphrase=b"correct  horse"), dict(passphrase=b"\tcorrect horse"),
    dict(passphrase=b" " * 13), dict(passphrase=b" " * 14),
    dict(salt=b"Saltsalt"), dict(salt=b"saltsal\n"), dict(salt=b" altsalt"),
    dict(aad=b"Data"), dict(aad=b"data\n"), dict(aad=b"\ndata"),
    dict(pepper=b"x"), dict(pepper=b"data", aad=b""),
]


def cases(env):
    yield "distinct", dict(a=0)
    yield "distinct", dict(a=1)
    for k in range(0, len(CHANGES), 3):
        yield "verify", dict(k=k, a=k // 3 % 2)
    for a in (0, 1):
        for part in range(4):
            yield "altered", dict(a=a, part=part)
        yield "moved", dict(a=a)
        yield "fresh", dict(a=a)
    n = 6 if env.tier == "quick" else 40
    for s in range(n):
        yield "random", dict(s=s)


def check(env, case, i):
    A = env.aiootp.asynchs
    old, A.Processes.pool = A.Processes.pool, A.Threads.pool
    try:
        return globals()["do_" + case](env, i)
    except AssertionError as e:
        return f"{case} {i}: {e}"
    finally:
        A.Processes.pool = old


def maker(env, v):
    P = env.aiootp.keygens.Passcrypt
    if v.get("pepper"):
        P = type("Peppered", (P,), dict(PEPPER=v["pepper"]))
    return P(mb=v["mb"], cpu=v["cpu"], cores=v["cores"],
             tag_size=v["tag_size"], salt_size=len(v["salt"]))


def new(env, v, a):
    p = maker(env, v)
    x = (p.anew if a else p.new)(v["passphrase"], v["salt"], aad=v["aad"])
    return env.run(x) if a else x


def do_distinct(env, i):
    seen = {}
    for ch in [{}] + CHANGES:
        v = {**BASE, **ch}
        tag = new(env, v, i["a"])
        assert type(tag) is bytes and len(tag) == v["tag_size"], (
            f"{ch}: {len(tag)} bytes")
        for k, (t, w) in seen.items():
            n = min(len(t), len(tag))
            assert t[:n] != tag[:n], f"{ch} and {w}: same hash"
        seen[repr(ch)] = tag, ch
        if len(seen) % 7 == 1:
            assert new(env, v, 1 - i["a"]) == tag, f"{ch}: sync, async differ"
            assert new(env, v, i["a"]) == tag, f"{ch}: differs when repeated"


LIM = dict(mb_allowed=range(1, 5), cpu_allowed=range(1, 6),
           cores_allowed=range(1, 5))


def hashed(env, v, a):
    p = maker(env, v)
    x = (p.ahash_passphrase if a else p.hash_passphrase)(
        v["passphrase"], aad=v["aad"])
    return env.run(x) if a else x


def verified(env, v, h, a, **k):
    """None, or the error"""
    P = type(maker(env, v))
    try:
        x = (P.averify if a else P.verify)(
            h, v["passphrase"], aad=v["aad"], **{**LIM, **k})
        x = env.run(x) if a else x
        assert x is None, f"verify returns {x!r}"
    except (ValueError, TypeError, ResourceWarning) as e:
        return e


def do_verify(env, i):
    for ch in [{}] + CHANGES[i["k"]:i["k"] + 3]:
        v = {**BASE, **ch}
        h = hashed(env, v, i["a"])
        for a in (0, 1):
            e = verified(env, v, h, a)
            assert e is None, f"{ch}: own hash refused: {e!r}"
        for other in CHANGES[::4]:
            if any(other.get(k, BASE.get(k)) != v.get(k)
                   for k in ("passphrase", "aad")) and not (
                    other.get("pepper") or v.get("pepper")):
                w = {**v, **{k: x for k, x in {**BASE, **other}.items()
                             if k in ("passphrase", "aad")}}
                if w == v:
                    continue
                assert verified(env, w, h, i["a"]) is not None, (
                    f"{ch}: verified with {other}")


def do_altered(env, i):
    v = {**BASE, "cores": 2, "mb": 2, "cpu": 2}
    h = hashed(env, v, i["a"])
    rnd = random.Random(f"{i}")
    at = range(len(h))
    n = len(h) // 4 + 1
    for k in at[i["part"] * n:(i["part"] + 1) * n]:
        for bit in {0, rnd.randrange(8)}:
            b = bytearray(h)
            b[k] ^= 1 << bit
            e = verified(env, v, bytes(b), i["a"])
            assert e is not None, f"byte {k} bit {bit} changed: verified"


def do_moved(env, i):
    v = {**BASE, "tag_size": 40}
    h = hashed(env, v, i["a"])
    for bad in (h[:-1], h[:-8], h[:-24], h + b"\0", h + h, h[:30], h[1:],
                h[:13] + bytes([h[13] + 1]) + h[14:],
                h[:13] + bytes([h[13] - 1]) + h[14:],
                h[:13] + bytes([h[13] + 4]) + h[14:], b"", h[:14]):
        e = verified(env, v, bad, i["a"])
        assert e is not None, f"{bad.hex()} verified instead of {h.hex()}"
    assert verified(env, v, h, i["a"]) is None, "hash refused"
    for n in (64, 65, 129, 300, 1000):
        v = {**BASE, "tag_size": n}
        h = hashed(env, v, i["a"])
        for k in (1, 2, n - 64, n // 2, n):
            if not 0 < k <= n:
                continue
            bad = bytearray(h)
            bad[-k] ^= 1
            assert verified(env, v, bytes(bad), i["a"]) is not None, (
                f"tag of {n} bytes, byte {n - k} changed: verified")
        for bad in (h[:-1], h + b"\0"):
            assert verified(env, v, bad, i["a"]) is not None, (
                f"tag of {n} bytes, cut or longer: verified")
        assert verified(env, v, h, i["a"]) is None, "hash refused"


def do_fresh(env, i):
    hs = [hashed(env, BASE, i["a"]) for _ in range(6)]
    assert len({h[14:22] for h in hs}) == 6, "salts repeat"
    assert len({h[22:] for h in hs}) == 6, "tags repeat"
    for n in (4, 5, 64, 255, 256):
        v = {**BASE, "salt": b"s" * n}
        h = hashed(env, v, i["a"])
        assert h[13] + 1 == n and len(h) == 14 + n + 16, f"salt of {n} bytes"
        assert verified(env, v, h, 1 - i["a"]) is None, f"salt of {n} bytes"


def do_random(env, i):
    rnd = random.Random(f"{i}")
    v = dict(passphrase=rnd.randbytes(rnd.choice([12, 13, 64, 167, 168, 400])),
             salt=rnd.randbytes(rnd.choice([4, 8, 168, 256])),
             aad=rnd.randbytes(rnd.choice([0, 1, 160, 168, 1000])),
             mb=rnd.choice([1, 2, 3]), cpu=rnd.choice([1, 2, 3, 5]),
             cores=rnd.choice([1, 2, 3, 4]),
             tag_size=rnd.choice([16, 31, 32, 168, 169, 500]))
    h = hashed(env, v, i["s"] % 2)
    assert verified(env, v, h, 1 - i["s"] % 2) is None, f"{v}: refused"
    for k in ("passphrase", "aad"):
        x = bytearray(v[k] or b"\0")
        x[rnd.randrange(len(x))] ^= 1 << rnd.randrange(8) if v[k] else 0
        w = {**v, k: bytes(x)}
        assert verified(env, w, h, i["s"] % 2) is not None, (
            f"other {k} verified: {v}")
