"""
bounded stand-in for P25: real curve operations
"""
import itertools
import random


def cases(env):
    for n, ca, sa, s in itertools.product((2, 3), (0, 1), (0, 1), range(3)):
        yield "agree", dict(n=n, ca=ca, sa=sa, s=s)
        yield "substitute", dict(n=n, ca=ca, sa=sa, s=s)
    for kind, a in itertools.product("xe", (0, 1)):
        yield "keys", dict(kind=kind, a=a)
    for a in (0, 1):
        yield "sign", dict(a=a)
        yield "types", dict(a=a)
        yield "order", dict(a=a)


def check(env, case, i):
    try:
        return globals()["do_" + case](env, i)
    except AssertionError as e:
        return f"{case} {i}: {e}"


def X(env):
    return env.aiootp.keygens.X25519


def go(env, o, name, a, *x, **k):
    r = getattr(o, "a" + name if a else name)(*x, **k)
    return env.run(r) if a else r


def outputs(env, k):
    return [k.sha3_256(), k.sha3_512(b"x"), k.shake_128(size=40),
            k.shake_256(b"y", aad=b"z", size=33)]


def key(env, rnd, K=None):
    return (K or X(env))().import_secret_key(rnd.randbytes(32))


def do_agree(env, i):
    rnd = random.Random(f"{i}")
    seen = []
    for obj in (0, 1):
        ident, me = key(env, rnd), key(env, rnd)
        wrap = X(env).PublicKey.from_public_bytes if obj else bytes
        if i["n"] == 2:
            cl, sv = X(env).dh2_client(), ident.dh2_server()
            sent = [go(env, cl, "send", i["ca"], wrap(ident.public_bytes))]
        else:
            cl, sv = me.dh3_client(), ident.dh3_server()
            sent = [*go(env, cl, "send", i["ca"], wrap(ident.public_bytes))]
            assert sent[0] == me.public_bytes, "identity sent"
        theirs = go(env, sv, "receive", i["sa"], *map(wrap, sent))
        back = go(env, sv, "send", i["sa"])
        mine = go(env, cl, "receive", i["ca"], wrap(back))
        assert {type(x) for x in (*sent, back)} == {bytes}
        a, b = outputs(env, mine), outputs(env, theirs)
        assert a == b, "the two sides differ"
        seen += [a[0], sent[-1], back]
    assert len(set(seen)) == len(seen), "sessions repeat"


def do_substitute(env, i):
    """one party is given another key at one place"""
    rnd = random.Random(f"{i}")
    ident, me, other = (key(env, rnd) for _ in range(3))

    def bad(k):
        r = rnd.randrange(3)
        if r == 0:
            return other.public_bytes
        k = bytearray(k)
        k[31 if r == 1 else rnd.randrange(32)] ^= 0x80 if r == 1 else 1
        return bytes(k)             # bit 255 is ignored by the curve
    for place in ("server id", "client id", "client eph", "server eph"):
        if place == "client id" and i["n"] == 2:
            continue
        pub = ident.public_bytes
        pub = bad(pub) if place == "server id" else pub
        try:
            if i["n"] == 2:
                cl, sv = X(env).dh2_client(), ident.dh2_server()
                sent = [go(env, cl, "send", i["ca"], pub)]
            else:
                cl, sv = me.dh3_client(), ident.dh3_server()
                sent = [*go(env, cl, "send", i["ca"], pub)]
            if place == "client id":
                sent[0] = bad(sent[0])
            if place == "client eph":
                sent[-1] = bad(sent[-1])
            theirs = go(env, sv, "receive", i["sa"], *sent)
            back = go(env, sv, "send", i["sa"])
            back = bad(back) if place == "server eph" else back
            mine = go(env, cl, "receive", i["ca"], back)
        except ValueError:
            continue
        a, b = outputs(env, mine), outputs(env, theirs)
        assert not set(a) & set(b), f"{place} replaced: states agree"


def do_keys(env, i):
    K = X(env) if i["kind"] == "x" else env.aiootp.keygens.Ed25519
    rnd = random.Random(f"{i}")
    for n in range(12):
        raw = rnd.randbytes(32)
        k = K()
        assert go(env, k, "import_secret_key", i["a"], raw) is k
        assert k.secret_bytes == raw, "secret bytes"
        p = go(env, K(), "import_public_key", i["a"], k.public_bytes)
        assert p.public_bytes == k.public_bytes and not p.has_secret_key()
        q = go(env, K(), "import_secret_key", i["a"], k.secret_key)
        r = go(env, K(), "import_public_key", i["a"], k.public_key)
        assert q.secret_bytes == raw and q.public_bytes == k.public_bytes
        assert r.public_bytes == k.public_bytes
        for o in (k, p):
            for f in ("import_secret_key", "import_public_key", "generate"):
                args = () if f == "generate" else (rnd.randbytes(32),)
                before = o.public_bytes, o.has_secret_key()
                try:
                    go(env, o, f, i["a"], *args)
                    assert False, f"{f} over an existing key"
                except (AttributeError, PermissionError, TypeError,
                        ValueError):
                    pass
                assert before == (o.public_bytes, o.has_secret_key())
    ks = [go(env, K(), "generate", i["a"]) for _ in range(8)]
    assert len({k.secret_bytes for k in ks}) == 8, "generated keys repeat"
    if i["kind"] == "x":
        a, b = ks[:2]
        s = go(env, a, "exchange", i["a"], b.public_bytes)
        assert s == go(env, b, "exchange", 1 - i["a"], a.public_key)
        assert s == a.secret_key.exchange(b.public_key), "exchange"


def do_types(env, i):
    k = X(env)().generate()
    for bad in (b"", b"x" * 31, b"x" * 33, b"x" * 64, "x" * 32, None):
        try:
            go(env, k, "exchange", i["a"], bad)
        except (ValueError, TypeError, AttributeError):
            continue
        assert False, f"exchanged with {bad!r}"
    for K in (X(env), env.aiootp.keygens.Ed25519):
        for what in ("secret", "public"):
            for bad in (b"", b"x" * 31, b"x" * 33, "x" * 32, None, 7,
                        bytearray(32), [b"x" * 32]):
                k = K()
                try:
                    go(env, k, f"import_{what}_key", i["a"], bad)
                    assert False, f"{what} key {bad!r} imported"
                except (ValueError, TypeError):
                    pass
                assert not k.has_public_key() and not k.has_secret_key()
        # public where secret is expected, and the other curve's keys
        k = K().generate()
        for f, x in (("import_secret_key", k.public_key),
                     ("import_public_key", k.secret_key)):
            try:
                go(env, K(), f, i["a"], x)
                assert False, f"{f} accepts the other kind"
            except (ValueError, TypeError):
                pass


def do_sign(env, i):
    E = env.aiootp.keygens.Ed25519
    rnd = random.Random(f"{i}")
    a = i["a"]

    def refused(o, *x, **k):
        try:
            go(env, o, "verify", a, *x, **k)
        except E.InvalidSignature:
            return True
        return False
    texts = [rnd.randbytes(n) for n in (0, 1, 64, 1000)]
    for data in [*texts, b"Ab  c\n", b"\n", b" x ", b"\0", b"a\r\n\0"]:
        n = len(data)
        k, other = key(env, rnd, E), key(env, rnd, E)
        sig = go(env, k, "sign", a, data)
        assert sig == k.sign(data), "sync and async signatures differ"
        pub = E().import_public_key(k.public_bytes)
        for o, kw in ((k, {}), (pub, {}), (other, dict(
                public_key=k.public_bytes)), (E(), dict(
                public_key=k.public_key))):
            assert go(env, o, "verify", a, sig, data, **kw) is None
            assert refused(o, sig, data + b"\0", **kw), "data extended"
            for x in env.alike(data) if n < 64 else ():
                assert refused(o, sig, x, **kw), f"{x!r} for {data!r}"
        assert sig == k.secret_key.sign(data), "not the key's signature"
        for o, kw in ((k, {}), (pub, {})):
            for _ in range(8):
                s = bytearray(sig)
                s[rnd.randrange(64)] ^= 1 << rnd.randrange(8)
                assert refused(o, bytes(s), data, **kw), "changed signature"
            if data:
                d = bytearray(data)
                d[rnd.randrange(n)] ^= 1 << rnd.randrange(8)
                assert refused(o, sig, bytes(d), **kw), "changed data"
        assert refused(other, sig, data), "other key"
        assert refused(k, sig, data, public_key=other.public_bytes)
        assert refused(k, sig, data, public_key=other.public_key)
        assert refused(k, b"", data) and refused(k, sig[:-1], data)


def do_order(env, i):
    """a side used twice or out of order never ends up with another state"""
    rnd = random.Random(f"{i}")
    a = i["a"]
    ident, me = key(env, rnd), key(env, rnd)
    for n in (2, 3):
        cl = X(env).dh2_client() if n == 2 else me.dh3_client()
        sv = ident.dh2_server() if n == 2 else ident.dh3_server()
        for f, x in (("receive", (ident.public_bytes,)),):
            try:
                go(env, cl, f, a, *x)
                assert False, "received before sending"
            except AttributeError:
                pass
        try:
            go(env, sv, "send", a)
            assert False, "sent before receiving"
        except AttributeError:
            pass
        try:
            sent = go(env, cl, "send", a, ident.public_bytes)
            sent = [sent] if n == 2 else [*sent]
            theirs = go(env, sv, "receive", a, *sent)
            one, two = go(env, sv, "send", a), go(env, sv, "send", a)
            mine = go(env, cl, "receive", a, one)
        except (PermissionError, AttributeError):
            continue    # a side may refuse to go on after such a call
        assert one == two, "sending again gives the same key"
        assert outputs(env, mine) == outputs(env, theirs)
