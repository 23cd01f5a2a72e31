"""
P03  expiry: raised exactly when age > ttl, before plaintext is released

message    bytes, JSON and token decryption, any two instants and any limit:
           expired => the error with the exact excess; fresh => the plaintext
stream     reading or finalising a decryption stream that has released
           nothing, with any number of queued blocks of any content, first or
           after a refused or too early read
"""
from vf import cipher_contracts as cc
from vf import core, models, perm, streams
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 3
BUDGET = 60
ASSUMPTIONS = [
    "streams: block level behaviour of the ciphers is proved in P01, block "
    "IDs in P06, what buffering does to the queue in P05",
]
OPS = {"bytes": ("bytes_encrypt", "bytes_decrypt"),
       "json": ("json_encrypt", "json_decrypt"),
       "token": ("make_token", "read_token")}


def expected(c, y, now, then, ttl, data, what, TE):
    """the outcome y of a read is exactly what the ages call for"""
    if ttl is not None and now - then > ttl:
        c.prove(y.raised(TE), f"{what}: expired => expiry error",
                info=repr(y.exc or y.value)[:200])
        if y.raised(TE):
            c.prove(y.exc.expired_by == now - then - ttl,
                    f"{what}: error carries the excess")
            c.prove(y.exc.units == "seconds", f"{what}: unit")
        c.cover("expired")
        return False
    if not y.ok:
        c.fail(f"{what}: not expired => accepted", info=repr(y.exc)[:200])
        return False
    c.cover("fresh")
    return True


def message(C, a, kind, limited, TE):
    def fn(c):
        perm.install(c)
        cc.install(c)
        then = set_clock_seconds(c, C._config.EPOCH_NS, "then")
        key = c.bytes("key", 64)
        aad = c.bytes("aad", 5)
        enc, dec = OPS[kind]
        data = models.OpaqueJSON("value") if kind == "json" else (
            c.bytes("data"))
        x = attempt(getattr(C(key), "a" * a + enc), data, aad=aad)
        if not x.ok:
            c.fail(f"{enc} returns", info=repr(x.exc)[:200])
            return
        now = set_clock_seconds(c, C._config.EPOCH_NS, "now")
        # any limit, also negative and larger than every age
        ttl = c.int("ttl", -(1 << 40), 1 << 40) if limited else None
        y = attempt(getattr(C(key), "a" * a + dec), x.value, aad=aad,
                    ttl=ttl)
        if expected(c, y, now, then, ttl, data, dec, TE):
            if kind == "json":
                c.prove(y.value is data, f"{dec} returns the value")
            else:
                c.prove_bytes_eq(y.value, data, f"{dec} returns the data")
    return fn


def stream(C, a, limited, TE, start, how):
    """
    any decipher stream that has released nothing: no packet yet, or any
    number of deciphered blocks of any content.  A refused read (too early or
    expired) leaves it in that same state, so what is proved of the next read
    holds after any number of refused ones; buffering only adds blocks (P05).
    """
    def fn(c):
        perm.install(c)
        g = streams.install(c, C)
        cfg = C._config
        B, H = cfg.BLOCKSIZE, cfg.INNER_HEADER_BYTES
        now = set_clock_seconds(c, cfg.EPOCH_NS, "now")
        ttl = c.int("ttl", -(1 << 40), 1 << 40) if limited else None
        kw = dict(salt=c.bytes("salt", cfg.SALT_BYTES), aad=c.bytes(
            "aad", 5), iv=c.bytes("iv", cfg.IV_BYTES), ttl=ttl)
        ci = C(c.bytes("key", 64))
        s = models.run(ci.astream_decrypt(**kw)) if a else (
            ci.stream_decrypt(**kw))
        q = s._result_queue
        if type(q).__name__ != "SymDeque":
            raise core.Unsupported("no queue of results")

        def control():
            return {n: getattr(s, n) for n in s.__slots__
                    if type(getattr(s, n)) in (bool, int, type(None))}

        def step(how):
            if how == "finalize":
                return streams.Step(s.afinalize() if a else s.finalize(), a)
            return streams.Step(s, a)
        changed = False
        if start == "no packet":
            state = control()
            ok, v = step("iter").next()
            c.prove(not ok, "a read before any packet releases nothing")
            changed |= control() != state or bool(q)
        k = c.int("queued", 1)
        blocks = c.bytes("blocks", core.mkint(k.e * B))
        q.put(blocks, k)
        then = core.int_from_bytes(blocks[cfg.TIMESTAMP_SLICE], "big")
        for rnd in ("first", "second"):
            state = control()
            ok, v = step(how if rnd == "first" else "iter").next()
            r = Outcome(v, None if ok or v is None else v)
            c.prove(not ok or r.exc is None, f"{rnd}: error or item")
            what = f"{rnd} {how if rnd == 'first' else 'iter'}"
            if expected(c, r, now, then, ttl, None, what, TE):
                if ok:
                    n = L(v)
                    c.prove(n <= B, f"{what}: at most a block")
                    c.prove_bytes_eq(v, blocks[H:H + n],
                                     f"{what}: released in order")
                break
            if not r.raised(TE):
                break
            c.prove_bytes_eq(q.content(), blocks, f"{what}: nothing lost")
            changed |= control() != state
            now = set_clock_seconds(c, cfg.EPOCH_NS, "later")
        if changed:
            raise core.Unsupported("a refused read changes the stream")
    return fn


def proofs(pkg):
    TE = pkg.asynchs.Clock.TimestampExpired
    for C in (pkg.Chunky2048, pkg.Slick256):
        n = C.__name__
        for a in (0, 1):
            for kind in OPS:
                for lim in (1, 0):
                    yield Proof(
                        f"{n}.{'a' * a}{OPS[kind][1]}"
                        f"[{'ttl' if lim else 'no ttl'}]",
                        message(C, a, kind, lim, TE),
                        functions=["ciphers/cipher_interface.py",
                                   "ciphers/padding.py",
                                   "asynchs/clocks.py"],
                        min_obligations=2)
            for lim in (1, 0):
                for start in ("no packet", "blocks"):
                    for how in ("iter", "finalize"):
                        yield Proof(
                            f"{n}.{'a' * a}stream.{how}[{start}, "
                            f"{'ttl' if lim else 'no ttl'}]",
                            stream(C, a, lim, TE, start, how),
                            functions=["ciphers/decipher_streams.py",
                                       "ciphers/padding.py",
                                       "asynchs/clocks.py"],
                            min_obligations=2)
