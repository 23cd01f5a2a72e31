"""
P08  argument validation at every entry point, every size

key, encrypt, json, stream, bundle, decrypt stream
           byte strings of ANY size for key, salt, IV and associated data:
           accepted exactly at the documented sizes
block ids  any integer as the size of a block identifier
key types  non-bytes are refused (enumerated)
"""
from vf import cipher_contracts as cc
from vf import core, models, perm
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 30
ASSUMPTIONS = ["argument types other than bytes are enumerated, not symbolic"]


class Sub(bytes):
    pass


OTHER = [None, "", "x" * 64, 0, 1, 64, True, 1.5, [], [1] * 64, (), (1,) * 64,
         {}, {1: 2}, bytearray(64), bytearray(8), memoryview(b"x" * 64),
         object(), Sub(b"x" * 64), Sub(b"x" * 8), type, {1}, range(64)]


def key(C):
    def fn(c):
        perm.install(c)
        k = c.bytes("key")
        r = attempt(C, k)
        c.prove(core.mkbool(core._b(core.rope(k).n >= 64)) if r.ok else
                core.mkbool(core._b(core.rope(k).n < 64)),
                "accepted <=> at least 64 bytes", info=repr(r.exc))
        c.cover("ok" if r.ok else "refused")
    return fn


def key_types(C):
    def fn(c):
        for x in OTHER:
            r = attempt(C, x)
            c.prove(not r.ok, f"key of type {type(x).__name__} is refused")
    return fn


def used(C, c, a, entry, salt, aad, iv):
    """run one public entry point with these arguments"""
    ci = C(c.bytes("key", 64))
    p = "a" * a
    if entry == "encrypt":
        return attempt(getattr(ci, p + "bytes_encrypt"), c.bytes("data", 3),
                       salt=salt, aad=aad)
    if entry == "json":
        return attempt(getattr(ci, p + "json_encrypt"), [1], salt=salt,
                       aad=aad)
    if entry == "stream":
        return attempt(getattr(ci, p + "stream_encrypt"), salt=salt, aad=aad)
    if entry == "decrypt stream":
        return attempt(getattr(ci, p + "stream_decrypt"), salt=salt, aad=aad,
                       iv=iv)
    return attempt(ci._KeyAADBundle, ci._kdfs, salt=salt, aad=aad, iv=iv)


ENTRIES = ("encrypt", "json", "stream", "decrypt stream", "bundle")


def sizes(C, a, entry):
    def fn(c):
        perm.install(c)
        cc.install(c)
        cc.clock(c, C)
        cfg = C._config
        salt = c.bytes("salt", lo=1)
        aad = c.bytes("aad", 5)
        iv = c.bytes("iv")
        r = used(C, c, a, entry, salt, aad, iv)
        good = core._b(core.rope(salt).n == cfg.SALT_BYTES)
        if entry in ("decrypt stream", "bundle"):
            good = z3.And(good, core._b(core.rope(iv).n == cfg.IV_BYTES))
        c.prove(core.mkbool(good if r.ok else z3.Not(good)),
                "accepted <=> exactly the configured sizes",
                info=repr(r.exc))
        c.cover("ok" if r.ok else "refused")
    return fn


def any_aad(C, a, entry):
    def fn(c):
        perm.install(c)
        cc.install(c)
        cc.clock(c, C)
        cfg = C._config
        aad = c.bytes("aad", hi=(1 << 32) - 1)
        r = used(C, c, a, entry, c.bytes("salt", cfg.SALT_BYTES), aad,
                 c.bytes("iv", cfg.IV_BYTES))
        c.prove(r.ok, "associated data of every size is accepted",
                info=repr(r.exc))
    return fn


def arg_types(C, a, entry):
    def fn(c):
        perm.install(c)
        cc.install(c)
        cc.clock(c, C)
        cfg = C._config
        S, I = cfg.SALT_BYTES, cfg.IV_BYTES
        good = dict(salt=c.bytes("salt", S), aad=c.bytes("aad", 3),
                    iv=c.bytes("iv", I))
        for name in ("salt", "aad", "iv"):
            if name == "iv" and entry not in ("decrypt stream", "bundle"):
                continue
            for x in OTHER + [Sub(b"x" * S), Sub(b"x" * I), bytearray(S),
                              bytearray(I), "x" * S, "x" * I]:
                if name == "salt" and not x:
                    continue                      # counts as none given
                if name == "iv" and x is None:
                    continue                      # none given: P07
                r = used(C, c, a, entry, **dict(good, **{name: x}))
                c.prove(not r.ok, f"{name} of type {type(x).__name__} is "
                        "refused")
    return fn


def block_ids(C, a, mode):
    def fn(c):
        perm.install(c)
        cfg = C._config
        ci = C(c.bytes("key", 64))
        kw = dict(salt=c.bytes("salt", cfg.SALT_BYTES))
        if mode == "dec":
            kw["iv"] = c.bytes("iv", cfg.IV_BYTES)
        kb = ci._KeyAADBundle(kdfs=ci._kdfs, **kw)
        kb = models.run(kb.async_mode()) if a else kb.sync_mode()
        s = ci._StreamHMAC(kb)
        s = s._for_decryption() if mode == "dec" else s._for_encryption()
        size = c.int("size", -(1 << 70), 1 << 70)
        c.assume(size.e != 0)
        lo, hi = cfg.MIN_BLOCK_ID_BYTES, cfg.MAX_BLOCK_ID_BYTES
        c.prove(16 <= lo <= cfg.BLOCK_ID_BYTES <= hi, "configured bounds")
        r = attempt(s.anext_block_id if a else s.next_block_id,
                    c.bytes("x"), size=size)
        good = z3.And(size.e >= lo, size.e <= hi)
        c.prove(core.mkbool(good if r.ok else z3.Not(good)),
                "made <=> size within bounds", info=repr(r.exc))
        if r.ok:
            c.prove(L(r.value) == size, "of exactly that size")
        u = c.bytes("id")
        r = attempt(s.atest_next_block_id if a else s.test_next_block_id, u,
                    c.bytes("y"))
        if r.ok:
            n = core.rope(u).n
            c.prove(core.mkbool(z3.And(core._b(n >= lo), core._b(n <= hi))),
                    "accepted => size within bounds")
        for x in OTHER + ["x" * 24, bytearray(24), Sub(b"x" * 24)]:
            r = attempt(s.atest_next_block_id if a else
                        s.test_next_block_id, x, c.bytes("y"))
            c.prove(not r.ok, "id that is not bytes is refused")
        s.finalize()
        for x in OTHER + ["x" * 24, bytearray(24), Sub(b"x" * 24),
                          bytearray(32)]:
            r = attempt(s.atest_shmac if a else s.test_shmac, x)
            c.prove(not r.ok, "tag that is not bytes is refused")
    return fn


def proofs(pkg):
    K = ["ciphers/key_bundle.py:SaltAADIV", "ciphers/cipher_interface.py"]
    for C in (pkg.Chunky2048, pkg.Slick256):
        n = C.__name__
        yield Proof(f"{n}.key", key(C), functions=[
            "ciphers/cipher_kdfs.py:CipherKDFs.test_key_validity"],
            min_obligations=2)
        yield Proof(f"{n}.key types", key_types(C), functions=[
            "ciphers/cipher_kdfs.py:CipherKDFs.test_key_validity"],
            min_obligations=2)
        for a in (0, 1):
            for e in ENTRIES:
                if e == "bundle" and a:
                    continue
                t = f"{n}.{e}[{'a' * a}]"
                yield Proof(t + ".sizes", sizes(C, a, e), functions=K,
                            min_obligations=2)
                yield Proof(t + ".aad", any_aad(C, a, e), functions=K,
                            min_obligations=1)
                yield Proof(t + ".types", arg_types(C, a, e), functions=K,
                            min_obligations=20)
            for m in ("enc", "dec"):
                yield Proof(f"{n}.block ids[{'a' * a},{m}]",
                            block_ids(C, a, m), functions=[
                                "ciphers/stream_hmac.py"],
                            min_obligations=10)
