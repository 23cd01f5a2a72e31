"""
P04  layout and length of ciphertexts

layout     encrypting any message gives tag, salt, IV and the smallest number
           of blocks that holds header, message and one byte of padding
split      any byte string: accepted lengths, the fields returned, and that
           impossible lengths are refused before anything is deciphered
"""
from vf import cipher_contracts as cc
from vf import core, models, perm
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 3
BUDGET = 50


def blocks_for(cfg, n):
    """smallest number of blocks holding header, n bytes and one more"""
    B = cfg.BLOCKSIZE
    return (cfg.TIMESTAMP_BYTES + cfg.SIV_KEY_BYTES + n + 1 + B - 1) // B


def made(C, a):
    def fn(c):
        perm.install(c)
        cc.install(c)
        cc.clock(c, C)
        cfg = C._config
        i = cc.session_inputs(c, C)
        data = c.bytes("data")
        x = attempt(getattr(C(i.pop("key")), "a" * a + "bytes_encrypt"),
                    data, **i)
        if not x.ok:
            c.fail("encryption returns", info=repr(x.exc)[:200])
            return
        ct = x.value
        S, A, I, B = (cfg.SHMAC_BYTES, cfg.SALT_BYTES, cfg.IV_BYTES,
                      cfg.BLOCKSIZE)
        k = blocks_for(cfg, L(data))
        c.prove(L(ct) == S + A + I + B * k, "length is the smallest fit")
        c.prove_bytes_eq(ct[S:S + A], i["salt"], "salt field")
        f = attempt(C._Ciphertext, ct, config=cfg)
        if not f.ok:
            c.fail("own ciphertext is splittable", info=repr(f.exc)[:200])
            return
        f = f.value
        for name, lo, hi in (("shmac", 0, S), ("salt", S, S + A),
                             ("iv", S + A, S + A + I),
                             ("ciphertext", S + A + I, None)):
            c.prove_bytes_eq(getattr(f, name), ct[lo:hi], f"field {name}")
        c.cover("end")
    return fn


def split(C, a):
    """any byte string: accepted lengths, fields, and refusal first"""
    def fn(c):
        perm.install(c)
        cc.install(c)
        cc.clock(c, C)
        cfg = C._config
        S, A, I, B = (cfg.SHMAC_BYTES, cfg.SALT_BYTES, cfg.IV_BYTES,
                      cfg.BLOCKSIZE)
        H = S + A + I
        data = c.bytes("ct")
        n = L(data)
        ok = band(n > H, (n - H) % B == 0)
        r = attempt(C._Ciphertext, data, config=cfg)
        bad = C._Ciphertext.InvalidCiphertextSize
        if ok:
            if not r.ok:
                c.fail("possible length accepted", info=repr(r.exc)[:200])
                return
            f = r.value
            c.prove_bytes_eq(concat([f.shmac, f.salt, f.iv, f.ciphertext]),
                             data, "fields are the whole input")
            c.prove(L(f.shmac) == S, "tag size")
            c.prove(L(f.salt) == A, "salt size")
            c.prove(L(f.iv) == I, "IV size")
            c.cover("accepted")
            return
        c.prove(r.raised(bad), "impossible length refused")
        used = []
        ci = C(c.bytes("key", 64))

        def spy(c, f, *x, **k):
            used.append(f)
            return f(*x, **k)
        q = ("aiootp.ciphers.key_bundle", "KeyAADBundle.__init__")
        c.contracts[q] = spy
        for n_ in ("bytes_encipher", "bytes_decipher"):
            for p in ("", "a"):
                c.contracts[(cc.JM, f"StreamJunction.{p}{n_}")] = spy
        r = attempt(getattr(ci, "a" * a + "bytes_decrypt"), data,
                    aad=c.bytes("aad", 4))
        c.prove(r.raised(bad), "decryption of impossible length refused",
                info=repr(r.exc or r.value)[:200])
        c.prove(not used, "refused before any decryption work")
        c.cover("refused")
    return fn


def proofs(pkg):
    F = ["ciphers/cipher_interface.py", "ciphers/padding.py",
         "ciphers/ciphertext_formatting.py"]
    for C in (pkg.Chunky2048, pkg.Slick256):
        n = C.__name__
        for a in (0, 1):
            yield Proof(f"{n}.{'a' * a}bytes_encrypt.layout", made(C, a),
                        functions=F, min_obligations=5)
            yield Proof(f"{n}.split[{'a' * a}bytes_decrypt]", split(C, a),
                        functions=F, min_obligations=4)
