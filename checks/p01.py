"""
P01  decrypt(encrypt(x)) == x for every message, key, salt and aad

junction   deciphering inverts enciphering block by block, and both sides stay
           in coupled states: lockstep induction, any number of blocks
bytes, json, token
           whole messages of every length through the public methods, over
           the junction's contract: padding, layout, SIV, tag test, depadding
"""
from vf import cipher_contracts as cc
from vf import core, models, perm
from vf.lockstep import Side, check_coupling, havoc, snapshot
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 2
BUDGET = 45

J = "ciphers/{dual_output_shake_cipher,shake_permute_cipher,stream_hmac," \
    "synthetic_iv,key_bundle,cipher_kdfs}.py"


def induction(C, ea, da):
    """blocks: decipher inverts encipher, for every number of blocks"""
    def fn(c):
        perm.install(c)
        cfg = C._config
        B = cfg.BLOCKSIZE
        i = cc.session_inputs(c, C)
        key = i.pop("key")
        e = Side(C(key), i, False, ea)
        d = Side(C(key), dict(salt=e.kb.salt, aad=i["aad"], iv=e.kb.iv),
                 True, da)

        def block(name):
            p = c.bytes(name, B)
            x = e.step(p)
            c.prove(L(x) == B, f"{name}: ciphertext block is BLOCKSIZE long")
            q = d.step(x)
            c.prove_bytes_eq(q, p, f"{name}: decipher(encipher(b)) == b")
            return x
        block("first")
        block("second")
        a1, b1 = snapshot(c, e), snapshot(c, d)
        block("third")
        a2, b2 = snapshot(c, e), snapshot(c, d)
        plan = havoc(c, (a1, a2), (b1, b2), "h")
        block("any")
        a3, b3 = snapshot(c, e), snapshot(c, d)
        if [x[:2] for x in a3] != [x[:2] for x in a2]:
            raise core.Unsupported("loop state shape is not inductive")
        bad = check_coupling(c, a3, b3, plan, "")
        if bad:
            raise core.Unsupported(f"coupling invariant lost at {bad}")
        m = {x[1] for x in plan if x[3]}
        for x2, x3 in zip(a2, a3):
            if x2[0] not in m and x2[1] in ("symint",) and (
                x2[3] != x3[3]
            ):
                raise core.Unsupported(f"frame: {x2[0]} changed")
        c.prove(True, "coupling invariant is preserved by one block")
        c.prove_bytes_eq(e.finalize(), d.finalize(),
                         "both sides compute the same tag")
        c.cover("end")
    return fn


def message(C, ea, da, kind):
    """whole messages of every length through the public methods"""
    def fn(c):
        perm.install(c)
        cc.install(c)
        cc.clock(c, C)
        i = cc.session_inputs(c, C)
        key = i.pop("key")
        if kind == "token":
            i.pop("salt")
        enc = {"bytes": "bytes_encrypt", "json": "json_encrypt",
               "token": "make_token"}[kind]
        dec = {"bytes": "bytes_decrypt", "json": "json_decrypt",
               "token": "read_token"}[kind]
        data = models.OpaqueJSON("value") if kind == "json" else (
            c.bytes("data"))
        e, d = C(key), C(key)
        x = attempt(getattr(e, ("a" if ea else "") + enc), data, **i)
        if not x.ok:
            c.fail(f"{enc} returns", info=repr(x.exc)[:200])
            return
        if kind == "token" and False:
            return
        y = attempt(getattr(d, ("a" if da else "") + dec), x.value,
                    aad=i["aad"])
        if not y.ok:
            c.fail(f"{dec} accepts what {enc} made",
                   info=repr(y.exc)[:200])
            return
        if kind == "json":
            c.prove(y.value is data, f"{dec}({enc}(x)) == x")
        else:
            c.prove_bytes_eq(y.value, data, f"{dec}({enc}(x)) == x")
        c.cover("end")
    return fn


def proofs(pkg):
    for C in (pkg.Chunky2048, pkg.Slick256):
        n = C.__name__
        for ea in (False, True):
            for da in (False, True):
                yield Proof(
                    f"{n}.junction[{'a' * ea}enc,{'a' * da}dec]",
                    induction(C, ea, da), functions=[J],
                    min_obligations=8)
                for kind in ("bytes", "json", "token"):
                    if kind != "bytes" and ea != da:
                        continue
                    yield Proof(
                        f"{n}.{kind}[{'a' * ea}enc,{'a' * da}dec]",
                        message(C, ea, da, kind),
                        functions=["ciphers/cipher_interface.py",
                                   "ciphers/padding.py",
                                   "ciphers/ciphertext_formatting.py",
                                   "ciphers/key_bundle.py",
                                   "generics/canon.py"],
                        min_obligations=2)
