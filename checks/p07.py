"""
P07  sessions are single-use

The control state of a session object is (direction, registered, finalised);
the data state (transcript, digests) is havocked.  For every control state and
every operation the outcome is proved; control states are closed under the
operations, so every history of calls is covered.
"""
import itertools

from checks import p05
from vf import cipher_contracts as cc
from vf import core, models, perm, streams
from vf.runner import Proof
from vf.streams import Step
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 45
LOOPS = p05.LOOPS
ASSUMPTIONS = ["token_bytes returns fresh independent bytes (A-RAND)"]


def bundle(c, C, a, iv):
    ci = C(c.bytes("key", 64))
    cfg = C._config
    kw = dict(salt=c.bytes("salt", cfg.SALT_BYTES), aad=c.bytes("aad", 5))
    if iv:
        kw["iv"] = c.bytes("iv", cfg.IV_BYTES)
    kb = ci._KeyAADBundle(kdfs=ci._kdfs, **kw)
    kb = models.run(kb.async_mode()) if a else kb.sync_mode()
    return ci, kb


class Session:
    def __init__(self, c, C, a, iv, mode, reg, fin):
        self.c, self.C, self.a = c, C, a
        self.ci, self.kb = bundle(c, C, a, iv)
        s = self.s = self.ci._StreamHMAC(self.kb)
        if mode:
            (s._for_encryption if mode == "enc" else s._for_decryption)()
        self.gen = None
        if reg:
            self.feed = []
            self.gen = self.junction(mode, a)
        D = c.bytes("D", len(s._current_digest))
        s._mac._parts = [c.bytes("T")]
        s._current_digest = D
        s._previous_digest = c.bytes("P", len(D))
        self.tag = None
        if fin:
            r = attempt(s.afinalize if fin == "a" else s.finalize)
            self.tag = r.value

    def junction(self, d, a):
        J = self.ci._Junction
        f = getattr(J, ("a" if a else "") + "bytes_" + (
            "encipher" if d == "enc" else "decipher"))
        feed = self.feed = []

        def src():
            while feed:
                yield feed.pop()

        async def asrc():
            while feed:
                yield feed.pop()
        return f(asrc() if a else src(), shmac=self.s)


def control(C, iv, mode, reg, fin, a):
    def fn(c):
        perm.install(c)
        cfg = C._config

        def new():
            return Session(c, C, a, iv, mode, reg, fin)
        ops = []
        for d in ("enc", "dec"):
            ops.append(("direction " + d, lambda S, d=d: (
                S.s._for_encryption if d == "enc" else S.s._for_decryption
            )(), mode is None and (d == "dec") == bool(iv)))
            for b in (0, 1):
                ops.append((f"junction {d} {'a' * b}", lambda S, d=d, b=b:
                            S.junction(d, b),
                            not reg and mode == d and a == b))
        for b in (0, 1):
            ops.append((f"finalize {'a' * b}", lambda S, b=b: attempt(
                S.s.afinalize if b else S.s.finalize).get(),
                not fin if mode else None))
            ops.append((f"test tag {'a' * b}", lambda S, b=b: attempt(
                S.s.atest_shmac if b else S.s.test_shmac,
                S.tag if S.tag is not None else c.bytes("u")).get(),
                bool(fin)))
            ops.append((f"block id {'a' * b}", lambda S, b=b: attempt(
                S.s.anext_block_id if b else S.s.next_block_id,
                c.bytes("x")).get(), False if fin else None))
        ops.append(("result", lambda S: S.s.result, bool(fin)))
        ops.append(("update", lambda S: S.s._update(c.bytes("x", 32)),
                    False if fin or mode is None else True))
        if reg and fin:
            def go(S):
                S.feed.append(c.bytes("blk", cfg.BLOCKSIZE))
                ok, v = Step(S.gen, S.a).next()
                if not ok:
                    raise v or StopIteration
            ops.append(("block after finalising", go, False))
        which = c.int("op", 0, len(ops) - 1)
        for j, (name, op, allowed) in enumerate(ops):
            if which == j:
                break
        S = new()
        was = S.s.mode
        r = attempt(op, S)
        if allowed is None:
            return
        if allowed:
            c.prove(r.ok, f"{name}: allowed", info=repr(r.exc))
        else:
            c.prove(not r.ok, f"{name}: refused")
        if S.tag is not None:
            c.prove_bytes_eq(S.s.result, S.tag, f"{name}: tag unchanged")
        if name.startswith("finalize") and r.ok:
            c.prove_bytes_eq(S.s.result, r.value, "result is the tag")
        if mode and not fin:
            c.prove(S.s.mode == was, f"{name}: direction kept")
        if name.startswith("direction") and r.ok and mode is None:
            for f in (S.s._for_encryption, S.s._for_decryption):
                c.prove(not attempt(f).ok, f"{name}: then fixed")
        if name.startswith("junction") and r.ok:
            for d in ("enc", "dec"):
                for b in (0, 1):
                    c.prove(not attempt(S.junction, d, b).ok,
                            f"{name}: no second stream")
    return fn


def fresh(C, a, given):
    """every encryption draws its own IV (and salt unless given)"""
    def fn(c):
        perm.install(c)
        cc.install(c)
        cc.clock(c, C)
        ci = C(c.bytes("key", 64))
        cfg = C._config
        kw = dict(aad=c.bytes("aad", 5))
        if given:
            kw["salt"] = c.bytes("salt", cfg.SALT_BYTES)
        S, A, I = cfg.SHMAC_BYTES, cfg.SALT_BYTES, cfg.IV_BYTES
        drawn = []
        for k in (1, 2):
            ct = attempt(getattr(ci, "a" * a + "bytes_encrypt"),
                         c.bytes("data", 3), **kw)
            st = attempt(getattr(ci, "a" * a + "stream_encrypt"), **kw)
            if not (ct.ok and st.ok):
                c.fail("encryption returns", info=repr(ct.exc or st.exc))
                return
            for salt, iv in ((ct.value[S:S + A], ct.value[S + A:S + A + I]),
                             (st.value.salt, st.value.iv)):
                c.prove(L(iv) == I and L(salt) == A, "sizes")
                drawn.append(iv)
                if given:
                    c.prove_bytes_eq(salt, kw["salt"], "the given salt")
                else:
                    drawn.append(salt)
        # every one is a whole draw of the entropy source, none is reused
        seen = set()
        for x in drawn:
            r = core.rope(x)
            c.prove(len(r.segs) == 1 and str(r.segs[0][0]).find("rand") >= 0
                    and r.segs[0][1] == 0, "drawn from the entropy source",
                    info=str(r.segs)[:100])
            key = r.key()
            c.prove(key not in seen, "drawn anew every time")
            seen.add(key)
    return fn


def stream_control(C, a, enc):
    """streams: nothing after finalize, one finalize"""
    def fn(c):
        s, g = (p05.new_enc if enc else p05.new_dec)(c, C, a)
        cfg = C._config
        B = cfg.BLOCKSIZE
        if not enc:
            s._result_queue.append(c.bytes("body", B))
            s._result_queue.append(concat([c.bytes("tail", B - 1), b"\x01"]))
        it = Step(s.afinalize() if a else s.finalize(), a)
        ok = True
        for _ in range(9):
            if ok:
                ok, v = it.next()
        if ok or v is not None:
            c.fail("finalize ends", info=repr(v))
            return
        n0, p0 = len(g.pulled), g.finalized
        data = c.bytes("late", cfg.PACKETSIZE)
        r = attempt(getattr(s, "a" * a + "buffer"), data)
        c.prove(not r.ok, "buffer after finalize is refused")
        ok, v = Step(s.afinalize() if a else s.finalize(), a).next()
        c.prove(not ok and v is not None, "second finalize is refused")
        c.prove(len(g.pulled) == n0 and g.finalized == p0,
                "nothing was processed")
        c.cover("end")
    return fn


def proofs(pkg):
    S = ["ciphers/stream_hmac.py", "ciphers/key_bundle.py",
         "ciphers/stream_junction.py"]
    for C in (pkg.Chunky2048, pkg.Slick256):
        n = C.__name__
        for a in (0, 1):
            for iv, mode, reg, fin in itertools.product(
                (0, 1), (None, "enc", "dec"), (0, 1), ("", "s", "a")
            ):
                if mode == "enc" and iv or mode == "dec" and not iv:
                    continue
                if not mode and (reg or fin):
                    continue
                yield Proof(f"{n}.control[{'a' * a},{'iv' * iv},{mode},"
                            f"{'reg' * reg},{'fin' + fin if fin else ''}]",
                            control(C, iv, mode, reg, fin, a), functions=S,
                            min_obligations=8)
            for e in (0, 1):
                yield Proof(f"{n}.closed stream[{'a' * a},"
                            f"{'enc' if e else 'dec'}]",
                            stream_control(C, a, e), functions=[
                                "ciphers/cipher_streams.py",
                                "ciphers/decipher_streams.py"],
                            min_obligations=3)
            for g in (0, 1):
                yield Proof(f"{n}.fresh[{'a' * a},{'salt given' * g}]",
                            fresh(C, a, g),
                            functions=["ciphers/key_bundle.py:SaltAADIV"],
                            min_obligations=8)
