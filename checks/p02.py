"""
P02  accepting implies the tag covers exactly these inputs

header     key, salt, associated data and IV are encoded prefix-free in the
           transcripts of the tag and of both key streams
separation sessions of one key that differ in salt, associated data or IV
           have different transcripts
blocks     each block enters the transcript exactly once and in order, from
           any state of the session
tag        the tag is an output of at least 24 bytes of the whole transcript
           and the comparison accepts that value only
accept     normal return of a decrypt method on ANY bytes implies that the tag
           matched header, associated data and every block
"""
from vf import cipher_contracts as cc
from vf import core, models, perm
from vf.lockstep import Side, snapshot
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
ASSUMPTIONS = [
    "forgery resistance is A-IDEAL: an accepted tag equals the XOF output "
    "for the transcript; the lemmas prove transcripts of different inputs "
    "differ, so acceptance of anything not produced under the key and aad "
    "would be a collision or a guessed tag",
]


def inputs(c, C, tag, fixed=False):
    """fixed: sizes are irrelevant because the state is havocked"""
    cfg = C._config
    return (c.bytes(tag + "key", 64) if fixed else c.bytes(
                tag + "key", lo=64),
            dict(salt=c.bytes(tag + "salt", cfg.SALT_BYTES),
                 aad=c.bytes(tag + "aad", 5) if fixed else c.bytes(
                     tag + "aad", hi=(1 << 32) - 1),
                 iv=c.bytes(tag + "iv", cfg.IV_BYTES)))


def session(C, is_async, key, kw):
    ci = C(key)
    kb = ci._KeyAADBundle(kdfs=ci._kdfs, **kw)
    kb = models.run(kb.async_mode()) if is_async else kb.sync_mode()
    return ci._StreamHMAC(kb)._for_decryption()


def header(C):
    """key, salt, aad and IV are encoded prefix-free in the transcript"""
    def fn(c):
        perm.install(c)
        k1, i1 = inputs(c, C, "1.")
        k2, i2 = inputs(c, C, "2.")
        # keys of different length: bounded part and KNOWN_FINDINGS.txt
        c.assume(core.rope(k1).n == core.rope(k2).n)
        s1 = session(C, False, k1, i1)
        s2 = session(C, False, k2, i2)
        t1 = concat([s1._mac.transcript, c.bytes("1.rest")])
        t2 = concat([s2._mac.transcript, c.bytes("2.rest")])
        eq = core.bytes_eq(t1, t2)
        if not eq:
            return
        c.cover("equal transcripts")
        c.prove_bytes_eq(k1, k2, "equal transcripts => same key")
        for n in ("salt", "aad", "iv"):
            c.prove_bytes_eq(i1[n], i2[n], f"equal transcripts => same {n}")
    return fn


def sep(C):
    """sessions of one key differing in salt, aad or IV"""
    def fn(c):
        perm.install(c)
        k1, i1 = inputs(c, C, "1.")
        k2, i2 = inputs(c, C, "2.")
        s1 = session(C, True, k1, i1)
        s2 = session(C, True, k1, i2)
        if core.bytes_eq(s1._mac.transcript, s2._mac.transcript):
            for n in ("salt", "aad", "iv"):
                c.prove_bytes_eq(i1[n], i2[n],
                                 f"equal transcripts => same {n}")
    return fn


def blocks(C, is_async):
    """each block enters the transcript exactly once, in order"""
    def fn(c):
        perm.install(c)
        B = C._config.BLOCKSIZE
        sides = []
        for t in ("1.", "2."):
            k, i = inputs(c, C, t, True)
            sides.append(Side(C(k), i, True, is_async))
        s1, s2 = sides

        def step(name):
            before = [s.shmac._mac.transcript for s in sides]
            xs = [c.bytes(f"{name}.{j}", B) for j in (1, 2)]
            for s, x in zip(sides, xs):
                s.step(x)
            after = [s.shmac._mac.transcript for s in sides]
            added = [core.nsub(core.rope(a).n, core.rope(b).n)
                     for a, b in zip(after, before)]
            for a in added:
                if core.isz(a):
                    raise core.Unsupported("block adds a varying amount")
            c.prove(added[0] == added[1], f"{name}: fixed amount per block")
            c.prove(added[0] >= B, f"{name}: whole block absorbed")
            for a, b, n in zip(after, before, added):
                c.prove_bytes_eq(a[:-n], b, f"{name}: transcript extended")
            tails = [core.rope_slice(core.rope(a), slice(-n, None))
                     for a, n in zip(after, added)]
            return xs, tails, added[0]

        def separate(name, xs, tails):
            if core.bytes_eq(*tails):
                c.prove_bytes_eq(xs[0], xs[1],
                                 f"{name}: equal transcripts => equal block")
                c.cover(name)
        for s in sides:
            sn = snapshot(c, s)
            scramble(c, sn, sn, everything=True)
        first = step("first")
        second = step("second")
        c.prove(True, "reached")
        a1 = [snapshot(c, s) for s in sides]
        step("third")
        a2 = [snapshot(c, s) for s in sides]
        for s1_, s2_ in zip(a1, a2):
            scramble(c, s1_, s2_)
        anyb = step("any")
        c.prove(anyb[2] == second[2], "every later block adds the same size")
        which = c.int("which", 0, 2)
        if which == 0:
            separate("first", *first[:2])
        elif which == 1:
            separate("second", *second[:2])
        else:
            separate("any", *anyb[:2])
    return fn


def scramble(c, s1, s2, everything=False):
    """replace what the loop changes by unrelated fresh values"""
    if [x[:2] for x in s1] != [x[:2] for x in s2]:
        raise core.Unsupported("state shape changes between iterations")
    done = set()
    for x1, x2 in zip(s1, s2):
        if x2[1] in ("const", "alias") or (
            x1[3] == x2[3] and not everything
        ):
            continue
        if everything and not (
            x2[1] == "xof" or x2[0].endswith("_digest")
        ):
            continue
        o = x2[2]
        if id(o) in done:
            continue
        done.add(id(o))
        if x2[1] == "xof":
            o._parts = [c.fresh_bytes("any.T", None)]
        elif x2[1] == "symbytes":
            f = c.fresh_bytes("any.D", core.mkint_or(o.n))
            o.segs, o.n = f.segs, f.n
        else:
            raise core.Unsupported("changing symbolic int leaf")


def tag(C, is_async):
    """the tag is a (>= 24 byte) output of the whole transcript and the
    comparison accepts that value only"""
    def fn(c):
        perm.install(c)
        res = []
        ts = []
        for t in ("1.", "2."):
            k, i = inputs(c, C, t, True)
            s = session(C, is_async, k, i)
            T = c.bytes(t + "T")
            s._mac._parts = [T]
            r = attempt(s.afinalize if is_async else s.finalize)
            if not r.ok:
                c.fail("finalize returns", info=repr(r.exc))
                return
            c.prove(L(r.value) == C._config.SHMAC_BYTES, "tag size")
            c.prove_bytes_eq(s.result, r.value, "result is the tag")
            u = c.bytes(t + "untrusted")
            y = attempt(s.atest_shmac if is_async else s.test_shmac, u)
            if y.ok:
                c.prove_bytes_eq(u, r.value, "accepted => equal to the tag")
            else:
                c.prove(core.bnot(core.bytes_eq(u, r.value)),
                        "refused => different from the tag")
                return
            res.append(r.value)
            ts.append(T)
        if core.bytes_eq(*res):
            c.prove_bytes_eq(ts[0], ts[1], "equal tags => equal transcripts")
    return fn


def accept(C, is_async, kind):
    """normal return of decrypt => the tag matches header, aad and blocks"""
    def fn(c):
        perm.install(c)
        cc.install(c)
        cfg = C._config
        key = c.bytes("key", lo=64)
        aad = c.bytes("aad", hi=(1 << 32) - 1)
        data = c.bytes("data")
        set_clock_seconds(c, cfg.EPOCH_NS)
        ci = C(key)
        name = {"bytes": "bytes_decrypt", "json": "json_decrypt",
                "token": "read_token"}[kind]
        arg = models.m_b64e(data) if kind == "token" else data
        r = attempt(getattr(ci, "a" * is_async + name), arg, aad=aad)
        if not r.ok:
            return
        S, A, I = cfg.SHMAC_BYTES, cfg.SALT_BYTES, cfg.IV_BYTES
        c.prove(core.mkbool(z3.And(
            core._b(core.rope(data).n > S + A + I),
            core._b((core.rope(data).n - (S + A + I)) % cfg.BLOCKSIZE == 0)
        )), "accepted => possible length")
        kb = C(key)._KeyAADBundle(
            kdfs=C(key)._kdfs, salt=data[S:S + A], aad=aad,
            iv=data[S + A:S + A + I])
        kb = models.run(kb.async_mode()) if is_async else kb.sync_mode()
        s = ci._StreamHMAC(kb)._for_decryption()
        ls = cc.state_leaves(s)
        cc.advance(c, ls, cc.state_key(ls), data[S + A + I:])
        want = s.finalize() if not is_async else models.run(s.afinalize())
        c.prove_bytes_eq(data[:S], want,
                         "accepted => tag of exactly these inputs")
        c.cover("accepted")
    return fn


def proofs(pkg):
    for C in (pkg.Chunky2048, pkg.Slick256):
        n = C.__name__
        F = ["ciphers/cipher_kdfs.py", "ciphers/key_bundle.py",
             "generics/canon.py", "generics/transform.py"]
        yield Proof(f"{n}.header", header(C), functions=F,
                    min_obligations=4, max_paths=4000, budget_s=200)
        yield Proof(f"{n}.separation", sep(C), functions=F,
                    min_obligations=3)
        for a in (False, True):
            yield Proof(f"{n}.blocks[{'a' * a}]", blocks(C, a),
                        functions=["ciphers/stream_hmac.py"],
                        min_obligations=10)
            yield Proof(f"{n}.tag[{'a' * a}]", tag(C, a),
                        functions=["ciphers/stream_hmac.py"],
                        min_obligations=4)
            for kind in ("bytes", "token"):
                yield Proof(f"{n}.accept.{kind}[{'a' * a}]",
                            accept(C, a, kind),
                            functions=["ciphers/cipher_interface.py"],
                            min_obligations=2)
