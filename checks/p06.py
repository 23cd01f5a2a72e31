"""
P06  packets are authenticated one by one, failures change nothing

id_binding   an accepted ID determines (chaining digest, ID size, aad, block)
digest       the chaining digest determines everything absorbed so far
in_step      the ID the encryption side makes for its block is the one the
             decryption side accepts before deciphering it
frame        testing an ID (accepted or refused) changes no state
refusal      a refused packet at any position of any feed leaves the stream
             as it was after the packets before it; its block is not deciphered
"""
from checks import p05
from vf import core, models, perm
from vf.lockstep import Side, snapshot
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
LOOPS = p05.LOOPS
ASSUMPTIONS = [
    "an ID made without the session state matching the computed one is "
    "A-IDEAL (hash outputs of different transcripts differ / cannot be "
    "guessed); transcripts of different sessions differ by P02",
]


def inputs(c, C, tag, iv=True):
    cfg = C._config
    d = dict(salt=c.bytes(tag + "salt", cfg.SALT_BYTES),
             aad=c.bytes(tag + "aad", 5))
    if iv:
        d["iv"] = c.bytes(tag + "iv", cfg.IV_BYTES)
    return c.bytes(tag + "key", 64), d


def havoc_session(c, shmac, tag, D=None):
    """any later moment of the session: any transcript, any digests"""
    D = D if D is not None else c.bytes(
        tag + "D", C_digest(shmac))
    shmac._mac._parts = [c.bytes(tag + "T")]
    for n in ("_previous_digest", "_current_digest"):
        setattr(shmac, n, D)
    return D


def C_digest(shmac):
    return len(shmac._current_digest) if not core.isz(core.rope(
        shmac._current_digest).n) else None


def state(side):
    return snapshot(None, side)


def same_state(c, a, b, what):
    if [x[:2] for x in a] != [x[:2] for x in b]:
        c.fail(f"{what}: shape of the state unchanged")
        return
    bad = [x[0] for x, y in zip(a, b)
           if x[3] != y[3] and not leaf_same(c, x[:3], y[:3])]
    c.prove(not bad, f"{what}: state unchanged", info=str(bad)[:300])


def id_binding(C, a):
    def fn(c):
        perm.install(c)
        got = []
        for t in ("1.", "2."):
            k, i = inputs(c, C, t)
            s = Side(C(k), i, True, a)
            D = havoc_session(c, s.shmac, t)
            x = c.bytes(t + "block")
            aad = c.bytes(t + "id_aad")
            u = c.bytes(t + "id")
            before = state(s)
            f = s.shmac.atest_next_block_id if a else (
                s.shmac.test_next_block_id)
            r = attempt(f, u, x, aad)
            same_state(c, before, state(s), "id test")
            if not r.ok:
                c.prove(not isinstance(r.exc, (AttributeError, TypeError)),
                        "refused with an error", info=repr(r.exc))
                c.cover("refused")
                return
            c.prove(L(u) >= C._config.MIN_BLOCK_ID_BYTES,
                    "accepted => long enough")
            want = attempt(s.shmac.anext_block_id if a else
                           s.shmac.next_block_id, x, size=L(u), aad=aad)
            c.prove(want.ok, "accepted => an id of this size exists")
            c.prove_bytes_eq(u, want.value, "accepted => the computed id")
            same_state(c, before, state(s), "computing an id")
            got.append((want.value, D, aad, x))
        (u, *p), (w, *q) = got
        if core.bytes_eq(u, w):
            c.cover("equal ids")
            for n, y, z in zip(("chaining digest", "aad", "block"), p, q):
                c.prove_bytes_eq(y, z, f"equal accepted ids => same {n}")
    return fn


def digest(C, a):
    """equal digests after a block => equal transcripts including it"""
    def fn(c):
        perm.install(c)
        ds, ts = [], []
        first = c.bool("first block")
        for t in ("1.", "2."):
            k, i = inputs(c, C, t)
            s = Side(C(k), i, True, a)
            if not first:
                havoc_session(c, s.shmac, t)
                s.step(c.bytes(t + "x", C._config.BLOCKSIZE))
            d = s.shmac._get_block_id_mac()
            c.prove(L(d) >= 16, "digest is long enough")
            ds.append(d)
            ts.append(s.shmac._mac.transcript)
        if core.bytes_eq(*ds):
            c.cover("equal digests")
            c.prove_bytes_eq(ts[0], ts[1], "equal digest => equal transcript")
    return fn


def in_step(C, ea, da):
    """from any common state"""
    def fn(c):
        perm.install(c)
        k, i = inputs(c, C, "", iv=False)
        e = Side(C(k), i, False, ea)
        iv = e.kb.iv
        d = Side(C(k), dict(i, iv=iv), True, da)
        if c.bool("later"):
            D = c.bytes("D", C_digest(e.shmac))
            T = c.bytes("T")
            for s in (e, d):
                s.shmac._mac._parts = [T]
                s.shmac._current_digest = D
            e.shmac._previous_digest = c.bytes("Pe", C_digest(d.shmac))
            d.shmac._previous_digest = c.bytes("Pd", C_digest(d.shmac))
        x = c.bytes("x", C._config.BLOCKSIZE)
        y = e.step(x)
        bid = attempt(e.shmac.anext_block_id if ea else
                      e.shmac.next_block_id, y)
        if not bid.ok:
            c.fail("id of the block just made", info=repr(bid.exc))
            return
        bid = bid.value
        c.prove(L(bid) == C._config.BLOCK_ID_BYTES, "configured size")
        r = attempt(d.shmac.atest_next_block_id if da else
                    d.shmac.test_next_block_id, bid, y)
        c.prove(r.ok, "genuine id accepted", info=repr(r.exc))
        d.step(y)
        c.prove_bytes_eq(e.shmac._current_digest, d.shmac._current_digest,
                         "in step afterwards")
        c.prove_bytes_eq(e.shmac._mac.transcript, d.shmac._mac.transcript,
                         "same transcript afterwards")
        c.cover("end")
    return fn


def refusal(C, a):
    def fn(c):
        s, g = p05.new_dec(c, C, a)
        cfg = C._config
        P = cfg.PACKETSIZE
        trimmed = c.bool("header removed")
        p05.dec_state(c, s, cfg, "st", trimmed)
        cut = p05.PacketCut(s, g, cfg)
        q = "AsyncDecipherStream._adigest_data" if a else (
            "DecipherStream._digest_data")
        c.cuts[p05.lid(p05.DM, q)] = cut
        marks = []

        def refuse(bid, block):
            if c.bool("refuse"):
                marks.append((s._result_queue.content(),
                              s._result_queue.__len__(), len(g.pulled)))
                raise s.InvalidBlockID
        g.refuse = refuse
        n = c.int("packets", 1)
        data = c.bytes("data", core.mkint(n.e * P))
        frame = [(f, getattr(s, f)) for f in (
            "_bytes_to_trim", "_is_streaming", "_ttl", "shmac", "_stream")]
        r = attempt(getattr(s, "a" * a + "buffer"), data)
        if r.ok:
            c.prove(not marks, "buffer returns => no packet was refused")
            return
        c.prove(isinstance(r.exc, s.InvalidBlockID) and len(marks) == 1,
                "only a refused packet stops buffering", info=repr(r.exc))
        if len(marks) != 1:
            return
        content, k, pulled = marks[0]
        res = s._result_queue
        c.prove(len(g.pulled) == pulled, "refused block is not deciphered")
        c.prove_bytes_eq(res.content(), content, "results unchanged")
        c.prove(res.__len__() == k, "number of results unchanged")
        c.prove(not s._buffer, "refused block is not kept")
        for f, v in frame:
            c.prove(getattr(s, f) is v, f"{f} unchanged")
        c.prove(not s._finalizing_now, "still open")
        # the genuine continuation is accepted from here
        g.refuse = None
        c.cuts.clear()
        one = c.bytes("genuine", P)
        r = attempt(getattr(s, "a" * a + "buffer"), one)
        c.prove(r.ok, "continuation accepted", info=repr(r.exc))
        I = cfg.BLOCK_ID_BYTES
        c.prove_bytes_eq(g.tests[-1][0], one[:I], "its id is tested")
        c.prove_bytes_eq(g.pulled[-1], one[I:], "its block is deciphered")
        c.prove_bytes_eq(res.content(), concat([content, g.made[-1]]),
                         "its plaintext follows")
        c.cover("refused")
    return fn


def bad_length(C, a):
    def fn(c):
        s, g = p05.new_dec(c, C, a)
        P = C._config.PACKETSIZE
        p05.dec_state(c, s, C._config, "st", c.bool("header removed"))
        content = s._result_queue.content()
        data = c.bytes("data")
        if core.mkbool(bexpr(L(data) > 0)) and core.mkbool(
            bexpr(L(data) % P == 0)
        ):
            return
        r = attempt(getattr(s, "a" * a + "buffer"), data)
        c.prove(not r.ok and not isinstance(r.exc, (
            AttributeError, TypeError)), "truncated packets are refused")
        c.prove(not g.tests and not g.pulled, "nothing was processed")
        c.prove_bytes_eq(s._result_queue.content(), content,
                         "results unchanged")
        c.cover("refused")
    return fn


def proofs(pkg):
    for C in (pkg.Chunky2048, pkg.Slick256):
        n = C.__name__
        S = ["ciphers/stream_hmac.py"]
        for a in (0, 1):
            p = "async " * a
            D = [f"ciphers/decipher_streams.py:{'Async' * a}DecipherStream"]
            yield Proof(f"{n}.{p}id_binding", id_binding(C, a), functions=S,
                        min_obligations=6)
            yield Proof(f"{n}.{p}digest", digest(C, a), functions=S,
                        min_obligations=3)
            yield Proof(f"{n}.{p}refusal", refusal(C, a), functions=D,
                        min_obligations=10)
            yield Proof(f"{n}.{p}bad_length", bad_length(C, a), functions=D,
                        min_obligations=3)
            for b in (0, 1):
                yield Proof(f"{n}.in_step[{'a' * a},{'a' * b}]",
                            in_step(C, a, b), functions=S,
                            min_obligations=4)
