"""
P05  online streams: every chunking, every interleaving

State invariant of an encryption stream (T = inner header ++ data fed so far)
    blocks handed to the junction ++ queue == T, every queue element but the
    last is one block, the last is shorter, byte count == |data|
State invariant of a decryption stream (R = blocks the junction returned)
    before the header is removed: queue == R, all elements one block
    afterwards: header ++ released ++ queue == R
Each operation is proved from an arbitrary state satisfying the invariant
(any number of queued blocks, any contents), so every history is covered.
"""
from vf import cipher_contracts as cc
from vf import core, models, perm, streams
from vf.runner import Proof
from vf.streams import Step
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
CM, DM = "aiootp.ciphers.cipher_streams", "aiootp.ciphers.decipher_streams"
LOOPS = [(CM, "CipherStream._digest_data"),
         (CM, "AsyncCipherStream._adigest_data"),
         (DM, "DecipherStream._digest_data"),
         (DM, "AsyncDecipherStream._adigest_data")]
ASSUMPTIONS = [
    "block level behaviour of the ciphers (contract of the junction) is "
    "proved in P01, block IDs in P06",
]


def new_enc(c, C, a):
    g = streams.install(c, C)
    cc.clock(c, C)
    ci = C(c.bytes("key", 64))
    kw = dict(salt=c.bytes("salt", C._config.SALT_BYTES),
              aad=c.bytes("aad", 5))
    s = models.run(ci.astream_encrypt(**kw)) if a else ci.stream_encrypt(
        **kw)
    return s, g


def new_dec(c, C, a):
    g = streams.install(c, C)
    cc.clock(c, C)
    ci = C(c.bytes("key", 64))
    cfg = C._config
    kw = dict(salt=c.bytes("salt", cfg.SALT_BYTES), aad=c.bytes("aad", 5),
              iv=c.bytes("iv", cfg.IV_BYTES))
    s = models.run(ci.astream_decrypt(**kw)) if a else ci.stream_decrypt(
        **kw)
    return s, g


def any_queue(c, q, tag, B, last=None):
    """havoc: k whole blocks, then possibly a partial one"""
    k = c.int(tag + ".blocks", 0)
    mid = c.bytes(tag + ".mid", core.mkint(k.e * B))
    q.put(mid, k, [] if last is None else [last])
    return k


def enc_state(c, s, g, B, tag, H):
    """arbitrary state of the encryption stream; returns T as (sent, queue)"""
    last = c.bytes(tag + ".last", hi=B - 1)
    any_queue(c, s._buffer, tag, B, last)
    sent_blocks = c.int(tag + ".sent", 0)
    queued = L(s._buffer.content())
    c.assume(sent_blocks * B + queued >= H)
    s._byte_count = sent_blocks * B + queued - H


def need(cond, what):
    if not cond:
        raise core.Unsupported(f"invariant not found: {what}")


def enc_shape(c, q, B, what):
    """every element but the last is a block, the last is shorter"""
    if not q:
        c.fail(f"{what}: the queue keeps a last element")
        return
    last = q[-1]
    c.prove(L(last) < B, f"{what}: last element is partial")
    for x in q.front[:-1] if not q.back else q.front + q.back[:-1]:
        c.prove(L(x) == B, f"{what}: elements before the last are blocks")


class DigestCut:
    """`while True: block = data(B); append(block); if short: break`"""

    def __init__(self, s, B):
        self.s, self.B = s, B
        self.on = True

    def head(self, c, vals):
        q, B = self.s._buffer, self.B
        bio = c.state["bytesio"][-1]
        # every queued element is a whole block here
        for x in q.front + q.back:
            need(c.entails(bexpr(L(x) == B)), "queue of whole blocks")
        need(type(q) is not None, "queue")
        self.total = concat([q.content(), core.sub(
            bio._d, bio._p, bio._d.n)])
        p0 = bio._p
        j = c.int("loop.j", 0)
        c.assume(num(j) * B <= core.nsub(bio._d.n, p0))
        base, k0 = q.content(), len(q.front) + q.k + len(q.back)
        got = core.sub(bio._d, p0, core.nadd(p0, num(j) * B))
        q.put(concat([base, got]), k0 + j)
        bio._p = core.nadd(p0, num(j) * B)
        self.bio = bio
        self.state()
        return vals

    def state(self):
        self.k1 = self.s._buffer.__len__()

    def back(self, c, vals):
        q, B = self.s._buffer, self.B
        for x in q.front + q.back:
            need(c.entails(bexpr(L(x) == B)), "queue of whole blocks")
        now = concat([q.content(), core.sub(
            self.bio._d, self.bio._p, self.bio._d.n)])
        need(core.same_rope(now, self.total), "queue ++ rest is constant")
        need(c.entails(bexpr(q.__len__() == self.k1 + 1)), "one per round")
        raise core.ProofStop


def lid(m, q, n=0):
    return repr((m, q, n))


def enc_init(C, a):
    def fn(c):
        s, g = new_enc(c, C, a)
        H = C._config.TIMESTAMP_BYTES + C._config.SIV_KEY_BYTES
        c.prove(L(s._buffer.content()) == H, "starts with the inner header")
        enc_shape(c, s._buffer, C._config.BLOCKSIZE, "init")
        c.prove(s._byte_count % C._config.BLOCKSIZE == 0, "no data counted")
        c.prove(not g.pulled, "nothing sent")
    return fn


def enc_buffer(C, a):
    def fn(c):
        s, g = new_enc(c, C, a)
        cfg = C._config
        B, H = cfg.BLOCKSIZE, cfg.INNER_HEADER_BYTES
        enc_state(c, s, g, B, "st", H)
        cut = DigestCut(s, B)
        q = "AsyncCipherStream._adigest_data" if a else (
            "CipherStream._digest_data")
        c.cuts[lid(CM, q)] = cut
        before, count = s._buffer.content(), s._byte_count
        x = c.bytes("data")
        r = attempt(getattr(s, "a" * a + "buffer"), x)
        if not r.ok:
            c.fail("buffer accepts any bytes", info=repr(r.exc)[:200])
            return
        c.prove(r.value is s, "buffer returns the stream")
        c.prove_bytes_eq(s._buffer.content(), concat([before, x]),
                         "queue ++= data")
        # the count matters only for the size of the padding
        c.prove((s._byte_count - count - L(x)) % B == 0,
                "byte count += |data| (up to whole blocks)")
        c.prove(not g.pulled, "nothing is sent by buffering")
        enc_shape(c, s._buffer, B, "buffer")
        c.cover("end")
    return fn


def enc_iter(C, a):
    def fn(c):
        s, g = new_enc(c, C, a)
        cfg = C._config
        B, H = cfg.BLOCKSIZE, cfg.INNER_HEADER_BYTES
        it = Step(s, a)
        for rnd in ("first", "later"):
            # the caller may buffer anything between two reads
            enc_state(c, s, g, B, rnd, H)
            before = s._buffer.content()
            n0 = len(g.pulled)
            ok, v = it.next()
            if not ok:
                c.prove(v is None, f"{rnd}: iteration ends normally",
                        info=repr(v))
                c.prove_bytes_eq(s._buffer.content(), before,
                                 f"{rnd}: nothing lost at the end")
                c.prove(s._buffer.__len__() <= cfg.MIN_STREAM_QUEUE,
                        f"{rnd}: stops only when blocks must be held back")
                enc_shape(c, s._buffer, B, rnd)
                return
            c.prove(len(g.pulled) == n0 + 1, f"{rnd}: one block per item")
            if len(g.pulled) != n0 + 1:
                return
            c.prove_bytes_eq(concat([g.pulled[-1], s._buffer.content()]),
                             before, f"{rnd}: first block of the queue")
            c.prove(v[1] is g.made[-1], f"{rnd}: yields what was made of it")
            c.prove(v[0] is g.ids[-1][0] and g.ids[-1][1] is v[1],
                    f"{rnd}: with the id of this block")
            enc_shape(c, s._buffer, B, rnd)
            c.cover(rnd)
    return fn


def enc_final(C, a):
    def fn(c):
        s, g = new_enc(c, C, a)
        cfg = C._config
        B, H = cfg.BLOCKSIZE, cfg.INNER_HEADER_BYTES
        enc_state(c, s, g, B, "st", H)
        before, count = s._buffer.content(), s._byte_count
        pad = []

        def end_padding(c, f, self, size):
            c.prove((size - count) % B == 0,
                    "padding is computed for all the data")
            r = f(size)
            if a:
                async def go():
                    x = await r
                    pad.append(x)
                    return x
                return go()
            pad.append(r)
            return r
        n_ = "Padding." + "a" * a + "end_padding"
        c.contracts[("aiootp.ciphers.padding", n_)] = end_padding
        it = Step(s.afinalize() if a else s.finalize(), a)
        ok, v = it.next()
        if not ok:
            c.fail("finalize yields a last packet", info=repr(v))
            return
        whole = concat([before, pad[0]])
        c.prove(L(whole) % B == 0, "data ++ padding is whole blocks")
        c.prove_bytes_eq(concat(g.pulled + [s._buffer.content()]), whole,
                         "first packet: sent ++ queue == data ++ padding")
        c.prove(v[1] is g.made[-1], "yields what was made")
        c.prove(g.ids[-1][1] is v[1] and g.ids[-1][0] is v[0], "with its id")
        for x in s._buffer.front + s._buffer.back:
            c.prove(L(x) == B, "only whole blocks remain")
        c.prove(g.finalized == 0, "the tag is not made early")
        # any later moment: any number of whole blocks left
        any_queue(c, s._buffer, "later", B)
        left = s._buffer.content()
        n0 = len(g.pulled)
        ok, v = it.next()
        if ok:
            c.prove_bytes_eq(concat(g.pulled[n0:] + [s._buffer.content()]),
                             left, "later packet: next block of the queue")
            c.prove(len(g.pulled) == n0 + 1, "one block per packet")
            c.prove(v[1] is g.made[-1] and v[0] is g.ids[-1][0],
                    "later packet: yields what was made")
            c.cover("later")
        else:
            c.prove(v is None, "ends normally", info=repr(v))
            c.prove(L(left) == 0, "ends only when everything was sent")
            c.prove(g.finalized == 1, "the tag is made at the end, once")
            c.cover("done")
    return fn


class PacketCut:
    """decryption: one packet per round of the digest loop"""

    def __init__(self, s, g, cfg):
        self.s, self.g, self.cfg = s, g, cfg

    def head(self, c, vals):
        s, cfg = self.s, self.cfg
        B, P = cfg.BLOCKSIZE, cfg.PACKETSIZE
        bio = self.bio = c.state["bytesio"][-1]
        need(bio._p == 0, "starts at the first packet")
        need(not s._buffer, "no pending ciphertext")
        j = self.j = c.int("loop.j", 0)
        c.assume(num(j) * P <= bio._d.n)
        bio._p = num(j) * P
        q = s._result_queue
        need(not q.back, "one explicit part")
        done = c.bytes("loop.done", core.mkint(num(j) * B))
        base = q.content()
        if q.front and not c.entails(bexpr(L(q.front[0]) == B)):
            head = q.front[0]
            rest = concat(q.front[1:] + [q.mid])
            n0 = len(q.front) - 1 + q.k
            q.put(concat([rest, done]), n0 + j, front=[head])
        else:
            n0 = len(q.front) + q.k
            q.put(concat([base, done]), n0 + j)
        self.mark = q.content(), q.__len__(), len(self.g.pulled), len(
            self.g.tests)
        self.done = done
        return vals

    def back(self, c, vals):
        s, cfg, g = self.s, self.cfg, self.g
        B, P = cfg.BLOCKSIZE, cfg.PACKETSIZE
        q = s._result_queue
        content, n, n0, t0 = self.mark
        c.prove(len(g.tests) == t0 + 1, "packet: its id is tested once")
        c.prove(len(g.pulled) == n0 + 1, "packet: one block deciphered")
        if len(g.tests) != t0 + 1 or len(g.pulled) != n0 + 1:
            raise core.ProofStop
        p = num(self.j) * P
        I = cfg.BLOCK_ID_BYTES
        d = self.bio._d
        bid = core.sub(d, p, core.nadd(p, I))
        blk = core.sub(d, core.nadd(p, I), core.nadd(p, P))
        c.prove_bytes_eq(g.tests[-1][0], bid, "packet: id read exactly")
        c.prove_bytes_eq(g.tests[-1][1], blk, "packet: block read exactly")
        c.prove_bytes_eq(g.pulled[-1], blk, "packet: that block deciphered")
        c.prove_bytes_eq(q.content(), concat([content, g.made[-1]]),
                         "packet: plaintext block queued last")
        c.prove(q.__len__() == n + 1, "packet: queued as one element")
        need(c.entails(bexpr(core.mkint(self.bio._p) == core.mkint(
            core.nadd(p, P)))), "position")
        raise core.ProofStop


def dec_state(c, s, cfg, tag, trimmed):
    """arbitrary state of the decryption stream"""
    B, H = cfg.BLOCKSIZE, cfg.INNER_HEADER_BYTES
    q = s._result_queue
    any_queue(c, q, tag, B)
    if trimmed:
        s._is_streaming = True
        s._bytes_to_trim = 0
        if c.bool(tag + ".headshort"):
            head = c.bytes(tag + ".head", B - H)
            q.front = [head]
    return q.content()


def dec_buffer(C, a, trimmed):
    def fn(c):
        s, g = new_dec(c, C, a)
        cfg = C._config
        B, P = cfg.BLOCKSIZE, cfg.PACKETSIZE
        before = dec_state(c, s, cfg, "st", trimmed)
        n_before = s._result_queue.__len__()
        cut = PacketCut(s, g, cfg)
        q = "AsyncDecipherStream._adigest_data" if a else (
            "DecipherStream._digest_data")
        c.cuts[lid(DM, q)] = cut
        n = c.int("packets", 1)
        data = c.bytes("data", core.mkint(n.e * P))
        trim = s._bytes_to_trim, s._is_streaming
        r = attempt(getattr(s, "a" * a + "buffer"), data)
        if not r.ok:
            c.fail("genuine packets are accepted", info=repr(r.exc)[:200])
            return
        c.prove(r.value is s, "buffer returns the stream")
        if not hasattr(cut, "j"):
            raise core.Unsupported("digest loop was not cut")
        c.prove(cut.j == n, "every packet was processed")
        c.prove_bytes_eq(s._result_queue.content(),
                         concat([before, cut.done]),
                         "queue ++= one plaintext block per packet")
        c.prove(s._result_queue.__len__() == n_before + n, "as elements")
        c.prove((s._bytes_to_trim, s._is_streaming) == trim,
                "reading state unchanged")
        c.cover("end")
    return fn


def dec_iter(C, a, trimmed):
    def fn(c):
        s, g = new_dec(c, C, a)
        cfg = C._config
        B, H = cfg.BLOCKSIZE, cfg.INNER_HEADER_BYTES
        before = dec_state(c, s, cfg, "st", trimmed)
        if not trimmed:
            c.assume(bexpr(s._result_queue.__len__() >= 1))
        if not trimmed:
            before = before[H:]       # the header is dropped, nothing else
        it = Step(s, a)
        for rnd in ("first", "later"):
            ok, v = it.next()
            q = s._result_queue
            c.prove(s._bytes_to_trim == 0, f"{rnd}: header removed")
            if not ok:
                c.prove(v is None, f"{rnd}: ends normally", info=repr(v))
                c.prove_bytes_eq(q.content(), before,
                                 f"{rnd}: nothing lost at the end")
                c.prove(q.__len__() <= cfg.MIN_STREAM_QUEUE,
                        f"{rnd}: ends only when blocks must be held back")
                return
            c.prove_bytes_eq(concat([v, q.content()]), before,
                             f"{rnd}: releases the front of the queue")
            c.prove(q.__len__() >= cfg.MIN_STREAM_QUEUE,
                    f"{rnd}: padding is held back")
            c.cover(rnd)
            # any later moment
            before = dec_state(c, s, cfg, "later", True)
    return fn


def dec_final(C, a, trimmed):
    """the rest of the stream: queue == rest ++ padding"""
    def fn(c):
        s, g = new_dec(c, C, a)
        cfg = C._config
        B, H = cfg.BLOCKSIZE, cfg.INNER_HEADER_BYTES
        q = s._result_queue

        # any number of blocks, then rest ++ padding with its sentinel
        def queue(tag, trimmed):
            short = trimmed and c.bool(tag + ".short")
            only = short and c.bool(tag + ".only")
            n = B - H if only else B
            pad_n = c.int(tag + ".pad", 1, n)
            tail = c.bytes(tag + ".tail", core.mkint(n - pad_n.e))
            filler = c.bytes(tag + ".filler", core.mkint(pad_n.e - 1))
            sent = core.int_to_bytes(pad_n % B, 1, "big")
            last = concat([tail, filler, sent])
            if only:
                q.put(b"", 0, [last])
                return tail
            k = any_queue(c, q, tag, B, last)
            body = q.mid
            if short:
                head = c.bytes(tag + ".head", B - H)
                q.front = [head]
                body = concat([head, body])
            return concat([body, tail])
        want = queue("st", trimmed)
        if trimmed:
            s._is_streaming, s._bytes_to_trim = True, 0
        else:
            c.assume(bexpr(L(want) >= H))
            want = want[H:]
        it = Step(s.afinalize() if a else s.finalize(), a)
        for rnd in ("first", "later"):
            ok, v = it.next()
            if not ok:
                c.prove(v is None, f"{rnd}: finalize ends normally",
                        info=repr(v))
                c.prove(L(want) == 0, f"{rnd}: ends when all was released")
                c.prove(g.finalized == 1, "tag computed once")
                c.cover("end")
                return
            c.prove(L(v) <= B, f"{rnd}: at most a block per item")
            c.prove(g.finalized == 1, f"{rnd}: tag computed once")
            if c.entails(bexpr(L(v) == L(want))):
                c.prove_bytes_eq(v, want, f"{rnd}: the whole rest")
                ok, v = it.next()
                c.prove(not ok and v is None, f"{rnd}: nothing follows")
                return
            n = L(v)
            c.prove_bytes_eq(v, want[:n], f"{rnd}: a prefix of the rest")
            if not q or rnd == "later":
                return
            # the tail is still queued: go on from any such state
            c.prove_bytes_eq(
                q.content()[:core.mkint(core.nsub(num(L(want)), num(n)))],
                want[n:], f"{rnd}: the rest stays queued")
            want = queue("later", True)
            s._bytes_to_trim = 0
    return fn


def proofs(pkg):
    for C in (pkg.Chunky2048, pkg.Slick256):
        n = C.__name__
        for a in (0, 1):
            p = "async " * a
            E = [f"ciphers/cipher_streams.py:{'Async' * a}CipherStream",
                 "ciphers/padding.py", "_gentools.py:popleft"]
            D = [f"ciphers/decipher_streams.py:{'Async' * a}DecipherStream",
                 "ciphers/padding.py", "_gentools.py:popleft"]
            yield Proof(f"{n}.{p}encrypt.init", enc_init(C, a), functions=E)
            yield Proof(f"{n}.{p}encrypt.buffer", enc_buffer(C, a),
                        functions=E, min_obligations=4)
            yield Proof(f"{n}.{p}encrypt.iter", enc_iter(C, a), functions=E,
                        min_obligations=6)
            yield Proof(f"{n}.{p}encrypt.finalize", enc_final(C, a),
                        functions=E, min_obligations=6)
            for t in (0, 1):
                w = "header removed" if t else "start"
                yield Proof(f"{n}.{p}decrypt.buffer[{w}]",
                            dec_buffer(C, a, t), functions=D,
                            min_obligations=6)
                yield Proof(f"{n}.{p}decrypt.iter[{w}]", dec_iter(C, a, t),
                            functions=D, min_obligations=4)
                yield Proof(f"{n}.{p}decrypt.finalize[{w}]",
                            dec_final(C, a, t), functions=D,
                            min_obligations=3)
