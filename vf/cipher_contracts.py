"""
Contracts used when the message level functions are verified.

batch/abatch(sequence, size)       proved in checks/p12.py
    yields consecutive `size` byte chunks whose concatenation is `sequence`
bytes_encipher/bytes_decipher      proved by lockstep induction (checks/p01.py)
    requires: the datastream is a whole, positive number of blocks
    ensures:  with S the session state at the call and p the joined input,
              encipher yields E(S, p), |E(S, p)| = |p|
              decipher yields D(S, c), D(S, E(S, p)) = p
              both leave the session in the state N(S, c)
The bodies' own argument/mode checks still run: the real function is called
with a proof-supplied stream before its result is replaced.
"""
from . import core, models
from .core import *  # noqa
from .lockstep import Feed, skip
from .util import *  # noqa

JM = "aiootp.ciphers.stream_junction"
GM = "aiootp._gentools"


class Batch:
    """result of batch(): a generator of chunks known by its source"""

    def __init__(self, data, size):
        self.data = data
        self.size = size

    def __iter__(self):
        raise Unsupported("batch of symbolic length iterated")

    __aiter__ = __next__ = send = __iter__


def state_leaves(shmac):
    out = []
    for x in leaves((shmac, shmac._key_bundle), skip):
        if x[1] in ("xof", "symbytes", "symint"):
            out.append(x)
    return out


def state_key(ls):
    return tuple(fingerprint(x) for x in ls)


def advance(c, ls, S, ct):
    """N(S, c): new values of every mutable leaf of the session"""
    ck = rope(ct).key()
    done = set()
    for i, (p, k, v) in enumerate(ls):
        if id(v) in done:
            continue
        if k == "xof":
            done.add(id(v))
            n = c.fn_int(f"statelen{i}", rope(ct).n)
            c.assume(n >= 0)
            v._parts = [c.fn_bytes(("N", S, ck, i), SymInt(n))]
        elif k == "symbytes" and p.endswith("_digest"):
            done.add(id(v))
            f = c.fn_bytes(("N", S, ck, i), core.mkint_or(v.n))
            v.segs, v.n = f.segs, f.n


def junction(decrypt, is_async):
    def spec(c, f, cls, data, *, shmac):
        if type(data) is not Batch:
            return f(data, shmac=shmac)
        feed = Feed()
        real = f(feed.agen() if is_async else feed.gen(), shmac=shmac)
        cfg = shmac.config
        r = rope(data.data)
        c.prove(
            mkbool(z3.And(core._b(data.size == cfg.BLOCKSIZE),
                          core._b(r.n % cfg.BLOCKSIZE == 0),
                          core._b(r.n > 0))),
            "junction.requires: whole positive number of blocks",
        )

        def result():
            ls = state_leaves(shmac)
            S = state_key(ls)
            if decrypt:
                ct = r
                hit = c.state.setdefault("E", {}).get((S, r.key()))
                if hit is None:
                    for (s2, _), (e2, p2) in c.state["E"].items():
                        if s2 == S and core.same_rope(e2, r):
                            hit = (e2, p2)
                out = hit[1] if hit is not None else c.fn_bytes(
                    ("D", S, r.key()), core.mkint_or(r.n))
            else:
                ct = c.fn_bytes(("E", S, r.key()), core.mkint_or(r.n))
                c.state.setdefault("E", {})[(S, ct.key())] = (
                    ct, unrope(r))
                out = ct
            advance(c, ls, S, ct)
            return out

        if is_async:
            async def agen():
                yield result()
            return agen()

        def gen():
            yield result()
        return gen()
    return spec


def batch(c, f, sequence, *, size, **kw):
    if is_symbytes(sequence) and isz(sequence.n) and not kw:
        return Batch(sequence, size)
    return f(sequence, size=size, **kw)


def install(c):
    q = "StreamJunction."
    c.contracts[(JM, q + "bytes_encipher")] = junction(False, False)
    c.contracts[(JM, q + "abytes_encipher")] = junction(False, True)
    c.contracts[(JM, q + "bytes_decipher")] = junction(True, False)
    c.contracts[(JM, q + "abytes_decipher")] = junction(True, True)
    c.contracts[(GM, "batch")] = batch
    c.contracts[(GM, "abatch")] = batch


def session_inputs(c, C):
    cfg = C._config
    return dict(
        key=c.bytes("key", lo=64),
        salt=c.bytes("salt", cfg.SALT_BYTES),
        aad=c.bytes("aad", hi=(1 << 32) - 1),
    )


def clock(c, C):
    return set_clock_seconds(c, C._config.EPOCH_NS)
