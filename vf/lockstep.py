"""
Lockstep induction over the real junction generators.

Two sessions (encryption and decryption) run side by side.  The coupling
invariant is: the decryption session's reachable state equals the encryption
session's, leaf by leaf (absorbed XOF transcripts, digests, permutation keys).

  base   after the first block the invariant holds
  step   havoc every leaf that the loop changes (common fresh values where the
         two sides agree, independent fresh values elsewhere), run one block on
         each side, prove the block property and the invariant again
The set of changing leaves is computed from two concrete iterations and is
checked to be closed under the step, so the induction covers every number of
blocks.
"""
import inspect
import types

import z3

from . import core, models
from .core import SymBytes, SymInt, Unsupported
from .util import *  # noqa


class Feed:
    """datastream handed to the junction; the proof supplies each block"""

    def __init__(self):
        self.next = None
        self.pulled = 0

    def gen(self):
        while True:
            if self.next is None:
                return
            b, self.next = self.next, None
            self.pulled += 1
            yield b

    async def agen(self):
        while True:
            if self.next is None:
                return
            b, self.next = self.next, None
            self.pulled += 1
            yield b


class Side:
    def __init__(self, cipher, kb_kw, decrypt, is_async):
        cls = type(cipher)
        self.cipher = cipher
        self.is_async = is_async
        kb = cipher._KeyAADBundle(kdfs=cipher._kdfs, **kb_kw)
        if is_async:
            kb = models.run(kb.async_mode())
        else:
            kb = kb.sync_mode()
        self.kb = kb
        sh = cipher._StreamHMAC(kb)
        self.shmac = sh._for_decryption() if decrypt else (
            sh._for_encryption())
        self.feed = Feed()
        J = cipher._Junction
        if is_async:
            src = self.feed.agen()
            f = J.abytes_decipher if decrypt else J.abytes_encipher
        else:
            src = self.feed.gen()
            f = J.bytes_decipher if decrypt else J.bytes_encipher
        self.gen = f(src, shmac=self.shmac)

    def step(self, block):
        self.feed.next = block
        if self.is_async:
            return models.run(self.gen.__anext__())
        return next(self.gen)

    def finalize(self):
        r = (self.shmac.afinalize() if self.is_async
             else self.shmac.finalize())
        return models.run(r) if inspect.iscoroutine(r) else r

    def root(self):
        return (self.shmac, self.kb, self.gen)


def skip(path, x):
    # constants of the package and the proof's own feed
    if isinstance(x, Feed):
        return True
    if isinstance(x, types.FrameType):
        return True
    t = type(x)
    if t.__name__ in ("Config", "mappingproxy") or t.__name__.endswith(
        "Config"
    ) or t.__name__.endswith("KDFs") and "Session" not in t.__name__:
        return True
    return False


def snapshot(c, side):
    return [(p, k, v, fingerprint((p, k, v)))
            for p, k, v in leaves(side.root(), skip)]


def shape(snap):
    out = []
    for p, k, v, _ in snap:
        if k == "symbytes":
            out.append((p, k, core.nkey(v.n)))
        elif k == "alias":
            out.append((p, k, v))
        elif k == "const":
            out.append((p, k, None))
        else:
            out.append((p, k, None))
    return out


def dead_ok(path):
    return False


def havoc(c, a, b, tag):
    """
    a, b: [(snap1, snap2)] of both sides at two consecutive loop heads.
    Replaces every changing leaf; returns list of (index, common?)
    """
    (a1, a2), (b1, b2) = a, b
    if [x[:2] for x in a1] != [x[:2] for x in a2]:
        raise Unsupported("state shape changes between iterations")
    if [x[:2] for x in a2] != [x[:2] for x in b2]:
        raise Unsupported("sessions have different state shapes")
    plan = []
    done = {}
    for i, (x1, x2, y1, y2) in enumerate(zip(a1, a2, b1, b2)):
        changed = x1[3] != x2[3] or y1[3] != y2[3]
        kind = x2[1]
        if kind in ("const", "alias"):
            if kind == "const" and isinstance(x2[2], (bytes,)) and changed:
                raise Unsupported(f"changing constant leaf {x2[0]}")
            if kind == "const" and isinstance(x2[2], int) and x1[2] != x2[2]:
                raise Unsupported(f"changing native int leaf {x2[0]}")
            continue
        same = leaf_same(c, x2[:3], y2[:3])
        plan.append((i, x2[0], kind, changed, same))
        if not changed:
            continue
        xo, yo = x2[2], y2[2]
        if kind == "xof":
            def fresh():
                return [c.fresh_bytes(f"{tag}.T", None)]
            if id(xo) in done:
                continue
            n = fresh()
            xo._parts = list(n)
            if yo is not xo:
                yo._parts = list(n) if same else fresh()
            done[id(xo)] = done[id(yo)] = True
        elif kind == "symbytes":
            if id(xo) in done and id(yo) in done:
                continue
            f = c.fresh_bytes(f"{tag}.D", core.mkint_or(xo.n))
            xo.segs, xo.n = f.segs, f.n
            if not same:
                f = c.fresh_bytes(f"{tag}.D", core.mkint_or(yo.n))
            if yo is not xo:
                yo.segs, yo.n = list(f.segs), f.n
            done[id(xo)] = done[id(yo)] = True
        else:
            raise Unsupported(f"changing symbolic int leaf {x2[0]}")
    return plan


def check_coupling(c, a, b, plan, name):
    """the leaves the plan says agree must still agree"""
    bad = []
    for i, path, kind, changed, same in plan:
        if same and not leaf_same(c, a[i][:3], b[i][:3]):
            bad.append(path)
    return bad
