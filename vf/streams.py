"""
Abstractions for the online streams (checks P05, P06, P03).

SymDeque   a deque holding explicit elements, then any number k of elements
           of exactly `size` bytes known by their concatenation, then explicit
           elements.  Every operation used by the streams is exact on it.
blockwise  contract of the junction per block: pulls the next element of the
           datastream, requires it to be one block, yields one block (what it
           yields is the business of P01).
"""
import types

from . import cipher_contracts as cc
from . import core, models
from .core import *  # noqa
from .util import *  # noqa

SM = "aiootp.ciphers.stream_hmac"


class SymDeque:
    size = None          # block size, set by install()

    def __init__(self, items=()):
        self.front = list(items)
        self.mid, self.k, self.back = b"", 0, []

    def put(self, mid, k, back=(), front=()):
        self.front, self.mid, self.k, self.back = (
            list(front), mid, k, list(back))

    def _settle(self):
        """k == 0 known: everything explicit"""
        if type(self.k) is int and self.k == 0:
            self.front += self.back
            self.mid, self.back = b"", []
            return True
        return False

    def _some(self):
        if self._settle():
            return False
        if self.k > 0:
            return True
        self.k = 0
        self._settle()
        return False

    def __len__(self):
        return len(self.front) + self.k + len(self.back)

    def __bool__(self):
        n = self.__len__()
        return n > 0 if type(n) is int else bool(n > 0)

    def append(self, x):
        (self.front if self._settle() else self.back).append(x)

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def appendleft(self, x):
        self.front.insert(0, x)

    def _expose(self):
        """make the first element explicit"""
        if not self.front and self._some():
            S = self.size
            m = rope(self.mid)
            self.front.append(core.rope_slice(m, slice(0, S)))
            self.mid = core.rope_slice(m, slice(S, None))
            self.k = self.k - 1
        if not self.front:
            raise IndexError("deque index out of range")

    def _expose_last(self):
        if not self.back and self._some():
            S = self.size
            m = rope(self.mid)
            self.back.append(core.rope_slice(m, slice(-S, None)))
            self.mid = core.rope_slice(m, slice(0, -S))
            self.k = self.k - 1
        if self.back:
            return self.back
        if self.front:
            return self.front
        raise IndexError("deque index out of range")

    def popleft(self):
        self._expose()
        return self.front.pop(0)

    def pop(self):
        return self._expose_last().pop()

    def __getitem__(self, i):
        if i == 0:
            self._expose()
            return self.front[0]
        if i == -1:
            return self._expose_last()[-1]
        raise Unsupported("deque index other than the ends")

    def __setitem__(self, i, x):
        if i == 0:
            self._expose()
            self.front[0] = x
        elif i == -1:
            self._expose_last()[-1] = x
        else:
            raise Unsupported("deque index other than the ends")

    def clear(self):
        self.__init__()

    def _vf_pieces(self):
        return self.front + [self.mid] + self.back

    def content(self):
        return concat(self._vf_pieces())

    def __iter__(self):
        if not self._some():
            return iter(list(self.front))
        raise Unsupported("iteration over any number of queued blocks")


class Ghost:
    """what the contracts saw"""

    def __init__(self):
        self.pulled = []      # blocks taken from the datastream
        self.made = []        # blocks the junction yielded
        self.ids = []         # (result, block) of next_block_id
        self.tests = []       # (id, block) given to test_next_block_id
        self.finalized = 0
        self.refuse = None    # block id test outcome


def install(c, C):
    """contracts for everything below the stream layer; returns the ghost"""
    cfg = C._config
    g = Ghost()
    D = type("SymDeque", (SymDeque,), dict(size=cfg.BLOCKSIZE))
    c.state["deque"] = ("aiootp.ciphers", D)

    def junction(is_async):
        def spec(c, f, cls, data, *, shmac):
            f(iter(()), shmac=shmac)          # the body's own checks

            def take(b):
                c.prove(L(b) == cfg.BLOCKSIZE,
                        "junction.requires: one whole block")
                g.pulled.append(b)
                r = c.fresh_bytes("blk", cfg.BLOCKSIZE)
                g.made.append(r)
                return r
            if is_async:
                async def agen():
                    async for b in data:
                        yield take(b)
                return agen()

            def gen():
                for b in data:
                    yield take(b)
            return gen()
        return spec
    for n in ("bytes_encipher", "bytes_decipher"):
        c.contracts[(cc.JM, "StreamJunction." + n)] = junction(False)
        c.contracts[(cc.JM, "StreamJunction.a" + n)] = junction(True)

    def next_id(c, f, self, block, *, size=None, aad=b""):
        r = c.fresh_bytes("bid", cfg.BLOCK_ID_BYTES if size is None
                          else size)
        g.ids.append((r, block))
        return r

    def test_id(c, f, self, bid, block, aad=b""):
        g.tests.append((bid, block))
        if g.refuse is not None:
            g.refuse(bid, block)

    def fin(c, f, self):
        g.finalized += 1
        return b""

    def co(f):
        async def g_(*a, **k):
            return f(*a, **k)
        return lambda *a, **k: g_(*a, **k)
    for n, f in (("next_block_id", next_id), ("test_next_block_id", test_id),
                 ("finalize", fin)):
        c.contracts[(SM, "StreamHMAC." + n)] = f
        c.contracts[(SM, "StreamHMAC.a" + n)] = co(f)
    return g


class Step:
    """item-wise driver of a (sync or async) generator"""

    def __init__(self, it, is_async):
        self.it = it.__aiter__() if is_async else iter(it)
        self.a = is_async

    def next(self):
        """(True, item) | (False, exception or None)"""
        try:
            if self.a:
                return True, models.run(self.it.__anext__())
            return True, next(self.it)
        except (StopIteration, StopAsyncIteration):
            return False, None
        except Exception as e:
            return False, e
